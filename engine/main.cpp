// cve: contract verification engine. Reads linked bitcode of the real sources + a harness, discharges the
// obligations of one harness function.
#include "exec.h"
#include <llvm/Bitcode/BitcodeWriter.h>
#include <llvm/IR/IRBuilder.h>
#include <llvm/IR/LegacyPassManager.h>
#include <llvm/IR/Verifier.h>
#include <llvm/IRReader/IRReader.h>
#include <llvm/Linker/Linker.h>
#include <llvm/Passes/PassBuilder.h>
#include <llvm/Support/Regex.h>
#include <llvm/Support/SourceMgr.h>
#include <llvm/Support/raw_ostream.h>
#include <llvm/Transforms/IPO/GlobalDCE.h>
#include <llvm/Transforms/IPO/Internalize.h>
#include <llvm/Transforms/Utils/Cloning.h>
#include <fstream>
#include <iostream>
#include <sstream>
using namespace llvm;

struct Rule { std::string kind, target; std::unique_ptr<Regex> re; std::string text; uint64_t hits = 0; };
static std::vector<Rule> rules;
static std::map<std::string, std::set<std::string>> stubbed;   // kind -> functions

static void readConfig(const std::string& path) {
  std::ifstream in(path);
  std::string line;
  while (std::getline(in, line)) {
    std::istringstream is(line);
    std::string k, re, t;
    if (!(is >> k) || k[0] == '#') continue;
    is >> re;
    if (k == "replace") is >> t;
    Rule r;
    r.kind = k;
    r.target = t;
    r.text = re;
    for (auto& c : re) if (c == '~') c = ' ';      // '~' stands for a blank in patterns
    r.re = std::make_unique<Regex>(re);
    rules.push_back(std::move(r));
  }
}
static void dce(Module& m, const std::set<std::string>& keep) {
  PassBuilder pb;
  LoopAnalysisManager lam; FunctionAnalysisManager fam; CGSCCAnalysisManager cam; ModuleAnalysisManager mam;
  pb.registerModuleAnalyses(mam); pb.registerCGSCCAnalyses(cam); pb.registerFunctionAnalyses(fam); pb.registerLoopAnalyses(lam);
  pb.crossRegisterProxies(lam, fam, cam, mam);
  ModulePassManager mpm;
  mpm.addPass(InternalizePass([keep](const GlobalValue& g) { return keep.count(g.getName().str()) > 0; }));
  mpm.addPass(GlobalDCEPass());
  mpm.run(m, mam);
}
static void makeBody(Function& f, const std::string& kind, Module& m) {
  f.deleteBody();
  f.setComdat(nullptr);
  f.setLinkage(GlobalValue::InternalLinkage);
  f.removeFnAttr(Attribute::NoReturn);
  f.setPersonalityFn(nullptr);
  auto* bb = BasicBlock::Create(m.getContext(), "entry", &f);
  IRBuilder<> b(bb);
  if (kind == "emptystr") {
    auto fn = m.getOrInsertFunction("v_rt_empty_string", FunctionType::get(b.getVoidTy(), {b.getPtrTy()}, false));
    b.CreateCall(fn, {f.getArg(0)});
  } else if (kind == "external") {
    auto fn = m.getOrInsertFunction("v_external", FunctionType::get(b.getVoidTy(), {b.getPtrTy()}, false));
    b.CreateCall(fn, {b.CreateGlobalStringPtr(demangled(f.getName().str()))});
  } else if (kind == "unreachable") {
    b.CreateUnreachable();
    return;
  }
  if (f.getReturnType()->isVoidTy()) b.CreateRetVoid();
  else b.CreateRet(Constant::getNullValue(f.getReturnType()));
}
// contract of std::find over a contiguous range of bytes: the position of the first equal byte, or the end
static bool findByteBody(Function& f, Module& m) {
  if (f.arg_size() != 3 || !f.getReturnType()->isPointerTy() || f.isDeclaration()) return false;
  for (auto& a : f.args()) if (!a.getType()->isPointerTy()) return false;
  f.deleteBody();
  f.setComdat(nullptr);
  f.setLinkage(GlobalValue::InternalLinkage);
  f.setPersonalityFn(nullptr);
  auto* bb = BasicBlock::Create(m.getContext(), "entry", &f);
  IRBuilder<> b(bb);
  auto fn = m.getOrInsertFunction("memchr", FunctionType::get(b.getPtrTy(), {b.getPtrTy(), b.getInt32Ty(), b.getInt64Ty()}, false));
  auto* byte = b.CreateZExt(b.CreateLoad(b.getInt8Ty(), f.getArg(2)), b.getInt32Ty());
  auto* n = b.CreateSub(b.CreatePtrToInt(f.getArg(1), b.getInt64Ty()), b.CreatePtrToInt(f.getArg(0), b.getInt64Ty()));
  auto* r = b.CreateCall(fn, {f.getArg(0), byte, n});
  b.CreateRet(b.CreateSelect(b.CreateICmpEQ(r, ConstantPointerNull::get(b.getPtrTy())), f.getArg(1), r));
  return true;
}
static std::string js(const std::string& s) {
  std::string r = "\"";
  for (unsigned char c : s) {
    if (c == '"' || c == '\\') { r += '\\'; r += char(c); }
    else if (c < 32 || c > 126) { char b[8]; snprintf(b, 8, "\\u%04x", c); r += b; }
    else r += char(c);
  }
  return r + "\"";
}
template <class C> static std::string jlist(const C& c) {
  std::string r = "[";
  bool first = true;
  for (auto& x : c) { if (!first) r += ", "; first = false; r += js(x); }
  return r + "]";
}

int main(int argc, char** argv) {
  std::string in, rt, entry, native, out, dump;
  Engine eng;
  unsigned timeout = 20000;
  bool undef = false;
  for (int i = 1; i < argc; ++i) {
    std::string a = argv[i];
    auto next = [&] { return std::string(argv[++i]); };
    if (a == "--rt") rt = next();
    else if (a == "--entry") entry = next();
    else if (a == "--config") readConfig(next());
    else if (a == "--native") native = next();
    else if (a == "--out") out = next();
    else if (a == "--dump") dump = next();
    else if (a == "--timeout") timeout = std::stoul(next());
    else if (a == "--time") eng.opt.timeLimit = std::stod(next());
    else if (a == "--unroll") eng.opt.maxUnroll = std::stoul(next());
    else if (a == "--insts") eng.opt.maxPathInsts = std::stoull(next());
    else if (a == "--tokens") eng.opt.tokens = next();
    else if (a == "--samples") eng.opt.samples = std::stoi(next());
    else if (a == "--overflow") eng.opt.signedOverflow = true;
    else if (a == "-v") eng.opt.verbose = true;
    else if (a == "--undef") undef = true;
    else in = a;
  }
  LLVMContext ctx;
  SMDiagnostic err;
  auto m = parseIRFile(in, err, ctx);
  if (!m) { err.print("cve", errs()); return 2; }
  // contract / stub substitution
  std::vector<Function*> fs;
  for (auto& f : *m) fs.push_back(&f);
  std::vector<std::string> finds;
  for (auto* f : fs) {
    if (f->isIntrinsic() || f->getName().starts_with("v_")) continue;
    std::string d = demangled(f->getName().str());
    for (auto& r : rules) {
      if (!r.re->match(d)) continue;
      ++r.hits;
      if (r.kind == "keep") break;
      if (r.kind == "findbyte") { finds.push_back(f->getName().str()); break; }
      if (r.kind == "replace") {
        auto* t = m->getFunction(r.target);
        if (!t) { errs() << "no replacement function " << r.target << "\n"; return 2; }
        if (t == f) break;
        f->replaceAllUsesWith(t);
        stubbed["replace"].insert(d + " => " + r.target);
      } else {
        makeBody(*f, r.kind, *m);
        stubbed[r.kind].insert(d.substr(0, d.find('(')));
      }
      break;
    }
  }
  if (!m->getFunction(entry)) { errs() << "no entry " << entry << "\n"; return 2; }
  std::set<std::string> keep{entry, "llvm.global_ctors"};
  dce(*m, keep);
  if (undef) {     // development aid: what is needed and not defined
    for (auto& f : *m) if (f.isDeclaration() && !f.isIntrinsic()) std::cout << f.getName().str() << "\n";
    for (auto& g : m->globals()) if (g.isDeclaration()) std::cout << g.getName().str() << "\n";
    _exit(0);
  }
  std::unique_ptr<Module> nat;
  if (!native.empty()) nat = CloneModule(*m);
  for (auto& n : finds)
    if (auto* f = m->getFunction(n))
      if (findByteBody(*f, *m)) stubbed["contract"].insert(demangled(n).substr(0, 100));
  if (!rt.empty()) {
    auto r = parseIRFile(rt, err, ctx);
    if (!r) { err.print("cve", errs()); return 2; }
    // constructors of the runtime are not needed
    if (Linker::linkModules(*m, std::move(r), Linker::Flags::LinkOnlyNeeded)) { errs() << "link failed\n"; return 2; }
    dce(*m, keep);
  }
  solverInit(timeout, dump);
  eng.init(m.get());
  auto s0 = std::make_unique<State>();
  try { eng.runCtors(*s0); }
  catch (std::exception& e) { errs() << "ctors: " << e.what() << "\n"; return 2; }
  if (nat) {
    for (auto* f : eng.badInits) if (auto* g = nat->getFunction(f->getName())) if (!g->isDeclaration()) makeBody(*g, "skip", *nat);
    std::vector<Function*> ext;
    for (auto& f : *nat) {
      if (f.isIntrinsic()) continue;
      if (f.isDeclaration()) {
        std::string d = demangled(f.getName().str());
        if (d.find("casual::") != std::string::npos) ext.push_back(&f);
      } else f.addFnAttr(Attribute::SanitizeAddress);
    }
    for (auto* f : ext) makeBody(*f, "external", *nat);
    std::error_code ec;
    raw_fd_ostream os(native, ec);
    WriteBitcodeToFile(*nat, os);
  }
  try { eng.explore(std::move(s0), m->getFunction(entry)); }
  catch (std::exception& e) { eng.incomplete[std::string("engine: ") + e.what()]++; }
  eng.join();
  out += out.empty() ? "" : eng.self;
  std::ostringstream j;
  uint64_t vcs = 0, solver = 0, failed = 0, unknown = 0;
  for (auto& [n, o] : eng.obligations) { vcs += o.vcs; solver += o.solver; failed += o.failed; unknown += o.unknown; }
  j << "{\n \"entry\": " << js(entry) << ",\n \"status\": "
    << js(!eng.violations.empty() ? "violated" : eng.incomplete.empty() ? (eng.completed ? "proved" : "vacuous") : "incomplete")
    << ",\n \"paths\": " << eng.paths << ", \"completed\": " << eng.completed << ", \"killed\": " << eng.killed
    << ", \"instructions\": " << eng.insts << ",\n \"seconds\": " << eng.elapsed() << ",\n \"vcs\": " << vcs
    << ", \"solver_vcs\": " << solver << ", \"failed\": " << failed << ", \"unknown\": " << unknown << ",\n \"solver\": {\"queries\": " << g_stats.queries << ", \"sat\": " << g_stats.sat
    << ", \"unsat\": " << g_stats.unsat << ", \"unknown\": " << g_stats.unknown << ", \"cached\": " << g_stats.cacheHits << ", \"seconds\": " << g_stats.seconds
    << ", \"max_seconds\": " << g_stats.maxSeconds << "},\n \"terms\": " << exprCount() << ",\n \"obligations\": {";
  bool first = true;
  for (auto& [n, o] : eng.obligations) {
    j << (first ? "\n  " : ",\n  ") << js(n) << ": {\"kind\": " << js(o.kind) << ", \"vcs\": " << o.vcs << ", \"solver\": " << o.solver << ", \"failed\": " << o.failed << ", \"unknown\": " << o.unknown << "}";
    first = false;
  }
  j << "},\n \"covers\": " << jlist(eng.covers) << ",\n \"bounds\": " << jlist(eng.bounds) << ",\n \"functions\": [";
  first = true;
  for (auto& f : eng.fnExecuted) {
    if (f.find("casual::") == std::string::npos && f.find("h_") != 0) continue;
    if (f.substr(0, f.find('(')).find("std::") != std::string::npos && f.rfind("casual::", 0) != 0) continue;
    j << (first ? "" : ", ") << js(f.substr(0, 200));
    first = false;
  }
  j << "],\n \"functions_executed\": " << eng.fnExecuted.size() << ",\n \"incomplete\": {";
  first = true;
  for (auto& [k, v] : eng.incomplete) { j << (first ? "" : ", ") << js(k) << ": " << v; first = false; }
  j << "},\n \"stubs\": {";
  first = true;
  for (auto& [k, v] : stubbed) { j << (first ? "" : ", ") << js(k) << ": " << jlist(v); first = false; }
  j << "},\n \"violations\": [";
  first = true;
  auto ins = [&](auto& v) {
    std::string r = "[";
    bool f1 = true;
    for (auto& [n, h] : v) { r += std::string(f1 ? "" : ", ") + "[" + js(n) + ", " + js(h) + "]"; f1 = false; }
    return r + "]";
  };
  for (auto& v : eng.violations) {
    j << (first ? "\n  {" : ",\n  {") << "\"name\": " << js(v.name) << ", \"kind\": " << js(v.kind) << ", \"where\": " << js(v.where) << ", \"detail\": " << js(v.detail)
      << ", \"stack\": " << jlist(v.stack) << ", \"inputs\": " << ins(v.inputs) << ", \"inputs_alt\": " << ins(v.inputsAlt) << "}";
    first = false;
  }
  j << "],\n \"parts\": [";
  for (size_t i = 0; i < eng.forked.size(); ++i) j << (i ? ", " : "") << eng.forked[i];
  j << "],\n \"samples\": [";
  first = true;
  for (auto& sm : eng.samples) {
    j << (first ? "\n  {" : ",\n  {") << "\"inputs\": " << ins(sm.inputs) << ", \"trace\": [";
    for (size_t i = 0; i < sm.trace.size(); ++i) j << (i ? ", " : "") << "\"" << sm.trace[i] << "\"";
    j << "]}";
    first = false;
  }
  j << "]\n}\n";
  if (out.empty()) std::cout << j.str();
  else std::ofstream(out) << j.str();
  _exit(0);
}
