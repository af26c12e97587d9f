// Symbolic execution of LLVM IR: instructions, calls, exceptions, obligations.
#include "exec.h"
#include <llvm/Demangle/Demangle.h>
#include <llvm/IR/Constants.h>
#include <llvm/IR/DebugInfoMetadata.h>
#include <llvm/IR/GetElementPtrTypeIterator.h>
#include <llvm/IR/Operator.h>
#include <llvm/ADT/APSInt.h>
#include <llvm/Support/raw_ostream.h>
#include <algorithm>
#include <cerrno>
#include <csignal>
#include <fcntl.h>
#include <iostream>
#include <sys/mman.h>
#include <sys/prctl.h>
#include <sys/wait.h>
#include <unistd.h>
using namespace llvm;

Engine* g_engine = nullptr;
static E c64(uint64_t v) { return mkConst(v, 64); }
std::string demangled(const std::string& n) {
  std::string d = llvm::demangle(n);
  // drop __cxx11 noise
  for (size_t p; (p = d.find("__cxx11::")) != std::string::npos;) d.erase(p, 9);
  return d;
}

// ------------------------------------------------------------------ logic
bool Engine::contains(const State& s, E c) {
  for (size_t i = s.pc.size(); i-- > 0;) if (s.pc[i] == c) return true;
  for (size_t i = s.known.size(); i-- > 0;) if (s.known[i] == c) return true;
  return false;
}
static void addConj(std::vector<E>& pc, E c) {
  if (c->w == 1 && c->k == K::And) { addConj(pc, c->a); addConj(pc, c->b); return; }
  if (c->isConst()) return;
  for (size_t i = pc.size(); i-- > 0;) if (pc[i] == c) return;
  pc.push_back(c);
}
void Engine::assume(State& s, E c) {
  if (c->isConst()) { if (c->c.isZero()) throw PathEnd{"assume"}; return; }
  if (contains(s, c)) return;
  if (eval(s, c).isZero() || !s.facts.empty()) {
    auto box = std::make_shared<ModelBox>();
    Sat r = solve(s.pc, c, s.facts, s.model->m, box->m);
    if (r == Sat::Unsat) throw PathEnd{"assume"};
    if (r == Sat::Unknown) s.uncertain = true;
    else s.model = box;
  }
  addConj(s.pc, c);
}
int Engine::decide(State& s, E c) {
  if (c->isConst()) return !c->c.isZero();
  if (contains(s, c)) return 1;
  E n = mkNot(c);
  if (contains(s, n)) return 0;
  bool mv = !eval(s, c).isZero();
  Model m;
  Sat r = solve(s.pc, mv ? n : c, s.facts, s.model->m, m);
  if (r == Sat::Unsat) return mv ? 1 : 0;
  return -1;
}
bool Engine::branch(State& s, E c, bool user) {
  if (c->isConst()) return !c->c.isZero();
  if (contains(s, c)) return true;
  E n = mkNot(c);
  if (contains(s, n)) return false;
  bool mv = !eval(s, c).isZero();
  E mine = mv ? c : n, other = mv ? n : c;
  auto box = std::make_shared<ModelBox>();
  Sat r = solve(s.pc, other, s.facts, s.model->m, box->m);
  if (r == Sat::Unsat) { s.known.push_back(mine); return mv; }
  if (s.initPhase) throw Unsupported("symbolic branch in static initialisation");
  if (user) {
    auto& f = s.frames.back();
    if (++f.forks[f.pc] > int(opt.maxUnroll)) {
      incomplete["unroll limit at " + where(s)]++;
      throw PathEnd{"unroll"};
    }
  }
  static const bool profile = getenv("CVE_FORKS");
  if (profile) errs() << "fork: " << where(s) << "\n";
  auto cl = std::make_unique<State>(s);
  addConj(cl->pc, other);
  if (r == Sat::Sat) cl->model = box;
  else { cl->uncertain = true; }
  work.push_back(std::move(cl));
  addConj(s.pc, mine);
  return mv;
}
uint64_t Engine::concretize(State& s, E e) {
  if (e->isConst()) return e->u();
  uint64_t v = eval(s, e).getZExtValue();
  auto& f = s.frames.back();
  if (++f.forks[-1 - f.pc] > 300) { incomplete["concretisation limit at " + where(s)]++; throw PathEnd{"concretize"}; }
  // branch always continues in the side the model satisfies
  branch(s, mkEq(e, mkConst(v, e->w)), false);
  return v;
}
std::string Engine::where(State& s) {
  // innermost frame with a location in casual or harness code
  std::string first;
  for (size_t i = s.frames.size(); i-- > 0;) {
    auto& f = s.frames[i];
    if (f.pc >= int(f.fi->insts.size())) continue;
    const Instruction* I = f.fi->insts[f.pc].I;
    if (auto& dl = I->getDebugLoc()) {
      std::string file = dl->getScope()->getFilename().str();
      std::string loc = file + ":" + std::to_string(dl->getLine());
      if (first.empty()) first = loc;
      if (file.find("/c++/") == std::string::npos) return loc;
    }
  }
  return first.empty() ? "?" : first;
}
std::vector<std::string> Engine::stack(State& s) {
  std::vector<std::string> r;
  for (size_t i = s.frames.size(); i-- > 0;) {
    auto& f = s.frames[i];
    std::string loc = "?";
    if (f.pc < int(f.fi->insts.size()))
      if (auto& dl = f.fi->insts[f.pc].I->getDebugLoc()) loc = dl->getScope()->getFilename().str() + ":" + std::to_string(dl->getLine());
    r.push_back(f.fi->dem.substr(0, 160) + " at " + loc);
    if (r.size() > 25) break;
  }
  return r;
}
std::vector<std::pair<std::string, std::string>> Engine::inputsUnder(State& s, const Model& m) {
  std::vector<std::pair<std::string, std::string>> r;
  std::unordered_map<E, APInt> memo;
  static const char* hx = "0123456789abcdef";
  for (auto& in : s.inputs) {
    std::string h;
    auto put = [&](unsigned v) { h += hx[(v >> 4) & 15]; h += hx[v & 15]; };
    if (in.arr) {
      uint64_t n = evalExpr(in.len, m, memo).getZExtValue();
      if (n > (1u << 22)) { r.push_back({in.name, "huge:" + std::to_string(n)}); continue; }
      auto it = m.arrs.find(in.arr->arrId);
      for (uint64_t i = 0; i < n; ++i) {
        unsigned v = 0;
        if (it != m.arrs.end()) { auto b = it->second.find(i); if (b != it->second.end()) v = b->second; else v = 0x41; }
        else v = 0x41;
        put(v);
      }
    } else
      for (E b : in.bytes) put(unsigned(evalExpr(b, m, memo).getZExtValue()));
    r.push_back({in.name, h});
  }
  return r;
}
void Engine::report(State& s, const std::string& name, const std::string& kind, const Model& m0, E extra) {
  Model m = m0;
  int same = 0;
  for (auto& v : violations) if (v.name == name) ++same;
  if (same >= 2 || int(violations.size()) >= opt.maxViolations) return;
  // prefer small sizes
  if (!s.sizes.empty()) {
    for (uint64_t lim : {16ull, 256ull, 65536ull}) {
      E e = extra;
      for (E z : s.sizes) e = mkAnd(e, mkCmp(K::Ule, z, mkConst(lim, z->w)));
      Model t;
      if (solve(s.pc, e, s.facts, m0, t) == Sat::Sat) { m = t; break; }
    }
  }
  Violation v;
  v.name = name;
  v.kind = kind;
  v.where = where(s);
  v.stack = stack(s);
  v.detail = toString(extra, 5).substr(0, 600);
  v.inputs = inputsUnder(s, m);
  v.inputsAlt = inputsUnder(s, m0);
  violations.push_back(v);
}
// the obligation: cond holds on every state reaching this point
bool Engine::check(State& s, E cond, const std::string& name, const std::string& kind) {
  if (s.initPhase) { if (cond->isConst() && !cond->c.isZero()) return true; throw Unsupported("obligation in static initialisation: " + name); }
  auto& o = obligations[name];
  o.kind = kind;
  o.vcs++;
  if (cond->isConst() && !cond->c.isZero()) return true;
  if (!cond->isConst() && contains(s, cond)) return true;
  E bad = mkNot(cond);
  if (bad->isConst() && bad->c.isZero()) return true;
  o.solver++;
  Model m;
  Sat r;
  if (bad->isConst() && s.facts.empty() && !s.uncertain) { r = Sat::Sat; m = s.model->m; }
  else if (bad->isConst()) {
    // constant failure: is the path itself feasible?
    E t = s.pc.empty() ? nullptr : s.pc.back();
    if (!t) { r = Sat::Sat; m = s.model->m; }
    else {
      E all = mkTrue();
      for (E x : s.pc) all = mkAnd(all, x);
      std::vector<E> none;
      r = solve(none, all, s.facts, s.model->m, m);
    }
  } else r = solve(s.pc, bad, s.facts, s.model->m, m);
  if (r == Sat::Unsat) { if (!cond->isConst()) s.known.push_back(cond); else throw PathEnd{"infeasible"}; return true; }
  if (r == Sat::Unknown) {
    o.unknown++;
    incomplete["solver gave up on: " + name]++;
  } else {
    o.failed++;
    report(s, name, kind, m, bad);
  }
  if (cond->isConst()) { return false; }
  // continue under the assumption that it holds
  if (eval(s, cond).isZero()) {
    auto box = std::make_shared<ModelBox>();
    Sat q = solve(s.pc, cond, s.facts, s.model->m, box->m);
    if (q == Sat::Unsat) return false;
    if (q == Sat::Sat) s.model = box; else s.uncertain = true;
  }
  addConj(s.pc, cond);
  return true;
}

// ------------------------------------------------------------------ types and constants
unsigned Engine::leaves(Type* t, std::vector<unsigned>& w) {
  if (t->isVoidTy() || t->isLabelTy() || t->isMetadataTy()) return 0;
  if (auto* i = dyn_cast<IntegerType>(t)) { w.push_back(i->getBitWidth()); return 1; }
  if (t->isPointerTy()) { w.push_back(64); return 1; }
  if (t->isFloatTy()) { w.push_back(32); return 1; }
  if (t->isDoubleTy()) { w.push_back(64); return 1; }
  if (t->isX86_FP80Ty()) { w.push_back(80); return 1; }
  unsigned n = 0;
  if (auto* st = dyn_cast<StructType>(t)) { for (Type* e : st->elements()) n += leaves(e, w); return n; }
  if (auto* at = dyn_cast<ArrayType>(t)) { for (uint64_t i = 0; i < at->getNumElements(); ++i) n += leaves(at->getElementType(), w); return n; }
  if (auto* vt = dyn_cast<FixedVectorType>(t)) { for (uint64_t i = 0; i < vt->getNumElements(); ++i) n += leaves(vt->getElementType(), w); return n; }
  throw Unsupported("type");
}
void Engine::layout(Type* t, uint64_t off, std::vector<std::pair<unsigned, unsigned>>& out) {
  if (auto* st = dyn_cast<StructType>(t)) {
    auto* sl = DL->getStructLayout(st);
    for (unsigned i = 0; i < st->getNumElements(); ++i) layout(st->getElementType(i), off + sl->getElementOffset(i), out);
    return;
  }
  if (auto* at = dyn_cast<ArrayType>(t)) {
    uint64_t es = DL->getTypeAllocSize(at->getElementType());
    for (uint64_t i = 0; i < at->getNumElements(); ++i) layout(at->getElementType(), off + i * es, out);
    return;
  }
  if (auto* vt = dyn_cast<FixedVectorType>(t)) {
    uint64_t es = DL->getTypeAllocSize(vt->getElementType());
    for (uint64_t i = 0; i < vt->getNumElements(); ++i) layout(vt->getElementType(), off + i * es, out);
    return;
  }
  std::vector<unsigned> w;
  leaves(t, w);
  out.push_back({unsigned(off), w[0]});
}
void Engine::constLeaves(const Constant* c, std::vector<E>& out) {
  Type* t = c->getType();
  if (t->isAggregateType() || t->isVectorTy()) {
    unsigned n = isa<StructType>(t) ? cast<StructType>(t)->getNumElements()
                 : isa<ArrayType>(t) ? cast<ArrayType>(t)->getNumElements()
                                     : cast<FixedVectorType>(t)->getNumElements();
    for (unsigned i = 0; i < n; ++i) {
      const Constant* e = c->getAggregateElement(i);
      if (!e) throw Unsupported("constant aggregate");
      constLeaves(e, out);
    }
    return;
  }
  out.push_back(constExpr(c));
}
E Engine::constExpr(const Constant* c) {
  if (auto* i = dyn_cast<ConstantInt>(c)) return mkConst(i->getValue());
  if (isa<ConstantPointerNull>(c)) return c64(0);
  if (auto* f = dyn_cast<ConstantFP>(c)) return mkConst(f->getValueAPF().bitcastToAPInt());
  if (isa<UndefValue>(c)) {
    std::vector<unsigned> w;
    leaves(c->getType(), w);
    return mkConst(0, w[0]);
  }
  if (auto* f = dyn_cast<Function>(c)) {
    auto it = funcAddr.find(f);
    if (it != funcAddr.end()) return c64(it->second);
    funcs.push_back(f);
    uint64_t a = FUNC_BASE + funcs.size() * 16;
    funcAddr[f] = a;
    return c64(a);
  }
  if (auto* a = dyn_cast<GlobalAlias>(c)) return constExpr(a->getAliasee());
  if (auto* g = dyn_cast<GlobalVariable>(c)) {
    auto it = globalId.find(g);
    if (it == globalId.end()) throw Unsupported("global " + g->getName().str());
    return c64(addrOf(it->second));
  }
  if (auto* ce = dyn_cast<ConstantExpr>(c)) {
    switch (ce->getOpcode()) {
      case Instruction::GetElementPtr: {
        APInt off(64, 0);
        if (!cast<GEPOperator>(ce)->accumulateConstantOffset(*DL, off)) throw Unsupported("constant gep");
        return mkAdd(constExpr(ce->getOperand(0)), mkConst(off));
      }
      case Instruction::PtrToInt: case Instruction::IntToPtr: case Instruction::BitCast: case Instruction::Trunc:
      case Instruction::ZExt: {
        E x = constExpr(ce->getOperand(0));
        std::vector<unsigned> w;
        leaves(ce->getType(), w);
        return w[0] == x->w ? x : w[0] < x->w ? mkExtract(x, 0, w[0]) : mkZExt(x, w[0]);
      }
      case Instruction::Add: return mkAdd(constExpr(ce->getOperand(0)), constExpr(ce->getOperand(1)));
      case Instruction::Sub: return mkSub(constExpr(ce->getOperand(0)), constExpr(ce->getOperand(1)));
      default: throw Unsupported(std::string("constant expression ") + ce->getOpcodeName());
    }
  }
  if (isa<ConstantAggregateZero>(c)) { std::vector<unsigned> w; leaves(c->getType(), w); return mkConst(0, w[0]); }
  throw Unsupported("constant");
}
Opnd Engine::operand(FnInfo* fi, const Value* v) {
  Opnd o;
  auto it = fi->slots.find(v);
  if (it != fi->slots.end()) { o.slot = it->second; return o; }
  if (auto* c = dyn_cast<Constant>(v)) { constLeaves(c, o.c); return o; }
  if (isa<MetadataAsValue>(v) || isa<BasicBlock>(v) || isa<InlineAsm>(v)) return o;
  throw Unsupported("operand");
}
const Function* Engine::funcAt(uint64_t a) {
  if (a < FUNC_BASE || (a - FUNC_BASE) % 16) return nullptr;
  uint64_t i = (a - FUNC_BASE) / 16;
  if (i == 0 || i > funcs.size()) return nullptr;
  return funcs[i - 1];
}

FnInfo* Engine::info(const Function* f) {
  auto it = fns.find(f);
  if (it != fns.end()) return it->second;
  auto* fi = new FnInfo;
  fns[f] = fi;
  fi->F = f;
  fi->name = f->getName().str();
  fi->dem = demangled(fi->name);
  int n = 0;
  std::vector<unsigned> w;
  for (auto& a : f->args()) {
    w.clear();
    unsigned k = leaves(a.getType(), w);
    fi->slots[&a] = n;
    fi->args.push_back({n, k});
    n += k;
  }
  std::unordered_map<const BasicBlock*, int> bbi;
  for (auto& bb : *f) {
    bbi[&bb] = fi->bbs.size();
    fi->bbs.push_back(&bb);
    for (auto& I : bb) {
      w.clear();
      unsigned k = leaves(I.getType(), w);
      if (k) { fi->slots[&I] = n; n += k; }
    }
  }
  fi->nregs = n;
  for (auto* bb : fi->bbs) {
    fi->bbStart.push_back(fi->insts.size());
    for (auto& I : *bb) {
      DInst d;
      d.I = &I;
      d.op = I.getOpcode();
      d.bb = bbi[bb];
      w.clear();
      d.n = leaves(I.getType(), w);
      if (d.n) d.dst = fi->slots[&I];
      if (auto* b = dyn_cast<BranchInst>(&I)) { for (unsigned q = 0; q < b->getNumSuccessors(); ++q) d.succ.push_back(bbi[b->getSuccessor(q)]); if (b->isConditional()) d.ops.push_back(operand(fi, b->getCondition())); }
      else if (auto* sw = dyn_cast<SwitchInst>(&I)) {
        d.ops.push_back(operand(fi, sw->getCondition()));
        d.succ.push_back(bbi[sw->getDefaultDest()]);
        for (auto& c : sw->cases()) { d.succ.push_back(bbi[c.getCaseSuccessor()]); Opnd o; o.c.push_back(mkConst(c.getCaseValue()->getValue())); d.ops.push_back(o); }
      } else if (auto* p = dyn_cast<PHINode>(&I)) {
        for (unsigned i = 0; i < p->getNumIncomingValues(); ++i) { d.ops.push_back(operand(fi, p->getIncomingValue(i))); d.succ.push_back(bbi[p->getIncomingBlock(i)]); }
      } else if (auto* cb = dyn_cast<CallBase>(&I)) {
        for (auto& a : cb->args()) d.ops.push_back(operand(fi, a));
        d.ops.push_back(operand(fi, cb->getCalledOperand()));
        if (auto* iv = dyn_cast<InvokeInst>(&I)) { d.succ.push_back(bbi[iv->getNormalDest()]); d.succ.push_back(bbi[iv->getUnwindDest()]); }
      } else {
        for (auto& o : I.operands()) if (!isa<BasicBlock>(o)) d.ops.push_back(operand(fi, o));
        if (isa<LandingPadInst>(&I)) d.ops.clear();
      }
      switch (d.op) {
        case Instruction::Load: layout(I.getType(), 0, d.leaves); break;
        case Instruction::Store: layout(cast<StoreInst>(I).getValueOperand()->getType(), 0, d.leaves); break;
        case Instruction::Alloca: d.imm = DL->getTypeAllocSize(cast<AllocaInst>(I).getAllocatedType()); break;
        case Instruction::GetElementPtr: {
          int64_t off = 0;
          unsigned i = 1;
          for (auto g = gep_type_begin(I), e = gep_type_end(I); g != e; ++g, ++i) {
            if (auto* st = g.getStructTypeOrNull()) {
              off += DL->getStructLayout(st)->getElementOffset(cast<ConstantInt>(I.getOperand(i))->getZExtValue());
              d.aux.push_back(0);
            } else d.aux.push_back(DL->getTypeAllocSize(g.getIndexedType()));
          }
          d.imm = off;
          break;
        }
        case Instruction::ExtractValue: case Instruction::InsertValue: {
          Type* t = d.op == Instruction::ExtractValue ? cast<ExtractValueInst>(I).getAggregateOperand()->getType() : I.getType();
          auto idx = d.op == Instruction::ExtractValue ? cast<ExtractValueInst>(I).getIndices() : cast<InsertValueInst>(I).getIndices();
          unsigned o = 0;
          for (unsigned x : idx) {
            std::vector<unsigned> ww;
            if (auto* st = dyn_cast<StructType>(t)) {
              for (unsigned i = 0; i < x; ++i) o += leaves(st->getElementType(i), ww);
              t = st->getElementType(x);
            } else {
              auto* at = cast<ArrayType>(t);
              o += x * leaves(at->getElementType(), ww);
              t = at->getElementType();
            }
          }
          d.imm = o;
          std::vector<unsigned> ww;
          d.aux.push_back(leaves(t, ww));
          break;
        }
        default: break;
      }
      if (!w.empty()) d.aux.push_back(w[0]);   // last aux: result width
      fi->insts.push_back(std::move(d));
    }
  }
  return fi;
}

// ------------------------------------------------------------------ control
void Engine::pushFrame(State& s, const Function* f, const std::vector<E>& args) {
  FnInfo* fi = info(f);
  static const char* tr = getenv("CVE_TRACE");
  if (tr && (tr[0] == 'a' || !s.initPhase || tr[0] == 'i')) {
    errs() << std::string(s.frames.size(), ' ') << fi->dem.substr(0, 140);
    for (auto& a : args) errs() << " " << (a->isConst() ? "0x" + std::to_string(a->c.getLimitedValue()) : std::string("?"));
    errs() << "\n";
  }
  if (s.frames.size() > 400) { incomplete["recursion depth"]++; throw PathEnd{"depth"}; }
  if (!s.initPhase) fnExecuted.insert(fi->dem);
  Frame fr;
  fr.fi = fi;
  fr.regs.assign(fi->nregs, nullptr);
  size_t k = 0;
  for (auto& [slot, n] : fi->args)
    for (unsigned i = 0; i < n; ++i) {
      if (k >= args.size()) throw Unsupported("argument count for " + fi->dem);
      fr.regs[slot + i] = args[k++];
    }
  s.frames.push_back(std::move(fr));
}
void Engine::enterBlock(State& s, int bb) {
  auto& f = s.frames.back();
  f.prevBB = f.bb;
  f.bb = bb;
  f.pc = f.fi->bbStart[bb];
  // phis in parallel
  int p = f.pc;
  std::vector<std::pair<int, E>> set;
  while (f.fi->insts[p].op == Instruction::PHI) {
    auto& d = f.fi->insts[p];
    for (size_t i = 0; i < d.succ.size(); ++i)
      if (d.succ[i] == f.prevBB) {
        for (unsigned k = 0; k < d.n; ++k) set.push_back({d.dst + int(k), val(s, d.ops[i], k)});
        break;
      }
    ++p;
  }
  for (auto& [r, e] : set) f.regs[r] = e;
  f.pc = p;
}
void Engine::finishCall(State& s, const std::vector<E>& ret) {
  auto& f = s.frames.back();
  auto& d = f.fi->insts[f.pc];
  for (unsigned i = 0; i < d.n; ++i) {
    if (i >= ret.size()) throw Unsupported("missing return value");
    std::vector<unsigned> w;
    f.regs[d.dst + i] = ret[i];
  }
  if (d.op == Instruction::Invoke) enterBlock(s, d.succ[0]);
  else ++f.pc;
}
void Engine::doReturn(State& s, const std::vector<E>& ret) {
  auto& f = s.frames.back();
  for (uint32_t id : f.allocas) release(s, id);
  s.frames.pop_back();
  if (s.frames.empty()) throw PathEnd{"done"};
  finishCall(s, ret);
}
// s.inflight is set; the top frame's current instruction is where the exception surfaces
void Engine::unwind(State& s) {
  while (true) {
    if (s.frames.empty()) throw PathEnd{"uncaught"};
    auto& f = s.frames.back();
    auto& d = f.fi->insts[f.pc];
    if (d.op == Instruction::Invoke) {
      const BasicBlock* lp = f.fi->bbs[d.succ[1]];
      auto* L = lp->getLandingPadInst();
      bool enter = L->isCleanup();
      int32_t sel = 0;
      for (unsigned i = 0; i < L->getNumClauses(); ++i) {
        if (!L->isCatch(i)) throw Unsupported("exception specification filter");
        E t = constExpr(L->getClause(i));
        int64_t adj;
        if (t->u() == 0 || typeMatch(s, s.inflight.type, t->u(), adj)) {
          enter = true;
          uint64_t key = t->u();
          size_t k = 0;
          for (; k < typeidTable.size(); ++k) if (typeidTable[k] == key) break;
          if (k == typeidTable.size()) typeidTable.push_back(key);
          sel = int32_t(k + 1);
          break;
        }
      }
      if (enter) {
        enterBlock(s, d.succ[1]);
        auto& g = s.frames.back();
        auto& ld = g.fi->insts[g.pc];
        if (ld.op != Instruction::LandingPad) throw Unsupported("landingpad");
        g.regs[ld.dst] = s.inflight.obj;
        g.regs[ld.dst + 1] = mkConst(uint32_t(sel), 32);
        ++g.pc;
        return;
      }
    }
    // noexcept functions terminate: clang emits terminate landing pads, so plain propagation is right here
    for (uint32_t id : f.allocas) release(s, id);
    if (s.frames.size() == 1) {
      if (s.initPhase) throw Unsupported("exception in static initialisation");
      check(s, mkFalse(), "no exception escapes the harness", "safety");
      throw PathEnd{"uncaught"};
    }
    s.frames.pop_back();
  }
}
void Engine::throwObj(State& s, ExcRec r) {
  s.inflight = r;
  unwind(s);
}
bool Engine::typeMatch(State& s, uint64_t thrown, uint64_t want, int64_t& adj) {
  adj = 0;
  if (thrown == want) return true;
  uint32_t id, wid;
  if (!idOf(s, thrown, id)) return false;
  const Obj* o = get(s, id);
  if (idOf(s, want, wid) && get(s, wid)->name == o->name && !o->name.empty()) return true;
  if (o->kind == OK::External) {
    return false;
  }
  // vtable pointer tells the kind
  uint64_t vt, base;
  if (o->csize < 24) return false;
  memcpy(&vt, o->conc.data(), 8);
  uint32_t vid;
  if (!idOf(s, vt, vid)) return false;
  const std::string& vn = get(s, vid)->name;
  if (vn.find("__si_class_type_info") != std::string::npos) {
    memcpy(&base, o->conc.data() + 16, 8);
    return typeMatch(s, base, want, adj);
  }
  if (vn.find("__vmi_class_type_info") != std::string::npos) {
    uint32_t cnt;
    memcpy(&cnt, o->conc.data() + 20, 4);
    for (uint32_t i = 0; i < cnt; ++i) {
      int64_t of;
      memcpy(&base, o->conc.data() + 24 + i * 16, 8);
      memcpy(&of, o->conc.data() + 32 + i * 16, 8);
      int64_t a;
      if (typeMatch(s, base, want, a)) {
        if (of & 1) throw Unsupported("virtual base in exception type");
        adj = (of >> 8) + a;
        return true;
      }
    }
  }
  return false;
}

void Engine::doCall(State& s, DInst& d) {
  auto* cb = cast<CallBase>(d.I);
  if (cb->isInlineAsm()) {
    if (d.n) throw Unsupported("inline assembly");
    finishCall(s, {});
    return;
  }
  std::vector<E> args;
  unsigned na = cb->arg_size();
  auto& f = s.frames.back();
  const Function* callee = dyn_cast<Function>(cb->getCalledOperand()->stripPointerCasts());
  if (auto* al = dyn_cast<GlobalAlias>(cb->getCalledOperand()->stripPointerCasts())) callee = dyn_cast<Function>(al->getAliasee()->stripPointerCasts());
  if (callee && callee->isIntrinsic()) {
    // metadata operands have no leaves
    for (unsigned i = 0; i < na; ++i) {
      Opnd& o = d.ops[i];
      if (o.slot >= 0) args.push_back(f.regs[o.slot]);
      else if (!o.c.empty()) args.push_back(o.c[0]);
      else args.push_back(nullptr);
    }
    std::vector<E> ret;
    if (!intrinsic(s, d, args, ret)) throw Unsupported("intrinsic " + callee->getName().str());
    finishCall(s, ret);
    return;
  }
  for (unsigned i = 0; i < na; ++i) {
    Opnd& o = d.ops[i];
    if (o.slot >= 0) {
      std::vector<unsigned> w;
      unsigned n = leaves(cb->getArgOperand(i)->getType(), w);
      if (cb->isByValArgument(i)) {
        // copy the pointee
        uint64_t sz = DL->getTypeAllocSize(cb->getParamByValType(i));
        uint32_t id = alloc(s, OK::Stack, c64(sz), "byval");
        copyMem(s, c64(addrOf(id)), f.regs[o.slot], c64(sz));
        args.push_back(c64(addrOf(id)));
        continue;
      }
      for (unsigned k = 0; k < n; ++k) args.push_back(f.regs[o.slot + k]);
    } else
      for (E e : o.c) args.push_back(e);
  }
  if (!callee) {
    E t = val(s, d.ops[na]);
    while (!t->isConst()) {
      if (t->k == K::Ite) t = branch(s, t->a) ? t->b : t->d;
      else t = c64(concretize(s, t));
    }
    if (t->u() == 0) { check(s, mkFalse(), "call through null function pointer", "memory"); throw PathEnd{"null call"}; }
    callee = funcAt(t->u());
    if (!callee) { 
      uint32_t id;
      if (idOf(s, t->u(), id)) throw Unsupported("call to data " + get(s, id)->name);
      check(s, mkFalse(), "call through wild function pointer", "memory"); throw PathEnd{"wild call"}; }
  }
  std::vector<E> ret;
  bool handled = false;
  if (builtin(s, callee, d, args, ret, handled)) {
    if (!handled) finishCall(s, ret);
    return;
  }
  if (callee->isDeclaration()) {
    externals.insert(demangled(callee->getName().str()));
    throw Unsupported("external function " + demangled(callee->getName().str()));
  }
  pushFrame(s, callee, args);
  auto& nf = s.frames.back();
  (void)nf;
}

static APFloat toF(E e) {
  return e->w == 32 ? APFloat(APFloat::IEEEsingle(), e->c) : e->w == 64 ? APFloat(APFloat::IEEEdouble(), e->c) : APFloat(APFloat::x87DoubleExtended(), e->c);
}
static const fltSemantics& sem(unsigned w) { return w == 32 ? APFloat::IEEEsingle() : w == 64 ? APFloat::IEEEdouble() : APFloat::x87DoubleExtended(); }

void Engine::step(State& s) {
  Frame& f = s.frames.back();
  DInst& d = f.fi->insts[f.pc];
  ++s.insts;
  ++insts;
  const Instruction* I = d.I;
  auto set = [&](E e) { f.regs[d.dst] = e; };
  switch (d.op) {
    case Instruction::Alloca: {
      E n = val(s, d.ops[0]);
      uint64_t cnt = n->isConst() ? n->u() : concretize(s, n);
      // an alloca executed again in the same frame (loop): reuse is not modelled, allocate anew
      uint32_t id = alloc(s, OK::Stack, c64(d.imm * cnt), I->hasName() ? I->getName().str() : "tmp");
      f.allocas.push_back(id);
      set(c64(addrOf(id)));
      ++f.pc;
      return;
    }
    case Instruction::Load: {
      E a = val(s, d.ops[0]);
      for (unsigned i = 0; i < d.n; ++i) {
        E v = load(s, d.leaves[i].first ? mkAdd(a, c64(d.leaves[i].first)) : a, d.leaves[i].second);
        f.regs[d.dst + i] = v;
      }
      ++f.pc;
      return;
    }
    case Instruction::Store: {
      E a = val(s, d.ops[1]);
      for (unsigned i = 0; i < d.leaves.size(); ++i) store(s, d.leaves[i].first ? mkAdd(a, c64(d.leaves[i].first)) : a, val(s, d.ops[0], i));
      ++f.pc;
      return;
    }
    case Instruction::GetElementPtr: {
      if (I->getType()->isVectorTy()) throw Unsupported("vector gep");
      E a = val(s, d.ops[0]);
      if (d.imm) a = mkAdd(a, c64(d.imm));
      for (size_t i = 1; i < d.ops.size(); ++i) {
        uint64_t st = d.aux[i - 1];
        if (!st) continue;
        E x = val(s, d.ops[i]);
        if (x->w < 64) x = mkSExt(x, 64);
        if (x->w > 64) x = mkExtract(x, 0, 64);
        a = mkAdd(a, mkMul(x, c64(st)));
      }
      set(a);
      ++f.pc;
      return;
    }
    case Instruction::Add: case Instruction::Sub: case Instruction::Mul: {
      if (I->getType()->isVectorTy()) throw Unsupported("vector arithmetic");
      E a = val(s, d.ops[0]), b = val(s, d.ops[1]);
      E r = d.op == Instruction::Add ? mkAdd(a, b) : d.op == Instruction::Sub ? mkSub(a, b) : mkMul(a, b);
      if (opt.signedOverflow && cast<OverflowingBinaryOperator>(I)->hasNoSignedWrap()) {
        unsigned w = a->w, ww = d.op == Instruction::Mul ? 2 * w : w + 1;
        E x = mkSExt(a, ww), y = mkSExt(b, ww);
        E z = d.op == Instruction::Add ? mkAdd(x, y) : d.op == Instruction::Sub ? mkSub(x, y) : mkMul(x, y);
        check(s, mkEq(z, mkSExt(r, ww)), "signed overflow", "arith");
      }
      set(r);
      ++f.pc;
      return;
    }
    case Instruction::UDiv: case Instruction::SDiv: case Instruction::URem: case Instruction::SRem: {
      E a = val(s, d.ops[0]), b = val(s, d.ops[1]);
      if (!check(s, mkNot(mkEq(b, mkConst(0, b->w))), "division by zero", "arith")) throw PathEnd{"div"};
      K k = d.op == Instruction::UDiv ? K::UDiv : d.op == Instruction::SDiv ? K::SDiv : d.op == Instruction::URem ? K::URem : K::SRem;
      set(mkBin(k, a, b));
      ++f.pc;
      return;
    }
    case Instruction::And: case Instruction::Or: case Instruction::Xor: case Instruction::Shl: case Instruction::LShr: case Instruction::AShr: {
      if (I->getType()->isVectorTy()) throw Unsupported("vector arithmetic");
      E a = val(s, d.ops[0]), b = val(s, d.ops[1]);
      K k = d.op == Instruction::And ? K::And : d.op == Instruction::Or ? K::Or : d.op == Instruction::Xor ? K::Xor : d.op == Instruction::Shl ? K::Shl : d.op == Instruction::LShr ? K::LShr : K::AShr;
      if (k == K::Shl || k == K::LShr || k == K::AShr)
        check(s, mkCmp(K::Ult, b, mkConst(b->w, b->w)), "shift amount in range", "arith");
      set(mkBin(k, a, b));
      ++f.pc;
      return;
    }
    case Instruction::ICmp: {
      if (I->getType()->isVectorTy()) throw Unsupported("vector compare");
      E a = val(s, d.ops[0]), b = val(s, d.ops[1]), r = nullptr;
      switch (cast<ICmpInst>(I)->getPredicate()) {
        case ICmpInst::ICMP_EQ: r = mkEq(a, b); break;
        case ICmpInst::ICMP_NE: r = mkNot(mkEq(a, b)); break;
        case ICmpInst::ICMP_ULT: r = mkCmp(K::Ult, a, b); break;
        case ICmpInst::ICMP_ULE: r = mkCmp(K::Ule, a, b); break;
        case ICmpInst::ICMP_UGT: r = mkCmp(K::Ult, b, a); break;
        case ICmpInst::ICMP_UGE: r = mkCmp(K::Ule, b, a); break;
        case ICmpInst::ICMP_SLT: r = mkCmp(K::Slt, a, b); break;
        case ICmpInst::ICMP_SLE: r = mkCmp(K::Sle, a, b); break;
        case ICmpInst::ICMP_SGT: r = mkCmp(K::Slt, b, a); break;
        case ICmpInst::ICMP_SGE: r = mkCmp(K::Sle, b, a); break;
        default: throw Unsupported("icmp");
      }
      set(r);
      ++f.pc;
      return;
    }
    case Instruction::ZExt: case Instruction::SExt: case Instruction::Trunc: case Instruction::PtrToInt: case Instruction::IntToPtr: case Instruction::BitCast: {
      if (d.n != 1) throw Unsupported("vector cast");
      E a = val(s, d.ops[0]);
      unsigned w = d.aux.back();
      set(a->w == w ? a : w < a->w ? mkExtract(a, 0, w) : d.op == Instruction::SExt ? mkSExt(a, w) : mkZExt(a, w));
      ++f.pc;
      return;
    }
    case Instruction::FAdd: case Instruction::FSub: case Instruction::FMul: case Instruction::FDiv: {
      E a = val(s, d.ops[0]), b = val(s, d.ops[1]);
      if (d.n != 1 || !a->isConst() || !b->isConst()) throw Unsupported("symbolic floating point");
      APFloat x = toF(a);
      auto rm = APFloat::rmNearestTiesToEven;
      if (d.op == Instruction::FAdd) x.add(toF(b), rm);
      else if (d.op == Instruction::FSub) x.subtract(toF(b), rm);
      else if (d.op == Instruction::FMul) x.multiply(toF(b), rm);
      else x.divide(toF(b), rm);
      set(mkConst(x.bitcastToAPInt()));
      ++f.pc;
      return;
    }
    case Instruction::FNeg: {
      E a = val(s, d.ops[0]);
      set(mkBin(K::Xor, a, mkConst(APInt::getSignMask(a->w))));
      ++f.pc;
      return;
    }
    case Instruction::FCmp: {
      E a = val(s, d.ops[0]), b = val(s, d.ops[1]);
      if (!a->isConst() || !b->isConst()) throw Unsupported("symbolic floating point");
      set(mkConst(FCmpInst::compare(toF(a), toF(b), cast<FCmpInst>(I)->getPredicate()), 1));
      ++f.pc;
      return;
    }
    case Instruction::FPExt: case Instruction::FPTrunc: case Instruction::FPToUI: case Instruction::FPToSI: case Instruction::UIToFP: case Instruction::SIToFP: {
      E a = val(s, d.ops[0]);
      unsigned w = d.aux.back();
      if (!a->isConst()) throw Unsupported("symbolic floating point");
      bool ig;
      if (d.op == Instruction::FPExt || d.op == Instruction::FPTrunc) {
        APFloat x = toF(a);
        x.convert(sem(w), APFloat::rmNearestTiesToEven, &ig);
        set(mkConst(x.bitcastToAPInt()));
      } else if (d.op == Instruction::FPToUI || d.op == Instruction::FPToSI) {
        APSInt r(w, d.op == Instruction::FPToUI);
        toF(a).convertToInteger(r, APFloat::rmTowardZero, &ig);
        set(mkConst(r));
      } else {
        APFloat x(sem(w));
        x.convertFromAPInt(a->c, d.op == Instruction::SIToFP, APFloat::rmNearestTiesToEven);
        set(mkConst(x.bitcastToAPInt()));
      }
      ++f.pc;
      return;
    }
    case Instruction::Select: {
      E c = val(s, d.ops[0]);
      if (c->isConst() || d.n != 1 || I->getType()->isPointerTy()) {
        bool b = branch(s, c);
        for (unsigned i = 0; i < d.n; ++i) f.regs[d.dst + i] = val(s, d.ops[b ? 1 : 2], i);
      } else set(mkIte(c, val(s, d.ops[1]), val(s, d.ops[2])));
      ++f.pc;
      return;
    }
    case Instruction::Freeze: {
      for (unsigned i = 0; i < d.n; ++i) f.regs[d.dst + i] = val(s, d.ops[0], i);
      ++f.pc;
      return;
    }
    case Instruction::ExtractValue: {
      for (unsigned i = 0; i < d.n; ++i) f.regs[d.dst + i] = val(s, d.ops[0], unsigned(d.imm) + i);
      ++f.pc;
      return;
    }
    case Instruction::InsertValue: {
      std::vector<E> t;
      for (unsigned i = 0; i < d.n; ++i) t.push_back(val(s, d.ops[0], i));
      for (unsigned i = 0; i < d.aux[0]; ++i) t[d.imm + i] = val(s, d.ops[1], i);
      for (unsigned i = 0; i < d.n; ++i) f.regs[d.dst + i] = t[i];
      ++f.pc;
      return;
    }
    case Instruction::ExtractElement: {
      E ix = val(s, d.ops[1]);
      if (!ix->isConst()) throw Unsupported("vector element");
      set(val(s, d.ops[0], unsigned(ix->u())));
      ++f.pc;
      return;
    }
    case Instruction::InsertElement: {
      E ix = val(s, d.ops[2]);
      if (!ix->isConst()) throw Unsupported("vector element");
      std::vector<E> t;
      for (unsigned i = 0; i < d.n; ++i) t.push_back(val(s, d.ops[0], i));
      t[ix->u()] = val(s, d.ops[1]);
      for (unsigned i = 0; i < d.n; ++i) f.regs[d.dst + i] = t[i];
      ++f.pc;
      return;
    }
    case Instruction::Br: {
      if (d.succ.size() == 1) { enterBlock(s, d.succ[0]); return; }
      bool b = branch(s, val(s, d.ops[0]));
      enterBlock(s, d.succ[b ? 0 : 1]);
      return;
    }
    case Instruction::Switch: {
      E c = val(s, d.ops[0]);
      if (!c->isConst()) {
        for (size_t i = 1; i < d.ops.size(); ++i)
          if (branch(s, mkEq(c, d.ops[i].c[0]))) { enterBlock(s, d.succ[i]); return; }
        enterBlock(s, d.succ[0]);
        return;
      }
      for (size_t i = 1; i < d.ops.size(); ++i)
        if (d.ops[i].c[0] == c) { enterBlock(s, d.succ[i]); return; }
      enterBlock(s, d.succ[0]);
      return;
    }
    case Instruction::Ret: {
      std::vector<E> r;
      if (I->getNumOperands()) {
        std::vector<unsigned> w;
        unsigned n = leaves(I->getOperand(0)->getType(), w);
        for (unsigned i = 0; i < n; ++i) r.push_back(val(s, d.ops[0], i));
      }
      doReturn(s, r);
      return;
    }
    case Instruction::Call: case Instruction::Invoke: doCall(s, d); return;
    case Instruction::Resume: {
      // in-flight exception continues from the caller
      for (uint32_t id : f.allocas) release(s, id);
      if (s.frames.size() == 1) {
        if (s.initPhase) throw Unsupported("exception in static initialisation");
        check(s, mkFalse(), "no exception escapes the harness", "safety");
        throw PathEnd{"uncaught"};
      }
      s.frames.pop_back();
      unwind(s);
      return;
    }
    case Instruction::Unreachable:
      check(s, mkFalse(), "unreachable code is not reached", "safety");
      throw PathEnd{"unreachable"};
    case Instruction::Fence: ++f.pc; return;
    case Instruction::AtomicRMW: {
      auto* a = cast<AtomicRMWInst>(I);
      E p = val(s, d.ops[0]), v = val(s, d.ops[1]);
      E old = load(s, p, v->w), nv = nullptr;
      switch (a->getOperation()) {
        case AtomicRMWInst::Add: nv = mkAdd(old, v); break;
        case AtomicRMWInst::Sub: nv = mkSub(old, v); break;
        case AtomicRMWInst::Xchg: nv = v; break;
        case AtomicRMWInst::And: nv = mkAnd(old, v); break;
        case AtomicRMWInst::Or: nv = mkOr(old, v); break;
        case AtomicRMWInst::Xor: nv = mkBin(K::Xor, old, v); break;
        default: throw Unsupported("atomicrmw");
      }
      store(s, p, nv);
      set(old);
      ++f.pc;
      return;
    }
    case Instruction::AtomicCmpXchg: {
      E p = val(s, d.ops[0]), c = val(s, d.ops[1]), n = val(s, d.ops[2]);
      E old = load(s, p, c->w);
      E ok = mkEq(old, c);
      bool b = branch(s, ok);
      if (b) store(s, p, n);
      f.regs[d.dst] = old;
      f.regs[d.dst + 1] = mkConst(b, 1);
      ++f.pc;
      return;
    }
    default:
      throw Unsupported(std::string("instruction ") + I->getOpcodeName());
  }
}

void Engine::runState(State& s) {
  while (true) {
    step(s);
    if ((s.insts & 0x3fff) == 0 && elapsed() > opt.timeLimit) { incomplete["time limit"]++; throw PathEnd{"time"}; }
    if (s.insts > opt.maxPathInsts) { incomplete["instruction limit at " + where(s)]++; throw PathEnd{"limit"}; }
  }
}

void Engine::init(Module* m) {
  M = m;
  DL = &m->getDataLayout();
  g_engine = this;
  t0 = std::chrono::steady_clock::now();
  globalTpl.resize(1);
  globalVar.resize(1);
  if (auto* g = m->getNamedGlobal("v_rt_errno"); !g || g->isDeclaration()) {
    auto* ty = llvm::Type::getInt32Ty(m->getContext());
    if (g) g->setInitializer(llvm::ConstantInt::get(ty, 0));
    else new llvm::GlobalVariable(*m, ty, false, llvm::GlobalValue::ExternalLinkage, llvm::ConstantInt::get(ty, 0), "v_rt_errno");
  }
  for (auto& g : m->globals()) {
    uint64_t n = g.getValueType()->isSized() ? DL->getTypeAllocSize(g.getValueType()).getFixedValue() : 0;
    (void)n;
    globalId[&g] = globalVar.size();
    globalVar.push_back(&g);
    globalTpl.push_back({});
  }
}
void Engine::runCtors(State& s) {
  s.mem.nextSmall = globalVar.size();
  std::vector<std::pair<int, const Function*>> ctors;
  if (auto* g = M->getNamedGlobal("llvm.global_ctors"))
    if (g->hasInitializer())
      if (auto* a = dyn_cast<ConstantArray>(g->getInitializer()))
        for (auto& x : a->operands()) {
          auto* st = cast<ConstantStruct>(x);
          if (auto* f = dyn_cast<Function>(st->getOperand(1)->stripPointerCasts()))
            ctors.push_back({int(cast<ConstantInt>(st->getOperand(0))->getZExtValue()), f});
        }
  std::stable_sort(ctors.begin(), ctors.end(), [](auto& a, auto& b) { return a.first < b.first; });
  // a _GLOBAL__sub_I function calls one __cxx_global_var_init per variable
  std::vector<const Function*> inits;
  for (auto& [p, f] : ctors) {
    if (f->getName().starts_with("_GLOBAL__sub_I")) {
      for (auto& bb : *f) for (auto& I : bb)
        if (auto* cb = dyn_cast<CallInst>(&I)) if (auto* g = cb->getCalledFunction()) if (!g->isIntrinsic()) inits.push_back(g);
    } else inits.push_back(f);
  }
  for (auto* f : inits) {
    State t = s;
    t.initPhase = true;
    t.insts = 0;
    auto saveLimit = opt.maxPathInsts;
    opt.maxPathInsts = 3000000;
    bool ok = false;
    std::string why;
    try {
      pushFrame(t, f, {});
      runState(t);
    } catch (PathEnd& e) { ok = std::string(e.why) == "done"; why = e.why; }
    catch (Unsupported& e) { why = e.what(); if (opt.verbose) for (auto& l : stack(t)) errs() << "     " << l << "\n"; }
    opt.maxPathInsts = saveLimit;
    if (ok) { s = std::move(t); s.initPhase = false; s.frames.clear(); }
    else {
      badInits.insert(f);
      // whatever this initialiser would have set up is unknown from here on
      std::set<const Value*> seen;
      std::function<void(const Value*)> mark = [&](const Value* v) {
        if (!seen.insert(v).second) return;
        if (auto* g = dyn_cast<GlobalVariable>(v)) {
          if (!g->isConstant() && !g->getName().starts_with("_ZGV")) writable(s, globalId[g])->noinit = true;
          return;
        }
        if (auto* u = dyn_cast<User>(v)) if (!isa<Function>(v) && !isa<GlobalValue>(v)) for (auto& o : u->operands()) mark(o);
      };
      for (auto& bb : *f) for (auto& I : bb) for (auto& o : I.operands()) if (isa<Constant>(o)) mark(o);
      if (opt.verbose) errs() << "init skipped: " << f->getName() << ": " << why << "\n";
    }
  }
  s.insts = 0;
  insts = 0;
}
// The paths that remain are independent: when a processor is idle (a token can be read) half of them are explored by a
// copy of this process. Each process writes its own result, run.py adds them up; a result that is missing is undecided.
void Engine::reap(bool wait) {
  while (!children.empty()) {
    int st;
    pid_t p = waitpid(-1, &st, wait ? 0 : WNOHANG);
    if (p <= 0) { if (p < 0 && errno == EINTR) continue; if (p < 0) children.clear(); return; }
    children.erase(std::remove(children.begin(), children.end(), int(p)), children.end());
    // the last one we wait for gives its processor to this process
    if (!(wait && children.empty())) (void)!write(tokenFd, "x", 1);
  }
}
void Engine::split() {
  double now = elapsed();
  if (tokenFd < 0 || work.size() < 2 || now < 4 || now - lastSplit < 0.3) return;
  lastSplit = now;
  reap(false);
  char c;
  if (read(tokenFd, &c, 1) != 1) return;
  std::cout.flush();
  pid_t p = fork();
  if (p < 0) { (void)!write(tokenFd, "x", 1); return; }
  std::vector<std::unique_ptr<State>> keep;
  for (size_t i = 0; i < work.size(); ++i) if ((i % 2 == 0) == (p == 0)) keep.push_back(std::move(work[i]));
  work = std::move(keep);
  if (p) { children.push_back(p); forked.push_back(p); return; }
  prctl(PR_SET_PDEATHSIG, SIGKILL);
  self = "." + std::to_string(getpid());
  children.clear(); forked.clear();
  obligations.clear(); violations.clear(); incomplete.clear(); samples.clear();
  paths = completed = killed = insts = 0;
  g_stats = Stats{};
}
void Engine::join() {
  if (children.empty()) return;
  (void)!write(tokenFd, "x", 1);
  reap(true);
}
void Engine::explore(std::unique_ptr<State> s0, const Function* entry) {
  if (!opt.tokens.empty()) tokenFd = open(opt.tokens.c_str(), O_RDWR | O_NONBLOCK | O_CLOEXEC);
  shared = static_cast<Shared*>(mmap(nullptr, 4096, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0));
  pushFrame(*s0, entry, {});
  work.push_back(std::move(s0));
  while (!work.empty()) {
    split();
    if (shared->violations >= opt.maxViolations) { incomplete["stopped after violations"]++; break; }
    size_t had = violations.size();
    struct Count { Engine& e; size_t had; ~Count() { if (e.violations.size() > had) __sync_fetch_and_add(&e.shared->violations, int(e.violations.size() - had)); } } count{*this, had};
    auto s = std::move(work.back());
    work.pop_back();
    if (elapsed() > opt.timeLimit) { incomplete["time limit"] += 1 + work.size(); break; }
    ++paths;
    try {
      runState(*s);
    } catch (PathEnd& e) {
      std::string why = e.why;
      if (why == "done") {
        ++completed;
        for (auto& c : s->covers) covers.insert(c);
        if (int(samples.size()) < opt.samples && !s->uncertain) {
          Sample sm;
          sm.inputs = inputsUnder(*s, s->model->m);
          std::unordered_map<E, APInt> memo;
          for (E t : s->trace) sm.trace.push_back(evalExpr(t, s->model->m, memo).getZExtValue());
          samples.push_back(sm);
        }
      } else ++killed;
    } catch (Unsupported& e) {
      incomplete[std::string("unsupported: ") + e.what() + " at " + where(*s)]++;
      if (opt.verbose) {
        errs() << "unsupported: " << e.what() << "\n";
        for (auto& l : stack(*s)) errs() << "   " << l << "\n";
      }
      ++killed;
    }
    if (int(violations.size()) >= opt.maxViolations) { incomplete["stopped after violations"]++; break; }
  }
}
