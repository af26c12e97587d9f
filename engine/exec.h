#pragma once
#include "state.h"
#include <chrono>
#include <functional>
#include <deque>

struct Violation {
  std::string name, kind, where, detail;
  std::vector<std::string> stack;
  std::vector<std::pair<std::string, std::string>> inputs;   // name, hex
  std::vector<std::pair<std::string, std::string>> inputsAlt; // unminimised model
};
struct Obligation { uint64_t vcs = 0, solver = 0, failed = 0, unknown = 0; std::string kind; };
struct Options {
  uint64_t maxPathInsts = 20000000;
  uint64_t maxUnroll = 40;
  double timeLimit = 600;
  bool signedOverflow = false;
  int samples = 6;
  int maxViolations = 4;
  bool verbose = false;
  std::string tokens, out;       // fifo of idle processors, file for the result
};
struct Engine {
  llvm::Module* M = nullptr;
  const llvm::DataLayout* DL = nullptr;
  Options opt;
  std::unordered_map<const llvm::Function*, FnInfo*> fns;
  std::unordered_map<const llvm::GlobalValue*, uint32_t> globalId;
  std::vector<Ref<Obj>> globalTpl;
  std::vector<const llvm::GlobalVariable*> globalVar;
  std::vector<const llvm::Function*> funcs;
  std::unordered_map<const llvm::Function*, uint64_t> funcAddr;
  std::vector<std::unique_ptr<State>> work;
  std::map<std::string, Obligation> obligations;
  std::vector<Violation> violations;
  std::map<std::string, uint64_t> incomplete;    // reason -> count
  std::set<std::string> covers, bounds, externals;
  std::set<std::string> fnExecuted;
  struct Sample { std::vector<std::pair<std::string, std::string>> inputs; std::vector<uint64_t> trace; };
  std::vector<Sample> samples;
  uint64_t paths = 0, completed = 0, killed = 0, insts = 0;
  std::chrono::steady_clock::time_point t0;
  std::set<const llvm::Function*> badInits;
  std::map<std::string, std::string> typeids;
  std::vector<uint64_t> typeidTable;

  void init(llvm::Module* m);
  void runCtors(State& s);
  void explore(std::unique_ptr<State> s0, const llvm::Function* entry);
  void runState(State& s);
  // other processes take over a part of the paths
  struct Shared { volatile int violations; };
  Shared* shared = nullptr;
  int tokenFd = -1;
  double lastSplit = 0;
  std::vector<int> children;     // not yet reaped
  std::vector<int> forked;       // all
  std::string self;              // suffix of the result of this process
  void split();
  void reap(bool wait);
  void join();
  double elapsed() const { return std::chrono::duration<double>(std::chrono::steady_clock::now() - t0).count(); }

  // memory
  uint64_t addrOf(uint32_t id) const;
  bool idOf(const State& s, uint64_t a, uint32_t& id) const;
  const Obj* get(State& s, uint32_t id);
  Ref<Obj> getRef(State& s, uint32_t id);
  Obj* writable(State& s, uint32_t id);
  uint32_t alloc(State& s, OK kind, E size, const std::string& name);
  void release(State& s, uint32_t id);
  Obj* makeGlobal(const llvm::GlobalVariable* g, uint32_t id);
  void toArr(Obj* o);
  std::pair<uint32_t, E> resolve(State& s, E addr, E len, bool write, const char* what);
  E readByte(State& s, const Obj* o, E off);
  E readByteC(State& s, uint32_t id, const Obj*& o, uint64_t off);
  E load(State& s, E addr, unsigned width, const char* what = "load");
  void store(State& s, E addr, E val, const char* what = "store");
  void storeAt(State& s, uint32_t id, E off, E val);
  E loadAt(State& s, uint32_t id, E off, unsigned width);
  void copyMem(State& s, E dst, E src, E len);
  void setMem(State& s, E dst, E val, E len);
  E cmpMem(State& s, E a, E b, E n, int mode);
  E strLen(State& s, E p);
  E findIn(State& s, Ref<Obj> o, Ref<Upd> u, E from, E to, E c);
  E firstByte(State& s, E p, E n, E c, const char* what);
  std::string cstr(State& s, E p);
  uint64_t upper(State& s, E n, uint64_t cap);

  // logic
  APInt eval(State& s, E e) { return evalExpr(e, s.model->m, s.model->memo); }
  bool contains(const State& s, E c);
  void assume(State& s, E c);
  bool branch(State& s, E cond, bool user = true);
  int decide(State& s, E cond);
  bool check(State& s, E cond, const std::string& name, const std::string& kind);
  uint64_t concretize(State& s, E e);
  void report(State& s, const std::string& name, const std::string& kind, const Model& m, E extra);
  std::vector<std::pair<std::string, std::string>> inputsUnder(State& s, const Model& m);
  std::string where(State& s);
  std::vector<std::string> stack(State& s);

  // execution
  FnInfo* info(const llvm::Function* f);
  unsigned leaves(llvm::Type* t, std::vector<unsigned>& widths);
  void layout(llvm::Type* t, uint64_t off, std::vector<std::pair<unsigned, unsigned>>& out);
  void constLeaves(const llvm::Constant* c, std::vector<E>& out);
  E constExpr(const llvm::Constant* c);
  Opnd operand(FnInfo* fi, const llvm::Value* v);
  E val(State& s, const Opnd& o, unsigned i = 0) { return o.slot >= 0 ? s.frames.back().regs[o.slot + i] : o.c[i]; }
  void step(State& s);
  void pushFrame(State& s, const llvm::Function* f, const std::vector<E>& args);
  void enterBlock(State& s, int bb);
  void doCall(State& s, DInst& d);
  void finishCall(State& s, const std::vector<E>& ret);   // assign result of call at current pc and advance
  void doReturn(State& s, const std::vector<E>& ret);
  void unwind(State& s);
  bool builtin(State& s, const llvm::Function* f, DInst& d, std::vector<E>& args, std::vector<E>& ret, bool& handled);
  bool intrinsic(State& s, DInst& d, std::vector<E>& args, std::vector<E>& ret);
  bool typeMatch(State& s, uint64_t thrown, uint64_t want, int64_t& adj);
  void throwObj(State& s, ExcRec r);
  bool cmpxchg(State& s, DInst& d);
  const llvm::Function* funcAt(uint64_t a);
  // loop contracts
  struct LoopContract { std::string fnRegex; int ordinal; const llvm::Function* cb; };
};
extern Engine* g_engine;
std::string demangled(const std::string& n);
