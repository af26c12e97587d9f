// Symbolic machine state: objects, frames, path condition.
#pragma once
#include "expr.h"
#include "solver.h"
#include <llvm/IR/Function.h>
#include <llvm/IR/Instructions.h>
#include <llvm/IR/IntrinsicInst.h>
#include <llvm/IR/Module.h>
#include <cassert>
#include <memory>
#include <set>
#include <stdexcept>
#include <string>
#include <vector>

template <class T> struct Ref {     // intrusive, single threaded
  T* p = nullptr;
  Ref() = default;
  Ref(T* x) : p(x) { if (p) ++p->rc; }
  Ref(const Ref& o) : p(o.p) { if (p) ++p->rc; }
  Ref(Ref&& o) noexcept : p(o.p) { o.p = nullptr; }
  Ref& operator=(Ref o) noexcept { std::swap(p, o.p); return *this; }
  ~Ref() { if (p && --p->rc == 0) delete p; }
  T* operator->() const { return p; }
  T& operator*() const { return *p; }
  explicit operator bool() const { return p; }
};

enum class OK : uint8_t { Stack, Heap, HeapNew, HeapNewArr, Global, Const, Func, External };
struct Obj;
struct Upd {
  int rc = 0;
  enum Kind { Write, Copy, Fill } k;
  E off = nullptr, len = nullptr;      // destination range
  std::vector<E> bytes;                // Write
  Ref<Obj> src; E srcOff = nullptr;    // Copy
  E val = nullptr;                     // Fill
  Ref<Upd> prev;
};
struct Obj {
  int rc = 0;
  uint32_t id = 0;
  OK kind = OK::Stack;
  bool alive = true;
  bool arr = false;                    // array (update chain) representation
  bool noinit = false;                 // external object: content unknown
  E size = nullptr;
  uint64_t csize = 0;                  // when !arr
  std::string name;
  std::vector<uint8_t> conc, flag;     // flag: 0 concrete, 1 undefined, 2 symbolic
  std::vector<E> sym;
  int base = 1;                        // arr: 0 zero, 1 undefined array, 2 symbolic input array
  unsigned arrId = 0;
  Ref<Upd> upds;
};

constexpr uint64_t SMALL_BASE = 1ull << 48, SMALL_SHIFT = 20, SMALL_HALF = 1ull << 19;
constexpr uint64_t BIG_BASE = 1ull << 62, BIG_SHIFT = 44, BIG_HALF = 1ull << 43;
constexpr uint64_t FUNC_BASE = 0x700000000ull;
constexpr uint32_t BIG_ID = 1u << 27;       // ids >= BIG_ID live in the big area

struct Chunk { int rc = 0; Ref<Obj> o[64]; };
struct MemTable {
  std::vector<Ref<Chunk>> small, big;
  uint32_t nextSmall = 0, nextBig = 0;
};

struct Opnd { int slot = -1; std::vector<E> c; };   // slot >= 0: registers slot.., else constants
struct DInst {
  const llvm::Instruction* I;
  unsigned op;
  int dst = -1;
  unsigned n = 0;                   // leaves of the result
  std::vector<Opnd> ops;
  int bb = 0;
  std::vector<int> succ;
  // memory access type
  std::vector<std::pair<unsigned, unsigned>> leaves;   // (byte offset, width) for load/store
  std::vector<uint64_t> aux;        // gep strides / misc
  uint64_t imm = 0;
};
struct FnInfo {
  const llvm::Function* F;
  std::string name, dem;
  std::vector<DInst> insts;
  std::vector<int> bbStart;
  std::vector<const llvm::BasicBlock*> bbs;
  std::unordered_map<const llvm::Value*, int> slots;
  std::vector<std::pair<int, unsigned>> args;
  int nregs = 0;
};
struct Frame {
  FnInfo* fi = nullptr;
  std::vector<E> regs;
  int pc = 0, bb = 0, prevBB = -1;
  std::vector<uint32_t> allocas;
  std::unordered_map<int, int> forks;   // inst -> forks taken in this frame
  const llvm::Instruction* site = nullptr;
  int cont = 0;                          // builtin continuation tag
  std::vector<struct LoopRec> loops;
};
struct LoopRec { int header; std::vector<Ref<Chunk>> snapSmall, snapBig; uint32_t nextSmall, nextBig; E variant; std::vector<std::pair<uint32_t, std::pair<E,E>>> ranges; int contract; };

struct ExcRec { E obj; uint64_t type; uint64_t dtor; };
struct Input { std::string name; std::vector<E> bytes; Ref<Obj> arr; E len = nullptr; };

struct ModelBox { Model m; std::unordered_map<E, APInt> memo; };

struct State {
  std::vector<Frame> frames;
  MemTable mem;
  std::vector<E> pc;
  std::vector<E> known;   // consequences of pc that were proved: kept out of the queries
  std::shared_ptr<ModelBox> model = std::make_shared<ModelBox>();
  std::vector<ArrFact> facts;
  std::vector<Input> inputs;
  std::vector<E> trace;
  std::vector<ExcRec> caught;
  ExcRec inflight{nullptr, 0, 0};
  std::vector<std::pair<unsigned, E>> firsts;   // positions found by byte searches, per array
  std::vector<E> sizes;            // symbolic sizes, minimised for replay
  std::set<std::string> covers;
  std::unordered_map<uint32_t, E> uninit;
  uint64_t insts = 0;
  int forksTotal = 0;
  bool uncertain = false;
  bool initPhase = false;
  std::vector<std::pair<size_t, int>> jumps;    // setjmp: depth of the frame and the call in it
};

struct Unsupported : std::runtime_error { using std::runtime_error::runtime_error; };
struct PathEnd { const char* why; };
