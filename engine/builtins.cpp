// LLVM intrinsics, the v_* specification primitives, the C++ runtime, libc primitives.
#include "exec.h"
#include <llvm/IR/Constants.h>
#include <llvm/Support/raw_ostream.h>
using namespace llvm;

static E c64(uint64_t v) { return mkConst(v, 64); }

bool Engine::intrinsic(State& s, DInst& d, std::vector<E>& a, std::vector<E>& ret) {
  auto* cb = cast<CallBase>(d.I);
  auto id = cast<Function>(cb->getCalledOperand())->getIntrinsicID();
  switch (id) {
    case Intrinsic::lifetime_start: {
      // contents of the slot become undefined
      if (a[1]->isConst()) {
        uint32_t oid;
        if (idOf(s, a[1]->u(), oid) && get(s, oid)->alive && !get(s, oid)->arr) {
          Obj* o = writable(s, oid);
          memset(o->flag.data(), 1, o->flag.size());
        }
      }
      return true;
    }
    case Intrinsic::lifetime_end: case Intrinsic::dbg_declare: case Intrinsic::dbg_value: case Intrinsic::dbg_label:
    case Intrinsic::assume: case Intrinsic::experimental_noalias_scope_decl: case Intrinsic::prefetch:
    case Intrinsic::stackrestore: case Intrinsic::invariant_end: case Intrinsic::donothing:
      return true;
    case Intrinsic::stacksave: ret = {c64(0)}; return true;
    case Intrinsic::invariant_start: ret = {c64(0)}; return true;
    case Intrinsic::expect: case Intrinsic::expect_with_probability: ret = {a[0]}; return true;
    case Intrinsic::launder_invariant_group: case Intrinsic::strip_invariant_group: ret = {a[0]}; return true;
    case Intrinsic::threadlocal_address: ret = {a[0]}; return true;
    case Intrinsic::memcpy: case Intrinsic::memmove: case Intrinsic::memcpy_inline: copyMem(s, a[0], a[1], mkZExt(a[2], 64)); return true;
    case Intrinsic::memset: setMem(s, a[0], a[1], mkZExt(a[2], 64)); return true;
    case Intrinsic::eh_typeid_for: {
      uint64_t key = a[0]->u();
      size_t k = 0;
      for (; k < typeidTable.size(); ++k) if (typeidTable[k] == key) break;
      if (k == typeidTable.size()) typeidTable.push_back(key);
      ret = {mkConst(k + 1, 32)};
      return true;
    }
    case Intrinsic::trap: case Intrinsic::ubsantrap:
      check(s, mkFalse(), "trap is not reached", "safety");
      throw PathEnd{"trap"};
    case Intrinsic::is_constant: ret = {mkConst(a[0]->isConst(), 1)}; return true;
    case Intrinsic::objectsize: ret = {mkConst(~0ull, d.aux.back())}; return true;
    case Intrinsic::bswap: {
      E r = nullptr;
      for (unsigned i = 0; i < a[0]->w; i += 8) { E x = mkExtract(a[0], i, 8); r = r ? mkConcat(r, x) : x; }
      ret = {r};
      return true;
    }
    case Intrinsic::umax: ret = {mkIte(mkCmp(K::Ult, a[0], a[1]), a[1], a[0])}; return true;
    case Intrinsic::umin: ret = {mkIte(mkCmp(K::Ult, a[0], a[1]), a[0], a[1])}; return true;
    case Intrinsic::smax: ret = {mkIte(mkCmp(K::Slt, a[0], a[1]), a[1], a[0])}; return true;
    case Intrinsic::smin: ret = {mkIte(mkCmp(K::Slt, a[0], a[1]), a[0], a[1])}; return true;
    case Intrinsic::abs: {
      E z = mkConst(0, a[0]->w);
      ret = {mkIte(mkCmp(K::Slt, a[0], z), mkSub(z, a[0]), a[0])};
      return true;
    }
    case Intrinsic::uadd_with_overflow: case Intrinsic::usub_with_overflow: case Intrinsic::umul_with_overflow:
    case Intrinsic::sadd_with_overflow: case Intrinsic::ssub_with_overflow: case Intrinsic::smul_with_overflow: {
      unsigned w = a[0]->w;
      bool sg = id == Intrinsic::sadd_with_overflow || id == Intrinsic::ssub_with_overflow || id == Intrinsic::smul_with_overflow;
      bool mul = id == Intrinsic::umul_with_overflow || id == Intrinsic::smul_with_overflow;
      bool add = id == Intrinsic::uadd_with_overflow || id == Intrinsic::sadd_with_overflow;
      unsigned ww = mul ? 2 * w : w + 2;
      E x = sg ? mkSExt(a[0], ww) : mkZExt(a[0], ww), y = sg ? mkSExt(a[1], ww) : mkZExt(a[1], ww);
      E z = mul ? mkMul(x, y) : add ? mkAdd(x, y) : mkSub(x, y);
      E r = mkExtract(z, 0, w);
      ret = {r, mkNot(mkEq(z, sg ? mkSExt(r, ww) : mkZExt(r, ww)))};
      return true;
    }
    case Intrinsic::usub_sat: ret = {mkIte(mkCmp(K::Ult, a[0], a[1]), mkConst(0, a[0]->w), mkSub(a[0], a[1]))}; return true;
    case Intrinsic::uadd_sat: {
      E r = mkAdd(a[0], a[1]);
      ret = {mkIte(mkCmp(K::Ult, r, a[0]), mkConst(~0ull, a[0]->w), r)};
      return true;
    }
    case Intrinsic::fshl: case Intrinsic::fshr: {
      if (!a[2]->isConst()) return false;
      unsigned w = a[0]->w, n = unsigned(a[2]->u() % w);
      E cc = mkConcat(a[0], a[1]);
      if (id == Intrinsic::fshl) ret = {mkExtract(cc, w - n, w)};
      else ret = {mkExtract(cc, n, w)};
      return true;
    }
    case Intrinsic::ctpop: {
      unsigned w = a[0]->w;
      E r = mkConst(0, w);
      for (unsigned i = 0; i < w; ++i) r = mkAdd(r, mkZExt(mkExtract(a[0], i, 1), w));
      ret = {r};
      return true;
    }
    case Intrinsic::ctlz: case Intrinsic::cttz: {
      unsigned w = a[0]->w;
      E r = mkConst(w, w);
      for (unsigned k = 0; k < w; ++k) {
        unsigned i = id == Intrinsic::ctlz ? k : w - 1 - k;   // later iterations win
        E bit = mkExtract(a[0], i, 1);
        r = mkIte(bit, mkConst(id == Intrinsic::ctlz ? w - 1 - i : i, w), r);
      }
      ret = {r};
      return true;
    }
    case Intrinsic::fabs: ret = {mkAnd(a[0], mkConst(~APInt::getSignMask(a[0]->w)))}; return true;
    default: return false;
  }
}

static bool starts(const StringRef& n, const char* p) { return n.starts_with(p); }

// handled == true: control already transferred (frames changed); otherwise ret is the result
bool Engine::builtin(State& s, const Function* f, DInst& d, std::vector<E>& a, std::vector<E>& ret, bool& handled) {
  StringRef n = f->getName();
  auto heap = [&](OK k, E size) {
    uint32_t id = alloc(s, k, size, "heap@" + where(s));
    if (!size->isConst()) {
      // object sizes stay within the modelled address space
      assume(s, mkCmp(K::Ule, size, c64(1ull << 40)));
    }
    return c64(addrOf(id));
  };
  auto dealloc = [&](E p, OK want) {
    while (!p->isConst()) {
      if (p->k == K::Ite) p = branch(s, p->a) ? p->b : p->d;
      else p = c64(concretize(s, p));
    }
    if (p->u() == 0) return;
    uint32_t id;
    if (!idOf(s, p->u(), id) || addrOf(id) != p->u()) { check(s, mkFalse(), "free of a pointer that was not allocated", "memory"); throw PathEnd{"free"}; }
    const Obj* o = get(s, id);
    if (!o->alive) { check(s, mkFalse(), "double free", "memory"); throw PathEnd{"free"}; }
    if (o->kind != want && !(o->kind == OK::HeapNew && want == OK::HeapNewArr) && !(o->kind == OK::HeapNewArr && want == OK::HeapNew)) { check(s, mkFalse(), "mismatched free", "memory"); throw PathEnd{"free"}; }
    release(s, id);
  };
  // ---- specification primitives
  if (starts(n, "v_")) {
    if (n == "v_sym") {
      std::string name = cstr(s, a[2]);
      if (!a[1]->isConst()) throw Unsupported("v_sym with symbolic size");
      uint64_t k = a[1]->u();
      Input in;
      in.name = name;
      auto [oid, off] = resolve(s, a[0], a[1], true, "v_sym");
      if (k == 1 || k == 2 || k == 4 || k == 8) {
        E x = mkSym(newSym(name, unsigned(k * 8)));
        storeAt(s, oid, off, x);
        for (unsigned i = 0; i < k; ++i) in.bytes.push_back(mkExtract(x, i * 8, 8));
      } else
        for (uint64_t i = 0; i < k; ++i) {
          E x = mkSym(newSym(name, 8));
          in.bytes.push_back(x);
          storeAt(s, oid, mkAdd(off, c64(i)), x);
        }
      s.inputs.push_back(in);
      return true;
    }
    if (n == "v_alloc") {
      std::string name = cstr(s, a[1]);
      E size = a[0];
      if (size->isConst() && size->u() <= 65536) {
        uint32_t id = alloc(s, OK::Heap, size, name);
        Input in;
        in.name = name;
        for (uint64_t i = 0; i < size->u(); ++i) {
          E x = mkSym(newSym(name, 8));
          in.bytes.push_back(x);
          storeAt(s, id, c64(i), x);
        }
        s.inputs.push_back(in);
        ret = {c64(addrOf(id))};
        return true;
      }
      assume(s, mkCmp(K::Ule, size, c64(1ull << 40)));
      uint32_t id = alloc(s, OK::Heap, size, name);
      Obj* o = writable(s, id);
      o->base = 2;
      Input in;
      in.name = name;
      in.arr = Ref<Obj>(o);
      in.len = size;
      s.inputs.push_back(in);
      s.sizes.push_back(size);
      ret = {c64(addrOf(id))};
      return true;
    }
    if (n == "v_assume") { E c = a[0]; assume(s, c->w == 1 ? c : mkNot(mkEq(c, mkConst(0, c->w)))); return true; }
    if (n == "v_assert") {
      E c = a[0];
      if (!check(s, c->w == 1 ? c : mkNot(mkEq(c, mkConst(0, c->w))), cstr(s, a[1]), "property")) throw PathEnd{"assert"};
      return true;
    }
    if (n == "v_cover") { s.covers.insert(cstr(s, a[0])); return true; }
    if (n == "v_bound") { bounds.insert(cstr(s, a[0])); return true; }
    if (n == "v_native") { ret = {mkConst(0, d.aux.back())}; return true; }
    if (n == "v_concretize") { ret = {mkConst(concretize(s, a[0]), a[0]->w)}; return true; }
    if (n == "v_trace") { s.trace.push_back(a[0]); return true; }
    if (n == "v_size") { s.sizes.push_back(a[0]); return true; }
    if (n == "v_end") throw PathEnd{"assume"};
    if (n == "v_check_overflow") { opt.signedOverflow = a[0]->u() != 0; return true; }
    if (n == "v_external") throw Unsupported("external function " + cstr(s, a[0]));
    if (n == "v_str_eq") return false;
  }
  // ---- allocation
  if (n == "malloc") { ret = {heap(OK::Heap, a[0])}; return true; }
  if (n == "calloc") {
    E z = mkMul(a[0], a[1]);
    E p = heap(OK::Heap, z);
    setMem(s, p, mkConst(0, 8), z);
    ret = {p};
    return true;
  }
  if (n == "realloc") {
    E p = a[0];
    if (!p->isConst()) throw Unsupported("realloc");
    E q = heap(OK::Heap, a[1]);
    if (p->u()) {
      uint32_t id;
      if (!idOf(s, p->u(), id) || !get(s, id)->alive) { check(s, mkFalse(), "realloc of a dead pointer", "memory"); throw PathEnd{"free"}; }
      E os = get(s, id)->size;
      E m = mkIte(mkCmp(K::Ult, a[1], os), a[1], os);
      copyMem(s, q, p, m);
      release(s, id);
    }
    ret = {q};
    return true;
  }
  if (n == "free") { dealloc(a[0], OK::Heap); return true; }
  if (n == "aligned_alloc") { ret = {heap(OK::Heap, a[1])}; return true; }
  if (starts(n, "_Znwm")) { ret = {heap(OK::HeapNew, a[0])}; return true; }
  if (starts(n, "_Znam")) { ret = {heap(OK::HeapNewArr, a[0])}; return true; }
  if (starts(n, "_ZdlPv")) { dealloc(a[0], OK::HeapNew); return true; }
  if (starts(n, "_ZdaPv")) { dealloc(a[0], OK::HeapNewArr); return true; }
  // ---- memory and strings
  if (n == "memcpy" || n == "memmove") { copyMem(s, a[0], a[1], a[2]); ret = {a[0]}; return true; }
  if (n == "memset") { setMem(s, a[0], mkExtract(a[1], 0, 8), a[2]); ret = {a[0]}; return true; }
  if (n == "memcmp" || n == "bcmp") { ret = {cmpMem(s, a[0], a[1], a[2], 0)}; return true; }
  if (n == "strnlen") { ret = {firstByte(s, a[0], a[1], mkConst(0, 8), "read by strnlen")}; return true; }
  if (n == "memchr") {
    E L = firstByte(s, a[0], a[2], mkExtract(a[1], 0, 8), "read by memchr");
    bool found = branch(s, mkCmp(K::Ult, L, a[2]), false);
    ret = {found ? mkAdd(a[0], L) : c64(0)};
    return true;
  }
  if (n == "strlen") { ret = {strLen(s, a[0])}; return true; }
  // ---- program end
  if (n == "abort" || n == "_ZSt9terminatev" || n == "__clang_call_terminate") {
    if (n == "__clang_call_terminate" || n == "_ZSt9terminatev") check(s, mkFalse(), "std::terminate is not reached", "safety");
    else check(s, mkFalse(), "abort is not reached", "safety");
    throw PathEnd{"abort"};
  }
  if (n == "__assert_fail" || n == "_ZSt21__glibcxx_assert_failPKciS0_S0_") {
    check(s, mkFalse(), "assert( " + cstr(s, n == "__assert_fail" ? a[0] : a[3]) + ")", "safety");
    throw PathEnd{"assert"};
  }
  if (n == "_setjmp" || n == "setjmp" || n == "__sigsetjmp") {
    auto& f = s.frames.back();
    s.jumps.push_back({s.frames.size(), f.pc});
    store(s, a[0], c64(s.jumps.size()));
    ret = {mkConst(0, 32)};
    return true;
  }
  if (n == "longjmp" || n == "_longjmp" || n == "siglongjmp") {
    E id = load(s, a[0], 64);
    if (!id->isConst() || !a[1]->isConst()) throw Unsupported("longjmp");
    bool ok = id->u() >= 1 && id->u() <= s.jumps.size();
    auto to = ok ? s.jumps[id->u() - 1] : std::make_pair(size_t(0), 0);
    if (ok && (to.first >= s.frames.size())) ok = false;
    if (ok) {
      auto& f = s.frames[to.first - 1];
      auto* called = llvm::dyn_cast<llvm::CallBase>(f.fi->insts[to.second].I);
      ok = called && called->getCalledFunction() && called->getCalledFunction()->getName().contains("setjmp");
    }
    if (!ok) { check(s, mkFalse(), "a jump is made to a function that is still executing", "safety"); throw PathEnd{"longjmp"}; }
    while (s.frames.size() > to.first) {
      for (uint32_t id : s.frames.back().allocas) release(s, id);
      s.frames.pop_back();
    }
    auto& f = s.frames.back();
    f.pc = to.second;
    f.bb = f.fi->insts[to.second].bb;
    handled = true;
    finishCall(s, {a[1]->u() == 0 ? mkConst(1, 32) : a[1]});
    return true;
  }
  if (n == "__cxa_pure_virtual") { check(s, mkFalse(), "pure virtual call", "safety"); throw PathEnd{"pure"}; }
  if (n == "exit" || n == "_exit" || n == "quick_exit") { throw PathEnd{"exit"}; }
  // ---- C++ runtime
  if (n == "__cxa_atexit" || n == "atexit" || n == "__cxa_thread_atexit") { ret = {mkConst(0, 32)}; return true; }
  if (n == "__cxa_guard_acquire") { E g = load(s, a[0], 8); bool done = !(g->isConst() && g->c.isZero()); ret = {mkConst(done ? 0 : 1, 32)}; return true; }
  if (n == "__cxa_guard_release") { store(s, a[0], mkConst(1, 8)); return true; }
  if (n == "__cxa_guard_abort") return true;
  if (n == "__cxa_allocate_exception") { ret = {c64(addrOf(alloc(s, OK::Heap, a[0], "exception")))}; return true; }
  if (n == "__cxa_free_exception") return true;
  if (n == "__cxa_throw") { handled = true; throwObj(s, {a[0], a[1]->u(), a[2]->u()}); return true; }
  if (n == "__cxa_begin_catch") {
    s.caught.push_back(s.inflight);
    ret = {a[0]};
    // base-class offset of the matching clause
    return true;
  }
  if (n == "__cxa_get_exception_ptr") { ret = {a[0]}; return true; }
  if (n == "__cxa_end_catch") { if (!s.caught.empty()) s.caught.pop_back(); return true; }
  if (n == "__cxa_rethrow") {
    if (s.caught.empty()) { check(s, mkFalse(), "std::terminate is not reached", "safety"); throw PathEnd{"terminate"}; }
    handled = true;
    throwObj(s, s.caught.back());
    return true;
  }
  if (n == "v_rt_current_exception") {   // (void** obj, void** type)
    if (s.caught.empty()) { store(s, a[0], c64(0)); store(s, a[1], c64(0)); }
    else { store(s, a[0], s.caught.back().obj); store(s, a[1], c64(s.caught.back().type)); }
    return true;
  }
  if (n == "v_rt_throw") { handled = true; throwObj(s, {a[0], a[1]->u(), 0}); return true; }
  if (n == "_ZSt18uncaught_exceptionv") { ret = {mkConst(0, 1)}; return true; }
  if (n == "_ZSt19uncaught_exceptionsv") { ret = {mkConst(0, 32)}; return true; }
  if (n == "__dynamic_cast") {
    // (src, src_type, dst_type, hint): dynamic type from the vtable
    E p = a[0];
    while (!p->isConst()) p = c64(concretize(s, p));
    if (p->u() == 0) { ret = {c64(0)}; return true; }
    E vt = load(s, p, 64);
    if (!vt->isConst()) throw Unsupported("dynamic_cast");
    E ti = load(s, c64(vt->u() - 8), 64);
    E top = load(s, c64(vt->u() - 16), 64);
    int64_t adj;
    if (typeMatch(s, ti->u(), a[2]->u(), adj)) ret = {c64(p->u() + top->u() + adj)};
    else ret = {c64(0)};
    return true;
  }
  if (starts(n, "pthread_") || starts(n, "__gthr") || starts(n, "sem_")) {
    if (n == "pthread_once") return false;
    if (n == "pthread_self") { ret = {c64(1)}; return true; }
    if (d.n == 1) { ret = {mkConst(0, d.aux.back())}; return true; }
    return true;
  }
  if (n == "__errno_location") {
    auto* g = M->getNamedGlobal("v_rt_errno");
    if (!g) throw Unsupported("errno");
    ret = {constExpr(g)};
    return true;
  }
  return false;
}
