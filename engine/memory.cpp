// Object memory: concrete/symbolic bytes, arrays with update chains, address resolution.
#include "exec.h"
using namespace llvm;

static E c64(uint64_t v) { return mkConst(v, 64); }

uint64_t Engine::addrOf(uint32_t id) const {
  if (id >= BIG_ID) return BIG_BASE + (uint64_t(id - BIG_ID) << BIG_SHIFT) + BIG_HALF;
  return SMALL_BASE + (uint64_t(id) << SMALL_SHIFT) + SMALL_HALF;
}
bool Engine::idOf(const State& s, uint64_t a, uint32_t& id) const {
  if (a >= BIG_BASE && a < (1ull << 63)) {
    uint64_t i = (a - BIG_BASE) >> BIG_SHIFT;
    if (i >= s.mem.nextBig) return false;
    id = BIG_ID + i;
    return true;
  }
  if (a >= SMALL_BASE) {
    uint64_t i = (a - SMALL_BASE) >> SMALL_SHIFT;
    if (i == 0 || i >= s.mem.nextSmall) return false;
    id = i;
    return true;
  }
  return false;
}
Obj* Engine::makeGlobal(const GlobalVariable* g, uint32_t id) {
  auto* o = new Obj;
  o->id = id;
  o->name = demangled(g->getName().str());
  uint64_t n = g->getValueType()->isSized() ? DL->getTypeAllocSize(g->getValueType()) : 0;
  o->kind = g->isConstant() ? OK::Const : OK::Global;
  if (g->isDeclaration()) { o->kind = OK::External; o->noinit = true; if (n < 4096) n = 4096; }
  o->csize = n;
  o->size = c64(n);
  o->conc.assign(n, 0);
  o->flag.assign(n, g->isDeclaration() ? 1 : 0);
  globalTpl[id] = Ref<Obj>(o);     // addresses of other globals may be needed below
  if (g->hasInitializer()) {
    std::function<void(const Constant*, uint64_t)> put = [&](const Constant* c, uint64_t off) {
      Type* t = c->getType();
      if (isa<ConstantAggregateZero>(c) || isa<UndefValue>(c)) return;
      if (auto* d = dyn_cast<ConstantDataSequential>(c)) {
        StringRef r = d->getRawDataValues();
        memcpy(o->conc.data() + off, r.data(), r.size());
        return;
      }
      if (auto* st = dyn_cast<ConstantStruct>(c)) {
        auto* sl = DL->getStructLayout(cast<StructType>(t));
        for (unsigned i = 0; i < st->getNumOperands(); ++i) put(st->getOperand(i), off + sl->getElementOffset(i));
        return;
      }
      if (isa<ConstantArray>(c)) {
        uint64_t es = DL->getTypeAllocSize(cast<ArrayType>(t)->getElementType());
        for (unsigned i = 0; i < c->getNumOperands(); ++i) put(cast<Constant>(c->getOperand(i)), off + i * es);
        return;
      }
      E e = constExpr(c);
      if (!e->isConst()) return;
      unsigned nb = (e->w + 7) / 8;
      for (unsigned i = 0; i < nb; ++i) {
        unsigned w = std::min(8u, e->w - i * 8);
        o->conc[off + i] = uint8_t(e->c.extractBits(w, i * 8).getZExtValue());
      }
    };
    put(g->getInitializer(), 0);
  }
  return o;
}
const Obj* Engine::get(State& s, uint32_t id) {
  auto& t = id >= BIG_ID ? s.mem.big : s.mem.small;
  uint32_t i = id >= BIG_ID ? id - BIG_ID : id;
  if (i / 64 < t.size() && t[i / 64]) {
    Obj* o = t[i / 64]->o[i % 64].p;
    if (o) return o;
  }
  if (id < globalTpl.size()) {
    if (!globalTpl[id]) makeGlobal(globalVar[id], id);
    return globalTpl[id].p;
  }
  return nullptr;
}
Ref<Obj> Engine::getRef(State& s, uint32_t id) { return Ref<Obj>(const_cast<Obj*>(get(s, id))); }
static Ref<Obj>& slotFor(State& s, uint32_t id) {
  auto& t = id >= BIG_ID ? s.mem.big : s.mem.small;
  uint32_t i = id >= BIG_ID ? id - BIG_ID : id;
  if (t.size() <= i / 64) t.resize(i / 64 + 1);
  auto& c = t[i / 64];
  if (!c) c = Ref<Chunk>(new Chunk);
  else if (c->rc > 1) {
    auto* n = new Chunk;
    for (int k = 0; k < 64; ++k) n->o[k] = c->o[k];
    c = Ref<Chunk>(n);
  }
  return c->o[i % 64];
}
Obj* Engine::writable(State& s, uint32_t id) {
  const Obj* o = get(s, id);
  Ref<Obj>& r = slotFor(s, id);
  if (!r || r->rc > 1) {
    auto* n = new Obj(*o);
    n->rc = 0;
    r = Ref<Obj>(n);
  }
  return r.p;
}
uint32_t Engine::alloc(State& s, OK kind, E size, const std::string& name) {
  bool big = !size->isConst() || size->u() > 65536;
  uint32_t id = big ? BIG_ID + s.mem.nextBig++ : s.mem.nextSmall++;
  auto* o = new Obj;
  o->id = id;
  o->kind = kind;
  o->size = size;
  o->name = name;
  if (big) {
    o->arr = true;
    o->base = 1;
    o->arrId = newSym("mem:" + name, 0);
  } else {
    o->csize = size->u();
    o->conc.assign(o->csize, 0);
    o->flag.assign(o->csize, 1);
  }
  slotFor(s, id) = Ref<Obj>(o);
  return id;
}
void Engine::release(State& s, uint32_t id) {
  auto* o = new Obj;
  const Obj* old = get(s, id);
  o->id = id;
  o->alive = false;
  o->size = c64(0);
  o->kind = old->kind;
  o->name = old->name;
  slotFor(s, id) = Ref<Obj>(o);
}
void Engine::toArr(Obj* o) {
  if (o->arr) return;
  o->arr = true;
  o->base = 1;
  o->arrId = newSym("mem:" + o->name, 0);
  auto* u = new Upd;
  u->k = Upd::Write;
  u->off = c64(0);
  u->len = c64(o->csize);
  for (uint64_t i = 0; i < o->csize; ++i)
    u->bytes.push_back(o->flag[i] == 0 ? mkConst(o->conc[i], 8) : o->flag[i] == 2 ? o->sym[i] : mkArrRead(o->arrId, c64(i)));
  o->upds = Ref<Upd>(u);
  o->conc.clear(); o->flag.clear(); o->sym.clear();
}

std::pair<uint32_t, E> Engine::resolve(State& s, E addr, E len, bool write, const char* what) {
  for (int round = 0; round < 10000; ++round) {
    uint32_t id = 0;
    bool guessed = false;
    if (addr->isConst()) {
      if (addr->u() < 4096) {
        check(s, mkFalse(), std::string("null pointer ") + what, "memory");
        throw PathEnd{"null"};
      }
      if (!idOf(s, addr->u(), id) || !get(s, id)) {
        if (funcAt(addr->u())) throw Unsupported(std::string("data access to code address: ") + what);
        check(s, mkFalse(), std::string("wild pointer ") + what, "memory");
        throw PathEnd{"wild"};
      }
    } else {
      if (addr->k == K::Ite) {
        addr = branch(s, addr->a) ? addr->b : addr->d;
        continue;
      }
      std::map<unsigned, std::pair<E, APInt>> t;
      APInt c;
      linearize(addr, t, c);
      const Obj* g = nullptr;
      if (idOf(s, c.getZExtValue(), id)) g = get(s, id);
      if (!g || !g->alive) {
        guessed = true;
        uint64_t v = eval(s, addr).getZExtValue();
        if (v < 4096) {
          // null (or near null) is possible under the current model
          E isNull = mkCmp(K::Ult, addr, c64(4096));
          if (!check(s, mkNot(isNull), std::string("null pointer ") + what, "memory")) throw PathEnd{"null"};
          continue;
        }
        if (!idOf(s, v, id) || !get(s, id)) {
          E same = mkEq(addr, c64(v));
          if (!check(s, mkNot(same), std::string("wild pointer ") + what, "memory")) throw PathEnd{"wild"};
          continue;
        }
      }
    }
    const Obj* o = get(s, id);
    if (!o->alive) {
      E bad = mkTrue();
      if (guessed) {
        E off = mkSub(addr, c64(addrOf(id)));
        bad = mkCmp(K::Ult, off, c64(SMALL_HALF));
      }
      bool go = check(s, mkNot(bad), std::string(o->kind == OK::Stack ? "dangling stack access " : "use after free ") + what, "memory");
      if (!guessed || !go) throw PathEnd{"uaf"};
      continue;
    }
    E off = mkSub(addr, c64(addrOf(id)));
    E inb = mkAnd(mkCmp(K::Ule, len, o->size), mkCmp(K::Ule, off, mkSub(o->size, len)));
    if (guessed) {
      if (!branch(s, inb)) continue;
    } else if (!(inb->isConst() && !inb->c.isZero())) {
      if (o->kind == OK::External) throw Unsupported("external object " + o->name);
      if (!check(s, inb, std::string("out of bounds ") + what, "memory")) throw PathEnd{"oob"};
    }
    if (write && o->kind == OK::Const) {
      check(s, mkFalse(), std::string("write to constant ") + what, "memory");
      throw PathEnd{"const write"};
    }
    if (o->noinit && !write) {
      // content of an external object: unknown
      throw Unsupported("read of uninitialised or external object " + o->name);
    }
    return {id, off};
  }
  throw Unsupported("pointer resolution");
}

E Engine::readByteC(State& s, uint32_t id, const Obj*& o, uint64_t off) {
  if (off >= o->csize) return mkConst(0, 8);
  switch (o->flag[off]) {
    case 0: return mkConst(o->conc[off], 8);
    case 2: return o->sym[off];
    default: {
      Obj* w = writable(s, id);
      o = w;
      if (w->sym.size() != w->csize) w->sym.assign(w->csize, nullptr);
      w->sym[off] = mkSym(newSym("undef", 8));
      w->flag[off] = 2;
      return w->sym[off];
    }
  }
}
// byte of a snapshot (no write back of undefined bytes)
E Engine::readByte(State& s, const Obj* o, E off) {
  if (!o->arr) {
    auto at = [&](uint64_t i) -> E {
      if (i >= o->csize) return mkConst(0, 8);
      if (o->flag[i] == 0) return mkConst(o->conc[i], 8);
      if (o->flag[i] == 2) return o->sym[i];
      return mkConst(0, 8);
    };
    if (off->isConst()) return at(off->u());
    if (o->csize > 8192) throw Unsupported("symbolic offset into large object " + o->name);
    // stride of the offset
    std::map<unsigned, std::pair<E, APInt>> t;
    APInt c;
    linearize(off, t, c);
    uint64_t stride = 0;
    unsigned tz = 63;
    for (auto& [k, p] : t) {
      unsigned z = p.second.countTrailingZeros();
      E x = p.first;
      if (x->k == K::Concat && x->b->isConst() && x->b->c.isZero()) z += x->b->w;
      tz = std::min(tz, z);
    }
    if (tz > 12) tz = 12;
    stride = 1ull << tz;
    uint64_t first = c.getZExtValue() & (stride - 1);
    // constant-multiple strides (struct sizes) with one term
    if (t.size() == 1) {
      uint64_t m = t.begin()->second.second.getZExtValue();
      if (m && m < o->csize && m > stride && t.begin()->first) {
        uint64_t cc = c.getZExtValue();
        if (int64_t(cc) >= 0) { stride = m; first = cc % m; }
      }
    }
    E r = mkConst(0, 8);
    for (uint64_t i = first; i < o->csize; i += stride) r = mkIte(mkEq(off, c64(i)), at(i), r);
    return r;
  }
  // walk the update chain
  struct Pending { E cond, val; };
  std::vector<Pending> pend;
  const Obj* cur = o;
  E idx = off;
  E tail = nullptr;
  const Upd* u = cur->upds.p;
  while (!tail) {
    if (!u) {
      if (cur->base == 0) tail = mkConst(0, 8);
      else tail = mkArrRead(cur->arrId, idx);
      break;
    }
    E d = mkSub(idx, u->off);
    E in = mkCmp(K::Ult, d, u->len);
    int r = decide(s, in);
    if (r == 0) { u = u->prev.p; continue; }
    E v = nullptr;
    const Obj* next = nullptr;
    E nidx = nullptr;
    if (u->k == Upd::Fill) v = u->val;
    else if (u->k == Upd::Write) {
      if (d->isConst()) v = u->bytes[d->u()];
      else {
        v = u->bytes.back();
        for (size_t i = u->bytes.size() - 1; i-- > 0;) v = mkIte(mkEq(d, c64(i)), u->bytes[i], v);
      }
    } else {
      nidx = mkAdd(u->srcOff, d);
      next = u->src.p;
    }
    if (r == 1) {
      if (v) { tail = v; break; }
      if (!next->arr) { tail = readByte(s, next, nidx); break; }
      cur = next; idx = nidx; u = cur->upds.p;
      continue;
    }
    if (!v) v = readByte(s, next, nidx);
    pend.push_back({in, v});
    u = u->prev.p;
  }
  while (!pend.empty()) {
    tail = mkIte(pend.back().cond, pend.back().val, tail);
    pend.pop_back();
  }
  return tail;
}
E Engine::loadAt(State& s, uint32_t id, E off, unsigned width) {
  unsigned nb = (width + 7) / 8;
  const Obj* o = get(s, id);
  E r = nullptr;
  if (!o->arr && off->isConst()) {
    uint64_t b = off->u();
    bool conc = true;
    for (unsigned i = 0; i < nb; ++i) if (o->flag[b + i]) { conc = false; break; }
    if (conc) {
      if (nb <= 8) {
        uint64_t v = 0;
        memcpy(&v, o->conc.data() + b, nb);
        if (width < 64) v &= (1ull << width) - 1;
        return mkConst(v, width);
      }
      for (unsigned i = 0; i < nb; ++i) { E x = mkConst(o->conc[b + i], 8); r = r ? mkConcat(x, r) : x; }
    } else {
      bool allUndef = true;
      for (unsigned i = 0; i < nb; ++i) if (o->flag[b + i] != 1) { allUndef = false; break; }
      if (allUndef && nb > 1) {
        E u = mkSym(newSym("undef", nb * 8));
        storeAt(s, id, off, u);
        r = u;
      } else
        for (unsigned i = 0; i < nb; ++i) { E x = readByteC(s, id, o, b + i); r = r ? mkConcat(x, r) : x; }
    }
  } else {
    if (!o->arr) {
      // make undefined bytes stable before a symbolic-offset read
      for (uint64_t i = 0; i < o->csize; ++i) if (o->flag[i] == 1) readByteC(s, id, o, i);
    }
    Ref<Obj> keep = getRef(s, id);
    for (unsigned i = 0; i < nb; ++i) { E x = readByte(s, keep.p, mkAdd(off, c64(i))); r = r ? mkConcat(x, r) : x; }
  }
  return r->w == width ? r : mkExtract(r, 0, width);
}
void Engine::storeAt(State& s, uint32_t id, E off, E v) {
  if (v->w % 8) v = mkZExt(v, (v->w + 7) / 8 * 8);
  unsigned nb = v->w / 8;
  Obj* o = writable(s, id);
  if (!o->arr && off->isConst()) {
    uint64_t b = off->u();
    if (v->isConst()) {
      if (nb <= 8) { uint64_t x = v->u(); memcpy(o->conc.data() + b, &x, nb); }
      else for (unsigned i = 0; i < nb; ++i) o->conc[b + i] = uint8_t(v->c.extractBits(8, i * 8).getZExtValue());
      memset(o->flag.data() + b, 0, nb);
    } else {
      if (o->sym.size() != o->csize) o->sym.assign(o->csize, nullptr);
      for (unsigned i = 0; i < nb; ++i) {
        E x = mkExtract(v, i * 8, 8);
        if (x->isConst()) { o->conc[b + i] = uint8_t(x->u()); o->flag[b + i] = 0; }
        else { o->sym[b + i] = x; o->flag[b + i] = 2; }
      }
    }
    return;
  }
  if (!o->arr && o->csize <= 256) {
    // weak update of every byte
    if (o->sym.size() != o->csize) o->sym.assign(o->csize, nullptr);
    for (uint64_t i = 0; i < o->csize; ++i) {
      E d = mkSub(c64(i), off);
      E in = mkCmp(K::Ult, d, c64(nb));
      E old = o->flag[i] == 0 ? mkConst(o->conc[i], 8) : o->flag[i] == 2 ? o->sym[i] : mkSym(newSym("undef", 8));
      E nv = mkExtract(v, (nb - 1) * 8, 8);
      for (unsigned k = nb - 1; k-- > 0;) nv = mkIte(mkEq(d, c64(k)), mkExtract(v, k * 8, 8), nv);
      E x = mkIte(in, nv, old);
      if (x->isConst()) { o->conc[i] = uint8_t(x->u()); o->flag[i] = 0; }
      else { o->sym[i] = x; o->flag[i] = 2; }
    }
    return;
  }
  toArr(o);
  std::vector<E> bytes;
  for (unsigned i = 0; i < nb; ++i) bytes.push_back(mkExtract(v, i * 8, 8));
  auto* u = new Upd;
  u->k = Upd::Write;
  u->off = off;
  u->len = c64(nb);
  u->bytes = bytes;
  if (o->upds && o->upds->k == Upd::Write && o->upds->off == off && o->upds->bytes.size() <= bytes.size()) u->prev = o->upds->prev;
  else u->prev = o->upds;
  o->upds = Ref<Upd>(u);
}
E Engine::load(State& s, E addr, unsigned width, const char* what) {
  unsigned nb = (width + 7) / 8;
  if (addr->isConst()) {   // fast path
    uint32_t id;
    uint64_t a = addr->u();
    if (idOf(s, a, id)) {
      const Obj* o = get(s, id);
      if (o && o->alive && !o->arr && !o->noinit) {
        uint64_t off = a - addrOf(id);
        if (off + nb <= o->csize && off < o->csize) return loadAt(s, id, c64(off), width);
      }
    }
  }
  auto [id, off] = resolve(s, addr, c64(nb), false, what);
  return loadAt(s, id, off, width);
}
void Engine::store(State& s, E addr, E v, const char* what) {
  auto [id, off] = resolve(s, addr, c64((v->w + 7) / 8), true, what);
  storeAt(s, id, off, v);
}

uint64_t Engine::upper(State& s, E n, uint64_t cap) {
  if (n->isConst()) return n->u();
  for (uint64_t k = 1; k <= cap; k *= 2)
    if (decide(s, mkCmp(K::Ule, n, c64(k))) == 1) return k;
  return UINT64_MAX;
}

void Engine::copyMem(State& s, E dst, E src, E len) {
  if (len->isConst() && len->c.isZero()) return;
  if (!len->isConst()) { if (!branch(s, mkCmp(K::Ult, c64(0), len), false)) return; }
  auto [sid, soff] = resolve(s, src, len, false, "read by memcpy");
  auto [did, doff] = resolve(s, dst, len, true, "write by memcpy");
  const Obj* so = get(s, sid);
  const Obj* d0 = get(s, did);
  if (!so->arr && !d0->arr && len->isConst() && soff->isConst() && doff->isConst()) {
    uint64_t n = len->u(), a = soff->u(), b = doff->u();
    std::vector<uint8_t> cc(so->conc.begin() + a, so->conc.begin() + a + n), ff(so->flag.begin() + a, so->flag.begin() + a + n);
    std::vector<E> ss;
    bool anySym = false;
    for (auto f : ff) if (f == 2) { anySym = true; break; }
    if (anySym) ss.assign(so->sym.begin() + a, so->sym.begin() + a + n);
    Obj* o = writable(s, did);
    memcpy(o->conc.data() + b, cc.data(), n);
    memcpy(o->flag.data() + b, ff.data(), n);
    if (anySym) {
      if (o->sym.size() != o->csize) o->sym.assign(o->csize, nullptr);
      std::copy(ss.begin(), ss.end(), o->sym.begin() + b);
    }
    return;
  }
  if (!so->arr) {   // stabilise undefined bytes that may be read
    const Obj* t = so;
    if (len->isConst() && soff->isConst()) { for (uint64_t i = 0; i < len->u(); ++i) readByteC(s, sid, t, soff->u() + i); }
    else if (so->csize <= 4096) for (uint64_t i = 0; i < so->csize; ++i) if (t->flag[i] == 1) readByteC(s, sid, t, i);
  }
  Ref<Obj> snap = getRef(s, sid);
  if (len->isConst() && len->u() <= 64) {
    std::vector<E> bytes;
    for (uint64_t i = 0; i < len->u(); ++i) bytes.push_back(readByte(s, snap.p, mkAdd(soff, c64(i))));
    E v = nullptr;
    for (E x : bytes) v = v ? mkConcat(x, v) : x;
    snap = {};
    storeAt(s, did, doff, v);
    return;
  }
  Obj* o = writable(s, did);
  if (!o->arr && o->csize <= 1024 && doff->isConst()) {
    std::vector<E> nv(o->csize);
    uint64_t b = doff->u();
    uint64_t cap = upper(s, len, 1024);
    std::vector<std::pair<uint64_t, E>> put;
    for (uint64_t i = b; i < o->csize && i - b < cap; ++i) {
      E k = c64(i - b);
      E x = readByte(s, snap.p, mkAdd(soff, k));
      E old = o->flag[i] == 0 ? mkConst(o->conc[i], 8) : o->flag[i] == 2 ? o->sym[i] : mkSym(newSym("undef", 8));
      put.push_back({i, mkIte(mkCmp(K::Ult, k, len), x, old)});
    }
    o = writable(s, did);
    if (o->sym.size() != o->csize) o->sym.assign(o->csize, nullptr);
    for (auto& [i, x] : put) {
      if (x->isConst()) { o->conc[i] = uint8_t(x->u()); o->flag[i] = 0; }
      else { o->sym[i] = x; o->flag[i] = 2; }
    }
    return;
  }
  toArr(o);
  auto* u = new Upd;
  u->k = Upd::Copy;
  u->off = doff;
  u->len = len;
  u->src = snap;
  u->srcOff = soff;
  u->prev = o->upds;
  o->upds = Ref<Upd>(u);
}
void Engine::setMem(State& s, E dst, E v, E len) {
  if (len->isConst() && len->c.isZero()) return;
  if (!len->isConst()) { if (!branch(s, mkCmp(K::Ult, c64(0), len), false)) return; }
  auto [did, doff] = resolve(s, dst, len, true, "write by memset");
  Obj* o = writable(s, did);
  if (!o->arr && doff->isConst()) {
    uint64_t b = doff->u();
    if (len->isConst()) {
      uint64_t n = len->u();
      if (v->isConst()) {
        memset(o->conc.data() + b, int(v->u()), n);
        memset(o->flag.data() + b, 0, n);
      } else {
        if (o->sym.size() != o->csize) o->sym.assign(o->csize, nullptr);
        for (uint64_t i = 0; i < n; ++i) { o->sym[b + i] = v; o->flag[b + i] = 2; }
      }
      return;
    }
    if (o->csize <= 1024) {
      if (o->sym.size() != o->csize) o->sym.assign(o->csize, nullptr);
      for (uint64_t i = b; i < o->csize; ++i) {
        E old = o->flag[i] == 0 ? mkConst(o->conc[i], 8) : o->flag[i] == 2 ? o->sym[i] : mkSym(newSym("undef", 8));
        E x = mkIte(mkCmp(K::Ult, c64(i - b), len), v, old);
        if (x->isConst()) { o->conc[i] = uint8_t(x->u()); o->flag[i] = 0; }
        else { o->sym[i] = x; o->flag[i] = 2; }
      }
      return;
    }
  }
  toArr(o);
  auto* u = new Upd;
  u->k = Upd::Fill;
  u->off = doff;
  u->len = len;
  u->val = v;
  u->prev = o->upds;
  o->upds = Ref<Upd>(u);
}
// mode 0: memcmp
E Engine::cmpMem(State& s, E a, E b, E n, int) {
  if (n->isConst() && n->c.isZero()) return mkConst(0, 32);
  if (a == b) return mkConst(0, 32);
  uint64_t cap = upper(s, n, 256);
  if (cap == UINT64_MAX || cap > 4096) n = c64(concretize(s, n)), cap = n->u();
  if (!n->isConst()) { if (!branch(s, mkCmp(K::Ult, c64(0), n), false)) return mkConst(0, 32); }
  else if (n->c.isZero()) return mkConst(0, 32);
  auto [ia, oa] = resolve(s, a, n, false, "read by memcmp");
  auto [ib, ob] = resolve(s, b, n, false, "read by memcmp");
  Ref<Obj> ra = getRef(s, ia), rb = getRef(s, ib);
  E r = mkConst(0, 32);
  if (cap > 40) {   // lexicographic order of the bytes is the order of the big-endian numbers
    E wa = nullptr, wb = nullptr, z = mkConst(0, 8);
    for (uint64_t i = 0; i < cap; ++i) {
      E x = readByte(s, ra.p, mkAdd(oa, c64(i))), y = readByte(s, rb.p, mkAdd(ob, c64(i)));
      if (x == y) x = y = z;
      else if (!n->isConst()) {
        E in = mkCmp(K::Ult, c64(i), n);
        x = mkIte(in, x, z);
        y = mkIte(in, y, z);
      }
      wa = wa ? mkConcat(wa, x) : x;
      wb = wb ? mkConcat(wb, y) : y;
    }
    return mkIte(mkEq(wa, wb), r, mkIte(mkCmp(K::Ult, wa, wb), mkConst(~0ull, 32), mkConst(1, 32)));
  }
  for (uint64_t i = cap; i-- > 0;) {
    E x = readByte(s, ra.p, mkAdd(oa, c64(i))), y = readByte(s, rb.p, mkAdd(ob, c64(i)));
    E lt = mkCmp(K::Ult, x, y);
    E t = mkIte(mkEq(x, y), r, mkIte(lt, mkConst(~0ull, 32), mkConst(1, 32)));
    r = n->isConst() ? t : mkIte(mkCmp(K::Ult, c64(i), n), t, mkConst(0, 32));
  }
  return r;
}
// first index i < n with p[i] == c, or n when there is none; n == nullptr: no limit (strlen)
E Engine::firstByte(State& s, E p, E n, E c, const char* what) {
  if (n && n->isConst() && n->c.isZero()) return c64(0);
  if (n && !n->isConst()) { if (!branch(s, mkCmp(K::Ult, c64(0), n), false)) return c64(0); }
  auto [id, off] = resolve(s, p, c64(1), false, what);
  const Obj* o = get(s, id);
  std::string miss = n ? std::string("out of bounds ") + what : std::string("out of bounds ") + what + " (no terminator)";
  if (!o->arr) {
    uint64_t b = off->isConst() ? off->u() : concretize(s, off);
    for (uint64_t i = b; i < o->csize; ++i) {
      if (n && (n->isConst() ? n->u() <= i - b : branch(s, mkCmp(K::Ule, n, c64(i - b)), false))) return c64(i - b);
      E x = readByteC(s, id, o, i);
      E hit = mkEq(x, c);
      if (hit->isConst() ? !hit->c.isZero() : branch(s, hit, false)) return c64(i - b);
      o = get(s, id);
    }
    if (n && check(s, mkCmp(K::Ule, n, c64(o->csize - b)), miss, "memory")) return n;
    check(s, mkFalse(), miss, "memory");
    throw PathEnd{"strlen"};
  }
  E room = mkSub(o->size, off);
  E lim = room;
  if (n) lim = mkIte(mkCmp(K::Ule, n, room), n, room);
  if (!branch(s, mkCmp(K::Ult, c64(0), lim), false)) {
    check(s, mkFalse(), miss, "memory");
    throw PathEnd{"strlen"};
  }
  Ref<Obj> keep = getRef(s, id);
  E hit = findIn(s, keep, keep->upds, off, mkAdd(off, lim), c);
  if (hit) return mkSub(hit, off);
  check(s, n ? mkCmp(K::Ule, n, room) : mkFalse(), miss, "memory");
  if (!n) throw PathEnd{"strlen"};
  return n;
}
// first index in [from, to) of a snapshot that holds c, nullptr when there is none: the update chain is
// split into the ranges each update covers, a range of an input array is covered by a contract
E Engine::findIn(State& s, Ref<Obj> o, Ref<Upd> u, E from, E to, E c) {
  auto lt = [&](E a, E b) { return branch(s, mkCmp(K::Ult, a, b), false); };
  if (!o->arr) {
    for (uint64_t i = 0; i < o->csize; ++i) {
      E x = readByte(s, o.p, c64(i));
      E hit = mkAnd(mkAnd(mkCmp(K::Ule, from, c64(i)), mkCmp(K::Ult, c64(i), to)), mkEq(x, c));
      if (hit->isConst() ? !hit->c.isZero() : branch(s, hit, false)) return c64(i);
    }
    return nullptr;
  }
  if (!u) {
    if (o->base == 0) {
      E hit = mkEq(mkConst(0, 8), c);
      return (hit->isConst() ? !hit->c.isZero() : branch(s, hit, false)) ? from : nullptr;
    }
    E L = mkSym(newSym("first", 64));
    E I = mkSym(newSym("ph_idx", 64)), B = mkSym(newSym("ph_byte", 8));
    unsigned arr = o->arrId;
    auto none = [&](E i) { return mkAnd(mkCmp(K::Ule, from, i), mkCmp(K::Ult, i, L)); };
    s.facts.push_back({arr, I, B, mkImplies(none(I), mkNot(mkEq(B, c)))});
    assume(s, mkAnd(mkCmp(K::Ule, from, L), mkCmp(K::Ule, L, to)));
    // the witness is always read so that the facts are instantiated at L
    assume(s, mkImplies(mkCmp(K::Ult, L, to), mkEq(mkArrRead(arr, L), c)));
    // instances of the contract at the positions found before
    for (auto& [a, k] : s.firsts)
      if (a == arr) assume(s, mkImplies(none(k), mkNot(mkEq(mkArrRead(arr, k), c))));
    s.firsts.push_back({arr, L});
    if (lt(L, to)) return L;
    assume(s, mkEq(L, to));
    return nullptr;
  }
  E ub = u->off, ue = mkAdd(u->off, u->len);
  // before the update
  if (lt(from, ub)) {
    E e = to;
    if (lt(ub, to)) e = ub;
    if (E r = findIn(s, o, u->prev, from, e, c)) return r;
    if (e == to) return nullptr;
    from = ub;
  }
  // the update
  if (lt(from, ue)) {
    E e = to;
    if (lt(ue, to)) e = ue;
    if (u->k == Upd::Fill) {
      E hit = mkEq(u->val, c);
      if (hit->isConst() ? !hit->c.isZero() : branch(s, hit, false)) return from;
    } else if (u->k == Upd::Write) {
      for (size_t i = 0; i < u->bytes.size(); ++i) {
        E at = mkAdd(ub, c64(i));
        E hit = mkAnd(mkAnd(mkCmp(K::Ule, from, at), mkCmp(K::Ult, at, e)), mkEq(u->bytes[i], c));
        if (hit->isConst() ? !hit->c.isZero() : branch(s, hit, false)) return at;
      }
    } else {
      E d = mkSub(u->srcOff, ub);
      if (E r = findIn(s, u->src, u->src->upds, mkAdd(from, d), mkAdd(e, d), c)) return mkSub(r, d);
    }
    if (e == to) return nullptr;
    from = ue;
  }
  // behind the update
  return findIn(s, o, u->prev, from, to, c);
}
E Engine::strLen(State& s, E p) { return firstByte(s, p, nullptr, mkConst(0, 8), "read by strlen"); }
std::string Engine::cstr(State& s, E p) {
  std::string r;
  if (!p->isConst()) return "?";
  uint32_t id;
  if (!idOf(s, p->u(), id)) return "?";
  const Obj* o = get(s, id);
  if (!o || o->arr) return "?";
  for (uint64_t i = p->u() - addrOf(id); i < o->csize && o->flag[i] == 0 && o->conc[i]; ++i) r += char(o->conc[i]);
  return r;
}
