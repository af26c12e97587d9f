#include "expr.h"
#include <llvm/ADT/Hashing.h>
#include <llvm/ADT/SmallString.h>
#include <algorithm>
#include <cstdlib>
#include <deque>
#include <unordered_set>

std::vector<SymInfo> g_syms;
static std::vector<E> g_symExpr;

unsigned newSym(const std::string& name, unsigned w) {
  g_syms.push_back({name, w});
  g_symExpr.push_back(nullptr);
  return g_syms.size() - 1;
}

namespace {
struct Hash {
  size_t operator()(E e) const {
    size_t h = size_t(e->k) * 0x9e3779b97f4a7c15ull + e->w * 1000003u + e->aux * 7919u;
    if (e->k == K::Const) h ^= hash_value(e->c);
    auto mix = [&](E x) { h = (h ^ (x ? x->id + 1 : 0)) * 0x100000001b3ull; h ^= h >> 29; };
    mix(e->a); mix(e->b); mix(e->d);
    return h;
  }
};
struct Same {
  bool operator()(E x, E y) const {
    if (x->k != y->k || x->w != y->w || x->aux != y->aux || x->a != y->a || x->b != y->b || x->d != y->d) return false;
    return x->k != K::Const || x->c == y->c;
  }
};
std::unordered_set<E, Hash, Same> table;
std::deque<Expr> arena;

E intern(const Expr& e) {
  auto it = table.find(&e);
  if (it != table.end()) return *it;
  arena.push_back(e);
  Expr& n = arena.back();
  n.id = arena.size();
  table.insert(&n);
  return &n;
}
E node(K k, unsigned w, E a = nullptr, E b = nullptr, E d = nullptr, unsigned aux = 0) {
  Expr e(k, w);
  e.a = a; e.b = b; e.d = d; e.aux = aux;
  return intern(e);
}
}  // namespace

size_t exprCount() { return arena.size(); }

E mkConst(const APInt& v) {
  Expr e(K::Const, v.getBitWidth());
  e.c = v;
  return intern(e);
}
E mkConst(uint64_t v, unsigned w) { return mkConst(APInt(w, v, false)); }
E mkSym(unsigned id) {
  if (!g_symExpr[id]) g_symExpr[id] = node(K::Sym, g_syms[id].w, nullptr, nullptr, nullptr, id);
  return g_symExpr[id];
}
E mkArrRead(unsigned arr, E idx) { return node(K::ArrRead, 8, idx, nullptr, nullptr, arr); }

static void lin(E e, const APInt& f, std::map<unsigned, std::pair<E, APInt>>& t, APInt& c, int depth) {
  if (e->isConst()) { c += f * e->c; return; }
  if (depth < 40) {
    if (e->k == K::Add) { lin(e->a, f, t, c, depth + 1); lin(e->b, f, t, c, depth + 1); return; }
    if (e->k == K::Mul && e->b->isConst()) { lin(e->a, f * e->b->c, t, c, depth + 1); return; }
    if (e->k == K::Shl && e->b->isConst() && e->b->c.ult(e->w)) {
      lin(e->a, f.shl(e->b->c), t, c, depth + 1);
      return;
    }
  }
  auto it = t.find(e->id);
  if (it == t.end()) t.emplace(e->id, std::make_pair(e, f));
  else {
    it->second.second += f;
    if (it->second.second.isZero()) t.erase(it);
  }
}
void linearize(E e, std::map<unsigned, std::pair<E, APInt>>& t, APInt& c) {
  c = APInt(e->w, 0);
  lin(e, APInt(e->w, 1), t, c, 0);
}
static E fromLin(std::map<unsigned, std::pair<E, APInt>>& t, const APInt& c) {
  E r = nullptr;
  for (auto& [id, p] : t) {
    E x = p.second.isOne() ? p.first : node(K::Mul, c.getBitWidth(), p.first, mkConst(p.second));
    r = r ? node(K::Add, c.getBitWidth(), r, x) : x;
  }
  if (!r) return mkConst(c);
  if (!c.isZero()) r = node(K::Add, c.getBitWidth(), r, mkConst(c));
  return r;
}
static E addScaled(E a, E b, bool neg) {
  std::map<unsigned, std::pair<E, APInt>> t;
  APInt c(a->w, 0);
  lin(a, APInt(a->w, 1), t, c, 0);
  lin(b, neg ? APInt::getAllOnes(a->w) : APInt(a->w, 1), t, c, 0);
  return fromLin(t, c);
}
E mkAdd(E a, E b) {
  if (a->isConst() && b->isConst()) return mkConst(a->c + b->c);
  if (a->isConst() && a->c.isZero()) return b;
  if (b->isConst() && b->c.isZero()) return a;
  if (a->w == 1) return mkBin(K::Xor, a, b);
  return addScaled(a, b, false);
}
E mkSub(E a, E b) {
  if (a->isConst() && b->isConst()) return mkConst(a->c - b->c);
  if (b->isConst() && b->c.isZero()) return a;
  if (a == b) return mkConst(0, a->w);
  if (a->w == 1) return mkBin(K::Xor, a, b);
  return addScaled(a, b, true);
}
E mkMul(E a, E b) {
  if (a->isConst() && b->isConst()) return mkConst(a->c * b->c);
  if (a->isConst()) std::swap(a, b);
  if (b->isConst()) {
    if (b->c.isZero()) return b;
    if (b->c.isOne()) return a;
    std::map<unsigned, std::pair<E, APInt>> t;
    APInt c(a->w, 0);
    lin(a, b->c, t, c, 0);
    for (auto it = t.begin(); it != t.end();) it = it->second.second.isZero() ? t.erase(it) : std::next(it);
    return fromLin(t, c);
  }
  if (a->id > b->id) std::swap(a, b);
  return node(K::Mul, a->w, a, b);
}

E mkNot(E a) {
  if (a->isConst()) return mkConst(~a->c);
  if (a->w == 1) {
    if (a->k == K::Xor && a->b->isConst()) return a->a;
    if (a->k == K::Ult) return mkCmp(K::Ule, a->b, a->a);
    if (a->k == K::Ule) return mkCmp(K::Ult, a->b, a->a);
    if (a->k == K::Slt) return mkCmp(K::Sle, a->b, a->a);
    if (a->k == K::Sle) return mkCmp(K::Slt, a->b, a->a);
  } else if (a->k == K::Xor && a->b->isConst() && a->b->c.isAllOnes()) return a->a;
  return node(K::Xor, a->w, a, mkConst(APInt::getAllOnes(a->w)));
}
static bool isNotOf(E a, E b) { return a->k == K::Xor && a->b->isConst() && a->b->c.isAllOnes() && a->a == b; }

E mkBin(K k, E a, E b) {
  unsigned w = a->w;
  if (k == K::Add) return mkAdd(a, b);
  if (k == K::Mul) return mkMul(a, b);
  if (a->isConst() && b->isConst()) {
    const APInt &x = a->c, &y = b->c;
    switch (k) {
      case K::UDiv: return y.isZero() ? mkConst(APInt::getAllOnes(w)) : mkConst(x.udiv(y));
      case K::SDiv: return y.isZero() ? mkConst(0, w) : mkConst(x.sdiv(y));
      case K::URem: return y.isZero() ? a : mkConst(x.urem(y));
      case K::SRem: return y.isZero() ? a : mkConst(x.srem(y));
      case K::And: return mkConst(x & y);
      case K::Or: return mkConst(x | y);
      case K::Xor: return mkConst(x ^ y);
      case K::Shl: return y.uge(w) ? mkConst(0, w) : mkConst(x.shl(y));
      case K::LShr: return y.uge(w) ? mkConst(0, w) : mkConst(x.lshr(y));
      case K::AShr: return mkConst(x.ashr(y.uge(w) ? APInt(w, w - 1) : y));
      default: break;
    }
  }
  bool comm = k == K::And || k == K::Or || k == K::Xor;
  if (comm && (a->isConst() || (!b->isConst() && a->id > b->id))) std::swap(a, b);
  switch (k) {
    case K::And:
      if (b->isConst()) {
        if (b->c.isZero()) return b;
        if (b->c.isAllOnes()) return a;
        // low mask / aligned mask
        if (b->c.isMask()) return mkZExt(mkExtract(a, 0, b->c.countTrailingOnes()), w);
        unsigned tz = b->c.countTrailingZeros();
        APInt sh = b->c.lshr(tz);
        if (sh.isMask()) {
          unsigned n = sh.countTrailingOnes();
          E mid = mkExtract(a, tz, n);
          return mkConcat(mkZExt(mid, w - tz), mkConst(0, tz));
        }
        if (a->k == K::And && a->b->isConst()) return mkBin(K::And, a->a, mkConst(a->b->c & b->c));
      }
      if (a == b) return a;
      if (isNotOf(a, b) || isNotOf(b, a)) return mkConst(0, w);
      break;
    case K::Or:
      if (b->isConst()) {
        if (b->c.isZero()) return a;
        if (b->c.isAllOnes()) return b;
      }
      if (a == b) return a;
      if (isNotOf(a, b) || isNotOf(b, a)) return mkConst(APInt::getAllOnes(w));
      // concat-like or: disjoint constant-zero parts
      {
        auto zlow = [](E e) -> unsigned {
          if (e->k == K::Concat && e->b->isConst() && e->b->c.isZero()) return e->b->w;
          return 0;
        };
        auto width = [](E e) -> unsigned {
          if (e->k == K::ZExt) return e->a->w;
          if (e->k == K::Concat && e->a->isConst() && e->a->c.isZero()) return e->b->w;
          return e->w;
        };
        for (int i = 0; i < 2; ++i) {
          unsigned z = zlow(a);
          if (z && width(b) <= z) return mkConcat(a->a, mkExtract(b, 0, z));
          std::swap(a, b);
        }
      }
      break;
    case K::Xor:
      if (b->isConst() && b->c.isZero()) return a;
      if (b->isConst() && b->c.isAllOnes()) return mkNot(a);
      if (a == b) return mkConst(0, w);
      break;
    case K::Shl:
      if (b->isConst()) {
        if (b->c.isZero()) return a;
        if (b->c.uge(w)) return mkConst(0, w);
        unsigned n = b->u();
        return mkConcat(mkExtract(a, 0, w - n), mkConst(0, n));
      }
      break;
    case K::LShr:
      if (b->isConst()) {
        if (b->c.isZero()) return a;
        if (b->c.uge(w)) return mkConst(0, w);
        unsigned n = b->u();
        return mkZExt(mkExtract(a, n, w - n), w);
      }
      break;
    case K::AShr:
      if (b->isConst()) {
        if (b->c.isZero()) return a;
        unsigned n = b->c.uge(w) ? w - 1 : b->u();
        return mkSExt(mkExtract(a, n, w - n), w);
      }
      break;
    case K::UDiv:
      if (b->isConst() && b->c.isOne()) return a;
      if (b->isConst() && b->c.isPowerOf2()) return mkBin(K::LShr, a, mkConst(b->c.logBase2(), w));
      break;
    case K::URem:
      if (b->isConst() && b->c.isPowerOf2()) {
        unsigned n = b->c.logBase2();
        return n ? mkZExt(mkExtract(a, 0, n), w) : mkConst(0, w);
      }
      break;
    case K::SDiv:
      if (b->isConst() && b->c.isOne()) return a;
      break;
    default: break;
  }
  return node(k, w, a, b);
}

E mkCmp(K k, E a, E b) {
  if (a->isConst() && b->isConst()) {
    bool r = false;
    switch (k) {
      case K::Eq: r = a->c == b->c; break;
      case K::Ult: r = a->c.ult(b->c); break;
      case K::Ule: r = a->c.ule(b->c); break;
      case K::Slt: r = a->c.slt(b->c); break;
      case K::Sle: r = a->c.sle(b->c); break;
      default: abort();
    }
    return mkConst(r, 1);
  }
  if (a == b) return mkConst(k == K::Eq || k == K::Ule || k == K::Sle, 1);
  if (k == K::Eq) {
    if (a->isConst()) std::swap(a, b);
    if (a->w == 1) {
      if (b->isConst()) return b->c.isZero() ? mkNot(a) : a;
    }
    if (b->isConst()) {
      if (a->k == K::ZExt) {
        if (b->c.getActiveBits() > a->a->w) return mkFalse();
        return mkCmp(K::Eq, a->a, mkConst(b->c.trunc(a->a->w)));
      }
      if (a->k == K::SExt) {
        APInt t = b->c.trunc(a->a->w);
        if (t.sext(a->w) != b->c) return mkFalse();
        return mkCmp(K::Eq, a->a, mkConst(t));
      }
      if (a->k == K::Concat)
        return mkAnd(mkCmp(K::Eq, a->a, mkConst(b->c.extractBits(a->a->w, a->b->w))),
                     mkCmp(K::Eq, a->b, mkConst(b->c.trunc(a->b->w))));
      if (a->k == K::Ite && (a->b->isConst() || a->d->isConst())) {
        E x = mkCmp(K::Eq, a->b, b), y = mkCmp(K::Eq, a->d, b);
        return mkIte(a->a, x, y);
      }
      if (a->k == K::Add && a->b->isConst()) return mkCmp(K::Eq, a->a, mkConst(b->c - a->b->c));
      // x / c == k is an interval of x
      if (a->k == K::SDiv && a->b->isConst() && a->b->c.isStrictlyPositive() && !a->b->c.isOne() && !b->c.isMinSignedValue()) {
        const APInt& C = a->b->c;
        const APInt& k = b->c;
        unsigned w2 = 2 * a->w + 2;
        APInt c2 = C.sext(w2), k2 = k.sext(w2), lo, hi;
        if (k.isZero()) { lo = -c2 + 1; hi = c2 - 1; }
        else if (k.isStrictlyPositive()) { lo = k2 * c2; hi = (k2 + 1) * c2 - 1; }
        else { lo = (k2 - 1) * c2 + 1; hi = k2 * c2; }
        APInt mn = APInt::getSignedMinValue(a->w).sext(w2), mx = APInt::getSignedMaxValue(a->w).sext(w2);
        if (lo.sgt(mx) || hi.slt(mn)) return mkFalse();
        if (lo.slt(mn)) lo = mn;
        if (hi.sgt(mx)) hi = mx;
        return mkAnd(mkCmp(K::Sle, mkConst(lo.trunc(a->w)), a->a), mkCmp(K::Sle, a->a, mkConst(hi.trunc(a->w))));
      }
      if (a->k == K::UDiv && a->b->isConst() && !a->b->c.isZero()) {
        unsigned w2 = 2 * a->w + 1;
        APInt lo = b->c.zext(w2) * a->b->c.zext(w2), hi = lo + a->b->c.zext(w2) - 1;
        APInt mx = APInt::getMaxValue(a->w).zext(w2);
        if (lo.ugt(mx)) return mkFalse();
        if (hi.ugt(mx)) hi = mx;
        return mkAnd(mkCmp(K::Ule, mkConst(lo.trunc(a->w)), a->a), mkCmp(K::Ule, a->a, mkConst(hi.trunc(a->w))));
      }
      if (a->k == K::Xor && a->b->isConst()) return mkCmp(K::Eq, a->a, mkConst(b->c ^ a->b->c));
    } else {
      if (a->k == K::ZExt && b->k == K::ZExt && a->a->w == b->a->w) return mkCmp(K::Eq, a->a, b->a);
      if (a->k == K::SExt && b->k == K::SExt && a->a->w == b->a->w) return mkCmp(K::Eq, a->a, b->a);
      if (a->k == K::Concat && b->k == K::Concat && a->b->w == b->b->w)
        return mkAnd(mkCmp(K::Eq, a->a, b->a), mkCmp(K::Eq, a->b, b->b));
      if (a->k == K::Add || b->k == K::Add) {
        E d = addScaled(a, b, true);
        if (d->isConst()) return mkConst(d->c.isZero(), 1);
      }
      if (a->id > b->id) std::swap(a, b);
    }
  } else {
    if (b->isConst()) {
      if (k == K::Ult && b->c.isZero()) return mkFalse();
      if (k == K::Ule && b->c.isAllOnes()) return mkTrue();
      if (k == K::Ult && b->c.isOne()) return mkCmp(K::Eq, a, mkConst(0, a->w));
    }
    if (a->isConst()) {
      if (k == K::Ule && a->c.isZero()) return mkTrue();
      if (k == K::Ult && a->c.isAllOnes()) return mkFalse();
    }
    if (a->k == K::ZExt && b->k == K::ZExt && a->a->w == b->a->w && (k == K::Ult || k == K::Ule))
      return mkCmp(k, a->a, b->a);
    if (a->k == K::ZExt && b->isConst()) {
      // both non-negative in signed terms if zext actually widens
      if ((k == K::Slt || k == K::Sle) && !b->c.isNegative()) return mkCmp(k == K::Slt ? K::Ult : K::Ule, a, b);
      if ((k == K::Slt || k == K::Sle) && b->c.isNegative()) return mkFalse();
      if (k == K::Ult || k == K::Ule) {
        if (b->c.getActiveBits() > a->a->w) return mkTrue();
        return mkCmp(k, a->a, mkConst(b->c.trunc(a->a->w)));
      }
    }
    if (b->k == K::ZExt && a->isConst()) {
      if ((k == K::Slt || k == K::Sle) && !a->c.isNegative()) return mkCmp(k == K::Slt ? K::Ult : K::Ule, a, b);
      if ((k == K::Slt || k == K::Sle) && a->c.isNegative()) return mkTrue();
      if (k == K::Ult || k == K::Ule) {
        if (a->c.getActiveBits() > b->a->w) return mkFalse();
        return mkCmp(k, mkConst(a->c.trunc(b->a->w)), b->a);
      }
    }
    if (a->k == K::SExt && b->k == K::SExt && a->a->w == b->a->w && (k == K::Slt || k == K::Sle))
      return mkCmp(k, a->a, b->a);
    if (a->k == K::SExt && b->isConst() && (k == K::Slt || k == K::Sle)) {
      APInt t = b->c.trunc(a->a->w);
      if (t.sext(a->w) == b->c) return mkCmp(k, a->a, mkConst(t));
      return mkConst(!b->c.isNegative(), 1);
    }
    if (b->k == K::SExt && a->isConst() && (k == K::Slt || k == K::Sle)) {
      APInt t = a->c.trunc(b->a->w);
      if (t.sext(b->w) == a->c) return mkCmp(k, mkConst(t), b->a);
      return mkConst(a->c.isNegative(), 1);
    }
    if (a->k == K::Ite && a->b->isConst() && a->d->isConst() && b->isConst())
      return mkIte(a->a, mkCmp(k, a->b, b), mkCmp(k, a->d, b));
  }
  return node(k, 1, a, b);
}

E mkIte(E c, E a, E b) {
  if (c->isConst()) return c->c.isZero() ? b : a;
  if (a == b) return a;
  if (a->w == 1) {
    if (a->isConst() && b->isConst()) return a->c.isZero() ? mkNot(c) : c;
    if (a->isConst()) return a->c.isZero() ? mkAnd(mkNot(c), b) : mkOr(c, b);
    if (b->isConst()) return b->c.isZero() ? mkAnd(c, a) : mkOr(mkNot(c), a);
  }
  if (c->k == K::Xor && c->b->isConst()) return mkIte(c->a, b, a);
  if (a->k == K::Ite && a->a == c) a = a->b;
  if (b->k == K::Ite && b->a == c) b = b->d;
  if (a == b) return a;
  return node(K::Ite, a->w, c, a, b);
}

// adjacent extracts are joined without simplification, so that bytes of a word recombine to the word
static E rawExtract(E a, unsigned lo, unsigned w) {
  if (lo == 0 && w == a->w) return a;
  return node(K::Extract, w, a, nullptr, nullptr, lo);
}
E mkConcat(E hi, E lo) {
  unsigned w = hi->w + lo->w;
  if (hi->isConst() && lo->isConst()) return mkConst(hi->c.zext(w).shl(lo->w) | lo->c.zext(w));
  if (hi->isConst() && hi->c.isZero()) return mkZExt(lo, w);
  if (hi->k == K::Extract && lo->k == K::Extract && hi->a == lo->a && hi->aux == lo->aux + lo->w)
    return rawExtract(hi->a, lo->aux, w);
  // right-nested: (x ++ y) ++ z -> try to merge y and z
  if (hi->k == K::Concat) {
    E m = nullptr;
    E y = hi->b;
    if (y->isConst() && lo->isConst()) m = mkConcat(y, lo);
    else if (y->k == K::Extract && lo->k == K::Extract && y->a == lo->a && y->aux == lo->aux + lo->w)
      m = rawExtract(y->a, lo->aux, y->w + lo->w);
    if (m) return mkConcat(hi->a, m);
  }
  if (hi->k == K::Ite && lo->k == K::Ite && hi->a == lo->a)
    return mkIte(hi->a, mkConcat(hi->b, lo->b), mkConcat(hi->d, lo->d));
  if (lo->k == K::Concat) {
    E y = lo->a;
    if (hi->k == K::Extract && y->k == K::Extract && hi->a == y->a && hi->aux == y->aux + y->w)
      return mkConcat(rawExtract(hi->a, y->aux, hi->w + y->w), lo->b);
    if (hi->isConst() && y->isConst()) return mkConcat(mkConcat(hi, y), lo->b);
  }
  if (hi->k == K::ZExt) {  // normalize leading zeros outwards
    return mkZExt(mkConcat(hi->a, lo), w);
  }
  return node(K::Concat, w, hi, lo);
}

E mkExtract(E a, unsigned lo, unsigned w) {
  if (lo == 0 && w == a->w) return a;
  if (a->isConst()) return mkConst(a->c.extractBits(w, lo));
  switch (a->k) {
    case K::Extract: return mkExtract(a->a, a->aux + lo, w);
    case K::Concat: {
      unsigned lw = a->b->w;
      if (lo >= lw) return mkExtract(a->a, lo - lw, w);
      if (lo + w <= lw) return mkExtract(a->b, lo, w);
      return mkConcat(mkExtract(a->a, 0, lo + w - lw), mkExtract(a->b, lo, lw - lo));
    }
    case K::ZExt: {
      unsigned iw = a->a->w;
      if (lo >= iw) return mkConst(0, w);
      if (lo + w <= iw) return mkExtract(a->a, lo, w);
      return mkZExt(mkExtract(a->a, lo, iw - lo), w);
    }
    case K::SExt: {
      unsigned iw = a->a->w;
      if (lo + w <= iw) return mkExtract(a->a, lo, w);
      if (lo < iw) return mkSExt(mkExtract(a->a, lo, iw - lo), w);
      return mkSExt(mkExtract(a->a, iw - 1, 1), w);
    }
    case K::Ite:
      if (a->b->isConst() || a->d->isConst() || a->b->k == K::Concat || a->d->k == K::Concat || a->b->k == K::ZExt || a->d->k == K::ZExt || a->b->k == K::Ite || a->d->k == K::Ite)
        return mkIte(a->a, mkExtract(a->b, lo, w), mkExtract(a->d, lo, w));
      break;
    case K::And: case K::Or: case K::Xor:
      if (!a->b->isConst() && a->a->k != K::Concat && a->b->k != K::Concat && a->a->k != K::ZExt && a->b->k != K::ZExt) break;
      return mkBin(a->k, mkExtract(a->a, lo, w), mkExtract(a->b, lo, w));
    case K::Add:
      if (lo == 0 && w >= 31) return mkAdd(mkExtract(a->a, 0, w), mkExtract(a->b, 0, w));
      break;
    case K::Mul:
      if (lo == 0 && w >= 31) return mkMul(mkExtract(a->a, 0, w), mkExtract(a->b, 0, w));
      break;
    default: break;
  }
  return node(K::Extract, w, a, nullptr, nullptr, lo);
}
E mkZExt(E a, unsigned w) {
  if (w == a->w) return a;
  if (a->isConst()) return mkConst(a->c.zext(w));
  if (a->k == K::ZExt) return mkZExt(a->a, w);
  if (a->k == K::Ite && a->b->isConst() && a->d->isConst()) return mkIte(a->a, mkZExt(a->b, w), mkZExt(a->d, w));
  return node(K::ZExt, w, a);
}
E mkSExt(E a, unsigned w) {
  if (w == a->w) return a;
  if (a->isConst()) return mkConst(a->c.sext(w));
  if (a->k == K::SExt) return mkSExt(a->a, w);
  if (a->k == K::ZExt) return mkZExt(a->a, w);
  if (a->k == K::Ite && a->b->isConst() && a->d->isConst()) return mkIte(a->a, mkSExt(a->b, w), mkSExt(a->d, w));
  return node(K::SExt, w, a);
}

const std::vector<unsigned>& symsOf(E e) {
  if (e->syms) return *e->syms;
  static const std::vector<unsigned> none;
  // iterative to be safe on deep terms
  std::vector<E> st{e};
  while (!st.empty()) {
    E x = st.back();
    if (x->syms) { st.pop_back(); continue; }
    bool ready = true;
    for (E c : {x->a, x->b, x->d})
      if (c && !c->syms) { st.push_back(c); ready = false; }
    if (!ready) continue;
    st.pop_back();
    if (x->k == K::Const) { x->syms = &none; continue; }
    std::vector<unsigned> r;
    const std::vector<unsigned>* only = nullptr;
    int n = 0;
    for (E c : {x->a, x->b, x->d})
      if (c && !c->syms->empty()) {
        ++n; only = c->syms;
        std::vector<unsigned> m;
        std::set_union(r.begin(), r.end(), c->syms->begin(), c->syms->end(), std::back_inserter(m));
        r.swap(m);
      }
    if (x->k == K::Sym || x->k == K::ArrRead) {
      auto it = std::lower_bound(r.begin(), r.end(), x->aux);
      if (it == r.end() || *it != x->aux) r.insert(it, x->aux);
      only = nullptr;
    }
    if (only && r == *only) x->syms = only;
    else x->syms = new std::vector<unsigned>(std::move(r));
  }
  return *e->syms;
}

E rebuild(E e, E a, E b, E d) {
  switch (e->k) {
    case K::Const: case K::Sym: return e;
    case K::ArrRead: return mkArrRead(e->aux, a);
    case K::Eq: case K::Ult: case K::Ule: case K::Slt: case K::Sle: return mkCmp(e->k, a, b);
    case K::Ite: return mkIte(a, b, d);
    case K::Concat: return mkConcat(a, b);
    case K::Extract: return mkExtract(a, e->aux, e->w);
    case K::ZExt: return mkZExt(a, e->w);
    case K::SExt: return mkSExt(a, e->w);
    default: return mkBin(e->k, a, b);
  }
}
E substitute(E e, const std::unordered_map<E, E>& m, std::unordered_map<E, E>& memo) {
  auto f = m.find(e);
  if (f != m.end()) return f->second;
  if (!e->a) return e;
  auto it = memo.find(e);
  if (it != memo.end()) return it->second;
  E a = e->a ? substitute(e->a, m, memo) : nullptr;
  E b = e->b ? substitute(e->b, m, memo) : nullptr;
  E d = e->d ? substitute(e->d, m, memo) : nullptr;
  E r = (a == e->a && b == e->b && d == e->d) ? e : rebuild(e, a, b, d);
  memo[e] = r;
  return r;
}

std::string toString(E e, int depth) {
  if (e->isConst()) {
    llvm::SmallString<40> s;
    e->c.toString(s, 10, e->w > 8 && e->w <= 64 && e->c.isNegative() && e->c.getSignificantBits() < 32, false);
    return std::string(s) + ":" + std::to_string(e->w);
  }
  if (e->k == K::Sym) return g_syms[e->aux].name;
  if (depth <= 0) return "...";
  static const char* names[] = {"const", "sym", "read", "+", "*", "/u", "/s", "%u", "%s", "&", "|", "^", "<<", ">>u", ">>s",
                                "==", "<u", "<=u", "<s", "<=s", "ite", "++", "extract", "zext", "sext"};
  std::string r = std::string("(") + names[int(e->k)];
  if (e->k == K::ArrRead) r += " " + g_syms[e->aux].name;
  if (e->k == K::Extract) r += "[" + std::to_string(e->aux) + "+" + std::to_string(e->w) + "]";
  for (E c : {e->a, e->b, e->d})
    if (c) r += " " + toString(c, depth - 1);
  return r + ")";
}

static APInt ev(E e, const Model& m, std::unordered_map<E, APInt>& memo) {
  switch (e->k) {
    case K::Const: return e->c;
    case K::Sym: {
      auto it = m.syms.find(e->aux);
      return it == m.syms.end() ? APInt(e->w, 0) : it->second;
    }
    default: break;
  }
  auto it = memo.find(e);
  if (it != memo.end()) return it->second;
  APInt r(e->w, 0);
  if (e->k == K::ArrRead) {
    APInt i = ev(e->a, m, memo);
    auto a = m.arrs.find(e->aux);
    if (a != m.arrs.end()) {
      auto b = a->second.find(i.getZExtValue());
      if (b != a->second.end()) r = APInt(8, b->second);
      else r = APInt(8, 0x41);   // same default as the reported inputs
    } else r = APInt(8, 0x41);
  } else if (e->k == K::Ite) {
    r = ev(e->a, m, memo).isZero() ? ev(e->d, m, memo) : ev(e->b, m, memo);
  } else {
    APInt a = ev(e->a, m, memo);
    APInt b = e->b ? ev(e->b, m, memo) : APInt(1, 0);
    E ca = mkConst(a), cb = e->b ? mkConst(b) : nullptr;
    r = rebuild(e, ca, cb, nullptr)->c;
  }
  memo.emplace(e, r);
  return r;
}
APInt evalExpr(E e, const Model& m, std::unordered_map<E, APInt>& memo) { return ev(e, m, memo); }
