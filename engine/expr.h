// Bit-vector terms: hash-consed, simplified on construction.
#pragma once
#include <llvm/ADT/APInt.h>
#include <cstdint>
#include <map>
#include <string>
#include <unordered_map>
#include <vector>

using llvm::APInt;

enum class K : uint8_t {
  Const, Sym, ArrRead,
  Add, Mul, UDiv, SDiv, URem, SRem, And, Or, Xor, Shl, LShr, AShr,
  Eq, Ult, Ule, Slt, Sle,
  Ite, Concat, Extract, ZExt, SExt
};

struct Expr {
  K k;
  unsigned w;        // width in bits
  unsigned id = 0;
  unsigned aux = 0;  // Sym: symbol id, ArrRead: array id, Extract: low bit
  APInt c;           // Const
  const Expr *a = nullptr, *b = nullptr, *d = nullptr;
  mutable const std::vector<unsigned>* syms = nullptr;
  Expr(K k, unsigned w) : k(k), w(w), c(1, 0) {}
  bool isConst() const { return k == K::Const; }
  uint64_t u() const { return c.getZExtValue(); }
  int64_t s() const { return c.getSExtValue(); }
};
using E = const Expr*;

struct SymInfo { std::string name; unsigned w; };   // w == 0: byte array
extern std::vector<SymInfo> g_syms;
unsigned newSym(const std::string& name, unsigned w);

E mkConst(const APInt& v);
E mkConst(uint64_t v, unsigned w);
E mkSym(unsigned id);
E mkArrRead(unsigned arr, E idx);
E mkAdd(E a, E b);
E mkSub(E a, E b);
E mkMul(E a, E b);
E mkBin(K k, E a, E b);       // everything but Eq.. handled by mkCmp
E mkNot(E a);                 // bitwise
E mkCmp(K k, E a, E b);
E mkIte(E c, E a, E b);
E mkConcat(E hi, E lo);
E mkExtract(E a, unsigned lo, unsigned w);
E mkZExt(E a, unsigned w);
E mkSExt(E a, unsigned w);
inline E mkEq(E a, E b) { return mkCmp(K::Eq, a, b); }
inline E mkAnd(E a, E b) { return mkBin(K::And, a, b); }
inline E mkOr(E a, E b) { return mkBin(K::Or, a, b); }
inline E mkTrue() { return mkConst(1, 1); }
inline E mkFalse() { return mkConst(0, 1); }
inline E mkImplies(E a, E b) { return mkOr(mkNot(a), b); }

const std::vector<unsigned>& symsOf(E e);
E rebuild(E e, E a, E b, E d);
E substitute(E e, const std::unordered_map<E, E>& m, std::unordered_map<E, E>& memo);
std::string toString(E e, int depth = 6);
// e == sum(terms[t]*t) + c
void linearize(E e, std::map<unsigned, std::pair<E, APInt>>& terms, APInt& c);
size_t exprCount();

struct Model {
  std::unordered_map<unsigned, APInt> syms;
  std::unordered_map<unsigned, std::unordered_map<uint64_t, uint8_t>> arrs;
};
APInt evalExpr(E e, const Model& m, std::unordered_map<E, APInt>& memo);
