#include "solver.h"
#include <z3.h>
#include <llvm/ADT/SmallString.h>
#include <chrono>
#include <cstdio>
#include <fstream>
#include <algorithm>
#include <unordered_set>

Stats g_stats;
static Z3_context ctx;
static unsigned g_timeout = 20000;
static std::string g_dump;
static std::unordered_map<E, Z3_ast> bvc, boolc;
static std::unordered_map<unsigned, Z3_ast> arrc;
static std::string g_err;

static void onError(Z3_context c, Z3_error_code e) { g_err = Z3_get_error_msg(c, e); }

void solverInit(unsigned t, const std::string& dumpDir) {
  Z3_config cfg = Z3_mk_config();
  Z3_set_param_value(cfg, "model", "true");
  ctx = Z3_mk_context(cfg);
  Z3_set_error_handler(ctx, onError);
  g_timeout = t;
  g_dump = dumpDir;
}
static Z3_ast keep(Z3_ast a) { Z3_inc_ref(ctx, a); return a; }
static Z3_ast bv(E e);
static Z3_ast boolean(E e) {
  auto it = boolc.find(e);
  if (it != boolc.end()) return it->second;
  Z3_ast r;
  switch (e->k) {
    case K::Const: r = e->c.isZero() ? Z3_mk_false(ctx) : Z3_mk_true(ctx); break;
    case K::Eq: r = e->a->w == 1 ? Z3_mk_iff(ctx, boolean(e->a), boolean(e->b)) : Z3_mk_eq(ctx, bv(e->a), bv(e->b)); break;
    case K::Ult: r = Z3_mk_bvult(ctx, bv(e->a), bv(e->b)); break;
    case K::Ule: r = Z3_mk_bvule(ctx, bv(e->a), bv(e->b)); break;
    case K::Slt: r = Z3_mk_bvslt(ctx, bv(e->a), bv(e->b)); break;
    case K::Sle: r = Z3_mk_bvsle(ctx, bv(e->a), bv(e->b)); break;
    case K::And: { Z3_ast a[2] = {boolean(e->a), boolean(e->b)}; r = Z3_mk_and(ctx, 2, a); break; }
    case K::Or: { Z3_ast a[2] = {boolean(e->a), boolean(e->b)}; r = Z3_mk_or(ctx, 2, a); break; }
    case K::Xor:
      if (e->b->isConst() && e->b->c.isAllOnes()) r = Z3_mk_not(ctx, boolean(e->a));
      else r = Z3_mk_xor(ctx, boolean(e->a), boolean(e->b));
      break;
    case K::Ite: r = Z3_mk_ite(ctx, boolean(e->a), boolean(e->b), boolean(e->d)); break;
    default: r = Z3_mk_eq(ctx, bv(e), Z3_mk_unsigned_int64(ctx, 1, Z3_mk_bv_sort(ctx, 1))); break;
  }
  keep(r);
  boolc[e] = r;
  return r;
}
static Z3_ast arr(unsigned id) {
  auto it = arrc.find(id);
  if (it != arrc.end()) return it->second;
  Z3_sort s = Z3_mk_array_sort(ctx, Z3_mk_bv_sort(ctx, 64), Z3_mk_bv_sort(ctx, 8));
  Z3_ast r = keep(Z3_mk_const(ctx, Z3_mk_string_symbol(ctx, ("a" + std::to_string(id)).c_str()), s));
  arrc[id] = r;
  return r;
}
static Z3_ast bv(E e) {
  auto it = bvc.find(e);
  if (it != bvc.end()) return it->second;
  Z3_ast r;
  Z3_sort s = Z3_mk_bv_sort(ctx, e->w);
  switch (e->k) {
    case K::Const: {
      if (e->w <= 64) r = Z3_mk_unsigned_int64(ctx, e->u(), s);
      else { llvm::SmallString<64> t; e->c.toString(t, 10, false); r = Z3_mk_numeral(ctx, t.c_str(), s); }
      break;
    }
    case K::Sym: r = Z3_mk_const(ctx, Z3_mk_string_symbol(ctx, ("s" + std::to_string(e->aux)).c_str()), s); break;
    // arrays are never written, so a read is a constant tied to the other reads by congruence (see solve)
    case K::ArrRead: r = Z3_mk_const(ctx, Z3_mk_string_symbol(ctx, ("r" + std::to_string(e->id)).c_str()), s); break;
    case K::Add: r = Z3_mk_bvadd(ctx, bv(e->a), bv(e->b)); break;
    case K::Mul: r = Z3_mk_bvmul(ctx, bv(e->a), bv(e->b)); break;
    case K::UDiv: r = Z3_mk_bvudiv(ctx, bv(e->a), bv(e->b)); break;
    case K::SDiv: r = Z3_mk_bvsdiv(ctx, bv(e->a), bv(e->b)); break;
    case K::URem: r = Z3_mk_bvurem(ctx, bv(e->a), bv(e->b)); break;
    case K::SRem: r = Z3_mk_bvsrem(ctx, bv(e->a), bv(e->b)); break;
    case K::Shl: r = Z3_mk_bvshl(ctx, bv(e->a), bv(e->b)); break;
    case K::LShr: r = Z3_mk_bvlshr(ctx, bv(e->a), bv(e->b)); break;
    case K::AShr: r = Z3_mk_bvashr(ctx, bv(e->a), bv(e->b)); break;
    case K::Concat: r = Z3_mk_concat(ctx, bv(e->a), bv(e->b)); break;
    case K::Extract: r = Z3_mk_extract(ctx, e->aux + e->w - 1, e->aux, bv(e->a)); break;
    case K::ZExt: r = Z3_mk_zero_ext(ctx, e->w - e->a->w, bv(e->a)); break;
    case K::SExt: r = Z3_mk_sign_ext(ctx, e->w - e->a->w, bv(e->a)); break;
    case K::And: case K::Or: case K::Xor:
      if (e->w != 1) {
        Z3_ast x = bv(e->a), y = bv(e->b);
        r = e->k == K::And ? Z3_mk_bvand(ctx, x, y) : e->k == K::Or ? Z3_mk_bvor(ctx, x, y) : Z3_mk_bvxor(ctx, x, y);
        break;
      }
      [[fallthrough]];
    default:
      if (e->k == K::Ite && e->w != 1) { r = Z3_mk_ite(ctx, boolean(e->a), bv(e->b), bv(e->d)); break; }
      r = Z3_mk_ite(ctx, boolean(e), Z3_mk_unsigned_int64(ctx, 1, s), Z3_mk_unsigned_int64(ctx, 0, s));
  }
  keep(r);
  bvc[e] = r;
  return r;
}

static void collectReads(E e, std::unordered_set<E>& seen, std::vector<E>& out) {
  std::vector<E> st{e};
  while (!st.empty()) {
    E x = st.back(); st.pop_back();
    if (!seen.insert(x).second) continue;
    if (x->k == K::ArrRead) out.push_back(x);
    for (E c : {x->a, x->b, x->d}) if (c) st.push_back(c);
  }
}

struct CacheEntry { Sat r; Model m; };
static std::unordered_map<std::string, CacheEntry> cache;

Sat solve(const std::vector<E>& pc, E extra, const std::vector<ArrFact>& facts, const Model& base, Model& out) {
  if (extra->isConst() && extra->c.isZero()) return Sat::Unsat;
  // slice
  std::unordered_set<unsigned> want;
  for (unsigned s : symsOf(extra)) want.insert(s);
  std::vector<char> in(pc.size(), 0);
  std::vector<E> q;
  bool all = extra->isConst();
  for (bool ch = true; ch && !all;) {
    ch = false;
    for (size_t i = 0; i < pc.size(); ++i) {
      if (in[i]) continue;
      auto& ss = symsOf(pc[i]);
      bool hit = false;
      for (unsigned s : ss) if (want.count(s)) { hit = true; break; }
      if (!hit) continue;
      in[i] = 1; ch = true;
      for (unsigned s : ss) want.insert(s);
    }
    // facts tie arrays to other symbols
    for (auto& f : facts)
      if (want.count(f.arr)) for (unsigned s : symsOf(f.body)) if (s != f.phIdx->aux && s != f.phByte->aux && want.insert(s).second) ch = true;
  }
  for (size_t i = 0; i < pc.size(); ++i) if (in[i] || all) q.push_back(pc[i]);
  if (!all) q.push_back(extra);
  // instantiate facts
  std::vector<E> reads;
  std::unordered_set<E> seen;
  if (!facts.empty()) {
    for (E e : q) collectReads(e, seen, reads);
    for (size_t n = 0; n < reads.size() && n < 4000; ++n)
      for (auto& f : facts)
        if (f.arr == reads[n]->aux) {
          std::unordered_map<E, E> m{{f.phIdx, reads[n]->a}, {f.phByte, reads[n]}}, memo;
          E inst = substitute(f.body, m, memo);
          if (inst->isConst() && !inst->c.isZero()) continue;
          q.push_back(inst);
          collectReads(inst, seen, reads);
        }
  }
  std::sort(q.begin(), q.end(), [](E a, E b) { return a->id < b->id; });
  q.erase(std::unique(q.begin(), q.end()), q.end());
  std::string key;
  for (E e : q) { key.append(reinterpret_cast<const char*>(&e->id), sizeof e->id); }
  auto merge = [&](const Model& m) {
    out = base;
    for (auto& [k, v] : m.syms) out.syms.insert_or_assign(k, v);
    for (auto& [k, v] : m.arrs) out.arrs[k] = v;
  };
  auto hit = cache.find(key);
  if (hit != cache.end()) {
    ++g_stats.cacheHits;
    if (hit->second.r == Sat::Sat) merge(hit->second.m);
    return hit->second.r;
  }
  auto t0 = std::chrono::steady_clock::now();
  ++g_stats.queries;
  if (seen.empty()) for (E e : q) collectReads(e, seen, reads);
  // congruence of reads: pairwise when few, else by the theory of arrays
  std::vector<E> congruence;
  static const size_t limit = getenv("CVE_PAIRS") ? atoi(getenv("CVE_PAIRS")) : 20;
  for (size_t i = 0; i < reads.size() && congruence.size() <= limit; ++i)
    for (size_t j = i + 1; j < reads.size() && congruence.size() <= limit; ++j) {
      if (reads[i]->aux != reads[j]->aux) continue;
      E same = mkEq(reads[i]->a, reads[j]->a);
      if (same->isConst() && same->c.isZero()) continue;
      congruence.push_back(mkImplies(same, mkEq(reads[i], reads[j])));
    }
  bool arrays = congruence.size() > limit;
  const char* logic = arrays ? "QF_ABV" : "QF_BV";
  Z3_solver s = Z3_mk_solver_for_logic(ctx, Z3_mk_string_symbol(ctx, logic));
  Z3_solver_inc_ref(ctx, s);
  Z3_params p = Z3_mk_params(ctx);
  Z3_params_inc_ref(ctx, p);
  Z3_params_set_uint(ctx, p, Z3_mk_string_symbol(ctx, "timeout"), g_timeout);
  Z3_solver_set_params(ctx, s, p);
  for (E e : q) Z3_solver_assert(ctx, s, boolean(e));
  if (arrays) for (E rd : reads) Z3_solver_assert(ctx, s, Z3_mk_eq(ctx, bv(rd), Z3_mk_select(ctx, arr(rd->aux), bv(rd->a))));
  else for (E e : congruence) Z3_solver_assert(ctx, s, boolean(e));
  Z3_lbool r = Z3_solver_check(ctx, s);
  CacheEntry ce;
  if (r == Z3_L_TRUE) {
    ce.r = Sat::Sat;
    Z3_model m = Z3_solver_get_model(ctx, s);
    Z3_model_inc_ref(ctx, m);
    std::unordered_set<unsigned> syms;
    for (E e : q) for (unsigned x : symsOf(e)) syms.insert(x);
    auto num = [&](E e) {
      Z3_ast v;
      APInt r(e->w, 0);
      if (Z3_model_eval(ctx, m, bv(e), true, &v)) {
        Z3_inc_ref(ctx, v);
        uint64_t u;
        if (Z3_get_numeral_uint64(ctx, v, &u)) r = APInt(e->w, u);
        else if (e->w > 64) r = APInt(e->w, Z3_get_numeral_string(ctx, v), 10);
        Z3_dec_ref(ctx, v);
      }
      return r;
    };
    for (unsigned x : syms) if (g_syms[x].w) ce.m.syms.insert_or_assign(x, num(mkSym(x)));
    for (E rd : reads) {
      APInt i = num(rd->a);
      ce.m.arrs[rd->aux][i.getZExtValue()] = uint8_t(num(rd).getZExtValue());
    }
    Z3_model_dec_ref(ctx, m);
  } else if (r == Z3_L_FALSE) ce.r = Sat::Unsat;
  else ce.r = Sat::Unknown;
  double dt = std::chrono::duration<double>(std::chrono::steady_clock::now() - t0).count();
  g_stats.seconds += dt;
  g_stats.maxSeconds = std::max(g_stats.maxSeconds, dt);
  if (!g_dump.empty() && dt > 1.0) {
    std::ofstream f(g_dump + "/q" + std::to_string(g_stats.queries) + ".smt2");
    f << "; " << dt << "s\n" << Z3_solver_to_string(ctx, s) << "(check-sat)\n";
  }
  Z3_params_dec_ref(ctx, p);
  Z3_solver_dec_ref(ctx, s);
  if (ce.r == Sat::Sat) { ++g_stats.sat; merge(ce.m); }
  else if (ce.r == Sat::Unsat) ++g_stats.unsat;
  else ++g_stats.unknown;
  if (ce.r != Sat::Unknown) cache.emplace(std::move(key), std::move(ce)), void();
  else return Sat::Unknown;
  return r == Z3_L_TRUE ? Sat::Sat : Sat::Unsat;
}
