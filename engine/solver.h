// Path condition + feasibility queries. Single-byte conditions are decided by
// complete domain propagation (256-entry truth table); everything else, every
// symbolic assertion and every reported model goes to Z3.
#pragma once
#include "expr.h"
#include <chrono>
#include <map>
#include <set>

struct Dom { uint64_t b[4]; };
struct SolverStats { uint64_t z3 = 0, z3sat = 0, z3unsat = 0, z3unk = 0, fast = 0, cacheHits = 0, reused = 0, bounds = 0; double z3s = 0; };

static inline double nowS() {
  return std::chrono::duration<double>(std::chrono::steady_clock::now().time_since_epoch()).count();
}

struct Solver {
  ExprMgr &M; Z3_context ctx = nullptr; SolverStats st;
  unsigned timeoutMs = 30000;
  // per path
  std::vector<Dom> dom;                // by variable
  std::vector<std::vector<Expr *>> on; // single-variable constraints by variable
  std::vector<Expr *> multi;
  std::vector<uint8_t> inMulti;
  std::unordered_map<uint64_t, int> cache;
  Solver(ExprMgr &m) : M(m) {}
  void initZ3() {
    if (ctx) return;
    Z3_config c = Z3_mk_config();
    ctx = Z3_mk_context(c);
    Z3_del_config(c);
  }
  void clear() { cache.clear(); reset(); if (ctx) { Z3_del_context(ctx); ctx = nullptr; } }
  void reset() {
    for (auto &v : on) v.clear();
    for (auto &d : dom) d = Dom{{~0ull, ~0ull, ~0ull, ~0ull}};
    std::fill(inMulti.begin(), inMulti.end(), 0);
    multi.clear();
  }
  void need(int v) {
    while ((int)dom.size() <= v) { dom.push_back(Dom{{~0ull, ~0ull, ~0ull, ~0ull}}); on.emplace_back(); inMulti.push_back(0); }
  }
  bool byteVar(Expr *e) { return e->var1 >= 0 && g_vars[e->var1].w == 8; }
  void add(Expr *c) {
    if (c->op == O_CONST) return;
    if (c->op == O_AND && c->w == 1) { add(c->a); add(c->b); return; }
    if (byteVar(c)) {
      need(c->var1);
      uint64_t *t = M.truth(c);
      Dom &d = dom[c->var1];
      bool ch = false;
      for (int i = 0; i < 4; i++) { uint64_t n = d.b[i] & t[i]; if (n != d.b[i]) ch = true; d.b[i] = n; }
      if (ch) on[c->var1].push_back(c);
      return;
    }
    multi.push_back(c);
    if (c->var1 >= 0) { need(c->var1); inMulti[c->var1] = 1; }
    else for (int v : *c->vars) { need(v); inMulti[v] = 1; }
  }
  // ---- Z3 translation
  Z3_sort bvs(unsigned w) { return Z3_mk_bv_sort(ctx, w); }
  Z3_ast num(uint64_t k, unsigned w) { return Z3_mk_unsigned_int64(ctx, k, bvs(w)); }
  Z3_ast keep(Z3_ast a) { Z3_inc_ref(ctx, a); return a; }
  Z3_sort fps(unsigned w) { return w == 32 ? Z3_mk_fpa_sort_32(ctx) : Z3_mk_fpa_sort_64(ctx); }
  Z3_ast tofp(Expr *e) { return Z3_mk_fpa_to_fp_bv(ctx, bv(e), fps(e->w)); }
  Z3_ast rne() { return Z3_mk_fpa_round_nearest_ties_to_even(ctx); }
  Z3_ast varAst(Expr *e) {
    char nm[32]; snprintf(nm, sizeof nm, "v%d_%d", (int)e->k, e->w);
    return Z3_mk_const(ctx, Z3_mk_string_symbol(ctx, nm), bvs(e->w));
  }
  Z3_ast boolOf(Expr *e) {
    if (e->zbool) return e->zbool;
    Z3_ast r;
    switch (e->op) {
      case O_CONST: r = e->k ? Z3_mk_true(ctx) : Z3_mk_false(ctx); break;
      case O_EQ: r = e->a->w == 1 ? Z3_mk_iff(ctx, boolOf(e->a), boolOf(e->b)) : Z3_mk_eq(ctx, bv(e->a), bv(e->b)); break;
      case O_ULT: r = Z3_mk_bvult(ctx, bv(e->a), bv(e->b)); break;
      case O_ULE: r = Z3_mk_bvule(ctx, bv(e->a), bv(e->b)); break;
      case O_SLT: r = Z3_mk_bvslt(ctx, bv(e->a), bv(e->b)); break;
      case O_SLE: r = Z3_mk_bvsle(ctx, bv(e->a), bv(e->b)); break;
      case O_SMULO: { Z3_ast p[2] = {Z3_mk_bvmul_no_overflow(ctx, bv(e->a), bv(e->b), true), Z3_mk_bvmul_no_underflow(ctx, bv(e->a), bv(e->b))}; r = Z3_mk_not(ctx, Z3_mk_and(ctx, 2, p)); break; }
      case O_UMULO: r = Z3_mk_not(ctx, Z3_mk_bvmul_no_overflow(ctx, bv(e->a), bv(e->b), false)); break;
      case O_FOEQ: r = Z3_mk_fpa_eq(ctx, tofp(e->a), tofp(e->b)); break;
      case O_FOLT: r = Z3_mk_fpa_lt(ctx, tofp(e->a), tofp(e->b)); break;
      case O_FOLE: r = Z3_mk_fpa_leq(ctx, tofp(e->a), tofp(e->b)); break;
      case O_FUNO: { Z3_ast p[2] = {Z3_mk_fpa_is_nan(ctx, tofp(e->a)), Z3_mk_fpa_is_nan(ctx, tofp(e->b))}; r = Z3_mk_or(ctx, 2, p); break; }
      case O_AND: { Z3_ast p[2] = {boolOf(e->a), boolOf(e->b)}; r = Z3_mk_and(ctx, 2, p); break; }
      case O_OR: { Z3_ast p[2] = {boolOf(e->a), boolOf(e->b)}; r = Z3_mk_or(ctx, 2, p); break; }
      case O_XOR: if (e->b->op == O_CONST && e->b->k == 1) r = Z3_mk_not(ctx, boolOf(e->a)); else r = Z3_mk_xor(ctx, boolOf(e->a), boolOf(e->b)); break;
      case O_ITE: r = Z3_mk_ite(ctx, boolOf(e->a), boolOf(e->b), boolOf(e->c)); break;
      default: r = Z3_mk_eq(ctx, bv(e), num(1, 1)); break;
    }
    return e->zbool = keep(r);
  }
  Z3_ast bv(Expr *e) {
    if (e->zbv) return e->zbv;
    Z3_ast r = nullptr;
    if (e->w == 1 && e->op != O_CONST && e->op != O_EXTRACT && e->op != O_VAR) {
      r = Z3_mk_ite(ctx, boolOf(e), num(1, 1), num(0, 1));
      return e->zbv = keep(r);
    }
    switch (e->op) {
      case O_CONST: r = num(e->k, e->w); break;
      case O_VAR: r = varAst(e); break;
      case O_ADD: r = Z3_mk_bvadd(ctx, bv(e->a), bv(e->b)); break;
      case O_SUB: r = Z3_mk_bvsub(ctx, bv(e->a), bv(e->b)); break;
      case O_MUL: r = Z3_mk_bvmul(ctx, bv(e->a), bv(e->b)); break;
      case O_UDIV: r = Z3_mk_bvudiv(ctx, bv(e->a), bv(e->b)); break;
      case O_SDIV: r = Z3_mk_bvsdiv(ctx, bv(e->a), bv(e->b)); break;
      case O_UREM: r = Z3_mk_bvurem(ctx, bv(e->a), bv(e->b)); break;
      case O_SREM: r = Z3_mk_bvsrem(ctx, bv(e->a), bv(e->b)); break;
      case O_AND: r = Z3_mk_bvand(ctx, bv(e->a), bv(e->b)); break;
      case O_OR: r = Z3_mk_bvor(ctx, bv(e->a), bv(e->b)); break;
      case O_XOR: r = Z3_mk_bvxor(ctx, bv(e->a), bv(e->b)); break;
      case O_SHL: r = Z3_mk_bvshl(ctx, bv(e->a), bv(e->b)); break;
      case O_LSHR: r = Z3_mk_bvlshr(ctx, bv(e->a), bv(e->b)); break;
      case O_ASHR: r = Z3_mk_bvashr(ctx, bv(e->a), bv(e->b)); break;
      case O_ITE: r = Z3_mk_ite(ctx, boolOf(e->a), bv(e->b), bv(e->c)); break;
      case O_ZEXT: r = Z3_mk_zero_ext(ctx, e->w - e->a->w, bv(e->a)); break;
      case O_SEXT: r = Z3_mk_sign_ext(ctx, e->w - e->a->w, bv(e->a)); break;
      case O_EXTRACT: r = Z3_mk_extract(ctx, (unsigned)e->k + e->w - 1, (unsigned)e->k, bv(e->a)); break;
      case O_CONCAT: r = Z3_mk_concat(ctx, bv(e->a), bv(e->b)); break;
      case O_FADD: r = Z3_mk_fpa_to_ieee_bv(ctx, Z3_mk_fpa_add(ctx, rne(), tofp(e->a), tofp(e->b))); break;
      case O_FSUB: r = Z3_mk_fpa_to_ieee_bv(ctx, Z3_mk_fpa_sub(ctx, rne(), tofp(e->a), tofp(e->b))); break;
      case O_FMUL: r = Z3_mk_fpa_to_ieee_bv(ctx, Z3_mk_fpa_mul(ctx, rne(), tofp(e->a), tofp(e->b))); break;
      case O_FDIV: r = Z3_mk_fpa_to_ieee_bv(ctx, Z3_mk_fpa_div(ctx, rne(), tofp(e->a), tofp(e->b))); break;
      case O_FNEG: r = Z3_mk_bvxor(ctx, bv(e->a), num(1ull << (e->w - 1), e->w)); break;
      case O_FABS: r = Z3_mk_bvand(ctx, bv(e->a), num(~(1ull << (e->w - 1)) & maskw(e->w), e->w)); break;
      case O_FPEXT: case O_FPTRUNC: r = Z3_mk_fpa_to_ieee_bv(ctx, Z3_mk_fpa_to_fp_float(ctx, rne(), tofp(e->a), fps(e->w))); break;
      case O_SITOFP: r = Z3_mk_fpa_to_ieee_bv(ctx, Z3_mk_fpa_to_fp_signed(ctx, rne(), bv(e->a), fps(e->w))); break;
      case O_UITOFP: r = Z3_mk_fpa_to_ieee_bv(ctx, Z3_mk_fpa_to_fp_unsigned(ctx, rne(), bv(e->a), fps(e->w))); break;
      case O_FPTOSI: r = Z3_mk_fpa_to_sbv(ctx, Z3_mk_fpa_round_toward_zero(ctx), tofp(e->a), e->w); break;
      case O_FPTOUI: r = Z3_mk_fpa_to_ubv(ctx, Z3_mk_fpa_round_toward_zero(ctx), tofp(e->a), e->w); break;
      default: fprintf(stderr, "z3: op %d\n", e->op); abort();
    }
    return e->zbv = keep(r);
  }
  static void varsOf(Expr *e, std::vector<int> &out) {
    if (e->var1 >= 0) out.push_back(e->var1);
    else if (e->var1 == -2) out.insert(out.end(), e->vars->begin(), e->vars->end());
  }
  // constraints connected to the variables of c (all of them when c is null)
  void slice(Expr *c, std::vector<Expr *> &out) {
    if (!c) {
      for (auto &v : on) out.insert(out.end(), v.begin(), v.end());
      out.insert(out.end(), multi.begin(), multi.end());
      return;
    }
    std::set<int> vs; std::vector<int> t; varsOf(c, t); vs.insert(t.begin(), t.end());
    std::vector<uint8_t> used(multi.size(), 0);
    for (bool ch = true; ch;) {
      ch = false;
      for (size_t i = 0; i < multi.size(); i++) if (!used[i]) {
        t.clear(); varsOf(multi[i], t);
        bool hit = false; for (int v : t) if (vs.count(v)) { hit = true; break; }
        if (hit) { used[i] = 1; vs.insert(t.begin(), t.end()); out.push_back(multi[i]); ch = true; }
      }
    }
    for (int v : vs) if (v < (int)on.size()) out.insert(out.end(), on[v].begin(), on[v].end());
  }
  // returns 1 sat, 0 unsat, -1 unknown; fills model for `want` variables
  int z3check(std::vector<Expr *> &cs, Expr *extra, std::map<int, uint64_t> *model, const std::vector<int> *want) {
    initZ3();
    bool fp = extra && extra->fp;
    for (Expr *e : cs) fp |= e->fp;
    double t0 = nowS();
    Z3_solver s = fp ? Z3_mk_solver(ctx) : Z3_mk_solver_for_logic(ctx, Z3_mk_string_symbol(ctx, "QF_BV"));
    Z3_solver_inc_ref(ctx, s);
    Z3_params p = Z3_mk_params(ctx); Z3_params_inc_ref(ctx, p);
    Z3_params_set_uint(ctx, p, Z3_mk_string_symbol(ctx, "timeout"), timeoutMs);
    Z3_solver_set_params(ctx, s, p); Z3_params_dec_ref(ctx, p);
    for (Expr *e : cs) Z3_solver_assert(ctx, s, boolOf(e));
    if (extra) Z3_solver_assert(ctx, s, boolOf(extra));
    Z3_lbool r = Z3_solver_check(ctx, s);
    if (r == Z3_L_TRUE && model) {
      Z3_model m = Z3_solver_get_model(ctx, s); Z3_model_inc_ref(ctx, m);
      for (int v : *want) {
        Z3_ast out; uint64_t k = 0;
        if (Z3_model_eval(ctx, m, bv(M.var(v, g_vars[v].w)), true, &out)) Z3_get_numeral_uint64(ctx, out, (uint64_t *)&k);
        (*model)[v] = k;
      }
      Z3_model_dec_ref(ctx, m);
    }
    Z3_solver_dec_ref(ctx, s);
    st.z3++; st.z3s += nowS() - t0;
    static const char *slow = getenv("SYMX_SLOW"); if (slow && nowS() - t0 > atof(slow)) { fprintf(stderr, "slow query %.2fs -> %d\n", nowS() - t0, (int)r); for (Expr *e : cs) if (e->var1 == -2) fprintf(stderr, "   c %s\n", Z3_ast_to_string(ctx, boolOf(e))); if (extra) fprintf(stderr, "   ? %s\n", Z3_ast_to_string(ctx, boolOf(extra))); }
    if (r == Z3_L_TRUE) { st.z3sat++; return 1; }
    if (r == Z3_L_FALSE) { st.z3unsat++; return 0; }
    st.z3unk++; return -1;
  }
  // ---- a candidate assignment, kept between queries: whenever it satisfies the
  // constraints connected to a condition, one side of the branch needs no query
  std::vector<uint64_t> asg;
  uint64_t &at(int v) { if ((int)asg.size() <= v) asg.resize(v + 1, 0); return asg[v]; }
  bool fits(const std::vector<Expr *> &cs, Expr *c) {
    std::vector<int> t; for (Expr *e : cs) varsOf(e, t); if (c) varsOf(c, t);
    for (int v : t) { at(v); if (g_vars[v].w == 8) { need(v); Dom &d = dom[v]; uint64_t x = asg[v] & 255; if (!(d.b[x >> 6] >> (x & 63) & 1)) for (int i = 0; i < 256; i++) if (d.b[i >> 6] >> (i & 63) & 1) { asg[v] = (uint64_t)i; break; } } }
    M.epoch++;
    for (Expr *e : cs) if (!M.eval1(e, [&](int v) { return at(v); })) return false;
    return true;
  }
  int solve(std::vector<Expr *> &cs, Expr *c) { // z3, keeping the model
    std::vector<int> t; for (Expr *e : cs) varsOf(e, t); if (c) varsOf(c, t);
    std::sort(t.begin(), t.end()); t.erase(std::unique(t.begin(), t.end()), t.end());
    std::map<int, uint64_t> m; int r = z3check(cs, c, &m, &t);
    if (r == 1) for (auto &x : m) at(x.first) = x.second;
    return r;
  }
  uint64_t value(Expr *e) { return M.eval(e, [&](int v) { return at(v); }); }
  // unsigned bounds of an expression, from the byte domains
  struct Iv { uint64_t lo, hi; };
  std::unordered_map<Expr *, Iv> ivMemo;
  Iv iv(Expr *e, int depth = 0) {
    Iv full{0, maskw(e->w)};
    if (e->op == O_CONST) return Iv{e->k, e->k};
    if (depth > 200 || e->w > 64) return full;
    if (e->op == O_VAR) {
      if (e->w != 8) return full;
      need((int)e->k); Dom &d = dom[e->k]; int lo = -1, hi = -1;
      for (int i = 0; i < 256; i++) if (d.b[i >> 6] >> (i & 63) & 1) { if (lo < 0) lo = i; hi = i; }
      return lo < 0 ? full : Iv{(uint64_t)lo, (uint64_t)hi};
    }
    auto it = ivMemo.find(e); if (it != ivMemo.end()) return it->second;
    uint64_t mk = maskw(e->w); Iv r = full;
    switch (e->op) {
      case O_ZEXT: r = iv(e->a, depth + 1); break;
      case O_SEXT: { Iv x = iv(e->a, depth + 1); unsigned w = e->a->w; uint64_t sb = 1ull << (w - 1); if (x.hi < sb) r = x; else if (x.lo >= sb) r = Iv{(uint64_t)sx64(x.lo, w) & mk, (uint64_t)sx64(x.hi, w) & mk}; break; }
      case O_ADD: { Iv x = iv(e->a, depth + 1), y = iv(e->b, depth + 1); unsigned __int128 lo = (unsigned __int128)x.lo + y.lo, hi = (unsigned __int128)x.hi + y.hi, m = (unsigned __int128)mk + 1;
        if (hi < m) r = Iv{(uint64_t)lo, (uint64_t)hi}; else if (lo >= m) r = Iv{(uint64_t)(lo - m), (uint64_t)(hi - m)}; break; }
      case O_SUB: { Iv x = iv(e->a, depth + 1), y = iv(e->b, depth + 1); if (x.lo >= y.hi) r = Iv{x.lo - y.hi, x.hi - y.lo}; break; }
      case O_MUL: { Iv x = iv(e->a, depth + 1), y = iv(e->b, depth + 1); unsigned __int128 hi = (unsigned __int128)x.hi * y.hi; if (hi <= mk) r = Iv{x.lo * y.lo, (uint64_t)hi}; break; }
      case O_ITE: if (e->w > 1) { Iv x = iv(e->b, depth + 1), y = iv(e->c, depth + 1); r = Iv{std::min(x.lo, y.lo), std::max(x.hi, y.hi)}; } break;
      case O_EXTRACT: { Iv x = iv(e->a, depth + 1); if (e->k == 0 && x.hi <= mk) r = x; break; }
      case O_AND: if (e->w > 1) { Iv x = iv(e->a, depth + 1), y = iv(e->b, depth + 1); r = Iv{0, std::min(x.hi, y.hi)}; } break;
      case O_UDIV: { Iv x = iv(e->a, depth + 1), y = iv(e->b, depth + 1); if (y.lo) r = Iv{x.lo / y.hi, x.hi / y.lo}; break; }
      case O_LSHR: if (e->b->op == O_CONST && e->b->k < e->w) { Iv x = iv(e->a, depth + 1); r = Iv{x.lo >> e->b->k, x.hi >> e->b->k}; } break;
      default: break;
    }
    ivMemo[e] = r; return r;
  }
  // signed bounds
  std::unordered_map<Expr *, ExprMgr::SB> sivMemo;
  ExprMgr::SB siv(Expr *e, int depth = 0) {
    typedef ExprMgr::SB SB; __int128 half = (__int128)1 << (e->w - 1); SB full{-half, half - 1};
    if (e->op == O_CONST) return SB{sx64(e->k, e->w), sx64(e->k, e->w)};
    if (depth > 200 || e->w > 64) return full;
    if (e->op == O_VAR) {
      if (e->w != 8) return full;
      need((int)e->k); Dom &d = dom[e->k]; int lo = 999, hi = -999;
      for (int i = -128; i < 128; i++) { int j = i & 255; if (d.b[j >> 6] >> (j & 63) & 1) { if (lo == 999) lo = i; hi = i; } }
      return hi < lo ? full : SB{lo, hi};
    }
    auto it = sivMemo.find(e); if (it != sivMemo.end()) return it->second;
    SB r = full; auto fit = [&](__int128 lo, __int128 hi) { if (lo >= full.lo && hi <= full.hi) r = SB{lo, hi}; };
    switch (e->op) {
      case O_ZEXT: { SB x = siv(e->a, depth + 1); if (x.lo >= 0) r = x; else r = SB{0, ((__int128)1 << e->a->w) - 1}; break; }
      case O_SEXT: r = siv(e->a, depth + 1); break;
      case O_ADD: { SB x = siv(e->a, depth + 1), y = siv(e->b, depth + 1); fit(x.lo + y.lo, x.hi + y.hi); break; }
      case O_SUB: { SB x = siv(e->a, depth + 1), y = siv(e->b, depth + 1); fit(x.lo - y.hi, x.hi - y.lo); break; }
      case O_MUL: { SB x = siv(e->a, depth + 1), y = siv(e->b, depth + 1); if (y.lo == y.hi && y.lo >= 0 && y.hi < ((__int128)1 << 62)) fit(x.lo * y.lo, x.hi * y.lo); break; }
      case O_AND: { SB x = siv(e->a, depth + 1), y = siv(e->b, depth + 1); if (y.lo >= 0) r = SB{0, y.hi}; else if (x.lo >= 0) r = SB{0, x.hi}; break; }
      case O_ITE: if (e->w > 1) { SB x = siv(e->b, depth + 1), y = siv(e->c, depth + 1); r = SB{x.lo < y.lo ? x.lo : y.lo, x.hi > y.hi ? x.hi : y.hi}; } break;
      default: break;
    }
    sivMemo[e] = r; return r;
  }
  int byBounds(Expr *c) { // 1 always, 0 never, -1 undecided
    if (c->w == 1 && c->op == O_XOR && c->b->op == O_CONST) { int r = byBounds1(c->a); return r < 0 ? r : !r; }
    return byBounds1(c);
  }
  int byBounds1(Expr *c) {
    if (c->op != O_EQ && c->op != O_ULT && c->op != O_ULE && c->op != O_SLT && c->op != O_SLE) return -1;
    if (c->op == O_SLT || c->op == O_SLE || c->op == O_EQ) {
      sivMemo.clear(); ExprMgr::SB p = siv(c->a), q = siv(c->b);
      if (c->op == O_EQ) { if (p.hi < q.lo || q.hi < p.lo) return 0; }
      else if (c->op == O_SLT ? p.hi < q.lo : p.hi <= q.lo) return 1;
      else if (c->op == O_SLT ? p.lo >= q.hi : p.lo > q.hi) return 0;
    }
    ivMemo.clear();
    Iv x = iv(c->a), y = iv(c->b);
    if (c->op == O_SLT || c->op == O_SLE) { // order-preserving when neither crosses the sign
      uint64_t sb = 1ull << (c->a->w - 1); auto cross = [&](Iv v) { return v.lo < sb && v.hi >= sb; };
      if (cross(x) || cross(y)) return -1;
      x.lo ^= sb; x.hi ^= sb; y.lo ^= sb; y.hi ^= sb;
    }
    if (c->op == O_EQ) return x.hi < y.lo || y.hi < x.lo ? 0 : -1;
    if (c->op == O_ULT || c->op == O_SLT) return x.hi < y.lo ? 1 : x.lo >= y.hi ? 0 : -1;
    return x.hi <= y.lo ? 1 : x.lo > y.hi ? 0 : -1;
  }
  // which sides of a branch are feasible
  void sides(Expr *c, Expr *nc, int &t, int &f) {
    if (byteVar(c)) {
      need(c->var1);
      uint64_t *tt = M.truth(c); Dom &d = dom[c->var1]; bool any = false, all = true;
      for (int i = 0; i < 4; i++) { if (tt[i] & d.b[i]) any = true; if (d.b[i] & ~tt[i]) all = false; }
      if (!any) { st.fast++; t = 0; f = 1; return; }
      if (all) { st.fast++; t = 1; f = 0; return; }
      if (!inMulti[c->var1]) { st.fast++; t = f = 1; return; }
    }
    int b = byBounds(c);
    if (b >= 0) { st.bounds++; t = b; f = !b; return; }
    std::vector<Expr *> cs; slice(c, cs);
    if (!fits(cs, c)) {
      int r = solve(cs, nullptr);
      if (r == 0) { t = f = 0; return; }
      if (r < 0) { t = may(c); f = may(nc); return; }
    } else st.reused++;
    if (value(c)) {
      t = 1; f = cached(cs, nc); 
    } else { f = 1; t = cached(cs, c); }
  }
  static uint64_t keyOf(std::vector<Expr *> &cs, Expr *c) {
    uint64_t h = c->id * 0x9E3779B97F4A7C15ull;
    std::vector<uint32_t> ids; for (Expr *e : cs) ids.push_back(e->id); std::sort(ids.begin(), ids.end());
    for (uint32_t i : ids) { h ^= i + 0x9E3779B97F4A7C15ull + (h << 6) + (h >> 2); h *= 0xff51afd7ed558ccdull; h ^= h >> 31; }
    return h;
  }
  int cached(std::vector<Expr *> &cs, Expr *c) {
    uint64_t h = keyOf(cs, c); auto it = cache.find(h);
    if (it != cache.end()) { st.cacheHits++; return it->second; }
    return cache[h] = solve(cs, c);
  }
  // is PC /\ c satisfiable?
  int may(Expr *c, bool forceZ3 = false) {
    if (c->op == O_CONST) return c->k ? 1 : 0;
    if (byteVar(c)) {
      need(c->var1);
      uint64_t *t = M.truth(c); Dom &d = dom[c->var1];
      bool any = false; for (int i = 0; i < 4; i++) if (t[i] & d.b[i]) any = true;
      if (!forceZ3) {
        if (!any) { st.fast++; return 0; }
        if (!inMulti[c->var1]) { st.fast++; return 1; }
      }
    }
    std::vector<Expr *> cs; slice(c, cs);
    if (!forceZ3) { int b = byBounds(c); if (b >= 0) { st.bounds++; return b; } if (fits(cs, c) && value(c)) { st.reused++; return 1; } }
    uint64_t h = keyOf(cs, c);
    auto it = cache.find(h);
    if (it != cache.end() && !forceZ3) { st.cacheHits++; return it->second; }
    int r = forceZ3 ? z3check(cs, c, nullptr, nullptr) : solve(cs, c);
    cache[h] = r;
    return r;
  }
  bool model(Expr *extra, const std::vector<int> &vars, std::map<int, uint64_t> &m) {
    std::vector<Expr *> cs; slice(nullptr, cs);
    return z3check(cs, extra, &m, &vars) == 1;
  }
};
