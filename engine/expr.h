// Symbolic bit-vector / floating-point expressions: hash-consed DAG, local
// simplification, concrete evaluation and translation to Z3.
#pragma once
#include <cmath>
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <string>
#include <unordered_map>
#include <vector>
#include <algorithm>
#include <z3.h>

enum Op : uint8_t {
  O_CONST, O_VAR,
  O_ADD, O_SUB, O_MUL, O_UDIV, O_SDIV, O_UREM, O_SREM,
  O_AND, O_OR, O_XOR, O_SHL, O_LSHR, O_ASHR,
  O_EQ, O_ULT, O_ULE, O_SLT, O_SLE,
  O_ITE, O_ZEXT, O_SEXT, O_EXTRACT, O_CONCAT,
  O_SMULO, O_UMULO,
  O_FADD, O_FSUB, O_FMUL, O_FDIV, O_FNEG, O_FABS,
  O_FOEQ, O_FOLT, O_FOLE, O_FUNO,
  O_FPEXT, O_FPTRUNC, O_SITOFP, O_UITOFP, O_FPTOSI, O_FPTOUI,
};

struct Expr {
  Op op; uint8_t w; bool fp;
  int32_t var1;               // -1 no variable, >=0 the only variable, -2 several
  uint32_t id;
  uint64_t k;                 // constant value / variable index / extract low bit
  Expr *a, *b, *c;
  std::vector<int> *vars;     // sorted, when var1 == -2
  uint64_t *tt;               // truth table (256 bits), for 1-bit exprs over one byte variable
  Z3_ast zbv, zbool;
  uint64_t ev; uint32_t epoch; // evaluation memo
};

static inline uint64_t maskw(unsigned w) { return w >= 64 ? ~0ull : ((1ull << w) - 1); }
static inline int64_t sx64(uint64_t v, unsigned w) {
  if (w >= 64) return (int64_t)v;
  uint64_t m = 1ull << (w - 1);
  v &= maskw(w);
  return (int64_t)((v ^ m) - m);
}
static inline double bits2d(uint64_t v, unsigned w) {
  if (w == 32) { float f; uint32_t u = (uint32_t)v; memcpy(&f, &u, 4); return f; }
  double d; memcpy(&d, &v, 8); return d;
}
static inline uint64_t d2bits(double d, unsigned w) {
  if (w == 32) { float f = (float)d; uint32_t u; memcpy(&u, &f, 4); return u; }
  uint64_t v; memcpy(&v, &d, 8); return v;
}

struct VarInfo { uint8_t w; bool fp; };
extern std::vector<VarInfo> g_vars;   // by variable index (shared between paths)

struct ExprMgr {
  std::vector<Expr *> table; size_t count = 0; uint32_t nextId = 1; uint32_t epoch = 0;
  std::unordered_map<uint64_t, Expr *> varcache;
  ExprMgr() { table.assign(1 << 16, nullptr); next.assign(0, 0); }
  std::vector<int> next;
  struct Key { Op op; uint8_t w; uint64_t k; Expr *a, *b, *c; };
  static uint64_t hash(Op op, uint8_t w, uint64_t k, Expr *a, Expr *b, Expr *c) {
    uint64_t h = op * 0x9E3779B97F4A7C15ull + w;
    auto mix = [&](uint64_t x) { h ^= x + 0x9E3779B97F4A7C15ull + (h << 6) + (h >> 2); h *= 0xff51afd7ed558ccdull; h ^= h >> 32; };
    mix(k); mix(a ? a->id : 0); mix(b ? b->id : 0); mix(c ? c->id : 0);
    return h;
  }
  void grow() {
    std::vector<Expr *> old; old.swap(table); table.assign(old.size() * 2, nullptr);
    for (Expr *e : old) if (e) {
      size_t i = hash(e->op, e->w, e->k, e->a, e->b, e->c) & (table.size() - 1);
      while (table[i]) i = (i + 1) & (table.size() - 1);
      table[i] = e;
    }
  }
  Expr *raw(Op op, unsigned w, uint64_t k, Expr *a = nullptr, Expr *b = nullptr, Expr *c = nullptr) {
    if (count * 2 > table.size()) grow();
    size_t i = hash(op, (uint8_t)w, k, a, b, c) & (table.size() - 1);
    while (table[i]) {
      Expr *e = table[i];
      if (e->op == op && e->w == w && e->k == k && e->a == a && e->b == b && e->c == c) return e;
      i = (i + 1) & (table.size() - 1);
    }
    Expr *e = (Expr *)calloc(1, sizeof(Expr));
    e->op = op; e->w = (uint8_t)w; e->k = k; e->a = a; e->b = b; e->c = c; e->id = nextId++;
    e->var1 = -1;
    e->fp = op >= O_FADD;
    if (op == O_VAR) { e->var1 = (int)k; e->fp = false; }
    for (Expr *s : {a, b, c}) if (s) { merge(e, s); if (s->fp) e->fp = true; }
    table[i] = e; count++;
    return e;
  }
  static void merge(Expr *e, Expr *s) {
    if (s->var1 == -1) return;
    if (e->var1 == -1) { e->var1 = s->var1; e->vars = s->vars; return; }
    if (e->var1 == s->var1 && e->var1 >= 0) return;
    if (e->var1 == -2 && s->var1 == -2 && e->vars == s->vars) return;
    std::vector<int> x, y, z;
    if (e->var1 >= 0) x = {e->var1}; else x = *e->vars;
    if (s->var1 >= 0) y = {s->var1}; else y = *s->vars;
    std::set_union(x.begin(), x.end(), y.begin(), y.end(), std::back_inserter(z));
    if (e->var1 == -2 && z.size() == x.size()) return;
    if (s->var1 == -2 && z.size() == y.size()) { e->var1 = -2; e->vars = s->vars; return; }
    e->var1 = -2; e->vars = new std::vector<int>(z);
  }
  // forget every expression (between paths only)
  void clear() {
    for (Expr *e : table) if (e) { free(e->tt); free(e); }
    table.assign(1 << 16, nullptr); count = 0; sbMemo.clear();
  }
  Expr *cst(uint64_t v, unsigned w) { return raw(O_CONST, w, v & maskw(w)); }
  Expr *var(int idx, unsigned w) { return raw(O_VAR, w, (uint64_t)idx); }

  static uint64_t fold(Op op, unsigned w, uint64_t k, unsigned wa, uint64_t x, uint64_t y, uint64_t z) {
    uint64_t m = maskw(w);
    switch (op) {
      case O_ADD: return (x + y) & m;
      case O_SUB: return (x - y) & m;
      case O_MUL: return (x * y) & m;
      case O_UDIV: return y ? (x / y) & m : m;
      case O_UREM: return y ? (x % y) & m : x;
      case O_SDIV: { int64_t p = sx64(x, w), q = sx64(y, w); if (!q) return (p < 0 ? 1 : m) & m; if (q == -1) return (0 - x) & m; return (uint64_t)(p / q) & m; }
      case O_SREM: { int64_t p = sx64(x, w), q = sx64(y, w); if (!q) return x; if (q == -1) return 0; return (uint64_t)(p % q) & m; }
      case O_AND: return x & y;
      case O_OR: return x | y;
      case O_XOR: return (x ^ y) & m;
      case O_SHL: return y >= w ? 0 : (x << y) & m;
      case O_LSHR: return y >= w ? 0 : (x >> y) & m;
      case O_ASHR: return (uint64_t)(sx64(x, w) >> (y >= w ? w - 1 : y)) & m;
      case O_EQ: return x == y;
      case O_ULT: return x < y;
      case O_ULE: return x <= y;
      case O_SLT: return sx64(x, wa) < sx64(y, wa);
      case O_SLE: return sx64(x, wa) <= sx64(y, wa);
      case O_ITE: return x ? y : z;
      case O_ZEXT: return x & m;
      case O_SEXT: return (uint64_t)sx64(x, wa) & m;
      case O_EXTRACT: return (x >> k) & m;
      case O_SMULO: { int64_t r; bool o = __builtin_mul_overflow(sx64(x, wa), sx64(y, wa), &r); return o || r != sx64((uint64_t)r, wa); }
      case O_UMULO: { uint64_t r; bool o = __builtin_mul_overflow(x, y, &r); return o || (r & ~maskw(wa)); }
      case O_FADD: case O_FSUB: case O_FMUL: case O_FDIV: {
        if (w == 32) { float p = (float)bits2d(x, 32), q = (float)bits2d(y, 32), r = op == O_FADD ? p + q : op == O_FSUB ? p - q : op == O_FMUL ? p * q : p / q; return d2bits(r, 32); }
        double p = bits2d(x, 64), q = bits2d(y, 64), r = op == O_FADD ? p + q : op == O_FSUB ? p - q : op == O_FMUL ? p * q : p / q; return d2bits(r, 64); }
      case O_FNEG: return x ^ (1ull << (w - 1));
      case O_FABS: return x & ~(1ull << (w - 1));
      case O_FOEQ: return bits2d(x, wa) == bits2d(y, wa);
      case O_FOLT: return bits2d(x, wa) < bits2d(y, wa);
      case O_FOLE: return bits2d(x, wa) <= bits2d(y, wa);
      case O_FUNO: return std::isnan(bits2d(x, wa)) || std::isnan(bits2d(y, wa));
      case O_FPEXT: return d2bits(bits2d(x, 32), 64);
      case O_FPTRUNC: return d2bits(bits2d(x, 64), 32);
      case O_SITOFP: return w == 32 ? d2bits((double)(float)sx64(x, wa), 32) : d2bits((double)sx64(x, wa), 64);
      case O_UITOFP: return w == 32 ? d2bits((double)(float)x, 32) : d2bits((double)x, 64);
      case O_FPTOSI: return (uint64_t)(int64_t)bits2d(x, wa) & m;
      case O_FPTOUI: return (uint64_t)bits2d(x, wa) & m;
      default: fprintf(stderr, "fold: op %d\n", op); abort();
    }
  }
  bool isC(Expr *e) { return e->op == O_CONST; }
  bool isC(Expr *e, uint64_t v) { return e->op == O_CONST && e->k == (v & maskw(e->w)); }

  // ---- signed bounds that hold for every assignment
  struct SB { __int128 lo, hi; };
  std::unordered_map<Expr *, SB> sbMemo;
  SB sb(Expr *e) {
    __int128 half = (__int128)1 << (e->w - 1); SB full{-half, half - 1};
    if (e->op == O_CONST) return SB{sx64(e->k, e->w), sx64(e->k, e->w)};
    if (e->op == O_VAR || e->w > 64) return full;
    auto it = sbMemo.find(e); if (it != sbMemo.end()) return it->second;
    SB r = full; auto fit = [&](__int128 lo, __int128 hi) { if (lo >= full.lo && hi <= full.hi) r = SB{lo, hi}; };
    switch (e->op) {
      case O_ZEXT: { SB x = sb(e->a); if (x.lo >= 0) r = x; else r = SB{0, ((__int128)1 << e->a->w) - 1}; break; }
      case O_SEXT: r = sb(e->a); break;
      case O_ADD: { SB x = sb(e->a), y = sb(e->b); fit(x.lo + y.lo, x.hi + y.hi); break; }
      case O_SUB: { SB x = sb(e->a), y = sb(e->b); fit(x.lo - y.hi, x.hi - y.lo); break; }
      case O_MUL: { SB x = sb(e->a), y = sb(e->b); if (y.lo == y.hi && y.lo >= 0 && y.hi < ((__int128)1 << 62)) fit(x.lo * y.lo, x.hi * y.lo); break; }
      case O_AND: { SB x = sb(e->a), y = sb(e->b); if (y.lo >= 0) r = SB{0, y.hi}; else if (x.lo >= 0) r = SB{0, x.hi}; break; }
      case O_ITE: { SB x = sb(e->b), y = sb(e->c); r = SB{x.lo < y.lo ? x.lo : y.lo, x.hi > y.hi ? x.hi : y.hi}; break; }
      default: break;
    }
    sbMemo[e] = r; return r;
  }
  // a double that is an integer of known bounds over a constant: num / den, correctly rounded
  bool ratio(Expr *e, Expr *&num, __int128 &den, SB &b, int depth = 0) {
    if (e->w != 64 || depth > 4) return false;
    if (e->op == O_CONST) { double d = bits2d(e->k, 64); if (!(d > -1e12 && d < 1e12) || d != (double)(int64_t)d) return false; num = cst((uint64_t)(int64_t)d, 64); den = 1; b = SB{(int64_t)d, (int64_t)d}; return true; }
    if (e->op == O_SITOFP && e->a->w <= 64) { b = sb(e->a); num = sext(e->a, 64); den = 1; return true; }
    if (e->op == O_FNEG) { Expr *n; if (!ratio(e->a, n, den, b, depth + 1)) return false; num = bin(O_SUB, cst(0, 64), n); b = SB{-b.hi, -b.lo}; return true; }
    if (e->op == O_FDIV && e->b->op == O_CONST) {
      double d = bits2d(e->b->k, 64); if (!(d >= 1 && d <= 1e12) || d != (double)(int64_t)d) return false;
      if (!ratio(e->a, num, den, b, depth + 1) || den != 1) return false;
      const __int128 M53 = (__int128)1 << 53; if (b.lo < -M53 || b.hi > M53) return false; // the numerator itself is exact
      den = (int64_t)d; return true;
    }
    return false;
  }
  // comparisons of such doubles are comparisons of integers: distinct quotients
  // differ by more than a rounding error while num*den stays below 2^50
  Expr *ratioCmp(Op op, Expr *a, Expr *b) {
    Expr *n1, *n2; __int128 d1, d2; SB b1, b2; const __int128 L = (__int128)1 << 50;
    auto small = [&](SB b, __int128 d) { return b.lo * d > -L && b.hi * d < L; };
    auto prod = [&](Expr *n, __int128 d) { return bin(O_MUL, n, cst((uint64_t)d, 64)); };
    if (ratio(a, n1, d1, b1) && ratio(b, n2, d2, b2) && b1.lo > -L && b1.hi < L && b2.lo > -L && b2.hi < L && small(b1, d2) && small(b2, d1)) {
      __int128 m = 1; for (__int128 v : {b1.lo * d2, b1.hi * d2, b2.lo * d1, b2.hi * d1, (__int128)b1.lo, (__int128)b1.hi, (__int128)b2.lo, (__int128)b2.hi}) m = std::max(m, v < 0 ? -v : v);
      unsigned bits = 2; while (((__int128)1 << (bits - 1)) <= m) bits++;
      auto nar = [&](Expr *e) { return bits < 64 ? extract(e, 0, bits) : e; };
      Expr *x = nar(d1 == d2 ? n1 : prod(n1, d2)), *y = nar(d1 == d2 ? n2 : prod(n2, d1));
      return op == O_FOEQ ? bin(O_EQ, x, y) : op == O_FUNO ? cst(0, 1) : bin(op == O_FOLT ? O_SLT : O_SLE, x, y);
    }
    // |p - q| < tiny: equality, when the smallest difference is far above tiny
    if (op == O_FOLT && a->op == O_FABS && a->a->op == O_FSUB && b->op == O_CONST) {
      double k = bits2d(b->k, 64); Expr *p = a->a->a, *q = a->a->b;
      if (k > 0 && ratio(p, n1, d1, b1) && ratio(q, n2, d2, b2) && b1.lo > -L && b1.hi < L && b2.lo > -L && b2.hi < L && small(b1, d2) && small(b2, d1)) {
        double gap = 1.0 / ((double)d1 * (double)d2), mag = std::max({std::fabs((double)b1.lo), std::fabs((double)b1.hi)}) / (double)d1 + std::max({std::fabs((double)b2.lo), std::fabs((double)b2.hi)}) / (double)d2;
        if (k < gap / 4 && mag * 1e-14 < gap / 4) return d1 == d2 ? bin(O_EQ, n1, n2) : bin(O_EQ, prod(n1, d2), prod(n2, d1));
      }
    }
    return nullptr;
  }
  Expr *mkNot(Expr *e) {
    if (isC(e)) return cst(!e->k, 1);
    if (e->op == O_XOR && isC(e->b, 1)) return e->a;
    if (e->op == O_ULT) return bin(O_ULE, e->b, e->a);
    if (e->op == O_ULE) return bin(O_ULT, e->b, e->a);
    if (e->op == O_SLT) return bin(O_SLE, e->b, e->a);
    if (e->op == O_SLE) return bin(O_SLT, e->b, e->a);
    return raw(O_XOR, 1, 0, e, cst(1, 1));
  }
  Expr *bin(Op op, Expr *a, Expr *b) {
    unsigned w = a->w;
    unsigned rw = (op >= O_EQ && op <= O_SLE) || op == O_SMULO || op == O_UMULO || (op >= O_FOEQ && op <= O_FUNO) ? 1 : w;
    if (isC(a) && isC(b)) return cst(fold(op, rw, 0, w, a->k, b->k, 0), rw);
    switch (op) {
      case O_ADD: case O_MUL: case O_AND: case O_OR: case O_XOR: case O_EQ:
        if (isC(a) || (!isC(b) && a->id > b->id)) std::swap(a, b);
        break;
      default: break;
    }
    switch (op) {
      case O_ADD:
        if (isC(b, 0)) return a;
        if (isC(b) && a->op == O_ADD && isC(a->b)) return bin(O_ADD, a->a, cst(a->b->k + b->k, w));
        break;
      case O_SUB:
        if (isC(b, 0)) return a;
        if (a == b) return cst(0, w);
        if (isC(b)) return bin(O_ADD, a, cst(0 - b->k, w));
        break;
      case O_MUL:
        if (isC(b, 0)) return b;
        if (isC(b, 1)) return a;
        break;
      case O_UDIV: case O_SDIV: if (isC(b, 1)) return a; break;
      case O_AND:
        if (isC(b, 0)) return b;
        if (isC(b, ~0ull)) return a;
        if (a == b) return a;
        if (isC(b) && a->op == O_ZEXT && (b->k & maskw(a->a->w)) == maskw(a->a->w)) return a;
        break;
      case O_OR:
        if (isC(b, 0)) return a;
        if (isC(b, ~0ull)) return b;
        if (a == b) return a;
        // zext(x) | (zext(y) << k): let it be
        break;
      case O_XOR:
        if (isC(b, 0)) return a;
        if (a == b) return cst(0, w);
        if (w == 1 && isC(b, 1)) return mkNot(a);
        break;
      case O_SHL: case O_LSHR: case O_ASHR: if (isC(b, 0)) return a; break;
      case O_EQ:
        if (a == b) return cst(1, 1);
        if (isC(b)) {
          if (w == 1) return b->k ? a : mkNot(a);
          if (a->op == O_ZEXT) { if (b->k & ~maskw(a->a->w)) return cst(0, 1); return bin(O_EQ, a->a, cst(b->k, a->a->w)); }
          if (a->op == O_SEXT) { if ((uint64_t)(sx64(b->k, a->a->w)) != (uint64_t)sx64(b->k, w) ) return cst(0, 1); return bin(O_EQ, a->a, cst(b->k, a->a->w)); }
          if (a->op == O_ADD && isC(a->b)) return bin(O_EQ, a->a, cst(b->k - a->b->k, w));
          if (a->op == O_CONCAT) return bin(O_AND, bin(O_EQ, a->a, cst(b->k >> a->b->w, a->a->w)), bin(O_EQ, a->b, cst(b->k, a->b->w)));
          if (a->op == O_ITE && isC(a->b) && isC(a->c)) {
            bool p = a->b->k == b->k, q = a->c->k == b->k;
            if (p && q) return cst(1, 1); if (!p && !q) return cst(0, 1);
            return p ? a->a : mkNot(a->a);
          }
        }
        break;
      case O_ULT: if (a == b) return cst(0, 1); if (isC(b, 0)) return cst(0, 1);
        if (isC(b) && a->op == O_ZEXT) { if (b->k > maskw(a->a->w)) return cst(1, 1); return bin(O_ULT, a->a, cst(b->k, a->a->w)); }
        if (isC(a) && b->op == O_ZEXT) { if (a->k >= maskw(b->a->w)) return cst(0, 1); return bin(O_ULT, cst(a->k, b->a->w), b->a); }
        break;
      case O_ULE: if (a == b) return cst(1, 1); if (isC(a, 0)) return cst(1, 1);
        if (isC(b) && a->op == O_ZEXT) { if (b->k >= maskw(a->a->w)) return cst(1, 1); return bin(O_ULE, a->a, cst(b->k, a->a->w)); }
        if (isC(a) && b->op == O_ZEXT) { if (a->k > maskw(b->a->w)) return cst(0, 1); return bin(O_ULE, cst(a->k, b->a->w), b->a); }
        break;
      case O_UMULO: if (isC(a) && !isC(b)) std::swap(a, b);
        if (isC(b)) { if (b->k <= 1) return cst(0, 1); return bin(O_ULT, cst(maskw(w) / b->k, w), a); } break;
      case O_FOEQ: case O_FOLT: case O_FOLE: case O_FUNO: if (Expr *r = ratioCmp(op, a, b)) return r; break;
      case O_SLT: if (a == b) return cst(0, 1); break;
      case O_SLE: if (a == b) return cst(1, 1); break;
      default: break;
    }
    return raw(op, rw, 0, a, b);
  }
  Expr *ite(Expr *c, Expr *a, Expr *b) {
    if (isC(c)) return c->k ? a : b;
    if (a == b) return a;
    if (a->w == 1) {
      if (isC(a, 1) && isC(b, 0)) return c;
      if (isC(a, 0) && isC(b, 1)) return mkNot(c);
      if (isC(a, 1)) return bin(O_OR, c, b);
      if (isC(a, 0)) return bin(O_AND, mkNot(c), b);
      if (isC(b, 0)) return bin(O_AND, c, a);
      if (isC(b, 1)) return bin(O_OR, mkNot(c), a);
    }
    return raw(O_ITE, a->w, 0, c, a, b);
  }
  Expr *zext(Expr *a, unsigned w) {
    if (a->w == w) return a;
    if (isC(a)) return cst(a->k, w);
    if (a->op == O_ZEXT) return zext(a->a, w);
    return raw(O_ZEXT, w, 0, a);
  }
  Expr *sext(Expr *a, unsigned w) {
    if (a->w == w) return a;
    if (isC(a)) return cst((uint64_t)sx64(a->k, a->w), w);
    if (a->op == O_ZEXT) return zext(a->a, w);
    if (a->op == O_SEXT) return sext(a->a, w);
    return raw(O_SEXT, w, 0, a);
  }
  Expr *extract(Expr *a, unsigned lo, unsigned w, bool push = true) {
    if (lo == 0 && a->w == w) return a;
    if (isC(a)) return cst(a->k >> lo, w);
    if (a->op == O_EXTRACT) return extract(a->a, (unsigned)a->k + lo, w, push);
    if (a->op == O_CONCAT) {
      unsigned lw = a->b->w;
      if (lo + w <= lw) return extract(a->b, lo, w, push);
      if (lo >= lw) return extract(a->a, lo - lw, w, push);
    }
    if (a->op == O_ZEXT || a->op == O_SEXT) {
      unsigned iw = a->a->w;
      if (lo + w <= iw) return extract(a->a, lo, w, push);
      if (a->op == O_ZEXT && lo >= iw) return cst(0, w);
      if (lo == 0 && w > iw) return a->op == O_ZEXT ? zext(a->a, w) : sext(a->a, w);
    }
    if (a->op == O_ITE) if (isC(a->b) || isC(a->c)) return ite(a->a, extract(a->b, lo, w), extract(a->c, lo, w));
    if (push && lo == 0 && (a->op == O_AND || a->op == O_OR || a->op == O_XOR || a->op == O_ADD || a->op == O_SUB || a->op == O_MUL) && w < a->w)
      return bin(a->op, extract(a->a, 0, w), extract(a->b, 0, w));
    return raw(O_EXTRACT, w, lo, a);
  }
  Expr *concat(Expr *hi, Expr *lo) {
    if (isC(hi) && isC(lo)) return cst((hi->k << lo->w) | lo->k, hi->w + lo->w);
    if (isC(hi, 0)) return zext(lo, hi->w + lo->w);
    if (hi->op == O_EXTRACT && lo->op == O_EXTRACT && hi->a == lo->a && hi->k == lo->k + lo->w) return extract(lo->a, (unsigned)lo->k, hi->w + lo->w, false);
    if (hi->op == O_EXTRACT && hi->a == lo && hi->k == lo->w) return extract(lo, 0, hi->w + lo->w);
    if (lo->op == O_CONCAT && hi->op == O_EXTRACT && lo->a->op == O_EXTRACT && lo->a->a == hi->a && hi->k == lo->a->k + lo->a->w)
      return concat(concat(hi, lo->a), lo->b);
    return raw(O_CONCAT, hi->w + lo->w, 0, hi, lo);
  }
  Expr *un(Op op, Expr *a, unsigned w) {
    if (isC(a)) return cst(fold(op, w, 0, a->w, a->k, 0, 0), w);
    if (op == O_FPTRUNC && a->op == O_FPEXT) return a->a;
    if (op == O_FABS && a->op == O_FABS) return a;
    return raw(op, w, 0, a);
  }

  // ---- concrete evaluation under an assignment of variables
  template <class F> uint64_t eval(Expr *e, F &&val) { epoch++; return eval1(e, val); }
  template <class F> uint64_t eval1(Expr *e, F &&val) {
    if (e->op == O_CONST) return e->k;
    if (e->epoch == epoch) return e->ev;
    uint64_t r;
    switch (e->op) {
      case O_VAR: r = val((int)e->k) & maskw(e->w); break;
      case O_ITE: r = eval1(e->a, val) ? eval1(e->b, val) : eval1(e->c, val); break;
      case O_CONCAT: r = (eval1(e->a, val) << e->b->w) | eval1(e->b, val); break;
      default: {
        uint64_t x = eval1(e->a, val), y = e->b ? eval1(e->b, val) : 0;
        r = fold(e->op, e->w, e->k, e->a->w, x, y, 0);
      }
    }
    e->ev = r; e->epoch = epoch;
    return r;
  }
  uint64_t *truth(Expr *e) {
    if (!e->tt) {
      e->tt = (uint64_t *)calloc(4, 8);
      for (int v = 0; v < 256; v++) if (eval(e, [&](int) { return (uint64_t)v; })) e->tt[v >> 6] |= 1ull << (v & 63);
    }
    return e->tt;
  }
};
