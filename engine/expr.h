// Hash-consed bit-vector expressions (width 1..64) and their translation to Z3.
#pragma once
#include <cstdint>
#include <vector>
#include <unordered_set>
#include <unordered_map>
#include <cassert>
#include <z3.h>

enum class K : uint8_t { Const, Sym, Add, Sub, Mul, UDiv, SDiv, URem, SRem, And, Or, Xor, Shl, LShr, AShr,
                         Eq, Ult, Ule, Slt, Sle, ZExt, SExt, Extract, Concat, Ite };

struct Expr {
  K k; uint8_t w; uint8_t lo = 0;        // lo: Extract offset
  uint64_t val = 0;                      // Const value / Sym index
  const Expr *a = nullptr, *b = nullptr, *c = nullptr;
  uint32_t id = 0; uint32_t h = 0;
  mutable uint32_t epoch = 0; mutable uint64_t ev = 0;
  mutable Z3_ast zbv = nullptr, zb = nullptr;
};
typedef const Expr *E;

inline uint64_t maskw(unsigned w) { return w >= 64 ? ~0ull : ((1ull << w) - 1); }
inline int64_t sext(uint64_t v, unsigned w) { return w >= 64 ? (int64_t)v : (int64_t)(v << (64 - w)) >> (64 - w); }

struct ExprHash { size_t operator()(E e) const { return e->h; } };
struct ExprEq { bool operator()(E x, E y) const {
  return x->k == y->k && x->w == y->w && x->lo == y->lo && x->val == y->val && x->a == y->a && x->b == y->b && x->c == y->c; } };

struct ExprPool {
  std::unordered_set<E, ExprHash, ExprEq> tab;
  uint32_t nextId = 1;
  E intern(Expr &t) {
    uint64_t h = (uint64_t)t.k * 0x9E3779B97F4A7C15ull ^ ((uint64_t)t.w << 8) ^ ((uint64_t)t.lo << 20) ^ t.val * 0xD6E8FEB86659FD93ull;
    if (t.a) h = (h ^ t.a->id) * 0xff51afd7ed558ccdull; if (t.b) h = (h ^ (h >> 29) ^ t.b->id) * 0xc4ceb9fe1a85ec53ull;
    if (t.c) h = (h ^ (h >> 31) ^ t.c->id) * 0x9E3779B97F4A7C15ull;
    t.h = (uint32_t)(h ^ (h >> 32));
    auto it = tab.find(&t); if (it != tab.end()) return *it;
    Expr *n = new Expr(t); n->id = nextId++; tab.insert(n); return n;
  }
  E cst(uint64_t v, unsigned w) { Expr t; t.k = K::Const; t.w = w; t.val = v & maskw(w); return intern(t); }
  E sym(uint64_t idx, unsigned w) { Expr t; t.k = K::Sym; t.w = w; t.val = idx; return intern(t); }
  E raw(K k, unsigned w, E a, E b = nullptr, E c = nullptr, unsigned lo = 0) {
    Expr t; t.k = k; t.w = w; t.a = a; t.b = b; t.c = c; t.lo = lo; return intern(t); }

  static bool fold(K k, unsigned w, uint64_t x, uint64_t y, uint64_t &r) {
    uint64_t m = maskw(w);
    switch (k) {
      case K::Add: r = (x + y) & m; return true;
      case K::Sub: r = (x - y) & m; return true;
      case K::Mul: r = (x * y) & m; return true;
      case K::UDiv: if (!y) return false; r = x / y; return true;
      case K::URem: if (!y) return false; r = x % y; return true;
      case K::SDiv: { if (!y) return false; int64_t sx = sext(x, w), sy = sext(y, w); if (sy == -1) { r = (0 - x) & m; return true; } r = (uint64_t)(sx / sy) & m; return true; }
      case K::SRem: { if (!y) return false; int64_t sx = sext(x, w), sy = sext(y, w); if (sy == -1) { r = 0; return true; } r = (uint64_t)(sx % sy) & m; return true; }
      case K::And: r = x & y; return true;
      case K::Or: r = x | y; return true;
      case K::Xor: r = x ^ y; return true;
      case K::Shl: r = y >= w ? 0 : (x << y) & m; return true;
      case K::LShr: r = y >= w ? 0 : x >> y; return true;
      case K::AShr: r = (uint64_t)(sext(x, w) >> (y >= w ? 63 : y)) & m; return true;
      case K::Eq: r = x == y; return true;
      case K::Ult: r = x < y; return true;
      case K::Ule: r = x <= y; return true;
      case K::Slt: r = sext(x, w) < sext(y, w); return true;
      case K::Sle: r = sext(x, w) <= sext(y, w); return true;
      default: return false;
    }
  }
  static bool isCmp(K k) { return k == K::Eq || k == K::Ult || k == K::Ule || k == K::Slt || k == K::Sle; }
  static bool comm(K k) { return k == K::Add || k == K::Mul || k == K::And || k == K::Or || k == K::Xor || k == K::Eq; }

  E notb(E a) { // width 1
    if (a->k == K::Const) return cst(!a->val, 1);
    if (a->k == K::Xor && a->b->k == K::Const && a->b->val == 1) return a->a;
    if (a->k == K::Ult) return bin(K::Ule, a->b, a->a);
    if (a->k == K::Ule) return bin(K::Ult, a->b, a->a);
    if (a->k == K::Slt) return bin(K::Sle, a->b, a->a);
    if (a->k == K::Sle) return bin(K::Slt, a->b, a->a);
    return raw(K::Xor, 1, a, cst(1, 1));
  }
  E bin(K k, E a, E b) {
    unsigned w = a->w, rw = isCmp(k) ? 1 : w;
    if (a->k == K::Const && b->k == K::Const) { uint64_t r; if (fold(k, w, a->val, b->val, r)) return cst(r, rw); }
    if (comm(k) && (a->k == K::Const || (b->k != K::Const && a->id > b->id))) { E t = a; a = b; b = t; }
    bool bc = b->k == K::Const; uint64_t bv = b->val, m = maskw(w);
    switch (k) {
      case K::Add:
        if (bc && bv == 0) return a;
        if (bc && a->k == K::Add && a->b->k == K::Const) return bin(K::Add, a->a, cst(a->b->val + bv, w));
        break;
      case K::Sub:
        if (bc) return bin(K::Add, a, cst((0 - bv) & m, w));
        if (a == b) return cst(0, w);
        if (a->k == K::Add && a->b->k == K::Const && a->a == b) return a->b;
        if (a->k == K::Add && b->k == K::Add && a->b->k == K::Const && b->b->k == K::Const && a->a == b->a) return cst(a->b->val - b->b->val, w);
        break;
      case K::Mul:
        if (bc && bv == 0) return b; if (bc && bv == 1) return a;
        if (bc && (bv & (bv - 1)) == 0) return bin(K::Shl, a, cst(__builtin_ctzll(bv), w));
        break;
      case K::UDiv: if (bc && bv == 1) return a;
        if (bc && bv && (bv & (bv - 1)) == 0) return bin(K::LShr, a, cst(__builtin_ctzll(bv), w));
        break;
      case K::URem: if (bc && bv && (bv & (bv - 1)) == 0) return bin(K::And, a, cst(bv - 1, w)); break;
      case K::And:
        if (bc && bv == 0) return b; if (bc && bv == m) return a; if (a == b) return a;
        if (bc && a->k == K::ZExt && (bv & maskw(a->a->w)) == maskw(a->a->w)) return a;
        break;
      case K::Or: if (bc && bv == 0) return a; if (bc && bv == m) return b; if (a == b) return a; break;
      case K::Xor: if (bc && bv == 0) return a; if (a == b) return cst(0, w);
        if (w == 1 && bc) return notb(a);
        break;
      case K::Shl: case K::LShr: case K::AShr: if (bc && bv == 0) return a;
        if (bc && k != K::AShr && bv >= w) return cst(0, w); break;
      case K::Eq:
        if (a == b) return cst(1, 1);
        if (w == 1 && bc) return bv ? a : notb(a);
        if (bc && a->k == K::ZExt) { if (bv > maskw(a->a->w)) return cst(0, 1); return bin(K::Eq, a->a, cst(bv, a->a->w)); }
        if (bc && a->k == K::SExt) { uint64_t t = bv & maskw(a->a->w); if ((uint64_t)(sext(t, a->a->w) & m) != bv) return cst(0, 1); return bin(K::Eq, a->a, cst(t, a->a->w)); }
        if (bc && a->k == K::Add && a->b->k == K::Const) return bin(K::Eq, a->a, cst(bv - a->b->val, w));
        if (a->k == K::ZExt && b->k == K::ZExt && a->a->w == b->a->w) return bin(K::Eq, a->a, b->a);
        if (a->k == K::SExt && b->k == K::SExt && a->a->w == b->a->w) return bin(K::Eq, a->a, b->a);
        break;
      case K::Ult: if (a == b) return cst(0, 1); if (bc && bv == 0) return cst(0, 1);
        if (bc && a->k == K::ZExt) { if (bv > maskw(a->a->w)) return cst(1, 1); return bin(K::Ult, a->a, cst(bv, a->a->w)); }
        if (a->k == K::ZExt && b->k == K::ZExt && a->a->w == b->a->w) return bin(K::Ult, a->a, b->a);
        if (a->k == K::Const && b->k == K::ZExt) { if (a->val > maskw(b->a->w)) return cst(0, 1); return bin(K::Ult, cst(a->val, b->a->w), b->a); }
        break;
      case K::Ule: if (a == b) return cst(1, 1); if (a->k == K::Const && a->val == 0) return cst(1, 1);
        if (bc && a->k == K::ZExt) { if (bv >= maskw(a->a->w)) return cst(1, 1); return bin(K::Ule, a->a, cst(bv, a->a->w)); }
        if (a->k == K::ZExt && b->k == K::ZExt && a->a->w == b->a->w) return bin(K::Ule, a->a, b->a);
        if (a->k == K::Const && b->k == K::ZExt) { if (a->val > maskw(b->a->w)) return cst(0, 1); return bin(K::Ule, cst(a->val, b->a->w), b->a); }
        break;
      case K::Slt: if (a == b) return cst(0, 1);
        if ((a->k == K::SExt && b->k == K::SExt) && a->a->w == b->a->w) return bin(K::Slt, a->a, b->a);
        if ((a->k == K::ZExt && b->k == K::ZExt) && a->a->w == b->a->w) return bin(K::Ult, a->a, b->a);
        if (bc && a->k == K::ZExt) { int64_t s = sext(bv, w); if (s <= 0) return cst(0, 1); return bin(K::Ult, a, b); }
        break;
      case K::Sle: if (a == b) return cst(1, 1);
        if ((a->k == K::SExt && b->k == K::SExt) && a->a->w == b->a->w) return bin(K::Sle, a->a, b->a);
        if ((a->k == K::ZExt && b->k == K::ZExt) && a->a->w == b->a->w) return bin(K::Ule, a->a, b->a);
        break;
      default: break;
    }
    return raw(k, rw, a, b);
  }
  E zext(E a, unsigned w) {
    if (w == a->w) return a; if (a->k == K::Const) return cst(a->val, w);
    if (a->k == K::ZExt) return zext(a->a, w);
    return raw(K::ZExt, w, a);
  }
  E sextE(E a, unsigned w) {
    if (w == a->w) return a; if (a->k == K::Const) return cst((uint64_t)sext(a->val, a->w), w);
    if (a->k == K::SExt) return sextE(a->a, w); if (a->k == K::ZExt) return zext(a->a, w);
    return raw(K::SExt, w, a);
  }
  E extract(E a, unsigned lo, unsigned w) {
    if (lo == 0 && w == a->w) return a;
    if (a->k == K::Const) return cst(a->val >> lo, w);
    if (a->k == K::ZExt) {
      if (lo >= a->a->w) return cst(0, w);
      if (lo + w <= a->a->w) return extract(a->a, lo, w);
      if (lo == 0) return zext(a->a, w);
    }
    if (a->k == K::SExt && lo + w <= a->a->w) return extract(a->a, lo, w);
    if (a->k == K::Extract) return extract(a->a, lo + a->lo, w);
    if (a->k == K::Concat) { // a = hi:a, lo:b
      if (lo + w <= a->b->w) return extract(a->b, lo, w);
      if (lo >= a->b->w) return extract(a->a, lo - a->b->w, w);
    }
    if (lo == 0 && (a->k == K::Add || a->k == K::Mul || a->k == K::And || a->k == K::Or || a->k == K::Xor))
      return bin(a->k, extract(a->a, 0, w), extract(a->b, 0, w));
    if (a->k == K::Ite) { E x = a->b, y = a->c; if (x->k == K::Const || y->k == K::Const) return ite(a->a, extract(x, lo, w), extract(y, lo, w)); }
    return raw(K::Extract, w, a, nullptr, nullptr, lo);
  }
  E concat(E hi, E lo) {
    if (hi->k == K::Const && lo->k == K::Const) return cst((hi->val << lo->w) | lo->val, hi->w + lo->w);
    if (hi->k == K::Const && hi->val == 0) return zext(lo, hi->w + lo->w);
    if (hi->k == K::Extract && lo->k == K::Extract && hi->a == lo->a && hi->lo == lo->lo + lo->w) return extract(hi->a, lo->lo, hi->w + lo->w);
    return raw(K::Concat, hi->w + lo->w, hi, lo);
  }
  E ite(E c, E x, E y) {
    if (c->k == K::Const) return c->val ? x : y; if (x == y) return x;
    if (x->w == 1 && x->k == K::Const && y->k == K::Const) return x->val ? c : notb(c);
    return raw(K::Ite, x->w, c, x, y);
  }
};
extern ExprPool P;

struct Model { std::vector<uint64_t> v; };

struct Evaluator {
  uint32_t epoch = 1;
  const std::vector<uint64_t> *m = nullptr;
  void set(const std::vector<uint64_t> *mm) { m = mm; ++epoch; }
  uint64_t eval(E e) {
    if (e->k == K::Const) return e->val;
    if (e->epoch == epoch) return e->ev;
    uint64_t r = 0;
    switch (e->k) {
      case K::Sym: r = e->val < m->size() ? (*m)[e->val] & maskw(e->w) : 0; break;
      case K::ZExt: r = eval(e->a); break;
      case K::SExt: r = (uint64_t)sext(eval(e->a), e->a->w) & maskw(e->w); break;
      case K::Extract: r = (eval(e->a) >> e->lo) & maskw(e->w); break;
      case K::Concat: r = (eval(e->a) << e->b->w) | eval(e->b); break;
      case K::Ite: r = eval(e->a) ? eval(e->b) : eval(e->c); break;
      default: { uint64_t x = eval(e->a), y = eval(e->b); if (!ExprPool::fold(e->k, e->a->w, x, y, r)) { // division by zero: SMT-LIB semantics
          if (e->k == K::UDiv) r = maskw(e->w); else if (e->k == K::SDiv) r = sext(x, e->w) < 0 ? 1 : maskw(e->w); else r = x; } }
    }
    e->epoch = epoch; e->ev = r; return r;
  }
};

struct Solver {
  Z3_context c = nullptr; Z3_solver s = nullptr;
  std::vector<E> asserted;           // constraints currently on the solver stack, one push level each
  uint64_t queries = 0, sat = 0, unsat = 0, unknown = 0, cacheHits = 0; double secs = 0;
  unsigned timeoutMs = 60000;
  std::vector<std::pair<unsigned, unsigned>> symIdx; // (idx,width) of symbols translated
  std::unordered_map<uint64_t, Z3_ast> syms;
  void init();
  Z3_ast bv(E e); Z3_ast bl(E e);
  void sync(const std::vector<E> &pc);
  // 1 sat (model filled), 0 unsat, -1 unknown
  int check(const std::vector<E> &pc, E extra, std::vector<uint64_t> *model, const std::vector<uint8_t> &widths);
};
