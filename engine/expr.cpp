#include "expr.h"
#include <z3.h>
#include <chrono>
#include <cstring>
#include <cstdio>
#include <cstdlib>
#include <deque>
#include <algorithm>
#include <unordered_set>

static std::deque<E> pool; static std::vector<const E*> table; static size_t tcount = 0;
static std::deque<VarBits> vpool;
static inline uint64_t mask(uint32_t w) { return w >= 64 ? ~0ull : (1ull << w) - 1; }
static inline u128 mask128(uint32_t w) { return w >= 128 ? ~(u128)0 : ((u128)1 << w) - 1; }
static inline u128 cv(const E* e) { return ((u128)e->hi << 64) | e->lo; }
size_t eCount() { return tcount; }

static uint64_t hashE(EK k, uint32_t w, const E* a, const E* b, const E* c, uint64_t lo, uint64_t hi) {
  uint64_t h = k * 0x9E3779B97F4A7C15ull + w;
  auto mix = [&](uint64_t x) { h ^= x + 0x9E3779B97F4A7C15ull + (h << 6) + (h >> 2); h *= 0xff51afd7ed558ccdull; h ^= h >> 33; };
  mix(a ? a->id + 1 : 0); mix(b ? b->id + 1 : 0); mix(c ? c->id + 1 : 0); mix(lo); mix(hi); return h;
}
static const E* mk(EK k, uint32_t w, const E* a, const E* b, const E* c, uint64_t lo, uint64_t hi) {
  if (table.empty()) table.assign(1 << 20, nullptr);
  if (tcount * 2 > table.size()) { std::vector<const E*> n(table.size() * 2, nullptr); for (auto e : table) if (e) { size_t i = hashE(e->k, e->w, e->a, e->b, e->c, e->lo, e->hi) & (n.size() - 1); while (n[i]) i = (i + 1) & (n.size() - 1); n[i] = e; } table.swap(n); }
  size_t i = hashE(k, w, a, b, c, lo, hi) & (table.size() - 1);
  while (table[i]) { const E* e = table[i]; if (e->k == k && e->w == w && e->a == a && e->b == b && e->c == c && e->lo == lo && e->hi == hi) return e; i = (i + 1) & (table.size() - 1); }
  pool.emplace_back(); E& e = pool.back(); e.k = k; e.w = w; e.a = a; e.b = b; e.c = c; e.lo = lo; e.hi = hi; e.id = tcount++;
  table[i] = &e;
  // variables
  e.svar = -1;
  if (k == E_VAR) { e.svar = (int)lo; vpool.emplace_back(); vpool.back().set((int)lo); e.vars = &vpool.back(); }
  else {
    const E* ch[3] = {a, b, c}; const VarBits* vb = nullptr; bool need = false; int sv = -1;
    for (auto x : ch) if (x && x->svar != -1) { if (!vb) { vb = x->vars; sv = x->svar; } else if (x->vars != vb) { if (sv >= 0 && x->svar == sv) continue; need = true; sv = -2; } if (x->svar == -2) sv = -2; if (x->depth + 1 > e.depth) e.depth = x->depth + 1; }
    if (need) { VarBits m = *vb; bool chg = false; const VarBits* big = vb; for (auto x : ch) if (x && x->vars) { if (m.orWith(*x->vars)) { chg = true; } }
      for (auto x : ch) if (x && x->vars && !memcmp(x->vars, &m, sizeof m)) big = x->vars, chg = false;
      if (chg || memcmp(big, &m, sizeof m)) { vpool.push_back(m); vb = &vpool.back(); } else vb = big; }
    e.vars = vb; e.svar = sv;
  }
  // unsigned bound
  uint64_t mx = mask(w);
  if (w <= 64) switch (k) {
    case E_CONST: e.umax = lo; break;
    case E_ZEXT: e.umax = a->w <= 64 ? a->umax : mx; break;
    case E_AND: e.umax = std::min(a->umax, b->umax); break;
    case E_OR: case E_XOR: { uint64_t m = std::max(a->umax, b->umax); m |= m >> 1; m |= m >> 2; m |= m >> 4; m |= m >> 8; m |= m >> 16; m |= m >> 32; e.umax = std::min(m, mx); break; }
    case E_ADD: { uint64_t s; if (!__builtin_add_overflow(a->umax, b->umax, &s) && s <= mx) e.umax = s; else e.umax = mx; break; }
    case E_MUL: { uint64_t s; if (!__builtin_mul_overflow(a->umax, b->umax, &s) && s <= mx) e.umax = s; else e.umax = mx; break; }
    case E_UDIV: e.umax = b->k == E_CONST && b->lo ? a->umax / b->lo : mx; break;
    case E_UREM: e.umax = b->k == E_CONST && b->lo ? std::min(a->umax, b->lo - 1) : a->umax; break;
    case E_LSHR: e.umax = b->k == E_CONST && b->lo < 64 ? a->umax >> b->lo : a->umax; break;
    case E_SHL: { if (b->k == E_CONST && b->lo < w) { u128 s = (u128)a->umax << b->lo; e.umax = s <= mx ? (uint64_t)s : mx; } else e.umax = mx; break; }
    case E_ITE: e.umax = std::max(b->umax, c->umax); break;
    case E_EXTRACT: e.umax = lo == 0 && a->w <= 64 ? std::min(a->umax, mx) : (a->w <= 64 ? std::min(a->umax >> lo, mx) : mx); break;
    case E_CONCAT: e.umax = a->w + b->w <= 64 ? (b->w >= 64 ? mx : (a->umax << b->w) | mask(b->w)) : mx; break;
    default: e.umax = mx;
  }
  return &e;
}

const E* eConst(uint64_t lo, uint32_t w, uint64_t hi) { if (w <= 64) { lo &= mask(w); hi = 0; } else if (w < 128) hi &= mask(w - 64); return mk(E_CONST, w, 0, 0, 0, lo, hi); }
static const E* c128(u128 v, uint32_t w) { return eConst((uint64_t)v, w, (uint64_t)(v >> 64)); }
const E* eVar(int i) { if (i >= MAXVARS) { fprintf(stderr, "too many symbolic bytes\n"); exit(3); } return mk(E_VAR, 8, 0, 0, 0, i, 0); }

static __int128 sx(u128 v, uint32_t w) { if (w >= 128) return (__int128)v; u128 s = (u128)1 << (w - 1); v &= mask128(w); return (__int128)((v ^ s) - s); }
static u128 foldBin(EK k, u128 x, u128 y, uint32_t w) {
  u128 m = mask128(w);
  switch (k) {
    case E_AND: return x & y; case E_OR: return x | y; case E_XOR: return x ^ y;
    case E_ADD: return (x + y) & m; case E_SUB: return (x - y) & m; case E_MUL: return (x * y) & m;
    case E_UDIV: return y ? x / y : m; case E_UREM: return y ? x % y : x;
    case E_SDIV: { __int128 a = sx(x, w), b = sx(y, w); if (!b) return a < 0 ? 1 : m; if (b == -1) return (u128)(-a) & m; return (u128)(a / b) & m; }
    case E_SREM: { __int128 a = sx(x, w), b = sx(y, w); if (!b) return x; if (b == -1) return 0; return (u128)(a % b) & m; }
    case E_SHL: return y >= w ? 0 : (x << (int)y) & m; case E_LSHR: return y >= w ? 0 : x >> (int)y;
    case E_ASHR: { __int128 a = sx(x, w); int s = y >= w ? w - 1 : (int)y; return (u128)(a >> s) & m; }
    default: abort();
  }
}
static bool foldCmp(EK k, u128 x, u128 y, uint32_t w) {
  switch (k) { case E_EQ: return x == y; case E_ULT: return x < y; case E_ULE: return x <= y; case E_SLT: return sx(x, w) < sx(y, w); case E_SLE: return sx(x, w) <= sx(y, w); default: abort(); }
}

const E* eNot(const E* a) {
  if (a->k == E_CONST) return c128(~cv(a) & mask128(a->w), a->w);
  if (a->k == E_NOT) return a->a;
  if (a->w == 1) { if (a->k == E_ULT) return eCmp(E_ULE, a->b, a->a); if (a->k == E_ULE) return eCmp(E_ULT, a->b, a->a); if (a->k == E_SLT) return eCmp(E_SLE, a->b, a->a); if (a->k == E_SLE) return eCmp(E_SLT, a->b, a->a); }
  return mk(E_NOT, a->w, a, 0, 0, 0, 0);
}
const E* eBin(EK k, const E* a, const E* b) {
  uint32_t w = a->w;
  if (a->k == E_CONST && b->k == E_CONST) return c128(foldBin(k, cv(a), cv(b), w), w);
  bool comm = k == E_AND || k == E_OR || k == E_XOR || k == E_ADD || k == E_MUL;
  if (comm && (a->k == E_CONST || (b->k != E_CONST && a->id > b->id))) std::swap(a, b);
  u128 m = mask128(w);
  if (b->k == E_CONST) {
    u128 y = cv(b);
    switch (k) {
      case E_AND: if (y == 0) return b; if (y == m) return a; if (w <= 64 && !(y & (y + 1)) && a->umax <= (uint64_t)y) return a;
        if (w <= 64 && y && !((uint64_t)y & ((uint64_t)y + 1))) { uint32_t nb = 64 - __builtin_clzll((uint64_t)y); return eZext(eExtract(a, 0, nb), w); }
        if (a->k == E_AND && a->b->k == E_CONST) return eBin(E_AND, a->a, c128(cv(a->b) & y, w)); break;
      case E_OR: if (y == 0) return a; if (y == m) return b; if (a->k == E_OR && a->b->k == E_CONST) return eBin(E_OR, a->a, c128(cv(a->b) | y, w)); break;
      case E_XOR: if (y == 0) return a; if (y == m) return eNot(a); if (a->k == E_XOR && a->b->k == E_CONST) return eBin(E_XOR, a->a, c128(cv(a->b) ^ y, w)); break;
      case E_ADD: if (y == 0) return a; if (a->k == E_ADD && a->b->k == E_CONST) return eBin(E_ADD, a->a, c128((cv(a->b) + y) & m, w)); break;
      case E_SUB: if (y == 0) return a; return eBin(E_ADD, a, c128((-y) & m, w));
      case E_MUL: if (y == 0) return b; if (y == 1) return a; if (w <= 64 && !(y & (y - 1))) return eBin(E_SHL, a, eConst(__builtin_ctzll((uint64_t)y), w)); break;
      case E_UDIV: if (y == 1) return a; if (w <= 64 && y && !(y & (y - 1))) return eBin(E_LSHR, a, eConst(__builtin_ctzll((uint64_t)y), w)); if (w <= 64 && y && a->umax < (uint64_t)y) return eConst(0, w); break;
      case E_UREM: if (y == 1) return eConst(0, w); if (w <= 64 && y && a->umax < (uint64_t)y) return a; if (w <= 64 && y && !(y & (y - 1))) return eBin(E_AND, a, c128(y - 1, w)); break;
      case E_SHL: if (y == 0) return a; if (y >= w) return eConst(0, w); return eConcat(eExtract(a, 0, w - (uint32_t)y), eConst(0, (uint32_t)y));
      case E_LSHR: if (y == 0) return a; if (y >= w) return eConst(0, w); return eZext(eExtract(a, (uint32_t)y, w - (uint32_t)y), w);
      case E_ASHR: if (y == 0) return a; if (y >= w) y = w - 1; return eSext(eExtract(a, (uint32_t)y, w - (uint32_t)y), w);
      default: break;
    }
    // narrow expensive operations using ranges
    if (w <= 64 && w > 8 && (k == E_UDIV || k == E_UREM || k == E_MUL || k == E_SDIV || k == E_SREM)) {
      uint64_t yy = (uint64_t)y; uint64_t bound; bool ok = true;
      if (k == E_MUL) ok = !__builtin_mul_overflow(a->umax, yy, &bound); else { bound = std::max(a->umax, yy); if (k == E_SDIV || k == E_SREM) ok = bound < (1ull << (w - 1)); }
      if (ok) { uint32_t nb = bound ? 64 - __builtin_clzll(bound) : 1; EK kk = k == E_SDIV ? E_UDIV : k == E_SREM ? E_UREM : k; if (nb < w) return eZext(eBin(kk, eExtract(a, 0, nb), eConst(yy, nb)), w); }
    }
  }
  if (a == b) switch (k) { case E_AND: case E_OR: return a; case E_XOR: case E_SUB: return eConst(0, w); default: break; }
  if (w == 1) { // boolean simplifications
    if (k == E_AND && (a == eNot(b))) return eConst(0, 1);
    if (k == E_OR && (a == eNot(b))) return eConst(1, 1);
  }
  // push constants operations through ite with constant arms
  if (b->k == E_CONST && a->k == E_ITE && a->b->k == E_CONST && a->c->k == E_CONST) return eIte(a->a, eBin(k, a->b, b), eBin(k, a->c, b));
  // or of disjoint zext/shl -> concat
  if (k == E_OR || k == E_ADD || k == E_XOR) {
    for (int s = 0; s < 2; s++) { const E *x = s ? b : a, *y = s ? a : b; // x = concat(p, 0_n), y < 2^n
      if (x->k == E_CONCAT && x->b->k == E_CONST && cv(x->b) == 0 && w <= 64 && x->b->w < 64 && y->umax <= mask(x->b->w)) return eConcat(x->a, eExtract(y, 0, x->b->w)); }
  }
  return mk(k, w, a, b, 0, 0, 0);
}
const E* eCmp(EK k, const E* a, const E* b) {
  uint32_t w = a->w;
  if (a->k == E_CONST && b->k == E_CONST) return eConst(foldCmp(k, cv(a), cv(b), w), 1);
  if (a == b) return eConst(k == E_EQ || k == E_ULE || k == E_SLE, 1);
  if (k == E_EQ) {
    if (a->k == E_CONST || (b->k != E_CONST && a->id > b->id)) std::swap(a, b);
    if (w == 1 && b->k == E_CONST) return b->lo ? a : eNot(a);
    if (b->k == E_CONST) {
      u128 y = cv(b);
      if (w <= 64 && (uint64_t)y > a->umax) return eConst(0, 1);
      if (a->k == E_ZEXT) return (y >> a->a->w) ? eConst(0, 1) : eCmp(E_EQ, a->a, c128(y, a->a->w));
      if (a->k == E_SEXT) { const E* t = c128(y & mask128(a->a->w), a->a->w); if ((u128)(sx(cv(t), a->a->w)) << (128 - w) != y << (128 - w)) return eConst(0, 1); return eCmp(E_EQ, a->a, t); }
      if (a->k == E_CONCAT) return eBin(E_AND, eCmp(E_EQ, a->a, c128(y >> a->b->w, a->a->w)), eCmp(E_EQ, a->b, c128(y & mask128(a->b->w), a->b->w)));
      if (a->k == E_ADD && a->b->k == E_CONST) return eCmp(E_EQ, a->a, c128((y - cv(a->b)) & mask128(w), w));
      if (a->k == E_XOR && a->b->k == E_CONST) return eCmp(E_EQ, a->a, c128(y ^ cv(a->b), w));
      if (a->k == E_NOT) return eCmp(E_EQ, a->a, c128(~y & mask128(w), w));
      if (a->k == E_ITE && (a->b->k == E_CONST || a->c->k == E_CONST)) {
        const E *p = eCmp(E_EQ, a->b, b), *q = eCmp(E_EQ, a->c, b); return eIte(a->a, p, q); }
    } else if (a->k == E_ZEXT && b->k == E_ZEXT && a->a->w == b->a->w) return eCmp(E_EQ, a->a, b->a);
    else if (a->k == E_CONCAT && b->k == E_CONCAT && a->b->w == b->b->w) return eBin(E_AND, eCmp(E_EQ, a->a, b->a), eCmp(E_EQ, a->b, b->b));
  } else {
    if (w <= 64) {
      bool sg = k == E_SLT || k == E_SLE; uint64_t half = 1ull << (w - 1);
      if (sg && a->umax < half && b->umax < half) return eCmp(k == E_SLT ? E_ULT : E_ULE, a, b);
      if (!sg) {
        if (b->k == E_CONST) { if (k == E_ULT && b->lo == 0) return eConst(0, 1); if (k == E_ULT && a->umax < b->lo) return eConst(1, 1); if (k == E_ULE && a->umax <= b->lo) return eConst(1, 1);
          if (k == E_ULT && b->lo == 1) return eCmp(E_EQ, a, eConst(0, w)); if (k == E_ULE && b->lo == 0) return eCmp(E_EQ, a, b);
          if (a->k == E_ZEXT) { uint64_t mm = mask(a->a->w); if (b->lo <= mm) return eCmp(k, a->a, eConst(b->lo, a->a->w)); } }
        if (a->k == E_CONST) { if (k == E_ULT && a->lo >= b->umax) return a->lo > b->umax || a->lo == b->umax ? eConst(0, 1) : nullptr; if (k == E_ULE && a->lo == 0) return eConst(1, 1); if (k == E_ULE && a->lo > b->umax) return eConst(0, 1);
          if (k == E_ULT && a->lo == 0) return eNot(eCmp(E_EQ, b, eConst(0, w)));
          if (b->k == E_ZEXT) { uint64_t mm = mask(b->a->w); if (a->lo <= mm) return eCmp(k, eConst(a->lo, b->a->w), b->a); } }
        if (a->k == E_ZEXT && b->k == E_ZEXT && a->a->w == b->a->w) return eCmp(k, a->a, b->a);
      }
    }
    if (b->k == E_CONST && a->k == E_ITE && a->b->k == E_CONST && a->c->k == E_CONST) return eIte(a->a, eCmp(k, a->b, b), eCmp(k, a->c, b));
    if (a->k == E_CONST && b->k == E_ITE && b->b->k == E_CONST && b->c->k == E_CONST) return eIte(b->a, eCmp(k, a, b->b), eCmp(k, a, b->c));
  }
  return mk(k, 1, a, b, 0, 0, 0);
}
const E* eConcat(const E* h, const E* l) {
  uint32_t w = h->w + l->w;
  if (h->k == E_CONST && l->k == E_CONST) return c128((cv(h) << l->w) | cv(l), w);
  if (h->k == E_EXTRACT && l->k == E_EXTRACT && h->a == l->a && h->lo == l->lo + l->w) return eExtract(h->a, (uint32_t)l->lo, w);
  if (h->k == E_CONST && cv(h) == 0) return eZext(l, w);
  // (x . extract(y,hi)) . extract(y,lo) -> x . extract(y)
  if (h->k == E_CONCAT && l->k == E_EXTRACT && h->b->k == E_EXTRACT && h->b->a == l->a && h->b->lo == l->lo + l->w) return eConcat(h->a, eExtract(l->a, (uint32_t)l->lo, h->b->w + l->w));
  if (h->k == E_CONCAT && h->b->k == E_CONST && l->k == E_CONST) return eConcat(h->a, eConcat(h->b, l));
  if (h->k == E_ZEXT) return eZext(eConcat(h->a, l), w);
  return mk(E_CONCAT, w, h, l, 0, 0, 0);
}
const E* eExtract(const E* a, uint32_t off, uint32_t w) {
  if (off == 0 && w == a->w) return a;
  if (a->k == E_CONST) return c128((cv(a) >> off) & mask128(w), w);
  switch (a->k) {
    case E_EXTRACT: return eExtract(a->a, off + (uint32_t)a->lo, w);
    case E_CONCAT: if (off + w <= a->b->w) return eExtract(a->b, off, w); if (off >= a->b->w) return eExtract(a->a, off - a->b->w, w); return eConcat(eExtract(a->a, 0, off + w - a->b->w), eExtract(a->b, off, a->b->w - off));
    case E_ZEXT: if (off >= a->a->w) return eConst(0, w); if (off + w <= a->a->w) return eExtract(a->a, off, w); return eZext(eExtract(a->a, off, a->a->w - off), w);
    case E_SEXT: if (off + w <= a->a->w) return eExtract(a->a, off, w); if (off < a->a->w) return eSext(eExtract(a->a, off, a->a->w - off), w); return eSext(eExtract(a->a, a->a->w - 1, 1), w);
    case E_ITE: if (a->b->k == E_CONST || a->c->k == E_CONST) return eIte(a->a, eExtract(a->b, off, w), eExtract(a->c, off, w)); break;
    case E_AND: case E_OR: case E_XOR: if (a->b->k == E_CONST || off > 0 || w < a->w) return eBin(a->k, eExtract(a->a, off, w), eExtract(a->b, off, w)); break;
    case E_NOT: return eNot(eExtract(a->a, off, w));
    case E_ADD: case E_SUB: case E_MUL: if (off == 0) return eBin(a->k, eExtract(a->a, 0, w), eExtract(a->b, 0, w)); break;
    default: break;
  }
  if (a->w <= 64 && off < 64 && (a->umax >> off) == 0) return eConst(0, w);
  return mk(E_EXTRACT, w, a, 0, 0, off, 0);
}
const E* eZext(const E* a, uint32_t w) {
  if (w == a->w) return a; if (a->k == E_CONST) return c128(cv(a), w); if (a->k == E_ZEXT) return eZext(a->a, w);
  if (a->k == E_ITE && a->b->k == E_CONST && a->c->k == E_CONST) return eIte(a->a, eZext(a->b, w), eZext(a->c, w));
  return mk(E_ZEXT, w, a, 0, 0, 0, 0);
}
const E* eSext(const E* a, uint32_t w) {
  if (w == a->w) return a; if (a->k == E_CONST) return c128((u128)sx(cv(a), a->w) & mask128(w), w);
  if (a->k == E_ZEXT) return eZext(a->a, w); if (a->w <= 64 && a->umax < (1ull << (a->w - 1))) return eZext(a, w);
  if (a->k == E_ITE && a->b->k == E_CONST && a->c->k == E_CONST) return eIte(a->a, eSext(a->b, w), eSext(a->c, w));
  return mk(E_SEXT, w, a, 0, 0, 0, 0);
}
const E* eIte(const E* c, const E* a, const E* b) {
  if (c->k == E_CONST) return c->lo ? a : b; if (a == b) return a;
  if (c->k == E_NOT) return eIte(c->a, b, a);
  if (a->w == 1) {
    if (isTrue(a)) return eBin(E_OR, c, b); if (isFalse(a)) return eBin(E_AND, eNot(c), b);
    if (isTrue(b)) return eBin(E_OR, eNot(c), a); if (isFalse(b)) return eBin(E_AND, c, a);
  }
  if (a->k == E_ITE && a->a == c) return eIte(c, a->b, b); if (b->k == E_ITE && b->a == c) return eIte(c, a, b->c);
  if (b->k == E_ITE && b->b == a) return eIte(eBin(E_OR, c, b->a), a, b->c);
  return mk(E_ITE, a->w, c, a, b, 0, 0);
}

// ---------------------------------------------------------------- evaluation
static uint32_t gEpoch = 1;
static u128 ev(const E* e, const std::vector<uint8_t>& m) {
  if (e->k == E_CONST) return cv(e); if (e->epoch == gEpoch) return e->ev;
  u128 r;
  switch (e->k) {
    case E_VAR: r = e->lo < m.size() ? m[e->lo] : 0; break;
    case E_NOT: r = ~ev(e->a, m) & mask128(e->w); break;
    case E_CONCAT: r = (ev(e->a, m) << e->b->w) | ev(e->b, m); break;
    case E_EXTRACT: r = (ev(e->a, m) >> (int)e->lo) & mask128(e->w); break;
    case E_ZEXT: r = ev(e->a, m); break; case E_SEXT: r = (u128)sx(ev(e->a, m), e->a->w) & mask128(e->w); break;
    case E_ITE: r = ev(e->a, m) ? ev(e->b, m) : ev(e->c, m); break;
    case E_EQ: case E_ULT: case E_ULE: case E_SLT: case E_SLE: r = foldCmp(e->k, ev(e->a, m), ev(e->b, m), e->a->w); break;
    default: r = foldBin(e->k, ev(e->a, m), ev(e->b, m), e->w);
  }
  e->epoch = gEpoch; e->ev = r; return r;
}
u128 evalModel(const E* e, const std::vector<uint8_t>& m, bool fresh) { if (fresh) gEpoch++; return ev(e, m); }

static uint64_t* newTab() { return (uint64_t*)malloc(256 * 8); }
const uint64_t* valueTable(const E* e) {
  if (e->tab) return e->tab;
  uint64_t* t = newTab();
  if (e->k == E_CONST) { for (int i = 0; i < 256; i++) t[i] = e->lo; }
  else if (e->k == E_VAR) { for (int i = 0; i < 256; i++) t[i] = i; }
  else {
    bool wide = e->w > 64 || (e->a && e->a->w > 64) || (e->b && e->b->w > 64) || (e->c && e->c->w > 64);
    if (wide) { std::vector<uint8_t> m(MAXVARS, 0); for (int i = 0; i < 256; i++) { m[e->svar] = i; t[i] = (uint64_t)evalModel(e, m); } }
    else {
      const uint64_t *A = e->a ? valueTable(e->a) : 0, *B = e->b ? valueTable(e->b) : 0, *C = e->c ? valueTable(e->c) : 0;
      for (int i = 0; i < 256; i++) switch (e->k) {
        case E_NOT: t[i] = ~A[i] & mask(e->w); break;
        case E_CONCAT: t[i] = (A[i] << e->b->w) | B[i]; break; case E_EXTRACT: t[i] = (A[i] >> e->lo) & mask(e->w); break;
        case E_ZEXT: t[i] = A[i]; break; case E_SEXT: t[i] = (uint64_t)sx(A[i], e->a->w) & mask(e->w); break;
        case E_ITE: t[i] = A[i] ? B[i] : C[i]; break;
        case E_EQ: case E_ULT: case E_ULE: case E_SLT: case E_SLE: t[i] = foldCmp(e->k, A[i], B[i], e->a->w); break;
        default: t[i] = (uint64_t)foldBin(e->k, A[i], B[i], e->w);
      }
    }
  }
  e->tab = t; return t;
}
const Bits256& truth(const E* e) {
  if (e->tt) return *e->tt; Bits256* b = new Bits256; const uint64_t* t = valueTable(e); for (int i = 0; i < 256; i++) if (t[i]) b->set(i);
  e->tt = b; return *b;
}
std::string eStr(const E* e, int d) {
  static const char* n[] = {"const", "v", "not", "and", "or", "xor", "add", "sub", "mul", "udiv", "sdiv", "urem", "srem", "shl", "lshr", "ashr", "=", "u<", "u<=", "s<", "s<=", "concat", "extract", "zext", "sext", "ite"};
  if (e->k == E_CONST) { char b[40]; snprintf(b, 40, "0x%lx:%u", (unsigned long)e->lo, e->w); return b; }
  if (e->k == E_VAR) return "v" + std::to_string(e->lo); if (d == 0) return "..";
  std::string s = std::string("(") + n[e->k]; if (e->k == E_EXTRACT) s += "[" + std::to_string(e->lo) + "+" + std::to_string(e->w) + "]"; if (e->k == E_ZEXT || e->k == E_SEXT) s += std::to_string(e->w);
  for (auto x : {e->a, e->b, e->c}) if (x) s += " " + eStr(x, d - 1); return s + ")";
}

// ---------------------------------------------------------------- solver
SolverStats gSS; bool gNoFast = false; uint64_t gRlimit = 40000000;
static Z3_context ctx; static Z3_solver solver; static Z3_sort bv8; static Z3_ast zvar[MAXVARS];
static void onErr(Z3_context c, Z3_error_code e) { fprintf(stderr, "z3 error: %s\n", Z3_get_error_msg(c, e)); exit(3); }
void solverInit() {
  Z3_config cfg = Z3_mk_config(); ctx = Z3_mk_context(cfg); Z3_del_config(cfg); Z3_set_error_handler(ctx, onErr);
  solver = Z3_mk_simple_solver(ctx); Z3_solver_inc_ref(ctx, solver);
  Z3_params p = Z3_mk_params(ctx); Z3_params_inc_ref(ctx, p);
  Z3_params_set_uint(ctx, p, Z3_mk_string_symbol(ctx, "rlimit"), (unsigned)gRlimit);
  Z3_solver_set_params(ctx, solver, p); Z3_params_dec_ref(ctx, p);
  bv8 = Z3_mk_bv_sort(ctx, 8); Z3_inc_ref(ctx, Z3_sort_to_ast(ctx, bv8));
}
static Z3_ast zBool(const E* e);
static Z3_ast conv(const E* e); // bit-vector of width w (w==1 as bv1)
static std::vector<const E*> zcached;
static Z3_ast keep(const E* e, Z3_ast z) { Z3_inc_ref(ctx, z); e->z = z; return z; }
static Z3_ast bool2bv(Z3_ast b) { static Z3_ast one = 0, zero = 0; if (!one) { Z3_sort s = Z3_mk_bv_sort(ctx, 1); one = Z3_mk_unsigned_int64(ctx, 1, s); Z3_inc_ref(ctx, one); zero = Z3_mk_unsigned_int64(ctx, 0, s); Z3_inc_ref(ctx, zero); } return Z3_mk_ite(ctx, b, one, zero); }
// Width-1 expressions are represented as z3 Booleans in e->z; everything else as bit-vectors.
static Z3_ast zBool(const E* e) {
  if (e->z) return (Z3_ast)e->z; Z3_ast r;
  switch (e->k) {
    case E_CONST: r = e->lo ? Z3_mk_true(ctx) : Z3_mk_false(ctx); break;
    case E_NOT: r = Z3_mk_not(ctx, zBool(e->a)); break;
    case E_AND: { Z3_ast x[2] = {zBool(e->a), zBool(e->b)}; r = Z3_mk_and(ctx, 2, x); break; }
    case E_OR: { Z3_ast x[2] = {zBool(e->a), zBool(e->b)}; r = Z3_mk_or(ctx, 2, x); break; }
    case E_XOR: case E_ADD: case E_SUB: r = Z3_mk_xor(ctx, zBool(e->a), zBool(e->b)); break;
    case E_MUL: { Z3_ast x[2] = {zBool(e->a), zBool(e->b)}; r = Z3_mk_and(ctx, 2, x); break; }
    case E_EQ: r = Z3_mk_eq(ctx, e->a->w == 1 ? zBool(e->a) : conv(e->a), e->a->w == 1 ? zBool(e->b) : conv(e->b)); break;
    case E_ULT: r = Z3_mk_bvult(ctx, conv(e->a), conv(e->b)); break; case E_ULE: r = Z3_mk_bvule(ctx, conv(e->a), conv(e->b)); break;
    case E_SLT: r = Z3_mk_bvslt(ctx, conv(e->a), conv(e->b)); break; case E_SLE: r = Z3_mk_bvsle(ctx, conv(e->a), conv(e->b)); break;
    case E_ITE: r = Z3_mk_ite(ctx, zBool(e->a), zBool(e->b), zBool(e->c)); break;
    case E_EXTRACT: { Z3_ast x = Z3_mk_extract(ctx, (unsigned)e->lo, (unsigned)e->lo, conv(e->a)); r = Z3_mk_eq(ctx, x, Z3_mk_unsigned_int64(ctx, 1, Z3_mk_bv_sort(ctx, 1))); break; }
    default: fprintf(stderr, "zBool kind %d\n", e->k); exit(3);
  }
  return keep(e, r);
}
static Z3_ast bvOf(const E* e) { return e->w == 1 ? bool2bv(zBool(e)) : conv(e); }
static Z3_ast conv(const E* e) {
  if (e->w == 1) return bool2bv(zBool(e));
  if (e->z) return (Z3_ast)e->z; Z3_ast r;
  switch (e->k) {
    case E_CONST: { Z3_sort s = Z3_mk_bv_sort(ctx, e->w); if (e->w <= 64) r = Z3_mk_unsigned_int64(ctx, e->lo, s); else { Z3_ast h = Z3_mk_unsigned_int64(ctx, e->hi, Z3_mk_bv_sort(ctx, e->w - 64)), l = Z3_mk_unsigned_int64(ctx, e->lo, Z3_mk_bv_sort(ctx, 64)); r = Z3_mk_concat(ctx, h, l); } break; }
    case E_VAR: { char n[16]; snprintf(n, 16, "v%lu", (unsigned long)e->lo); r = Z3_mk_const(ctx, Z3_mk_string_symbol(ctx, n), bv8); zvar[e->lo] = r; break; }
    case E_NOT: r = Z3_mk_bvnot(ctx, conv(e->a)); break;
    case E_AND: r = Z3_mk_bvand(ctx, conv(e->a), conv(e->b)); break; case E_OR: r = Z3_mk_bvor(ctx, conv(e->a), conv(e->b)); break; case E_XOR: r = Z3_mk_bvxor(ctx, conv(e->a), conv(e->b)); break;
    case E_ADD: r = Z3_mk_bvadd(ctx, conv(e->a), conv(e->b)); break; case E_SUB: r = Z3_mk_bvsub(ctx, conv(e->a), conv(e->b)); break; case E_MUL: r = Z3_mk_bvmul(ctx, conv(e->a), conv(e->b)); break;
    case E_UDIV: r = Z3_mk_bvudiv(ctx, conv(e->a), conv(e->b)); break; case E_SDIV: r = Z3_mk_bvsdiv(ctx, conv(e->a), conv(e->b)); break;
    case E_UREM: r = Z3_mk_bvurem(ctx, conv(e->a), conv(e->b)); break; case E_SREM: r = Z3_mk_bvsrem(ctx, conv(e->a), conv(e->b)); break;
    case E_SHL: r = Z3_mk_bvshl(ctx, conv(e->a), conv(e->b)); break; case E_LSHR: r = Z3_mk_bvlshr(ctx, conv(e->a), conv(e->b)); break; case E_ASHR: r = Z3_mk_bvashr(ctx, conv(e->a), conv(e->b)); break;
    case E_CONCAT: r = Z3_mk_concat(ctx, bvOf(e->a), bvOf(e->b)); break;
    case E_EXTRACT: r = Z3_mk_extract(ctx, (unsigned)(e->lo + e->w - 1), (unsigned)e->lo, conv(e->a)); break;
    case E_ZEXT: r = Z3_mk_zero_ext(ctx, e->w - e->a->w, bvOf(e->a)); break; case E_SEXT: r = Z3_mk_sign_ext(ctx, e->w - e->a->w, bvOf(e->a)); break;
    case E_ITE: r = Z3_mk_ite(ctx, zBool(e->a), conv(e->b), conv(e->c)); break;
    default: fprintf(stderr, "conv kind %d\n", e->k); exit(3);
  }
  return keep(e, r);
}

void PathCons::add(const E* c) {
  if (c->k == E_CONST) return;
  if (c->k == E_AND && c->w == 1) { add(c->a); add(c->b); return; }
  all.push_back(c);
  if (c->svar >= 0) { if ((int)dom.size() <= c->svar) dom.resize(c->svar + 1, Bits256::full()); dom[c->svar] = dom[c->svar] & truth(c); }
  else { multi.push_back(c); linked.orWith(*c->vars); }
}

// truth of a boolean as far as the domains of its variables tell: 1, 0 or -1
static int known(const PathCons& pc, const E* c) {
  if (c->k == E_CONST) return (int)c->lo;
  if (c->svar < 0 || c->svar >= (int)pc.dom.size()) return -1;
  const Bits256 &d = pc.dom[c->svar], &t = truth(c);
  if (!(d & t).any()) return 0; if (!d.andNot(t).any()) return 1; return -1;
}
const E* simplify(const PathCons& pc, const E* c, int depth) {
  if (c->svar >= 0) { int k = known(pc, c); return k < 0 ? c : eConst(k, 1); }
  if (depth == 0 || c->w != 1) return c;
  if (c->k == E_NOT) { const E* a = simplify(pc, c->a, depth - 1); return a == c->a ? c : eNot(a); }
  if (c->k == E_AND || c->k == E_OR || c->k == E_XOR) {
    const E *a = simplify(pc, c->a, depth - 1), *b = simplify(pc, c->b, depth - 1); return a == c->a && b == c->b ? c : eBin(c->k, a, b); }
  if (c->k == E_ITE) { const E *a = simplify(pc, c->a, depth - 1); if (a->k == E_CONST) return simplify(pc, a->lo ? c->b : c->c, depth - 1); return c; }
  return c;
}
// the first leaf of an and/or/not tree that has nothing but single-variable leaves (at most `budget`)
const E* splitLeaf(const E* c, int& budget) {
  if (c->svar >= 0) return budget-- > 0 ? c : nullptr;
  if (c->w != 1) return nullptr;
  if (c->k == E_NOT) return splitLeaf(c->a, budget);
  if (c->k == E_AND || c->k == E_OR || c->k == E_XOR) { const E* a = splitLeaf(c->a, budget); if (!a) return nullptr; return splitLeaf(c->b, budget) ? a : nullptr; }
  return nullptr;
}

struct QC { Res r; std::vector<std::pair<int, uint8_t>> m; };
static std::unordered_map<std::string, QC> qcache;

static Res runZ3(const std::vector<const E*>& cs, const VarBits& vs, std::vector<std::pair<int, uint8_t>>& out) {
  auto t0 = std::chrono::steady_clock::now(); gSS.z3++;
  Z3_solver_push(ctx, solver); for (auto c : cs) Z3_solver_assert(ctx, solver, zBool(c));
  Z3_lbool lb = Z3_solver_check(ctx, solver); Res r = lb == Z3_L_TRUE ? SAT : lb == Z3_L_FALSE ? UNSAT : UNKNOWN;
  if (r == SAT) {
    gSS.z3sat++; Z3_model m = Z3_solver_get_model(ctx, solver); Z3_model_inc_ref(ctx, m);
    for (int i = 0; i < MAXVARS; i++) if (vs.get(i)) { Z3_ast v = conv(eVar(i)), o; uint64_t x = 0; if (Z3_model_eval(ctx, m, v, true, &o)) { Z3_get_numeral_uint64(ctx, o, &x); } out.push_back({i, (uint8_t)x}); }
    Z3_model_dec_ref(ctx, m);
  } else if (r == UNSAT) gSS.z3unsat++; else gSS.z3unknown++;
  Z3_solver_pop(ctx, solver, 1);
  gSS.secs += std::chrono::duration<double>(std::chrono::steady_clock::now() - t0).count();
  return r;
}
Res z3Full(const PathCons& pc, const E* cond, std::vector<uint8_t>* model) {
  std::vector<const E*> cs(pc.all); if (cond && cond->k != E_CONST) cs.push_back(cond); else if (cond && !cond->lo) return UNSAT;
  VarBits vs; for (auto c : cs) vs.orWith(*c->vars); std::vector<std::pair<int, uint8_t>> out; Res r = runZ3(cs, vs, out);
  if (r == SAT && model) { *model = pc.model; for (auto& p : out) { if ((int)model->size() <= p.first) model->resize(p.first + 1, 0); (*model)[p.first] = p.second; } }
  return r;
}
Res mayBe(const PathCons& pc, const E* cond, std::vector<uint8_t>* model) {
  if (cond->k == E_CONST) { if (cond->lo && model) *model = pc.model; return cond->lo ? SAT : UNSAT; }
  if (!gNoFast && cond->svar >= 0) {
    int v = cond->svar; Bits256 d = v < (int)pc.dom.size() ? pc.dom[v] : Bits256::full(); Bits256 t = d & truth(cond); Res fr = UNKNOWN;
    if (!t.any()) fr = UNSAT;
    else if (!pc.linked.get(v)) { fr = SAT; if (model) { *model = pc.model; if ((int)model->size() <= v) model->resize(v + 1, 0); if (!t.get((*model)[v])) (*model)[v] = t.first(); } }
    if (fr != UNKNOWN) {
      gSS.fast++;
      if ((gSS.fast & 1023) == 1) { std::vector<uint8_t> mm; Res zr = z3Full(pc, cond, &mm); gSS.audit++; if (zr != UNKNOWN && zr != fr) { gSS.auditBad++; fprintf(stderr, "AUDIT mismatch\n"); exit(3); } }
      return fr;
    }
  }
  if (evalModel(cond, pc.model)) { gSS.modelHit++; if (model) *model = pc.model; return SAT; }
  // independent slice
  VarBits vs = *cond->vars; std::vector<const E*> cs; cs.push_back(cond);
  if (!pc.multi.empty()) { std::vector<char> in(pc.multi.size(), 0); bool ch = true; while (ch) { ch = false; for (size_t i = 0; i < pc.multi.size(); i++) if (!in[i] && pc.multi[i]->vars->inter(vs)) { in[i] = 1; vs.orWith(*pc.multi[i]->vars); ch = true; } } for (size_t i = 0; i < pc.multi.size(); i++) if (in[i]) cs.push_back(pc.multi[i]); }
  if (!gNoFast) { // few values left for the variables involved: decide over the product of their domains
    uint64_t prod = 1; std::vector<int> vv;
    for (int i = 0; i < MAXVARS && prod <= 1024; i++) if (vs.get(i)) { prod *= i < (int)pc.dom.size() ? pc.dom[i].count() : 256; vv.push_back(i); }
    if (prod <= 1024) {
      std::vector<uint8_t> m = pc.model; Res fr = UNSAT; std::vector<Bits256> d; for (int i : vv) { if ((int)m.size() <= i) m.resize(i + 1, 0); d.push_back(i < (int)pc.dom.size() ? pc.dom[i] : Bits256::full()); m[i] = d.back().first(); }
      if (prod > 0) for (;;) {
        bool ok = true; gEpoch++; for (auto c : cs) if (!ev(c, m)) { ok = false; break; }
        if (ok) { fr = SAT; break; }
        size_t k = 0; for (; k < vv.size(); k++) { int x = m[vv[k]] + 1; while (x < 256 && !d[k].get(x)) x++; if (x < 256) { m[vv[k]] = x; break; } m[vv[k]] = d[k].first(); }
        if (k == vv.size()) break;
      }
      gSS.fast++; gSS.small++;
      if ((gSS.small & 1023) == 1) { std::vector<uint8_t> mm; Res zr = z3Full(pc, cond, &mm); gSS.audit++; if (zr != UNKNOWN && zr != fr) { gSS.auditBad++; fprintf(stderr, "AUDIT mismatch\n"); exit(3); } }
      if (fr == SAT && model) *model = m;
      return fr;
    }
  }
  for (auto c : pc.all) if (c->svar >= 0 && vs.get(c->svar)) cs.push_back(c);
  std::sort(cs.begin(), cs.end(), [](const E* a, const E* b) { return a->id < b->id; }); cs.erase(std::unique(cs.begin(), cs.end()), cs.end());
  std::string key; key.reserve(cs.size() * 4); for (auto c : cs) key.append((const char*)&c->id, 4);
  auto it = qcache.find(key);
  if (it == qcache.end()) { QC q; q.r = runZ3(cs, vs, q.m); it = qcache.emplace(std::move(key), std::move(q)).first; } else gSS.cacheHit++;
  if (it->second.r == SAT && model) { *model = pc.model; for (auto& p : it->second.m) { if ((int)model->size() <= p.first) model->resize(p.first + 1, 0); (*model)[p.first] = p.second; } }
  return it->second.r;
}
