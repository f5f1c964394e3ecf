// Models of everything below the Rust code: LLVM intrinsics, allocator, C library, threads, an in-memory file
// system, and the harness interface (vf_*).
#include "exec.h"
#include <cmath>
#include <algorithm>
using std::string; using std::vector;

typedef Exec X_; typedef State S_;
static inline uint64_t mask(uint32_t w) { return w >= 64 ? ~0ull : (1ull << w) - 1; }
static inline const E* toE(const V& v, uint32_t w) { return v.e ? v.e : eConst(v.c, w, v.h); }
static inline V fromE(const E* e) { V v; if (e->k == E_CONST) { v.c = e->lo; v.h = e->hi; } else v.e = e; return v; }
static inline V cv(uint64_t c) { V v; v.c = c; return v; }
static V* argp(X_& X, S_& s, Inst& I, size_t i) { Opnd o = I.args[i]; return o >= 0 ? &s.top()->r[o] : &s.top()->f->consts[~o]; }
static bool AC(X_& X, S_& s, Inst& I, size_t i, uint64_t& out, uint64_t limit = 300) { return X.conc(s, I.args[i], I.argtys[i]->width(), out, limit); }
#define ARG(i, name) uint64_t name; if (!AC(X, s, I, i, name)) return 1
#define RES(v) (s.top()->r[I.dst] = (v))
#define RETC(c) do { if (I.ty->k != T_VOID) RES(cv(c)); return 0; } while (0)
static uint64_t errnoAddr(X_& X, S_& s) { if (!s.T().errnoAddr) s.T().errnoAddr = X.alloc(s, 8, 8); return s.T().errnoAddr; }
static int fail(X_& X, S_& s, Inst& I, int e) { X.storeInt(s, errnoAddr(X, s), e, 4); RES(cv((uint64_t)-1 & mask(I.ty->width()))); return 0; }
static int stop(X_& X, S_& s, End e, const string& m) { X.end(&s, e, m); X.dead = true; return 1; }

// ------------------------------------------------------------ LLVM intrinsics
static int i_nop(X_& X, S_& s, Inst& I) { return 0; }
static int i_first(X_& X, S_& s, Inst& I) { V* a = argp(X, s, I, 0); for (uint32_t i = 0; i < I.ty->slots; i++) s.top()->r[I.dst + i] = a[i]; return 0; }
static int i_zero(X_& X, S_& s, Inst& I) { for (uint32_t i = 0; i < I.ty->slots; i++) s.top()->r[I.dst + i] = V{}; return 0; }
static int i_memcpy(X_& X, S_& s, Inst& I) { ARG(2, n); ARG(0, d); ARG(1, sr); if (n && (!X.mapped(s, d, n) || !X.mapped(s, sr, n))) return stop(X, s, END_UNSUP, "memcpy outside mapped memory"); X.copy(s, d, sr, n); if (I.ty->k == T_PTR) RES(cv(d)); return 0; }
static int i_memset(X_& X, S_& s, Inst& I) { ARG(2, n); ARG(0, d); V b = *argp(X, s, I, 1); if (b.e && b.e->w > 8) b = fromE(eExtract(b.e, 0, 8)); if (n && !X.mapped(s, d, n)) return stop(X, s, END_UNSUP, "memset outside mapped memory");
  if (!b.e && n >= 64) { uint64_t i = 0; while (i < n) { uint64_t a = d + i, o = a & (PG - 1), c = std::min(n - i, PG - o); Page* p = s.mem.writable(a, &X.base); memset(p->d + o, (int)b.c, c); if (p->sym) memset((void*)(p->sym + o), 0, c * sizeof(E*)); i += c; } }
  else for (uint64_t i = 0; i < n; i++) X.storeByte(s, d + i, b);
  if (I.ty->k == T_PTR) RES(cv(d)); return 0; }
template <class F> static int un(X_& X, S_& s, Inst& I, F f) { Type* et = I.ty->k == T_VECTOR ? I.ty->el : I.ty; uint32_t w = et->width(); V* a = argp(X, s, I, 0); vector<V> o(I.ty->slots); for (uint32_t i = 0; i < I.ty->slots; i++) o[i] = f(a[i], w); for (uint32_t i = 0; i < I.ty->slots; i++) s.top()->r[I.dst + i] = o[i]; return 0; }
template <class F> static int bin(X_& X, S_& s, Inst& I, F f) { Type* et = I.ty->k == T_VECTOR ? I.ty->el : I.ty; uint32_t w = et->width(); V *a = argp(X, s, I, 0), *b = argp(X, s, I, 1); vector<V> o(I.ty->slots); for (uint32_t i = 0; i < I.ty->slots; i++) o[i] = f(a[i], b[i], w); for (uint32_t i = 0; i < I.ty->slots; i++) s.top()->r[I.dst + i] = o[i]; return 0; }
static V ctpop(const V& a, uint32_t w) { if (!a.e) return cv(__builtin_popcountll(a.c) + __builtin_popcountll(a.h)); const E* r = eConst(0, w); for (uint32_t i = 0; i < w; i++) r = eBin(E_ADD, r, eZext(eExtract(a.e, i, 1), w)); return fromE(r); }
static V cttz(const V& a, uint32_t w) { if (!a.e) { for (uint32_t i = 0; i < w; i++) if (i < 64 ? a.c >> i & 1 : a.h >> (i - 64) & 1) return cv(i); return cv(w); } const E* r = eConst(w, w); for (int i = (int)w - 1; i >= 0; i--) r = eIte(eExtract(a.e, i, 1), eConst(i, w), r); return fromE(r); }
static V ctlz(const V& a, uint32_t w) { if (!a.e) { for (int i = (int)w - 1; i >= 0; i--) if (i < 64 ? a.c >> i & 1 : a.h >> (i - 64) & 1) return cv(w - 1 - i); return cv(w); } const E* r = eConst(w, w); for (uint32_t i = 0; i < w; i++) r = eIte(eExtract(a.e, i, 1), eConst(w - 1 - i, w), r); return fromE(r); }
static V bswap(const V& a, uint32_t w) { const E* e = toE(a, w); const E* r = nullptr; for (uint32_t i = 0; i < w / 8; i++) { const E* b = eExtract(e, i * 8, 8); r = r ? eConcat(r, b) : b; } return fromE(r); }
static V bitrev(const V& a, uint32_t w) { const E* e = toE(a, w); const E* r = nullptr; for (uint32_t i = 0; i < w; i++) { const E* b = eExtract(e, i, 1); r = r ? eConcat(r, b) : b; } return fromE(r); }
static int i_ctpop(X_& X, S_& s, Inst& I) { return un(X, s, I, ctpop); }
static int i_cttz(X_& X, S_& s, Inst& I) { return un(X, s, I, cttz); }
static int i_ctlz(X_& X, S_& s, Inst& I) { return un(X, s, I, ctlz); }
static int i_bswap(X_& X, S_& s, Inst& I) { return un(X, s, I, bswap); }
static int i_bitrev(X_& X, S_& s, Inst& I) { return un(X, s, I, bitrev); }
static int i_abs(X_& X, S_& s, Inst& I) { return un(X, s, I, [](const V& a, uint32_t w) { const E* e = toE(a, w); return fromE(eIte(eCmp(E_SLT, e, eConst(0, w)), eBin(E_SUB, eConst(0, w), e), e)); }); }
#define MM(NAME, K, SWAP) static int NAME(X_& X, S_& s, Inst& I) { return bin(X, s, I, [](const V& a, const V& b, uint32_t w) { const E *x = toE(a, w), *y = toE(b, w); return fromE(SWAP ? eIte(eCmp(K, x, y), y, x) : eIte(eCmp(K, x, y), x, y)); }); }
MM(i_umin, E_ULT, 0) MM(i_umax, E_ULT, 1) MM(i_smin, E_SLT, 0) MM(i_smax, E_SLT, 1)
// saturating / overflow arithmetic through one extra-wide computation
static const E* wide(const E* a, uint32_t w, bool sg) { return sg ? eSext(a, w) : eZext(a, w); }
static int arith(X_& X, S_& s, Inst& I, EK k, bool sg, bool sat) {
  Type* et = sat ? I.ty : I.argtys[0]; if (et->k == T_VECTOR) { // vector saturating: element-wise
    if (!sat) return stop(X, s, END_UNSUP, "vector overflow intrinsic"); et = et->el; }
  uint32_t w = et->width(), n = sat ? I.ty->slots : 1; V *a = argp(X, s, I, 0), *b = argp(X, s, I, 1); vector<V> out(n); V ov;
  for (uint32_t i = 0; i < n; i++) {
    if (!a[i].e && !b[i].e && w <= 64) {
      __int128 x = sg ? (__int128)((int64_t)(a[i].c << (64 - w)) >> (64 - w)) : (__int128)a[i].c, y = sg ? (__int128)((int64_t)(b[i].c << (64 - w)) >> (64 - w)) : (__int128)b[i].c, z;
      if (k == E_MUL && !sg) { u128 p = (u128)a[i].c * b[i].c; out[i].c = (uint64_t)p & mask(w); ov.c = (p >> w) != 0; if (sat && ov.c) out[i].c = mask(w); continue; }
      z = k == E_ADD ? x + y : k == E_SUB ? x - y : x * y; __int128 lo = sg ? -((__int128)1 << (w - 1)) : 0, hi = sg ? ((__int128)1 << (w - 1)) - 1 : ((__int128)1 << w) - 1; ov.c = z < lo || z > hi; if (sat) z = z < lo ? lo : z > hi ? hi : z; out[i].c = (uint64_t)z & mask(w); continue;
    }
    uint32_t W = k == E_MUL ? 2 * w : w + 1; 
    if (k == E_MUL && W > 128) return stop(X, s, END_UNSUP, "wide symbolic multiply");
    const E *x = toE(a[i], w), *y = toE(b[i], w); const E* r = eBin(k, x, y); const E* o;
    if (!sg && k == E_ADD) o = eCmp(E_ULT, r, x); else if (!sg && k == E_SUB) o = eCmp(E_ULT, x, y);
    else if (!sg && k == E_MUL && !b[i].e) o = b[i].c == 0 ? eConst(0, 1) : eCmp(E_ULT, eConst(mask(w) / b[i].c, w), x);
    else if (!sg && k == E_MUL && !a[i].e) o = a[i].c == 0 ? eConst(0, 1) : eCmp(E_ULT, eConst(mask(w) / a[i].c, w), y);
    else if (sg && k != E_MUL) { const E *sx = eExtract(x, w - 1, 1), *sy = eExtract(y, w - 1, 1), *sr = eExtract(r, w - 1, 1); o = eBin(E_AND, k == E_ADD ? eCmp(E_EQ, sx, sy) : eNot(eCmp(E_EQ, sx, sy)), eNot(eCmp(E_EQ, sr, sx))); }
    else { const E* z = eBin(k, wide(x, W, sg), wide(y, W, sg)); r = eExtract(z, 0, w); o = eNot(eCmp(E_EQ, wide(r, W, sg), z)); }
    if (sat) { const E* lim = !sg ? eConst(k == E_SUB ? 0 : mask(w), w) : eIte(eExtract(x, w - 1, 1), eConst(1ull << (w - 1), w), eConst(mask(w - 1), w)); r = eIte(o, lim, r); }
    out[i] = fromE(r); ov = fromE(o);
  }
  for (uint32_t i = 0; i < n; i++) s.top()->r[I.dst + i] = out[i]; if (!sat) s.top()->r[I.dst + 1] = ov; return 0;
}
#define AR(NAME, K, SG, SAT) static int NAME(X_& X, S_& s, Inst& I) { return arith(X, s, I, K, SG, SAT); }
AR(i_uaddo, E_ADD, 0, 0) AR(i_saddo, E_ADD, 1, 0) AR(i_usubo, E_SUB, 0, 0) AR(i_ssubo, E_SUB, 1, 0) AR(i_umulo, E_MUL, 0, 0) AR(i_smulo, E_MUL, 1, 0)
AR(i_uadds, E_ADD, 0, 1) AR(i_sadds, E_ADD, 1, 1) AR(i_usubs, E_SUB, 0, 1) AR(i_ssubs, E_SUB, 1, 1)
static int fsh(X_& X, S_& s, Inst& I, bool left) { Type* et = I.ty->k == T_VECTOR ? I.ty->el : I.ty; uint32_t w = et->width(); vector<V> out(I.ty->slots); V *a = argp(X, s, I, 0), *b = argp(X, s, I, 1), *c = argp(X, s, I, 2);
  for (uint32_t i = 0; i < I.ty->slots; i++) {
    if (c[i].e) { uint64_t d; if (I.ty->slots > 1) return stop(X, s, END_UNSUP, "symbolic vector funnel shift"); if (!AC(X, s, I, 2, d)) return 1; c = argp(X, s, I, 2); a = argp(X, s, I, 0); b = argp(X, s, I, 1); }
    uint32_t k = c[i].c % w; const E *x = toE(a[i], w), *y = toE(b[i], w); if (k == 0) { out[i] = left ? a[i] : b[i]; continue; }
    const E* cat = left ? eConcat(eExtract(x, 0, w - k), eExtract(y, w - k, k)) : eConcat(eExtract(x, 0, k), eExtract(y, k, w - k)); out[i] = fromE(cat); }
  for (uint32_t i = 0; i < I.ty->slots; i++) s.top()->r[I.dst + i] = out[i]; return 0; }
static int i_fshl(X_& X, S_& s, Inst& I) { return fsh(X, s, I, true); }
static int i_fshr(X_& X, S_& s, Inst& I) { return fsh(X, s, I, false); }
static int cmp3(X_& X, S_& s, Inst& I, EK k) { V *a = argp(X, s, I, 0), *b = argp(X, s, I, 1); uint32_t w = I.argtys[0]->width(), d = I.ty->width(); const E *x = toE(*a, w), *y = toE(*b, w); RES(fromE(eIte(eCmp(k, x, y), eConst(mask(d), d), eIte(eCmp(E_EQ, x, y), eConst(0, d), eConst(1, d))))); return 0; }
static int i_ucmp(X_& X, S_& s, Inst& I) { return cmp3(X, s, I, E_ULT); }
static int i_scmp(X_& X, S_& s, Inst& I) { return cmp3(X, s, I, E_SLT); }
static int i_ptrmask(X_& X, S_& s, Inst& I) { V *a = argp(X, s, I, 0), *b = argp(X, s, I, 1); RES(fromE(eBin(E_AND, toE(*a, 64), toE(*b, 64)))); return 0; }
template <class F> static int reduce(X_& X, S_& s, Inst& I, F f) { Type* t = I.argtys[0]; uint32_t w = t->el->width(); V* a = argp(X, s, I, 0); const E* r = toE(a[0], w); for (uint32_t i = 1; i < t->slots; i++) r = f(r, toE(a[i], w)); RES(fromE(r)); return 0; }
#define RED(NAME, EX) static int NAME(X_& X, S_& s, Inst& I) { return reduce(X, s, I, [](const E* a, const E* b) { return EX; }); }
RED(i_radd, eBin(E_ADD, a, b)) RED(i_rand, eBin(E_AND, a, b)) RED(i_ror, eBin(E_OR, a, b)) RED(i_rxor, eBin(E_XOR, a, b)) RED(i_rmul, eBin(E_MUL, a, b))
RED(i_rumax, eIte(eCmp(E_ULT, a, b), b, a)) RED(i_rumin, eIte(eCmp(E_ULT, a, b), a, b)) RED(i_rsmax, eIte(eCmp(E_SLT, a, b), b, a)) RED(i_rsmin, eIte(eCmp(E_SLT, a, b), a, b))
// floating point, concrete only
static double getd(uint64_t c, Type* t) { if (t->k == T_F32) { uint32_t q = (uint32_t)c; float f; memcpy(&f, &q, 4); return f; } double d; memcpy(&d, &c, 8); return d; }
static uint64_t putd(double d, Type* t) { uint64_t c = 0; if (t->k == T_F32) { float f = (float)d; memcpy(&c, &f, 4); } else memcpy(&c, &d, 8); return c; }
static int fl1(X_& X, S_& s, Inst& I, double (*f)(double)) { if (I.ty->k == T_VECTOR) return stop(X, s, END_UNSUP, "vector float intrinsic"); ARG(0, a); RES(cv(putd(f(getd(a, I.ty)), I.ty))); return 0; }
static int fl2(X_& X, S_& s, Inst& I, double (*f)(double, double)) { if (I.ty->k == T_VECTOR) return stop(X, s, END_UNSUP, "vector float intrinsic"); ARG(0, a); ARG(1, b); RES(cv(putd(f(getd(a, I.ty), getd(b, I.ty)), I.ty))); return 0; }
#define F1(N, F) static int i_##N(X_& X, S_& s, Inst& I) { return fl1(X, s, I, [](double x) -> double { return F; }); }
F1(fabs, std::fabs(x)) F1(floor, std::floor(x)) F1(ceil, std::ceil(x)) F1(ftrunc, std::trunc(x)) F1(round, std::round(x)) F1(rint, std::nearbyint(x)) F1(sqrt, std::sqrt(x)) F1(log, std::log(x)) F1(log2, std::log2(x)) F1(log10, std::log10(x)) F1(exp, std::exp(x)) F1(exp2, std::exp2(x))
static int i_pow(X_& X, S_& s, Inst& I) { return fl2(X, s, I, [](double a, double b) { return std::pow(a, b); }); }
static int i_powi(X_& X, S_& s, Inst& I) { ARG(0, a); ARG(1, b); RES(cv(putd(std::pow(getd(a, I.ty), (int32_t)b), I.ty))); return 0; }
static int i_minnum(X_& X, S_& s, Inst& I) { return fl2(X, s, I, [](double a, double b) { return std::fmin(a, b); }); }
static int i_maxnum(X_& X, S_& s, Inst& I) { return fl2(X, s, I, [](double a, double b) { return std::fmax(a, b); }); }
static int i_copysign(X_& X, S_& s, Inst& I) { return fl2(X, s, I, [](double a, double b) { return std::copysign(a, b); }); }
static int i_fma(X_& X, S_& s, Inst& I) { ARG(0, a); ARG(1, b); ARG(2, c); RES(cv(putd(std::fma(getd(a, I.ty), getd(b, I.ty), getd(c, I.ty)), I.ty))); return 0; }
static int fpsat(X_& X, S_& s, Inst& I, bool sg) { ARG(0, a); double d = getd(a, I.argtys[0]); uint32_t w = I.ty->width(); uint64_t r; if (std::isnan(d)) r = 0; else if (sg) { double lo = -std::ldexp(1.0, w - 1), hi = std::ldexp(1.0, w - 1); r = d <= lo ? 1ull << (w - 1) : d >= hi ? mask(w - 1) : (uint64_t)(int64_t)d; } else r = d <= 0 ? 0 : d >= std::ldexp(1.0, w) ? mask(w) : (uint64_t)d; RES(cv(r & mask(w))); return 0; }
static int i_fptosi(X_& X, S_& s, Inst& I) { return fpsat(X, s, I, true); }
static int i_fptoui(X_& X, S_& s, Inst& I) { return fpsat(X, s, I, false); }
static int i_fpclass(X_& X, S_& s, Inst& I) { ARG(0, a); ARG(1, m); double d = getd(a, I.argtys[0]); int c = std::fpclassify(d); bool neg = std::signbit(d); uint64_t bit = c == FP_NAN ? 3 : c == FP_INFINITE ? (neg ? 4 : 512) : c == FP_NORMAL ? (neg ? 8 : 256) : c == FP_SUBNORMAL ? (neg ? 16 : 128) : (neg ? 32 : 64); RES(cv((bit & m) != 0)); return 0; }
static int i_loadrel(X_& X, S_& s, Inst& I) { ARG(0, p); ARG(1, o); V v = X.loadInt(s, p + o, 4); if (v.e) return stop(X, s, END_UNSUP, "symbolic load.relative"); RES(cv(p + (int64_t)(int32_t)v.c)); return 0; }
static int i_tls(X_& X, S_& s, Inst& I) { return i_first(X, s, I); } // the operand is the current thread's address already (Frame)
static int i_trap(X_& X, S_& s, Inst& I) { return stop(X, s, END_ABORT, "trap"); }
static int i_movmsk(X_& X, S_& s, Inst& I) { Type* t = I.argtys[0]; uint32_t w = t->el->width(); V* a = argp(X, s, I, 0); const E* r = eConst(0, 32); for (uint32_t i = 0; i < t->slots; i++) r = eBin(E_OR, r, eBin(E_SHL, eZext(eExtract(toE(a[i], w), w - 1, 1), 32), eConst(i, 32))); RES(fromE(r)); return 0; }
static int i_xsum(X_& X, S_& s, Inst& I) { // psad.bw
  V *a = argp(X, s, I, 0), *b = argp(X, s, I, 1); uint32_t g = I.ty->slots; vector<V> o(g); for (uint32_t k = 0; k < g; k++) { const E* r = eConst(0, 64); for (int j = 0; j < 8; j++) { const E *x = toE(a[k * 8 + j], 8), *y = toE(b[k * 8 + j], 8); r = eBin(E_ADD, r, eZext(eIte(eCmp(E_ULT, x, y), eBin(E_SUB, y, x), eBin(E_SUB, x, y)), 64)); } o[k] = fromE(r); } for (uint32_t k = 0; k < g; k++) s.top()->r[I.dst + k] = o[k]; return 0; }

// ------------------------------------------------------------ allocator
static int m_alloc(X_& X, S_& s, Inst& I) { ARG(0, n); ARG(1, al); if (X.trace) fprintf(stderr, "alloc %lu %lu from %s\n", n, al, s.top()->f->demangled().c_str()); if (n > 0x4000000) return stop(X, s, END_UNSUP, "allocation over 64 MB"); RES(cv(X.alloc(s, n, al ? al : 1))); return 0; }
static int m_realloc(X_& X, S_& s, Inst& I) { ARG(0, p); ARG(1, on); ARG(2, al); ARG(3, nn); if (X.trace) fprintf(stderr, "realloc %lx %lu %lu %lu from %s\n", p, on, al, nn, s.top()->f->demangled().c_str()); if (nn > 0x4000000) return stop(X, s, END_UNSUP, "allocation over 64 MB"); if (nn <= on) { RES(cv(p)); return 0; } uint64_t a = X.alloc(s, nn, al ? al : 1); X.copy(s, a, p, on); RES(cv(a)); return 0; }
static uint64_t cmalloc(X_& X, S_& s, uint64_t n) { uint64_t a = X.alloc(s, n + 16, 16); X.storeInt(s, a, n, 8); return a + 16; }
static int c_malloc(X_& X, S_& s, Inst& I) { ARG(0, n); RES(cv(cmalloc(X, s, n))); return 0; }
static int c_calloc(X_& X, S_& s, Inst& I) { ARG(0, n); ARG(1, m); RES(cv(cmalloc(X, s, n * m))); return 0; }
static int c_realloc(X_& X, S_& s, Inst& I) { ARG(0, p); ARG(1, n); uint64_t a = cmalloc(X, s, n); if (p) { V o = X.loadInt(s, p - 16, 8); X.copy(s, a, p, std::min<uint64_t>(o.c, n)); } RES(cv(a)); return 0; }
static int c_memalign(X_& X, S_& s, Inst& I) { ARG(0, pp); ARG(1, al); ARG(2, n); X.storeInt(s, pp, X.alloc(s, n, al), 8); RETC(0); }

// ------------------------------------------------------------ byte-string primitives
static bool symRange(X_& X, S_& s, uint64_t a, uint64_t n, vector<V>& out) { out.clear(); for (uint64_t i = 0; i < n; i++) out.push_back(X.loadByte(s, a + i)); return true; }
static const E* bytesEq(X_& X, S_& s, uint64_t a, uint64_t b, uint64_t n) { if (a == b) return eConst(1, 1); const E* r = eConst(1, 1); vector<std::pair<V, V>> sy; for (uint64_t i = 0; i < n; i++) { V x = X.loadByte(s, a + i), y = X.loadByte(s, b + i); if (!x.e && !y.e) { if ((uint8_t)x.c != (uint8_t)y.c) return eConst(0, 1); } else if (x.e != y.e) sy.push_back({x, y}); } for (auto& p : sy) { r = eBin(E_AND, r, eCmp(E_EQ, toE(p.first, 8), toE(p.second, 8))); if (isFalse(r)) break; } return r; }
static int c_bcmp(X_& X, S_& s, Inst& I) { ARG(2, n); ARG(0, a); ARG(1, b); const E* e = bytesEq(X, s, a, b, n); RES(fromE(eZext(eNot(e), I.ty->width()))); return 0; }
static int c_memcmp(X_& X, S_& s, Inst& I) { ARG(2, n); ARG(0, a); ARG(1, b); uint32_t w = I.ty->width(); vector<std::pair<V, V>> v; const E* r = eConst(0, w);
  for (uint64_t i = 0; i < n; i++) { V x = X.loadByte(s, a + i), y = X.loadByte(s, b + i); v.push_back({x, y}); if (!x.e && !y.e && (uint8_t)x.c != (uint8_t)y.c) break; }
  for (int i = (int)v.size() - 1; i >= 0; i--) { auto& p = v[i]; if (!p.first.e && !p.second.e) { if (p.first.c != p.second.c) r = eConst(p.first.c < p.second.c ? mask(w) : 1, w); continue; } const E *x = toE(p.first, 8), *y = toE(p.second, 8); r = eIte(eCmp(E_EQ, x, y), r, eIte(eCmp(E_ULT, x, y), eConst(mask(w), w), eConst(1, w))); }
  RES(fromE(r)); return 0; }
// position of the first (last) byte equal to c, or n: forks per feasible position
static bool findByte(X_& X, S_& s, uint64_t a, uint64_t n, const V& c, bool last, uint64_t& pos) {
  const E* ce = toE(c, 8); const E* e = eConst(n, 64); 
  if (!last) { uint64_t lim = n; for (uint64_t i = 0; i < n; i++) { V x = X.loadByte(s, a + i); if (!x.e && !c.e && (uint8_t)x.c == (uint8_t)c.c) { lim = i; e = eConst(i, 64); break; } } for (int64_t i = (int64_t)lim - 1; i >= 0; i--) { V x = X.loadByte(s, a + i); if (!x.e && !c.e) continue; e = eIte(eCmp(E_EQ, toE(x, 8), ce), eConst(i, 64), e); } }
  else { uint64_t from = 0; for (int64_t i = (int64_t)n - 1; i >= 0; i--) { V x = X.loadByte(s, a + i); if (!x.e && !c.e && (uint8_t)x.c == (uint8_t)c.c) { from = i + 1; e = eConst(i, 64); break; } } for (uint64_t i = from; i < n; i++) { V x = X.loadByte(s, a + i); if (!x.e && !c.e) continue; e = eIte(eCmp(E_EQ, toE(x, 8), ce), eConst(i, 64), e); } }
  V v = fromE(e); if (v.e && !X.concretize(s, v, 64)) return false; pos = v.c; return true; }
static int c_memchr(X_& X, S_& s, Inst& I) { ARG(0, a); ARG(2, n); V c = *argp(X, s, I, 1); if (c.e && c.e->w > 8) c = fromE(eExtract(c.e, 0, 8)); else c.c &= 255; uint64_t p; if (!findByte(X, s, a, n, c, false, p)) return 1; RES(cv(p == n ? 0 : a + p)); return 0; }
static int r_memchr(X_& X, S_& s, Inst& I, bool last) { ARG(1, a); ARG(2, n); V c = *argp(X, s, I, 0); uint64_t p; if (!findByte(X, s, a, n, c, last, p)) return 1; s.top()->r[I.dst] = cv(p != n); s.top()->r[I.dst + 1] = cv(p); return 0; }
static int r_memchr_f(X_& X, S_& s, Inst& I) { return r_memchr(X, s, I, false); }
static int r_memchr_l(X_& X, S_& s, Inst& I) { return r_memchr(X, s, I, true); }
static int c_strlen(X_& X, S_& s, Inst& I) { ARG(0, a); uint64_t n = 0, p; for (;; n++) { V v = X.loadByte(s, a + n); if (!v.e && !(v.c & 255)) break; } if (!findByte(X, s, a, n, cv(0), false, p)) return 1; RES(cv(p)); return 0; }

// ------------------------------------------------------------ hashing
static int h_hash_one(X_& X, S_& s, Inst& I) { // all keys share one bucket chain: sound for look-ups whatever the key bytes; iteration order = insertion order
  if (s.hashMode) return -1; RES(cv(0)); return 0; }
static int h_keys(X_& X, S_& s, Inst& I) { s.top()->r[I.dst] = cv(s.hashSeed * 0x9E3779B97F4A7C15ull + 1); s.top()->r[I.dst + 1] = cv(s.hashSeed * 0xC2B2AE3D27D4EB4Full + 7); return 0; }

// ------------------------------------------------------------ panics
static string readStr(X_& X, S_& s, uint64_t p, uint64_t n) { string o; for (uint64_t i = 0; i < n && i < 400; i++) { V v = X.loadByte(s, p + i); o += v.e ? '?' : (char)v.c; } return o; }
static string location(X_& X, S_& s, uint64_t loc) { if (!X.mapped(s, loc, 24)) return "?"; uint64_t p = X.loadInt(s, loc, 8).c, n = X.loadInt(s, loc + 8, 8).c, l = X.loadInt(s, loc + 16, 4).c; if (n > 300 || !X.mapped(s, p, n)) return "?"; string f = readStr(X, s, p, n); size_t k = f.rfind("/src/"); if (f.rfind("/rustc/", 0) == 0 || f.find("/registry/") != string::npos) { size_t q = f.rfind('/', k == string::npos || k == 0 ? string::npos : k - 1); if (q != string::npos) f = f.substr(q + 1); } return f + ":" + std::to_string(l); }
static string fmtArgs(X_& X, S_& s, uint64_t a) { if (!X.mapped(s, a, 48)) return "?"; uint64_t pp = X.loadInt(s, a, 8).c, pn = X.loadInt(s, a + 8, 8).c; string o; for (uint64_t i = 0; i < pn && i < 8; i++) { if (!X.mapped(s, pp + 16 * i, 16)) break; uint64_t q = X.loadInt(s, pp + 16 * i, 8).c, n = X.loadInt(s, pp + 16 * i + 8, 8).c; if (i) o += "{}"; if (n && X.mapped(s, q, n)) o += readStr(X, s, q, n); } return o; }
static string userFrame(S_& s) { for (int i = (int)s.T().st.size() - 1; i >= 0; i--) { string d = s.T().st[i]->f->demangled(); if (d.find("csvp") != string::npos && d.find("drop_in_place") == string::npos) return d; } return "?"; }
static int p_fmt(X_& X, S_& s, Inst& I) { ARG(0, a); ARG(1, loc); string m = fmtArgs(X, s, a); string l = location(X, s, loc); return stop(X, s, END_PANIC, "panic '" + m + "' in " + userFrame(s) + " @ " + l); }
static int p_nounwind(X_& X, S_& s, Inst& I) { return stop(X, s, END_PANIC, "panic (nounwind) in " + userFrame(s)); }
static int p_abort(X_& X, S_& s, Inst& I) { return stop(X, s, END_ABORT, "abort in " + userFrame(s)); }
static int p_exit(X_& X, S_& s, Inst& I) { ARG(0, c); return stop(X, s, c == 0 ? END_OK : END_ABORT, "exit(" + std::to_string((int)c) + ")"); }

// ------------------------------------------------------------ harness interface
static int v_bytes(X_& X, S_& s, Inst& I) { ARG(0, p); ARG(1, n); ARG(2, np); ARG(3, nn); if (s.nvars + n > MAXVARS) return stop(X, s, END_UNSUP, "too many symbolic bytes"); string nm = readStr(X, s, np, nn); s.inputs.push_back({nm, s.nvars, (uint32_t)n, 0, false}); for (uint64_t i = 0; i < n; i++) { V v; v.e = eVar(s.nvars++); X.storeByte(s, p + i, v); } s.pc.model.resize(s.nvars, 0); return 0; }
static int v_choice(X_& X, S_& s, Inst& I) { ARG(0, n); ARG(1, np); ARG(2, nn); string nm = readStr(X, s, np, nn); if (n == 0) return stop(X, s, END_ASSUME, "empty choice");
  if (const char* fx = getenv("VFENG_FIX")) { string f = string(",") + fx; size_t p = f.find("," + nm + "="); if (p != string::npos) { uint64_t k = strtoull(f.c_str() + p + nm.size() + 2, 0, 10); s.inputs.push_back({nm, 0, 0, k, true}); RES(cv(k)); return 0; } } // debugging aid
  for (uint64_t i = 1; i < n; i++) { State* f = X.fork(s); f->inputs.push_back({nm, 0, 0, i, true}); f->top()->r[I.dst] = cv(i); f->top()->pc++; X.work.push_back(f); }
  s.inputs.push_back({nm, 0, 0, 0, true}); RES(cv(0)); return 0; }
static const E* asBool(const V& v, uint32_t w) { return eNot(eCmp(E_EQ, toE(v, w), eConst(0, w))); }
static int v_assume(X_& X, S_& s, Inst& I) { V v = *argp(X, s, I, 0); uint32_t w = I.argtys[0]->width(); const E* e = asBool(v, w); if (isTrue(e)) return 0; if (isFalse(e)) return stop(X, s, END_ASSUME, ""); vector<uint8_t> m; Res r = mayBe(s.pc, e, &m); if (r == UNSAT) return stop(X, s, END_ASSUME, ""); if (r == UNKNOWN) return stop(X, s, END_UNKNOWN, "solver unknown at assume"); s.pc.add(e); s.pc.model = m; return 0; }
static int v_assert(X_& X, S_& s, Inst& I) { ARG(1, np); ARG(2, nn); V v = *argp(X, s, I, 0); uint32_t w = I.argtys[0]->width(); string nm = readStr(X, s, np, nn); const E* e = asBool(v, w); X.asserts[nm]++; 
  if (isTrue(e)) return 0; if (isFalse(e)) return stop(X, s, END_ASSERT, nm);
  X.assertQueries++; vector<uint8_t> m; Res r = z3Full(s.pc, eNot(e), &m); if (r == UNKNOWN) return stop(X, s, END_UNKNOWN, "solver unknown at assertion " + nm); if (r == UNSAT) return 0;
  vector<uint8_t> mt; Res t = mayBe(s.pc, e, &mt); if (t == SAT) { State* f = X.fork(s); f->pc.add(e); f->pc.model = mt; f->top()->pc++; X.work.push_back(f); }
  s.pc.add(eNot(e)); s.pc.model = m; return stop(X, s, END_ASSERT, nm); }
static int v_witness(X_& X, S_& s, Inst& I) { ARG(0, np); ARG(1, nn); string nm = readStr(X, s, np, nn); if (!X.witnesses.count(nm)) { vector<uint8_t> m; if (X.feasible(s, m)) X.witnesses.insert(nm); } return 0; }
static int v_tag(X_& X, S_& s, Inst& I) { ARG(0, np); ARG(1, nn); string nm = readStr(X, s, np, nn); if (std::find(s.tags.begin(), s.tags.end(), nm) == s.tags.end()) s.tags.push_back(nm); return 0; }
static int v_note(X_& X, S_& s, Inst& I) { ARG(0, np); ARG(1, nn); ARG(2, p); ARG(3, n); string nm = readStr(X, s, np, nn); vector<V> b; symRange(X, s, p, std::min<uint64_t>(n, 300), b); s.notes.push_back({nm, b}); return 0; }
static int v_eq(X_& X, S_& s, Inst& I) { ARG(0, a); ARG(1, an); ARG(2, b); ARG(3, bn); if (an != bn) RETC(0); RES(fromE(eZext(bytesEq(X, s, a, b, an), I.ty->width()))); return 0; }
static int v_conc(X_& X, S_& s, Inst& I) { uint64_t x; if (!AC(X, s, I, 0, x, 70000)) return 1; RES(cv(x)); return 0; }
static int v_one(X_& X, S_& s, Inst& I) { RETC(1); }
static int v_sched(X_& X, S_& s, Inst& I) { ARG(0, on); s.freeSched = on; return 0; }
static int v_hashmode(X_& X, S_& s, Inst& I) { ARG(0, m); ARG(1, sd); s.hashMode = m; s.hashSeed = sd; return 0; }
static int v_books(X_& X, S_& s, Inst& I) { ARG(0, on); s.realBooks = on; return 0; }
static int v_shown(X_& X, S_& s, Inst& I) { RETC(s.shown); }
static int v_limit(X_& X, S_& s, Inst& I) { ARG(0, n); s.limitAt = n ? s.steps + n : 0; return 0; }
static int v_clock(X_& X, S_& s, Inst& I) { ARG(0, n); s.clock += n; return 0; }

// ------------------------------------------------------------ threads
static int t_create(X_& X, S_& s, Inst& I) { ARG(0, out); ARG(2, fn); V arg = *argp(X, s, I, 3); Func* f = X.prog.funcAt(fn); if (!f) return stop(X, s, END_UNSUP, "pthread_create: bad function"); if (s.th.size() > 60) return stop(X, s, END_LIMIT, "too many threads");
  int id = s.th.size(); X.storeInt(s, out, id, 8); if (!f->decoded) X.prog.decode(f); if (!f->counted) { f->counted = true; X.execd.insert(f); }
  Frame* fr = new Frame(f, id); s.th.emplace_back(); Thread& t = s.th.back(); t.sp = t.spBase = 0x300000000ull + (uint64_t)id * 0x4000000 + 1024; fr->sp0 = t.sp; fr->r[f->paramslots[0]] = arg; t.st.push_back(fr); RES(cv(0));
  return 0; }
static int t_join(X_& X, S_& s, Inst& I) { ARG(0, id); if (id >= s.th.size()) return stop(X, s, END_UNSUP, "join: bad thread"); if (s.th[id].status == TH_DONE) RETC(0); RES(cv(0)); s.top()->pc++; s.T().status = TH_JOIN; s.T().waitOn = id; if (!X.schedule(s, false)) return 1; return 3; }
static int t_self(X_& X, S_& s, Inst& I) { RETC(s.cur); }
static int t_yield(X_& X, S_& s, Inst& I) { RES(cv(0)); bool other = false; for (size_t i = 0; i < s.th.size(); i++) if ((int)i != s.cur && s.th[i].status == TH_RUN) other = true; if (!other) return 0; s.top()->pc++; if (!X.schedule(s, false)) return 1; return 3; }
static int c_syscall(X_& X, S_& s, Inst& I) { ARG(0, nr);
  if (nr == 202) { ARG(1, a); ARG(2, op); ARG(3, val); op &= 127;
    if (op == 0 || op == 9) { ARG(4, to); V cur = X.loadInt(s, a, 4); if (cur.e) return stop(X, s, END_UNSUP, "symbolic futex"); if ((uint32_t)cur.c != (uint32_t)val) return fail(X, s, I, 11); if (to) return fail(X, s, I, 110);
      RES(cv(0)); s.top()->pc++; s.T().status = TH_FUTEX; s.T().waitOn = a; if (!X.schedule(s, false)) return 1; return 3; }
    if (op == 1 || op == 10) { uint64_t n = 0; for (auto& t : s.th) if (t.status == TH_FUTEX && t.waitOn == a && n < (uint32_t)val) { t.status = TH_RUN; n++; } RES(cv(n)); return 0; }
    return fail(X, s, I, 38); }
  if (nr == 318) { ARG(1, p); ARG(2, n); for (uint64_t i = 0; i < n; i++) X.storeInt(s, p + i, (i * 37 + 11) & 255, 1); RES(cv(n)); return 0; }
  if (nr == 186) RETC(s.cur + 1);
  return fail(X, s, I, 38); }
static int c_keycreate(X_& X, S_& s, Inst& I) { ARG(0, p); V one; one.c = 1; for (int k = 0; k < 4; k++) { V z; z.c = k == 0; X.storeByte(s, p + k, z); } return i_zero(X, s, I); }
static int c_errno(X_& X, S_& s, Inst& I) { RES(cv(errnoAddr(X, s))); return 0; }
static int c_clock(X_& X, S_& s, Inst& I) { ARG(1, p); s.clock++; X.storeInt(s, p, s.clock, 8); X.storeInt(s, p + 8, 0, 8); RETC(0); }
static int c_sysconf(X_& X, S_& s, Inst& I) { ARG(0, k); RETC(k == 30 ? 4096 : k == 84 ? 1 : k == 83 ? 1 : (uint64_t)-1); }
static int c_affinity(X_& X, S_& s, Inst& I) { ARG(1, n); ARG(2, p); for (uint64_t i = 0; i < n; i++) X.storeInt(s, p + i, i == 0, 1); RETC(0); }
static int c_minus1(X_& X, S_& s, Inst& I) { return fail(X, s, I, 38); }
static int c_enotty(X_& X, S_& s, Inst& I) { X.storeInt(s, errnoAddr(X, s), 25, 4); RETC(0); }

// ------------------------------------------------------------ file system (in memory)
static string norm(const string& p0) { string p = p0; if (p.empty() || p[0] != '/') p = "/w/" + p; vector<string> parts; size_t i = 0; while (i < p.size()) { size_t j = p.find('/', i); if (j == string::npos) j = p.size(); string c = p.substr(i, j - i); if (c == "..") { if (!parts.empty()) parts.pop_back(); } else if (!c.empty() && c != ".") parts.push_back(c); i = j + 1; } string o; for (auto& c : parts) o += "/" + c; return o.empty() ? "/" : o; }
static bool isDir(S_& s, const string& p) { if (p == "/" || p == "/w") return true; auto it = s.fs.find(p); return it != s.fs.end() && it->second->dir; }
static bool exists(S_& s, const string& p) { return isDir(s, p) || s.fs.count(p); }
static VFile* wf(S_& s, const string& p) { auto& sp = s.fs[p]; if (!sp) sp = std::make_shared<VFile>(); else if (sp.use_count() > 1) sp = std::make_shared<VFile>(*sp); return sp.get(); }
static void touch(S_& s, VFile* f) { s.clock++; f->ms = cv(s.clock); f->mn = V{}; }
static string parent(const string& p) { size_t k = p.rfind('/'); return k == 0 ? "/" : p.substr(0, k); }
static bool path(X_& X, S_& s, uint64_t a, string& out) { string p; if (!X.cstr(s, a, p)) return false; out = norm(p); return true; }
// Injected faults (lib/shim/fault.c is the native counterpart).  Kinds: 1 the nth operation fails with this
// errno; 2 the nth operation, if it writes, only writes part (arg quarters); 3 the machine stops at the nth
// operation, which, if it writes, writes part: nothing after it has an effect; 4 the disk is full from the nth
// operation on, which, if it writes, writes part.  Returns -1 to go on, -2 to write part, or an errno.
static int fault(S_& s, const string& p, bool reads, bool writes) {
  if (!s.faultKind || p.compare(0, 2, "/w") != 0) return -1;
  if (s.faultDead) return s.faultKind == 3 ? 5 : s.faultKind == 4 && writes ? 28 : -1;
  if (s.faultReads != reads || s.faultOps++ != s.faultN) return -1;
  switch (s.faultKind) { case 1: return (int)s.faultArg; case 2: return writes ? -2 : -1; case 3: s.faultDead = true; return writes ? -2 : 5; case 4: s.faultDead = true; return writes ? -2 : -1; }
  return -1;
}
#define FAULT(p, reads) do { int e_ = fault(s, p, reads, false); if (e_ >= 0) return fail(X, s, I, e_); } while (0)
static uint64_t part(S_& s, uint64_t c) { uint64_t k = c * s.faultArg / 4; return s.faultKind == 2 && k == 0 && c ? 1 : k; }
static int f_open(X_& X, S_& s, Inst& I) { ARG(0, a); ARG(1, fl); string p; if (!path(X, s, a, p)) return 1; FAULT(p, !(fl & 3)); bool ex = exists(s, p);
  if (isDir(s, p)) { if (fl & 3) return fail(X, s, I, 21); } else if (ex) { if ((fl & 0300) == 0300) return fail(X, s, I, 17); if (fl & 01000) { VFile* f = wf(s, p); f->data.clear(); touch(s, f); } }
  else { if (!(fl & 0100)) return fail(X, s, I, 2); if (!isDir(s, parent(p))) return fail(X, s, I, 2); touch(s, wf(s, p)); }
  size_t k = 0; while (k < s.fds.size() && s.fds[k].open) k++; if (k == s.fds.size()) s.fds.emplace_back(); Fd& d = s.fds[k]; d.path = p; d.off = 0; d.flags = fl; d.open = true; RES(cv(k + 3)); return 0; }
static Fd* fdOf(S_& s, uint64_t n) { n = (uint32_t)n; if (n < 3 || n - 3 >= s.fds.size() || !s.fds[n - 3].open) return nullptr; return &s.fds[n - 3]; }
static int f_close(X_& X, S_& s, Inst& I) { ARG(0, n); Fd* d = fdOf(s, n); if (d) d->open = false; RETC(0); }
static int f_read(X_& X, S_& s, Inst& I) { ARG(0, n); ARG(1, p); ARG(2, c); if ((uint32_t)n < 3) RETC(0); Fd* d = fdOf(s, n); if (!d) return fail(X, s, I, 9); FAULT(d->path, true); auto it = s.fs.find(d->path); if (it == s.fs.end()) RETC(0); auto& dt = it->second->data; uint64_t k = 0; while (k < c && d->off < dt.size()) X.storeByte(s, p + k++, dt[d->off++]); RES(cv(k)); return 0; }
static uint64_t wr(X_& X, S_& s, Fd* d, uint64_t p, uint64_t c) { VFile* f = wf(s, d->path); if (d->flags & 02000) d->off = f->data.size(); for (uint64_t i = 0; i < c; i++) { V v = X.loadByte(s, p + i); if (d->off < f->data.size()) f->data[d->off] = v; else f->data.push_back(v); d->off++; } touch(s, f); return c; }
static int f_write(X_& X, S_& s, Inst& I) { ARG(0, n); ARG(1, p); ARG(2, c); if ((uint32_t)n < 3) { if (n == 2) s.shown += c; RETC(c); } Fd* d = fdOf(s, n); if (!d) return fail(X, s, I, 9); int e = fault(s, d->path, false, true); if (e >= 0) return fail(X, s, I, e); if (e == -2) { uint64_t k = part(s, c); if (k) wr(X, s, d, p, k); else if (s.faultKind != 2) return fail(X, s, I, s.faultKind == 3 ? 5 : 28); c = k; } else wr(X, s, d, p, c); RES(cv(c)); return 0; }
static int f_writev(X_& X, S_& s, Inst& I) { ARG(0, n); ARG(1, v); ARG(2, c); uint64_t t = 0; Fd* d = fdOf(s, n); if ((uint32_t)n >= 3 && !d) return fail(X, s, I, 9); if (d && s.faultKind) return stop(X, s, END_UNSUP, "writev with faults"); for (uint64_t i = 0; i < c; i++) { uint64_t p = X.loadInt(s, v + 16 * i, 8).c, l = X.loadInt(s, v + 16 * i + 8, 8).c; if (d) wr(X, s, d, p, l); t += l; } if ((uint32_t)n == 2) s.shown += t; RES(cv(t)); return 0; }
static int doStat(X_& X, S_& s, Inst& I, const string& p, uint64_t b) { if (!exists(s, p)) return fail(X, s, I, 2); for (int i = 0; i < 144; i++) X.storeInt(s, b + i, 0, 1); bool dir = isDir(s, p); X.storeInt(s, b + 16, 1, 8); X.storeInt(s, b + 24, dir ? 040755 : 0100644, 4); X.storeInt(s, b + 56, 4096, 8); auto it = s.fs.find(p); uint64_t h = std::hash<string>()(p); X.storeInt(s, b + 8, h, 8); if (it != s.fs.end()) { X.storeInt(s, b + 48, it->second->data.size(), 8); Type* i64 = X.prog.intT(64); X.store(s, b + 88, i64, it->second->ms); X.store(s, b + 96, i64, it->second->mn); X.store(s, b + 72, i64, it->second->ms); } RES(cv(0)); return 0; }
static int f_stat(X_& X, S_& s, Inst& I) { ARG(0, a); ARG(1, b); string p; if (!path(X, s, a, p)) return 1; return doStat(X, s, I, p, b); }
static int f_fstat(X_& X, S_& s, Inst& I) { ARG(0, n); ARG(1, b); Fd* d = fdOf(s, n); if (!d) return fail(X, s, I, 9); return doStat(X, s, I, d->path, b); }
static int f_lseek(X_& X, S_& s, Inst& I) { ARG(0, n); ARG(1, o); ARG(2, w); Fd* d = fdOf(s, n); if (!d) return fail(X, s, I, 9); uint64_t sz = s.fs.count(d->path) ? s.fs[d->path]->data.size() : 0; d->off = w == 0 ? o : w == 1 ? d->off + o : sz + o; RES(cv(d->off)); return 0; }
static int f_ftrunc(X_& X, S_& s, Inst& I) { ARG(0, n); ARG(1, l); Fd* d = fdOf(s, n); if (!d) return fail(X, s, I, 9); FAULT(d->path, false); VFile* f = wf(s, d->path); f->data.resize(l); touch(s, f); RETC(0); }
static int f_unlink(X_& X, S_& s, Inst& I) { ARG(0, a); string p; if (!path(X, s, a, p)) return 1; FAULT(p, false); if (!s.fs.count(p)) return fail(X, s, I, 2); if (isDir(s, p)) return fail(X, s, I, 21); s.fs.erase(p); RETC(0); }
static int f_rmdir(X_& X, S_& s, Inst& I) { ARG(0, a); string p; if (!path(X, s, a, p)) return 1; if (!s.fs.count(p)) return fail(X, s, I, 2); s.fs.erase(p); RETC(0); }
static int f_rename(X_& X, S_& s, Inst& I) { ARG(0, a); ARG(1, b); string p, q; if (!path(X, s, a, p) || !path(X, s, b, q)) return 1; FAULT(p, false); if (!s.fs.count(p)) return fail(X, s, I, 2); auto f = s.fs[p]; s.fs.erase(p); s.fs[q] = f; RETC(0); }
static int f_mkdir(X_& X, S_& s, Inst& I) { ARG(0, a); string p; if (!path(X, s, a, p)) return 1; FAULT(p, false); if (exists(s, p)) return fail(X, s, I, 17); if (!isDir(s, parent(p))) return fail(X, s, I, 2); wf(s, p)->dir = true; RETC(0); }
static int f_realpath(X_& X, S_& s, Inst& I) { ARG(0, a); ARG(1, b); string p; if (!path(X, s, a, p)) return 1; if (!exists(s, p)) { X.storeInt(s, errnoAddr(X, s), 2, 4); RETC(0); } uint64_t r = b ? b : cmalloc(X, s, p.size() + 1); for (size_t i = 0; i <= p.size(); i++) X.storeInt(s, r + i, i < p.size() ? p[i] : 0, 1); RES(cv(r)); return 0; }
static int f_getcwd(X_& X, S_& s, Inst& I) { ARG(0, b); ARG(1, n); if (n < 3) { X.storeInt(s, errnoAddr(X, s), 34, 4); RETC(0); } X.storeInt(s, b, '/', 1); X.storeInt(s, b + 1, 'w', 1); X.storeInt(s, b + 2, 0, 1); RES(cv(b)); return 0; }
static int f_futimens(X_& X, S_& s, Inst& I) { ARG(0, n); ARG(1, ts); Fd* d = fdOf(s, n); if (!d) return fail(X, s, I, 9); VFile* f = wf(s, d->path); V ns = X.loadInt(s, ts + 24, 8); if (!ns.e && ns.c == 0x3ffffffe) RETC(0); f->ms = X.loadInt(s, ts + 16, 8); f->mn = ns; RETC(0); }
static int c_strerror(X_& X, S_& s, Inst& I) { ARG(0, n); ARG(1, b); ARG(2, len); string t = strerror((int)n); for (uint64_t i = 0; i <= t.size() && i < len; i++) X.storeInt(s, b + i, i < t.size() ? t[i] : 0, 1); RETC(0); }
static int f_chmod(X_& X, S_& s, Inst& I) { RETC(0); }
static int v_fault(X_& X, S_& s, Inst& I) { ARG(0, kind); ARG(1, reads); ARG(2, n); ARG(3, arg); uint64_t before = s.faultOps; s.faultKind = (int)kind; s.faultReads = reads; s.faultN = n; s.faultArg = arg; s.faultOps = 0; s.faultDead = false; RETC(before); }
// names of the files in the directory that is passed, in order, each with a line break
static int v_files(X_& X, S_& s, Inst& I) { ARG(0, b); ARG(1, cap); string o; for (auto& f : s.fs) if (!f.second->dir && f.first.compare(0, 3, "/w/") == 0) o += f.first.substr(3) + "\n"; if (o.size() > cap) return stop(X, s, END_UNSUP, "too many files"); for (size_t i = 0; i < o.size(); i++) X.storeInt(s, b + i, (unsigned char)o[i], 1); RETC(o.size()); }

struct Ent { const char* n; IntrinFn f; };
static const Ent exact[] = {
  {"__rust_alloc", m_alloc}, {"__rust_alloc_zeroed", m_alloc}, {"__rust_realloc", m_realloc}, {"__rust_dealloc", i_nop}, {"__rdl_alloc", m_alloc},
  {"malloc", c_malloc}, {"calloc", c_calloc}, {"realloc", c_realloc}, {"free", i_nop}, {"posix_memalign", c_memalign},
  {"memcpy", i_memcpy}, {"memmove", i_memcpy}, {"memset", i_memset}, {"bcmp", c_bcmp}, {"memcmp", c_memcmp}, {"memchr", c_memchr}, {"strlen", c_strlen},
  {"abort", p_abort}, {"exit", p_exit}, {"_exit", p_exit}, {"__rust_start_panic", p_abort}, {"rust_begin_unwind", p_nounwind}, {"__rust_alloc_error_handler", p_abort},
  {"pthread_create", t_create}, {"pthread_join", t_join}, {"pthread_self", t_self}, {"pthread_detach", i_zero}, {"dlsym", i_zero}, {"__xpg_strerror_r", c_strerror}, {"pthread_attr_init", i_zero}, {"pthread_attr_destroy", i_zero}, {"pthread_attr_setstacksize", i_zero}, {"pthread_setname_np", i_zero}, {"pthread_getattr_np", c_minus1}, {"pthread_key_create", c_keycreate}, {"pthread_getspecific", i_zero}, {"pthread_setspecific", i_zero}, {"pthread_key_delete", i_zero}, {"__cxa_thread_atexit_impl", i_zero},
  {"sched_yield", t_yield}, {"syscall", c_syscall}, {"__errno_location", c_errno}, {"clock_gettime", c_clock}, {"getenv", i_zero}, {"sysconf", c_sysconf}, {"sched_getaffinity", c_affinity}, {"isatty", c_enotty}, {"getpid", v_one}, {"getuid", i_zero}, {"sigaction", i_zero}, {"signal", i_zero}, {"poll", i_zero}, {"sigaltstack", i_zero}, {"ioctl", c_minus1},
  {"open64", f_open}, {"open", f_open}, {"close", f_close}, {"read", f_read}, {"write", f_write}, {"writev", f_writev}, {"stat64", f_stat}, {"lstat64", f_stat}, {"fstat64", f_fstat}, {"lseek64", f_lseek}, {"ftruncate64", f_ftrunc}, {"unlink", f_unlink}, {"rmdir", f_rmdir}, {"rename", f_rename}, {"mkdir", f_mkdir}, {"realpath", f_realpath}, {"getcwd", f_getcwd}, {"futimens", f_futimens}, {"fcntl", i_zero}, {"fchmod", f_chmod}, {"chmod", f_chmod}, {"fsync", i_zero}, {"fdatasync", i_zero}, {"sendfile64", c_minus1}, {"splice", c_minus1}, {"readlink", c_minus1},
  {"vf_bytes", v_bytes}, {"vf_choice", v_choice}, {"vf_assume", v_assume}, {"vf_assert", v_assert}, {"vf_witness", v_witness}, {"vf_tag", v_tag}, {"vf_note", v_note}, {"vf_eq", v_eq}, {"vf_conc", v_conc}, {"vf_is_engine", v_one}, {"vf_hash_mode", v_hashmode}, {"vf_sched", v_sched}, {"vf_real_books", v_books}, {"vf_fault", v_fault}, {"vf_files", v_files}, {"vf_limit", v_limit}, {"vf_shown", v_shown}, {"vf_tick", v_clock},
};
static const Ent prefix[] = { // first match wins
  {"llvm.expect", i_first}, {"llvm.experimental.noalias", i_nop},
  {"llvm.memcpy", i_memcpy}, {"llvm.memmove", i_memcpy}, {"llvm.memset", i_memset}, {"llvm.ctpop", i_ctpop}, {"llvm.cttz", i_cttz}, {"llvm.ctlz", i_ctlz}, {"llvm.bswap", i_bswap}, {"llvm.bitreverse", i_bitrev}, {"llvm.abs", i_abs},
  {"llvm.umin", i_umin}, {"llvm.umax", i_umax}, {"llvm.smin", i_smin}, {"llvm.smax", i_smax},
  {"llvm.uadd.with", i_uaddo}, {"llvm.sadd.with", i_saddo}, {"llvm.usub.with", i_usubo}, {"llvm.ssub.with", i_ssubo}, {"llvm.umul.with", i_umulo}, {"llvm.smul.with", i_smulo}, {"llvm.uadd.sat", i_uadds}, {"llvm.sadd.sat", i_sadds}, {"llvm.usub.sat", i_usubs}, {"llvm.ssub.sat", i_ssubs},
  {"llvm.fshl", i_fshl}, {"llvm.fshr", i_fshr}, {"llvm.ucmp", i_ucmp}, {"llvm.scmp", i_scmp}, {"llvm.ptrmask", i_ptrmask},
  {"llvm.vector.reduce.add", i_radd}, {"llvm.vector.reduce.and", i_rand}, {"llvm.vector.reduce.or", i_ror}, {"llvm.vector.reduce.xor", i_rxor}, {"llvm.vector.reduce.mul", i_rmul}, {"llvm.vector.reduce.umax", i_rumax}, {"llvm.vector.reduce.umin", i_rumin}, {"llvm.vector.reduce.smax", i_rsmax}, {"llvm.vector.reduce.smin", i_rsmin},
  {"llvm.fabs", i_fabs}, {"llvm.floor", i_floor}, {"llvm.ceil", i_ceil}, {"llvm.trunc", i_ftrunc}, {"llvm.roundeven", i_rint}, {"llvm.round", i_round}, {"llvm.rint", i_rint}, {"llvm.nearbyint", i_rint}, {"llvm.sqrt", i_sqrt}, {"llvm.log2", i_log2}, {"llvm.log10", i_log10}, {"llvm.log", i_log}, {"llvm.exp2", i_exp2}, {"llvm.exp", i_exp}, {"llvm.powi", i_powi}, {"llvm.pow", i_pow}, {"llvm.minnum", i_minnum}, {"llvm.maxnum", i_maxnum}, {"llvm.copysign", i_copysign}, {"llvm.fma", i_fma}, {"llvm.fptosi.sat", i_fptosi}, {"llvm.fptoui.sat", i_fptoui}, {"llvm.is.fpclass", i_fpclass},
  {"llvm.assume", i_nop}, {"llvm.lifetime", i_nop}, {"llvm.invariant", i_nop}, {"llvm.dbg", i_nop}, {"llvm.prefetch", i_nop}, {"llvm.x86.sse2.pause", i_nop}, {"llvm.is.constant", i_zero}, {"llvm.launder", i_first}, {"llvm.strip", i_first}, {"llvm.load.relative", i_loadrel}, {"llvm.threadlocal.address", i_tls}, {"llvm.trap", i_trap}, {"llvm.ubsantrap", i_trap}, {"llvm.debugtrap", i_trap}, {"llvm.x86.sse2.pmovmskb", i_movmsk}, {"llvm.x86.sse2.psad.bw", i_xsum}, {"llvm.x86.xgetbv", i_zero},
};
static const Ent rustNames[] = { // hash-stripped legacy names
  {"_ZN4core9panicking9panic_fmtE", p_fmt}, {"_ZN4core9panicking18panic_nounwind_fmtE", p_nounwind}, {"_ZN4core9panicking14panic_nounwindE", p_nounwind}, {"_ZN4core9panicking26panic_nounwind_nobacktraceE", p_nounwind}, {"_ZN4core9panicking19panic_cannot_unwindE", p_nounwind}, {"_ZN3std9panicking20rust_panic_with_hookE", p_nounwind}, {"_ZN3std9panicking23rust_panic_without_hookE", p_nounwind}, {"_ZN3std3sys3pal4unix14abort_internalE", p_abort}, {"_ZN5alloc5alloc18handle_alloc_errorE", p_abort}, {"_ZN3std7process5abortE", p_abort},
  {"_ZN3std3sys3pal4unix4rand19hashmap_random_keysE", h_keys}, {"_ZN10std_detect6detect5cache21detect_and_initializeE", i_zero},
  {"_ZN4core5slice6memchr14memchr_alignedE", r_memchr_f}, {"_ZN4core5slice6memchr7memrchrE", r_memchr_l},
  {"_ZN4core4hash11BuildHasher8hash_oneE", h_hash_one},
};
IntrinFn lookupIntrin(const string& base, const string& full) {
  static std::unordered_map<string, IntrinFn> ex; if (ex.empty()) { for (auto& e : exact) ex[e.n] = e.f; for (auto& e : rustNames) ex[e.n] = e.f; }
  auto it = ex.find(base); if (it != ex.end()) return it->second;
  if (base.compare(0, 5, "llvm.") == 0) for (auto& e : prefix) if (base.compare(0, strlen(e.n), e.n) == 0) return e.f;
  return nullptr;
}
