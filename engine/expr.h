// Hash-consed bit-vector expressions over 8-bit symbolic input variables, and the solver layer.
#pragma once
#include <cstdint>
#include <vector>
#include <string>
#include <unordered_map>
#include <array>

enum EK : uint8_t { E_CONST, E_VAR, E_NOT, E_AND, E_OR, E_XOR, E_ADD, E_SUB, E_MUL, E_UDIV, E_SDIV, E_UREM, E_SREM, E_SHL, E_LSHR, E_ASHR, E_EQ, E_ULT, E_ULE, E_SLT, E_SLE, E_CONCAT, E_EXTRACT, E_ZEXT, E_SEXT, E_ITE };

constexpr int MAXVARS = 512;
typedef unsigned __int128 u128;
struct VarBits { uint64_t w[MAXVARS / 64] = {}; 
  void set(int i) { w[i >> 6] |= 1ull << (i & 63); } bool get(int i) const { return w[i >> 6] >> (i & 63) & 1; }
  bool inter(const VarBits& o) const { for (int i = 0; i < MAXVARS / 64; i++) if (w[i] & o.w[i]) return true; return false; }
  bool orWith(const VarBits& o) { bool ch = false; for (int i = 0; i < MAXVARS / 64; i++) { uint64_t n = w[i] | o.w[i]; if (n != w[i]) { ch = true; w[i] = n; } } return ch; }
};
struct Bits256 { uint64_t w[4] = {0, 0, 0, 0};
  static Bits256 full() { Bits256 b; for (auto& x : b.w) x = ~0ull; return b; }
  bool get(int i) const { return w[i >> 6] >> (i & 63) & 1; } void set(int i) { w[i >> 6] |= 1ull << (i & 63); }
  Bits256 operator&(const Bits256& o) const { Bits256 r; for (int i = 0; i < 4; i++) r.w[i] = w[i] & o.w[i]; return r; }
  Bits256 andNot(const Bits256& o) const { Bits256 r; for (int i = 0; i < 4; i++) r.w[i] = w[i] & ~o.w[i]; return r; }
  bool any() const { return w[0] | w[1] | w[2] | w[3]; }
  int count() const { int c = 0; for (auto x : w) c += __builtin_popcountll(x); return c; }
  int first() const { for (int i = 0; i < 4; i++) if (w[i]) return i * 64 + __builtin_ctzll(w[i]); return -1; }
};

struct E {
  EK k; uint16_t w; uint32_t id; int32_t svar; // svar: -1 constant, >=0 the only variable, -2 several
  const E *a = nullptr, *b = nullptr, *c = nullptr;
  uint64_t lo = 0, hi = 0;     // constant value; extract: lo = bit offset; var: index
  uint64_t umax = ~0ull;       // unsigned upper bound (widths <= 64)
  const VarBits* vars = nullptr;
  mutable const Bits256* tt = nullptr;        // truth table (width 1, single var)
  mutable const uint64_t* tab = nullptr;      // value table (single var)
  mutable uint32_t epoch = 0; mutable u128 ev = 0;
  mutable void* z = nullptr;                  // Z3_ast
  uint32_t depth = 1;
};

const E* eConst(uint64_t lo, uint32_t w, uint64_t hi = 0);
const E* eVar(int idx);
const E* eNot(const E* a);
const E* eBin(EK k, const E* a, const E* b);
const E* eCmp(EK k, const E* a, const E* b); // EQ ULT ULE SLT SLE
const E* eConcat(const E* hi, const E* lo);
const E* eExtract(const E* a, uint32_t off, uint32_t w);
const E* eZext(const E* a, uint32_t w);
const E* eSext(const E* a, uint32_t w);
const E* eIte(const E* c, const E* a, const E* b);
inline bool isTrue(const E* e) { return e->k == E_CONST && e->lo == 1; }
inline bool isFalse(const E* e) { return e->k == E_CONST && e->lo == 0; }
const Bits256& truth(const E* e);        // width-1 single-var expression
const uint64_t* valueTable(const E* e);  // single-var expression, width <= 64: value for each byte
u128 evalModel(const E* e, const std::vector<uint8_t>& m, bool fresh = true);
std::string eStr(const E* e, int depth = 6);
size_t eCount();

struct PathCons {
  std::vector<Bits256> dom; std::vector<const E*> all, multi; std::vector<uint8_t> model; VarBits linked;
  void add(const E* c);
};
enum Res { UNSAT, SAT, UNKNOWN };
struct SolverStats { uint64_t z3 = 0, z3sat = 0, z3unsat = 0, z3unknown = 0, fast = 0, small = 0, cacheHit = 0, modelHit = 0, audit = 0, auditBad = 0; double secs = 0; };
extern SolverStats gSS;
// may `cond` be true together with the path constraints?  On SAT, *model is a full satisfying model.
Res mayBe(const PathCons& pc, const E* cond, std::vector<uint8_t>* model);
// decide with z3 over the full path condition, no shortcuts
Res z3Full(const PathCons& pc, const E* cond, std::vector<uint8_t>* model);
void solverInit();
extern bool gNoFast; extern uint64_t gRlimit;
const E* simplify(const PathCons& pc, const E* c, int depth);
const E* splitLeaf(const E* c, int& budget);
extern int gSplit;
