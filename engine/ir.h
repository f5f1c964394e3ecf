// LLVM-IR (textual) loader: types, functions (decoded lazily), globals.
#pragma once
#include <cstdint>
#include <cstring>
#include <string>
#include <string_view>
#include <vector>
#include <unordered_map>
#include <map>
#include <memory>
#include <deque>
#include <stdexcept>

struct E;  // symbolic expression (expr.h)

// A scalar register value: concrete (e==nullptr) or symbolic.
struct V {
  uint64_t c = 0;   // low 64 bits
  uint64_t h = 0;   // high 64 bits (i128 only)
  const E* e = nullptr;
};

enum TK : uint8_t { T_VOID, T_INT, T_PTR, T_F32, T_F64, T_FOTHER, T_ARRAY, T_STRUCT, T_VECTOR, T_LABEL, T_META, T_OPAQUE };
struct Type {
  TK k; uint32_t bits = 0;            // T_INT width
  uint64_t n = 0; Type* el = nullptr; // array/vector
  std::vector<Type*> mem; bool packed = false;
  uint64_t size = 0, align = 1;       // store (alloc) size in bytes
  uint32_t slots = 0;                 // number of scalar slots
  std::vector<uint64_t> offs;         // struct member offsets
  std::vector<uint32_t> slotoff;      // struct member first slot
  bool scalar() const { return k == T_INT || k == T_PTR || k == T_F32 || k == T_F64 || k == T_FOTHER; }
  uint32_t width() const { return k == T_INT ? bits : k == T_PTR || k == T_F64 ? 64 : k == T_F32 ? 32 : 0; }
};
// flattened scalar leaf of an aggregate type
struct Leaf { uint64_t off; Type* ty; };

enum Op : uint16_t {
  O_RET, O_BR, O_CONDBR, O_SWITCH, O_UNREACHABLE, O_RESUME,
  O_ADD, O_SUB, O_MUL, O_UDIV, O_SDIV, O_UREM, O_SREM, O_SHL, O_LSHR, O_ASHR, O_AND, O_OR, O_XOR,
  O_FADD, O_FSUB, O_FMUL, O_FDIV, O_FREM, O_FNEG,
  O_ALLOCA, O_LOAD, O_STORE, O_FENCE, O_CMPXCHG, O_ATOMICRMW, O_GEP,
  O_TRUNCT, O_ZEXT, O_SEXT, O_FPTRUNC, O_FPEXT, O_FPTOUI, O_FPTOSI, O_UITOFP, O_SITOFP, O_BITCAST, O_NOPCAST,
  O_ICMP, O_FCMP, O_SELECT, O_FREEZE, O_CALL, O_EXTRACTVALUE, O_INSERTVALUE,
  O_EXTRACTELEMENT, O_INSERTELEMENT, O_SHUFFLE, O_LANDINGPAD, O_UNSUPPORTED
};
enum Pred : uint8_t { P_EQ, P_NE, P_UGT, P_UGE, P_ULT, P_ULE, P_SGT, P_SGE, P_SLT, P_SLE,
  F_FALSE, F_OEQ, F_OGT, F_OGE, F_OLT, F_OLE, F_ONE, F_ORD, F_UNO, F_UEQ, F_UGT, F_UGE, F_ULT, F_ULE, F_UNE, F_TRUE };

struct Func;
typedef int32_t Opnd;  // >=0: register slot; <0: constant pool index ~o

struct PhiCopy { uint32_t dst; Opnd src; uint32_t n; };
struct Edge { uint32_t block; uint32_t pc; std::vector<PhiCopy> copies; bool overlap = false; };
struct GepIdx { Opnd idx; uint32_t width; uint64_t scale; };

struct Inst {
  Op op; uint8_t sub = 0; uint8_t flags = 0;
  uint32_t dst = 0;
  Type* ty = nullptr;    // result (or operand) type
  Type* ty2 = nullptr;   // source type
  Opnd a = 0, b = 0, c = 0;
  uint64_t imm = 0;      // const offset / size / predicate / first slot
  Func* callee = nullptr;
  std::vector<Opnd> args; std::vector<Type*> argtys;
  std::vector<GepIdx> gidx;
  std::vector<int> edges;                 // indices into Func::edges
  std::vector<std::pair<uint64_t,int>> cases; // switch: value -> edge (default = edges[0])
  std::string str;                        // asm text / unsupported text
  std::vector<int> mask;                  // shuffle
  const char* src = nullptr;              // text of the instruction
};

struct State; struct Exec;
typedef bool (*Intrin)(Exec&, State&, Inst&);  // see exec.cpp

struct Module;
struct Param { Type* ty; std::string name; };
struct Func {
  std::string name;      // mangled symbol
  std::string base;      // symbol with hash / llvm suffix stripped
  Module* mod = nullptr; size_t off = 0;  // text offset of 'define' line
  bool defined = false, decoded = false, counted = false;
  uint64_t addr = 0; uint32_t idx = 0;
  Type* ret = nullptr; std::vector<Param> params; bool varargs = false;
  uint32_t nslots = 0;
  std::vector<V> consts;
  std::vector<Inst> code;
  std::vector<Edge> edges;
  std::vector<uint32_t> paramslots;
  std::vector<std::pair<uint32_t, uint64_t>> tls; // slots that hold addresses of thread-local variables
  Intrin intrin = nullptr; int intrinId = 0; bool lookedUp = false; struct Func* redirect = nullptr; bool book = false;
  std::string demangled() const;
};

struct Global {
  std::string name; Module* mod; size_t off; // offset of initializer line start
  bool local = false, constant = false, tls = false, ext = false, extweak = false, alias = false;
  uint64_t addr = 0; bool materialized = false; Type* ty = nullptr; uint64_t align = 1;
  std::string init;  // (unused)
};

struct Module {
  std::string path; const char* text = nullptr; size_t len = 0;
  std::unordered_map<std::string_view, Func*> lfuncs;
  std::unordered_map<std::string_view, Global*> lglobals;
  std::unordered_map<std::string_view, size_t> namedtypes; std::unordered_map<std::string_view, Type*> ntypes;
};

struct Program {
  std::deque<Func> funcs; std::deque<Global> globals; std::vector<std::unique_ptr<Module>> mods;
  std::unordered_map<std::string, Func*> gfuncs;      // externally visible definitions
  std::unordered_map<std::string, Global*> gglobals;
  std::vector<Func*> byidx;
  // base memory image callbacks
  uint64_t roNext = 0x100000000ull, rwNext = 0x140000000ull, tlsNext = 0x180000000ull; // TLS globals: 512 KB window, swapped on thread switches
  void (*writeBase)(void* ctx, uint64_t addr, const uint8_t* d, size_t n) = nullptr; void* wctx = nullptr;

  void load(const std::string& path);
  Func* findFunc(Module* m, std::string_view name);     // module scope then global; creates declaration stub if missing
  Global* findGlobal(Module* m, std::string_view name);
  uint64_t funcAddr(Func* f);
  Func* funcAt(uint64_t addr);
  uint64_t symbolAddr(Module* m, std::string_view name); // function or global
  void decode(Func* f);
  void materialize(Global* g);
  // types
  Type* intT(uint32_t w); Type* ptrT(); Type* voidT();
  Type* arrT(uint64_t n, Type* el); Type* vecT(uint64_t n, Type* el); Type* structT(std::vector<Type*> m, bool packed);
  Type* simple(TK k);
  const std::vector<Leaf>& leaves(Type* t);
  std::map<std::string, Type*> tcache; std::unordered_map<Type*, std::vector<Leaf>> lcache;
  std::deque<Type> tpool;
  std::vector<Global*> pending; bool draining = false;
  uint64_t nDecoded = 0, nInsts = 0;
};
std::string stripHash(std::string_view s);
