// Symbolic machine state and executor.
#pragma once
#include "ir.h"
#include "expr.h"
#include <set>
#include <string>
#include <deque>
#include <functional>
#include <chrono>

constexpr uint64_t PG = 1024, PGSH = 10, L2N = 512;
struct Page { uint32_t ref = 1; const E** sym = nullptr; uint8_t d[PG];
  Page() { memset(d, 0, PG); } Page(const Page& o) : ref(1) { memcpy(d, o.d, PG); if (o.sym) { sym = (const E**)malloc(PG * sizeof(E*)); memcpy(sym, o.sym, PG * sizeof(E*)); } }
  ~Page() { free(sym); } };
struct L2 { uint32_t ref = 1; Page* p[L2N] = {}; };
// every thread has its own 512 KB window of thread-local storage; the initial image is in the first one
constexpr uint64_t TLS_BASE = 0x180000000ull, TLS_WIN = 0x80000ull;
inline uint64_t tlsHome(uint64_t a) { return (a >> 31) == 3 ? TLS_BASE | (a & (TLS_WIN - 1)) : a; }
struct Memory {
  std::vector<L2*> seg[4];
  Memory() {}
  Memory(const Memory& o) { for (int i = 0; i < 4; i++) { seg[i] = o.seg[i]; for (auto l : seg[i]) if (l) l->ref++; } }
  Memory& operator=(const Memory&) = delete;
  ~Memory() { for (auto& s : seg) for (auto l : s) if (l && !--l->ref) { for (auto p : l->p) if (p && !--p->ref) delete p; delete l; } }
  const Page* find(uint64_t a) const { uint64_t s = a >> 32; if (s >= 4) return nullptr; uint64_t i = (a & 0xffffffff) >> (PGSH + 9); if (i >= seg[s].size() || !seg[s][i]) return nullptr; return seg[s][i]->p[(a >> PGSH) & (L2N - 1)]; }
  Page* writable(uint64_t a, const Memory* base);
};

struct Frame { uint32_t ref = 1; Func* f; uint32_t pc = 0; uint64_t sp0 = 0; Inst* call = nullptr; uint32_t n; V* r; int special = 0; uint64_t sarg = 0;
  Frame(Func* f, int thread) : f(f), n(f->nslots) { r = (V*)malloc(sizeof(V) * (n + 1)); for (auto& t : f->tls) { V v; v.c = t.second + (uint64_t)thread * TLS_WIN; r[t.first] = v; } }
  Frame(const Frame& o) : f(o.f), pc(o.pc), sp0(o.sp0), call(o.call), n(o.n), special(o.special), sarg(o.sarg) { r = (V*)malloc(sizeof(V) * (n + 1)); memcpy((void*)r, o.r, sizeof(V) * n); }
  ~Frame() { free(r); } };

enum TS { TH_RUN, TH_FUTEX, TH_JOIN, TH_DONE };
struct Thread { std::vector<Frame*> st; uint64_t sp = 0, spBase = 0; TS status = TH_RUN; uint64_t waitOn = 0; uint64_t errnoAddr = 0; bool detached = false; };

struct VFile { std::vector<V> data; V ms, mn; bool dir = false; };
struct Fd { std::string path; uint64_t off = 0; int flags = 0; bool open = false; };
struct Input { std::string name; int firstVar; uint32_t len; uint64_t concrete; bool isChoice; }; // replay trace entry

struct State {
  Memory mem; std::vector<Thread> th; int cur = 0; PathCons pc;
  uint64_t heap = 0x200000000ull; uint64_t steps = 0, stepsBase = 0; int nvars = 0;
  std::vector<Input> inputs; std::vector<std::pair<const E*, uint64_t>> fixed;
  std::map<std::string, std::shared_ptr<VFile>> fs; std::vector<Fd> fds; uint64_t clock = 1700000000ull;
  std::vector<std::string> tags; std::vector<std::pair<std::string, std::vector<V>>> notes;
  int preempts = 0, delays = 0; bool noYield = false, freeSched = true, realBooks = false; int faultKind = 0; bool faultReads = false, faultDead = false; uint64_t faultN = 0, faultArg = 0, faultOps = 0; int hashMode = 0; uint64_t hashSeed = 0; uint64_t limitAt = 0, shown = 0; std::string sched;
  uint64_t id = 0; int depthForks = 0;
  State() {}
  State(const State& o); ~State();
  void switchTo(int t) { cur = t; }
  Thread& T() { return th[cur]; } Frame* top() { return th[cur].st.back(); }
};

enum End { END_OK, END_PANIC, END_ASSERT, END_ASSUME, END_UNSUP, END_LIMIT, END_DEADLOCK, END_ABORT, END_UNKNOWN };

struct Exec {
  Program prog; Memory base; std::deque<State*> work;
  std::string outPath; int maxProcs = 1; double timeLimit = 1e9; uint64_t maxSteps = 200000000; uint64_t vmax = 40;
  uint64_t totalSteps = 0, forks = 0; uint64_t ends[9] = {}; int maxPreempt = 0, maxDelay = -1; bool oneSched = false; bool bfs = false;
  bool prof = getenv("VFENG_PROF"); std::map<Func*, uint64_t> profSelf, profIncl;
  std::set<std::string> witnesses; std::map<std::string, uint64_t> violations, asserts; std::map<std::string, uint64_t> problems;
  std::vector<std::string> recs; std::map<std::string,int> recCount; std::set<Func*> execd;
  uint64_t symBranches = 0, maxConstraints = 0; uint64_t assertQueries = 0;
  std::chrono::steady_clock::time_point t0, lastFork;
  void run(const std::string& entry);
  void runState(State* s);
  void loop();
  void end(State* s, End e, const std::string& msg);
  State* fork(State& s);
  void finish();
  // helpers used by intrinsics
  const V& val(State& s, Opnd o) { return o >= 0 ? s.top()->r[o] : s.top()->f->consts[~o]; }
  void load(State& s, uint64_t a, Type* t, V& out); void store(State& s, uint64_t a, Type* t, const V& v);
  V loadByte(State& s, uint64_t a); void storeByte(State& s, uint64_t a, const V& v);
  V loadInt(State& s, uint64_t a, uint32_t bytes); void storeInt(State& s, uint64_t a, uint64_t v, uint32_t bytes);
  bool mapped(State& s, uint64_t a, uint64_t n);
  void copy(State& s, uint64_t d, uint64_t src, uint64_t n);
  // make v concrete, forking over the feasible values when needed.  false: state was terminated
  bool concretize(State& s, V& v, uint32_t w, uint64_t limit = 300);
  bool conc(State& s, Opnd o, uint32_t w, uint64_t& out, uint64_t limit = 300);
  bool cstr(State& s, uint64_t a, std::string& out); bool bytesConc(State& s, uint64_t a, uint64_t n, std::string& out);
  uint64_t alloc(State& s, uint64_t n, uint64_t al) { uint64_t a = (s.heap + al - 1) / al * al; s.heap = a + (n ? n : 1); return a; }
  void setRes(State& s, Inst& I, uint64_t v) { V x; x.c = v; s.top()->r[I.dst] = x; }
  bool pushCall(State& s, Func* f, const std::vector<V>& args, Inst* call);
  bool schedule(State& s, bool currentRunnable);  // choose next thread (forks); false: terminated
  bool yieldPoint(State& s);
  std::string modelJson(State& s, const std::vector<uint8_t>& m);
  bool feasible(State& s, std::vector<uint8_t>& m);
  bool dead = false; // current state terminated inside a helper
  bool trace = false;
};
typedef int (*IntrinFn)(Exec&, State&, Inst&); // 0 = done, 1 = re-execute/terminated (check Exec::dead), 2 = frame pushed, 3 = done but switched thread
IntrinFn lookupIntrin(const std::string& base, const std::string& full);
std::string jesc(const std::string& s);
