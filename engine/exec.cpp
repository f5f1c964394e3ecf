#include "exec.h"
#include <cmath>
#include <unistd.h>
#include <sys/mman.h>
#include <sys/wait.h>
#include <fcntl.h>
#include <algorithm>
using std::string; using std::vector;

static inline uint64_t mask(uint32_t w) { return w >= 64 ? ~0ull : (1ull << w) - 1; }
static inline const E* toE(const V& v, uint32_t w) { return v.e ? v.e : eConst(v.c, w, v.h); }
static inline void setE(V& v, const E* e) { if (e->k == E_CONST) { v.c = e->lo; v.h = e->hi; v.e = nullptr; } else { v.e = e; v.c = 0; v.h = 0; } }

// ------------------------------------------------------------ shared control block (multi-process exploration)
struct Shared { volatile int active; volatile int stop; volatile long nviol; volatile uint64_t pending; };
static Shared* sh; static double now() { return std::chrono::duration<double>(std::chrono::steady_clock::now().time_since_epoch()).count(); }
static double gStart;

// ------------------------------------------------------------ memory
Page* Memory::writable(uint64_t a, const Memory* base) {
  uint64_t s = a >> 32; if (s >= 4 || s == 0) return nullptr; uint64_t i = (a & 0xffffffff) >> (PGSH + 9);
  if (i >= seg[s].size()) seg[s].resize(i + 1, nullptr);
  L2*& l = seg[s][i];
  if (!l) l = new L2; else if (l->ref > 1) { L2* n = new L2; for (uint64_t k = 0; k < L2N; k++) { n->p[k] = l->p[k]; if (n->p[k]) n->p[k]->ref++; } l->ref--; l = n; }
  Page*& p = l->p[(a >> PGSH) & (L2N - 1)];
  if (!p) { const Page* b = base ? base->find(tlsHome(a)) : nullptr; p = b ? new Page(*b) : new Page; } else if (p->ref > 1) { Page* n = new Page(*p); p->ref--; p = n; }
  return p;
}
State::State(const State& o) : mem(o.mem), th(o.th), cur(o.cur), pc(o.pc), heap(o.heap), steps(o.steps), stepsBase(o.steps), nvars(o.nvars), inputs(o.inputs), fixed(o.fixed), fs(o.fs), fds(o.fds), clock(o.clock), tags(o.tags), notes(o.notes), preempts(o.preempts), delays(o.delays), noYield(o.noYield), freeSched(o.freeSched), realBooks(o.realBooks), faultKind(o.faultKind), faultReads(o.faultReads), faultDead(o.faultDead), faultN(o.faultN), faultArg(o.faultArg), faultOps(o.faultOps), hashMode(o.hashMode), hashSeed(o.hashSeed), limitAt(o.limitAt), sched(o.sched), depthForks(o.depthForks) {
  for (auto& t : th) for (auto f : t.st) f->ref++;
  // the running frame is never shared, so that pointers held by the interpreter loop stay valid across forks
  for (auto& t : th) if (!t.st.empty()) { Frame*& f = t.st.back(); f->ref--; f = new Frame(*f); }
}
State::~State() { for (auto& t : th) for (auto f : t.st) if (!--f->ref) delete f; }

static const uint8_t zeros[PG] = {};
static inline const Page* rpage(Exec& X, State& s, uint64_t a) { const Page* p = s.mem.find(a); return p ? p : X.base.find(tlsHome(a)); }

bool Exec::mapped(State& s, uint64_t a, uint64_t n) {
  if (n == 0) return true; uint64_t e = a + n; if (e < a) return false;
  if (a >= 0x100000000ull && a < 0x200000000ull) return rpage(*this, s, a) != nullptr;
  if (a >= 0x200000000ull && a < 0x300000000ull) return e <= s.heap;
  if (a >= 0x300000000ull && a < 0x400000000ull) return true;
  return false;
}
V Exec::loadByte(State& s, uint64_t a) { V v; const Page* p = rpage(*this, s, a); if (!p) return v; v.c = p->d[a & (PG - 1)]; if (p->sym && p->sym[a & (PG - 1)]) { v.e = p->sym[a & (PG - 1)]; v.c = 0; } return v; }
void Exec::storeByte(State& s, uint64_t a, const V& v) { Page* p = s.mem.writable(a, &base); uint64_t o = a & (PG - 1); if (v.e) { if (!p->sym) p->sym = (const E**)calloc(PG, sizeof(E*)); p->sym[o] = v.e; p->d[o] = 0; } else { p->d[o] = (uint8_t)v.c; if (p->sym) p->sym[o] = nullptr; } }
// a value whose only variable has a single value left is concrete
static inline void single(State& s, V& v) { int x = v.e->svar; if (x < 0 || x >= (int)s.pc.dom.size()) return; const Bits256& d = s.pc.dom[x]; if (d.count() != 1 || v.e->w > 64) return; v.c = valueTable(v.e)[d.first()]; v.h = 0; v.e = nullptr; }
int gSplit = 4;
V Exec::loadInt(State& s, uint64_t a, uint32_t n) { // little endian, n <= 16
  V v; uint64_t o = a & (PG - 1);
  if (o + n <= PG) { const Page* p = rpage(*this, s, a); if (!p) return v; if (!p->sym) { if (n <= 8) memcpy(&v.c, p->d + o, n); else { memcpy(&v.c, p->d + o, 8); memcpy(&v.h, p->d + o + 8, n - 8); } return v; }
    bool any = false; for (uint32_t i = 0; i < n; i++) if (p->sym[o + i]) any = true;
    if (!any) { if (n <= 8) memcpy(&v.c, p->d + o, n); else { memcpy(&v.c, p->d + o, 8); memcpy(&v.h, p->d + o + 8, n - 8); } return v; } }
  const E* e = nullptr; bool sym = false; uint8_t b[16];
  V bs[16]; for (uint32_t i = 0; i < n; i++) { bs[i] = loadByte(s, a + i); if (bs[i].e) { single(s, bs[i]); if (bs[i].e) sym = true; } b[i] = (uint8_t)bs[i].c; }
  if (!sym) { if (n <= 8) memcpy(&v.c, b, n); else { memcpy(&v.c, b, 8); memcpy(&v.h, b + 8, n - 8); } return v; }
  for (int i = (int)n - 1; i >= 0; i--) { const E* x = toE(bs[i], 8); e = e ? eConcat(e, x) : x; }
  setE(v, e); return v;
}
void Exec::storeInt(State& s, uint64_t a, uint64_t v, uint32_t n) { for (uint32_t i = 0; i < n; i++) { V b; b.c = (uint8_t)(v >> (8 * i)); storeByte(s, a + i, b); } }
static inline void storeScalar(Exec& X, State& s, uint64_t a, uint32_t n, uint32_t w, const V& v) {
  if (!v.e) {
    uint64_t o = a & (PG - 1);
    if (o + n <= PG) { Page* p = s.mem.writable(a, &X.base); if (n <= 8) memcpy(p->d + o, &v.c, n); else { memcpy(p->d + o, &v.c, 8); memcpy(p->d + o + 8, &v.h, n - 8); } if (p->sym) memset((void*)(p->sym + o), 0, n * sizeof(E*)); return; }
    for (uint32_t i = 0; i < n; i++) { V b; b.c = i < 8 ? (uint8_t)(v.c >> (8 * i)) : (uint8_t)(v.h >> (8 * (i - 8))); X.storeByte(s, a + i, b); }
    return;
  }
  const E* e = v.e; if (e->w < n * 8) e = eZext(e, n * 8);
  for (uint32_t i = 0; i < n; i++) { V b; setE(b, eExtract(e, 8 * i, 8)); X.storeByte(s, a + i, b); }
}
void Exec::load(State& s, uint64_t a, Type* t, V& out) { out = loadInt(s, a, t->width() <= 64 ? (t->k == T_INT ? (t->bits + 7) / 8 : t->size) : t->size); uint32_t w = t->width(); if (out.e) { if (out.e->w > w) setE(out, eExtract(out.e, 0, w)); } else if (w < 64) out.c &= mask(w); }
void Exec::store(State& s, uint64_t a, Type* t, const V& v) { storeScalar(*this, s, a, t->k == T_INT ? (t->bits + 7) / 8 : t->size, t->width(), v); }
void Exec::copy(State& s, uint64_t d, uint64_t src, uint64_t n) {
  if (n == 0 || d == src) return;
  vector<V> tmp; bool sym = false; 
  // fast concrete path
  vector<uint8_t> buf(n); uint64_t i = 0;
  while (i < n) { uint64_t a = src + i, o = a & (PG - 1), c = std::min(n - i, PG - o); const Page* p = rpage(*this, s, a); if (p) { memcpy(&buf[i], p->d + o, c); if (p->sym && !sym) { for (uint64_t k = 0; k < c; k++) if (p->sym[o + k]) { sym = true; break; } } } i += c; }
  vector<const E*> es; if (sym) { es.assign(n, nullptr); i = 0; while (i < n) { uint64_t a = src + i, o = a & (PG - 1), c = std::min(n - i, PG - o); const Page* p = rpage(*this, s, a); if (p && p->sym) memcpy((void*)&es[i], p->sym + o, c * sizeof(E*)); i += c; } }
  i = 0;
  while (i < n) { uint64_t a = d + i, o = a & (PG - 1), c = std::min(n - i, PG - o); Page* p = s.mem.writable(a, &base); memcpy(p->d + o, &buf[i], c); if (sym) { if (!p->sym) p->sym = (const E**)calloc(PG, sizeof(E*)); memcpy((void*)(p->sym + o), &es[i], c * sizeof(E*)); } else if (p->sym) memset((void*)(p->sym + o), 0, c * sizeof(E*)); i += c; }
}
bool Exec::bytesConc(State& s, uint64_t a, uint64_t n, string& out) { out.clear(); for (uint64_t i = 0; i < n; i++) { V v = loadByte(s, a + i); if (v.e) { if (!concretize(s, v, 8)) return false; storeByte(s, a + i, v); } out += (char)v.c; } return true; }
bool Exec::cstr(State& s, uint64_t a, string& out) { out.clear(); for (uint64_t i = 0;; i++) { V v = loadByte(s, a + i); if (v.e) { if (!concretize(s, v, 8)) return false; } if (!v.c) return true; out += (char)v.c; } }

// ------------------------------------------------------------ forking
State* Exec::fork(State& s) { State* n = new State(s); forks++; n->depthForks++; return n; }
bool Exec::concretize(State& s, V& v, uint32_t w, uint64_t limit) {
  if (!v.e) return true; const E* e = v.e;
  for (auto& f : s.fixed) if (f.first == e) { v.e = nullptr; v.c = f.second; v.h = 0; return true; }
  struct Opt { uint64_t val; vector<uint8_t> m; }; vector<Opt> opts;
  if (!gNoFast && e->svar >= 0 && !s.pc.linked.get(e->svar) && e->w <= 64) {
    const uint64_t* t = valueTable(e); int var = e->svar; Bits256 d = var < (int)s.pc.dom.size() ? s.pc.dom[var] : Bits256::full();
    std::map<uint64_t, int> seen; for (int i = 0; i < 256; i++) if (d.get(i)) seen.emplace(t[i], i); gSS.fast += seen.size();
    for (auto& p : seen) { vector<uint8_t> m = s.pc.model; if ((int)m.size() <= var) m.resize(var + 1, 0); if (!(d.get(m[var]) && t[m[var]] == p.first)) m[var] = p.second; opts.push_back({p.first, m}); }
  } else {
    PathCons pc = s.pc; vector<uint8_t> m = pc.model;
    for (;;) { uint64_t x = (uint64_t)evalModel(e, m); opts.push_back({x, m}); if (opts.size() > limit) break; const E* ne = eNot(eCmp(E_EQ, e, eConst(x, e->w))); pc.model = m; pc.add(ne);
      Res r = mayBe(pc, eConst(1, 1), &m); (void)r; vector<uint8_t> m2; Res q = z3Full(pc, nullptr, &m2); if (q == UNSAT) break; if (q == UNKNOWN) { end(&s, END_UNKNOWN, "solver unknown in concretize"); dead = true; return false; } m = m2; }
  }
  if (opts.size() > limit) { end(&s, END_UNSUP, "too many values to concretize in " + s.top()->f->demangled() + " (" + eStr(e, 3) + ")"); dead = true; return false; }
  if (opts.empty()) { end(&s, END_UNKNOWN, "no feasible value"); dead = true; return false; }
  for (size_t i = 1; i < opts.size(); i++) { State* n = fork(s); n->pc.add(eCmp(E_EQ, e, eConst(opts[i].val, e->w))); n->pc.model = opts[i].m; n->fixed.push_back({e, opts[i].val}); work.push_back(n); }
  s.pc.add(eCmp(E_EQ, e, eConst(opts[0].val, e->w))); s.pc.model = opts[0].m; s.fixed.push_back({e, opts[0].val});
  v.e = nullptr; v.c = opts[0].val; v.h = 0; return true;
}
bool Exec::conc(State& s, Opnd o, uint32_t w, uint64_t& out, uint64_t limit) {
  V v = val(s, o); if (v.e) { if (!concretize(s, v, w, limit)) return false; if (o >= 0) s.top()->r[o] = v; } out = v.c; return true;
}
bool Exec::feasible(State& s, vector<uint8_t>& m) { Res r = z3Full(s.pc, nullptr, &m); return r == SAT; }

// ------------------------------------------------------------ reporting
string jesc(const string& s) { string o; for (unsigned char c : s) { if (c == '"' || c == '\\') { o += '\\'; o += c; } else if (c < 32 || c >= 127) { char b[8]; snprintf(b, 8, "\\u%04x", c); o += b; } else o += c; } return o; }
string Exec::modelJson(State& s, const vector<uint8_t>& m) {
  string o = "["; bool first = true;
  for (auto& in : s.inputs) { if (!first) o += ","; first = false;
    if (in.isChoice) o += "{\"n\":\"" + jesc(in.name) + "\",\"c\":" + std::to_string(in.concrete) + "}";
    else { o += "{\"n\":\"" + jesc(in.name) + "\",\"b\":["; for (uint32_t i = 0; i < in.len; i++) { if (i) o += ","; int v = in.firstVar + i; o += std::to_string(v < (int)m.size() ? m[v] : 0); } o += "]}"; } }
  return o + "]";
}
static string notesJson(State& s, const vector<uint8_t>& m) { string o = "["; bool f = true; for (auto& n : s.notes) { string t; for (auto& v : n.second) t += v.e ? (char)(uint64_t)evalModel(v.e, m) : (char)v.c; o += string(f ? "" : ",") + "[\"" + jesc(n.first) + "\",\"" + jesc(t) + "\"]"; f = false; } return o + "]"; }
static const char* endName[] = {"ok", "panic", "assert", "assume", "unsupported", "limit", "deadlock", "abort", "unknown"};
void Exec::end(State* s, End e, const string& msg) {
  ends[e]++; if (s->pc.all.size() > maxConstraints) maxConstraints = s->pc.all.size();
  bool viol = e == END_PANIC || e == END_ASSERT || e == END_DEADLOCK || e == END_ABORT || e == END_LIMIT;
  if (viol) {
    string tags; for (auto& t : s->tags) tags += (tags.empty() ? "" : ",") + t;
    string key = string(endName[e]) + "|" + msg + "|" + tags; violations[key]++;
    int& c = recCount[key]; 
    if (c < 3 && recCount.size() < 400) {
      vector<uint8_t> m; Res r = z3Full(s->pc, nullptr, &m);
      if (r == SAT) { c++; string notes = notesJson(*s, m);
        string bt; int k = 0; if (!s->th.empty()) for (int i = (int)s->T().st.size() - 1; i >= 0 && k < 12; i--, k++) bt += (k ? " < " : "") + s->T().st[i]->f->demangled();
        if (e == END_DEADLOCK) for (size_t j = 0; j < s->th.size(); j++) if ((int)j != s->cur && s->th[j].status != TH_DONE) { bt += " ## thread " + std::to_string(j) + ": "; for (int i = (int)s->th[j].st.size() - 1, q = 0; i >= 0 && q < 8; i--, q++) bt += (q ? " < " : "") + s->th[j].st[i]->f->demangled(); }
        recs.push_back("{\"kind\":\"" + string(endName[e]) + "\",\"msg\":\"" + jesc(msg) + "\",\"tags\":\"" + jesc(tags) + "\",\"notes\":" + notes + ",\"sched\":\"" + jesc(s->sched) + "\",\"stack\":\"" + jesc(bt) + "\",\"model\":" + modelJson(*s, m) + "}"); if (sh) __sync_fetch_and_add(&sh->nviol, 1); }
      else if (r == UNSAT) { problems["violating path infeasible under z3"]++; fprintf(stderr, "ENGINE BUG: infeasible violating path %s\n", key.c_str()); }
      else problems["solver unknown on violating path"]++;
    }
  } else if (e == END_OK) { // sample some completed paths: their models are run natively and must agree
    uint64_t k = ends[e]; if ((k & (k - 1)) == 0 && !s->notes.empty()) { vector<uint8_t> m; Res r = z3Full(s->pc, nullptr, &m);
      if (r == SAT) recs.push_back("{\"kind\":\"ok\",\"notes\":" + notesJson(*s, m) + ",\"sched\":\"" + jesc(s->sched) + "\",\"model\":" + modelJson(*s, m) + "}"); else if (r == UNSAT) problems["completed path infeasible under z3"]++; }
  } else if (e == END_UNSUP || e == END_UNKNOWN) {
    string bt; int k = 0; if (!s->th.empty() && !s->T().st.empty()) for (int i = (int)s->T().st.size() - 1; i >= 0 && k < 6; i--, k++) bt += (k ? " < " : "") + s->T().st[i]->f->demangled();
    if (trace && !s->th.empty() && !s->T().st.empty()) for (int i = (int)s->T().st.size() - 1, q = 0; i >= 0 && q < 4; i--, q++) { Frame* fr = s->T().st[i]; const char* t = fr->pc < fr->f->code.size() ? fr->f->code[fr->pc].src : nullptr; if (t) { const char* b = t; while (b[-1] != '\n') b--; const char* z = strchr(t, '\n'); fprintf(stderr, "  at %s: %.*s\n", fr->f->demangled().c_str(), (int)std::min<long>(z - b, 250), b); } }
    problems[string(endName[e]) + ": " + msg + (problems.count(msg) ? "" : "") + " @ " + bt]++;
  }
  totalSteps += s->steps - s->stepsBase; s->stepsBase = s->steps; 
}

// ------------------------------------------------------------ calls & threads
bool Exec::pushCall(State& s, Func* f, const vector<V>& args, Inst* call) {
  if (!f->decoded) prog.decode(f);
  if (!f->counted) { f->counted = true; execd.insert(f); }
  Thread& t = s.T(); if (t.st.size() > 6000) { end(&s, END_LIMIT, "stack depth (unbounded recursion) in " + f->demangled()); dead = true; return false; }
  Frame* fr = new Frame(f, s.cur); fr->sp0 = t.sp; fr->call = call; size_t k = 0;
  for (size_t i = 0; i < f->params.size(); i++) { uint32_t n = f->params[i].ty->slots; for (uint32_t j = 0; j < n; j++) { if (k < args.size()) fr->r[f->paramslots[i] + j] = args[k]; k++; } }
  t.st.push_back(fr); return true;
}
bool Exec::schedule(State& s, bool curRun) {
  vector<int> run; for (size_t i = 0; i < s.th.size(); i++) if (s.th[i].status == TH_RUN && ((int)i != s.cur || curRun)) run.push_back(i);
  if (run.empty()) { end(&s, END_DEADLOCK, "deadlock: no runnable thread"); dead = true; return false; }
  if (maxDelay >= 0) { // delay-bounded: the next thread in order, or a later one at the cost of one delay each
    std::stable_partition(run.begin(), run.end(), [&](int i) { return i > s.cur; });
    for (size_t i = 1; i < run.size() && s.freeSched && s.delays + (int)i <= maxDelay; i++) { State* n = fork(s); n->delays += i; n->switchTo(run[i]); n->sched += std::to_string(run[i]); work.push_back(n); }
  } else for (size_t i = 1; i < run.size() && !oneSched && s.freeSched; i++) { State* n = fork(s); n->switchTo(run[i]); n->sched += std::to_string(run[i]); work.push_back(n); }
  s.switchTo(run[0]); s.sched += std::to_string(run[0]); return true;
}
// possible preemption before a synchronisation operation; returns false if terminated
bool Exec::yieldPoint(State& s) {
  if (!s.freeSched || s.preempts >= maxPreempt || s.th.size() < 2) return true;
  if (s.noYield) { s.noYield = false; return true; }
  for (size_t i = 0; i < s.th.size(); i++) if ((int)i != s.cur && s.th[i].status == TH_RUN) { State* n = fork(s); n->preempts++; n->noYield = true; n->switchTo(i); n->sched += "p" + std::to_string(i); work.push_back(n); }
  return true;
}

void Exec::runState(State* sp) {
  State& s = *sp; dead = false;
  Frame* fr; V* R; Inst* code; const V* K;
  auto enter = [&]() { Thread& t = s.T(); Frame*& f = t.st.back(); if (f->ref > 1) { Frame* n = new Frame(*f); f->ref--; f = n; } fr = f; R = fr->r; code = fr->f->code.data(); K = fr->f->consts.data(); };
  enter();
#define VAL(o) ((o) >= 0 ? R[o] : K[~(o)])
#define VP(o) ((o) >= 0 ? &R[o] : &K[~(o)])
  auto takeEdge = [&](int ei) {
    Edge& e = fr->f->edges[ei];
    if (!e.copies.empty()) {
      if (e.overlap) { static thread_local vector<V> tmp; tmp.clear(); for (auto& c : e.copies) { const V* p = VP(c.src); for (uint32_t i = 0; i < c.n; i++) tmp.push_back(p[i]); } size_t k = 0; for (auto& c : e.copies) for (uint32_t i = 0; i < c.n; i++) R[c.dst + i] = tmp[k++]; }
      else for (auto& c : e.copies) { const V* p = VP(c.src); for (uint32_t i = 0; i < c.n; i++) R[c.dst + i] = p[i]; }
    }
    fr->pc = e.pc;
  };
  // take an edge in a cloned state (frame must be made unique there)
  auto takeEdgeIn = [&](State* n, int ei) {
    Thread& t = n->T(); Frame*& f = t.st.back(); if (f->ref > 1) { Frame* c = new Frame(*f); f->ref--; f = c; }
    Frame* ofr = fr; V* oR = R; fr = f; R = f->r; takeEdge(ei); fr = ofr; R = oR;
  };
  uint64_t cnt = 0;
  for (;;) {
    if (__builtin_expect((++cnt & 0xfff) == 0, 0)) {
      if (prof) { profSelf[fr->f]++; std::set<Func*> u; for (Frame* x : s.T().st) u.insert(x->f); for (Func* x : u) profIncl[x]++; }
      if (!(cnt & 0xfffff))
      if (now() - gStart > timeLimit || (sh && sh->stop)) { s.steps += cnt; end(&s, END_UNKNOWN, "time limit"); delete sp; return; }
    }
    if (__builtin_expect(s.steps + cnt > maxSteps || (s.limitAt && s.steps + cnt > s.limitAt), 0)) { s.steps += cnt; end(&s, END_LIMIT, "instruction budget exceeded (non-termination)"); delete sp; return; }
    Inst& I = code[fr->pc];
    switch (I.op) {
#define BIN(NAME, EXPRC, EK_) case NAME: { if (__builtin_expect(I.ty->k == T_INT && I.ty->bits <= 64, 1)) { const V &a = VAL(I.a), &b = VAL(I.b); uint32_t w = I.ty->bits; if (__builtin_expect(!a.e && !b.e, 1)) { uint64_t x = a.c, y = b.c; (void)x; (void)y; V& d = R[I.dst]; d.c = (EXPRC) & mask(w); d.h = 0; d.e = nullptr; fr->pc++; break; } } goto slowbin; }
      BIN(O_ADD, x + y, E_ADD) BIN(O_SUB, x - y, E_SUB) BIN(O_MUL, x * y, E_MUL)
      BIN(O_AND, x & y, E_AND) BIN(O_OR, x | y, E_OR) BIN(O_XOR, x ^ y, E_XOR)
      BIN(O_SHL, y >= w ? 0 : x << y, E_SHL) BIN(O_LSHR, y >= w ? 0 : x >> y, E_LSHR)
      case O_UDIV: case O_UREM: case O_SDIV: case O_SREM: case O_ASHR: slowbin: {
        Type* t = I.ty; Type* et = t->k == T_VECTOR ? t->el : t; uint32_t w = et->width(), n = t->slots; static const EK map[] = {E_ADD, E_SUB, E_MUL, E_UDIV, E_SDIV, E_UREM, E_SREM, E_SHL, E_LSHR, E_ASHR, E_AND, E_OR, E_XOR};
        const V *a = VP(I.a), *b = VP(I.b); EK k = map[I.op - O_ADD]; V* d = &R[I.dst];
        for (uint32_t i = 0; i < n; i++) { V r; if (!a[i].e && !b[i].e && w <= 64) {
            uint64_t x = a[i].c, y = b[i].c, z; int64_t sx_ = (int64_t)(x << (64 - w)) >> (64 - w), sy = (int64_t)(y << (64 - w)) >> (64 - w);
            switch (I.op) { case O_ADD: z = x + y; break; case O_SUB: z = x - y; break; case O_MUL: z = x * y; break; case O_AND: z = x & y; break; case O_OR: z = x | y; break; case O_XOR: z = x ^ y; break; case O_SHL: z = y >= w ? 0 : x << y; break; case O_LSHR: z = y >= w ? 0 : x >> y; break;
              case O_UDIV: z = y ? x / y : 0; break; case O_UREM: z = y ? x % y : 0; break; case O_SDIV: z = !sy ? 0 : sy == -1 ? -x : (uint64_t)(sx_ / sy); break; case O_SREM: z = !sy || sy == -1 ? 0 : (uint64_t)(sx_ % sy); break; default: z = (uint64_t)(sx_ >> (y >= w ? w - 1 : y)); }
            r.c = z & mask(w); }
          else setE(r, eBin(k, toE(a[i], w), toE(b[i], w))); d[i] = r; }
        fr->pc++; break; }
      case O_FADD: case O_FSUB: case O_FMUL: case O_FDIV: case O_FREM: {
        Type* et = I.ty->k == T_VECTOR ? I.ty->el : I.ty; uint32_t w = et->width(); bool again = false;
        for (uint32_t i = 0; i < I.ty->slots; i++) for (Opnd o : {I.a, I.b}) { V v = VP(o)[i]; if (v.e) { s.steps += cnt; cnt = 0; if (!concretize(s, v, w)) { delete sp; return; } if (o >= 0) R[o + i] = v; again = true; } }
        if (again) break;
        for (uint32_t i = 0; i < I.ty->slots; i++) { uint64_t xa = VP(I.a)[i].c, xb = VP(I.b)[i].c; V r; 
          auto opf = [&](auto x, auto y) { return I.op == O_FADD ? x + y : I.op == O_FSUB ? x - y : I.op == O_FMUL ? x * y : I.op == O_FDIV ? x / y : std::fmod(x, y); };
          if (et->k == T_F64) { double x, y; memcpy(&x, &xa, 8); memcpy(&y, &xb, 8); double z = opf(x, y); memcpy(&r.c, &z, 8); } else { float x, y; memcpy(&x, &xa, 4); memcpy(&y, &xb, 4); float z = opf(x, y); uint32_t q; memcpy(&q, &z, 4); r.c = q; } R[I.dst + i] = r; }
        fr->pc++; break; }
      case O_FNEG: { uint32_t w = I.ty->width(); V v = VAL(I.a); if (v.e) { s.steps += cnt; cnt = 0; if (!concretize(s, v, w)) { delete sp; return; } } v.c ^= 1ull << (w - 1); R[I.dst] = v; fr->pc++; break; }
      case O_ICMP: {
        Type* t = I.ty2; uint32_t w = t->k == T_VECTOR ? t->el->width() : t->width();
        const V *a = VP(I.a), *b = VP(I.b); uint32_t n = t->slots; V* d = &R[I.dst];
        for (uint32_t i = 0; i < n; i++) { V r;
          if (!a[i].e && !b[i].e) {
            if (w <= 64) { uint64_t x = a[i].c, y = b[i].c; int64_t p = (int64_t)(x << (64 - w)) >> (64 - w), q = (int64_t)(y << (64 - w)) >> (64 - w);
              switch (I.sub) { case P_EQ: r.c = x == y; break; case P_NE: r.c = x != y; break; case P_UGT: r.c = x > y; break; case P_UGE: r.c = x >= y; break; case P_ULT: r.c = x < y; break; case P_ULE: r.c = x <= y; break; case P_SGT: r.c = p > q; break; case P_SGE: r.c = p >= q; break; case P_SLT: r.c = p < q; break; default: r.c = p <= q; } d[i] = r; continue; }
          }
          const E *x = toE(a[i], w), *y = toE(b[i], w); const E* e;
          switch (I.sub) { case P_EQ: e = eCmp(E_EQ, x, y); break; case P_NE: e = eNot(eCmp(E_EQ, x, y)); break; case P_UGT: e = eCmp(E_ULT, y, x); break; case P_UGE: e = eCmp(E_ULE, y, x); break; case P_ULT: e = eCmp(E_ULT, x, y); break; case P_ULE: e = eCmp(E_ULE, x, y); break; case P_SGT: e = eCmp(E_SLT, y, x); break; case P_SGE: e = eCmp(E_SLE, y, x); break; case P_SLT: e = eCmp(E_SLT, x, y); break; default: e = eCmp(E_SLE, x, y); }
          setE(r, e); d[i] = r; }
        fr->pc++; break; }
      case O_FCMP: { Type* t = I.ty2; V va = VAL(I.a), vb = VAL(I.b); if (t->k == T_VECTOR) { s.steps += cnt; end(&s, END_UNSUP, "vector fcmp"); delete sp; return; }
        if (va.e || vb.e) { s.steps += cnt; cnt = 0; if (!concretize(s, va, t->width()) ) { delete sp; return; } if (I.a >= 0) R[I.a] = va; if (!concretize(s, vb, t->width())) { delete sp; return; } if (I.b >= 0) R[I.b] = vb; }
        double x, y; if (t->k == T_F64) { memcpy(&x, &va.c, 8); memcpy(&y, &vb.c, 8); } else { float p, q; memcpy(&p, &va.c, 4); memcpy(&q, &vb.c, 4); x = p; y = q; } bool un = std::isnan(x) || std::isnan(y); bool r = false;
        switch (I.sub) { case F_FALSE: r = false; break; case F_OEQ: r = !un && x == y; break; case F_OGT: r = !un && x > y; break; case F_OGE: r = !un && x >= y; break; case F_OLT: r = !un && x < y; break; case F_OLE: r = !un && x <= y; break; case F_ONE: r = !un && x != y; break; case F_ORD: r = !un; break; case F_UNO: r = un; break; case F_UEQ: r = un || x == y; break; case F_UGT: r = un || x > y; break; case F_UGE: r = un || x >= y; break; case F_ULT: r = un || x < y; break; case F_ULE: r = un || x <= y; break; case F_UNE: r = un || x != y; break; default: r = true; }
        V v; v.c = r; R[I.dst] = v; fr->pc++; break; }
      case O_GEP: {
        V b = VAL(I.a); uint64_t off = I.imm; bool sym = b.e != nullptr; for (auto& g : I.gidx) if (VAL(g.idx).e) sym = true;
        if (!sym) { uint64_t x = b.c + off; for (auto& g : I.gidx) { uint64_t ix = VAL(g.idx).c; if (g.width < 64) ix = (uint64_t)((int64_t)(ix << (64 - g.width)) >> (64 - g.width)); x += ix * g.scale; } V& d = R[I.dst]; d.c = x; d.h = 0; d.e = nullptr; }
        else { const E* x = eBin(E_ADD, toE(b, 64), eConst(off, 64)); for (auto& g : I.gidx) { const E* ix = eSext(toE(VAL(g.idx), g.width), 64); x = eBin(E_ADD, x, eBin(E_MUL, ix, eConst(g.scale, 64))); } setE(R[I.dst], x); }
        fr->pc++; break; }
      case O_LOAD: {
        const V& p = VAL(I.a);
        if (__builtin_expect(p.e != nullptr, 0)) {
          // symbolic address: enumerate feasible addresses; build an if-then-else over the loaded values
          const E* e = p.e; vector<uint64_t> addrs; bool ok = false; uint64_t fx; bool hasFx = false; for (auto& f : s.fixed) if (f.first == e) { fx = f.second; hasFx = true; }
          s.steps += cnt; cnt = 0;
          if (hasFx) { V v; v.c = fx; R[I.a] = v; break; }
          if (I.ty->scalar() && I.ty->k != T_PTR && I.ty->width() <= 64) {
            if (!gNoFast && e->svar >= 0 && !s.pc.linked.get(e->svar)) { const uint64_t* t = valueTable(e); Bits256 d = e->svar < (int)s.pc.dom.size() ? s.pc.dom[e->svar] : Bits256::full(); std::set<uint64_t> q; for (int i = 0; i < 256; i++) if (d.get(i)) q.insert(t[i]); addrs.assign(q.begin(), q.end()); ok = true; }
            else { PathCons pc = s.pc; vector<uint8_t> m = pc.model; ok = true; for (;;) { uint64_t x = (uint64_t)evalModel(e, m); addrs.push_back(x); if (addrs.size() > 64) { ok = false; break; } pc.add(eNot(eCmp(E_EQ, e, eConst(x, 64)))); vector<uint8_t> m2; Res q = z3Full(pc, nullptr, &m2); if (q == UNSAT) break; if (q == UNKNOWN) { ok = false; break; } m = m2; } }
          }
          if (ok && addrs.size() > 1) {
            bool allMapped = true; for (auto a : addrs) if (!mapped(s, a, I.ty->size)) allMapped = false;
            if (allMapped) { std::map<std::pair<const E*, uint64_t>, vector<uint64_t>> groups; for (auto a : addrs) { V v; load(s, a, I.ty, v); groups[{v.e, v.c}].push_back(a); }
              const E* r = nullptr; uint32_t w = I.ty->width(); vector<std::pair<std::pair<const E*, uint64_t>, vector<uint64_t>>> gv(groups.begin(), groups.end()); std::sort(gv.begin(), gv.end(), [](auto& x, auto& y) { return x.second.size() > y.second.size(); });
              for (auto& g : gv) { const E* vv = g.first.first ? g.first.first : eConst(g.first.second, w); if (!r) { r = vv; continue; } const E* c = eConst(0, 1); for (auto a : g.second) c = eBin(E_OR, c, eCmp(E_EQ, e, eConst(a, 64))); r = eIte(c, vv, r); }
              setE(R[I.dst], r); fr->pc++; break; }
          }
          V v = p; if (!concretize(s, v, 64, 600)) { delete sp; return; } if (I.a >= 0) R[I.a] = v; break;
        }
        uint64_t a = p.c; Type* t = I.ty;
        if (__builtin_expect(!mapped(s, a, t->k == T_INT ? (t->bits + 7) / 8 : t->size), 0)) { s.steps += cnt; char b[64]; snprintf(b, 64, "invalid load at 0x%lx", (unsigned long)a); end(&s, END_UNSUP, b); delete sp; return; }
        if (t->k == T_PTR || (t->k == T_INT && t->bits <= 64)) { uint32_t n = t->k == T_PTR ? 8 : (t->bits + 7) / 8; uint64_t o = a & (PG - 1); const Page* pg;
          if (o + n <= PG && (pg = rpage(*this, s, a)) && !pg->sym) { V& d = R[I.dst]; d.c = 0; memcpy(&d.c, pg->d + o, n); if (t->k == T_INT) d.c &= mask(t->bits); d.h = 0; d.e = nullptr; }
          else load(s, a, t, R[I.dst]); }
        else if (t->scalar()) load(s, a, t, R[I.dst]);
        else { const auto& lv = prog.leaves(t); for (size_t i = 0; i < lv.size(); i++) load(s, a + lv[i].off, lv[i].ty, R[I.dst + i]); }
        fr->pc++; break; }
      case O_STORE: {
        if (VAL(I.b).e) { uint64_t x; s.steps += cnt; cnt = 0; if (!conc(s, I.b, 64, x, 600)) { delete sp; return; } break; }
        uint64_t a = VAL(I.b).c; Type* t = I.ty;
        if (__builtin_expect(!mapped(s, a, t->k == T_INT ? (t->bits + 7) / 8 : t->size), 0)) { s.steps += cnt; char b[160]; snprintf(b, 160, "invalid store at 0x%lx size %lu heap end 0x%lx pc %u", (unsigned long)a, (unsigned long)t->size, (unsigned long)s.heap, fr->pc); end(&s, END_UNSUP, b); delete sp; return; }
        if (t->scalar()) store(s, a, t, VAL(I.a)); else { const auto& lv = prog.leaves(t); const V* v = VP(I.a); if (t->k == T_VECTOR && t->el->bits == 1) { s.steps += cnt; end(&s, END_UNSUP, "store <n x i1>"); delete sp; return; } for (size_t i = 0; i < lv.size(); i++) store(s, a + lv[i].off, lv[i].ty, v[i]); }
        fr->pc++; break; }
      case O_ALLOCA: { uint64_t n; if (VAL(I.a).e) { s.steps += cnt; cnt = 0; if (!conc(s, I.a, 64, n)) { delete sp; return; } } else n = VAL(I.a).c; Thread& t = s.T(); uint64_t al = I.imm ? I.imm : 1; uint64_t a = (t.sp + al - 1) / al * al; t.sp = a + std::max<uint64_t>(1, n * I.ty->size); V& d = R[I.dst]; d.c = a; d.e = nullptr; d.h = 0; fr->pc++; break; }
      case O_FENCE: fr->pc++; break;
      case O_CMPXCHG: {
        if (VAL(I.a).e) { uint64_t x; s.steps += cnt; cnt = 0; if (!conc(s, I.a, 64, x)) { delete sp; return; } break; }
        if (maxPreempt && s.th.size() > 1) { yieldPoint(s); enter(); }
        uint64_t a = VAL(I.a).c; if (!mapped(s, a, I.ty2->size)) { s.steps += cnt; end(&s, END_UNSUP, "invalid cmpxchg address"); delete sp; return; } V old; load(s, a, I.ty2, old); V c = VAL(I.b); uint32_t w = I.ty2->width(); V ok;
        if (old.e || c.e) { const E* e = eCmp(E_EQ, toE(old, w), toE(c, w)); setE(ok, e); s.steps += cnt; cnt = 0; if (!concretize(s, ok, 1)) { delete sp; return; } enter(); } else ok.c = old.c == c.c && old.h == c.h;
        if (ok.c) store(s, a, I.ty2, VAL(I.c)); R[I.dst] = old; R[I.dst + 1] = ok; fr->pc++; break; }
      case O_ATOMICRMW: {
        if (VAL(I.a).e) { uint64_t x; s.steps += cnt; cnt = 0; if (!conc(s, I.a, 64, x)) { delete sp; return; } break; }
        if (maxPreempt && s.th.size() > 1) { yieldPoint(s); enter(); }
        uint64_t a = VAL(I.a).c; if (!mapped(s, a, I.ty->size)) { s.steps += cnt; end(&s, END_UNSUP, "invalid atomicrmw address"); delete sp; return; } V old; load(s, a, I.ty, old); V b = VAL(I.b); uint32_t w = I.ty->width(); V nv; const E *x = toE(old, w), *y = toE(b, w); const string& o = I.str;
        if (o == "xchg") nv = b; else if (o == "add") setE(nv, eBin(E_ADD, x, y)); else if (o == "sub") setE(nv, eBin(E_SUB, x, y)); else if (o == "and") setE(nv, eBin(E_AND, x, y)); else if (o == "or") setE(nv, eBin(E_OR, x, y)); else if (o == "xor") setE(nv, eBin(E_XOR, x, y)); else if (o == "nand") setE(nv, eNot(eBin(E_AND, x, y))); else if (o == "umax") setE(nv, eIte(eCmp(E_ULT, x, y), y, x)); else if (o == "umin") setE(nv, eIte(eCmp(E_ULT, x, y), x, y)); else if (o == "max") setE(nv, eIte(eCmp(E_SLT, x, y), y, x)); else setE(nv, eIte(eCmp(E_SLT, x, y), x, y));
        store(s, a, I.ty, nv); R[I.dst] = old; fr->pc++; break; }
      case O_TRUNCT: case O_ZEXT: case O_SEXT: {
        Type *t = I.ty, *u = I.ty2; uint32_t dw = t->k == T_VECTOR ? t->el->bits : t->bits, sw = u->k == T_VECTOR ? u->el->bits : u->bits; const V* a = VP(I.a);
        for (uint32_t i = 0; i < t->slots; i++) { V r; if (!a[i].e) { if (dw <= 64 && sw <= 64) { uint64_t x = a[i].c; if (I.op == O_SEXT) x = (uint64_t)((int64_t)(x << (64 - sw)) >> (64 - sw)); r.c = x & mask(dw); } else { const E* e = eConst(a[i].c, sw, a[i].h); setE(r, I.op == O_TRUNCT ? eExtract(e, 0, dw) : I.op == O_ZEXT ? eZext(e, dw) : eSext(e, dw)); } }
          else setE(r, I.op == O_TRUNCT ? eExtract(a[i].e, 0, dw) : I.op == O_ZEXT ? eZext(a[i].e, dw) : eSext(a[i].e, dw)); R[I.dst + i] = r; }
        fr->pc++; break; }
      case O_NOPCAST: { V v = VAL(I.a); Type *t = I.ty, *u = I.ty2; if (t->slots != 1) { const V* a = VP(I.a); for (uint32_t i = 0; i < t->slots; i++) R[I.dst + i] = a[i]; fr->pc++; break; } uint32_t dw = t->width(), sw = u->width(); if (dw != sw) { if (v.e) setE(v, dw < sw ? eExtract(v.e, 0, dw) : eZext(v.e, dw)); else v.c &= mask(dw); } R[I.dst] = v; fr->pc++; break; }
      case O_FPTRUNC: case O_FPEXT: case O_FPTOUI: case O_FPTOSI: case O_UITOFP: case O_SITOFP: {
        V v = VAL(I.a); if (I.ty->k == T_VECTOR) { s.steps += cnt; end(&s, END_UNSUP, "vector fp cast"); delete sp; return; } if (v.e) { s.steps += cnt; cnt = 0; if (!concretize(s, v, I.ty2->width())) { delete sp; return; } if (I.a >= 0) R[I.a] = v; }
        V r; uint32_t sw = I.ty2->width(), dw = I.ty->width(); auto getf = [&]() -> double { if (I.ty2->k == T_F64) { double d; memcpy(&d, &v.c, 8); return d; } float f; memcpy(&f, &v.c, 4); return f; }; auto putf = [&](double d) { if (I.ty->k == T_F64) memcpy(&r.c, &d, 8); else { float f = (float)d; uint32_t q; memcpy(&q, &f, 4); r.c = q; } };
        if (I.op == O_FPTRUNC || I.op == O_FPEXT) putf(getf()); else if (I.op == O_FPTOUI) r.c = (uint64_t)getf() & mask(dw); else if (I.op == O_FPTOSI) r.c = (uint64_t)(int64_t)getf() & mask(dw);
        else if (I.op == O_UITOFP) { if (I.ty->k == T_F32) { float f = (float)v.c; uint32_t q; memcpy(&q, &f, 4); r.c = q; } else putf((double)v.c); } else { int64_t x = (int64_t)(v.c << (64 - sw)) >> (64 - sw); if (I.ty->k == T_F32) { float f = (float)x; uint32_t q; memcpy(&q, &f, 4); r.c = q; } else putf((double)x); }
        R[I.dst] = r; fr->pc++; break; }
      case O_BITCAST: {
        Type *t = I.ty, *u = I.ty2; const V* a = VP(I.a);
        if (t->slots == u->slots) { vector<V> tmp(a, a + t->slots); for (uint32_t i = 0; i < t->slots; i++) R[I.dst + i] = tmp[i]; fr->pc++; break; }
        uint32_t sw = u->k == T_VECTOR ? u->el->width() : u->width(), dw = t->k == T_VECTOR ? t->el->width() : t->width(); bool sym = false; for (uint32_t i = 0; i < u->slots; i++) if (a[i].e) sym = true;
        vector<V> out(t->slots);
        if (!sym) { vector<bool> bits; for (uint32_t i = 0; i < u->slots; i++) for (uint32_t j = 0; j < sw; j++) bits.push_back(j < 64 ? a[i].c >> j & 1 : a[i].h >> (j - 64) & 1); for (uint32_t i = 0; i < t->slots; i++) for (uint32_t j = 0; j < dw; j++) if (bits[i * dw + j]) { if (j < 64) out[i].c |= 1ull << j; else out[i].h |= 1ull << (j - 64); } }
        else if (dw < sw) { uint32_t k = sw / dw; for (uint32_t i = 0; i < t->slots; i++) setE(out[i], eExtract(toE(a[i / k], sw), (i % k) * dw, dw)); }
        else { uint32_t k = dw / sw; for (uint32_t i = 0; i < t->slots; i++) { const E* e = toE(a[i * k], sw); for (uint32_t j = 1; j < k; j++) e = eConcat(toE(a[i * k + j], sw), e); setE(out[i], e); } }
        for (uint32_t i = 0; i < t->slots; i++) R[I.dst + i] = out[i]; fr->pc++; break; }
      case O_SELECT: {
        const V *c = VP(I.a), *a = VP(I.b), *b = VP(I.c); uint32_t n = I.ty->slots; bool vec = I.ty2->k == T_VECTOR;
        V cs; if (!vec && c->e) { const E* k = simplify(s.pc, c->e, 4); if (k->k == E_CONST) { cs.c = k->lo; c = &cs; } }
        if (!vec && !c->e) { const V* p = c->c ? a : b; if (n == 1) R[I.dst] = *p; else { vector<V> tmp(p, p + n); for (uint32_t i = 0; i < n; i++) R[I.dst + i] = tmp[i]; } fr->pc++; break; }
        bool allsame = true; for (uint32_t i = 0; i < n; i++) if (a[i].e != b[i].e || a[i].c != b[i].c) allsame = false;
        if (allsame) { vector<V> tmp(a, a + n); for (uint32_t i = 0; i < n; i++) R[I.dst + i] = tmp[i]; fr->pc++; break; }
        bool ptr = false; for (auto& l : prog.leaves(I.ty)) if (l.ty->k == T_PTR || l.ty->k == T_F64 || l.ty->k == T_F32) ptr = true;
        if (!vec && ptr) { V v = *c; s.steps += cnt; cnt = 0; if (!concretize(s, v, 1)) { delete sp; return; } enter(); if (I.a >= 0) R[I.a] = v; break; }
        { const auto& lv = prog.leaves(I.ty); vector<V> out(n); for (uint32_t i = 0; i < n; i++) { uint32_t w = lv[i].ty->width(); const V& ci = vec ? c[i] : c[0]; if (!ci.e) out[i] = ci.c ? a[i] : b[i]; else setE(out[i], eIte(ci.e, toE(a[i], w), toE(b[i], w))); } for (uint32_t i = 0; i < n; i++) R[I.dst + i] = out[i]; }
        fr->pc++; break; }
      case O_FREEZE: { const V* a = VP(I.a); uint32_t n = I.ty->slots; vector<V> tmp(a, a + n); for (uint32_t i = 0; i < n; i++) R[I.dst + i] = tmp[i]; fr->pc++; break; }
      case O_EXTRACTVALUE: { const V* a = VP(I.a) + I.imm; uint32_t n = I.ty->slots; if (n == 1) R[I.dst] = *a; else { vector<V> tmp(a, a + n); for (uint32_t i = 0; i < n; i++) R[I.dst + i] = tmp[i]; } fr->pc++; break; }
      case O_INSERTVALUE: { const V* a = VP(I.a); const V* b = VP(I.b); uint32_t n = I.ty->slots; vector<V> tmp(a, a + n); for (uint32_t i = 0; i < I.ty2->slots; i++) tmp[I.imm + i] = b[i]; for (uint32_t i = 0; i < n; i++) R[I.dst + i] = tmp[i]; fr->pc++; break; }
      case O_EXTRACTELEMENT: { uint64_t ix; s.steps += cnt; cnt = 0; if (!conc(s, I.b, 64, ix)) { delete sp; return; } R[I.dst] = VP(I.a)[ix < I.ty2->n ? ix : 0]; fr->pc++; break; }
      case O_INSERTELEMENT: { uint64_t ix; s.steps += cnt; cnt = 0; if (!conc(s, I.c, 64, ix)) { delete sp; return; } const V* a = VP(I.a); uint32_t n = I.ty->slots; vector<V> tmp(a, a + n); if (ix < n) tmp[ix] = VAL(I.b); for (uint32_t i = 0; i < n; i++) R[I.dst + i] = tmp[i]; fr->pc++; break; }
      case O_SHUFFLE: { const V *a = VP(I.a), *b = VP(I.b); int n = I.ty2->n; vector<V> out(I.mask.size()); for (size_t i = 0; i < I.mask.size(); i++) { int m = I.mask[i]; out[i] = m < n ? a[m] : b[m - n]; } for (size_t i = 0; i < out.size(); i++) R[I.dst + i] = out[i]; fr->pc++; break; }
      case O_BR: takeEdge(I.edges[0]); break;
      case O_CONDBR: {
        const V& c = VAL(I.a); if (__builtin_expect(!c.e, 1)) { takeEdge(I.edges[c.c ? 0 : 1]); break; }
        symBranches++; const E* e = simplify(s.pc, c.e, 8); if (e->k == E_CONST) { takeEdge(I.edges[e->lo ? 0 : 1]); break; }
        // a conjunction or disjunction of conditions on different bytes: decide the first of them on its own, so that the bytes stay independent
        if (e->svar == -2 && gSplit) { int budget = gSplit; const E* l = splitLeaf(e, budget); if (l && !s.pc.linked.get(l->svar)) {
          vector<uint8_t> ml, mn; Res a = mayBe(s.pc, l, &ml), b = mayBe(s.pc, eNot(l), &mn);
          if (a == SAT && b == SAT) { State* n = fork(s); n->steps = s.steps + cnt; n->pc.add(eNot(l)); n->pc.model = mn; enter(); work.push_back(n); s.pc.add(l); s.pc.model = ml; if (maxProcs > 1 || bfs) { s.steps += cnt; work.push_back(sp); return; } break; } } }
        vector<uint8_t> mt, mf; Res rt = mayBe(s.pc, e, &mt), rf = mayBe(s.pc, eNot(e), &mf);
        if (rt == UNKNOWN || rf == UNKNOWN) { s.steps += cnt; end(&s, END_UNKNOWN, "solver gave no answer at a branch"); delete sp; return; }
        if (rt == SAT && rf == SAT) {
          State* n = fork(s); n->steps = s.steps + cnt; n->pc.add(eNot(e)); n->pc.model = mf; enter(); takeEdgeIn(n, I.edges[1]); work.push_back(n);
          s.pc.add(e); s.pc.model = mt; takeEdge(I.edges[0]);
          if (maxProcs > 1 || bfs) { s.steps += cnt; work.push_back(sp); return; }
        } else if (rt == SAT) takeEdge(I.edges[0]); else if (rf == SAT) takeEdge(I.edges[1]); else { s.steps += cnt; end(&s, END_UNKNOWN, "infeasible path"); fprintf(stderr, "ENGINE: infeasible path\n"); delete sp; return; }
        break; }
      case O_SWITCH: {
        const V& c = VAL(I.a); if (__builtin_expect(!c.e, 1)) { int e = I.edges[0]; for (auto& cs : I.cases) if (cs.first == c.c) { e = cs.second; break; } takeEdge(e); break; }
        symBranches++; uint32_t w = I.ty->bits; std::map<int, const E*> conds; const E* dflt = eConst(1, 1); for (auto& cs : I.cases) { const E* q = eCmp(E_EQ, c.e, eConst(cs.first, w)); auto it = conds.find(cs.second); if (it == conds.end()) conds[cs.second] = q; else it->second = eBin(E_OR, it->second, q); dflt = eBin(E_AND, dflt, eNot(q)); }
        { auto it = conds.find(I.edges[0]); if (it == conds.end()) conds[I.edges[0]] = dflt; else it->second = eBin(E_OR, it->second, dflt); }
        struct O { int e; const E* c; vector<uint8_t> m; }; vector<O> os; bool unk = false; for (auto& p : conds) { vector<uint8_t> m; Res r = mayBe(s.pc, p.second, &m); if (r == SAT) os.push_back({p.first, p.second, m}); else if (r == UNKNOWN) unk = true; }
        if (unk || os.empty()) { s.steps += cnt; end(&s, END_UNKNOWN, "solver gave no answer at a switch"); delete sp; return; }
        for (size_t i = 1; i < os.size(); i++) { State* n = fork(s); n->steps = s.steps + cnt; n->pc.add(os[i].c); n->pc.model = os[i].m; takeEdgeIn(n, os[i].e); work.push_back(n); }
        if (os.size() > 1) { enter(); s.pc.add(os[0].c); s.pc.model = os[0].m; }
        takeEdge(os[0].e); if (os.size() > 1 && (maxProcs > 1 || bfs)) { s.steps += cnt; work.push_back(sp); return; } break; }
      case O_RET: {
        Thread& t = s.T(); Frame* f = fr; uint32_t n = I.ty->k == T_VOID ? 0 : I.ty->slots; const V* v = n ? VP(I.a) : nullptr; t.sp = f->sp0; t.st.pop_back();
        if (t.st.empty()) { // thread finished
          if (s.cur == 0) { s.steps += cnt; if (!--f->ref) delete f; end(&s, END_OK, ""); delete sp; return; }
          t.status = TH_DONE; for (auto& o : s.th) if (o.status == TH_JOIN && o.waitOn == (uint64_t)s.cur) o.status = TH_RUN;
          if (!--f->ref) delete f; s.steps += cnt; cnt = 0; if (!schedule(s, false)) { delete sp; return; } enter(); break; }
        Inst* call = f->call; Frame*& g = t.st.back(); if (g->ref > 1) { Frame* c = new Frame(*g); g->ref--; g = c; }
        if (call) for (uint32_t i = 0; i < n; i++) g->r[call->dst + i] = v[i];
        if (!--f->ref) delete f; enter(); fr->pc++; break; }
      case O_CALL: {
        if (I.sub == 1) { // inline asm
          const string& a = I.str; if (a.empty()) { if (I.ty->k != T_VOID && !I.args.empty()) { const V* v = VP(I.args[0]); for (uint32_t i = 0; i < I.ty->slots; i++) R[I.dst + i] = v[i]; } fr->pc++; break; }
          if (a.find("cpuid") != string::npos || a.find("xgetbv") != string::npos) { for (uint32_t i = 0; i < I.ty->slots; i++) R[I.dst + i] = V{}; fr->pc++; break; }
          if (a.find("div ") == 0) { bool symv = false; for (auto o : I.args) if (VAL(o).e) symv = true; if (!symv) { u128 num = ((u128)VAL(I.args[2]).c << 64) | VAL(I.args[1]).c; uint64_t dv = VAL(I.args[0]).c; if (dv) { V q, r; q.c = (uint64_t)(num / dv); r.c = (uint64_t)(num % dv); R[I.dst] = q; R[I.dst + 1] = r; fr->pc++; break; } } }
          s.steps += cnt; end(&s, END_UNSUP, "inline asm: " + a.substr(0, 40)); delete sp; return; }
        Func* f = I.callee;
        if (I.sub == 2) { const V& p = VAL(I.a); if (p.e) { uint64_t x; s.steps += cnt; cnt = 0; if (!conc(s, I.a, 64, x)) { delete sp; return; } enter(); break; } f = prog.funcAt(p.c); if (!f) { s.steps += cnt; { char b[64]; snprintf(b, 64, "bad indirect call to 0x%lx", (unsigned long)p.c); end(&s, END_UNSUP, b); }; delete sp; return; } }
        if (!f->lookedUp) { f->lookedUp = true; f->intrin = (Intrin)lookupIntrin(f->base, f->name);
          // compiling a regex is a pure function of its text: the harness keeps the ones already compiled
          if (!f->intrin && f->name.find("5Regex3new") != string::npos && f->demangled() == "regex::regex::string::Regex::new") f->redirect = prog.findFunc(nullptr, "vf_regex_new");
          // the end of the program and its arguments
          if (!f->intrin && f->name.find("7process4exit") != string::npos && f->demangled() == "std::process::exit") f->redirect = prog.findFunc(nullptr, "vf_exit");
          if (!f->intrin && f->name == "vf_init_args") for (auto& m : prog.mods) for (auto& [n, g] : m->lfuncs) if (n.find("ARGV_INIT_ARRAY12init_wrapper") != string::npos) f->redirect = g;
          // the bytes of a workbook file: the harness keeps the workbook itself instead
          if (!f->intrin && f->name.find("umya_spreadsheet") != string::npos && f->name.find("4xlsx") != string::npos) {
            string d = f->demangled(); f->book = true;
            if (d == "umya_spreadsheet::writer::xlsx::make_buffer") f->redirect = prog.findFunc(nullptr, "vf_xlsx_bytes");
            if (d == "umya_spreadsheet::reader::xlsx::read_reader" && I.args.size() == 3 && I.argtys[1]->width() == 32) f->redirect = prog.findFunc(nullptr, "vf_xlsx_parse"); } }
        if (f->redirect && fr->f != f->redirect && !(f->book && s.realBooks)) f = f->redirect;
        if (f->intrin) {
          s.steps += cnt; cnt = 0; int r = ((IntrinFn)f->intrin)(*this, s, I);
          if (r == -1) goto plaincall; if (r == 0) { enter(); fr->pc++; break; } if (r == 2 || r == 3) { enter(); break; }
          if (dead) { delete sp; return; } enter(); break; }
        plaincall:
        if (!f->defined) { Func* d = prog.findFunc(nullptr, f->name); if (d && d->defined) f = d; else { s.steps += cnt; end(&s, END_UNSUP, "external function " + f->demangled()); delete sp; return; } }
        if (!f->decoded) { try { prog.decode(f); } catch (std::exception& ex) { s.steps += cnt; end(&s, END_UNSUP, string("decode: ") + ex.what()); delete sp; return; } }
        if (!f->counted) { f->counted = true; execd.insert(f); }
        Thread& t = s.T(); if (__builtin_expect(t.st.size() > 6000, 0)) { s.steps += cnt; end(&s, END_LIMIT, "stack depth (unbounded recursion) in " + f->demangled()); delete sp; return; }
        Frame* nf = new Frame(f, s.cur); nf->sp0 = t.sp; nf->call = &I; size_t na = std::min(I.args.size(), f->params.size());
        for (size_t i = 0; i < na; i++) { const V* v = VP(I.args[i]); uint32_t n = f->params[i].ty->slots; V* d = nf->r + f->paramslots[i]; for (uint32_t j = 0; j < n; j++) d[j] = v[j]; }
        t.st.push_back(nf); fr = nf; R = nf->r; code = f->code.data(); K = f->consts.data(); break; }
      case O_LANDINGPAD: case O_RESUME: s.steps += cnt; end(&s, END_UNSUP, "unwinding"); delete sp; return;
      case O_UNREACHABLE: s.steps += cnt; end(&s, END_UNSUP, "reached unreachable in " + fr->f->demangled()); delete sp; return;
      case O_UNSUPPORTED: s.steps += cnt; end(&s, END_UNSUP, "unsupported instruction " + I.str + " in " + fr->f->demangled()); delete sp; return;
    }
  }
}

// ------------------------------------------------------------ driver
void Exec::finish() {
  string o; auto kv = [&](const string& k, const string& v) { o += "\"" + k + "\":" + v + ","; };
  o = "{"; kv("steps", std::to_string(totalSteps)); kv("forks", std::to_string(forks)); kv("symbranches", std::to_string(symBranches));
  string es = "{"; for (int i = 0; i < 9; i++) es += string(i ? "," : "") + "\"" + endName[i] + "\":" + std::to_string(ends[i]); kv("ends", es + "}");
  kv("z3", "{\"queries\":" + std::to_string(gSS.z3) + ",\"sat\":" + std::to_string(gSS.z3sat) + ",\"unsat\":" + std::to_string(gSS.z3unsat) + ",\"unknown\":" + std::to_string(gSS.z3unknown) + ",\"secs\":" + std::to_string(gSS.secs) + ",\"domain\":" + std::to_string(gSS.fast) + ",\"cache\":" + std::to_string(gSS.cacheHit) + ",\"model\":" + std::to_string(gSS.modelHit) + ",\"audit\":" + std::to_string(gSS.audit) + "}");
  auto smap = [&](auto& m) { string q = "{"; bool f = true; for (auto& p : m) { q += (f ? "" : ",") + ("\"" + jesc(p.first) + "\":" + std::to_string(p.second)); f = false; } return q + "}"; };
  if (prof) { for (auto* m : {&profSelf, &profIncl}) { vector<std::pair<uint64_t, Func*>> v; for (auto& p : *m) v.push_back({p.second, p.first}); sort(v.rbegin(), v.rend()); fprintf(stderr, m == &profSelf ? "-- self\n" : "-- inclusive\n"); for (size_t i = 0; i < v.size() && i < 60; i++) fprintf(stderr, "%lu %s\n", (unsigned long)v[i].first, v[i].second->demangled().c_str()); } }
  kv("violations", smap(violations)); kv("asserts", smap(asserts)); kv("problems", smap(problems));
  string w = "["; bool f = true; for (auto& x : witnesses) { w += (f ? "" : ",") + ("\"" + jesc(x) + "\""); f = false; } kv("witnesses", w + "]");
  w = "["; f = true; for (auto x : execd) { w += (f ? "" : ",") + ("\"" + jesc(x->demangled()) + "\""); f = false; } kv("funcs", w + "]");
  w = "["; f = true; for (auto& x : recs) { w += (f ? "" : ",") + x; f = false; } kv("recs", w + "]");
  o += "\"exprs\":" + std::to_string(eCount()) + ",\"maxcons\":" + std::to_string(maxConstraints) + ",\"assertq\":" + std::to_string(assertQueries) + "}\n";
  int fd = open(outPath.c_str(), O_WRONLY | O_CREAT | O_APPEND, 0644); size_t k = 0; while (k < o.size()) { ssize_t n = write(fd, o.data() + k, o.size() - k); if (n <= 0) break; k += n; } close(fd);
}
void Exec::loop() {
  double lastSplit = 0; bool child = false; vector<pid_t> kids;
  for (;;) {
    while (!work.empty()) {
      if (now() - gStart > timeLimit || (sh && sh->stop)) { for (auto s : work) { end(s, END_UNKNOWN, "time limit"); delete s; } work.clear(); break; }
      if (maxProcs > 1 && work.size() >= 2 && sh->active < maxProcs && (now() - lastSplit > 0.02)) {
        int n = __sync_add_and_fetch(&sh->active, 1);
        if (n > maxProcs) __sync_fetch_and_sub(&sh->active, 1);
        else {
          pid_t p = ::fork();
          if (p == 0) { // child: takes every other state, fresh statistics
            std::deque<State*> mine; size_t i = 0; for (auto s : work) { if (i++ % 2) mine.push_back(s); else delete s; } work.swap(mine); child = true; kids.clear();
            totalSteps = 0; forks = 0; symBranches = 0; assertQueries = 0; for (auto& e : ends) e = 0; violations.clear(); asserts.clear(); problems.clear(); recs.clear(); witnesses.clear(); gSS = SolverStats(); lastSplit = now();
          } else if (p > 0) { kids.push_back(p); std::deque<State*> mine; size_t i = 0; for (auto s : work) { if (i++ % 2) delete s; else mine.push_back(s); } work.swap(mine); lastSplit = now(); }
          else __sync_fetch_and_sub(&sh->active, 1);
        }
      }
      State* s; if (bfs) { s = work.front(); work.pop_front(); } else { s = work.back(); work.pop_back(); }
      runState(s);
    }
    break;
  }
  finish(); if (sh) __sync_fetch_and_sub(&sh->active, 1);
  for (auto p : kids) { int st; waitpid(p, &st, 0); if (!WIFEXITED(st) || WEXITSTATUS(st) != 0) { fprintf(stderr, "worker died: status %d\n", st); int fd = open(outPath.c_str(), O_WRONLY | O_CREAT | O_APPEND, 0644); const char* m = "{\"died\":1}\n"; if (write(fd, m, strlen(m))) {} close(fd); } }
  if (child) _exit(0);
}
void Exec::run(const string& entry) {
  gStart = now(); solverInit();
  sh = (Shared*)mmap(nullptr, 4096, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0); sh->active = 1; sh->stop = 0;
  Func* f = prog.findFunc(nullptr, entry); if (!f->defined) { fprintf(stderr, "no entry %s\n", entry.c_str()); exit(3); }
  State* s = new State; s->th.emplace_back(); s->th[0].sp = s->th[0].spBase = 0x300000000ull + 1024; pushCall(*s, f, {}, nullptr); work.push_back(s);
  loop();
}
