#include "exec.h"
#include <sys/resource.h>
#include <unistd.h>
#include <fstream>
int main(int argc, char** argv) {
  // deep expression recursion: re-exec with a large stack
  struct rlimit rl; getrlimit(RLIMIT_STACK, &rl); if (rl.rlim_cur != RLIM_INFINITY && rl.rlim_cur < (1ull << 30) && !getenv("VF_STACK")) { rl.rlim_cur = rl.rlim_max == RLIM_INFINITY ? 1ull << 30 : rl.rlim_max; setrlimit(RLIMIT_STACK, &rl); setenv("VF_STACK", "1", 1); execv("/proc/self/exe", argv); }
  Exec X; std::string entry, list; 
  for (int i = 1; i < argc; i++) { std::string a = argv[i]; auto nx = [&]() { return std::string(argv[++i]); };
    if (a == "--entry") entry = nx(); else if (a == "--out") X.outPath = nx(); else if (a == "--list") list = nx(); else if (a == "--delays") X.maxDelay = atoi(nx().c_str()); else if (a == "--procs") X.maxProcs = atoi(nx().c_str()); else if (a == "--time") X.timeLimit = atof(nx().c_str()); else if (a == "--max-steps") X.maxSteps = strtoull(nx().c_str(), 0, 10); else if (a == "--preempt") X.maxPreempt = atoi(nx().c_str()); else if (a == "--one-schedule") X.oneSched = true; else if (a == "--split") gSplit = atoi(nx().c_str()); else if (a == "--bfs") X.bfs = true; else if (a == "--no-fast") gNoFast = true; else if (a == "--rlimit") gRlimit = strtoull(nx().c_str(), 0, 10); else if (a == "--trace") X.trace = true; else { fprintf(stderr, "bad option %s\n", a.c_str()); return 3; } }
  X.prog.wctx = &X;
  X.prog.writeBase = [](void* c, uint64_t a, const uint8_t* d, size_t n) { Exec* X = (Exec*)c; for (size_t i = 0; i < n;) { Page* p = X->base.writable(a + i, nullptr); size_t o = (a + i) & (PG - 1), k = std::min<size_t>(n - i, PG - o); memcpy(p->d + o, d + i, k); i += k; } };
  try { std::ifstream f(list); std::string l; while (std::getline(f, l)) if (!l.empty()) X.prog.load(l); }
  catch (std::exception& e) { fprintf(stderr, "load: %s\n", e.what()); return 3; }
  X.run(entry); return 0;
}
