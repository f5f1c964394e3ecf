// Perturbs the native schedule when a counterexample that depends on one is replayed: threads start,
// and files are opened, after a delay drawn from VF_DELAY_SEED.
#define _GNU_SOURCE
#include <dlfcn.h>
#include <pthread.h>
#include <stdarg.h>
#include <stdlib.h>
#include <fcntl.h>
#include <unistd.h>
static unsigned long long st;
static pthread_mutex_t mu = PTHREAD_MUTEX_INITIALIZER;
static void nap(void) {
  pthread_mutex_lock(&mu);
  if (!st) { const char* s = getenv("VF_DELAY_SEED"); st = (s ? strtoull(s, 0, 10) : 1) * 0x9E3779B97F4A7C15ull + 1; }
  st ^= st << 13; st ^= st >> 7; st ^= st << 17;
  unsigned us = st % 4 ? (st >> 8) % 3000 : 0;
  pthread_mutex_unlock(&mu);
  if (us) usleep(us);
}
struct start { void* (*f)(void*); void* a; };
static void* run(void* p) { struct start s = *(struct start*)p; free(p); nap(); return s.f(s.a); }
int pthread_create(pthread_t* t, const pthread_attr_t* at, void* (*f)(void*), void* a) {
  int (*real)(pthread_t*, const pthread_attr_t*, void* (*)(void*), void*) = dlsym(RTLD_NEXT, "pthread_create");
  struct start* s = malloc(sizeof *s); s->f = f; s->a = a;
  int r = real(t, at, run, s);
  if (!r) nap();
  return r;
}
int open64(const char* path, int flags, ...) {
  int (*real)(const char*, int, ...) = dlsym(RTLD_NEXT, "open64");
  va_list v; va_start(v, flags); int mode = va_arg(v, int); va_end(v);
  nap();
  return real(path, flags, mode);
}
