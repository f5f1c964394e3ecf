// Injects faults into the file operations of a replay, as engine/env.cpp (fault) does in the engine: those on
// files below the directory that is the current one when vf_shim_fault is called.
#define _GNU_SOURCE
#include <dlfcn.h>
#include <errno.h>
#include <fcntl.h>
#include <stdarg.h>
#include <string.h>
#include <sys/stat.h>
#include <unistd.h>
static int kind, reads_, dead;
static unsigned long n_, arg_, ops;
static char cwd[4096], counted[4096];
#define REAL(name) ((__typeof__(&name))dlsym(RTLD_NEXT, #name))
unsigned long vf_shim_fault(unsigned long k, unsigned long r, unsigned long n, unsigned long a) {
  unsigned long before = ops;
  kind = (int)k; reads_ = (int)r; n_ = n; arg_ = a; ops = 0; dead = 0;
  if (!getcwd(cwd, sizeof cwd)) cwd[0] = 0;
  return before;
}
static int mine(const char* p) { return p[0] != '/' || (cwd[0] && !strncmp(p, cwd, strlen(cwd))); }
static int fault(int reads, int writes) {
  if (!kind) return -1;
  if (dead) return kind == 3 ? EIO : kind == 4 && writes ? ENOSPC : -1;
  if (reads_ != reads || ops++ != n_) return -1;
  switch (kind) {
    case 1: return (int)arg_;
    case 2: return writes ? -2 : -1;
    case 3: dead = 1; return writes ? -2 : EIO;
    case 4: dead = 1; return writes ? -2 : -1;
  }
  return -1;
}
#define FAULT(reads) do { int e_ = fault(reads, 0); if (e_ >= 0) { errno = e_; return -1; } } while (0)
int open64(const char* p, int fl, ...) {
  va_list v; va_start(v, fl); int mode = va_arg(v, int); va_end(v);
  int m = mine(p);
  if (m) FAULT(!(fl & 3));
  int fd = REAL(open64)(p, fl, mode);
  if (fd >= 0 && fd < (int)sizeof counted) counted[fd] = (char)m;
  return fd;
}
int close(int fd) { if (fd >= 0 && fd < (int)sizeof counted) counted[fd] = 0; return REAL(close)(fd); }
static int on(int fd) { return fd >= 3 && fd < (int)sizeof counted && counted[fd]; }
ssize_t read(int fd, void* b, size_t c) { if (on(fd)) FAULT(1); return REAL(read)(fd, b, c); }
ssize_t write(int fd, const void* b, size_t c) {
  if (on(fd)) {
    int e = fault(0, 1);
    if (e >= 0) { errno = e; return -1; }
    if (e == -2) {
      size_t k = c * arg_ / 4;
      if (kind == 2 && !k && c) k = 1;
      if (!k && kind != 2) { errno = kind == 3 ? EIO : ENOSPC; return -1; }
      c = k;
    }
  }
  return REAL(write)(fd, b, c);
}
int ftruncate64(int fd, off64_t l) { if (on(fd)) FAULT(0); return REAL(ftruncate64)(fd, l); }
int unlink(const char* p) { if (mine(p)) FAULT(0); return REAL(unlink)(p); }
int rename(const char* a, const char* b) { if (mine(a)) FAULT(0); return REAL(rename)(a, b); }
int mkdir(const char* p, mode_t m) { if (mine(p)) FAULT(0); return REAL(mkdir)(p, m); }
ssize_t copy_file_range(int a, off64_t* b, int c, off64_t* d, size_t e, unsigned f) { errno = ENOSYS; return -1; }
ssize_t sendfile64(int a, int b, off64_t* c, size_t d) { errno = ENOSYS; return -1; }
ssize_t splice(int a, off64_t* b, int c, off64_t* d, size_t e, unsigned f) { errno = ENOSYS; return -1; }
