#include "vsys.h"
#include <dirent.h>
#include <errno.h>
#include <fcntl.h>
#include <stdarg.h>
#include <stdlib.h>
#include <string.h>
#include <sys/file.h>
#include <sys/ioctl.h>
#include <sys/mman.h>
#include <sys/select.h>
#include <sys/syscall.h>
#include <sys/un.h>
#include <unistd.h>

namespace vsys {
const char *call_name[NCALLS] = {"fcntl-lock", "open", "fstat", "mmap", "ftruncate", "socket", "bind", "connect", "getsockname",
  "epoll_create", "epoll_ctl", "epoll_wait", "ioctl", "recv", "send", "sendmsg", "msync", "mlock", "malloc", "opendir", "unlink", "access", "readlink", "read"};
Sys *sys;
std::map<void *, size_t> live;
int live_dirs;
void (*copy)(void *, const void *, size_t);
void forget(void *p) { live.erase(p); }
static bool bad(Call c) {
  if (!sys) return false;
  sys->point();
  int e = sys->fault(c);
  if (e) { errno = e; return true; }
  return false;
}
static void pt() { if (sys) sys->point(); }
}
using namespace vsys;

template <class F> static int waiting(F f) {
  if (!sys) return f(-1);
  struct A { F *f; } a = {&f};
  return sys->wait_ready([](void *p) { return (*((A *)p)->f)(0); }, &a);
}

extern "C" {
int v_fcntl(int fd, int cmd, ...) {
  va_list ap; va_start(ap, cmd); void *arg = va_arg(ap, void *); va_end(ap);
  if (cmd == F_SETLK || cmd == F_SETLKW || cmd == F_OFD_SETLK || cmd == F_OFD_SETLKW) {
    struct flock *fl = (struct flock *)arg;
    Range g; g.shared = fl->l_type == F_RDLCK;
    if (fl->l_whence == SEEK_SET) { g.from = fl->l_len < 0 ? fl->l_start + fl->l_len : fl->l_start; if (fl->l_len) g.to = fl->l_len < 0 ? fl->l_start : fl->l_start + fl->l_len; }
    if (fl->l_type == F_UNLCK) {
      if (sys) { sys->point(); int r = sys->unlock(fd, g); if (r != 1) return r; }
    } else {
      if (bad(C_FCNTL_LOCK)) return -1;
      if (sys) { int r = sys->lock(fd, cmd == F_SETLKW || cmd == F_OFD_SETLKW, g); if (r != 1) return r; }
    }
  }
  return fcntl(fd, cmd, arg);
}
int v_fcntl64(int fd, int cmd, ...) {
  va_list ap; va_start(ap, cmd); void *arg = va_arg(ap, void *); va_end(ap);
  return v_fcntl(fd, cmd, arg);
}
int v_flock(int fd, int op) {
  Range g; g.shared = op & LOCK_SH;
  if (op & LOCK_UN) { if (sys) { sys->point(); int r = sys->unlock(fd, g); if (r != 1) return r; } }
  else { if (bad(C_FCNTL_LOCK)) return -1; if (sys) { int r = sys->lock(fd, !(op & LOCK_NB), g); if (r != 1) return r; } }
  return flock(fd, op);
}
int v_lockf(int fd, int cmd, off_t len) {
  Range g; g.from = lseek(fd, 0, SEEK_CUR); if (len) g.to = g.from + len;
  if (cmd == F_ULOCK) { if (sys) { sys->point(); int r = sys->unlock(fd, g); if (r != 1) return r; } }
  else if (cmd != F_TEST) { if (bad(C_FCNTL_LOCK)) return -1; if (sys) { int r = sys->lock(fd, cmd == F_LOCK, g); if (r != 1) return r; } }
  return lockf(fd, cmd, len);
}
int v_lockf64(int fd, int cmd, off_t len) { return v_lockf(fd, cmd, len); }
int v_epoll_wait(int fd, struct epoll_event *ev, int max, int tmo) {
  if (bad(C_EPOLL_WAIT)) return -1;
  if (tmo == 0) return epoll_wait(fd, ev, max, 0);
  return waiting([=](int t) { return epoll_wait(fd, ev, max, t); });
}
int v_epoll_pwait(int fd, struct epoll_event *ev, int max, int tmo, const sigset_t *) { return v_epoll_wait(fd, ev, max, tmo); }
int v_poll(struct pollfd *p, nfds_t n, int tmo) {
  if (bad(C_EPOLL_WAIT)) return -1;
  if (tmo == 0) return poll(p, n, 0);
  return waiting([=](int t) { return poll(p, n, t); });
}
int v_ppoll(struct pollfd *p, nfds_t n, const struct timespec *t, const sigset_t *) {
  return v_poll(p, n, t && !t->tv_sec && !t->tv_nsec ? 0 : -1);
}
int v_select(int n, fd_set *r, fd_set *w, fd_set *x, struct timeval *tv) {
  if (bad(C_EPOLL_WAIT)) return -1;
  if (tv && !tv->tv_sec && !tv->tv_usec) return select(n, r, w, x, tv);
  fd_set R, W, X; if (r) R = *r; if (w) W = *w; if (x) X = *x;
  return waiting([=](int t) { struct timeval z = {0, 0}; if (r) *r = R; if (w) *w = W; if (x) *x = X; return select(n, r, w, x, t ? NULL : &z); });
}
ssize_t v_recvmsg(int fd, struct msghdr *m, int fl) { if (bad(C_RECV)) return -1; return recvmsg(fd, m, fl); }
int v_recvmmsg(int fd, struct mmsghdr *m, unsigned n, int fl, struct timespec *t) { if (bad(C_RECV)) return -1; return recvmmsg(fd, m, n, fl, t); }
ssize_t v_recv(int fd, void *b, size_t n, int fl) { if (bad(C_RECV)) return -1; return recv(fd, b, n, fl); }
ssize_t v_recvfrom(int fd, void *b, size_t n, int fl, struct sockaddr *a, socklen_t *l) { if (bad(C_RECV)) return -1; return recvfrom(fd, b, n, fl, a, l); }
ssize_t v_sendmsg(int fd, const struct msghdr *m, int fl) { if (bad(C_SENDMSG)) return -1; return sendmsg(fd, m, fl); }
int v_sendmmsg(int fd, struct mmsghdr *m, unsigned n, int fl) { if (bad(C_SENDMSG)) return -1; return sendmmsg(fd, m, n, fl); }
ssize_t v_send(int fd, const void *b, size_t n, int fl) { if (bad(C_SEND)) return -1; return send(fd, b, n, fl); }
ssize_t v_sendto(int fd, const void *b, size_t n, int fl, const struct sockaddr *a, socklen_t l) { if (bad(C_SEND)) return -1; return sendto(fd, b, n, fl, a, l); }
int v_ioctl(int fd, unsigned long req, ...) {
  va_list ap; va_start(ap, req); void *arg = va_arg(ap, void *); va_end(ap);
  if (bad(C_IOCTL)) return -1;
  return ioctl(fd, req, arg);
}
int v_msync(void *p, size_t n, int fl) {
  if (bad(C_MSYNC)) return -1;
  int r = msync(p, n, fl);
  if (r == 0 && (fl & MS_SYNC) && sys) sys->synced(p, n);
  return r;
}
int v_fsync(int fd) { if (bad(C_MSYNC)) return -1; int r = fsync(fd); if (!r && sys) sys->file_synced(fd); return r; }
int v_fdatasync(int fd) { if (bad(C_MSYNC)) return -1; int r = fdatasync(fd); if (!r && sys) sys->file_synced(fd); return r; }
int v_mlock(const void *p, size_t n) { if (bad(C_MLOCK)) return -1; return syscall(SYS_mlock, p, n); }   // (the sanitizer turns mlock off)
int v_mlock2(const void *p, size_t n, unsigned fl) { if (bad(C_MLOCK)) return -1; return syscall(SYS_mlock2, p, n, fl); }
void *v_mmap(void *a, size_t n, int pr, int fl, int fd, off_t off) {
  if (bad(C_MMAP)) return MAP_FAILED;
  void *p = mmap(a, n, pr, fl, fd, off);
  if (p != MAP_FAILED && sys) sys->mapped(p, n, fd);
  return p;
}
void *v_mmap64(void *a, size_t n, int pr, int fl, int fd, off_t off) { return v_mmap(a, n, pr, fl, fd, off); }
int v_munmap(void *p, size_t n) { pt(); if (sys) sys->unmapping(p, n); return munmap(p, n); }
int v_open(const char *f, int fl, ...) {
  va_list ap; va_start(ap, fl); int mode = va_arg(ap, int); va_end(ap);
  if (bad(C_OPEN)) return -1;
  return open(f, fl, mode);
}
int v_open64(const char *f, int fl, ...) {
  va_list ap; va_start(ap, fl); int mode = va_arg(ap, int); va_end(ap);
  if (bad(C_OPEN)) return -1;
  return open(f, fl, mode);
}
int v_openat(int d, const char *f, int fl, ...) {
  va_list ap; va_start(ap, fl); int mode = va_arg(ap, int); va_end(ap);
  if (bad(C_OPEN)) return -1;
  return openat(d, f, fl, mode);
}
int v_fstat(int fd, struct stat *s) { if (bad(C_FSTAT)) return -1; return fstat(fd, s); }
int v_fstat64(int fd, struct stat *s) { if (bad(C_FSTAT)) return -1; return fstat(fd, s); }
int v_ftruncate(int fd, off_t n) { if (bad(C_FTRUNCATE)) return -1; return ftruncate(fd, n); }
int v_ftruncate64(int fd, off_t n) { return v_ftruncate(fd, n); }
int v_posix_fallocate(int fd, off_t o, off_t n) { if (bad(C_FTRUNCATE)) return errno; return posix_fallocate(fd, o, n); }
int v_access(const char *f, int m) { if (bad(C_ACCESS)) return -1; return access(f, m); }
int v_unlink(const char *f) { if (bad(C_UNLINK)) return -1; return unlink(f); }
ssize_t v_readlink(const char *f, char *b, size_t n) { if (bad(C_READLINK)) return -1; return readlink(f, b, n); }
ssize_t v_read(int fd, void *b, size_t n) { if (bad(C_READ)) return -1; return read(fd, b, n); }
int v_close(int fd) { pt(); if (sys) sys->closing(fd); return close(fd); }
int v_socket(int d, int t, int p) { if (bad(C_SOCKET)) return -1; return socket(d, t, p); }
int v_bind(int fd, const struct sockaddr *a, socklen_t l) {
  if (bad(C_BIND)) return -1;
  if (sys && a->sa_family == AF_UNIX && l == sizeof(sa_family_t)) for (int k = 0; k < 64; k++) {
    std::string n = sys->autobind(k);
    if (n.empty()) break;
    struct sockaddr_un u; memset(&u, 0, sizeof u); u.sun_family = AF_UNIX; memcpy(u.sun_path + 1, n.data(), n.size());
    if (bind(fd, (struct sockaddr *)&u, sizeof(sa_family_t) + 1 + n.size()) == 0) return 0;
    if (errno != EADDRINUSE) return -1;
  }
  return bind(fd, a, l);
}
int v_connect(int fd, const struct sockaddr *a, socklen_t l) { if (bad(C_CONNECT)) return -1; return connect(fd, a, l); }
int v_getsockname(int fd, struct sockaddr *a, socklen_t *l) { if (bad(C_GETSOCKNAME)) return -1; return getsockname(fd, a, l); }
int v_epoll_create(int n) { if (bad(C_EPOLL_CREATE)) return -1; return epoll_create(n); }
int v_epoll_create1(int n) { if (bad(C_EPOLL_CREATE)) return -1; return epoll_create1(n); }
int v_epoll_ctl(int e, int op, int fd, struct epoll_event *ev) { if (bad(C_EPOLL_CTL)) return -1; return epoll_ctl(e, op, fd, ev); }
DIR *v_opendir(const char *n) { if (bad(C_OPENDIR)) return NULL; DIR *d = opendir(n); if (d) live_dirs++; return d; }
int v_closedir(DIR *d) { live_dirs--; return closedir(d); }
void *v_malloc(size_t n) { if (bad(C_MALLOC)) return NULL; void *p = malloc(n); if (p) live[p] = n; return p; }
void *v_calloc(size_t a, size_t b) { if (bad(C_MALLOC)) return NULL; void *p = calloc(a, b); if (p) live[p] = a * b; return p; }
void *v_realloc(void *o, size_t n) {
  if (bad(C_MALLOC)) return NULL;
  void *p = realloc(o, n);
  if (p) { live.erase(o); live[p] = n; }
  return p;
}
char *v_strdup(const char *s) { if (bad(C_MALLOC)) return NULL; char *p = strdup(s); if (p) live[p] = strlen(s) + 1; return p; }
void v_free(void *p) { live.erase(p); free(p); }
#ifdef VSYS_SPLIT_COPY
void vsys_copy_point();
void *v_memcpy(void *d, const void *s, size_t n) {
  char *a = (char *)d; const char *b = (const char *)s;
  while (n) { size_t k = n > 8 ? (n + 1) / 2 : n; memcpy(a, b, k); a += k; b += k; n -= k; if (n) vsys_copy_point(); }
  return d;
}
void *v_memmove(void *d, const void *s, size_t n) { return memmove(d, s, n); }
#else
void *v_memcpy(void *d, const void *s, size_t n) { if (vsys::copy) { vsys::copy(d, s, n); return d; } return memcpy(d, s, n); }
void *v_memmove(void *d, const void *s, size_t n) { if (vsys::copy && n >= (1 << 20)) { vsys::copy(d, s, n); return d; } return memmove(d, s, n); }
#endif
}
