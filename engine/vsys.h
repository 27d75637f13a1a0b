// Interposition layer: the object files of the code under test have their
// references to the C library redirected to v_<name> (see scripts/build.sh,
// objcopy --redefine-syms), so that a harness can watch, delay, or fail them.
// The harness itself is linked against the plain C library.
#pragma once
#include <sys/types.h>
#include <sys/socket.h>
#include <sys/epoll.h>
#include <sys/stat.h>
#include <poll.h>
#include <stdint.h>
#include <stddef.h>
#include <string>
#include <map>
#include <set>
#include <vector>

namespace vsys {
// A call that may fail by the environment's fault.
enum Call { C_FCNTL_LOCK, C_OPEN, C_FSTAT, C_MMAP, C_FTRUNCATE, C_SOCKET, C_BIND, C_CONNECT, C_GETSOCKNAME,
            C_EPOLL_CREATE, C_EPOLL_CTL, C_EPOLL_WAIT, C_IOCTL, C_RECV, C_SEND, C_SENDMSG, C_MSYNC, C_MLOCK, C_MALLOC,
            C_OPENDIR, C_UNLINK, C_ACCESS, C_READLINK, C_READ, NCALLS };
extern const char *call_name[NCALLS];

struct Range { bool shared = false; uint64_t from = 0, to = ~0ull; bool whole() const { return !from && to == ~0ull; } };
struct Sys {
  virtual ~Sys() {}
  // return errno to make the call fail, 0 to let it happen
  virtual int fault(Call) { return 0; }
  // a call that would wait until a descriptor is ready. `poll0` performs the
  // real call with a zero timeout. returns the result, errno set.
  virtual int wait_ready(int (*poll0)(void *), void *arg) = 0;
  // file lock request on a descriptor
  virtual int lock(int fd, bool wait, const Range &) { (void)fd; (void)wait; return 1; } // 1: perform the real call
  virtual int unlock(int fd, const Range &) { (void)fd; return 1; }
  // a name for a socket that asks the system to choose one ("": let the system)
  virtual std::string autobind(int attempt) { (void)attempt; return ""; }
  virtual void closing(int fd) { (void)fd; }
  virtual void mapped(void *, size_t, int fd) { (void)fd; }
  virtual void unmapping(void *, size_t) {}
  virtual void synced(void *, size_t) {}         // msync(MS_SYNC) done
  virtual void file_synced(int fd) { (void)fd; } // fsync/fdatasync done
  virtual void point() {}                        // any intercepted call
};
extern Sys *sys;

// live allocations and directory streams of the code under test
extern std::map<void *, size_t> live;
extern int live_dirs;
void forget(void *p);      // ownership passed to the caller
extern void (*copy)(void *, const void *, size_t);   // replaces memcpy of the code under test
}
