// The block/wake library on its own (C20): any number of waiters and wakers on
// several handles, against a model that counts the wakeups pending for each
// waiter.
#include "pbt.h"
#include "vsys.h"
#include "bw.h"
#include <errno.h>
#include <fcntl.h>
#include <poll.h>
#include <stdint.h>
#include <stdlib.h>
#include <string.h>
#include <sys/eventfd.h>
#include <sys/mman.h>
#include <sys/wait.h>
#include <unistd.h>
#include <memory>
#include <vector>

enum { SURE = 9 };   // that many wakeups a socket is sure to hold; more may be dropped, it is readable anyway
struct Extra { int fd; bool set = false; };
struct Waiter { bw_t *w; int fd; unsigned lo = 0, hi = 0; std::vector<std::unique_ptr<Extra>> x; int no;
  void woken() { lo = lo < SURE ? lo + 1 : lo; hi++; }
  void taken() { if (lo) lo--; if (hi) hi--; }
  bool extra() { for (auto &e : x) if (e->set) return true; return false; } };
struct Waker { bw_t *w; int no; };
struct Handle { bw_handle *h; std::vector<std::unique_ptr<Waiter>> wait; std::vector<std::unique_ptr<Waker>> wake; std::vector<int> closed; };

struct BW : vsys::Sys {
  std::vector<Handle> hs; int no = 0; unsigned woke = 0, rejoined = 0, refused = 0, waited = 0, dead = 0;
  Handle *cur = nullptr; Waiter *waiting = nullptr; bool interrupted = false;
  static bool readable(int fd) { struct pollfd p = {fd, POLLIN, 0}; return poll(&p, 1, 0) == 1; }

  unsigned pool = 0;
  // the system chooses names of sockets: often those of closed ones again
  std::string autobind(int k) override { if (!pool) return ""; unsigned n = pool > 9 ? 128 : 16; char b[8]; snprintf(b, sizeof b, "%05x", (getpid() * n + (pbt::draw(pool) + k) % n) & 0xfffff); return b; }
  void wake(Handle &h, Waker &k) {
    pbt::log("wake by waker %d", k.no);
    REQUIRE(bw_wake(k.w) == 0, "C20 a wake failed");
    for (auto &w : h.wait) w->woken();
    woke++;
  }
  int wait_ready(int (*poll0)(void *), void *arg) override {
    for (;;) {
      int r = poll0(arg);
      if (r) { REQUIRE(waiting->hi || waiting->extra(), "C20 a wait ends although nothing is pending"); return r; }
      REQUIRE(!waiting->lo, "C20 a wait sleeps although a wakeup is pending"); REQUIRE(!waiting->extra(), "C20 a wait sleeps although a registered descriptor is readable");
      waited++; Handle &h = *cur;
      unsigned k = pbt::weighted({h.wake.empty() ? 0u : 4u, waiting->x.empty() ? 0u : 2u, 1});
      if (k == 0) wake(h, *h.wake[pbt::draw(h.wake.size())]);
      else if (k == 1) { Extra &e = *waiting->x[pbt::draw(waiting->x.size())]; uint64_t one = 1; if (write(e.fd, &one, 8) != 8) pbt::discard(); e.set = true; pbt::log("  an extra descriptor becomes readable"); }
      else { interrupted = true; pbt::log("  interrupted"); errno = EINTR; return -1; }
    }
  }
  Waiter *join(Handle &h, bool trace) {
    int fd = -1; bw_t *w = bw_open(BW_WAIT | (trace ? BW_TRACE : 0), h.h, &fd);
    pbt::log("waiter %d opens%s", no + 1, trace ? " (traced)" : "");
    if (h.wait.size() == BW_WAITMAX) { REQUIRE(!w, "C20 a 65th waiter could be opened"); refused++; pbt::label("refused 65th"); return nullptr; }
    REQUIRE(w, "C20 a waiter cannot be opened with %zu open", h.wait.size());
    REQUIRE(fd >= 0 && fcntl(fd, F_GETFD) >= 0, "C20 no descriptor for the waiter"); REQUIRE(!readable(fd), "C20 a new waiter is readable at once");
    std::unique_ptr<Waiter> x(new Waiter{w, fd, 0, 0, {}, ++no}); h.wait.push_back(std::move(x)); if (woke) rejoined++;
    return h.wait.back().get();
  }
  void leave(Handle &h, size_t i) {
    Waiter &w = *h.wait[i]; pbt::log("waiter %d closes", w.no);
    int d = h.closed.size() < 6 ? dup(w.fd) : -1;
    bw_close(w.w); char b[64];
    if (d >= 0) { while (recv(d, b, sizeof b, MSG_DONTWAIT) >= 0) {} h.closed.push_back(d); }
    for (auto &e : w.x) close(e->fd);
    h.wait.erase(h.wait.begin() + i);
  }
  void die(Handle &h) {   // a process opens a waiter and ends without closing
    if (h.wait.size() == BW_WAITMAX) return;
    pid_t p = fork(); if (p == 0) { int fd; _exit(bw_open(BW_WAIT, h.h, &fd) ? 0 : 1); }
    int st; waitpid(p, &st, 0); REQUIRE(WIFEXITED(st) && !WEXITSTATUS(st), "C20 another process cannot open a waiter");
    pbt::log("another process opens a waiter and ends"); dead++;
  }
  void check() {
    for (auto &h : hs) {
      for (auto &w : h.wait) {
        bool r = readable(w->fd);
        REQUIRE(r || !w->lo, "C20 waiter %d has a wakeup pending but its descriptor is not readable", w->no);
        REQUIRE(!r || w->hi, "C20 waiter %d has nothing pending but its descriptor is readable", w->no);
      }
      char b[8]; for (int d : h.closed) REQUIRE(recv(d, b, 8, MSG_DONTWAIT | MSG_PEEK) < 0, "C20 a waiter that has closed was woken");
    }
  }
  void wait(Handle &h, Waiter &w) {
    pbt::log("waiter %d waits", w.no);
    cur = &h; waiting = &w; interrupted = false; bool trap = true; (void)trap;
    int r = bw_wait_ul(w.w); waiting = nullptr;
    if (interrupted) { REQUIRE(r == -1, "C20 an interrupted wait returned %d", r); return; }
    if (r == 0) { REQUIRE(w.hi, "C20 a wait returned 0 although nothing is pending"); w.taken(); }
    else { REQUIRE(r == -3, "C20 a wait returned %d", r); REQUIRE(w.extra(), "C20 a wait returned -3 although no registered descriptor is readable"); }
    pbt::log("  -> %d", r);
  }
  void step(bool many) {
    Handle &h = hs[pbt::draw(hs.size())]; Waiter *w = h.wait.empty() ? nullptr : h.wait[pbt::draw(h.wait.size())].get();
    Waker *k = h.wake.empty() ? nullptr : h.wake[pbt::draw(h.wake.size())].get(); unsigned W = w ? 1 : 0, K = k ? 1 : 0;
    switch (pbt::weighted({K * 8, W * 3, W * 3, W * 3, W * 3, 4, 2, W * (many ? 1u : 3u), K * 2, W * 1, W * 2, 1, 1, many ? 6u : 0u})) {
      case 0: { unsigned n = pbt::chance(1, 10) ? 1 + pbt::draw(40) : 1; while (n--) wake(h, *k); break; }
      case 1: pbt::log("waiter %d: ready", w->no); REQUIRE(bw_ready_ul(w->w) == 0, "C20 consuming a wakeup failed"); w->taken(); break;
      case 2: pbt::log("waiter %d: force ready", w->no); REQUIRE(bw_force(w->w, 1 + pbt::draw(2)) == 0, "C20 force failed"); if (!w->lo) { if (!w->hi) w->lo = w->hi = 1; else w->lo = 1; } break;
      case 3: pbt::log("waiter %d: force clear", w->no); REQUIRE(bw_force(w->w, 0) == 0, "C20 force failed"); w->lo = w->hi = 0; break;
      case 4: wait(h, *w); break;
      case 5: if (h.wait.size() < 5 || many) join(h, pbt::chance(1, 8)); break;
      case 6: if (h.wake.size() < 4) { bool t = pbt::chance(1, 8); bw_t *b = bw_open(BW_WAKE | (t ? BW_TRACE : 0), h.h); pbt::log("waker %d opens", no + 1); REQUIRE(b, "C20 a waker cannot be opened"); h.wake.emplace_back(new Waker{b, ++no}); } break;
      case 7: for (size_t i = 0; i < h.wait.size(); i++) if (h.wait[i].get() == w) { leave(h, i); break; } break;
      case 8: for (size_t i = 0; i < h.wake.size(); i++) if (h.wake[i].get() == k) { pbt::log("waker %d closes", k->no); bw_close(k->w); h.wake.erase(h.wake.begin() + i); break; } break;
      case 9: if (w->x.size() < 3) { int f = eventfd(0, EFD_NONBLOCK); if (f < 0) pbt::discard(); pbt::log("waiter %d: extra descriptor", w->no); REQUIRE(bw_ctl(w->w, BW_POLLFD, f) == 0, "C20 a descriptor cannot be registered"); w->x.emplace_back(new Extra{f}); } break;
      case 10: if (!w->x.empty()) { Extra &e = *w->x[pbt::draw(w->x.size())]; uint64_t v = 1; e.set = !e.set; pbt::log("waiter %d: an extra descriptor is %sreadable", w->no, e.set ? "" : "not "); if ((e.set ? write(e.fd, &v, 8) : read(e.fd, &v, 8)) != 8) pbt::discard(); } break;
      case 11: { unsigned m = pbt::draw(5); int fd = -1; bw_handle before = *h.h;
        if (m == 0) REQUIRE(!bw_open(0, h.h, &fd), "C20 an open with no mode succeeded");
        else if (m == 1) REQUIRE(!bw_open(BW_WAIT | BW_WAKE, h.h, &fd), "C20 an open with both modes succeeded");
        else if (m == 2) REQUIRE(!bw_open(BW_TRACE, h.h, &fd), "C20 an open with no mode succeeded");
        else if (m == 3 && w) REQUIRE(bw_ctl(w->w, 1 << 9, 0) == -1, "C20 an unknown control request succeeded");
        else if (m == 4 && w) REQUIRE(bw_ctl(w->w, BW_POLLFD, -1) == -1, "C20 a bad descriptor could be registered");
        (void)before; pbt::log("a bad request"); break; }
      case 12: die(h); break;
      case 13: { unsigned n = 1 + pbt::draw(70); while (n--) if (!join(h, false)) break; break; }
    }
  }
  void run(bool many) {
    vsys::sys = this; pool = pbt::chance(1, 2) ? 0 : many ? 90 : 1 + pbt::draw(8); unsigned n = 1 + (many ? 0 : pbt::draw(2));
    for (unsigned i = 0; i < n; i++) { Handle h; h.h = (bw_handle *)mmap(0, sizeof(bw_handle), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0); hs.push_back(std::move(h)); }
    unsigned ops = many ? 20 : 40;
    for (unsigned i = 0; i < ops * 2; i++) { pbt::span(); if (!pbt::chance(ops, ops + 1)) break; step(many); check(); }
    for (auto &h : hs) {
      for (auto &k : h.wake) bw_close(k->w);
      while (!h.wait.empty()) leave(h, h.wait.size() - 1);
      check();
      for (int d : h.closed) close(d);
      munmap(h.h, sizeof(bw_handle));
    }
    vsys::sys = nullptr;
  }
};
static void c20_model() { BW b; b.run(false); if (b.woke >= 3 && b.rejoined >= 1) pbt::nontrivial(); }
static void c20_many() { BW b; b.run(true); if (b.woke >= 1 && b.refused) pbt::nontrivial(); }

#define R "1..2 handles with waiters and wakers that open, wake, wait, consume, force, register descriptors, close and die; after every step the readability of every open and every closed waiter's descriptor is compared with a model of the wakeups pending; non-trivial: "
static std::vector<pbt::Property> props = {
  {"C20", "c20-model", c20_model, 20000, 2000000, R "3 wakes and a waiter that joined after the first", 60, 0},
  {"C20", "c20-many", c20_many, 32, 4000, R "a wake, and a 65th waiter was refused", 120, 0},
};
int main(int c, char **v) { return pbt::main(c, v, props); }
