// Sequential model-based testing of one ring through many handles of one
// process. Calls that would wait are caught at the point where they wait;
// the harness then interrupts them, makes a registered descriptor ready, or
// plays the peers that let them proceed.
#pragma once
#include "lib.h"
#include "vsys.h"
#include <dirent.h>
#include <fcntl.h>
#include <poll.h>
#include <signal.h>
#include <stdio.h>
#include <sys/eventfd.h>
#include <sys/mman.h>
#include <sys/stat.h>
#include <unistd.h>
#include <functional>
#include <memory>

using model::Batch; using model::Msg; using lib::Obs;

struct Prof {
  // creation
  unsigned plain = 1, drop = 0, farm = 0;   // mode weights
  unsigned app = 30, sync = 0, mlk = 0;     // percent
  size_t nmax = 200, mmax = 0;              // 0: mixed
  bool big = false, wide = false;           // many-message rings; more messages than 16 bits count
  bool lng = false;                         // messages of 4 KiB to 2 MiB
  // operation weights
  unsigned open = 6, close = 3, rd = 10, rdv = 10, wr = 10, wrv = 10, flush = 0, stat = 3, reset = 1,
           app_get = 1, app_set = 1, app_swap = 1, farmstat = 0, pollreg = 0, polltog = 0, refused = 1, reinit = 0;
  unsigned buffered = 0, nonblock = 50;     // percent of handles
  unsigned maxh = 6, ops = 60;
  unsigned stat_every = 2;                  // 1/k of ops followed by a full counter check
  unsigned early = 8;                       // percent of ops that others overtake
  unsigned fault = 0;                       // percent of ops with an injected failure
  unsigned fault_only = 0;                  // restrict to these calls
  bool lockprot = false;                    // ring memory is read-only outside the lock
  bool durable = false;                     // check the msync'd image
  bool resident = false;                    // check locked memory
  bool empty_read_bias = false;
  unsigned w_eintr = 2, w_pollfd = 3, w_assist = 6;
};

struct H {
  shr *s = nullptr; model::Handle m; int fd = -1; bool quiet = false; int busy = 0; int no = 0;
  std::vector<int> pfd;      // registered descriptors
};

static inline int listdir(const char *d, std::vector<std::string> *out = nullptr) {
  DIR *dir = opendir(d); int n = 0; if (!dir) return -1;
  while (struct dirent *e = readdir(dir)) { if (e->d_name[0] == '.') continue; n++; if (out) out->push_back(e->d_name); }
  closedir(dir); return n;
}
static inline bool readable(int fd) { struct pollfd p = {fd, POLLIN, 0}; return poll(&p, 1, 0) == 1 && (p.revents & (POLLIN | POLLHUP)); }
static inline std::string slurp(const std::string &f) {
  std::string s; FILE *fp = fopen(f.c_str(), "r"); char b[65536]; size_t n;
  if (!fp) return s;
  while ((n = fread(b, 1, sizeof b, fp)) > 0) s.append(b, n);
  fclose(fp); return s;
}
static inline void spew(const std::string &f, const std::string &s) {
  int fd = open(f.c_str(), O_WRONLY | O_CREAT | O_TRUNC, 0644); size_t o = 0;
  while (o < s.size()) { ssize_t k = write(fd, s.data() + o, s.size() - o); if (k <= 0) break; o += k; }
  close(fd);
}

// descriptors a caller may register: of several kinds, low and high numbers
struct Regs {
  struct D { int kind, peer; };
  std::map<int, D> m;
  static const char *name(int k) { static const char *n[] = {"eventfd", "pipe", "socket", "datagram socket", "pipe that ends", "socket that ends"}; return n[k]; }
  const char *kind(int f) { return name(m[f].kind); }
  int make() {
    int k = pbt::weighted({6, 2, 2, 1, 1, 1}), p[2] = {-1, -1};
    switch (k) {
      case 0: p[0] = eventfd(0, EFD_NONBLOCK); break;
      case 1: case 4: if (pipe2(p, O_NONBLOCK)) return -1; break;
      case 2: case 5: if (socketpair(AF_UNIX, SOCK_STREAM | SOCK_NONBLOCK, 0, p)) return -1; break;
      case 3: if (socketpair(AF_UNIX, SOCK_DGRAM | SOCK_NONBLOCK, 0, p)) return -1; break;
    }
    if (p[0] < 0) return -1;
    if (pbt::chance(1, 6)) { int q = fcntl(p[0], F_DUPFD, 256 + pbt::draw(500)); if (q >= 0) { close(p[0]); p[0] = q; } }
    m[p[0]] = {k, p[1]};
    if (pbt::chance(1, 5) && k < 4) ready(p[0]);
    return p[0];
  }
  void ready(int f) {
    D &d = m[f]; uint64_t one = 1; char b[3] = {0, 1, 2};
    switch (d.kind) {
      case 0: if (write(f, &one, 8) < 0) {} break;
      case 1: case 2: case 3: if (write(d.peer, b, 1 + pbt::draw(3)) < 0) {} break;
      case 4: case 5: if (d.peer >= 0) close(d.peer); d.peer = -1; break;
    }
  }
  void clear(int f) { D &d = m[f]; char b[64]; if (d.kind < 4) while (read(f, b, sizeof b) > 0) {} }
  void drop(int f) { auto i = m.find(f); if (i == m.end()) return; close(f); if (i->second.peer >= 0) close(i->second.peer); m.erase(i); }
  ~Regs() { while (!m.empty()) drop(m.begin()->first); }
};

struct World : vsys::Sys {
  Prof P; std::string path; int probe = -1; model::Ring R; std::vector<std::unique_ptr<H>> hs;
  uint32_t next_id = 1; int hcount = 0; int fd0 = 0; bool faulted = false;
  bool opening = false;            // in shr_open: nothing is stored yet, so msync may fail too
  bool wake_uncertain = false;     // an injected failure may have cost a wakeup
  Regs regs;
  struct { uint64_t read = 0, wrote = 0, bytes = 0, waits = 0, dropped = 0, partial = 0, refused = 0, polls = 0, flushes = 0, resets = 0, apps = 0, faults = 0, cached = 0, images = 0, lost = 0, opens = 0; } ev;
  // --- blocked-call bookkeeping
  struct Cur { H *h; std::function<model::Step()> step; std::function<bool()> can; bool waited = false; int expect = 0; int rounds = 0; };
  Cur *cur = nullptr; int depth = 0;
  // --- interposition
  struct Map { char *p; size_t n; ino_t ino; };
  std::vector<Map> maps; int locked = 0; ino_t ino = 0; std::string image; bool have_image = false;
  struct Armed { long in = 0; bool sticky = false; int err = 0; bool hit = false; unsigned mask = ~0u; vsys::Call call = vsys::NCALLS; } armed;
  long &fault_in = armed.in; bool &sticky = armed.sticky; int &fault_err = armed.err; bool &fault_hit = armed.hit; unsigned &fault_mask = armed.mask; vsys::Call &fault_call = armed.call;
  uint64_t locks_taken = 0;
  bool early = false;              // let others act before the next call gets the lock
  H *acting = nullptr;

  static ino_t inode(int fd) { struct stat s; return fstat(fd, &s) ? 0 : s.st_ino; }
  int fault(vsys::Call c) override {
    if (fault_in <= 0) return 0;
    if (((c == vsys::C_SEND || c == vsys::C_MSYNC) && !opening) || !(fault_mask >> c & 1)) return 0;
    if (--fault_in) return 0;
    if (sticky) fault_in = 1;
    fault_hit = true; fault_call = c; faulted = true;
    // a reader's own descriptor depends on this, after the fact
    if (c == vsys::C_IOCTL && !opening) wake_uncertain = true;
    if (c == vsys::C_SENDMSG) return fault_err == ENOMEM ? ENOMEM : ENOBUFS;   // how sending a datagram can fail
    return fault_err;
  }
  void prot(int pr) { if (P.lockprot) for (auto &m : maps) if (m.ino == ino) mprotect(m.p, m.n, pr); }
  int lock(int fd, bool, const vsys::Range &g) override { if (early && !locked && !depth && inode(fd) == ino) { early = false; intrude(); } if (inode(fd) == ino || !ino) { locked++; locks_taken++; prot(g.shared ? PROT_READ : PROT_READ | PROT_WRITE); } return 1; }
  int unlock(int fd, const vsys::Range &) override { if (inode(fd) == ino) { locked = 0; prot(PROT_READ); } return 1; }
  void closing(int fd) override { if (inode(fd) == ino) { locked = 0; prot(PROT_READ); } }
  void mapped(void *p, size_t n, int fd) override { maps.push_back({(char *)p, n, inode(fd)}); if (P.lockprot && !locked) mprotect(p, n, PROT_READ); }
  void unmapping(void *p, size_t n) override {
    for (size_t i = 0; i < maps.size(); i++) if (maps[i].p == p) {
      REQUIRE(maps[i].n == n, "C21 unmapped %zu bytes of a mapping of %zu", n, maps[i].n);
      maps.erase(maps.begin() + i); return;
    }
  }
  void synced(void *p, size_t n) override {
    if (!P.durable) return;
    for (auto &m : maps) if (m.ino == ino && (char *)p >= m.p && (char *)p < m.p + m.n) {
      size_t off = (char *)p - m.p, k = std::min(n, m.n - off);
      k = std::min(m.n - off, (k + 4095) / 4096 * 4096);   // whole pages
      if (image.size() < m.n) image.resize(m.n);
      memcpy(&image[off], p, k);
    }
  }
  void file_synced(int fd) override { if (P.durable && inode(fd) == ino) image = slurp(path); }

  // the system chooses names of sockets: often those of closed ones again
  bool pool = false, names = false;
  std::string autobind(int k) override { if (!pool) return ""; static int at; char b[8]; snprintf(b, sizeof b, "%05x", (getpid() * 16 + (at++ * 7 + k) % 16) & 0xfffff); return b; }
  void lock_free(const char *when) {
    struct flock f; memset(&f, 0, sizeof f); f.l_type = F_WRLCK; f.l_whence = SEEK_SET;
    if (fcntl(probe, F_OFD_GETLK, &f) == 0) REQUIRE(f.l_type == F_UNLCK, "C17 the ring's lock is still held %s", when);
  }

  // ---------------------------------------------------------------- waiting
  int wait_ready(int (*poll0)(void *), void *arg) override {
    Cur *c = cur; int r;
    REQUIRE(c, "a call that never waits is waiting");
    lock_free("while a call waits");
    bool can = c->can();
    if (!can) { uint64_t w0 = R.writes; c->step(); if (R.writes != w0) wrote(true); }  // a buffered write may have moved its buffer out
    if (++c->rounds > 400) pbt::fail("C08 the call keeps waking up without waiting or proceeding");
    if (can) {
      r = poll0(arg);
      if (r > 0) return r;
      if (wake_uncertain) { c->expect = -1; errno = EINTR; return -1; }
      pbt::fail("C08 the call waits although it can proceed at once");
    }
    if (!c->waited) pbt::label("calls that waited");
    c->waited = true; ev.waits++;
    bool anyp = false; for (int f : c->h->pfd) anyp |= readable(f);
    if (anyp) {
      r = poll0(arg);
      REQUIRE(r > 0, "C10 a registered descriptor is readable, but the blocked call keeps waiting");
      c->expect = -3; ev.polls++; pbt::label("waits ended by a registered descriptor");
      return r;
    }
    unsigned how = depth > 2 || c->rounds > 40 ? 1 : pbt::weighted({P.w_assist, P.w_eintr, c->h->pfd.empty() ? 0 : P.w_pollfd});
    if (how == 1) { pbt::log("%*s  (interrupted by a signal)", depth * 2, ""); c->expect = -1; errno = EINTR; return -1; }
    if (how == 2) {
      int f = c->h->pfd[pbt::draw(c->h->pfd.size())];
      regs.ready(f);
      pbt::log("%*s  (registered descriptor %d (%s) becomes readable)", depth * 2, "", f, regs.kind(f));
      r = poll0(arg);
      REQUIRE(r > 0, "C10 a registered descriptor became readable, but the blocked call keeps waiting");
      c->expect = -3; ev.polls++; pbt::label("waits ended by a registered descriptor");
      return r;
    }
    // peers act
    for (int k = 0; k < 12; k++) {
      if (c->can()) break;
      pbt::log("%*s  (while it waits:)", depth * 2, "");
      assist(c);
      if (!c->can()) {  // nothing should have changed: it must keep waiting, or wake up for nothing
        r = poll0(arg);
        if (r > 0) { pbt::label("spurious wakeups"); return r; }
      }
    }
    if (!c->can()) { c->expect = -1; errno = EINTR; return -1; }
    r = poll0(arg);
    if (r <= 0 && wake_uncertain) { c->expect = -1; errno = EINTR; return -1; }
    REQUIRE(r > 0, "C08 the %s can proceed now, but nothing wakes the waiting call", c->h->m.rd ? "read" : "write");
    pbt::label("waits ended by a peer");
    return r;
  }
  void assist(Cur *c) {
    Cur *save = cur; int saved_exp = c->expect; Armed outer = armed; armed = Armed(); depth++;
    std::vector<H *> cand;
    for (auto &h : hs) if (!h->busy && h->s && h->m.rd != c->h->m.rd) cand.push_back(h.get());
    H *h = nullptr; bool temp = false;
    if (!cand.empty() && !pbt::chance(1, 4)) h = cand[pbt::draw(cand.size())];
    else { h = do_open(!c->h->m.rd, true, false); temp = true; }
    if (h) {
      if (h->m.rd) { if (pbt::chance(1, 2)) op_read(h, true, true); else op_read(h, false, true); }
      else { if (pbt::chance(1, 4) && h->m.buffered) op_flush(h, pbt::chance(1, 2)); else op_write(h, pbt::chance(1, 2)); }
      if (temp && pbt::chance(3, 4)) do_close(h);
    }
    depth--; cur = save; c->expect = saved_exp; armed = outer;
  }

  // other processes get the lock before the call under way does
  void intrude() {
    Cur *save = cur; Armed outer = armed; armed = Armed(); bool op0 = opening; opening = false; depth++;
    pbt::log("%*s  (before it gets the lock:)", depth * 2, ""); pbt::label("calls that others overtook");
    for (unsigned k = 1 + pbt::small(0, 6); k--;) {
      std::vector<H *> c; for (auto &h : hs) if (!h->busy && h->s && h.get() != acting) c.push_back(h.get());
      if (c.empty()) break;
      H *h = c[pbt::draw(c.size())];
      switch (pbt::weighted({12, h->m.buffered ? 3 : 0, 1, R.app.empty() ? 0 : 1})) {
        case 0: if (h->m.rd) op_read(h, pbt::chance(1, 2)); else op_write(h, pbt::chance(1, 2)); break;
        case 1: op_flush(h, pbt::chance(1, 2)); break;
        case 2: { H *a = acting; check_stat(h, pbt::chance(1, 2)); acting = a; break; }
        case 3: { H *a = acting; op_app(h, 1 + pbt::draw(2)); acting = a; break; }
      }
    }
    depth--; cur = save; armed = outer; opening = op0;
  }

  template <class Op> ssize_t perform(H *h, Op &op, std::function<ssize_t()> f, const char *what, bool &effect) {
    Cur c; Cur *save = cur; c.h = h;
    c.step = [&] { return model::step(R, h->m, op); };
    c.can = [&] { model::Ring r2 = R; model::Handle h2 = h->m; Op o2 = op; return model::step(r2, h2, o2) == model::DONE; };
    cur = &c; h->busy++; arm(); acting = h;
    uint64_t w0 = R.writes;
    ssize_t r = f();
    if (!op.is_close()) lock_free("when a call has returned");
    bool fl = disarm(); h->busy--; cur = save; effect = true;
    if (fl && r < 0 && r != -2) {
      // an injected failure was reported: nothing may have happened to the ring,
      // except that a buffered write may have moved its buffer out first
      effect = false;
      pbt::log("%*s  -> %zd (%s failed)", depth * 2, "", r, vsys::call_name[fault_call]);
      pbt::label("failures reported");
      return r;
    }
    if (fl) { pbt::label("failures survived"); pbt::log("%*s  (%s failed meanwhile)", depth * 2, "", vsys::call_name[fault_call]); }
    if (c.expect && op.is_close()) { effect = false; return r; }   // interrupted
    if (c.expect && r == c.expect) { effect = false; pbt::log("%*s  -> %zd", depth * 2, "", r); return r; }
    if (c.step() == model::BLOCKED) pbt::fail("%s %s returned %zd although it has to wait", h->m.rd ? "C08" : "C02", what, r);
    if (!fl && R.writes != w0) wake_uncertain = false;   // everyone was woken
    return r;
  }
  void arm() {
    fault_hit = false; fault_in = 0; sticky = false;
    if (P.fault && pbt::chance(depth ? P.fault / 2 : P.fault, 100)) {
      static const int errs[] = {ENOMEM, EMFILE, ENFILE, EINTR, ENOBUFS, EIO, EACCES};
      fault_in = 1 + pbt::small(0, 40); fault_err = errs[pbt::draw(7)]; fault_mask = ~0u;
      if (pbt::chance(1, 2)) { fault_mask = 1u << pbt::draw(vsys::NCALLS); fault_in = 1 + pbt::small(0, 4); }
      sticky = pbt::chance(1, 4);                  // and all later ones of this call
      if (sticky && fault_err == EINTR) fault_err = EIO;    // signals do end
      if (P.fault_only) { fault_mask = P.fault_only; fault_in = 1; }
    }
  }
  bool disarm() { fault_in = 0; bool f = fault_hit; fault_hit = false; if (f) ev.faults++; if (f) pbt::label("failures injected"); return f; }

  // ---------------------------------------------------------------- operations
  // one of the names of the ring file
  std::string spelling() {
    if (!names || pbt::chance(1, 2)) return path;
    std::string dir = pbt::scratch(), base = path.substr(dir.size() + 1); int n = 0;
    switch (pbt::draw(6)) {
      case 0: n = chdir(dir.c_str()); return base;
      case 1: n = chdir(dir.c_str()); return "./" + base;
      case 2: return dir + "//" + base;
      case 3: { std::string l = dir + "/sym"; unlink(l.c_str()); n = symlink(base.c_str(), l.c_str()); return l; }
      case 4: { std::string l = dir + "/hard"; unlink(l.c_str()); n = link(path.c_str(), l.c_str()); return l; }
      default: { std::string l = dir; while (l.size() + base.size() + 2 < 4000) l += "/."; return l + "/" + base; }
    }
    (void)n;
  }
  H *do_open(bool rd, bool nonblock, bool buffered) {
    unsigned fl = (rd ? SHR_RDONLY : SHR_WRONLY) | (nonblock ? SHR_NONBLOCK : 0) | (buffered ? SHR_BUFFERED : 0);
    arm();
    int fdn = P.fault ? listdir("/proc/self/fd") : 0; size_t ln = vsys::live.size(); int dn = vsys::live_dirs; size_t mn = maps.size();
    std::string as = spelling();
    opening = true; shr *s = shr_open(as.c_str(), fl); opening = false;
    lock_free("when an open has returned");
    bool fl_hit = disarm();
    if (!s) {
      pbt::log("%*sopen %s%s%s -> NULL%s%s", depth * 2, "", rd ? "reader" : "writer", nonblock ? " nonblock" : "", buffered ? " buffered" : "", fl_hit ? " failing " : "", fl_hit ? vsys::call_name[fault_call] : "");
      REQUIRE(fl_hit, "C15 a valid ring could not be opened");
      REQUIRE(listdir("/proc/self/fd") == fdn, "C22 a failed open (%s) left %d descriptors behind", vsys::call_name[fault_call], listdir("/proc/self/fd") - fdn);
      REQUIRE(vsys::live.size() == ln && vsys::live_dirs == dn, "C22 a failed open (%s) left memory behind", vsys::call_name[fault_call]);
      REQUIRE(maps.size() == mn, "C22 a failed open (%s) left a mapping behind", vsys::call_name[fault_call]);
      pbt::label("failed opens");
      return nullptr;
    }
    if (fl_hit) { pbt::label("failures survived"); }
    std::unique_ptr<H> h(new H);
    h->s = s; h->m.rd = rd; h->m.nonblock = nonblock; h->m.buffered = buffered && !rd; h->no = ++hcount;
    model::opened(R, h->m);
    pbt::log("%*sh%d = open %s%s%s", depth * 2, "", h->no, rd ? "reader" : "writer", nonblock ? " nonblock" : "", buffered ? " buffered" : "");
    h->fd = shr_get_selectable_fd(s);
    if (rd && nonblock) REQUIRE(h->fd >= 0, "C09 a non-blocking reader has no descriptor");
    else REQUIRE(h->fd == -1, "C09 a handle that is not a non-blocking reader has descriptor %d", h->fd);
    struct shr_stat st;
    REQUIRE(shr_stat(s, &st, NULL) == 0, "C12 stat failed");
    if (h->m.buffered) {
      REQUIRE(st.cn >= 1 && st.cn <= R.n, "C11 buffer of %zu bytes cannot be flushed at once to a ring of %zu", st.cn, R.n);
      h->m.cn = st.cn; h->m.cmax = std::min<size_t>(10000, R.mm);
    }
    ev.opens++;
    H *p = h.get(); hs.push_back(std::move(h));
    if (!have_image && P.durable) { image = slurp(path); have_image = true; }
    check_resident();
    return p;
  }
  void do_close(H *h) {
    pbt::log("%*sh%d: close", depth * 2, "", h->no);
    model::Flush op{false}; op.close = true; bool eff;
    unsigned pf = P.fault; P.fault = 0;
    bool had = !h->m.cache.empty();
    if (pf && !depth && !had && pbt::chance(1, 4)) {       // a signal arrives while it waits for the lock
      fault_in = 1; sticky = false; fault_mask = 1u << vsys::C_FCNTL_LOCK; fault_err = EINTR; bool f = faulted;
      shr_close(h->s); eff = false; faulted = f;
      if (disarm()) pbt::label("closes interrupted");
    } else perform(h, op, [&] { shr_close(h->s); return (ssize_t)0; }, "close", eff);
    P.fault = pf;
    if (!h->m.cache.empty()) { pbt::label("buffered data given up at close"); h->m.cache.clear(); }
    if (had) wrote(eff && op.ret > 0);
    h->s = nullptr; h->m.open = false;
    if (h->fd >= 0) { struct stat st; (void)st; }
    for (int f : h->pfd) regs.drop(f);
    for (size_t i = 0; i < hs.size(); i++) if (hs[i].get() == h) { hs.erase(hs.begin() + i); break; }
  }
  void wrote(bool any) { if (any) { for (auto &h : hs) h->quiet = false; } }

  size_t first_len(H *h) { size_t a = model::avail(R, h->m); if (!a) return 0; size_t off = R.mode == model::FARM ? std::max(h->m.pos, R.base) - R.base : 0; return R.q[off].len; }

  void op_read(H *h, bool bulk, bool eager = false) {
    size_t a = model::avail(R, h->m), off = R.mode == model::FARM && a ? std::max(h->m.pos, R.base) - R.base : 0, len = 0, nv = 1, k;
    if (P.wide && bulk && pbt::chance(1, 2)) eager = true;
    unsigned how = eager ? 2 : pbt::weighted({4, 3, 4, 2, 2, 1, 1});
    k = bulk ? (a ? 1 + pbt::small(0, a - 1) : 1 + pbt::small(0, 3)) : 1;
    if (eager && bulk && a) k = pbt::chance(1, 2) ? a : k;
    for (size_t i = 0; i < k && i < a; i++) len += R.q[off + i].len;
    switch (how) {
      case 0: len = R.n; break;                                  // everything fits
      case 1: len = R.n + pbt::small(0, 64); break;
      case 2: if (!a) len = R.n; break;                          // exactly k messages
      case 3: if (len) len -= 1; else len = pbt::small(1, R.n); break; // one byte short
      case 4: len += pbt::small(0, 4); break;
      case 5: len = pbt::small(0, R.n); break;
      case 6: len = pbt::chance(1, 3) ? 0 : (pbt::chance(1, 2) ? SIZE_MAX - pbt::draw(3) : (size_t)SSIZE_MAX + pbt::draw(3)); break;
    }
    if (bulk) switch (pbt::weighted({4, 3, 2, 2, 1})) {
      case 0: nv = k; break;
      case 1: nv = k + 1 + pbt::small(0, 3); break;
      case 2: nv = R.mm + 1 + pbt::draw(3); break;
      case 3: nv = 1; break;
      case 4: nv = eager ? 1 : 0; break;
    }
    pbt::log("%*sh%d: read%s len=%zu%s", depth * 2, "", h->no, bulk ? "v" : "", len, bulk ? (" iov=" + std::to_string(nv)).c_str() : "");
    read_with(h, len, nv, bulk);
  }
  void read_with(H *h, size_t len, size_t nv, bool bulk) {
    model::Read op{len, nv}; Obs o; bool eff;
    size_t m0 = h->m.missed; size_t before = model::avail(R, h->m);
    ssize_t r = perform(h, op, [&] { lib::rd(h->s, len, nv, R.n + 128, bulk, o); return o.ret; }, "read", eff);
    if (!eff) {
      if (R.mode == model::FARM && faulted) {   // whether the reader noticed its losses is open
        size_t d = shr_farm_stat(h->s, 0); model::Handle t = h->m; 
        if (t.pos < R.base) { t.missed += R.base - t.pos; t.pos = R.base; }
        REQUIRE(d == t.missed || d == h->m.missed || d == m0, "C04 loss count %zu after a failed read", d);
        if (d == t.missed) h->m = t;
      }
      after(); return;
    }
    REQUIRE(r == op.ret, "%s read returned %s, expected %zd %s (%zu available)", op.ret == -1 || op.ret == -2 || r == -2 ? "C05" : R.mode == model::PLAIN ? "C01" : R.mode == model::DROP ? "C03" : "C04", lib::show(o).c_str(), op.ret, lib::show(op.got).c_str(), before);
    REQUIRE(lib::matches(o, op.got), "%s read returned %s, expected exactly the messages %s; boundaries or bytes differ", R.mode == model::PLAIN ? "C01" : R.mode == model::DROP ? "C03" : "C04", lib::show(o).c_str(), lib::show(op.got).c_str());
    pbt::log("%*s  -> %zd %s", depth * 2, "", r, lib::show(op.got).c_str());
    if (op.got.size() > 1) pbt::label("reads of several messages");
    if (r == -2) { pbt::label("reads refused for size"); ev.refused++; }
    if (r > 0) { ev.read += op.got.size(); if (op.got.size() > 1 && op.got.size() < before) ev.partial++; }
    if (h->m.missed > m0) ev.lost++;
    if (r >= 0 && model::avail(R, h->m) == 0 && !wake_uncertain) h->quiet = true;
    after(r > 0);
  }

  // a size at or near a power of two
  size_t pow2(bool exact) { size_t e = (size_t)1 << (12 + pbt::draw(10)); return exact ? e : e - 3 + pbt::draw(7); }
  Batch gen_batch(H *h, bool vec) {
    Batch b; size_t freeb = R.n - R.bytes, frees = R.mm - R.q.size(), k = 1, t;
    if (h->m.buffered && pbt::chance(1, 2)) { freeb = h->m.cn - h->m.cb; frees = h->m.cmax - h->m.cache.size(); }
    if (vec) switch (pbt::weighted({6, 3, 2, 1, 1, 1})) {
      case 0: k = pbt::small(1, std::min<size_t>(6, R.mm + 1)); break;
      case 1: k = std::max<size_t>(frees, 1); break;
      case 2: k = frees + 1; break;
      case 3: k = R.mm; break;
      case 4: k = R.mm + 1; break;
      case 5: k = P.big ? pbt::small(1, R.mm) : pbt::draw(2) ? 2 : 0; break;
    }
    if (k > 25000 && !P.wide) k = 25000;
    bool wide = P.wide && vec && pbt::chance(1, 2);
    if (wide) k = 1 + pbt::draw(std::max<size_t>(1, R.mode == model::PLAIN ? frees : R.mm));
    switch (pbt::weighted({8, 5, 4, 2, 2, 1})) {
      case 0: t = k + pbt::small(0, std::max<size_t>(R.n / 3, 1)); break;
      case 1: t = freeb; break;
      case 2: t = freeb + 1; break;
      case 3: t = R.n; break;
      case 4: t = pbt::small(1, R.n); break;
      default: t = R.n + 1; break;
    }
    if (P.lng && pbt::chance(1, 3)) { size_t e = pow2(pbt::chance(1, 2)); if (e <= R.n + 8) t = std::max(k, e); }
    if (wide && t < k) t = k;
    if (wide && t > freeb && R.mode == model::PLAIN) t = std::max(k, freeb);
    bool zero = k && !wide && pbt::chance(1, 30);
    for (size_t i = 0; i < k; i++) {
      size_t left = k - i, l;
      if (left == 1) l = t; else if (t <= left) l = t ? 1 : 0; else l = P.big && k > 50 ? std::max<size_t>(1, t / left) : 1 + pbt::draw(std::max<size_t>(1, std::min(t - left + 1, 2 * t / left)));
      if (l > t) l = t;
      t -= l; b.push_back({next_id++, l ? l : 1});
    }
    if (zero) b[pbt::draw(k)].len = 0;
    return b;
  }
  void op_write(H *h, bool vec) { write_with(h, gen_batch(h, vec), vec); }
  void write_with(H *h, const Batch &b, bool vec) {
    pbt::log("%*sh%d: write%s %s", depth * 2, "", h->no, vec ? "v" : "", lib::show(b).c_str());
    model::Write op{b}; bool eff; uint64_t w0 = R.writes; size_t md0 = R.st.md;
    Batch c0 = h->m.cache;
    ssize_t r = perform(h, op, [&] { return lib::wr(h->s, b, vec); }, "write", eff);
    if (!eff) { if (h->m.buffered) resync_cache(h, c0); wrote(R.writes != w0); after(R.writes != w0); return; }
    REQUIRE(r == op.ret, "%s write returned %zd, expected %zd", "C02", r, op.ret);
    pbt::log("%*s  -> %zd", depth * 2, "", r);
    if (r == 0) { pbt::label("writes refused for room"); ev.refused++; }
    if (r == -1) pbt::label("writes refused as unstorable");
    if (r > 0) { ev.wrote += b.size(); ev.bytes += r; if (!h->m.cache.empty()) ev.cached++; }
    if (R.mode != model::PLAIN && R.st.md > md0) ev.dropped++;
    wrote(R.writes != w0);
    if (h->m.buffered) check_cache(h);
    after(R.writes != w0);
  }
  // after an injected failure in a buffered write: the buffer is either as
  // before, or was moved to the ring as a whole
  void resync_cache(H *h, const Batch &c0) {
    struct shr_stat st; REQUIRE(shr_stat(h->s, &st, NULL) == 0, "C12 stat failed");
    if (st.cm == 0 && !h->m.cache.empty()) { R.store(h->m.cache); h->m.cache.clear(); h->m.cb = 0; }
    REQUIRE(st.cm == h->m.cache.size() && st.cb == h->m.cb, "C22 after a failed write the buffer holds %zu messages, %zu bytes instead of %zu, %zu", st.cm, st.cb, h->m.cache.size(), h->m.cb);
    (void)c0;
  }
  void check_cache(H *h) {
    struct shr_stat st; REQUIRE(shr_stat(h->s, &st, NULL) == 0, "C12 stat failed");
    REQUIRE(st.cm == h->m.cache.size() && st.cb == h->m.cb && st.cn == h->m.cn, "C11 the buffer reports %zu messages, %zu of %zu bytes; expected %zu, %zu of %zu", st.cm, st.cb, st.cn, h->m.cache.size(), h->m.cb, h->m.cn);
    if (!h->m.cache.empty()) pbt::label("writes buffered");
  }
  void op_flush(H *h, bool wait) {
    if (!h->m.buffered) return;
    pbt::log("%*sh%d: flush wait=%d", depth * 2, "", h->no, wait);
    model::Flush op{wait}; bool eff; uint64_t w0 = R.writes;
    ssize_t r = perform(h, op, [&] { return shr_flush(h->s, wait); }, "flush", eff);
    if (eff) {
      REQUIRE(r == op.ret, "C11 flush returned %zd, expected %zd", r, op.ret);
      pbt::log("%*s  -> %zd", depth * 2, "", r);
      if (r > 0) { pbt::label("flushes"); ev.flushes++; }
    }
    wrote(R.writes != w0); check_cache(h); after(R.writes != w0);
  }
  void check_stat(H *h, bool reset = false) {
    acting = h;
    struct shr_stat st; struct timeval tv; memset(&st, 0x77, sizeof st);
    tv.tv_sec = pbt::chance(1, 4) ? 0 : pbt::chance(1, 3) ? (long)pbt::draw(1ull << 62) : pbt::draw(1000000); tv.tv_usec = pbt::chance(1, 4) ? 0 : pbt::draw(1000000);
    REQUIRE(shr_stat(h->s, &st, reset ? &tv : NULL) == 0, "C12 stat failed");
    const model::Counters &c = R.st;
    REQUIRE(st.bw == c.bw && st.mw == c.mw, "C12 written: %zu bytes %zu messages, expected %zu and %zu", st.bw, st.mw, c.bw, c.mw);
    REQUIRE(st.br == c.br && st.mr == c.mr, "C12 read: %zu bytes %zu messages, expected %zu and %zu", st.br, st.mr, c.br, c.mr);
    REQUIRE(st.bd == c.bd && st.md == c.md, "%s dropped: %zu bytes %zu messages, expected %zu and %zu", R.mode == model::FARM ? "C04" : "C03", st.bd, st.md, c.bd, c.md);
    REQUIRE(st.bn == R.n && st.mm == R.mm, "C12 size %zu, limit %zu, expected %zu and %zu", st.bn, st.mm, R.n, R.mm);
    REQUIRE(st.bu == R.bytes && st.mu == R.q.size(), "C12 unread: %zu bytes %zu messages, expected %zu and %zu", st.bu, st.mu, R.bytes, R.q.size());
    REQUIRE(st.start.tv_sec == c.sec && st.start.tv_usec == c.usec, "C12 start of period %ld.%06ld, expected %ld.%06ld", st.start.tv_sec, st.start.tv_usec, c.sec, c.usec);
    REQUIRE(st.flags == R.flags, "C12 mode flags %x, expected %x", st.flags, R.flags);
    REQUIRE(st.cm == h->m.cache.size() && st.cb == h->m.cb && st.cn == h->m.cn, "C11 buffer statistics %zu/%zu/%zu, expected %zu/%zu/%zu", st.cm, st.cb, st.cn, h->m.cache.size(), h->m.cb, h->m.cn);
    if (reset) { R.st = model::Counters(); R.st.sec = tv.tv_sec; R.st.usec = tv.tv_usec; pbt::log("h%d: stat reset start=%ld.%06ld", h->no, (long)tv.tv_sec, (long)tv.tv_usec); pbt::label("statistics resets"); ev.resets++; }
  }
  std::string rndbytes(size_t n) { std::string s(n, 0); uint32_t id = 0x40000000u + next_id++; model::fill(id, &s[0], n); return s; }
  // 0 get, 1 set, 2 get-and-set; how: 0 right size, other: wrong or larger
  void op_app(H *h, unsigned kind) {
    size_t A = R.app.size(), sz = A; int rc; bool ok = A > 0;
    arm(); acting = h;
    if (kind == 0) {
      if (pbt::chance(1, 3)) {             // allocate
        void *p = NULL; sz = pbt::draw(3) * 77;
        rc = shr_appdata(h->s, &p, NULL, &sz); bool fl = disarm();
        pbt::log("h%d: appdata get (allocating) -> %d", h->no, rc);
        if (fl && rc < 0) { if (p) { vsys::forget(p); free(p); } return; }
        REQUIRE(rc == (ok ? 0 : -1), "C13 appdata get returned %d with a region of %zu", rc, A);
        if (rc == 0) { REQUIRE(sz == A && p && !memcmp(p, R.app.data(), A), "C13 appdata get returned the wrong bytes or size"); }
        if (p) { vsys::forget(p); free(p); }
        return;
      }
      unsigned how = pbt::weighted({3, 3, 2}); sz = how == 0 ? A : how == 1 ? A + 1 + pbt::small(0, 5000) : A ? pbt::draw(A) : 0;
      char *b = (char *)malloc(sz ? sz : 1); memset(b, 0x5A, sz ? sz : 1); void *p = b; size_t in = sz;
      rc = shr_appdata(h->s, &p, NULL, &sz); bool fl = disarm();
      pbt::log("h%d: appdata get into %zu -> %d", h->no, in, rc);
      if (in < A) ok = false;
      if (!(fl && rc < 0)) REQUIRE(rc == (ok ? 0 : -1), "C13 appdata get into %zu bytes returned %d with a region of %zu", in, rc, A);
      size_t used = rc == 0 ? A : 0;
      REQUIRE(p == b, "C13 appdata get replaced the caller's pointer");
      if (rc == 0) REQUIRE(sz == A && !memcmp(b, R.app.data(), A), "C13 appdata get: wrong bytes, or size %zu instead of %zu", sz, A);
      for (size_t i = used; i < in; i++) REQUIRE(b[i] == 0x5A, "C13 appdata get changed byte %zu of the caller's buffer (region %zu)", i, A);
      free(b); return;
    }
    unsigned how = pbt::weighted({4, 1, 1}); sz = how == 0 ? A : how == 1 ? A + 1 + pbt::small(0, 60) : A ? pbt::draw(A) : 3;
    std::string v = rndbytes(sz); char *nb = (char *)malloc(sz ? sz : 1); memcpy(nb, v.data(), sz); size_t in = sz;
    if (sz != A) ok = false;
    if (kind == 1) {
      rc = shr_appdata(h->s, NULL, nb, &sz); lock_free("when a call has returned");
    } else {
      char *b = (char *)malloc(in ? in : 1); memset(b, 0x5A, in ? in : 1); void *p = b;
      rc = shr_appdata(h->s, &p, nb, &sz);
      if (rc == 0 && ok) REQUIRE(!memcmp(b, R.app.data(), A), "C13 appdata get-and-set returned wrong old bytes");
      else for (size_t i = 0; i < in; i++) REQUIRE(b[i] == 0x5A, "C13 refused get-and-set changed the caller's buffer");
      free(b);
    }
    bool fl = disarm();
    pbt::log("h%d: appdata %s size %zu -> %d", h->no, kind == 1 ? "set" : "get-and-set", in, rc);
    REQUIRE(!memcmp(nb, v.data(), in), "C13 appdata set changed the caller's bytes");
    memset(nb, 0xEE, in); free(nb);
    if (fl && rc < 0) return;
    REQUIRE(rc == (ok ? 0 : -1), "C13 appdata set of %zu bytes returned %d with a region of %zu", in, rc, A);
    if (rc == 0) { R.app = v; ev.apps++; durable("an application data change"); }
  }
  void op_pollreg(H *h) {
    if (!h->m.rd && (h->m.nonblock || R.mode != model::PLAIN)) return;   // never waits
    unsigned n = pbt::chance(1, 40) ? 40 + pbt::draw(200) : 1;
    for (unsigned i = 0; i < n; i++) {
      int f = regs.make(); if (f < 0) break;
      int rc = shr_ctl(h->s, SHR_POLLFD, f);
      REQUIRE(rc == 0, "C10 registering a descriptor (%s) failed", regs.kind(f));
      h->pfd.push_back(f);
      if (!i) pbt::log("h%d: register descriptor %d (%s)%s", h->no, f, regs.kind(f), n > 1 ? " and many more" : "");
    }
  }
  void op_polltog(H *h) {
    if (h->pfd.empty()) return;
    int f = h->pfd[pbt::draw(h->pfd.size())];
    if (readable(f)) regs.clear(f); else regs.ready(f);
    pbt::log("h%d: registered descriptor %d is now %sreadable", h->no, f, readable(f) ? "" : "not ");
  }
  void op_refused() {
    std::string dir = std::string(pbt::scratch()) + "/none/ring";
    switch (pbt::draw(8)) {
      case 0: REQUIRE(!shr_open(path.c_str(), 0), "C15 open with neither mode succeeded"); break;
      case 1: REQUIRE(!shr_open(path.c_str(), SHR_RDONLY | SHR_WRONLY | (pbt::chance(1, 2) ? SHR_NONBLOCK : 0)), "C15 open with both modes succeeded"); break;
      case 2: { unsigned cf[] = {SHR_KEEPEXIST, SHR_DROP, SHR_APPDATA_1, SHR_FARM, SHR_MAXMSGS_2, SHR_SYNC, SHR_MLOCK};
        REQUIRE(!shr_open(path.c_str(), (pbt::chance(1, 2) ? SHR_RDONLY : SHR_WRONLY) | cf[pbt::draw(7)]), "C15 open with a creation flag succeeded"); break; }
      case 3: REQUIRE(!shr_open((path + ".none").c_str(), SHR_RDONLY), "C15 opening a missing file succeeded"); break;
      case 4: if (!hs.empty()) { H *h = hs[pbt::draw(hs.size())].get(); if (!h->busy) REQUIRE(shr_ctl(h->s, 12345, 0) == -1, "unknown control accepted"); } break;
      case 5: REQUIRE(shr_init(&dir[0], 100, 0) == -1, "C14 creating a ring in a missing directory succeeded"); break;
      case 6: REQUIRE(shr_init(&path[0], 0, 0) == -1, "C14 creating an empty ring succeeded"); break;
      case 7: REQUIRE(shr_init(&path[0], 100, SHR_OPEN_FENCE << pbt::draw(5)) == -1, "C14 creating a ring with open flags succeeded"); break;
    }
    pbt::log("(a refused call)");
  }

  // ---------------------------------------------------------------- invariants
  void after(bool changed = false) {
    lock_free("after a call returned");
    for (auto &h : hs) if (h->fd >= 0) {
      bool rdy = readable(h->fd);
      if (model::avail(R, h->m) && !rdy && !wake_uncertain) pbt::fail("C09 h%d: %zu messages can be read, but its descriptor is not readable", h->no, model::avail(R, h->m));
      if (h->quiet && rdy && !faulted) pbt::fail("C09 h%d: descriptor readable although its last read left nothing and nothing was written", h->no);
    }
    if (changed) durable("a call that changed the ring");
  }
  void durable(const char *what) {
    if (!P.durable || !(R.flags & SHR_SYNC)) return;
    std::string p2 = path + ".durable"; spew(p2, image);
    vsys::Sys *sv = vsys::sys; vsys::sys = nullptr;
    shr *s = shr_open(p2.c_str(), SHR_RDONLY | SHR_NONBLOCK);
    REQUIRE(s, "C18 the backing store after %s is not a valid ring", what);
    compare_all(s, "C18");
    shr_close(s); unlink(p2.c_str());
    vsys::sys = sv; pbt::label("durable images compared"); ev.images++;
  }
  // a fresh non-blocking reader on a ring that must equal the model
  void compare_all(shr *s, const char *id) {
    struct shr_stat st; REQUIRE(shr_stat(s, &st, NULL) == 0, "%s stat failed", id);
    const model::Counters &c = R.st;
    REQUIRE(st.bw == c.bw && st.mw == c.mw && st.br == c.br && st.mr == c.mr && st.bd == c.bd && st.md == c.md && st.bn == R.n && st.mm == R.mm && st.bu == R.bytes && st.mu == R.q.size() && st.flags == R.flags && st.start.tv_sec == c.sec && st.start.tv_usec == c.usec,
            "%s counters differ: w %zu/%zu r %zu/%zu d %zu/%zu u %zu/%zu; expected w %zu/%zu r %zu/%zu d %zu/%zu u %zu/%zu", id, st.bw, st.mw, st.br, st.mr, st.bd, st.md, st.bu, st.mu, c.bw, c.mw, c.br, c.mr, c.bd, c.md, R.bytes, R.q.size());
    Batch all(R.q.begin(), R.q.end());
    if (!all.empty()) {
      Obs o; lib::rd(s, R.n, all.size() + 1, R.n, true, o);
      REQUIRE(o.ret == (ssize_t)R.bytes && lib::matches(o, all), "%s the ring holds %s, expected %s", id, lib::show(o).c_str(), lib::show(all).c_str());
    }
    Obs e; lib::rd(s, R.n, 1, R.n, false, e);
    REQUIRE(e.ret == 0, "%s more messages than expected: read returned %zd", id, e.ret);
    if (!R.app.empty()) {
      void *p = NULL; size_t sz = 0; REQUIRE(shr_appdata(s, &p, NULL, &sz) == 0 && sz == R.app.size() && !memcmp(p, R.app.data(), sz), "%s application data differ", id);
      vsys::forget(p); free(p);
    }
  }
  void check_resident() {
    if (!P.resident) return;
    FILE *f = fopen("/proc/self/smaps", "r"); char l[512]; bool in = false; size_t size = 0; int seen = 0, want = 0;
    for (auto &h : hs) want += h->s != nullptr;
    while (f && fgets(l, sizeof l, f)) {
      unsigned long a, b; char perm[8]; unsigned long off; int n = 0;
      if (sscanf(l, "%lx-%lx %7s %lx %*s %*s %n", &a, &b, perm, &off, &n) >= 4) { std::string nm = l + n; while (!nm.empty() && nm.back() == '\n') nm.pop_back(); in = nm == path; size = b - a; if (in) seen += 1; }
      else if (in && !strncmp(l, "VmFlags:", 8)) {
        bool lo = strstr(l, " lo ") || strstr(l, " lo\n");
        if (R.flags & SHR_MLOCK) REQUIRE(lo, "C19 a mapping (%zu kB) of a memory-locked ring is not locked", size / 1024);
        else REQUIRE(!lo, "C19 a ring created without memory lock is locked");
        pbt::label("mappings inspected");
      } else if (in && !strncmp(l, "Rss:", 4) && (R.flags & SHR_MLOCK)) REQUIRE(strtoul(l + 4, 0, 10) * 1024 == size, "C19 the locked ring is not resident");
    }
    if (f) fclose(f);
    REQUIRE(seen >= want, "C19 %d mappings of the ring for %d handles", seen, want);
  }

  // ---------------------------------------------------------------- the case
  void create() {
    char b[64]; static int cases; snprintf(b, sizeof b, "/r%d", cases++ & 7); path = std::string(pbt::scratch()) + b;
    names = !P.resident && pbt::chance(1, 3);
    if (names) switch (pbt::draw(4)) {
      case 0: break;
      case 1: path += " with  spaces"; break;
      case 2: path += "%s%n\"'*$\xc3\xa4"; break;
      case 3: path += "." + std::string(230, 'q'); break;
    }
    unlink(path.c_str());
    R = model::Ring();
    switch (P.lng ? 4 : P.big ? 3 : pbt::weighted({5, 4, 2, 0})) {
      case 0: R.n = 1 + pbt::draw(24); break;
      case 1: R.n = 1 + pbt::draw(P.nmax); break;
      case 2: R.n = 1 + pbt::draw(P.nmax * 20); break;
      case 3: R.n = (P.wide ? 80000 : 9000) + pbt::draw(P.wide ? 300000 : 60000); break;
    }
    if (P.lng) switch (pbt::weighted({4, 2, 2})) {
      case 0: R.n = pow2(false) + (pbt::chance(1, 2) ? 0 : pbt::draw(5000)); break;
      case 1: R.n = pow2(false) * (2 + pbt::draw(3)); break;
      default: R.n = 4096 + pbt::draw(1 << 20); break;
    }
    if (R.n > (3u << 20)) R.n = 3 << 20;
    bool expl = true; size_t mm = 0;
    switch (P.big ? 4 : P.mmax ? 0 : pbt::weighted({5, 3, 2, 1})) {
      case 0: mm = 1 + pbt::draw(P.mmax ? P.mmax : 7); break;
      case 1: mm = 1 + pbt::draw(R.n + 2); break;
      case 2: expl = false; break;
      case 3: mm = 0; break;
      case 4: mm = (P.wide ? 66000 : 9000) + pbt::draw(P.wide ? 70000 : 9000); break;
    }
    R.mm = mm ? mm : 100 + R.n / 100;
    R.mode = (model::Mode)pbt::weighted({P.plain, P.drop, P.farm});
    unsigned fl = 0;
    if (R.mode == model::DROP) fl |= SHR_DROP, R.flags |= SHR_DROP;
    if (R.mode == model::FARM) { fl |= SHR_FARM; if (pbt::chance(1, 3)) fl |= SHR_DROP; R.flags |= SHR_FARM | SHR_DROP; }
    if (pbt::chance(P.sync, 100)) fl |= SHR_SYNC, R.flags |= SHR_SYNC;
    if (pbt::chance(P.mlk, 100)) fl |= SHR_MLOCK, R.flags |= SHR_MLOCK;
    if (pbt::chance(P.app, 100)) { R.app = rndbytes(P.lng && pbt::chance(1, 2) ? pow2(false) : 1 + pbt::small(0, pbt::chance(1, 10) ? 9000 : 60)); }
    if (expl) fl |= SHR_MAXMSGS_2;
    int rc; std::string a = R.app;
    if (!a.empty()) rc = expl ? shr_init(&path[0], R.n, fl | SHR_APPDATA, &a[0], a.size(), mm) : shr_init(&path[0], R.n, fl | SHR_APPDATA, &a[0], a.size());
    else rc = expl ? shr_init(&path[0], R.n, fl, mm) : shr_init(&path[0], R.n, fl);
    pbt::log("create n=%zu mm=%zu%s mode=%s flags=%x app=%zu", R.n, R.mm, expl && mm ? "" : " (default)", R.mode == 0 ? "plain" : R.mode == 1 ? "drop" : "farm", fl, a.size());
    REQUIRE(rc == 0, "C14 creating a ring of %zu bytes and %zu messages failed", R.n, R.mm);
    probe = ::open(path.c_str(), O_RDONLY);
    if (probe < 0) pbt::fail("C14 the created ring does not exist");
    ino = inode(probe); locked = 0;
  }
  void one_op() {
    if (hs.empty()) { open_some(); return; }
    early = !P.fault && pbt::chance(P.early, 100); acting = nullptr; one_op_();
    early = false;
  }
  void one_op_() {
    H *h = hs[pbt::draw(hs.size())].get();
    unsigned k = pbt::weighted({P.rd, P.rdv, P.wr, P.wrv, P.open, P.close, P.flush, P.stat, P.reset, P.app_get, P.app_set, P.app_swap, P.farmstat, P.pollreg, P.polltog, P.refused, P.reinit});
    auto pickrw = [&](bool rd) -> H * { std::vector<H *> c; for (auto &x : hs) if (x->m.rd == rd) c.push_back(x.get()); return c.empty() ? nullptr : c[pbt::draw(c.size())]; };
    switch (k) {
      case 0: case 1: if ((h = pickrw(true))) op_read(h, k == 1); else open_some(); break;
      case 2: case 3: if ((h = pickrw(false))) op_write(h, k == 3); else open_some(); break;
      case 4: if (hs.size() < P.maxh) open_some(); break;
      case 5: do_close(h); break;
      case 6: if ((h = pickrw(false))) op_flush(h, pbt::chance(1, 2)); break;
      case 7: check_stat(h); break;
      case 8: check_stat(h, true); durable("a statistics reset"); break;
      case 9: op_app(h, 0); break;
      case 10: op_app(h, 1); break;
      case 11: op_app(h, 2); break;
      case 12: if ((h = pickrw(true)) && R.mode == model::FARM) { int rs = pbt::draw(2); size_t d = shr_farm_stat(h->s, rs); pbt::log("h%d: farm_stat(%d) -> %zu", h->no, rs, d); REQUIRE(d == h->m.missed, "C04 loss count %zu, expected %zu", d, h->m.missed); if (rs) h->m.missed = 0; if (d) pbt::label("farm losses counted"); } break;
      case 13: if ((h = pickrw(pbt::chance(1, 2)))) op_pollreg(h); break;
      case 14: op_polltog(h); break;
      case 15: op_refused(); break;
      case 16: { int rc = shr_init(&path[0], 1 + pbt::draw(1000), SHR_KEEPEXIST); pbt::log("create again, keeping -> %d", rc); REQUIRE(rc == 0, "C14 keep-existing creation failed"); break; }
    }
    after();
    if (!hs.empty() && P.stat_every && pbt::chance(1, P.stat_every)) check_stat(hs[pbt::draw(hs.size())].get());
  }
  void open_some() {
    bool rd = pbt::chance(1, 2), nb = pbt::chance(P.nonblock, 100), bf = pbt::chance(P.buffered, 100);
    do_open(rd, nb, bf && !rd);
  }
  // prefill helps to start from an arbitrary ring position
  void run(const Prof &p) {
    P = p; fd0 = listdir("/proc/self/fd"); vsys::live.clear(); vsys::live_dirs = 0; maps.clear(); ino = 0;
    vsys::sys = this; pool = pbt::chance(1, 2);
    create();
    for (unsigned i = 0; i < P.ops * 2; i++) { pbt::span(); if (!pbt::chance(P.ops / 2, P.ops / 2 + 1)) break; one_op(); }
    pbt::span();
    unsigned f = P.fault; P.fault = 0;
    while (!hs.empty()) do_close(hs[pbt::draw(hs.size())].get());
    // a later user of the ring continues where the previous ones stopped
    H *h = do_open(true, true, false);
    check_stat(h); compare_all(h->s, R.mode == model::PLAIN ? "C01" : R.mode == model::DROP ? "C03" : "C04");
    shr_close(h->s); hs.clear();
    P.fault = f;
    leaks();
    uint64_t msgs = R.st.mw; (void)msgs;
    finish();
  }
  void leaks() {
    REQUIRE(maps.empty(), "C21 %zu mappings of the ring remain after the last close", maps.size());
    REQUIRE(vsys::live.empty(), "C21 %zu allocations (%zu bytes first) remain after the last close", vsys::live.size(), vsys::live.begin()->second);
    REQUIRE(vsys::live_dirs == 0, "C21 %d directory streams remain", vsys::live_dirs);
    struct flock fl; memset(&fl, 0, sizeof fl); fl.l_type = F_WRLCK; if (fcntl(probe, F_OFD_GETLK, &fl) == 0) REQUIRE(fl.l_type == F_UNLCK, "C21 a lock remains");
    close(probe); probe = -1;
    int n = listdir("/proc/self/fd");
    REQUIRE(n == fd0, "C21 %d descriptors open after the last close, %d before the first open", n, fd0);
    std::string mp = slurp("/proc/self/maps");
    REQUIRE(mp.find(path) == std::string::npos, "C21 the ring is still mapped after the last close");
  }
  void finish() { unlink(path.c_str()); for (auto l : {"/sym", "/hard"}) unlink((std::string(pbt::scratch()) + l).c_str()); vsys::sys = nullptr; }
  ~World() {
    vsys::sys = nullptr;
    if (probe >= 0) close(probe);
  }
};
