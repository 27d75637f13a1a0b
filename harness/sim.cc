// Concurrency: several virtual processes (coroutines) use one ring under a
// drawn schedule. Control can pass from one to another at every intercepted
// call, inside copies, and at every basic block of the code under test. File
// locks are emulated between the virtual processes; sockets, epoll sets and
// mappings are real. When nothing can run any more, the history of calls and
// results must have a one-at-a-time order that respects real time, explains
// every result and the ring that is left, and in which every call that is
// still blocked has to be (linearizability with waiting).
#include "lib.h"
#include "vsys.h"
#include <dirent.h>
#include <errno.h>
#include <fcntl.h>
#include <poll.h>
#include <signal.h>
#include <stdio.h>
#include <string.h>
#include <sys/eventfd.h>
#include <sys/mman.h>
#include <sys/stat.h>
#include <ucontext.h>
#include <unistd.h>
#include <memory>
#include <unordered_set>
using model::Batch; using model::Msg; using lib::Obs;
#define NOCOV

enum Kind { RD, WR, FLUSH, STAT, RESET, AGET, ASET, ASWAP, OPEN, CLOSE, POLL, FARMSTAT, TOGGLE, LOCKER, NKIND };
static const char *kname[] = {"read", "write", "flush", "stat", "stat-reset", "app-get", "app-set", "app-swap", "open", "close", "poll", "farm-stat", "toggle", "hold-lock"};

struct SProf {
  unsigned plain = 3, drop = 1, farm = 1;
  unsigned rd = 10, wr = 10, flush = 0, stat = 0, reset = 0, aget = 0, aset = 0, aswap = 0, open = 2, close = 1, poll = 0, farmstat = 0, toggle = 0, locker = 0;
  unsigned nonblock = 30, buffered = 0, pollfd = 0, intr = 0;   // percent
  unsigned procs = 3, ops = 5, app = 30, sync = 0;
  unsigned only_rd = 0;   // percent of processes that only read / only write
  unsigned lng = 0;       // percent of cases with messages of up to 300000 bytes
  unsigned large = 0;     // percent of cases with a ring of hundreds of messages and long batches
};

struct Op {
  Kind k; int slot = 0;             // slot: handle of this process
  int h = -1;                       // global handle
  size_t len = 0, niov = 1; bool bulk = false; Batch b; bool wait = false; bool rd = false, nonblock = false, buffered = false;
  uint32_t id = 0; int other = 0; struct timeval tv = {0, 0}; unsigned hold = 0;
  // results
  bool started = false, done = false, intr = false, lintr = false, pfd = false; uint64_t inv = 0, resp = ~0ull;
  ssize_t ret = 0; Obs o; struct shr_stat st; std::string app; size_t cn = 0;
};
struct SH { shr *s = nullptr; int owner = 0; model::Handle m; int fd = -1; bool quiet = false; std::vector<int> pfd; bool live = false; };

enum PState { RUNNABLE, LOCKWAIT, FDWAIT, FINISHED };
struct Proc {
  ucontext_t ctx; PState st = RUNNABLE; int id = 0; int slots[3] = {-1, -1, -1};
  std::vector<Op> ops; size_t at = 0; bool intr = false, stop = false; vsys::Range want;
  int (*poll0)(void *) = nullptr; void *arg = nullptr; ino_t lock_ino = 0; bool ready = false; bool pfd_seen = false;
};

static const int STACK = 256 * 1024, MAXP = 20;
static char *stacks;
struct Sim;
static Sim *G;
static bool ticking;               // inside a virtual process, running code under test
extern "C" void __sanitizer_cov_trace_pc();
extern "C" void vsys_copy_point();

struct Lk { int p; vsys::Range g; };
struct Sim : vsys::Sys {
  SProf P; std::string path; model::Ring R0; std::vector<SH> hs; std::vector<std::unique_ptr<Proc>> ps; Proc *cur = nullptr; ucontext_t main_ctx;
  std::vector<Lk> locks; ino_t ino = 0; uint64_t clock = 0, ticks = 0, switches = 0; long bb_left = 0, pt_left = 0; bool direct = true;
  int locker = -1; uint64_t lock_epoch_start = 0; std::string locked_img; char *probe = nullptr; size_t probe_n = 0; int probe_fd = -1;
  uint32_t next_id = 1; uint64_t in_locked = 0, torn_chances = 0;
  struct { unsigned waits = 0, lockwaits = 0, preempt = 0, pending = 0, intr = 0, pfd = 0, holds = 0; } ev;

  static ino_t inode(int fd) { struct stat s; return fstat(fd, &s) ? 0 : s.st_ino; }

  // ---- scheduling
  void tick(bool point) {
    if (++ticks > 6000000) pbt::fail("C08 the processes run on and on without finishing (livelock)");
    if (point ? (pt_left > 0 && --pt_left == 0) : (bb_left > 0 && --bb_left == 0)) {
      ev.preempt++; if (holds(cur->id)) torn_chances++;
      yield();
    }
  }
  void yield() { bool t = ticking; int e = errno; ticking = false; Proc *p = cur; swapcontext(&p->ctx, &main_ctx); ticking = t; errno = e; }
  void point() override { if (ticking) tick(true); }
  bool can_run(Proc *p) {
    switch (p->st) {
      case RUNNABLE: return true;
      case LOCKWAIT: return p->intr || conflict(p->id, p->want) < 0;
      case FDWAIT: { struct Off { bool t = ticking; Off() { ticking = false; } ~Off() { ticking = t; } } off; return p->intr || p->poll0(p->arg) != 0; }
      default: return false;
    }
  }
  // ---- interposition
  int fd0 = -1; bool pool = false;
  static int nfds() { int n = 0; DIR *d = opendir("/proc/self/fd"); if (!d) return -1; while (struct dirent *e = readdir(d)) n += e->d_name[0] != '.'; closedir(d); return n; }
  // the system chooses names of sockets: often those of closed ones again
  std::string autobind(int k) override { if (!pool) return ""; static int at; char b[8]; snprintf(b, sizeof b, "%05x", (getpid() * 16 + (at++ * 7 + k) % 16) & 0xfffff); return b; }
  bool holds(int p) { for (auto &l : locks) if (l.p == p) return true; return false; }
  int conflict(int p, const vsys::Range &g) { for (auto &l : locks) if (l.p != p && l.g.from < g.to && g.from < l.g.to && !(l.g.shared && g.shared)) return l.p; return -1; }
  int lock(int fd, bool wait, const vsys::Range &g) override {
    if (direct || inode(fd) != ino) return direct ? 0 : 1;
    Proc *p = cur;
    while (conflict(p->id, g) >= 0) {
      if (!wait) { errno = EAGAIN; return -1; }
      ev.lockwaits++; p->st = LOCKWAIT; p->want = g; yield(); p->st = RUNNABLE;
      if (p->intr) { p->intr = false; p->ops[p->at].lintr = true; errno = EINTR; return -1; }
    }
    drop(p->id, g); locks.push_back({p->id, g});
    return 0;
  }
  int unlock(int fd, const vsys::Range &g) override {
    if (direct) return 0;
    if (inode(fd) != ino) return 1;
    drop(cur->id, g);
    return 0;
  }
  void drop(int p, const vsys::Range &g) {
    std::vector<Lk> n;
    for (auto &l : locks) {
      if (l.p != p || l.g.to <= g.from || g.to <= l.g.from) { n.push_back(l); continue; }
      Lk x = l; x.g.to = g.from; if (x.g.from < x.g.to) n.push_back(x);
      x = l; x.g.from = g.to; if (x.g.from < x.g.to) n.push_back(x);
    }
    locks = n;
  }
  void release() { drop(cur->id, vsys::Range()); }
  void closing(int fd) override { if (!direct && cur && holds(cur->id) && inode(fd) == ino) release(); }
  int wait_ready(int (*poll0)(void *), void *arg) override {
    if (direct) { errno = EINTR; return -1; }
    Proc *p = cur;
    REQUIRE(!holds(p->id), "C17 a call waits while it holds the ring's lock");
    for (;;) {
      int r = poll0(arg);
      if (r != 0) return r;
      ev.waits++;
      p->poll0 = poll0; p->arg = arg; p->st = FDWAIT; yield(); p->st = RUNNABLE;
      if (p->intr) { p->intr = false; p->ops[p->at].intr = true; errno = EINTR; return -1; }
    }
  }

  // ---- executing one operation of a virtual process
  void exec(Proc *p, Op &o) {
    SH *h = nullptr;
    if (o.k == OPEN) {
      if (p->slots[o.slot] >= 0) { o.k = NKIND; return; }
      o.h = hs.size(); hs.emplace_back(); hs[o.h].owner = p->id;
    } else if (o.k == LOCKER) {
    } else {
      // any suitable handle of this process
      int pick = -1;
      for (int j = 0; j < 3; j++) {
        int g = p->slots[(o.slot + j) % 3]; if (g < 0) continue;
        model::Handle &m = hs[g].m;
        if ((o.k == RD || o.k == FARMSTAT) && !m.rd) continue;
        if (o.k == POLL && hs[g].fd < 0) continue;
        if (o.k == WR && m.rd) continue;
        if (o.k == FLUSH && !m.buffered) continue;
        pick = (o.slot + j) % 3; break;
      }
      if (o.k == TOGGLE) pick = -1;
      else if (pick < 0) { o.k = NKIND; return; }
      if (pick >= 0) { o.slot = pick; o.h = p->slots[pick]; h = &hs[o.h]; }
    }
    bool under_hold = locker >= 0; uint64_t hold0 = lock_epoch_start;
    o.inv = ++clock; o.started = true;
    ticking = true;
    switch (o.k) {
      case RD: lib::rd(h->s, o.len, o.niov, R0.n + 64, o.bulk, o.o); o.ret = o.o.ret; break;
      case WR: o.ret = lib::wr(h->s, o.b, o.bulk); break;
      case FLUSH: o.ret = shr_flush(h->s, o.wait); break;
      case STAT: case RESET: o.ret = shr_stat(h->s, &o.st, o.k == RESET ? &o.tv : NULL); break;
      case AGET: case ASWAP: case ASET: {
        std::string in; if (o.k != AGET) in = appval(o.id);
        char *out = (char *)malloc(R0.app.size() + 1); memset(out, 0x5A, R0.app.size() + 1); void *g = out; size_t sz = R0.app.size();
        o.ret = shr_appdata(h->s, o.k == ASET ? NULL : &g, o.k == AGET ? NULL : &in[0], &sz);
        if (o.k != ASET) o.app.assign(out, R0.app.size());
        free(out); break; }
      case OPEN: {
        unsigned fl = (o.rd ? SHR_RDONLY : SHR_WRONLY) | (o.nonblock ? SHR_NONBLOCK : 0) | (o.buffered ? SHR_BUFFERED : 0);
        shr *s = shr_open(path.c_str(), fl);
        if (!s && o.lintr) { o.k = NKIND; break; }
        REQUIRE(s, "C07 a valid ring could not be opened");
        ticking = false; opened(o.h, s, o); p->slots[o.slot] = o.h; break; }
      case CLOSE: shr_close(h->s); ticking = false; h->s = nullptr; h->live = false; p->slots[o.slot] = -1; break;
      case POLL: { struct pollfd pf = {h->fd, POLLIN, 0}; point(); o.ret = poll(&pf, 1, 0) == 1; point(); break; }
      case FARMSTAT: o.ret = shr_farm_stat(h->s, o.wait); break;
      case TOGGLE: {
        ticking = false; std::vector<int> c; for (auto &x : hs) if (x.live) for (int f : x.pfd) c.push_back(f);
        if (c.empty()) { o.k = NKIND; break; }
        int f = c[o.other % c.size()]; uint64_t one = 1; struct pollfd pf = {f, POLLIN, 0}; bool on = poll(&pf, 1, 0) == 1;
        if (on && o.wait) { if (read(f, &one, 8) < 0) {} } else if (!on) { if (write(f, &one, 8) < 0) {} }
        break; }
      case LOCKER: {
        ticking = false; direct = false;
        while (conflict(p->id, vsys::Range()) >= 0) { p->st = LOCKWAIT; p->want = vsys::Range(); yield(); p->st = RUNNABLE; p->intr = false; }
        locks.push_back({p->id, vsys::Range()}); locker = p->id; lock_epoch_start = ++clock; ev.holds++;
        locked_img.assign(probe, probe_n);
        ticking = true;
        for (unsigned i = 0; i < o.hold; i++) { tick(false); tick(true); if (memcmp(probe, locked_img.data(), probe_n)) pbt::fail("C17 the ring file changed while another process held its lock (offset %zu)", diff()); }
        ticking = false; locker = -1; release(); break; }
      default: break;
    }
    ticking = false;
    if (o.k == NKIND) return;
    if (h && o.ret == -3) for (int f : h->pfd) { struct pollfd pf = {f, POLLIN, 0}; if (poll(&pf, 1, 0) == 1) o.pfd = true; }
    if (h && o.ret == -3 && !h->pfd.empty()) o.pfd = true;      // it may have been cleared since
    o.done = true; o.resp = ++clock;
    REQUIRE(!holds(p->id), "C17 %s returned with the ring's lock held", kname[o.k]);
    bool touches = o.k == RD ? (o.len && o.niov) : o.k == WR ? (!hs[o.h].m.buffered && R0.storable(o.b)) : o.k == STAT || o.k == RESET || o.k == AGET || o.k == ASET || o.k == ASWAP || o.k == OPEN;
    if (touches && under_hold && locker >= 0 && lock_epoch_start == hold0 && o.k != LOCKER)
      pbt::fail("C17 %s started and completed while another process held the ring's lock", kname[o.k]);
  }
  size_t diff() { for (size_t i = 0; i < probe_n; i++) if (probe[i] != locked_img[i]) return i; return 0; }
  std::string appval(uint32_t id) { std::string s(R0.app.size(), 0); model::fill(id, &s[0], s.size()); return s; }
  void opened(int g, shr *s, Op &o) {
    SH &h = hs[g]; h.s = s; h.live = true; h.m = model::Handle(); h.m.rd = o.rd; h.m.nonblock = o.nonblock; h.m.buffered = o.buffered && !o.rd; h.m.open = true;
    bool d = direct; direct = true; h.fd = shr_get_selectable_fd(s); 
    if (h.m.buffered) { // how much it buffers is the library's choice; a local question, asked aside
      h.m.cmax = std::min<size_t>(10000, R0.mm); h.m.cn = std::min<size_t>(R0.n, cache_cn);
    }
    direct = d;
    if ((o.rd || (!o.nonblock && R0.mode == model::PLAIN)) && o.other) {
      for (int i = 0; i < o.other; i++) { int f = eventfd(0, EFD_NONBLOCK); REQUIRE(shr_ctl(s, SHR_POLLFD, f) == 0, "C10 registering a descriptor failed"); h.pfd.push_back(f); }
    }
  }
  size_t cache_cn = 0; bool large = false, lng = false; uint64_t limit = 400000;
  void body(Proc *p) {
    while (p->at < p->ops.size() && !p->stop) {
      Op &o = p->ops[p->at];
      exec(p, o);
      if (o.done) trace(p, o);
      p->at++;
      cur = p; tick_boundary();
    }
    p->st = FINISHED;
  }
  void tick_boundary() { if (pt_left > 0 && --pt_left == 0) yield(); }
  static void entry() { Sim *g = G; Proc *p = g->cur; g->body(p); ticking = false; for (;;) swapcontext(&p->ctx, &g->main_ctx); }

  std::string desc(const Op &o) {
    char b[200]; std::string s = kname[o.k];
    switch (o.k) {
      case RD: snprintf(b, sizeof b, " len=%zu%s%s", o.len, o.bulk ? " iov=" : "", o.bulk ? std::to_string(o.niov).c_str() : ""); s += b; break;
      case WR: s += " " + lib::show(o.b); break;
      case FLUSH: s += o.wait ? " wait" : ""; break;
      case OPEN: s += o.rd ? " reader" : " writer"; if (o.nonblock) s += " nonblock"; if (o.buffered && !o.rd) s += " buffered"; break;
      case ASET: case ASWAP: snprintf(b, sizeof b, " #%u", o.id); s += b; break;
      default: break;
    }
    return s;
  }
  void trace(Proc *p, Op &o) {
    std::string r;
    if (o.k == RD && o.ret > 0) r = lib::show(o.o);
    else r = std::to_string(o.ret);
    pbt::log("p%d h%d [%llu..%llu] %s -> %s%s", p->id, o.h, (unsigned long long)o.inv, (unsigned long long)o.resp, desc(o).c_str(), r.c_str(), o.intr ? " (interrupted)" : "");
  }

  // ---- linearizability
  struct State { model::Ring R; std::vector<model::Handle> h; std::vector<char> quiet; std::vector<uint16_t> idx; std::vector<char> ph; };
  std::unordered_set<std::string> seen; std::string final_img; struct shr_stat fst; Obs fo; std::string fapp; uint64_t states = 0; size_t deepest = 0; std::string why; std::string why_blocked;
  bool relax_blocked = false;

  std::string key(const State &s) {
    std::string k; auto add = [&](uint64_t v) { k.append((char *)&v, 8); };
    for (auto x : s.idx) k.append((char *)&x, 2);
    k.append(s.ph.data(), s.ph.size()); k.append(s.quiet.data(), s.quiet.size());
    add(s.R.base); for (auto &m : s.R.q) add((uint64_t)m.id << 32 | m.len); add(~0ull);
    add(s.R.st.bw); add(s.R.st.mw); add(s.R.st.br); add(s.R.st.mr); add(s.R.st.bd); add(s.R.st.md); add(s.R.st.sec); add(s.R.st.usec); k += s.R.app;
    for (auto &h : s.h) { add(h.pos); add(h.missed); add(h.cb); for (auto &m : h.cache) add((uint64_t)m.id << 32 | m.len); add(~0ull); }
    return k;
  }
  bool same_stat(const struct shr_stat &st, const State &s, const model::Handle *h) {
    const model::Counters &c = s.R.st;
    if (h && !(st.cm == h->cache.size() && st.cb == h->cb && st.cn == h->cn)) return false;
    return st.bw == c.bw && st.mw == c.mw && st.br == c.br && st.mr == c.mr && st.bd == c.bd && st.md == c.md && st.bn == R0.n && st.mm == R0.mm && st.bu == s.R.bytes && st.mu == s.R.q.size() && st.flags == R0.flags && st.start.tv_sec == c.sec && st.start.tv_usec == c.usec;
  }
  // is a call that may store something under way at the same time?
  bool overlapped(const Op &o) {
    for (auto &p : ps) for (auto &x : p->ops) if ((x.k == WR || x.k == FLUSH || x.k == CLOSE) && x.started && x.inv < o.resp && x.resp > o.inv) return true;
    return false;
  }
  // try to let operation o take effect completely with its observed result
  bool apply(State &s, const Op &o) {
    uint64_t w0 = s.R.writes; bool ok = false;
    model::Handle *h = o.h >= 0 ? &s.h[o.h] : nullptr;
    if (o.lintr && o.ret == -1 && o.k != OPEN && o.k != CLOSE) return true;      // interrupted while it waited for the lock
    switch (o.k) {
      case RD: {
        model::Read r{o.len, o.niov}; State t; 
        if (model::step(s.R, *h, r) == model::BLOCKED) { ok = (o.intr && o.ret == -1) || (o.pfd && o.ret == -3); break; }
        ok = r.ret == o.ret && lib::matches(o.o, r.got);
        if (ok && r.ret >= 0 && h->nonblock && model::avail(s.R, *h) == 0) s.quiet[o.h] = 1;
        break; }
      case WR: {
        model::Write w{o.b}; model::Ring r1 = s.R; model::Handle h1 = *h;
        if (model::step(r1, h1, w) == model::BLOCKED) {   // interrupted; a partial effect is a transition of its own
          ok = r1.writes == s.R.writes && ((o.intr && o.ret == -1) || (o.pfd && o.ret == -3)); break;
        }
        s.R = r1; *h = h1; ok = w.ret == o.ret; break; }
      case FLUSH: {
        model::Flush f{o.wait}; if (model::step(s.R, *h, f) == model::BLOCKED) { ok = (o.intr && o.ret == -1) || (o.pfd && o.ret == -3); break; }
        ok = f.ret == o.ret; break; }
      case CLOSE: {
        model::Flush f{false}; f.close = true;
        if (h->rd) { h->open = false; ok = true; break; }
        if (model::step(s.R, *h, f) == model::BLOCKED) { ok = o.intr || !hs[o.h].pfd.empty(); }
        else ok = true;
        h->open = false; h->cache.clear(); h->cb = 0; break; }
      case STAT: ok = o.ret == 0 && same_stat(o.st, s, h); break;
      case RESET: ok = o.ret == 0 && same_stat(o.st, s, h); s.R.st = model::Counters(); s.R.st.sec = o.tv.tv_sec; s.R.st.usec = o.tv.tv_usec; break;
      case AGET: ok = s.R.app.empty() ? o.ret == -1 : o.ret == 0 && o.app == s.R.app; break;
      case ASET: ok = s.R.app.empty() ? o.ret == -1 : o.ret == 0; if (ok && o.ret == 0) s.R.app = appval(o.id); break;
      case ASWAP: ok = s.R.app.empty() ? o.ret == -1 : o.ret == 0 && o.app == s.R.app; if (ok && o.ret == 0) s.R.app = appval(o.id); break;
      case OPEN: model::opened(s.R, *h); s.quiet[o.h] = model::avail(s.R, *h) == 0; ok = true; break;
      case POLL: ok = o.ret ? !s.quiet[o.h] || overlapped(o) : model::avail(s.R, *h) == 0; break;
      case FARMSTAT: ok = (size_t)o.ret == h->missed; if (o.wait) h->missed = 0; break;
      default: ok = true;
    }
    if (s.R.writes != w0) std::fill(s.quiet.begin(), s.quiet.end(), 0);
    return ok;
  }
  // the buffer of a buffered write moves to the ring, the write itself is still to come
  bool half(State &s, const Op &o) {
    if (o.k != WR) return false;
    model::Handle &h = s.h[o.h];
    if (!h.buffered || h.cache.empty() || !s.R.storable(o.b)) return false;
    if (model::Ring::total(o.b) <= h.cn - h.cb && o.b.size() <= h.cmax - h.cache.size()) return false;
    ssize_t r; if (model::put(s.R, h, h.cache, true, r) != model::DONE || r <= 0) return false;
    h.cache.clear(); h.cb = 0; std::fill(s.quiet.begin(), s.quiet.end(), 0);
    return true;
  }
  bool blocked(const State &s, const Op &o) {
    State t = s; model::Handle &h = t.h[o.h];
    if (o.k == RD) { model::Read r{o.len, o.niov}; return model::step(t.R, h, r) == model::BLOCKED; }
    if (o.k == WR) { model::Write w{o.b}; uint64_t w0 = t.R.writes; return model::step(t.R, h, w) == model::BLOCKED && t.R.writes == w0; }
    if (o.k == FLUSH) { model::Flush f{o.wait}; return model::step(t.R, h, f) == model::BLOCKED; }
    if (o.k == CLOSE) { model::Flush f{false}; f.close = true; return !h.rd && model::step(t.R, h, f) == model::BLOCKED; }
    return false;
  }
  bool final_ok(const State &s) {
    // the ring that is left
    Batch all(s.R.q.begin(), s.R.q.end());
    if (!same_stat(fst, s, nullptr)) { why = "the counters left do not match"; return false; }
    if (!(all.empty() ? fo.ret == 0 : fo.ret == (ssize_t)s.R.bytes && lib::matches(fo, all))) { why = "the ring left holds " + lib::show(fo) + ", this order leaves " + lib::show(all); return false; }
    if (fapp != s.R.app) { why = "the application data left do not match"; return false; }
    for (size_t i = 0; i < left.size(); i++) if (left[i].on) {
      model::Ring r = s.R; model::Handle h = s.h[i]; model::Read op{R0.n, R0.mm + 8};
      bool b = model::step(r, h, op) == model::BLOCKED;
      if (b ? left[i].o.ret != -1 : left[i].o.ret != op.ret || !lib::matches(left[i].o, op.got)) { why = "what a farm reader gets at the end does not match"; return false; }
      if (left[i].lost != h.missed) { why = "the loss count of a farm reader does not match"; return false; }
    }
    if (relax_blocked) return true;
    for (auto &p : ps) if (p->at < p->ops.size() && p->ops[p->at].started && !p->ops[p->at].done)
      if (!blocked(s, p->ops[p->at])) { char b[160]; snprintf(b, sizeof b, "p%d is blocked in %s, which could proceed", p->id, desc(p->ops[p->at]).c_str()); why_blocked = b; return false; }
    for (size_t i = 0; i < hs.size(); i++) if (hs[i].live && hs[i].fd >= 0 && owner_idle(hs[i])) {
      bool rdy = final_ready[i];
      if (!rdy && model::avail(s.R, s.h[i])) { why_blocked = "h" + std::to_string(i) + ": messages can be read, but its descriptor is not readable"; return false; }
      if (rdy && s.quiet[i]) { why_blocked = "h" + std::to_string(i) + ": its last read left nothing and nothing was written since, but its descriptor is readable"; return false; }
    }
    return true;
  }
  std::vector<char> final_ready;
  struct Left { bool on = false; Obs o; size_t lost = 0; }; std::vector<Left> left; bool drained = false;
  bool owner_idle(const SH &h) { Proc &p = *ps[h.owner]; return p.st == FINISHED || p.st == FDWAIT; }
  bool dfs(State &s) {
    if (++states > limit) return true;      // undecided: never reported
    if (!seen.insert(key(s)).second) return false;
    uint64_t minresp = ~0ull; bool all = true; size_t depth = 0;
    for (auto &p : ps) {
      size_t i = s.idx[p->id]; depth += i;
      if (i < p->ops.size() && p->ops[i].done) { all = false; minresp = std::min(minresp, p->ops[i].resp); }
    }
    deepest = std::max(deepest, depth);
    if (all && final_ok(s)) return true;
    for (auto &p : ps) {
      size_t i = s.idx[p->id]; if (i >= p->ops.size() || !p->ops[i].started) continue;
      const Op &o = p->ops[i];
      if (o.inv > minresp) continue;
      if (!s.ph[p->id]) { State t = s; if (half(t, o)) { t.ph[p->id] = 1; if (dfs(t)) return true; } }
      if (!o.done) continue;
      State t = s;
      if (apply(t, o)) { t.ph[p->id] = 0; t.idx[p->id]++; skip(t, *p); if (dfs(t)) return true; }
    }
    return false;
  }
  void skip(State &s, Proc &p) { while (s.idx[p.id] < p.ops.size() && (p.ops[s.idx[p.id]].k == NKIND || p.ops[s.idx[p.id]].k == LOCKER || p.ops[s.idx[p.id]].k == TOGGLE)) s.idx[p.id]++; }

  // ---- building a case
  Batch gen_batch(bool bulk) {
    Batch b; size_t k = bulk ? 1 + pbt::draw(std::min<size_t>(4, R0.mm + 1)) : 1;
    if (large && bulk && pbt::chance(2, 3)) {
      k = pbt::chance(1, 4) ? std::min<size_t>(R0.mm, R0.n) : 1 + pbt::draw(std::min<size_t>(R0.mm, R0.n));
      for (size_t i = 0; i < k; i++) b.push_back({next_id++, 1 + (size_t)(R0.n / k > 1 ? next_id % (R0.n / k) : 0)});
      return b;
    }
    for (size_t i = 0; i < k; i++) b.push_back({next_id++, 1 + (pbt::chance(1, 4) ? pbt::draw(R0.n) : pbt::draw(std::max<size_t>(1, R0.n / (k + 1))))});
    return b;
  }
  void gen_op(Op &o, int side) {
    unsigned r = side == 2 ? 0 : P.rd, w = side == 1 ? 0 : P.wr;
    o.k = (Kind)pbt::weighted({r, w, P.flush, P.stat, P.reset, P.aget, P.aset, P.aswap, P.open, P.close, P.poll, P.farmstat, P.toggle, P.locker});
    o.slot = pbt::draw(3);
    switch (o.k) {
      case RD: o.bulk = pbt::chance(1, 2); o.len = pbt::chance(1, 4) ? 1 + pbt::draw(R0.n) : R0.n; o.niov = o.bulk ? 1 + pbt::draw(R0.mm + 1) : 1; break;
      case WR: o.bulk = pbt::chance(1, 2); o.b = gen_batch(o.bulk); break;
      case FLUSH: case FARMSTAT: o.wait = pbt::chance(1, 2); break;
      case RESET: o.tv.tv_sec = pbt::chance(1, 4) ? 0 : 1 + pbt::draw(1000); o.tv.tv_usec = pbt::chance(1, 4) ? 0 : pbt::draw(1000); break;
      case ASET: case ASWAP: o.id = 0x50000000u + next_id++; break;
      case OPEN: gen_open(o, side); break;
      case TOGGLE: o.other = pbt::draw(8); o.wait = pbt::chance(1, 2); break;
      case LOCKER: o.hold = 1 + pbt::small(0, 300); break;
      default: break;
    }
  }
  void gen_open(Op &o, int side) {
    o.k = OPEN; o.rd = side ? side == 1 : pbt::chance(1, 2); o.nonblock = pbt::chance(P.nonblock, 100); o.buffered = pbt::chance(P.buffered, 100);
    o.other = pbt::chance(P.pollfd, 100) ? 1 + pbt::draw(2) : 0;
  }
  void create() {
    static int n; char b[32]; snprintf(b, sizeof b, "/s%d", n++ & 3); path = std::string(pbt::scratch()) + b; unlink(path.c_str());
    R0.n = 1 + (pbt::chance(1, 4) ? pbt::draw(60) : pbt::draw(14)); R0.mm = pbt::chance(1, 5) ? 1 + pbt::draw(R0.n + 1) : 1 + pbt::draw(5);
    if (P.large && pbt::chance(P.large, 100)) { large = true; limit = 20000; R0.mm = 65 + pbt::draw(400); R0.n = R0.mm + pbt::draw(3 * R0.mm); }
    if (P.lng && pbt::chance(P.lng, 100)) { R0.n = pbt::chance(1, 2) ? ((size_t)1 << (12 + pbt::draw(7))) - 3 + pbt::draw(7) : 1000 + pbt::draw(300000); R0.mm = 1 + pbt::draw(8); lng = true; }
    R0.mode = (model::Mode)pbt::weighted({P.plain, P.drop, P.farm});
    unsigned fl = SHR_MAXMSGS_2;
    if (R0.mode == model::DROP) fl |= SHR_DROP, R0.flags |= SHR_DROP;
    if (R0.mode == model::FARM) fl |= SHR_FARM, R0.flags |= SHR_FARM | SHR_DROP;
    if (pbt::chance(P.sync, 100)) fl |= SHR_SYNC, R0.flags |= SHR_SYNC;
    int rc;
    if (pbt::chance(P.app, 100)) { R0.app.assign(lng && pbt::chance(1, 3) ? 1 + pbt::draw(140000) : 1 + pbt::draw(40), 0); model::fill(0x5fffffff, &R0.app[0], R0.app.size()); std::string a = R0.app; rc = shr_init(&path[0], R0.n, fl | SHR_APPDATA, &a[0], a.size(), R0.mm); }
    else rc = shr_init(&path[0], R0.n, fl, R0.mm);
    REQUIRE(rc == 0, "C14 creation failed");
    pbt::log("create n=%zu mm=%zu mode=%s app=%zu", R0.n, R0.mm, R0.mode == 0 ? "plain" : R0.mode == 1 ? "drop" : "farm", R0.app.size());
    probe_fd = ::open(path.c_str(), O_RDONLY); struct stat st; fstat(probe_fd, &st); ino = st.st_ino; probe_n = st.st_size;
    probe = (char *)mmap(0, probe_n, PROT_READ, MAP_SHARED, probe_fd, 0);
  }
  void prefill() {
    if (pbt::chance(1, 3)) return;
    shr *w = shr_open(path.c_str(), SHR_WRONLY | SHR_NONBLOCK), *r = shr_open(path.c_str(), SHR_RDONLY | SHR_NONBLOCK); REQUIRE(w && r, "C15 open failed");
    model::Handle wm, rm; wm.nonblock = rm.nonblock = true; rm.rd = true; model::opened(R0, wm); model::opened(R0, rm);
    for (unsigned i = pbt::draw(8); i--;) {
      if (pbt::chance(1, 3)) { model::Read op{R0.n, 1}; Obs o; model::step(R0, rm, op); lib::rd(r, R0.n, 1, R0.n, false, o); REQUIRE(o.ret == op.ret && lib::matches(o, op.got), "C01 a read during preparation returned %s", lib::show(o).c_str()); pbt::log("prepare: read -> %zd", o.ret); }
      else { Batch b = gen_batch(true); model::Write op{b}; model::step(R0, wm, op); ssize_t k = lib::wr(w, b, true); REQUIRE(k == op.ret, "C02 a write during preparation returned %zd, expected %zd", k, op.ret); pbt::log("prepare: write %s -> %zd", lib::show(b).c_str(), k); }
    }
    shr_close(w); shr_close(r); R0.writes = 0;
  }
  void run(const SProf &p) {
    P = p; G = this; vsys::sys = this; vsys::live.clear(); direct = true; ticking = false;
    fd0 = nfds(); pool = pbt::chance(1, 2);
    if (!stacks) stacks = (char *)mmap(0, (size_t)STACK * MAXP, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
    create(); prefill();
    if (P.buffered) { shr *s = shr_open(path.c_str(), SHR_WRONLY | SHR_NONBLOCK | SHR_BUFFERED); REQUIRE(s, "C15 open failed"); struct shr_stat st; shr_stat(s, &st, NULL); cache_cn = st.cn; shr_close(s); }
    unsigned np = 2 + pbt::draw(P.procs - 1); hs.reserve(64);
    State s0;
    for (unsigned i = 0; i < np; i++) {
      ps.emplace_back(new Proc); Proc *q = ps.back().get(); q->id = i;
      int side = pbt::chance(P.only_rd, 100) ? 1 + (int)(i % 2) : 0;
      for (int sl = 0; sl < 2; sl++) {     // handles opened beforehand
        if (sl == 1 && (side || pbt::chance(1, 3))) continue;
        if (pbt::chance(1, 6)) continue;
        Op o; gen_open(o, side ? side : 1 + (sl + i) % 2);
        unsigned fl = (o.rd ? SHR_RDONLY : SHR_WRONLY) | (o.nonblock ? SHR_NONBLOCK : 0) | (o.buffered ? SHR_BUFFERED : 0);
        shr *s = shr_open(path.c_str(), fl); REQUIRE(s, "C15 open failed");
        hs.emplace_back(); hs.back().owner = i; opened(hs.size() - 1, s, o); q->slots[sl] = hs.size() - 1;
        pbt::log("p%u: h%zu = %s", i, hs.size() - 1, desc(o).c_str());
      }
      for (unsigned k = 0; k < P.ops * 2; k++) { pbt::span(); if (!pbt::chance(P.ops, P.ops + 1)) break; Op o; gen_op(o, side); q->ops.push_back(o); }
    }
    size_t pre = hs.size();
    for (auto &q : ps) {
      getcontext(&q->ctx); q->ctx.uc_stack.ss_sp = stacks + (size_t)STACK * q->id; q->ctx.uc_stack.ss_size = STACK; q->ctx.uc_link = NULL;
      makecontext(&q->ctx, entry, 0);
    }
    direct = false;
    // run
    for (;;) {
      std::vector<Proc *> c; for (auto &q : ps) if (can_run(q.get())) c.push_back(q.get());
      if (c.empty()) break;
      // an interruption of a waiting call
      if (P.intr) { for (auto &q : ps) if ((q->st == FDWAIT || (q->st == LOCKWAIT && q->ops[q->at].k != LOCKER)) && !q->intr && pbt::chance(P.intr, 100)) { q->intr = true; ev.intr++; pbt::log("(signal to p%d)", q->id); c = {q.get()}; break; } }
      pbt::span();
      switch (pbt::weighted({3, 5, 4, 2})) {
        case 0: bb_left = pt_left = 0; break;                       // until it has to wait
        case 1: pt_left = 1 + pbt::draw(12); bb_left = 0; break;    // some calls
        case 2: bb_left = 1 + pbt::small(0, large ? 12000 : 1500); pt_left = 0; break;
        case 3: bb_left = 1 + pbt::draw(40); pt_left = 1 + pbt::draw(30); break;
      }
      cur = c[pbt::draw(c.size())]; switches++;
      swapcontext(&main_ctx, &cur->ctx);
      ticking = false;
    }
    cur = nullptr;
    for (auto &q : ps) REQUIRE(q->st != LOCKWAIT, "C17 deadlock: p%d waits for the ring's lock, held by p%d", q->id, locks.empty() ? -1 : locks[0].p);
    REQUIRE(locks.empty(), "C17 nothing runs any more and the lock is held");
    // what is left
    direct = true;
    for (auto &q : ps) if (q->st == FDWAIT) { ev.pending++; pbt::log("p%d h%d [%llu..] %s is still blocked", q->id, q->ops[q->at].h, (unsigned long long)q->ops[q->at].inv, desc(q->ops[q->at]).c_str()); }
    for (auto &h : hs) { struct pollfd pf = {h.fd, POLLIN, 0}; final_ready.push_back(h.live && h.fd >= 0 && poll(&pf, 1, 0) == 1); }
    for (auto &q : ps) if (q->st == FDWAIT) for (int f : hs[q->ops[q->at].h].pfd) { struct pollfd pf = {f, POLLIN, 0}; REQUIRE(poll(&pf, 1, 0) != 1, "C10 p%d is blocked although its registered descriptor is readable", q->id); }
    std::string copy = path + ".left";
    { int fd = ::open(copy.c_str(), O_RDWR | O_CREAT | O_TRUNC, 0644); if (write(fd, probe, probe_n) != (ssize_t)probe_n) pbt::discard(); ::close(fd); }
    shr *s = shr_open(copy.c_str(), SHR_RDONLY | SHR_NONBLOCK); REQUIRE(s, "C07 the ring left cannot be opened");
    shr_stat(s, &fst, NULL); lib::rd(s, R0.n, R0.mm + 8, R0.n, true, fo);
    if (!R0.app.empty()) { fapp.resize(R0.app.size()); void *g = &fapp[0]; size_t z = fapp.size(); REQUIRE(shr_appdata(s, &g, NULL, &z) == 0, "C13 application data cannot be read"); }
    shr_close(s); unlink(copy.c_str());
    // what every farm reader would get next, and what it counts as lost
    left.resize(hs.size());
    if (R0.mode == model::FARM) for (size_t i = 0; i < hs.size(); i++) if (hs[i].live && hs[i].m.rd && ps[hs[i].owner]->st == FINISHED) {
      lib::rd(hs[i].s, R0.n, R0.mm + 8, R0.n, true, left[i].o); left[i].lost = shr_farm_stat(hs[i].s, 0); left[i].on = true; drained = true;
      pbt::log("h%zu at the end: %s, %zu lost", i, lib::show(left[i].o).c_str(), left[i].lost);
    }
    // judge
    s0.R = R0; s0.idx.assign(ps.size(), 0); s0.ph.assign(ps.size(), 0);
    for (size_t i = 0; i < hs.size(); i++) { s0.h.push_back(hs[i].m); s0.quiet.push_back(0); if (i < pre) { model::opened(s0.R, s0.h[i]); s0.quiet[i] = model::avail(s0.R, s0.h[i]) == 0; } }
    for (auto &q : ps) skip(s0, *q);
    State t = s0;
    if (!dfs(t)) {
      relax_blocked = true; seen.clear(); t = s0; states = 0;
      if (!why_blocked.empty() && dfs(t)) pbt::fail("%s %s", why_blocked[0] == 'h' ? "C09" : "C08", why_blocked.c_str());
      pbt::fail("C07 no one-at-a-time order explains these results (%s)", why.empty() ? "results contradict each other" : why.c_str());
    }
    if (states > limit) pbt::label("undecided (too many orders)");
    // unwind the blocked calls: they must fail without effect, and all is released
    for (auto &q : ps) if (q->st != FINISHED) {
      q->stop = true; q->intr = true; bb_left = pt_left = 0; direct = false; cur = q.get();
      for (int guard = 0; q->st != FINISHED && guard < 100; guard++) { if (q->st == FDWAIT) q->intr = true; swapcontext(&main_ctx, &cur->ctx); }
      ticking = false; direct = true; cur = nullptr;
      REQUIRE(q->st == FINISHED, "C10 p%d cannot be interrupted", q->id);
      Op &o = q->ops[q->at ? q->at - 1 : 0];
      if (o.k != CLOSE) REQUIRE(o.ret == -1, "C10 an interrupted %s returned %zd", kname[o.k], o.ret);
    }
    s = shr_open(path.c_str(), SHR_RDONLY | SHR_NONBLOCK); REQUIRE(s, "C07 the ring left cannot be opened");
    { Obs o2; struct shr_stat st2; shr_stat(s, &st2, NULL); lib::rd(s, R0.n, R0.mm + 8, R0.n, true, o2);
      bool closing = false; for (auto &q : ps) for (auto &o : q->ops) if (o.k == CLOSE && o.intr) closing = true;
      if (!closing) REQUIRE(o2.ret == fo.ret && o2.data == fo.data && o2.lens == fo.lens && st2.mw == fst.mw && (drained || st2.mr == fst.mr), "C10 interrupted calls changed the ring"); }
    shr_close(s);
    for (auto &h : hs) { if (h.live) shr_close(h.s); for (int f : h.pfd) ::close(f); }
    munmap(probe, probe_n); ::close(probe_fd);
    REQUIRE(vsys::live.empty(), "C21 memory remains after the last close");
    if (fd0 >= 0) REQUIRE(nfds() == fd0, "C21 %d descriptors are open after the last close, %d before the first open", nfds(), fd0);
    unlink(path.c_str()); vsys::sys = nullptr;
    pbt::label("context switches", switches); pbt::label("preemptions", ev.preempt); pbt::label("preemptions inside the lock", torn_chances);
    pbt::label("waits for the lock", ev.lockwaits); pbt::label("waits for readiness", ev.waits); pbt::label("calls blocked at the end", ev.pending);
    size_t done = 0; for (auto &q : ps) for (auto &o : q->ops) done += o.done; pbt::label("calls in histories", done);
    if (ev.holds) pbt::label("lock held by an outsider", ev.holds);
  }
  size_t ndone(Kind k, bool pos) { size_t n = 0; for (auto &q : ps) for (auto &o : q->ops) n += o.done && o.k == k && (!pos || o.ret > 0); return n; }
};
extern "C" void __sanitizer_cov_trace_pc() { if (ticking) G->tick(false); }
extern "C" void vsys_copy_point() { if (ticking) G->tick(false); }

static void go(const SProf &p, bool (*nt)(Sim &)) { Sim s; s.run(p); if (nt(s)) pbt::nontrivial(); }
#define NT [](Sim & w) -> bool
#define OVERLAP (w.ev.preempt >= 1)
static void c01() { SProf p; p.drop = p.farm = 0; p.nonblock = 40; p.buffered = 10; go(p, NT { return OVERLAP && w.ndone(RD, true) >= 1 && w.ndone(WR, true) >= 1; }); }
static void c02() { SProf p; p.drop = p.farm = 0; p.nonblock = 60; p.wr = 20; p.stat = 2; go(p, NT { return OVERLAP && w.ndone(WR, true) >= 2; }); }
static void c03() { SProf p; p.plain = p.farm = 0; p.drop = 1; p.wr = 14; p.stat = 3; go(p, NT { return OVERLAP && w.ndone(RD, true) >= 1 && w.ndone(WR, true) >= 2; }); }
static void c04() { SProf p; p.plain = p.drop = 0; p.farm = 1; p.wr = 12; p.farmstat = 3; p.open = 4; go(p, NT { return OVERLAP && w.ndone(RD, true) >= 1 && w.ndone(WR, true) >= 2; }); }
static void c07() { SProf p; p.plain = p.drop = p.farm = 1; p.buffered = 15; p.flush = 2; p.stat = 2; p.reset = 1; p.aget = 1; p.aset = 1; p.aswap = 2; p.open = 3; p.close = 2; p.poll = 1; p.farmstat = 1; p.nonblock = 50; p.app = 60; p.intr = 2; p.procs = 4; go(p, NT { return OVERLAP && w.ndone(RD, true) + w.ndone(WR, true) >= 2; }); }
static void c07_rw() { SProf p; p.plain = 3; p.drop = p.farm = 1; p.nonblock = 50; p.procs = 3; p.ops = 4; p.open = p.close = 0; go(p, NT { return OVERLAP && w.ndone(RD, true) + w.ndone(WR, true) >= 2; }); }
static void c07_large() { SProf p; p.plain = 2; p.drop = p.farm = 1; p.large = 100; p.nonblock = 60; p.procs = 3; p.ops = 3; p.buffered = 10; p.flush = 1; p.stat = 2; p.reset = 1; p.poll = 1; go(p, NT { return OVERLAP && w.ndone(RD, true) + w.ndone(WR, true) >= 2; }); }
static void c07_long() { SProf p; p.plain = 2; p.drop = p.farm = 1; p.lng = 100; p.nonblock = 60; p.procs = 3; p.ops = 3; p.buffered = 10; p.flush = 1; p.stat = 2; p.reset = 1; p.poll = 1; go(p, NT { return OVERLAP && w.ndone(RD, true) + w.ndone(WR, true) >= 2; }); }
static void c08_large() { SProf p; p.plain = 4; p.drop = p.farm = 1; p.large = 100; p.nonblock = 10; p.procs = 3; p.ops = 3; p.buffered = 10; p.flush = 1; p.only_rd = 80; go(p, NT { return OVERLAP && w.ev.waits >= 1; }); }
static void c08_long() { SProf p; p.plain = 4; p.drop = p.farm = 1; p.lng = 100; p.nonblock = 10; p.procs = 3; p.ops = 3; p.buffered = 10; p.flush = 1; p.only_rd = 80; go(p, NT { return OVERLAP && w.ev.waits >= 1; }); }
static void c09_large() { SProf p; p.plain = 3; p.drop = p.farm = 1; p.large = 100; p.nonblock = 85; p.procs = 3; p.ops = 4; p.poll = 8; p.open = 3; p.only_rd = 50; go(p, NT { return OVERLAP && w.ndone(RD, true) >= 1 && w.ndone(WR, true) >= 1; }); }
static void c09_long() { SProf p; p.plain = 3; p.drop = p.farm = 1; p.lng = 100; p.nonblock = 85; p.procs = 3; p.ops = 4; p.poll = 8; p.open = 3; p.only_rd = 50; go(p, NT { return OVERLAP && w.ndone(RD, true) >= 1 && w.ndone(WR, true) >= 1; }); }
static void c17_large() { SProf p; p.plain = 2; p.drop = p.farm = 1; p.large = 100; p.procs = 3; p.ops = 3; p.locker = 5; p.stat = 1; p.reset = 1; p.buffered = 20; p.flush = 2; p.nonblock = 50; go(p, NT { return w.ev.holds >= 1 && w.ev.lockwaits >= 1; }); }
static void c17_long() { SProf p; p.plain = 2; p.drop = p.farm = 1; p.lng = 100; p.procs = 3; p.ops = 3; p.locker = 5; p.stat = 1; p.reset = 1; p.buffered = 20; p.flush = 2; p.nonblock = 50; go(p, NT { return w.ev.holds >= 1 && w.ev.lockwaits >= 1; }); }
static void c08() { SProf p; p.plain = 4; p.drop = 1; p.farm = 1; p.nonblock = 10; p.procs = 4; p.open = 3; p.close = 3; p.buffered = 10; p.flush = 1; p.only_rd = 70; go(p, NT { return OVERLAP && w.ev.waits >= 1; }); }
static void c08_core() { SProf p; p.plain = 5; p.drop = 1; p.farm = 1; p.nonblock = 10; p.procs = 4; p.open = 1; p.close = 1; p.only_rd = 90; p.ops = 4; go(p, NT { return OVERLAP && w.ev.waits >= 1; }); }
static void c08_crowd() { SProf p; p.plain = 4; p.drop = p.farm = 1; p.nonblock = 8; p.procs = 18; p.ops = 2; p.only_rd = 85; p.open = p.close = 1; go(p, NT { return OVERLAP && w.ev.waits >= 4; }); }
static void c09() { SProf p; p.plain = 3; p.drop = p.farm = 1; p.nonblock = 85; p.poll = 12; p.open = 4; p.close = 1; p.only_rd = 50; go(p, NT { return OVERLAP && w.ndone(POLL, false) >= 1 && w.ndone(WR, true) >= 1; }); }
static void c10() { SProf p; p.plain = 4; p.drop = p.farm = 1; p.nonblock = 5; p.pollfd = 70; p.toggle = 5; p.intr = 5; p.only_rd = 60; go(p, NT { for (auto &q : w.ps) for (auto &o : q->ops) if (o.done && (o.ret == -3 || o.intr)) return true; return false; }); }
static void c11() { SProf p; p.plain = 4; p.drop = p.farm = 1; p.buffered = 90; p.flush = 6; p.wr = 16; p.stat = 2; p.nonblock = 50; go(p, NT { return OVERLAP && w.ndone(FLUSH, true) >= 1; }); }
static void c12() { SProf p; p.plain = 2; p.drop = p.farm = 1; p.stat = 8; p.reset = 4; p.nonblock = 70; go(p, NT { return OVERLAP && w.ndone(STAT, false) + w.ndone(RESET, false) >= 1 && w.ndone(WR, true) >= 1; }); }
static void c13() { SProf p; p.app = 100; p.aget = 8; p.aset = 5; p.aswap = 8; p.rd = p.wr = 4; p.nonblock = 80; go(p, NT { return OVERLAP && w.ndone(ASET, false) + w.ndone(ASWAP, false) >= 2; }); }
static void c17() { SProf p; p.plain = 3; p.drop = p.farm = 1; p.locker = 8; p.stat = 2; p.reset = 1; p.app = 60; p.aget = p.aset = p.aswap = 1; p.open = 4; p.close = 3; p.buffered = 15; p.flush = 2; p.nonblock = 50; go(p, NT { return w.ev.holds >= 1 && w.ev.lockwaits >= 1; }); }

static void c21() { SProf p; p.plain = 3; p.drop = p.farm = 1; p.open = 8; p.close = 8; p.buffered = 20; p.flush = 1; p.nonblock = 40; p.pollfd = 20; p.intr = 12; p.app = 50; p.aget = 1; go(p, NT { return w.ndone(CLOSE, false) >= 2 && w.ev.intr >= 1; }); }

#define R "2..4 virtual processes with pre-opened and newly opened handles run 0..10 calls each under a drawn schedule (switches at system calls, inside copies and between basic blocks); the history, the ring left, the calls left blocked and the descriptors left must be explained by one sequential order; non-trivial: at least one preemption and "
static std::vector<pbt::Property> props = {
  {"C07", "c07-mix", c07, 48000, 600000, R "two calls that moved messages", 60, 0},
  {"C07", "c07-rw", c07_rw, 48000, 600000, R "two calls that moved messages", 60, 0},
  {"C07", "c07-large", c07_large, 7500, 100000, R "two calls that moved messages; rings of 65..464 messages, batches of up to all of them", 60, 0},
  {"C08", "c08-mix", c08, 48000, 600000, R "a call that waited", 60, 0},
  {"C08", "c08-core", c08_core, 48000, 600000, R "a call that waited", 60, 0},
  {"C08", "c08-large", c08_large, 6000, 80000, R "a call that waited; rings of 65..464 messages, batches of up to all of them", 60, 0},
  {"C08", "c08-crowd", c08_crowd, 6000, 80000, "2..18 virtual processes, as above; non-trivial: at least one preemption and four calls that waited", 60, 0},
  {"C09", "c09-large", c09_large, 8000, 80000, R "a successful read and write; rings of 65..464 messages, batches of up to all of them", 60, 0},
  {"C17", "c17-large", c17_large, 8000, 80000, R "a call that had to wait for the lock; rings of 65..464 messages, batches of up to all of them", 60, 0},
  {"C07", "c07-simlong", c07_long, 5000, 60000, R "two calls that moved messages; rings of 1000 bytes to 300 KiB", 60, 0},
  {"C08", "c08-simlong", c08_long, 4000, 48000, R "a call that waited; rings of 1000 bytes to 300 KiB", 60, 0},
  {"C09", "c09-simlong", c09_long, 4000, 48000, R "a successful read and write; rings of 1000 bytes to 300 KiB", 60, 0},
  {"C17", "c17-simlong", c17_long, 4000, 48000, R "a call that had to wait for the lock; rings of 1000 bytes to 300 KiB", 60, 0},
  {"C01", "c01-sim", c01, 24000, 300000, R "a successful read and write", 60, 0},
  {"C02", "c02-sim", c02, 24000, 300000, R "two successful writes", 60, 0},
  {"C03", "c03-sim", c03, 24000, 300000, R "a successful read and two writes", 60, 0},
  {"C04", "c04-sim", c04, 24000, 300000, R "a successful read and two writes", 60, 0},
  {"C09", "c09-sim", c09, 32000, 400000, R "a poll and a successful write", 60, 0},
  {"C10", "c10-sim", c10, 32000, 400000, R "a call that was interrupted", 60, 0},
  {"C11", "c11-sim", c11, 24000, 300000, R "a flush that moved data", 60, 0},
  {"C12", "c12-sim", c12, 24000, 300000, R "a statistics call and a successful write", 60, 0},
  {"C13", "c13-sim", c13, 24000, 300000, R "two changes of the application data", 60, 0},
  {"C21", "c21-sim", c21, 24000, 300000, R "two closes and an interruption", 60, 0},
  {"C17", "c17-sim", c17, 40000, 400000, R "a call that had to wait for the lock", 60, 0},
};
int main(int c, char **v) { return pbt::main(c, v, props); }
