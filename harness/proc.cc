// Real processes sharing one ring: what outlives them (C06) and what their
// waiter slots do when they come, go, exit, are killed, stay unreaped, or when
// their process id belongs to somebody else (C16). Commands go to the worker
// processes one at a time; a call that has to wait stays outstanding while
// others act.
#include "lib.h"
#include "vsys.h"
#include <errno.h>
#include <fcntl.h>
#include <grp.h>
#include <poll.h>
#include <signal.h>
#include <stdio.h>
#include <string.h>
#include <sys/mman.h>
#include <sys/prctl.h>
#include <sys/socket.h>
#include <sys/stat.h>
#include <sys/un.h>
#include <sys/wait.h>
#include <time.h>
#include <unistd.h>
#include <map>
#include <memory>
using model::Batch; using model::Msg; using lib::Obs;

enum Cmd { OPEN, CLOSE, READ, WRITE, FLUSH, STAT, RESET, APPGET, APPSET, POLL, FARMSTAT, DETACH, EXIT, INIT, FORK };
enum { MAXH = 70, DATA = 1 << 16, MAXM = 4096 };
struct Shared {   // one per worker
  int cmd, slot, flags, bulk, wait; size_t len, niov, nb; uint32_t ids[MAXM]; size_t lens[MAXM]; struct timeval tv;
  ssize_t ret; int fd, err; size_t got; size_t olens[MAXM]; char data[DATA]; struct shr_stat st;
};
struct Prof { unsigned plain = 3, drop = 1, farm = 1, workers = 4, ops = 40, nonblock = 60, buffered = 15, kill = 3, exit = 3, detach = 1, other_user = 25, many = 0, app = 60, w_rd = 10, w_wr = 10; };
struct PH { bool live = false; int slot; model::Handle m; int fd = -1; bool waits = false; };
struct Worker { pid_t pid = 0; int sock = -1; Shared *sh = nullptr; bool nobody = false; std::vector<std::unique_ptr<PH>> hs; bool dead = false, zombie = false; int no = 0; };

static double now() { struct timespec t; clock_gettime(CLOCK_MONOTONIC, &t); return t.tv_sec + t.tv_nsec / 1e9; }

static void worker_main(const std::string &path, Shared *sh, int sock, bool nobody) {
  if (nobody) { if (setgroups(0, NULL) || setgid(65534) || setuid(65534)) _exit(3); }
  prctl(PR_SET_PDEATHSIG, SIGKILL);
  struct sigaction sa; memset(&sa, 0, sizeof sa); sa.sa_handler = [](int) {}; sigaction(SIGUSR1, &sa, NULL);
  shr *h[MAXH] = {0}; char c;
  for (;;) {
    ssize_t rc = read(sock, &c, 1); if (rc < 0 && errno == EINTR) continue; if (rc != 1) break;
    int cmd = sh->cmd, wt = sh->wait;   // the parent may reuse sh as soon as it has the reply
    shr *s = sh->slot >= 0 && sh->slot < MAXH ? h[sh->slot] : NULL; sh->ret = -99;
    switch (cmd) {
      case OPEN: h[sh->slot] = shr_open(path.c_str(), sh->flags); sh->ret = h[sh->slot] ? 0 : -1; sh->fd = h[sh->slot] ? shr_get_selectable_fd(h[sh->slot]) : -2; if (h[sh->slot]) shr_stat(h[sh->slot], &sh->st, NULL); break;
      case CLOSE: shr_close(s); h[sh->slot] = NULL; sh->ret = 0; break;
      case READ: { Obs o; lib::rd(s, sh->len, sh->niov, DATA, sh->bulk, o); sh->ret = o.ret; sh->got = o.lens.size(); for (size_t i = 0; i < o.lens.size(); i++) sh->olens[i] = o.lens[i]; memcpy(sh->data, o.data.data(), o.data.size()); break; }
      case WRITE: { Batch b; for (size_t i = 0; i < sh->nb; i++) b.push_back({sh->ids[i], sh->lens[i]}); sh->ret = lib::wr(s, b, sh->bulk); break; }
      case FLUSH: sh->ret = shr_flush(s, sh->wait); break;
      case STAT: sh->ret = shr_stat(s, &sh->st, NULL); break;
      case RESET: sh->ret = shr_stat(s, &sh->st, &sh->tv); break;
      case APPGET: { void *p = NULL; size_t z = 0; sh->ret = shr_appdata(s, &p, NULL, &z); sh->got = z; if (sh->ret == 0) { memcpy(sh->data, p, z); } free(p); break; }
      case APPSET: { size_t z = sh->len; sh->ret = shr_appdata(s, NULL, sh->data, &z); break; }
      case POLL: { struct pollfd pf = {shr_get_selectable_fd(s), POLLIN, 0}; sh->ret = poll(&pf, 1, 0); break; }
      case FARMSTAT: sh->ret = shr_farm_stat(s, sh->wait); break;
      case INIT: sh->ret = shr_init((char *)path.c_str(), 100, SHR_KEEPEXIST); break;
      case DETACH: {  // from now on this process id is somebody else's
        std::vector<std::string> old; auto mk = [] { return socket(AF_UNIX, SOCK_DGRAM, 0); };
        auto bnd = [](int f, const std::string &n) { struct sockaddr_un a; memset(&a, 0, sizeof a); a.sun_family = AF_UNIX; memcpy(a.sun_path, n.data(), n.size()); if (bind(f, (struct sockaddr *)&a, sizeof(sa_family_t) + n.size())) {} };
        for (int fd = 3; fd < 1024; fd++) if (fd != sock) {
          struct sockaddr_un a; socklen_t l = sizeof a; if (old.size() < 40 && getsockname(fd, (struct sockaddr *)&a, &l) == 0 && a.sun_family == AF_UNIX && l > sizeof(sa_family_t) + 2) old.emplace_back(a.sun_path, l - sizeof(sa_family_t));
          close(fd);
        }
        if (sh->wait == 4) { memset(h, 0, sizeof h); sh->ret = 0; break; }
        if (sh->wait) for (int i = 0; i < (sh->wait > 2 ? 1010 : 3); i++) { int f = mk(); if (sh->wait > 1 && i < 3) bnd(f, ""); }
        if (sh->wait == 2) for (auto &n : old) {   // names that look alike
          std::string last = n, first = n; last.back() ^= 1; first[1] ^= 1;
          bnd(mk(), last); bnd(mk(), first); bnd(mk(), n + "0"); bnd(mk(), n.substr(0, n.size() - 1));
        }
        sh->got = 0; for (auto &n : old) if (n.size() == 6) { memcpy(sh->data + 6 * sh->got, n.data(), 6); sh->got++; }
        sh->ret = 0; break; }
      case FORK: { pid_t k = fork(); if (k == 0) { close(sock); signal(SIGALRM, SIG_DFL); alarm(60); for (;;) pause(); } sh->ret = k; break; }   // a child that does nothing keeps its descriptors
      case EXIT: _exit(0);
    }
    while ((rc = write(sock, "r", 1)) < 0 && errno == EINTR) {}
    if (rc != 1) _exit(0);
    while (cmd == DETACH && wt != 4) pause();
  }
  _exit(0);
}

struct PW {
  Prof P; std::string path; model::Ring R; std::vector<std::unique_ptr<Worker>> ws; uint32_t next_id = 1; int wno = 0;
  struct Pending { Worker *w = nullptr; PH *h = nullptr; bool rd = false, flush = false; model::Read r{0, 0}; model::Write wr{Batch()}; model::Flush fl{false}; } pend;
  unsigned deaths = 0, reads = 0, writes = 0, crossed = 0, refused64 = 0; std::vector<pid_t> zombies; std::vector<int> named; unsigned namesakes = 0;
  ~PW() { for (int f : named) ::close(f); }

  void fail_from_worker(Worker *w) {
    int st = 0; if (waitpid(w->pid, &st, 0) == w->pid && WIFEXITED(st) && WEXITSTATUS(st) == 77) _exit(77);   // message is in shared memory
    pbt::fail("worker p%d died: %s %d", w->no, WIFSIGNALED(st) ? "signal" : "exit", WIFSIGNALED(st) ? WTERMSIG(st) : WEXITSTATUS(st));
  }
  void send(Worker *w, int cmd, int slot) { w->sh->cmd = cmd; w->sh->slot = slot; if (write(w->sock, "c", 1) != 1) fail_from_worker(w); }
  bool reply(Worker *w, double sec) {
    double t0 = now(); 
    for (;;) {
      struct pollfd pf = {w->sock, POLLIN, 0}; double left = sec - (now() - t0);
      int r = poll(&pf, 1, left > 0 ? (int)(left * 1000) + 1 : 0);
      if (r < 0) continue;
      if (r == 0) { if (left > 0) continue; return false; }
      char c; ssize_t k = read(w->sock, &c, 1);
      if (k == 1) return true;
      fail_from_worker(w);
    }
  }
  ssize_t call(Worker *w, int cmd, int slot, const char *id = "C16") {
    send(w, cmd, slot);
    if (!reply(w, 25)) pbt::fail("%s p%d: call %d hangs", id, w->no, cmd);
    return w->sh->ret;
  }
  bool same_user = false;   // another user cannot see whose sockets they are
  Worker *spawn(bool nobody) {
    if (same_user) nobody = false;
    std::unique_ptr<Worker> w(new Worker); int sv[2];
    if (socketpair(AF_UNIX, SOCK_STREAM, 0, sv)) pbt::discard();
    w->sh = (Shared *)mmap(0, sizeof(Shared), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
    w->no = ++wno; w->nobody = nobody;
    pid_t p = fork();
    if (p == 0) { ::close(sv[0]); for (auto &x : ws) if (x->sock >= 0) ::close(x->sock); worker_main(path, w->sh, sv[1], nobody); }
    ::close(sv[1]); w->pid = p; w->sock = sv[0];
    pbt::log("p%d starts%s", w->no, nobody ? " (as another user)" : "");
    ws.push_back(std::move(w)); return ws.back().get();
  }
  size_t waiting(bool rd) { size_t n = 0; for (auto &w : ws) for (auto &h : w->hs) n += h->live && h->m.rd == rd && (rd || h->waits); return n; }
  void gone(Worker *w) { for (auto &h : w->hs) h->live = false; if (pend.w == w) pend = Pending(); ::close(w->sock); w->sock = -1; w->dead = true; deaths++; munmap(w->sh, sizeof(Shared)); w->sh = nullptr; }
  void drop(Worker *w) { for (size_t i = 0; i < ws.size(); i++) if (ws[i].get() == w) { ws.erase(ws.begin() + i); break; } }
  void end_worker(Worker *w, int how) {   // 0 exit without closing, 1 kill and reap, 2 kill, stay unreaped, 3 pid becomes another process's
    static const char *n[] = {"exits without closing", "is killed", "is killed and stays unreaped", "dies and its process id is reused", "dies and its process id is reused by a user of other sockets", "dies and its process id is reused by a user of a thousand sockets", "dies and its process id is reused by one that will use the ring"};
    size_t open = 0; for (auto &h : w->hs) open += h->live;
    pbt::log("p%d %s (%zu handles open%s)", w->no, n[how], open, pend.w == w ? ", one call waiting" : "");
    bool others = false; for (auto &x : ws) others = others || x->nobody;
    if (how == 6) {
      if (pend.w == w) how = 1;
      else { w->sh->wait = 4; call(w, DETACH, -1); for (auto &h : w->hs) h->live = false; deaths++; pbt::label("process ids reused by users of the ring"); return; }
    }
    if (how >= 3) {
      if (pend.w == w) how = 1;
      else { w->sh->wait = how == 3 ? 0 : how == 5 ? 3 : 1 + pbt::draw(2); call(w, DETACH, -1); zombies.push_back(w->pid);
        if (how == 4 && !others && pbt::chance(1, 2)) {   // and its sockets' names are now ours
          same_user = true;
          for (size_t i = 0; i < w->sh->got; i++) { int f = socket(AF_UNIX, SOCK_DGRAM, 0); struct sockaddr_un a; memset(&a, 0, sizeof a); a.sun_family = AF_UNIX; memcpy(a.sun_path, w->sh->data + 6 * i, 6); if (bind(f, (struct sockaddr *)&a, sizeof(sa_family_t) + 6) == 0) namesakes++; named.push_back(f); }
          pbt::log("  other sockets get the names of %zu of its", w->sh->got); pbt::label("socket names reused", w->sh->got);
        }
        gone(w); drop(w); pbt::label("process ids reused"); return; }
    }
    if (open && pend.w != w && !(how == 2 && others) && pbt::chance(1, 6)) {
      if (how == 2) same_user = true;
      ssize_t k = call(w, FORK, -1); if (k > 0) { zombies.push_back(k); pbt::log("  a child with its descriptors lives on"); pbt::label("dead processes whose descriptors live on"); } }
    if (how == 0 && pend.w != w) send(w, EXIT, -1); else kill(w->pid, SIGKILL);
    if (how == 2) { siginfo_t si; waitid(P_PID, w->pid, &si, WEXITED | WNOWAIT); zombies.push_back(w->pid); pbt::label("zombies"); }
    else { int st; waitpid(w->pid, &st, 0); if (how == 0 && WIFEXITED(st) && WEXITSTATUS(st)) _exit(77); }
    gone(w); drop(w); pbt::label("processes ended without closing");
  }
  PH *open(Worker *w, bool rd, bool nb, bool bf) {
    int slot = -1; std::vector<bool> used(MAXH, false); for (auto &h : w->hs) if (h->live) used[h->slot] = true;
    for (int i = 0; i < MAXH; i++) if (!used[i]) { slot = i; break; }
    if (slot < 0) return nullptr;
    w->sh->flags = (rd ? SHR_RDONLY : SHR_WRONLY) | (nb ? SHR_NONBLOCK : 0) | (bf && !rd ? SHR_BUFFERED : 0);
    bool waits = rd || (!nb && R.mode == model::PLAIN), ok = !waits || waiting(rd) < 64;
    ssize_t r = call(w, OPEN, slot);
    if (P.many && pbt::replaying()) {}
    pbt::log("p%d: open %s%s%s -> %zd%s", w->no, rd ? "reader" : "writer", nb ? " nonblock" : "", bf && !rd ? " buffered" : "", r, ok ? "" : " (64 are open)");
    if (!ok) { REQUIRE(r == -1, "C16 a 65th %s could be opened", rd ? "reader" : "blocking writer"); refused64++; pbt::label("refused 65th"); return nullptr; }
    REQUIRE(r == 0, "C16 p%d: open of a valid ring failed with %zu of 64 %s open", w->no, waiting(rd), rd ? "readers" : "blocking writers");
    std::unique_ptr<PH> h(new PH); h->live = true; h->slot = slot; h->m.rd = rd; h->m.nonblock = nb; h->m.buffered = bf && !rd; h->waits = waits; h->fd = w->sh->fd;
    REQUIRE((h->fd >= 0) == (rd && nb), "C09 descriptor %d", h->fd);
    if (h->m.buffered) { h->m.cn = w->sh->st.cn; h->m.cmax = std::min<size_t>(10000, R.mm); }
    model::opened(R, h->m);
    w->hs.push_back(std::move(h)); return w->hs.back().get();
  }
  void check_read(Worker *w, model::Read &op) {
    Obs o; o.ret = w->sh->ret; if (o.ret > 0) { o.data.assign(w->sh->data, o.ret); o.lens.assign(w->sh->olens, w->sh->olens + w->sh->got); }
    REQUIRE(o.ret == op.ret && lib::matches(o, op.got), "C06 p%d: read returned %s, expected %zd %s", w->no, lib::show(o).c_str(), op.ret, lib::show(op.got).c_str());
    pbt::log("p%d:   -> %zd %s", w->no, op.ret, lib::show(op.got).c_str()); if (op.ret > 0) reads++;
  }
  void settle() {   // the outstanding call, if it can go on now
    if (!pend.w) return;
    Pending &p = pend; model::Ring r2 = R; model::Handle h2 = p.h->m; model::Step s; model::Read rd = p.r; ssize_t want = 0;
    if (p.rd) s = model::step(r2, h2, rd); else if (p.flush) { model::Flush o = p.fl; s = model::step(r2, h2, o); want = o.ret; } else { model::Write o = p.wr; s = model::step(r2, h2, o); want = o.ret; }
    if (s == model::BLOCKED) {
      if (!p.rd && r2.writes != R.writes) { R = r2; p.h->m = h2; }
      struct pollfd pf = {p.w->sock, POLLIN, 0};
      if (poll(&pf, 1, 0) == 1) { if (!reply(p.w, 0)) {} pbt::fail("C08 p%d: a call that has to wait returned %zd", p.w->no, p.w->sh->ret); }
      return;
    }
    if (!reply(p.w, 25)) pbt::fail("C08 p%d: the waiting call can proceed but stays blocked", p.w->no);
    Pending q = p; pend = Pending(); R = r2; q.h->m = h2;
    pbt::log("p%d: the waiting call returns %zd", q.w->no, q.w->sh->ret); pbt::label("waits resolved by another process");
    if (q.rd) check_read(q.w, rd);
    else REQUIRE(q.w->sh->ret == want, "C02 p%d: the waiting call returned %zd, expected %zd", q.w->no, q.w->sh->ret, want);
  }
  template <class Op> bool would_block(PH *h, Op op) { model::Ring r2 = R; model::Handle h2 = h->m; return model::step(r2, h2, op) == model::BLOCKED; }
  void interrupt() {
    Pending q = pend; pbt::log("p%d: its waiting call is interrupted by a signal", q.w->no);
    double t0 = now(); do { kill(q.w->pid, SIGUSR1); REQUIRE(now() - t0 < 25, "C10 p%d cannot be interrupted", q.w->no); } while (!reply(q.w, 0.004));
    pend = Pending();
    REQUIRE(q.w->sh->ret == -1, "C10 p%d: the interrupted call returned %zd", q.w->no, q.w->sh->ret);
  }
  void do_read(Worker *w, PH *h) {
    bool bulk = pbt::chance(1, 2); size_t len = pbt::chance(1, 4) ? 1 + pbt::draw(R.n) : R.n, niov = bulk ? 1 + pbt::draw(std::min<size_t>(R.mm + 1, MAXM - 1)) : 1;
    model::Read op{len, niov}; w->sh->len = len; w->sh->niov = niov; w->sh->bulk = bulk;
    pbt::log("p%d: read%s len=%zu", w->no, bulk ? "v" : "", len);
    if (would_block(h, op)) {
      if (pend.w) { pbt::log("p%d:   (not issued)", w->no); return; }
      send(w, READ, h->slot); pend = Pending(); pend.w = w; pend.h = h; pend.rd = true; pend.r = op; pbt::log("p%d:   waits", w->no); return;
    }
    model::step(R, h->m, op); call(w, READ, h->slot, "C08"); check_read(w, op);
  }
  void do_write(Worker *w, PH *h) {
    bool bulk = pbt::chance(1, 2); Batch b; size_t k = bulk ? 1 + pbt::draw(std::min<size_t>(4, R.mm + 1)) : 1, t = pbt::chance(1, 3) ? R.n - R.bytes : pbt::chance(1, 12) ? R.n + 1 : 1 + pbt::draw(R.n);
    for (size_t i = 0; i < k; i++) { size_t l = i + 1 == k ? t : t > k ? 1 + pbt::draw(t / k) : 1; if (l > t) l = t; t -= l; b.push_back({next_id++, l ? l : 1}); }
    model::Write op{b}; w->sh->nb = b.size(); w->sh->bulk = bulk; for (size_t i = 0; i < b.size(); i++) { w->sh->ids[i] = b[i].id; w->sh->lens[i] = b[i].len; }
    pbt::log("p%d: write %s", w->no, lib::show(b).c_str());
    if (would_block(h, op)) {
      if (pend.w) { pbt::log("p%d:   (not issued)", w->no); return; }
      send(w, WRITE, h->slot); model::step(R, h->m, op); pend = Pending(); pend.w = w; pend.h = h; pend.wr = op; pbt::log("p%d:   waits", w->no); return;
    }
    model::step(R, h->m, op); ssize_t r = call(w, WRITE, h->slot, "C08");
    REQUIRE(r == op.ret, "C02 p%d: write returned %zd, expected %zd", w->no, r, op.ret);
    pbt::log("p%d:   -> %zd", w->no, r); if (r > 0) writes++;
  }
  void check_stat(Worker *w, PH *h, bool reset) {
    if (reset) { w->sh->tv.tv_sec = pbt::draw(100000); w->sh->tv.tv_usec = pbt::draw(1000000); }
    REQUIRE(call(w, reset ? RESET : STAT, h->slot) == 0, "C12 stat failed");
    struct shr_stat &st = w->sh->st; const model::Counters &c = R.st;
    REQUIRE(st.bw == c.bw && st.mw == c.mw && st.br == c.br && st.mr == c.mr && st.bd == c.bd && st.md == c.md && st.bn == R.n && st.mm == R.mm && st.bu == R.bytes && st.mu == R.q.size() && st.flags == R.flags && st.start.tv_sec == c.sec && st.start.tv_usec == c.usec,
            "C06 p%d sees counters w %zu/%zu r %zu/%zu d %zu/%zu u %zu/%zu n %zu mm %zu flags %x; expected w %zu/%zu r %zu/%zu d %zu/%zu u %zu/%zu n %zu mm %zu flags %x", w->no, st.bw, st.mw, st.br, st.mr, st.bd, st.md, st.bu, st.mu, st.bn, st.mm, st.flags, c.bw, c.mw, c.br, c.mr, c.bd, c.md, R.bytes, R.q.size(), R.n, R.mm, R.flags);
    if (reset) { R.st = model::Counters(); R.st.sec = w->sh->tv.tv_sec; R.st.usec = w->sh->tv.tv_usec; pbt::log("p%d: stat reset", w->no); }
  }
  void check_app(Worker *w, PH *h) {
    ssize_t r = call(w, APPGET, h->slot);
    REQUIRE(r == (R.app.empty() ? -1 : 0), "C06 p%d: application data: %zd", w->no, r);
    if (r == 0) REQUIRE(w->sh->got == R.app.size() && !memcmp(w->sh->data, R.app.data(), R.app.size()), "C06 p%d: application data differ", w->no);
  }
  void check_fds() {
    for (auto &w : ws) for (auto &h : w->hs) if (h->live && h->fd >= 0 && pend.w != w.get() && model::avail(R, h->m)) {
      ssize_t r = call(w.get(), POLL, h->slot); REQUIRE(r == 1, "C09 p%d: messages can be read but the descriptor of its handle is not readable", w->no);
    }
  }
  PH *pick(Worker *w, int rd) { std::vector<PH *> c; for (auto &h : w->hs) if (h->live && (rd < 0 || h->m.rd == (rd == 1))) c.push_back(h.get()); return c.empty() ? nullptr : c[pbt::draw(c.size())]; }
  void close(Worker *w, PH *h) {
    model::Flush op{false}; op.close = true;
    if (would_block(h, op)) return;     // would wait
    pbt::log("p%d: close", w->no);
    model::step(R, h->m, op); call(w, CLOSE, h->slot); h->live = false;
  }
  void step() {
    Worker *w = nullptr; std::vector<Worker *> idle; for (auto &x : ws) if (pend.w != x.get()) idle.push_back(x.get());
    unsigned live = ws.size();
    unsigned k = pbt::weighted({P.w_rd, P.w_wr, 6, 3, 2, 1, 2, 2, P.kill, live < P.workers ? 4u : 0u, pend.w ? 2u : 0u, P.many ? 4u : 0u});
    if (k == 9 || idle.empty()) {
      if (idle.empty() || live < P.workers) { w = spawn(geteuid() == 0 && pbt::chance(P.other_user, 100)); open(w, pbt::chance(1, 2), pbt::chance(P.nonblock, 100), pbt::chance(P.buffered, 100)); return; }
    }
    if (k == 10) { unsigned how = pbt::draw(3); if (how == 0) interrupt(); else end_worker(pend.w, how); return; }
    w = idle[pbt::draw(idle.size())]; PH *h;
    switch (k) {
      case 0: if ((h = pick(w, 1))) do_read(w, h); else open(w, true, pbt::chance(P.nonblock, 100), false); break;
      case 1: if ((h = pick(w, 0))) do_write(w, h); else open(w, false, pbt::chance(P.nonblock, 100), pbt::chance(P.buffered, 100)); break;
      case 2: open(w, pbt::chance(1, 2), pbt::chance(P.nonblock, 100), pbt::chance(P.buffered, 100)); break;
      case 3: if ((h = pick(w, -1))) close(w, h); break;
      case 4: if ((h = pick(w, -1))) check_stat(w, h, false); break;
      case 5: if ((h = pick(w, -1))) check_stat(w, h, true); break;
      case 6: if ((h = pick(w, -1))) { check_app(w, h);
        if (pbt::chance(1, 2)) { std::string v(R.app.size(), 0); model::fill(0x60000000u + next_id++, &v[0], v.size()); memcpy(w->sh->data, v.data(), v.size()); w->sh->len = v.size(); ssize_t r = call(w, APPSET, h->slot); REQUIRE(r == (v.empty() ? -1 : 0), "C13 app set %zd", r); if (!v.empty()) R.app = v; pbt::log("p%d: app data set", w->no); } } break;
      case 7: if ((h = pick(w, 0)) && h->m.buffered) {
        bool wt = pbt::chance(1, 2); model::Flush op{wt}; w->sh->wait = wt; if (wt && h->m.nonblock && !h->waits && !h->m.cache.empty()) { if (waiting(false) >= 64) break; h->waits = true; }
        pbt::log("p%d: flush%s", w->no, wt ? " wait" : "");
        if (would_block(h, op)) { if (pend.w) break; send(w, FLUSH, h->slot); pend = Pending(); pend.w = w; pend.h = h; pend.flush = true; pend.fl = op; pbt::log("p%d:   waits", w->no); break; }
        model::step(R, h->m, op); ssize_t r = call(w, FLUSH, h->slot); REQUIRE(r == op.ret, "C11 p%d: flush returned %zd, expected %zd", w->no, r, op.ret); break; }
        if ((h = pick(w, 1)) && R.mode == model::FARM) { w->sh->wait = pbt::draw(2); ssize_t r = call(w, FARMSTAT, h->slot); REQUIRE((size_t)r == h->m.missed, "C04 loss count %zd, expected %zu", r, h->m.missed); if (w->sh->wait) h->m.missed = 0; }
        else { ssize_t r = call(w, INIT, -1); REQUIRE(r == 0, "C14 keep-existing creation failed"); pbt::log("p%d: create, keeping the existing", w->no); } break;
      case 8: { unsigned how = pbt::weighted({P.exit, P.kill, P.kill, P.detach, P.detach, 0, P.detach}); end_worker(w, how); break; }
      case 11: { unsigned n = 1 + pbt::draw(20); bool rd = pbt::chance(1, 2), nb = pbt::chance(1, 2); for (unsigned i = 0; i < n; i++) if (!open(w, rd, rd && nb, false)) break; break; }
    }
  }
  void create() {
    static int n; char b[32]; snprintf(b, sizeof b, "/p%d", n++ & 3); path = std::string(pbt::scratch()) + b; unlink(path.c_str());
    R.n = 1 + (pbt::chance(1, 3) ? pbt::draw(800) : pbt::draw(30)); R.mm = pbt::chance(1, 3) ? 1 + pbt::draw(R.n) : 1 + pbt::draw(6);
    R.mode = (model::Mode)pbt::weighted({P.plain, P.drop, P.farm}); unsigned fl = SHR_MAXMSGS_2;
    if (R.mode == model::DROP) fl |= SHR_DROP, R.flags |= SHR_DROP;
    if (R.mode == model::FARM) fl |= SHR_FARM, R.flags |= SHR_FARM | SHR_DROP;
    if (pbt::chance(1, 6)) fl |= SHR_SYNC, R.flags |= SHR_SYNC;
    int rc; if (pbt::chance(P.app, 100)) { R.app.assign(1 + pbt::draw(300), 0); model::fill(0x5ffffff0, &R.app[0], R.app.size()); std::string a = R.app; rc = shr_init(&path[0], R.n, fl | SHR_APPDATA, &a[0], a.size(), R.mm); }
    else rc = shr_init(&path[0], R.n, fl, R.mm);
    REQUIRE(rc == 0, "C14 creation failed");
    chmod(path.c_str(), 0666); chmod(pbt::scratch(), 0755);
    pbt::log("create n=%zu mm=%zu mode=%s app=%zu", R.n, R.mm, R.mode == 0 ? "plain" : R.mode == 1 ? "drop" : "farm", R.app.size());
  }
  void run(const Prof &p) {
    P = p; vsys::sys = nullptr; create();
    for (unsigned i = 0; i < P.ops * 2; i++) { pbt::span(); if (!pbt::chance(P.ops, P.ops + 1)) break; step(); settle(); if (pbt::chance(1, 4)) check_fds(); }
    pbt::span();
    if (pend.w) end_worker(pend.w, 1);
    check_fds();
    if (P.many) slots_left();
    while (!ws.empty()) { Worker *w = ws.back().get(); if (pbt::chance(1, 2)) end_worker(w, pbt::draw(2)); else { while (PH *h = pick(w, -1)) { close(w, h); if (h->live) { h->live = false; } } end_worker(w, 0); } settle(); }
    // the next process finds everything
    Worker *w = spawn(false); PH *h = open(w, true, true, false); REQUIRE(h, "C16 the last process cannot open the ring");
    check_stat(w, h, false); check_app(w, h);
    while (R.q.size()) { size_t before = model::avail(R, h->m); if (!before) break; w->sh->len = R.n; w->sh->niov = 1; w->sh->bulk = 0; model::Read op{R.n, 1}; model::step(R, h->m, op); call(w, READ, h->slot); check_read(w, op); crossed++; }
    w->sh->len = R.n; w->sh->niov = 1; w->sh->bulk = 0; REQUIRE(call(w, READ, h->slot) == 0, "C06 more messages than expected");
    end_worker(w, 1);
    for (pid_t z : zombies) { kill(z, SIGKILL); waitpid(z, NULL, 0); }
    unlink(path.c_str());
  }
  // whoever died: exactly as many slots as not used by the living are free
  void slots_left() {
    bool rd = R.mode != model::PLAIN || pbt::chance(1, 2); size_t live = waiting(rd); Worker *w = spawn(geteuid() == 0 && pbt::chance(1, 4));
    for (size_t i = live; i < 64; i++) open(w, rd, rd, false);
    REQUIRE(open(w, rd, rd, false) == nullptr, "C16 a 65th could be opened");
    if (rd) { if (R.room(1, 1) || R.mode != model::PLAIN) { PH *x = open(w, false, true, false); if (x) { Batch b(1, Msg{next_id++, 1}); model::Write op{b}; model::step(R, x->m, op); w->sh->nb = 1; w->sh->ids[0] = b[0].id; w->sh->lens[0] = 1; w->sh->bulk = 0; ssize_t r = call(w, WRITE, x->slot); REQUIRE(r == op.ret, "C02 write returned %zd", r); settle(); check_fds(); } } }
    pbt::label("all slots taken");
  }
};
static void c06() { PW w; Prof p; w.run(p); if (w.deaths >= 2 && w.reads >= 1 && w.writes >= 2) pbt::nontrivial(); }
static void c16_die() { PW w; Prof p; p.kill = 8; p.detach = 4; p.nonblock = 40; p.workers = 5; p.other_user = 35; p.ops = 50; w.run(p); if (w.deaths >= 3 && w.reads >= 1 && w.writes >= 1) pbt::nontrivial(); }
static void c16_many() { PW w; Prof p; p.many = 1; p.kill = 5; p.detach = 3; p.nonblock = 60; p.workers = 5; p.other_user = 30; p.ops = 25; p.buffered = 0; w.run(p); if (w.deaths >= 2 && w.refused64) pbt::nontrivial(); }

// all 64 are taken by several processes; as some of them end, exactly theirs become free
// at once, whether or not anything was written or read in between
static void c16_fill() {
  PW w; Prof p; p.app = 0; w.P = p; vsys::sys = nullptr; w.create();
  bool rd = w.R.mode != model::PLAIN || pbt::chance(1, 2); unsigned rounds = 0, crossed = 0; std::map<Worker *, bool> stopped;
  auto fill = [&]() {
    for (int g = 0; w.waiting(rd) < 64; g++) {
      Worker *x = nullptr; for (auto &y : w.ws) { bool idle = true; for (auto &h : y->hs) idle = idle && !h->live; if (idle && !stopped[y.get()]) x = y.get(); }
      if (!x || pbt::chance(1, 4)) x = w.spawn(geteuid() == 0 && pbt::chance(1, 3));
      size_t n = 64 - w.waiting(rd); if (pbt::chance(2, 3)) n = 1 + pbt::draw(n);
      for (size_t i = 0; i < n; i++) w.open(x, rd, rd && pbt::chance(3, 4), false);
      if (w.waiting(rd) == 64) { REQUIRE(!w.open(x, rd, rd, false), "C16 a 65th could be opened"); }
      if (w.ws.size() >= 8) break;
    }
  };
  fill();
  for (unsigned i = 0, n = 1 + pbt::draw(3); i < n; i++) {
    pbt::span();
    unsigned deaths = 1 + pbt::draw(w.ws.size());
    for (unsigned k = 0; k < deaths && !w.ws.empty(); k++) {
      Worker *x = w.ws[pbt::draw(w.ws.size())].get();
      if (stopped[x]) { kill(x->pid, SIGCONT); stopped[x] = false; }
      w.end_worker(x, pbt::weighted({2, 2, 4, 3, 3, w.zombies.size() < 2 ? 1u : 0u, 3})); stopped.erase(x);
    }
    if (pbt::chance(1, 4)) {   // the other side wakes them
      Worker *x = w.spawn(false); PH *h = w.open(x, !rd, true, false); if (h) { if (rd) w.do_write(x, h); else w.do_read(x, h); crossed++; }
      w.close(x, h); w.end_worker(x, 1);
    }
    for (auto &x : w.ws) if (pbt::chance(1, 4)) { kill(x->pid, SIGSTOP); stopped[x.get()] = true; pbt::log("p%d is stopped", x->no); }
    fill(); rounds++;
    for (auto &x : stopped) if (x.second) { kill(x.first->pid, SIGCONT); x.second = false; }
    if (w.ws.size() >= 8) break;
  }
  // those alive are still reached
  if (rd) { Worker *x = w.spawn(false); PH *h = w.open(x, false, true, false); w.do_write(x, h); w.check_fds(); w.end_worker(x, 1); }
  while (!w.ws.empty()) w.end_worker(w.ws.back().get(), 1);
  for (pid_t z : w.zombies) { kill(z, SIGKILL); waitpid(z, NULL, 0); }
  unlink(w.path.c_str()); if (rounds && w.deaths) pbt::nontrivial();
}

// sockets come and go in other processes all the time: nobody's slot is lost
static void c16_churn() {
  PW w; Prof p; p.kill = p.exit = p.detach = 0; p.plain = 1; p.drop = p.farm = 1; p.workers = 3; p.other_user = 0; w.P = p; vsys::sys = nullptr; w.create();
  pid_t c[2];
  for (int i = 0; i < 2; i++) { c[i] = fork(); if (c[i] == 0) { prctl(PR_SET_PDEATHSIG, SIGKILL); std::vector<int> f(30, -1); for (unsigned k = i;; k = k * 1103515245u + 12345u) { int &x = f[(k >> 16) % f.size()]; if (x >= 0) { close(x); x = -1; } else { x = socket(AF_UNIX, SOCK_DGRAM, 0); struct sockaddr_un a; memset(&a, 0, sizeof a); a.sun_family = AF_UNIX; if (bind(x, (struct sockaddr *)&a, sizeof(sa_family_t))) {} } } } }
  Worker *a = w.spawn(false), *b = w.spawn(false); PH *r = w.open(a, true, true, false);
  for (unsigned i = 0, n = 40 + pbt::draw(60); i < n; i++) {
    PH *x = w.open(b, false, true, false); REQUIRE(x, "C16 open failed");
    Batch m(1, Msg{w.next_id++, 1 + pbt::draw(w.R.n)}); model::Write op{m}; model::step(w.R, x->m, op); b->sh->nb = 1; b->sh->bulk = 0; b->sh->ids[0] = m[0].id; b->sh->lens[0] = m[0].len;
    ssize_t k = w.call(b, WRITE, x->slot); REQUIRE(k == op.ret, "C02 write returned %zd, expected %zd", k, op.ret);
    w.check_fds();
    model::Read ro{w.R.n, 1}; a->sh->len = w.R.n; a->sh->niov = 1; a->sh->bulk = 0; model::step(w.R, r->m, ro); w.call(a, READ, r->slot); w.check_read(a, ro);
    w.close(b, x);
  }
  for (int i = 0; i < 2; i++) { kill(c[i], SIGKILL); waitpid(c[i], NULL, 0); }
  w.end_worker(a, 1); w.end_worker(b, 1); unlink(w.path.c_str()); pbt::nontrivial();
}

#define R "1..5 real processes (some of another user) use one ring through their own handles; calls that must wait stay outstanding; processes exit without closing, are killed idle or waiting, stay unreaped, or leave their process id to another; every result is compared with the reference model and a last process takes stock; non-trivial: "
static std::vector<pbt::Property> props = {
  {"C06", "c06-proc", c06, 3000, 100000, R "2 processes ended without closing, a message read and 2 written", 90, 0},
  {"C16", "c16-die", c16_die, 2500, 80000, R "3 processes ended without closing, a message read and one written", 90, 0},
  {"C16", "c16-many", c16_many, 24, 1200, R "2 processes ended without closing and all 64 slots were taken", 120, 0},
  {"C16", "c16-fill", c16_fill, 60, 2400, "several processes take all 64 slots; some end in every way, some are stopped; exactly the slots of the dead can be taken again, at once; every completed round is non-trivial", 120, 0},
  {"C16", "c16-churn", c16_churn, 120, 4000, "40..100 opens and writes while other processes create and remove sockets; every case is non-trivial", 120, 2},
};
int main(int c, char **v) { return pbt::main(c, v, props); }
