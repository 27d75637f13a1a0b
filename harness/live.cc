// Real processes, all running at once, on one ring: real locks, real waits,
// real signals. The schedule is the kernel's; what is checked holds for every
// schedule: each message once, in an order some queue allows, batches whole,
// counters consistent in every snapshot, application data exchanged in a
// chain, nothing done while another process holds the ring's lock, and nobody
// asleep when its call could proceed.
#include "lib.h"
#include <errno.h>
#include <fcntl.h>
#include <poll.h>
#include <sched.h>
#include <signal.h>
#include <stdio.h>
#include <string.h>
#include <sys/mman.h>
#include <sys/prctl.h>
#include <sys/stat.h>
#include <sys/wait.h>
#include <time.h>
#include <unistd.h>
#include <map>
#include <memory>
#include <set>
using model::Batch; using model::Msg; using lib::Obs;

enum { MAXC = 12, MAXE = 3000, MAXI = 6000 };
enum Role { READER, WRITER, OPENER, STATER, SWAPPER, HOLDER };
static const char *rname[] = {"reader", "writer", "opener", "statistics", "application data", "lock holder"};
struct Ent { uint64_t t0, t1; int64_t ret; uint32_t at, n; };
struct Child {      // shared with the parent
  volatile uint64_t progress; volatile int finished; uint32_t ne, ni; Ent e[MAXE]; uint32_t id[MAXI]; size_t missed; uint64_t intr;
};
struct Spec { Role role; uint64_t seed; bool nonblock, bulk, buffered, reopen; unsigned ops, jitter, kmax; size_t lmax; };
struct LProf { bool lng = false; unsigned plain = 4, drop = 1, farm = 1, holder = 0, signals = 0, opener = 30, stater = 40, swapper = 30, one = 25; };

static uint64_t clk() { struct timespec t; clock_gettime(CLOCK_MONOTONIC, &t); return t.tv_sec * 1000000000ull + t.tv_nsec; }
struct Rng { uint64_t s; uint64_t operator()(uint64_t b) { s += 0x9E3779B97F4A7C15ull; uint64_t z = s; z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9ull; z = (z ^ (z >> 27)) * 0x94d049bb133111ebull; z ^= z >> 31; return b ? z % b : 0; } };

static const uint32_t POISON = 0x7f000000;
struct Live {
  LProf P; std::string path; size_t n, mm, A; model::Mode mode; Child *sh[MAXC]; std::vector<Spec> sp; std::vector<pid_t> pid; volatile uint32_t *go_flag; int rounds_run = 0;
  // message ids: writer << 16 | number; the length and the batch are functions of the writer's seed
  struct Plan { std::vector<Batch> b; };
  std::vector<Plan> plan; std::map<uint32_t, size_t> len_of; std::map<uint32_t, uint32_t> batch_of;

  static void jitter(Rng &r, unsigned j) {
    switch (j) {
      case 0: break;
      case 1: if (!r(4)) sched_yield(); break;
      case 2: { volatile int x = 0; for (int i = r(400); i--;) x++; break; }
      case 3: if (!r(3)) usleep(r(120)); break;
      case 4: if (!r(10)) usleep(r(900)); break;
    }
  }
  static bool again(Child *c, ssize_t r) { if (r == -1 && errno == EINTR) { c->intr++; return true; } return false; }
  // --- the child
  void child(int k) {
    prctl(PR_SET_PDEATHSIG, SIGKILL);
    struct sigaction sa; memset(&sa, 0, sizeof sa); sa.sa_handler = [](int) {}; sigaction(SIGUSR1, &sa, NULL);
    Child *c = sh[k]; Spec &s = sp[k]; Rng r{s.seed};
    auto open_rd = [&](bool nb) { shr *h; while (!(h = shr_open(path.c_str(), SHR_RDONLY | (nb ? SHR_NONBLOCK : 0)))) if (errno != EINTR || !P.signals) pbt::fail("C07 a valid ring could not be opened by a reader"); return h; };
    auto open_wr = [&](bool nb, bool bf) { shr *h; while (!(h = shr_open(path.c_str(), SHR_WRONLY | (nb ? SHR_NONBLOCK : 0) | (bf ? SHR_BUFFERED : 0)))) if (errno != EINTR || !P.signals) pbt::fail("C07 a valid ring could not be opened by a writer"); return h; };
    shr *h = NULL;
    if (s.role == READER) h = open_rd(s.nonblock);
    if (s.role == WRITER) h = open_wr(s.nonblock, s.buffered);
    if (s.role == STATER || s.role == SWAPPER) h = open_wr(true, false);
    __atomic_add_fetch((uint32_t *)go_flag, 1, __ATOMIC_SEQ_CST);
    while (__atomic_load_n((uint32_t *)go_flag, __ATOMIC_SEQ_CST) < 1000) usleep(50);
    auto over = [&] { return __atomic_load_n((uint32_t *)go_flag, __ATOMIC_SEQ_CST) >= 2000; };   // the writers are done
    switch (s.role) {
      case READER: for (bool end = false; !end;) {
        Obs o; ssize_t ret; uint64_t t0 = clk();
        for (;;) {
          t0 = clk();
          errno = 0; lib::rd(h, n, s.bulk ? 1 + r(8) : 1, n, s.bulk, o); ret = o.ret;
          if (again(c, ret)) continue;
          if (ret == 0 && s.nonblock) {
            struct pollfd pf = {shr_get_selectable_fd(h), POLLIN, 0}; poll(&pf, 1, -1);
            continue;
          }
          break;
        }
        uint64_t t1 = clk();
        REQUIRE(ret > 0, "C08 a %s read returned %zd (errno %d)", s.nonblock ? "non-blocking" : "blocking", ret, errno);
        if (c->ne == MAXE || c->ni + o.lens.size() > MAXI) pbt::fail("C07 more messages read than were written");
        Ent &e = c->e[c->ne]; e.t0 = t0; e.t1 = t1; e.ret = ret; e.at = c->ni; e.n = 0;
        size_t off = 0;
        for (size_t l : o.lens) {
          // the first bytes name the message
          uint32_t id = 0;
          REQUIRE(l >= 4, "C07 a message of %zu bytes was read; none was written", l);
          memcpy(&id, &o.data[off], 4);
          if (id == POISON) { end = true; off += l; continue; }
          auto it = len_of.find(id);
          REQUIRE(it != len_of.end() && it->second == l && body_ok(id, &o.data[off], l), "C07 a torn message was read (%zu bytes, begins with %x)", l, id);
          c->id[c->ni++] = id; e.n++; off += l;
        }
        c->ne++; c->progress = c->progress + 1;
        if (s.reopen && !end && !r(12) && mode != model::FARM) { shr_close(h); h = open_rd(s.nonblock); }
        jitter(r, s.jitter);
      }
      if (mode == model::FARM) c->missed = shr_farm_stat(h, 0);
      break;
      case WRITER: for (size_t i = 0; i < plan[k].b.size(); i++) {
        Batch &b = plan[k].b[i]; size_t t = 0; uint64_t t0 = clk(); ssize_t ret;
        std::vector<std::string> mem; std::vector<struct iovec> iov;
        for (auto &m : b) { mem.push_back(body(m.id, m.len)); t += m.len; }
        for (auto &x : mem) iov.push_back({&x[0], x.size()});
        for (unsigned spins = 0;; spins++) {
          t0 = clk();
          errno = 0; ret = iov.size() == 1 && !s.bulk ? shr_write(h, &mem[0][0], mem[0].size()) : shr_writev(h, &iov[0], iov.size());
          if (again(c, ret)) continue;
          if (ret == 0 && s.nonblock) { usleep(20 + r(200)); if (spins < 200000) continue; pbt::fail("C08 a non-blocking writer found no room for seconds although readers wait"); }
          break;
        }
        REQUIRE(ret == (ssize_t)t, "C02 a %s write of %zu bytes returned %zd (errno %d)", s.nonblock ? "non-blocking" : "blocking", t, ret, errno);
        c->e[c->ne++] = {t0, clk(), ret, (uint32_t)i, (uint32_t)b.size()}; c->progress = c->progress + 1;
        if (s.buffered && !r(8)) { while ((ret = shr_flush(h, 1)) < 0 && again(c, ret)) {} REQUIRE(ret >= 0, "C11 a waiting flush returned %zd", ret); }
        if (s.reopen && !r(12) && !s.buffered) { shr_close(h); h = open_wr(s.nonblock, s.buffered); }
        jitter(r, s.jitter);
      }
      if (s.buffered) { ssize_t ret; while ((ret = shr_flush(h, 1)) < 0 && again(c, ret)) {} REQUIRE(ret >= 0, "C11 a waiting flush returned %zd", ret); }
      break;
      case OPENER: for (unsigned i = 0; i < s.ops && !over(); i++) {
        bool rd = r(2); uint64_t t0 = clk();
        shr *x = rd ? open_rd(r(2)) : open_wr(r(2), false);
        shr *y = r(3) ? NULL : open_rd(true);
        if (rd || y) jitter(r, s.jitter);
        shr_close(x); if (y) shr_close(y);
        if (c->ne < MAXE) c->e[c->ne++] = {t0, clk(), 0, 0, 0};
        c->progress = c->progress + 1;
      } break;
      case STATER: { struct shr_stat a, last; memset(&last, 0, sizeof last); for (unsigned i = 0; i < s.ops && !over(); i++) {
        uint64_t t0 = clk(); int ret; while ((ret = shr_stat(h, &a, NULL)) < 0 && again(c, ret)) {}
        REQUIRE(ret == 0, "C12 stat returned %d", ret);
        REQUIRE(a.mw >= last.mw && a.bw >= last.bw && a.mr >= last.mr && a.br >= last.br && a.md >= last.md && a.bd >= last.bd, "C12 counters went back");
        if (mode != model::FARM) REQUIRE(a.mw == a.mr + a.md + a.mu && a.bw == a.br + a.bd + a.bu, "C12 a snapshot of the counters is inconsistent: messages %zu written, %zu read, %zu dropped, %zu unread; bytes %zu, %zu, %zu, %zu", a.mw, a.mr, a.md, a.mu, a.bw, a.br, a.bd, a.bu);
        else REQUIRE(a.mw == a.md + a.mu && a.bw == a.bd + a.bu, "C12 a snapshot of the counters is inconsistent: messages %zu written, %zu dropped, %zu present", a.mw, a.md, a.mu);
        REQUIRE(a.bu <= n && a.mu <= mm && a.bn == n && a.mm == mm, "C12 the ring holds more than it can");
        last = a; if (c->ne < MAXE) c->e[c->ne++] = {t0, clk(), 0, 0, 0};
        c->progress = c->progress + 1; jitter(r, s.jitter);
      } break; }
      case SWAPPER: for (unsigned i = 0; i < s.ops && !over() && c->ni + 2 < MAXI; i++) {
        uint32_t id = (k + 1) << 16 | (i + 1); std::string in = appval(id), out(A, 0); void *g = &out[0]; size_t z = A; uint64_t t0 = clk();
        int ret; while ((ret = shr_appdata(h, &g, &in[0], &z)) < 0 && again(c, ret)) {}
        REQUIRE(ret == 0 && z == A, "C13 get-and-set returned %d", ret);
        uint32_t old; memcpy(&old, out.data(), 4);
        REQUIRE(out == appval(old), "C13 torn application data");
        if (c->ne < MAXE) c->e[c->ne++] = {t0, clk(), 0, 0, 0};
        c->id[c->ni++] = old; c->id[c->ni++] = id; c->progress = c->progress + 1; jitter(r, s.jitter);
      } break;
      case HOLDER: {
        int fd = ::open(path.c_str(), O_RDWR); struct stat st; fstat(fd, &st);
        char *m = (char *)mmap(0, st.st_size, PROT_READ, MAP_SHARED, fd, 0);
        std::string snap;
        for (unsigned i = 0; i < s.ops && !over() && c->ne < MAXE; i++) {
          struct flock fl; memset(&fl, 0, sizeof fl); fl.l_type = F_WRLCK; fl.l_whence = SEEK_SET;
          while (fcntl(fd, F_SETLKW, &fl) < 0) if (errno != EINTR) pbt::fail("the lock cannot be taken: %s", strerror(errno));
          uint64_t t0 = clk(); snap.assign(m, st.st_size);
          usleep(100 + r(1500));
          if (memcmp(m, snap.data(), st.st_size)) pbt::fail("C17 the ring file changed while another process held its lock");
          uint64_t t1 = clk();
          fl.l_type = F_UNLCK; fcntl(fd, F_SETLK, &fl);
          c->e[c->ne++] = {t0, t1, 0, 0, 0}; c->progress = c->progress + 1;
          usleep(r(1500));
        }
        break; }
    }
    if (h) shr_close(h);
    c->finished = 1;
    _exit(0);
  }
  // --- contents
  static std::string body(uint32_t id, size_t l) { std::string s(l, 0); model::fill(id, &s[0], l); memcpy(&s[0], &id, 4); return s; }
  static bool body_ok(uint32_t id, const char *p, size_t l) { return body(id, l) == std::string(p, l); }
  std::string appval(uint32_t id) { std::string s(A, 0); model::fill(id, &s[0], A); memcpy(&s[0], &id, 4); return s; }

  [[noreturn]] void child_failed(size_t k, int st) {
    if (WIFEXITED(st) && WEXITSTATUS(st) == 77) _exit(77);   // its message is in shared memory
    pbt::fail("process %zu (%s) died: %s %d", k, rname[sp[k].role], WIFSIGNALED(st) ? "signal" : "exit", WIFSIGNALED(st) ? WTERMSIG(st) : WEXITSTATUS(st));
  }
  static char state(pid_t p, uint64_t &cpu) {
    char f[64], b[600]; snprintf(f, sizeof f, "/proc/%d/stat", p); int fd = ::open(f, O_RDONLY); if (fd < 0) return '?';
    ssize_t k = read(fd, b, sizeof b - 1); ::close(fd); if (k <= 0) return '?'; b[k] = 0;
    char *q = strrchr(b, ')'), s; unsigned long u, v; if (!q || sscanf(q + 2, "%c %*d %*d %*d %*d %*d %*u %*u %*u %*u %*u %lu %lu", &s, &u, &v) != 3) return '?';
    cpu = u + v; return s;
  }
  std::vector<char> reaped;
  void reap() {
    for (size_t k = 0; k < pid.size(); k++) if (!reaped[k]) { int st; if (waitpid(pid[k], &st, WNOHANG) == pid[k]) { reaped[k] = 1; if (!(WIFEXITED(st) && WEXITSTATUS(st) == 0)) child_failed(k, st); } }
  }
  uint64_t progress() { uint64_t s = 0; for (size_t k = 0; k < pid.size(); k++) s += sh[k]->progress + reaped[k]; return s; }
  // nobody does anything any more, though someone should
  uint64_t pr = 0, pr_at = 0, cpu_at = 0; int asleep = 0;
  void watch() {
    uint64_t p = progress(), c = 0, now = clk();
    if (p != pr || !pr_at) { pr = p; pr_at = now; asleep = 0; return; }
    if (now - pr_at < 1500000000ull + asleep * 500000000ull) return;
    bool all = true; uint64_t tot = 0; std::string who;
    for (size_t k = 0; k < pid.size(); k++) if (!reaped[k]) { all &= state(pid[k], c) == 'S'; tot += c; who += std::string(who.empty() ? "" : ", ") + (sp[k].nonblock ? "non-blocking " : "") + rname[sp[k].role]; }
    if (!all || tot != cpu_at) { cpu_at = tot; pr_at = now; asleep = 0; if (!all) asleep = 0; return; }
    if (++asleep < 4) return;
    std::string copy = path + ".left"; struct shr_stat st; memset(&st, 0, sizeof st);
    { std::string img; int f = ::open(path.c_str(), O_RDONLY); char b[65536]; ssize_t k; while ((k = read(f, b, sizeof b)) > 0) img.append(b, k); ::close(f); f = ::open(copy.c_str(), O_RDWR | O_CREAT | O_TRUNC, 0644); if (write(f, img.data(), img.size()) < 0) {} ::close(f); }
    shr *s = shr_open(copy.c_str(), SHR_RDONLY | SHR_NONBLOCK); if (s) { shr_stat(s, &st, NULL); shr_close(s); }
    pbt::fail("C08 all that are left (%s) sleep for good; the ring holds %zu messages, %zu of %zu bytes", who.c_str(), st.mu, st.bu, n);
  }
  void round() {
    struct Kill { Live &l; ~Kill() { for (size_t k = 0; k < l.pid.size(); k++) if (!l.reaped[k]) { kill(l.pid[k], SIGKILL); waitpid(l.pid[k], NULL, 0); } } };
    unlink(path.c_str());
    unsigned fl = SHR_MAXMSGS_2 | (mode == model::DROP ? SHR_DROP : mode == model::FARM ? SHR_FARM : 0);
    std::string a = appval(1);
    REQUIRE(shr_init(&path[0], n, fl | SHR_APPDATA, &a[0], A, mm) == 0, "C14 creation failed");
    pid.clear(); reaped.clear(); pr_at = 0; *go_flag = 0;
    for (size_t k = 0; k < sp.size(); k++) { sh[k]->progress = 0; sh[k]->finished = 0; sh[k]->ne = sh[k]->ni = 0; sh[k]->missed = 0; sh[k]->intr = 0; }
    for (size_t k = 0; k < sp.size(); k++) { pid_t p = fork(); if (p == 0) child(k); if (p < 0) pbt::discard(); pid.push_back(p); reaped.push_back(0); }
    Kill guard{*this};
    uint64_t t0 = clk();
    while (__atomic_load_n((uint32_t *)go_flag, __ATOMIC_SEQ_CST) < sp.size()) { usleep(100); reap(); if (clk() - t0 > 40000000000ull) pbt::fail("C07 an open does not return"); }
    __atomic_store_n((uint32_t *)go_flag, 1000, __ATOMIC_SEQ_CST);
    Rng r{sp[0].seed ^ 77};
    auto step = [&] {
      usleep(150); reap();
      if (P.signals && !r(4)) { size_t k = r(pid.size()); if (!reaped[k]) kill(pid[k], SIGUSR1); }
      watch();
    };
    for (;;) { bool all = true; for (size_t k = 0; k < sp.size(); k++) if (sp[k].role != READER && !reaped[k]) { all = false; if (sp[k].role != WRITER) {} } 
      bool wr = true; for (size_t k = 0; k < sp.size(); k++) if (sp[k].role == WRITER && !reaped[k]) wr = false;
      if (wr) __atomic_store_n((uint32_t *)go_flag, 2000, __ATOMIC_SEQ_CST);
      if (all) break; step(); }
    // the readers finish: each takes one last message
    shr *w = shr_open(path.c_str(), SHR_WRONLY | SHR_NONBLOCK); REQUIRE(w, "C07 the ring cannot be opened any more");
    size_t poisons = 0; auto nread = [&] { size_t c = 0; for (size_t k = 0; k < sp.size(); k++) c += sp[k].role == READER && !reaped[k]; return c; };
    for (;;) {
      size_t left = nread(); if (!left) break;
      bool sent = false; uint32_t p = POISON;
      while (nread() == left) {
        if (!sent) { ssize_t k = shr_write(w, (char *)&p, 4); REQUIRE(k == 4 || k == 0, "C02 a write returned %zd", k); if (k == 4) { sent = true; poisons++; } }
        step();
      }
      if (mode == model::FARM) while (nread()) step();
    }
    pid_t none = 0; (void)none;
    judge(w, poisons);
    shr_close(w);
    rounds_run++;
  }
  void judge(shr *w, size_t poisons) {
    struct shr_stat st; REQUIRE(shr_stat(w, &st, NULL) == 0, "C12 stat failed");
    size_t tm = poisons, tb = poisons * 4;
    std::map<uint32_t, std::pair<uint64_t, uint64_t>> put;      // when each message was written
    for (size_t k = 0; k < sp.size(); k++) if (sp[k].role == WRITER) {
      Child *c = sh[k]; uint64_t end = c->ne ? c->e[c->ne - 1].t1 : 0;
      for (uint32_t i = 0; i < c->ne; i++) for (auto &m : plan[k].b[c->e[i].at]) { put[m.id] = {c->e[i].t0, sp[k].buffered ? std::max(end, c->e[i].t1) + 1000000000ull : c->e[i].t1}; tm++; tb += m.len; }
    }
    REQUIRE(st.mw == tm && st.bw == tb, "C12 %zu messages, %zu bytes counted as written; it was %zu, %zu", st.mw, st.bw, tm, tb);
    std::map<uint32_t, int> seen; size_t got = 0, gotb = 0, readers = 0;
    struct Deq { uint64_t a, b, t0, t1; }; std::vector<Deq> dq;
    std::vector<std::vector<uint32_t>> seqs;
    for (size_t k = 0; k < sp.size(); k++) if (sp[k].role == READER) {
      Child *c = sh[k]; readers++; std::map<uint32_t, uint32_t> last;
      for (uint32_t i = 0; i < c->ne; i++) for (uint32_t j = 0; j < c->e[i].n; j++) {
        uint32_t id = c->id[c->e[i].at + j], wr = id >> 16;
        if (last.count(wr)) REQUIRE(id > last[wr], "C07 a reader got message %u of a writer after its message %u", id & 0xffff, last[wr] & 0xffff);
        last[wr] = id;
        auto &p = put[id]; REQUIRE(p.first && p.first <= c->e[i].t1, "C07 a message was read before it was written");
        dq.push_back({p.first, p.second, c->e[i].t0, c->e[i].t1});
        if (j + 1 < c->e[i].n) { uint32_t nx = c->id[c->e[i].at + j + 1]; auto b = batch_of.find(id + 1); if (b != batch_of.end() && b->second == batch_of[id]) REQUIRE(nx == id + 1, "C07 a batch was read with a foreign message inside"); else if (nx >> 16 == wr) REQUIRE(nx == id + 1, "C07 messages of one writer were skipped"); }
        if (mode != model::FARM) REQUIRE(++seen[id] == 1, "C07 message %x was read twice", id);
        got++; gotb += len_of[id];
      }
      seqs.emplace_back(c->id, c->id + c->ni);
      // one reader alone sees everything
      if (mode == model::FARM) REQUIRE(c->ni + c->missed + poisons == tm, "C04 a reader got %u messages and was told of %zu lost, of %zu", c->ni + 1, c->missed, tm);
    }
    if (mode == model::FARM) {      // all see one order
      for (size_t i = 0; i + 1 < seqs.size(); i++) {
        std::map<uint32_t, size_t> at; for (size_t j = 0; j < seqs[i].size(); j++) at[seqs[i][j]] = j + 1;
        size_t l = 0; for (uint32_t id : seqs[i + 1]) { auto f = at.find(id); if (f == at.end()) continue; REQUIRE(f->second > l, "C04 two readers saw the messages in different orders"); l = f->second; }
      }
    } else {
      if (mode == model::PLAIN) REQUIRE(got + poisons == tm && st.md == 0, "C07 %zu messages were read of %zu written", got, tm - poisons);
      REQUIRE(st.mr == got + poisons && st.br == gotb + 4 * poisons, "C12 %zu messages, %zu bytes counted as read; it was %zu, %zu", st.mr, st.br, got + poisons, gotb + 4 * poisons);
      REQUIRE(st.mr + st.md == tm && st.br + st.bd == tb && st.mu == 0 && st.bu == 0, "C07 %zu messages read and %zu dropped of %zu written, %zu left", st.mr, st.md, tm, st.mu);
      // real time: what was written completely before something else was written is not read completely after it
      // (a queue). sweep: for each message, no message whose write began after this one's ended was read before this one's read began
      std::vector<size_t> o(dq.size()), q(dq.size()); for (size_t i = 0; i < dq.size(); i++) o[i] = q[i] = i;
      std::sort(o.begin(), o.end(), [&](size_t x, size_t y) { return dq[x].b < dq[y].b; });     // by end of the write
      std::sort(q.begin(), q.end(), [&](size_t x, size_t y) { return dq[x].a < dq[y].a; });     // by start of the write
      // smallest end of the read among messages whose write began later
      std::vector<uint64_t> best(q.size() + 1, ~0ull); for (size_t i = q.size(); i--;) best[i] = std::min(best[i + 1], dq[q[i]].t1);
      size_t j = 0;
      for (size_t x : o) { while (j < q.size() && dq[q[j]].a <= dq[x].b) j++; REQUIRE(best[j] >= dq[x].t0, "C07 a message written after another was completely read before the other's read began"); }
    }
    // application data: every value is replaced once
    std::set<uint32_t> olds, news; for (size_t k = 0; k < sp.size(); k++) if (sp[k].role == SWAPPER) for (uint32_t i = 0; i + 1 < sh[k]->ni; i += 2) { REQUIRE(olds.insert(sh[k]->id[i]).second, "C13 two get-and-set calls got the same old value"); news.insert(sh[k]->id[i + 1]); }
    { std::string out(A, 0); void *g = &out[0]; size_t z = A; REQUIRE(shr_appdata(w, &g, NULL, &z) == 0, "C13 get failed"); uint32_t v; memcpy(&v, &out[0], 4); news.insert(1); REQUIRE(news.count(v) && !olds.count(v), "C13 the final value %x was %s", v, news.count(v) ? "already replaced" : "never stored"); olds.insert(v); REQUIRE(olds == news, "C13 a stored value vanished"); }
    // nothing happened while the lock was held
    size_t held = 0;
    for (size_t k = 0; k < sp.size(); k++) if (sp[k].role == HOLDER) for (uint32_t i = 0; i < sh[k]->ne; i++) {
      Ent &h = sh[k]->e[i]; held++;
      for (size_t x = 0; x < sp.size(); x++) if (sp[x].role != HOLDER && !(sp[x].role == WRITER && sp[x].buffered)) for (uint32_t y = 0; y < sh[x]->ne; y++) { Ent &e = sh[x]->e[y]; REQUIRE(!(e.t0 > h.t0 && e.t1 < h.t1), "C17 a %s call began and completed while another process held the ring's lock", rname[sp[x].role]); }
    }
    pbt::label("messages read", got); if (held) pbt::label("locks held by an outsider", held);
    uint64_t in = 0; for (size_t k = 0; k < sp.size(); k++) in += sh[k]->intr; if (in) pbt::label("calls interrupted", in);
  }
  void run(const LProf &p) {
    P = p; path = std::string(pbt::scratch()) + "/live"; static char *mem;
    if (!mem) mem = (char *)mmap(0, sizeof(Child) * MAXC + 4096, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
    for (int k = 0; k < MAXC; k++) sh[k] = (Child *)(mem + 4096 + sizeof(Child) * k);
    go_flag = (volatile uint32_t *)mem;
    mode = (model::Mode)pbt::weighted({P.plain, P.drop, P.farm});
    n = pbt::chance(1, 3) ? 8 + pbt::draw(60) : 60 + pbt::small(0, 4000); mm = pbt::chance(1, 3) ? 1 + pbt::draw(4) : 1 + pbt::small(0, 100); A = 4 + pbt::small(0, 200);
    if (!pbt::chance(1, 4)) { mm = std::max<size_t>(mm, 2); }
    if (P.lng) { n = 5000 + pbt::draw(pbt::chance(1, 2) ? 100000 : 1000000); mm = 1 + pbt::draw(12); A = 4 + pbt::draw(100000); }
    unsigned nr = 1 + (pbt::chance(P.one, 100) ? 0 : pbt::draw(3)), nw = 1 + (pbt::chance(P.one, 100) ? 0 : pbt::draw(3));
    auto add = [&](Role ro) { pbt::span(); Spec s; s.role = ro; s.seed = pbt::draw(~0ull); s.nonblock = pbt::chance(ro == WRITER ? 1 : 2, 4); s.bulk = pbt::chance(1, 2); s.buffered = ro == WRITER && pbt::chance(1, 6); s.reopen = pbt::chance(1, 4); s.jitter = pbt::draw(5); s.ops = 30 + pbt::draw(ro == WRITER ? 170 : 300); s.kmax = 1 + pbt::draw(4); s.lmax = 4 + pbt::small(0, n / 2); if (P.lng) { s.ops = 5 + s.ops / 6; s.lmax = n / (1 + pbt::draw(4)); } sp.push_back(s); };
    for (unsigned i = 0; i < nr; i++) add(READER);
    for (unsigned i = 0; i < nw; i++) add(WRITER);
    if (pbt::chance(P.opener, 100)) add(OPENER);
    if (pbt::chance(P.stater, 100)) add(STATER);
    if (pbt::chance(P.swapper, 100)) { add(SWAPPER); if (pbt::chance(1, 2)) add(SWAPPER); }
    if (pbt::chance(P.holder, 100)) add(HOLDER);
    plan.resize(sp.size());
    for (size_t k = 0; k < sp.size(); k++) {
      Spec &s = sp[k];
      if (s.buffered && n < 16) s.buffered = false;
      pbt::log("%s%s%s%s%s, %u operations, pace %u", s.nonblock ? "non-blocking " : "", s.buffered ? "buffered " : "", rname[s.role], s.bulk ? ", bulk" : "", s.reopen ? ", reopening" : "", s.ops, s.jitter);
      if (s.role != WRITER) continue;
      Rng r{s.seed ^ 5}; uint32_t id = (k + 1) << 16, bt = id;
      for (unsigned i = 0; i < s.ops; i++) {
        size_t cnt = 1 + r(std::min<size_t>(s.kmax, mm)), left = n; Batch b; bt++;
        for (size_t j = 0; j < cnt && left >= 4; j++) { size_t l = 4 + r(std::min(s.lmax, left) - 3); if (l > left) l = left; left -= l; ++id; b.push_back({id, l}); len_of[id] = l; batch_of[id] = bt; }
        plan[k].b.push_back(b);
      }
    }
    pbt::log("ring of %zu bytes, %zu messages, %s", n, mm, mode == 0 ? "plain" : mode == 1 ? "drop" : "farm");
    for (int i = pbt::replaying() ? 40 : 1; i--;) round();
    unlink(path.c_str()); unlink((path + ".left").c_str());
    bool nt = sp.size() >= 3; if (nt) pbt::nontrivial();
  }
};
static void go(const LProf &p) { std::unique_ptr<Live> l(new Live); l->run(p); }
static void c07() { LProf p; p.plain = 2; p.signals = 1; p.holder = 15; go(p); }
static void c07_long() { LProf p; p.lng = true; p.plain = 2; p.signals = 1; p.stater = p.swapper = 20; go(p); }
static void c08() { LProf p; p.stater = p.swapper = 15; p.one = 50; go(p); }
static void c17() { LProf p; p.plain = p.drop = p.farm = 1; p.holder = 100; p.stater = p.swapper = p.opener = 60; go(p); }
#define R "1..3 readers and 1..3 writers of drawn kinds, with processes that open and close, take statistics and exchange application data, run at once under the kernel's schedule until every message is read; "
static std::vector<pbt::Property> props = {
  {"C07", "c07-live", c07, 6000, 150000, R "the recorded calls must fit a queue; non-trivial: at least three processes", 60, 0},
  {"C07", "c07-live-long", c07_long, 1500, 40000, R "messages of up to 1 MB; the recorded calls must fit a queue; non-trivial: at least three processes", 60, 0},
  {"C08", "c08-live", c08, 8000, 200000, R "nobody may sleep for good; non-trivial: at least three processes", 60, 0},
  {"C17", "c17-live", c17, 3000, 80000, R "a process takes the ring's lock for 0.1 to 1.6 ms at a time; non-trivial: at least three processes", 60, 0},
};
int main(int c, char **v) { return pbt::main(c, v, props); }
