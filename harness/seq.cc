#include "world.h"
#include <limits.h>
#include <sys/socket.h>
#include <sys/un.h>
using pbt::Property;

static void go(const Prof &p, bool (*nt)(World &)) {
  World w; w.run(p);
  if (nt(w)) pbt::nontrivial();
}
#define NT [](World & w) -> bool

// ---- C01
static void c01_small() { Prof p; p.nonblock = 60; p.buffered = 15; p.flush = 2; p.stat_every = 0; p.reset = 0; p.stat = 0; p.app_set = p.app_swap = 0; go(p, NT { return w.ev.read >= 3 && w.ev.bytes > w.R.n; }); }
static void c01_long() { Prof p; p.lng = true; p.nonblock = 60; p.buffered = 15; p.flush = 2; p.stat_every = 0; p.reset = 0; p.stat = 0; p.app_set = p.app_swap = 0; p.ops = 30; p.nonblock = 60; go(p, NT { return w.ev.bytes >= 65536 && w.ev.read >= 1; }); }
static void c01_big() { Prof p; p.big = true; p.nonblock = 70; p.buffered = 20; p.flush = 2; p.stat_every = 0; p.ops = 30; p.wrv = 25; p.app = 10; go(p, NT { return w.ev.read >= 1000; }); }
static void c01_wide() { Prof p; p.big = p.wide = true; p.nonblock = 90; p.buffered = 10; p.stat_every = 4; p.ops = 40; p.maxh = 4; p.rd = p.wr = 3; p.rdv = p.wrv = 25; p.app = 10; go(p, NT { return w.ev.read >= 66000; }); }
// ---- C02
static void c02_any() { Prof p; p.plain = 6; p.drop = p.farm = 1; p.wr = 16; p.wrv = 20; p.rd = 6; p.rdv = 6; p.nonblock = 65; p.buffered = 10; p.stat_every = 1; go(p, NT { return w.ev.refused >= 1 && w.ev.wrote >= 3; }); }
static void c02_long() { Prof p; p.lng = true; p.plain = 6; p.drop = p.farm = 1; p.wr = 16; p.wrv = 20; p.rd = 6; p.rdv = 6; p.nonblock = 65; p.buffered = 10; p.stat_every = 1; p.ops = 30; go(p, NT { return w.ev.refused >= 1 && w.ev.bytes >= 65536; }); }
static void c02_big() { Prof p; p.big = true; p.plain = 4; p.drop = p.farm = 1; p.wr = 10; p.wrv = 25; p.nonblock = 80; p.ops = 25; p.stat_every = 1; p.app = 10; go(p, NT { return w.ev.wrote >= 1000; }); }
// ---- C03
static void c03_any() { Prof p; p.plain = 0; p.drop = 1; p.wr = 14; p.wrv = 16; p.rd = 7; p.rdv = 7; p.nonblock = 50; p.buffered = 15; p.flush = 2; p.stat_every = 1; go(p, NT { return w.ev.dropped >= 2 && w.ev.read >= 1; }); }
static void c03_long() { Prof p; p.lng = true; p.plain = 0; p.drop = 1; p.wr = 14; p.wrv = 16; p.rd = 7; p.rdv = 7; p.nonblock = 50; p.buffered = 15; p.flush = 2; p.stat_every = 1; p.ops = 30; go(p, NT { return w.ev.dropped >= 1 && w.ev.bytes >= 65536; }); }
static void c03_big() { Prof p; p.big = true; p.plain = 0; p.drop = 1; p.wrv = 25; p.ops = 30; p.stat_every = 1; p.app = 10; go(p, NT { return w.ev.dropped >= 1 && w.ev.wrote >= 1000; }); }
static void c03_wide() { Prof p; p.big = p.wide = true; p.plain = 0; p.drop = 1; p.wr = p.rd = 3; p.wrv = 25; p.ops = 40; p.maxh = 4; p.stat_every = 2; p.app = 10; go(p, NT { return w.ev.dropped >= 1 && w.ev.wrote >= 66000; }); }
// ---- C04
static void c04_big() { Prof p; p.big = true; p.plain = 0; p.farm = 1; p.maxh = 8; p.wrv = 25; p.rdv = 16; p.farmstat = 8; p.nonblock = 85; p.ops = 40; p.stat_every = 4; p.app = 10; go(p, NT { return w.ev.lost >= 1 && w.ev.read >= 1000; }); }
static void c04_wide() { Prof p; p.big = p.wide = true; p.plain = 0; p.farm = 1; p.maxh = 4; p.rd = p.wr = 3; p.wrv = 25; p.rdv = 16; p.farmstat = 8; p.nonblock = 90; p.ops = 40; p.stat_every = 4; p.app = 10; go(p, NT { return w.ev.dropped >= 1 && w.ev.read >= 1000; }); }
static void c04_any() { Prof p; p.plain = 0; p.farm = 1; p.maxh = 8; p.wr = 12; p.wrv = 12; p.rd = 12; p.rdv = 12; p.farmstat = 8; p.nonblock = 70; p.buffered = 10; p.flush = 2; p.stat_every = 3; go(p, NT { return w.ev.read >= 4 && w.ev.dropped >= 1; }); }
static void c04_long() { Prof p; p.lng = true; p.plain = 0; p.farm = 1; p.maxh = 8; p.wr = 12; p.wrv = 12; p.rd = 12; p.rdv = 12; p.farmstat = 8; p.nonblock = 70; p.buffered = 10; p.flush = 2; p.stat_every = 3; p.ops = 30; go(p, NT { return w.ev.read >= 1 && w.ev.dropped >= 1 && w.ev.bytes >= 65536; }); }
static void c04_lag() { Prof p; p.plain = 0; p.farm = 1; p.maxh = 5; p.wr = 25; p.wrv = 15; p.rd = 6; p.rdv = 6; p.farmstat = 6; p.nonblock = 90; p.ops = 120; p.stat_every = 4; p.nmax = 60; go(p, NT { return w.ev.lost >= 1; }); }
// ---- C05
static void c05_any() { Prof p; p.plain = 3; p.drop = 1; p.farm = 2; p.rd = 12; p.rdv = 30; p.wr = 10; p.wrv = 14; p.nonblock = 70; p.stat_every = 4; go(p, NT { return w.ev.partial >= 1 || w.ev.refused >= 1; }); }
static void c05_long() { Prof p; p.lng = true; p.plain = 3; p.drop = 1; p.farm = 2; p.rd = 12; p.rdv = 30; p.wr = 10; p.wrv = 14; p.nonblock = 70; p.stat_every = 4; p.ops = 30; go(p, NT { return (w.ev.partial >= 1 || w.ev.refused >= 1) && w.ev.bytes >= 65536; }); }
static void c05_big() { Prof p; p.big = true; p.plain = 3; p.drop = 1; p.farm = 2; p.rdv = 25; p.wrv = 20; p.nonblock = 80; p.ops = 30; p.app = 0; go(p, NT { return w.ev.read >= 1000; }); }
static void c05_wide() { Prof p; p.big = p.wide = true; p.plain = 3; p.drop = 1; p.farm = 2; p.rdv = 25; p.wrv = 20; p.rd = p.wr = 3; p.maxh = 4; p.nonblock = 90; p.ops = 40; p.app = 0; p.stat_every = 4; go(p, NT { return w.ev.read >= 66000; }); }
// ---- C09
static void c09_any() { Prof p; p.plain = 3; p.drop = 1; p.farm = 2; p.nonblock = 90; p.rd = 12; p.rdv = 12; p.open = 8; p.buffered = 15; p.flush = 3; p.maxh = 8; p.stat_every = 0; go(p, NT { return w.ev.read >= 2 && w.ev.opens >= 3; }); }
static void c09_long() { Prof p; p.lng = true; p.plain = 3; p.drop = 1; p.farm = 2; p.nonblock = 90; p.rd = 12; p.rdv = 12; p.open = 8; p.buffered = 15; p.flush = 3; p.maxh = 8; p.stat_every = 0; p.ops = 30; go(p, NT { return w.ev.bytes >= 65536 && w.ev.read >= 1; }); }
// ---- C10
static void c10_any() { Prof p; p.plain = 4; p.drop = 1; p.farm = 1; p.nonblock = 10; p.pollreg = 8; p.polltog = 6; p.buffered = 15; p.flush = 3; p.w_pollfd = 6; p.w_eintr = 3; p.stat_every = 2; go(p, NT { return w.ev.polls >= 1; }); }
// ---- C11
static void c11_any() { Prof p; p.plain = 4; p.drop = 1; p.farm = 1; p.buffered = 85; p.flush = 8; p.wr = 16; p.wrv = 12; p.stat_every = 2; p.nonblock = 60; p.nmax = 2000; go(p, NT { return w.ev.cached >= 2 && w.ev.read >= 1; }); }
static void c11_long() { Prof p; p.lng = true; p.plain = 4; p.drop = 1; p.farm = 1; p.buffered = 85; p.flush = 8; p.wr = 16; p.wrv = 12; p.stat_every = 2; p.nonblock = 60; p.ops = 30; go(p, NT { return w.ev.cached >= 1 && w.ev.bytes >= 65536; }); }
static void c11_big() { Prof p; p.big = true; p.plain = 4; p.drop = 1; p.farm = 1; p.buffered = 90; p.flush = 5; p.wr = 5; p.wrv = 30; p.ops = 40; p.nonblock = 70; p.stat_every = 2; p.app = 0; go(p, NT { return w.ev.cached >= 1 && w.ev.wrote >= 1000; }); }
// ---- C12
static void c12_any() { Prof p; p.plain = 2; p.drop = 2; p.farm = 2; p.buffered = 25; p.flush = 4; p.stat = 6; p.reset = 5; p.stat_every = 1; p.sync = 15; p.mlk = 15; p.nonblock = 65; p.pollreg = 1; p.polltog = 1; go(p, NT { return w.ev.resets >= 1 && w.ev.read >= 2; }); }
// ---- C13
static void c13_any() { Prof p; p.plain = 2; p.drop = 2; p.farm = 2; p.app = 85; p.app_get = 10; p.app_set = 8; p.app_swap = 8; p.reset = 2; p.nonblock = 70; p.stat_every = 6; p.buffered = 10; p.flush = 2; p.sync = 10; go(p, NT { return w.ev.apps >= 1 && w.ev.wrote >= 1; }); }
static void c13_long() { Prof p; p.lng = true; p.plain = 2; p.drop = 2; p.farm = 2; p.app = 85; p.app_get = 10; p.app_set = 8; p.app_swap = 8; p.reset = 2; p.nonblock = 70; p.stat_every = 6; p.buffered = 10; p.flush = 2; p.sync = 10; p.ops = 30; go(p, NT { return w.ev.apps >= 1 && w.R.app.size() >= 4000; }); }
// ---- C17
static void c17_seq() { Prof p; p.plain = 3; p.drop = 1; p.farm = 2; p.lockprot = true; p.buffered = 20; p.flush = 4; p.reset = 3; p.app = 60; p.app_set = 3; p.app_swap = 3; p.app_get = 3; p.pollreg = 2; p.polltog = 2; p.farmstat = 2; p.reinit = 1; p.sync = 10; p.nonblock = 55; go(p, NT { return w.locks_taken >= 10 && w.ev.wrote >= 1; }); }
static void c17_long() { Prof p; p.lng = true; p.plain = 3; p.drop = 1; p.farm = 2; p.lockprot = true; p.buffered = 20; p.flush = 4; p.reset = 3; p.app = 60; p.app_set = 3; p.app_swap = 3; p.app_get = 3; p.pollreg = 2; p.polltog = 2; p.farmstat = 2; p.reinit = 1; p.sync = 10; p.nonblock = 55; p.ops = 30; go(p, NT { return w.locks_taken >= 10 && w.ev.bytes >= 65536; }); }
static void c17_fail() { Prof p; p.plain = 3; p.drop = 1; p.farm = 2; p.lockprot = true; p.fault = 45; p.buffered = 50; p.flush = 10; p.reset = 2; p.app = 50; p.app_set = 2; p.app_swap = 2; p.app_get = 3; p.reinit = 1; p.sync = 10; p.mlk = 10; p.nonblock = 70; p.open = 9; p.close = 4; go(p, NT { return w.ev.faults >= 2; }); }
// ---- C18
static void c18_any() { Prof p; p.plain = 3; p.drop = 1; p.farm = 2; p.sync = 100; p.durable = true; p.buffered = 20; p.flush = 4; p.reset = 3; p.app = 70; p.app_set = 4; p.app_swap = 4; p.nonblock = 65; p.ops = 40; go(p, NT { return w.ev.images >= 3; }); }
static void c18_long() { Prof p; p.lng = true; p.plain = 3; p.drop = 1; p.farm = 2; p.sync = 100; p.durable = true; p.buffered = 20; p.flush = 4; p.reset = 3; p.app = 70; p.app_set = 4; p.app_swap = 4; p.nonblock = 65; p.ops = 30; go(p, NT { return w.ev.images >= 3 && w.ev.bytes >= 65536; }); }
static void c18_pages() { Prof p; p.plain = 3; p.drop = 1; p.farm = 2; p.sync = 100; p.durable = true; p.buffered = 20; p.flush = 4; p.reset = 2; p.app = 70; p.app_set = 4; p.app_swap = 4; p.nonblock = 65; p.ops = 25; p.big = true; go(p, NT { return w.ev.images >= 3; }); }
// ---- C19
static void c19_any() { Prof p; p.plain = 3; p.drop = 1; p.farm = 2; p.mlk = 75; p.sync = 20; p.resident = true; p.buffered = 20; p.open = 12; p.close = 5; p.ops = 25; p.fault = 15; p.fault_only = 1u << vsys::C_MLOCK; p.nmax = 4000; p.refused = 1; go(p, NT { return (w.R.flags & SHR_MLOCK) && w.ev.opens >= 2; }); }
// ---- C21
static void c21_any() { Prof p; p.plain = 3; p.drop = 1; p.farm = 2; p.buffered = 30; p.flush = 5; p.open = 12; p.close = 8; p.app = 50; p.app_get = 4; p.pollreg = 3; p.polltog = 2; p.reset = 2; p.refused = 5; p.reinit = 1; p.nonblock = 55; p.sync = 10; p.mlk = 10; p.stat_every = 4; go(p, NT { return w.ev.opens >= 5; }); }
static void c21_fail() { Prof p; p.plain = 3; p.drop = 1; p.farm = 2; p.buffered = 30; p.open = 25; p.close = 8; p.ops = 40; p.app = 50; p.app_get = 4; p.fault = 60; p.rd = p.rdv = p.wr = p.wrv = 4; p.nonblock = 55; p.sync = 10; p.mlk = 10; p.stat_every = 4; go(p, NT { return w.ev.faults >= 2; }); }
// one process opens and closes many times: nothing may accumulate
static void c21_cycles() {
  World w; w.P.app = 50; w.P.plain = 3; w.P.drop = w.P.farm = 1; w.fd0 = listdir("/proc/self/fd"); vsys::live.clear(); vsys::live_dirs = 0; vsys::sys = &w;
  w.create();
  unsigned n = 20 + pbt::draw(60); int fdm = -1;
  for (unsigned i = 0; i < n; i++) {
    bool rd = pbt::chance(1, 2); H *h = w.do_open(rd, pbt::chance(1, 2), !rd && pbt::chance(1, 3));
    if (rd) { if (model::avail(w.R, h->m)) w.op_read(h, true, true); } else if (h->m.nonblock || w.R.mode != model::PLAIN) { if (pbt::chance(1, 2)) w.op_write(h, true); }
    if (pbt::chance(1, 6)) w.op_refused();
    w.do_close(h);
    int k = listdir("/proc/self/fd"); if (fdm < 0) fdm = k;
    REQUIRE(k == fdm, "C21 cycle %u: %d descriptors, %d after the first cycle", i, k, fdm);
    REQUIRE(vsys::live.empty() && w.maps.empty(), "C21 cycle %u left memory behind", i);
  }
  w.leaks(); w.finish(); pbt::nontrivial();
}
// ---- C22
static void c22_any() { Prof p; p.plain = 3; p.drop = 1; p.farm = 2; p.buffered = 25; p.flush = 4; p.fault = 40; p.app = 40; p.app_get = 3; p.app_set = 2; p.app_swap = 2; p.pollreg = 1; p.polltog = 1; p.nonblock = 60; p.mlk = 10; p.sync = 10; p.open = 9; p.close = 4; p.stat_every = 2; go(p, NT { return w.ev.faults >= 2 && w.ev.read >= 1; }); }

// ---- C14
struct Quiet : vsys::Sys { int wait_ready(int (*)(void *), void *) override { pbt::fail("a call waits unexpectedly"); } };
static std::string rnd(size_t n, uint32_t id) { std::string s(n, 0); if (n) model::fill(id, &s[0], n); return s; }
static void c14() {
  static Quiet q; vsys::sys = &q; vsys::live.clear(); vsys::live_dirs = 0;
  int fd0 = listdir("/proc/self/fd");
  std::string path = std::string(pbt::scratch()) + "/c14"; unlink(path.c_str());
  std::string as = path;     // the name it is created under
  switch (pbt::draw(6)) {
    case 1: as = "c14"; break; case 2: as = "./c14"; break; case 3: as = std::string(pbt::scratch()) + "//c14"; break;
    case 4: as = std::string(pbt::scratch()); while (as.size() < 4000) as += "/."; as += "/c14"; break;
  }
  if (chdir(pbt::scratch())) pbt::discard();
  uint32_t id = 1; shr *old = nullptr; std::string oldmsg;
  unsigned pre = pbt::weighted({3, 3, 3, 1});
  if (pre == 1) { std::string junk = rnd(pbt::small(0, 20000), id++); spew(path, junk); pbt::log("a file of %zu bytes is there", junk.size()); }
  if (pre >= 2) {
    size_t n0 = 50 + pbt::small(0, 5000);
    REQUIRE(shr_init(&path[0], n0, pbt::chance(1, 2) ? 0 : SHR_FARM) == 0, "C14 creation failed");
    old = shr_open(path.c_str(), SHR_WRONLY | SHR_NONBLOCK); REQUIRE(old, "C15 open failed");
    oldmsg = rnd(20, 7777); REQUIRE(shr_write(old, &oldmsg[0], 20) == 20, "C02 write failed");
    if (pre == 2) { shr_close(old); old = nullptr; }
    pbt::log("a ring of %zu bytes is there%s", n0, old ? ", and open" : "");
  }
  std::string before = pre ? slurp(path) : ""; struct stat sb; memset(&sb, 0, sizeof sb); if (pre) stat(path.c_str(), &sb);
  // the request
  size_t n = 0, mm = 0, al = 0; unsigned fl = 0; bool bad = false;
  switch (pbt::weighted({3, 3, 1})) { case 0: n = 1 + pbt::draw(60); break; case 1: n = 1 + pbt::small(0, 100000); break; case 2: n = 1 + pbt::small(0, 4000000); break; }
  if (pbt::chance(1, 3)) fl |= SHR_DROP;
  if (pbt::chance(1, 3)) fl |= SHR_FARM;
  if (pbt::chance(1, 5)) fl |= SHR_SYNC;
  if (pbt::chance(1, 5)) fl |= SHR_MLOCK;
  if (pbt::chance(1, 2)) fl |= SHR_MAXMSGS_2, mm = pbt::chance(1, 8) ? 0 : 1 + pbt::small(0, 5000);
  if (pbt::chance(1, 2)) fl |= SHR_APPDATA, al = 1 + pbt::small(0, 6000);
  if (pbt::chance(1, 4)) fl |= SHR_KEEPEXIST;
  std::string app = rnd(al, id++);
  if (pbt::chance(1, 3)) {   // spoil it
    static const size_t huge[] = {SIZE_MAX, SIZE_MAX - 7, SIZE_MAX - 800, (size_t)1 << 63, ((size_t)1 << 63) + 5, (size_t)3 << 62, SIZE_MAX / 2 + 1};
    bad = true;
    switch (pbt::weighted({2, 3, 2, 2, 2})) {
      case 0: n = 0; break;
      case 1: fl |= SHR_OPEN_FENCE << pbt::draw(6); break;
      case 2: n = huge[pbt::draw(7)] - pbt::draw(4); break;
      case 3: fl |= SHR_MAXMSGS_2; mm = pbt::chance(1, 2) ? ((size_t)1 << 60) + pbt::draw(50) : huge[pbt::draw(7)] / (1 + pbt::draw(4)); break;
      case 4: fl |= SHR_APPDATA; al = huge[pbt::draw(7)]; if (pbt::chance(1, 2)) al = SIZE_MAX - 500 - n - pbt::draw(3000); break;
    }
    if (al > app.size()) app.resize(16, 'x');
  }
  if (bad && (fl & SHR_KEEPEXIST) && pre && n && fl < SHR_OPEN_FENCE) bad = false, fl |= 0;   // an existing file is kept whatever the sizes: not decided here
  bool keep = (fl & SHR_KEEPEXIST) && pre;
  bool undecided = keep && (n > SSIZE_MAX / 4 || mm > SSIZE_MAX / 64 || al > SSIZE_MAX / 4);
  pbt::log("create n=%zu flags=%x mm=%zu app=%zu", n, fl, mm, al);
  int rc;
  if ((fl & SHR_APPDATA) && (fl & SHR_MAXMSGS_2)) rc = shr_init(&as[0], n, fl, &app[0], al, mm);
  else if (fl & SHR_APPDATA) rc = shr_init(&as[0], n, fl, &app[0], al);
  else if (fl & SHR_MAXMSGS_2) rc = shr_init(&as[0], n, fl, mm);
  else rc = shr_init(&as[0], n, fl);
  pbt::log("  -> %d", rc);
  struct stat sa; bool exists = stat(path.c_str(), &sa) == 0;
  if (bad || keep) {
    if (!undecided) REQUIRE(rc == (bad ? -1 : 0), "C14 creation returned %d", rc);
    if (pre) {
      REQUIRE(exists, "C14 the existing file is gone");
      REQUIRE(sa.st_ino == sb.st_ino && slurp(path) == before, "C14 the existing file was changed");
    } else REQUIRE(!exists, "C14 a refused creation left a file");
    pbt::label(bad ? "refused creations" : "kept files");
  } else {
    REQUIRE(rc == 0, "C14 creation failed");
    shr *r = shr_open(as.c_str(), SHR_RDONLY | SHR_NONBLOCK), *w = shr_open(path.c_str(), SHR_WRONLY | SHR_NONBLOCK);
    REQUIRE(r && w, "C14 the created ring cannot be opened");
    struct shr_stat st; memset(&st, 1, sizeof st); REQUIRE(shr_stat(r, &st, NULL) == 0, "C12 stat");
    unsigned want = (fl & (SHR_DROP | SHR_FARM | SHR_SYNC | SHR_MLOCK)) | (fl & SHR_FARM ? SHR_DROP : 0);
    REQUIRE(st.bn == n, "C14 ring size %zu instead of %zu", st.bn, n);
    if (mm) REQUIRE(st.mm == mm, "C14 message limit %zu instead of %zu", st.mm, mm); else REQUIRE(st.mm >= 1, "C14 message limit 0");
    REQUIRE(st.flags == want, "C14 modes %x instead of %x", st.flags, want);
    REQUIRE(!st.bw && !st.br && !st.mw && !st.mr && !st.md && !st.bd && !st.bu && !st.mu && !st.start.tv_sec && !st.start.tv_usec, "C14 counters of a new ring are not zero");
    REQUIRE(!readable(shr_get_selectable_fd(r)), "C09 descriptor of an empty ring is readable");
    void *p = NULL; size_t sz = 0; rc = shr_appdata(r, &p, NULL, &sz);
    REQUIRE(rc == (al ? 0 : -1), "C14 application data: %d", rc);
    if (al) { REQUIRE(sz == al && !memcmp(p, app.data(), al), "C14 application data differ"); vsys::forget(p); free(p); }
    Obs o; lib::rd(r, n, 1, n, false, o); REQUIRE(o.ret == 0, "C14 new ring is not empty: %zd", o.ret);
    // exactly the requested capacity, in bytes and in messages
    size_t M = st.mm; Batch b;
    if (M <= 20000 && M <= n) {
      for (size_t i = 0; i < M; i++) b.push_back({id++, i + 1 == M ? n - (M - 1) : 1});
      REQUIRE(lib::wr(w, b, true) == (ssize_t)n, "C14 %zu bytes in %zu messages do not fit a ring created for that", n, M);
      lib::rd(r, n, M + 1, n, true, o);
      REQUIRE(o.ret == (ssize_t)n && lib::matches(o, b), "C14 a full ring was read back wrongly: %s", lib::show(o).c_str());
      b.push_back({id++, 1}); for (auto &m : b) m.len = 1;
      REQUIRE(lib::wr(w, b, true) == -1, "C14 more messages than the limit accepted");
    } else {
      b.push_back({id++, n}); REQUIRE(lib::wr(w, b, false) == (ssize_t)n, "C14 %zu bytes do not fit a ring created for that", n);
      lib::rd(r, n, 1, n, false, o); REQUIRE(o.ret == (ssize_t)n && lib::matches(o, b), "C14 a full ring was read back wrongly");
    }
    Batch over(1, Msg{id++, n + 1}); REQUIRE(lib::wr(w, over, false) == -1, "C14 more bytes than the size accepted");
    shr_close(w); shr_close(r); pbt::label("creations");
  }
  if (old) shr_close(old);
  REQUIRE(vsys::live.empty() && listdir("/proc/self/fd") == fd0, "C21 creation left memory or descriptors behind");
  unlink(path.c_str()); vsys::sys = nullptr;
  pbt::nontrivial();
}
// a creation during which something fails
static void create_fail() {
  World w; w.P.fault = 90; w.fd0 = listdir("/proc/self/fd"); vsys::live.clear(); vsys::live_dirs = 0; vsys::sys = &w;
  std::string path = std::string(pbt::scratch()) + "/cf"; unlink(path.c_str());
  for (unsigned round = 1 + pbt::draw(4); round--;) {
    pbt::span();
    uint32_t id = 100; std::string msg = rnd(30, id++), before; shr *old = nullptr; bool pre = pbt::chance(1, 2); size_t n0 = 30 + pbt::draw(500);
    w.fault_in = 0;
    unlink(path.c_str());
    if (pre) {
      REQUIRE(shr_init(&path[0], n0, 0) == 0, "C14 creation failed");
      old = shr_open(path.c_str(), SHR_WRONLY | SHR_NONBLOCK); REQUIRE(old && shr_write(old, &msg[0], 30) == 30, "C02 write failed");
      before = slurp(path);
    }
    struct stat s0; memset(&s0, 0, sizeof s0); if (pre) stat(path.c_str(), &s0);
    size_t n = 1 + pbt::small(0, 20000), mm = 1 + pbt::small(0, 300); std::string app = rnd(1 + pbt::small(0, 5000), id++);
    unsigned fl = (pbt::chance(1, 3) ? SHR_DROP : 0) | (pbt::chance(1, 4) ? SHR_FARM : 0) | (pbt::chance(1, 4) ? SHR_SYNC : 0) | (pbt::chance(1, 6) ? SHR_MLOCK : 0) | (pbt::chance(1, 5) ? SHR_KEEPEXIST : 0) | SHR_MAXMSGS_2 | SHR_APPDATA;
    int fdn = listdir("/proc/self/fd"); size_t ln = vsys::live.size(), mn = w.maps.size(); int dn = vsys::live_dirs;
    w.arm(); if (pbt::chance(2, 3)) { static const vsys::Call cs[] = {vsys::C_OPEN, vsys::C_FTRUNCATE, vsys::C_MMAP, vsys::C_FCNTL_LOCK, vsys::C_UNLINK, vsys::C_ACCESS, vsys::C_MALLOC}; w.fault_mask = 1u << cs[pbt::draw(7)]; w.fault_in = 1 + pbt::draw(2); w.sticky = pbt::chance(1, 4); w.fault_err = pbt::chance(1, 2) ? ENOMEM : pbt::chance(1, 2) ? ENOSPC : EACCES; }
    int rc = shr_init(&path[0], n, fl, &app[0], app.size(), mm);
    bool hit = w.disarm(), unl = hit && w.fault_call == vsys::C_UNLINK, acc = hit && w.fault_call == vsys::C_ACCESS;
    struct stat s1; bool exists = stat(path.c_str(), &s1) == 0;
    pbt::log("create n=%zu mm=%zu app=%zu flags=%x%s -> %d%s%s", n, mm, app.size(), fl, pre ? " over a ring" : "", rc, hit ? ", failing " : "", hit ? vsys::call_name[w.fault_call] : "");
    REQUIRE(rc == 0 || rc == -1, "C14 creation returned %d", rc);
    REQUIRE(rc == 0 || hit, "C14 creation failed");
    REQUIRE(listdir("/proc/self/fd") == fdn, "C21 a creation (%s failed) left %d descriptors behind", hit ? vsys::call_name[w.fault_call] : "nothing", listdir("/proc/self/fd") - fdn);
    REQUIRE(vsys::live.size() == ln && vsys::live_dirs == dn, "C21 a creation left memory behind");
    REQUIRE(w.maps.size() == mn, "C21 a creation left a mapping behind");
    if (rc && exists && !unl) {
      REQUIRE(pre && s1.st_ino == s0.st_ino, "C21 a creation that failed left a file behind (%s)", vsys::call_name[w.fault_call]);
      REQUIRE(slurp(path) == before, "C22 a creation that failed changed the existing file");
    }
    if (rc && unl && pre && exists && s1.st_ino == s0.st_ino) REQUIRE(slurp(path) == before, "C22 a creation that failed changed the existing file");
    if (!rc && !(pre && (fl & SHR_KEEPEXIST) && !acc)) {
      shr *r = shr_open(path.c_str(), SHR_RDONLY | SHR_NONBLOCK); REQUIRE(r, "C22 the ring reported as created (%s failed) cannot be opened", hit ? vsys::call_name[w.fault_call] : "nothing");
      struct shr_stat st; REQUIRE(shr_stat(r, &st, NULL) == 0 && st.bn == n && st.mm == mm && !st.mu, "C22 the ring reported as created is not the one asked for");
      std::string got(app.size(), 0); void *g = &got[0]; size_t gl = got.size(); REQUIRE(shr_appdata(r, &g, NULL, &gl) == 0 && got == app, "C22 the ring reported as created has other application data");
      shr_close(r);
    }
    if (!rc && pre && (fl & SHR_KEEPEXIST) && !acc) REQUIRE(exists && s1.st_ino == s0.st_ino && slurp(path) == before, "C14 the existing ring was not kept");
    if (old) {    // whoever had the old ring open goes on
      if (n0 >= 60) REQUIRE(shr_write(old, &msg[0], 30) == 30, "C22 the old ring does not work any more");
      struct shr_stat st; REQUIRE(shr_stat(old, &st, NULL) == 0 && st.mu == (n0 >= 60 ? 2u : 1u), "C22 the old ring lost messages");
      shr_close(old);
    }
    if (hit) pbt::nontrivial();
  }
  unlink(path.c_str());
  REQUIRE(vsys::live.empty() && w.maps.empty() && listdir("/proc/self/fd") == w.fd0, "C21 creation left memory or descriptors behind");
  vsys::sys = nullptr;
}
// ---- C15
static void c15() {
  World w; Prof p; p.plain = 2; p.drop = p.farm = 1; p.app = 40; p.nonblock = 100; p.stat_every = 0; p.refused = 0; w.P = p;
  w.fd0 = listdir("/proc/self/fd"); vsys::live.clear(); vsys::live_dirs = 0; vsys::sys = &w;
  w.create();
  H *wr = w.do_open(false, true, false), *rd = w.do_open(true, true, false);
  for (unsigned i = pbt::draw(12); i--;) { pbt::span(); w.op_write(wr, true); if (pbt::chance(1, 3)) w.op_read(rd, true); }
  if (pbt::chance(1, 4)) { w.do_close(rd); rd = nullptr; }
  std::string img = slurp(w.path), bad = img, p2 = w.path + ".x"; bool ok = false, mk = true, odd = false;
  rmdir(p2.c_str()); unlink(p2.c_str());
  unsigned kind = pbt::weighted({1, 1, 2, 6, 3, 2, 2, 1, 2, 1, 1, 1, 1, 1});
  switch (kind) {
    case 0: mk = false; break;
    case 1: bad.clear(); break;
    case 2: bad = rnd(pbt::small(1, 3000), 4242); break;
    case 3: bad.resize(img.size() - 1 - (pbt::chance(1, 2) ? pbt::small(0, std::min<size_t>(img.size() - 1, 70)) : pbt::draw(img.size() - 1))); break;
    case 4: { size_t k = pbt::draw(7); bad[k] ^= 1 + pbt::draw(255); break; }   // format marker
    case 5: bad += rnd(1 + pbt::small(0, 9000), 99); ok = true; break;
    case 6: bad = std::string(pbt::small(1, 9000), pbt::chance(1, 2) ? 0 : 0x41); break;
    case 7: mk = false; mkdir(p2.c_str(), 0755); break;
    case 8: ok = true; break;
    case 9: mk = false; odd = true; REQUIRE(!mkfifo(p2.c_str(), 0644), "harness: mkfifo"); break;
    case 10: mk = false; { static const char *to[] = {"/dev/null", "/dev/zero", "nowhere.x", NULL}; unsigned k = pbt::draw(4); const char *t = to[k] ? to[k] : strrchr(p2.c_str(), '/') + 1; odd = k < 2; REQUIRE(!symlink(t, p2.c_str()), "harness: symlink"); } break;
    case 11: mk = false; odd = true; { int fd = socket(AF_UNIX, SOCK_DGRAM, 0); struct sockaddr_un a; memset(&a, 0, sizeof a); a.sun_family = AF_UNIX; snprintf(a.sun_path, sizeof a.sun_path, "%s", p2.c_str()); bool b = strlen(p2.c_str()) < sizeof a.sun_path && !bind(fd, (struct sockaddr *)&a, sizeof a); ::close(fd); if (!b) pbt::discard(); } break;
    case 12: mk = false; ok = true; spew(w.path + ".y", img); REQUIRE(!symlink((w.path + ".y").c_str(), p2.c_str()), "harness: symlink"); break;
    case 13: if (img.size() > 9) { size_t k = 1 + pbt::draw(img.size() - 1); bad = img.substr(k) + img.substr(0, k); if (!memcmp(bad.data(), img.data(), 7)) pbt::discard(); } break;
  }
  if (mk) spew(p2, bad);
  static const char *kn[] = {"missing", "empty", "random bytes", "truncated", "wrong format marker", "extended", "constant bytes", "directory", "intact copy", "pipe", "link to nothing, to itself or to a device", "socket", "link to a copy", "rotated"};
  unsigned fl = (pbt::chance(1, 2) ? SHR_RDONLY : SHR_WRONLY) | (pbt::chance(1, 2) ? SHR_NONBLOCK : 0) | (pbt::chance(1, 4) ? SHR_BUFFERED : 0);
  bool badfl = pbt::chance(1, 5);
  if (badfl) {
    switch (pbt::draw(3)) {
      case 0: fl &= ~(SHR_RDONLY | SHR_WRONLY); break;
      case 1: fl |= SHR_RDONLY | SHR_WRONLY; break;
      case 2: fl |= 1u << pbt::draw(7); break;
    }
    ok = false;
  }
  bool live = badfl && pbt::chance(1, 2);    // on the ring that is in use
  std::string target = live ? w.path : p2;
  if (live) odd = false;
  std::string before = odd ? "" : slurp(target);
  pbt::log("open %s (%zu of %zu bytes) flags %x", live ? "the ring in use" : kn[kind], before.size(), img.size(), fl);
  vsys::sys = nullptr;
  size_t ln = vsys::live.size(); int fdn = listdir("/proc/self/fd");
  shr *s = shr_open(target.c_str(), fl);
  pbt::log("  -> %s", s ? "opened" : "NULL");
  if (!ok) {
    REQUIRE(!s, "C15 the open succeeded");
    REQUIRE(odd || slurp(target) == before, "C15 a refused open changed the file");
    REQUIRE(vsys::live.size() == ln && listdir("/proc/self/fd") == fdn, "C21 a refused open left memory or descriptors behind");
  } else {
    REQUIRE(s, "C15 an intact ring (%s) could not be opened", kn[kind]);
    shr_close(s);
    s = shr_open(target.c_str(), SHR_RDONLY | SHR_NONBLOCK); REQUIRE(s, "C15 second open failed");
    w.compare_all(s, "C15"); shr_close(s);
  }
  vsys::sys = &w;
  // those who have the ring open go on
  w.op_write(wr, true); if (rd) w.op_read(rd, true, true); w.after();
  while (!w.hs.empty()) w.do_close(w.hs.back().get());
  vsys::sys = nullptr;
  s = shr_open(w.path.c_str(), SHR_RDONLY | SHR_NONBLOCK); REQUIRE(s, "C15 the ring can no longer be opened"); w.compare_all(s, "C15"); shr_close(s);
  unlink(p2.c_str()); rmdir(p2.c_str()); unlink((w.path + ".y").c_str()); unlink(w.path.c_str());
  pbt::label(ok ? "accepted files" : "refused opens"); pbt::nontrivial();
}
// ---- C16: 64 waiters of each kind
static void c16_slots() {
  World w; w.P.app = 0; w.P.plain = 1; w.P.nmax = 200; w.fd0 = listdir("/proc/self/fd"); vsys::live.clear(); vsys::live_dirs = 0; vsys::sys = &w;
  w.create();
  // blocking writers wait for readers; non-blocking ones and readers on the other line do not count
  bool readers = pbt::chance(1, 2);
  std::vector<H *> v; H *other = w.do_open(!readers, true, false);
  for (int i = 0; i < 64; i++) v.push_back(w.do_open(readers, readers ? pbt::chance(1, 2) : false, false));
  unsigned fl = readers ? SHR_RDONLY | (pbt::chance(1, 2) ? SHR_NONBLOCK : 0) : SHR_WRONLY;
  for (int round = 0; round < 3; round++) {
    shr *s = shr_open(w.path.c_str(), fl);
    REQUIRE(!s, "C16 a 65th %s could be opened", readers ? "reader" : "blocking writer");
    if (!readers) { H *x = w.do_open(false, true, false); w.op_write(x, false); w.do_close(x); }
    // the 64 are undisturbed: a write reaches all of them
    H *wr = readers ? other : w.do_open(false, true, false);
    if (w.R.room(1, 1)) { w.write_with(wr, Batch(1, Msg{w.next_id++, 1}), false); }
    w.after();
    if (!readers) w.do_close(wr);
    size_t k = pbt::draw(v.size()); pbt::log("65th refused; close number %zu", k);
    if (w.R.mode == model::PLAIN && readers && !v[k]->m.nonblock) { if (model::avail(w.R, v[k]->m)) w.op_read(v[k], true, true); }
    w.do_close(v[k]); v.erase(v.begin() + k);
    H *n = w.do_open(readers, readers ? pbt::chance(1, 2) : false, false); v.push_back(n);
  }
  while (!w.hs.empty()) w.do_close(w.hs[pbt::draw(w.hs.size())].get());
  w.leaks(); w.finish(); pbt::nontrivial();
}

#define SEQRULE "a fresh ring of random size, limit, mode and application data; 2..ops random operations through up to maxh handles of random kinds, results, buffers, descriptors and counters compared with a reference model after every one, blocked calls resolved by peers, signals or descriptors; non-trivial: "
static std::vector<Property> props = {
  {"C01", "c01-seq", c01_small, 42000, 400000, SEQRULE "at least 3 messages read and more bytes written than the ring holds", 30, 0},
  {"C01", "c01-big", c01_big, 1750, 15000, SEQRULE "at least 1000 messages read (rings of thousands of slots)", 60, 0},
  {"C01", "c01-wide", c01_wide, 150, 4000, SEQRULE "at least 66000 messages read (rings of 66000..136000 slots)", 120, 0},
  {"C03", "c03-wide", c03_wide, 150, 4000, SEQRULE "a write had to drop among 66000 messages", 120, 0},
  {"C04", "c04-big", c04_big, 1500, 15000, SEQRULE "a reader found messages overwritten among 1000", 60, 0},
  {"C04", "c04-wide", c04_wide, 150, 4000, SEQRULE "messages overwritten among 66000", 120, 0},
  {"C05", "c05-wide", c05_wide, 150, 4000, SEQRULE "at least 66000 messages read", 120, 0},
  {"C02", "c02-seq", c02_any, 36000, 400000, SEQRULE "at least one request refused for room or size and 3 messages stored", 30, 0},
  {"C02", "c02-big", c02_big, 1750, 15000, SEQRULE "at least 1000 messages written", 60, 0},
  {"C03", "c03-seq", c03_any, 42000, 400000, SEQRULE "at least two writes had to drop and something was read", 30, 0},
  {"C03", "c03-big", c03_big, 1500, 15000, SEQRULE "a write had to drop among 1000 messages", 60, 0},
  {"C04", "c04-seq", c04_any, 30000, 300000, SEQRULE "at least 4 messages read and an eviction", 30, 0},
  {"C04", "c04-lag", c04_lag, 24000, 200000, SEQRULE "at least one reader found messages overwritten", 30, 0},
  {"C05", "c05-seq", c05_any, 42000, 400000, SEQRULE "a bulk read stopped by a limit, or a read refused", 30, 0},
  {"C05", "c05-big", c05_big, 1500, 15000, SEQRULE "at least 1000 messages read", 60, 0},
  {"C09", "c09-seq", c09_any, 42000, 400000, SEQRULE "at least 2 messages read and 3 handles opened", 30, 0},
  {"C10", "c10-seq", c10_any, 42000, 400000, SEQRULE "a waiting call was ended by a registered descriptor", 30, 0},
  {"C11", "c11-seq", c11_any, 36000, 300000, SEQRULE "at least two writes were buffered and a message read", 30, 0},
  {"C11", "c11-big", c11_big, 1500, 15000, SEQRULE "buffered writes among at least 1000 messages", 60, 0},
  {"C12", "c12-seq", c12_any, 36000, 300000, SEQRULE "a reset and at least 2 messages read", 30, 0},
  {"C13", "c13-seq", c13_any, 36000, 300000, SEQRULE "application data were replaced and a message written", 30, 0},
  {"C14", "c14-create", c14, 60000, 200000, "random previous file (none, junk, ring, open ring) and creation request, one third spoiled (zero, foreign flags, unrepresentable sizes); the result is inspected byte for byte, its capacity filled exactly; every case is non-trivial", 30, 0},
  {"C15", "c15-open", c15, 60000, 200000, "a used ring and a copy of it that is missing, empty, random, truncated at any byte, mis-marked, extended, or opened with wrong modes; every case is non-trivial", 30, 0},
  {"C16", "c16-slots", c16_slots, 40, 400, "64 readers or 64 blocking writers, a 65th, closes and reopens; every case is non-trivial", 120, 0},
  {"C17", "c17-seq", c17_seq, 24000, 200000, SEQRULE "at least 10 lock acquisitions and a write; the ring memory is write-protected whenever the lock is not held", 30, 0},
  {"C17", "c17-fail", c17_fail, 18000, 150000, SEQRULE "at least 2 system calls or allocations failed; the ring memory is write-protected whenever the lock is not held", 30, 0},
  {"C18", "c18-seq", c18_any, 12000, 100000, SEQRULE "at least 3 images of the backing store compared", 30, 0},
  {"C18", "c18-pages", c18_pages, 600, 6000, SEQRULE "at least 3 images of the backing store of a ring of many pages compared", 60, 0},
  {"C19", "c19-seq", c19_any, 9000, 100000, SEQRULE "a memory-locked ring with at least 2 opens, some with a failing mlock", 30, 0},
  {"C21", "c21-seq", c21_any, 24000, 200000, SEQRULE "at least 5 opens", 30, 0},
  {"C21", "c21-fail", c21_fail, 15000, 150000, SEQRULE "at least 2 system calls or allocations failed", 30, 0},
  {"C21", "c21-cycles", c21_cycles, 3000, 30000, "20..80 open/use/close cycles in one process with descriptors and memory counted after each; every case is non-trivial", 60, 0},
  {"C21", "c21-create", create_fail, 12000, 100000, "1..4 creations, over nothing or over a ring that is open, during which an interposed call fails; files, descriptors, memory and mappings left are counted; non-trivial: a failure was injected", 30, 0},
  {"C22", "c22-create", create_fail, 12000, 100000, "1..4 creations, over nothing or over a ring that is open, during which an interposed call fails; files, descriptors, memory and mappings left are counted; non-trivial: a failure was injected", 30, 0},
  {"C01", "c01-long", c01_long, 600, 7200, SEQRULE "at least 64 KiB written and a message read (rings of 4 KiB to 3 MiB, messages up to 2 MiB, sizes near powers of two preferred)", 60, 0},
  {"C02", "c02-long", c02_long, 600, 7200, SEQRULE "a request refused and at least 64 KiB written (rings of 4 KiB to 3 MiB, messages up to 2 MiB, sizes near powers of two preferred)", 60, 0},
  {"C03", "c03-long", c03_long, 600, 7200, SEQRULE "a write had to drop and at least 64 KiB were written (rings of 4 KiB to 3 MiB, messages up to 2 MiB, sizes near powers of two preferred)", 60, 0},
  {"C04", "c04-long", c04_long, 600, 7200, SEQRULE "a message read, an eviction, and at least 64 KiB written (rings of 4 KiB to 3 MiB, messages up to 2 MiB, sizes near powers of two preferred)", 60, 0},
  {"C05", "c05-long", c05_long, 600, 7200, SEQRULE "a bulk read stopped by a limit, or a read refused, and at least 64 KiB written (rings of 4 KiB to 3 MiB, messages up to 2 MiB, sizes near powers of two preferred)", 60, 0},
  {"C09", "c09-long", c09_long, 500, 6000, SEQRULE "at least 64 KiB written and a message read (rings of 4 KiB to 3 MiB, messages up to 2 MiB, sizes near powers of two preferred)", 60, 0},
  {"C11", "c11-long", c11_long, 500, 6000, SEQRULE "a buffered write and at least 64 KiB written (rings of 4 KiB to 3 MiB, messages up to 2 MiB, sizes near powers of two preferred)", 60, 0},
  {"C13", "c13-long", c13_long, 600, 7200, SEQRULE "application data of at least 4000 bytes were got or replaced (rings of 4 KiB to 3 MiB, messages up to 2 MiB, sizes near powers of two preferred)", 60, 0},
  {"C17", "c17-long", c17_long, 300, 3600, SEQRULE "at least 10 lock acquisitions and 64 KiB written (rings of 4 KiB to 3 MiB, messages up to 2 MiB, sizes near powers of two preferred)", 60, 0},
  {"C18", "c18-long", c18_long, 300, 3600, SEQRULE "at least 3 images of the backing store compared and 64 KiB written (rings of 4 KiB to 3 MiB, messages up to 2 MiB, sizes near powers of two preferred)", 60, 0},
  {"C22", "c22-seq", c22_any, 48000, 400000, SEQRULE "at least 2 injected failures and a message read", 30, 0},
};
int main(int c, char **v) { return pbt::main(c, v, props); }
