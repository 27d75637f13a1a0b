// Rings and messages around and beyond 2 GiB and 4 GiB (C23). Ring file and
// the caller's buffers are sparse memory files and the copies between them
// move only the parts that hold data (a hole is copied as a hole), so that
// hundreds of multi-GiB cases fit. Every message carries marks at its edges
// and all along; a read is compared byte by byte, holes included.
#include "lib.h"
#include "vsys.h"
#include <errno.h>
#include <fcntl.h>
#include <signal.h>
#include <stdio.h>
#include <string.h>
#include <sys/file.h>
#include <sys/mman.h>
#include <sys/stat.h>
#include <unistd.h>
#include <functional>
#include <memory>
using model::Batch; using model::Msg;
typedef unsigned long long ull;

static const size_t G = 1ull << 30, CAP = 24 * G, PG = 4096;
struct Range { char *p; size_t n; int fd; };
static std::vector<Range> ranges;
static Range *range(const void *p) { for (auto &r : ranges) if ((char *)p >= r.p && (char *)p < r.p + r.n) return &r; return nullptr; }
static void zero(char *d, size_t n) {   // make a destination read as zeros, giving memory back where possible
  Range *r = range(d); if (!r || n < 4 * PG) { memset(d, 0, n); return; }
  size_t o = d - r->p, a = (o + PG - 1) / PG * PG, e = (o + n) / PG * PG;
  memset(d, 0, a - o); memset(r->p + e, 0, o + n - e);
  if (fallocate(r->fd, FALLOC_FL_PUNCH_HOLE | FALLOC_FL_KEEP_SIZE, a, e - a)) memset(r->p + a, 0, e - a);
}
static size_t seen_copy;
static void sparse_copy(void *dv, const void *sv, size_t n) {
  seen_copy = std::max(seen_copy, n);
  char *d = (char *)dv; const char *s = (const char *)sv; Range *r = range(s);
  if (n < 64 * PG || !r || s + n > r->p + r->n) { memcpy(d, s, n); return; }
  size_t o = s - r->p, end = o + n;
  while (o < end) {
    off_t da = lseek(r->fd, o, SEEK_DATA); size_t a = da < 0 ? end : std::min<size_t>(da, end);
    if (a > o) zero(d + (o - (s - r->p)), a - o);
    if (a >= end) break;
    off_t ho = lseek(r->fd, a, SEEK_HOLE); size_t b = ho < 0 ? end : std::min<size_t>(ho, end);
    memcpy(d + (a - (s - r->p)), r->p + a, b - a); o = b;
  }
}
struct Buf {   // a caller's buffer
  Range r;
  Buf() { r.fd = memfd_create("buf", 0); if (r.fd < 0 || ftruncate(r.fd, CAP)) pbt::discard(); r.n = CAP; r.p = (char *)mmap(0, CAP, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_NORESERVE, r.fd, 0); if (r.p == MAP_FAILED) pbt::discard(); ranges.push_back(r); }
  void clear() { if (fallocate(r.fd, FALLOC_FL_PUNCH_HOLE | FALLOC_FL_KEEP_SIZE, 0, CAP)) pbt::discard(); }
};

// where a message has marks: 32 bytes at each of these offsets
static std::vector<size_t> spots(const Msg &m) {
  std::vector<size_t> v;
  for (size_t k = 0; k * (G / 2) < m.len; k++) { v.push_back(k * (G / 2)); if (k) v.push_back(k * (G / 2) - 32); }
  if (m.len > 32) v.push_back(m.len - 32);
  for (int i = 0; i < 6; i++) v.push_back(model::word(m.id, 1000 + i) % m.len);
  std::sort(v.begin(), v.end()); return v;
}
static char mark(const Msg &m, size_t off) { return (char)(model::word(m.id, off) | 1); }
static void put(const Msg &m, char *p) { for (size_t s : spots(m)) for (size_t i = s; i < s + 32 && i < m.len; i++) p[i] = mark(m, i); }
static bool zeros(const char *p, size_t n) { return n == 0 || (p[0] == 0 && !memcmp(p, p + 1, n - 1)); }

struct Big : vsys::Sys {
  model::Ring R; std::string path; Buf in, out, app; uint32_t next = 1; struct H { shr *s; model::Handle m; }; Msg appd{0, 0};
  // A call that waits: what it waits for then happens through the other handle.
  bool (*able)(void *) = nullptr; void *able_arg = nullptr; void (Big::*peer)() = nullptr; unsigned blocked = 0;
  int wait_ready(int (*poll0)(void *), void *arg) override {
    bool (*ab)(void *) = able; void *aa = able_arg; void (Big::*pe)() = peer;
    if (!pe) pbt::fail("C23 a call that need not wait waits");
    for (unsigned i = 0;; i++) {
      if (int r = poll0(arg)) { able = ab; able_arg = aa; peer = pe; return r; }
      if (ab(aa)) pbt::fail("C23 a call keeps waiting although it can proceed");
      if (i > 40) pbt::discard();
      able = nullptr; peer = nullptr; blocked++; last_resort = i > 10; pbt::log("  (it waits)"); (this->*pe)(); last_resort = false;
    }
  }
  bool last_resort = false;
  template <class O> void expect(H *h, O &op, ssize_t &ret, std::function<ssize_t()> call, void (Big::*who)()) {
    struct A { Big *b; H *h; O *op; bool done; } a = {this, h, &op, false};
    a.done = model::step(R, h->m, op) == model::DONE;
    if (!a.done) { able_arg = &a; peer = who; able = [](void *p) { A *a = (A *)p; if (!a->done) a->done = model::step(a->b->R, a->h->m, *a->op) == model::DONE; return a->done; }; }
    ret = call(); peer = nullptr;
    if (!a.done && !able(&a)) pbt::fail("C23 a call that has to wait returned %zd", ret);
  }
  H *W = nullptr, *RD = nullptr;
  void unread() { read(RD); }
  void feed() { write(W); if (last_resort && W->m.buffered) flush(W); }
  void flush(H *w) { model::Flush op{false}; size_t b = R.st.bw; ssize_t x = 0; pbt::log("flush"); expect(w, op, x, [&] { return shr_flush(w->s, 0); }, &Big::unread); at += R.st.bw - b; REQUIRE(x == op.ret, "C23 flush returned %zd, expected %zd", x, op.ret); }
  void mapped(void *p, size_t n, int fd) override { ranges.push_back({(char *)p, n, dup(fd)}); }
  void unmapping(void *p, size_t) override { for (size_t i = 0; i < ranges.size(); i++) if (ranges[i].p == p) { ::close(ranges[i].fd); ranges.erase(ranges.begin() + i); return; } }

  std::vector<std::unique_ptr<H>> hs;
  ~Big() { for (Buf *b : {&in, &out, &app}) { munmap(b->r.p, CAP); ::close(b->r.fd); } ranges.clear(); }
  unsigned bigw = 0, bigr = 0, straddle = 0, refused = 0; size_t at = 0;

  // does what out holds match the batch, and only that?
  void compare(const Batch &b, size_t ret) {
    size_t off = 0;
    for (auto &m : b) {
      std::vector<size_t> sp = spots(m); size_t end = 0;
      for (size_t s : sp) {
        size_t e = std::min(s + 32, m.len);
        for (size_t i = std::max(s, end); i < e; i++) if (out.r.p[off + i] != mark(m, i)) pbt::fail("C23 byte %zu of message #%u of %zu bytes differs", i, m.id, m.len);
        end = std::max(end, e);
      }
      off += m.len;
    }
    // no data anywhere else
    size_t o = 0, mi = 0, mo = 0;
    while (o < CAP) {
      off_t da = lseek(out.r.fd, o, SEEK_DATA); if (da < 0) break;
      off_t ho = lseek(out.r.fd, da, SEEK_HOLE); size_t x = da, e = ho < 0 ? CAP : ho;
      while (x < e) {
        while (mi < b.size() && x >= mo + b[mi].len) mo += b[mi++].len;
        if (mi == b.size()) { if (!zeros(out.r.p + x, e - x)) pbt::fail("C23 a read of %zu bytes wrote beyond them", ret); break; }
        const Msg &m = b[mi]; size_t le = std::min(e, mo + m.len); std::vector<size_t> sp = spots(m);
        while (x < le) {   // zero until the next spot
          size_t r = x - mo, nx = m.len, in_spot = 0;
          for (size_t s : sp) { if (r >= s && r < s + 32) in_spot = std::max(in_spot, s + 32); else if (s > r) nx = std::min(nx, s); }
          if (in_spot) { x = std::min(le, mo + std::min(in_spot, m.len)); continue; }
          size_t z = std::min(le, mo + nx);
          if (!zeros(out.r.p + x, z - x)) pbt::fail("C23 message #%u of %zu bytes holds foreign bytes between %zu and %zu", m.id, m.len, x - mo, z - mo);
          x = z;
        }
      }
      o = e;
    }
    if (o) out.clear();
  }
  size_t edge() { static const size_t e[] = {1ull << 31, 1ull << 32, 3ull << 31, 1ull << 33}; return e[pbt::draw(4)]; }
  size_t near(size_t x) { size_t r = x + pbt::draw(9); return r > 4 ? r - 4 : 1; }
  size_t some_len() {
    switch (pbt::weighted({3, 4, 3, 2, 2, 2})) {
      case 0: return 1 + pbt::draw(5000);
      case 1: return near(edge());
      case 2: return R.n > R.bytes ? R.n - R.bytes - std::min<size_t>(pbt::draw(3), R.n - R.bytes - 1) : 1;
      case 3: return 1 + pbt::draw(R.n);
      case 4: { size_t e = edge(), p = at % R.n; return e > p ? near(e - p) : 1 + pbt::draw(G); }   // ends at that offset of the ring
      default: return near(R.n);
    }
  }
  H *open(bool rd, bool bf) {
    std::unique_ptr<H> h(new H); h->m.rd = rd; h->m.nonblock = pbt::chance(2, 3); h->m.buffered = bf && !rd;
    h->s = shr_open(path.c_str(), (rd ? SHR_RDONLY : SHR_WRONLY) | (h->m.nonblock ? SHR_NONBLOCK : 0) | (bf && !rd ? SHR_BUFFERED : 0)); REQUIRE(h->s, "C23 a ring of %zu bytes cannot be opened", R.n);
    pbt::log("open %s%s", rd ? "reader" : "writer", bf && !rd ? " buffered" : "");
    if (h->m.buffered) { struct shr_stat st; shr_stat(h->s, &st, NULL); h->m.cn = st.cn; h->m.cmax = std::min<size_t>(10000, R.mm); }
    model::opened(R, h->m); hs.push_back(std::move(h)); return hs.back().get();
  }
  void write(H *h) {
    size_t k = !last_resort && pbt::chance(1, 3) ? 1 + pbt::draw(4) : 1; Batch b;
    for (size_t i = 0; i < k; i++) { size_t l = last_resort ? 1 : some_len(); if (k > 1 && pbt::chance(1, 2)) l = l / k + 1; if (l > CAP / 5) l = CAP / 5; b.push_back({next++, l}); }
    std::vector<struct iovec> iov; size_t off = pbt::draw(5000);
    if (Ring::total(b) + off > CAP) return;
    for (auto &m : b) { put(m, in.r.p + off); iov.push_back({in.r.p + off, m.len}); off += m.len; }
    std::string show = lib::show(b); pbt::log("write%s %s at %zu of %zu, %zu used", k > 1 ? "v" : "", show.c_str(), at % R.n, R.n, R.bytes);
    model::Write op{b}; auto before = R.writes; size_t bytes_w = R.st.bw; ssize_t r;
    expect(h, op, r, [&] { return k > 1 ? shr_writev(h->s, iov.data(), iov.size()) : shr_write(h->s, (char *)iov[0].iov_base, iov[0].iov_len); }, &Big::unread);
    REQUIRE(r == op.ret, "C23 write of %s returned %zd, expected %zd", show.c_str(), r, op.ret);
    pbt::log("  -> %zd", r);
    if (R.writes != before) { size_t a = at % R.n, z = a + (R.st.bw - bytes_w); for (size_t e : {1ull << 31, 1ull << 32, (ull)R.n}) if (a < e && z > e) straddle++; at += R.st.bw - bytes_w; }
    if (r > (ssize_t)(1ull << 31)) bigw++;
    if (r < 0) refused++;
    in.clear();
  }
  typedef model::Ring Ring;
  void read(H *h) {
    bool bulk = pbt::chance(1, 2); size_t len = !last_resort && pbt::chance(1, 3) ? some_len() : pbt::chance(1, 8) ? (size_t)-1 >> pbt::draw(3) : R.n, niov = bulk ? 1 + pbt::draw(5) : 1;
    model::Read op{len, niov}; std::vector<struct iovec> iov(niov); size_t nv = niov;
    pbt::log("read%s len=%zu", bulk ? "v" : "", len); ssize_t r;
    expect(h, op, r, [&] { return bulk ? shr_readv(h->s, out.r.p, len, iov.data(), &nv) : shr_read(h->s, out.r.p, len); }, &Big::feed);
    REQUIRE(r == op.ret, "C23 read of %zu bytes returned %zd, expected %zd", len, r, op.ret);
    pbt::log("  -> %zd %s", r, lib::show(op.got).c_str());
    if (bulk && r > 0) { REQUIRE(nv == op.got.size(), "C23 readv counts %zu messages, expected %zu", nv, op.got.size()); char *p = out.r.p; for (size_t i = 0; i < nv; i++) { REQUIRE(iov[i].iov_base == p && iov[i].iov_len == op.got[i].len, "C23 vector entry %zu: offset %zd length %zu, expected offset %zd length %zu", i, (char *)iov[i].iov_base - out.r.p, iov[i].iov_len, p - out.r.p, op.got[i].len); p += op.got[i].len; } }
    compare(op.got, r > 0 ? r : 0); if (r > (ssize_t)(1ull << 31)) bigr++;
    if (R.mode == model::FARM) { bool z = pbt::chance(1, 4); size_t d = shr_farm_stat(h->s, z); REQUIRE(d == h->m.missed, "C23 reader has missed %zu messages, expected %zu", d, h->m.missed); if (z) h->m.missed = 0; }
  }
  void stat(H *h) {
    struct timeval tv = {(time_t)pbt::draw(1u << 31) << pbt::draw(8), (suseconds_t)pbt::draw(1000000)}; bool z = pbt::chance(1, 12);
    struct shr_stat st; REQUIRE(shr_stat(h->s, &st, z ? &tv : NULL) == 0, "C23 stat failed"); model::Counters c = R.st;
    REQUIRE(st.start.tv_sec == c.sec && st.start.tv_usec == c.usec, "C23 the period starts at %ld.%06ld, expected %ld.%06ld", (long)st.start.tv_sec, (long)st.start.tv_usec, c.sec, c.usec);
    if (z) { pbt::log("reset the counters"); R.st = model::Counters(); R.st.sec = tv.tv_sec; R.st.usec = tv.tv_usec; }
    REQUIRE(st.bw == c.bw && st.mw == c.mw && st.br == c.br && st.mr == c.mr && st.bd == c.bd && st.md == c.md && st.bn == R.n && st.mm == R.mm && st.bu == R.bytes && st.mu == R.q.size(),
            "C23 counters w %zu/%zu r %zu/%zu d %zu/%zu u %zu/%zu n %zu mm %zu; expected w %zu/%zu r %zu/%zu d %zu/%zu u %zu/%zu n %zu mm %zu", st.bw, st.mw, st.br, st.mr, st.bd, st.md, st.bu, st.mu, st.bn, st.mm, c.bw, c.mw, c.br, c.mr, c.bd, c.md, R.bytes, R.q.size(), R.n, R.mm);
    if (h->m.buffered) { size_t cb = h->m.cb; REQUIRE(st.cb == cb && st.cm == h->m.cache.size(), "C23 cached %zu/%zu, expected %zu/%zu", st.cb, st.cm, cb, h->m.cache.size()); }
  }
  void huge(H *h) {   // totals that cannot be represented
    static const size_t big[] = {(size_t)-1, (size_t)-2, SIZE_MAX / 2 + 1, SIZE_MAX / 2, SIZE_MAX - (1ull << 32) + 1, (1ull << 63) + (1ull << 31), 1ull << 48};
    struct iovec v[3]; size_t k = 1 + pbt::draw(3), i; for (i = 0; i < k; i++) { v[i].iov_base = in.r.p; v[i].iov_len = pbt::chance(1, 3) ? 1 + pbt::draw(100) : big[pbt::draw(7)] - pbt::draw(3); }
    if (pbt::chance(1, 2)) v[k - 1].iov_len = 0 - (k > 1 ? v[0].iov_len : 0) - (k > 2 ? v[1].iov_len : 0) + 1 + pbt::draw(20);   // wraps to a small total
    unsigned __int128 t = 0; for (i = 0; i < k; i++) t += v[i].iov_len; if (t <= R.n) return;
    pbt::log("writev of %zu lengths %zu %zu %zu", k, v[0].iov_len, k > 1 ? v[1].iov_len : 0, k > 2 ? v[2].iov_len : 0);
    ssize_t r = shr_writev(h->s, v, k); REQUIRE(r == -1, "C23 a write that cannot fit returned %zd", r); refused++;
  }
  void appdata(H *h) {   // application data, of several GiB too
    if (!appd.len) { size_t z = 100; char t[100]; void *g = t; REQUIRE(shr_appdata(h->s, &g, NULL, &z) == -1, "C23 application data from a ring without any"); return; }
    bool set = pbt::chance(1, 2), get = !set || pbt::chance(1, 2); Msg m{next, appd.len}; size_t z = appd.len;
    if (pbt::chance(1, 5)) { z += pbt::chance(1, 2) ? 1 : -1; if (pbt::chance(1, 2)) z = appd.len ^ (1ull << (31 + pbt::draw(3))); } else if (get && !set) z += pbt::draw(5);
    if (z > CAP || z == 0) return;
    bool ok = get && !set ? z >= appd.len : z == appd.len; void *g = out.r.p; size_t z0 = z;
    if (set) { next++; put(m, app.r.p); }
    pbt::log("application data: %s%s with a size of %zu of %zu", get ? "get " : "", set ? "set" : "", z, appd.len);
    int r = shr_appdata(h->s, get ? &g : NULL, set ? app.r.p : NULL, &z);
    REQUIRE(r == (ok ? 0 : -1), "C23 shr_appdata with a size of %zu of %zu returned %d", z0, appd.len, r);
    if (ok) REQUIRE(z == appd.len, "C23 shr_appdata gives a size of %zu of %zu", z, appd.len);
    if (get && ok) compare({appd}, appd.len); else compare({}, 0);
    if (set) { app.clear(); if (ok) appd = m; }
    if (ok && appd.len > (1ull << 31)) bigapp++;
  }
  unsigned bigapp = 0;
  void huge_init() {
    std::string f = path + ".h"; static const size_t big[] = {(size_t)-1, SIZE_MAX / 2, SIZE_MAX / 2 + 1, SIZE_MAX - 4096, 1ull << 63, SIZE_MAX - (1ull << 32)};
    unsigned which = pbt::draw(3); size_t n = which == 1 ? 1 + pbt::draw(1000) : big[pbt::draw(6)] - pbt::draw(100), mm = which == 0 ? 1 + pbt::draw(100) : which == 1 ? SIZE_MAX / (8 + 8 * pbt::draw(5)) + pbt::draw(100) : big[pbt::draw(6)]; size_t al = pbt::chance(1, 3) ? 10 : 0; char app[16] = "abcdefghi";
    if (mm > SIZE_MAX / 8 && which == 1 && 0) return;
    pbt::log("create a ring of %zu bytes and %zu messages", n, mm);
    int r = al ? shr_init(&f[0], n, SHR_APPDATA | SHR_MAXMSGS_2, app, al, mm) : shr_init(&f[0], n, SHR_MAXMSGS_2, mm);
    REQUIRE(r == -1, "C23 a ring of %zu bytes and %zu messages was created: %d", n, mm, r); REQUIRE(access(f.c_str(), F_OK) < 0, "C23 a refused creation left a file"); refused++;
  }
  // A ring file cut short is no ring; one that grew is the same ring (all handles are closed).
  void resized() {
    struct stat s; if (::stat(path.c_str(), &s)) pbt::discard(); size_t need = s.st_size;
    for (unsigned i = 0, k = 1 + pbt::draw(4); i < k; i++) {
      size_t e = pbt::chance(1, 3) ? 1 + pbt::draw(100) : 0, to = 0; bool grow = pbt::chance(1, 3);
      if (grow) to = need + (e ? e : pbt::chance(1, 2) ? edge() : edge() - 4096);
      else if (e) to = need - e;
      else switch (pbt::draw(3)) { case 0: to = need > edge() ? edge() - pbt::draw(2) : 1 + pbt::draw(need - 1); break; case 1: { size_t d = edge() - pbt::draw(4096); to = need > d ? need - d : need / 2; break; } default: to = 1 + pbt::draw(need - 1); }
      if (to > need && !grow) continue;
      bool rd = pbt::chance(1, 2); if (truncate(path.c_str(), to)) pbt::discard();
      pbt::log("the file of %zu bytes now has %zu", need, to); sized++;
      shr *h = shr_open(path.c_str(), (rd ? SHR_RDONLY : SHR_WRONLY) | SHR_NONBLOCK);
      if (h) { struct shr_stat st; if (to >= need) { REQUIRE(shr_stat(h, &st, NULL) == 0 && st.bn == R.n && st.mm == R.mm && st.bw == R.st.bw && st.mw == R.st.mw, "C23 a ring of %zu bytes whose file grew holds something else", R.n); } shr_close(h); }
      if (to < need) REQUIRE(!h, "C23 a ring file of %zu bytes cut to %zu bytes is opened", need, to); else REQUIRE(h, "C23 a ring whose file grew to %zu bytes cannot be opened", to);
      struct stat t; REQUIRE(::stat(path.c_str(), &t) == 0 && (size_t)t.st_size == to, "C23 opening changed the size of a ring file");
      if (to < need) return;
    }
  }
  unsigned sized = 0;
  void run() {
    vsys::sys = this; vsys::copy = sparse_copy; path = std::string(pbt::scratch()) + "/big"; unlink(path.c_str());
    switch (pbt::weighted({4, 2, 2})) { case 0: R.n = near(edge()); break; case 1: R.n = edge() + pbt::draw(G); break; default: R.n = G + pbt::draw(8 * G); }
    R.mm = pbt::chance(1, 4) ? 1 + pbt::draw(3) : 1 + pbt::draw(2000); if (pbt::chance(1, 12)) R.mm = (1 << 28) + pbt::draw(1 << 28);
    R.mode = (model::Mode)pbt::weighted({4, 2, 1}); unsigned fl = SHR_MAXMSGS_2; if (R.mode == model::DROP) fl |= SHR_DROP; if (R.mode == model::FARM) fl |= SHR_FARM;
    if (pbt::chance(1, 25)) R.mm = (1ull << 32) + pbt::draw(1 << 20) - 100;
    if (pbt::chance(1, 4)) { appd = {next++, pbt::chance(3, 4) ? near(edge()) : 1 + (size_t)pbt::draw(5000)}; put(appd, app.r.p); fl |= SHR_APPDATA; }
    int rc = fl & SHR_APPDATA ? shr_init(&path[0], R.n, fl, app.r.p, appd.len, R.mm) : shr_init(&path[0], R.n, fl, R.mm);
    if (appd.len) app.clear();
    pbt::log("create n=%zu mm=%zu mode=%d app=%zu", R.n, R.mm, R.mode, appd.len); REQUIRE(rc == 0, "C23 a ring of %zu bytes cannot be created", R.n);
    H *&w = W, *&r = RD; w = open(false, pbt::chance(1, 6)); r = open(true, false); at = 0;
    for (unsigned i = 0; i < 60; i++) {
      pbt::span(); if (!pbt::chance(30, 31)) break;
      switch (pbt::weighted({10, 8, 2, 1, 1, w->m.buffered ? 2u : 0u, 1, appd.len ? 2u : 0u})) {
        case 0: write(w); break;
        case 1: read(r); break;
        case 2: if (hs.size() < 4) { H *h = open(true, false); if (pbt::chance(1, 2)) r = h; } else { std::vector<H *> v; for (auto &h : hs) if (h->m.rd) v.push_back(h.get()); r = v[pbt::draw(v.size())]; } break;
        case 7: appdata(pbt::chance(1, 2) ? w : r); break;
        case 3: huge(w); break;
        case 4: huge_init(); break;
        case 5: flush(w); break;
        case 6: { H *h = pbt::chance(1, 2) ? w : r; bool isw = h == w, bf = h->m.buffered; model::Flush op{false}; op.close = true; size_t b = R.st.bw; ssize_t x; pbt::log("close, open again"); expect(h, op, x, [&] { shr_close(h->s); return 0; }, &Big::unread); at += R.st.bw - b; for (size_t j = 0; j < hs.size(); j++) if (hs[j].get() == h) { hs.erase(hs.begin() + j); break; } h = open(!isw, bf); (isw ? w : r) = h; break; }
      }
      stat(w);
    }
    { model::Flush op{false}; op.close = true; ssize_t x; pbt::log("close the writer"); H *wr = W; expect(wr, op, x, [&] { shr_close(wr->s); return 0; }, &Big::unread); for (auto &h : hs) if (h.get() != wr) shr_close(h->s); }
    if (pbt::chance(1, 3)) resized();
    unlink(path.c_str()); vsys::sys = nullptr; vsys::copy = nullptr;
    if (bigw >= 1 && bigr >= 1 && straddle) pbt::nontrivial();
    pbt::label("messages stored across 2^31, 2^32 or the end of a multi-GiB ring", straddle); pbt::label("requests refused", refused); pbt::label("writes over 2 GiB", bigw); pbt::label("reads over 2 GiB", bigr); pbt::label("application data over 2 GiB got or set", bigapp); pbt::label("calls that waited", blocked); pbt::label("ring files cut short or grown", sized);
  }
};
// If the code under test copies by other means than memcpy or memmove, memory is
// really used: then one case at a time.
static int serialise() {
  static int ok = -1;
  if (ok < 0) {
    std::string f = std::string(pbt::scratch()) + "/probe"; std::vector<char> b(2 << 20, 'x'); seen_copy = 0; vsys::copy = sparse_copy; unlink(f.c_str());
    if (shr_init(&f[0], 4 << 20, 0) == 0) { shr *s = shr_open(f.c_str(), SHR_WRONLY | SHR_NONBLOCK); if (s) { shr_write(s, b.data(), b.size()); shr_close(s); } unlink(f.c_str()); }
    vsys::copy = nullptr; ok = seen_copy >= (1 << 20);
  }
  if (ok) return -1;
  std::string l = std::string(pbt::scratch()) + "/../big.lock"; int fd = open(l.c_str(), O_CREAT | O_RDWR, 0600); if (fd >= 0) flock(fd, LOCK_EX);
  return fd;
}
static void c23() { int fd = serialise(); { std::unique_ptr<Big> b(new Big); b->run(); } if (fd >= 0) close(fd); }
static std::vector<pbt::Property> props = {
  {"C23", "c23-sparse", c23, 1500, 60000, "rings of 1 to 9 GiB (sizes near 2^31, 2^32, 3*2^31, 2^33 preferred), messages and buffers of every size up to them, reopened handles, and requests whose total overflows, against the reference model; non-trivial: a write and a read of more than 2 GiB succeeded and a message was stored across 2^31, 2^32 or the ring's end", 300, 0},
};
int main(int c, char **v) { return pbt::main(c, v, props); }
