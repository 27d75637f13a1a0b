// Calls into the library with everything observable about them captured and
// the caller-side contract (buffers, vectors) checked on the spot.
#pragma once
#include "model.h"
#include "pbt.h"
#include "shr.h"
#include <errno.h>
#include <stdlib.h>
#include <limits.h>
#include <string>
#include <vector>

namespace lib {
using model::Batch; using model::Msg;

struct Obs { ssize_t ret = 0; std::string data; std::vector<size_t> lens; };

// One read. cap: how much memory really stands behind the buffer (len may claim more).
inline void rd(shr *s, size_t len, size_t niov, size_t cap, bool bulk, Obs &o) {
  size_t have = std::min(len, cap);
  char *buf = (char *)malloc(have ? have : 1);
  struct iovec *iov = NULL; size_t nv = niov, vcap = std::min<size_t>(niov, 1 << 18);
  memset(buf, 0xA5, have ? have : 1);
  if (bulk) {
    iov = (struct iovec *)malloc(vcap ? vcap * sizeof *iov : 1);
    for (size_t i = 0; i < vcap; i++) { iov[i].iov_base = (void *)0x5a5a5a5aul; iov[i].iov_len = 0x123456789abcul + i; }
    o.ret = shr_readv(s, buf, len, iov, &nv);
  } else o.ret = shr_read(s, buf, len);
  o.lens.clear(); o.data.clear();
  size_t got = o.ret > 0 ? o.ret : 0;
  REQUIRE(got <= have, "C05 read returned %zd into a buffer of %zu", o.ret, have);
  if (bulk) {
    if (o.ret > 0) REQUIRE(nv >= 1 && nv <= niov, "C05 readv returned %zd with a count of %zu (vector of %zu)", o.ret, nv, niov);
    else REQUIRE(nv == 0, "C05 readv returned %zd but set the count to %zu", o.ret, nv);
    size_t off = 0;
    for (size_t i = 0; i < nv; i++) {
      REQUIRE(iov[i].iov_base == buf + off, "C05 vector entry %zu does not start where the previous one ends", i);
      REQUIRE(iov[i].iov_len <= got - off, "C05 vector entry %zu is longer than the data", i);
      off += iov[i].iov_len; o.lens.push_back(iov[i].iov_len);
    }
    REQUIRE(off == got, "C05 vector entries cover %zu bytes of %zu", off, got);
    for (size_t i = nv; i < vcap; i++)
      REQUIRE(iov[i].iov_base == (void *)0x5a5a5a5aul && iov[i].iov_len == 0x123456789abcul + i, "C05 unused vector entry %zu was modified", i);
  } else if (o.ret > 0) o.lens.push_back(got);
  for (size_t i = got; i < have; i++) REQUIRE((unsigned char)buf[i] == 0xA5, "C05 byte %zu of the buffer, beyond the %zu returned, was modified", i, got);
  o.data.assign(buf, got);
  free(buf); free(iov);
}

inline bool matches(const Obs &o, const Batch &got) {
  if (o.lens.size() != got.size()) return false;
  size_t off = 0;
  for (size_t i = 0; i < got.size(); i++) {
    if (o.lens[i] != got[i].len || !model::same(got[i].id, o.data.data() + off, got[i].len)) return false;
    off += got[i].len;
  }
  return true;
}
inline std::string show(const Batch &b) {
  std::string s = "["; char t[48]; size_t k = 0;
  for (auto &m : b) { if (k++ == 12) { s += " .."; break; } snprintf(t, sizeof t, "%s#%u:%zu", k > 1 ? " " : "", m.id, m.len); s += t; }
  return s + "]";
}
inline std::string show(const Obs &o) {
  char t[48]; snprintf(t, sizeof t, "%zd (lengths", o.ret); std::string s = t; size_t k = 0;
  for (size_t l : o.lens) { if (k++ == 12) { s += " .."; break; } snprintf(t, sizeof t, " %zu", l); s += t; }
  return s + ")";
}

// One write. The caller's memory is exactly sized, and scribbled over afterwards.
inline ssize_t wr(shr *s, const Batch &b, bool vec) {
  std::vector<char *> mem; struct iovec *iov = (struct iovec *)malloc(b.empty() ? 1 : b.size() * sizeof *iov);
  for (size_t i = 0; i < b.size(); i++) {
    char *p = (char *)malloc(b[i].len ? b[i].len : 1);
    model::fill(b[i].id, p, b[i].len); mem.push_back(p);
    iov[i].iov_base = p; iov[i].iov_len = b[i].len;
  }
  ssize_t r = vec || b.size() != 1 ? shr_writev(s, b.empty() ? NULL : iov, b.size()) : shr_write(s, mem[0], b[0].len);
  for (size_t i = 0; i < b.size(); i++) {
    REQUIRE(iov[i].iov_base == mem[i] && iov[i].iov_len == b[i].len, "a write modified the caller's vector");
    REQUIRE(model::same(b[i].id, mem[i], b[i].len), "a write modified the caller's data");
    memset(mem[i], 0xEE, b[i].len); free(mem[i]);
  }
  memset(iov, 0xEE, b.size() * sizeof *iov); free(iov);
  return r;
}
}
