// Reference model of a ring and of the handles on it: what the documentation
// and the listed properties say, with none of the implementation's structure.
#pragma once
#include <stdint.h>
#include <stddef.h>
#include <string.h>
#include <sys/types.h>
#include <algorithm>
#include <deque>
#include <string>
#include <vector>

namespace model {

struct Msg { uint32_t id; size_t len; bool operator==(const Msg &o) const { return id == o.id && len == o.len; } };
typedef std::vector<Msg> Batch;

// Content of a message: a pseudo-random function of its id.
inline uint64_t word(uint32_t id, uint64_t k) {
  uint64_t z = (uint64_t)id * 0x9E3779B97F4A7C15ull + k * 0xD1B54A32D192ED03ull + 0x632BE59BD9B4E019ull;
  z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9ull; z = (z ^ (z >> 27)) * 0x94d049bb133111ebull;
  return z ^ (z >> 31);
}
inline void fill(uint32_t id, char *p, size_t len) {
  size_t k = 0;
  for (; (k + 1) * 8 <= len; k++) { uint64_t w = word(id, k); memcpy(p + k * 8, &w, 8); }
  if (k * 8 < len) { uint64_t w = word(id, k); memcpy(p + k * 8, &w, len - k * 8); }
}
inline bool same(uint32_t id, const char *p, size_t len) {
  size_t k = 0;
  for (; (k + 1) * 8 <= len; k++) { uint64_t w = word(id, k); if (memcmp(p + k * 8, &w, 8)) return false; }
  if (k * 8 < len) { uint64_t w = word(id, k); return !memcmp(p + k * 8, &w, len - k * 8); }
  return true;
}

struct Counters {
  size_t bw = 0, br = 0, mw = 0, mr = 0, md = 0, bd = 0; long sec = 0, usec = 0;
  bool operator==(const Counters &o) const { return bw == o.bw && br == o.br && mw == o.mw && mr == o.mr && md == o.md && bd == o.bd && sec == o.sec && usec == o.usec; }
};

enum Mode { PLAIN, DROP, FARM };

struct Ring {
  size_t n = 0, mm = 0; Mode mode = PLAIN; unsigned flags = 0;
  std::deque<Msg> q;           // unread messages (farm: messages present)
  uint64_t base = 0;           // sequence number of q.front()
  size_t bytes = 0;            // sum of their lengths
  Counters st;
  std::string app;             // empty: none
  uint64_t writes = 0;         // number of stored batches, for wakeup bookkeeping

  static size_t total(const Batch &b) { size_t t = 0; for (auto &m : b) t += m.len; return t; }
  // can the batch ever be stored?
  bool storable(const Batch &b) const {
    if (b.empty() || b.size() > mm) return false;
    size_t t = 0;
    for (auto &m : b) { if (m.len == 0 || m.len > n - t) return false; t += m.len; }
    return true;
  }
  bool room(size_t len, size_t k) const { return n - bytes >= len && mm - q.size() >= k; }
  void pop() { bytes -= q.front().len; q.pop_front(); base++; }
  // store a storable batch; in plain mode there must be room
  void store(const Batch &b) {
    size_t t = total(b);
    if (mode != PLAIN) while (!room(t, b.size())) { st.md++; st.bd += q.front().len; pop(); }
    for (auto &m : b) q.push_back(m);
    bytes += t; st.bw += t; st.mw += b.size(); writes++;
  }
};

struct Handle {
  bool open = false, rd = false, nonblock = false, buffered = false;
  uint64_t pos = 0; size_t missed = 0;   // farm reader
  Batch cache; size_t cb = 0, cn = 0, cmax = 0;
};

inline void opened(const Ring &r, Handle &h) { h.open = true; h.pos = r.base; h.missed = 0; h.cache.clear(); h.cb = 0; }

enum Step { BLOCKED, DONE };

// ---- read
struct Read { size_t len, niov; ssize_t ret = 0; Batch got = Batch(); static bool is_close() { return false; } };
inline size_t avail(const Ring &r, const Handle &h) {
  if (r.mode != FARM) return r.q.size();
  uint64_t p = std::max(h.pos, r.base);
  return r.base + r.q.size() - p;
}
inline Step step(Ring &r, Handle &h, Read &o) {
  o.got.clear();
  if (o.len == 0 || o.niov == 0) { o.ret = -1; return DONE; }
  bool farm = r.mode == FARM;
  if (farm && h.pos < r.base) { h.missed += r.base - h.pos; h.pos = r.base; }
  size_t a = avail(r, h), off = farm ? h.pos - r.base : 0, left = o.len; ssize_t sum = 0;
  if (a == 0) { if (!h.nonblock) return BLOCKED; o.ret = 0; return DONE; }
  while (o.got.size() < a && o.got.size() < o.niov && r.q[off + o.got.size()].len <= left) {
    Msg m = r.q[off + o.got.size()]; o.got.push_back(m); left -= m.len; sum += m.len;
  }
  if (o.got.empty()) { o.ret = -2; return DONE; }
  if (farm) h.pos += o.got.size(); else for (size_t i = 0; i < o.got.size(); i++) r.pop();
  r.st.br += sum; r.st.mr += o.got.size(); o.ret = sum;
  return DONE;
}

// ---- write, flush and close. A write through a buffer may take two steps.
struct Write { Batch b; ssize_t ret = 0; static bool is_close() { return false; } };
inline Step put(Ring &r, const Handle &h, const Batch &b, bool nonblock, ssize_t &ret) {
  (void)h;
  if (r.mode == PLAIN && !r.room(Ring::total(b), b.size())) { if (!nonblock) return BLOCKED; ret = 0; return DONE; }
  r.store(b); ret = Ring::total(b); return DONE;
}
inline Step step(Ring &r, Handle &h, Write &o) {
  if (!r.storable(o.b)) { o.ret = -1; return DONE; }
  size_t t = Ring::total(o.b);
  if (h.buffered) {
    for (;;) {
      if (t <= h.cn - h.cb && o.b.size() <= h.cmax - h.cache.size()) {
        for (auto &m : o.b) h.cache.push_back(m);
        h.cb += t; o.ret = t; return DONE;
      }
      if (h.cache.empty()) break;
      ssize_t fr; if (put(r, h, h.cache, h.nonblock, fr) == BLOCKED) return BLOCKED;
      if (fr <= 0) { o.ret = fr; return DONE; }
      h.cache.clear(); h.cb = 0;
    }
  }
  return put(r, h, o.b, h.nonblock, o.ret);
}
struct Flush { bool wait; bool close = false; ssize_t ret = 0; bool is_close() const { return close; } };
inline Step step(Ring &r, Handle &h, Flush &o) {
  if (!h.cache.empty()) {
    if (put(r, h, h.cache, h.nonblock && !o.wait, o.ret) == BLOCKED) return BLOCKED;
    if (o.ret > 0) { h.cache.clear(); h.cb = 0; }
  } else o.ret = 0;
  if (o.close) h.open = false;
  return DONE;
}
}
