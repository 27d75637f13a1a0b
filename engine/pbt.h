// A small property-based testing engine.
//
// Every random choice of a case is a draw from a recorded tape (pbt::draw).
// A case is a pure function of the code under test and its tape. Cases run in
// forked worker processes; a crash, sanitizer report, explicit failure or hang
// of one case is the failure of that case. Failures are shrunk by editing the
// tape (deleting spans and chunks, reducing values), each candidate being
// re-run in a fresh process. A failure is reported only if the shrunk (or, if
// that is unstable, the original) tape fails three times in a row.
#pragma once
#include <stdint.h>
#include <stddef.h>
#include <string>
#include <vector>

namespace pbt {

struct Property {
  const char *id;          // property id, e.g. "C01"
  const char *name;        // sub-check name; several entries may share one id
  void (*run)();           // one case
  uint64_t quick, thorough;// number of cases
  const char *rule;        // how cases are made, what is non-trivial
  int hang_s;              // wall seconds after which one case counts as hung
  int max_workers;         // 0: all
};

// ---- choices -------------------------------------------------------------
uint64_t draw(uint64_t bound);                 // [0,bound)
int64_t range(int64_t lo, int64_t hi);         // [lo,hi], shrinks towards lo
bool chance(unsigned num, unsigned den);       // true with num/den, shrinks to false
unsigned weighted(std::initializer_list<unsigned> w); // index, shrinks to 0
size_t small(size_t lo, size_t hi);            // [lo,hi], biased to the low end
void span();                                   // start of a deletable unit
template <class T> const T &pick(const std::vector<T> &v) { return v[draw(v.size())]; }

// ---- reporting -----------------------------------------------------------
void log(const char *fmt, ...) __attribute__((format(printf, 1, 2)));
[[noreturn]] void fail(const char *fmt, ...) __attribute__((format(printf, 1, 2)));
[[noreturn]] void discard();                   // case outside the domain
void label(const char *name, uint64_t n = 1);  // distribution counters
void nontrivial();                             // mark the current case
bool thorough();                               // tier
bool replaying();                              // running a saved tape
const char *scratch();                         // per-process scratch dir (exists)

int main(int argc, char **argv, const std::vector<Property> &props);

#define REQUIRE(cond, ...) do { if (!(cond)) pbt::fail(__VA_ARGS__); } while (0)
}
