#include "pbt.h"
#include <errno.h>
#include <fcntl.h>
#include <dirent.h>
#include <signal.h>
#include <stdarg.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/mman.h>
#include <sys/prctl.h>
#include <sys/stat.h>
#include <sys/wait.h>
#include <time.h>
#include <unistd.h>
#include <algorithm>
#include <map>
#include <set>

extern "C" __attribute__((weak, used)) const char *__asan_default_options() {
  return "detect_leaks=0:abort_on_error=0:exitcode=78:allocator_may_return_null=1:"
         "detect_stack_use_after_return=0:handle_abort=0:max_malloc_fill_size=0";
}

namespace pbt {

enum { MAXTAPE = 1 << 16, MAXSPAN = 1 << 13, TRACE = 1 << 16, MAXL = 96, NSAMP = 3, SAMPLEN = 3000 };

struct Shm {
  volatile uint64_t cur, started, finished;  // current case; counters
  volatile uint64_t heartbeat;
  uint64_t nontriv, discarded;
  struct { char name[48]; uint64_t n; } labels[MAXL];
  uint32_t nlabels;
  volatile uint32_t tape_len, nspans;
  uint64_t tape[MAXTAPE];
  uint32_t spans[MAXSPAN];
  char msg[4096];
  volatile uint32_t trace_len;
  char trace[TRACE];
  uint32_t nsamples;
  char samples[NSAMP][SAMPLEN];
  volatile uint64_t nhash;
  uint64_t maxhash;
  uint64_t hashes[1];  // maxhash entries follow
};

static Shm *S;                    // slot of this process
static bool g_thorough, g_replaying, g_verbose;
static const std::vector<uint64_t> *g_in;  // replayed tape or null
static uint64_t g_rng[2];
static bool g_nontriv;
static std::string g_scratch;

static uint64_t splitmix(uint64_t &x) {
  uint64_t z = (x += 0x9e3779b97f4a7c15ull);
  z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9ull;
  z = (z ^ (z >> 27)) * 0x94d049bb133111ebull;
  return z ^ (z >> 31);
}
static uint64_t rnd() {
  uint64_t s1 = g_rng[0], s0 = g_rng[1], r = s0 + s1;
  g_rng[0] = s0; s1 ^= s1 << 23;
  g_rng[1] = s1 ^ s0 ^ (s1 >> 18) ^ (s0 >> 5);
  return r;
}

uint64_t draw(uint64_t bound) {
  uint64_t v;
  if (bound < 1) bound = 1;
  uint32_t pos = S->tape_len;
  if (g_in) v = pos < g_in->size() ? std::min((*g_in)[pos], bound - 1) : 0;
  else v = rnd() % bound;
  if (pos < MAXTAPE) { S->tape[pos] = v; S->tape_len = pos + 1; }
  else v = 0;                     // tape full: only simplest choices from here
  return v;
}
int64_t range(int64_t lo, int64_t hi) { return lo + (int64_t)draw((uint64_t)(hi - lo) + 1); }
bool chance(unsigned num, unsigned den) { return draw(den) >= den - num; }
unsigned weighted(std::initializer_list<unsigned> w) {
  uint64_t t = 0; for (unsigned x : w) t += x;
  uint64_t v = draw(t); unsigned i = 0;
  for (unsigned x : w) { if (v < x) return i; v -= x; i++; }
  return 0;
}
size_t small(size_t lo, size_t hi) {
  if (hi <= lo) return lo;
  // pick a magnitude first, so that low values dominate but all are reachable
  size_t span = hi - lo; unsigned bits = 0;
  while ((span >> bits) > 1) bits++;
  size_t cap = std::min(span, ((size_t)2 << draw(bits + 1)) - 1);
  return lo + draw(cap + 1);
}
void span() { if (S->nspans < MAXSPAN) { S->spans[S->nspans] = S->tape_len; S->nspans = S->nspans + 1; } }

void log(const char *fmt, ...) {
  va_list ap; va_start(ap, fmt);
  uint32_t l = S->trace_len;
  if (l < TRACE - 400) {
    int n = vsnprintf(S->trace + l, TRACE - l - 2, fmt, ap);
    if (n > 0) { l += std::min<uint32_t>(n, TRACE - l - 3); S->trace[l++] = '\n'; S->trace[l] = 0; S->trace_len = l; }
  }
  va_end(ap);
}
void label(const char *name, uint64_t n) {
  for (uint32_t i = 0; i < S->nlabels; i++)
    if (!strcmp(S->labels[i].name, name)) { S->labels[i].n += n; return; }
  if (S->nlabels == MAXL) return;
  snprintf(S->labels[S->nlabels].name, 48, "%s", name);
  S->labels[S->nlabels++].n = n;
}
void nontrivial() { g_nontriv = true; }
bool thorough() { return g_thorough; }
bool replaying() { return g_replaying; }

static void rmtree(const std::string &d) {
  DIR *dir = opendir(d.c_str());
  if (!dir) return;
  while (struct dirent *e = readdir(dir)) {
    if (!strcmp(e->d_name, ".") || !strcmp(e->d_name, "..")) continue;
    std::string p = d + "/" + e->d_name;
    struct stat st;
    if (lstat(p.c_str(), &st) == 0 && S_ISDIR(st.st_mode)) rmtree(p);
    else unlink(p.c_str());
  }
  closedir(dir);
  rmdir(d.c_str());
}
static std::string g_root;   // scratch root of the whole run
const char *scratch() { return g_scratch.c_str(); }

void fail(const char *fmt, ...) {
  va_list ap; va_start(ap, fmt);
  vsnprintf(S->msg, sizeof(S->msg), fmt, ap);
  va_end(ap);
  fflush(NULL);
  _exit(77);
}
// the property function must return after discard(); it is implemented by _exit-free unwinding
struct Discard {};
void discard() { throw Discard(); }

static uint64_t fnv(const char *p, size_t n) {
  uint64_t h = 1469598103934665603ull;
  while (n--) { h ^= (unsigned char)*p++; h *= 1099511628211ull; }
  return h;
}

static void begin_case() { S->tape_len = 0; S->nspans = 0; S->trace_len = 0; S->trace[0] = 0; S->msg[0] = 0; g_nontriv = false; }

static void one_case(const Property &p) {
  begin_case();
  bool disc = false;
  try { p.run(); } catch (Discard &) { disc = true; }
  if (disc) { S->discarded++; return; }
  if (g_nontriv) {
    S->nontriv++;
    if (S->nhash < S->maxhash) { S->hashes[S->nhash] = fnv(S->trace, S->trace_len) ^ fnv(p.name, strlen(p.name)); S->nhash = S->nhash + 1; }
    if (S->nsamples < NSAMP && S->trace_len > 0) {
      snprintf(S->samples[S->nsamples++], SAMPLEN, "%s", S->trace);
    }
  }
}

static Shm *mkshm(uint64_t maxhash) {
  size_t sz = sizeof(Shm) + maxhash * 8;
  Shm *s = (Shm *)mmap(0, sz, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
  if (s == MAP_FAILED) { perror("mmap"); exit(2); }
  s->maxhash = maxhash;
  return s;
}

static void setup_child(const char *tag) {
  prctl(PR_SET_PDEATHSIG, SIGKILL);
  char t[64]; snprintf(t, sizeof t, "/%s-%d", tag, getpid());
  g_scratch = g_root + t;
  mkdir(g_scratch.c_str(), 0755);
  if (!g_verbose) {
    int fd = open("/dev/null", O_WRONLY);
    dup2(fd, 2); close(fd);
  }
}

static double now() { struct timespec ts; clock_gettime(CLOCK_MONOTONIC, &ts); return ts.tv_sec + ts.tv_nsec / 1e9; }

static std::string describe(int st, bool hung) {
  char b[128];
  if (hung) return "HANG: the case did not finish";
  if (WIFSIGNALED(st)) snprintf(b, sizeof b, "CRASH: killed by signal %d (%s)", WTERMSIG(st), strsignal(WTERMSIG(st)));
  else if (WEXITSTATUS(st) == 78) snprintf(b, sizeof b, "CRASH: AddressSanitizer report");
  else snprintf(b, sizeof b, "unexpected exit %d", WEXITSTATUS(st));
  return b;
}

// Kill every process of a worker's group (real-process harnesses have children).
static void reap_group(pid_t p) { kill(-p, SIGKILL); }

static Shm *T;  // slot used for shrinking / replaying
struct Verdict { bool failed; std::string msg; std::vector<uint64_t> tape; std::vector<uint32_t> spans; std::string trace; };

static Verdict try_tape(const Property &p, const std::vector<uint64_t> &tape) {
  T->tape_len = 0; T->msg[0] = 0; T->trace_len = 0; T->trace[0] = 0; T->nspans = 0;
  pid_t c = fork();
  if (c == 0) {
    setpgid(0, 0);
    S = T; g_in = &tape; g_replaying = true;
    setup_child("t");
    one_case(p);
    _exit(0);
  }
  setpgid(c, c);
  double t0 = now(); int st = 0; bool hung = false;
  for (;;) {
    pid_t r = waitpid(c, &st, WNOHANG);
    if (r == c) break;
    if (now() - t0 > p.hang_s) { hung = true; kill(-c, SIGKILL); kill(c, SIGKILL); waitpid(c, &st, 0); break; }
    usleep(now() - t0 < 0.05 ? 300 : 5000);
  }
  reap_group(c);
  char t[64]; snprintf(t, sizeof t, "/t-%d", c);
  rmtree(g_root + t);
  Verdict v;
  v.failed = hung || !(WIFEXITED(st) && WEXITSTATUS(st) == 0);
  if (WIFSIGNALED(st) && WTERMSIG(st) == SIGKILL && !hung) v.failed = false;  // ended from outside
  if (v.failed) v.msg = T->msg[0] && WIFEXITED(st) && WEXITSTATUS(st) == 77 ? T->msg : describe(st, hung);
  v.tape.assign(T->tape, T->tape + T->tape_len);
  v.spans.assign(T->spans, T->spans + T->nspans);
  v.trace.assign(T->trace, T->trace_len);
  return v;
}

static Verdict shrink(const Property &p, Verdict best, double budget) {
  double t0 = now();
  auto over = [&] { return now() - t0 > budget; };
  auto attempt = [&](const std::vector<uint64_t> &t) {
    if (over()) return false;
    Verdict v = try_tape(p, t);
    if (!v.failed) return false;
    // strictly simpler (shorter, or lexicographically smaller)
    if (v.tape.size() > best.tape.size() || (v.tape.size() == best.tape.size() && !(v.tape < best.tape))) return false;
    best = v; return true;
  };
  bool progress = true;
  while (progress && !over()) {
    progress = false;
    // delete runs of spans
    for (size_t k = std::max<size_t>(1, best.spans.size() / 2); k >= 1 && !over(); k /= 2) {
      for (size_t i = 0; i < best.spans.size() && !over();) {
        size_t a = best.spans[i], b = i + k < best.spans.size() ? best.spans[i + k] : best.tape.size();
        if (a >= best.tape.size() || b <= a) { i++; continue; }
        std::vector<uint64_t> t(best.tape.begin(), best.tape.begin() + a);
        t.insert(t.end(), best.tape.begin() + b, best.tape.end());
        if (attempt(t)) progress = true; else i++;
      }
      if (k == 1) break;
    }
    // truncate the tail
    for (size_t len = best.tape.size() / 2; len >= 1 && !over(); len /= 2) {
      if (best.tape.size() <= len) continue;
      std::vector<uint64_t> t(best.tape.begin(), best.tape.end() - len);
      if (attempt(t)) progress = true;
    }
    // delete small chunks
    for (size_t k : {8, 4, 2, 1})
      for (size_t i = 0; i + k <= best.tape.size() && !over();) {
        std::vector<uint64_t> t(best.tape.begin(), best.tape.begin() + i);
        t.insert(t.end(), best.tape.begin() + i + k, best.tape.end());
        if (attempt(t)) progress = true; else i += k;
      }
    // lower values
    for (size_t i = 0; i < best.tape.size() && !over(); i++) {
      if (!best.tape[i]) continue;
      std::vector<uint64_t> t = best.tape; t[i] = 0;
      if (attempt(t)) { progress = true; continue; }
      uint64_t lo = 0, hi = i < best.tape.size() ? best.tape[i] : 0;
      while (hi - lo > 1 && !over()) {
        uint64_t mid = lo + (hi - lo) / 2;
        t = best.tape; if (i >= t.size()) break; t[i] = mid;
        if (attempt(t)) { hi = mid; progress = true; } else lo = mid;
      }
    }
  }
  return best;
}

static std::string json_str(const std::string &s) {
  std::string o = "\"";
  for (unsigned char c : s) {
    if (c == '"' || c == '\\') { o += '\\'; o += c; }
    else if (c == '\n') o += "\\n";
    else if (c < 0x20 || c > 0x7e) { char b[8]; snprintf(b, 8, "\\u%04x", c); o += b; }
    else o += c;
  }
  return o + "\"";
}

static std::vector<uint64_t> load_replay(const char *file, std::string &name) {
  FILE *f = fopen(file, "r"); std::vector<uint64_t> t; char line[1 << 16];
  if (!f) { perror(file); exit(2); }
  while (fgets(line, sizeof line, f)) {
    if (!strncmp(line, "check ", 6)) { name = line + 6; while (!name.empty() && name.back() == '\n') name.pop_back(); }
    if (!strncmp(line, "tape", 4)) { char *p = line + 4; for (;;) { char *e; uint64_t v = strtoull(p, &e, 10); if (e == p) break; t.push_back(v); p = e; } }
  }
  fclose(f); return t;
}

int main(int argc, char **argv, const std::vector<Property> &props) {
  std::string prop, out, replay, replaydir = "/tmp"; uint64_t seed = 1; int workers = 8; double scale = 1; uint64_t fixed = 0;
  std::string only, harness = "?"; double budget_s = 0;
  for (int i = 1; i < argc; i++) {
    std::string a = argv[i]; auto nx = [&] { return std::string(i + 1 < argc ? argv[++i] : ""); };
    if (a == "--prop") prop = nx();
    else if (a == "--name") only = nx();
    else if (a == "--seed") seed = strtoull(nx().c_str(), 0, 10);
    else if (a == "--tier") g_thorough = nx() == "thorough";
    else if (a == "--workers") workers = atoi(nx().c_str());
    else if (a == "--scale") scale = atof(nx().c_str());
    else if (a == "--cases") fixed = strtoull(nx().c_str(), 0, 10);
    else if (a == "--out") out = nx();
    else if (a == "--replay") replay = nx();
    else if (a == "--replaydir") replaydir = nx();
    else if (a == "--harness") harness = nx();
    else if (a == "--budget") budget_s = atof(nx().c_str());
    else if (a == "--verbose") g_verbose = true;
    else { fprintf(stderr, "unknown option %s\n", a.c_str()); return 2; }
  }
  double t_start = now();
  { // scratch root: memory-backed if possible
    const char *bases[] = {getenv("VERIF_SCRATCH"), "/dev/shm", "/tmp"};
    for (const char *b : bases) {
      if (!b || !*b) continue;
      std::string t = std::string(b) + "/verif-pbt.XXXXXX";
      if (mkdtemp(&t[0])) { g_root = t; chmod(g_root.c_str(), 0755); break; }
    }
    if (g_root.empty()) { fprintf(stderr, "no scratch directory\n"); return 2; }
  }
  struct Cleanup { pid_t me = getpid(); ~Cleanup() { if (getpid() == me) rmtree(g_root); } } cleanup;
  signal(SIGPIPE, SIG_IGN);
  T = mkshm(0);
  if (!replay.empty()) {
    std::string name; std::vector<uint64_t> t = load_replay(replay.c_str(), name);
    for (auto &p : props) if (name == p.name) {
      g_verbose = true;
      Verdict v = try_tape(p, t);
      printf("%s", v.trace.c_str());
      if (v.failed) { printf("FAIL: %s\n", v.msg.c_str()); printf("VIOLATION property=%s replay=%s\n", p.id, replay.c_str()); return 1; }
      printf("replay passes\n"); return 0;
    }
    fprintf(stderr, "no check named %s here\n", name.c_str()); return 2;
  }
  uint64_t evals = 0, nontriv = 0, discarded = 0; std::map<std::string, uint64_t> labels; std::set<uint64_t> distinct;
  std::vector<std::string> samples; std::string rules; int violations = 0, known = 0; uint64_t unstable = 0;
  std::string perjson;
  bool any = false;
  for (auto &p : props) {
    if (prop != p.id) continue;
    if (!only.empty() && only != p.name) continue;
    any = true;
    uint64_t ncases = fixed ? fixed : (uint64_t)((g_thorough ? p.thorough : p.quick) * scale);
    if (ncases < 1) ncases = 1;
    int W = p.max_workers ? std::min(workers, p.max_workers) : workers;
    W = (int)std::min<uint64_t>(W, ncases);
    std::vector<Shm *> sh(W); std::vector<pid_t> pid(W, 0); std::vector<double> hb(W); std::vector<uint64_t> last(W, ~0ull), resume(W);
    std::vector<int> restarts(W, 0);
    for (int w = 0; w < W; w++) { sh[w] = mkshm(ncases / W + 2); resume[w] = w; }
    auto spawn = [&](int w) {
      pid_t c = fork();
      if (c == 0) {
        setpgid(0, 0);
        S = sh[w]; g_in = 0; setup_child("w");
        for (uint64_t i = resume[w]; i < ncases; i += W) {
          uint64_t x = seed * 0x9E3779B97F4A7C15ull + i * 0xD1B54A32D192ED03ull + fnv(p.name, strlen(p.name));
          g_rng[0] = splitmix(x); g_rng[1] = splitmix(x);
          S->cur = i; S->started = S->started + 1; S->heartbeat = S->heartbeat + 1;
          one_case(p);
          S->finished = S->finished + 1;
        }
        _exit(0);
      }
      setpgid(c, c);
      pid[w] = c; hb[w] = now(); last[w] = ~0ull;
    };
    for (int w = 0; w < W; w++) spawn(w);
    int alive = W; bool found = false; double budget = budget_s ? budget_s : g_thorough ? 3000 : 700; bool cut = false;
    while (alive > 0 && !found) {
      bool act = false;
      for (int w = 0; w < W && !found; w++) {
        if (!pid[w]) continue;
        int st; pid_t r = waitpid(pid[w], &st, WNOHANG); bool hung = false;
        if (sh[w]->heartbeat != last[w]) { last[w] = sh[w]->heartbeat; hb[w] = now(); }
        if (r == 0 && now() - hb[w] > p.hang_s) { hung = true; kill(-pid[w], SIGKILL); waitpid(pid[w], &st, 0); r = pid[w]; }
        if (r == 0) continue;
        act = true; reap_group(pid[w]);
        char t[64]; snprintf(t, sizeof t, "/w-%d", pid[w]); rmtree(g_root + t);
        pid[w] = 0;
        if (!hung && WIFEXITED(st) && WEXITSTATUS(st) == 0) { alive--; continue; }
        bool outside = WIFSIGNALED(st) && WTERMSIG(st) == SIGKILL && !hung;
        Verdict v; v.failed = true; v.tape.assign(sh[w]->tape, sh[w]->tape + sh[w]->tape_len);
        v.spans.assign(sh[w]->spans, sh[w]->spans + sh[w]->nspans); v.trace.assign(sh[w]->trace, sh[w]->trace_len);
        v.msg = !hung && WIFEXITED(st) && WEXITSTATUS(st) == 77 ? sh[w]->msg : describe(st, hung);
        bool real = !outside;
        Verdict orig = v;
        if (real) for (int k = 0; k < 3 && real; k++) { Verdict x = try_tape(p, v.tape); real = x.failed; if (real) v = x; }
        if (!real) { // not reproducible: not reported
          unstable++;
          fprintf(stderr, "%s: case %llu did not reproduce: %s\n", p.name, (unsigned long long)sh[w]->cur, orig.msg.c_str());
          if (getenv("VERIF_DEBUG")) { fprintf(stderr, "%s", orig.trace.c_str()); }
          if (++restarts[w] > 20) { alive--; continue; }
          resume[w] = sh[w]->cur + W; if (resume[w] >= ncases) { alive--; continue; }
          spawn(w); continue;
        }
        found = true;
        for (int q = 0; q < W; q++) if (pid[q]) { kill(-pid[q], SIGKILL); kill(pid[q], SIGKILL); int s2; waitpid(pid[q], &s2, 0); char t2[64]; snprintf(t2, sizeof t2, "/w-%d", pid[q]); rmtree(g_root + t2); pid[q] = 0; }
        Verdict best = shrink(p, v, v.msg.rfind("HANG", 0) == 0 || getenv("VERIF_NOSHRINK") ? 0 : (g_thorough ? 90 : 20));
        for (int k = 0; k < 3; k++) { Verdict x = try_tape(p, best.tape); if (!x.failed) { best = v; break; } best.msg = x.msg; best.trace = x.trace; }
        char name[64]; snprintf(name, sizeof name, "/%s-%016llx.replay", p.id, (unsigned long long)fnv((char *)best.tape.data(), best.tape.size() * 8) ^ (unsigned long long)fnv(p.name, strlen(p.name)));
        std::string rp = replaydir + name; FILE *f = fopen(rp.c_str(), "w");
        if (f) {
          fprintf(f, "property %s\nharness %s\ncheck %s\ntape", p.id, harness.c_str(), p.name);
          for (uint64_t x : best.tape) fprintf(f, " %llu", (unsigned long long)x);
          fprintf(f, "\n# found with seed %llu, case %llu; shrunk from %zu to %zu choices\n# the case:\n", (unsigned long long)seed, (unsigned long long)sh[w]->cur, v.tape.size(), best.tape.size());
          size_t a = 0; while (a < best.trace.size()) { size_t b = best.trace.find('\n', a); if (b == std::string::npos) b = best.trace.size(); fprintf(f, "#   %.*s\n", (int)(b - a), best.trace.c_str() + a); a = b + 1; }
          fprintf(f, "# fails with: %s\n", best.msg.c_str()); fclose(f);
        }
        printf("%s: %s\n%s", p.name, best.msg.c_str(), best.trace.c_str());
        printf("VIOLATION property=%s replay=%s\n", p.id, rp.c_str()); fflush(stdout);
        violations++;
      }
      if (now() - t_start > budget && !found) { // stop exploring; what ran so far held
        cut = true;
        for (int q = 0; q < W; q++) if (pid[q]) { kill(-pid[q], SIGKILL); int s2; waitpid(pid[q], &s2, 0); char t2[64]; snprintf(t2, sizeof t2, "/w-%d", pid[q]); rmtree(g_root + t2); pid[q] = 0; }
        break;
      }
      if (!act) usleep(3000);
    }
    uint64_t ev = 0, nt = 0, di = 0;
    for (int w = 0; w < W; w++) {
      Shm *s = sh[w]; ev += s->finished - s->discarded; nt += s->nontriv; di += s->discarded;
      for (uint32_t i = 0; i < s->nlabels; i++) labels[s->labels[i].name] += s->labels[i].n;
      for (uint64_t i = 0; i < s->nhash; i++) distinct.insert(s->hashes[i]);
      if (samples.size() < 4) for (uint32_t i = 0; i < s->nsamples && i < 2 && samples.size() < 4; i++) samples.push_back(std::string(p.name) + ": " + s->samples[i]);
      munmap(s, sizeof(Shm) + s->maxhash * 8);
    }
    evals += ev; nontriv += nt; discarded += di;
    char b[400]; snprintf(b, sizeof b, "%s{\"check\":%s,\"cases\":%llu,\"nontrivial\":%llu,\"discarded\":%llu,\"cut_short\":%s}", perjson.empty() ? "" : ",", json_str(p.name).c_str(), (unsigned long long)ev, (unsigned long long)nt, (unsigned long long)di, cut ? "true" : "false");
    perjson += b; rules += std::string(rules.empty() ? "" : " | ") + p.name + ": " + p.rule;
    printf("%s %s: %llu cases, %llu non-trivial, %.1f s%s\n", p.id, p.name, (unsigned long long)ev, (unsigned long long)nt, now() - t_start, cut ? " (cut short)" : "");
    fflush(stdout);
    if (violations) break;
  }
  (void)known;
  if (!any) { fprintf(stderr, "no check for %s\n", prop.c_str()); return 2; }
  if (!out.empty()) {
    FILE *f = fopen(out.c_str(), "w");
    if (!f) { perror(out.c_str()); return 2; }
    fprintf(f, "{\"evaluations\":%llu,\"distinct_nontrivial\":%zu,\"discarded\":%llu,\"unreproduced\":%llu,\"rule\":%s,\"per_check\":[%s],\"labels\":{",
            (unsigned long long)evals, distinct.size(), (unsigned long long)discarded, (unsigned long long)unstable, json_str(rules).c_str(), perjson.c_str());
    bool first = true; for (auto &l : labels) { fprintf(f, "%s%s:%llu", first ? "" : ",", json_str(l.first).c_str(), (unsigned long long)l.second); first = false; }
    fprintf(f, "},\"samples\":["); first = true;
    for (auto &s : samples) { fprintf(f, "%s%s", first ? "" : ",", json_str(s).c_str()); first = false; }
    fprintf(f, "],\"violations\":%d}\n", violations); fclose(f);
  }
  return violations ? 1 : 0;
}
}  // namespace pbt
