/* Stand-ins for the calls with which `shr-tool mount` looks at and changes
 * mounts. They keep a table of pretended mounts in $VMNT/table and a log of
 * calls in $VMNT/log; nothing outside the scratch directory is touched.
 * A pretended mount moves the covered directory aside and puts an empty one
 * in its place. */
#define _GNU_SOURCE
#include <stdio.h>
#include <stdlib.h>
#include <stdarg.h>
#include <string.h>
#include <errno.h>
#include <fcntl.h>
#include <unistd.h>
#include <limits.h>
#include <sys/stat.h>
#include <sys/vfs.h>
#include <sys/statvfs.h>
#include <sys/sysmacros.h>
#include <dirent.h>

#define N 64
static struct ent { char path[PATH_MAX]; char type[32]; int id; long bs, bl, bf; } *T;
static int nT, nextid;

static const char *base(void) { const char *v = getenv("VMNT"); if (!v) { fprintf(stderr, "VMNT unset\n"); _exit(99); } return v; }

static void load(void) {
  char f[PATH_MAX], ln[PATH_MAX + 200];
  if (!T) T = calloc(N, sizeof(*T));
  nT = 0; nextid = 1;
  snprintf(f, sizeof f, "%s/table", base());
  FILE *h = fopen(f, "r");
  if (!h) return;
  while (nT < N && fgets(ln, sizeof ln, h)) {
    struct ent *e = &T[nT];
    ln[strcspn(ln, "\n")] = 0;
    int off = 0;
    if (sscanf(ln, "%d %31s %ld %ld %ld %n", &e->id, e->type, &e->bs, &e->bl, &e->bf, &off) < 5) continue;
    snprintf(e->path, sizeof e->path, "%s", ln + off);
    if (e->id >= nextid) nextid = e->id + 1;
    nT++;
  }
  fclose(h);
}

static void save(void) {
  char f[PATH_MAX];
  snprintf(f, sizeof f, "%s/table", base());
  FILE *h = fopen(f, "w");
  for (int i = 0; i < nT; i++) fprintf(h, "%d %s %ld %ld %ld %s\n", T[i].id, T[i].type, T[i].bs, T[i].bl, T[i].bf, T[i].path);
  fclose(h);
}

static void note(const char *fmt, ...) {
  char f[PATH_MAX];
  va_list ap;
  snprintf(f, sizeof f, "%s/log", base());
  FILE *h = fopen(f, "a");
  va_start(ap, fmt);
  vfprintf(h, fmt, ap);
  va_end(ap);
  fputc('\n', h);
  fclose(h);
}

/* the topmost pretended mount that holds the real path p */
static struct ent *holder(const char *p) {
  struct ent *b = NULL;
  size_t bl = 0;
  for (int i = 0; i < nT; i++) {
    size_t l = strlen(T[i].path);
    if (!strncmp(p, T[i].path, l) && (p[l] == '/' || p[l] == 0) && l >= bl) b = &T[i], bl = l;
  }
  return b;
}

static struct ent *holder_of(const char *p) {
  char r[PATH_MAX];
  load();
  return realpath(p, r) ? holder(r) : NULL;
}

static struct ent *holder_fd(int fd) {
  char l[64], r[PATH_MAX];
  snprintf(l, sizeof l, "/proc/self/fd/%d", fd);
  ssize_t n = readlink(l, r, sizeof r - 1);
  if (n < 0) return NULL;
  r[n] = 0;
  load();
  return holder(r);
}

static void paint(struct stat *s, struct ent *e) { s->st_dev = e ? makedev(200, e->id) : makedev(199, 1); }

int v_stat(const char *p, struct stat *s) { int r = stat(p, s); if (!r) paint(s, holder_of(p)); return r; }
int v_lstat(const char *p, struct stat *s) { int r = lstat(p, s); if (!r && !S_ISLNK(s->st_mode)) paint(s, holder_of(p)); return r; }
int v_fstat(int fd, struct stat *s) { int r = fstat(fd, s); if (!r) paint(s, holder_fd(fd)); return r; }
int v_fstatat(int d, const char *p, struct stat *s, int fl) {
  int r = fstatat(d, p, s, fl);
  if (!r && (d == AT_FDCWD || p[0] == '/')) paint(s, holder_of(p));
  else if (!r) {
    int fd = openat(d, p[0] ? p : ".", O_PATH);
    paint(s, holder_fd(fd));
    if (fd >= 0) close(fd);
  }
  return r;
}

static long magic(struct ent *e) {
  if (!e) return 0xEF53;
  if (!strcmp(e->type, "tmpfs")) return 0x01021994;
  if (!strcmp(e->type, "ramfs")) return 0x858458F6;
  if (!strcmp(e->type, "hugetlbfs")) return 0x958458F6;
  return 0x58465342;
}

static void fill(struct statfs *f, struct ent *e) {
  memset(f, 0, sizeof *f);
  f->f_type = magic(e);
  f->f_bsize = f->f_frsize = e ? e->bs : 4096;
  f->f_blocks = e ? e->bl : 1000000;
  f->f_bfree = f->f_bavail = e ? e->bf : 500000;
  f->f_namelen = 255;
}

int v_statfs(const char *p, struct statfs *f) { struct stat s; if (stat(p, &s)) return -1; fill(f, holder_of(p)); return 0; }
int v_fstatfs(int fd, struct statfs *f) { struct stat s; if (fstat(fd, &s)) return -1; fill(f, holder_fd(fd)); return 0; }

static int denied(const char *what) {
  char f[PATH_MAX];
  int e = 0;
  snprintf(f, sizeof f, "%s/fail-%s", base(), what);
  FILE *h = fopen(f, "r");
  if (h) { if (fscanf(h, "%d", &e) != 1) e = EPERM; fclose(h); }
  return e;
}

int v_mount(const char *src, const char *dir, const char *type, unsigned long flags, const void *data) {
  char r[PATH_MAX], hid[PATH_MAX];
  struct stat s;
  if (!realpath(dir, r)) { note("mount ? %s %s %s", type, data ? (char *)data : "-", dir); return -1; }
  note("mount %lu %s %s %s", flags & ~(1024ul | 2097152ul), type, data ? (char *)data : "-", r);
  load();
  int e = denied("mount");
  if (e) { errno = e; return -1; }
  if (stat(r, &s)) return -1;
  if (!S_ISDIR(s.st_mode)) { errno = ENOTDIR; return -1; }
  if (nT == N) { errno = ENOSPC; return -1; }
  snprintf(hid, sizeof hid, "%s/under.%d", base(), nextid);
  if (rename(r, hid)) { fprintf(stderr, "stand-in: %s: %s\n", r, strerror(errno)); _exit(98); }
  if (mkdir(r, s.st_mode & 07777)) _exit(97);
  struct ent *n = &T[nT++];
  n->id = nextid;
  snprintf(n->path, sizeof n->path, "%s", r);
  snprintf(n->type, sizeof n->type, "%s", type);
  n->bs = 4096; n->bl = 1000; n->bf = 1000;
  save();
  return 0;
}

static int un(const char *dir, int flags) {
  char r[PATH_MAX], a[PATH_MAX], b[PATH_MAX];
  load();
  if (!realpath(dir, r)) { note("umount %d ? %s", flags, dir); return -1; }
  note("umount %d %s", flags, r);
  int e = denied("umount");
  if (e) { errno = e; return -1; }
  int k = -1;
  for (int i = 0; i < nT; i++) {
    size_t l = strlen(r);
    if (!strcmp(T[i].path, r)) k = i;
    else if (!strncmp(T[i].path, r, l) && T[i].path[l] == '/') { if (holder(r) && !strcmp(holder(r)->path, r)) { errno = EBUSY; return -1; } }
  }
  if (k < 0) { errno = EINVAL; return -1; }
  snprintf(a, sizeof a, "%s/dead.%d.%d", base(), T[k].id, (int)getpid());
  snprintf(b, sizeof b, "%s/under.%d", base(), T[k].id);
  if (rename(r, a) || rename(b, r)) _exit(96);
  memmove(&T[k], &T[k + 1], (nT - k - 1) * sizeof *T);
  nT--;
  save();
  return 0;
}

int v_umount(const char *dir) { return un(dir, 0); }
int v_umount2(const char *dir, int flags) { return un(dir, flags); }

static const char *divert(const char *p, char *buf) {
  if (strncmp(p, "/proc/sys/", 10) && strncmp(p, "/sys/", 5)) return p;
  char t[PATH_MAX];
  snprintf(t, sizeof t, "%s", p);
  for (char *c = t; *c; c++) if (*c == '/') *c = '_';
  snprintf(buf, PATH_MAX, "%s/file%s", base(), t);
  note("open %s", p);
  return buf;
}

int v_open(const char *p, int fl, ...) {
  char b[PATH_MAX];
  va_list ap;
  va_start(ap, fl);
  int m = va_arg(ap, int);
  va_end(ap);
  const char *q = divert(p, b);
  return q == p ? open(p, fl, m) : open(q, fl | O_CREAT, 0644);
}
int v_openat(int d, const char *p, int fl, ...) {
  char b[PATH_MAX];
  va_list ap;
  va_start(ap, fl);
  int m = va_arg(ap, int);
  va_end(ap);
  const char *q = divert(p, b);
  return q == p ? openat(d, p, fl, m) : open(q, fl | O_CREAT, 0644);
}
FILE *v_fopen(const char *p, const char *m) { char b[PATH_MAX]; return fopen(divert(p, b), m); }
int v_system(const char *c) { note("system %s", c); errno = EPERM; return -1; }
int v_rmdir(const char *c) { note("rmdir %s", c); errno = EPERM; return -1; }
int v_unlink(const char *c) { note("unlink %s", c); errno = EPERM; return -1; }

/* the name of the working directory, which a pretended mount may have moved */
static char *cwd(char *b) {
  char under[PATH_MAX];
  if (!getcwd(b, PATH_MAX)) return NULL;
  load();
  for (int i = 0; i < nT; i++) {
    snprintf(under, sizeof under, "%s/under.%d", base(), T[i].id);
    size_t l = strlen(under);
    if (!strncmp(b, under, l) && (b[l] == '/' || b[l] == 0)) {
      char rest[PATH_MAX];
      snprintf(rest, sizeof rest, "%s%s", T[i].path, b + l);
      strcpy(b, rest);
      break;
    }
  }
  return b;
}

char *v_getcwd(char *b, size_t n) {
  char c[PATH_MAX];
  if (!cwd(c)) return NULL;
  if (b && strlen(c) >= n) { errno = ERANGE; return NULL; }
  return b ? strcpy(b, c) : strdup(c);
}

static const char *via(const char *p, char *b) {
  char c[PATH_MAX];
  if (p[0] == '/' || !cwd(c) || strlen(c) + strlen(p) + 2 > PATH_MAX) return p;
  snprintf(b, PATH_MAX, "%s/%s", c, p);
  return b;
}

char *v_realpath(const char *p, char *o) { char b[PATH_MAX]; return realpath(via(p, b), o); }
int v_chdir(const char *p) { char b[PATH_MAX]; return chdir(strncmp(p, "..", 2) ? p : via(p, b)); }

#define ALIAS(f) __typeof__(f) f##64 __attribute__((alias(#f)))
ALIAS(v_stat); ALIAS(v_lstat); ALIAS(v_fstat); ALIAS(v_fstatat); ALIAS(v_statfs); ALIAS(v_fstatfs); ALIAS(v_open); ALIAS(v_openat); ALIAS(v_fopen);
