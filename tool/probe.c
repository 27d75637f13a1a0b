/* a delegate: writes down how it was run, beside itself, and exits as told */
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <unistd.h>
#include <fcntl.h>
#include <signal.h>
#include <limits.h>
extern char **environ;
int main(int argc, char **argv) {
  static char self[2 * PATH_MAX], f[2 * PATH_MAX + 8];
  ssize_t n = readlink("/proc/self/exe", self, sizeof self - 1);
  if (n <= 0) return 77;
  self[n] = 0;
  unsigned long long x = 14695981039346656037ull;
  for (char *c = self; *c; c++) x = (x ^ (unsigned char)*c) * 1099511628211ull;
  char *s = strrchr(self, '/');
  snprintf(f, sizeof f, "%.*s/%016llx.rc", (int)(s - self), self, x);
  int code = 0;
  FILE *h = fopen(f, "r");
  if (h) { if (fscanf(h, "%d", &code) != 1) code = 0; fclose(h); }
  snprintf(f, sizeof f, "%.*s/%016llx.ran", (int)(s - self), self, x);
  h = fopen(f, "a");
  if (!h) return 78;
  fwrite(self, 1, strlen(self) + 1, h);
  fprintf(h, "%d", argc);
  fputc(0, h);
  for (int i = 0; i < argc; i++) fwrite(argv[i], 1, strlen(argv[i]) + 1, h);
  for (int i = 0; environ[i]; i++) fwrite(environ[i], 1, strlen(environ[i]) + 1, h);
  fclose(h);
  if (code < 0) { signal(-code, SIG_DFL); raise(-code); }
  return code;
}
