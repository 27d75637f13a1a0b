From a023e96182d1fcce15e32f2451ba2c38ac873e5c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:51:56 +0000
Subject: [PATCH 01/30] fix: shr_writev: refuse zero-length messages anywhere
 in the iovec

Only a zero length first element was refused; a later one passed the
validation and tripped assert(bsz > 0) with the lock held. The length
sum could also wrap around SIZE_MAX and be accepted as a small request.
---
 src/shr.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/shr.c b/src/shr.c
index fe081c0..095b0d7 100644
--- a/src/shr.c
+++ b/src/shr.c
@@ -886,6 +886,8 @@ ssize_t shr_writev(shr *s, struct iovec *iov, size_t niov) {
   mv = (struct msg*)(r->d + r->n + r->pad_len);
 
   for(i=0; i < niov; i++) {
+    if (iov[i].iov_len == 0) goto done;
+    if (iov[i].iov_len > s->n - len) goto done;
     len += iov[i].iov_len;
     if (len == 0) goto done;
     if (len > SSIZE_MAX) goto done;
-- 
2.43.0


From 891c2b6454d0ee2c05ec75d8ff8e2dd4db83f2c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:51:56 +0000
Subject: [PATCH 02/30] fix: shr_open: refuse SHR_RDONLY|SHR_WRONLY

The two flags are different bits, so the xor of the masked values is
non-zero when both are set.
---
 src/shr.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/shr.c b/src/shr.c
index 095b0d7..a2ad042 100644
--- a/src/shr.c
+++ b/src/shr.c
@@ -475,7 +475,7 @@ static int open_blockwake(struct shr *s, int flags) {
 
 static int validate_flags(int flags) {
 
-  if (((flags & SHR_RDONLY) ^ (flags & SHR_WRONLY)) == 0)
+  if (!(flags & SHR_RDONLY) == !(flags & SHR_WRONLY))
     return -1; 
 
   if (flags & (SHR_OPEN_FENCE-1))
-- 
2.43.0


From e6ca5ef90833eaf38f4c77d477444bfeb18e9f5d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:51:56 +0000
Subject: [PATCH 03/30] fix: bw_open: refuse BW_WAIT|BW_WAKE

---
 lib/bw.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/bw.c b/lib/bw.c
index bb21a13..abd6587 100644
--- a/lib/bw.c
+++ b/lib/bw.c
@@ -345,7 +345,7 @@ bw_t * bw_open(int flags, bw_handle *h, ...) {
   va_list ap;
   va_start(ap, h);
 
-  if (((flags & BW_WAKE) ^ (flags & BW_WAIT)) == 0) {
+  if (!(flags & BW_WAKE) == !(flags & BW_WAIT)) {
     bw_log("bw_open: invalid mode\n");
     goto done;
   }
-- 
2.43.0


From 247ea727c03b45aa1fce611a568e1e7cd06cfeb1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:51:56 +0000
Subject: [PATCH 04/30] fix: shr_appdata: copy only the app data into a larger
 buffer

The copy used the caller's buffer size, reading beyond the app data
region and possibly beyond the mapping.
---
 src/shr.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/shr.c b/src/shr.c
index a2ad042..9660fb5 100644
--- a/src/shr.c
+++ b/src/shr.c
@@ -1062,7 +1062,7 @@ int shr_appdata(shr *s, void **get, void *set, size_t *sz) {
 
   if ((get != NULL) && (*get != NULL) && (set == NULL)) {
     if (*sz < r->app_len) goto done;
-    memcpy(*get, ad, *sz);
+    memcpy(*get, ad, r->app_len);
     *sz = r->app_len;
   }
 
-- 
2.43.0


From 78416c8fcfb393f79a875cd81cef62e85fe03c47 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:51:56 +0000
Subject: [PATCH 05/30] fix: has_pid_socket: skip unnamed sockets in
 /proc/net/unix

A line without a name made the result indeterminate, so with any unnamed
unix socket on the system the slot of a zombie or recycled pid was never
released, and wakers failed on it: "connect: Connection refused".
---
 lib/ux.c | 8 +++-----
 1 file changed, 3 insertions(+), 5 deletions(-)

diff --git a/lib/ux.c b/lib/ux.c
index b55e902..3d2e1ad 100644
--- a/lib/ux.c
+++ b/lib/ux.c
@@ -269,12 +269,11 @@ static int has_socket_name(size_t *inodes, size_t n_inodes, char *sockname) {
       b++;
     }
 
-    /* name is after inode */
+    /* name is after inode. unnamed sockets have none */
     name = get_col(8, &len, line, sz-(line-buf));
-    if (name == NULL) goto done;
 
     /* does name match? */
-    if ((len == namelen) && (memcmp(name, sockname, len) == 0)) {
+    if (name && (len == namelen) && (memcmp(name, sockname, len) == 0)) {
       
       /* name matches. is inode in list? */
       for(n=0; n < n_inodes; n++) {
@@ -286,8 +285,7 @@ static int has_socket_name(size_t *inodes, size_t n_inodes, char *sockname) {
       }
     }
 
-    /* advance to next line */
-    b = name+len;
+    /* advance to next line; b is in this one */
     while ((b < buf+sz) && (*b != '\n')) b++;
     line = b+1;
   }
-- 
2.43.0


From 43a1cae988f1dc1165cc62442e481daf8ae724fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:51:56 +0000
Subject: [PATCH 06/30] fix: get_socket_inodes: close the directory on error
 paths

---
 lib/ux.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/ux.c b/lib/ux.c
index 3d2e1ad..19e63c5 100644
--- a/lib/ux.c
+++ b/lib/ux.c
@@ -117,10 +117,10 @@ static int get_socket_inodes(pid_t pid, size_t *inodes,
     (*n_inodes)++;
   }
 
-  closedir(d);
   rc = 0;
 
  done:
+  if (d) closedir(d);
   return rc;
 }
 
-- 
2.43.0


From 33a99087f075cc7eff159b438310aa480031dc46 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:51:56 +0000
Subject: [PATCH 07/30] fix: open_socket: a refused connection means the waiter
 is gone

If the slot's pid now belongs to a process we may not inspect, has_pid_socket
is indeterminate, and every open or write failed on the stale slot.
---
 lib/bw.c | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/lib/bw.c b/lib/bw.c
index abd6587..8f88f9c 100644
--- a/lib/bw.c
+++ b/lib/bw.c
@@ -153,8 +153,10 @@ static int open_socket(bw_t *w, int n) {
   errtmp = errno;
   close(fd);
 
-  /* release slot if socket owner exited; success */
-  sc = has_pid_socket(h->wr[n].pid, w->name[n]); 
+  /* release slot if socket owner exited; success.
+   * refused means that no such socket is there */
+  sc = (errtmp == ECONNREFUSED) ? 0 :
+       has_pid_socket(h->wr[n].pid, w->name[n]); 
   if (sc == 0) {
     h->wr[n].pid = 0;
     h->seqno++;
-- 
2.43.0


From 8447ad1b3e7c5f7ad6c814c8b974f5c524056bec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:51:56 +0000
Subject: [PATCH 08/30] fix: shr_init: refuse sizes whose sum overflows

An overflowing message vector or total size wrapped around, and a ring
smaller than its header declares was reported as success.
---
 src/shr.c | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/shr.c b/src/shr.c
index 9660fb5..ffda77d 100644
--- a/src/shr.c
+++ b/src/shr.c
@@ -225,6 +225,13 @@ int shr_init(char *file, size_t data_sz, unsigned flags, ...) {
     max_msgs = va_arg(ap, size_t);
   if (max_msgs == 0)
     max_msgs = (100 + data_sz / 100);
+
+  /* the total size must be representable */
+  if ((data_sz > SSIZE_MAX/4) || (appsize > SSIZE_MAX/4) ||
+      (max_msgs > SSIZE_MAX/4/sizeof(struct msg))) {
+    shr_log("shr_init: invalid size\n");
+    goto done;
+  }
   mv_bytes = max_msgs * sizeof(struct msg);
 
   exists = (access(file, F_OK) == 0) ? 1 : 0;
-- 
2.43.0


From 17c3392e4fa663ff186d2c13def61c8ac53952de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:51:56 +0000
Subject: [PATCH 09/30] fix: shr_writev: do not report failure for a stored
 write

When a reader could not be woken (no descriptor left to connect to it)
the messages were in the ring already, but -1 was returned and the write
was not counted. Wake the readers under the same lock, before the ring
is altered.
---
 src/shr.c | 15 +++++++++------
 1 file changed, 9 insertions(+), 6 deletions(-)

diff --git a/src/shr.c b/src/shr.c
index ffda77d..df5fdf0 100644
--- a/src/shr.c
+++ b/src/shr.c
@@ -938,10 +938,7 @@ ssize_t shr_writev(shr *s, struct iovec *iov, size_t niov) {
     if ((r->n - r->u >= len) && 
         (r->mm - r->m >= niov)) break;
 
-    if (r->gflags & SHR_DROP) {
-      drop_unread(s, len, niov);
-      break;
-    }
+    if (r->gflags & SHR_DROP) break;
 
     if (s->flags & SHR_NONBLOCK) {
       rc = 0;
@@ -954,6 +951,14 @@ ssize_t shr_writev(shr *s, struct iovec *iov, size_t niov) {
     if (sc) return sc;
   }
 
+  /* awaken readers; they await our unlock. do so
+   * first, since ring is unaltered if this fails */
+  sc = bw_wake(s->w2r);
+  if (sc) goto done;
+
+  if ((r->n - r->u < len) || (r->mm - r->m < niov))
+    drop_unread(s, len, niov);
+
   /* sufficient free space has been made available. */
   assert(r->n - r->u >= len);
   assert(r->m + niov <= r->mm);
@@ -1010,8 +1015,6 @@ ssize_t shr_writev(shr *s, struct iovec *iov, size_t niov) {
   r->mp += niov;
   r->m += niov;
 
-  sc = bw_wake(s->w2r);
-  if (sc) goto done;
   r->stat.bw += len;
   r->stat.mw += niov;
   if (shr_sync(s) < 0) goto done;
-- 
2.43.0


From 7d164681971a50e050e646ecd8f703dde0778e21 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:51:56 +0000
Subject: [PATCH 10/30] fix: bw_open: close the sockets opened so far on
 failure

---
 lib/bw.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/lib/bw.c b/lib/bw.c
index 8f88f9c..d9cfb76 100644
--- a/lib/bw.c
+++ b/lib/bw.c
@@ -427,6 +427,8 @@ bw_t * bw_open(int flags, bw_handle *h, ...) {
     if (w->listenfd != -1) close(w->listenfd);
     if (w->selffd != -1) close(w->selffd);
     if (w->epollfd != -1) close(w->epollfd);
+    for(n=0; n < BW_WAITMAX; n++)
+      if (w->fd[n] != -1) close(w->fd[n]);
     free(w);
     w = NULL;
   }
-- 
2.43.0


From 11bb0d2fd280801c7b79572d6da9bca6f50f1f71 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:51:56 +0000
Subject: [PATCH 11/30] fix: shr_open: release the waiter slot and the cache on
 failure

A failure after the block/wake handles were opened leaked their
descriptors and left the slot in the ring taken.
---
 src/shr.c | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/shr.c b/src/shr.c
index df5fdf0..28b57d1 100644
--- a/src/shr.c
+++ b/src/shr.c
@@ -619,6 +619,12 @@ struct shr *shr_open(const char *file, unsigned flags, ...) {
   rc = 0;
 
  done:
+  if (s && rc) {
+    if (s->w2r) bw_close(s->w2r);
+    if (s->r2w) bw_close(s->r2w);
+    if (s->c.buf) free(s->c.buf);
+    if (s->c.iov) free(s->c.iov);
+  }
   if (s && (s->ring_fd != -1)) unlock(s->ring_fd);
   if (s && rc) {
     if (s->ring_fd != -1) close(s->ring_fd);
-- 
2.43.0


From 6f7cd480cfb2c1e160c4262bf6ef5dd54f311644 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:51:56 +0000
Subject: [PATCH 12/30] fix: shr-tool writehex: reject anything but hex digits

"1z" was taken as 01, " 1" as 01, and "-1" tripped an assertion.
---
 util/shr-tool.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/util/shr-tool.c b/util/shr-tool.c
index 3264aa1..f7a89f0 100644
--- a/util/shr-tool.c
+++ b/util/shr-tool.c
@@ -18,6 +18,7 @@
 #include <netdb.h>
 #include <errno.h>
 #include <fcntl.h>
+#include <ctype.h>
 #include <time.h>
 #include "shr.h"
 
@@ -197,6 +198,8 @@ int unhex(char *h) {
   if (len == 0) goto done;
   if (len &  1) goto done; /* odd number of digits */
   for(i=0; i < len; i += 2) {
+    if (!isxdigit((unsigned char)h[i]))   goto done;
+    if (!isxdigit((unsigned char)h[i+1])) goto done;
     if (sscanf( &h[i], "%2x", &u) < 1) goto done;
     assert(u <= 255);
     b = (unsigned char)u;
-- 
2.43.0


From d49030e6b0f2abde483350cb6b7f6489cce7fee1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:51:56 +0000
Subject: [PATCH 13/30] fix: shr-tool write: one message per line, whatever its
 length

Lines over 998 characters were split over several messages, and lines
with a nul byte were cut.
---
 util/shr-tool.c | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/util/shr-tool.c b/util/shr-tool.c
index f7a89f0..b286402 100644
--- a/util/shr-tool.c
+++ b/util/shr-tool.c
@@ -910,11 +910,11 @@ int try_delegate(int argc, char *argv[]) {
 
 int main(int argc, char *argv[]) {
   int n, one_shot=0, opt, rc=-1, sc, mode, fd, epoll_mode, tmo, ec;
-  char unit, *c, *app_data, *cmd, line[1000], opts[100],
+  char unit, *c, *app_data, *cmd, *line=NULL, opts[100],
     *ring1=NULL, *ring2=NULL, *data, *sub;
   struct epoll_event ev;
   struct shr_stat stat;
-  size_t app_len = 0;
+  size_t app_len = 0, line_sz = 0;
   cfg.prog = argv[0];
   struct statfs sf;
   struct stat sb;
@@ -1165,8 +1165,7 @@ int main(int argc, char *argv[]) {
       one_shot=1;
       cfg.shr = shr_open(cfg.ring, SHR_WRONLY);
       if (cfg.shr == NULL) goto done;
-      while (fgets(line, sizeof(line), stdin)) {
-        nr = strlen(line);
+      while ((nr = getline(&line, &line_sz, stdin)) > 0) {
         if ((nr > 0) && (line[nr-1] == '\n')) line[nr--] = '\0';
         if (shr_write(cfg.shr, line, nr) < 0) {
           fprintf(stderr, "shr_write: error\n");
@@ -1319,6 +1318,7 @@ int main(int argc, char *argv[]) {
   if (cfg.wfile_buf) munmap(cfg.wfile_buf, cfg.wfile_len);
   if (cfg.wfile) free(cfg.wfile);
   if (cfg.addr_spec) free(cfg.addr_spec);
+  if (line) free(line);
   return rc;
 }
 
-- 
2.43.0


From 1db2c4a82e768f64fc770d65226281c1a3812580 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:51:56 +0000
Subject: [PATCH 14/30] fix: shr-tool read: continue a short write where it
 stopped

The output pointer was reset to the start of the message, and a write
error went unnoticed since its result was unsigned.
---
 util/shr-tool.c | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/util/shr-tool.c b/util/shr-tool.c
index b286402..36ddc48 100644
--- a/util/shr-tool.c
+++ b/util/shr-tool.c
@@ -659,7 +659,8 @@ int handle_io(void) {
   int rc = -1, sc, fl;
   ssize_t nr, np;
   uint32_t len32;
-  size_t len, nw;
+  size_t len;
+  ssize_t nw;
   char *out;
 
   nr = shr_read(cfg.shr, cfg.buf, BUFLEN);
@@ -687,8 +688,7 @@ int handle_io(void) {
       /* data to print */
       assert(nr > 0);
       if (cfg.mode == mode_read_hex) hexdump(cfg.buf,nr);
-      else do {
-        out = cfg.buf;
+      else for (out = cfg.buf; nr > 0; ) {
         nw = write(STDOUT_FILENO, out, nr);
         if (nw < 0) {
           fprintf(stderr, "write: %s\n", strerror(errno));
@@ -696,7 +696,7 @@ int handle_io(void) {
         }
         nr -= nw;
         out += nw;
-      } while (nr > 0);
+      }
       fflush(stdout);
       cfg.nread++;
       if ((cfg.max_msgs > 0) && (cfg.nread >= cfg.max_msgs)) {
-- 
2.43.0


From f98c69f17f51efb2585056b619d685ef45409d11 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:51:56 +0000
Subject: [PATCH 15/30] fix: shr-tool pub: keep serving after a connection
 reset

A client that goes away with data unread resets the connection; that
ended the publisher, unlike an orderly disconnect.
---
 util/shr-tool.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/util/shr-tool.c b/util/shr-tool.c
index 36ddc48..009891b 100644
--- a/util/shr-tool.c
+++ b/util/shr-tool.c
@@ -568,7 +568,7 @@ int handle_client(void) {
   if (nr < 0) {
     fprintf(stderr, "recv: %s\n", strerror(errno) );
     close_client();
-    return -1;
+    return 0;
   }
 
   if (nr == 0) {
-- 
2.43.0


From 88129bd9135e5bc90cf0be31d567db086fadad98 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:51:56 +0000
Subject: [PATCH 16/30] fix: shr-tool sub: have buffer space for the largest
 frame

A frame that left no free space in the buffer tripped an assertion.
---
 util/shr-tool.c | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/util/shr-tool.c b/util/shr-tool.c
index 009891b..36f3cd6 100644
--- a/util/shr-tool.c
+++ b/util/shr-tool.c
@@ -34,14 +34,15 @@ extern char **environ;
  * they're in the struct below they'd be
  * in the initialized data area and the
  * resulting binary gets much larger */
-#define BUFLEN 1000000
+/* subscriber safeguard */
+#define MAX_FRAME (1024*1024)
+
+/* holds a maximum frame and its length prefix */
+#define BUFLEN (MAX_FRAME + sizeof(uint32_t))
 #define NUMIOV (1024 * 1024)
 char buf_bss[BUFLEN];
 struct iovec iov_bss[NUMIOV];
 
-/* subscriber safeguard */
-#define MAX_FRAME (1024*1024)
-
 struct {
   char *prog;
   int verbose;
-- 
2.43.0


From dabf0438aa3858181b2d853d1c4c53c30e742c31 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:51:56 +0000
Subject: [PATCH 17/30] fix: shr-tool sub: store frames in batches that fit the
 ring

All frames in the receive buffer were written as one batch; if together
they exceeded the ring's size or slots the write was refused and the
subscriber ended.
---
 util/shr-tool.c | 17 ++++++++++++++++-
 1 file changed, 16 insertions(+), 1 deletion(-)

diff --git a/util/shr-tool.c b/util/shr-tool.c
index 36f3cd6..b9aeb33 100644
--- a/util/shr-tool.c
+++ b/util/shr-tool.c
@@ -451,13 +451,16 @@ char *map(char *file, size_t *len) {
  */
 int decode_frames(void) {
   char *c, *body, *eob;
-  size_t iov_used=0;
+  size_t iov_used=0, bytes=0;
+  struct shr_stat stat;
   uint32_t blen;
   int rc = -1;
   ssize_t nr;
 
   assert( cfg.mode == mode_sub );
 
+  if (shr_stat(cfg.shr, &stat, NULL) < 0) goto done;
+
   eob = cfg.buf + cfg.sub_buf_used;
   c = cfg.buf;
   while(1) {
@@ -469,6 +472,18 @@ int decode_frames(void) {
     }
     body = c + sizeof(uint32_t);
     if (body + blen > eob) break;
+
+    /* one write can't exceed the capacity of the ring */
+    if (iov_used && ((iov_used == stat.mm) || (bytes + blen > stat.bn))) {
+      nr = shr_writev(cfg.shr, cfg.sub_iov, iov_used);
+      if (nr < 0) {
+        fprintf(stderr,"shr_writev: error (%zd)\n", nr);
+        goto done;
+      }
+      iov_used = 0;
+      bytes = 0;
+    }
+    bytes += blen;
     cfg.sub_iov[ iov_used ].iov_base = body;
     cfg.sub_iov[ iov_used ].iov_len  = blen;
     iov_used++;
-- 
2.43.0


From 3a6f2c957fc2148a2b27fce4394901ded4cd04c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:51:56 +0000
Subject: [PATCH 18/30] fix: shr-tool mount: stop when the mount point is
 unsuitable

The error result of suitable_mountpoint was ignored, and the mount was
attempted without knowing whether the directory is a ramdisk already.
---
 util/shr-tool.c | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/util/shr-tool.c b/util/shr-tool.c
index b9aeb33..7b5c1dd 100644
--- a/util/shr-tool.c
+++ b/util/shr-tool.c
@@ -1037,10 +1037,12 @@ int main(int argc, char *argv[]) {
       switch (cfg.mount_mode) {
         case mnt_mount:
         case mnt_make_subdirs:
-          if (suitable_mountpoint(cfg.mountpoint, &sb, &sf) == -2) {
+          sc = suitable_mountpoint(cfg.mountpoint, &sb, &sf);
+          if (sc == -2) {
             printf("%s: already a ramdisk\n", cfg.mountpoint);
             goto done;
           }
+          if (sc < 0) goto done;
           snprintf(opts, sizeof(opts), "size=%zu", cfg.size);
           data = cfg.size ? opts : NULL;
           sc = mount("shr", cfg.mountpoint, cfg.fs_type, MS_NOATIME, data);
-- 
2.43.0


From 2adfd4248fcd65248c326f6f46512029342c5b3e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:18:37 +0000
Subject: [PATCH 19/30] fix: has_pid_socket: a socket missed in /proc/net/unix
 may be open

The kernel produces /proc/net/unix in pieces; when other sockets are opened
or closed meanwhile it can omit one that is still open. The slot of a live
waiter was then released, and it was never woken again.
---
 lib/ux.c | 40 +++++++++++++++++++++++++++++++++++++++-
 1 file changed, 39 insertions(+), 1 deletion(-)

diff --git a/lib/ux.c b/lib/ux.c
index 19e63c5..7ce1aeb 100644
--- a/lib/ux.c
+++ b/lib/ux.c
@@ -1,3 +1,5 @@
+#include <sys/socket.h>
+#include <sys/un.h>
 #include <dirent.h>
 #include <string.h>
 #include <signal.h>
@@ -11,6 +13,7 @@
 /* internal prototypes */
 static int get_socket_inodes(pid_t, size_t *, size_t, size_t *);
 static int has_socket_name(size_t *, size_t, char *);
+static int is_socket_bound(char *);
 
 /*
  *  has_pid_socket
@@ -37,7 +40,42 @@ int has_pid_socket(pid_t pid, char *name) {
   if (sc < 0) return sc;
 
   sc = has_socket_name(inodes, n_inodes, name);
-  return sc;
+  if (sc != 0) return sc;
+
+  /* the kernel hands out /proc/net/unix in pieces. when sockets
+   * come and go meanwhile, it may omit one that is still open */
+  if (n_inodes && is_socket_bound(name)) return -1;
+  return 0;
+}
+
+/*
+ * is any datagram socket bound to the abstract name (like @abcde)?
+ *
+ * returns:
+ *   0: no
+ *   1: yes, or unable to tell
+ *
+ */
+static int is_socket_bound(char *name) {
+  struct sockaddr_un addr;
+  socklen_t len;
+  int fd, rc=1;
+
+  fd = socket(AF_UNIX, SOCK_DGRAM, 0);
+  if (fd < 0) {
+    bw_log("socket: %s\n", strerror(errno));
+    return 1;
+  }
+
+  memset(&addr, 0, sizeof(addr));
+  addr.sun_family = AF_UNIX;
+  strncpy(addr.sun_path+1, name+1, sizeof(addr.sun_path)-2);
+  len = sizeof(sa_family_t) + 1 + strlen(addr.sun_path+1);
+  if ((connect(fd, (struct sockaddr*)&addr, len) < 0) &&
+      (errno == ECONNREFUSED)) rc = 0;
+
+  close(fd);
+  return rc;
 }
 
 /*
-- 
2.43.0


From ed839e72d42d94b388329f6b89acdb8c79de77e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:36:54 +0000
Subject: [PATCH 20/30] fix: has_pid_socket: decide by the socket itself when
 its owner's descriptors cannot be listed

A process whose /proc/<pid>/fd may not be read (it has exited and is not
reaped, or its pid now belongs to another user) made every open and every
wakeup involving its waiter slot fail with EACCES.
---
 lib/ux.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/lib/ux.c b/lib/ux.c
index 7ce1aeb..1493cf4 100644
--- a/lib/ux.c
+++ b/lib/ux.c
@@ -36,8 +36,9 @@ int has_pid_socket(pid_t pid, char *name) {
   sc = kill(pid, 0);
   if ((sc < 0) && (errno == ESRCH)) return 0;
 
+  /* if its descriptors cannot be listed, tell by the socket itself */
   sc = get_socket_inodes(pid, inodes, MAX_INODES, &n_inodes);
-  if (sc < 0) return sc;
+  if (sc < 0) return is_socket_bound(name) ? sc : 0;
 
   sc = has_socket_name(inodes, n_inodes, name);
   if (sc != 0) return sc;
-- 
2.43.0


From 8b88a08bb08b6887a18bedecd6cb9e7081a54e39 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:47:04 +0000
Subject: [PATCH 21/30] fix: mount -d . makes the subdirectories inside the
 mount

The working directory is still the covered directory after mounting over
it, so the subdirectories were created underneath the mount.
---
 util/shr-tool.c | 13 ++++++++++---
 1 file changed, 10 insertions(+), 3 deletions(-)

diff --git a/util/shr-tool.c b/util/shr-tool.c
index 7b5c1dd..25d84fa 100644
--- a/util/shr-tool.c
+++ b/util/shr-tool.c
@@ -927,7 +927,7 @@ int try_delegate(int argc, char *argv[]) {
 int main(int argc, char *argv[]) {
   int n, one_shot=0, opt, rc=-1, sc, mode, fd, epoll_mode, tmo, ec;
   char unit, *c, *app_data, *cmd, *line=NULL, opts[100],
-    *ring1=NULL, *ring2=NULL, *data, *sub;
+    *ring1=NULL, *ring2=NULL, *data, *sub, *dir=NULL;
   struct epoll_event ev;
   struct shr_stat stat;
   size_t app_len = 0, line_sz = 0;
@@ -1043,6 +1043,12 @@ int main(int argc, char *argv[]) {
             goto done;
           }
           if (sc < 0) goto done;
+          /* if the mount point is "." only its full path leads to the mount */
+          dir = realpath(cfg.mountpoint, NULL);
+          if (dir == NULL) {
+            fprintf(stderr, "realpath %s: %s\n", cfg.mountpoint, strerror(errno));
+            goto done;
+          }
           snprintf(opts, sizeof(opts), "size=%zu", cfg.size);
           data = cfg.size ? opts : NULL;
           sc = mount("shr", cfg.mountpoint, cfg.fs_type, MS_NOATIME, data);
@@ -1050,9 +1056,9 @@ int main(int argc, char *argv[]) {
             fprintf(stderr, "mount %s: %s\n", cfg.mountpoint, strerror(errno));
             goto done;
           }
-          sc = chdir(cfg.mountpoint);
+          sc = chdir(dir);
           if (sc < 0) {
-            fprintf(stderr, "chdir %s: %s\n", cfg.mountpoint, strerror(errno));
+            fprintf(stderr, "chdir %s: %s\n", dir, strerror(errno));
             goto done;
           }
           while ((cfg.mount_mode == mnt_make_subdirs) && (optind < argc)) {
@@ -1337,6 +1343,7 @@ int main(int argc, char *argv[]) {
   if (cfg.wfile) free(cfg.wfile);
   if (cfg.addr_spec) free(cfg.addr_spec);
   if (line) free(line);
+  if (dir) free(dir);
   return rc;
 }
 
-- 
2.43.0


From 1798d5812720b357f26f0eb0ae9c9155c5f32ef6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:16:25 +0000
Subject: [PATCH 22/30] fix: shr-tool goes on after being stopped and resumed

epoll_wait, and the wait for room in a ring, end with EINTR when the
process is stopped and resumed. The tool ended, losing a message that it
had read (tee, sub, write) and was about to store.
---
 util/shr-tool.c | 38 ++++++++++++++++++++++++++++++--------
 1 file changed, 30 insertions(+), 8 deletions(-)

diff --git a/util/shr-tool.c b/util/shr-tool.c
index 25d84fa..77423e7 100644
--- a/util/shr-tool.c
+++ b/util/shr-tool.c
@@ -443,6 +443,27 @@ char *map(char *file, size_t *len) {
   return buf;
 }
 
+/*
+ * write to ring, waiting for room in it. if the wait is interrupted
+ * because this process was stopped and resumed, wait again
+ *
+ */
+ssize_t ring_writev(struct shr *s, struct iovec *iov, size_t niov) {
+  ssize_t nr;
+
+  do {
+    errno = 0;
+    nr = shr_writev(s, iov, niov);
+  } while ((nr < 0) && (errno == EINTR));
+
+  return nr;
+}
+
+ssize_t ring_write(struct shr *s, char *buf, size_t len) {
+  struct iovec io = { .iov_base = buf, .iov_len = len };
+  return ring_writev(s, &io, 1);
+}
+
 /*
  * given a buffer of N frames 
  * with a possible partial final frame
@@ -475,7 +496,7 @@ int decode_frames(void) {
 
     /* one write can't exceed the capacity of the ring */
     if (iov_used && ((iov_used == stat.mm) || (bytes + blen > stat.bn))) {
-      nr = shr_writev(cfg.shr, cfg.sub_iov, iov_used);
+      nr = ring_writev(cfg.shr, cfg.sub_iov, iov_used);
       if (nr < 0) {
         fprintf(stderr,"shr_writev: error (%zd)\n", nr);
         goto done;
@@ -496,7 +517,7 @@ int decode_frames(void) {
     goto done;
   }
 
-  nr = shr_writev(cfg.shr, cfg.sub_iov, iov_used);
+  nr = ring_writev(cfg.shr, cfg.sub_iov, iov_used);
   if (nr < 0) {
     fprintf(stderr,"shr_writev: error (%zd)\n", nr);
     goto done;
@@ -764,11 +785,11 @@ int handle_io(void) {
         rc = 0;
         goto done;
       }
-      if (shr_write(cfg.o1, cfg.buf, nr) < 0) {
+      if (ring_write(cfg.o1, cfg.buf, nr) < 0) {
         fprintf(stderr, "shr_write: error\n");
         goto done;
       }
-      if (shr_write(cfg.o2, cfg.buf, nr) < 0) {
+      if (ring_write(cfg.o2, cfg.buf, nr) < 0) {
         fprintf(stderr, "shr_write: error\n");
         goto done;
       }
@@ -1191,7 +1212,7 @@ int main(int argc, char *argv[]) {
       if (cfg.shr == NULL) goto done;
       while ((nr = getline(&line, &line_sz, stdin)) > 0) {
         if ((nr > 0) && (line[nr-1] == '\n')) line[nr--] = '\0';
-        if (shr_write(cfg.shr, line, nr) < 0) {
+        if (ring_write(cfg.shr, line, nr) < 0) {
           fprintf(stderr, "shr_write: error\n");
           goto done;
         }
@@ -1204,7 +1225,7 @@ int main(int argc, char *argv[]) {
       if (cfg.shr == NULL) goto done;
       nr = unhex(cfg.hex_arg);
       if (nr <= 0) goto done;
-      if (shr_write(cfg.shr, cfg.hex_arg, nr) < 0) {
+      if (ring_write(cfg.shr, cfg.hex_arg, nr) < 0) {
         fprintf(stderr, "shr_write: error\n");
         goto done;
       }
@@ -1216,7 +1237,7 @@ int main(int argc, char *argv[]) {
       if (cfg.shr == NULL) goto done;
       cfg.wfile_buf = map(cfg.wfile, &cfg.wfile_len);
       if (cfg.wfile_buf == NULL) goto done;
-      if (shr_write(cfg.shr, cfg.wfile_buf, cfg.wfile_len) < 0) {
+      if (ring_write(cfg.shr, cfg.wfile_buf, cfg.wfile_len) < 0) {
         fprintf(stderr, "shr_write: error\n");
         goto done;
       }
@@ -1315,7 +1336,8 @@ int main(int argc, char *argv[]) {
 
   do { 
     ec = epoll_wait(cfg.epoll_fd, &ev, 1, tmo);
-    if      (ec < 0)  fprintf(stderr, "epoll: %s\n", strerror(errno));
+    if ((ec < 0) && (errno == EINTR)) ec = 0; /* stopped and resumed */
+    else if (ec < 0)  fprintf(stderr, "epoll: %s\n", strerror(errno));
     else if (ec == 0) /* print no-data */ { if (handle_io()     < 0) goto done;}
     else if (ev.data.fd == cfg.fd)        { if (handle_io()     < 0) goto done;}
     else if (ev.data.fd == cfg.signal_fd) { if (handle_signal() < 0) goto done;}
-- 
2.43.0


From 7760c45974c129d7c5b55d2b17307e6ebed1843f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:04:24 +0000
Subject: [PATCH 23/30] fix: retry the ring lock when a signal interrupts it,
 so that shr_close cannot leak

---
 src/shr.c | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/shr.c b/src/shr.c
index 28b57d1..80e0895 100644
--- a/src/shr.c
+++ b/src/shr.c
@@ -114,7 +114,9 @@ static int lock(int fd) {
     .l_whence = SEEK_SET
   };
 
-  sc = fcntl(fd, F_SETLKW, &f);
+  do {
+    sc = fcntl(fd, F_SETLKW, &f);
+  } while ((sc < 0) && (errno == EINTR));
   if (sc < 0) {
     shr_log("fcntl lock: %s\n", strerror(errno));
     goto done;
-- 
2.43.0


From 97717252ecefd6725e6790a0176c3579a32bbbde Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:08:10 +0000
Subject: [PATCH 24/30] fix: do not throw out a waiter whose socket got the
 name of an earlier one in its slot

---
 lib/bw.c | 28 ++++++++++++++++++++++------
 1 file changed, 22 insertions(+), 6 deletions(-)

diff --git a/lib/bw.c b/lib/bw.c
index d9cfb76..fce3a9c 100644
--- a/lib/bw.c
+++ b/lib/bw.c
@@ -601,8 +601,12 @@ int bw_wait_ul(bw_t *w) {
  * send wake up byte one waiting socket
  * if it errors out for anything but ewouldblock/eagain
  * disconnect from that socket and zero its slot
+ *
+ * returns:
+ *   0 on success
+ *  -1 on error
  */
-static void wake_one(bw_t *w, int n) {
+static int wake_one(bw_t *w, int n) {
   ssize_t nr;
 
   if (w->flags & BW_TRACE) {
@@ -610,8 +614,20 @@ static void wake_one(bw_t *w, int n) {
   }
 
   nr = sendmsg(w->fd[n], &w->hdr, MSG_DONTWAIT);
-  if (nr >= 0) return;
-  if ((errno == EWOULDBLOCK) || (errno == EAGAIN)) return;
+  if ((nr < 0) && (errno == ECONNREFUSED)) {
+    /* the socket is gone. but the slot may belong to a newer
+     * socket that was given the same name. connect to that */
+    close(w->fd[n]);
+    w->fd[n] = -1;
+    if (open_socket(w,n) < 0) {
+      w->seqno = -1; /* sync again next time */
+      return -1;
+    }
+    if (w->fd[n] == -1) return 0; /* slot was purged */
+    nr = sendmsg(w->fd[n], &w->hdr, MSG_DONTWAIT);
+  }
+  if (nr >= 0) return 0;
+  if ((errno == EWOULDBLOCK) || (errno == EAGAIN)) return 0;
 
   if (w->flags & BW_TRACE) {
     bw_log("purge %s: %s\n", w->name[n], strerror(errno));
@@ -620,6 +636,7 @@ static void wake_one(bw_t *w, int n) {
   w->fd[n] = -1;
   w->h->seqno++;
   w->h->wr[n].pid = 0;
+  return 0;
 }
 
 /*
@@ -639,13 +656,12 @@ int bw_wake(bw_t *w) {
   assert(w->flags & BW_WAKE);
   if (bw_sync(w) < 0) goto done;
 
+  rc = 0;
   for(n = 0; n < BW_WAITMAX; n++) {
     if (w->fd[n] == -1) continue;
-    wake_one(w,n);
+    if (wake_one(w,n) < 0) rc = -1;
   }
 
-  rc = 0;
-
  done:
   return rc;
 }
-- 
2.43.0


From 5b06d4a2b9efe8a6ea00587b8df259feb178bd9b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:43:37 +0000
Subject: [PATCH 25/30] fix: bw_wake: do not disconnect a living waiter for
 lack of memory

When a datagram could not be sent because of ENOBUFS or ENOMEM, the
waiter was taken for dead: its slot was released, and it was never
woken again. Report the failure instead.
---
 lib/bw.c | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/lib/bw.c b/lib/bw.c
index fce3a9c..e04360d 100644
--- a/lib/bw.c
+++ b/lib/bw.c
@@ -629,6 +629,12 @@ static int wake_one(bw_t *w, int n) {
   if (nr >= 0) return 0;
   if ((errno == EWOULDBLOCK) || (errno == EAGAIN)) return 0;
 
+  /* out of memory. its owner is still there */
+  if ((errno == ENOBUFS) || (errno == ENOMEM)) {
+    bw_log("sendmsg: %s\n", strerror(errno));
+    return -1;
+  }
+
   if (w->flags & BW_TRACE) {
     bw_log("purge %s: %s\n", w->name[n], strerror(errno));
   }
-- 
2.43.0


From 4ae21eb1f21eff1fb4c37243119314f37fbea98e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:43:37 +0000
Subject: [PATCH 26/30] fix: shr_readv: do not consume messages when writers
 cannot be woken

A reader that had no descriptor left to connect to a new blocked writer
read the ring empty and went on without waking it, so that both could
wait for each other forever. Wake the writers first, as shr_writev does,
and report a failure with the ring unaltered.
---
 src/shr.c | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/shr.c b/src/shr.c
index 80e0895..cc63738 100644
--- a/src/shr.c
+++ b/src/shr.c
@@ -833,7 +833,11 @@ shr_readv(shr *s, char *buf, size_t len, struct iovec *iov, size_t *niov) {
     }
   }
 
-  /* reached when data is available */
+  /* reached when data is available. awaken writers;
+   * they await our unlock. do so before we consume a
+   * message, since ring is unaltered if this fails */
+  if ((l1+l2 <= len) && (bw_wake(s->r2w) < 0)) goto done;
+
   while (msg_ready) {
     if (*niov == 0)  break; /* caller iov exhausted */
     if (l1+l2 > len) break; /* caller buf exhausted */
@@ -861,7 +865,6 @@ shr_readv(shr *s, char *buf, size_t len, struct iovec *iov, size_t *niov) {
 
   r->stat.br += nr;
   r->stat.mr += mc;
-  if (nr > 0) bw_wake(s->r2w);
   rc = (mc > 0) ? 0 : -2;
   bw_force(s->w2r, msg_ready);
   if (shr_sync(s) < 0) goto done;
-- 
2.43.0


From ab5b9ff4dcda36433c930e63899190e8d0133647 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:57:59 +0000
Subject: [PATCH 27/30] fix: free a dead waiter's slot although its socket's
 name is now another's

---
 lib/ux.c | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/lib/ux.c b/lib/ux.c
index 1493cf4..16d0477 100644
--- a/lib/ux.c
+++ b/lib/ux.c
@@ -41,6 +41,7 @@ int has_pid_socket(pid_t pid, char *name) {
   if (sc < 0) return is_socket_bound(name) ? sc : 0;
 
   sc = has_socket_name(inodes, n_inodes, name);
+  if (sc == 2) return 0;
   if (sc != 0) return sc;
 
   /* the kernel hands out /proc/net/unix in pieces. when sockets
@@ -269,6 +270,7 @@ static char *get_col(int col, size_t *len, char *buf, size_t buflen) {
  * returns:
  *   0: no
  *   1: yes
+ *   2: no, a socket not in the list has the name
  *  -1: error
  *
  * /proc/net/unix has lines like:
@@ -282,7 +284,7 @@ static char *get_col(int col, size_t *len, char *buf, size_t buflen) {
 static int has_socket_name(size_t *inodes, size_t n_inodes, char *sockname) {
   char *buf = NULL, *b, *inode, *name, *line;
   size_t len, sz=0, inum, n, namelen;
-  int rc = -1;
+  int rc = -1, found = 0;
 
   buf = slurp_special("/proc/net/unix", &sz);
   if (buf == NULL) goto done;
@@ -322,6 +324,7 @@ static int has_socket_name(size_t *inodes, size_t n_inodes, char *sockname) {
         rc = 1;
         goto done;
       }
+      found = 1;
     }
 
     /* advance to next line; b is in this one */
@@ -329,7 +332,7 @@ static int has_socket_name(size_t *inodes, size_t n_inodes, char *sockname) {
     line = b+1;
   }
 
-  rc = 0;
+  rc = found ? 2 : 0;
 
  done:
   if (buf) free(buf);
-- 
2.43.0


From 648026034e93ed3446c8debf102656f171b3989b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:55:49 +0000
Subject: [PATCH 28/30] fix: shr-tool refuses a size that overflows when its
 suffix is applied

---
 util/shr-tool.c | 13 ++++++++-----
 1 file changed, 8 insertions(+), 5 deletions(-)

diff --git a/util/shr-tool.c b/util/shr-tool.c
index 77423e7..0af2598 100644
--- a/util/shr-tool.c
+++ b/util/shr-tool.c
@@ -951,7 +951,7 @@ int main(int argc, char *argv[]) {
     *ring1=NULL, *ring2=NULL, *data, *sub, *dir=NULL;
   struct epoll_event ev;
   struct shr_stat stat;
-  size_t app_len = 0, line_sz = 0;
+  size_t app_len = 0, line_sz = 0, scale;
   cfg.prog = argv[0];
   struct statfs sf;
   struct stat sb;
@@ -1020,13 +1020,16 @@ int main(int argc, char *argv[]) {
          sc = sscanf(optarg, "%ld%c", &cfg.size, &unit);
          if (sc == 0) usage();
          if (sc == 2) {
+            scale = 1;
             switch (unit) {
-              case 't': case 'T': cfg.size *= 1024; /* fall through */
-              case 'g': case 'G': cfg.size *= 1024; /* fall through */
-              case 'm': case 'M': cfg.size *= 1024; /* fall through */
-              case 'k': case 'K': cfg.size *= 1024; break;
+              case 't': case 'T': scale *= 1024; /* fall through */
+              case 'g': case 'G': scale *= 1024; /* fall through */
+              case 'm': case 'M': scale *= 1024; /* fall through */
+              case 'k': case 'K': scale *= 1024; break;
               default: usage(); break;
             }
+            if (cfg.size > SIZE_MAX / scale) usage();
+            cfg.size *= scale;
          }
          break;
       case 'm': /* ring mode */
-- 
2.43.0


From d6720e563c8baa9ef735255ca7e06028f4140f70 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:55:49 +0000
Subject: [PATCH 29/30] fix: shr-tool takes message counts and limits beyond 31
 bits

---
 util/shr-tool.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/util/shr-tool.c b/util/shr-tool.c
index 0af2598..005be9c 100644
--- a/util/shr-tool.c
+++ b/util/shr-tool.c
@@ -1014,7 +1014,7 @@ int main(int argc, char *argv[]) {
       case 'q': cfg.mount_mode = mnt_query; break;
       case 'H': cfg.nr_hugepages = atoi(optarg);
       case 'N': cfg.flags |= SHR_MAXMSGS_2;
-                cfg.max_msgs = atoi(optarg);
+                cfg.max_msgs = strtoul(optarg, NULL, 10);
                 break;
       case 's':  /* ring size */
          sc = sscanf(optarg, "%ld%c", &cfg.size, &unit);
-- 
2.43.0


From 8164a094792575b02ec25fcc7b2da9621bb416a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:55:49 +0000
Subject: [PATCH 30/30] fix: status -A copies all the application data to a
 pipe

---
 util/shr-tool.c | 14 +++++++++-----
 1 file changed, 9 insertions(+), 5 deletions(-)

diff --git a/util/shr-tool.c b/util/shr-tool.c
index 005be9c..be8a187 100644
--- a/util/shr-tool.c
+++ b/util/shr-tool.c
@@ -951,7 +951,7 @@ int main(int argc, char *argv[]) {
     *ring1=NULL, *ring2=NULL, *data, *sub, *dir=NULL;
   struct epoll_event ev;
   struct shr_stat stat;
-  size_t app_len = 0, line_sz = 0, scale;
+  size_t app_len = 0, line_sz = 0, scale, sz;
   cfg.prog = argv[0];
   struct statfs sf;
   struct stat sb;
@@ -1185,10 +1185,14 @@ int main(int argc, char *argv[]) {
           if (fd < 0) {
             fprintf(stderr, "open %s: %s\n", cfg.wfile, strerror(errno));
           } else { 
-            nr = write(fd, app_data, app_len);
-            if (nr < 0) {
-              fprintf(stderr, "write: %s\n", strerror(errno));
-              goto done;
+            /* a write to a pipe can be partial if stopped and resumed */
+            for (sz = 0; sz < app_len; sz += nr) {
+              nr = write(fd, app_data + sz, app_len - sz);
+              if (nr < 0) {
+                fprintf(stderr, "write: %s\n", strerror(errno));
+                rc = -1;
+                goto done;
+              }
             }
             close(fd);
           }
-- 
2.43.0

