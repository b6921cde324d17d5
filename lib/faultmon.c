/* Makes one call of the file or memory interface fail, and counts those calls. Linked with --wrap of fopen, malloc,
   calloc and realloc. FAULTMON says which:
     open:PAT         files whose name matches cannot be opened
     write:N:PAT      of the bytes written to such files the first N are, the disk is full then
     once:N:PAT       the same, but later writes succeed again
     close:0:PAT      everything seems written, but closing fails
     read:N:PAT       N bytes can be read from each such file, then there is an I/O error
     alloc:N  allocs:N   the N-th request for memory is refused (and all later ones)
   The log (FAULTMON_OUT) says which files were opened, when a fault struck and how many requests for memory there were. */
#define _GNU_SOURCE
#include <errno.h>
#include <fcntl.h>
#include <fnmatch.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <unistd.h>
extern void *__real_malloc(size_t); extern void *__real_calloc(size_t, size_t);
extern void *__real_realloc(void *, size_t); extern FILE *__real_fopen(const char *, const char *);
static char kind[16], pat[256];
static long at = -1, requests, passed;
static int logfd = -1, struck, writing;
typedef struct { FILE *f; long got; int bad; } File;
static void logit(const char *a, const char *b) {
  char s[600]; int l = snprintf(s, sizeof s, "%s %s\n", a, b);
  if (logfd >= 0 && write(logfd, s, l) != l) _exit(99);
}
static void strike(const char *name) { if (!struck++) logit("STRUCK", name); }
static int refused(void) {
  requests++;
  if (at > 0 && (!strcmp(kind, "alloc") ? requests == at : !strcmp(kind, "allocs") && requests >= at)) { strike("memory"); errno = ENOMEM; return 1; }
  return 0;
}
void *__wrap_malloc(size_t n) { return refused() ? NULL : __real_malloc(n); }
void *__wrap_calloc(size_t a, size_t b) { return refused() ? NULL : __real_calloc(a, b); }
void *__wrap_realloc(void *p, size_t n) { return refused() ? NULL : __real_realloc(p, n); }
static ssize_t wr(void *c, const char *b, size_t n) {
  File *f = c; size_t ok = n;
  if (!strcmp(kind, "write") || (!strcmp(kind, "once") && !struck)) {
    if (passed >= at) { strike("write"); errno = ENOSPC; return 0; }
    if (passed + (long) n > at) { ok = at - passed; strike("write"); }
  }
  if (fwrite(b, 1, ok, f->f) != ok) return 0;
  passed += ok;
  return ok;
}
static ssize_t rd(void *c, char *b, size_t n) {
  File *f = c;
  if (!strcmp(kind, "read")) {
    if (f->got >= at) { strike("read"); errno = EIO; return -1; }
    if (f->got + (long) n > at) n = at - f->got;
  }
  n = fread(b, 1, n, f->f);
  f->got += n;
  return n;
}
static int cl(void *c) {
  File *f = c;
  fclose(f->f); free(f);
  if (!strcmp(kind, "close")) { strike("close"); errno = EIO; return -1; }
  return 0;
}
FILE *__wrap_fopen(const char *name, const char *mode) {
  int w = strchr(mode, 'w') || strchr(mode, 'a');
  FILE *g; File *f;
  logit(w ? "WRITE" : "READ", name);
  if (!kind[0] || kind[0] == 'a' || fnmatch(pat, name, 0)) return __real_fopen(name, mode);
  if (!strcmp(kind, "open")) { strike("open"); errno = w ? EACCES : ENOENT; return NULL; }
  if (w == !strcmp(kind, "read")) return __real_fopen(name, mode);
  g = __real_fopen(name, mode);
  if (!g) return NULL;
  f = __real_malloc(sizeof *f);
  f->f = g; f->got = 0;
  { cookie_io_functions_t io = { rd, wr, NULL, cl }; g = fopencookie(f, mode, io); }
  setvbuf(g, NULL, _IOFBF, 512);
  return g;
}
static void fin(void) { char b[40]; snprintf(b, sizeof b, "%ld", requests); logit("REQUESTS", b); }
__attribute__((constructor)) static void ini(void) {
  const char *s = getenv("FAULTMON"), *o = getenv("FAULTMON_OUT"), *c;
  if (o) logfd = open(o, O_WRONLY | O_CREAT | O_APPEND | O_CLOEXEC, 0600);
  atexit(fin);
  if (!s || !(c = strchr(s, ':'))) return;
  snprintf(kind, sizeof kind, "%.*s", (int) (c - s), s);
  s = c + 1;
  if (strcmp(kind, "open")) { at = strtol(s, (char **) &s, 10); if (*s == ':') s++; }
  snprintf(pat, sizeof pat, "%s", s);
}
