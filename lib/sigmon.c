/* Raises signals at chosen points of a run and marks them in the standard output, which passes through here
   unbuffered so that it is the ordered log of the run's events. SIGMON is a list, separated by blanks, of
   COUNT:SIGNAL (when the allocator has been called that often) and PATTERN+COUNT:SIGNAL (when it has been called that
   often since the output last ended in PATTERN, where _ stands for a blank). SIGMON_OUT receives the number of calls. */
#define _GNU_SOURCE
#include <fcntl.h>
#include <signal.h>
#include <stddef.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <unistd.h>
extern void *__libc_malloc(size_t); extern void *__libc_calloc(size_t, size_t);
extern void *__libc_realloc(void *, size_t); extern void __libc_free(void *);
static struct { char pat[40]; long at; int sig, armed; } ev[8];
static long calls;
static int n;
static char tail[128];
static void put(const char *b, size_t l) {
  while (l) {
    ssize_t w = write(1, b, l);
    if (w < 0) return;
    b += w; l -= w;
  }
}
static void point(void) {
  int i;
  calls++;
  for (i = 0; i < n; i++)
    if (ev[i].armed && calls >= ev[i].at) {
      char b[40]; int s = ev[i].sig;
      ev[i].armed = 0;
      put(b, snprintf(b, sizeof b, "<<SIG %d>>", s));
      raise(s);
    }
}
static ssize_t out(void *c, const char *b, size_t l) {
  size_t i, t = strlen(tail);
  put(b, l);
  for (i = 0; i < l; i++) {
    int k;
    if (t == sizeof tail - 1) { memmove(tail, tail + 64, t - 64 + 1); t -= 64; }
    tail[t++] = b[i]; tail[t] = 0;
    for (k = 0; k < n; k++) {
      size_t p = strlen(ev[k].pat);
      if (p && p <= t && !strcmp(tail + t - p, ev[k].pat)) { ev[k].pat[0] = 0; ev[k].at += calls; ev[k].armed = 1; }
    }
  }
  return l;
}
void *malloc(size_t k) { point(); return __libc_malloc(k); }
void *calloc(size_t a, size_t b) { point(); return __libc_calloc(a, b); }
void *realloc(void *o, size_t k) { point(); return __libc_realloc(o, k); }
void free(void *p) { point(); __libc_free(p); }
static void fin(void) {
  char b[40]; const char *f = getenv("SIGMON_OUT");
  if (!f) return;
  int l = snprintf(b, sizeof b, "%ld\n", calls);
  int d = open(f, O_WRONLY | O_CREAT | O_TRUNC, 0600);
  if (d >= 0) { if (write(d, b, l) != l) abort(); close(d); }
}
__attribute__((constructor)) static void ini(void) {
  const char *s = getenv("SIGMON");
  cookie_io_functions_t io = { NULL, out, NULL, NULL };
  FILE *f = fopencookie(NULL, "w", io);
  if (!f) abort();
  setvbuf(f, NULL, _IONBF, 0);
  stdout = f;
  atexit(fin);
  while (s && *s && n < 8) {
    const char *p = strchr(s, '+'), *e = strchr(s, ' '), *c;
    if (!e) e = s + strlen(s);
    for (c = e; *c != ':'; c--)
      ;
    if (p && p < e) {
      size_t l = p - s, i;
      if (l > sizeof ev[0].pat - 1) abort();
      for (i = 0; i < l; i++) ev[n].pat[i] = s[i] == '_' ? ' ' : s[i];
      s = p + 1;
    } else
      ev[n].armed = 1;
    ev[n].at = strtol(s, NULL, 10);
    ev[n].sig = strtol(c + 1, NULL, 10);
    n++;
    s = *e ? e + 1 : e;
  }
}
