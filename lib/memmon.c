/* Counts live heap blocks and bytes of a whole run, and their peaks; written at exit to $MEMMON_OUT.
   Stands in for the allocator of the program and of the C library. */
#include <fcntl.h>
#include <malloc.h>
#include <stddef.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <unistd.h>
extern void *__libc_malloc(size_t); extern void *__libc_calloc(size_t, size_t);
extern void *__libc_realloc(void *, size_t); extern void __libc_free(void *);
static long blocks, bytes, pblocks, pbytes, calls;
static void add(void *p) {
  if (!p) return;
  blocks++; calls++; bytes += malloc_usable_size(p);
  if (blocks > pblocks) pblocks = blocks;
  if (bytes > pbytes) pbytes = bytes;
}
static void sub(void *p) { if (p) { blocks--; bytes -= malloc_usable_size(p); } }
void *malloc(size_t n) { void *p = __libc_malloc(n); add(p); return p; }
void *calloc(size_t a, size_t b) { void *p = __libc_calloc(a, b); add(p); return p; }
void *realloc(void *o, size_t n) { sub(o); void *p = __libc_realloc(o, n); if (p) add(p); else if (o && n) add(o); return p; }
void free(void *p) { sub(p); __libc_free(p); }
static void fin(void) {
  char b[200]; const char *f = getenv("MEMMON_OUT");
  if (!f) return;
  int n = snprintf(b, sizeof b, "%ld %ld %ld %ld %ld\n", blocks, bytes, pblocks, pbytes, calls);
  int d = open(f, O_WRONLY | O_CREAT | O_TRUNC, 0600);
  if (d >= 0) { if (write(d, b, n) != n) abort(); close(d); }
}
__attribute__((constructor)) static void ini(void) { atexit(fin); }
