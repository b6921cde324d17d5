/* Drives the real vector and index containers with the operations read from stdin; after each one prints what a
   walk over the containers it touched sees. Live heap blocks of the program are counted through --wrap. */
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <math.h>
#include "mdp/mdp.h"
#include "global.h"
#include "alpha.h"
#include "double-vector.h"
#include "index-list.h"
#include "associative-array.h"
#include "belief.h"
static long live;
extern void *__real_malloc(size_t); extern void *__real_calloc(size_t, size_t); extern void *__real_realloc(void *, size_t); extern void __real_free(void *);
void *__wrap_malloc(size_t n) { void *p = __real_malloc(n); if (p) live++; return p; }
void *__wrap_calloc(size_t a, size_t b) { void *p = __real_calloc(a, b); if (p) live++; return p; }
void *__wrap_realloc(void *o, size_t n) { void *p = __real_realloc(o, n); if (p && !o) live++; return p; }
void __wrap_free(void *p) { if (p) live--; __real_free(p); }
#define K 6
static AlphaList L[K];
static DoubleVectorList D[K];
static IndexList I[K];
static BeliefList B[K];
static AssocArray A;
static int attrs[16];
static int num(void) { int x; if (scanf("%d", &x) != 1) exit(90); return x; }
static double dbl(void) { double x; if (scanf("%lf", &x) != 1) exit(90); return x; }
static double *vec(void) { double *v = newAlpha(); for (int i = 0; i < gNumStates; i++) v[i] = dbl(); return v; }
static char *word(void) { static char w[2][400]; static int k; k ^= 1; if (scanf("%399s", w[k]) != 1) exit(90); return w[k]; }
static void pv(double *v) { if (!v) { printf(" -"); return; } printf(" ["); for (int i = 0; i < gNumStates; i++) printf("%s%.10g", i ? " " : "", v[i]); printf("]"); }
static void pnode(AlphaList n) {
  if (!n) { printf(" NULL"); return; }
  printf(" (%d %d %d", n->id, n->action, n->mark); pv(n->alpha); pv(n->witness);
  if (n->obs_source) { printf(" {"); for (int z = 0; z < gNumObservations; z++) printf("%s%d", z ? " " : "", n->obs_source[z] ? n->obs_source[z]->id : -1); printf("}"); } else printf(" -");
  printf(")");
}
static void dumpL(int k) {
  int c = 0; AlphaList n, last = NULL;
  printf("  L%d %d:", k, sizeAlphaList(L[k]));
  for (n = L[k]->head; n && c <= L[k]->length + 3; n = n->next, c++) { pnode(n); last = n; }
  printf(" %s\n", last == L[k]->tail ? "ok" : "TAIL");
}
static void dumpD(int k) {
  int c = 0; DoubleVectorNode n, last = NULL;
  printf("  D%d %d:", k, DV_sizeOfList(D[k]));
  for (n = D[k]->head; n && c <= D[k]->length + 3; n = n->next, c++) { printf(" (%d %d", n->id, n->attr ? (int)((int *)n->attr - attrs) : -1); pv(n->v); printf(")"); last = n; }
  printf(" %s\n", last == D[k]->tail ? "ok" : "TAIL");
}
static void dumpB(int k) { printf("  B%d %d:", k, B[k] ? sizeBeliefList(B[k]) : 0); for (BeliefList b = B[k]; b; b = b->next) pv(b->b); printf("\n"); }
static void dumpI(int k) { printf("  I%d %d:", k, IL_sizeOf(I[k])); for (int i = 0; i < IL_sizeOf(I[k]); i++) printf(" %d", I[k]->element[i]); printf(" %s\n", I[k]->capacity >= I[k]->size ? "ok" : "CAP"); }
static void dumpA(void) { printf("  A %d:\n", AA_size(A)); AA_fprintf(A, stdout); }
static AlphaList nth(int k, int i) { AlphaList n = L[k]->head; while (i-- && n) n = n->next; return n; }
static DoubleVectorNode dnth(int k, int i) { DoubleVectorNode n = D[k]->head; while (i-- && n) n = n->next; return n; }
static int idx(int k, AlphaList x) { int i = 0; if (!x) return -1; for (AlphaList n = L[k]->head; n; n = n->next, i++) if (n == x) return i; return -2; }
static int didx(int k, DoubleVectorNode x) { int i = 0; if (!x) return -1; for (DoubleVectorNode n = D[k]->head; n; n = n->next, i++) if (n == x) return i; return -2; }
int main(void) {
  char op[40]; long base = 0;
  static char obuf[1 << 16]; setvbuf(stdout, obuf, _IOFBF, sizeof obuf);
  static char ibuf[1 << 16]; setvbuf(stdin, ibuf, _IOFBF, sizeof ibuf);
  gNumStates = num(); gNumObservations = num(); gNumActions = 3; gStdErrFile = stderr; gValueType = REWARD_value_type;
  int aa = num(), width = num();
  base = live;
  for (int k = 0; k < K; k++) { L[k] = newAlphaList(); D[k] = DV_newList(NULL); I[k] = IL_new(); B[k] = NULL; }
  A = AA_new(aa, width);
  while (scanf("%39s", op) == 1) {
    int k, j, i; double e; double *v; AlphaList n; DoubleVectorNode d;
    printf("%s", op);
#define IS(x) (!strcmp(op, x))
    if (IS("append")) { k = num(); i = num(); v = vec(); n = appendAlphaList(L[k], v, i); printf(" %d\n", n == L[k]->tail); dumpL(k); }
    else if (IS("prepend")) { k = num(); i = num(); v = vec(); n = prependAlphaList(L[k], v, i); printf(" %d\n", n == L[k]->head); dumpL(k); }
    else if (IS("dequeue")) { k = num(); n = dequeueAlphaNode(L[k]); pnode(n); printf(" %d\n", n ? n->next == NULL : 1); if (n) destroyAlphaNode(n); dumpL(k); }
    else if (IS("move")) { k = num(); j = num(); i = num(); n = dequeueAlphaNode(L[k]); if (n) { if (i == 0) enqueueAlphaNode(L[j], n); else if (i == 1) appendNodeToAlphaList(L[j], n); else prependNodeToAlphaList(L[j], n); } printf("\n"); dumpL(k); dumpL(j); }
    else if (IS("dupnode")) { k = num(); j = num(); i = num(); n = nth(k, i); if (n) n = appendDuplicateNodeToAlphaList(L[j], n); printf("\n"); dumpL(k); dumpL(j); }
    else if (IS("dup")) { k = num(); j = num(); destroyAlphaList(L[j]); L[j] = duplicateAlphaList(L[k]); printf("\n"); dumpL(j); }
    else if (IS("dupw")) { k = num(); j = num(); destroyAlphaList(L[j]); L[j] = duplicateAlphaListWithWitnesses(L[k]); printf("\n"); dumpL(k); dumpL(j); }
    else if (IS("copy")) { k = num(); j = num(); clearAlphaList(L[j]); copyAlphaList(L[j], L[k]); printf("\n"); dumpL(k); dumpL(j); }
    else if (IS("union")) { k = num(); j = num(); unionTwoAlphaLists(L[k], L[j]); L[j] = newAlphaList(); printf("\n"); dumpL(k); dumpL(j); }
    else if (IS("clear")) { k = num(); clearAlphaList(L[k]); printf("\n"); dumpL(k); }
    else if (IS("renew")) { k = num(); destroyAlphaList(L[k]); L[k] = newAlphaList(); printf("\n"); dumpL(k); }
    else if (IS("find")) { k = num(); e = dbl(); v = vec(); printf(" %d %d\n", idx(k, findAlphaVector(L[k], v, e)), queryAlphaList(L[k], v, e)); destroyAlpha(v); }
    else if (IS("same")) { k = num(); j = num(); e = dbl(); printf(" %d %d\n", sameAlphaList(L[k], L[j], e), similarAlphaList(L[k], L[j], e)); }
    else if (IS("sort")) { k = num(); sortAlphaList(L[k]); printf("\n"); dumpL(k); }
    else if (IS("renumber")) { k = num(); renumberAlphaList(L[k]); printf("\n"); dumpL(k); }
    else if (IS("witness")) { k = num(); i = num(); v = vec(); n = nth(k, i); if (n) addWitnessToAlphaNode(n, v); destroyAlpha(v); printf("\n"); dumpL(k); }
    else if (IS("source")) { k = num(); i = num(); j = num(); int q = num(); n = nth(k, i); if (n) { if (!n->obs_source) n->obs_source = newObsSourceArray(); n->obs_source[q] = nth(j, 0); } printf("\n"); dumpL(k); for (int t = 0; t < K; t++) clearObsSourceAlphaList(L[t]); }
    else if (IS("mark")) { k = num(); i = num(); n = nth(k, i); if (n) n->mark = TRUE; printf("\n"); dumpL(k); }
    else if (IS("clearmark")) { k = num(); clearMarkAlphaList(L[k]); printf("\n"); dumpL(k); }
    else if (IS("markall")) { k = num(); markAllAlphaList(L[k]); printf("\n"); dumpL(k); }
    else if (IS("unmarked")) { k = num(); printf(" %d %d %d\n", sizeUnmarkedAlphaList(L[k]), allMarkedAlphaList(L[k]), idx(k, findUnmarkedVector(L[k]))); }
    else if (IS("extunmarked")) { k = num(); n = extractUnmarkedVector(L[k]); pnode(n); printf("\n"); if (n) destroyAlphaNode(n); dumpL(k); }
    else if (IS("markdom")) { k = num(); v = vec(); printf(" %d", markDominatedAlphaList(v, L[k])); printf(" %d\n", dominatedAlphaList(v, L[k])); destroyAlpha(v); dumpL(k); }
    else if (IS("extmarked")) { k = num(); j = num(); destroyAlphaList(L[j]); L[j] = extractMarkedAlphaList(L[k]); printf("\n"); dumpL(k); dumpL(j); }
    else if (IS("rmmarked")) { k = num(); printf(" %d\n", removeMarkedAlphaList(L[k])); dumpL(k); }
    else if (IS("rmdom")) { k = num(); v = vec(); printf(" %d\n", removeDominatedAlphaList(v, L[k])); destroyAlpha(v); dumpL(k); }
    else if (IS("extract")) { k = num(); j = num(); i = num(); n = extractAlphaNode(L[k], nth(j, i)); pnode(n); printf("\n"); if (n) destroyAlphaNode(n); dumpL(k); dumpL(j); }
    else if (IS("extfrom")) { k = num(); e = dbl(); v = vec(); n = extractFromAlphaList(L[k], v, e); pnode(n); printf("\n"); if (n) destroyAlphaNode(n); destroyAlpha(v); dumpL(k); }
    else if (IS("rmfrom")) { k = num(); e = dbl(); v = vec(); printf(" %d\n", removeFromAlphaList(L[k], v, e)); destroyAlpha(v); dumpL(k); }
    else if (IS("unique")) { k = num(); i = num(); e = dbl(); v = vec(); n = appendUniqueAlphaList(L[k], v, i, e); printf(" %d\n", n != NULL); if (!n) destroyAlpha(v); dumpL(k); }
    else if (IS("best")) { k = num(); v = vec(); e = 0; n = bestVector(L[k], v, &e, 1e-9); printf(" %d", idx(k, n)); if (n) printf(" %ld", lround(e * 1e6)); printf("\n"); destroyAlpha(v); }
    else if (IS("rmbest")) { k = num(); v = vec(); n = removebestVectorNode(L[k], v, 1e-9); pnode(n); printf("\n"); if (n) destroyAlphaNode(n); destroyAlpha(v); dumpL(k); }
    else if (IS("maxsize")) { i = num(); printf(" %d\n", maxSizeAlphaLists(L, i)); }
    else if (IS("file")) { k = num(); j = num(); i = num(); saveAlphaList(L[k], "f.alpha"); n = readAlphaList("f.alpha", i); if (n) { destroyAlphaList(L[j]); L[j] = n; } printf(" %d\n", n != NULL); dumpL(j); }
    /* plain vector lists */
    else if (IS("Dappend")) { k = num(); i = num(); v = vec(); d = DV_appendList(D[k], v, i < 0 ? NULL : attrs + i); printf(" %d\n", d == D[k]->tail); dumpD(k); }
    else if (IS("Dprepend")) { k = num(); i = num(); v = vec(); d = DV_prependList(D[k], v, i < 0 ? NULL : attrs + i); printf(" %d\n", d == D[k]->head); dumpD(k); }
    else if (IS("Ddequeue")) { k = num(); d = DV_dequeueNode(D[k]); printf(" %d", d ? d->id : -9); if (d) { pv(d->v); DV_destroyNode(d); } printf("\n"); dumpD(k); }
    else if (IS("Dmove")) { k = num(); j = num(); i = num(); d = DV_dequeueNode(D[k]); if (d) { if (i == 0) DV_enqueueNode(D[j], d); else if (i == 1) DV_appendNodeToList(D[j], d); else DV_prependNodeToList(D[j], d); } printf("\n"); dumpD(k); dumpD(j); }
    else if (IS("Ddupnode")) { k = num(); j = num(); i = num(); d = dnth(k, i); if (d) DV_appendDuplicateNodeToList(D[j], d); printf("\n"); dumpD(k); dumpD(j); }
    else if (IS("Ddup")) { k = num(); j = num(); DV_destroyList(D[j]); D[j] = DV_duplicateList(D[k]); printf("\n"); dumpD(k); dumpD(j); }
    else if (IS("Dcopy")) { k = num(); j = num(); DV_clearList(D[j]); DV_copyList(D[j], D[k]); printf("\n"); dumpD(k); dumpD(j); }
    else if (IS("Dunion")) { k = num(); j = num(); i = DV_sizeOfList(D[j]); DV_unionTwoLists(D[k], D[j]); D[j] = DV_newList(NULL); printf("\n"); dumpD(k); dumpD(j); }
    else if (IS("Dclear")) { k = num(); DV_clearList(D[k]); printf("\n"); dumpD(k); }
    else if (IS("Drenumber")) { k = num(); DV_renumberList(D[k]); printf("\n"); dumpD(k); }
    else if (IS("Dfind")) { k = num(); e = dbl(); v = vec(); printf(" %d %d\n", didx(k, DV_findNode(D[k], v, e)), DV_queryList(D[k], v, e)); destroyAlpha(v); }
    else if (IS("Dsame")) { k = num(); j = num(); e = dbl(); printf(" %d %d\n", DV_isSameList(D[k], D[j], e), DV_isSimilaraList(D[k], D[j], e)); }
    else if (IS("Dvec")) { double *w; e = dbl(); v = vec(); w = vec(); printf(" %d %d %d %d %d %d %d %d\n", DV_isSame(v, w, e), DV_isZero(v, e), DV_isLexicographicallyBetter(v, w, e), DV_isDominated(v, w),
             sameAlpha(v, w, e), isZeroAlpha(v, e), isLexicographicallyBetterAlpha(v, w, e), isDominatedVector(v, w)); destroyAlpha(v); DV_destroy(w); }
    /* growable index lists */
    else if (IS("Iappend")) { k = num(); i = num(); j = num(); while (j--) IL_append(I[k], i++); printf("\n"); dumpI(k); }
    else if (IS("Iresize")) { k = num(); IL_resize(I[k]); printf("\n"); dumpI(k); }
    else if (IS("Irenew")) { k = num(); IL_dispose(I[k]); I[k] = IL_new(); printf("\n"); dumpI(k); }
    /* belief lists */
    else if (IS("Bappend")) { k = num(); v = vec(); B[k] = appendBeliefList(B[k], v); destroyAlpha(v); printf("\n"); dumpB(k); }
    else if (IS("Bprepend")) { k = num(); v = vec(); B[k] = prependBeliefList(B[k], v); destroyAlpha(v); printf("\n"); dumpB(k); }
    else if (IS("Bfind")) { k = num(); e = dbl(); v = vec(); BeliefList b = B[k] ? findBeliefState(B[k], v, e) : NULL; i = 0; BeliefList t = B[k]; while (t && t != b) { t = t->next; i++; } if (!b) i = -1; else if (!t) i = -2; printf(" %d\n", i); destroyAlpha(v); }
    else if (IS("Brenew")) { k = num(); destroyBeliefList(B[k]); B[k] = NULL; printf("\n"); dumpB(k); }
    /* name tables */
    else if (IS("Aput")) { char *a = word(), *b = word(); printf(" %d\n", AA_put(A, a, b)); dumpA(); }
    else if (IS("Aget")) { char *a = word(); char *r = AA_get(A, a); printf(" %s\n", r ? r : "NULL"); }
    else { printf(" ?\n"); exit(91); }
    if (ferror(stdout)) exit(92);
  }
  for (int k = 0; k < K; k++) { destroyAlphaList(L[k]); DV_destroyList(D[k]); IL_dispose(I[k]); if (B[k]) destroyBeliefList(B[k]); }
  AA_delete(A);
  printf("end %ld\n", live - base);
  return 0;
}
