/* malloc family wrapped (link with VP_WRAP of harness/core.py): counts the blocks the library holds while watching, and
   makes the next growing allocation fail on demand.  Allocations of the driver itself are not counted unless vp_own(). */
#ifndef VP_MEM_H
#define VP_MEM_H
#include <stdlib.h>
#include <string.h>
void *__real_malloc(size_t); void *__real_calloc(size_t, size_t); void *__real_realloc(void *, size_t);
void __real_free(void *); char *__real_strdup(const char *);
#define VP_NB (1 << 15)
static void *vp_blk[VP_NB]; static int vp_nblk; static long vp_live; static int vp_watch, vp_fail;
static void vp_rm(void *p) {
    unsigned long h = ((unsigned long)p >> 4) % VP_NB; int i;
    if (!p || !vp_live) return;
    for (i = 0; i < VP_NB; i++, h = (h + 1) % VP_NB) {
        if (vp_blk[h] == p) { vp_blk[h] = (void *)1; vp_live--; return; }
        if (!vp_blk[h]) return; }
}
static void *vp_in(void *p) {
    unsigned long h = ((unsigned long)p >> 4) % VP_NB; int i;
    if (!p || !vp_watch) return p;
    for (i = 0; i < VP_NB; i++, h = (h + 1) % VP_NB)
        if (!vp_blk[h] || vp_blk[h] == (void *)1) { vp_blk[h] = p; vp_live++; return p; }
    abort();
}
static void vp_mem_reset(void) { memset(vp_blk, 0, sizeof vp_blk); vp_live = 0; vp_watch = vp_fail = 0; }
static int vp_failing(void) { if (vp_watch && vp_fail) { vp_fail = 0; return 1; } return 0; }
void *__wrap_malloc(size_t n) { return vp_failing() ? NULL : vp_in(__real_malloc(n)); }
void *__wrap_calloc(size_t a, size_t b) { return vp_failing() ? NULL : vp_in(__real_calloc(a, b)); }
char *__wrap_strdup(const char *s) { return vp_in(__real_strdup(s)); }
void *__wrap_realloc(void *p, size_t n) {
    void *q; if (vp_failing()) return NULL;
    q = __real_realloc(p, n); if (q || !n) { vp_rm(p); vp_in(q); } return q; }
/* driver tokens: freeing one is only reported */
static void **vp_tok; static int vp_ntok; static void (*vp_tokfree)(void *);
void __wrap_free(void *p) {
    int i; for (i = 0; i < vp_ntok; i++) if (vp_tok[i] == p) { vp_tokfree(p); return; }
    vp_rm(p); __real_free(p); }
#define VP_LIB(stmt) do { vp_watch = 1; stmt; vp_watch = 0; } while (0)
#endif
