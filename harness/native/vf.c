#include <stdlib.h>
#include <string.h>
static long calls, live, fail_at = -1, failed;
static unsigned char fill;
/* fail_at: index (from 0, counted from vf_arm) of the allocation that fails; -1: none; many: how many in a row */
static long many;
void vf_arm(long at, long n) { __atomic_store_n(&calls, 0, __ATOMIC_SEQ_CST); failed = 0; many = n; fail_at = at; }
long vf_calls(void) { return calls; }
long vf_failed(void) { return failed; }
long vf_live(void) { return live; }
void vf_fill(int c) { fill = (unsigned char)c; }
static int fails(void) {
    long k = __atomic_fetch_add(&calls, 1, __ATOMIC_SEQ_CST);
    if (fail_at >= 0 && k >= fail_at && k < fail_at + many) { __atomic_fetch_add(&failed, 1, __ATOMIC_SEQ_CST); return 1; }
    return 0;
}
void *vf_malloc(size_t n) {
    void *p;
    if (fails() || !(p = malloc(n))) return NULL;
    memset(p, fill, n);
    __atomic_fetch_add(&live, 1, __ATOMIC_SEQ_CST);
    return p;
}
void *vf_calloc(size_t k, size_t n) {
    void *p;
    if (fails() || !(p = calloc(k, n))) return NULL;
    __atomic_fetch_add(&live, 1, __ATOMIC_SEQ_CST);
    return p;
}
void *vf_realloc(void *q, size_t n) {
    void *p;
    if (fails() || !(p = realloc(q, n))) return NULL;
    if (!q) __atomic_fetch_add(&live, 1, __ATOMIC_SEQ_CST);
    return p;
}
void vf_free(void *p) {
    if (p) __atomic_fetch_sub(&live, 1, __ATOMIC_SEQ_CST);
    free(p);
}
