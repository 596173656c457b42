/* Drives zt_table.  Script lines:
 *   reset <keykind> <hash> <hint1> <flags1> <hint2> <flags2>
 *   fill t lo hi | find t lo hi | wipe t lo hi (a call for each key in between, in an order of its own)
 *   set t k v | get t k | del t k | eachdel t k... | eachstop t n | copy a b
 * key kinds: i8 i4 i2 i1 (integers of that length), s (C strings), S and B (long ones of either sort), c (strings, case-blind), b (buffers with NULs)
 * hashes: lib (the library's own), id (the key number), mod<m>, const */
#include <zt.h>
#include "vp.h"
#include <errno.h>
#define NK 90000
static zt_table *T[3];
static int kind, klen, hmod, dupf[3];
static char kbuf[2][NK][24], *kbig[2][NK];
#define BIG 300      /* what long keys have in common */

static void mkkey(int which, int k, const void **p, size_t *len) {
    char *b = kbuf[which][k];
    switch (kind) {
        case 'i': *p = (void *)(intptr_t)k; *len = klen; return;
        case 's': memset(b, 0, 24); if (k) sprintf(b, "key-%d", k); *p = b;         /* key 0 is the empty one */ *len = strlen(b); return;
        case 'c': sprintf(b, which ? "KEY-%c%d" : "key-%c%d", which ? 'A' + k % 26 : 'a' + k % 26, k);
                  *p = b; *len = strlen(b); return;
        case 'S': case 'B':
            if (!(b = kbig[which][k])) {
                b = kbig[which][k] = malloc(BIG + 24); memset(b, 'k', BIG); sprintf(b + BIG, "%d", k);
            }
            if (kind == 'B') b[3] = b[40] = 0; else b[3] = b[40] = 'k';
            *p = b; *len = BIG + strlen(b + BIG); return;
        case 'b': memset(b, 0, 24); b[0] = 'x'; b[1] = 0; b[2] = (char)(k & 255); b[3] = (char)(k >> 8);
                  *p = b; *len = k ? 4 : 0; return;
    }
}
static int keyno(const void *key) {
    const char *b = key;
    switch (kind) {
        case 'i': return (int)(intptr_t)key;
        case 's': return atoi(b + 4);
        case 'c': return atoi(b + 5);
        case 'S': case 'B': return atoi(b + BIG);
        case 'b': return (unsigned char)b[2] | (unsigned char)b[3] << 8;
    }
    return -1;
}
/* the library hands the lengths on as they were given */
static int length_ok(const void *key, size_t len) {
    return len == (kind == 'i' ? (size_t)klen : kind == 'b' ? (keyno(key) ? 4 : 0) : kind == 'B' ? BIG + strlen((const char *)key + BIG) : strlen(key));
}
static int own_data, own_param;      /* what the callbacks are to be given */
#define DLEN(v) (1 + (size_t)(v) % 300)
static unsigned long hash(const void *key, size_t len, void *cd) {
    if (!length_ok(key, len) || cd != &own_data) abort();
    unsigned long k = (unsigned long)keyno(key);
    return hmod ? k % hmod : k;
}
static int cmp(const void *a, size_t al, const void *b, size_t bl, void *cd) {
    if (!length_ok(a, al) || !length_ok(b, bl) || cd != &own_data) abort();
    switch (kind) {
        case 'i': return zt_table_compare_int(a, al, b, bl, cd);
        case 's': case 'S': return zt_table_compare_string(a, al, b, bl, cd);
        case 'c': return zt_table_compare_string_case(a, al, b, bl, cd);
        case 'b': case 'B': return zt_table_compare_buff(a, al, b, bl, cd);
    }
    return 0;
}
struct pr { long k, v; };
static struct pr prs[1 << 17]; static int nprs;
static int collect(void *key, size_t kl, void *d, size_t dl, void *p) {
    if (!length_ok(key, kl) || dl != DLEN((intptr_t)d) || p != &own_param) { fprintf(stderr, "an iterator is given something else\n"); abort(); }
    if (nprs < (1 << 17)) { prs[nprs].k = keyno(key); prs[nprs].v = (long)(intptr_t)d; }
    nprs++;
    if (nprs > (1 << 17)) { fprintf(stderr, "endless iteration\n"); abort(); }
    return 0;
}
static int pcmp(const void *a, const void *b) {
    const struct pr *x = a, *y = b;
    return x->k != y->k ? (x->k < y->k ? -1 : 1) : x->v != y->v ? (x->v < y->v ? -1 : 1) : 0;
}
static void dump(int t) {
    int i; nprs = 0; zt_table_for_each(T[t], collect, &own_param);
    qsort(prs, nprs, sizeof *prs, pcmp);
    vp_key("s"); fputc('[', vp_f);
    for (i = 0; i < nprs; i++) fprintf(vp_f, "%s[%ld,%ld]", i ? "," : "", prs[i].k, prs[i].v);
    fputc(']', vp_f);
}
static int ndel, nvis, nstop; static char delset[NK];
static int eachdel(void *key, size_t kl, void *d, size_t dl, void *p) {
    int t = *(int *)p; nvis++;
    if (nvis > (1 << 17)) { fprintf(stderr, "endless iteration\n"); abort(); }
    if (delset[keyno(key)]) zt_table_del(T[t], key, kl);
    return 0;
}
static int eachstop(void *key, size_t kl, void *d, size_t dl, void *p) { return ++nvis == nstop ? (nstop % 2 ? 7 : -7) : 0; }

int main(void) {
    int n, t, i; const void *kp; size_t kl; void *r;
    vp_open();
    while ((n = vp_line()) >= 0) {
        if (!n) continue;
        const char *op = vp_w[0];
        if (!strcmp(op, "reset")) {
            zt_table_hash_func_cb hf = hash;
            for (t = 1; t <= 2; t++) if (T[t]) { zt_table_destroy(T[t]); T[t] = NULL; }
            kind = vp_w[1][0]; klen = atoi(vp_w[1] + 1); hmod = 0;
            if (!strcmp(vp_w[2], "lib"))
                hf = kind == 'i' ? zt_table_hash_int : kind == 'b' || kind == 'B' ? zt_table_hash_buff : zt_table_hash_string;
            else if (!strcmp(vp_w[2], "const")) hmod = 1;
            else if (!strncmp(vp_w[2], "mod", 3)) hmod = atoi(vp_w[2] + 3);
            for (t = 1; t <= 2; t++) {
                int fl = (int)vp_i(2 + 2 * t);
                zt_table_compare_cb cf = cmp;
                if (kind == 's' || kind == 'S') cf = zt_table_compare_string;
                T[t] = zt_table_init(t == 1 ? "t1" : NULL, hf, cf, vp_i(1 + 2 * t), fl, &own_data);
                dupf[t] = !!(fl & ZT_TABLE_ALLOW_DUP_KEYS);
            }
            vp_ev("reset"); fprintf(vp_f, ",\"a\":[%s,%s]", dupf[1] ? "true" : "false", dupf[2] ? "true" : "false");
            vp_end();
            continue;
        }
        t = (int)vp_i(1);
        vp_ev(op);
        if (!strcmp(op, "set")) {
            mkkey(0, (int)vp_i(2), &kp, &kl);
            i = zt_table_set(T[t], kp, kl, (void *)vp_i(3), DLEN(vp_i(3)));
            fprintf(vp_f, ",\"a\":[%d,%ld,%ld],\"r\":%d", t, vp_i(2), vp_i(3), i);
            dump(t);
        } else if (!strcmp(op, "get") || !strcmp(op, "del")) {
            mkkey(1, (int)vp_i(2), &kp, &kl);
            errno = 0;
            r = op[0] == 'g' ? zt_table_get(T[t], kp, kl) : zt_table_del(T[t], kp, kl);
            fprintf(vp_f, ",\"a\":[%d,%ld],\"r\":%ld", t, vp_i(2), (long)(intptr_t)r);
            fprintf(vp_f, ",\"e\":%s", errno == ENOENT ? "true" : "false");
            dump(t);
        } else if (!strcmp(op, "fill") || !strcmp(op, "find") || !strcmp(op, "wipe")) {
            int lo = (int)vp_i(2), w = (int)vp_i(3) - lo + 1, st = w > 7 ? w * 5 / 13 | 1 : 1, k, j;
            static long res[NK];
            for (;; st += 2) { int x = w, y = st; while (y) { int z = x % y; x = y; y = z; } if (x == 1) break; }
            for (j = k = 0; j < w; j++, k = (k + st) % w) {
                mkkey(op[0] != 'f' || op[2] != 'l', lo + k, &kp, &kl);
                res[k] = op[0] == 'w' ? (long)(intptr_t)zt_table_del(T[t], kp, kl) : op[2] == 'n' ? (long)(intptr_t)zt_table_get(T[t], kp, kl)
                         : zt_table_set(T[t], kp, kl, (void *)(intptr_t)(lo + k + 7), DLEN(lo + k + 7));
            }
            fprintf(vp_f, ",\"a\":[%d,%d,%d]", t, lo, lo + w - 1);
            vp_ints("r", res, w); dump(t);
        } else if (!strcmp(op, "eachdel")) {
            memset(delset, 0, sizeof delset);
            fprintf(vp_f, ",\"a\":[%d,[", t);
            for (i = 2; i < n; i++) { delset[vp_i(i)] = 1; fprintf(vp_f, "%s%ld", i > 2 ? "," : "", vp_i(i)); }
            nvis = 0; zt_table_for_each(T[t], eachdel, &t);
            fprintf(vp_f, "]],\"r\":%d", nvis);
            dump(t);
        } else if (!strcmp(op, "eachstop")) {
            nvis = 0; nstop = (int)vp_i(2);
            i = zt_table_for_each(T[t], eachstop, NULL);
            fprintf(vp_f, ",\"a\":[%d,%d],\"r\":[%d,%d]", t, nstop, nstop % 2 ? i : -i, nvis);
            dump(t);
        } else if (!strcmp(op, "copy")) {
            int b = (int)vp_i(2);
            i = zt_table_copy(T[t], T[b]);
            fprintf(vp_f, ",\"a\":[%d,%d],\"r\":%d", t, b, i);
            dump(b);
        } else vp_die(op);
        vp_end();
    }
    for (t = 1; t <= 2; t++) if (T[t]) zt_table_destroy(T[t]);
    return 0;
}
