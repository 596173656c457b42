/* Drives zt_ipv4_tbl with several tables. */
#include <zt.h>
#include <libzt/zt_ipv4_tbl.h>
#include "vp.h"
#include "vp_mem.h"
#define NT 3
static zt_ipv4_tbl *T[NT + 1];
static struct { zt_ipv4_node *p; int t; } tk[1 << 14]; static int ntk;
static int tok(zt_ipv4_node *p, int t, int make) {
    int i; if (!p) return 0;
    for (i = 1; i <= ntk; i++) if (tk[i].t == t && tk[i].p == p) return i;
    if (!make) return -7;                      /* no node of this table */
    ntk++; tk[ntk].p = p; tk[ntk].t = t; return ntk;
}
static void drop(int t) { int i; for (i = 1; i <= ntk; i++) if (tk[i].t == t) tk[i].t = 0; }
static void octs(uint32_t a) { fprintf(vp_f, "[%u,%u,%u,%u]", a >> 24, (a >> 16) & 255, (a >> 8) & 255, a & 255); }
static void chars(const void *p, size_t n) { size_t i; fputc('[', vp_f);
    for (i = 0; i < n; i++) fprintf(vp_f, "%s%u", i ? "," : "", ((const unsigned char *)p)[i]); fputc(']', vp_f); }
/* the text in a block of its own, exactly as long as it is */
static char *text(const char *w, size_t *n) { unsigned char *b = vp_hex(w, n); char *s = __real_malloc(*n + 1); memcpy(s, b, *n + 1); free(b); return s; }
static void fields(zt_ipv4_node *x) {
    vp_key("f"); if (!x) { fputs("[]", vp_f); return; }
    fprintf(vp_f, "[%d,", x->addr->bitlen); octs(x->addr->addr); fputc(',', vp_f); octs(x->addr->mask); fputc(',', vp_f); octs(x->addr->broadcast); fputc(']', vp_f);
}
int main(void) {
    int n, i, t; size_t len; char *s;
    vp_open(); zt_ipv4_tbl_destroy(zt_ipv4_tbl_init(4));      /* the first pool registers a handler to run at exit, once */
    while ((n = vp_line()) >= 0) {
        if (!n) continue;
        const char *op = vp_w[0];
        if (!strcmp(op, "reset")) {
            for (i = 1; i <= NT; i++) if (T[i]) { zt_ipv4_tbl_destroy(T[i]); T[i] = NULL; }
            vp_mem_reset(); ntk = 0; memset(tk, 0, sizeof tk); vp_ev(op); vp_end(); continue;
        }
        if (!strcmp(op, "str2net")) {
            uint32_t a = 0; int bl = 77, r; s = text(vp_w[1], &len); r = zt_ipv4_str2net(s, &a, &bl);
            vp_ev(op); fputs(",\"a\":[", vp_f); chars(s, len); fputc(']', vp_f); vp_int("r", r); vp_key("f");
            if (r) fputs("[]", vp_f); else { fputc('[', vp_f); octs(a); fprintf(vp_f, ",%d]", bl); }
            vp_end(); free(s); continue;
        }
        if (!strcmp(op, "ip2int")) {
            s = text(vp_w[1], &len); uint32_t a = zt_ipv4_ip2int(s);
            vp_ev(op); fputs(",\"a\":[", vp_f); chars(s, len); fputs("],\"r\":", vp_f); octs(a); vp_end(); free(s); continue;
        }
        if (!strcmp(op, "int2ip")) {
            uint32_t a = (uint32_t)strtoul(vp_w[1], NULL, 0); s = zt_ipv4_int2ip(a);
            vp_ev(op); vp_key("a"); octs(a); vp_bytes("r", s, strlen(s)); vp_end(); free(s); continue;
        }
        t = (int)vp_i(1); zt_ipv4_node *x = NULL; int r = 0;
        vp_ev(op);
        if (!strcmp(op, "init")) { VP_LIB(T[t] = zt_ipv4_tbl_init((uint32_t)strtoul(vp_w[2], NULL, 0)));
            fprintf(vp_f, ",\"a\":[%d],\"r\":%d,\"f\":[]", t, T[t] != NULL); vp_end(); continue; }
        if (!strcmp(op, "destroy")) { VP_LIB(zt_ipv4_tbl_destroy(T[t])); T[t] = NULL; drop(t);
            fprintf(vp_f, ",\"a\":[%d],\"r\":0,\"f\":[%ld]", t, vp_live); vp_end(); continue; }
        s = text(vp_w[2], &len);
        fprintf(vp_f, ",\"a\":[%d,", t); chars(s, len);
        if (!strcmp(op, "add")) { VP_LIB(x = zt_ipv4_tbl_add_frm_str(T[t], s)); r = tok(x, t, 1); }
        else if (!strcmp(op, "addnode")) { VP_LIB(x = zt_ipv4_node_str_init(s));
            if (x) VP_LIB(r = zt_ipv4_tbl_add_node(T[t], x)); r = r ? -1 : tok(x, t, 1); }
        else if (!strcmp(op, "search")) { VP_LIB(x = zt_ipv4_tbl_search_from_str(T[t], s)); r = tok(x, t, 0); }
        else if (!strcmp(op, "searchnode")) { zt_ipv4_node *q; VP_LIB(q = zt_ipv4_node_str_init(s));
            if (q) { VP_LIB(x = zt_ipv4_tbl_search_node(T[t], q)); VP_LIB(zt_mem_pool_release((void **)&q->addr); zt_mem_pool_release((void **)&q)); }
            r = tok(x, t, 0); }
        else if (!strcmp(op, "lookups")) { int k = (int)vp_i(3); long l; fprintf(vp_f, ",%d", k);
            for (i = 0; i < 2; i++) VP_LIB(x = zt_ipv4_tbl_search_from_str(T[t], s));
            l = vp_live; for (i = 0; i < k; i++) VP_LIB(x = zt_ipv4_tbl_search_from_str(T[t], s));
            fprintf(vp_f, "],\"r\":%d,\"f\":[]", vp_live <= l); vp_end(); free(s); continue; }
        else vp_die(op);
        fprintf(vp_f, "],\"r\":%d", r); fields(r == -7 ? NULL : x); vp_end(); free(s);
    }
    return 0;
}
