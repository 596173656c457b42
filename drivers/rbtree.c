/* Drives zt_rbt: insert/remove/find/nfind/next/min/max/walk/walkdel over nodes with integer keys */
#include <zt.h>
#include "vp.h"
#define NK 8192
struct nd { int pad; zt_rbt_node node; int key; };
static struct nd *in[NK];            /* the node currently linked for a key */
static zt_rbt *root;
static int cmp(zt_rbt_node *a, zt_rbt_node *b) {
    int x = zt_rbt_data(a, struct nd, node)->key, y = zt_rbt_data(b, struct nd, node)->key;
    return x < y ? -7 : x > y ? 9 : 0;
}
static int key(zt_rbt_node *n) { return n ? zt_rbt_data(n, struct nd, node)->key : 0; }
static int okp, cnt;
static void shape(zt_rbt_node *n, zt_rbt_node *p) {
    if (!n) { fputs("[]", vp_f); return; }
    if (++cnt > NK) { fprintf(stderr, "cyclic tree\n"); abort(); }
    if (zt_rbt_parent(n) != p) okp = 0;
    fprintf(vp_f, "[%d,", zt_rbt_colour(n) == zt_rbt_black);
    shape(zt_rbt_left(n), n);
    fprintf(vp_f, ",%d,", key(n));
    shape(zt_rbt_right(n), n);
    fputc(']', vp_f);
}
int main(void) {
    int n, i, first; zt_rbt_node *it, *nx; struct nd probe, *d;
    vp_open();
    while ((n = vp_line()) >= 0) {
        if (!n) continue;
        const char *op = vp_w[0]; long r = 0; int wl = 0;
        memset(&probe, 0x5a, sizeof probe);
        if (!strcmp(op, "reset")) {
            for (i = 0; i < NK; i++) { free(in[i]); in[i] = NULL; }
            root = NULL; vp_ev("reset"); vp_end(); continue;
        }
        vp_ev(op); vp_key("a"); fputc('[', vp_f);
        for (i = 1; i < n; i++) fprintf(vp_f, "%s%ld", i > 1 ? "," : "", vp_i(i));
        fputc(']', vp_f);
        if (n > 1) probe.key = (int)vp_i(1);
        if (!strcmp(op, "insert")) {
            d = malloc(sizeof *d); memset(d, 0xa5, sizeof *d); d->key = probe.key;
            it = zt_rbt_insert(&root, &d->node, cmp);
            r = key(it);
            if (it == NULL) in[d->key] = d; else { if (it != &in[d->key]->node) r = -1; free(d); }
        } else if (!strcmp(op, "remove")) {
            it = zt_rbt_remove(&root, &in[probe.key]->node);
            r = it == &in[probe.key]->node ? key(it) : -1;
            memset(in[probe.key], 0xdd, sizeof(struct nd)); free(in[probe.key]); in[probe.key] = NULL;
        } else if (!strcmp(op, "find")) r = key(zt_rbt_find(&root, &probe.node, cmp));
        else if (!strcmp(op, "nfind")) r = key(zt_rbt_nfind(&root, &probe.node, cmp));
        else if (!strcmp(op, "next")) r = key(zt_rbt_next(&in[probe.key]->node));
        else if (!strcmp(op, "min")) r = key(zt_rbt_min(&root));
        else if (!strcmp(op, "max")) r = key(zt_rbt_max(&root));
        else if (!strcmp(op, "walk")) {
            vp_key("r"); fputc('[', vp_f); wl = 1; first = 1; i = 0;
            zt_rbt_for_each(&root, it) {
                fprintf(vp_f, "%s%d", first ? "" : ",", key(it)); first = 0;
                if (++i > NK) { fprintf(stderr, "endless walk\n"); abort(); }
            }
            fputc(']', vp_f);
        } else if (!strcmp(op, "walkdel")) {
            vp_key("r"); fputc('[', vp_f); wl = 1; first = 1;
            zt_rbt_for_each_safe(&root, it, nx) {
                int k = key(it);
                fprintf(vp_f, "%s%d", first ? "" : ",", k); first = 0;
                for (i = 1; i < n; i++) if (vp_i(i) == k) {
                    zt_rbt_remove(&root, it); memset(in[k], 0xdd, sizeof(struct nd)); free(in[k]); in[k] = NULL; break;
                }
            }
            fputc(']', vp_f);
        } else vp_die(op);
        if (!wl) vp_int("r", r);
        okp = 1; cnt = 0;
        vp_key("t"); shape(root, NULL);
        vp_bool("p", okp);
        vp_end();
    }
    return 0;
}
