/* Drives zt_elist / zt_stack / zt_queue */
#include <zt.h>
#include "vp.h"
#define N 2
#define NK 4096
struct el { long a; zt_elist_t link; int id; };
static zt_elist_t H[N + 1];
static struct el *E[NK];
static struct el *mk(int x) { struct el *p = malloc(sizeof *p); memset(p, 0xa5, sizeof *p); p->id = x; return E[x] = p; }
static void drop(int x) { memset(E[x], 0xdd, sizeof(struct el)); free(E[x]); E[x] = NULL; }
static int id(zt_elist_t *p) { return zt_elist_data(p, struct el, link)->id; }
static void dump(int back) {
    int h, i;
    fputc('[', vp_f);
    for (h = 1; h <= N; h++) {
        zt_elist_t *p; fputs(h > 1 ? ",[" : "[", vp_f); i = 0;
        if (back) for (p = zt_elist_get_prev(&H[h]); p != &H[h]; p = zt_elist_get_prev(p)) {
            fprintf(vp_f, "%s%d", i ? "," : "", id(p)); if (++i > NK) { fprintf(stderr, "cyclic\n"); abort(); } }
        else zt_elist_for_each(&H[h], p) {
            fprintf(vp_f, "%s%d", i ? "," : "", id(p)); if (++i > NK) { fprintf(stderr, "cyclic\n"); abort(); } }
        fputc(']', vp_f);
    }
    fputc(']', vp_f);
}
int main(void) {
    int n, i; zt_elist_t *p, *q; zt_stack(stk); zt_queue(que);
    if (stk.next != &stk || stk.prev != &stk || que.next != &que || que.prev != &que) { fprintf(stderr, "init\n"); abort(); }
    vp_open();
    while ((n = vp_line()) >= 0) {
        if (!n) continue;
        const char *op = vp_w[0];
        if (!strcmp(op, "reset")) {
            for (i = 1; i <= N; i++) zt_elist_reset(&H[i]);
            for (i = 0; i < NK; i++) if (E[i]) drop(i);
            vp_ev("reset"); vp_end(); continue;
        }
        int h = (int)vp_i(1), x = n > 2 ? (int)vp_i(2) : 0, r = 0, wl = 0;
        vp_ev(op); vp_key("a"); fputc('[', vp_f);
        for (i = 1; i < n; i++) fprintf(vp_f, "%s%ld", i > 1 ? "," : "", vp_i(i));
        fputc(']', vp_f);
        if (!strcmp(op, "add")) zt_elist_add(&H[h], &mk(x)->link);
        else if (!strcmp(op, "addtail")) zt_elist_add_tail(&H[h], &mk(x)->link);
        else if (!strcmp(op, "push")) zt_stack_push(&H[h], &mk(x)->link);
        else if (!strcmp(op, "enqueue")) zt_queue_enqueue(&H[h], &mk(x)->link);
        else if (!strcmp(op, "remove")) { zt_elist_remove(&E[x]->link); drop(x); }
        else if (!strcmp(op, "pop")) { p = zt_stack_pop(&H[h]); if (p == &H[h]) r = -1; else if (p) { r = id(p); drop(r); } }
        else if (!strcmp(op, "dequeue")) { p = zt_queue_dequeue(&H[h]); if (p == &H[h]) r = -1; else if (p) { r = id(p); drop(r); } }
        else if (!strcmp(op, "speek")) r = zt_stack_data(zt_stack_peek(&H[h]), struct el, link)->id;
        else if (!strcmp(op, "qpeek")) r = zt_queue_data(zt_queue_peek(&H[h]), struct el, link)->id;
        else if (!strcmp(op, "empty")) { r = zt_elist_empty(&H[h]) != 0;
            if ((zt_stack_empty(&H[h]) != 0) != r || (zt_queue_empty(&H[h]) != 0) != r) r = -1; }
        else if (!strcmp(op, "join")) { zt_elist_join(&H[h], &H[x]); zt_elist_reset(&H[x]); }
        else if (!strcmp(op, "eachdel")) {
            int k = 0; vp_key("r"); fputc('[', vp_f); wl = 1;
            zt_elist_for_each_safe(&H[h], p, q) {
                int v = id(p);
                fprintf(vp_f, "%s%d", k++ ? "," : "", v);
                if (k > NK) { fprintf(stderr, "cyclic\n"); abort(); }
                for (i = 2; i < n; i++) if (vp_i(i) == v) { zt_elist_remove(p); drop(v); break; }
            }
            fputc(']', vp_f);
        } else vp_die(op);
        if (!wl) vp_int("r", r);
        vp_key("f"); dump(0); vp_key("b"); dump(1);
        vp_end();
    }
    return 0;
}
