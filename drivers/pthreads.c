/* Drives zt_threads over pthreads.  Threads 1.. do what main hands them, one command at a time; the next command comes when
   every thread either waits for one or sleeps in the kernel.  A run is a process of its own. */
#define _GNU_SOURCE
#include <zt.h>
#include <libzt/zt_threads.h>
#include <pthread.h>
#include <semaphore.h>
#include <sched.h>
#include <sys/syscall.h>
#include <sys/time.h>
#include <sys/wait.h>
#include <sys/stat.h>
#include "vp.h"
#define NT 6
#define NM 4
#define PENDING 99
enum { NONE, IDLE, BUSY, GONE };
static struct th { int st, tid, op, m, c, v, how, by, joined, det, wm; long r; volatile int done; sem_t go; void *thr; unsigned long id; struct timeval tv; } T[NT + 1];
static void *M[NM + 1], *C[NM + 1]; static int own[NM + 1], cm[NM + 1], cn[NM + 1];
enum { START, LOCK, TRY, UNLOCK, WAIT, TIMED, SIGNAL, END, KILL, JOIN, DETACH, ID, NOPS };
static const char *NAME[] = { "start", "lock", "try", "unlock", "wait", "timed", "signal", "end", "kill", "join", "detach", "id" };
static void *body(void *x);
static long run1(struct th *t) {
    struct timeval a, b; long us; int r; void *d = (void *)-7L;
    switch (t->op) {
    case START: T[t->v].thr = zt_threads_alloc_thread(); if (!T[t->v].thr) return -5; return zt_threads_start(T[t->v].thr, NULL, body, &T[t->v]);
    case LOCK: return zt_threads_lock(ZT_THREADS_LOCK_BLOCKING, M[t->m]);
    case TRY: return zt_threads_lock(ZT_THREADS_LOCK_NONBLOCKING, M[t->m]) != 0;
    case UNLOCK: return zt_threads_unlock(0, M[t->m]);
    case WAIT: t->tv.tv_sec = 40; t->tv.tv_usec = 0; return zt_threads_cond_wait(C[t->c], M[t->m], t->v ? &t->tv : NULL);
    case TIMED:
        if (t->v > 900000) { do gettimeofday(&a, NULL); while (a.tv_usec < 999000); t->v = 1500; }       /* over the end of a second */
        t->tv.tv_sec = 0; t->tv.tv_usec = t->v; gettimeofday(&a, NULL); r = zt_threads_cond_wait(C[t->c], M[t->m], &t->tv); gettimeofday(&b, NULL);
        us = (b.tv_sec - a.tv_sec) * 1000000 + b.tv_usec - a.tv_usec; return us < t->v ? -3 : r;
    case SIGNAL: return zt_threads_cond_signal(C[t->c], t->v);
    case KILL: return zt_threads_kill(T[t->v].thr);
    case JOIN: r = zt_threads_join(T[t->v].thr, &d); return r ? -1000 - r : (long)d;
    case DETACH: { pthread_attr_t at; int d = -1; r = zt_threads_detach(T[t->v].thr); pthread_getattr_np(*(pthread_t *)T[t->v].thr, &at); pthread_attr_getdetachstate(&at, &d); pthread_attr_destroy(&at); return r ? r : d == PTHREAD_CREATE_DETACHED ? 0 : -6; }
    case ID: { int k; if (zt_threads_id() != t->id) return -2; for (k = 1; k <= NT; k++) if (&T[k] != t && (T[k].st == IDLE || T[k].st == BUSY) && T[k].id == t->id) return -2; return 1; }
    } return -4; }
static void *body(void *x) {
    struct th *t = x; t->id = zt_threads_id(); __atomic_store_n(&t->tid, (int)syscall(SYS_gettid), __ATOMIC_SEQ_CST);
    for (;;) {
        long r; sem_wait(&t->go);
        if (t->op == END) { r = t->v; if (t->how) { zt_threads_end((void *)r); abort(); } return (void *)r; }
        r = run1(t); t->r = r; __atomic_store_n(&t->done, 1, __ATOMIC_SEQ_CST); } }
static int sleeping(int tid) { char p[60], b[400], *q; FILE *f; size_t n; snprintf(p, sizeof p, "/proc/self/task/%d/stat", tid);
    f = fopen(p, "r"); if (!f) return -1; n = fread(b, 1, sizeof b - 1, f); b[n] = 0; fclose(f); q = strrchr(b, ')'); return q && q[2] == 'S'; }
static int quiet1(int timed) { int k, s; for (k = 1; k <= NT; k++) {
    if (T[k].st == GONE && T[k].tid) { if (sleeping(T[k].tid) >= 0) return 0; T[k].tid = 0; }
    if (T[k].st == BUSY && !T[k].done) { if (k == timed || !T[k].tid) return 0; s = sleeping(T[k].tid); if (s != 1 && !T[k].done) return 0; }
    if (T[k].st == IDLE && !__atomic_load_n(&T[k].tid, __ATOMIC_SEQ_CST)) return 0; }
    return 1; }
static int quiet(int timed) { int k = 0, n = 0; for (;;) { if (quiet1(timed)) { if (++k == 3) return 1; } else k = 0; sched_yield(); if (++n > 2000) usleep(100); if (n > 300000) return 0; } }
static void begin(struct th *t) { t->st = IDLE; t->det = t->joined = t->tid = t->done = 0; sem_init(&t->go, 0, 0); }
static void child(char **ln, int nl) {
    int q, n, k, op, f; char *p;
    for (q = 0; q < nl; q++) {
        n = 0; for (p = strtok(ln[q], " "); p; p = strtok(NULL, " ")) vp_w[n++] = p;
        if (!strcmp(vp_w[0], "reset")) {
            if (zt_threads_use_pthreads()) vp_bad("use");
            for (k = 1; k <= NM; k++) { M[k] = zt_threads_alloc_lock(0); C[k] = zt_threads_cond_alloc(0); if (!M[k] || !C[k]) vp_bad("alloc"); }
            begin(&T[1]); T[1].thr = zt_threads_alloc_thread(); if (zt_threads_start(T[1].thr, NULL, body, &T[1])) vp_bad("start");
            quiet(0); vp_ev("reset"); vp_end(); continue; }
        for (op = 0; op < NOPS && strcmp(NAME[op], vp_w[0]); op++) ;
        struct th *t = &T[vp_i(1)], *u = n > 2 && (op == START || op == KILL || op == JOIN || op == DETACH) ? &T[vp_i(2)] : NULL;
        if (t->st != IDLE) continue;
        /* what may be done now, by what came back before */
        t->op = op; t->m = t->c = t->v = t->how = 0; f = 0;
        switch (op) {
        case START: if (u->st) continue; break;
        case LOCK: case TRY: t->m = (int)vp_i(2); if (op == LOCK && own[t->m] == vp_i(1)) continue; break;
        case UNLOCK: t->m = (int)vp_i(2); if (own[t->m] != vp_i(1)) continue; own[t->m] = 0; break;
        case WAIT: case TIMED: t->c = (int)vp_i(2); t->m = (int)vp_i(3); t->v = n > 4 ? (int)vp_i(4) : 0;
            if (own[t->m] != vp_i(1) || (cn[t->c] && cm[t->c] != t->m)) continue;
            if (op == TIMED) { for (k = 1; k <= NT; k++) f |= T[k].st == BUSY && ((T[k].op == LOCK && T[k].m == t->m) || (T[k].op == WAIT && T[k].wm && T[k].m == t->m)); if (f) continue; }
            else { own[t->m] = 0; cm[t->c] = t->m; cn[t->c]++; t->wm = 0; } break;
        case SIGNAL: t->c = (int)vp_i(2); t->v = (int)vp_i(3); break;
        case END: t->v = (int)vp_i(2); t->how = (int)vp_i(3);
        case KILL: { struct th *x = op == END ? t : u; if (op == KILL && (u == t || u->st != IDLE)) continue;
            for (k = 1; k <= NM; k++) f |= own[k] == x - T; if (f) continue;
            if (op == END) { f = 1; for (k = 1; k <= NT; k++) if (&T[k] != t && (T[k].st == IDLE || (T[k].st == BUSY && T[k].op == JOIN && T[k].v == t - T))) f = 0; if (f) continue; }
            break; }
        case JOIN: if (u == t || !u->st || u->det || u->joined || (u->st == BUSY && u->op == JOIN)) continue; u->joined = 1; break;
        case DETACH: if (!u->st || u->st == GONE || u->det || u->joined) continue; u->det = 1; break;
        }
        if (u) t->v = (int)(u - T);
        if (op == START) begin(u);
        vp_ev(NAME[op]); fputs(",\"a\":[", vp_f); for (k = 1; k < n; k++) if (op != TIMED || k < 4) fprintf(vp_f, "%s%s", k > 1 ? "," : "", vp_w[k]); fputc(']', vp_f);
        t->done = 0; t->st = op == END ? GONE : BUSY; if (op == KILL) u->st = GONE;
        sem_post(&t->go);
        if (!quiet(op == TIMED ? (int)(t - T) : 0)) { vp_int("r", 98); vp_key("back"); fputs("[]", vp_f); vp_end(); fflush(NULL); _exit(0); }
        /* a condition's waiters that are awake are after the lock: seen by the signal */
        if (op == SIGNAL) for (k = 1; k <= NT; k++) if (T[k].st == BUSY && T[k].op == WAIT && T[k].c == t->c) T[k].wm = 1;
        long r = op == END ? 0 : t->done ? t->r : PENDING; fputs(",\"back\":[", vp_f); f = 0;
        for (k = 1; k <= NT; k++) if (T[k].st == BUSY && T[k].done) {
            struct th *x = &T[k]; x->st = IDLE; x->done = 0;
            if (x->op == LOCK || (x->op == TRY && !x->r) || x->op == WAIT) own[x->m] = k;
            if (x->op == WAIT) cn[x->c]--;
            if (x->op == JOIN) { free(T[x->v].thr); T[x->v].st = NONE; T[x->v].joined = 0; }
            if (x != t) { fprintf(vp_f, "%s[%d,%ld]", f++ ? "," : "", k, x->r); } }
        for (k = 1; k <= NT; k++) if (T[k].st == GONE && T[k].det) { free(T[k].thr); T[k].st = NONE; }
        fputc(']', vp_f); vp_int("r", r); vp_end(); }
    for (k = 1, f = 0; k <= NT; k++) f |= T[k].st != NONE && k > 1;
    for (k = 1; k <= NM; k++) f |= own[k] || cn[k];
    if (!f) for (k = 1; k <= NM; k++) { zt_threads_free_lock(M[k], 0); zt_threads_cond_free(C[k]); }
    fflush(NULL); _exit(0);
}
int main(void) {
    static char *ln[100000]; int nl = 0, st, eof = 0; char *b = NULL; size_t c = 0; ssize_t n;
    vp_open();
    while (!eof) {
        eof = (n = getline(&b, &c, stdin)) < 0;
        if (!eof) { while (n && b[n - 1] == '\n') b[--n] = 0; if (!n) continue; }
        if (nl && (eof || !strncmp(b, "reset", 5))) {
            fflush(NULL); pid_t p = fork(); if (!p) child(ln, nl);
            waitpid(p, &st, 0); if (st) { fprintf(stderr, "a run ended with status %x\n", st); return WIFEXITED(st) ? WEXITSTATUS(st) : 97; }
            while (nl) free(ln[--nl]); }
        if (!eof) ln[nl++] = strdup(b); }
    return 0;
}
