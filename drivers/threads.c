/* Drives zt_threadpool under a scheduler of its own: through the lock, condition and control callbacks the library is
   given, one thread runs at a time and at each of their calls the next one is chosen, by a list or at random.  In
   "real" mode the callbacks only pass the calls on to the library's pthread versions.
   The events are those of ThreadPool.tla.                                                                          */
#include <zt.h>
#include <libzt/zt_threads.h>
#include <pthread.h>
#include <semaphore.h>
#include <fcntl.h>
#include <unistd.h>
#include <sys/resource.h>
#include "vp.h"
#define MT 32
#define MI 64
extern zt_threads_mutex *zt_threads_pthreads_lock_alloc(int); extern zt_threads_cond *zt_threads_pthreads_cond_alloc(int);
extern int zt_threads_pthreads_lock(int, zt_threads_mutex *), zt_threads_pthreads_unlock(int, zt_threads_mutex *);
extern int zt_threads_pthreads_cond_signal(zt_threads_cond *, int), zt_threads_pthreads_cond_wait(zt_threads_cond *, zt_threads_mutex *, struct timeval *);
extern void zt_threads_pthreads_end(void *), zt_threads_pthreads_lock_free(zt_threads_mutex *, int), zt_threads_pthreads_cond_free(zt_threads_cond *);
extern int zt_threads_pthread_join(zt_threads_thread *, void **), zt_threads_pthreads_start(zt_threads_thread *, zt_threads_attr *, void *(*)(void *), void *);
extern zt_threads_thread *zt_threads_pthreads_alloc_thread(void); extern unsigned long zt_threads_pthread_id(void);
typedef struct mx { int owner; void *real; } mx;
typedef struct cv { int dummy; void *real; } cv;
typedef struct th { pthread_t p; int id, state, kind, idx, hx, inits, held; mx *m; cv *c; struct th *j; sem_t sem; void *(*f)(void *); void *arg; int prod[MI], np; void *real; } th;
enum { RUN, ONM, ONC, ONJ, DEAD, LAST, HELD };     /* LAST: waits until nobody else can go on; HELD: in a callback that takes long */
static th T[MT]; static int nt, real, steps, nsched, psched, sched[4096], nk[3], hasinit, evs; static unsigned long rnd;
static zt_threadpool *pool; static __thread th *me; static pthread_mutex_t evm = PTHREAD_MUTEX_INITIALIZER;
static unsigned rn(void) { rnd = rnd * 6364136223846793005UL + 1442695040888963407UL; return (unsigned)(rnd >> 33); }
static void ev(const char *op, long a, long b, long c, int n) {
    pthread_mutex_lock(&evm);
    vp_ev(op); vp_key("a"); fputc('[', vp_f);
    if (n > 0) fprintf(vp_f, "%ld", a); if (n > 1) fprintf(vp_f, ",%ld", b); if (n > 2) fprintf(vp_f, ",%ld", c);
    fputc(']', vp_f); vp_int("r", n > 0 ? (n > 2 ? c : n > 1 ? b : a) : 0); vp_end(); evs++;
    pthread_mutex_unlock(&evm); }
static char hold[8192];
static int able(th *t) { return t->state == RUN || (t->state == HELD && !hold[t->hx]) || (t->state == ONM && t->m->owner < 0) || (t->state == ONJ && t->j->state == DEAD); }
static th *choose(void) {
    int i, k = 0; th *a[MT];
    if (++steps > 20000) { ev("spin", 0, 0, 0, 0); fflush(NULL); _exit(0); }
    if (!nsched && T[0].state != LAST && rn() % 16 == 0) {        /* a spurious wakeup */
        i = rn() % nt; if (T[i].state == ONC) T[i].state = ONM; }
    if (psched < nsched) { i = sched[psched++]; if (i >= 0 && i < nt && able(&T[i])) return &T[i]; }
    for (i = 0; i < nt; i++) if (able(&T[i])) a[k++] = &T[i];
    if (!k && T[0].state == LAST) return &T[0];
    if (!k) { ev("stuck", 0, 0, 0, 0); fflush(NULL); _exit(0); }
    return nsched ? a[0] : a[rn() % k]; }
static void point(void) {       /* the next thread runs; back when it is our turn */
    th *n;
    if (real) return;
    n = choose();
    if (n != me) { sem_post(&n->sem); while (sem_wait(&me->sem)) ; }
    me->state = RUN; }
static void *lalloc(int t) { mx *m = calloc(1, sizeof *m); m->owner = -1; if (real) m->real = zt_threads_pthreads_lock_alloc(t); return m; }
static void lfree(void *l, int t) { mx *m = l; if (m->real) zt_threads_pthreads_lock_free(m->real, t); free(m); }
static void born(void *l) {
    if (me->kind || !pool || (l != pool->iput_mutex && l != pool->oput_mutex)) return;
    me->kind = l == pool->iput_mutex ? 1 : 2; me->idx = __atomic_add_fetch(&nk[me->kind], 1, __ATOMIC_SEQ_CST);
    ev("birth", me->kind, me->idx, me->inits, 3); }
static int lock(int mode, void *l) {
    mx *m = l;
    if (me->id && me->np < 0) born(l);
    if (real) return zt_threads_pthreads_lock(mode, m->real);
    if (m->owner == me->id) vp_bad("a thread locks what it has locked already");
    point(); while (m->owner >= 0) { me->state = ONM; me->m = m; point(); }
    m->owner = me->id; me->held++; return 0; }
static int unlock(int mode, void *l) {
    mx *m = l;
    if (real) return zt_threads_pthreads_unlock(mode, m->real);
    if (m->owner != me->id) vp_bad("a lock is opened that is not held");
    point(); m->owner = -1; me->held--; return 0; }
static void *calloc_(int t) { cv *c = calloc(1, sizeof *c); if (real) c->real = zt_threads_pthreads_cond_alloc(t); return c; }
static void cfree(void *l) { cv *c = l; if (c->real) zt_threads_pthreads_cond_free(c->real); free(c); }
static int csignal(void *l, int all) {
    cv *c = l; int i, k = 0, w[MT];
    if (real) return zt_threads_pthreads_cond_signal(c->real, all);
    if (!me->held) point();
    for (i = 0; i < nt; i++) if (T[i].state == ONC && T[i].c == c) w[k++] = i;
    if (!k) return 0;
    if (all) for (i = 0; i < k; i++) T[w[i]].state = ONM;
    else T[w[nsched ? 0 : rn() % k]].state = ONM;
    return 0; }
static int cwait(void *l, void *lk, struct timeval *tv) {
    cv *c = l; mx *m = lk;
    if (real) return zt_threads_pthreads_cond_wait(c->real, m->real, tv);
    if (m->owner != me->id) vp_bad("a thread waits without the lock");
    point(); m->owner = -1; me->state = ONC; me->c = c; me->m = m; point();
    while (m->owner >= 0) { me->state = ONM; me->m = m; point(); }
    m->owner = me->id; return 0; }
static void leave(void) {
    if (me->kind) ev("exit", me->kind, me->idx, 0, 2);
    else if (me->np < 0) vp_bad("a thread ends before it looked at a queue");
    if (!real) { th *n; me->state = DEAD; n = choose(); sem_post(&n->sem); } }
static void *body(void *x) {
    void *r; me = x; if (!real) while (sem_wait(&me->sem)) ;
    me->state = RUN; r = me->f(me->arg); leave(); return r; }
static int start(void *t, void *attr, void *(*f)(void *), void *arg) {
    th *h = t; h->f = f; h->arg = arg; h->state = RUN;
    if (real) return zt_threads_pthreads_start(h->real, attr, body, h);
    return pthread_create(&h->p, NULL, body, h); }
static void end(void *a) { leave(); if (real) zt_threads_pthreads_end(a); pthread_exit(a); }
static int join(void *t, void **d) {
    th *h = t;
    if (real) return zt_threads_pthread_join(h->real, d);
    me->state = ONJ; me->j = h; point(); return pthread_join(h->p, d); }
static th *newth(int producer) {
    th *h = &T[nt]; if (nt >= MT) vp_die("threads"); memset(h, 0, sizeof *h); h->id = nt++; sem_init(&h->sem, 0, 0); h->np = producer ? 0 : -1; h->state = DEAD;
    if (real) h->real = zt_threads_pthreads_alloc_thread(); return h; }
static void *alloc(void) { return newth(0); }
static void *init(void *a) { if (a != pool) vp_bad("init is called with something else"); me->inits++; return me; }
static void who(void *id, int kind) { if (hasinit ? id != me : id != NULL) vp_bad("wrong init data"); if (me->kind != kind) vp_bad("a worker is called by the wrong kind of thread"); }
static void held(long x) { if (!real && x > 0 && x < (long)sizeof hold && hold[x]) { me->state = HELD; me->hx = (int)x; point(); } }
static void *iwork(void *id, void *d) {
    long x = (long)d, y = x % 3 ? x + 1000 : 0; who(id, 1); point(); ev("iwork", me->idx, x, 0, 2); held(x); point(); ev("idone", me->idx, y, 0, 2); return (void *)y; }
static void *owork(void *id, void *d) {
    long x = (long)d, y = x % 2 ? x + 5000 : 0; who(id, 2); point(); ev("owork", me->idx, x, 0, 2); held(x); point(); ev("odone", me->idx, y, 0, 2); return (void *)y; }
static void final(void *id, void *d) { who(id, 2); point(); ev("final", me->idx, (long)d, 0, 2); }
static void *producer(void *a) {
    th *h = a; int i;
    for (i = 0; i < h->np; i++) { ev("insb", h->prod[i], 0, 0, 1); if (zt_threadpool_insert_iput(pool, (void *)(long)h->prod[i])) vp_bad("insert"); point(); ev("inse", h->prod[i], 0, 0, 1); }
    return NULL; }
static long drain(int fd) { char c; long n = 0; if (fd < 0) return -1; fcntl(fd, F_SETFL, O_NONBLOCK); while (read(fd, &c, 1) == 1) n++; return n; }
static int nfds(void) { int i, n = 0; for (i = 0; i < 64; i++) n += fcntl(i, F_GETFD) >= 0; return n; }
int main(void) {
    int n, i; th *prod[8]; int np = 0;
    struct zt_threads_lock_callbacks lc = { lalloc, lfree, lock, unlock };
    struct zt_threads_cond_callbacks cc = { calloc_, cfree, csignal, cwait };
    struct zt_threads_cntrl_callbacks tc = { start, end, NULL, NULL, join, NULL };
    vp_open();
    zt_threads_set_lock_callbacks(&lc); zt_threads_set_cond_callbacks(&cc); zt_threads_set_cntrl_callbacks(&tc); zt_threads_alloc_thread = alloc;
    while ((n = vp_line()) >= 0) {
        if (!n) continue;
        const char *op = vp_w[0]; long x = n > 1 ? vp_i(1) : 0;
        if (!strcmp(op, "sched")) { nsched = psched = 0; if (vp_w[1][0] == 'r') rnd = strtoul(vp_w[1] + 1, NULL, 10); else for (i = 1; i < n; i++) sched[nsched++] = (int)vp_i(i); continue; }
        if (!strcmp(op, "pool")) {      /* pool threads iloop oloop fin init pipei pipeo real */
            struct zt_threadpool_callbacks cb = { NULL, NULL, NULL, iwork, owork, NULL };
            real = (int)vp_i(8); nt = 0; steps = 0; np = 0; nk[1] = nk[2] = 0; pool = NULL;
            memset(hold, 0, sizeof hold); me = newth(1); me->state = RUN;
            zt_threadpool_set_callbacks(NULL);
            if (vp_i(4)) cb.finalize = final;
            if ((hasinit = (int)vp_i(5))) cb.init = init;
            zt_threadpool_set_callbacks(&cb);
            if (!vp_i(2)) zt_threadpool_disable_iput_loop();
            if (!vp_i(3)) zt_threadpool_disable_oput_loop();
            pool = zt_threadpool_init((int)x, (int)x, (int)vp_i(6), (int)vp_i(7));
            vp_ev("pool"); vp_key("a"); fprintf(vp_f, "[%ld,%ld,%s,%ld]", vp_i(2) ? x : 0L, vp_i(3) ? x : 0L, vp_i(4) ? "true" : "false", hasinit); vp_int("r", 0); vp_end();
            continue; }
        if (!strcmp(op, "nopipe")) {    /* the second pipe cannot be made: nothing is left open */
            struct rlimit rl, lo; int f0 = nfds(), f1; zt_threadpool *p; getrlimit(RLIMIT_NOFILE, &rl); lo = rl;
            int a = dup(0), b = dup(0); close(a); close(b); lo.rlim_cur = (a > b ? a : b) + 1 + (int)x; setrlimit(RLIMIT_NOFILE, &lo);
            p = zt_threadpool_init(1, 1, 1, 1); setrlimit(RLIMIT_NOFILE, &rl); f1 = nfds();
            vp_ev("nopipe"); vp_key("a"); fprintf(vp_f, "[]"); vp_int("r", p ? -1 : f1 - f0); vp_end(); continue; }
        if (!strcmp(op, "timed")) {     /* pthread versions: a wait with a limit, and trying a held lock */
            void *m = zt_threads_pthreads_lock_alloc(0), *c = zt_threads_pthreads_cond_alloc(0); struct timeval tv = { 0, x }, t0, t1; int w, t; long us;
            zt_threads_pthreads_lock(0, m); gettimeofday(&t0, NULL); w = zt_threads_pthreads_cond_wait(c, m, &tv); gettimeofday(&t1, NULL);
            us = (t1.tv_sec - t0.tv_sec) * 1000000 + t1.tv_usec - t0.tv_usec;
            t = zt_threads_pthreads_lock(ZT_THREADS_LOCK_NONBLOCKING, m) != 0; zt_threads_pthreads_unlock(0, m);
            t += 2 * (zt_threads_pthreads_lock(ZT_THREADS_LOCK_NONBLOCKING, m) == 0); zt_threads_pthreads_unlock(0, m);
            zt_threads_pthreads_lock_free(m, 0); zt_threads_pthreads_cond_free(c);
            vp_ev("timed"); vp_key("a"); fprintf(vp_f, "[%d,%d]", us >= x && us < x + 5000000, t); vp_int("r", w); vp_end(); continue; }
        if (!pool) continue;
        if (!strcmp(op, "start")) { ev("start", 0, 0, 0, 0); zt_threadpool_start(pool); }
        else if (!strcmp(op, "ins")) { point(); ev("insb", x, 0, 0, 1); if (zt_threadpool_insert_iput(pool, (void *)x)) vp_bad("insert"); point(); ev("inse", x, 0, 0, 1); }
        else if (!strcmp(op, "oins")) { point(); ev("oinsb", x, 0, 0, 1); if (zt_threadpool_insert_oput(pool, (void *)x)) vp_bad("insert"); point(); ev("oinse", x, 0, 0, 1); }
        else if (!strcmp(op, "get")) { point(); ev("getb", 0, 0, 0, 0); x = (long)zt_threadpool_get_oput(pool); point(); ev("gete", x, 0, 0, 1); }
        else if (!strcmp(op, "prod")) { th *h = newth(1); for (i = 1; i < n; i++) h->prod[h->np++] = (int)vp_i(i); prod[np++] = h; start(h, NULL, producer, h); }
        else if (!strcmp(op, "wait")) { while (np) join(prod[--np], NULL); }
        else if (!strcmp(op, "settle")) { if (!real) { me->state = LAST; point(); ev("quiet", 0, 0, 0, 0); } }
        else if (!strcmp(op, "hold")) hold[x] = 1;
        else if (!strcmp(op, "free")) memset(hold, 0, sizeof hold);
        else if (!strcmp(op, "kill")) { point(); ev("killb", 0, 0, 0, 0); x = zt_threadpool_kill(pool); ev("kille", x, 0, 0, 1); }
        else if (!strcmp(op, "pipes")) { ev("pipes", drain(zt_threadpool_iput_fd_reader(pool)), drain(zt_threadpool_oput_fd_reader(pool)), 0, 2);
            for (i = 0; i < 2; i++) { if (pool->iput_fd_sigs[i] >= 0) close(pool->iput_fd_sigs[i]); if (pool->oput_fd_sigs[i] >= 0) close(pool->oput_fd_sigs[i]); } }
    }
    return 0;
}
