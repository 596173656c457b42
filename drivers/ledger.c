/* Keeps the books: malloc, calloc, realloc, free are this program's own and note for which slot a block was taken.
   make/use/drop <slot> <kind> <what> <number>, call <what> <number>.                                                  */
#include <zt.h>
#include <libzt/zt_ipv4_tbl.h>
#include <libzt/zt_opts.h>
#include <libzt/zt_unit.h>
#include <libzt/zt_uuid.h>
#include <libzt/zt_base.h>
#include <libzt/zt_llist.h>
#include <libzt/zt_ez_mempool.h>
#include <libzt/zt_ptr_array.h>
#include <libzt/zt_threads.h>
#include <libzt/zt_daemon.h>
#include <libzt/zt_path.h>
#include <libzt/zt_log/log_interface.h>
#include <sys/stat.h>
#include <sys/uio.h>
#include <fcntl.h>
#include <dirent.h>
#include "vp.h"
void *__libc_malloc(size_t); void *__libc_calloc(size_t, size_t); void *__libc_realloc(void *, size_t); void __libc_free(void *);
#define NB (1 << 16)
#define N 5
static struct { void *p; int who; } B[NB]; static volatile int who = -1; static long blocks[N + 1], fds[N + 1];
static void in(void *p) {
    unsigned long h = ((unsigned long)p >> 4) % NB;
    if (!p || who < 0) return;
    while (B[h].p && B[h].p != (void *)1) h = (h + 1) % NB;
    B[h].p = p; B[h].who = who; blocks[who]++; }
static void gone(void *p) {
    unsigned long h = ((unsigned long)p >> 4) % NB;
    if (!p) return;
    for (; B[h].p; h = (h + 1) % NB) if (B[h].p == p) { B[h].p = (void *)1; blocks[B[h].who]--; return; } }
void *malloc(size_t n) { void *p = __libc_malloc(n); in(p); return p; }
void *calloc(size_t a, size_t b) { void *p = __libc_calloc(a, b); in(p); return p; }
void *realloc(void *p, size_t n) { void *q; if (!n && p) { gone(p); return __libc_realloc(p, 0); } q = __libc_realloc(p, n); if (q) { gone(p); in(q); } return q; }
void free(void *p) { gone(p); __libc_free(p); }
void __wrap_vsyslog(int p, const char *f, va_list ap) {}
void __wrap___vsyslog_chk(int p, int x, const char *f, va_list ap) {}
void __wrap_openlog(const char *i, int o, int f) {}
void __wrap_closelog(void) {}
static int nfds(void) { int n = 0, k; for (k = 3; k < 64; k++) n += fcntl(k, F_GETFD) >= 0; return n; }
#define L(stmt) do { who = s; stmt; who = -1; } while (0)
#define IS(x) (!strcmp(w, x))
static struct obj { void *o; void *e[512]; int ne; struct zt_unit_suite *su; int kind2; } O[N + 1];
static char words[64][16]; static long nums[64]; static char big[3000];
static struct timeval TV;
static int each(void *k, size_t kl, void *d, size_t dl, void *p) { return 0; }
static int seteach(void *a, void *b) { return 0; }
static int nocmp(void *a, void *b) { return a < b; }
static void passes(struct zt_unit_test *test, void *d) { ZT_UNIT_ASSERT(test, 1 == 1); }
static void fails(struct zt_unit_test *test, void *d) { ZT_UNIT_FAIL(test, "message %d of %s", 42, "many"); }
static int tested(size_t a, size_t b, size_t c, int f, void *d) { return b > 0; }
static void lines(const char *fn, const char *text) { FILE *f = fopen(fn, "w"); fputs(text, f); fclose(f); }
static zt_mem_pool_desc D3[] = { { "one", 4, 16 }, { "two", 4, 64 }, { "three", 2, 300 }, { NULL } }, D1[] = { { "only", 1, 40 }, { NULL } }, D4[] = { { "a", 1, 16 }, { NULL }, { "b", 1, 20 }, { NULL } };
static void *give(struct obj *o, int k) { void *p = o->e[k]; o->e[k] = o->e[--o->ne]; return p; }
static int put(struct obj *o, void *p) { if (o->ne < 512 && p) { o->e[o->ne++] = p; return 1; } return 0; }
static int soft(int code, char *fmt, ...) { return 0; }
/* number x: which key, how much */
static int make(int s, const char *k, const char *w, long x) {
    struct obj *o = &O[s]; memset(o, 0, sizeof *o);
    if (!strcmp(k, "table")) L(o->o = zt_table_init(IS("anon") ? NULL : "a table", IS("nofunc") ? NULL : zt_table_hash_string, zt_table_compare_string, x % 200, IS("hint") ? ZT_TABLE_SIZE_USE_HINT : 0, NULL));
    else if (!strcmp(k, "set")) L(o->o = zt_set_init(zt_table_compare_int, IS("owning") ? free : NULL, NULL));
    else if (!strcmp(k, "buf")) L(o->o = zt_buf_new());
    else if (!strcmp(k, "array")) {
        if (IS("new")) L(o->o = zt_array_new(1 + x % 50, 1 + x % 9)); else if (IS("empty")) L(o->o = zt_array_new(0, 4)); else if (IS("with")) L(o->o = zt_array_with(words[0], 4 + x % 60, 4, 1));
        else if (IS("cstr")) L(o->o = zt_array_with_cstr("some text")); else { char *d; L(d = calloc(8, 4)); L(o->o = zt_array_with(d, 8, 4, 0)); } }
    else if (!strcmp(k, "ptrs")) { o->kind2 = !IS("plain"); L(o->o = zt_ptr_array_init(NULL, IS("owning") ? free : NULL)); }
    else if (!strcmp(k, "bstream")) L(o->o = zt_bstream_new());
    else if (!strcmp(k, "cfg")) {
        char t[9000]; int i;
        lines("x.ini", "");
        if (IS("good")) lines("x.ini", "a = 1\nb = some text\n[two]\nc = 2.5\nd = yes # really\ne = 'a;b'\n# no\n\n  f = 3\n");
        else if (IS("again")) lines("x.ini", "a = text one\na = text two\n[two]\nc = text\nc = 4\nc = more\n[Global]\na = text three\n[two]\nc = end");
        else if (IS("refs")) lines("x.ini", "a = text\n[two]\nb = Global.a\nc = two.b\nd = two.nothing\ne = no.block\nb = no\nc = Global.a\nf = two.c\nf = two.f\n");
        else if (IS("empty")) lines("x.ini", "# nothing\n\n");
        else if (IS("syntax")) lines("x.ini", "nothing of the kind\n");
        else if (IS("late")) lines("x.ini", "a = 1\nb = text\n[two]\nc = a.b\nd = Global.b\nd = text\n\nand now what\n");
        else if (IS("longname")) { strcpy(t, "a = text\n[b]\nc = text\n["); for (i = strlen(t); i < 1500; i++) t[i] = 'x'; t[i] = 0; strcat(t, "]\n"); lines("x.ini", t); }
        else if (IS("longline")) { strcpy(t, "a = text\n[b]\nc = text\nd = "); for (i = strlen(t); i < 1500; i++) t[i] = 'x'; t[i] = 0; strcat(t, "\n"); lines("x.ini", t); }
        L(o->o = zt_cfg_ini(IS("missing") ? "no/such/file.ini" : "x.ini", 0)); }
    else if (!strcmp(k, "log")) {
        if (IS("stderr")) L(o->o = zt_log_stderr(0)); else if (IS("syslog")) L(o->o = zt_log_syslog());
        else L(o->o = zt_log_file(IS("nofile") ? "no/such/dir/log" : "file.log", x % 2 ? ZT_LOG_FILE_APPEND : 0, x % 64)); }
    else if (!strcmp(k, "pool")) { L(o->o = zt_mem_pool_init("a pool", 1 + x % 20, 8 + x % 90, IS("tested") ? tested : NULL, NULL, IS("never") ? POOL_NEVER_FREE : 0)); }
    else if (!strcmp(k, "group")) { o->kind2 = IS("three") ? 300 : 16; L(o->o = zt_mem_pool_group_init(IS("one") ? D1 : IS("three") ? D3 : D4, IS("one") ? 1 : 3)); }
    else if (!strcmp(k, "heap")) L(o->o = zt_mem_heap_init(IS("named") ? "a heap" : NULL, 1 + x));
    else if (!strcmp(k, "ez")) { if (IS("child")) { L(o->e[0] = zt_ez_mempool_init(NULL)); o->ne = 1; } L(o->o = zt_ez_mempool_init(o->ne ? o->e[0] : NULL)); }
    else if (!strcmp(k, "ipv4")) L(o->o = zt_ipv4_tbl_init(IS("small") ? 1 + x % 9 : 0));
    else if (!strcmp(k, "list")) L(o->o = zt_llist_cons(words[0], NULL));
    else if (!strcmp(k, "unit")) L(o->o = zt_unit_init());
    else if (!strcmp(k, "lock")) { o->kind2 = IS("cond"); if (o->kind2) L(o->o = zt_threads_cond_alloc(0)); else L(o->o = zt_threads_alloc_lock(0)); }
    else vp_die(k);
    return o->o != NULL; }
static void use(int s, const char *k, const char *w, long x) {
    struct obj *o = &O[s]; char b[64]; int i; void *p; long n = x % 40;
    if (!strcmp(k, "table")) {
        if (IS("set") || IS("replace")) L(zt_table_set(o->o, words[n], 0, &nums[IS("set") ? n : 63], 0));
        else if (IS("del")) L(zt_table_del(o->o, words[n], 0)); else if (IS("copy")) { zt_table *t = zt_table_init("from", zt_table_hash_string, zt_table_compare_string, 4, 0, NULL);
            for (i = 0; i < n; i++) zt_table_set(t, words[i], 0, &nums[i], 0); L(zt_table_copy(t, o->o)); zt_table_destroy(t); }
        else if (IS("each")) L(zt_table_for_each(o->o, each, NULL)); else L(zt_table_get(o->o, IS("miss") ? "nowhere" : words[n], 0)); }
    else if (!strcmp(k, "set")) {
        zt_set *so = o->o; long *d;
        if (IS("insert") || IS("again")) {
            if (so->destroy) { if (o->ne < 100) { L(d = malloc(sizeof(long))); *d = 1000 + o->kind2++; put(o, d); L(zt_set_insert(so, d, sizeof(long))); if (IS("again")) L(zt_set_insert(so, d, sizeof(long))); } }
            else { L(zt_set_insert(so, &nums[n], sizeof(long))); if (IS("again")) L(zt_set_insert(so, &nums[n], sizeof(long))); } }
        else if (IS("remove")) { if (so->destroy) { if (o->ne) { d = give(o, n % o->ne); p = d; L(zt_set_remove(so, &p)); L(free(d)); } } else { p = &nums[n]; L(zt_set_remove(so, &p)); } }
        else if (IS("union") || IS("inter") || IS("diff")) { zt_set *a = zt_set_init(zt_table_compare_int, NULL, NULL), *c = zt_set_init(zt_table_compare_int, NULL, NULL);
            if (so->destroy) { zt_set_destroy(a); zt_set_destroy(c); return; }
            for (i = 0; i < n; i++) { zt_set_insert(a, &nums[i], sizeof(long)); zt_set_insert(c, &nums[i / 2 + 5], sizeof(long)); }
            L(IS("union") ? zt_set_union(so, a, c) : IS("inter") ? zt_set_intersection(so, a, c) : zt_set_difference(so, a, c)); zt_set_destroy(a); zt_set_destroy(c); }
        else if (IS("has")) L(zt_set_is_member(so, &nums[n], sizeof(long))); else if (IS("subset")) L(zt_set_is_subset(so, so)); else if (IS("equal")) L(zt_set_is_equal(so, so)); else L(zt_set_for_each(so, seteach, NULL)); }
    else if (!strcmp(k, "buf")) {
        if (IS("add")) L(zt_buf_add(o->o, big, 1 + n * 31)); else if (IS("addbuf")) { zt_buf_t *t = zt_buf_new(); zt_buf_add(t, big, 1 + n); L(zt_buf_add_buf(o->o, t)); zt_buf_free(t); }
        else if (IS("expand")) L(zt_buf_expand(o->o, 1 + n * 7)); else if (IS("reserve")) L(zt_buf_reserve(o->o, 1 + n * 9));
        else if (IS("iov")) { zt_iov_t v[2]; v[0].iov_data = big; v[0].iov_len = n; v[1].iov_data = big + 9; v[1].iov_len = 5; L(zt_buf_iov_add(o->o, v, 2)); }
        else if (IS("drain")) L(zt_buf_drain(o->o, n)); else if (IS("remove")) L(zt_buf_remove(o->o, b, n)); else L(zt_buf_get(o->o)); }
    else if (!strcmp(k, "array")) {
        zt_array_t a = o->o; size_t z = zt_array_size(a), ln = zt_array_length(a); char *d;
        if (IS("resize")) L(zt_array_resize(a, 1 + n * 3)); else if (IS("data")) L(zt_array_set_data(a, words[0], 1 + n, z, 1)); else if (IS("give")) { L(d = calloc(1 + n, z)); L(zt_array_set_data(a, d, 1 + n, z, 0)); }
        else if (IS("setlen")) L(zt_array_set_length(a, ln / 2)); else if (ln) { if (IS("get")) L(zt_array_get(a, n % ln)); else L(zt_array_put(a, n % ln, words[3])); } }
    else if (!strcmp(k, "ptrs")) {
        if (IS("add")) for (i = 0; i < n; i++) { if (o->kind2) L(p = malloc(8)); else p = words[i]; if (put(o, p)) L(zt_ptr_array_add(o->o, p)); else if (o->kind2) L(free(p)); }
        else if (IS("resize")) L(zt_ptr_array_resize(o->o, 1 + n)); else if (IS("del")) { if (o->ne) { p = give(o, n % o->ne); if (!o->kind2) for (i = 0; i < o->ne; ) if (o->e[i] == p) give(o, i); else i++; L(zt_ptr_array_del(o->o, p)); if (o->kind2 && !((zt_ptr_array *)o->o)->free_cb) L(free(p)); } }
        else if (IS("cat")) { if (!o->kind2) { zt_ptr_array *t = zt_ptr_array_init(NULL, NULL); for (i = 0; i < n; i++) zt_ptr_array_add(t, words[i]); L(zt_ptr_array_cat(o->o, t)); zt_ptr_array_free(t, 0); } }
        else if (IS("get")) L(zt_ptr_array_get_idx(o->o, n)); else if (IS("copy")) { void **t = calloc(2000, sizeof *t); L(zt_ptr_array_copy_data(o->o, (char **)t)); free(t); } else if (!o->kind2) L(zt_ptr_array_move_idx_to_idx(o->o, n, 0)); }
    else if (!strcmp(k, "bstream")) {
        if (IS("write")) { L(zt_bstream_write_uint32(o->o, 7)); L(zt_bstream_write(o->o, words[0], 1 + n, 1, 0)); L(zt_bstream_write_double(o->o, 1.5)); }
        else if (IS("data")) { L(zt_bstream_set_data(o->o, words[0], 1 + n, 1)); zt_bstream_rewind(o->o); } else if (IS("trunc")) L(zt_bstream_truncate(o->o));
        else if (IS("read")) { if (!zt_bstream_is_empty(o->o)) { zt_bstream_rewind(o->o); L(zt_bstream_read_byte(o->o, b)); } }
        else if (IS("rewind")) L(zt_bstream_rewind(o->o)); else if (IS("empty")) L(zt_bstream_is_empty(o->o)); else { zt_bstream_t c; if (zt_bstream_is_empty(o->o)) return; L(c = zt_bstream_clone(o->o)); L(zt_bstream_free(&c)); } }
    else if (!strcmp(k, "cfg")) {
        static char *blk[] = { "Global", "two", "new" }, *var[] = { "a", "b", "c", "d", "e", "other" }; char *t = "some value", *bb = blk[x % 3], *v = var[x / 3 % 6]; long lv = x; double dv = x / 2.0; int iv = 1; char *out; char vv[32];
        if (IS("int")) L(zt_cfg_set_int(o->o, bb, v, &lv)); else if (IS("float")) L(zt_cfg_set_float(o->o, bb, v, &dv)); else if (IS("text")) L(zt_cfg_set_string(o->o, bb, v, &t));
        else if (IS("retext")) { L(zt_cfg_set_string(o->o, bb, v, &t)); t = "another"; L(zt_cfg_set_string(o->o, bb, v, &t)); } else if (IS("ref")) { snprintf(vv, sizeof vv, "%s.%s", blk[(x + 1) % 3], var[(x / 2) % 6]); t = vv; L(zt_cfg_set_string(o->o, bb, v, &t)); }
        else if (IS("flag")) { t = "yes"; L(zt_cfg_set_bool(o->o, bb, v, &t)); } else if (IS("badflag")) { long one[2] = { 1, 0 }; L(zt_cfg_set_bool(o->o, bb, v, one)); }
        else if (IS("badtype")) L(zt_cfg_set(o->o, bb, v, &t, zt_cfg_ref));
        else if (IS("get")) { L(zt_cfg_get_string(o->o, bb, v, &out)); L(zt_cfg_get_int(o->o, bb, v, &lv)); } else if (IS("miss")) { L(zt_cfg_get_string(o->o, "none", v, &out)); L(zt_cfg_get_string(o->o, bb, "none", &out)); } else L(zt_cfg_get(o->o, bb, v, &out, zt_cfg_ref)); }
    else if (!strcmp(k, "log")) {
        if (IS("print")) L(zt_log_lprintf(o->o, x % 8, "%s %ld", words[n], x)); else if (IS("error")) L(zt_log_lstrerror(o->o, x % 8, ENOENT, "%s", words[n])); else if (IS("long")) L(zt_log_lprintf(o->o, zt_log_emerg, "%.*s", (int)(n * 70), big));
        else if (IS("level")) { L(zt_log_set_level(o->o, x % 8)); L(zt_log_set_opts(o->o, x % 64)); } else { L(zt_log_set_debug_info("f.c", 3, "fn")); L(zt_log_lprintf(o->o, zt_log_emerg, "x")); L(zt_log_set_debug_info(NULL, 0, NULL)); } }
    else if (!strcmp(k, "pool")) {
        zt_mem_pool_stats st; zt_mem_pool *pp = o->o;
        if (IS("alloc") || IS("many")) for (i = 0; i < (IS("many") ? 30 : 1) && o->ne < 500; i++) { L(p = zt_mem_pool_alloc(o->o)); put(o, p); }
        else if (IS("give") || IS("giveall")) while (o->ne) { p = give(o, n % o->ne); L(zt_mem_pool_release(&p)); if (IS("give")) break; }
        else if (IS("trim")) L(zt_mem_pool_release_free_pages(o->o)); else if (IS("stats")) L(zt_mem_pool_get_stats(o->o, &st)); else if (o->ne) { L(i = zt_mem_pool_destroy(&pp)); if (!i) vp_bad("a pool in use is gone"); } }
    else if (!strcmp(k, "group")) { if (IS("alloc")) { L(p = zt_mem_pool_group_alloc(o->o, 1 + x % o->kind2)); put(o, p) || (zt_mem_pool_group_release(&p), 0); } else if (o->ne) { p = give(o, n % o->ne); L(zt_mem_pool_group_release(&p)); } }
    else if (!strcmp(k, "heap")) L(memset(zt_mem_heap_get_data(o->o), 1, 1));
    else if (!strcmp(k, "ez")) {
        if (IS("alloc")) L(zt_ez_mempool_alloc(o->o, 1 + n, x % 2 ? free : NULL)); else if (IS("own")) { L(p = malloc(4)); L(zt_ez_mempool_add_buffer(o->o, p, 4, x % 2 ? free : NULL)); } else if (IS("strdup")) L(zt_ez_mempool_strdup(o->o, words[n]));
        else if (IS("sub")) { zt_ez_mempool *q; L(q = zt_ez_mempool_init(o->o)); L(zt_ez_mempool_strdup(q, "x")); L(q = zt_ez_mempool_init(q)); L(zt_ez_mempool_alloc(q, 9, NULL)); }
        else if (IS("subgone")) { zt_ez_mempool *q; L(q = zt_ez_mempool_init(o->o)); L(zt_ez_mempool_strdup(q, "x")); L(zt_ez_mempool_destroy(q)); } else L(zt_ez_mempool_add_buffer(o->o, NULL, 0, NULL)); }
    else if (!strcmp(k, "ipv4")) {
        snprintf(b, sizeof b, "10.%ld.%ld.0/%ld", x % 7, x % 3, 1 + x % 32);
        if (IS("add")) L(zt_ipv4_tbl_add_frm_str(o->o, b)); else if (IS("dup")) { L(zt_ipv4_tbl_add_frm_str(o->o, "10.0.0.0/8")); L(zt_ipv4_tbl_add_frm_str(o->o, "10.0.0.0/8")); } else if (IS("any")) L(zt_ipv4_tbl_add_frm_str(o->o, "0.0.0.0/0"));
        else if (IS("bad")) { L(zt_ipv4_tbl_add_frm_str(o->o, "10.0.0/8")); L(zt_ipv4_tbl_add_frm_str(o->o, "10.0.0.0/40")); L(zt_ipv4_tbl_add_frm_str(o->o, "words")); }
        else for (i = 0; i < (IS("search") ? 1 : 40); i++) { L(zt_ipv4_tbl_search_from_str(o->o, "10.0.0.1")); L(zt_ipv4_tbl_search_from_str(o->o, "99.1.2.3")); L(zt_ipv4_tbl_search_from_str(o->o, "junk")); } }
    else if (!strcmp(k, "list")) {
        zt_llist l = o->o;
        if (IS("push")) L(zt_llist_push(words[n], &l)); else if (IS("pop")) { if (zt_llist_tail(l)) L(zt_llist_pop(&l)); } else if (IS("reverse")) { zt_llist r; L(r = zt_llist_reverse(l)); L(zt_llist_free(l)); l = r; }
        else if (IS("split")) { zt_llist r; L(r = zt_llist_split(l)); if (r && r != l) { L(l = zt_llist_nmerge(zt_llist_sort(l, nocmp), zt_llist_sort(r, nocmp), nocmp)); } } else if (IS("nreverse")) L(l = zt_llist_nreverse(l)); else L(zt_llist_nth(l, 0));
        o->o = l; }
    else if (!strcmp(k, "unit")) {
        if (IS("suite") || !o->su) { snprintf(b, sizeof b, "suite%ld", n); if (IS("suite") || IS("test") || IS("failing")) L(o->su = zt_unit_register_suite(o->o, b, NULL, NULL, NULL)); }
        if (IS("test")) L(zt_unit_register_test(o->su, words[n], passes)); else if (IS("failing")) L(zt_unit_register_test(o->su, "failing", fails)); else if (IS("run")) L(zt_unit_run(o->o)); else if (IS("rerun")) { L(zt_unit_run(o->o)); L(zt_unit_run(o->o)); }
        else if (IS("drop")) { if (o->su) { L(zt_unit_release_suite(&o->su)); o->su = NULL; } }
        else if (IS("byname")) { char nm[40]; if (o->su) { snprintf(nm, sizeof nm, "%s.%s", o->su->name, "no such test"); L(zt_unit_run_by_name(o->o, nm)); } } else if (IS("noname")) { char t[] = "a.b.c", t2[] = "nowhere"; L(zt_unit_run_by_name(o->o, t)); L(zt_unit_run_by_name(o->o, t2)); } else if (IS("list")) { char *av[] = { "prog", "-l", NULL }; L(zt_unit_main(o->o, 2, av)); } }
    else if (!strcmp(k, "lock")) { if (o->kind2) L(zt_threads_cond_signal(o->o, x % 2)); else { L(zt_threads_lock(0, o->o)); L(zt_threads_unlock(0, o->o)); } }
}
static void drop(int s, const char *k) {
    struct obj *o = &O[s]; int i; void *p;
    if (!strcmp(k, "table")) L(zt_table_destroy(o->o)); else if (!strcmp(k, "set")) L(zt_set_destroy(o->o)); else if (!strcmp(k, "buf")) L(zt_buf_free(o->o)); else if (!strcmp(k, "array")) { zt_array_t a = o->o; L(zt_array_free(&a)); }
    else if (!strcmp(k, "ptrs")) L(zt_ptr_array_free(o->o, o->kind2)); else if (!strcmp(k, "bstream")) { zt_bstream_t b = o->o; L(zt_bstream_free(&b)); } else if (!strcmp(k, "cfg")) L(zt_cfg_close(o->o)); else if (!strcmp(k, "log")) L(zt_log_close(o->o));
    else if (!strcmp(k, "pool")) { zt_mem_pool *q = o->o; while (o->ne) { p = give(o, 0); L(zt_mem_pool_release(&p)); } L(zt_mem_pool_destroy(&q)); }
    else if (!strcmp(k, "group")) { while (o->ne) { p = give(o, 0); L(zt_mem_pool_group_release(&p)); } L(zt_mem_pool_group_destroy(o->o)); }
    else if (!strcmp(k, "heap")) { zt_mem_heap *h = o->o; L(zt_mem_heap_destroy(&h)); } else if (!strcmp(k, "ez")) L(zt_ez_mempool_destroy(o->ne ? o->e[0] : o->o)); else if (!strcmp(k, "ipv4")) L(zt_ipv4_tbl_destroy(o->o)); else if (!strcmp(k, "list")) L(zt_llist_free(o->o));
    else if (!strcmp(k, "unit")) { struct zt_unit *u = o->o; L(zt_unit_release(&u)); } else if (o->kind2) L(zt_threads_cond_free(o->o)); else L(zt_threads_free_lock(o->o, 0));
    memset(o, 0, sizeof *o); }
static void opts(int s, int argc, char **argv, int bad) {
    char *str = NULL, **arr = NULL; long l = 0; int i; 
    zt_opt_def_t d[] = { { 's', "string", "text", zt_opt_string, &str, "a string" }, { 'a', "array", "text", zt_opt_string_array, &arr, "strings" }, { 'l', "long", "number", zt_opt_long, &l, "a number" }, { 'h', "help", "", zt_opt_null, NULL, "help" }, { ZT_OPT_END() } };
    L(zt_opt_process_args(&argc, argv, d, NULL, bad ? soft : NULL));
    L(free(str)); for (i = 0; arr && arr[i]; i++) L(free(arr[i])); L(free(arr)); }
static void call(const char *w, long x) {
    int s = 0, i; char *r = NULL, b[400]; void *p = NULL; size_t z = 0; long n = x % 40;
    if (IS("sub")) L(r = zt_cstr_sub("some text here", n % 5, -1)); else if (IS("dup")) L(r = zt_cstr_dup("ab", 0, -1, 1 + n)); else if (IS("cat")) L(r = zt_cstr_cat("some", 0, -1, "text", 0, n % 4)); else if (IS("catv")) L(r = zt_cstr_catv("a", 0, -1, words[n], 0, -1, "c", 0, -1, NULL));
    else if (IS("reverse")) L(r = zt_cstr_reverse(words[n], 0, -1)); else if (IS("map")) { L(r = zt_cstr_map("text", 0, -1, "abcdefghijklmnopqrstuvwxyz", "bcdefghijklmnopqrstuvwxyza")); } else if (IS("append")) L(r = zt_cstr_path_append(n % 2 ? "a/b/" : "a/b", "c"));
    else if (IS("split")) { zt_ptr_array *a; L(a = zt_cstr_split(n % 2 ? "a,b,,c" : n % 3 ? "" : "abc", ",")); if (a) L(zt_cstr_split_free(a)); }
    else if (IS("cut")) { zt_ptr_array *a; L(a = zt_cstr_cut(n % 2 ? ",a,b,,c," : n % 3 ? "" : "abc", ',', x % 2)); if (a) L(zt_cstr_cut_free(a)); } else if (IS("tok")) { zt_ptr_array *a; L(a = zt_cstr_tok(n % 2 ? ",a,b,,c," : n % 3 ? "" : "abc", ',', x % 2)); if (a) L(zt_cstr_cut_free(a)); }
    else if (IS("strprintf")) L(r = zt_fmt_strprintf("%d %s", (int)x, words[n])); else if (IS("longprintf")) { big[n * 60 + 1] = 0; L(r = zt_fmt_strprintf("%s|%s", big, big)); big[n * 60 + 1] = 'x'; }
    else if (IS("encode")) { L(zt_base_encode(n % 3 ? zt_base64_rfc : zt_base32_hex, big, n, &p, &z)); r = p; } else if (IS("decode")) { L(zt_base_decode(zt_base64_rfc, n % 2 ? "c29tZSB0ZXh0" : n % 3 ? "!!!" : "c29tZSB", n % 2 ? 12 : n % 3 ? 3 : 7, &p, &z)); r = p; }
    else if (IS("uuid")) { zt_uuid_t u; L(zt_uuid4(&u)); L(zt_uuid5("a name", 6, UUID_NS_DNS, &u)); L(zt_uuid_tostr(&u, &r, n % 4)); } else if (IS("int2ip")) L(r = zt_ipv4_int2ip((uint32_t)x)); else if (IS("str2net")) { uint32_t a; int bl; L(zt_ipv4_str2net("10.1.2.0/24", &a, &bl)); L(zt_ipv4_str2net("10.1.2.3", &a, &bl)); L(zt_ipv4_ip2int("1.2.3.4")); }
    else if (IS("badnet")) { uint32_t a; int bl; static char *bad[] = { "10.0.0", "10.0.0.0/33", "words", "", "10.0.0.0/x", "1.2.3.4.5", "300.1.1.1", "/8", "10.0.0.0/", "1.2.3.4/8/9", "100.100.100.1000/8", "100.100.100.1000" }; L(zt_ipv4_str2net(bad[x % 12], &a, &bl)); }
    else if (IS("opterror")) { L(zt_opt_error_default(n % 3 ? ENOENT : 0, "a %s", words[n])); L(r = zt_opt_error_str(n % 3 ? ENOENT : 0, "a %s", words[n])); } else if (IS("progpath")) { static char *pr[] = { "ls", "no-such-program", "./x", "a/b", "/bin/x", "sh" }; setenv("PATH", x % 2 ? "/bin:/usr/bin" : "/nowhere::/bin", 1); if (x % 7 == 0) unsetenv("PATH"); L(zt_progpath(pr[x % 6])); L(zt_progname("a/b", STRIP_DIR)); }
    else if (IS("osprogpath")) L(r = zt_os_progpath()); else if (IS("optstring")) { char *av[] = { "p", "-s", "x", "--long=4", "rest", NULL }; opts(s, 5, av, 0); } else if (IS("optarray")) { char *av[] = { "p", "-a", "x", "--array=y", "-az", "--array", "w", "rest", NULL }; opts(s, 8, av, 0); }
    else if (IS("optbad")) { char *av[] = { "p", "--none", "-z", "-l", "abc", "--array", "w", "-s", NULL }; opts(s, 8, av, 1); } else if (IS("optusage")) { zt_opt_def_t d[] = { { 's', "string", "text", zt_opt_null, NULL, "a string" }, { ZT_OPT_END() } }; L(zt_opt_usage("prog", "[x]", d)); }
    else if (IS("basedir")) L(r = zt_find_basedir("d/e/f", "here")); else if (IS("nobasedir")) L(r = zt_find_basedir("d/e/f", "not here")); else if (IS("mkdir")) { L(zt_mkdir("d/e/f", 0700, zt_mkdir_create_parent)); L(zt_mkdir("x.ini/a", 0700, 0)); } else if (IS("exists")) L(zt_path_exists("d/e"));
    else if (IS("writepid")) { L(zt_writepid("the.pid")); L(zt_writepid("no/such/the.pid")); } else if (IS("time")) { L(zt_add_time(&TV, &TV, &TV)); } else if (IS("cputs")) { L(zt_cstr_basename(b, sizeof b, "a/b/c.x", ".x")); L(zt_cstr_dirname(b, sizeof b, "a/b/c")); strcpy(b, "  x \n"); L(zt_cstr_strip(b)); }
    else vp_die(w);
    if (r) L(free(r)); }
static void show(void) {
    long v[N + 1]; int i; vp_key("r"); fputs("[[", vp_f); for (i = 0; i <= N; i++) fprintf(vp_f, "%s%ld", i ? "," : "", blocks[i]); fputs("],[", vp_f);
    for (i = 0; i <= N; i++) fprintf(vp_f, "%s%ld", i ? "," : "", fds[i]); fputs("]]", vp_f); }
int main(void) {
    int n, i, f0; static char kind[N + 1][16];
    vp_open(); freopen("out.txt", "w", stdout); freopen("err.txt", "w", stderr); setvbuf(stderr, malloc(4096), _IOFBF, 4096); setvbuf(stdout, malloc(4096), _IOFBF, 4096); clearenv();
    for (i = 0; i < 64; i++) { sprintf(words[i], "word%d", i); nums[i] = i; } memset(big, 'x', sizeof big - 1); mkdir("d", 0700); mkdir("d/e", 0700); mkdir("d/e/f", 0700); mkdir("d/here", 0700);
    /* what the library and libc keep for the whole process: the first logging context, time zone, the pool of tables, random state */
    zt_table_pool_init(64); zt_table_init("the pool stays", zt_table_hash_string, zt_table_compare_string, 4, 0, NULL); setenv("TZ", "UTC", 1); tzset(); zt_threads_use_pthreads(); setenv("PATH", "/bin:/usr/bin:/usr/local/bin:/nowhere/at/all", 1); unsetenv("PATH");
    { zt_uuid_t u; zt_log_ty *l = zt_log_file("warm.log", 0, 255); zt_log_lprintf(l, zt_log_emerg, "%s %f", "x", 1.5); zt_log_lstrerror(l, 0, ENOENT, "x"); zt_log_close(l); zt_uuid4(&u); zt_log_printf(zt_log_emerg, "x"); zt_progpath("a/b"); }
    while ((n = vp_line()) >= 0) {
        if (!n) continue;
        const char *op = vp_w[0]; int s; long x; const char *k, *w; int made = 0;
        fflush(stdout); fflush(stderr); if (ftell(stdout) > 1 << 22) rewind(stdout); 
        if (!strcmp(op, "reset")) { for (i = 1; i <= N; i++) if (*kind[i]) { drop(i, kind[i]); kind[i][0] = 0; } memset(blocks, 0, sizeof blocks); memset(fds, 0, sizeof fds); memset(B, 0, sizeof B); vp_ev("reset"); vp_end(); continue; }
        f0 = nfds();
        if (!strcmp(op, "call")) { w = vp_w[1]; x = vp_i(2); s = 0; k = "call"; call(w, x); }
        else { s = (int)vp_i(1); k = vp_w[2]; w = vp_w[3]; x = vp_i(4);
            if (!strcmp(op, "make")) { made = make(s, k, w, x); if (made) strcpy(kind[s], k); } else if (!strcmp(op, "use")) use(s, k, w, x); else { drop(s, k); kind[s][0] = 0; } }
        fds[s] += nfds() - f0;
        vp_ev(op); fprintf(vp_f, ",\"a\":[%d,\"%s\",\"%s\",%ld]", s, k, w, x); if (!strcmp(op, "make")) vp_int("made", made); show(); vp_end();
    }
    return 0;
}
