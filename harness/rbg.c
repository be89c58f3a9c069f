/* The engine's random generator, with the default OpenSSL source and the clock
 * it is seeded from replaced by scripted ones. */
#include "drv.h"
#include <dlfcn.h>
#include <sys/mman.h>

static int on, mode;                 /* mode 0 ok, 1 bytes fail, 2 status says no */
static unsigned char *seeds; static size_t seeds_n, seeds_pos;
static unsigned char child_seed[4096]; static size_t child_n;
static long now_v, delay_us, n_bytes, n_req, n_add, n_seed, n_status;
static pid_t main_pid;
static pthread_mutex_t mx = PTHREAD_MUTEX_INITIALIZER;

static int os_bytes(unsigned char *b, int n)
{
    int i, ok = 0; size_t pos;
    pthread_mutex_lock(&mx);
    n_bytes++; n_req += n;
    if (mode == 0) {
        if (getpid() != main_pid) {           /* a source that is safe under fork: other values in every process */
            unsigned long long x = 0x9e3779b97f4a7c15ULL ^ ((unsigned long long) getpid() << 20);
            for (i = 0; i < n; i++) { x ^= x << 13; x ^= x >> 7; x ^= x << 17; b[i] = x >> 16; }
            ok = 1;
        } else if (seeds_pos + n <= seeds_n) { pos = seeds_pos; seeds_pos += n; memcpy(b, seeds + pos, n); ok = 1; }
    }
    pthread_mutex_unlock(&mx);
    if (delay_us) usleep(delay_us);
    return ok;
}
static int os_status(void) { __sync_add_and_fetch(&n_status, 1); return mode != 2; }
static int os_seed(const void *b, int n) { (void) b; (void) n; __sync_add_and_fetch(&n_seed, 1); return 1; }
static int os_add(const void *b, int n, double e) { (void) b; (void) n; (void) e; __sync_add_and_fetch(&n_add, 1); return 1; }
static RAND_METHOD os_meth = { os_seed, os_bytes, NULL, os_add, os_bytes, os_status };

/* seen by the engine instead of the library's */
RAND_METHOD *RAND_OpenSSL(void)
{
    static RAND_METHOD *(*real)(void);
    if (on) return &os_meth;
    if (!real) real = (RAND_METHOD *(*)(void)) dlsym(RTLD_NEXT, "RAND_OpenSSL");
    return real();
}
time_t time(time_t *t)
{
    time_t v;
    if (on) v = now_v; else { struct timespec ts; clock_gettime(CLOCK_REALTIME, &ts); v = ts.tv_sec; }
    if (t) *t = v;
    if (on && delay_us) usleep(delay_us);
    return v;
}

static int get(int how, unsigned char *b, int n)
{
    const RAND_METHOD *m = ENGINE_get_RAND(eng);
    switch (how) {
    case 'm': return m->bytes(b, n);
    case 'p': return m->pseudorand(b, n);
    case 'R': return RAND_bytes(b, n);
    case 'P': return RAND_priv_bytes(b, n);
    }
    return -9;
}

struct job { pthread_t t; unsigned char *sizes, *out; size_t k; int ok, stat, how; pthread_barrier_t *bar; };
static void *worker(void *p)
{
    struct job *j = p; size_t i; unsigned char *o = j->out;
    pthread_barrier_wait(j->bar);
    if (j->stat & 1) ENGINE_get_RAND(eng)->status();
    for (i = 0; i < j->k; i++) {
        if (get(j->how, o, j->sizes[i]) != 1) j->ok = 0;
        o += j->sizes[i];
        if (j->stat & 2) ENGINE_get_RAND(eng)->add("abcd", 4, 1.0);
        if (j->stat & 4) ENGINE_get_RAND(eng)->status();
    }
    return NULL;
}

int cmd_rbg(const char *op)
{
#define OP(x) (!strcmp(op, x))
    const RAND_METHOD *m = eng ? ENGINE_get_RAND(eng) : NULL;
    if (OP("osrc")) { /* seeds time delay */
        buf_t b = ab(1); seeds = b.p; seeds_n = b.n; seeds_pos = 0; now_v = strtoull(as(2), NULL, 10); delay_us = ai(3); main_pid = getpid(); on = 1; mode = 0; rint("ok", 1); }
    else if (OP("osrc_mode")) { mode = ai(1); rint("ok", 1); }
    else if (OP("osrc_time")) { now_v = strtoull(as(1), NULL, 10); rint("ok", 1); }
    else if (OP("osrc_off")) { on = 0; rint("ok", 1); }
    else if (OP("rb")) { int n = ai(2), r; unsigned char *o = malloc(n + 16); memset(o, 0xa5, n + 16); r = get(as(1)[0], o, n); rint("ok", r == 1); rint("over", memcmp(o + n, "\xa5\xa5\xa5\xa5", 4) != 0); if (r == 1) rhex("out", o, n); free(o); }
    else if (OP("rb_status")) rint("r", as(1)[0] == 'R' ? RAND_status() : m->status());
    else if (OP("rb_add")) { buf_t b = ab(1); int r = m->add(b.p, b.n, 4.0); rint("r", r); bfree(&b, 0); }
    else if (OP("rb_seed")) { buf_t b = ab(1); int r = m->seed(b.p, b.n); rint("r", r); bfree(&b, 0); }
    else if (OP("rb_clean")) { if (m->cleanup) m->cleanup(); rint("ok", 1); }
    else if (OP("rb_default")) { ENGINE_set_default_RAND(eng); RAND_set_rand_method(NULL); rint("ok", RAND_get_rand_method() == m); }
    else if (OP("rb_log")) { rint("bytes", n_bytes); rint("req", n_req); rint("add", n_add); rint("seed", n_seed); n_bytes = n_req = n_add = n_seed = n_status = 0; }
    else if (OP("rb_fork")) { /* how, bytes for parent, child and grandchild */
        int n0 = ai(2), n1 = ai(3), n2 = ai(4), how = as(1)[0], st, i; unsigned char *sh = mmap(NULL, 1 << 16, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
        unsigned char *o0 = malloc(n0 + 1); int r;
        fflush(stdout); fflush(stderr);
        pid_t p = fork();
        if (p == 0) {
            alarm(20);
            sh[0] = get(how, sh + 16, n1) == 1;
            if (n2) {
                pid_t q = fork();
                if (q == 0) { sh[1] = get(how, sh + 16 + 8192, n2) == 1; _exit(0); }
                waitpid(q, &st, 0); sh[3] = WIFEXITED(st) && WEXITSTATUS(st) == 0;
                sh[2] = get(how, sh + 16 + 16384, n1) == 1;
            }
            _exit(0);
        }
        waitpid(p, &st, 0);
        r = get(how, o0, n0);
        rint("childdied", !(WIFEXITED(st) && WEXITSTATUS(st) == 0) || (n2 && !sh[3]));
        rint("ok", r == 1); if (r == 1) rhex("out", o0, n0);
        for (i = 0; i < 3; i++) { static const char *nm[] = { "ok1", "ok2", "ok3" }; rint(nm[i], sh[i]); }
        rhex("c1", sh + 16, sh[0] ? n1 : 0); rhex("c2", sh + 16 + 8192, sh[1] ? n2 : 0); rhex("c3", sh + 16 + 16384, sh[2] ? n1 : 0);
        free(o0); munmap(sh, 1 << 16); }
    else if (OP("rb_thr")) { /* how, flags, then one list of request sizes per thread */
        struct job j[16]; pthread_barrier_t bar; int t, T = argc_ - 3, ok = 1; size_t i, tot;
        pthread_barrier_init(&bar, NULL, T);
        for (t = 0; t < T; t++) { buf_t b = ab(3 + t); memset(&j[t], 0, sizeof j[t]); j[t].sizes = b.p; j[t].k = b.n; j[t].ok = 1; j[t].how = as(1)[0]; j[t].bar = &bar;
            for (tot = i = 0; i < b.n; i++) tot += b.p[i];
            j[t].out = malloc(tot + 1); j[t].stat = ai(2) & 1 && t % 3 == 0 ? ai(2) : ai(2) & ~1; }
        for (t = 0; t < T; t++) pthread_create(&j[t].t, NULL, worker, &j[t]);
        for (t = 0; t < T; t++) pthread_join(j[t].t, NULL);
        unsigned char *all = malloc(1 << 20); size_t n = 0;
        for (t = 0; t < T; t++) { ok &= j[t].ok; for (tot = i = 0; i < j[t].k; i++) tot += j[t].sizes[i]; memcpy(all + n, j[t].out, tot); n += tot; free(j[t].out); free(j[t].sizes); }
        rint("ok", ok); rint("seedings", n_bytes); rhex("out", all, n); free(all); pthread_barrier_destroy(&bar); }
    else return 0;
    return 1;
}
