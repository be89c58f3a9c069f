/* Driver: executes line commands against the engine and the key library
 * through their public interfaces and prints what they return.  It judges
 * nothing; the judgement is the specification's. */
#include "drv.h"
#include <execinfo.h>
#include <link.h>
#include "jks.h"
#include "key6.h"
#include "keystore.h"
#include "pkcs12.h"

TL char *argv_[MAXARG]; TL int argc_;
ENGINE *eng;
TL EVP_PKEY *keys[NSLOT];
EVP_PKEY *shared[NSLOT];
static TL EVP_MD_CTX *mds[NSLOT];
static TL EVP_CIPHER_CTX *cis[NSLOT];
static TL EVP_PKEY_CTX *pcs[NSLOT];
static TL KeyStore *kss[NSLOT];
static TL char *outb; static TL size_t outn, outcap;

/* ---------- output ---------- */
static void put(const char *s, size_t n)
{
    if (outn + n + 1 > outcap) { outcap = (outn + n + 1) * 2; outb = realloc(outb, outcap); }
    memcpy(outb + outn, s, n); outn += n; outb[outn] = 0;
}
void rint(const char *k, long v) { char t[128]; int n = snprintf(t, sizeof t, "%s%s=%ld", outn ? " " : "", k, v); put(t, n); }
void rhex(const char *k, const void *p, size_t n)
{
    static const char hx[] = "0123456789abcdef";
    const unsigned char *q = p; char t[128]; size_t i;
    int m = snprintf(t, sizeof t, "%s%s:", outn ? " " : "", k); put(t, m);
    char *h = malloc(2 * n + 1);
    for (i = 0; i < n; i++) { h[2*i] = hx[q[i] >> 4]; h[2*i+1] = hx[q[i] & 15]; }
    put(h, 2 * n); free(h);
}
void badcmd(void) { rint("badcmd", 1); }

/* ---------- input ---------- */
long ai(int i) { return i < argc_ ? strtol(argv_[i], NULL, 10) : 0; }
const char *as(int i) { return i < argc_ ? argv_[i] : ""; }
static int hv(char c) { return c <= '9' ? c - '0' : (c | 32) - 'a' + 10; }
buf_t ab_off(int i, int off)
{
    buf_t b = { NULL, 0, 1 };
    if (i >= argc_ || !strcmp(argv_[i], "-")) return b;
    const char *s = argv_[i] + 1; size_t n = strlen(s) / 2, j;
    b.null = 0; b.n = n; b.p = (unsigned char *) malloc(n + off) + off;
    for (j = 0; j < n; j++) b.p[j] = hv(s[2*j]) << 4 | hv(s[2*j+1]);
    return b;
}
buf_t ab(int i) { return ab_off(i, 0); }
void bfree(buf_t *b, int off) { if (b->p) free(b->p - off); b->p = NULL; }

/* ---------- running out of memory ---------- */
#if !defined(__SANITIZE_ADDRESS__) && !defined(__SANITIZE_THREAD__)
#define INTERPOSED 1
#else
#define INTERPOSED 0
#endif
/* while armed, allocations are counted; from number flt_at on, the first flt_n of those made on behalf of
 * the engine or the key library (one of them is among the callers) are refused */
static TL long flt_at = -1, flt_n, flt_cnt, flt_hit; static TL int flt_in;
static struct { char *a, *e; } flt_so[4]; static int flt_nso;
/* a number out of reach only looks: which the requests are, and which of them the first two of each kind (stack of callers) */
#define FLT_LOOK (1L << 40)
static struct { uint64_t h; int n; } flt_seen[16384]; static unsigned flt_site[8192], flt_req[65536]; static int flt_nsite, flt_nreq;
static int flt_range(struct dl_phdr_info *i, size_t z, void *u)
{
    int j; (void) z; (void) u;
    if (i->dlpi_name && (strstr(i->dlpi_name, "/dstu.so") || strstr(i->dlpi_name, "libkeylib")))
        for (j = 0; j < i->dlpi_phnum; j++) if (i->dlpi_phdr[j].p_type == PT_LOAD && (i->dlpi_phdr[j].p_flags & PF_X) && flt_nso < 4)
            { flt_so[flt_nso].a = (char *) i->dlpi_addr + i->dlpi_phdr[j].p_vaddr; flt_so[flt_nso].e = flt_so[flt_nso].a + i->dlpi_phdr[j].p_memsz; flt_nso++; }
    return 0;
}
static void flt_arm(long at, long n)
{
    void *b[8]; flt_at = -1; backtrace(b, 8); flt_nso = 0; dl_iterate_phdr(flt_range, NULL);
    flt_n = n; flt_cnt = flt_hit = 0; flt_nsite = flt_nreq = 0; if (at == FLT_LOOK) memset(flt_seen, 0, sizeof flt_seen); flt_at = at;
}
static int refused(void)
{
    void *b[80]; int n, i, j, in = 0;
    if (flt_at < 0 || flt_in) return 0;
    if (flt_cnt++ < flt_at && flt_at != FLT_LOOK) return 0;
    if (flt_hit >= flt_n) return 0;
    flt_in = 1; n = backtrace(b, 80); flt_in = 0;
    for (i = 0; i < n && !in; i++) for (j = 0; j < flt_nso; j++) in |= (char *) b[i] >= flt_so[j].a && (char *) b[i] < flt_so[j].e;
    if (!in) return 0;
    if (flt_at == FLT_LOOK) {
        uint64_t h = 14695981039346656037ULL; unsigned p;
        for (i = 0; i < n; i++) h = (h ^ (uint64_t) (uintptr_t) b[i]) * 1099511628211ULL;
        for (p = (h ^ h >> 17) & 16383; flt_seen[p].n && flt_seen[p].h != h; p = (p + 1) & 16383);
        flt_seen[p].h = h;
        if (flt_seen[p].n++ < 2 && flt_nsite < 8192) flt_site[flt_nsite++] = flt_nreq;
        if (flt_nreq < 65536) flt_req[flt_nreq++] = flt_cnt - 1;
        return 0;
    }
    flt_hit++;
    if (getenv("DRV_FLT")) { flt_in = 1; backtrace_symbols_fd(b, n, 2); flt_in = 0; }
    return 1;
}
/* ---------- allocation accounting ---------- */
static int accounting; static long a_n, a_b;
static void *m_alloc(size_t n, const char *f, int l) { (void) f; (void) l; if (!n || (!INTERPOSED && refused())) return NULL; size_t *p = malloc(n + 16); if (!p) return NULL; p[0] = n; __sync_add_and_fetch(&a_n, 1); __sync_add_and_fetch(&a_b, n); return p + 2; }
static void m_free(void *q, const char *f, int l) { (void) f; (void) l; if (!q) return; size_t *p = (size_t *) q - 2; __sync_sub_and_fetch(&a_n, 1); __sync_sub_and_fetch(&a_b, p[0]); free(p); }
static void *m_realloc(void *q, size_t n, const char *f, int l)
{
    if (!q) return m_alloc(n, f, l);
    if (!n) { m_free(q, f, l); return NULL; }
    if (!INTERPOSED && refused()) return NULL;
    size_t *p = (size_t *) q - 2, o = p[0]; size_t *r = realloc(p, n + 16);
    if (!r) return NULL;
    r[0] = n; __sync_add_and_fetch(&a_b, (long) n - (long) o); return r + 2;
}
/* every allocation of the process, when no sanitizer provides the allocator */
static long live;
#if !defined(__SANITIZE_ADDRESS__) && !defined(__SANITIZE_THREAD__)
extern void *__libc_malloc(size_t), *__libc_calloc(size_t, size_t), *__libc_realloc(void *, size_t), *__libc_memalign(size_t, size_t); extern void __libc_free(void *);
#define CNT(p) do { if (p) __sync_add_and_fetch(&live, 1); } while (0)
#define REFUSED do { if (refused()) { errno = ENOMEM; return NULL; } } while (0)
void *malloc(size_t n) { REFUSED; void *p = __libc_malloc(n); CNT(p); return p; }
void *calloc(size_t n, size_t m) { REFUSED; void *p = __libc_calloc(n, m); CNT(p); return p; }
void *realloc(void *q, size_t n) { if (n) REFUSED; void *p = __libc_realloc(q, n); if (!q) CNT(p); else if (!n && !p) __sync_sub_and_fetch(&live, 1); return p; }
void *memalign(size_t a, size_t n) { void *p = __libc_memalign(a, n); CNT(p); return p; }
void *aligned_alloc(size_t a, size_t n) { void *p = __libc_memalign(a, n); CNT(p); return p; }
int posix_memalign(void **r, size_t a, size_t n) { if (refused()) return ENOMEM; void *p = __libc_memalign(a, n); CNT(p); *r = p; return p ? 0 : ENOMEM; }
void free(void *p) { if (p) __sync_sub_and_fetch(&live, 1); __libc_free(p); }
#endif
X509 *ks_cert_at(int s, long pos) { return (X509 *) KeyStoreGetCert(kss[s], pos); }
void alloc_count(long *n, long *b) { *n = a_n; *b = a_b; }

/* ---------- scripted random source ---------- */
static unsigned char *script; static size_t script_n, script_pos;
static unsigned long long prng = 88172645463325252ULL;
static long fail_after = -1, rnd_calls, rnd_bytes;
static int fail_once, fail_mode;      /* what a failing source returns: 0 or -1 */
static unsigned char prng_byte(void) { prng ^= prng << 13; prng ^= prng >> 7; prng ^= prng << 17; return prng >> 24; }
static pthread_mutex_t rnd_mx = PTHREAD_MUTEX_INITIALIZER;
static int scr_bytes(unsigned char *b, int n)
{
    int i; pthread_mutex_lock(&rnd_mx);
    if (fail_after >= 0 && (fail_once ? rnd_calls == fail_after : rnd_calls >= fail_after)) { rnd_calls++; pthread_mutex_unlock(&rnd_mx); return fail_mode; }
    rnd_calls++; rnd_bytes += n;
    for (i = 0; i < n; i++) b[i] = script_pos < script_n ? script[script_pos++] : prng_byte();
    pthread_mutex_unlock(&rnd_mx);
    return 1;
}
static int scr_status(void) { return 1; }
static int scr_seed(const void *b, int n) { (void) b; (void) n; return 1; }
static int scr_add(const void *b, int n, double e) { (void) b; (void) n; (void) e; return 1; }
static RAND_METHOD scr_meth = { scr_seed, scr_bytes, NULL, scr_add, scr_bytes, scr_status };

const EVP_MD *the_md(void) { return ENGINE_get_digest(eng, NID_dstu34311); }
const EVP_CIPHER *the_cipher(void) { return ENGINE_get_cipher(eng, NID_dstu28147_cfb); }

static int slot(int i) { long s = ai(i); if (s < 0 || s >= NSLOT) { fprintf(stderr, "bad slot\n"); exit(3); } return s; }
static EVP_PKEY *K(int i) { return keys[slot(i)]; }
static int alg(const char *s) { return !strcmp(s, "le") ? NID_dstu4145le : !strcmp(s, "be") ? NID_dstu4145be : atoi(s); }

/* group from: p a b n gx gy (big-endian octets each) starting at argument i */
static EC_GROUP *group_arg(int i)
{
    BIGNUM *v[6]; buf_t b; int j; EC_GROUP *g = NULL; EC_POINT *pt = NULL;
    for (j = 0; j < 6; j++) { b = ab(i + j); v[j] = BN_bin2bn(b.p, b.n, NULL); bfree(&b, 0); }
    g = EC_GROUP_new_curve_GF2m(v[0], v[1], v[2], NULL);
    if (g) {
        pt = EC_POINT_new(g);
        if (!EC_POINT_set_affine_coordinates_GF2m(g, pt, v[4], v[5], NULL) || !EC_GROUP_set_generator(g, pt, v[3], NULL)) {
            EC_GROUP_free(g); g = NULL;
        }
        EC_POINT_free(pt);
    }
    for (j = 0; j < 6; j++) BN_free(v[j]);
    return g;
}

static void der_out(const char *k, int n, unsigned char *d) { if (n > 0) rhex(k, d, n); if (d) OPENSSL_free(d); }

/* everything a key shows of itself */
static void show_key(EVP_PKEY *k)
{
    unsigned char *d = NULL; int n; PKCS8_PRIV_KEY_INFO *p;
    rint("le", EVP_PKEY_id(k) == NID_dstu4145le); rint("be", EVP_PKEY_id(k) == NID_dstu4145be);
    rint("bits", EVP_PKEY_bits(k)); rint("size", EVP_PKEY_size(k));
    n = i2d_KeyParams(k, &d); rhex("par", d, n > 0 ? n : 0); if (n > 0) OPENSSL_free(d);
    d = NULL; n = i2d_PUBKEY(k, &d); rhex("pub", d, n > 0 ? n : 0); if (n > 0) OPENSSL_free(d);
    p = EVP_PKEY2PKCS8(k); d = NULL; n = p ? i2d_PKCS8_PRIV_KEY_INFO(p, &d) : 0; rhex("priv", d, n > 0 ? n : 0); if (n > 0) OPENSSL_free(d);
    PKCS8_PRIV_KEY_INFO_free(p);
}
static EVP_PKEY *load_key(int kind, int nid, const unsigned char *b, size_t n)
{
    const unsigned char *q = b; EVP_PKEY *k = NULL; PKCS8_PRIV_KEY_INFO *p;
    switch (kind) {
    case 'u': return d2i_PUBKEY(NULL, &q, n);
    case 'a': return d2i_AutoPrivateKey(NULL, &q, n);
    case 'm': return d2i_KeyParams(nid, NULL, &q, n);
    case 'r': p = d2i_PKCS8_PRIV_KEY_INFO(NULL, &q, n); if (p) k = EVP_PKCS82PKEY(p); PKCS8_PRIV_KEY_INFO_free(p); return k;
    }
    return NULL;
}
/* does what the key encodes to decode to an equal encoding? (1 yes or nothing to encode) */
static int same_again(EVP_PKEY *k, int kind, int nid)
{
    unsigned char *d = NULL, *e = NULL; int n, m, ok; EVP_PKEY *j; PKCS8_PRIV_KEY_INFO *p = NULL, *p2 = NULL;
    if (kind == 'm') n = i2d_KeyParams(k, &d);
    else if (kind == 'u') n = i2d_PUBKEY(k, &d);
    else { p = EVP_PKEY2PKCS8(k); n = p ? i2d_PKCS8_PRIV_KEY_INFO(p, &d) : 0; }
    PKCS8_PRIV_KEY_INFO_free(p);
    if (n <= 0) return 0;
    j = load_key(kind, nid, d, n);
    if (!j) { OPENSSL_free(d); return 0; }
    if (kind == 'm') m = i2d_KeyParams(j, &e);
    else if (kind == 'u') m = i2d_PUBKEY(j, &e);
    else { p2 = EVP_PKEY2PKCS8(j); m = p2 ? i2d_PKCS8_PRIV_KEY_INFO(p2, &e) : 0; }
    PKCS8_PRIV_KEY_INFO_free(p2);
    ok = m == n && !memcmp(d, e, n) && (kind == 'm' ? EVP_PKEY_cmp_parameters(k, j) : EVP_PKEY_cmp(k, j)) == 1;
    OPENSSL_free(d); if (m > 0) OPENSSL_free(e);
    EVP_PKEY_free(j);
    return ok;
}

/* a small number for an address */
/* a BIO that gives its data in small pieces of varying size */
struct drib { const unsigned char *p; size_t n, i; unsigned k; };
static int drib_read(BIO *b, char *out, int n)
{
    struct drib *d = BIO_get_data(b);
    size_t m = d->n - d->i, w;
    BIO_clear_retry_flags(b);
    if (n <= 0 || m == 0) return 0;
    d->k = d->k * 1103515245u + 12345u;
    w = (d->k >> 16) % 7 == 0 ? 1 : 1 + (d->k >> 20) % 300;
    if (w > m) w = m;
    if (w > (size_t) n) w = n;
    memcpy(out, d->p + d->i, w); d->i += w;
    return (int) w;
}
static long drib_ctrl(BIO *b, int c, long n, void *q)
{
    struct drib *d = BIO_get_data(b);
    if (c == BIO_CTRL_EOF) return d->i == d->n;
    if (c == BIO_CTRL_PENDING) return (long) (d->n - d->i);
    return c == BIO_CTRL_FLUSH;
}
static int drib_free(BIO *b) { free(BIO_get_data(b)); return 1; }
/* a BIO that refuses to take more than n octets */
static int nar_write(BIO *b, const char *p, int n) { long *l = BIO_get_data(b); if (n > *l) { *l = 0; return -1; } *l -= n; return n; }
static int nar_puts(BIO *b, const char *p) { return nar_write(b, p, strlen(p)); }
static long nar_ctrl(BIO *b, int cmd, long n, void *p) { return cmd == BIO_CTRL_FLUSH; }
static int nar_free(BIO *b) { free(BIO_get_data(b)); return 1; }
static BIO *narrow(long n)
{
    static BIO_METHOD *m; BIO *b; long *l;
    if (!m) { m = BIO_meth_new(BIO_get_new_index() | BIO_TYPE_SOURCE_SINK, "narrow"); BIO_meth_set_write(m, nar_write); BIO_meth_set_puts(m, nar_puts); BIO_meth_set_ctrl(m, nar_ctrl); BIO_meth_set_destroy(m, nar_free); }
    if (n < 0) return NULL;
    l = malloc(sizeof *l); *l = n;
    b = BIO_new(m); BIO_set_data(b, l); BIO_set_init(b, 1); return b;
}
static BIO *dribble(const unsigned char *p, size_t n)
{
    static BIO_METHOD *m;
    struct drib *d;
    BIO *b;
    if (!m) { m = BIO_meth_new(BIO_get_new_index() | BIO_TYPE_SOURCE_SINK, "dribble"); BIO_meth_set_read(m, drib_read); BIO_meth_set_ctrl(m, drib_ctrl); BIO_meth_set_destroy(m, drib_free); }
    if (n == (size_t) -1) return NULL;
    d = malloc(sizeof *d); d->p = p; d->n = n; d->i = 0; d->k = (unsigned) n;
    b = BIO_new(m); BIO_set_data(b, d); BIO_set_init(b, 1);
    return b;
}

static long ptr_id(const void *p)
{
    static TL const void **t; static TL long n, cap; long i;
    for (i = 0; i < n; i++) if (t[i] == p) return i + 1;
    if (n == cap) t = realloc(t, (cap = 2 * cap + 64) * sizeof(*t));
    t[n++] = p; return n;
}

int cmd_main(const char *op)
{
#define OP(x) (!strcmp(op, x))
    /* ----- digest ----- */
    if (OP("md_new")) { int s = slot(1); mds[s] = EVP_MD_CTX_new(); rint("ok", mds[s] != NULL); }
    else if (OP("md_init")) rint("ok", EVP_DigestInit_ex(mds[slot(1)], the_md(), eng));
    else if (OP("md_initname")) rint("ok", EVP_DigestInit_ex(mds[slot(1)], EVP_get_digestbyname(as(2)), eng));
    else if (OP("md_upd")) { int off = ai(3); buf_t b = ab_off(2, off); rint("ok", EVP_DigestUpdate(mds[slot(1)], b.p, b.n)); bfree(&b, off); }
    else if (OP("md_rep")) { /* slot, pattern, number of repetitions, repetitions per call */
        buf_t b = ab(2); long n = ai(3), per = ai(4), i; int ok = 1; if (per < 1) per = 1;
        unsigned char *big = malloc(b.n * per);
        for (i = 0; i < per; i++) memcpy(big + i * b.n, b.p, b.n);
        while (n > 0) { long k = n < per ? n : per; ok &= EVP_DigestUpdate(mds[slot(1)], big, k * b.n); n -= k; }
        free(big); bfree(&b, 0); rint("ok", ok); }
    else if (OP("md_fin")) { unsigned char d[EVP_MAX_MD_SIZE]; unsigned n = 0; int ok = EVP_DigestFinal_ex(mds[slot(1)], d, &n); rint("ok", ok); rhex("out", d, ok ? n : 0); }
    else if (OP("md_copy")) rint("ok", EVP_MD_CTX_copy_ex(mds[slot(1)], mds[slot(2)]));
    else if (OP("md_sbox")) { buf_t b = ab(3); rint("ok", EVP_MD_CTX_ctrl(mds[slot(1)], DSTU_SET_CUSTOM_SBOX, ai(2), b.p) > 0); bfree(&b, 0); }
    else if (OP("md_free")) { int s = slot(1); EVP_MD_CTX_free(mds[s]); mds[s] = NULL; rint("ok", 1); }
    else if (OP("md_info")) { const EVP_MD *m = the_md(); rint("size", EVP_MD_size(m)); rint("block", EVP_MD_block_size(m)); rint("type", EVP_MD_type(m) == NID_dstu34311); }

    /* ----- cipher ----- */
    else if (OP("ci_new")) { int s = slot(1); cis[s] = EVP_CIPHER_CTX_new(); rint("ok", cis[s] != NULL); }
    else if (OP("ci_init")) { /* slot withcipher enc key iv */
        buf_t k = ab(4), v = ab(5); int wc = ai(2);
        rint("ok", EVP_CipherInit_ex(cis[slot(1)], wc ? the_cipher() : NULL, wc ? eng : NULL, k.p, v.p, ai(3)));
        bfree(&k, 0); bfree(&v, 0); }
    else if (OP("ci_upd")) { /* slot data off inplace(0,1) outoff */
        int off = ai(3), inpl = ai(4), ooff = ai(5), ol = 0; buf_t b = ab_off(2, off);
        unsigned char *o = inpl ? b.p : (unsigned char *) malloc(b.n + ooff) + ooff;
        int ok = EVP_CipherUpdate(cis[slot(1)], o, &ol, b.p, b.n);
        rint("ok", ok > 0); rhex("out", o, ok > 0 && ol > 0 ? ol : 0); rint("outl", ol);
        if (!inpl) free(o - ooff);
        bfree(&b, off); }
    else if (OP("ci_fin")) { unsigned char o[64]; int ol = 0; int ok = EVP_CipherFinal_ex(cis[slot(1)], o, &ol); rint("ok", ok > 0); rint("outl", ol); }
    else if (OP("ci_sbox")) { buf_t b = ab(3); rint("ok", EVP_CIPHER_CTX_ctrl(cis[slot(1)], DSTU_SET_CUSTOM_SBOX, ai(2), b.p) > 0); bfree(&b, 0); }
    else if (OP("ci_copy")) rint("ok", EVP_CIPHER_CTX_copy(cis[slot(1)], cis[slot(2)]));
    else if (OP("ci_free")) { int s = slot(1); EVP_CIPHER_CTX_free(cis[s]); cis[s] = NULL; rint("ok", 1); }
    else if (OP("ci_reset")) rint("ok", EVP_CIPHER_CTX_reset(cis[slot(1)]));
    else if (OP("ci_getp")) {
        ASN1_TYPE *t = ASN1_TYPE_new(); unsigned char *d = NULL; int n; int ok = EVP_CIPHER_param_to_asn1(cis[slot(1)], t);
        rint("ok", ok > 0); n = ok > 0 ? i2d_ASN1_TYPE(t, &d) : 0; rhex("out", d, n > 0 ? n : 0); OPENSSL_free(d); ASN1_TYPE_free(t); }
    else if (OP("ci_setp")) {
        buf_t b = ab(2); const unsigned char *q = b.p; ASN1_TYPE *t = d2i_ASN1_TYPE(NULL, &q, b.n);
        if (!t) { rint("ok", 0); rint("noder", 1); }
        else { int r = EVP_CIPHER_asn1_to_param(cis[slot(1)], t); rint("ok", r > 0); rint("noder", 0); ASN1_TYPE_free(t); }
        bfree(&b, 0); }
    else if (OP("ci_info")) { const EVP_CIPHER *c = the_cipher(); rint("key", EVP_CIPHER_key_length(c)); rint("iv", EVP_CIPHER_iv_length(c)); rint("block", EVP_CIPHER_block_size(c)); rint("mode", EVP_CIPHER_mode(c) == EVP_CIPH_CFB_MODE); rint("nid", EVP_CIPHER_nid(c) == NID_dstu28147_cfb); }

    /* ----- key contexts ----- */
    else if (OP("pc_new")) { int s = slot(1); pcs[s] = EVP_PKEY_CTX_new_id(alg(as(2)), eng); rint("ok", pcs[s] != NULL); }
    else if (OP("pc_newkey")) { int s = slot(1); pcs[s] = EVP_PKEY_CTX_new(K(2), eng); rint("ok", pcs[s] != NULL); }
    else if (OP("pc_kginit")) rint("ok", EVP_PKEY_keygen_init(pcs[slot(1)]) > 0);
    else if (OP("pc_sbox")) { buf_t b = ab(3); rint("ok", EVP_PKEY_CTX_ctrl(pcs[slot(1)], -1, EVP_PKEY_OP_KEYGEN, DSTU_SET_CUSTOM_SBOX, ai(2), b.p) > 0); bfree(&b, 0); }
    else if (OP("pc_curve")) { EC_GROUP *g = as(2)[0] == '-' ? NULL : group_arg(2); int had = g != NULL;
        rint("ok", EVP_PKEY_CTX_ctrl(pcs[slot(1)], -1, EVP_PKEY_OP_KEYGEN, DSTU_SET_CURVE, 0, g) > 0); rint("group", had); EC_GROUP_free(g); }
    else if (OP("pc_str")) { buf_t v = ab(3); char *z = malloc(v.n + 1); memcpy(z, v.p, v.n); z[v.n] = 0; rint("ok", EVP_PKEY_CTX_ctrl_str(pcs[slot(1)], as(2), z) > 0); free(z); bfree(&v, 0); }
    else if (OP("pc_dup")) { int s = slot(1); pcs[s] = EVP_PKEY_CTX_dup(pcs[slot(2)]); rint("ok", pcs[s] != NULL); }
    else if (OP("pc_keygen")) { int k = slot(2); EVP_PKEY *p = NULL; int r = EVP_PKEY_keygen(pcs[slot(1)], &p); rint("ok", r > 0); rint("obj", p != NULL); if (r <= 0 && p) EVP_PKEY_free(p), p = NULL; keys[k] = p; if (p) { long fa = fail_after; fail_after = -1; show_key(p); fail_after = fa; } }
    else if (OP("pc_free")) { int s = slot(1); EVP_PKEY_CTX_free(pcs[s]); pcs[s] = NULL; rint("ok", 1); }

    /* ----- keys ----- */
    else if (OP("k_priv")) { int s = slot(1); buf_t b = ab(2); const unsigned char *q = b.p; PKCS8_PRIV_KEY_INFO *p = d2i_PKCS8_PRIV_KEY_INFO(NULL, &q, b.n);
        keys[s] = p ? EVP_PKCS82PKEY(p) : NULL; rint("ok", keys[s] != NULL); rint("p8", p != NULL); PKCS8_PRIV_KEY_INFO_free(p); bfree(&b, 0); }
    else if (OP("k_auto")) { int s = slot(1); buf_t b = ab(2); const unsigned char *q = b.p; keys[s] = d2i_AutoPrivateKey(NULL, &q, b.n); rint("ok", keys[s] != NULL); bfree(&b, 0); }
    else if (OP("k_pub")) { int s = slot(1); buf_t b = ab(2); const unsigned char *q = b.p; keys[s] = d2i_PUBKEY(NULL, &q, b.n); rint("ok", keys[s] != NULL); bfree(&b, 0); }
    else if (OP("k_params")) { int s = slot(1); buf_t b = ab(3); const unsigned char *q = b.p; keys[s] = d2i_KeyParams(alg(as(2)), NULL, &q, b.n); rint("ok", keys[s] != NULL); bfree(&b, 0); }
    else if (OP("k_load")) { /* slot kind(pUb,pRiv,parM,Auto as u r m a) alg der */
        int s = slot(1), kind = as(2)[0], nid = alg(as(3)); buf_t b = ab(4); EVP_PKEY *k = load_key(kind, nid, b.p, b.n);
        bfree(&b, 0); keys[s] = k; rint("ok", k != NULL);
        if (k) { int id = EVP_PKEY_id(k); if (id == NID_dstu4145le || id == NID_dstu4145be) { show_key(k); rint("again", same_again(k, kind == 'a' ? 'r' : kind, id)); }
                 else { rint("le", 0); rint("be", 0); } } }
    else if (OP("k_show")) { show_key(K(1)); }
    else if (OP("k_privpem") || OP("k_pubpem")) { int s = slot(1); buf_t b = ab(2), pw = ab(3); BIO *m = BIO_new_mem_buf(b.p, b.n); char z[256] = {0}; if (pw.p) memcpy(z, pw.p, pw.n < 255 ? pw.n : 255);
        keys[s] = OP("k_pubpem") ? PEM_read_bio_PUBKEY(m, NULL, NULL, NULL) : PEM_read_bio_PrivateKey(m, NULL, NULL, z); rint("ok", keys[s] != NULL); BIO_free(m); bfree(&b, 0); bfree(&pw, 0); }
    else if (OP("k_privder")) { PKCS8_PRIV_KEY_INFO *p = EVP_PKEY2PKCS8(K(1)); unsigned char *d = NULL; int n = p ? i2d_PKCS8_PRIV_KEY_INFO(p, &d) : 0; rint("ok", n > 0); der_out("out", n, d); PKCS8_PRIV_KEY_INFO_free(p); }
    else if (OP("k_pubder")) { unsigned char *d = NULL; int n = i2d_PUBKEY(K(1), &d); rint("ok", n > 0); der_out("out", n, d); }
    else if (OP("k_paramder")) { unsigned char *d = NULL; int n = i2d_KeyParams(K(1), &d); rint("ok", n > 0); der_out("out", n, d); }
    else if (OP("k_cmp")) rint("r", EVP_PKEY_cmp(K(1), K(2)));
    else if (OP("k_pcmp")) rint("r", EVP_PKEY_cmp_parameters(K(1), K(2)));
    else if (OP("k_info")) { rint("bits", EVP_PKEY_bits(K(1))); rint("size", EVP_PKEY_size(K(1))); rint("le", EVP_PKEY_id(K(1)) == NID_dstu4145le); rint("be", EVP_PKEY_id(K(1)) == NID_dstu4145be); }
    else if (OP("k_copyp")) rint("ok", EVP_PKEY_copy_parameters(K(1), K(2)));
    else if (OP("k_empty")) { int s = slot(1); keys[s] = EVP_PKEY_new(); rint("ok", as(2)[0] ? EVP_PKEY_set_type(keys[s], alg(as(2))) : 1); }
    else if (OP("k_up")) rint("ok", EVP_PKEY_up_ref(K(1)));
    else if (OP("k_share")) { /* own slot -> known to all threads */ int s = slot(1); shared[s] = keys[s]; rint("ok", 1); }
    else if (OP("k_take")) { /* from what all threads know */ int s = slot(1); keys[s] = shared[slot(2)]; rint("ok", keys[s] && EVP_PKEY_up_ref(keys[s])); }
    else if (OP("k_free")) { int s = slot(1); EVP_PKEY_free(keys[s]); keys[s] = NULL; rint("ok", 1); }
    else if (OP("k_text")) { /* key what(a=parameters u=public r=private) indent [octets the output takes] */
        BIO *m = argc_ > 4 ? narrow(ai(4)) : BIO_new(BIO_s_mem()); char *p; long n = 0; int w = as(2)[0], in = ai(3);
        int a = w == 'a' ? EVP_PKEY_print_params(m, K(1), in, NULL) : w == 'u' ? EVP_PKEY_print_public(m, K(1), in, NULL) : EVP_PKEY_print_private(m, K(1), in, NULL);
        rint("ok", a > 0); if (argc_ <= 4) { n = BIO_get_mem_data(m, &p); rhex("out", p, n); } BIO_free_all(m); }
    else if (OP("k_print")) { BIO *m = BIO_new(BIO_s_mem()); char *p; long n; int a = EVP_PKEY_print_public(m, K(1), 0, NULL), b = ai(2) ? EVP_PKEY_print_private(m, K(1), 0, NULL) : 1, c = EVP_PKEY_print_params(m, K(1), 0, NULL); n = BIO_get_mem_data(m, &p); rint("ok", a > 0 && b > 0 && c > 0); rhex("out", p, n); BIO_free(m); }

    /* ----- signatures ----- */
    else if (OP("sign")) { /* key hash buflen(-1: ask size, -2: announced) */
        buf_t h = ab(2); EVP_PKEY_CTX *c = EVP_PKEY_CTX_new(K(1), eng); long want = ai(3); size_t n = 0; int ok;
        if (!c || EVP_PKEY_sign_init(c) <= 0) { rint("ok", 0); rint("initfail", 1); }
        else if (want == -1) { ok = EVP_PKEY_sign(c, NULL, &n, h.p, h.n); rint("ok", ok > 0); rint("n", n); }
        else {
            if (want == -2) { EVP_PKEY_sign(c, NULL, &n, h.p, h.n); want = n; }
            size_t i, m = want + 64; unsigned char *o = malloc(m); memset(o, 0xa5, m); n = want;
            int over = 0;
            ok = EVP_PKEY_sign(c, o, &n, h.p, h.n);
            for (i = want; i < m; i++) if (o[i] != 0xa5) over = 1;
            rint("ok", ok > 0); rint("n", n); rint("over", over);
            int touched = 0; for (i = 0; i < (size_t) want; i++) if (o[i] != 0xa5) touched = 1;
            rint("touched", touched);
            if (ok > 0 && n <= m) rhex("out", o, n);
            free(o);
        }
        EVP_PKEY_CTX_free(c); bfree(&h, 0); }
    else if (OP("sign_many")) { /* key hash number: signatures concatenated */
        buf_t h = ab(2); int n = ai(3), i, bad = 0; unsigned char *all = malloc((size_t) n * 160 + 1); size_t tot = 0;
        for (i = 0; i < n; i++) { EVP_PKEY_CTX *c = EVP_PKEY_CTX_new(K(1), eng); size_t m = 160; if (EVP_PKEY_sign_init(c) > 0 && EVP_PKEY_sign(c, all + tot, &m, h.p, h.n) > 0) tot += m; else bad++; EVP_PKEY_CTX_free(c); }
        rint("bad", bad); rhex("out", all, tot); free(all); bfree(&h, 0); }
    else if (OP("verify")) { /* key hash sig */
        buf_t h = ab(2), g = ab(3); EVP_PKEY_CTX *c = EVP_PKEY_CTX_new(K(1), eng); int r = -9;
        if (c && EVP_PKEY_verify_init(c) > 0) r = EVP_PKEY_verify(c, g.p, g.n, h.p, h.n);
        rint("r", r); rint("ok", r == 1); EVP_PKEY_CTX_free(c); bfree(&h, 0); bfree(&g, 0); }
    else if (OP("dsign") || OP("dverify")) { /* key msg split [sig] */
        buf_t m = ab(2), g = ab(4); size_t sp = ai(3) < (long) m.n ? ai(3) : m.n; EVP_MD_CTX *c = EVP_MD_CTX_new(); int ok = 0; size_t n = 0; unsigned char *o = NULL;
        if (OP("dsign")) {
            ok = EVP_DigestSignInit(c, NULL, the_md(), eng, K(1)) > 0 && EVP_DigestSignUpdate(c, m.p, sp) > 0 && EVP_DigestSignUpdate(c, m.p + sp, m.n - sp) > 0 && EVP_DigestSignFinal(c, NULL, &n) > 0;
            if (ok) { o = malloc(n + 1); ok = EVP_DigestSignFinal(c, o, &n) > 0; }
            rint("ok", ok); if (ok) rhex("out", o, n); free(o);
        } else {
            int r = -9; if (EVP_DigestVerifyInit(c, NULL, the_md(), eng, K(1)) > 0 && EVP_DigestVerifyUpdate(c, m.p, sp) > 0 && EVP_DigestVerifyUpdate(c, m.p + sp, m.n - sp) > 0) r = EVP_DigestVerifyFinal(c, g.p, g.n);
            rint("ok", r == 1); rint("r", r);
        }
        EVP_MD_CTX_free(c); bfree(&m, 0); bfree(&g, 0); }

    /* ----- random sources ----- */
    else if (OP("rnd")) { /* prng seed | script hex | fail k mode | engine | default */
        if (!strcmp(as(1), "prng")) { prng = strtoull(as(2), NULL, 10) * 2654435761ULL + 88172645463325252ULL; script_n = script_pos = 0; fail_after = -1; RAND_set_rand_method(&scr_meth); }
        else if (!strcmp(as(1), "script")) { buf_t b = ab(2); free(script); script = b.p; script_n = b.n; script_pos = 0; RAND_set_rand_method(&scr_meth); }
        else if (!strcmp(as(1), "fail")) { fail_after = ai(2); fail_mode = ai(3); fail_once = ai(4); rnd_calls = 0; RAND_set_rand_method(&scr_meth); }
        else if (!strcmp(as(1), "nofail")) fail_after = -1;
        else if (!strcmp(as(1), "engine")) RAND_set_rand_method(ENGINE_get_RAND(eng));
        else RAND_set_rand_method(NULL);
        rint("ok", 1); }
    else if (OP("rnd_log")) { rint("calls", rnd_calls); rint("bytes", rnd_bytes); rnd_calls = rnd_bytes = 0; }

    /* ----- key library ----- */
    else if (OP("ks")) { /* kind(jks,p12,key6) how(mem,file,bio) slot data pass1 pass2 preset */
        int s = slot(3), how = as(2)[0]; buf_t d = ab(4), p1 = ab(5), p2 = ab(6); KeyStore *mark = (KeyStore *) 0x5a5a5a5a, *ks = mark; int r = 0; FILE *f = NULL; BIO *b = NULL;
        const char *q1 = (char *) p1.p, *q2 = (char *) p2.p;
        if (how == 'f') { f = tmpfile(); if (d.n) fwrite(d.p, 1, d.n, f); rewind(f); }
        if (how == 'b') b = BIO_new_mem_buf(d.p, d.n);
        if (how == 'd') b = dribble(d.p, d.n);
        switch (as(1)[0]) {
        case 'j': r = how == 'm' ? parseJKS(d.p, d.n, q1, p1.n, q2, p2.n, &ks) : how == 'f' ? readJKS(f, q1, p1.n, q2, p2.n, &ks) : readJKS_bio(b, q1, p1.n, q2, p2.n, &ks); break;
        case 'p': r = how == 'm' ? parsePKCS12(d.p, d.n, q1, p1.n, &ks) : how == 'f' ? readPKCS12(f, q1, p1.n, &ks) : readPKCS12_bio(b, q1, p1.n, &ks); break;
        case 'k': r = how == 'm' ? parseKey6(d.p, d.n, q1, p1.n, &ks) : how == 'f' ? readKey6(f, q1, p1.n, &ks) : readKey6_bio(b, q1, p1.n, &ks); break;
        }
        if (f) fclose(f);
        BIO_free(b);
        rint("ok", r == 1); rint("r", r); rint("same", ks == mark);
        if (r == 1 && ks != mark) { kss[s] = ks; rint("nk", KeyStoreKeyNum(ks)); rint("nc", KeyStoreCertNum(ks)); }
        bfree(&d, 0); bfree(&p1, 0); bfree(&p2, 0); }
    else if (OP("ks_num")) { rint("nk", KeyStoreKeyNum(kss[slot(1)])); rint("nc", KeyStoreCertNum(kss[slot(1)])); }
    else if (OP("ks_key")) { EVP_PKEY *k = (EVP_PKEY *) KeyStoreGetKey(kss[slot(1)], (size_t) strtoull(as(2), NULL, 10)); rint("ok", k != NULL);
        if (k) { PKCS8_PRIV_KEY_INFO *p = EVP_PKEY2PKCS8(k); unsigned char *d = NULL; int n = p ? i2d_PKCS8_PRIV_KEY_INFO(p, &d) : 0; rhex("priv", d, n > 0 ? n : 0); OPENSSL_free(d); PKCS8_PRIV_KEY_INFO_free(p);
            d = NULL; n = i2d_PUBKEY(k, &d); rhex("pub", d, n > 0 ? n : 0); OPENSSL_free(d); rint("ptr", ptr_id(k)); } }
    else if (OP("ks_cert")) { X509 *x = (X509 *) KeyStoreGetCert(kss[slot(1)], (size_t) strtoull(as(2), NULL, 10)); rint("ok", x != NULL); if (x) { unsigned char *d = NULL; int n = i2d_X509(x, &d); rhex("out", d, n > 0 ? n : 0); OPENSSL_free(d); rint("ptr", ptr_id(x)); } }
    else if (OP("ks_refkey")) { EVP_PKEY *k = (EVP_PKEY *) KeyStoreGetKey(kss[slot(1)], ai(2)); EVP_PKEY_up_ref(k); keys[slot(3)] = k; rint("ok", 1); }
    else if (OP("ks_free")) { int s = slot(1); KeyStoreFree(kss[s]); kss[s] = NULL; rint("ok", 1); }

    /* ----- other ----- */
    else if (OP("mem")) { ERR_clear_error(); malloc_trim(0); struct mallinfo2 m = mallinfo2(); rint("n", a_n); rint("bytes", a_b); rint("heap", m.uordblks); }
    else if (OP("live")) { /* number of live allocations, the error queue of the thread aside */
        ERR_clear_error(); OPENSSL_thread_stop(); rint("live", INTERPOSED ? live : a_n); rint("n", a_n); }
    else if (OP("pbkdf2")) { /* pass salt iter keylen */ buf_t p = ab(1), s = ab(2); int n = ai(4); unsigned char *o = malloc(n + 1); int ok = PKCS5_PBKDF2_HMAC((char *) p.p, p.n, s.p, s.n, ai(3), the_md(), n, o); rint("ok", ok); rhex("out", o, ok ? n : 0); free(o); bfree(&p, 0); bfree(&s, 0); }
    else if (OP("hmac")) { /* key data split */ buf_t k = ab(1), d = ab(2); size_t sp = ai(3) < (long) d.n ? ai(3) : d.n; unsigned char o[64]; unsigned n = 0; HMAC_CTX *h = HMAC_CTX_new(); int ok = HMAC_Init_ex(h, k.p, k.n, the_md(), eng) && HMAC_Update(h, d.p, sp) && HMAC_Update(h, d.p + sp, d.n - sp) && HMAC_Final(h, o, &n); rint("ok", ok); rhex("out", o, ok ? n : 0); HMAC_CTX_free(h); bfree(&k, 0); bfree(&d, 0); }
    else return 0;
    return 1;
}

/* run one command; what it printed */
const char *run_line(char *line)
{
    char *save = NULL, *t; outn = 0; argc_ = 0;
    for (t = strtok_r(line, " ", &save); t && argc_ < MAXARG; t = strtok_r(NULL, " ", &save)) argv_[argc_++] = t;
    if (!argc_) return NULL;
    put("", 0);
    int flt = !strcmp(argv_[0], "flt") && argc_ > 3, j;
    if (flt) { flt_arm(ai(1), ai(2)); argc_ -= 3; for (j = 0; j < argc_; j++) argv_[j] = argv_[j + 3]; }
    if (!cmd_main(argv_[0]) && !cmd_pki(argv_[0]) && !cmd_thr(argv_[0]) && !cmd_rbg(argv_[0]) && !cmd_life(argv_[0]) && !cmd_sgn(argv_[0])) badcmd();
    if (flt) { flt_at = -1; rint("hit", flt_hit); if (flt_nreq) { rhex("reqs", (unsigned char *) flt_req, 4 * flt_nreq); rhex("sites", (unsigned char *) flt_site, 4 * flt_nsite); } }
    ERR_clear_error();
    return outb;
}

int main(int argc, char **argv)
{
    static char *line; static size_t cap; ssize_t n; int autoload = 1, i; int al = getenv("DRV_ALARM") ? atoi(getenv("DRV_ALARM")) : 30;
    for (i = 1; i < argc; i++) { if (!strcmp(argv[i], "-n")) autoload = 0; if (!strcmp(argv[i], "-m")) accounting = 1; }
    if (accounting) CRYPTO_set_mem_functions(m_alloc, m_realloc, m_free);
    if (autoload) {
        OPENSSL_init_crypto(OPENSSL_INIT_ENGINE_ALL_BUILTIN | OPENSSL_INIT_ADD_ALL_CIPHERS | OPENSSL_INIT_ADD_ALL_DIGESTS, NULL);
        eng = ENGINE_by_id("dstu");
        if (!eng || !ENGINE_init(eng)) { ERR_print_errors_fp(stderr); return 2; }
    }
    dribble(NULL, -1); narrow(-1);           /* their methods exist from the beginning */
    setvbuf(stdout, NULL, _IOFBF, 1 << 16);
    puts("ready=1"); fflush(stdout);
    while ((n = getline(&line, &cap, stdin)) > 0) {
        const char *o;
        if (line[n-1] == '\n') line[n-1] = 0;
        alarm(al);
        o = run_line(line);
        alarm(0);
        if (o) { fputs(o, stdout); putchar('\n'); fflush(stdout); }
    }
    fflush(stdout);
    _exit(0);
}
