/* Contexts that sign and verify: streaming (EVP_DigestSign*, EVP_DigestVerify*)
 * and of single hashes (EVP_PKEY_sign, EVP_PKEY_verify). */
#include "drv.h"
static TL EVP_MD_CTX *xs[NSLOT];
static TL EVP_PKEY_CTX *ps[NSLOT];
#define OP(x) (!strcmp(op, x))
static int sl(int i) { long s = ai(i); if (s < 0 || s >= NSLOT) badcmd(); return s; }

static void give(int ok, unsigned char *o, size_t n)
{
    rint("ok", ok); if (ok) rhex("out", o, n);
}

int cmd_sgn(const char *op)
{
    if (op[0] != 'x' && op[0] != 'q') return 0;
    if (OP("x_new")) { int s = sl(1); xs[s] = EVP_MD_CTX_new(); rint("ok", xs[s] != NULL); }
    else if (OP("x_init")) { /* slot dir(s v) key how: e engine and digest, m digest, d default digest, o other digest */
        int s = sl(1), r; char d = as(2)[0], h = as(4)[0];
        const EVP_MD *md = h == 'd' ? NULL : h == 'o' ? EVP_sha256() : the_md(); ENGINE *e = h == 'e' ? eng : NULL;
        r = d == 's' ? EVP_DigestSignInit(xs[s], NULL, md, e, keys[sl(3)]) : EVP_DigestVerifyInit(xs[s], NULL, md, e, keys[sl(3)]);
        rint("ok", r > 0); }
    else if (OP("x_upd")) { /* slot dir data */
        int s = sl(1); buf_t b = ab(3); rint("ok", (as(2)[0] == 's' ? EVP_DigestSignUpdate(xs[s], b.p, b.n) : EVP_DigestVerifyUpdate(xs[s], b.p, b.n)) > 0); bfree(&b, 0); }
    else if (OP("x_fin")) { /* slot */
        int s = sl(1); size_t n = 0; unsigned char *o; int ok = EVP_DigestSignFinal(xs[s], NULL, &n) > 0; rint("size", ok ? (long) n : -1);
        o = malloc(n + 1); if (ok) ok = EVP_DigestSignFinal(xs[s], o, &n) > 0; give(ok, o, n); free(o); }
    else if (OP("x_ver")) { int s = sl(1); buf_t g = ab(2); rint("ok", EVP_DigestVerifyFinal(xs[s], g.p, g.n) == 1); bfree(&g, 0); }
    else if (OP("x_sign1")) { /* slot data: in one piece */
        int s = sl(1); buf_t b = ab(2); size_t n = 400; unsigned char *o = malloc(n); int ok = EVP_DigestSign(xs[s], o, &n, b.p, b.n) > 0; give(ok, o, n); free(o); bfree(&b, 0); }
    else if (OP("x_ver1")) { int s = sl(1); buf_t b = ab(2), g = ab(3); rint("ok", EVP_DigestVerify(xs[s], g.p, g.n, b.p, b.n) == 1); bfree(&b, 0); bfree(&g, 0); }
    else if (OP("x_re")) rint("ok", EVP_DigestInit_ex(xs[sl(1)], NULL, NULL) > 0);
    else if (OP("x_tab")) { int s = sl(1); buf_t b = ab(2); rint("ok", EVP_MD_CTX_ctrl(xs[s], DSTU_SET_CUSTOM_SBOX, b.n, b.p) > 0); bfree(&b, 0); }
    else if (OP("x_copy")) rint("ok", EVP_MD_CTX_copy_ex(xs[sl(1)], xs[sl(2)]) > 0);
    else if (OP("x_reset")) rint("ok", EVP_MD_CTX_reset(xs[sl(1)]) > 0);
    else if (OP("x_free")) { int s = sl(1); EVP_MD_CTX_free(xs[s]); xs[s] = NULL; rint("ok", 1); }

    else if (OP("q_new")) { int s = sl(1); ps[s] = EVP_PKEY_CTX_new(keys[sl(2)], as(3)[0] == 'e' ? eng : NULL); rint("ok", ps[s] != NULL); }
    else if (OP("q_init")) { int s = sl(1); rint("ok", (as(2)[0] == 's' ? EVP_PKEY_sign_init(ps[s]) : EVP_PKEY_verify_init(ps[s])) > 0); }
    else if (OP("q_md")) { int s = sl(1); rint("ok", EVP_PKEY_CTX_set_signature_md(ps[s], as(2)[0] == 'o' ? EVP_sha256() : the_md()) > 0); }
    else if (OP("q_dup")) { int s = sl(1); ps[s] = EVP_PKEY_CTX_dup(ps[sl(2)]); rint("ok", ps[s] != NULL); }
    else if (OP("q_sign")) { /* slot hash */
        int s = sl(1); buf_t h = ab(2); size_t n = 400; unsigned char *o = malloc(n); int ok = EVP_PKEY_sign(ps[s], o, &n, h.p, h.n) > 0; give(ok, o, n); free(o); bfree(&h, 0); }
    else if (OP("q_ver")) { int s = sl(1); buf_t h = ab(2), g = ab(3); rint("ok", EVP_PKEY_verify(ps[s], g.p, g.n, h.p, h.n) == 1); bfree(&h, 0); bfree(&g, 0); }
    else if (OP("q_free")) { int s = sl(1); EVP_PKEY_CTX_free(ps[s]); ps[s] = NULL; rint("ok", 1); }
    else return 0;
    return 1;
}
