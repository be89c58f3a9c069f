/* Certificates, containers and messages: making inputs with OpenSSL and
 * driving OpenSSL's signing formats with the engine's keys. */
#include "drv.h"
#include <openssl/pkcs12.h>
#include <openssl/x509.h>
#include <openssl/x509v3.h>
#include <openssl/cms.h>
#include <openssl/pkcs7.h>
#include <openssl/pem.h>
#include <openssl/hmac.h>
#include <openssl/core_names.h>

static TL X509 *crt[NSLOT];
#define OP(s) (!strcmp(op, s))
static int sl(int i) { long s = ai(i); if (s < 0 || s >= NSLOT) exit(3); return s; }

static void out_bio(const char *name, BIO *b) { char *p; long n = BIO_get_mem_data(b, &p); rhex(name, (unsigned char *) p, n > 0 ? n : 0); }
#define out_der(name, call, d) do { int n_ = (call); rhex(name, d, n_ > 0 ? n_ : 0); OPENSSL_free(d); d = NULL; } while (0)
static X509_NAME *name_of(buf_t b) { X509_NAME *n = X509_NAME_new(); X509_NAME_add_entry_by_txt(n, "CN", MBSTRING_UTF8, b.p, b.n, -1, 0); return n; }

static int cmd_enc(const char *op)
{
    if (OP("hmacp")) { /* key data split: HMAC through EVP_DigestSign */
        buf_t k = ab(1), d = ab(2); size_t sp = ai(3) < (long) d.n ? ai(3) : d.n, n = 64; unsigned char o[64]; EVP_MD_CTX *c = EVP_MD_CTX_new(); EVP_PKEY *p = EVP_PKEY_new_mac_key(EVP_PKEY_HMAC, NULL, k.p, k.n);
        int ok = p && EVP_DigestSignInit(c, NULL, the_md(), NULL, p) > 0 && EVP_DigestSignUpdate(c, d.p, sp) > 0 && EVP_DigestSignUpdate(c, d.p + sp, d.n - sp) > 0 && EVP_DigestSignFinal(c, o, &n) > 0;
        rint("ok", ok); rhex("out", o, ok ? n : 0); EVP_MD_CTX_free(c); EVP_PKEY_free(p); bfree(&k, 0); bfree(&d, 0); }
    else if (OP("p8enc")) { /* key pass iter salt */
        buf_t w = ab(2), s = ab(4); PKCS8_PRIV_KEY_INFO *p = EVP_PKEY2PKCS8(key_at(sl(1))); X509_SIG *x = p ? PKCS8_encrypt(-1, the_cipher(), (char *) w.p, w.n, s.p, s.n, ai(3), p) : NULL;
        unsigned char *d = NULL; rint("ok", x != NULL); if (x) out_der("out", i2d_X509_SIG(x, &d), d); X509_SIG_free(x); PKCS8_PRIV_KEY_INFO_free(p); bfree(&w, 0); bfree(&s, 0); }
    else if (OP("p8pem")) { /* key pass: through PEM */
        buf_t w = ab(2); BIO *b = BIO_new(BIO_s_mem()); int ok = PEM_write_bio_PKCS8PrivateKey(b, key_at(sl(1)), the_cipher(), (char *) w.p, w.n, NULL, NULL); rint("ok", ok); out_bio("pem", b);
        unsigned char *d = NULL; X509_SIG *x = ok ? PEM_read_bio_PKCS8(b, NULL, NULL, NULL) : NULL; if (x) out_der("out", i2d_X509_SIG(x, &d), d); X509_SIG_free(x); BIO_free(b); bfree(&w, 0); }
    else if (OP("p8dec")) { /* der pass */
        buf_t b = ab(1), w = ab(2); const unsigned char *q = b.p; X509_SIG *x = d2i_X509_SIG(NULL, &q, b.n); PKCS8_PRIV_KEY_INFO *p = x ? PKCS8_decrypt(x, (char *) w.p, w.n) : NULL; EVP_PKEY *k = p ? EVP_PKCS82PKEY(p) : NULL;
        rint("ok", k != NULL); PKCS8_PRIV_KEY_INFO_free(p); X509_SIG_free(x);
        if (k) { unsigned char *d = NULL; p = EVP_PKEY2PKCS8(k); if (p) out_der("priv", i2d_PKCS8_PRIV_KEY_INFO(p, &d), d); PKCS8_PRIV_KEY_INFO_free(p); EVP_PKEY_free(k); }
        bfree(&b, 0); bfree(&w, 0); }
    else if (OP("cms_enc")) { /* data key */
        buf_t d = ab(1), k = ab(2); BIO *in = BIO_new_mem_buf(d.n ? d.p : (unsigned char *) "", d.n); unsigned char *o = NULL; CMS_ContentInfo *c = CMS_EncryptedData_encrypt(in, the_cipher(), k.p, k.n, CMS_BINARY);
        rint("ok", c != NULL); if (c) out_der("out", i2d_CMS_ContentInfo(c, &o), o); CMS_ContentInfo_free(c); BIO_free(in); bfree(&d, 0); bfree(&k, 0); }
    else if (OP("cms_dec")) { /* der key */
        buf_t d = ab(1), k = ab(2); const unsigned char *q = d.p; CMS_ContentInfo *c = d2i_CMS_ContentInfo(NULL, &q, d.n); BIO *o = BIO_new(BIO_s_mem()); int ok = c && CMS_EncryptedData_decrypt(c, k.p, k.n, NULL, o, CMS_BINARY) > 0;
        rint("ok", ok); if (ok) out_bio("out", o); CMS_ContentInfo_free(c); BIO_free(o); bfree(&d, 0); bfree(&k, 0); }
    else if (OP("cms_env")) { /* kind(k key, p password) data secret */
        buf_t d = ab(2), k = ab(3); BIO *in = BIO_new_mem_buf(d.n ? d.p : (unsigned char *) "", d.n); unsigned char *o = NULL; CMS_ContentInfo *c = CMS_encrypt(NULL, in, the_cipher(), CMS_BINARY | CMS_PARTIAL);
        int ok = c != NULL;
        if (ok && as(1)[0] == 'k') ok = CMS_add0_recipient_key(c, NID_undef, OPENSSL_memdup(k.p, k.n), k.n, OPENSSL_memdup("id", 2), 2, NULL, NULL, NULL) != NULL;
        if (ok && as(1)[0] == 'p') ok = CMS_add0_recipient_password(c, -1, NID_undef, NID_undef, OPENSSL_memdup(k.p, k.n), k.n, EVP_aes_256_cbc()) != NULL;
        if (ok) ok = CMS_final(c, in, NULL, CMS_BINARY) > 0;
        rint("ok", ok); if (ok) out_der("out", i2d_CMS_ContentInfo(c, &o), o); CMS_ContentInfo_free(c); BIO_free(in); bfree(&d, 0); bfree(&k, 0); }
    else if (OP("cms_denv")) { /* kind der secret */
        buf_t d = ab(2), k = ab(3); const unsigned char *q = d.p; CMS_ContentInfo *c = d2i_CMS_ContentInfo(NULL, &q, d.n); BIO *o = BIO_new(BIO_s_mem());
        int ok = c && (as(1)[0] == 'k' ? CMS_decrypt_set1_key(c, k.p, k.n, (unsigned char *) "id", 2) : CMS_decrypt_set1_password(c, k.p, k.n)) > 0 && CMS_decrypt(c, NULL, NULL, NULL, o, CMS_BINARY) > 0;
        rint("ok", ok); if (ok) out_bio("out", o); CMS_ContentInfo_free(c); BIO_free(o); bfree(&d, 0); bfree(&k, 0); }
    else if (!strncmp(op, "hm_", 3)) { static TL HMAC_CTX *hs[NSLOT]; int s = sl(1); buf_t b = ab(2);
        if (OP("hm_new")) rint("ok", (hs[s] = HMAC_CTX_new()) != NULL);
        else if (OP("hm_init")) rint("ok", HMAC_Init_ex(hs[s], b.p, b.n, the_md(), eng));
        else if (OP("hm_re")) rint("ok", HMAC_Init_ex(hs[s], NULL, 0, NULL, NULL));
        else if (OP("hm_upd")) rint("ok", HMAC_Update(hs[s], b.p, b.n));
        else if (OP("hm_fin")) { unsigned char o[64]; unsigned n = 0; int ok = HMAC_Final(hs[s], o, &n); rint("ok", ok); rhex("out", o, ok ? n : 0); }
        else if (OP("hm_copy")) rint("ok", HMAC_CTX_copy(hs[s], hs[sl(2)]));
        else if (OP("hm_free")) { HMAC_CTX_free(hs[s]); hs[s] = NULL; rint("ok", 1); }
        else return 0;
        bfree(&b, 0); }
    else return 0;
    return 1;
}

static const EVP_MD *md_arg(int i) { return as(i)[0] == 'd' ? NULL : the_md(); }
static int cmd_sign(const char *op)
{
    if (OP("x_make")) { /* slot subjectkey issuerkey subject issuer serial md(m,d) ca */
        buf_t sn = ab(4), in = ab(5); X509 *x = X509_new(); X509_NAME *s = name_of(sn), *i = name_of(in); unsigned char *d = NULL; int r;
        X509_set_version(x, 2); ASN1_INTEGER_set(X509_get_serialNumber(x), ai(6)); X509_set_subject_name(x, s); X509_set_issuer_name(x, i);
        ASN1_TIME_set_string(X509_getm_notBefore(x), "20200101000000Z"); ASN1_TIME_set_string(X509_getm_notAfter(x), "20490101000000Z");
        r = X509_set_pubkey(x, key_at(sl(2)));
        if (ai(8)) { X509_EXTENSION *e = X509V3_EXT_conf_nid(NULL, NULL, NID_basic_constraints, "critical,CA:TRUE"); X509_add_ext(x, e, -1); X509_EXTENSION_free(e); }
        r = r && X509_sign(x, key_at(sl(3)), md_arg(7)) > 0; if (!r && getenv("DRV_ERR")) ERR_print_errors_fp(stderr);
        rint("ok", r); if (r) out_der("out", i2d_X509(x, &d), d);
        X509_NAME_free(s); X509_NAME_free(i); if (r) { X509_free(crt[sl(1)]); crt[sl(1)] = x; } else X509_free(x); bfree(&sn, 0); bfree(&in, 0); }
    else if (OP("x_load")) { buf_t b = ab(2); const unsigned char *q = b.p; X509_free(crt[sl(1)]); crt[sl(1)] = d2i_X509(NULL, &q, b.n); rint("ok", crt[sl(1)] != NULL); bfree(&b, 0); }
    else if (OP("x_verify")) { /* der key: X509_verify */ buf_t b = ab(1); const unsigned char *q = b.p; X509 *x = d2i_X509(NULL, &q, b.n); rint("parsed", x != NULL); rint("ok", x ? X509_verify(x, key_at(sl(2))) == 1 : 0); X509_free(x); bfree(&b, 0); }
    else if (OP("x_key")) { /* der -> public key of a certificate */ buf_t b = ab(1); const unsigned char *q = b.p; unsigned char *d = NULL; X509 *x = d2i_X509(NULL, &q, b.n); EVP_PKEY *k = x ? X509_get0_pubkey(x) : NULL; rint("ok", k != NULL); if (k) out_der("pub", i2d_PUBKEY(k, &d), d); X509_free(x); bfree(&b, 0); }
    else if (OP("x_chain")) { /* leaf ca */ X509_STORE *st = X509_STORE_new(); X509_STORE_CTX *c = X509_STORE_CTX_new(); X509_STORE_add_cert(st, crt[sl(2)]); X509_STORE_CTX_init(c, st, crt[sl(1)], NULL); int r = X509_verify_cert(c); rint("ok", r == 1); rint("err", X509_STORE_CTX_get_error(c)); X509_STORE_CTX_free(c); X509_STORE_free(st); }
    else if (OP("req_make")) { /* key subject md */ buf_t sn = ab(2); X509_REQ *r = X509_REQ_new(); X509_NAME *s = name_of(sn); unsigned char *d = NULL; int ok; X509_REQ_set_version(r, 0); X509_REQ_set_subject_name(r, s);
        ok = X509_REQ_set_pubkey(r, key_at(sl(1))) && X509_REQ_sign(r, key_at(sl(1)), md_arg(3)) > 0; rint("ok", ok); if (ok) out_der("out", i2d_X509_REQ(r, &d), d); X509_REQ_free(r); X509_NAME_free(s); bfree(&sn, 0); }
    else if (OP("req_verify")) { /* der key(-1: its own) */ buf_t b = ab(1); const unsigned char *q = b.p; X509_REQ *r = d2i_X509_REQ(NULL, &q, b.n); EVP_PKEY *k = !r ? NULL : ai(2) < 0 ? X509_REQ_get0_pubkey(r) : key_at(sl(2)); rint("parsed", r != NULL); rint("ok", k ? X509_REQ_verify(r, k) == 1 : 0); X509_REQ_free(r); bfree(&b, 0); }
    else if (OP("cms_sign") || OP("p7_sign")) { /* cert key data detached noattr */
        int cms = op[0] == 'c'; buf_t m = ab(3); BIO *in = BIO_new_mem_buf(m.n ? m.p : (unsigned char *) "", m.n); unsigned char *d = NULL;
        if (cms) { CMS_ContentInfo *c = CMS_sign(crt[sl(1)], key_at(sl(2)), NULL, in, CMS_BINARY | (ai(4) ? CMS_DETACHED : 0) | (ai(5) ? CMS_NOATTR : 0)); rint("ok", c != NULL); if (c) out_der("out", i2d_CMS_ContentInfo(c, &d), d); CMS_ContentInfo_free(c); }
        else { PKCS7 *c = PKCS7_sign(crt[sl(1)], key_at(sl(2)), NULL, in, PKCS7_BINARY | (ai(4) ? PKCS7_DETACHED : 0) | (ai(5) ? PKCS7_NOATTR : 0)); rint("ok", c != NULL); if (c) out_der("out", i2d_PKCS7(c, &d), d); PKCS7_free(c); }
        BIO_free(in); bfree(&m, 0); }
    else if (OP("cms_verify") || OP("p7_verify")) { /* der data detached cert(-1: those inside) */
        int cms = op[0] == 'c', det = ai(3), r = 0; buf_t b = ab(1), m = ab(2); const unsigned char *q = b.p; BIO *in = det ? BIO_new_mem_buf(m.n ? m.p : (unsigned char *) "", m.n) : NULL, *out = BIO_new(BIO_s_mem()); STACK_OF(X509) *l = NULL;
        if (ai(4) >= 0) { l = sk_X509_new_null(); sk_X509_push(l, crt[sl(4)]); }
        if (cms) { CMS_ContentInfo *c = d2i_CMS_ContentInfo(NULL, &q, b.n); rint("parsed", c != NULL); if (c) r = CMS_verify(c, l, NULL, in, out, CMS_BINARY | CMS_NO_SIGNER_CERT_VERIFY | (l ? CMS_NOINTERN : 0)); CMS_ContentInfo_free(c); }
        else { PKCS7 *c = d2i_PKCS7(NULL, &q, b.n); rint("parsed", c != NULL); if (c) r = PKCS7_verify(c, l, NULL, in, out, PKCS7_BINARY | PKCS7_NOVERIFY | (l ? PKCS7_NOINTERN : 0)); PKCS7_free(c); }
        rint("ok", r == 1); if (r == 1) out_bio("out", out); sk_X509_free(l); BIO_free(in); BIO_free(out); bfree(&b, 0); bfree(&m, 0); }
    else return 0;
    return 1;
}

int cmd_pki(const char *op)
{
    if (cmd_enc(op) || cmd_sign(op)) return 1;
    if (OP("pbe")) { /* mode pass data iter salt -> algorithm, ciphertext */
        buf_t p = ab(2), d = ab(3), s = ab(5); unsigned char *o = NULL; int n = 0, m = ai(1); X509_ALGOR *a = NULL; const EVP_CIPHER *c;
        if (m == 0) a = PKCS5_pbe_set(NID_pbe_WithSHA1And3_Key_TripleDES_CBC, ai(4), s.p, s.n);
        else { c = m == 1 ? EVP_aes_256_cbc() : the_cipher(); a = PKCS5_pbe2_set(c, ai(4), s.p, s.n); }
        if (a && PKCS12_pbe_crypt(a, (char *) p.p, p.n, d.p, d.n, &o, &n, 1)) {
            unsigned char *ad = NULL; int an = i2d_X509_ALGOR(a, &ad); rint("ok", 1); rhex("alg", ad, an); rhex("enc", o, n); OPENSSL_free(ad);
        } else rint("ok", 0);
        OPENSSL_free(o); X509_ALGOR_free(a); bfree(&p, 0); bfree(&d, 0); bfree(&s, 0); }
    else if (OP("x_ref")) { /* certificate of a store -> own reference */ X509 *x = ks_cert_at(sl(1), ai(2)); X509_up_ref(x); crt[sl(3)] = x; rint("ok", 1); }
    else if (OP("x_show")) { unsigned char *d = NULL; int n = i2d_X509(crt[sl(1)], &d); rhex("out", d, n > 0 ? n : 0); OPENSSL_free(d); }
    else if (OP("x_free")) { X509_free(crt[sl(1)]); crt[sl(1)] = NULL; rint("ok", 1); }
    else return 0;
    return 1;
}
