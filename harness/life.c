/* The life of the engine: obtaining, initialising, finishing, releasing it in
 * any order, with lookups and uses in between (driver started with -n). */
#include "drv.h"
static ENGINE *E;                 /* the engine, known after the first load */
static EVP_MD_CTX *mc[8]; static EVP_CIPHER_CTX *cc[8]; static EVP_PKEY_CTX *kc[8]; static EVP_PKEY *kk[8];

/* digest found in one of several ways */
static const EVP_MD *find_md(char how, ENGINE **tmp)
{
    *tmp = NULL;
    switch (how) {
    case 'g': return E ? ENGINE_get_digest(E, NID_dstu34311) : NULL;
    case 'n': return EVP_get_digestbyname(LN_dstu34311);
    case 's': return EVP_get_digestbyname(SN_dstu34311);
    case 'i': return EVP_get_digestbynid(NID_dstu34311);
    case 't': *tmp = ENGINE_get_digest_engine(NID_dstu34311); return *tmp ? ENGINE_get_digest(*tmp, NID_dstu34311) : NULL;
    }
    return NULL;
}
static const EVP_CIPHER *find_ci(char how, ENGINE **tmp)
{
    *tmp = NULL;
    switch (how) {
    case 'g': return E ? ENGINE_get_cipher(E, NID_dstu28147_cfb) : NULL;
    case 'n': return EVP_get_cipherbyname(LN_dstu28147_cfb);
    case 's': return EVP_get_cipherbyname(SN_dstu28147_cfb);
    case 'i': return EVP_get_cipherbynid(NID_dstu28147_cfb);
    case 't': *tmp = ENGINE_get_cipher_engine(NID_dstu28147_cfb); return *tmp ? ENGINE_get_cipher(*tmp, NID_dstu28147_cfb) : NULL;
    }
    return NULL;
}
static void lookup(void)
{
    /* what the tables of the engine and of the library give for every name */
    const int *v = NULL; int n, i;
    if (E) {
        ENGINE_DIGESTS_PTR d = ENGINE_get_digests(E); ENGINE_CIPHERS_PTR c = ENGINE_get_ciphers(E);
        ENGINE_PKEY_METHS_PTR p = ENGINE_get_pkey_meths(E); ENGINE_PKEY_ASN1_METHS_PTR a = ENGINE_get_pkey_asn1_meths(E);
        rint("id", !strcmp(ENGINE_get_id(E), "dstu")); rint("name", ENGINE_get_name(E) != NULL);
        n = d ? d(E, NULL, &v, 0) : -9; rint("nd", n); rint("d0", n == 1 && v[0] == NID_dstu34311);
        n = c ? c(E, NULL, &v, 0) : -9; rint("nc", n); rint("c0", n == 1 && v[0] == NID_dstu28147_cfb);
        n = p ? p(E, NULL, &v, 0) : -9; rint("np", n); rint("p0", n == 2 && ((v[0] == NID_dstu4145le && v[1] == NID_dstu4145be) || (v[1] == NID_dstu4145le && v[0] == NID_dstu4145be)));
        n = a ? a(E, NULL, &v, 0) : -9; rint("na", n); rint("a0", n == 2 && ((v[0] == NID_dstu4145le && v[1] == NID_dstu4145be) || (v[1] == NID_dstu4145le && v[0] == NID_dstu4145be)));
        rint("rand", ENGINE_get_RAND(E) != NULL);
        int bad = 0; static const int other[] = { NID_sha256, NID_md5, NID_aes_128_cbc, NID_rsaEncryption, NID_X9_62_id_ecPublicKey, NID_dsa, NID_hmac, NID_id_GostR3411_94, NID_id_Gost28147_89, NID_id_GostR3410_2001, 1, 99999, -5 };
        for (i = 0; i < (int) (sizeof other / sizeof *other); i++)
            bad += (ENGINE_get_digest(E, other[i]) != NULL) + (ENGINE_get_cipher(E, other[i]) != NULL) + (ENGINE_get_pkey_meth(E, other[i]) != NULL) + (ENGINE_get_pkey_asn1_meth(E, other[i]) != NULL);
        bad += ENGINE_get_digest(E, NID_dstu28147_cfb) != NULL; bad += ENGINE_get_cipher(E, NID_dstu34311) != NULL;
        bad += ENGINE_get_pkey_meth(E, NID_dstu34311) != NULL; bad += ENGINE_get_pkey_asn1_meth(E, NID_dstu28147_cfb) != NULL;
        bad += ENGINE_get_digest(E, NID_dstu4145le) != NULL; bad += ENGINE_get_cipher(E, NID_dstu4145be) != NULL;
        rint("other", bad);
        rint("ple", ENGINE_get_pkey_meth(E, NID_dstu4145le) != NULL); rint("pbe", ENGINE_get_pkey_meth(E, NID_dstu4145be) != NULL);
        int id = 0, base = 0, fl = 0; const char *info = NULL, *pem = NULL; const EVP_PKEY_ASN1_METHOD *m;
        m = ENGINE_get_pkey_asn1_meth(E, NID_dstu4145le); if (m) EVP_PKEY_asn1_get0_info(&id, &base, &fl, &info, &pem, m);
        rint("ale", m && id == NID_dstu4145le && !strcmp(pem, SN_dstu4145le));
        m = ENGINE_get_pkey_asn1_meth(E, NID_dstu4145be); if (m) EVP_PKEY_asn1_get0_info(&id, &base, &fl, &info, &pem, m);
        rint("abe", m && id == NID_dstu4145be && !strcmp(pem, SN_dstu4145be));
        m = ENGINE_get_pkey_asn1_meth_str(E, SN_dstu4145le, -1); rint("sle", m != NULL);
        m = ENGINE_get_pkey_asn1_meth_str(E, "dstu4145xx", -1); rint("sxx", m == NULL);
    }
}
static void md_facts(const EVP_MD *m)
{
    rint("size", EVP_MD_size(m)); rint("block", EVP_MD_block_size(m)); rint("type", EVP_MD_type(m) == NID_dstu34311);
    rint("nm", !strcmp(OBJ_nid2sn(EVP_MD_type(m)), SN_dstu34311));
}
int cmd_life(const char *op)
{
#define OP(x) (!strcmp(op, x))
    ENGINE *tmp = NULL;
    if (OP("li_libinit")) { OPENSSL_init_crypto(OPENSSL_INIT_ENGINE_ALL_BUILTIN | OPENSSL_INIT_ADD_ALL_CIPHERS | OPENSSL_INIT_ADD_ALL_DIGESTS, NULL); rint("ok", 1); }
    else if (OP("li_byid")) { ENGINE *e = ENGINE_by_id("dstu"); rint("ok", e != NULL); rint("same", !E || E == e); if (e) E = e; }
    else if (OP("li_dyn")) { /* load the module again through the dynamic engine: LIST_ADD value, keep? */
        ENGINE *e = ENGINE_by_id("dynamic"); char path[4096]; snprintf(path, sizeof path, "%s/dstu.so", getenv("OPENSSL_ENGINES"));
        int ok = e && ENGINE_ctrl_cmd_string(e, "SO_PATH", path, 0) && ENGINE_ctrl_cmd_string(e, "LIST_ADD", as(1), 0) && ENGINE_ctrl_cmd_string(e, "LOAD", NULL, 0);
        rint("ok", ok);
        if (ok && !E) E = e;     /* the structural reference is the caller's */
        else if (e) { if (ok && ai(2)) { rint("init", ENGINE_init(e)); rint("fin", ENGINE_finish(e)); } ENGINE_free(e); } }
    else if (OP("li_up")) rint("ok", ENGINE_up_ref(E));
    else if (OP("li_init")) rint("ok", ENGINE_init(E));
    else if (OP("li_finish")) rint("ok", ENGINE_finish(E));
    else if (OP("li_free")) rint("ok", ENGINE_free(E));
    else if (OP("li_default")) rint("ok", as(1)[0] >= '0' && as(1)[0] <= '9' ? ENGINE_set_default(E, ai(1)) : ENGINE_set_default_string(E, as(1)));
    else if (OP("li_undefault")) { ENGINE_unregister_digests(E); ENGINE_unregister_ciphers(E); ENGINE_unregister_pkey_meths(E); ENGINE_unregister_pkey_asn1_meths(E); ENGINE_unregister_RAND(E); rint("ok", 1); }
    else if (OP("li_register")) rint("ok", ENGINE_register_complete(E));
    else if (OP("li_conf")) { /* engine section in a configuration */
        char t[4600], *dir = getenv("OPENSSL_ENGINES"); int n = snprintf(t, sizeof t, "openssl_conf = a\n[a]\nengines = b\n[b]\ndstu = c\n[c]\nengine_id = dstu\ndynamic_path = %s/dstu.so\n%s%s", dir, ai(1) ? "default_algorithms = ALL\n" : "", ai(1) == 2 ? "init = 0\n" : ai(1) == 3 ? "init = 1\n" : "");
        BIO *b = BIO_new_mem_buf(t, n); CONF *c = NCONF_new(NULL); long l; int ok = NCONF_load_bio(c, b, &l) > 0; if (ok) ok = CONF_modules_load(c, NULL, 0) > 0; rint("ok", ok);
        if (!E && ok) { ENGINE *e = ENGINE_by_id("dstu"); if (e) { E = e; ENGINE_free(e); } }
        NCONF_free(c); BIO_free(b); }
    else if (OP("li_unconf")) { CONF_modules_finish(); rint("ok", 1); }
    else if (OP("li_look")) { lookup(); rint("ok", 1); }
    else if (OP("li_md")) { /* how, pass engine?, message */
        const EVP_MD *m = find_md(as(1)[0], &tmp); buf_t b = ab(3); unsigned char o[64]; unsigned n = 0;
        rint("found", m != NULL);
        if (m) { md_facts(m); int ok = EVP_Digest(b.p, b.n, o, &n, m, ai(2) ? E : NULL); rint("ok", ok); rhex("out", o, ok ? n : 0); }
        if (tmp) ENGINE_finish(tmp);
        bfree(&b, 0); }
    else if (OP("li_ci")) { /* how, pass engine?, enc, key, iv, data */
        const EVP_CIPHER *m = find_ci(as(1)[0], &tmp); buf_t k = ab(4), v = ab(5), d = ab(6); int n = 0; unsigned char *o = malloc(d.n + 1);
        rint("found", m != NULL);
        if (m) {
            rint("key", EVP_CIPHER_key_length(m)); rint("iv", EVP_CIPHER_iv_length(m)); rint("block", EVP_CIPHER_block_size(m)); rint("mode", EVP_CIPHER_mode(m) == EVP_CIPH_CFB_MODE); rint("type", EVP_CIPHER_nid(m) == NID_dstu28147_cfb);
            EVP_CIPHER_CTX *c = EVP_CIPHER_CTX_new(); int ok = EVP_CipherInit_ex(c, m, ai(2) ? E : NULL, k.p, v.p, ai(3)) && EVP_CipherUpdate(c, o, &n, d.p, d.n);
            rint("ok", ok); rhex("out", o, ok ? n : 0); EVP_CIPHER_CTX_free(c); }
        if (tmp) ENGINE_finish(tmp);
        free(o); bfree(&k, 0); bfree(&v, 0); bfree(&d, 0); }
    else if (OP("li_load")) { /* slot, private key DER */
        buf_t b = ab(2); const unsigned char *q = b.p; int s = ai(1) & 7; kk[s] = d2i_AutoPrivateKey(NULL, &q, b.n); rint("ok", kk[s] != NULL); bfree(&b, 0);
        if (kk[s]) { unsigned char *d = NULL; int n = i2d_PUBKEY(kk[s], &d); rhex("pub", d, n > 0 ? n : 0); if (n > 0) OPENSSL_free(d); } }
    else if (OP("li_err")) { /* private key of one of the engine's kinds that has to be refused: what the errors of the engine say */
        buf_t b = ab(1); const unsigned char *q = b.p; unsigned long x; int n = 0, named = 0; PKCS8_PRIV_KEY_INFO *p8 = d2i_PKCS8_PRIV_KEY_INFO(NULL, &q, b.n); ERR_clear_error();
        EVP_PKEY *p = p8 ? EVP_PKCS82PKEY(p8) : NULL; rint("parsed", p8 != NULL); rint("ok", p != NULL); EVP_PKEY_free(p); PKCS8_PRIV_KEY_INFO_free(p8); bfree(&b, 0);
        while ((x = ERR_get_error())) if (ERR_GET_LIB(x) >= ERR_LIB_USER) { const char *l = ERR_lib_error_string(x), *r = ERR_reason_error_string(x); n++; named += l && r && !strcmp(l, "dstu") && *r; }
        rint("n", n); rint("named", named); }
    else if (OP("li_gen")) { /* slot, alg, pass engine? */
        int s = ai(1) & 7; EVP_PKEY_CTX *c = EVP_PKEY_CTX_new_id(as(2)[0] == 'l' ? NID_dstu4145le : NID_dstu4145be, ai(3) ? E : NULL); EVP_PKEY *p = NULL;
        int ok = c && EVP_PKEY_keygen_init(c) > 0 && EVP_PKEY_CTX_ctrl_str(c, "curve", "uacurve0") > 0 && EVP_PKEY_keygen(c, &p) > 0; rint("ok", ok);
        if (ok) { kk[s] = p; unsigned char *d = NULL; int n = i2d_PUBKEY(p, &d); rhex("pub", d, n > 0 ? n : 0); if (n > 0) OPENSSL_free(d); }
        EVP_PKEY_CTX_free(c); }
    else if (OP("li_sv")) { /* slot, pass engine?, hash: sign and verify */
        int s = ai(1) & 7; buf_t h = ab(3); unsigned char o[256]; size_t n = sizeof o; EVP_PKEY_CTX *c = EVP_PKEY_CTX_new(kk[s], ai(2) ? E : NULL);
        int ok = c && EVP_PKEY_sign_init(c) > 0 && EVP_PKEY_sign(c, o, &n, h.p, h.n) > 0; int v = -9; EVP_PKEY_CTX_free(c);
        if (ok) { c = EVP_PKEY_CTX_new(kk[s], ai(2) ? E : NULL); if (c && EVP_PKEY_verify_init(c) > 0) v = EVP_PKEY_verify(c, o, n, h.p, h.n); EVP_PKEY_CTX_free(c); }
        rint("ok", ok); rint("v", v); rhex("sig", o, ok ? n : 0); bfree(&h, 0); }
    else if (OP("li_kfree")) { int s = ai(1) & 7; EVP_PKEY_free(kk[s]); kk[s] = NULL; rint("ok", 1); }
    else if (OP("li_mopen")) { int s = ai(1) & 7; const EVP_MD *m = find_md(as(2)[0], &tmp); mc[s] = EVP_MD_CTX_new(); rint("ok", m && EVP_DigestInit_ex(mc[s], m, ai(3) ? E : NULL)); if (tmp) ENGINE_finish(tmp); }
    else if (OP("li_mupd")) { buf_t b = ab(2); rint("ok", EVP_DigestUpdate(mc[ai(1) & 7], b.p, b.n)); bfree(&b, 0); }
    else if (OP("li_mfin")) { int s = ai(1) & 7; unsigned char o[64]; unsigned n = 0; int ok = EVP_DigestFinal_ex(mc[s], o, &n); rint("ok", ok); rhex("out", o, ok ? n : 0); }
    else if (OP("li_mcopy")) { int s = ai(1) & 7; if (!mc[s]) mc[s] = EVP_MD_CTX_new(); rint("ok", EVP_MD_CTX_copy_ex(mc[s], mc[ai(2) & 7])); }
    else if (OP("li_mfree")) { int s = ai(1) & 7; EVP_MD_CTX_free(mc[s]); mc[s] = NULL; rint("ok", 1); }
    else if (OP("li_copen")) { int s = ai(1) & 7; buf_t k = ab(4), v = ab(5); const EVP_CIPHER *m = find_ci(as(2)[0], &tmp); cc[s] = EVP_CIPHER_CTX_new(); rint("ok", m && EVP_CipherInit_ex(cc[s], m, ai(3) ? E : NULL, k.p, v.p, 1)); if (tmp) ENGINE_finish(tmp); bfree(&k, 0); bfree(&v, 0); }
    else if (OP("li_cupd")) { buf_t b = ab(2); int n = 0; unsigned char *o = malloc(b.n + 1); int ok = EVP_CipherUpdate(cc[ai(1) & 7], o, &n, b.p, b.n); rint("ok", ok > 0); rhex("out", o, ok > 0 ? n : 0); free(o); bfree(&b, 0); }
    else if (OP("li_cfree")) { int s = ai(1) & 7; EVP_CIPHER_CTX_free(cc[s]); cc[s] = NULL; rint("ok", 1); }
    else if (OP("li_rand")) { /* how, number */
        unsigned char o[256]; int n = ai(2), r = -9, st = -9; memset(o, 0, sizeof o);
        const RAND_METHOD *m = as(1)[0] == 'e' ? (E ? ENGINE_get_RAND(E) : NULL) : RAND_get_rand_method();
        if (as(1)[0] == 'p') r = RAND_bytes(o, n), st = RAND_status();
        else if (m) r = m->bytes(o, n), st = m->status();
        rint("ok", r == 1); rint("st", st == 1); rint("own", E && RAND_get_rand_method() == ENGINE_get_RAND(E)); rhex("out", o, n); }
    else if (OP("li_setrand")) rint("ok", RAND_set_rand_engine(ai(1) ? E : NULL));
    else if (OP("li_cleanup")) { OPENSSL_cleanup(); rint("ok", 1); }
    else return 0;
    return 1;
#undef OP
}
