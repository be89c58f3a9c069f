#ifndef DRV_H
#define DRV_H
#define OPENSSL_SUPPRESS_DEPRECATED
#define _GNU_SOURCE
#include <openssl/asn1.h>
#include <openssl/bn.h>
#include <openssl/cms.h>
#include <openssl/crypto.h>
#include <openssl/ec.h>
#include <openssl/engine.h>
#include <openssl/err.h>
#include <openssl/evp.h>
#include <openssl/hmac.h>
#include <openssl/objects.h>
#include <openssl/pem.h>
#include <openssl/pkcs12.h>
#include <openssl/pkcs7.h>
#include <openssl/rand.h>
#include <openssl/x509.h>
#include <errno.h>
#include <malloc.h>
#include <pthread.h>
#include <signal.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/wait.h>
#include <time.h>
#include <unistd.h>

#define DSTU_SET_CUSTOM_SBOX (EVP_MD_CTRL_ALG_CTRL + 1)
#define DSTU_SET_CURVE (EVP_PKEY_ALG_CTRL + 2)

#define NSLOT 64
typedef struct { unsigned char *p; size_t n; int null; } buf_t;

/* one command line */
#define MAXARG 40
#define TL __thread             /* commands run in several threads, each with its own slots */
extern TL char *argv_[MAXARG]; extern TL int argc_;
long ai(int i);                 /* integer argument */
buf_t ab(int i);                /* bytes argument in an exact-size allocation ("-" gives NULL) */
buf_t ab_off(int i, int off);   /* the same, data starting at an offset of the allocation */
void bfree(buf_t *b, int off);
const char *as(int i);
void rint(const char *k, long v);
void rhex(const char *k, const void *p, size_t n);
void badcmd(void);

extern ENGINE *eng;
extern TL EVP_PKEY *keys[NSLOT];
extern EVP_PKEY *shared[NSLOT];
const char *run_line(char *line);
#define key_at(s) keys[s]
extern const EVP_MD *the_md(void);
extern const EVP_CIPHER *the_cipher(void);

int cmd_main(const char *op);
int cmd_pki(const char *op);
int cmd_thr(const char *op);
int cmd_life(const char *op);
int cmd_rbg(const char *op);
int cmd_sgn(const char *op);
X509 *ks_cert_at(int s, long pos);
void alloc_count(long *n, long *bytes);
extern int nolog;
#endif
