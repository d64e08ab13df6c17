/* OpenSSL as seen by the library, any call of which may fail. Library objects are compiled with these names. */
#define OPENSSL_SUPPRESS_DEPRECATED
#include "mem.h"
#include <openssl/bio.h>
#include <openssl/evp.h>
#include <openssl/objects.h>
#include <openssl/pem.h>
#include <openssl/rsa.h>
#include <openssl/x509.h>
#include <openssl/x509_vfy.h>
#include <stdarg.h>
#include <stdio.h>
bool mem_fails(int which);
#define F(ret, name, bad, decl, call) \
  ret mcf_##name decl; \
  ret mcf_##name decl \
  { \
    if (mem_fails(4)) return bad; \
    return name call; \
  }
F(BIO *, BIO_new, NULL, (const BIO_METHOD *m), (m))
F(BIO *, BIO_new_mem_buf, NULL, (const void *b, int n), (b, n))
F(int, EVP_Digest, 0, (const void *d, size_t n, unsigned char *o, unsigned *k, const EVP_MD *m, ENGINE *e), (d, n, o, k, m, e))
F(int, EVP_DigestFinal_ex, 0, (EVP_MD_CTX *c, unsigned char *o, unsigned *k), (c, o, k))
F(int, EVP_DigestInit_ex, 0, (EVP_MD_CTX *c, const EVP_MD *m, ENGINE *e), (c, m, e))
F(int, EVP_DigestUpdate, 0, (EVP_MD_CTX *c, const void *d, size_t n), (c, d, n))
F(int, EVP_DigestVerifyInit, 0, (EVP_MD_CTX *c, EVP_PKEY_CTX **x, const EVP_MD *m, ENGINE *e, EVP_PKEY *k), (c, x, m, e, k))
F(int, EVP_DigestVerify, -1, (EVP_MD_CTX *c, const unsigned char *s, size_t n, const unsigned char *d, size_t m), (c, s, n, d, m))
F(EVP_MD_CTX *, EVP_MD_CTX_new, NULL, (void), ())
F(EVP_PKEY_CTX *, EVP_PKEY_CTX_new, NULL, (EVP_PKEY *k, ENGINE *e), (k, e))
F(int, EVP_PKEY_CTX_set_rsa_padding, 0, (EVP_PKEY_CTX *c, int p), (c, p))
F(int, EVP_PKEY_CTX_set_signature_md, 0, (EVP_PKEY_CTX *c, const EVP_MD *m), (c, m))
F(size_t, EVP_PKEY_get1_encoded_public_key, 0, (EVP_PKEY *k, unsigned char **p), (k, p))
F(int, EVP_PKEY_sign, -1, (EVP_PKEY_CTX *c, unsigned char *s, size_t *n, const unsigned char *d, size_t m), (c, s, n, d, m))
F(int, EVP_PKEY_sign_init, 0, (EVP_PKEY_CTX *c), (c))
F(int, EVP_PKEY_verify, -1, (EVP_PKEY_CTX *c, const unsigned char *s, size_t n, const unsigned char *d, size_t m), (c, s, n, d, m))
F(int, EVP_PKEY_verify_init, 0, (EVP_PKEY_CTX *c), (c))
F(ASN1_OBJECT *, OBJ_txt2obj, NULL, (const char *s, int n), (s, n))
F(ASN1_OBJECT *, d2i_ASN1_OBJECT, NULL, (ASN1_OBJECT **o, const unsigned char **p, long n), (o, p, n))
F(int, i2d_ASN1_OBJECT, -1, (const ASN1_OBJECT *o, unsigned char **p), (o, p))
F(OPENSSL_STACK *, OPENSSL_sk_new_null, NULL, (void), ())
F(int, OPENSSL_sk_push, 0, (OPENSSL_STACK *s, const void *p), (s, p))
F(EVP_PKEY *, PEM_read_bio_PUBKEY, NULL, (BIO *b, EVP_PKEY **x, pem_password_cb *c, void *u), (b, x, c, u))
F(EVP_PKEY *, PEM_read_bio_PrivateKey, NULL, (BIO *b, EVP_PKEY **x, pem_password_cb *c, void *u), (b, x, c, u))
F(X509 *, PEM_read_bio_X509, NULL, (BIO *b, X509 **x, pem_password_cb *c, void *u), (b, x, c, u))
F(int, PEM_write_bio_PUBKEY, 0, (BIO *b, const EVP_PKEY *k), (b, k))
F(int, X509_STORE_CTX_init, 0, (X509_STORE_CTX *c, X509_STORE *s, X509 *x, STACK_OF(X509) *k), (c, s, x, k))
F(X509_STORE_CTX *, X509_STORE_CTX_new, NULL, (void), ())
F(int, X509_STORE_add_cert, 0, (X509_STORE *s, X509 *x), (s, x))
F(X509_STORE *, X509_STORE_new, NULL, (void), ())
F(int, X509_verify_cert, -1, (X509_STORE_CTX *c), (c))
F(int, ASN1_STRING_to_UTF8, -1, (unsigned char **o, const ASN1_STRING *s), (o, s))
F(int, PEM_write_PrivateKey, 0, (FILE *f, const EVP_PKEY *k, const EVP_CIPHER *e, const unsigned char *s, int n, pem_password_cb *c, void *u), (f, k, e, s, n, c, u))
F(int, PEM_write_bio_PrivateKey, 0, (BIO *b, const EVP_PKEY *k, const EVP_CIPHER *e, const unsigned char *s, int n, pem_password_cb *c, void *u), (b, k, e, s, n, c, u))
F(FILE *, fopen, NULL, (const char *p, const char *m), (p, m))
/* Data still to be written is lost. */
int mcf_fclose(FILE *f);
int mcf_fclose(FILE *f)
{
  int rc = fclose(f);
  return mem_fails(4) ? EOF : rc;
}
/* Generating a key takes long: the same one each time. */
EVP_PKEY *mcf_EVP_PKEY_Q_keygen(OSSL_LIB_CTX *c, const char *q, const char *type, ...);
EVP_PKEY *mcf_EVP_PKEY_Q_keygen(OSSL_LIB_CTX *c, const char *q, const char *type, ...)
{
  static EVP_PKEY *key[2];
  int k = type[0] == 'R';
  (void)c;
  (void)q;
  if (mem_fails(4)) return NULL;
  va_list ap;
  va_start(ap, type);
  if (!key[k]) key[k] = k ? EVP_PKEY_Q_keygen(NULL, NULL, "RSA", va_arg(ap, size_t)) : EVP_PKEY_Q_keygen(NULL, NULL, "EC", va_arg(ap, char *));
  va_end(ap);
  EVP_PKEY_up_ref(key[k]);
  return key[k];
}
