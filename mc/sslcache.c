/* Memoizes PEM parsing (dominant cost in OpenSSL 3.0). The same PEM text gives the same object with its reference
 * count increased, or the same failure. Linked with --wrap, hence code under test is unmodified. */
#include <openssl/evp.h>
#include <openssl/pem.h>
#include <openssl/x509.h>
#include <stdlib.h>
#include <string.h>

EVP_PKEY *__real_PEM_read_bio_PUBKEY(BIO *, EVP_PKEY **, pem_password_cb *, void *);
EVP_PKEY *__real_PEM_read_bio_PrivateKey(BIO *, EVP_PKEY **, pem_password_cb *, void *);
X509 *__real_PEM_read_bio_X509(BIO *, X509 **, pem_password_cb *, void *);

#define N 4096
static struct {
  char *text;
  long n, eaten;
  int kind;
  unsigned hash;
  void *obj;
} tab[N];
static int used;

typedef void *(*reader)(BIO *, void **, pem_password_cb *, void *);
static void ref(int kind, void *o)
{
  if (!o) return;
  if (kind == 2) X509_up_ref(o);
  else EVP_PKEY_up_ref(o);
}
int sslcache_off; /* bit per kind: public keys, private keys, certificates */
static void *get(void *rd, int kind, BIO *b, void **x, pem_password_cb *cb, void *u)
{
  char *p = NULL;
  long n = b && BIO_method_type(b) == BIO_TYPE_MEM ? BIO_get_mem_data(b, &p) : 0;
  if ((sslcache_off >> kind & 1) || x || n <= 0 || !p) return ((reader)rd)(b, x, cb, u);
  unsigned h = (unsigned)kind;
  for (long i = 0; i < n; i++) h = h * 16777619u ^ (unsigned char)p[i];
  char skip[256];
  for (int i = 0; i < used; i++)
    if (tab[i].hash == h && tab[i].kind == kind && tab[i].n == n && !memcmp(tab[i].text, p, n)) {
      for (long k = tab[i].eaten; k > 0;) {
        int r = BIO_read(b, skip, k > 256 ? 256 : (int)k);
        if (r <= 0) break;
        k -= r;
      }
      ref(kind, tab[i].obj);
      return tab[i].obj;
    }
  char *copy = malloc(n);
  memcpy(copy, p, n);
  void *o = ((reader)rd)(b, x, cb, u);
  if (used < N) {
    tab[used].text = copy;
    tab[used].n = n;
    tab[used].eaten = n - (long)BIO_pending(b);
    tab[used].kind = kind;
    tab[used].hash = h;
    tab[used].obj = o;
    ref(kind, o);
    used++;
  } else
    free(copy);
  return o;
}
EVP_PKEY *__wrap_PEM_read_bio_PUBKEY(BIO *b, EVP_PKEY **x, pem_password_cb *cb, void *u)
{
  return get(__real_PEM_read_bio_PUBKEY, 0, b, (void **)x, cb, u);
}
EVP_PKEY *__wrap_PEM_read_bio_PrivateKey(BIO *b, EVP_PKEY **x, pem_password_cb *cb, void *u)
{
  return get(__real_PEM_read_bio_PrivateKey, 1, b, (void **)x, cb, u);
}
/* Stand-in for the certificate with common name |sslcache_root_cn| (the vendor's root, whose key nobody has). */
X509 *sslcache_root;
const char *sslcache_root_cn;
X509 *__wrap_PEM_read_bio_X509(BIO *b, X509 **x, pem_password_cb *cb, void *u)
{
  X509 *c = get(__real_PEM_read_bio_X509, 2, b, (void **)x, cb, u);
  if (c && sslcache_root) {
    char cn[200] = {0};
    X509_NAME_get_text_by_NID(X509_get_subject_name(c), NID_commonName, cn, sizeof(cn));
    if (!strcmp(cn, sslcache_root_cn)) {
      X509_free(c);
      X509_up_ref(sslcache_root);
      c = sslcache_root;
    }
  }
  return c;
}

/* OpenSSL is not instrumented: memory handed to it is checked here. */
#if defined(__SANITIZE_ADDRESS__)
void *__asan_region_is_poisoned(void *p, size_t n);
static void region(const void *p, size_t n)
{
  const volatile unsigned char *bad = n && p ? __asan_region_is_poisoned((void *)p, n) : NULL;
  if (bad) (void)*bad; /* has the sanitizer report it */
}
#else
static void region(const void *p, size_t n) { (void)p, (void)n; }
#endif
#define W(ret, name, decl, call, regions) \
  ret __real_##name decl; \
  ret __wrap_##name decl; \
  ret __wrap_##name decl \
  { \
    regions; \
    return __real_##name call; \
  }
W(int, EVP_PKEY_verify, (EVP_PKEY_CTX *c, const unsigned char *s, size_t n, const unsigned char *d, size_t m), (c, s, n, d, m), (region(s, n), region(d, m)))
W(int, EVP_PKEY_sign, (EVP_PKEY_CTX *c, unsigned char *s, size_t *n, const unsigned char *d, size_t m), (c, s, n, d, m), (region(s, s && n ? *n : 0), region(d, m)))
W(int, EVP_DigestVerify, (EVP_MD_CTX *c, const unsigned char *s, size_t n, const unsigned char *d, size_t m), (c, s, n, d, m), (region(s, n), region(d, m)))
W(int, EVP_DigestUpdate, (EVP_MD_CTX *c, const void *d, size_t n), (c, d, n), region(d, n))
W(int, EVP_DigestFinal_ex, (EVP_MD_CTX *c, unsigned char *o, unsigned *k), (c, o, k), region(o, c && EVP_MD_CTX_get0_md(c) ? EVP_MD_get_size(EVP_MD_CTX_get0_md(c)) : 0))
W(int, EVP_Digest, (const void *d, size_t n, unsigned char *o, unsigned *k, const EVP_MD *m, ENGINE *e), (d, n, o, k, m, e), (region(d, n), region(o, m ? EVP_MD_get_size(m) : 0)))
W(BIO *, BIO_new_mem_buf, (const void *b, int n), (b, n), region(b, n < 0 ? (b ? strlen(b) + 1 : 0) : (size_t)n))
W(ASN1_OBJECT *, d2i_ASN1_OBJECT, (ASN1_OBJECT **a, const unsigned char **p, long n), (a, p, n), region(p ? *p : NULL, n > 0 ? (size_t)n : 0))
