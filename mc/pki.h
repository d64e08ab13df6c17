/* Certificates, attestation and a signing session of an Axis device. The root of trust is one the harness has the key of. */
#ifndef PKI_H
#define PKI_H
#include <openssl/ec.h>
#include <openssl/err.h>
#include <openssl/evp.h>
#include <openssl/pem.h>
#include <openssl/rsa.h>
#include <openssl/sha.h>
#include <openssl/x509.h>
#include <openssl/x509v3.h>
#include <stdio.h>
#include "lib/src/includes/sv_vendor_axis_communications.h"

extern X509 *sslcache_root;
extern int sslcache_off;
extern const char *sslcache_root_cn;

#define AXIS "Axis Communications AB"
#define SERIAL "ACCC8E001122"
static const uint8_t kChip[18] = {4, 0, 0x50, 1, 0x10, 0x21, 0x32, 0x43, 0x54, 0x65, 0x76, 0x87, 0x98, 0xa9, 0xba, 0xcb, 0xdc, 0xed};

/* ---------------------------------------------------------------- certificates */
static EVP_PKEY *kRoot, *kInter, *kLeaf, *kOther, *kP384, *kRsa;
static EVP_PKEY *priv_of(int key)
{
  static EVP_PKEY *k[8];
  if (!k[key]) {
    BIO *b = BIO_new_mem_buf(sim_priv_key(key), -1);
    k[key] = PEM_read_bio_PrivateKey(b, NULL, NULL, NULL);
    BIO_free(b);
  }
  return k[key];
}
typedef struct {
  const char *cn, *sn;
  EVP_PKEY *key;
  const char *issuer_cn;
  EVP_PKEY *issuer;
  bool ca;
  const char *from, *to;
} cert_t;
static X509_NAME *name(const char *cn, const char *sn)
{
  X509_NAME *n = X509_NAME_new();
  X509_NAME_add_entry_by_txt(n, "O", MBSTRING_ASC, (const unsigned char *)AXIS, -1, -1, 0);
  if (cn) X509_NAME_add_entry_by_txt(n, "CN", strlen(cn) > 64 ? V_ASN1_UTF8STRING : MBSTRING_ASC, (const unsigned char *)cn, -1, -1, 0);
  if (sn) X509_NAME_add_entry_by_txt(n, "serialNumber", MBSTRING_ASC, (const unsigned char *)sn, -1, -1, 0);
  return n;
}
static X509 *make_cert(const cert_t *c)
{
  static long serial = 100;
  X509 *x = X509_new();
  X509_set_version(x, 2);
  ASN1_INTEGER_set(X509_get_serialNumber(x), serial++);
  ASN1_TIME_set_string_X509(X509_getm_notBefore(x), c->from ? c->from : "20200101000000Z");
  ASN1_TIME_set_string_X509(X509_getm_notAfter(x), c->to ? c->to : "20991231235959Z");
  X509_NAME *n = name(c->cn, c->sn);
  X509_set_subject_name(x, n);
  X509_NAME_free(n);
  n = name(c->issuer_cn, NULL);
  X509_set_issuer_name(x, n);
  X509_NAME_free(n);
  X509_set_pubkey(x, c->key);
  X509V3_CTX v;
  X509V3_set_ctx_nodb(&v);
  X509V3_set_ctx(&v, x, x, NULL, NULL, 0);
  X509_EXTENSION *e = X509V3_EXT_conf_nid(NULL, &v, NID_basic_constraints, c->ca ? "critical,CA:TRUE" : "critical,CA:FALSE");
  X509_add_ext(x, e, -1);
  X509_EXTENSION_free(e);
  if (!X509_sign(x, c->issuer, EVP_sha256())) abort();
  return x;
}
static char *pem(X509 *x)
{
  BIO *b = BIO_new(BIO_s_mem());
  PEM_write_bio_X509(b, x);
  char *p;
  long n = BIO_get_mem_data(b, &p);
  char *r = calloc(1, n + 1);
  memcpy(r, p, n);
  BIO_free(b);
  return r;
}
static char *cert(cert_t c)
{
  X509 *x = make_cert(&c);
  char *r = pem(x);
  X509_free(x);
  return r;
}
#define ROOT_CN "Root of trust"
#define INTER_CN "Intermediate"
#define CN_PREFIX "Axis Edge Vault Attestation "
static char leaf_cn[100];

enum { C_VALID, C_DIRECT, C_P384, C_SN19, C_FOURTH, C_NO_NL, /* fine */
  C_WRONG_ROOT, C_WRONG_INTER, C_NOT_CA, C_LEAF_OLD, C_LEAF_YOUNG, C_INTER_OLD, C_SWAPPED, C_NO_CN, C_OTHER_CN, C_CHIP_SHORT, C_CHIP_SHORTER, C_CHIP_LONG, C_CHIP_PREFIX, C_CHIP_PREFIX4,
  C_CHIP_HEX, C_NO_SN, C_SN20, C_SN64, C_RSA, C_SELF, C_JUNK, C_TAMPERED, C_EXTRA1, C_EXTRA2, C_EXTRA3, /* incomplete */ C_NONE, C_ONE, C_TWO, C_NUM };
static const char *kChain[] = {"valid", "signed by the root", "P-384 attestation key", "serial number of 19 characters", "fourth certificate", "no newline at end",
    "other root of the same name", "other intermediate of the same name", "intermediate is no CA", "expired", "not yet valid", "intermediate expired", "wrong order", "no common name", "other common name",
    "chip ID short", "chip ID shorter still", "chip ID long", "chip ID prefix", "end of chip ID prefix", "chip ID not hexadecimal", "no serial number", "serial number of 20 characters", "serial number of 64 characters", "RSA attestation key",
    "self-signed", "junk", "tampered", "extra certificate 1", "extra certificate 2", "extra certificate 3", "no certificate", "one certificate", "two certificates"};
static char *chain[C_NUM];
static char serial19[20], serial20[21], serial64[65];
static char *cat3(const char *a, const char *b, const char *c, const char *d)
{
  char *r = calloc(1, strlen(a) + strlen(b) + strlen(c) + strlen(d) + 1);
  strcat(strcat(strcat(strcat(r, a), b), c), d);
  return r;
}
static char *rename_x509(const char *p)
{ /* another label of the same thing */
  char *r = calloc(1, strlen(p) + 20);
  const char *q = strstr(p, "-----END");
  sprintf(r, "-----BEGIN X509 CERTIFICATE-----%.*s-----END X509 CERTIFICATE-----\n", (int)(q - p - 27), p + 27);
  return r;
}
static void make_pki(void)
{
  kRoot = EVP_EC_gen("P-384");
  kInter = EVP_EC_gen("P-256");
  kLeaf = EVP_EC_gen("P-256");
  kOther = EVP_EC_gen("P-256");
  kP384 = EVP_EC_gen("P-384");
  kRsa = priv_of(1);
  if (!kRoot || !kInter || !kLeaf || !kOther || !kP384 || !kRsa) abort();
  char hex[37] = {0};
  for (int i = 0; i < 18; i++) sprintf(hex + 2 * i, "%02x", kChip[i]);
  sprintf(leaf_cn, CN_PREFIX "%s", hex);
  memset(serial19, 'A', 19);
  memset(serial20, 'B', 20);
  memset(serial64, 'C', 64);
  const cert_t R = {ROOT_CN, NULL, kRoot, ROOT_CN, kRoot, true}, I = {INTER_CN, NULL, kInter, ROOT_CN, kRoot, true}, L = {leaf_cn, SERIAL, kLeaf, INTER_CN, kInter, false};
  sslcache_root = make_cert(&R);
  sslcache_root_cn = "Axis Edge Vault CA ECC";
  char *r = pem(sslcache_root), *i = cert(I), *l = cert(L), *t;
  cert_t x;
#define WITH(base, ...) (x = base, __VA_ARGS__, cert(x))
  chain[C_VALID] = cat3(l, i, r, "");
  chain[C_NO_NL] = cat3(l, i, r, "");
  chain[C_NO_NL][strlen(chain[C_NO_NL]) - 1] = 0;
  chain[C_DIRECT] = cat3(WITH(L, x.issuer_cn = ROOT_CN, x.issuer = kRoot), i, r, "");
  chain[C_P384] = cat3(WITH(L, x.key = kP384), i, r, "");
  chain[C_SN19] = cat3(WITH(L, x.sn = serial19), i, r, "");
  chain[C_FOURTH] = cat3(l, i, r, i);
  chain[C_WRONG_ROOT] = cat3(l, WITH(I, x.issuer = kOther), WITH(R, x.key = kOther, x.issuer = kOther), "");
  chain[C_WRONG_INTER] = cat3(WITH(L, x.issuer = kOther), i, r, "");
  chain[C_NOT_CA] = cat3(l, WITH(I, x.ca = false), r, "");
  chain[C_LEAF_OLD] = cat3(WITH(L, x.to = "20201231235959Z"), i, r, "");
  chain[C_LEAF_YOUNG] = cat3(WITH(L, x.from = "20981231235959Z"), i, r, "");
  chain[C_INTER_OLD] = cat3(l, WITH(I, x.to = "20201231235959Z"), r, "");
  chain[C_SWAPPED] = cat3(i, l, r, "");
  chain[C_NO_CN] = cat3(WITH(L, x.cn = NULL), i, r, "");
  chain[C_OTHER_CN] = cat3(WITH(L, x.cn = "Somebody else"), i, r, "");
  char b[100];
  sprintf(b, CN_PREFIX "%.34s", hex);
  chain[C_CHIP_SHORT] = cat3(WITH(L, x.cn = b), i, r, "");
  chain[C_CHIP_SHORTER] = cat3(WITH(L, x.cn = CN_PREFIX "040050011021324354657687"), i, r, "");
  sprintf(b, CN_PREFIX "%see", hex);
  chain[C_CHIP_LONG] = cat3(WITH(L, x.cn = b), i, r, "");
  sprintf(b, CN_PREFIX "%.6s02%s", hex, hex + 8);
  chain[C_CHIP_PREFIX4] = cat3(WITH(L, x.cn = b), i, r, "");
  sprintf(b, CN_PREFIX "ff%s", hex + 2);
  chain[C_CHIP_PREFIX] = cat3(WITH(L, x.cn = b), i, r, "");
  sprintf(b, CN_PREFIX "%.8szz%s", hex, hex + 10);
  chain[C_CHIP_HEX] = cat3(WITH(L, x.cn = b), i, r, "");
  chain[C_NO_SN] = cat3(WITH(L, x.sn = NULL), i, r, "");
  chain[C_SN20] = cat3(WITH(L, x.sn = serial20), i, r, "");
  chain[C_SN64] = cat3(WITH(L, x.sn = serial64), i, r, "");
  chain[C_RSA] = cat3(WITH(L, x.key = kRsa), i, r, "");
  chain[C_SELF] = cat3(WITH(L, x.issuer_cn = leaf_cn, x.issuer = kLeaf), i, r, "");
  const char *j = "-----BEGIN CERTIFICATE-----\nAAAA\n-----END CERTIFICATE-----\n";
  chain[C_JUNK] = cat3(j, j, j, "");
  t = strdup(l);
  t[200] = t[200] == 'A' ? 'B' : 'A';
  chain[C_TAMPERED] = cat3(t, i, r, "");
  /* More certificates than there should be, under a label the signing side does not count. */
  chain[C_EXTRA1] = cat3(l, i, rename_x509(i), r);
  chain[C_EXTRA2] = cat3(l, rename_x509(i), rename_x509(i), chain[C_EXTRA1]);
  char *e = cat3(rename_x509(i), rename_x509(i), rename_x509(i), "");
  chain[C_EXTRA3] = cat3(l, i, e, r);
  chain[C_NONE] = strdup("no certificate\n");
  chain[C_ONE] = strdup(l);
  chain[C_TWO] = cat3(l, i, "", "");
}

/* ---------------------------------------------------------------- attestation, as made by the device */
static const uint8_t kAttr[37] = {0x7b, 0x00, 0x02, 0x01, 0x29, 0x01, 0x00, 0x00, 0x7b, 0x00, 0x00, 0x03, 0x00, 0x00, 0x08, 0x7b, 0x00, 0x00, 0x03, 0x1f, 0x3c, 0x00,
    0x00, 0x08, 0x00, 0x00, 0x00, 0x00, 0x00, 0x20, 0x00, 0x00, 0x02, 0x00, 0x00, 0x00, 0x00};
static const uint8_t kFresh[16] = {0x92, 0xbb, 0xed, 0xfb, 0x98, 0x82, 0xac, 0x16, 0xc7, 0xf0, 0x1a, 0xe4, 0x59, 0x05, 0x96, 0x04};
static const uint8_t kTime[12] = {1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12};
static size_t attest(int video_key, EVP_PKEY *by, const uint8_t *chip, uint8_t *out)
{
  uint8_t raw[40] = {0x80, 0x22, 0, 0, 0, 0, 0x21, 0x41, 4, 0x7b, 0x00, 0x02, 0x01, 0x45, 4, 0xf0, 0, 0, 0x12, 0x46, 1, 0x21, 0x47, 0x10};
  memcpy(raw + 24, kFresh, 16);
  uint8_t d[300];
  size_t n = 32;
  SHA256(raw, 40, d);
#define PUT(...) do { const uint8_t v_[] = {__VA_ARGS__}; memcpy(d + n, v_, sizeof(v_)); n += sizeof(v_); } while (0)
  PUT(0x41, 0x82, 0, 65);
  unsigned char *pub = NULL;
  size_t m = EVP_PKEY_get1_encoded_public_key(priv_of(video_key), &pub);
  if (!m) { /* RSA: nothing sensible to attest */
    memset(d + n, 7, 65);
    m = 65;
  } else
    memcpy(d + n, pub, m);
  OPENSSL_free(pub);
  n += m;
  PUT(0x42, 0x82, 0, 0x12);
  memcpy(d + n, chip, 18);
  n += 18;
  PUT(0x43, 0x82, 0, 37);
  memcpy(d + n, kAttr, 37);
  n += 37;
  PUT(0x44, 0x82, 0, 2, 0, 0x20, 0x4f, 0x82, 0, 0x0c);
  memcpy(d + n, kTime, 12);
  n += 12;
  EVP_MD_CTX *x = EVP_MD_CTX_new();
  size_t k = 0;
  uint8_t sig[1000];
  k = sizeof(sig);
  if (EVP_DigestSignInit(x, NULL, EVP_sha256(), NULL, by) != 1 || EVP_DigestSign(x, sig, &k, d, n) != 1) abort();
  EVP_MD_CTX_free(x);
  if (k > 200) k = 200; /* RSA: does not fit anyway */
  uint8_t h[23] = {0, 1, 0, 2, 0xf0, 0, 0, 0x12, 1};
  memcpy(h + 9, kTime, 12);
  h[21] = 0;
  h[22] = (uint8_t)k;
  memcpy(out, h, 23);
  memcpy(out + 23, sig, k);
  return 23 + k;
}

/* ---------------------------------------------------------------- signing */
typedef struct {
  const char *manufacturer, *serial, *chain;
  const uint8_t *att;
  size_t att_size;
} vendor_t;
static void sign(const cfg_t *c, const vendor_t *v, const char *spec, stream_t *out, bool append)
{
  if (!append) {
    out->codec = c->codec;
    out->len = out->num_seis = 0;
  }
  cfg_t d = *c;
  d.product = 1;
  d.golden = 0;
  signed_video_t *sv = sim_signer(&d);
  int rc = signed_video_set_product_info(sv, "hw", "fw", v->serial, v->manufacturer, "addr");
  MC_CHECK(rc == SV_OK, "product", "signed_video_set_product_info gives %d", rc);
  if (v->att || v->chain) {
    rc = sv_vendor_axis_communications_set_attestation_report(sv, v->att, (uint8_t)v->att_size, v->chain);
    MC_CHECK(rc == SV_OK, "attestation_set", "setting the attestation gives %d", rc);
  }
  if (c->golden) {
    MC_CHECK(signed_video_set_using_golden_sei(sv, true) == SV_OK && signed_video_generate_golden_sei(sv) == SV_OK, "golden", "no golden SEI");
    MC_CHECK(signed_video_set_authenticity_level(sv, (SignedVideoAuthenticityLevel)c->level) == SV_OK, "golden", "level not set");
  }
  sim_sign_with(sv, &d, spec, out, out->len);
  signed_video_free(sv);
}
#endif
