/* Payload of a SEI as raw bytes, changed at will and signed by the attacker. */
#ifndef PAY_H
#define PAY_H
#include "forge.h"
#include <openssl/evp.h>
#include <openssl/pem.h>
#include <openssl/rsa.h>
typedef struct {
  SignedVideoCodec codec;
  uint8_t p[70000];
  size_t n;
  size_t sig; /* offset of the signature TLV */
} pay_t;
static pay_t Y;
static void pay_get(const nalu_t *n, SignedVideoCodec codec, pay_t *y)
{
  y->codec = codec;
  size_t m = 0, i = codec == SV_CODEC_H264 ? 6 : 7;
  while (n->data[i] == 0xff) i++;
  int z = 0;
  for (i++; i < n->size; i++) {
    if (z >= 2 && n->data[i] == 3) {
      z = 0;
      continue;
    }
    z = n->data[i] ? 0 : z + 1;
    y->p[m++] = n->data[i];
  }
  y->n = m - 1;
  size_t k = 17;
  while (k < y->n && y->p[k] != 5) {
    int t = y->p[k];
    k += tag_len_bytes(t) == 1 ? 2 + (size_t)y->p[k + 1] : 3 + (size_t)(y->p[k + 1] << 8 | y->p[k + 2]);
  }
  y->sig = k;
}
static uint8_t Ob[120000];
/* As transmitted, from the NALU header to |upto| bytes of the payload. */
static size_t pay_bytes(const pay_t *y, size_t upto, bool stop, bool epb, size_t size)
{
  static uint8_t b[80000];
  size_t m = 0;
  if (y->codec == SV_CODEC_H264) b[m++] = 6;
  else b[m++] = 0x4e, b[m++] = 1;
  b[m++] = 5;
  while (size >= 255) b[m++] = 255, size -= 255;
  b[m++] = (uint8_t)size;
  memcpy(b + m, y->p, upto);
  m += upto;
  if (stop) b[m++] = 0x80;
  size_t o = 0;
  int z = 0;
  for (size_t i = 0; i < m; i++) {
    if (epb && z >= 2 && b[i] <= 3) Ob[o++] = 3, z = 0;
    z = b[i] ? 0 : z + 1;
    Ob[o++] = b[i];
  }
  return o;
}
static EVP_PKEY *priv(int key)
{
  static EVP_PKEY *k[8];
  if (!k[key]) {
    BIO *b = BIO_new_mem_buf(sim_priv_key(key), -1);
    k[key] = PEM_read_bio_PrivateKey(b, NULL, NULL, NULL);
    BIO_free(b);
  }
  return k[key];
}
static size_t sign_hash(int key, const EVP_MD *md, const uint8_t *h, uint8_t *out)
{
  size_t n = 1024;
  EVP_PKEY_CTX *x = EVP_PKEY_CTX_new(priv(key), NULL);
  EVP_PKEY_sign_init(x);
  if (EVP_PKEY_base_id(priv(key)) == EVP_PKEY_RSA) {
    EVP_PKEY_CTX_set_rsa_padding(x, RSA_PKCS1_PADDING);
    EVP_PKEY_CTX_set_signature_md(x, md);
  }
  if (EVP_PKEY_sign(x, out, &n, h, (size_t)EVP_MD_size(md)) != 1) abort();
  EVP_PKEY_CTX_free(x);
  return n;
}
/* The attacker signs what he made. The payload ends after the signature. */
static void pay_sign(pay_t *y, int key, const EVP_MD *md, bool epb, long size)
{
  uint8_t s[1024], h[64];
  size_t max = key == 1 || key == 3 ? (size_t)EVP_PKEY_size(priv(key)) : (size_t)EVP_PKEY_size(priv(key));
  y->n = y->sig + 3 + 5 + max;
  size_t n = pay_bytes(y, y->sig, false, epb, size < 0 ? y->n : (size_t)size);
  EVP_Digest(Ob, n, h, NULL, md, NULL);
  memset(s, 0, sizeof(s));
  n = sign_hash(key, md, h, s);
  uint8_t *p = y->p + y->sig;
  *p++ = 5;
  *p++ = (uint8_t)((5 + max) >> 8);
  *p++ = (uint8_t)(5 + max);
  *p++ = 1;
  *p++ = 0;
  *p++ = 1;
  *p++ = (uint8_t)(n >> 8);
  *p++ = (uint8_t)n;
  memcpy(p, s, max);
}
static nalu_t raw_nalu(const uint8_t *d, size_t n)
{
  nalu_t r = {0};
  r.data = sim_alloc(n);
  memcpy(r.data, d, n);
  r.size = n;
  r.type = 'S';
  r.src = -1;
  r.pos = -1;
  return r;
}
static nalu_t pay_nalu(const pay_t *y, bool stop, bool epb, long size)
{
  size_t n = pay_bytes(y, y->n, stop, epb, size < 0 ? y->n : (size_t)size);
  static uint8_t b[130000];
  memcpy(b, "\0\0\0\1", 4);
  memcpy(b + 4, Ob, n);
  return raw_nalu(b, n + 4);
}
static int nth_sei(const stream_t *s, int k)
{
  for (int i = 0; i < s->len; i++)
    if (s->n[i].type == 'S' && k-- == 0) return i;
  return -1;
}

/* Bytes of interest for any field; the second half relative to the present value. */
static int value(int i, int v)
{
  static const uint8_t k[] = {0, 1, 2, 3, 4, 5, 6, 7, 8, 0x0f, 0x10, 0x20, 0x21, 0x40, 0x7f, 0x80, 0x81, 0x82, 0xfe, 0xff};
  if (i < 20) return k[i];
  return (v + (i == 20 ? 1 : i == 21 ? -1 : i == 22 ? 2 : 0x40)) & 255;
}
#define NVAL 24
#endif
