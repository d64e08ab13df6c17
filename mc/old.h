/* The older signer: linked hashes, recursive GOP hash. */
#ifndef OLD_H
#define OLD_H
#include "edits.h"
#include "forge.h"
#include "pay.h"
typedef struct {
  cfg_t c; /* codec, level, key, no_epb, recurrence, no_pubkey, ts, salt, pad */
  int ver; /* 0: without timestamps, 1: with, 2: public key without algo */
  int crypto; /* with the hash algorithm in the SEI */
  int first; /* number of the first GOP */
} old_t;
#define HS 32
static void sha(const void *p, size_t n, uint8_t *h) { EVP_Digest(p, n, h, NULL, EVP_sha256(), NULL); }
static void sha2(const uint8_t *a, const uint8_t *b, uint8_t *h)
{
  uint8_t t[2 * HS];
  memcpy(t, a, HS);
  memcpy(t + HS, b, HS);
  sha(t, sizeof(t), h);
}
static void put(tlv_t *t, const void *p, size_t n)
{
  memcpy(t->v + t->len, p, n);
  t->len += n;
}
static void put8(tlv_t *t, int v) { t->v[t->len++] = (uint8_t)v; }
static void puts_(tlv_t *t, const char *s)
{
  put8(t, (int)strlen(s) + 1);
  put(t, s, strlen(s) + 1);
}
static tlv_t *tag(sei_t *f, int tg)
{
  tlv_t *t = &f->t[f->n++];
  t->tag = tg;
  t->len = 0;
  return t;
}
typedef struct {
  uint8_t ref[HS], gop[HS], list[300 * HS];
  int n;
} gop_t;
static void gop_begin(gop_t *g)
{
  uint8_t salt = 1;
  sha(&salt, 1, g->gop);
  g->n = 0;
}
static void gop_add(gop_t *g, const uint8_t *h)
{
  sha2(g->gop, h, g->gop);
  memcpy(g->list + HS * g->n++, h, HS);
}
/* Signs |f|, which ends with a signature TLV to be filled in. */
static nalu_t old_sign(sei_t *f, const old_t *o, const uint8_t *gop_hash, int level)
{
  EVP_PKEY *k = priv(o->c.key);
  size_t max = (size_t)EVP_PKEY_size(k), n = max;
  tlv_t *t = &f->t[f->n - 1];
  t->len = 0;
  put8(t, 1);
  put8(t, 0);
  put8(t, level);
  put8(t, 0);
  put8(t, 0);
  memset(t->v + t->len, 0, max);
  t->len += max;
  /* As transmitted, or without emulation prevention, up to the signature. */
  nalu_t plain = sei_build(f, false);
  size_t end = plain.size - 1 - t->len - 3, m = 0;
  static uint8_t b[80000];
  int z = 0;
  for (size_t i = 4; i < end; i++) {
    if (!o->c.no_epb && z >= 2 && plain.data[i] <= 3) b[m++] = 3, z = 0;
    z = plain.data[i] ? 0 : z + 1;
    b[m++] = plain.data[i];
  }
  uint8_t h[HS], sig[1024];
  sha(b, m, h);
  if (!level) sha2(gop_hash, h, h);
  n = sizeof(sig);
  memset(sig, 0, sizeof(sig));
  EVP_PKEY_CTX *x = EVP_PKEY_CTX_new(k, NULL);
  EVP_PKEY_sign_init(x);
  if (EVP_PKEY_base_id(k) == EVP_PKEY_RSA) {
    EVP_PKEY_CTX_set_rsa_padding(x, RSA_PKCS1_PADDING);
    EVP_PKEY_CTX_set_signature_md(x, EVP_sha256());
  }
  if (EVP_PKEY_sign(x, sig, &n, h, HS) != 1) abort();
  EVP_PKEY_CTX_free(x);
  t->v[3] = (uint8_t)(n >> 8);
  t->v[4] = (uint8_t)n;
  memcpy(t->v + 5, sig, max);
  return sei_build(f, o->c.no_epb != 1);
}
static nalu_t old_sei(const old_t *o, const gop_t *g, uint32_t counter, bool recurrent, int64_t ts)
{
  static sei_t f;
  memset(&f, 0, offsetof(sei_t, t));
  f.codec = o->c.codec;
  memcpy(f.uuid, kSvUuid, 16);
  f.reserved = o->c.no_epb ? 0 : 0x80;
  tlv_t *t = tag(&f, 1);
  put8(t, o->ver ? 2 : 1);
  for (int i = 3; i >= 0; i--) put8(t, (int)(counter >> (8 * i)) & 255);
  put8(t, g->n >> 8);
  put8(t, g->n);
  put8(t, 1);
  put8(t, 1);
  put8(t, 29);
  if (o->ver) {
    put8(t, o->c.ts ? 1 : 0);
    if (o->c.ts)
      for (int i = 7; i >= 0; i--) put8(t, (int)((uint64_t)ts >> (8 * i)) & 255);
  }
  if (recurrent) {
    if (!o->c.no_pubkey) {
      t = tag(&f, 2);
      put8(t, o->ver == 2 ? 2 : 1);
      if (o->ver != 2) put8(t, 1);
      put(t, sim_pub_key(o->c.key), strlen(sim_pub_key(o->c.key)));
    }
    t = tag(&f, 3);
    put8(t, 2);
    puts_(t, "old hardware");
    puts_(t, "1.1.29");
    puts_(t, "serial 7");
    puts_(t, "maker");
    puts_(t, "address");
    if (o->crypto) {
      t = tag(&f, 7);
      static const uint8_t oid[] = {1, 11, 6, 9, 0x60, 0x86, 0x48, 1, 0x65, 3, 4, 2, 1};
      put(t, oid, sizeof(oid));
    }
  }
  if (o->c.level) {
    t = tag(&f, 4);
    put8(t, 1);
    put(t, g->list, (size_t)g->n * HS);
  }
  tag(&f, 5);
  nalu_t n = old_sign(&f, o, g->gop, o->c.level);
  n.ts = ts;
  return n;
}
static int64_t gop_ts(int gop) { return 1000 + 7 * gop; }
/* Signs |spec|. SEI k is prepended to the delay[k]-th NALU after the I-frame that triggers it (0: the I-frame itself). */
static void old_signed(const old_t *o, const char *spec, const char *delay, stream_t *out)
{
  static gop_t g;
  static nalu_t wait[64];
  static int due[64];
  int nw = 0, fw = 0, pos = 0, ngop = 0, nd = (int)strlen(delay);
  bool have_ref = false;
  uint8_t h[HS], hh[HS];
  memset(out, 0, sizeof(*out));
  out->codec = o->c.codec;
  gop_begin(&g);
  for (int i = 0; spec[i]; i++) {
    nalu_t n = sim_nalu(&o->c, spec[i], i);
    n.src = -1;
    if (is_pic(n.type)) {
      n.pos = pos++;
      n.src = 0;
      sha(n.data + 4, n.size - 4, h);
      bool first = n.type == 'I';
      if (first && !have_ref) {
        gop_add(&g, h);
      } else {
        sha2(g.ref, h, hh);
        gop_add(&g, hh);
      }
      if (first) {
        int k = ngop++, at = k < nd ? k : nd - 1;
        wait[nw] = old_sei(o, &g, (uint32_t)(o->first + k + 1), k % (o->c.recurrence ? o->c.recurrence : 1) == 0, gop_ts(k));
        wait[nw].id = k;
        wait[nw].gop = k;
        due[nw++] = i + (nd ? delay[at] - '0' : 0);
        gop_begin(&g);
        memcpy(g.ref, h, HS);
        have_ref = true;
        gop_add(&g, h);
      }
      n.gop = ngop - 1;
    }
    while (fw < nw && due[fw] <= i) sim_append(out, wait[fw++]), out->num_seis++;
    sim_append(out, n);
  }
}
#define MEMO 6000
static struct {
  old_t o;
  char spec[64], delay[16];
  stream_t *s;
} memo[MEMO];
static int memo_n;
static void old_cached(const old_t *o, const char *spec, const char *delay, stream_t *out)
{
  int i;
  for (i = 0; i < memo_n; i++)
    if (!memcmp(&memo[i].o, o, sizeof(*o)) && !strcmp(memo[i].spec, spec) && !strcmp(memo[i].delay, delay)) break;
  if (i < memo_n) {
    sim_copy_stream(out, memo[i].s);
    return;
  }
  old_signed(o, spec, delay, out);
  if (memo_n == MEMO) return;
  memo[i].o = *o;
  strcpy(memo[i].spec, spec);
  strcpy(memo[i].delay, delay);
  memo[i].s = malloc(sizeof(stream_t));
  *memo[i].s = *out;
  for (int k = 0; k < out->len; k++) {
    memo[i].s->n[k].data = malloc(out->n[k].size);
    memcpy(memo[i].s->n[k].data, out->n[k].data, out->n[k].size);
  }
  memo_n++;
}

#endif
