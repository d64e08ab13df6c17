/* Reference model of the signing side, written from the description of the format:
 *  - a picture NALU is hashed from its header on, without trailing zeros; all but the I-slice that starts
 *    the GOP are hashed once more together with the hash of that I-slice,
 *  - a SEI is generated by each I-slice starting a new GOP, for the GOP just ended; it holds the number of
 *    hashed NALUs, the hash of all hashes, the hash of the I-slice of the GOP before, and (frame level) all hashes,
 *  - the signature signs the hash of the SEI up to the signature. */
#ifndef REF_H
#define REF_H
#include "forge.h"
#include <openssl/evp.h>
#include <openssl/objects.h>
#include <openssl/pem.h>
#include <openssl/rsa.h>

#define REF_MAXH 700
typedef struct {
  unsigned counter;
  int num;
  bool golden, has_ts;
  int64_t ts;
  uint8_t linked[64], gop[64];
  int n; /* number of hashes in |list| */
  uint8_t list[REF_MAXH * 64];
} ref_sei_t;
typedef struct {
  const cfg_t *c;
  const EVP_MD *md;
  unsigned hs;
  unsigned counter;
  bool started; /* an I-slice has been seen */
  uint8_t ref[64], prev[64]; /* hash of the I-slice of this and the previous GOP */
  int n;
  uint8_t list[REF_MAXH * 64];
} ref_t;

static void ref_init(ref_t *r, const cfg_t *c)
{
  r->c = c;
  r->md = EVP_get_digestbyname(c->hash ? c->hash : "sha256");
  r->hs = (unsigned)EVP_MD_size(r->md);
  r->counter = 0;
  r->started = false;
  r->n = 0;
  memset(r->ref, 0, 64);
  memset(r->prev, 0, 64);
}
static void ref_hash(ref_t *r, const uint8_t *d, size_t n, uint8_t *out)
{
  EVP_Digest(d, n, out, NULL, r->md, NULL);
}
static void ref_emit(ref_t *r, const int64_t *ts, ref_sei_t *s)
{
  s->counter = ++r->counter;
  s->num = r->n;
  s->golden = false;
  s->has_ts = ts != NULL;
  s->ts = ts ? *ts : 0;
  memcpy(s->linked, r->prev, 64);
  ref_hash(r, r->list, (size_t)r->n * r->hs, s->gop);
  s->n = r->n;
  memcpy(s->list, r->list, (size_t)r->n * r->hs);
  r->n = 0;
}
/* A NALU is added for signing. Returns true if that generates the SEI |s|. */
static bool ref_add(ref_t *r, char type, const uint8_t *d, size_t n, const int64_t *ts, ref_sei_t *s)
{
  if (!strchr("IiPp", type)) return false;
  size_t off = 0;
  while (off < n && !d[off]) off++;
  off++;
  while (n > off && !d[n - 1]) n--;
  uint8_t h[128];
  bool sei = false;
  if (type == 'I') {
    if (r->started && r->n) {
      ref_emit(r, ts, s);
      sei = true;
    }
    r->started = true;
    memcpy(r->prev, r->ref, 64);
    ref_hash(r, d + off, n - off, r->ref);
    memcpy(h, r->ref, r->hs);
  } else {
    uint8_t b[128];
    memcpy(b, r->ref, r->hs);
    ref_hash(r, d + off, n - off, b + r->hs);
    ref_hash(r, b, 2 * r->hs, h);
  }
  if (r->n >= REF_MAXH) abort();
  memcpy(r->list + (size_t)r->n * r->hs, h, r->hs);
  r->n++;
  return sei;
}

static uint32_t rd32(const uint8_t *p) { return (uint32_t)p[0] << 24 | p[1] << 16 | p[2] << 8 | p[3]; }

/* Is the signature over the SEI valid? */
static bool ref_verify(const uint8_t *d, const sei_t *f, const cfg_t *c)
{
  const tlv_t *t = NULL;
  for (int i = 0; i < f->n; i++)
    if (f->t[i].tag == 5) t = &f->t[i];
  if (!t || t->len < 6) return false;
  const EVP_MD *md = EVP_get_digestbyname(c->hash ? c->hash : "sha256");
  uint8_t h[64];
  EVP_Digest(d + 4, f->sig_off, h, NULL, md, NULL);
  size_t n = t->v[3] << 8 | t->v[4];
  if (n + 5 > t->len) return false;
  static EVP_PKEY *keys[8];
  if (!keys[c->key]) {
    BIO *b = BIO_new_mem_buf(sim_pub_key(c->key), -1);
    keys[c->key] = PEM_read_bio_PUBKEY(b, NULL, NULL, NULL);
    BIO_free(b);
  }
  EVP_PKEY_CTX *x = EVP_PKEY_CTX_new(keys[c->key], NULL);
  bool ok = x && EVP_PKEY_verify_init(x) == 1;
  if (ok && EVP_PKEY_base_id(keys[c->key]) == EVP_PKEY_RSA)
    ok = EVP_PKEY_CTX_set_rsa_padding(x, RSA_PKCS1_PADDING) == 1 && EVP_PKEY_CTX_set_signature_md(x, md) == 1;
  ok = ok && EVP_PKEY_verify(x, t->v + 5, n, h, EVP_MD_size(md)) == 1;
  EVP_PKEY_CTX_free(x);
  return ok;
}

/* Checks everything in a SEI but presence of the recurrent information. */
static void ref_check(const nalu_t *n, const ref_sei_t *e, const cfg_t *c, sei_t *f)
{
  const char *err = sei_parse_mode(n->data, n->size, c->codec, f, !c->no_epb);
  MC_CHECK(!err, "sei_malformed", "SEI %d: %s", n->id, err);
  MC_CHECK(!memcmp(f->uuid, kSvUuid, 16), "sei_uuid", "SEI %d has another UUID", n->id);
  uint8_t want = (c->no_epb ? 0 : 0x80) | (e->golden ? 0x40 : 0) | 0x20 | 0x10;
  MC_CHECK(f->reserved == want, "sei_reserved", "SEI %d: reserved byte %02x, expected %02x", n->id, f->reserved, want);
  if (!c->no_epb)
    for (size_t i = 4; i + 2 < n->size; i++)
      MC_CHECK(n->data[i] || n->data[i + 1] || n->data[i + 2] > 3 || (n->data[i + 2] == 3 && n->data[i + 3] <= 3),
          "sei_emulation", "SEI %d holds %02x %02x %02x at %zu", n->id, 0, 0, n->data[i + 2], i);
  /* Each tag at most once, the signature last. */
  for (int i = 0; i < f->n; i++) {
    for (int j = 0; j < i; j++)
      MC_CHECK(f->t[i].tag != f->t[j].tag, "sei_tags", "SEI %d: tag %d occurs twice", n->id, f->t[i].tag);
    MC_CHECK((f->t[i].tag == 5) == (i == f->n - 1), "sei_tags", "SEI %d: signature is not last", n->id);
  }
  tlv_t *t;
  if (!e->golden) {
    t = sei_tlv(f, 1);
    MC_CHECK(t, "sei_general", "SEI %d: no general information", n->id);
    const EVP_MD *md = EVP_get_digestbyname(c->hash ? c->hash : "sha256");
    size_t hs = (size_t)EVP_MD_size(md);
    size_t len = 11 + (e->has_ts ? 8 : 0) + 2 * hs;
    MC_CHECK(t->len == len && t->v[0] == 3, "sei_general", "SEI %d: general size %zu (expected %zu) version %d", n->id,
        t->len, len, t->v[0]);
    MC_CHECK(rd32(t->v + 1) == e->counter, "sei_counter", "SEI %d: GOP counter %u, expected %u", n->id, rd32(t->v + 1),
        e->counter);
    int num = t->v[5] << 8 | t->v[6];
    MC_CHECK(num == (e->num & 0xffff), "sei_num", "SEI %d signs %d pictures, expected %d", n->id, num, e->num);
    char ver[40];
    snprintf(ver, sizeof(ver), "v%d.%d.%d", t->v[7], t->v[8], t->v[9]);
    MC_CHECK(!strcmp(ver, signed_video_get_version()), "sei_version", "SEI %d: version %s", n->id, ver);
    MC_CHECK(t->v[10] == e->has_ts, "sei_ts", "SEI %d: flags %02x, timestamp expected: %d", n->id, t->v[10], e->has_ts);
    const uint8_t *p = t->v + 11;
    if (e->has_ts) {
      uint64_t ts = (uint64_t)rd32(p) << 32 | rd32(p + 4);
      MC_CHECK((int64_t)ts == e->ts, "sei_ts", "SEI %d: timestamp %lld, expected %lld", n->id, (long long)ts, (long long)e->ts);
      p += 8;
    }
    MC_CHECK(!memcmp(p, e->linked, hs), "sei_linked", "SEI %d: linked hash is not the one of the previous I-slice", n->id);
    MC_CHECK(!memcmp(p + hs, e->gop, hs), "sei_gop_hash", "SEI %d: GOP hash does not match the pictures added", n->id);
    t = sei_tlv(f, 4);
    if (t) {
      MC_CHECK(c->level == SV_AUTHENTICITY_LEVEL_FRAME, "sei_list", "SEI %d: hash list at GOP level", n->id);
      MC_CHECK(t->len == 1 + hs * (size_t)e->n && t->v[0] == 1 && !memcmp(t->v + 1, e->list, hs * e->n), "sei_list",
          "SEI %d: hash list (%zu bytes) does not match the %d pictures added", n->id, t->len, e->n);
    } else if (c->level == SV_AUTHENTICITY_LEVEL_FRAME) {
      size_t would = f->payload_size + 3 + 1 + hs * (size_t)e->n;
      MC_CHECK((c->max_sei && would > (size_t)c->max_sei) || hs * (size_t)e->n > 64 * 300, "sei_list",
          "SEI %d: no hash list though %zu bytes fit", n->id, would);
    }
    if (t && c->max_sei)
      MC_CHECK(f->payload_size <= (size_t)c->max_sei, "sei_size", "SEI %d: payload %zu exceeds %d", n->id, f->payload_size,
          c->max_sei);
  } else
    MC_CHECK(!sei_tlv(f, 1) && !sei_tlv(f, 4), "sei_golden", "golden SEI %d holds information on a GOP", n->id);
  /* Recurrent information comes all together. */
  t = sei_tlv(f, 7);
  bool rec = t != NULL;
  if (t) {
    uint8_t oid[64], *p = oid;
    ASN1_OBJECT *o = OBJ_nid2obj(EVP_MD_type(EVP_get_digestbyname(c->hash ? c->hash : "sha256")));
    int on = i2d_ASN1_OBJECT(o, &p);
    MC_CHECK(t->len == 2 + (size_t)on && t->v[0] == 1 && t->v[1] == on && !memcmp(t->v + 2, oid, on), "sei_crypto",
        "SEI %d: wrong hash algorithm", n->id);
  }
  t = sei_tlv(f, 2);
  MC_CHECK((t != NULL) == (rec && !c->no_pubkey), "sei_pubkey", "SEI %d: public key present: %d", n->id, t != NULL);
  if (t) {
    const char *k = sim_pub_key(c->key);
    size_t kn = strlen(k), tn = t->len - 1;
    while (kn && k[kn - 1] == '\n') kn--;
    while (tn && (t->v[tn] == '\n' || !t->v[tn])) tn--;
    MC_CHECK(t->v[0] == 2 && tn == kn && !memcmp(t->v + 1, k, kn), "sei_pubkey", "SEI %d: wrong public key", n->id);
  }
  t = sei_tlv(f, 3);
  MC_CHECK((t != NULL) == rec, "sei_product", "SEI %d: product info present: %d", n->id, t != NULL);
  if (t && c->product == 0)
    MC_CHECK(t->len == 30 && !memcmp(t->v, "\1\3hw\0\6fw1.2\0\5SN42\0\5manu\0\5addr", 30), "sei_product",
        "SEI %d: wrong product info", n->id);
  t = sei_tlv(f, 5);
  size_t sn = t->v[3] << 8 | t->v[4];
  MC_CHECK(t->len >= 6 && t->v[0] == 1 && t->v[2] == 1 && sn + 5 <= t->len, "sei_signature",
      "SEI %d: signature field malformed", n->id);
  MC_CHECK(ref_verify(n->data, f, c), "sei_signature_invalid", "SEI %d: the signature does not verify", n->id);
  mc_trace_ok();
}
#endif
