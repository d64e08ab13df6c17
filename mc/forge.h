/* Independent SEI (de)serializer, written from the description of the format: start code, NALU header,
 * payload type 5, payload size, UUID, reserved byte, TLVs, stop byte; emulation prevention on top. */
#ifndef FORGE_H
#define FORGE_H
#include "sim.h"
#define F_MAXTLV 24
typedef struct {
  int tag;
  size_t len;
  uint8_t v[20000];
} tlv_t;
typedef struct {
  SignedVideoCodec codec;
  uint8_t uuid[16];
  uint8_t reserved;
  int n;
  tlv_t t[F_MAXTLV];
  int num_epb; /* emulation prevention bytes found when parsing */
  size_t payload_size;
  size_t sig_off; /* offset in the NALU without start code (as transmitted) of the signature TLV */
} sei_t;

static const uint8_t kSvUuid[16] = {0x53, 0x69, 0x67, 0x6e, 0x65, 0x64, 0x20, 0x56, 0x69, 0x64, 0x65, 0x6f, 0x2e, 0x2e, 0x2e, 0x30};

static inline int tag_len_bytes(int tag)
{
  return tag == 1 || tag == 7 ? 1 : 2;
}

/* Returns NULL if the SEI is well formed, otherwise what is wrong. */
static const char *sei_parse_mode(const uint8_t *d, size_t n, SignedVideoCodec codec, sei_t *f, bool epb)
{
  static uint8_t b[70000];
  static size_t org[70000];
  f->codec = codec;
  f->n = 0;
  f->num_epb = 0;
  if (n < 30) return "too short";
  if (memcmp(d, "\0\0\0\1", 4)) return "no 4 byte start code";
  if (d[n - 1] != 0x80) return "no stop byte";
  size_t m = 0;
  int z = 0;
  for (size_t i = 4; i < n; i++) {
    if (epb && z >= 2 && d[i] == 3) {
      f->num_epb++;
      z = 0;
      continue;
    }
    z = d[i] ? 0 : z + 1;
    org[m] = i - 4;
    b[m++] = d[i];
  }
  size_t p = 0;
  if (codec == SV_CODEC_H264) {
    if (b[p++] != 0x06) return "bad NALU header";
  } else {
    if (b[p++] != 0x4e || b[p++] != 0x01) return "bad NALU header";
  }
  if (b[p++] != 5) return "not user data unregistered";
  size_t ps = 0;
  while (p < m && b[p] == 0xff) ps += b[p++];
  if (p >= m) return "bad payload size";
  ps += b[p++];
  f->payload_size = ps;
  if (p + ps + 1 != m) return "payload size does not match";
  memcpy(f->uuid, b + p, 16);
  p += 16;
  f->reserved = b[p++];
  size_t end = m - 1;
  while (p < end) {
    if (f->n == F_MAXTLV) return "too many TLVs";
    tlv_t *t = &f->t[f->n++];
    if (b[p] == 5) f->sig_off = org[p];
    t->tag = b[p++];
    if (p + tag_len_bytes(t->tag) > end) return "truncated TLV header";
    t->len = b[p++];
    if (tag_len_bytes(t->tag) == 2) t->len = t->len << 8 | b[p++];
    if (p + t->len > end || t->len > sizeof(t->v)) return "truncated TLV value";
    memcpy(t->v, b + p, t->len);
    p += t->len;
  }
  return NULL;
}

static const char *sei_parse(const uint8_t *d, size_t n, SignedVideoCodec codec, sei_t *f)
{
  return sei_parse_mode(d, n, codec, f, true);
}

static tlv_t *sei_tlv(sei_t *f, int tag)
{
  for (int i = 0; i < f->n; i++)
    if (f->t[i].tag == tag) return &f->t[i];
  return NULL;
}

/* Serialize. |epb|: apply emulation prevention. Returns NALU with 4 byte start code. */
static nalu_t sei_build(const sei_t *f, bool epb)
{
  static uint8_t b[70000], o[110000];
  size_t m = 0, ps = 17;
  for (int i = 0; i < f->n; i++) ps += 1 + tag_len_bytes(f->t[i].tag) + f->t[i].len;
  if (f->codec == SV_CODEC_H264) b[m++] = 0x06;
  else b[m++] = 0x4e, b[m++] = 0x01;
  b[m++] = 5;
  size_t l = ps;
  while (l >= 255) b[m++] = 0xff, l -= 255;
  b[m++] = (uint8_t)l;
  memcpy(b + m, f->uuid, 16);
  m += 16;
  b[m++] = f->reserved;
  for (int i = 0; i < f->n; i++) {
    const tlv_t *t = &f->t[i];
    b[m++] = (uint8_t)t->tag;
    if (tag_len_bytes(t->tag) == 2) b[m++] = (uint8_t)(t->len >> 8);
    b[m++] = (uint8_t)t->len;
    memcpy(b + m, t->v, t->len);
    m += t->len;
  }
  b[m++] = 0x80;
  size_t n = 0;
  o[n++] = 0; o[n++] = 0; o[n++] = 0; o[n++] = 1;
  int z = 0;
  for (size_t i = 0; i < m; i++) {
    if (epb && z >= 2 && b[i] <= 3) o[n++] = 3, z = 0;
    z = b[i] ? 0 : z + 1;
    o[n++] = b[i];
  }
  nalu_t r = {0};
  r.data = sim_alloc(n);
  memcpy(r.data, o, n);
  r.size = n;
  r.type = 'S';
  r.src = -1;
  r.pos = -1;
  return r;
}
#endif
