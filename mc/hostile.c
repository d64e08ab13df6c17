/* P21: no input from outside harms the process: no access out of bounds, no undefined behaviour, hang or leak, and
 * nothing becomes authentic by it. */
#include "edits.h"
#include "forge.h"
#include "mem.h"
#include "pay.h"
#include <openssl/err.h>
#include <openssl/evp.h>
#include <openssl/objects.h>
#include <openssl/pem.h>
#include <openssl/rsa.h>
#include <stdio.h>
#include "lib/src/includes/signed_video_helpers.h"

static stream_t S, O;
static run_t R;
static digest_t D;

/* Runs |body|, which must leave no memory behind. */
static void judged(void (*body)(void))
{
  mem_forget();
  ERR_clear_error();
  mem_t a = mem_now();
  body();
  ERR_clear_error();
  mem_t b = mem_now();
  MC_CHECK(b.lib == 0, "leak", "%ld blocks are not freed: %s", b.lib, mem_leaks());
  if (b.ssl > a.ssl) {
    /* First use of something OpenSSL keeps, or a leak? */
    body();
    ERR_clear_error();
    mem_t c = mem_now();
    MC_CHECK(c.ssl <= b.ssl, "leak_openssl", "%ld OpenSSL blocks are not freed", c.ssl - b.ssl);
  }
}

static const char *manual;
static void body_play(void)
{
  sim_play(&S, manual, &R);
}
static void body_helpers(void)
{
  signed_video_t *sv = signed_video_create(S.codec);
  for (int i = 0; i < S.len; i++) {
    if (S.n[i].src >= 0) continue;
    signed_video_is_golden_sei(sv, S.n[i].data, S.n[i].size);
    mc_op();
  }
  signed_video_free(sv);
}
static void play_hostile(bool sound)
{
  judged(body_play);
  judged(body_helpers);
  mc_note("%s", sim_run_str(&R));
  mc_state(run_fp(&R));
  mc_nonvacuous();
  if (sound) oracle_sound(&S, &R, &D);
  mc_trace_ok();
}

/* ---------------------------------------------------------------- scenarios */
static cfg_t C;
static int At;
static const char *kSpec = "IPIPPIPIP";
static void base(int ncodec, int nkey, int nsei)
{
  sim_begin();
  memset(&C, 0, sizeof(C));
  C.codec = mc_choose(ncodec, "codec");
  C.level = mc_choose(2, "level");
  C.key = mc_choose(nkey, "key");
  C.ts = 1;
  C.recurrence = 2;
  C.pad = 2;
  manual = NULL;
  sim_sign_cached(&C, kSpec, NULL, &S);
  At = nth_sei(&S, mc_choose(nsei, "sei"));
}

/* Any byte of a SEI is replaced. */
static void p21_bytes(void)
{
  base(2, mc_tier() ? 2 : 1, 2);
  nalu_t *n = &S.n[At];
  int x = 4 + mc_choose((int)n->size - 4, "byte");
  int old = n->data[x];
  int v = mc_tier() ? mc_choose(256, "value") : value(mc_choose(NVAL, "value"), old);
  if (v == old) mc_prune();
  n->data[x] = (uint8_t)v;
  n->src = -1;
  mc_note("codec %d level %d SEI %d byte %d: %02x -> %02x", C.codec, C.level, At, x, old, v);
  play_hostile(true);
}
/* Any byte of the content of a SEI is replaced by someone who signs with a key of his own (or is the camera). */
static void p21_signed(void)
{
  base(mc_tier() ? 2 : 1, 1, 2);
  pay_get(&S.n[At], C.codec, &Y);
  int x = 16 + mc_choose((int)Y.sig - 16, "byte");
  int old = Y.p[x];
  int v = mc_tier() ? mc_choose(256, "value") : value(mc_choose(NVAL, "value"), old);
  if (v == old) mc_prune();
  Y.p[x] = (uint8_t)v;
  bool epb = x != 16 || (v & 0x80);
  pay_sign(&Y, 0, EVP_sha256(), epb, -1);
  S.n[At] = pay_nalu(&Y, true, epb, -1);
  mc_note("codec %d level %d SEI %d payload byte %d: %02x -> %02x, signed", C.codec, C.level, At, x, old, v);
  /* The pictures are those which were signed, hence whatever he claims otherwise cannot make others authentic. */
  play_hostile(false);
}
/* Any field gets any length, its content cut or extended, signed. */
static void p21_fields(void)
{
  base(mc_tier() ? 2 : 1, 1, 2);
  static sei_t F;
  const char *w = sei_parse(S.n[At].data, S.n[At].size, C.codec, &F);
  if (w) mc_fail("sei_malformed", "%s", w);
  int t = mc_choose(F.n - 1, "tlv"), op = mc_choose(4, "op");
  tlv_t *f = &F.t[t];
  size_t len = f->len;
  if (op == 0) { /* cut */
    len = (size_t)mc_choose((int)len, "len");
  } else if (op == 1) { /* extended */
    static const int kAdd[] = {1, 2, 3, 8, 31, 32, 33, 64, 100, 150, 1000, 19200, 19201};
    size_t add = kAdd[mc_choose(13, "add")];
    size_t max = tag_len_bytes(f->tag) == 1 ? 255 : 19990;
    if (len + add > max) mc_prune();
    int fill = mc_choose(3, "fill");
    for (size_t i = 0; i < add; i++) f->v[len + i] = fill == 0 ? 0 : fill == 1 ? 0xff : (uint8_t)(1 + i % 7);
    len += add;
  } else if (op == 2) { /* repeated before or after all others, or instead of another */
    int other = mc_choose(F.n, "other");
    if (other == t || F.t[other].tag == 5) mc_prune();
    F.t[other] = *f;
    f = NULL;
  } else { /* removed */
    memmove(f, f + 1, sizeof(tlv_t) * (F.n - t - 1));
    F.n--;
    f = NULL;
  }
  if (f) f->len = len;
  nalu_t n = sei_build(&F, true);
  pay_get(&n, C.codec, &Y);
  pay_sign(&Y, 0, EVP_sha256(), true, -1);
  S.n[At] = pay_nalu(&Y, true, true, -1);
  mc_note("level %d SEI %d field %d op %d len %zu", C.level, At, t, op, len);
  play_hostile(false);
}
/* The content ends anywhere, with the length of the payload adjusted or not, and with a signature or not. */
static void p21_truncated(void)
{
  base(2, 1, 2);
  int how = mc_choose(5, "how");
  pay_get(&S.n[At], C.codec, &Y);
  if (how == 0) { /* the NALU is cut */
    size_t n = 1 + (size_t)mc_choose((int)S.n[At].size - 1, "size");
    S.n[At] = raw_nalu(S.n[At].data, n);
  } else {
    long full = (long)Y.n;
    size_t n = (size_t)mc_choose(how < 3 ? (int)Y.n : (int)Y.sig, "size");
    Y.n = n;
    if (how == 1) S.n[At] = pay_nalu(&Y, true, true, -1);
    else if (how == 2) S.n[At] = pay_nalu(&Y, false, true, full); /* claims more than there is */
    else if (how == 3) { /* a signature follows at once */
      Y.sig = n;
      pay_sign(&Y, 0, EVP_sha256(), true, -1);
      S.n[At] = pay_nalu(&Y, true, true, -1);
    } else { /* without emulation prevention */
      if (n > 16) Y.p[16] &= 0x7f;
      Y.sig = n;
      pay_sign(&Y, 0, EVP_sha256(), false, -1);
      S.n[At] = pay_nalu(&Y, true, false, -1);
    }
    mc_note("codec %d level %d SEI %d: %zu bytes of %ld, how %d", C.codec, C.level, At, n, full, how);
  }
  play_hostile(false);
}
/* The signature itself. */
static void p21_signature(void)
{
  base(1, 2, 2);
  pay_get(&S.n[At], C.codec, &Y);
  int op = mc_choose(3, "op");
  uint8_t *p = Y.p + Y.sig;
  if (op == 0) { /* any length of the field */
    int len = mc_choose(1030, "len");
    p[1] = (uint8_t)(len >> 8);
    p[2] = (uint8_t)len;
    if (mc_choose(2, "content")) {
      memset(p + 3 + 5, 0x55, (size_t)len + 5);
      Y.n = Y.sig + 3 + (size_t)len;
    }
  } else if (op == 1) { /* any claimed size of the signature */
    int len = mc_choose(700, "size");
    if (len >= 600) len = 65535 - (len - 600);
    p[6] = (uint8_t)(len >> 8);
    p[7] = (uint8_t)len;
  } else { /* a signature of any size */
    int len = mc_choose(600, "size");
    p[1] = (uint8_t)((len + 5) >> 8);
    p[2] = (uint8_t)(len + 5);
    p[6] = (uint8_t)(len >> 8);
    p[7] = (uint8_t)len;
    for (int i = 0; i < len; i++) p[8 + i] = (uint8_t)(i * 7 + 1);
    Y.n = Y.sig + 8 + (size_t)len;
  }
  S.n[At] = pay_nalu(&Y, true, true, -1);
  mc_note("level %d SEI %d signature op %d", C.level, At, op);
  play_hostile(true);
}
/* Short payloads: UUID followed by any short sequence of bytes, before, instead of, or between genuine SEIs. */
static void p21_short(void)
{
  sim_begin();
  memset(&C, 0, sizeof(C));
  C.codec = mc_choose(2, "codec");
  C.recurrence = 2;
  manual = NULL;
  int where = mc_choose(3, "where");
  if (where) sim_sign_cached(&C, "IPIPIP", NULL, &S);
  else {
    S.codec = C.codec;
    S.len = 0;
    sim_append(&S, sim_nalu(&C, 'I', 0));
    sim_append(&S, sim_nalu(&C, 'P', 1));
  }
  static const uint8_t alpha[] = {0, 1, 2, 3, 4, 5, 6, 7, 0x81, 0xff, 0x30};
  int n = mc_choose(mc_tier() ? 6 : 5, "len");
  memcpy(Y.p, kSvUuid, 16);
  static const uint8_t kRes[] = {0x00, 0x80, 0x40, 0xc0, 0x30, 0xb0, 0x70, 0xf0};
  Y.codec = C.codec;
  Y.p[16] = kRes[mc_choose(mc_tier() ? 8 : 4, "reserved") + (mc_tier() ? 0 : 4)];
  for (int i = 0; i < n; i++) Y.p[17 + i] = alpha[mc_choose(mc_tier() ? 11 : 9, "byte")];
  Y.n = 17 + (size_t)n;
  nalu_t x = pay_nalu(&Y, mc_choose(2, "stop"), Y.p[16] & 0x80, -1);
  int at = where == 0 ? 2 : where == 1 ? nth_sei(&S, 0) : nth_sei(&S, 1);
  sim_insert(&S, at, x);
  if (!where) sim_append(&S, sim_nalu(&C, 'I', 2));
  mc_note("codec %d where %d reserved %02x %d bytes", C.codec, where, Y.p[16], n);
  play_hostile(false);
}
/* NALUs of a few bytes, for every consumer of NALUs. */
static uint8_t Tb[16];
static size_t Tn;
static int Tw;
static void body_tiny(void)
{
  uint8_t *d = malloc(Tn ? Tn : 1);
  memcpy(d, Tb, Tn);
  signed_video_t *sv = NULL;
  signed_video_authenticity_t *a = NULL;
  if (Tw == 0) {
    sv = signed_video_create(C.codec);
    int rc = signed_video_add_nalu_and_authenticate(sv, d, Tn, &a);
    MC_CHECK(rc >= -100 && rc <= 0, "return_code", "unknown return code %d", rc);
    signed_video_authenticity_report_free(a);
    a = signed_video_get_authenticity_report(sv);
    if (a) MC_CHECK(a->accumulated_validation.authenticity == SV_AUTH_RESULT_NOT_SIGNED || a->accumulated_validation.authenticity == SV_AUTH_RESULT_NOT_OK || a->accumulated_validation.authenticity == SV_AUTH_RESULT_SIGNATURE_PRESENT, "tiny_ok", "%zu bytes are %s", Tn, auth_str(a->accumulated_validation.authenticity));
    signed_video_authenticity_report_free(a);
    signed_video_is_golden_sei(sv, d, Tn);
    signed_video_parse_sei(d, Tn, C.codec);
  } else {
    sv = sim_signer(&C);
    const nalu_t *I = &O.n[0];
    for (int k = 0; k < 2; k++) {
      signed_video_add_nalu_for_signing_with_timestamp(sv, d, Tn, NULL);
      size_t n = 0;
      signed_video_get_sei(sv, NULL, &n, NULL, d, Tn, NULL);
      signed_video_add_nalu_for_signing_with_timestamp(sv, I->data, I->size, NULL);
      signed_video_add_nalu_part_for_signing_with_timestamp(sv, d, Tn, NULL, true);
      signed_video_add_nalu_part_for_signing_with_timestamp(sv, d, Tn, NULL, false);
      mc_op();
    }
  }
  mc_op();
  signed_video_free(sv);
  free(d);
}
static void p21_tiny(void)
{
  sim_begin();
  memset(&C, 0, sizeof(C));
  C.codec = mc_choose(2, "codec");
  Tw = mc_choose(2, "consumer");
  static const uint8_t alpha[] = {0, 1, 6, 0x4e, 0x80, 0x25, 0x26, 0x21, 0x02, 0x41, 3, 5, 0xff};
  int na = Tw ? (mc_tier() ? 10 : 8) : (mc_tier() ? 13 : 11);
  int pre = mc_choose(3, "start");
  Tn = 0;
  if (pre) {
    if (pre == 2) Tb[Tn++] = 0;
    Tb[Tn++] = 0;
    Tb[Tn++] = 0;
    Tb[Tn++] = 1;
  }
  int n = mc_choose((Tw ? 4 : 5) + (mc_tier() && !Tw), "len");
  for (int i = 0; i < n; i++) Tb[Tn++] = alpha[mc_choose(na, "byte")];
  O.len = 0;
  O.codec = C.codec;
  sim_append(&O, sim_nalu(&C, 'I', 0));
  mc_note("codec %d consumer %d: %zu bytes", C.codec, Tw, Tn);
  judged(body_tiny);
  mc_nonvacuous();
  mc_trace_ok();
}
/* Any NALU cut anywhere, to validate or to sign. */
static void body_sign(void)
{
  signed_video_t *sv = sim_signer(&C);
  size_t n = 0;
  for (int i = 0; i < S.len; i++) {
    signed_video_add_nalu_for_signing_with_timestamp(sv, S.n[i].data, S.n[i].size, NULL);
    mc_op();
    signed_video_get_sei(sv, NULL, &n, NULL, S.n[i].data, S.n[i].size, NULL);
    if (n) {
      uint8_t *b = malloc(n);
      signed_video_get_sei(sv, b, &n, NULL, S.n[i].data, S.n[i].size, NULL);
      free(b);
    }
  }
  signed_video_free(sv);
}
static void p21_cut(void)
{
  sim_begin();
  memset(&C, 0, sizeof(C));
  C.codec = mc_choose(2, "codec");
  C.level = mc_choose(2, "level");
  C.pad = 10;
  manual = NULL;
  sim_sign_cached(&C, "VIPAIPPIZPI", NULL, &S);
  int at = mc_choose(S.len, "at");
  if (S.n[at].type == 'S') mc_prune();
  size_t k = 1 + (size_t)mc_choose((int)S.n[at].size - 1, "size");
  nalu_t n = raw_nalu(S.n[at].data, k);
  n.type = S.n[at].type;
  S.n[at] = n;
  mc_note("codec %d level %d NALU %d cut to %zu bytes", C.codec, C.level, at, k);
  if (mc_choose(2, "side")) judged(body_sign), mc_nonvacuous();
  else {
    /* What is left may be all there was but zeros. */
    bool same = true;
    for (size_t i = k; i < O.n[at].size && false; i++) same &= O.n[at].data[i] == 0;
    play_hostile(false);
    mc_state(same);
  }
}
/* Emulation prevention patterns anywhere in the transmitted SEI. */
static void p21_epb(void)
{
  base(mc_tier() ? 2 : 1, 1, 2);
  nalu_t *o = &S.n[At];
  static const uint8_t k[8][4] = {{0, 0, 3, 0}, {0, 0, 3, 3}, {0, 0, 0, 0}, {0, 0, 0, 3}, {0, 0, 1, 6}, {0, 0, 2, 0}, {3, 0, 0, 3}, {0, 3, 0, 0}};
  int pat = mc_choose(8, "pattern"), len = 1 + mc_choose(4, "len"), mode = mc_choose(3, "mode");
  int x = 4 + mc_choose((int)o->size - 4, "byte");
  static uint8_t b[20000];
  size_t n = o->size;
  memcpy(b, o->data, n);
  if (mode == 0) { /* inserted */
    memmove(b + x + len, b + x, n - x);
    n += len;
  } else if (mode == 1) { /* overwritten */
    if (x + len > (int)n) mc_prune();
  } else { /* the NALU ends with it */
    n = (size_t)(x + len);
  }
  memcpy(b + x, k[pat], len);
  S.n[At] = raw_nalu(b, n);
  mc_note("codec %d level %d pattern %d of length %d at %d mode %d", C.codec, C.level, pat, len, x, mode);
  play_hostile(true);
}
/* Keys and hash algorithms of all kinds, signed where possible. */
#include "oddkeys.h"
static void p21_crypto(void)
{
  base(1, 2, 1);
  static sei_t F;
  sei_parse(S.n[At].data, S.n[At].size, C.codec, &F);
  int op = mc_choose(2, "op");
  static const int kNid[] = {NID_sha256, NID_md5, NID_sha1, NID_sha224, NID_sha384, NID_sha512, NID_sha512_224, NID_sha3_256, NID_sha3_512, NID_shake128, NID_shake256, NID_blake2b512,
      NID_blake2s256, NID_sm3, NID_rsaEncryption, NID_X9_62_prime256v1, NID_md5_sha1, NID_mdc2, NID_ripemd160, NID_hmacWithSHA256, NID_ecdsa_with_SHA256, NID_aes_128_cbc, NID_undef};
  if (op == 0) {
    int k = mc_choose(23, "nid");
    uint8_t oid[100], *p = oid;
    ASN1_OBJECT *o = OBJ_nid2obj(kNid[k]);
    int n = o && kNid[k] ? i2d_ASN1_OBJECT(o, &p) : 0;
    tlv_t *t = sei_tlv(&F, 7);
    if (n < 0) n = 0;
    int len = n + mc_choose(5, "claimed") - 2;
    if (len < 0) mc_prune();
    t->v[1] = (uint8_t)len;
    memcpy(t->v + 2, oid, n);
    t->len = 2 + (size_t)n;
    mc_note("hash algorithm %s, size %d of %d", OBJ_nid2sn(kNid[k]), len, n);
  } else {
    int k = mc_choose(kNumOddKeys, "key");
    tlv_t *t = sei_tlv(&F, 2);
    t->v[0] = (uint8_t)mc_choose(4, "version");
    size_t n = strlen(kOddKeys[k]);
    memcpy(t->v + 1, kOddKeys[k], n);
    t->len = 1 + n;
    mc_note("key %d", k);
  }
  nalu_t n = sei_build(&F, true);
  pay_get(&n, C.codec, &Y);
  if (op == 0) pay_sign(&Y, C.key, EVP_sha256(), true, -1);
  int all = mc_choose(2, "all");
  S.n[At] = pay_nalu(&Y, true, true, -1);
  if (all) { /* all SEIs are like that */
    for (int i = At + 1; i < S.len; i++)
      if (S.n[i].type == 'S') {
        S.n[i] = pay_nalu(&Y, true, true, -1);
      }
  }
  play_hostile(false);
}
/* Numbers in the general information, signed. */
static void p21_numbers(void)
{
  base(1, 1, 3);
  static sei_t F;
  sei_parse(S.n[At].data, S.n[At].size, C.codec, &F);
  static const uint32_t k[] = {0, 1, 2, 3, 4, 5, 0x7f, 0x80, 0xff, 0x100, 299, 300, 301, 0x7fff, 0x8000, 0xfffe, 0xffff, 0x10000, 0x7fffffff, 0x80000000, 0xfffffffe, 0xffffffff};
  tlv_t *t = sei_tlv(&F, 1);
  uint32_t g = k[mc_choose(22, "counter")], m = k[mc_choose(17, "pictures")];
  if (mc_choose(2, "keep counter")) {
    if (g) mc_prune();
  } else
    for (int i = 0; i < 4; i++) t->v[1 + i] = (uint8_t)(g >> (24 - 8 * i));
  t->v[5] = (uint8_t)(m >> 8);
  t->v[6] = (uint8_t)m;
  int list = mc_choose(7, "list");
  static const int kLen[] = {-1, 0, 1, 32, 33, 32 * 300, 32 * 600};
  tlv_t *h = sei_tlv(&F, 4);
  if (list && !h) mc_prune();
  if (list) {
    if (kLen[list] == 32 * 600 && sizeof(h->v) < 32 * 600 + 1) mc_prune();
    for (int i = 97; i < kLen[list]; i++) h->v[1 + i] = (uint8_t)(i * 13);
    h->len = 1 + (size_t)kLen[list];
  }
  nalu_t n = sei_build(&F, true);
  pay_get(&n, C.codec, &Y);
  pay_sign(&Y, 0, EVP_sha256(), true, -1);
  S.n[At] = pay_nalu(&Y, true, true, -1);
  mc_note("level %d SEI %d counter %u pictures %u list %d", C.level, At, g, m, kLen[list]);
  play_hostile(false);
}

static const char *const kAssume[] = {
    "Whatever arrives is held in a heap block of exactly its size, so that AddressSanitizer sees every access out of bounds.",
    "The attacker may hold a key of his own and put it in the SEIs; then his signatures are valid.", NULL};
static const mc_scenario kP21[] = {
    {"bytes", p21_bytes, "every byte of 2 SEIs replaced by 24 values (thorough: all 255, also RSA), both codecs and levels", 0, 0, -1, 0},
    {"signed", p21_signed, "every byte of the content of 2 SEIs replaced by 24 values (thorough: all 255), signed by the attacker, both levels", 0, 0, -1, 0},
    {"fields", p21_fields, "every field of 2 SEIs cut to every length, extended by 13 lengths x 3 fillings, copied over every other field, removed; signed by the attacker", 0, 0, -1, 0},
    {"truncated", p21_truncated, "2 SEIs cut at every byte: as is, with adjusted or excessive payload size, with a valid signature following, with and without emulation prevention; both codecs and levels", 0, 0, -1, 0},
    {"signature", p21_signature, "every length (0-1029) of the signature field, every claimed size (0-599, 65436-65535), and every real size 0-599, EC and RSA, both levels", 0, 0, -1, 0},
    {"short", p21_short, "a SEI with the right UUID followed by all sequences up to 4 (5) bytes from 9 (11) significant values, 4 (8) reserved bytes, with and without stop byte, at 3 places", 0, 0, -1, 0},
    {"tiny", p21_tiny, "all NALUs up to 4 (5) bytes from 11 (13) significant values, without and with both kinds of start codes, to validate, to test for golden SEI, to sign, sign in parts and to peek", 0, 0, -1, 0},
    {"cut", p21_cut, "each non-SEI NALU of a video cut at every byte, on the signing and validation side, both codecs and levels", 0, 0, -1, 0},
    {"epb", p21_epb, "8 emulation prevention patterns of 1-4 bytes inserted at, written to, or ending the SEI at every byte of 2 SEIs, both levels (thorough: both codecs)", 0, 0, -1, 0},
    {"crypto", p21_crypto, "23 object identifiers x 5 claimed sizes as hash algorithm, odd public keys x 4 versions, EC and RSA, in one or all SEIs", 0, 0, -1, 0},
    {"numbers", p21_numbers, "22 GOP counters x 17 picture counts x 7 sizes of the hash list in each of 3 SEIs, signed by the attacker", 0, 0, -1, 0},
};
#define PROP(id, as, sc) {id, as, sc, sizeof(sc) / sizeof(sc[0])}
static const mc_property kProps[] = {
    PROP("P21", kAssume, kP21),
};
int main(int argc, char **argv)
{
  mem_init();
  sim_init();
  return mc_main(argc, argv, kProps, sizeof(kProps) / sizeof(kProps[0]));
}
