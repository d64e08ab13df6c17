#define OPENSSL_SUPPRESS_DEPRECATED
#include "sim.h"
#include <openssl/rand.h>
#include <stdio.h>
#include "keys.h"

const char *sim_priv_key(int k)
{
  const char *t[] = {KEY_EC1, KEY_RSA1, KEY_EC2, KEY_RSA2, KEY_EC3, KEY_EC4};
  return t[k];
}
const char *sim_pub_key(int k)
{
  const char *t[] = {PUB_EC1, PUB_RSA1, PUB_EC2, PUB_RSA2, PUB_EC3, PUB_EC4};
  return t[k];
}

/* --- deterministic randomness --- */
static uint64_t rng;
static int det_bytes(unsigned char *buf, int num)
{
  for (int i = 0; i < num; i++) {
    rng ^= rng << 13;
    rng ^= rng >> 7;
    rng ^= rng << 17;
    buf[i] = (unsigned char)(rng >> 24);
  }
  return 1;
}
static int det_status(void) { return 1; }
static int det_seed(const void *b, int n) { (void)b; (void)n; return 1; }
static int det_add(const void *b, int n, double d) { (void)b; (void)n; (void)d; return 1; }
static RAND_METHOD det = {det_seed, det_bytes, NULL, det_add, det_bytes, det_status};

void sim_init(void) { RAND_set_rand_method(&det); rng = 88172645463325252ull; }

uint64_t sim_rng(const uint64_t *set)
{
  if (set) rng = *set;
  return rng;
}

/* --- arena --- */
static uint8_t **arena;
static size_t arena_n, arena_cap;
uint8_t *sim_alloc(size_t n)
{
  uint8_t *p = malloc(n ? n : 1);
  if (arena_n == arena_cap) {
    arena_cap = arena_cap ? arena_cap * 2 : 1024;
    arena = realloc(arena, arena_cap * sizeof(*arena));
  }
  arena[arena_n++] = p;
  return p;
}
void sim_begin(void)
{
  for (size_t i = 0; i < arena_n; i++) free(arena[i]);
  arena_n = 0;
  rng = 88172645463325252ull;
  mcp_reset();
}

nalu_t sim_nalu_copy(const nalu_t *n)
{
  nalu_t r = *n;
  r.data = sim_alloc(n->size);
  memcpy(r.data, n->data, n->size);
  return r;
}

nalu_t sim_nalu(const cfg_t *c, char type, int id)
{
  static uint8_t b[300000];
  int n = 0;
  bool h264 = c->codec == SV_CODEC_H264;
  b[n++] = 0; b[n++] = 0; b[n++] = 0; b[n++] = 1;
  bool pic = false;
  switch (type) {
    case 'I':
      if (h264) b[n++] = 0x65; else b[n++] = 0x26, b[n++] = 0x01;
      b[n++] = 0x80; pic = true; break;
    case 'i':
      if (h264) b[n++] = 0x65; else b[n++] = 0x26, b[n++] = 0x01;
      b[n++] = 0x40; pic = true; break;
    case 'P':
      if (h264) b[n++] = 0x41; else b[n++] = 0x02, b[n++] = 0x01;
      b[n++] = 0x9a; pic = true; break;
    case 'p':
      if (h264) b[n++] = 0x01; else b[n++] = 0x00, b[n++] = 0x01;
      b[n++] = 0x1a; pic = true; break;
    case 'V': /* PPS */
      if (h264) b[n++] = 0x68; else b[n++] = 0x44, b[n++] = 0x01;
      b[n++] = 0x80; break;
    case 'W': /* SPS */
      if (h264) b[n++] = 0x67; else b[n++] = 0x42, b[n++] = 0x01;
      b[n++] = 0x80; break;
    case 'A': /* AUD */
      if (h264) b[n++] = 0x09; else b[n++] = 0x46, b[n++] = 0x01;
      b[n++] = 0xf0; break;
    case 'O': /* filler data */
      if (h264) b[n++] = 0x0c; else b[n++] = 0x4c, b[n++] = 0x01;
      b[n++] = 0xff; break;
    case 'Z': /* SEI user data unregistered of somebody else */
      if (h264) b[n++] = 0x06; else b[n++] = 0x4e, b[n++] = 0x01;
      b[n++] = 0x05; b[n++] = 0x12;
      for (int i = 0; i < 16; i++) b[n++] = 0xa0 + i;
      break;
    case 'Y': /* SEI of another payload type (buffering period) */
      if (h264) b[n++] = 0x06; else b[n++] = 0x4e, b[n++] = 0x01;
      b[n++] = 0x00; b[n++] = 0x03; b[n++] = 0x11;
      break;
    case 'X': /* unspecified / reserved type */
    default:
      if (h264) b[n++] = 0x1f; else b[n++] = 0x7e, b[n++] = 0x01;
      b[n++] = 0xaa; break;
  }
  /* Unique payload. */
  b[n++] = 0xe0 | (c->salt & 0x0f);
  b[n++] = 0x40 | ((id >> 6) & 0x3f);
  b[n++] = 0x40 | (id & 0x3f);
  if (pic)
    for (int i = 0; i < c->pad; i++) { /* with zeros and emulation prevention bytes */
      uint8_t v = (uint8_t)(0x10 + ((id * 7 + i * 13) % 0xe0)), pat[] = {0, 0, 3, v, 0, v};
      b[n++] = pat[i % 6];
    }
  b[n++] = 0x80; /* stop bit */
  nalu_t r = {0};
  r.data = sim_alloc(n);
  memcpy(r.data, b, n);
  r.size = n;
  r.type = type;
  r.id = id;
  r.gop = r.src = r.pos = -1;
  return r;
}

void sim_append(stream_t *s, nalu_t n)
{
  if (s->len >= MAX_NALUS) abort();
  s->n[s->len++] = n;
}
void sim_insert(stream_t *s, int at, nalu_t n)
{
  if (s->len >= MAX_NALUS) abort();
  memmove(&s->n[at + 1], &s->n[at], sizeof(nalu_t) * (s->len - at));
  s->n[at] = n;
  s->len++;
}
void sim_remove(stream_t *s, int at)
{
  memmove(&s->n[at], &s->n[at + 1], sizeof(nalu_t) * (s->len - at - 1));
  s->len--;
}
void sim_copy_stream(stream_t *dst, const stream_t *src)
{
  dst->codec = src->codec;
  dst->len = src->len;
  dst->num_seis = src->num_seis;
  for (int i = 0; i < src->len; i++) dst->n[i] = sim_nalu_copy(&src->n[i]);
}
const char *sim_types(const stream_t *s)
{
  static char b[MAX_NALUS + 1];
  for (int i = 0; i < s->len; i++) b[i] = s->n[i].type;
  b[s->len] = 0;
  return b;
}

#define MUST(x) \
  do { \
    int rc_ = (x); \
    if (rc_ != SV_OK) mc_fail("sign_api_error", "%s returned %d on a legal call", #x, rc_); \
  } while (0)

signed_video_t *sim_signer(const cfg_t *c)
{
  signed_video_t *sv = signed_video_create(c->codec);
  if (!sv) mc_fail("create_failed", "signed_video_create returned NULL");
  const char *k = sim_priv_key(c->key);
  MUST(signed_video_set_private_key_new(sv, k, strlen(k)));
  if (c->product == 0)
    MUST(signed_video_set_product_info(sv, "hw", "fw1.2", "SN42", "manu", "addr"));
  MUST(signed_video_set_authenticity_level(sv, (SignedVideoAuthenticityLevel)c->level));
  if (c->max_sei) MUST(signed_video_set_max_sei_payload_size(sv, (size_t)c->max_sei));
  if (c->hash) MUST(signed_video_set_hash_algo(sv, c->hash));
  if (c->no_epb) MUST(signed_video_set_sei_epb(sv, false));
  if (c->recurrence) MUST(signed_video_set_recurrence_interval_frames(sv, (unsigned)c->recurrence));
  if (c->no_pubkey) MUST(signed_video_add_public_key_to_sei(sv, false));
  if (c->golden) {
    MUST(signed_video_set_using_golden_sei(sv, true));
    MUST(signed_video_generate_golden_sei(sv));
    MUST(signed_video_set_authenticity_level(sv, (SignedVideoAuthenticityLevel)c->level));
  }
  return sv;
}

/* What an encoder does downstream with a SEI that was generated without emulation prevention. */
static void downstream_epb(nalu_t *n)
{
  uint8_t *o = sim_alloc(n->size * 2);
  size_t k = 4;
  int z = 0;
  memcpy(o, n->data, 4);
  for (size_t i = 4; i < n->size; i++) {
    if (z >= 2 && n->data[i] <= 3) o[k++] = 3, z = 0;
    o[k++] = n->data[i];
    z = n->data[i] ? 0 : z + 1;
  }
  n->data = o;
  n->size = k;
}

int sim_pull(signed_video_t *sv, const cfg_t *c, const nalu_t *peek, stream_t *out)
{
  int pulled = 0;
  if (c->old_api) {
    /* Returns the latest first: each is prepended to the previous ones. */
    int at = out->len;
    for (;;) {
      signed_video_nalu_to_prepend_t np;
      MUST(signed_video_get_nalu_to_prepend(sv, &np));
      mc_op();
      if (np.prepend_instruction == SIGNED_VIDEO_PREPEND_NOTHING) break;
      nalu_t n = {0};
      n.data = sim_alloc(np.nalu_data_size);
      memcpy(n.data, np.nalu_data, np.nalu_data_size);
      n.size = np.nalu_data_size;
      signed_video_nalu_data_free(np.nalu_data);
      if (c->no_epb == 2) downstream_epb(&n);
      n.type = 'S';
      n.pos = -1;
      n.id = n.gop = out->num_seis++;
      sim_insert(out, at, n);
      pulled++;
    }
    return pulled;
  }
  for (;;) {
    size_t sz = 0;
    const uint8_t *pk = peek && !c->no_peek ? peek->data : NULL;
    size_t pks = pk ? peek->size : 0;
    MUST(signed_video_get_sei(sv, NULL, &sz, NULL, pk, pks, NULL));
    mc_op();
    if (!sz) break;
    nalu_t n = {0};
    n.data = sim_alloc(sz);
    n.size = sz;
    size_t sz2 = 0;
    MUST(signed_video_get_sei(sv, n.data, &sz2, NULL, pk, pks, NULL));
    if (sz2 != sz) mc_fail("sei_size_unstable", "SEI size changed from %zu to %zu", sz, sz2);
    n.type = 'S';
    n.pos = -1;
    if (signed_video_is_golden_sei(sv, n.data, n.size)) n.type = 'G';
    n.id = n.gop = out->num_seis++;
    if (c->no_epb == 2) downstream_epb(&n);
    sim_append(out, n);
    if (++pulled > 200) mc_fail("sei_flood", "more than 200 SEIs fetched");
  }
  return pulled;
}

void sim_sign_with(signed_video_t *sv, const cfg_t *c, const char *spec, stream_t *out, int id0)
{
  int gop = -1, id = id0;
  for (int i = 0; i < out->len; i++)
    if (out->n[i].type == 'I') gop++;
  int pos = 0;
  for (int i = 0; i < out->len; i++)
    if (out->n[i].pos >= 0) pos = out->n[i].pos + 1;
  for (const char *p = spec; *p; p++, id++) {
    nalu_t n = sim_nalu(c, *p, id);
    if (*p == 'I') gop++;
    n.gop = gop;
    n.src = 1000 + c->salt;
    n.pos = strchr("IiPp", *p) ? pos++ : -1;
    mcp_tick();
    if (!c->after) sim_pull(sv, c, &n, out);
    int64_t ts = c->ts == 2 ? (1 - gop) * (int64_t)40000 : 1000000 + (int64_t)id * 40000;
    n.ts = ts;
    MUST(signed_video_add_nalu_for_signing_with_timestamp(sv, n.data, n.size, c->ts ? &ts : NULL));
    mc_op();
    if (c->after) sim_pull(sv, c, &n, out);
    sim_append(out, n);
  }
}

int sim_sign_many(signed_video_t *sv, const cfg_t *c, int count, void (*seen)(const nalu_t *))
{
  static stream_t t;
  t.num_seis = 0;
  for (int id = 0; id < count; id++) {
    size_t mark = arena_n;
    t.len = 0;
    nalu_t n = sim_nalu(c, 'I', id);
    n.gop = id;
    mcp_tick();
    sim_pull(sv, c, &n, &t);
    int64_t ts = n.ts = 1000000 + (int64_t)id * 40000;
    MUST(signed_video_add_nalu_for_signing_with_timestamp(sv, n.data, n.size, c->ts ? &ts : NULL));
    mc_op();
    sim_append(&t, n);
    for (int i = 0; seen && i < t.len; i++) seen(&t.n[i]);
    while (arena_n > mark) free(arena[--arena_n]);
  }
  return count;
}

void sim_sign(const cfg_t *c, const char *spec, stream_t *out)
{
  out->codec = c->codec;
  out->len = 0;
  out->num_seis = 0;
  signed_video_t *sv = sim_signer(c);
  int id = c->before ? sim_sign_many(sv, c, c->before, NULL) : 0;
  sim_sign_with(sv, c, spec, out, id);
  if (c->eos) {
    sim_pull(sv, c, NULL, out);
    MUST(signed_video_set_end_of_stream(sv));
    sim_pull(sv, c, NULL, out);
  }
  signed_video_free(sv);
}

#define MEMO 2048
static struct {
  cfg_t c;
  char spec[512], delay[64];
  stream_t *s;
} memo[MEMO];
static int memo_n, memo_serial;
static const char *cur_delay;
static int digit_delay(int idx)
{
  int n = (int)strlen(cur_delay);
  return cur_delay[idx < n ? idx : n - 1] - '0';
}

void sim_sign_cached(const cfg_t *c, const char *spec, const char *delay, stream_t *out)
{
  const char *d = delay ? delay : "";
  int i;
  for (i = 0; i < memo_n; i++)
    if (!memcmp(&memo[i].c, c, sizeof(*c)) && !strcmp(memo[i].spec, spec) &&
        !strcmp(memo[i].delay, d))
      break;
  if (i == memo_n) {
    if (strlen(spec) > 511 || strlen(d) > 63) abort();
    if (memo_n == MEMO) { /* Start over. */
      for (i = 0; i < memo_n; i++) {
        for (int k = 0; k < memo[i].s->len; k++) free(memo[i].s->n[k].data);
        free(memo[i].s);
      }
      i = memo_n = 0;
    }
    static stream_t tmp;
    mcp_t save = mcp;
    uint64_t save_rng = rng;
    mcp_reset();
    rng = 88172645463325252ull + c->salt;
    cur_delay = d;
    if (*d) mcp.delay = digit_delay;
    sim_sign(c, spec, &tmp);
    mcp = save;
    rng = save_rng;
    memo[i].s = malloc(sizeof(stream_t) - (size_t)(MAX_NALUS - tmp.len) * sizeof(tmp.n[0]));
    memo[i].s->codec = tmp.codec;
    memo[i].s->len = tmp.len;
    memo[i].s->num_seis = tmp.num_seis;
    memcpy(memo[i].s->n, tmp.n, (size_t)tmp.len * sizeof(tmp.n[0]));
    for (int k = 0; k < tmp.len; k++) {
      memo[i].s->n[k].data = malloc(tmp.n[k].size);
      memcpy(memo[i].s->n[k].data, tmp.n[k].data, tmp.n[k].size);
      memo[i].s->n[k].src = 100000 + memo_serial;
    }
    memo[i].c = *c;
    strcpy(memo[i].spec, spec);
    strcpy(memo[i].delay, d);
    memo_n++;
    memo_serial++;
  }
  sim_copy_stream(out, memo[i].s);
}

void sim_align(const rep_t *r, int *idx)
{
  int n = (int)strlen(r->vstr), at = r->at;
  for (int k = n - 1; k >= 0; k--) idx[k] = r->vstr[k] == 'M' ? -1 : at--;
}

static void cpy(char *dst, size_t n, const char *src) { snprintf(dst, n, "%s", src ? src : "(null)"); }

void sim_read_report(const signed_video_authenticity_t *a, int at, rep_t *r)
{
  r->at = at;
  const signed_video_latest_validation_t *l = &a->latest_validation;
  const signed_video_accumulated_validation_t *c = &a->accumulated_validation;
  r->auth = l->authenticity;
  r->pk_changed = l->public_key_has_changed;
  r->exp = l->number_of_expected_picture_nalus;
  r->recv = l->number_of_received_picture_nalus;
  r->pend = l->number_of_pending_picture_nalus;
  r->pkval = l->public_key_validation;
  r->has_ts = l->has_timestamp;
  r->ts = l->timestamp;
  cpy(r->vstr, STRMAX, l->validation_str);
  cpy(r->nstr, STRMAX, l->nalu_str);
  r->a_auth = c->authenticity;
  r->a_pkval = c->public_key_validation;
  r->a_recv = c->number_of_received_nalus;
  r->a_val = c->number_of_validated_nalus;
  r->a_pend = c->number_of_pending_nalus;
  r->a_pk_changed = c->public_key_has_changed;
  r->a_has_ts = c->has_timestamp;
  r->a_first = c->first_timestamp;
  r->a_last = c->last_timestamp;
  cpy(r->hw, 300, a->product_info.hardware_id);
  cpy(r->fw, 300, a->product_info.firmware_version);
  cpy(r->sn, 300, a->product_info.serial_number);
  cpy(r->mf, 300, a->product_info.manufacturer);
  cpy(r->ad, 300, a->product_info.address);
  cpy(r->ver_sign, 40, a->version_on_signing_side);
  cpy(r->ver_this, 40, a->this_version);
}

void sim_run_init(run_t *run)
{
  run->nrep = 0;
  run->nrc = 0;
  run->first_error = -1;
  run->has_final = false;
}

int sim_feed(signed_video_t *sv, const uint8_t *d, size_t n, int at, run_t *run)
{
  signed_video_authenticity_t *a = NULL;
  int rc = signed_video_add_nalu_and_authenticate(sv, d, n, &a);
  mc_op();
  if (run->nrc < MAX_NALUS) run->rc[run->nrc++] = rc;
  if (rc != SV_OK && run->first_error < 0) run->first_error = at;
  if (a) {
    if (run->nrep < 400) {
      rep_t *r = &run->rep[run->nrep++];
      sim_read_report(a, at, r);
      mc_state(mc_hash(r->vstr, strlen(r->vstr),
          mc_hash(r->nstr, strlen(r->nstr),
              (uint64_t)(r->auth * 7 + r->a_auth * 64 + r->a_recv * 512 + r->a_val * 65536))));
    }
    signed_video_authenticity_report_free(a);
  }
  return rc;
}

void sim_final(signed_video_t *sv, run_t *run)
{
  signed_video_authenticity_t *a = signed_video_get_authenticity_report(sv);
  if (a) {
    sim_read_report(a, -1, &run->final);
    run->has_final = true;
    signed_video_authenticity_report_free(a);
  }
}

void sim_play(const stream_t *s, const char *pub, run_t *run)
{
  sim_run_init(run);
  signed_video_t *sv = signed_video_create(s->codec);
  if (!sv) mc_fail("create_failed", "signed_video_create returned NULL");
  if (pub) MUST(signed_video_set_public_key(sv, pub, strlen(pub)));
  for (int i = 0; i < s->len; i++) sim_feed(sv, s->n[i].data, s->n[i].size, i, run);
  sim_final(sv, run);
  signed_video_free(sv);
}

bool sim_any(const run_t *r, int auth)
{
  for (int i = 0; i < r->nrep; i++)
    if (r->rep[i].auth == auth) return true;
  return false;
}

const char *auth_str(int a)
{
  const char *t[] = {"NOT_SIGNED", "SIGNATURE_PRESENT", "NOT_OK", "OK_WITH_MISSING_INFO", "OK",
      "VERSION_MISMATCH"};
  return a >= 0 && a < 6 ? t[a] : "?";
}

const char *sim_run_str(const run_t *r)
{
  static char b[20000];
  int n = 0;
  for (int i = 0; i < r->nrep && n < 18000; i++)
    n += snprintf(b + n, sizeof(b) - n, "    @%d %s acc=%s [%s|%s] exp %d recv %d pend %d | tot recv %u val %u pend %u\n",
        r->rep[i].at, auth_str(r->rep[i].auth), auth_str(r->rep[i].a_auth), r->rep[i].nstr,
        r->rep[i].vstr, r->rep[i].exp, r->rep[i].recv, r->rep[i].pend, r->rep[i].a_recv,
        r->rep[i].a_val, r->rep[i].a_pend);
  if (r->has_final && n < 18000)
    n += snprintf(b + n, sizeof(b) - n, "    final acc=%s tot recv %u val %u pend %u", auth_str(r->final.a_auth),
        r->final.a_recv, r->final.a_val, r->final.a_pend);
  if (r->first_error >= 0) n += snprintf(b + n, sizeof(b) - n, " first error at %d rc %d", r->first_error, r->rc[r->first_error]);
  b[n] = 0;
  return b;
}
