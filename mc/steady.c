/* P34: sessions that go on and on: a cycle of GOPs, whatever happens in it, is repeated, and no more memory is in use in
 * the later repetitions than in the earlier ones. */
#include <openssl/err.h>
#include <stdio.h>
#include "edits.h"
#include "mem.h"

#define CYC 24
#define WARM 4
static stream_t S, O;
static mem_t peak[CYC], base;

static void watch_start(void)
{
  mem_forget();
  ERR_clear_error();
  base = mem_now();
  memset(peak, 0, sizeof(peak));
}
static void watch(int cycle)
{
  if (cycle < 0 || cycle >= CYC) return;
  mem_t m = mem_now();
  if (m.lib > peak[cycle].lib) peak[cycle].lib = m.lib;
  if (m.bytes > peak[cycle].bytes) peak[cycle].bytes = m.bytes;
  if (m.ssl - base.ssl > peak[cycle].ssl) peak[cycle].ssl = m.ssl - base.ssl;
}
/* The later half of the repetitions against the earlier one. Signatures vary in size by a few bytes. */
static void steady(void)
{
  mem_t a = {0}, b = {0};
  int half = (CYC + WARM) / 2;
  for (int i = WARM; i < CYC; i++) {
    mem_t *m = i < half ? &a : &b;
    if (peak[i].lib > m->lib) m->lib = peak[i].lib;
    if (peak[i].bytes > m->bytes) m->bytes = peak[i].bytes;
    if (peak[i].ssl > m->ssl) m->ssl = peak[i].ssl;
  }
  mc_note("blocks %ld, then %ld; bytes %ld, then %ld; OpenSSL blocks %ld, then %ld", a.lib, b.lib, a.bytes, b.bytes, a.ssl, b.ssl);
  MC_CHECK(b.lib <= a.lib, "memory_grows", "%ld blocks in use at most, later %ld: %s", a.lib, b.lib, mem_leaks());
  MC_CHECK(b.bytes <= a.bytes + 128, "memory_grows", "%ld bytes in use at most, later %ld", a.bytes, b.bytes);
  MC_CHECK(b.ssl <= a.ssl, "memory_grows", "%ld OpenSSL blocks in use at most, later %ld", a.ssl, b.ssl);
  mc_state(mc_hash(&a, sizeof(a), (uint64_t)b.lib));
  mc_nonvacuous();
}
static int gops(char *spec)
{
  static const char *const g[] = {"I", "IP", "IPP", "IiPp"};
  *spec = 0;
  for (int i = 0; i < 3; i++) strcat(spec, g[mc_choose(mc_tier() ? 4 : 3, "GOP")]);
  return (int)strlen(spec);
}

static int lat;
static int latency(int idx)
{
  static const char *const k[] = {"0", "1", "3", "012", "500"};
  const char *s = k[lat];
  return s[idx % (int)strlen(s)] - '0';
}
static int bad;
static int outcome(int idx) { return idx % 3 == 1 && idx > 3 ? bad : 0; }

/* Fetches all SEIs, errors or not. */
static void pull(signed_video_t *sv, const cfg_t *c, const nalu_t *n)
{
  for (int i = 0; i < 20; i++) {
    if (c->old_api) {
      signed_video_nalu_to_prepend_t np;
      SignedVideoReturnCode rc = signed_video_get_nalu_to_prepend(sv, &np);
      mc_op();
      if (rc != SV_OK) continue;
      if (np.prepend_instruction == SIGNED_VIDEO_PREPEND_NOTHING) break;
      signed_video_nalu_data_free(np.nalu_data);
      continue;
    }
    size_t sz = 0;
    SignedVideoReturnCode rc = signed_video_get_sei(sv, NULL, &sz, NULL, n->data, n->size, NULL);
    mc_op();
    if (rc != SV_OK) continue;
    if (!sz) break;
    uint8_t *d = sim_alloc(sz);
    signed_video_get_sei(sv, d, &sz, NULL, n->data, n->size, NULL);
  }
}

enum { W_PLAIN, W_RECURRENT, W_PRODUCT, W_RESET, W_GOLDEN, W_FAIL1, W_FAIL2, W_FAIL3, W_PARTS, W_EOS, W_NUM };
static void sign_body(cfg_t *c, const char *spec, int L, int way)
{
  signed_video_t *sv = sim_signer(c);
  for (int i = 0; i < L * CYC; i++) {
    int cycle = i / L;
    mcp_tick();
    nalu_t n = sim_nalu(c, spec[i % L], i);
    int64_t ts = 1000 + i;
    pull(sv, c, &n);
    watch(cycle);
    SignedVideoReturnCode rc;
    if (way == W_PARTS && n.size > 8) {
      rc = signed_video_add_nalu_part_for_signing_with_timestamp(sv, n.data, 8, &ts, false);
      watch(cycle);
      if (rc == SV_OK) rc = signed_video_add_nalu_part_for_signing_with_timestamp(sv, n.data + 8, n.size - 8, &ts, true);
    } else
      rc = signed_video_add_nalu_for_signing_with_timestamp(sv, n.data, n.size, &ts);
    mc_op();
    watch(cycle);
    if (way == W_FAIL1 && rc != SV_OK) rc = signed_video_add_nalu_for_signing_with_timestamp(sv, n.data, n.size, &ts);
    MC_CHECK(rc == SV_OK, "error", "adding NALU %d gave %d", i, rc);
    watch(cycle);
    if (i % L == L - 1) {
      static const char *const k[] = {"A", "something else", "", "0123456789012345678901234567890123456789"};
      const char *s = k[cycle % 4];
      if (way == W_PRODUCT) signed_video_set_product_info(sv, s, s, k[(cycle + 1) % 4], s, s);
      if (way == W_RESET) signed_video_reset(sv);
      if (way == W_GOLDEN) signed_video_generate_golden_sei(sv);
      if (way == W_EOS) {
        signed_video_set_end_of_stream(sv);
        signed_video_reset(sv);
      }
      watch(cycle);
    }
  }
  signed_video_free(sv);
}
static void p34_sign(void)
{
  sim_begin();
  cfg_t c = {.ts = 1};
  c.level = mc_choose(2, "level");
  c.codec = mc_tier() ? mc_choose(2, "codec") : c.level;
  int way = mc_choose(W_NUM, "way");
  lat = mc_choose(mc_tier() ? 5 : 4, "latency");
  c.old_api = mc_choose(2, "old");
  char spec[32];
  int L = gops(spec);
  if (way == W_RECURRENT) c.recurrence = 4;
  bad = way == W_FAIL1 ? 1 : way == W_FAIL2 ? 2 : way == W_FAIL3 ? 3 : 0;
  mcp_reset();
  mcp.delay = latency;
  mcp.outcome = bad ? outcome : NULL;
  mc_note("codec %d level %d way %d latency %d old %d, %s repeated", c.codec, c.level, way, lat, c.old_api, spec);
  watch_start();
  sign_body(&c, spec, L, way);
  steady();
}

/* Validation. */
enum { X_NONE, X_MOD, X_DROP, X_DUP, X_INSP, X_NUM };
static bool hit(const nalu_t *n, int L, bool sei, int k)
{
  bool s = n->type == 'S';
  if (s != sei) return false;
  int cycle = n->id / (s ? 3 : L);
  return cycle >= 2 && n->id % (s ? 3 : L) == k;
}
static void p34_auth(void)
{
  sim_begin();
  cfg_t c = {.ts = 1};
  c.level = mc_choose(2, "level");
  c.codec = mc_tier() ? mc_choose(2, "codec") : c.level;
  int ask = mc_choose(3, "reports"); /* each, none, each and reset after every cycle */
  static const char *const kLat[] = {"0", "1", "3"};
  const char *delay = kLat[mc_choose(mc_tier() ? 3 : 2, "latency")];
  char cyc[32], spec[512] = "";
  int L = gops(cyc);
  for (int i = 0; i < CYC; i++) strcat(spec, cyc);
  int op = mc_choose(X_NUM, "edit"), k = 0;
  bool sei = false;
  if (op) {
    k = mc_choose(L + 3, "at");
    sei = k >= L;
    if (sei) k -= L;
    /* An I-slice added is a GOP to wait for. */
    if (op == X_DUP && !sei && cyc[k] == 'I') mc_prune();
  }
  sim_sign_cached(&c, spec, delay, &O);
  S.codec = c.codec;
  S.len = 0;
  static int cycle_of[MAX_NALUS];
  int cycle = 0;
  for (int i = 0; i < O.len; i++) {
    nalu_t n = O.n[i];
    int at = S.len;
    if (n.type != 'S') cycle = n.id / L;
    bool h = op && hit(&n, L, sei, k);
    if (h && op == X_INSP) sim_append(&S, sim_nalu(&c, 'P', 5000 + i));
    if (h && op == X_DROP) continue;
    sim_append(&S, n);
    if (h && op == X_MOD) S.n[S.len - 1].data[sei ? n.size - 20 : n.size - 2] ^= 4;
    if (h && op == X_DUP) sim_append(&S, sim_nalu_copy(&n));
    for (; at < S.len; at++) cycle_of[at] = cycle;
  }
  mc_note("codec %d level %d reports %d latency %s, %s repeated, edit %d of %s %d", c.codec, c.level, ask, delay, cyc, op, sei ? "SEI" : "picture", k);
  watch_start();
  signed_video_t *sv = signed_video_create(c.codec);
  int good = 0;
  for (int i = 0; i < S.len; i++) {
    if (ask == 2 && i && cycle_of[i] != cycle_of[i - 1]) signed_video_reset(sv);
    signed_video_authenticity_t *a = NULL;
    signed_video_add_nalu_and_authenticate(sv, S.n[i].data, S.n[i].size, ask == 1 ? NULL : &a);
    mc_op();
    watch(cycle_of[i]);
    if (a && a->latest_validation.authenticity == SV_AUTH_RESULT_OK) good++;
    signed_video_authenticity_report_free(a);
    watch(cycle_of[i]);
  }
  signed_video_free(sv);
  if (!op && ask == 0) MC_CHECK(good > 3 * CYC - 8, "vacuous", "%d OK", good);
  steady();
}

static const char *const kAssume[] = {
    "Memory of OpenSSL is counted in blocks, that of the library in blocks and bytes. OpenSSL is trusted; its randomness is fixed.",
    "Memory of a session that has seen no signature grows, since everything is kept until one comes; that is how it is meant to be, and not judged. Nor are I-slices added over and over again: each starts a GOP for which a signature is awaited.", NULL};
static const mc_scenario kP34[] = {
    {"signing", p34_sign, "a cycle of 3 GOPs of 1..3 (4) pictures repeated 24 times x 10 ways (plain, recurrence, product info changed, reset, golden SEI, 3 kinds of failing signatures, NALUs in parts, end of stream) x 4 (5) latencies x both ways of fetching SEIs; both levels (and codecs)", 0, 0, -1, 0},
    {"validation", p34_auth, "the same cycles, in each of which any picture or SEI is modified, lost, repeated (not I-slices), or preceded by a foreign picture, or none x reports asked for, not asked for, or the session reset after each cycle x 2 (3) latencies; both levels (and codecs)", 0, 0, -1, 0},
};
static const mc_property kProps[] = {{"P34", kAssume, kP34, sizeof(kP34) / sizeof(kP34[0])}};
int main(int argc, char **argv)
{
  mem_init();
  sim_init();
  return mc_main(argc, argv, kProps, sizeof(kProps) / sizeof(kProps[0]));
}
