/* P25: calls that are refused. P26: versions. */
#include "edits.h"
#include "pay.h"
#include "same.h"
#include "keys.h"
#include "lib/src/includes/sv_vendor_axis_communications.h"
#include <stdio.h>

static stream_t S, B;
static run_t R1, R2;
static digest_t D;

/* ---------------------------------------------------------------- refused calls */
enum { PLAIN, STARTED, KEYED, UNKEYED }; /* refused always; once signing has started; if there is (no) key */
typedef struct {
  const char *name;
  int when;
  int rc; /* the documented code, 0: any error */
  int (*call)(signed_video_t *sv);
} bad_t;

#define B_(n, e) \
  static int n(signed_video_t *sv) { (void)sv; return e; }
static const uint8_t kOne[] = {0, 0, 0, 1, 0x65, 0x88, 0x80};
static size_t zz;
static uint8_t kBuf[4000];
static char bad_pem[6000];
static int key_text(signed_video_t *sv, int how)
{
  const char *k = sim_priv_key(2);
  size_t n = strlen(k);
  strcpy(bad_pem, k);
  if (how == 0) strcpy(bad_pem, "not a key"), n = 9;
  if (how == 1) n /= 2; /* cut off */
  if (how == 2) bad_pem[n / 2] = '!';
  if (how == 3) strcpy(bad_pem, sim_pub_key(2)), n = strlen(bad_pem);
  if (how == 4) bad_pem[0] = 0, n = 1;
  char *exact = malloc(n);
  memcpy(exact, bad_pem, n);
  int rc = signed_video_set_private_key_new(sv, exact, n);
  free(exact);
  return rc;
}
static int pub_text(signed_video_t *sv, int how)
{
  const char *k = sim_pub_key(2);
  size_t n = strlen(k);
  strcpy(bad_pem, k);
  if (how == 0) strcpy(bad_pem, "not a key"), n = 9;
  if (how == 1) n /= 2;
  if (how == 2) bad_pem[n / 2] = '!';
  if (how == 3) strcpy(bad_pem, sim_priv_key(2)), n = strlen(bad_pem);
  if (how == 4) bad_pem[0] = 0, n = 1;
  char *exact = malloc(n);
  memcpy(exact, bad_pem, n);
  int rc = signed_video_set_public_key(sv, exact, n);
  free(exact);
  return rc;
}
#define IP SV_INVALID_PARAMETER
#define NS SV_NOT_SUPPORTED
B_(add_null, signed_video_add_nalu_for_signing_with_timestamp(sv, NULL, 7, NULL))
B_(add_zero, signed_video_add_nalu_for_signing_with_timestamp(sv, kOne, 0, NULL))
B_(add_noself, signed_video_add_nalu_for_signing(NULL, kOne, 7))
B_(part_null, signed_video_add_nalu_part_for_signing_with_timestamp(sv, NULL, 7, NULL, false))
B_(part_zero, signed_video_add_nalu_part_for_signing_with_timestamp(sv, kOne, 0, NULL, true))
B_(add_nokey, signed_video_add_nalu_for_signing_with_timestamp(sv, kOne, 7, NULL))
B_(part_nokey, signed_video_add_nalu_part_for_signing_with_timestamp(sv, kOne, 5, NULL, false))
B_(get_nosize, signed_video_get_sei(sv, kBuf, NULL, NULL, NULL, 0, NULL))
B_(get_noself, signed_video_get_sei(NULL, kBuf, &zz, NULL, NULL, 0, NULL))
B_(prepend_null, signed_video_get_nalu_to_prepend(sv, NULL))
B_(level_low, signed_video_set_authenticity_level(sv, (SignedVideoAuthenticityLevel)-1))
B_(level_high, signed_video_set_authenticity_level(sv, SV_AUTHENTICITY_LEVEL_NUM))
B_(level_huge, signed_video_set_authenticity_level(sv, (SignedVideoAuthenticityLevel)1000000))
B_(rec_zero, signed_video_set_recurrence_interval_frames(sv, 0))
B_(hash_bad, signed_video_set_hash_algo(sv, "no-such-hash"))
B_(hash_empty, signed_video_set_hash_algo(sv, ""))
B_(hash_notdigest, signed_video_set_hash_algo(sv, "rsaEncryption"))
B_(hash_oid, signed_video_set_hash_algo(sv, "1.2.840.10045.2.1"))
B_(hash_late, signed_video_set_hash_algo(sv, "sha512"))
B_(hash_late0, signed_video_set_hash_algo(sv, NULL))
B_(golden_late, signed_video_set_using_golden_sei(sv, true))
B_(golden_late0, signed_video_set_using_golden_sei(sv, false))
B_(key_null, signed_video_set_private_key_new(sv, NULL, 10))
B_(key_zero, signed_video_set_private_key_new(sv, sim_priv_key(2), 0))
B_(key_garbage, key_text(sv, 0))
B_(key_half, key_text(sv, 1))
B_(key_bad, key_text(sv, 2))
B_(key_public, key_text(sv, 3))
B_(key_nul, key_text(sv, 4))
B_(key_algo, signed_video_set_private_key(sv, SIGN_ALGO_NUM, sim_priv_key(2), strlen(sim_priv_key(2))))
B_(key_algo2, signed_video_set_private_key(sv, (sign_algo_t)-1, sim_priv_key(2), strlen(sim_priv_key(2))))
B_(att_none, sv_vendor_axis_communications_set_attestation_report(sv, NULL, 0, NULL))
B_(att_size, sv_vendor_axis_communications_set_attestation_report(sv, kOne, 0, NULL))
B_(att_null, sv_vendor_axis_communications_set_attestation_report(sv, NULL, 5, NULL))
B_(att_null2, sv_vendor_axis_communications_set_attestation_report(sv, NULL, 5, "cert"))
B_(att_empty, sv_vendor_axis_communications_set_attestation_report(sv, kOne, 4, ""))
B_(eos_nokey, signed_video_set_end_of_stream(sv))
B_(gold_nokey, signed_video_generate_golden_sei(sv))
B_(spub_garbage, pub_text(sv, 0))
/* The user has to fetch SEIs that are ready first. */
static void waiting(signed_video_t *sv)
{
  size_t n = 0;
  if (signed_video_get_sei(sv, NULL, &n, NULL, NULL, 0, NULL) != SV_OK || !n) mc_prune();
}
#define W_(n, e) \
  static int n(signed_video_t *sv) { waiting(sv); return e; }
W_(add_wait, signed_video_add_nalu_for_signing_with_timestamp(sv, kOne, 7, NULL))
W_(part_wait, signed_video_add_nalu_part_for_signing_with_timestamp(sv, kOne, 5, NULL, false))
W_(eos_wait, signed_video_set_end_of_stream(sv))
W_(gold_wait, signed_video_generate_golden_sei(sv))
static const bad_t kSign[] = {
    {"add NULL", PLAIN, IP, add_null}, {"add size 0", PLAIN, IP, add_zero}, {"add without session", PLAIN, IP, add_noself},
    {"add part NULL", PLAIN, IP, part_null}, {"add part size 0", PLAIN, IP, part_zero},
    {"add without key", UNKEYED, NS, add_nokey}, {"add part without key", UNKEYED, NS, part_nokey},
    {"get SEI without size", PLAIN, IP, get_nosize}, {"get SEI without session", PLAIN, IP, get_noself}, {"prepend NULL", PLAIN, IP, prepend_null},
    {"level -1", PLAIN, NS, level_low}, {"level 2", PLAIN, NS, level_high}, {"level 1000000", PLAIN, NS, level_huge},
    {"recurrence 0", PLAIN, NS, rec_zero}, {"hash algorithm unknown", PLAIN, 0, hash_bad}, {"hash algorithm empty", PLAIN, 0, hash_empty},
    {"hash algorithm rsaEncryption", PLAIN, 0, hash_notdigest}, {"hash algorithm, OID of a key type", PLAIN, 0, hash_oid},
    {"hash algorithm too late", STARTED, NS, hash_late}, {"default hash algorithm too late", STARTED, NS, hash_late0},
    {"golden SEI too late", STARTED, NS, golden_late}, {"no golden SEI too late", STARTED, NS, golden_late0},
    {"private key NULL", PLAIN, IP, key_null}, {"private key size 0", PLAIN, IP, key_zero}, {"private key is no key", PLAIN, 0, key_garbage},
    {"private key cut off", PLAIN, 0, key_half}, {"private key damaged", PLAIN, 0, key_bad}, {"private key is a public key", PLAIN, 0, key_public},
    {"private key empty", PLAIN, 0, key_nul}, {"private key algorithm 2", PLAIN, NS, key_algo}, {"private key algorithm -1", PLAIN, NS, key_algo2},
    {"attestation nothing", PLAIN, IP, att_none}, {"attestation size 0", PLAIN, IP, att_size}, {"attestation NULL", PLAIN, IP, att_null},
    {"attestation NULL with certificate", PLAIN, IP, att_null2}, {"attestation with empty certificate chain", PLAIN, 0, att_empty},
    {"end of stream without key", UNKEYED, 0, eos_nokey}, {"golden SEI without key", UNKEYED, 0, gold_nokey},
    {"add while SEIs wait", STARTED, NS, add_wait}, {"add part while SEIs wait", STARTED, NS, part_wait},
    {"end of stream while SEIs wait", STARTED, NS, eos_wait}, {"golden SEI while SEIs wait", STARTED, NS, gold_wait},
};
#define NSIGN (int)(sizeof(kSign) / sizeof(kSign[0]))

#define MUST(e) MC_CHECK((e) == SV_OK, "call_failed", "%s failed", #e)
/* Calls inserted at a step of a program. */
static int at_step[2], which[2], num_bad, step;
static bool started, keyed;
static void gap(signed_video_t *sv, const bad_t *tab)
{
  for (int i = 0; i < num_bad; i++) {
    if (at_step[i] != step) continue;
    const bad_t *b = &tab[which[i]];
    if ((b->when == STARTED && !started) || (b->when == KEYED && !keyed) || (b->when == UNKEYED && keyed)) mc_prune();
    int rc = b->call(sv);
    mc_op();
    mc_note("step %d: %s gave %d", step, b->name, rc);
    MC_CHECK(rc != SV_OK, "not_refused", "%s was not refused at step %d", b->name, step);
    MC_CHECK(!b->rc || rc == b->rc, "wrong_code", "%s gave %d instead of %d", b->name, rc, b->rc);
  }
  step++;
}
#define GAP() gap(sv, kSign)
/* 0: plain, 1: in parts, 2: golden SEI, 3: Axis and other settings. Returns the number of steps. */
static int sign_prog(int prog, const cfg_t *c, stream_t *s)
{
  step = 0;
  started = keyed = false;
  s->codec = c->codec;
  s->len = s->num_seis = 0;
  signed_video_t *sv = signed_video_create(c->codec);
  const char *k = sim_priv_key(c->key);
  GAP();
  MUST(signed_video_set_private_key_new(sv, k, strlen(k)));
  keyed = true;
  GAP();
  MUST(signed_video_set_product_info(sv, "hw", "fw1.2", "SN42", prog == 3 ? "Axis Communications AB" : "manu", "addr"));
  MUST(signed_video_set_authenticity_level(sv, (SignedVideoAuthenticityLevel)c->level));
  GAP();
  if (prog == 1) MUST(signed_video_set_hash_algo(sv, "sha512"));
  GAP();
  if (prog == 2) {
    MUST(signed_video_set_using_golden_sei(sv, true));
    MUST(signed_video_generate_golden_sei(sv));
    started = true; /* may be refused from now on, or not */
    mcp_tick();
    GAP();
    sim_pull(sv, c, NULL, s);
  }
  if (prog == 3) {
    MUST(signed_video_set_recurrence_interval_frames(sv, 3));
    MUST(signed_video_set_max_sei_payload_size(sv, 2000));
    GAP();
  }
  int gop = -1, pos = 0;
  const char *spec = mc_tier() ? "IPPIPIIPI" : "IPPIPI";
  for (int i = 0; spec[i]; i++) {
    nalu_t n = sim_nalu(c, spec[i], i);
    n.gop = gop += spec[i] == 'I';
    n.src = 1000;
    n.pos = pos++;
    mcp_tick();
    GAP();
    int64_t ts = 1000 + i;
    if (prog == 1) {
      size_t m = n.size - 3;
      MUST(signed_video_add_nalu_part_for_signing_with_timestamp(sv, n.data, m, &ts, false));
      started = true;
      GAP();
      MUST(signed_video_add_nalu_part_for_signing_with_timestamp(sv, n.data + m, n.size - m, &ts, true));
    } else {
      MUST(signed_video_add_nalu_for_signing_with_timestamp(sv, n.data, n.size, &ts));
    }
    started = true;
    mc_op();
    mcp_tick();
    GAP();
    /* Prepended to the NALU just added. */
    sim_pull(sv, c, NULL, s);
    sim_append(s, n);
  }
  GAP();
  if (prog == 0) {
    MUST(signed_video_set_end_of_stream(sv));
    GAP();
    sim_pull(sv, c, NULL, s);
  }
  GAP();
  signed_video_free(sv);
  return step;
}
static void same_signing(const stream_t *a, const stream_t *b)
{
  MC_CHECK(a->len == b->len, "refused_effect", "%s instead of %s", sim_types(a), sim_types(b));
  for (int i = 0; i < a->len; i++) {
    MC_CHECK(a->n[i].type == b->n[i].type, "refused_effect", "NALU %d: type %c instead of %c", i, a->n[i].type, b->n[i].type);
    if (a->n[i].type != 'S' && a->n[i].type != 'G') continue;
    static pay_t x, y;
    pay_get(&a->n[i], a->codec, &x);
    pay_get(&b->n[i], b->codec, &y);
    MC_CHECK(x.sig == y.sig && !memcmp(x.p, y.p, x.sig), "refused_effect", "SEI at %d is not what it is without the refused call", i);
  }
}
static void p25_sign(void)
{
  static struct {
    stream_t s;
    int steps;
    bool done;
  } base[64];
  sim_begin();
  cfg_t c = {.codec = mc_choose(2, "codec"), .level = mc_choose(2, "level"), .key = mc_choose(2, "key")};
  int prog = mc_choose(4, "program");
  int x = prog * 8 + c.codec * 4 + c.level * 2 + c.key;
  if (!base[x].done) {
    num_bad = 0;
    base[x].steps = sign_prog(prog, &c, &base[x].s);
    for (int i = 0; i < base[x].s.len; i++) {
      nalu_t *n = &base[x].s.n[i];
      uint8_t *d = malloc(n->size);
      memcpy(d, n->data, n->size);
      n->data = d;
    }
    base[x].done = true;
    sim_begin();
  }
  num_bad = mc_tier() && c.codec == c.level ? 2 : 1;
  for (int i = 0; i < num_bad; i++) {
    at_step[i] = mc_choose(base[x].steps, "step");
    if (i && at_step[i] < at_step[0]) mc_prune();
    which[i] = mc_choose(NSIGN, "call");
  }
  mc_note("program %d codec %d level %d key %d", prog, c.codec, c.level, c.key);
  sign_prog(prog, &c, &S);
  same_signing(&S, &base[x].s);
  sim_play(&S, NULL, &R1);
  mc_note("%s\n%s", sim_types(&S), sim_run_str(&R1));
  oracle_no_error(&R1);
  oracle_sound(&S, &R1, &D);
  MC_CHECK(R1.has_final && R1.final.a_auth == SV_AUTH_RESULT_OK, "refused_effect", "the video is %s with the refused call", auth_str(R1.final.a_auth));
  mc_nonvacuous();
  mc_trace_ok();
  mc_state(mc_hash(&which[0], sizeof(int), (uint64_t)(x * 100 + at_step[0])));
}

/* Keys, hash algorithm and attestation tried in any order before it works out. */
static void p25_config(void)
{
  sim_begin();
  cfg_t c = {.codec = mc_choose(2, "codec"), .level = mc_choose(2, "level"), .key = mc_choose(2, "key")};
  signed_video_t *sv = signed_video_create(c.codec);
  bool key = false, level = false, sha512 = false, cert = false;
  int n = mc_tier() ? 5 : 4;
  for (int i = 0; i < n; i++) {
    int op = mc_choose(9, "op");
    const char *k = sim_priv_key(c.key);
    int rc = SV_OK, want = SV_OK;
    switch (op) {
      case 0: rc = signed_video_set_private_key_new(sv, k, strlen(k)); key = true; break;
      case 1: rc = key_bad(sv); want = -1; break;
      case 2: rc = key_public(sv); want = -1; break;
      case 3: rc = signed_video_set_hash_algo(sv, "sha512"); sha512 = true; break;
      case 4: rc = signed_video_set_hash_algo(sv, NULL); sha512 = false; break;
      case 5: rc = hash_notdigest(sv); want = -1; break;
      case 6: rc = level_high(sv); want = -1; break;
      case 7: rc = signed_video_set_authenticity_level(sv, (SignedVideoAuthenticityLevel)c.level); level = true; break;
      case 8: rc = sv_vendor_axis_communications_set_attestation_report(sv, kOne, 4, "CERT"); want = cert ? -1 : SV_OK; cert = true; break;
    }
    mc_op();
    mc_note("op %d gave %d", op, rc);
    MC_CHECK((rc == SV_OK) == (want == SV_OK), "config_refused", "operation %d (of %d) gave %d", op, i, rc);
  }
  if (!key) {
    MC_CHECK(signed_video_add_nalu_for_signing(sv, kOne, 7) == SV_NOT_SUPPORTED, "not_refused", "signing without a key");
    const char *k = sim_priv_key(c.key);
    MUST(signed_video_set_private_key_new(sv, k, strlen(k)));
  }
  MUST(signed_video_set_product_info(sv, "hw", "fw1.2", "SN42", "Axis Communications AB", "addr"));
  S.codec = c.codec;
  S.len = S.num_seis = 0;
  sim_sign_with(sv, &c, "IPPIPI", &S, 0);
  sim_pull(sv, &c, NULL, &S);
  signed_video_free(sv);
  int at = nth_sei(&S, 0);
  MC_CHECK(at >= 0, "config_effect", "no SEI: %s", sim_types(&S));
  static sei_t f;
  const char *w = sei_parse(S.n[at].data, S.n[at].size, c.codec, &f);
  MC_CHECK(!w, "sei_malformed", "%s", w);
  int hash = -1, list = 0;
  for (int i = 0; i < f.n; i++) {
    if (f.t[i].tag == 4) list = 1;
    /* DER coded OIDs of SHA-256 and SHA-512 end with 1 and 3 */
    if (f.t[i].tag == 7) hash = f.t[i].v[2 + 10];
  }
  MC_CHECK(hash == (sha512 ? 3 : 1), "config_effect", "hash algorithm %d in the SEI, SHA-512 was set: %d", hash, sha512);
  MC_CHECK(list == (level ? c.level : 1), "config_effect", "hash list %d, level %d", list, level ? c.level : -1);
  sim_play(&S, NULL, &R1);
  mc_note("%s\n%s", sim_types(&S), sim_run_str(&R1));
  oracle_no_error(&R1);
  MC_CHECK(R1.has_final && R1.final.a_auth == SV_AUTH_RESULT_OK, "config_effect", "the video is %s", auth_str(R1.final.a_auth));
  mc_nonvacuous();
  mc_trace_ok();
  mc_state((uint64_t)(sha512 * 8 + level * 4 + cert * 2 + c.key));
}

/* Validation. */
static run_t *dst;
B_(v_null, signed_video_add_nalu_and_authenticate(sv, NULL, 7, NULL))
B_(v_zero, signed_video_add_nalu_and_authenticate(sv, kOne, 0, NULL))
B_(v_noself, signed_video_add_nalu_and_authenticate(NULL, kOne, 7, NULL))
static int v_null_rep(signed_video_t *sv)
{
  signed_video_authenticity_t *a = NULL;
  int rc = signed_video_add_nalu_and_authenticate(sv, NULL, 7, &a);
  MC_CHECK(!a, "report_of_refused", "a refused call gave a report");
  return rc;
}
B_(v_pub_null, signed_video_set_public_key(sv, NULL, 10))
B_(v_pub_zero, signed_video_set_public_key(sv, sim_pub_key(0), 0))
B_(v_pub_noself, signed_video_set_public_key(NULL, sim_pub_key(0), 10))
B_(v_pub_garbage, pub_text(sv, 0))
B_(v_pub_half, pub_text(sv, 1))
B_(v_pub_bad, pub_text(sv, 2))
B_(v_pub_priv, pub_text(sv, 3))
B_(v_pub_nul, pub_text(sv, 4))
B_(v_pub_again, signed_video_set_public_key(sv, sim_pub_key(0), strlen(sim_pub_key(0))))
B_(v_pub_other, signed_video_set_public_key(sv, sim_pub_key(2), strlen(sim_pub_key(2))))
B_(v_reset, signed_video_reset(NULL))
B_(v_report, signed_video_get_authenticity_report(NULL) ? SV_OK : SV_INVALID_PARAMETER)
B_(v_golden, signed_video_is_golden_sei(NULL, kOne, 7) || signed_video_is_golden_sei(sv, NULL, 7) || signed_video_is_golden_sei(sv, kOne, 0) ? SV_OK : SV_INVALID_PARAMETER)
static const bad_t kPlay[] = {
    {"NALU NULL", PLAIN, IP, v_null}, {"NALU size 0", PLAIN, IP, v_zero}, {"NALU without session", PLAIN, IP, v_noself}, {"NALU NULL with report", PLAIN, IP, v_null_rep},
    {"public key NULL", PLAIN, IP, v_pub_null}, {"public key size 0", PLAIN, IP, v_pub_zero}, {"public key without session", PLAIN, IP, v_pub_noself},
    {"public key is no key", PLAIN, 0, v_pub_garbage}, {"public key cut off", PLAIN, 0, v_pub_half}, {"public key damaged", PLAIN, 0, v_pub_bad},
    {"public key is a private key", PLAIN, 0, v_pub_priv}, {"public key empty", PLAIN, 0, v_pub_nul},
    {"same public key too late", KEYED, NS, v_pub_again}, {"other public key too late", KEYED, NS, v_pub_other},
    {"reset of nothing", PLAIN, IP, v_reset}, {"report of nothing", PLAIN, 0, v_report}, {"golden SEI test without data", PLAIN, 0, v_golden},
};
#define NPLAY (int)(sizeof(kPlay) / sizeof(kPlay[0]))
/* |man|: 0 no key set, 1 set before, 2 a wrong one set before. */
static int play_prog(const stream_t *s, int man, int key, run_t *r)
{
  step = 0;
  keyed = false; /* a key can no longer be set */
  sim_run_init(r);
  dst = r;
  signed_video_t *sv = signed_video_create(s->codec);
  gap(sv, kPlay);
  if (man) {
    const char *k = sim_pub_key(man == 2 ? 3 : key);
    MUST(signed_video_set_public_key(sv, k, strlen(k)));
    keyed = true;
  }
  for (int i = 0; i < s->len; i++) {
    gap(sv, kPlay);
    sim_feed(sv, s->n[i].data, s->n[i].size, i, r);
    keyed = true;
  }
  gap(sv, kPlay);
  sim_final(sv, r);
  signed_video_free(sv);
  return step;
}
static void p25_play(void)
{
  sim_begin();
  cfg_t c = {.codec = mc_choose(2, "codec"), .level = mc_choose(2, "level"), .key = mc_choose(2, "key")};
  int man = mc_choose(3, "manual"), kind = mc_choose(3, "kind");
  c.no_pubkey = man && mc_choose(2, "pubkey");
  sim_sign_cached(&c, "IPPIPPIPI", NULL, &S);
  if (kind == 1) edit_mod(&S.n[4], (int)S.n[4].size - 2, 1);
  if (kind == 2) sim_remove(&S, 5);
  num_bad = 0;
  int steps = play_prog(&S, man, c.key, &R2);
  num_bad = mc_tier() ? 2 : 1;
  for (int i = 0; i < num_bad; i++) {
    at_step[i] = mc_choose(steps, "step");
    if (i && at_step[i] < at_step[0]) mc_prune();
    which[i] = mc_choose(NPLAY, "call");
  }
  mc_note("codec %d level %d key %d manual %d kind %d no_pubkey %d", c.codec, c.level, c.key, man, kind, c.no_pubkey);
  play_prog(&S, man, c.key, &R1);
  mc_note("%s\n%s", sim_types(&S), sim_run_str(&R1));
  run_same(&R1, 0, &R2, "refused_effect");
  mc_nonvacuous();
  mc_state(run_fp(&R1) + (uint64_t)which[0]);
}
/* Not related to a session. */
static void p25_create(void)
{
  sim_begin();
  int codec = mc_choose(8, "codec") - 3;
  signed_video_t *sv = signed_video_create((SignedVideoCodec)codec);
  MC_CHECK(!!sv == (codec >= 0 && codec < SV_CODEC_NUM), "create", "codec %d: session %d", codec, !!sv);
  signed_video_free(sv);
  signed_video_free(NULL);
  signed_video_authenticity_report_free(NULL);
  signed_video_nalu_data_free(NULL);
  mc_nonvacuous();
}

/* ---------------------------------------------------------------- P26 versions */
static void p26_order(void)
{
  sim_begin();
  static const char *const num[] = {"0", "1", "2", "9", "10", "255", "256", "2147483647"};
  static const int val[] = {0, 1, 2, 9, 10, 255, 256, 2147483647};
  int nv = mc_tier() ? 8 : 7;
  int a[3], b[3];
  char s[2][60];
  for (int i = 0; i < 3; i++) a[i] = mc_choose(nv, "a");
  for (int i = 0; i < 3; i++) b[i] = mc_choose(nv, "b");
  snprintf(s[0], sizeof(s[0]), "v%s.%s.%s", num[a[0]], num[a[1]], num[a[2]]);
  snprintf(s[1], sizeof(s[1]), "v%s.%s.%s", num[b[0]], num[b[1]], num[b[2]]);
  int want = 0;
  for (int i = 0; i < 3 && !want; i++) want = val[a[i]] > val[b[i]] ? 1 : val[a[i]] < val[b[i]] ? 2 : 0;
  int got = signed_video_compare_versions(s[0], s[1]);
  mc_op();
  MC_CHECK(got == want, "version_order", "%s against %s gives %d instead of %d", s[0], s[1], got, want);
  mc_nonvacuous();
  mc_state((uint64_t)(((a[0] * 8 + a[1]) * 8 + a[2]) * 3 + want));
}
/* Strings of few characters that have, or do not have, the form of a version. */
static void p26_form(void)
{
  sim_begin();
  static const char alpha[] = "v1.0x";
  int n = mc_choose(mc_tier() ? 9 : 8, "length");
  char s[12] = "";
  for (int i = 0; i < n; i++) s[i] = alpha[mc_choose(5, "char")];
  /* v, digits, dot, digits, dot, at least a digit */
  int v[3] = {0}, k = 0;
  bool ok = s[0] == 'v';
  const char *p = s + 1;
  for (; ok && k < 3; k++) {
    if (*p < '0' || *p > '9') ok = false;
    while (*p >= '0' && *p <= '9') v[k] = v[k] * 10 + *p++ - '0';
    if (k < 2 && ok && *p++ != '.') ok = false;
  }
  if (ok && *p) mc_prune(); /* something follows the version */
  int want = !ok ? -1 : v[0] != 1 ? (v[0] > 1 ? 1 : 2) : v[1] != 1 ? (v[1] > 1 ? 1 : 2) : v[2] != 0 ? 1 : 0;
  int got = signed_video_compare_versions(s, "v1.1.0");
  int inv = signed_video_compare_versions("v1.1.0", s);
  mc_op();
  MC_CHECK(got == want, "version_form", "'%s' against v1.1.0 gives %d instead of %d", s, got, want);
  MC_CHECK(inv == (want <= 0 ? want : 3 - want), "version_form", "v1.1.0 against '%s' gives %d", s, inv);
  MC_CHECK(signed_video_compare_versions(s, NULL) == -1 && signed_video_compare_versions(NULL, s) == -1, "version_form", "NULL compared");
  MC_CHECK(signed_video_compare_versions(signed_video_get_version(), signed_video_get_version()) == 0, "version_own", "version %s is not one", signed_video_get_version());
  mc_nonvacuous();
  mc_state((uint64_t)(want + 1));
}
static const char *kAssume[] = {"signing is done by a deterministic plugin with a latency of one NALU", "OpenSSL is trusted; its randomness is replaced by a deterministic generator", NULL};
static const char *kNoAssume[] = {NULL};
static const mc_scenario kP25[] = {
    {"signing", p25_sign, "36 illegal calls at every step of 4 signing programs (plain, in parts with SHA-512, golden SEI, other settings), both codecs, levels and key types; thorough: all pairs of such calls", 0, 0, -1, 0},
    {"configuring", p25_config, "all sequences of 4 (5) of 9 accepted and refused settings before signing; both codecs, levels and key types", 0, 0, -1, 0},
    {"validating", p25_play, "17 illegal calls at every step of validating untouched and damaged video, key in the SEI or set (right, wrong, not); thorough: all pairs of such calls", 0, 0, -1, 0},
    {"creating", p25_create, "codecs -3..4", 0, 0, -1, 0},
};
static const mc_scenario kP26[] = {
    {"order", p26_order, "all pairs of versions with 7 (8) values, up to INT_MAX in thorough, for each of the three numbers", 0, 0, -1, 0},
    {"form", p26_form, "all strings up to 7 (8) characters from v, 1, 0, dot and x, against v1.1.0, both ways, and NULL", 0, 0, -1, 0},
};
static const mc_property kProps[] = {{"P25", kAssume, kP25, sizeof(kP25) / sizeof(kP25[0])}, {"P26", kNoAssume, kP26, sizeof(kP26) / sizeof(kP26[0])}};
int main(int argc, char **argv)
{
  sim_init();
  return mc_main(argc, argv, kProps, 2);
}
