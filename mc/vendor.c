/* P28: what is told about the origin of the public key (Axis attestation). The root of trust is replaced by one the
 * harness has the key of; everything else is the code of the library. */
#define OPENSSL_SUPPRESS_DEPRECATED
#include "edits.h"
#include "forge.h"
#include "mem.h"
#include "pki.h"

static stream_t S, T;
static run_t R, R0;
static sei_t F;

static const char *manual;
static void body(void) { sim_play(&S, manual, &R); }
static void judged(void (*b)(void))
{
  mem_forget();
  ERR_clear_error();
  mem_t x = mem_now();
  b();
  ERR_clear_error();
  mem_t y = mem_now();
  MC_CHECK(y.lib == 0, "leak", "%ld blocks are not freed: %s", y.lib, mem_leaks());
  if (y.ssl > x.ssl) {
    b();
    ERR_clear_error();
    mem_t z = mem_now();
    MC_CHECK(z.ssl <= y.ssl, "leak_openssl", "%ld OpenSSL blocks are not freed", z.ssl - y.ssl);
  }
}
static const char *pk_str(int v)
{
  static const char *const t[] = {"NOT_FEASIBLE", "NOT_OK", "OK"};
  return v >= 0 && v < 3 ? t[v] : "?";
}
static void play(void)
{
  judged(body);
  mc_note("%s", sim_run_str(&R));
  for (int i = 0; i < R.nrep; i++) mc_note("  report @%d (%s): key %s, overall %s", R.rep[i].at, R.rep[i].mf, pk_str(R.rep[i].pkval), pk_str(R.rep[i].a_pkval));
}
/* The origin of the key is a matter of its own, the video is authentic whatever it is. */
static void expect_video_ok(void)
{
  MC_CHECK(R.first_error < 0, "error", "NALU %d gives %d", R.first_error, R.first_error < 0 ? 0 : R.rc[R.first_error]);
  int ok = 0;
  for (int i = 0; i < R.nrep; i++) {
    MC_CHECK(R.rep[i].auth == SV_AUTH_RESULT_OK || R.rep[i].auth <= SV_AUTH_RESULT_SIGNATURE_PRESENT, "video", "report @%d is %s", R.rep[i].at, auth_str(R.rep[i].auth));
    ok += R.rep[i].auth == SV_AUTH_RESULT_OK;
  }
  MC_CHECK(ok >= 2 && R.final.a_auth == SV_AUTH_RESULT_OK, "video", "%d results are OK, overall %s", ok, auth_str(R.final.a_auth));
}
static void expect_key(int want, int from)
{
  int n = 0;
  for (int i = 0; i < R.nrep; i++) {
    if (R.rep[i].auth <= SV_AUTH_RESULT_SIGNATURE_PRESENT || R.rep[i].at < from) continue;
    n++;
    MC_CHECK(R.rep[i].pkval == want, "key_validation", "report @%d: public key is %s, expected %s", R.rep[i].at, pk_str(R.rep[i].pkval), pk_str(want));
    MC_CHECK(R.rep[i].a_pkval == want, "key_validation", "report @%d: public key is %s overall, expected %s", R.rep[i].at, pk_str(R.rep[i].a_pkval), pk_str(want));
  }
  MC_CHECK(n, "key_validation", "no report");
  MC_CHECK(R.final.a_pkval == want, "key_validation", "public key is %s in the end, expected %s", pk_str(R.final.a_pkval), pk_str(want));
  mc_trace_ok();
  mc_nonvacuous();
  mc_state((uint64_t)(want * 1000 + R.nrep));
}
static const char *kSpec = "IPIPPIPIPI";

/* All chains and attestations. */
static void p28_chain(void)
{
  sim_begin();
  cfg_t c = {.ts = 1, .pad = 2};
  c.codec = mc_choose(mc_tier() ? 2 : 1, "codec");
  c.level = mc_choose(2, "level");
  c.recurrence = mc_choose(2, "recurrence") ? 3 : 0;
  int ch = mc_choose(C_NUM, "chain"), a = mc_choose(5, "attestation"), sn = mc_choose(3, "serial"), mf = mc_choose(2, "manufacturer");
  EVP_PKEY *leaf = ch == C_P384 ? kP384 : ch == C_RSA ? kRsa : kLeaf;
  uint8_t b[256], chip[18];
  memcpy(chip, kChip, 18);
  if (ch == C_CHIP_PREFIX) chip[0] = 0xff;
  if (ch == C_CHIP_PREFIX4) chip[3] = 2;
  if (a == 3) chip[17] ^= 1;
  size_t n = attest(a == 1 ? 2 : 0, a == 2 ? kOther : leaf, chip, b);
  if (a == 4) b[12] ^= 0x40;
  const char *have = ch == C_SN19 ? serial19 : ch == C_SN20 ? serial20 : ch == C_SN64 ? serial64 : SERIAL;
  char other[70];
  snprintf(other, sizeof(other), "%s", have);
  other[0] ^= 1;
  vendor_t v = {mf ? "Somebody else" : AXIS, sn == 0 ? have : sn == 1 ? other : NULL, chain[ch], b, n};
  mc_note("codec %d level %d recurrence %d chain '%s' attestation %d serial %s manufacturer %s", c.codec, c.level, c.recurrence, kChain[ch], a, v.serial ? v.serial : "-", v.manufacturer);
  sign(&c, &v, kSpec, &S, false);
  manual = NULL;
  play();
  expect_video_ok();
  expect_key(mf || ch >= C_NONE ? SV_PUBKEY_VALIDATION_NOT_FEASIBLE : ch < C_WRONG_ROOT && a == 0 && sn == 0 ? SV_PUBKEY_VALIDATION_OK : SV_PUBKEY_VALIDATION_NOT_OK, 0);
}

/* Any byte of the attestation is altered, or it is cut or extended. Its header, version and object ID mean nothing. */
static void p28_attestation(void)
{
  sim_begin();
  cfg_t c = {.ts = 1, .pad = 2};
  c.level = mc_choose(2, "level");
  uint8_t b[256] = {0};
  size_t n = attest(0, kLeaf, kChip, b);
  int how = mc_choose(mc_tier() ? 10 : 4, "how"), x = 0;
  int want = SV_PUBKEY_VALIDATION_NOT_OK;
  if (how == 0) { /* cut */
    n = 1 + (size_t)mc_choose((int)n - 1, "size");
  } else if (how == 1) { /* extended */
    n += 1 + (size_t)mc_choose((int)(255 - n), "size");
    if (mc_choose(2, "adjusted")) b[22] = (uint8_t)(n - 23);
  } else {
    x = mc_choose((int)n, "byte");
    b[x] ^= 1 << (how == 2 ? 0 : how == 3 ? 7 : how - 3);
    if (x < 8) want = SV_PUBKEY_VALIDATION_OK;
  }
  mc_note("level %d how %d byte %d size %zu", c.level, how, x, n);
  vendor_t v = {AXIS, SERIAL, chain[C_VALID], b, n};
  sign(&c, &v, kSpec, &S, false);
  manual = NULL;
  play();
  expect_video_ok();
  expect_key(want, 0);
}

/* What is there at all: parts of the attestation, the key in the SEI or not; set to the validator or not; kinds of keys. */
static void p28_present(void)
{
  sim_begin();
  cfg_t c = {.ts = 1, .pad = 2};
  c.codec = mc_choose(2, "codec");
  c.level = mc_choose(2, "level");
  c.key = mc_choose(6, "key");
  c.no_pubkey = mc_choose(2, "no key");
  c.golden = mc_choose(2, "golden");
  c.no_epb = mc_choose(3, "no epb");
  c.recurrence = mc_choose(2, "recurrence") ? 3 : 0;
  bool m = mc_choose(2, "manual");
  int parts = mc_choose(4, "parts");
  if (c.no_pubkey && !m) mc_prune();
  if (c.golden && c.recurrence) mc_prune();
  uint8_t b[256];
  size_t n = c.key == 4 ? 0 : attest(c.key, kLeaf, kChip, b);
  if (!n) n = attest(0, kLeaf, kChip, b);
  vendor_t v = {AXIS, SERIAL, parts & 2 ? chain[C_VALID] : NULL, parts & 1 ? b : NULL, parts & 1 ? n : 0};
  mc_note("codec %d level %d key %d no_pubkey %d golden %d no_epb %d recurrence %d manual %d parts %d", c.codec, c.level, c.key, c.no_pubkey, c.golden, c.no_epb, c.recurrence, m, parts);
  sign(&c, &v, kSpec, &S, false);
  manual = m ? sim_pub_key(c.key) : NULL;
  play();
  expect_video_ok();
  int want = c.no_pubkey || parts != 3 ? SV_PUBKEY_VALIDATION_NOT_FEASIBLE : c.key == 0 || c.key == 2 ? SV_PUBKEY_VALIDATION_OK : SV_PUBKEY_VALIDATION_NOT_OK;
  expect_key(want, 0);
}

/* The SEI is signed anew, with any key. */
static nalu_t resign(sei_t *f, int key)
{
  int k = f->n - 1;
  tlv_t *t = &f->t[k];
  if (t->tag != 5) abort();
  size_t max = (size_t)EVP_PKEY_size(priv_of(key));
  t->len = 5 + max;
  memset(t->v, 0xff, t->len);
  nalu_t n = sei_build(f, true);
  size_t sig = 0;
  static sei_t tmp;
  if (sei_parse(n.data, n.size, f->codec, &tmp)) abort();
  sig = tmp.sig_off;
  uint8_t h[32], s[1024] = {0};
  EVP_Digest(n.data + 4, sig, h, NULL, EVP_sha256(), NULL);
  size_t m = sizeof(s);
  EVP_PKEY_CTX *x = EVP_PKEY_CTX_new(priv_of(key), NULL);
  EVP_PKEY_sign_init(x);
  if (EVP_PKEY_base_id(priv_of(key)) == EVP_PKEY_RSA) {
    EVP_PKEY_CTX_set_rsa_padding(x, RSA_PKCS1_PADDING);
    EVP_PKEY_CTX_set_signature_md(x, EVP_sha256());
  }
  if (EVP_PKEY_sign(x, s, &m, h, 32) != 1) abort();
  EVP_PKEY_CTX_free(x);
  uint8_t head[5] = {1, 0, 1, (uint8_t)(m >> 8), (uint8_t)m};
  memcpy(t->v, head, 5);
  memset(t->v + 5, 0, max);
  memcpy(t->v + 5, s, m);
  return sei_build(f, true);
}
static void drop_tlv(sei_t *f, int tag)
{
  for (int i = 0; i < f->n; i++)
    if (f->t[i].tag == tag) {
      memmove(&f->t[i], &f->t[i + 1], sizeof(tlv_t) * (size_t)(f->n - i - 1));
      f->n--;
      return;
    }
}
/* Somebody with another key mixes what he has got: SEIs with or without the attested key or his own, product info of the
 * vendor, somebody else or none, and the attestation or not, in any order. The origin is never OK for his key. */
static void p28_mix(void)
{
  sim_begin();
  static const int kKeys[] = {2, 1, 4};
  cfg_t c = {.ts = 1, .pad = 2};
  c.level = mc_tier() ? mc_choose(2, "level") : 0;
  int mine = kKeys[mc_choose(mc_tier() ? 3 : 2, "my key")];
  uint8_t b[256];
  size_t n = attest(0, kLeaf, kChip, b);
  vendor_t v = {AXIS, SERIAL, chain[C_VALID], b, n}, w = {"Somebody else", SERIAL, chain[C_VALID], b, n};
  static stream_t other;
  static sei_t G;
  sign(&c, &v, "IPIPIPIP", &S, false);
  sign(&c, &w, "IPIPIPIP", &other, false);
  int in_use = -1; /* key last received */
  int keyof[MAX_NALUS];
  bool replaced[MAX_NALUS], was = false;
  manual = NULL;
  int nk = 0;
  for (int i = 0; i < S.len; i++) {
    keyof[i] = in_use;
    replaced[i] = was;
    if (S.n[i].type != 'S') continue;
    int before = in_use;
    int how = mc_choose(4, "sei"); /* 0: genuine, 1: with my key, 2: the attested key, but signed by me, 3: no key, signed by me */
    int prod = mc_choose(3, "product");
    bool att = mc_choose(2, "attestation");
    mc_note("SEI %d: %s, %s, attestation %d", i, how == 0 ? "genuine" : how == 1 ? "my key" : how == 2 ? "attested key, signed by me" : "no key, signed by me", prod == 0 ? "Axis" : prod == 1 ? "other" : "no product info", att);
    if (how == 0) {
      if (prod || !att) mc_prune();
      in_use = 0;
    } else {
      if (sei_parse(S.n[i].data, S.n[i].size, c.codec, &F) || sei_parse(other.n[i].data, other.n[i].size, c.codec, &G)) abort();
      if (how == 1) {
        tlv_t *t = sei_tlv(&F, 2);
        const char *p = sim_pub_key(mine);
        t->len = 1 + strlen(p);
        memcpy(t->v + 1, p, strlen(p));
        in_use = mine;
      } else if (how == 3)
        drop_tlv(&F, 2);
      else
        in_use = 0;
      if (prod == 1) *sei_tlv(&F, 3) = *sei_tlv(&G, 3);
      if (prod == 2) drop_tlv(&F, 3);
      if (!att) drop_tlv(&F, 129);
      S.n[i] = resign(&F, mine);
      S.n[i].type = 'S';
    }
    keyof[i] = in_use;
    replaced[i] = was |= before >= 0 && in_use != before;
    nk++;
  }
  play();
  for (int i = 0; i < R.nrep; i++) {
    const rep_t *r = &R.rep[i];
    if (r->pkval == SV_PUBKEY_VALIDATION_OK || r->a_pkval == SV_PUBKEY_VALIDATION_OK) {
      MC_CHECK(keyof[r->at] == 0, "foreign_key_ok", "report @%d: the origin of the public key is OK, but the key in use is not the attested one", r->at);
      MC_CHECK(!replaced[r->at], "replaced_key_ok", "report @%d: the origin of the public key is OK, but the key has been replaced", r->at);
      mc_nonvacuous();
    }
  }
  mc_trace_ok();
  mc_state(run_fp(&R));
}

/* The camera's attestation or certificate chain changes in the middle of the video: the SEIs that come with another one than
 * the one validated give no OK. */
static void p28_change(void)
{
  sim_begin();
  cfg_t c = {.ts = 1, .pad = 2};
  c.codec = mc_choose(2, "codec");
  c.level = mc_choose(2, "level");
  uint8_t b[256];
  size_t n = attest(0, kLeaf, kChip, b);
  vendor_t v = {AXIS, SERIAL, chain[C_VALID], b, n};
  sign(&c, &v, "IPIPIPIPIPI", &S, false);
  int how[8], k = 0, first = -1;
  manual = NULL;
  static int other[MAX_NALUS]; /* 0: same as the first one, 1: not */
  for (int i = 0; i < S.len; i++) {
    other[i] = 0;
    if (S.n[i].type != 'S') continue;
    how[k] = mc_choose(5, "SEI");
    mc_note("SEI %d: %s", i, how[k] == 0 ? "as is" : how[k] == 1 ? "a byte of the attestation altered" : how[k] == 2 ? "a byte of the chain altered" : how[k] == 3 ? "attestation shorter" : "chain longer");
    if (how[k]) {
      if (sei_parse(S.n[i].data, S.n[i].size, c.codec, &F)) abort();
      tlv_t *t = sei_tlv(&F, 129);
      if (how[k] == 1) t->v[2 + n - 1] ^= 1;
      if (how[k] == 2) t->v[2 + n + 200] ^= 1;
      if (how[k] == 3) {
        memmove(t->v + 2 + n - 1, t->v + 2 + n, t->len - 2 - n);
        t->v[1]--;
        t->len--;
      }
      if (how[k] == 4) t->v[t->len++] = '\n';
      S.n[i] = resign(&F, 0);
      S.n[i].type = 'S';
    }
    if (first < 0) first = how[k];
    other[i] = how[k] != first;
    k++;
  }
  play();
  for (int i = 0; i < R.nrep; i++) {
    const rep_t *r = &R.rep[i];
    mc_note("report @%d auth %d pkval %s other %d", r->at, r->auth, pk_str(r->pkval), other[r->at]);
    if (r->pkval != SV_PUBKEY_VALIDATION_OK && r->a_pkval != SV_PUBKEY_VALIDATION_OK) continue;
    MC_CHECK(first == 0 || first == 4, "altered_ok", "report @%d: the origin of the public key is OK, but the attestation has been altered", r->at);
    MC_CHECK(!other[r->at], "changed_ok", "report @%d: the origin of the public key is OK, but the attestation is not the one validated", r->at);
    mc_nonvacuous();
  }
  mc_trace_ok();
  mc_state(run_fp(&R));
}

/* All sequences of calls that set the attestation: a call that fails changes nothing, and what was set is sent. */
static void p28_api(void)
{
  sim_begin();
  cfg_t c = {.ts = 1, .pad = 2};
  c.level = mc_choose(mc_tier() ? 2 : 1, "level");
  c.product = 1;
  signed_video_t *sv = sim_signer(&c);
  signed_video_set_product_info(sv, "hw", "fw", SERIAL, AXIS, "addr");
  uint8_t b[2][256];
  size_t n[2] = {attest(0, kLeaf, kChip, b[0]), attest(2, kLeaf, kChip, b[1])};
  const char *ch[] = {NULL, chain[C_VALID], chain[C_NO_NL], chain[C_TWO], ""};
  int att = -1, cert = 0, calls = 1 + mc_choose(3, "calls");
  for (int k = 0; k < calls; k++) {
    int a = mc_choose(3, "attestation") - 1, x = mc_choose(5, "chain");
    bool odd = mc_tier() || k == 0 ? mc_choose(2, "odd size") : false;
    int size = a < 0 ? odd : odd ? 0 : (int)n[a];
    int rc = sv_vendor_axis_communications_set_attestation_report(sv, a < 0 ? NULL : b[a], (uint8_t)size, ch[x]);
    mc_op();
    bool legal = (a >= 0 || x > 0) && (a >= 0) == (size > 0) && x != 4 && !(a >= 0 && att >= 0) && !(x && cert);
    mc_note("attestation %d (size %d) chain %d gives %d", a, size, x, rc);
    MC_CHECK((rc == SV_OK) == legal, "attestation_set", "call %d gives %d, but it is %s", k, rc, legal ? "legal" : "not");
    if (rc != SV_OK) continue;
    if (a >= 0) att = a;
    if (x) cert = x;
  }
  S.codec = c.codec;
  S.len = S.num_seis = 0;
  sim_sign_with(sv, &c, "IPIPIP", &S, 0);
  signed_video_free(sv);
  int seis = 0;
  for (int i = 0; i < S.len; i++) {
    if (S.n[i].type != 'S') continue;
    seis++;
    const char *err = sei_parse(S.n[i].data, S.n[i].size, c.codec, &F);
    MC_CHECK(!err, "sei_malformed", "%s", err);
    tlv_t *t = sei_tlv(&F, 129);
    bool want = att >= 0 && (cert == 1 || cert == 2);
    MC_CHECK(!t == !want, "attestation_sent", "SEI %d: attestation %s", i, t ? "sent" : "not sent");
    if (!t) continue;
    size_t two = strlen(chain[C_TWO]);
    MC_CHECK(t->len == 2 + n[att] + two && t->v[0] == 1 && t->v[1] == n[att] && !memcmp(t->v + 2, b[att], n[att]) && !memcmp(t->v + 2 + n[att], chain[C_TWO], two), "attestation_sent",
        "SEI %d: the attestation sent is not the one set", i);
    mc_nonvacuous();
  }
  MC_CHECK(seis == 2, "attestation_sent", "%d SEIs", seis);
  manual = NULL;
  play();
  expect_video_ok();
  mc_trace_ok();
}

static const char *const kAssume[] = {"Root of trust replaced by a certificate the harness has the key of.", NULL};
static const mc_scenario kP28[] = {
    {"chain", p28_chain, "33 certificate chains x 5 attestations x serial number equal, different or missing x manufacturer x recurrence, both levels", 0, 0, -1, 0},
    {"attestation", p28_attestation, "every byte of the attestation altered (2 (8) bits), cut to any size, extended to any size", 0, 0, -1, 0},
    {"present", p28_present, "attestation, certificate chain, both or none x 6 keys (types, sizes and curves) x public key in the SEI or not x set manually or not x golden SEI x recurrence x EPB mode x codec x level", 0, 0, -1, 0},
    {"mix", p28_mix, "3 SEIs, each genuine, or made with the attested key, a foreign key (2 (3) types) or none, the vendor's, other or no product info, with or without attestation", 0, 0, -1, 0},
    {"change", p28_change, "5 SEIs, each with the attestation and chain as they are, a byte of one altered, a shorter attestation or a longer chain; both codecs and levels", 0, 0, -1, 0},
    {"api", p28_api, "all sequences of up to 3 calls setting one of 2 attestations or none and one of 4 chains or none, with or without size; both levels", 0, 0, -1, 0},
};
#define PROP(id, as, sc) {id, as, sc, sizeof(sc) / sizeof(sc[0])}
static const mc_property kProps[] = {
    PROP("P28", kAssume, kP28),
};
int main(int argc, char **argv)
{
  mem_init();
  sim_init();
  make_pki();
  sslcache_off = 4; /* reference counts are part of what is checked */
  return mc_main(argc, argv, kProps, sizeof(kProps) / sizeof(kProps[0]));
}
