/* P14..P20: the signing side. */
#include <stdio.h>
#include "edits.h"
#include "ref.h"

static stream_t S, O;
static run_t R;
static sei_t F;
static ref_t G;
#define MAXE 80
static ref_sei_t E[MAXE];
static int num_e;

static void ref_feed(char type, const uint8_t *d, size_t n, const int64_t *ts)
{
  if (num_e >= MAXE) abort();
  if (ref_add(&G, type, d, n, ts, &E[num_e])) num_e++;
}

/* All SEIs of |s|, which holds the unmodified input NALUs too, against the reference. */
static void check_stream(const stream_t *s, const cfg_t *c, bool all)
{
  ref_init(&G, c);
  num_e = 0;
  if (c->golden) {
    memset(&E[0], 0, sizeof(E[0]));
    E[num_e++].golden = true;
  }
  for (int i = 0; i < s->len; i++)
    if (s->n[i].type != 'S' && s->n[i].type != 'G') ref_feed(s->n[i].type, s->n[i].data, s->n[i].size, c->ts ? &s->n[i].ts : NULL);
  if (c->eos && G.n) ref_emit(&G, NULL, &E[num_e++]);
  int k = 0;
  for (int i = 0; i < s->len; i++) {
    if (s->n[i].type != 'S' && s->n[i].type != 'G') continue;
    MC_CHECK(k < num_e, "sei_extra", "%d SEIs expected, got more", num_e);
    MC_CHECK((s->n[i].type == 'G') == E[k].golden, "sei_golden", "SEI %d: golden %d, expected %d", k, s->n[i].type == 'G', E[k].golden);
    ref_check(&s->n[i], &E[k], c, &F);
    k++;
  }
  if (all) MC_CHECK(k == num_e, "sei_lost", "%d SEIs expected, got %d", num_e, k);
  if (k) mc_nonvacuous();
}

/* ---------------------------------------------------------------- P14 content of the SEIs */
static void p14_seq(void)
{
  sim_begin();
  cfg_t c = {.codec = mc_choose(2, "codec"), .level = mc_choose(2, "level"), .ts = 1};
  char spec[16] = "I";
  int n = mc_tier() ? 7 : 6, k = 1;
  while (k < n) spec[k++] = "IPpiV"[mc_choose(5, "nalu")];
  spec[k++] = 'I';
  spec[k++] = 'P';
  spec[k] = 0;
  sim_sign(&c, spec, &S);
  mc_note("%s", sim_types(&S));
  check_stream(&S, &c, true);
  uint64_t h = mc_hash(sim_types(&S), S.len, c.level * 2 + c.codec);
  mc_state(h);
}

/* More GOPs than two bytes can count. */
static const cfg_t *day_c;
static int day_checked;
static void day_seen(const nalu_t *n)
{
  if (n->type == 'S') {
    MC_CHECK(num_e == 1, "sei_extra", "SEI %d is one too many", n->id);
    ref_check(n, &E[0], day_c, &F);
    num_e = 0;
    day_checked++;
  } else {
    MC_CHECK(num_e == 0, "sei_lost", "no SEI after GOP %d", n->gop);
    ref_feed(n->type, n->data, n->size, &n->ts);
  }
}
static void p14_day(void)
{
  sim_begin();
  cfg_t c = {.codec = mc_tier() ? mc_choose(2, "codec") : 0, .level = mc_choose(2, "level"), .ts = 1};
  if (!mc_tier()) c.codec = c.level;
  day_c = &c;
  ref_init(&G, &c);
  num_e = day_checked = 0;
  signed_video_t *sv = sim_signer(&c);
  int n = mc_tier() ? 131080 : 65550;
  sim_sign_many(sv, &c, n, day_seen);
  signed_video_free(sv);
  MC_CHECK(day_checked == n - 2, "sei_lost", "%d SEIs of %d GOPs", day_checked, n);
  mc_nonvacuous();
  mc_state((uint64_t)c.level * 2 + c.codec);
}

static void p14_cfg(void)
{
  sim_begin();
  static const char *const specs[] = {"IPPIPPPIIPIP", "WVIiPpPpIiPpIiP", "IPPPPIZPPPPIPPPPIP"};
  static const char *const hashes[] = {NULL, "sha384", "sha512", "sha256"};
  static const int keys[] = {0, 1, 4};
  cfg_t c = {0};
  c.codec = mc_choose(2, "codec");
  c.level = mc_choose(2, "level");
  c.key = keys[mc_choose(3, "key")];
  c.hash = hashes[mc_choose(3, "hash")];
  c.no_epb = mc_choose(2, "no_epb");
  c.golden = mc_choose(2, "golden");
  c.no_pubkey = mc_choose(2, "no_pubkey");
  c.ts = mc_choose(2, "ts");
  static const int recs[] = {0, 3, 8};
  c.recurrence = recs[mc_choose(mc_tier() ? 3 : 2, "recurrence")];
  c.eos = mc_choose(2, "eos");
  c.product = mc_choose(2, "product");
  if (mc_tier()) c.after = mc_choose(2, "after");
  const char *spec = specs[mc_choose(mc_tier() ? 3 : 2, "spec")];
  if (c.after && c.golden) mc_prune();
  sim_sign(&c, spec, &S);
  mc_note("%s", sim_types(&S));
  check_stream(&S, &c, true);
  if (c.golden) {
    for (int i = 0, k = 0; i < S.len; i++)
      if (S.n[i].type == 'S') {
        sei_parse_mode(S.n[i].data, S.n[i].size, c.codec, &F, !c.no_epb);
        MC_CHECK(!sei_tlv(&F, 2) && !sei_tlv(&F, 7), "sei_golden", "SEI %d holds what is in the golden SEI", k);
      }
  }
  mc_state(mc_hash(&c, sizeof(c), spec[1]));
}


/* ---------------------------------------------------------------- P15 delivery of the SEIs */
static int opt_delay[64];
static int num_delay;
static const int *delay_set;
static int delay_set_n;
static int choose_delay(int idx)
{
  if (idx >= 64) return 0;
  while (num_delay <= idx) opt_delay[num_delay++] = delay_set[delay_set_n > 1 ? mc_choose(delay_set_n, "latency") : 0];
  return opt_delay[idx];
}
static struct {
  cfg_t c;
  signed_video_t *sv;
  int nid, due[MAXE], fetched, ready;
  bool open; /* a NALU has been added in part */
} M;
static void m_init(void)
{
  num_delay = 0;
  mcp.delay = choose_delay;
  ref_init(&G, &M.c);
  num_e = 0;
  M.sv = sim_signer(&M.c);
  M.nid = M.fetched = M.ready = 0;
  S.len = 0;
  S.codec = M.c.codec;
  S.num_seis = 0;
  if (M.c.golden) {
    memset(&E[0], 0, sizeof(E[0]));
    M.due[0] = mcp.tick + opt_delay[0];
    E[num_e++].golden = true;
  }
}
static void m_ready(void)
{
  while (M.ready < num_e && M.due[M.ready] <= mcp.tick) M.ready++;
}
/* Returns false if the library wants SEIs to be fetched first. */
static bool m_add(char type)
{
  nalu_t n = sim_nalu(&M.c, type, M.nid);
  n.ts = 1000 + M.nid;
  int had = num_e;
  int rc = signed_video_add_nalu_for_signing_with_timestamp(M.sv, n.data, n.size, M.c.ts ? &n.ts : NULL);
  mc_op();
  if (rc == SV_NOT_SUPPORTED) {
    m_ready();
    MC_CHECK(M.ready > M.fetched || num_e - M.fetched >= 60, "add_refused", "NALU %d (%c) refused though no SEI is waiting", M.nid, type);
    return false;
  }
  MC_CHECK(rc == SV_OK, "sign_api_error", "adding NALU %d (%c) returned %d", M.nid, type, rc);
  ref_feed(type, n.data, n.size, M.c.ts ? &n.ts : NULL);
  if (num_e > had) M.due[had] = mcp.tick + opt_delay[had];
  sim_append(&S, n);
  M.nid++;
  return true;
}
/* Fetches, or asks for the size of, the next SEI. Returns its size. */
static size_t m_get(bool buf, char peek)
{
  static uint8_t b[60000];
  m_ready();
  bool want = M.ready > M.fetched && (!peek || strchr("IP", peek));
  nalu_t pk = {0};
  if (peek) pk = sim_nalu(&M.c, peek, M.nid);
  size_t sz = 12345;
  int off = -7;
  unsigned pend = 99999;
  int rc = signed_video_get_sei(M.sv, buf ? b : NULL, &sz, &off, pk.data, pk.size, &pend);
  mc_op();
  MC_CHECK(rc == SV_OK, "sign_api_error", "signed_video_get_sei() returned %d", rc);
  MC_CHECK((sz > 0) == want, "sei_available", "SEI of size %zu offered; generated %d, signed %d, fetched %d, peek %c", sz, num_e, M.ready, M.fetched, peek ? peek : '-');
  if (buf && sz) {
    nalu_t n = {0};
    n.data = sim_alloc(sz);
    memcpy(n.data, b, sz);
    n.size = sz;
    n.type = signed_video_is_golden_sei(M.sv, n.data, n.size) ? 'G' : 'S';
    n.id = M.fetched;
    n.pos = -1;
    ref_check(&n, &E[M.fetched], &M.c, &F);
    MC_CHECK(off > 4 && !memcmp(n.data + off, kSvUuid, 16), "sei_offset", "payload offset %d of SEI %d is wrong", off, n.id);
    sim_append(&S, n);
    M.fetched++;
    mc_nonvacuous();
  }
  MC_CHECK((int)pend == num_e - M.fetched, "sei_pending", "%u SEIs reported pending; generated %d, fetched %d", pend, num_e, M.fetched);
  return sz;
}
static void m_drain(void)
{
  mcp.tick += 100;
  while (m_get(false, 0)) m_get(true, 0);
  MC_CHECK(M.fetched == num_e, "sei_lost", "%d SEIs generated, %d fetched in the end", num_e, M.fetched);
}
static void m_done(void)
{
  m_drain();
  signed_video_free(M.sv);
  mc_note("%s", sim_types(&S));
  mc_state(mc_hash(sim_types(&S), S.len, M.c.level));
}
/* Every kind of NALU peeked at, in every state. */
static void p15_peek(void)
{
  sim_begin();
  static const int ds[] = {0, 2};
  delay_set = ds;
  delay_set_n = 2;
  memset(&M.c, 0, sizeof(M.c));
  M.c.ts = 1;
  M.c.codec = mc_choose(2, "codec");
  M.c.level = mc_choose(2, "level");
  M.c.pad = mc_choose(2, "pad") * 4;
  m_init();
  static const char *const specs[] = {"IPIiPpIIP", "IIiIpPVIAP"};
  const char *spec = specs[mc_choose(2, "sequence")];
  int at = mc_choose((int)strlen(spec), "at"), buf = mc_choose(2, "buffer");
  char peek = "IiPpVWAOZYX"[mc_choose(11, "peek")];
  int late = mc_choose(2, "fetch late");
  for (int i = 0; spec[i]; i++) {
    mcp.tick++;
    if (i == at) m_get(buf, peek);
    if (!late || i > at) while (m_get(false, spec[i])) m_get(true, spec[i]);
    m_add(spec[i]);
  }
  m_done();
}
static void p15_ops(void)
{
  sim_begin();
  static const int ds[] = {0, 2, 5};
  delay_set = ds;
  delay_set_n = mc_tier() ? 3 : 2;
  memset(&M.c, 0, sizeof(M.c));
  M.c.ts = 1;
  M.c.level = 1;
  m_init();
  m_add('I');
  int depth = mc_tier() ? 8 : 6;
  for (int i = 0; i < depth; i++) {
    mcp.tick++;
    switch (mc_choose(mc_tier() ? 7 : 6, "op")) {
      case 0: m_add('I'); break;
      case 1: m_add('P'); break;
      case 2: m_add('V'); break;
      case 3: m_get(false, 0); break;
      case 4: m_get(true, 'P'); break;
      case 5: m_get(true, 'V'); break;
      case 6: m_get(true, 0); break;
    }
  }
  m_done();
}
/* With the deprecated API, the SEIs come latest first. */
static void p15_old(void)
{
  sim_begin();
  static const int ds[] = {0, 2, 5};
  delay_set = ds;
  delay_set_n = mc_tier() ? 3 : 2;
  memset(&M.c, 0, sizeof(M.c));
  M.c.ts = 1;
  m_init();
  m_add('I');
  bool got[MAXE] = {0};
  int depth = mc_tier() ? 8 : 7, left = depth;
  for (int i = 0; i <= depth; i++) {
    mcp.tick++;
    int op = i == depth ? 3 : mc_choose(4, "op");
    if (i == depth) mcp.tick += 100;
    if (op < 2) m_add(op ? 'I' : 'P');
    if (op < 2) continue;
    m_ready();
    int last = -1, n = 0;
    for (;;) {
      signed_video_nalu_to_prepend_t np;
      int rc = signed_video_get_nalu_to_prepend(M.sv, &np);
      mc_op();
      MC_CHECK(rc == SV_OK, "sign_api_error", "signed_video_get_nalu_to_prepend() returned %d", rc);
      int want = M.ready - 1;
      while (want >= 0 && got[want]) want--;
      MC_CHECK((np.prepend_instruction != SIGNED_VIDEO_PREPEND_NOTHING) == (want >= 0), "sei_available",
          "prepend instruction %d, signed %d", np.prepend_instruction, M.ready);
      if (np.prepend_instruction == SIGNED_VIDEO_PREPEND_NOTHING) {
        MC_CHECK(!np.nalu_data && !np.nalu_data_size, "sei_available", "data without instruction");
        break;
      }
      MC_CHECK(np.prepend_instruction == SIGNED_VIDEO_PREPEND_NALU, "sei_available", "unknown instruction");
      nalu_t s = {.data = np.nalu_data, .size = np.nalu_data_size, .type = 'S', .id = want};
      ref_check(&s, &E[want], &M.c, &F);
      signed_video_nalu_data_free(np.nalu_data);
      got[want] = true;
      M.fetched++; /* only the number counts here */
      mc_nonvacuous();
      if (op == 2) break;
    }
  }
  MC_CHECK(M.fetched == num_e, "sei_lost", "%d SEIs generated, %d fetched in the end", num_e, M.fetched);
  signed_video_free(M.sv);
  mc_state(mc_hash(sim_types(&S), S.len, M.c.level));
}
/* Nobody fetches SEIs until there is no more room for them. */
static void p15_full(void)
{
  sim_begin();
  static const int none[] = {0};
  delay_set = none;
  delay_set_n = 1;
  memset(&M.c, 0, sizeof(M.c));
  M.c.level = mc_choose(2, "level");
  M.c.codec = mc_choose(2, "codec");
  int until = 50 + mc_choose(20, "until"), take = mc_choose(4, "take"), parts = mc_choose(3, "P per GOP");
  m_init();
  bool refused = false;
  for (int g = 0; g < until && !refused; g++) {
    if (!m_add('I')) {
      refused = true;
      if (mc_choose(2, "once more"))
        MC_CHECK(!m_add('I'), "add_refused", "I-slice accepted without room for its SEI");
      break;
    }
    for (int k = 0; k < parts; k++) m_add('P');
  }
  MC_CHECK(refused == (until > 61), "buffer_full", "refused: %d after %d GOPs, %d SEIs pending", refused, until, num_e);
  static const int t[] = {1, 2, 59, 60};
  for (int k = 0; k < t[take]; k++) m_get(true, 0);
  while (m_get(false, 0)) m_get(true, 0);
  /* The refused NALU once more, and on. */
  for (int g = 0; g < 4; g++) {
    MC_CHECK(m_add('I'), "add_refused", "I-slice refused though all SEIs have been fetched");
    while (m_get(false, 0)) m_get(true, 0);
    MC_CHECK(m_add('P'), "add_refused", "P-slice refused though all SEIs have been fetched");
  }
  m_done();
}
/* ---------------------------------------------------------------- P16 NALUs in parts */
static bool p_part(const uint8_t *d, size_t n, const int64_t *ts, bool last, int *refused)
{
  for (;;) {
    /* A buffer of exactly this size, to catch reads outside it. */
    uint8_t *b = malloc(n);
    memcpy(b, d, n);
    int rc = signed_video_add_nalu_part_for_signing_with_timestamp(M.sv, b, n, ts, last);
    free(b);
    mc_op();
    if (rc == SV_NOT_SUPPORTED && !(*refused)++) {
      m_ready();
      MC_CHECK(M.ready > M.fetched, "add_refused", "NALU part refused though no SEI is waiting");
      while (m_get(false, 0)) m_get(true, 0);
      continue;
    }
    MC_CHECK(rc == SV_OK, "sign_api_error", "adding a part of a NALU returned %d", rc);
    return true;
  }
}
static void p16(void)
{
  sim_begin();
  static const int none[] = {0}, ds[] = {0, 2};
  delay_set = mc_tier() ? ds : none;
  delay_set_n = mc_tier() ? 2 : 1;
  memset(&M.c, 0, sizeof(M.c));
  M.c.ts = 1;
  M.c.codec = mc_choose(2, "codec");
  M.c.level = mc_choose(2, "level");
  M.c.pad = mc_choose(2, "pad") ? 6 : 0;
  const char *spec = "VIPIiPIP";
  int which = mc_choose((int)strlen(spec), "NALU"), zeros = mc_choose(3, "zeros"), early = mc_choose(2, "peek size only");
  int also = mc_tier() ? mc_choose((int)strlen(spec), "other NALU") : -1;
  if (also >= which) mc_prune();
  m_init();
  for (int i = 0; spec[i]; i++) {
    mcp.tick++;
    /* Either fetch as documented, or make the library refuse the NALU first. */
    if (early) m_get(false, 0);
    else while (m_get(false, 0)) m_get(true, 0);
    nalu_t n = sim_nalu(&M.c, spec[i], i);
    n.ts = 1000 + i;
    uint8_t d[200] = {0};
    memcpy(d, n.data, n.size);
    size_t sz = n.size;
    int cut1 = 0, cut2 = 0;
    int refused = 0, had = num_e;
    if (i == which || i == also) {
      if (i == which) sz += (size_t)zeros;
      size_t min = 4 + (M.c.codec == SV_CODEC_H264 ? 2 : 3);
      cut1 = (int)min + mc_choose((int)(sz - min), "first cut");
      cut2 = i == which ? cut1 + mc_choose((int)(sz - cut1), "second cut") : cut1;
      /* Trailing zeros are no part of the NALU; only the last part may hold them. */
      if ((size_t)cut1 > n.size || (size_t)cut2 > n.size) mc_prune();
    }
    if (cut1) p_part(d, (size_t)cut1, &n.ts, false, &refused);
    if (cut2 > cut1) p_part(d + cut1, (size_t)(cut2 - cut1), &n.ts, false, &refused);
    p_part(d + (cut2 ? cut2 : 0), sz - (cut2 ? cut2 : 0), &n.ts, true, &refused);
    MC_CHECK(early || !refused, "add_refused", "NALU part refused though all SEIs had been fetched");
    ref_feed(spec[i], n.data, n.size, &n.ts);
    if (num_e > had) M.due[had] = mcp.tick + opt_delay[had];
    sim_append(&S, n);
  }
  m_done();
}

/* ---------------------------------------------------------------- P17 size limits */
static void p17_max(void)
{
  sim_begin();
  cfg_t c = {.level = 1, .ts = 1};
  c.codec = mc_choose(2, "codec");
  c.no_epb = mc_choose(2, "no_epb");
  static const char *const hashes[] = {NULL, "sha512"};
  c.hash = hashes[mc_choose(2, "hash")];
  c.recurrence = mc_choose(2, "recurrence") ? 4 : 0;
  static const char *const specs[] = {"IPPIIPPPPPIPIPP", "IiPpPpPpIiPpIiIiPpIP"};
  const char *spec = specs[mc_choose(2, "spec")];
  c.max_sei = 1 + mc_choose(mc_tier() ? 2000 : 1200, "max");
  sim_sign(&c, spec, &S);
  check_stream(&S, &c, true);
  sim_play(&S, NULL, &R);
  mc_note("%s", sim_types(&S));
  mc_note("%s", sim_run_str(&R));
  for (int i = 0; i < R.nrep; i++)
    MC_CHECK(R.rep[i].auth == SV_AUTH_RESULT_OK || R.rep[i].at <= (spec[1] == 'i' ? 9 : 3), "untampered_not_ok", "report at NALU %d is %s", R.rep[i].at, auth_str(R.rep[i].auth));
  MC_CHECK(R.final.a_auth == SV_AUTH_RESULT_OK, "untampered_not_ok", "overall result is %s", auth_str(R.final.a_auth));
  mc_state(mc_hash(sim_types(&S), S.len, c.max_sei));
}
/* More pictures in a GOP than fit in a SEI. */
/* GOPs around the sizes where a counter may be cut off, passed on at once. */
static void p17_huge(void)
{
  sim_begin();
  cfg_t c = {.ts = 1, .pad = 4};
  c.level = mc_choose(2, "level");
  c.codec = mc_choose(2, "codec");
  static const int around[] = {256, 512, 4096, 8192};
  int n = around[mc_choose(mc_tier() ? 4 : 3, "around")] - 2 + mc_choose(5, "length");
  int bad = mc_choose(2, "tamper") ? n - 7 : -1;
  signed_video_t *sv = sim_signer(&c), *va = signed_video_create(c.codec);
  sim_run_init(&R);
  nalu_t kind[2] = {sim_nalu(&c, 'I', 0), sim_nalu(&c, 'P', 0)};
  static const int len[] = {2, 0, 3, 2, 2, 1};
  int id = 0;
  for (int g = 0; g < 6; g++) {
    int pics = len[g] ? len[g] : n;
    for (int i = 0; i < pics; i++, id++) {
      nalu_t *p = &kind[i > 0];
      p->data[p->size - 4] = (uint8_t)(0x80 | (id >> 12 & 0x3f));
      p->data[p->size - 3] = (uint8_t)(0x80 | (id >> 6 & 0x3f));
      p->data[p->size - 2] = (uint8_t)(0x80 | (id & 0x3f));
      int64_t ts = id;
      S.len = S.num_seis = 0;
      sim_pull(sv, &c, p, &S);
      MC_CHECK(signed_video_add_nalu_for_signing_with_timestamp(sv, p->data, p->size, &ts) == SV_OK, "sign_api_error", "NALU %d refused", id);
      mc_op();
      for (int k = 0; k < S.len; k++) sim_feed(va, S.n[k].data, S.n[k].size, R.nrc, &R);
      if (g == 1 && i == bad) p->data[p->size - 5] ^= 4;
      R.nrc = 0;
      sim_feed(va, p->data, p->size, 0, &R);
      if (g == 1 && i == bad) p->data[p->size - 5] ^= 4;
    }
  }
  sim_final(va, &R);
  signed_video_free(sv);
  signed_video_free(va);
  mc_note("%d pictures, tampered at %d; overall result %s", n, bad, auth_str(R.final.a_auth));
  int want = bad < 0 ? SV_AUTH_RESULT_OK : SV_AUTH_RESULT_NOT_OK;
  MC_CHECK(R.final.a_auth == want, "huge_gop", "overall result of a GOP with %d pictures is %s, expected %s", n, auth_str(R.final.a_auth), auth_str(want));
  int total = 0;
  for (int i = 0; i < R.nrep; i++) {
    if (bad < 0 && R.rep[i].auth == SV_AUTH_RESULT_OK)
      MC_CHECK(R.rep[i].exp == R.rep[i].recv, "counts", "%d pictures expected, %d received, GOP of %d", R.rep[i].exp, R.rep[i].recv, n);
    if (R.rep[i].recv > 0) total += R.rep[i].recv;
  }
  mc_note("%d pictures counted", total);
  mc_state(mc_hash(&R.final.a_auth, sizeof(int), n * 8 + (bad >= 0)));
  mc_nonvacuous();
}
static void p17_long(void)
{
  sim_begin();
  cfg_t c = {0};
  c.level = mc_choose(2, "level");
  c.codec = mc_choose(2, "codec");
  static const char *const hashes[] = {NULL, "sha384", "sha512"};
  static const int room[] = {600, 400, 300};
  int h = mc_choose(3, "hash");
  c.hash = hashes[h];
  int n = room[h] - 3 + mc_choose(7, "length");
  static char spec[1000];
  int k = 0;
  spec[k++] = 'I';
  spec[k++] = 'P';
  spec[k++] = 'I';
  for (int i = 1; i < n; i++) spec[k++] = 'P';
  c.eos = mc_choose(2, "end of stream");
  strcpy(spec + k, c.eos ? "" : "IPIPIP");
  sim_sign(&c, spec, &S);
  check_stream(&S, &c, true);
  int bad = -1, what = mc_choose(3, "tamper");
  if (what) {
    bad = 20 + mc_choose(3, "where") * (n - 30) / 2;
    while (!is_pic(S.n[bad].type)) bad++;
    if (what == 1) S.n[bad].data[S.n[bad].size - 2] ^= 4;
    else sim_remove(&S, bad);
  }
  sim_play(&S, NULL, &R);
  mc_note("%d pictures, tampered at %d; overall result %s", n, bad, auth_str(R.final.a_auth));
  MC_CHECK(R.first_error < 0, "validation_error", "error %d at NALU %d", R.rc[R.first_error], R.first_error);
  int want = !what ? SV_AUTH_RESULT_OK : what == 1 || c.level == 0 || n > room[h] ? SV_AUTH_RESULT_NOT_OK : SV_AUTH_RESULT_OK_WITH_MISSING_INFO;
  MC_CHECK(R.final.a_auth == want, "long_gop", "overall result of a GOP with %d pictures is %s, expected %s", n, auth_str(R.final.a_auth), auth_str(want));
  mc_state(mc_hash(&R.final.a_auth, sizeof(int), n * 8 + what));
}

/* ---------------------------------------------------------------- P18 failing signatures */
static int f_outcome[64], f_n, f_max;
static int fail_outcome(int idx)
{
  if (idx >= 64) return 0;
  while (f_n <= idx) f_outcome[f_n++] = f_n < f_max ? mc_choose(4, "outcome") : 0;
  return f_outcome[idx];
}
static void p18(void)
{
  sim_begin();
  static const int ds[] = {0, 2, 5};
  delay_set = ds;
  memset(&M.c, 0, sizeof(M.c));
  M.c.level = mc_choose(2, "level");
  M.c.ts = 1;
  M.c.recurrence = mc_choose(2, "recurrence") ? 100 : 0;
  delay_set_n = mc_tier() ? 3 : 2;
  num_delay = 0;
  f_n = 0;
  f_max = mc_tier() ? 4 : 3;
  mcp.delay = choose_delay;
  mcp.outcome = fail_outcome;
  ref_init(&G, &M.c);
  num_e = 0;
  M.sv = sim_signer(&M.c);
  S.len = S.num_seis = 0;
  S.codec = M.c.codec;
  static struct {
    int e; /* expected SEI */
    int outcome, due;
  } q[40];
  int nq = 0, head = 0, got = 0, errors = 0, nfail = 0, id = 0;
  const char *spec = mc_tier() ? "IPPIPIPIPPIPIPPIPIPP" : "IPIPIPIPPIPIPIPIPP";
  static uint8_t b[20000];
  for (int i = 0;; i++) {
    mcp.tick++;
    if (!spec[i]) mcp.tick += 100;
    /* Fetch what there is. An error in signing is reported once, and affects that SEI only. */
    for (int guard = 0;; guard++) {
      MC_CHECK(guard < 50, "signing_error_stuck", "fetching SEIs does not come to an end");
      size_t sz = 0;
      int rc = signed_video_get_sei(M.sv, NULL, &sz, NULL, NULL, 0, NULL);
      mc_op();
      while (head < nq && q[head].due <= mcp.tick && q[head].outcome == 3) head++; /* dropped silently */
      bool avail = head < nq && q[head].due <= mcp.tick;
      if (rc != SV_OK) {
        /* May be reported before SEIs completed in the same call have been fetched. */
        int k = head;
        while (k < nq && q[k].due <= mcp.tick && q[k].outcome != 2) k++;
        MC_CHECK(k < nq && q[k].due <= mcp.tick, "spurious_error", "signed_video_get_sei() returned %d, but no signing failed", rc);
        q[k].outcome = 3;
        errors++;
        continue;
      }
      if (!sz) {
        MC_CHECK(!avail, "sei_available", "no SEI offered, though SEI %d is signed", q[head].e);
        break;
      }
      MC_CHECK(avail && q[head].outcome == 0, "sei_available", "a SEI is offered, though none is signed");
      rc = signed_video_get_sei(M.sv, b, &sz, NULL, NULL, 0, NULL);
      mc_op();
      if (rc != SV_OK) {
        int k = head + 1;
        while (k < nq && q[k].due <= mcp.tick && q[k].outcome != 2) k++;
        MC_CHECK(k < nq && q[k].due <= mcp.tick, "spurious_error", "signed_video_get_sei() returned %d, but no signing failed", rc);
        q[k].outcome = 3;
        errors++;
        continue;
      }
      nalu_t n = {0};
      n.data = sim_alloc(sz);
      memcpy(n.data, b, sz);
      n.size = sz;
      n.type = 'S';
      n.id = q[head].e;
      n.pos = -1;
      ref_check(&n, &E[q[head].e], &M.c, &F);
      if (!got++) MC_CHECK(sei_tlv(&F, 2), "recurrent_lost", "first SEI to be delivered lacks the public key");
      sim_append(&S, n);
      head++;
    }
    if (!spec[i]) break;
    nalu_t n = sim_nalu(&M.c, spec[i], id);
    n.ts = 1000 + id;
    int had = num_e, req = mcp.num_requests;
    int rc = signed_video_add_nalu_for_signing_with_timestamp(M.sv, n.data, n.size, &n.ts);
    mc_op();
    bool failed = mcp.num_requests > req && f_outcome[req] == 1;
    MC_CHECK((rc == SV_OK) == !failed, "sign_error_code", "adding NALU %d returned %d, signing failed: %d", i, rc, failed);
    if (failed) {
      MC_CHECK(rc == mcp.error, "sign_error_code", "signing error %d became %d", mcp.error, rc);
      /* The NALU has to be added again. */
      rc = signed_video_add_nalu_for_signing_with_timestamp(M.sv, n.data, n.size, &n.ts);
      mc_op();
      MC_CHECK(rc == SV_OK, "sign_retry", "adding NALU %d once more returned %d", i, rc);
    }
    ref_feed(spec[i], n.data, n.size, &n.ts);
    if (num_e > had) {
      if (!failed) {
        q[nq].e = had;
        q[nq].outcome = f_outcome[req];
        q[nq].due = mcp.tick + opt_delay[req];
        nq++;
      }
      nfail += f_outcome[req] != 0;
    }
    sim_append(&S, n);
    id++;
  }
  MC_CHECK(head == nq, "sei_lost", "%d SEIs were to come, %d came", nq, head);
  signed_video_free(M.sv);
  if (nfail) mc_nonvacuous();
  mc_note("%s (%d signatures failed)", sim_types(&S), nfail);
  /* The video is nothing but short of some signatures. */
  for (int i = 0, p = 0; i < S.len; i++)
    if (is_pic(S.n[i].type)) S.n[i].src = 1, S.n[i].pos = p++;
  sim_play(&S, NULL, &R);
  mc_note("%s", sim_run_str(&R));
  static digest_t D;
  oracle_sound(&S, &R, &D);
  MC_CHECK(R.first_error < 0, "validation_error", "error %d at NALU %d", R.first_error >= 0 ? R.rc[R.first_error] : 0, R.first_error);
  /* Failures have ceased: validation is back on track, unless the first signature is missing or some come late. */
  bool late = f_outcome[0] != 0;
  for (int i = 0; i < nq; i++) late |= opt_delay[i] > 1;
  if (!late)
    MC_CHECK(R.nrep && R.rep[R.nrep - 1].auth == SV_AUTH_RESULT_OK, "no_recovery", "last result is %s", R.nrep ? auth_str(R.rep[R.nrep - 1].auth) : "none");
  mc_state(run_fp(&R));
}

/* ---------------------------------------------------------------- P19 recurrence */
static void p19(void)
{
  sim_begin();
  cfg_t c = {.level = mc_choose(2, "level")};
  char spec[40] = "I";
  int k = 1, n = mc_tier() ? 10 : 8;
  while (k < n) spec[k++] = "PIp"[mc_choose(3, "nalu")];
  strcpy(spec + k, "PPIPIPPPPIP");
  c.recurrence = 1 + mc_choose(mc_tier() ? 9 : 7, "recurrence");
  sim_sign(&c, spec, &S);
  mc_note("%s recurrence %d", sim_types(&S), c.recurrence);
  check_stream(&S, &c, true);
  /* Signatures are immediate. The SEI generated by an I-slice carries the information exactly if a frame
   * with a number divisible by the interval has been added since the last SEI that did. */
  bool due = false;
  int frame = 0;
  bool want[40], seen = false;
  int nw = 0, nc = 0;
  for (int i = 0; spec[i]; i++) {
    if (spec[i] != 'I' && spec[i] != 'P') continue;
    if (frame++ % c.recurrence == 0) due = true;
    if (spec[i] == 'I' && seen) want[nw++] = due, due = false;
    if (spec[i] == 'I') seen = true;
  }
  for (int i = 0; i < S.len; i++)
    if (S.n[i].type == 'S') {
      sei_parse(S.n[i].data, S.n[i].size, c.codec, &F);
      bool has = sei_tlv(&F, 2) && sei_tlv(&F, 3) && sei_tlv(&F, 7);
      MC_CHECK(nc < nw && has == want[nc], "recurrence", "SEI %d carries the recurrent information: %d, interval %d frames", nc, has, c.recurrence);
      nc++;
    }
  mc_state(mc_hash(spec, strlen(spec), c.recurrence));
}
/* With latency: the first SEI of all, and any SEI generated by a frame the interval names. */
static void p19_late(void)
{
  sim_begin();
  static const char *const specs[] = {"IPPPIPPPIPPPIPPPIPPPIP", "IPIPPIPPPPIPIPIPPIPPP"};
  static const char *const delays[] = {"0", "1", "3", "5", "9", "0502", "9010", "720131", "35"};
  cfg_t c = {.level = mc_choose(2, "level"), .golden = mc_choose(2, "golden")};
  c.recurrence = 1 + mc_choose(mc_tier() ? 25 : 13, "recurrence");
  const char *spec = specs[mc_choose(2, "spec")];
  sim_sign_cached(&c, spec, delays[mc_choose(9, "delay")], &S);
  mc_note("%s recurrence %d", sim_types(&S), c.recurrence);
  check_stream(&S, &c, false);
  bool want[40], seen = false;
  int nw = 0, nc = 0, frame = 0;
  if (c.golden) want[nw++] = true;
  for (int i = 0; spec[i]; i++) {
    bool hit = frame++ % c.recurrence == 0;
    if (spec[i] != 'I') continue;
    if (seen) want[nw] = nw == 0 || hit, nw++;
    seen = true;
  }
  for (int i = 0; i < S.len; i++)
    if (S.n[i].type == 'S' || S.n[i].type == 'G') {
      sei_parse(S.n[i].data, S.n[i].size, c.codec, &F);
      bool has = sei_tlv(&F, 2) && sei_tlv(&F, 3) && sei_tlv(&F, 7);
      if (c.golden) MC_CHECK(has == (nc == 0), "recurrence", "SEI %d carries the recurrent information: %d, with golden SEI", nc, has);
      else if (want[nc]) MC_CHECK(has, "recurrence", "SEI %d does not carry the recurrent information, interval %d frames", nc, c.recurrence);
      nc++;
    }
  mc_state(mc_hash(spec, strlen(spec), c.recurrence));
}

/* Intervals and numbers of frames that do not fit in one or two bytes. */
static void p19_large(void)
{
  sim_begin();
  static const int kInterval[] = {7, 100, 255, 256, 257, 300, 513, 1000, 65535, 65536, 65537, 70000, 3, 127, 128, 129, 511, 512, 4096};
  static const int kGop[] = {1, 30, 61, 300};
  cfg_t c = {.level = mc_choose(2, "level"), .pad = 4};
  c.recurrence = kInterval[mc_choose(mc_tier() ? 19 : 12, "interval")];
  int gop = kGop[mc_choose(4, "gop")];
  int frames = gop == 1 ? 3 * c.recurrence : 2 * c.recurrence > 66000 ? 2 * c.recurrence : 66000;
  if (gop == 1 && frames > 4000) mc_prune();
  mc_note("interval %d, %d frames, GOPs of %d", c.recurrence, frames + 2 * gop, gop);
  signed_video_t *sv = sim_signer(&c);
  bool due = false, want = false;
  int seis = 0, with = 0;
  nalu_t ni = sim_nalu(&c, 'I', 1), np = sim_nalu(&c, 'P', 2);
  for (int f = 0; f < frames + 2 * gop; f++) {
    const nalu_t *n = f % gop ? &np : &ni;
    mcp_tick();
    S.len = 0;
    if (n == &ni || f % gop == 1) {
      sim_pull(sv, &c, n, &S);
      for (int i = 0; i < S.len; i++, seis++) {
        sei_parse(S.n[i].data, S.n[i].size, c.codec, &F);
        bool has = sei_tlv(&F, 2) && sei_tlv(&F, 3) && sei_tlv(&F, 7);
        MC_CHECK(has == want, "recurrence", "SEI %d, before frame %d, carries the recurrent information: %d, interval %d frames", seis, f, has, c.recurrence);
        with += has;
      }
    }
    MC_CHECK(signed_video_add_nalu_for_signing_with_timestamp(sv, n->data, n->size, NULL) == SV_OK, "error", "frame %d", f);
    mc_op();
    if (f % c.recurrence == 0) due = true;
    if (n == &ni && f) want = due, due = false;
  }
  signed_video_free(sv);
  MC_CHECK(with > 1 && with <= seis, "recurrence", "%d of %d SEIs carry it", with, seis);
  mc_nonvacuous();
  mc_state(mc_hash(&frames, sizeof(frames), (uint64_t)c.recurrence * 1000 + gop));
}

static const char *const kAssume[] = {
    "The signing plugin is the repository's unthreaded one behind a controllable delay; OpenSSL is trusted; its randomness is fixed (signatures are deterministic).",
    NULL};
static const mc_scenario kP14[] = {
    {"sequences", p14_seq, "all sequences of 6 (7) NALUs from {I, P, p, i, PPS} after an I-slice, and 2 more; both codecs and levels", 0, 0, -1, 0},
    {"configurations", p14_cfg, "2 (3) sequences x codec x level x 3 keys x 3 hash algorithms x EPB mode x golden SEI x public key or not x timestamps x 2 (3) recurrences x end of stream x product info (x SEI placement)", 0, 0, -1, 0},
    {"long_gop", p17_long, "GOPs of 3 less to 3 more pictures than the 600 (sha256), 400 (sha384) or 300 (sha512) hashes that fit; untampered, picture modified, picture removed at 3 positions; both levels and codecs; ended by the next GOP or the end of stream", 0, 0, -1, 0},
    {"day", p14_day, "each SEI of a recording of 65550 (131080) GOPs; both levels (and codecs)", 0, 0, -1, 0},
};
static const mc_scenario kP15[] = {
    {"operations", p15_ops, "all histories of 6 (8) operations from {add I, P or PPS; ask for the size of a SEI; fetch one peeking at a P-slice, at a PPS (thorough: without peeking)}, each signature taking 0, 2 (or 5) operations", 0, 0, -1, 0},
    {"peek", p15_peek, "one of 11 kinds of NALU peeked at, at any place of 2 sequences, with a buffer or without, SEIs being fetched in between or not, each signature taking 0 or 2 operations; both levels and codecs", 0, 0, -1, 0},
    {"deprecated", p15_old, "all histories of 7 (8) operations from {add I, add P, fetch one, fetch all}, each signature taking 0, 2 (or 5) operations", 0, 0, -1, 0},
    {"full", p15_full, "SEIs fetched only after 50..69 GOPs (60 fit) of 1..3 NALUs; both levels and codecs", 0, 0, -1, 0},
};
static const mc_scenario kP16[] = {
    {"parts", p16, "each NALU (thorough: and one before it) of a sequence of 8, followed by 0..2 trailing zeros, added in 1..3 parts cut anywhere; SEIs fetched before, or only after the part has been refused; both codecs and levels, 2 sizes (2 latencies)", 0, 0, -1, 0},
};
static const mc_scenario kP17[] = {
    {"max_payload", p17_max, "maximum payload size 1..1200 (2000), 2 sequences of GOPs of 1..8 NALUs; both codecs and EPB modes, 2 hash algorithms, 2 recurrences", 0, 0, -1, 0},
    {"long_gop", p17_long, "GOPs of 3 less to 3 more pictures than the 600 (sha256), 400 (sha384) or 300 (sha512) hashes that fit; untampered, picture modified, picture removed at 3 positions; both levels and codecs; ended by the next GOP or the end of stream", 0, 0, -1, 0},
    {"huge_gop", p17_huge, "GOPs of 254..258, 510..514, 4094..4098 (8190..8194) pictures; untampered, or a picture modified; both levels and codecs", 0, 0, -1, 0},
};
static const mc_scenario kP18[] = {
    {"failures", p18, "each of the first 3 (4) signing requests succeeds, is refused by the plugin, fails later with an error, or gives no signature; each takes 0, 2 (or 5) ticks; both levels, 2 recurrences", 0, 0, -1, 0},
};
static const mc_scenario kP19[] = {
    {"interval", p19, "all sequences of 8 (10) NALUs from {I, P, p} after which more GOPs follow, intervals of 1..7 (9) frames; both levels; immediate signatures", 0, 0, -1, 0},
    {"latency", p19_late, "2 sequences, intervals of 1..13 (25) frames, 9 latency patterns, with and without golden SEI; both levels", 0, 0, -1, 0},
    {"large", p19_large, "12 (19) intervals of 7..70000 frames, GOPs of 1, 30, 61 or 300 pictures, 66000 frames and more; both levels; immediate signatures", 0, 0, -1, 0},
};

#define PROP(id, as, sc) {id, as, sc, sizeof(sc) / sizeof(sc[0])}
static const mc_property kProps[] = {
    PROP("P14", kAssume, kP14),
    PROP("P15", kAssume, kP15),
    PROP("P16", kAssume, kP16),
    PROP("P17", kAssume, kP17),
    PROP("P18", kAssume, kP18),
    PROP("P19", kAssume, kP19),
};
int main(int argc, char **argv)
{
  sim_init();
  return mc_main(argc, argv, kProps, sizeof(kProps) / sizeof(kProps[0]));
}
