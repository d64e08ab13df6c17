/* P01..P08: properties of whole signed streams. */
#include "edits.h"
#include "forge.h"
#include <stdio.h>

static stream_t S, O, Q;
static run_t R;
static digest_t D;

/* ---------------------------------------------------------------- P01 completeness */

/* An untampered stream, played from its start. */
static void complete_oracle(const stream_t *s, const run_t *r, const char *pub)
{
  mc_note("%s", sim_types(s));
  mc_note("%s", sim_run_str(r));
  oracle_no_error(r);
  oracle_sound(s, r, &D);
  int first_sei = s->len;
  for (int i = s->len - 1; i >= 0; i--)
    if (s->n[i].type == 'S' || s->n[i].type == 'G') first_sei = i;
  for (int i = 0; i < r->nrep; i++) {
    const rep_t *q = &r->rep[i];
    if (q->at < first_sei)
      MC_CHECK(q->auth == SV_AUTH_RESULT_NOT_SIGNED, "before_signature",
          "report at NALU %d, before any signature, is %s", q->at, auth_str(q->auth));
    else
      MC_CHECK(q->auth == SV_AUTH_RESULT_OK ||
              (q->auth == SV_AUTH_RESULT_SIGNATURE_PRESENT && D.num_ok + D.num_notok == 0),
          "untampered_not_ok", "report at NALU %d of an untampered stream is %s (%s)", q->at,
          auth_str(q->auth), q->vstr);
    if (q->auth == SV_AUTH_RESULT_OK)
      MC_CHECK(q->exp == q->recv, "untampered_counts", "OK report: expected %d, received %d", q->exp,
          q->recv);
  }
  /* The SEI of GOP g has been delivered, hence (at the latest when one more GOP has started) all its
   * picture NALUs have been authenticated. */
  int num_sei = 0;
  for (int i = 0; i < s->len; i++) num_sei += s->n[i].type == 'S';
  for (int i = 0; i < s->len; i++)
    if (is_pic(s->n[i].type) && s->n[i].gop >= 0 && s->n[i].gop < num_sei)
      MC_CHECK(D.st[i] == '.', "untampered_unvalidated",
          "NALU %d of GOP %d (of %d signed) was not authenticated, status %c", i, s->n[i].gop, num_sei,
          D.st[i]);
  if (num_sei > 0) {
    mc_nonvacuous();
    MC_CHECK(r->has_final && r->final.a_auth == SV_AUTH_RESULT_OK, "untampered_overall",
        "overall result of an untampered stream is %s", auth_str(r->final.a_auth));
  }
  mc_state(run_fp(r));
  mc_trace_ok();
}

static void play_complete(const cfg_t *c, const stream_t *s)
{
  const char *pub = c->no_pubkey ? sim_pub_key(c->key) : NULL;
  sim_play(s, pub, &R);
  complete_oracle(s, &R, pub);
}

/* All NALU sequences up to a length. */
static void p01_sequences(void)
{
  sim_begin();
  cfg_t c = {0};
  c.codec = mc_choose(2, "codec");
  c.level = mc_choose(2, "level");
  c.after = mc_choose(2, "after");
  static const char alpha[] = "PIiVpAZO";
  int na = mc_tier() ? 5 : 4, len = mc_tier() ? 8 : 7;
  char spec[32] = "I";
  for (int i = 1; i < len; i++) spec[i] = alpha[mc_choose(na, "nalu")];
  spec[len] = 0;
  strcat(spec, "I"); /* ends the last GOP */
  sim_sign(&c, spec, &S);
  play_complete(&c, &S);
}

static const char *kConfSpecs[] = {"IPPIPPIPPIPP", "IIPIVPPI", "IiPpIiPpIiPpIP", "VWIPPAZVWIPPOVWIPXI"};
static void p01_config(void)
{
  sim_begin();
  cfg_t c = {0};
  c.codec = mc_choose(2, "codec");
  c.level = mc_choose(2, "level");
  c.key = mc_choose(mc_tier() ? 5 : 2, "key");
  const char *h[] = {NULL, "sha512", "sha384", "sha256"};
  c.hash = h[mc_choose(mc_tier() ? 4 : 3, "hash")];
  c.no_epb = mc_choose(3, "epb");
  int rec[] = {0, 1, 4, 7};
  c.recurrence = rec[mc_choose(mc_tier() ? 4 : 3, "recurrence")];
  c.ts = mc_choose(2, "timestamps");
  c.no_pubkey = mc_choose(2, "pubkey");
  int mode = mc_choose(4, "pull");
  c.no_peek = mode == 1;
  c.old_api = mode >= 2;
  c.after = mode == 3;
  const char *spec = kConfSpecs[mc_choose(mc_tier() ? 4 : 4, "spec")];
  sim_sign(&c, spec, &S);
  play_complete(&c, &S);
}

static int two_ticks(int i)
{
  (void)i;
  return 2;
}
static int choose_delay(int i)
{
  (void)i;
  return mc_choose(mc_tier() ? 6 : 5, "delay");
}
static const char *kDelaySpecs[] = {"IPPIPPIPPIPPIP", "IIIPIIIP", "IPIPPIPPPIPPPP", "IiPpIiPpIiPpIP"};
static void p01_delays(void)
{
  sim_begin();
  cfg_t c = {0};
  c.codec = mc_choose(2, "codec");
  c.level = mc_choose(2, "level");
  c.after = mc_choose(2, "after");
  mcp.delay = choose_delay;
  sim_sign(&c, kDelaySpecs[mc_choose(4, "spec")], &S);
  play_complete(&c, &S);
}

/* More options, the golden SEI excepted. */
static void p01_options(void)
{
  sim_begin();
  cfg_t c = {0};
  c.codec = mc_choose(2, "codec");
  c.level = mc_choose(2, "level");
  c.product = mc_choose(2, "product");
  c.eos = mc_choose(2, "eos");
  static const int kMax[] = {0, 1, 300, 400, 500, 600, 700, 800, 1000};
  c.max_sei = kMax[mc_choose(9, "max_sei")];
  c.recurrence = mc_choose(2, "recurrence") ? 5 : 0;
  c.no_epb = mc_choose(2, "epb");
  c.pad = mc_choose(2, "pad") ? 40 : 0;
  mcp.delay = mc_choose(2, "late") ? two_ticks : NULL;
  static const char *const specs[] = {"IPPPPPIPPPPPPPPPPPIIIPIPPPPPPPPPI", "IPPIiPiPpPiPpPIP"};
  sim_sign(&c, specs[mc_choose(2, "spec")], &S);
  play_complete(&c, &S);
}

/* Recordings in which counters exceed one byte. */
static bool in_tail(const nalu_t *n);
static int tail_gop;
static void late(cfg_t *c, stream_t *s)
{
  memset(c, 0, sizeof(*c));
  c->codec = mc_choose(2, "codec");
  c->level = mc_choose(2, "level");
  c->pad = 4;
  static const int kBefore[] = {255, 126, 128, 254, 256, 127, 129, 253, 257, 125, 258};
  int n = kBefore[mc_choose(mc_tier() ? 11 : 5, "before")];
  static char spec[400];
  memset(spec, 'I', (size_t)n);
  strcpy(spec + n, "PPIPPPIPIPPIPPIP");
  tail_gop = n - 2;
  sim_sign_cached(c, spec, NULL, s);
  mc_note("codec %d level %d, %d GOPs before", c->codec, c->level, n);
}
/* The same with two bytes; the recording starts when the camera has been running for a day. */
static void later(cfg_t *c, stream_t *s)
{
  memset(c, 0, sizeof(*c));
  c->level = mc_choose(2, "level");
  c->codec = mc_tier() ? mc_choose(2, "codec") : c->level;
  c->pad = 4;
  static const int kBefore[] = {65535, 32767, 65534, 65536, 32768};
  int n = kBefore[mc_tier() ? mc_choose(5, "before") : 0];
  c->before = n - 8;
  tail_gop = 6;
  sim_sign_cached(c, "IIIIIIIIPPIPPPIPIPPIPPIP", NULL, s);
  mc_note("codec %d level %d, %d GOPs before", c->codec, c->level, n);
}
/* A validation that goes on for a day. */
static signed_video_t *long_auth;
static int long_ok, long_seis;
static unsigned long_total;
static void long_feed(const nalu_t *n)
{
  signed_video_authenticity_t *a = NULL;
  long_seis += n->type == 'S';
  long_total++;
  SignedVideoReturnCode rc = signed_video_add_nalu_and_authenticate(long_auth, n->data, n->size, &a);
  MC_CHECK(rc == SV_OK, "validation_error", "error %d at GOP %d", rc, n->gop);
  if (!a) return;
  SignedVideoAuthenticityResult r = a->latest_validation.authenticity;
  int e = a->latest_validation.number_of_expected_picture_nalus, g = a->latest_validation.number_of_received_picture_nalus;
  unsigned total = a->accumulated_validation.number_of_received_nalus;
  SignedVideoAuthenticityResult o = a->accumulated_validation.authenticity;
  signed_video_authenticity_report_free(a);
  if (!long_seis && r == SV_AUTH_RESULT_NOT_SIGNED) return;
  MC_CHECK(r == SV_AUTH_RESULT_OK, "untampered_not_ok", "report at GOP %d of an untampered stream is %s", n->gop, auth_str(r));
  MC_CHECK(e == g, "untampered_counts", "OK report at GOP %d: expected %d, received %d", n->gop, e, g);
  MC_CHECK(o == SV_AUTH_RESULT_OK, "untampered_overall", "overall result at GOP %d is %s", n->gop, auth_str(o));
  MC_CHECK(total == long_total, "untampered_total", "%u NALUs received at GOP %d, they were %u", total, n->gop, long_total);
  long_ok++;
}
static void p01_day(void)
{
  sim_begin();
  cfg_t c = {0};
  c.level = mc_choose(2, "level");
  c.codec = mc_tier() ? mc_choose(2, "codec") : c.level;
  c.pad = 4;
  signed_video_t *sv = sim_signer(&c);
  long_auth = signed_video_create(c.codec);
  long_ok = long_seis = 0;
  long_total = 0;
  int n = mc_tier() ? 131080 : 65550;
  sim_sign_many(sv, &c, n, long_feed);
  signed_video_authenticity_t *a = signed_video_get_authenticity_report(long_auth);
  MC_CHECK(a && a->accumulated_validation.authenticity == SV_AUTH_RESULT_OK, "untampered_overall", "overall result is %s", a ? auth_str(a->accumulated_validation.authenticity) : "none");
  signed_video_authenticity_report_free(a);
  MC_CHECK(long_ok >= n - 3, "untampered_unvalidated", "%d of %d GOPs were authenticated", long_ok, n);
  mc_nonvacuous();
  mc_state((uint64_t)c.level * 2 + c.codec);
  mc_trace_ok();
  signed_video_free(sv);
  signed_video_free(long_auth);
}
static void p01_late(void)
{
  sim_begin();
  cfg_t c;
  late(&c, &S);
  play_complete(&c, &S);
}

static const char *kP01Assume[] = {
    "signing side is the real library driven through the public API with deterministic test keys",
    "OpenSSL is trusted; its randomness is replaced by a deterministic generator", NULL};
static const mc_scenario kP01[] = {
    {"sequences", p01_sequences, "all NALU sequences I x^(L-1) I, x in {P,I,i,V(,p)}, L=7 (thorough 8), both codecs, both levels", 0, 0, -1, 0},
    {"config", p01_config, "all combinations of codec, level, key, hash algorithm, emulation prevention, recurrence, timestamps, key in SEI or manual, SEI fetch mode, over 4 NALU sequences", 0, 0, -1, 0},
    {"delays", p01_delays, "all vectors of signing latency 0..4 (thorough 0..5) NALUs per SEI over 4 NALU sequences, both codecs, both levels", 0, 0, -1, 0},
    {"options", p01_options, "product info x end of stream x 9 maximum SEI sizes x recurrence x EPB mode x picture sizes x latency x codec x level, 2 NALU sequences", 0, 0, -1, 0},
    {"late", p01_late, "recordings of 130..265 GOPs, 5 (11) lengths; both codecs and levels", 0, 0, -1, 0},
    {"day", p01_day, "a recording of 65550 (131080) GOPs validated as it is made; both levels (and codecs)", 0, 0, -1, 0},
};


/* ---------------------------------------------------------------- P02 picture tampering */
static const char *kLong[] = {"IPPIPPIPPIPPIPPIPPIP", "IPIIPPIPIPIPIPI", "IiPpIPIiPpIPpIiPIPIP"};
static const char *kDelays[] = {NULL, "2", "31", "4"};

static void tampered(cfg_t *c, int ncodec, int nspec, int ndelay, stream_t *s)
{
  memset(c, 0, sizeof(*c));
  c->codec = mc_choose(ncodec, "codec");
  c->level = mc_choose(2, "level");
  c->pad = 4;
  c->after = mc_choose(2, "after");
  const char *d = kDelays[mc_choose(ndelay, "delay")];
  sim_sign_cached(c, kLong[mc_choose(nspec, "spec")], d, s);
  mc_note("codec %d level %d delays %s: %s", c->codec, c->level, d ? d : "none", sim_types(s));
}

static void play_tampered(const stream_t *s)
{
  mc_note("%s", sim_types(s));
  sim_play(s, NULL, &R);
  mc_note("%s", sim_run_str(&R));
  oracle_no_error(&R);
  oracle_sound(s, &R, &D);
  mc_state(run_fp(&R));
  mc_trace_ok();
}

/* The change is followed by |n| SEIs and preceded by at least two: it must have been reported. */
static void must_be_reported(const stream_t *s, int first_change, const char *key)
{
  if (seis_before(s, first_change) < 1 || seis_after(s, first_change + 1) < 3) return;
  mc_nonvacuous();
  MC_CHECK(D.num_notok + D.num_missing > 0 && R.has_final &&
          (R.final.a_auth == SV_AUTH_RESULT_NOT_OK || R.final.a_auth == SV_AUTH_RESULT_OK_WITH_MISSING_INFO),
      key, "the tampering at NALU %d was never reported, overall result %s", first_change,
      auth_str(R.final.a_auth));
}

static void p02_single(void)
{
  sim_begin();
  cfg_t c;
  tampered(&c, 2, mc_tier() ? 3 : 2, mc_tier() ? 4 : 3, &S);
  int at = edit_one(&S, &c, E_NUM, pic_filter);
  play_tampered(&S);
  /* Cut off the part which is not yet validated in the end. */
  if (pics_differ(&S, 0, S.len)) must_be_reported(&S, at, "tampering_unreported");
}

static bool in_tail(const nalu_t *n) { return is_pic(n->type) && n->gop >= tail_gop; }
static void p02_tail(void (*make)(cfg_t *, stream_t *))
{
  sim_begin();
  cfg_t c;
  make(&c, &S);
  edit_from = S.len > 40 ? S.len - 40 : 0;
  int at = edit_one(&S, &c, E_SWAP + 1, in_tail);
  edit_from = 0;
  play_tampered(&S);
  if (pics_differ(&S, 0, S.len)) must_be_reported(&S, at, "tampering_unreported");
}
static void p02_late(void) { p02_tail(late); }
static void p02_later(void) { p02_tail(later); }
static void p03_tail(void (*make)(cfg_t *, stream_t *))
{
  sim_begin();
  cfg_t c;
  make(&c, &S);
  int g = tail_gop + mc_choose(5, "gop"), op = mc_choose(3, "op"), a = -1, b = -1;
  /* A GOP with the SEI in front of it. */
  for (int i = 0; i < S.len; i++) {
    if (S.n[i].type == 'I' && S.n[i].gop == g) a = i - 1;
    if (S.n[i].type == 'I' && S.n[i].gop == g + 1) b = i - 1;
  }
  mc_note("op %d [%d,%d)", op, a, b);
  if (a < 0 || b < 0) mc_prune();
  if (op == 0)
    for (int i = a; i < b; i++) sim_remove(&S, a);
  if (op == 1)
    for (int i = a; i < b; i++) sim_insert(&S, b + i - a, sim_nalu_copy(&S.n[i]));
  if (op == 2) /* A GOP of a byte's worth of GOPs ago in its place. */
    for (int i = a, k = 2; i < b; i++, k++) {
      nalu_t n = sim_nalu_copy(&S.n[k]);
      sim_remove(&S, i);
      sim_insert(&S, i, n);
    }
  play_tampered(&S);
  if (pics_differ(&S, 0, S.len)) must_be_reported(&S, first_change(&S), "change_unreported");
}
static void p03_late(void) { p03_tail(late); }
static void p03_later(void) { p03_tail(later); }
static void p02_bytes(void)
{
  /* Every byte (thorough: every bit) of a picture NALU after the NALU header. */
  sim_begin();
  cfg_t c;
  tampered(&c, 2, 1, 1, &S);
  int at = mc_choose(S.len, "at");
  if (!is_pic(S.n[at].type)) mc_prune();
  int hdr = 4 + (c.codec == SV_CODEC_H264 ? 1 : 2);
  int byte = hdr + mc_choose((int)S.n[at].size - hdr, "byte");
  int bit = mc_choose(mc_tier() ? 8 : 3, "bit");
  /* Clearing bits of the last byte may turn it into padding, which is not part of the NALU. */
  edit_mod(&S.n[at], byte, 1 << bit);
  if (S.n[at].data[S.n[at].size - 1] == 0) mc_prune();
  if (is_pic(S.n[at].type) && byte == hdr) S.n[at].type = S.n[at].type; /* slice type may change */
  mc_note("flip bit %d of byte %d in NALU %d", bit, byte, at);
  play_tampered(&S);
  must_be_reported(&S, at, "tampering_unreported");
}

static void p02_pairs(void)
{
  sim_begin();
  cfg_t c;
  tampered(&c, 1, 1, mc_tier() ? 3 : 1, &S);
  edit_one(&S, &c, mc_tier() ? E_COPY : E_INSI, pic_filter);
  edit_one(&S, &c, mc_tier() ? E_COPY : E_INSI, pic_filter);
  if (pics_differ(&S, 0, S.len)) mc_nonvacuous();
  play_tampered(&S);
}

/* A P-frame turned into an I-frame or vice versa, by any change to the NALU header. */
static void p02_header(void)
{
  sim_begin();
  cfg_t c;
  tampered(&c, 2, 1, 1, &S);
  int at = mc_choose(S.len, "at");
  if (!is_pic(S.n[at].type)) mc_prune();
  int hb = c.codec == SV_CODEC_H264 ? 1 : 2;
  int byte = 4 + mc_choose(hb, "byte");
  int mask = 1 + mc_choose(255, "mask");
  edit_mod(&S.n[at], byte, mask);
  /* The NALU may no longer be a picture; then it is as if it was dropped. */
  mc_note("xor header byte %d with %02x in NALU %d", byte, mask, at);
  mc_note("%s", sim_types(&S));
  sim_play(&S, NULL, &R);
  mc_note("%s", sim_run_str(&R));
  /* An invalid NALU header makes the call fail, that is fine. */
  oracle_sound(&S, &R, &D);
  mc_state(run_fp(&R));
  mc_trace_ok();
  must_be_reported(&S, at, "tampering_unreported");
}

/* Pictures of all kinds of sizes; any of some bytes near the start, the end and powers of two. */
static void p02_sizes(void)
{
  sim_begin();
  cfg_t c;
  memset(&c, 0, sizeof(c));
  static const int kPad[] = {0, 1, 247, 248, 249, 4086, 65520, 65526, 65530, 70000, 131072, 200000};
  c.pad = kPad[mc_choose(mc_tier() ? 12 : 10, "pad")];
  c.codec = mc_choose(2, "codec");
  c.level = mc_choose(2, "level");
  sim_sign_cached(&c, "IPPIPPIPPIPPIP", NULL, &S);
  static const int kAt[] = {4, 6, 0, 7};
  int at = kAt[mc_choose(4, "at")], sz = (int)S.n[at].size;
  if (!is_pic(S.n[at].type)) mc_prune();
  int pos[40], np = 0;
  pos[np++] = -1; /* nothing changed */
  pos[np++] = -2; /* cut off */
  pos[np++] = -3; /* extended */
  for (int i = 6; i < 12; i++) pos[np++] = i;
  for (int i = 2; i < 6; i++) pos[np++] = sz - i;
  for (int p = 256; p < sz; p *= 16) pos[np++] = p, pos[np++] = p + 4, pos[np++] = p - 1;
  int x = pos[mc_choose(np, "byte")];
  mc_note("codec %d level %d pictures of %d bytes, NALU %d, change %d", c.codec, c.level, sz, at, x);
  if (x >= sz || (x >= 0 && x < 6)) mc_prune();
  if (x >= 0) edit_mod(&S.n[at], x, 0x08);
  if (x == -2) {
    S.n[at].size--;
    S.n[at].src = -1;
  }
  if (x == -3) {
    uint8_t *d = sim_alloc(sz + 1);
    memcpy(d, S.n[at].data, sz);
    d[sz] = 0x80;
    S.n[at].data = d;
    S.n[at].size = sz + 1;
    S.n[at].src = -1;
  }
  play_tampered(&S);
  if (x == -1) MC_CHECK(D.num_notok + D.num_missing == 0 && D.num_ok > 0, "untampered_not_ok", "untampered, but not OK");
  else must_be_reported(&S, at, "tampering_unreported");
}

static const char *kTamperAssume[] = {
    "the adversary does not know the private key; it edits NALUs on the way from camera to player",
    "OpenSSL is trusted; its randomness is replaced by a deterministic generator", NULL};
static const mc_scenario kP02[] = {
    {"single", p02_single, "every single edit (modify, drop, duplicate, insert foreign P/I, swap with next, copy to any position, move to any position) at every picture NALU of 2 (thorough 3) NALU sequences, 3 (4) SEI latency patterns, both codecs and levels", 0, 0, -1, 0},
    {"bytes", p02_bytes, "3 bits (thorough: 8) of every byte after the header of every picture NALU, both codecs and levels", 0, 0, -1, 0},
    {"header", p02_header, "every value of every NALU header byte of every picture NALU, both codecs and levels", 0, 0, -1, 0},
    {"sizes", p02_sizes, "pictures of 10 (12) sizes up to 70000 (200000) bytes, bytes near the start, the end and powers of 16 changed, cut off or extended", 0, 0, -1, 0},
    {"late", p02_late, "single edits (modify, drop, duplicate, insert, swap) of the pictures of the last GOPs of recordings of 130..265 GOPs, 5 (11) lengths; both codecs and levels", 0, 0, -1, 0},
    {"later", p02_later, "the same, the camera having been running for 65535 GOPs (thorough: 5 numbers, both codecs)", 0, 0, -1, 0},
    {"pairs", p02_pairs, "all pairs of edits (modify, drop, duplicate, insert P; thorough also insert I, swap)", 0, 0, -1, 0},
};

/* ---------------------------------------------------------------- P03 order and linkage of GOPs */
static void p03_ranges(void)
{
  sim_begin();
  cfg_t c;
  tampered(&c, 1, 2, 3, &S);
  int op = mc_choose(3, "op");
  int a = mc_choose(S.len, "a"), b = a + 1 + mc_choose(S.len - a, "b");
  static const char *on[] = {"drop", "dup", "replace"};
  mc_note("%s [%d,%d)", on[op], a, b);
  if (op == 0)
    for (int i = a; i < b; i++) sim_remove(&S, a);
  if (op == 1)
    for (int i = a; i < b; i++) sim_insert(&S, b + i - a, sim_nalu_copy(&S.n[i]));
  if (op == 2) {
    /* Spliced with the corresponding part of another recording of the same camera. */
    cfg_t c2 = c;
    c2.salt = 3;
    sim_sign_cached(&c2, "IPPIPPIPPIPPIPPIPPIP", NULL, &O);
    for (int i = a; i < b && i < O.len; i++) S.n[i] = O.n[i];
  }
  if (pics_differ(&S, 0, S.len)) mc_nonvacuous();
  play_tampered(&S);
  int ch = first_change(&S); /* preceded by a SEI that is in place */
  if (ch >= 0 && seis_before(&S, a) >= 1) must_be_reported(&S, op == 1 ? b : a, "change_unreported");
}

static void p03_splice(void)
{
  /* The first part of one recording followed by the last part of another one. */
  sim_begin();
  cfg_t c;
  tampered(&c, 1, 2, mc_tier() ? 3 : 2, &S);
  cfg_t c2 = c;
  c2.salt = 3;
  sim_sign_cached(&c2, kLong[mc_choose(2, "spec2")], NULL, &O);
  int a = 1 + mc_choose(S.len - 1, "a"), b = mc_choose(O.len, "b");
  mc_note("%s [0,%d) + [%d,end)", sim_types(&S), a, b);
  S.len = a;
  for (int i = b; i < O.len; i++) sim_append(&S, O.n[i]);
  play_tampered(&S);
  if (seis_before(&S, a) >= 1 && seis_after(&S, a + 1) >= 3) {
    mc_nonvacuous();
    MC_CHECK(D.num_notok + D.num_missing > 0, "splice_unreported",
        "the transition between two recordings was never reported");
  }
}

static void p03_gop_perm(void)
{
  /* All arrangements (with repetition) of complete GOPs of one recording. */
  sim_begin();
  cfg_t c;
  memset(&c, 0, sizeof(c));
  c.level = mc_choose(2, "level");
  c.after = mc_choose(2, "after");
  c.codec = mc_tier() ? mc_choose(2, "codec") : 0;
  int n = mc_tier() ? 6 : 5;
  sim_sign_cached(&c, "IPPIPPIPPIPPIPPIPPIPP", NULL, &O);
  static int start[32];
  int ng = 0;
  for (int i = 0; i < O.len; i++)
    if (O.n[i].type == 'S') start[ng++] = i; /* segment: SEI of previous GOP, I, P, P */
  S.codec = c.codec;
  S.len = 0;
  char note[64];
  int nn = 0;
  for (int i = 0; i < start[0]; i++) sim_append(&S, O.n[i]);
  for (int k = 0; k < n; k++) {
    int g = mc_choose(ng, "gop");
    nn += snprintf(note + nn, sizeof(note) - nn, "%d ", g);
    int e = g + 1 < ng ? start[g + 1] : O.len;
    for (int i = start[g]; i < e; i++) sim_append(&S, sim_nalu_copy(&O.n[i]));
  }
  mc_note("GOPs %s", note);
  mc_nonvacuous();
  play_tampered(&S);
  if (pics_differ(&S, 0, S.len)) must_be_reported(&S, first_change(&S), "change_unreported");
}
/* The pictures of a GOP are replaced by those of any other GOP, when some SEIs hold a list of hashes and
 * others had to leave it out because of the size limit. */
static void p03_mixed(void)
{
  sim_begin();
  cfg_t c;
  memset(&c, 0, sizeof(c));
  c.level = SV_AUTHENTICITY_LEVEL_FRAME;
  static const int kMax[] = {0, 500, 600, 650, 700, 750, 800, 900};
  c.max_sei = kMax[mc_choose(8, "max_sei")];
  c.recurrence = mc_choose(2, "recurrence") ? 100 : 0;
  static const char *sp[] = {"IPPIPPIPPPPPPIPPIPPPPPPPIPPIPPI", "IPPPPPPPPIPPIPPPPPPPPIPPIPPPPPPPPPIPI"};
  sim_sign_cached(&c, sp[mc_choose(2, "spec")], NULL, &O);
  int ng = 0;
  for (int i = 0; i < O.len; i++)
    if (is_pic(O.n[i].type) && O.n[i].gop + 1 > ng) ng = O.n[i].gop + 1;
  int dst = mc_choose(ng, "dst"), src = mc_choose(ng, "src");
  mc_note("max_sei %d recurrence %d: %s, GOP %d replaced by GOP %d", c.max_sei, c.recurrence, sim_types(&O), dst, src);
  S.codec = c.codec;
  S.len = 0;
  bool done = false;
  for (int i = 0; i < O.len; i++) {
    if (!is_pic(O.n[i].type) || O.n[i].gop != dst) {
      sim_append(&S, O.n[i]);
      continue;
    }
    if (O.n[i].type == 'I') { /* the I-frame stays in place before the SEI of the previous GOP */
      for (int k = 0; k < O.len; k++)
        if (is_pic(O.n[k].type) && O.n[k].gop == src && O.n[k].type == 'I') sim_append(&S, sim_nalu_copy(&O.n[k]));
    } else if (!done) {
      done = true;
      for (int k = 0; k < O.len; k++)
        if (is_pic(O.n[k].type) && O.n[k].gop == src && O.n[k].type != 'I') sim_append(&S, sim_nalu_copy(&O.n[k]));
    }
  }
  mc_nonvacuous();
  play_tampered(&S);
}

static const mc_scenario kP03[] = {
    {"ranges", p03_ranges, "every range of a signed stream dropped, repeated or replaced by another recording of the same camera, 2 NALU sequences, 3 SEI latency patterns, both levels", 0, 0, -1, 0},
    {"splice", p03_splice, "every prefix of one recording followed by every suffix of another recording of the same camera", 0, 0, -1, 0},
    {"gop_order", p03_gop_perm, "all sequences of 5 (thorough 6) GOPs drawn with repetition from the 6 GOPs of a recording, both levels (thorough: both codecs)", 0, 0, -1, 0},
    {"late", p03_late, "each of the last GOPs of recordings of 130..265 GOPs dropped, repeated or replaced by an early one, 5 (11) lengths; both codecs and levels", 0, 0, -1, 0},
    {"later", p03_later, "the same, the camera having been running for 65535 GOPs (thorough: 5 numbers, both codecs)", 0, 0, -1, 0},
    {"mixed_levels", p03_mixed, "frame level with 8 SEI size limits, so that some SEIs hold a hash list and others do not; every GOP replaced by every other GOP", 0, 0, -1, 0},
};

/* ---------------------------------------------------------------- P04 integrity of the SEIs */

/* As long as nothing but OK has been reported, the information about the source is the genuine one. */
static void oracle_genuine_info(const run_t *r, const cfg_t *c)
{
  for (int i = 0; i < r->nrep; i++) {
    const rep_t *q = &r->rep[i];
    if (q->a_auth != SV_AUTH_RESULT_OK || q->auth != SV_AUTH_RESULT_OK) {
      if (auth_at_all(q->auth)) return;
      continue;
    }
    MC_CHECK(!strcmp(q->hw, "hw") && !strcmp(q->fw, "fw1.2") && !strcmp(q->sn, "SN42") &&
            !strcmp(q->mf, "manu") && !strcmp(q->ad, "addr"),
        "forged_product_info", "report %d is OK, but the product info is not the camera's: %s %s %s %s %s", i,
        q->hw, q->fw, q->sn, q->mf, q->ad);
    if (q->has_ts)
      MC_CHECK(c->ts && q->ts >= 1000000 && q->ts < 1000000 + 40000 * 100 && (q->ts - 1000000) % 40000 == 0,
          "forged_timestamp", "report %d is OK, but the timestamp is not the camera's: %lld", i, (long long)q->ts);
  }
}

static void play_forged(const stream_t *s, const cfg_t *c)
{
  mc_note("%s", sim_types(s));
  sim_play(s, NULL, &R);
  mc_note("%s", sim_run_str(&R));
  oracle_sound(s, &R, &D);
  oracle_genuine_info(&R, c);
  mc_state(run_fp(&R));
  mc_trace_ok();
  mc_nonvacuous();
}

static int nth_sei(const stream_t *s, int k)
{
  for (int i = 0; i < s->len; i++)
    if (s->n[i].type == 'S' && k-- == 0) return i;
  return -1;
}
/* Modifies one picture of GOP |g|. */
static void mod_gop(stream_t *s, int g)
{
  for (int i = s->len - 1; i >= 0; i--)
    if (is_pic(s->n[i].type) && s->n[i].gop == g) {
      edit_mod(&s->n[i], (int)s->n[i].size - 2, 1);
      return;
    }
}

static sei_t F1, F2;
static void p04_bytes(void)
{
  sim_begin();
  cfg_t c;
  memset(&c, 0, sizeof(c));
  c.ts = 1;
  c.codec = mc_tier() ? mc_choose(2, "codec") : 0;
  c.level = mc_choose(2, "level");
  c.after = mc_choose(2, "after");
  c.recurrence = mc_choose(2, "recurrence") ? 4 : 0;
  if (mc_tier()) c.no_epb = mc_choose(3, "epb");
  sim_sign_cached(&c, "IPPIPPIPPIPPI", NULL, &S);
  int k = mc_choose(3, "sei");
  int at = nth_sei(&S, k);
  int byte = 4 + mc_choose((int)S.n[at].size - 4, "byte");
  int bits[] = {0x01, 0x80, 0x02, 0xff};
  int mask = bits[mc_choose(mc_tier() ? 4 : 2, "mask")];
  bool pm = mc_choose(2, "picture");
  mc_note("level %d SEI %d byte %d ^ %02x, picture modified: %d", c.level, k, byte, mask, pm);
  const char *w = sei_parse(S.n[at].data, S.n[at].size, c.codec, &F1);
  MC_CHECK(!w, "sei_malformed", "SEI %d cannot be parsed: %s", k, w);
  /* What is protected: everything before the signature, and the signature itself. */
  size_t off = byte - 4, sig = F1.sig_off + 8, sig_n = 0;
  tlv_t *st = sei_tlv(&F1, 5);
  if (st && st->len > 5) sig_n = st->v[3] << 8 | st->v[4];
  for (size_t i = F1.sig_off; i + 6 < S.n[at].size; i++) /* emulation prevention in the signature */
    if (!memcmp(S.n[at].data + 4 + i, "\0\0\3", 3)) sig_n = 0;
  bool protected = off < F1.sig_off || (off >= sig && off < sig + sig_n);
  edit_mod(&S.n[at], byte, mask);
  if (pm) mod_gop(&S, k);
  play_forged(&S, &c);
  if (!protected) return;
  for (int i = 0; i < S.len; i++)
    if (is_pic(S.n[i].type) && S.n[i].gop == k)
      MC_CHECK(D.st[i] != '.', "forged_sei_authentic",
          "byte %d of the SEI is altered, but picture %d it signs is reported authentic", byte, i);
}

/* An attacker without the key makes everything himself, consistently, and tries all sorts of broken
 * signatures. */
static void p04_signature(void)
{
  sim_begin();
  cfg_t c;
  memset(&c, 0, sizeof(c));
  c.codec = mc_tier() ? mc_choose(2, "codec") : 0;
  c.level = mc_choose(2, "level");
  c.after = mc_choose(2, "after");
  int keyt = mc_choose(2, "rsa");
  c.key = keyt;
  sim_sign_cached(&c, "IPPIPPIPPIPPI", NULL, &S);
  cfg_t c2 = c;
  c2.salt = 3;
  c2.key = keyt + 2;
  sim_sign_cached(&c2, "IPPIPPIPPIPPI", NULL, &O);
  int from = mc_choose(3, "from"), op = mc_choose(5, "op"), arg = 0, mask = 0, manual = mc_choose(2, "manual");
  static const int kSizes[] = {0, 1, 2, 8, 32, 64, 69, 70, 71, 72, 73, 255, 256, 0xffff};
  static const int kMasks[] = {0x01, 0x80, 0xff, 0x20};
  if (op == 0) {
    arg = mc_choose(keyt ? 256 : 72, "byte");
    mask = kMasks[mc_choose(mc_tier() ? 4 : 2, "mask")];
  }
  if (op == 1) arg = kSizes[mc_choose(14, "size")];
  if (op == 2) arg = mc_choose(256, "hashtype");
  if (op == 3) arg = mc_choose(3, "fill");
  for (int i = 0; i < S.len; i++) {
    if (is_pic(S.n[i].type) && S.n[i].gop >= from) {
      S.n[i] = O.n[i];
      S.n[i].src = -1;
    } else if (S.n[i].type == 'S' && S.n[i].gop >= from) {
      sei_parse(S.n[i].data, S.n[i].size, c.codec, &F1);
      sei_parse(O.n[i].data, O.n[i].size, c.codec, &F2);
      tlv_t *g = sei_tlv(&F1, 2), *h = sei_tlv(&F2, 2), *sg = sei_tlv(&F2, 5), *gs = sei_tlv(&F1, 5);
      if (!g || !h || !sg || !gs) mc_fail("sei_malformed", "TLV missing");
      if (manual) {
        int x = (int)(h - F2.t);
        memmove(&F2.t[x], &F2.t[x + 1], sizeof(tlv_t) * (F2.n - x - 1));
        F2.n--;
        sg = sei_tlv(&F2, 5);
      } else
        *h = *g;
      if (op == 0 && 5 + arg < (int)sg->len) sg->v[5 + arg] ^= mask;
      if (op == 1) sg->v[3] = arg >> 8, sg->v[4] = arg & 255;
      if (op == 2) sg->v[2] = arg;
      if (op == 3) memset(sg->v + 5, arg == 0 ? 0 : arg == 1 ? 0xff : 0x30, sg->len - 5);
      if (op == 4) *sg = *gs;
      int gop = S.n[i].gop;
      S.n[i] = sei_build(&F2, true);
      S.n[i].gop = gop;
    }
  }
  mc_note("level %d key %d from GOP %d: op %d arg %d mask %02x manual key %d", c.level, c.key, from, op, arg, mask, manual);
  mc_note("%s", sim_types(&S));
  sim_play(&S, manual ? sim_pub_key(c.key) : NULL, &R);
  mc_note("%s", sim_run_str(&R));
  oracle_sound(&S, &R, &D);
  mc_state(run_fp(&R));
  mc_trace_ok();
  mc_nonvacuous();
}

static void p04_edits(void)
{
  sim_begin();
  cfg_t c;
  tampered(&c, 1, 2, 3, &S);
  edit_one(&S, &c, E_NUM, sei_filter);
  int m = mc_choose(6, "picture");
  if (m) mod_gop(&S, m - 1);
  mc_note("modified GOP %d", m - 1);
  play_forged(&S, &c);
}

/* Structural forgeries of one SEI: TLVs removed, repeated, reordered, taken from another SEI. */
static void p04_tlv(void)
{
  sim_begin();
  cfg_t c;
  memset(&c, 0, sizeof(c));
  c.ts = 1;
  c.codec = mc_tier() ? mc_choose(2, "codec") : 0;
  c.level = mc_choose(2, "level");
  c.after = mc_choose(2, "after");
  sim_sign_cached(&c, "IPPIPPIPPIPPI", NULL, &S);
  int k = mc_choose(3, "sei");
  int at = nth_sei(&S, k);
  const char *w = sei_parse(S.n[at].data, S.n[at].size, c.codec, &F1);
  MC_CHECK(!w, "sei_malformed", "SEI %d cannot be parsed: %s", k, w);
  /* The attacker's material: a video of his own, signed with his own key. */
  cfg_t c2 = c;
  c2.key = 2;
  c2.salt = 3;
  sim_sign_cached(&c2, "IPPIPPIPPIPPI", NULL, &O);
  int op = mc_choose(5, "op");
  int i = mc_choose(F1.n, "tlv");
  int other = mc_choose(2, "from"); /* TLV of the attacker's SEI, or of another genuine SEI */
  int ok = other ? nth_sei(&S, (k + 1) % 3) : -1;
  const nalu_t *on = other ? &S.n[ok] : &O.n[nth_sei(&O, k)];
  w = sei_parse(on->data, on->size, c.codec, &F2);
  MC_CHECK(!w, "sei_malformed", "SEI cannot be parsed: %s", w);
  int j = op >= 2 ? mc_choose(F2.n, "tlv2") : 0;
  if (op < 2 && other) mc_prune();
  static const char *on_[] = {"remove", "repeat", "replace", "insert", "append"};
  mc_note("level %d SEI %d: %s TLV %d (tag %d), with TLV %d (tag %d) of %s SEI", c.level, k, on_[op], i, F1.t[i].tag,
      j, F2.t[j].tag, other ? "another genuine" : "the attacker's");
  switch (op) {
    case 0:
      memmove(&F1.t[i], &F1.t[i + 1], sizeof(tlv_t) * (F1.n - i - 1));
      F1.n--;
      break;
    case 1:
      F1.t[F1.n++] = F1.t[i];
      break;
    case 2:
      F1.t[i] = F2.t[j];
      break;
    case 3:
      memmove(&F1.t[i + 1], &F1.t[i], sizeof(tlv_t) * (F1.n - i));
      F1.t[i] = F2.t[j];
      F1.n++;
      break;
    case 4:
      if (i) mc_prune();
      F1.t[F1.n++] = F2.t[j];
      break;
  }
  nalu_t forged = sei_build(&F1, true);
  forged.gop = S.n[at].gop;
  S.n[at] = forged;
  /* The pictures of the GOP are either the genuine ones or the attacker's. */
  if (mc_choose(2, "pictures")) {
    for (int x = 0; x < S.len; x++)
      if (is_pic(S.n[x].type) && S.n[x].gop == k) {
        S.n[x] = O.n[x];
        S.n[x].src = -1;
      }
    mc_note("GOP %d replaced by the attacker's pictures", k);
  }
  play_forged(&S, &c);
}

/* A complete video of the attacker: his pictures, and genuine SEIs with TLVs of his own SEIs added in
 * any subset, before or after the signature. */
static void p04_takeover(void)
{
  sim_begin();
  cfg_t c;
  memset(&c, 0, sizeof(c));
  c.codec = mc_choose(2, "codec");
  c.level = mc_choose(2, "level");
  c.after = mc_choose(2, "after");
  sim_sign_cached(&c, "IPPIPPIPPIPPI", NULL, &S);
  cfg_t c2 = c;
  c2.salt = 3;
  c2.key = mc_choose(2, "key") ? 2 : 0; /* his own key, or unable to use one */
  sim_sign_cached(&c2, "IPPIPPIPPIPPI", NULL, &O);
  if (c2.key == 0) {
    for (int i = 0; i < O.len; i++)
      if (O.n[i].type == 'S') mc_op();
  }
  int set = mc_choose(64, "tags"), where = mc_choose(2, "where");
  static const int kTags[] = {1, 2, 3, 4, 5, 7};
  int from = mc_choose(3, "from"); /* the takeover starts at this GOP */
  for (int i = 0; i < S.len; i++) {
    if (is_pic(S.n[i].type) && S.n[i].gop >= from) {
      S.n[i] = O.n[i];
      S.n[i].src = -1;
    } else if (S.n[i].type == 'S' && S.n[i].gop >= from) {
      sei_parse(S.n[i].data, S.n[i].size, c.codec, &F1);
      sei_parse(O.n[i].data, O.n[i].size, c.codec, &F2);
      for (int t = 0; t < 6; t++) {
        tlv_t *v = sei_tlv(&F2, kTags[t]);
        if (!(set >> t & 1) || !v) continue;
        if (kTags[t] == 5 && c2.key == 0) continue; /* he has no valid signature */
        if (where == 0) {
          F1.t[F1.n++] = *v;
        } else {
          tlv_t *sig = sei_tlv(&F1, 5);
          int x = (int)(sig - F1.t);
          memmove(&F1.t[x + 1], &F1.t[x], sizeof(tlv_t) * (F1.n - x));
          F1.t[x] = *v;
          F1.n++;
        }
      }
      int g = S.n[i].gop;
      S.n[i] = sei_build(&F1, true);
      S.n[i].gop = g;
    }
  }
  mc_note("level %d, from GOP %d, tags %02x %s the signature, key %d", c.level, from, set, where ? "before" : "after", c2.key);
  mc_note("%s", sim_types(&S));
  sim_play(&S, NULL, &R);
  mc_note("%s", sim_run_str(&R));
  mc_nonvacuous();
  mc_trace_ok();
  mc_state(run_fp(&R));
  /* If the attacker signs with his own key from the very beginning, nothing but the key tells. */
  if (from == 0 && c2.key == 2) {
    for (int i = 0; i < S.len; i++)
      if (S.n[i].type == 'S') {
        sei_parse(S.n[i].data, S.n[i].size, c.codec, &F1);
        sei_parse(O.n[i].data, O.n[i].size, c.codec, &F2);
      }
    if ((set & 2) && (set & 16)) return;
  }
  /* Once the key in the video has been replaced, that must be signalled; from there on the key tells. */
  for (int i = 0; i < R.nrep; i++)
    if (R.rep[i].pk_changed) {
      MC_CHECK(R.rep[i].auth == SV_AUTH_RESULT_NOT_OK, "key_change_ok", "public key changed, but the result is %s",
          auth_str(R.rep[i].auth));
      MC_CHECK(R.final.a_auth == SV_AUTH_RESULT_NOT_OK, "key_change_ok", "public key changed, but the overall result is %s",
          auth_str(R.final.a_auth));
      return;
    }
  oracle_sound(&S, &R, &D);
}
static const mc_scenario kP04[] = {
    {"bytes", p04_bytes, "every byte of 3 SEIs xor 2 (4) masks, with and without a modified picture in the GOP it signs, both levels, with and without recurrent data", 0, 0, -1, 0},
    {"signature", p04_signature, "pictures and SEIs made by an attacker, consistent but signed with another key (EC, RSA), from every GOP on; the signature with every byte changed, 14 sizes, 256 hash types, constant fill, or copied from a genuine SEI; genuine public key in the SEI or set manually", 0, 0, -1, 0},
    {"edits", p04_edits, "every single edit (modify, drop, duplicate, swap, copy and move to any position, foreign NALU before) at every SEI, alone and with a modified picture in each of 5 GOPs, 2 NALU sequences, 3 latency patterns, both levels", 0, 0, -1, 0},
    {"tlv", p04_tlv, "every TLV of 3 SEIs removed, repeated, replaced by, or extended with every TLV of an attacker's SEI or another genuine SEI, with genuine and attacker's pictures", 0, 0, -1, 0},
    {"takeover", p04_takeover, "from every GOP on the attacker's pictures with genuine SEIs extended with every subset of the TLVs he made, before or after the signature, with or without a key of his own", 0, 0, -1, 0},
};

#define PROP(id, as, sc) {id, as, sc, sizeof(sc) / sizeof(sc[0])}
static const mc_property kProps[] = {
    PROP("P01", kP01Assume, kP01),
    PROP("P02", kTamperAssume, kP02),
    PROP("P03", kTamperAssume, kP03),
    PROP("P04", kTamperAssume, kP04),
};
int main(int argc, char **argv)
{
  sim_init();
  return mc_main(argc, argv, kProps, sizeof(kProps) / sizeof(kProps[0]));
}
