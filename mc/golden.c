/* P24: streams with a golden SEI. */
#include "edits.h"
#include "pay.h"
#include <stdio.h>

static stream_t S, O;
static run_t R;
static digest_t D;

static int golden_at(const stream_t *s)
{
  for (int i = 0; i < s->len; i++)
    if (s->n[i].type == 'G') return i;
  return -1;
}

/* A signing session; the golden SEI is generated last and nothing is configured after that. */
static signed_video_t *signer(const cfg_t *c)
{
  cfg_t d = *c;
  d.golden = 0;
  signed_video_t *sv = sim_signer(&d);
  MC_CHECK(signed_video_set_using_golden_sei(sv, true) == SV_OK, "golden", "golden SEI refused");
  return sv;
}
/* Golden SEI of a session of its own, stored for later use. */
static nalu_t stored(const cfg_t *c)
{
  static stream_t t;
  t.len = t.num_seis = 0;
  t.codec = c->codec;
  signed_video_t *sv = signer(c);
  MC_CHECK(signed_video_generate_golden_sei(sv) == SV_OK, "golden", "no golden SEI");
  mcp_tick();
  sim_pull(sv, c, NULL, &t);
  signed_video_free(sv);
  MC_CHECK(t.len == 1 && t.n[0].type == 'G', "golden", "%d SEIs (%s) instead of a golden one", t.len, sim_types(&t));
  return t.n[0];
}
/* Sign |spec|. |store|: the golden SEI was stored by an earlier session. It is then moved to |at|. */
static void sign(const cfg_t *c, const char *spec, int store, int at, stream_t *s)
{
  s->codec = c->codec;
  s->len = s->num_seis = 0;
  nalu_t g = {0};
  if (store) g = stored(c);
  signed_video_t *sv = signer(c);
  if (!store) {
    MC_CHECK(signed_video_generate_golden_sei(sv) == SV_OK, "golden", "no golden SEI");
  } else {
    sim_append(s, g);
    s->num_seis++;
  }
  sim_sign_with(sv, c, spec, s, 0);
  signed_video_free(sv);
  int n = 0, first = -1;
  for (int i = 0; i < s->len; i++) {
    if (s->n[i].type == 'G') n++;
    if (s->n[i].type == 'S' && first < 0) first = i;
    if (s->n[i].type == 'S') {
      s->n[i].id = s->n[i].gop = s->n[i].gop - 1;
      /* Nothing needed only once is repeated, and the level is the one set. */
      static sei_t f;
      const char *w = sei_parse_mode(s->n[i].data, s->n[i].size, c->codec, &f, c->no_epb != 1);
      MC_CHECK(!w, "sei_malformed", "SEI at %d: %s", i, w);
      bool list = false, once = false;
      for (int k = 0; k < f.n; k++) {
        list |= f.t[k].tag == 4;
        once |= f.t[k].tag == 2 || f.t[k].tag == 3 || f.t[k].tag == 7;
      }
      MC_CHECK(!once, "golden_repeated", "SEI at %d repeats what is in the golden SEI", i);
      MC_CHECK(list == (c->level == 1), "golden_level", "SEI at %d: authenticity level %d was set, hash list %d", i, c->level, list);
    }
  }
  int gp = golden_at(s);
  MC_CHECK(n == 1 && gp < (first < 0 ? s->len : first), "golden", "the golden SEI is not the first one: %s", sim_types(s));
  if (at > 0) {
    if (at <= gp || first < 0 || at >= first) mc_prune();
    nalu_t t = s->n[gp];
    sim_remove(s, gp);
    sim_insert(s, at, t);
  }
}

static void untouched(const stream_t *s, const char *pub)
{
  mc_note("%s", sim_types(s));
  sim_play(s, pub, &R);
  mc_note("%s", sim_run_str(&R));
  oracle_no_error(&R);
  oracle_sound(s, &R, &D);
  int g = golden_at(s), num_sei = 0;
  bool told = false;
  for (int i = 0; i < R.nrep; i++) {
    const rep_t *q = &R.rep[i];
    if (q->at < g)
      MC_CHECK(q->auth == SV_AUTH_RESULT_NOT_SIGNED, "golden_before", "report at NALU %d, before any signature, is %s", q->at, auth_str(q->auth));
    else
      MC_CHECK(q->auth == SV_AUTH_RESULT_OK || (q->auth == SV_AUTH_RESULT_SIGNATURE_PRESENT && q->at == g), "golden_not_ok",
          "report at NALU %d of an untampered stream is %s (%s)", q->at, auth_str(q->auth), q->vstr);
    if (q->at == g) told = true;
    if (q->auth == SV_AUTH_RESULT_OK)
      MC_CHECK(q->exp == q->recv, "golden_counts", "OK report: expected %d, received %d", q->exp, q->recv);
  }
  MC_CHECK(told, "golden_untold", "no report at the golden SEI: the signature is not told");
  MC_CHECK(D.st[g] == '.', "golden_status", "the golden SEI is given as %c", D.st[g]);
  for (int i = 0; i < s->len; i++) num_sei += s->n[i].type == 'S';
  for (int i = 0; i < s->len; i++)
    if (is_pic(s->n[i].type) && s->n[i].gop >= 0 && s->n[i].gop < num_sei)
      MC_CHECK(D.st[i] == '.', "golden_unvalidated", "NALU %d of GOP %d (of %d signed) was not authenticated, status %c", i, s->n[i].gop, num_sei, D.st[i]);
  if (num_sei) {
    mc_nonvacuous();
    MC_CHECK(R.has_final && R.final.a_auth == SV_AUTH_RESULT_OK, "golden_overall", "overall result of an untampered stream is %s", auth_str(R.final.a_auth));
    MC_CHECK(!strcmp(R.final.hw, "hw") && !strcmp(R.final.sn, "SN42") && !strcmp(R.final.mf, "manu") && !strcmp(R.final.ad, "addr") && !strcmp(R.final.fw, "fw1.2"),
        "golden_product", "product information is not reported: %s %s %s %s %s", R.final.hw, R.final.fw, R.final.sn, R.final.mf, R.final.ad);
  }
  /* signed_video_is_golden_sei() */
  signed_video_t *sv = signed_video_create(s->codec);
  for (int i = 0; i < s->len; i++)
    MC_CHECK(signed_video_is_golden_sei(sv, s->n[i].data, s->n[i].size) == (s->n[i].type == 'G'), "is_golden", "NALU %d, type %c", i, s->n[i].type);
  signed_video_free(sv);
  mc_state(run_fp(&R));
  mc_trace_ok();
}

static void p24_config(void)
{
  sim_begin();
  cfg_t c = {0};
  c.codec = mc_choose(2, "codec");
  c.level = mc_choose(2, "level");
  c.key = mc_choose(mc_tier() ? 5 : 2, "key");
  const char *h[] = {NULL, "sha512", "sha384", "sha256"};
  c.hash = h[mc_choose(mc_tier() ? 4 : 2, "hash")];
  c.no_epb = mc_choose(3, "epb");
  c.ts = mc_choose(2, "timestamps");
  c.no_pubkey = mc_choose(2, "pubkey");
  int rec[] = {0, 4};
  c.recurrence = rec[mc_choose(2, "recurrence")];
  static const char *specs[] = {"IPPIPPIPPIPP", "IIPIVPPI", "VWIPPAZVWIPPOVWIPXI"};
  int store = mc_choose(2, "store"), spec = mc_choose(mc_tier() ? 3 : 2, "spec"), at = mc_choose(10, "at");
  mc_note("codec %d level %d key %d hash %s epb %d ts %d no_pubkey %d recurrence %d golden SEI %s, at %d", c.codec, c.level, c.key, c.hash ? c.hash : "-", c.no_epb, c.ts,
      c.no_pubkey, c.recurrence, store ? "stored by an earlier session" : "generated", at);
  sign(&c, specs[spec], store, at, &S);
  untouched(&S, c.no_pubkey ? sim_pub_key(c.key) : NULL);
}

static void p24_sequences(void)
{
  sim_begin();
  cfg_t c = {0};
  c.codec = mc_choose(2, "codec");
  c.level = mc_choose(2, "level");
  int len = mc_tier() ? 8 : 6;
  char spec[32] = "";
  for (int i = 0; i < len; i++) spec[i] = "PIiV"[mc_choose(4, "nalu")];
  /* The video starts with a complete I-frame. */
  if (spec[strspn(spec, "V")] != 'I') mc_prune();
  for (int i = 1; i < len; i++)
    if (spec[i] == 'i' && !strchr("Ii", spec[i - 1])) mc_prune();
  strcat(spec, "IPI");
  int at = mc_choose(8, "at");
  sign(&c, spec, 0, at, &S);
  untouched(&S, NULL);
}

static int choose_delay(int i)
{
  (void)i;
  return mc_choose(4, "delay");
}
static void p24_delays(void)
{
  sim_begin();
  cfg_t c = {.codec = mc_choose(2, "codec"), .level = mc_choose(2, "level")};
  int which = mc_choose(2, "spec");
  mcp.delay = choose_delay;
  c.golden = 1;
  sim_sign(&c, which ? "IIIPIIP" : "IPPIPPIPIPI", &S);
  int g = golden_at(&S), f = nth_sei(&S, 0);
  /* It is up to the user to place the golden SEI first. */
  if (g < 0 || (f >= 0 && f < g)) mc_prune();
  for (int i = 0; i < S.len; i++)
    if (S.n[i].type == 'S') S.n[i].gop--;
  untouched(&S, NULL);
}

/* Changed pictures and SEIs. */
static bool any_pic(const nalu_t *n)
{
  return is_pic(n->type);
}
static bool any_sig(const nalu_t *n)
{
  return n->type == 'S' || n->type == 'G';
}
static void tampered(cfg_t *c)
{
  memset(c, 0, sizeof(*c));
  c->codec = mc_choose(2, "codec");
  c->level = mc_choose(2, "level");
  c->pad = 4;
  sign(c, mc_choose(2, "spec") ? "IPIIPPIPIPIPI" : "IPPIPPIPPIPPIP", 0, mc_choose(2, "place") * 2, &S);
}
static void play_changed(void)
{
  mc_note("%s", sim_types(&S));
  sim_play(&S, NULL, &R);
  mc_note("%s", sim_run_str(&R));
  oracle_sound(&S, &R, &D);
  mc_state(run_fp(&R));
  mc_trace_ok();
}
static void p24_pictures(void)
{
  sim_begin();
  cfg_t c;
  tampered(&c);
  int at = edit_one(&S, &c, E_NUM, any_pic);
  play_changed();
  oracle_no_error(&R);
  if (!pics_differ(&S, 0, S.len) || seis_before(&S, at) < 1 || seis_after(&S, at + 1) < 3) return;
  mc_nonvacuous();
  MC_CHECK(R.has_final && (R.final.a_auth == SV_AUTH_RESULT_NOT_OK || R.final.a_auth == SV_AUTH_RESULT_OK_WITH_MISSING_INFO), "golden_unreported",
      "tampering at NALU %d was never reported, overall result %s", at, auth_str(R.final.a_auth));
}
/* One edit of a SEI, the golden one included, and up to one of a picture. */
static void p24_seis(void)
{
  sim_begin();
  cfg_t c;
  tampered(&c);
  int nop = mc_choose(2, "edits");
  if (nop && !mc_tier() && c.codec != c.level) mc_prune();
  edit_one(&S, &c, E_NUM, any_sig);
  if (nop) edit_one(&S, &c, E_INSI + 1, any_pic);
  mc_nonvacuous();
  play_changed();
}
/* Golden SEIs in place of the SEIs of any set of GOPs, whose pictures are genuine, changed, or copies of
 * those of an earlier GOP. */
static void p24_replace(void)
{
  sim_begin();
  cfg_t c = {.codec = mc_choose(2, "codec"), .level = mc_choose(2, "level"), .pad = 4};
  sign(&c, "IPPIPPIPPIPPIPPIPPIP", 0, 0, &S);
  sim_copy_stream(&O, &S);
  int keep = mc_choose(2, "keep"); /* in addition to the genuine SEI */
  for (int g = 0; g < 4; g++) {
    int act = mc_choose(4, "gop");
    if (!act) continue;
    int k = -1;
    for (int i = 0; i < S.len; i++)
      if (S.n[i].type == 'S' && S.n[i].gop == g) k = i;
    if (k < 0) mc_prune();
    nalu_t gs = sim_nalu_copy(&O.n[0]);
    gs.src = -1;
    if (keep) {
      sim_insert(&S, k, gs);
    } else {
      gs.gop = g;
      S.n[k] = gs;
    }
    int from = 0;
    for (int i = 0; i < S.len; i++)
      if (is_pic(S.n[i].type) && S.n[i].gop == g) {
        if (act == 2) edit_mod(&S.n[i], (int)S.n[i].size - 2, 1);
        if (act == 3) { /* the pictures of the GOP before */
          int m = 0, gg = g ? g - 1 : g + 1;
          for (int j = 0; j < O.len; j++)
            if (is_pic(O.n[j].type) && O.n[j].gop == gg && m++ == from) {
              nalu_t t = sim_nalu_copy(&O.n[j]);
              t.gop = g;
              S.n[i] = t;
              break;
            }
          from++;
        }
      }
  }
  mc_nonvacuous();
  play_changed();
}

/* Without an intact golden SEI nothing can be authentic. */
static void never(const char *key, const char *pub)
{
  mc_note("%s", sim_types(&S));
  sim_play(&S, pub, &R);
  mc_note("%s", sim_run_str(&R));
  mc_nonvacuous();
  for (int i = 0; i < R.nrep; i++) {
    MC_CHECK(R.rep[i].auth < SV_AUTH_RESULT_OK_WITH_MISSING_INFO, key, "report %d is %s without an intact golden SEI", i, auth_str(R.rep[i].auth));
    static int idx[STRMAX];
    sim_align(&R.rep[i], idx);
    for (int k = 0; R.rep[i].vstr[k]; k++)
      MC_CHECK(R.rep[i].vstr[k] != '.' || idx[k] < 0 || !is_pic(S.n[idx[k]].type), key, "pictures are authentic without an intact golden SEI: %s", R.rep[i].vstr);
  }
  MC_CHECK(!R.has_final || R.final.a_auth < SV_AUTH_RESULT_OK_WITH_MISSING_INFO, key, "overall result %s without an intact golden SEI", auth_str(R.final.a_auth));
  mc_state(run_fp(&R));
}
static void p24_bytes(void)
{
  sim_begin();
  cfg_t c = {.codec = mc_choose(2, "codec"), .level = mc_choose(2, "level")};
  c.key = mc_choose(2, "key");
  c.no_pubkey = mc_choose(2, "pubkey");
  sign(&c, "IPPIPPIPPIP", 0, mc_choose(2, "place") * 2, &S);
  nalu_t *g = &S.n[golden_at(&S)];
  int b = 4 + mc_choose((int)g->size - 4, "byte");
  int mask[] = {1, 0x80, 0xff, 0x10};
  int m = mask[mc_choose(mc_tier() ? 4 : 2, "mask")];
  /* The stop byte and the bytes that only fill up the space of the signature carry nothing. */
  pay_get(g, c.codec, &Y);
  size_t used = Y.sig + 8 + (size_t)(Y.p[Y.sig + 6] << 8 | Y.p[Y.sig + 7]);
  static uint8_t sig[70000];
  memcpy(sig, Y.p, used);
  edit_mod(g, b, m);
  mc_note("golden SEI byte %d of %zu xor 0x%02x", b, g->size, m);
  static pay_t z;
  /* An emulation prevention byte may have been changed without changing what is carried. */
  pay_get(g, c.codec, &z);
  if (b >= (c.codec == SV_CODEC_H264 ? 7 : 8) && z.n >= used && !memcmp(sig, z.p, used)) mc_prune();
  /* Version of the format and type of the hash: not signed, tells nothing about the video. */
  if (!memcmp(sig, z.p, Y.sig) && z.n >= used && !memcmp(sig + Y.sig + 6, z.p + Y.sig + 6, used - Y.sig - 6) && !memcmp(sig + Y.sig, z.p + Y.sig, 3)) mc_prune();
  never("golden_altered", c.no_pubkey ? sim_pub_key(c.key) : NULL);
}
static void p24_missing(void)
{
  sim_begin();
  cfg_t c = {.codec = mc_choose(2, "codec"), .level = mc_choose(2, "level")};
  c.key = mc_choose(2, "key");
  sign(&c, "IPPIPPIPPIP", 0, 0, &S);
  int what = mc_choose(3, "what");
  int man = mc_choose(2, "manual");
  if (what == 0) { /* removed */
    sim_remove(&S, 0);
    if (man) mc_prune(); /* the user may know all that was in it */
  } else { /* the golden SEI of someone else, in place of the genuine one or after it was altered */
    cfg_t c2 = c;
    c2.key = mc_choose(4, "other");
    if (c2.key == c.key) mc_prune();
    nalu_t g = stored(&c2);
    if (what == 1) S.n[0] = g;
    if (what == 2) {
      sim_insert(&S, 1, g);
      edit_mod(&S.n[0], 60, 1);
    }
  }
  never("golden_missing", man ? sim_pub_key(c.key) : NULL);
}

/* TLVs of the golden SEI removed, repeated, replaced, or added from one of someone else. */
static void p24_tlv(void)
{
  sim_begin();
  static sei_t f1, f2;
  cfg_t c = {.codec = mc_choose(2, "codec"), .level = mc_choose(2, "level")};
  c.no_pubkey = mc_choose(2, "pubkey");
  sign(&c, "IPPIPPIPPIP", 0, 0, &S);
  cfg_t c2 = c;
  c2.product = 1; /* other product information and key */
  c2.key = 2;
  c2.no_pubkey = 0;
  nalu_t g = stored(&c2);
  MC_CHECK(!sei_parse(S.n[0].data, S.n[0].size, c.codec, &f1) && !sei_parse(g.data, g.size, c.codec, &f2), "sei_malformed", "golden SEI");
  int op = mc_choose(5, "op"), i = mc_choose(f1.n, "tlv"), j = op >= 2 ? mc_choose(f2.n, "other") : 0;
  static const char *on[] = {"remove", "repeat", "replace", "insert", "append"};
  mc_note("%s TLV %d (tag %d), with TLV %d (tag %d) of another golden SEI", on[op], i, f1.t[i].tag, j, f2.t[j].tag);
  if (op == 0) {
    memmove(&f1.t[i], &f1.t[i + 1], sizeof(tlv_t) * (size_t)(f1.n - i - 1));
    f1.n--;
  } else if (op == 1) {
    f1.t[f1.n++] = f1.t[i];
  } else if (op == 2) {
    if (f1.t[i].tag == f2.t[j].tag && f1.t[i].len == f2.t[j].len && !memcmp(f1.t[i].v, f2.t[j].v, f1.t[i].len)) mc_prune();
    f1.t[i] = f2.t[j];
  } else if (op == 3) {
    memmove(&f1.t[i + 1], &f1.t[i], sizeof(tlv_t) * (size_t)(f1.n - i));
    f1.t[i] = f2.t[j];
    f1.n++;
  } else {
    if (i) mc_prune();
    f1.t[f1.n++] = f2.t[j];
  }
  nalu_t n = sei_build(&f1, true);
  n.type = 'G';
  n.src = -1;
  S.n[0] = n;
  never("golden_altered", c.no_pubkey ? sim_pub_key(c.key) : NULL);
}

static const char *kAssume[] = {"the user places the golden SEI before all other signatures, as documented",
    "OpenSSL is trusted; its randomness is replaced by a deterministic generator", NULL};
static const mc_scenario kP24[] = {
    {"configurations", p24_config, "codec x level x 2 (5) keys x 2 (4) hash algorithms x EPB mode x timestamps x key in SEI or manual x recurrence x golden SEI generated or stored by an earlier session x 2 (3) sequences x every position before the first signature", 0, 0, -1, 0},
    {"sequences", p24_sequences, "all sequences of 6 (8) NALUs from P, I, i, V x codec x level x every position of the golden SEI before the first signature", 0, 0, -1, 0},
    {"delays", p24_delays, "all vectors of signing latencies 0..3 NALUs over 2 sequences, both codecs and levels", 0, 0, -1, 0},
    {"pictures", p24_pictures, "every single edit (modify, drop, duplicate, insert, swap, copy, move) of every picture NALU, 2 sequences, golden SEI first or after 2 NALUs", 0, 0, -1, 0},
    {"seis", p24_seis, "every single edit of every SEI including the golden one, alone and with every edit of a picture", 0, 0, -1, 0},
    {"replace", p24_replace, "in each of 4 GOPs: untouched, or a copy of the golden SEI in place of or in addition to the signature, the pictures genuine, modified or those of another GOP", 0, 0, -1, 0},
    {"bytes", p24_bytes, "every byte of the golden SEI xor 2 (4) masks; both key types, key in the golden SEI or manual", 0, 0, -1, 0},
    {"tlv", p24_tlv, "every TLV of the golden SEI removed, repeated, replaced by, or extended with every TLV of another's golden SEI, before and after the signature", 0, 0, -1, 0},
    {"missing", p24_missing, "golden SEI removed, replaced by one of 3 other keys, altered and followed by such; with and without the key set by the user", 0, 0, -1, 0},
};
static const mc_property kProps[] = {{"P24", kAssume, kP24, sizeof(kP24) / sizeof(kP24[0])}};
int main(int argc, char **argv)
{
  sim_init();
  return mc_main(argc, argv, kProps, 1);
}
