/* P27: video signed by older versions of the framework. The older signer is modelled from the format description
 * (linked hashes, recursive GOP hash) and its streams are played to the real validator. */
#define OPENSSL_SUPPRESS_DEPRECATED
#include "edits.h"
#include "forge.h"
#include "mem.h"
#include "old.h"
#include <openssl/err.h>
#include <openssl/evp.h>
#include <openssl/pem.h>
#include <openssl/rsa.h>
#include <stdio.h>

static stream_t S, T;
static run_t R, R0;
static digest_t D;
static sei_t F;

/* ---------------------------------------------------------------- playing */
static const char *manual;
static void judged(void (*body)(void))
{
  mem_forget();
  ERR_clear_error();
  mem_t a = mem_now();
  body();
  ERR_clear_error();
  mem_t b = mem_now();
  MC_CHECK(b.lib == 0, "leak", "%ld blocks are not freed: %s", b.lib, mem_leaks());
  if (b.ssl > a.ssl) {
    body();
    ERR_clear_error();
    mem_t c = mem_now();
    MC_CHECK(c.ssl <= b.ssl, "leak_openssl", "%ld OpenSSL blocks are not freed", c.ssl - b.ssl);
  }
}
static void body_play(void) { sim_play(&S, manual, &R); }
static void play(void)
{
  judged(body_play);
  mc_note("%s", sim_types(&S));
  mc_note("%s", sim_run_str(&R));
  mc_state(run_fp(&R));
}
static void conf(old_t *o, int codecs, int keys, int epbs, int vers)
{
  sim_begin();
  memset(o, 0, sizeof(*o));
  o->c.codec = mc_choose(codecs, "codec");
  o->c.level = mc_choose(2, "level");
  o->c.key = mc_choose(keys, "key");
  o->c.no_epb = mc_choose(epbs, "no_epb");
  o->ver = vers > 1 ? mc_choose(vers, "version") : 1;
  o->c.ts = 1;
  o->c.pad = 1;
  manual = NULL;
}
/* Untouched video (from |from|): no errors, OK throughout and everything with a signature is authentic. */
static void check_clean(bool from_start)
{
  oracle_no_error(&R);
  oracle_sound(&S, &R, &D);
  bool seen = false;
  for (int i = 0; i < R.nrep; i++) {
    const rep_t *q = &R.rep[i];
    if (q->auth == SV_AUTH_RESULT_OK) seen = true;
    else
      MC_CHECK(!seen && (q->auth == SV_AUTH_RESULT_SIGNATURE_PRESENT || q->auth == SV_AUTH_RESULT_NOT_SIGNED), "not_ok", "report %d of untouched video is %s", i, auth_str(q->auth));
    if (seen) {
      MC_CHECK(q->exp == q->recv, "counts", "report %d: %d pictures expected, %d received", i, q->exp, q->recv);
      MC_CHECK(q->a_auth == SV_AUTH_RESULT_OK, "overall", "overall result %s after report %d", auth_str(q->a_auth), i);
    }
  }
  int seis = 0;
  for (int i = 0; i < S.len; i++) seis += S.n[i].type == 'S';
  if (seis >= 3 && S.n[S.len - 1].type != 'S') MC_CHECK(seen, "never_ok", "no result at all after %d signatures", seis);
  if (seen) mc_nonvacuous();
  (void)from_start;
  mc_trace_ok();
}

/* ---------------------------------------------------------------- scenarios */
static void p27_frames(void)
{
  old_t o;
  conf(&o, 2, 1, 1, 1);
  static const char kAlpha[] = "IPipAVZX";
  int na = mc_tier() ? 8 : 6, n = mc_tier() ? 8 : 7;
  char spec[32] = "I";
  for (int i = 1; i < n; i++) {
    spec[i] = kAlpha[mc_choose(na, "nalu")];
    if (spec[i] == 'i' && !strchr("Ii", spec[i - 1])) mc_prune();
    if (spec[i] == 'p' && !strchr("Pp", spec[i - 1])) mc_prune();
  }
  strcat(spec, "PIP");
  old_signed(&o, spec, "", &S);
  play();
  check_clean(true);
}
static void p27_config(void)
{
  old_t o;
  conf(&o, 2, 5, 3, 3);
  o.crypto = mc_choose(2, "crypto info");
  o.c.recurrence = 1 + mc_choose(2, "recurrence");
  static const char *kSpec[] = {"IPPIPPIPPIP", "IIIIII", "IPIPIPIPI", "IipPIiPpIiPIi", "VIAPAPVIAPVIAPAP"};
  const char *spec = kSpec[mc_choose(5, "spec")];
  int d = mc_choose(3, "delay");
  if (mc_choose(2, "manual key")) {
    o.c.no_pubkey = 1;
    manual = sim_pub_key(o.c.key);
  }
  old_cached(&o, spec, d == 0 ? "" : d == 1 ? "1" : "2", &S);
  play();
  check_clean(true);
  /* What the signatures tell besides. */
  int sum = 0;
  for (int i = 0; i < R.nrep; i++) {
    const rep_t *q = &R.rep[i];
    if (q->auth != SV_AUTH_RESULT_OK) continue;
    MC_CHECK(!strcmp(q->hw, "old hardware") && !strcmp(q->fw, "1.1.29") && !strcmp(q->sn, "serial 7") && !strcmp(q->mf, "maker") && !strcmp(q->ad, "address"), "product", "report %d: product %s, %s, %s, %s, %s", i, q->hw, q->fw, q->sn, q->mf, q->ad);
    MC_CHECK(!strcmp(q->ver_sign, "v1.1.29"), "version", "report %d: version %s", i, q->ver_sign);
    MC_CHECK(q->has_ts == (o.ver != 0) && q->a_has_ts == q->has_ts, "timestamp", "report %d: timestamp %d", i, q->has_ts);
    MC_CHECK(!q->has_ts || ((q->ts - 1000) % 7 == 0 && q->ts >= 1000 && q->ts == q->a_last && q->a_first >= 1000 && q->a_first <= q->a_last), "timestamp", "report %d: timestamp %lld (%lld to %lld)", i, (long long)q->ts, (long long)q->a_first, (long long)q->a_last);
    if (i && q->has_ts && R.rep[i - 1].has_ts) MC_CHECK(q->ts > R.rep[i - 1].ts, "timestamp", "report %d: timestamps go backwards", i);
    MC_CHECK(!q->pk_changed && !q->a_pk_changed, "key_changed", "report %d: the key has not changed", i);
    MC_CHECK(q->a_recv == (unsigned)q->at + 1 && q->a_val + q->a_pend == q->a_recv, "totals", "report %d at NALU %d: %u received, %u validated, %u pending", i, q->at, q->a_recv, q->a_val, q->a_pend);
    sum++;
  }
  mc_state((uint64_t)sum);
}
static void p27_delay(void)
{
  old_t o;
  conf(&o, 1, 1, 1, 1);
  static const char *kSpec[] = {"IPPIPPIPPIPPIPP", "IPIPIPIPIPIP", "IPPPIPPPIPPPIPPP", "IIIIIIII"};
  const char *spec = kSpec[mc_choose(4, "spec")];
  char d[8] = {0};
  for (int i = 0; i < 5; i++) d[i] = (char)('0' + mc_choose(mc_tier() ? 5 : 4, "delay"));
  old_cached(&o, spec, d, &S);
  play();
  check_clean(true);
}
/* Starting anywhere in the stream. */
static void p27_cut(void)
{
  old_t o;
  conf(&o, 2, 2, 1, 1);
  o.c.recurrence = 1 + mc_choose(3, "recurrence");
  static const char *kSpec[] = {"IPPIPPIPPIPPIPP", "IPIPIPIPIPIP", "IPIIPPPIPIP", "IIIIIIII"};
  const char *spec = kSpec[mc_choose(4, "spec")];
  static const char *kDelay[] = {"", "1", "2"};
  int delay = mc_choose(3, "delay");
  old_cached(&o, spec, kDelay[delay], &S);
  int cut = mc_choose(S.len, "cut");
  /* Whole access units; with late signatures at an I-frame and GOPs longer than the delay. */
  if (!delay && cut && S.n[cut].type == 'I') mc_prune();
  if (delay && (S.n[cut].type != 'I' || strstr(spec, "II"))) mc_prune();
  for (int i = 0; i < cut; i++) sim_remove(&S, 0);
  if (!S.len) mc_prune();
  play();
  check_clean(false);
}
static const char *kSpec[] = {"IPPIPPIPPIPPIPPIPPIP", "IPIPIPIPIPIPIPIP", "IIIIIIIIIII", "IPPPIPIIPPIPIPIP"};
/* One edit, or two. */
static void edited(int nspec, int n, int nops, int delays)
{
  old_t o;
  conf(&o, 1, 1, 1, 1);
  const char *spec = kSpec[mc_choose(nspec, "spec")];
  int d = mc_choose(delays, "delay");
  old_cached(&o, spec, d == 0 ? "" : d == 1 ? "1" : "2", &S);
  int at = S.len, last = 0;
  for (int i = 0; i < n; i++) {
    int a = edit_one(&S, &o.c, nops, NULL);
    if (a < at) at = a;
  }
  /* The last place where the video differs from the one signed. */
  old_cached(&o, spec, d == 0 ? "" : d == 1 ? "1" : "2", &T);
  for (last = 0; last < S.len && last < T.len; last++) {
    const nalu_t *a = &S.n[S.len - 1 - last], *b = &T.n[T.len - 1 - last];
    if (a->size != b->size || memcmp(a->data, b->data, a->size)) break;
  }
  last = S.len - last;
  play();
  oracle_counts = false;
  oracle_sound(&S, &R, &D);
  oracle_counts = true;
  mc_nonvacuous();
  if (pics_differ(&S, 0, S.len) && seis_before(&S, at) >= 2 && seis_after(&S, last) >= 3 + d)
    MC_CHECK(R.has_final && (R.final.a_auth == SV_AUTH_RESULT_NOT_OK || R.final.a_auth == SV_AUTH_RESULT_OK_WITH_MISSING_INFO), "undetected",
        "the overall result of changed video is %s", auth_str(R.final.a_auth));
  mc_trace_ok();
}
static void p27_edit(void) { edited(4, 1, E_NUM, 3); }
static void p27_edit2(void) { edited(mc_tier() ? 4 : 1, 2, 6, mc_tier() ? 2 : 1); }

/* After one edit of a P picture or a SEI, the results before and well after it are as if nothing had happened. */
#ifndef RECOVER
#define RECOVER 3
#endif
static void p27_recover(void)
{
  static const char *kS[] = {"IPPIPPIPPIPPIPPIPPIPPIP", "IPIPIPIPIPIPIPIPIP", "IPPPIPIIPPIPIPIPIPIP", "IIIIIIIIIIII"};
  old_t o;
  conf(&o, 2, 1, 1, 1);
  const char *spec = kS[mc_choose(4, "spec")];
  int d = mc_choose(2, "delay");
  old_cached(&o, spec, d ? "1" : "", &S);
  int op = mc_choose(4, "edit"), at = mc_choose(S.len, "at");
  static const int kOp[] = {E_MOD, E_DROP, E_DUP, E_INSP};
  op = kOp[op];
  bool sei = S.n[at].type == 'S';
  if (!sei && S.n[at].type != 'P') mc_prune();
  if (sei && (op == E_INSP || d)) mc_prune(); /* a late SEI lost is never recovered from */
  if (seis_before(&S, at) < 2) mc_prune();
  mc_note("codec %d level %d %s delay %d: %s of %c %d", o.c.codec, o.c.level, spec, d, kEditName[op], S.n[at].type, at);
  static run_t C;
  sim_play(&S, NULL, &C);
  edit_at(&S, &o.c, op, at);
  int shift = op == E_DROP ? -1 : op == E_MOD ? 0 : 1;
  play();
  oracle_no_error(&R);
  int k = 0, late = 0, want = 0, from = S.len;
  for (int i = at + 1, n = 0; i < S.len; i++)
    if (S.n[i].type == 'S' && ++n == RECOVER + d) from = i;
  for (int i = 0; i < C.nrep && C.rep[i].at < at; i++, k++)
    MC_CHECK(i < R.nrep && R.rep[i].at == C.rep[i].at && R.rep[i].auth == C.rep[i].auth && !strcmp(R.rep[i].vstr, C.rep[i].vstr), "earlier", "report %d before the change is not as it was", i);
  for (int i = 0; i < C.nrep; i++) want += C.rep[i].at + shift > from;
  for (int i = k; i < R.nrep; i++) {
    if (R.rep[i].at <= from) continue;
    late++;
    MC_CHECK(R.rep[i].auth == SV_AUTH_RESULT_OK, "no_recovery", "report %d @%d, long after the change, is %s", i, R.rep[i].at, auth_str(R.rep[i].auth));
    mc_nonvacuous();
  }
  MC_CHECK(late == want, "reports", "%d reports after the change, %d without it", late, want);
  mc_trace_ok();
}
/* ---------------------------------------------------------------- what someone else makes of it */
static old_t C;
static pay_t Y;
static int At;
static void base(int ncodec, int nkey, int nsei)
{
  conf(&C, ncodec, nkey, 1, 1);
  C.c.recurrence = 2;
  C.crypto = 1;
  old_cached(&C, "IPIPPIPIP", "", &S);
  At = nth_sei(&S, mc_choose(nsei, "sei"));
}
static void hostile(bool sound)
{
  play();
  mc_nonvacuous();
  oracle_counts = false;
  if (sound) oracle_sound(&S, &R, &D);
  oracle_counts = true;
  mc_trace_ok();
}
/* Any byte of a SEI is replaced. */
static void p27_bytes(void)
{
  base(mc_tier() ? 2 : 1, mc_tier() ? 2 : 1, 3);
  nalu_t *n = &S.n[At];
  int x = 4 + mc_choose((int)n->size - 4, "byte");
  int old = n->data[x];
  int v = mc_tier() ? mc_choose(256, "value") : value(mc_choose(NVAL, "value"), old);
  if (v == old) mc_prune();
  n->data[x] = (uint8_t)v;
  n->src = -1;
  mc_note("codec %d level %d SEI %d byte %d: %02x -> %02x", C.c.codec, C.c.level, At, x, old, v);
  hostile(true);
}
/* The same, signed. */
static void p27_signed(void)
{
  base(mc_tier() ? 2 : 1, 1, 3);
  pay_get(&S.n[At], C.c.codec, &Y);
  int x = 16 + mc_choose((int)Y.sig - 16, "byte");
  int old = Y.p[x];
  int v = mc_tier() ? mc_choose(256, "value") : value(mc_choose(NVAL, "value"), old);
  if (v == old) mc_prune();
  Y.p[x] = (uint8_t)v;
  bool epb = x != 16 || (v & 0x80);
  pay_sign(&Y, 0, EVP_sha256(), epb, -1);
  S.n[At] = pay_nalu(&Y, true, epb, -1);
  mc_note("level %d SEI %d payload byte %d: %02x -> %02x, signed", C.c.level, At, x, old, v);
  hostile(false);
}
static void p27_fields(void)
{
  base(mc_tier() ? 2 : 1, 1, 3);
  const char *w = sei_parse(S.n[At].data, S.n[At].size, C.c.codec, &F);
  if (w) mc_fail("sei_malformed", "%s", w);
  int t = mc_choose(F.n - 1, "tlv"), op = mc_choose(4, "op");
  tlv_t *f = &F.t[t];
  size_t len = f->len;
  if (op == 0) { /* cut */
    len = (size_t)mc_choose((int)len, "len");
  } else if (op == 1) { /* extended */
    static const int kAdd[] = {1, 2, 3, 8, 31, 32, 33, 64, 100, 150, 1000, 9600, 19200, 19201};
    size_t add = kAdd[mc_choose(14, "add")];
    size_t max = tag_len_bytes(f->tag) == 1 ? 255 : 19990;
    if (len + add > max) mc_prune();
    int fill = mc_choose(3, "fill");
    for (size_t i = 0; i < add; i++) f->v[len + i] = fill == 0 ? 0 : fill == 1 ? 0xff : (uint8_t)(1 + i % 7);
    len += add;
  } else if (op == 2) { /* instead of another */
    int other = mc_choose(F.n, "other");
    if (other == t || F.t[other].tag == 5) mc_prune();
    F.t[other] = *f;
    f = NULL;
  } else { /* removed */
    memmove(f, f + 1, sizeof(tlv_t) * (F.n - t - 1));
    F.n--;
    f = NULL;
  }
  if (f) f->len = len;
  nalu_t n = sei_build(&F, true);
  pay_get(&n, C.c.codec, &Y);
  pay_sign(&Y, 0, EVP_sha256(), true, -1);
  S.n[At] = pay_nalu(&Y, true, true, -1);
  mc_note("level %d SEI %d field %d op %d len %zu", C.c.level, At, t, op, len);
  hostile(false);
}
static void p27_truncated(void)
{
  base(mc_tier() ? 2 : 1, 1, 3);
  int how = mc_choose(5, "how");
  pay_get(&S.n[At], C.c.codec, &Y);
  if (how == 0) { /* the NALU is cut */
    size_t n = 1 + (size_t)mc_choose((int)S.n[At].size - 1, "size");
    S.n[At] = raw_nalu(S.n[At].data, n);
  } else {
    long full = (long)Y.n;
    size_t n = (size_t)mc_choose(how < 3 ? (int)Y.n : (int)Y.sig, "size");
    Y.n = n;
    if (how == 1) S.n[At] = pay_nalu(&Y, true, true, -1);
    else if (how == 2) S.n[At] = pay_nalu(&Y, false, true, full);
    else {
      if (how == 4 && n > 16) Y.p[16] &= 0x7f;
      Y.sig = n;
      pay_sign(&Y, 0, EVP_sha256(), how == 3, -1);
      S.n[At] = pay_nalu(&Y, true, how == 3, -1);
    }
    mc_note("level %d SEI %d: %zu bytes of %ld, how %d", C.c.level, At, n, full, how);
  }
  hostile(false);
}
static void p27_signature(void)
{
  base(1, 2, 3);
  pay_get(&S.n[At], C.c.codec, &Y);
  int op = mc_choose(3, "op");
  uint8_t *p = Y.p + Y.sig;
  if (op == 0) { /* any length of the field */
    int len = mc_choose(1030, "len");
    p[1] = (uint8_t)(len >> 8);
    p[2] = (uint8_t)len;
    if (mc_choose(2, "content")) {
      memset(p + 3 + 5, 0x55, (size_t)len + 5);
      Y.n = Y.sig + 3 + (size_t)len;
    }
  } else if (op == 1) { /* any claimed size of the signature */
    int len = mc_choose(700, "size");
    if (len >= 600) len = 65535 - (len - 600);
    p[6] = (uint8_t)(len >> 8);
    p[7] = (uint8_t)len;
  } else { /* a signature of any size */
    int len = mc_choose(600, "size");
    p[1] = (uint8_t)((len + 5) >> 8);
    p[2] = (uint8_t)(len + 5);
    p[6] = (uint8_t)(len >> 8);
    p[7] = (uint8_t)len;
    for (int i = 0; i < len; i++) p[8 + i] = (uint8_t)(i * 7 + 1);
    Y.n = Y.sig + 8 + (size_t)len;
  }
  S.n[At] = pay_nalu(&Y, true, true, -1);
  mc_note("level %d SEI %d signature op %d", C.c.level, At, op);
  hostile(true);
}
static void p27_numbers(void)
{
  base(1, 1, 3);
  sei_parse(S.n[At].data, S.n[At].size, C.c.codec, &F);
  static const uint32_t k[] = {0, 1, 2, 3, 4, 5, 0x7f, 0x80, 0xff, 0x100, 299, 300, 301, 0x7fff, 0x8000, 0xfffe, 0xffff, 0x10000, 0x7fffffff, 0x80000000, 0xfffffffe, 0xffffffff};
  tlv_t *t = sei_tlv(&F, 1);
  uint32_t g = k[mc_choose(22, "counter")], m = k[mc_choose(17, "pictures")];
  if (mc_choose(2, "keep counter")) {
    if (g) mc_prune();
  } else
    for (int i = 0; i < 4; i++) t->v[1 + i] = (uint8_t)(g >> (24 - 8 * i));
  t->v[5] = (uint8_t)(m >> 8);
  t->v[6] = (uint8_t)m;
  int list = mc_choose(7, "list");
  static const int kLen[] = {-1, 0, 1, 32, 33, 32 * 300, 32 * 600};
  tlv_t *h = sei_tlv(&F, 4);
  if (list && !h) mc_prune();
  if (list) {
    for (int i = 97; i < kLen[list]; i++) h->v[1 + i] = (uint8_t)(i * 13);
    h->len = 1 + (size_t)kLen[list];
  }
  nalu_t n = sei_build(&F, true);
  pay_get(&n, C.c.codec, &Y);
  pay_sign(&Y, 0, EVP_sha256(), true, -1);
  S.n[At] = pay_nalu(&Y, true, true, -1);
  mc_note("level %d SEI %d counter %u pictures %u list %d", C.c.level, At, g, m, kLen[list]);
  hostile(false);
}

/* ---------------------------------------------------------------- one session after another */
static stream_t A;
static int stop;
static bool differ(const rep_t *a, const rep_t *b, bool product)
{
  return a->at != b->at || a->auth != b->auth || a->exp != b->exp || a->recv != b->recv || a->pend != b->pend || a->has_ts != b->has_ts || (b->has_ts && a->ts != b->ts) || strcmp(a->vstr, b->vstr) || strcmp(a->nstr, b->nstr) ||
      a->a_auth != b->a_auth || a->a_recv != b->a_recv || a->a_val != b->a_val || a->a_pend != b->a_pend || a->a_has_ts != b->a_has_ts || (b->a_has_ts && (a->a_first != b->a_first || a->a_last != b->a_last)) || a->pk_changed != b->pk_changed || (product && strcmp(a->hw, b->hw));
}
static void body_reset(void)
{
  signed_video_t *sv = signed_video_create(S.codec);
  sim_run_init(&R);
  for (int i = 0; i <= stop; i++) sim_feed(sv, A.n[i].data, A.n[i].size, i, &R);
  int rc = signed_video_reset(sv);
  MC_CHECK(rc == SV_OK, "reset_error", "signed_video_reset() returned %d", rc);
  mc_op();
  sim_run_init(&R);
  for (int i = 0; i < S.len; i++) sim_feed(sv, S.n[i].data, S.n[i].size, i, &R);
  sim_final(sv, &R);
  signed_video_free(sv);
}
/* The same session validates something else after a reset: as if it were new. */
static void p27_reset(void)
{
  old_t o;
  conf(&o, mc_tier() ? 2 : 1, 1, 1, 1);
  static const char *kSpec[] = {"IPPIPPIPPIPPIP", "IIIIII"};
  int sp = mc_choose(2, "spec"), order = mc_choose(3, "formats"), damage = mc_choose(4, "damage");
  cfg_t c = o.c;
  stream_t *first = &A, *then = &S;
  if (order < 2) old_cached(&o, kSpec[sp], "", first);
  else sim_sign_cached(&c, kSpec[sp], NULL, first);
  if (damage & 1) A.n[A.len / 2].data[A.n[A.len / 2].size - 2] ^= 1;
  stop = mc_choose(A.len, "stop");
  if (order == 1) sim_sign_cached(&c, kSpec[sp], NULL, then);
  else old_cached(&o, kSpec[sp], "", then);
  int cut = mc_choose(2, "start");
  while (cut) { /* from the second GOP */
    sim_remove(&S, 0);
    if (S.n[0].type == (order == 1 ? 'I' : 'S')) break;
  }
  if (damage & 2) S.n[S.len / 2].data[S.n[S.len / 2].size - 2] ^= 1;
  judged(body_reset);
  sim_play(&S, NULL, &R0);
  mc_note("%.*s, reset, %s", stop + 1, sim_types(&A), sim_types(&S));
  mc_note("%s", sim_run_str(&R));
  mc_note("expected:\n%s", sim_run_str(&R0));
  MC_CHECK(R.nrep == R0.nrep, "reset_differs", "%d reports, expected %d", R.nrep, R0.nrep);
  for (int i = 0; i < R.nrc; i++) MC_CHECK(R.rc[i] == R0.rc[i], "reset_differs", "NALU %d gave %d, expected %d", i, R.rc[i], R0.rc[i]);
  for (int i = 0; i < R.nrep; i++) MC_CHECK(!differ(&R.rep[i], &R0.rep[i], R0.rep[i].hw[0]), "reset_differs", "report %d differs", i);
  MC_CHECK(R.has_final == R0.has_final, "reset_differs", "final report %d", R.has_final);
  MC_CHECK(R.final.a_auth == R0.final.a_auth && R.final.a_recv == R0.final.a_recv && R.final.a_val == R0.final.a_val, "reset_differs", "final report differs");
  mc_nonvacuous();
  mc_trace_ok();
}
/* Another camera, or another version, goes on with the same session. */
static void p27_switch(void)
{
  old_t o;
  conf(&o, 1, 3, 1, 1);
  static const char *kSpec[] = {"IPPIPPIPPIPPIP", "IIIIII"};
  int sp = mc_choose(2, "spec");
  int order = mc_choose(3, "formats"), key = mc_choose(3, "second key");
  cfg_t c = o.c;
  int first_key = c.key;
  if (order < 2) old_cached(&o, kSpec[sp], "", &A);
  else sim_sign_cached(&c, kSpec[sp], NULL, &A);
  o.c.key = c.key = key;
  o.c.salt = c.salt = 5;
  o.first = 100;
  if (order == 1) sim_sign_cached(&c, kSpec[sp], NULL, &T);
  else old_cached(&o, kSpec[sp], "", &T);
  for (int i = 0; i < T.len; i++)
    if (T.n[i].src >= 0) T.n[i].src = 9999;
  int stop1 = mc_choose(A.len, "stop"), from = mc_choose(T.len, "from");
  S.codec = c.codec;
  S.len = 0;
  for (int i = 0; i <= stop1; i++) sim_append(&S, A.n[i]);
  int lost = order == 0 && key != first_key ? mc_choose(5, "lost") : 0, np = 0, new_seis = 0, with_key = -1;
  for (int i = from; i < T.len; i++) {
    if (T.n[i].type == 'P' && ++np == lost) continue;
    sim_append(&S, T.n[i]);
    if (T.n[i].type == 'S' && ++new_seis == 2) with_key = S.len - 1;
  }
  play();
  /* From the second SEI with another key on, the video as a whole is not authentic any more. */
  if (order == 0 && key != first_key && seis_before(&S, stop1 + 1) >= 2 && with_key >= 0)
    for (int i = 0; i < R.nrep; i++) {
      const rep_t *q = &R.rep[i];
      if (q->at <= with_key) continue;
      MC_CHECK(q->a_auth == SV_AUTH_RESULT_NOT_OK, "key_change", "report %d @%d is %s overall, though the key has changed", i, q->at, auth_str(q->a_auth));
      MC_CHECK(q->a_pk_changed, "key_change", "report %d @%d does not tell that the key has changed", i, q->at);
    }
  if (!order) oracle_no_error(&R);
  oracle_counts = false;
  oracle_sound(&S, &R, &D);
  oracle_counts = true;
  mc_nonvacuous();
  mc_trace_ok();
}
/* From some SEI on, the video is signed by someone else. */
static void p27_resigned(void)
{
  old_t o;
  conf(&o, 2, 3, 1, 1);
  static const char *kSpec[] = {"IPPIPPIPPIPPIPPIP", "IIIIIIII", "IPIPIPIPIPIP"};
  int sp = mc_choose(3, "spec"), key = mc_choose(3, "second key"), first = mc_choose(4, "first");
  if (key == o.c.key) mc_prune();
  old_cached(&o, kSpec[sp], "", &S);
  o.c.key = key;
  old_cached(&o, kSpec[sp], "", &T);
  int seis = 0, from = -1;
  for (int i = 0; i < S.len; i++) {
    if (S.n[i].type != 'S' || seis++ <= first) continue;
    if (from < 0) from = i;
    S.n[i] = sim_nalu_copy(&T.n[i]);
    S.n[i].src = -1;
  }
  int lost = mc_choose(S.len + 1, "lost");
  if (lost < S.len) {
    if (S.n[lost].type != 'P') mc_prune();
    sim_remove(&S, lost);
    from -= lost < from;
  }
  mc_note("%s: SEIs from %d on by another key, %d lost", kSpec[sp], from, lost);
  play();
  oracle_no_error(&R);
  for (int i = 0; i < R.nrep; i++) {
    const rep_t *q = &R.rep[i];
    if (q->at <= from + 4) continue;
    mc_nonvacuous();
    MC_CHECK(q->a_auth == SV_AUTH_RESULT_NOT_OK, "key_change", "report %d @%d is %s overall, though the key has changed", i, q->at, auth_str(q->a_auth));
    MC_CHECK(q->a_pk_changed, "key_change", "report %d @%d does not tell that the key has changed", i, q->at);
  }
  mc_trace_ok();
}
/* No key, or the key of someone else. */
static void p27_key(void)
{
  old_t o;
  conf(&o, 2, 3, 1, 3);
  o.c.no_pubkey = 1;
  o.c.recurrence = 1 + mc_choose(2, "recurrence");
  o.crypto = mc_choose(2, "crypto info");
  int k = mc_choose(4, "manual");
  if (k == o.c.key + 1) mc_prune();
  if (k) manual = sim_pub_key(k - 1);
  static const char *kSpec[] = {"IPPIPPIPPIPPIP", "IIIIII"};
  old_cached(&o, kSpec[mc_choose(2, "spec")], "", &S);
  play();
  for (int i = 0; i < R.nrep; i++)
    MC_CHECK(R.rep[i].auth != SV_AUTH_RESULT_OK && R.rep[i].auth != SV_AUTH_RESULT_OK_WITH_MISSING_INFO, "wrong_key", "report %d is %s", i, auth_str(R.rep[i].auth));
  mc_nonvacuous();
  mc_trace_ok();
}
static const char *const kAssume[] = {
    "The older signer is modelled from the description of its format (a SEI for each I-frame, linked hashes, recursive GOP hash); that the validator accepts its streams in every configuration binds the model to the code.",
    "The older algorithm needs two signatures before a change and three (plus the delay) after it to tell.",
    "Playing from the middle starts with whole access units; with late signatures at an I-frame, and the GOPs are longer than the delay.", NULL};
static const mc_scenario kP27[] = {
    {"frames", p27_frames, "all NALU sequences of length 7 (8) over 6 (8) types followed by PIP, both codecs and levels: everything is authentic", 0, 0, -1, 0},
    {"config", p27_config, "2 codecs x 2 levels x 5 keys x 3 emulation prevention modes x 3 format versions x crypto info x recurrence x 5 videos x 3 delays x manual key: everything authentic, and the reports tell product, version, timestamps and totals", 0, 0, -1, 0},
    {"delay", p27_delay, "4 videos x all delays 0-3 (0-4) NALUs of each of 5 signatures", 0, 0, -1, 0},
    {"cut", p27_cut, "4 videos x 3 delays x 3 recurrences played from every NALU", 0, 0, -1, 0},
    {"edit", p27_edit, "every single edit at every place of 4 videos x 3 delays: nothing changed is authentic, and the change shows", 0, 0, -1, 0},
    {"edit2", p27_edit2, "every pair of 6 kinds of edits at every two places of 1 (4) videos", 0, 0, -1, 0},
    {"recover", p27_recover, "one P picture or SEI modified, lost, repeated or inserted at every place of 4 videos x 2 delays (SEIs: promptly signed ones): earlier results stay, later ones are OK", 0, 0, -1, 0},
    {"reset", p27_reset, "older or present video up to every NALU, reset, older or present video: as in a new session", 0, 0, -1, 0},
    {"switch", p27_switch, "older or present video up to every NALU, followed by another one from every NALU, 3 x 3 keys, and one of its first 4 P pictures lost or none; another key shows", 0, 0, -1, 0},
    {"resigned", p27_resigned, "SEIs from the 2nd-5th on made by another key (3 x 3), each P picture lost or none, 3 videos: the change of keys shows", 0, 0, -1, 0},
    {"key", p27_key, "no key, or the key of someone else: never authentic", 0, 0, -1, 0},
    {"bytes", p27_bytes, "every byte of 3 older SEIs replaced by 24 (all 255) values", 0, 0, -1, 0},
    {"signed", p27_signed, "every byte of the content of 3 older SEIs replaced by 24 (all 255) values, signed by the attacker", 0, 0, -1, 0},
    {"fields", p27_fields, "every field of 3 older SEIs cut, extended, copied over others or removed; signed by the attacker", 0, 0, -1, 0},
    {"truncated", p27_truncated, "3 older SEIs cut at every byte, 5 ways", 0, 0, -1, 0},
    {"signature", p27_signature, "every length of the signature field, every claimed and every real size, EC and RSA", 0, 0, -1, 0},
    {"numbers", p27_numbers, "22 GOP counters x 17 picture counts x 7 sizes of the hash list in each of 3 older SEIs, signed by the attacker", 0, 0, -1, 0},
};
#define PROP(id, as, sc) {id, as, sc, sizeof(sc) / sizeof(sc[0])}
static const mc_property kProps[] = {
    PROP("P27", kAssume, kP27),
};
int main(int argc, char **argv)
{
  mem_init();
  sim_init();
  return mc_main(argc, argv, kProps, sizeof(kProps) / sizeof(kProps[0]));
}
