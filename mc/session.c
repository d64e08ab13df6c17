/* P20, P23: sessions being reset, and side by side. */
#include <stdio.h>
#include "edits.h"
#include "ref.h"
#include "same.h"

static stream_t A, B, S;
static run_t R1, R2;
static sei_t F;
static ref_t G;
static ref_sei_t X;

/* ---------------------------------------------------------------- P20 reset */
static void tail_of(const stream_t *s, int from, stream_t *out)
{
  out->codec = s->codec;
  out->len = 0;
  for (int i = from; i < s->len; i++) sim_append(out, s->n[i]);
}
static void p20_auth(void)
{
  sim_begin();
  static const char *const specs[] = {"IPPIPPIPPIPPIPP", "WVIiPpIiPpPpIiPpIiPpIi"};
  static const char *const delays[] = {"0", "3", "0400", "9"};
  cfg_t c = {.ts = 1};
  c.codec = mc_choose(2, "codec");
  c.level = mc_choose(2, "level");
  c.hash = mc_choose(2, "hash") ? "sha512" : NULL;
  const char *spec = specs[mc_choose(2, "spec")];
  sim_sign_cached(&c, spec, delays[mc_choose(mc_tier() ? 4 : 2, "delay")], &A);
  /* What is watched first: a part of the recording, untouched or damaged. */
  int from = 0, stop, what = mc_choose(4, "damage");
  if (what == 1) A.n[A.len / 3].data[A.n[A.len / 3].size - 2] ^= 1;
  if (what == 2) sim_remove(&A, A.len / 2);
  if (what == 3)
    for (int i = A.len - 1; i >= 0; i--)
      if (A.n[i].type == 'S') sim_remove(&A, i);
  stop = mc_choose(A.len, "stop");
  int times = 1 + (mc_tier() ? mc_choose(2, "resets") : 0);
  bool ask = mc_choose(2, "report before reset");
  /* What is watched then: the (genuine) recording from some I-slice on. */
  sim_sign_cached(&c, spec, NULL, &B);
  int starts[60], ns = 0;
  for (int i = 0; i < B.len; i++)
    if (B.n[i].type == 'I') starts[ns++] = i;
  int nst = mc_tier() ? ns : 3, st = mc_choose(nst + 2, "start");
  bool bad = mc_choose(2, "damage after");
  if (st < nst) tail_of(&B, starts[st], &S);
  else if (st == nst) {
    /* ... without the SEI of the GOP before */
    tail_of(&B, starts[ns / 2], &S);
    for (int i = 0; i < S.len; i++)
      if (S.n[i].type == 'S') {
        sim_remove(&S, i);
        break;
      }
  } else {
    /* ... or the next recording of the camera, which was reset as well */
    signed_video_t *cam = sim_signer(&c);
    static stream_t T;
    T.len = T.num_seis = S.len = S.num_seis = 0;
    T.codec = S.codec = c.codec;
    sim_sign_with(cam, &c, "IPIPIPIPIPIPI", &T, 300);
    sim_pull(cam, &c, NULL, &T);
    MC_CHECK(signed_video_reset(cam) == SV_OK, "reset_error", "signed_video_reset() of the signer failed");
    sim_sign_with(cam, &c, spec, &S, 400);
    signed_video_free(cam);
  }
  if (bad) S.n[S.len / 2].data[S.n[S.len / 2].size - 2] ^= 1;
  signed_video_t *sv = signed_video_create(c.codec);
  sim_run_init(&R1);
  for (int i = from; i <= stop; i++) sim_feed(sv, A.n[i].data, A.n[i].size, i, &R1);
  if (ask) sim_final(sv, &R1);
  for (int i = 0; i < times; i++) {
    int rc = signed_video_reset(sv);
    mc_op();
    MC_CHECK(rc == SV_OK, "reset_error", "signed_video_reset() returned %d", rc);
  }
  sim_run_init(&R1);
  for (int i = 0; i < S.len; i++) sim_feed(sv, S.n[i].data, S.n[i].size, i, &R1);
  sim_final(sv, &R1);
  signed_video_free(sv);
  sim_play(&S, NULL, &R2);
  mc_note("%.*s, reset, %s", stop + 1, sim_types(&A), sim_types(&S));
  mc_note("%s", sim_run_str(&R1));
  mc_note("expected:\n%s", sim_run_str(&R2));
  /* The product information may be known from before the reset. */
  for (int i = 0; i < R1.nrep; i++)
    if (!R2.rep[i].hw[0] || !strcmp(R2.rep[i].hw, "(null)")) {
      memcpy(R2.rep[i].hw, R1.rep[i].hw, 5 * 300);
      strcpy(R2.rep[i].ver_sign, R1.rep[i].ver_sign);
    }
  run_same(&R1, 0, &R2, "reset_differs");
  mc_nonvacuous();
}
/* The signer is reset at any point, and continues with an I-slice. */
static void p20_sign(void)
{
  sim_begin();
  cfg_t c = {0};
  c.ts = mc_choose(2, "ts");
  c.codec = mc_choose(2, "codec");
  c.level = mc_choose(2, "level");
  c.hash = mc_choose(2, "hash") ? "sha512" : NULL;
  int mode = mc_choose(3, "mode"); /* reset after whole NALUs, in the middle of one, or after the end of stream */
  char spec[16] = "";
  int n = mc_choose(mc_tier() ? 7 : 6, "length");
  for (int i = 0; i < n; i++) spec[i] = i ? "IPp"[mc_choose(3, "nalu")] : "IP"[mc_choose(2, "nalu")];
  spec[n] = 0;
  signed_video_t *sv = sim_signer(&c);
  A.len = A.num_seis = 0;
  A.codec = c.codec;
  sim_sign_with(sv, &c, spec, &A, 0);
  if (mode == 1) {
    char t = "IP"[mc_choose(2, "cut NALU")];
    nalu_t p = sim_nalu(&c, t, 40);
    sim_pull(sv, &c, &p, &A);
    int rc = signed_video_add_nalu_part_for_signing_with_timestamp(sv, p.data, p.size - 2, &p.ts, false);
    MC_CHECK(rc == SV_OK, "sign_api_error", "adding a part returned %d", rc);
  }
  if (mode == 2) {
    if (!strchr(spec, 'I')) mc_prune();
    sim_pull(sv, &c, NULL, &A);
    int rc = signed_video_set_end_of_stream(sv);
    MC_CHECK(rc == SV_OK, "sign_api_error", "signed_video_set_end_of_stream() returned %d", rc);
  }
  sim_pull(sv, &c, NULL, &A);
  int had = A.num_seis;
  int rc = signed_video_reset(sv);
  MC_CHECK(rc == SV_OK, "reset_error", "signed_video_reset() returned %d", rc);
  B.len = B.num_seis = 0;
  B.codec = c.codec;
  static const char *const more[] = {"IPIPPIP", "IIIP", "IPPPIpPIiPIP"};
  sim_sign_with(sv, &c, more[mc_choose(3, "then")], &B, 50);
  signed_video_free(sv);
  mc_note("%s, reset, %s", sim_types(&A), sim_types(&B));
  /* The SEIs are those of a new recording, counting on. */
  ref_init(&G, &c);
  G.counter = (unsigned)had;
  static ref_sei_t e[20];
  int ne = 0, k = 0;
  for (int i = 0; i < B.len; i++)
    if (B.n[i].type != 'S' && ref_add(&G, B.n[i].type, B.n[i].data, B.n[i].size, c.ts ? &B.n[i].ts : NULL, &e[ne])) ne++;
  for (int i = 0; i < B.len; i++)
    if (B.n[i].type == 'S') {
      MC_CHECK(k < ne, "sei_extra", "more than %d SEIs after reset", ne);
      ref_check(&B.n[i], &e[k++], &c, &F);
    }
  MC_CHECK(k == ne, "sei_lost", "%d SEIs after reset, expected %d", k, ne);
  sim_play(&B, NULL, &R1);
  mc_note("%s", sim_run_str(&R1));
  MC_CHECK(R1.has_final && R1.final.a_auth == SV_AUTH_RESULT_OK, "reset_not_ok", "recording made after reset is %s", auth_str(R1.final.a_auth));
  mc_nonvacuous();
}

/* ---------------------------------------------------------------- P23 independence */
/* Two sessions, stepped in every order; each gives what it gives alone. */
typedef struct {
  bool auth;
  signed_video_t *sv;
  cfg_t c;
  const stream_t *s;
  int at;
  run_t run;
  stream_t out;
} sess_t;
static sess_t W[2], Alone[2];
static void w_init(sess_t *w)
{
  w->at = 0;
  if (w->auth) {
    w->sv = signed_video_create(w->c.codec);
    sim_run_init(&w->run);
  } else {
    w->sv = sim_signer(&w->c);
    w->out.len = w->out.num_seis = 0;
    w->out.codec = w->c.codec;
  }
}
static bool w_more(const sess_t *w) { return w->at <= w->s->len; }
static void w_step(sess_t *w)
{
  int i = w->at++;
  if (i == w->s->len) {
    if (w->auth) sim_final(w->sv, &w->run);
    else sim_pull(w->sv, &w->c, NULL, &w->out);
    signed_video_free(w->sv);
    return;
  }
  const nalu_t *n = &w->s->n[i];
  if (w->auth) {
    sim_feed(w->sv, n->data, n->size, i, &w->run);
    return;
  }
  sim_pull(w->sv, &w->c, n, &w->out);
  int rc = signed_video_add_nalu_for_signing_with_timestamp(w->sv, n->data, n->size, NULL);
  mc_op();
  MC_CHECK(rc == SV_OK, "sign_api_error", "adding a NALU returned %d", rc);
  sim_append(&w->out, sim_nalu_copy(n));
}
static stream_t In[2];
static void p23(void)
{
  sim_begin();
  static const char *const auth_spec[] = {"IPIPI", "IIPI"};
  for (int k = 0; k < 2; k++) {
    sess_t *w = &W[k];
    memset(&w->c, 0, sizeof(w->c));
    w->auth = mc_choose(2, "auth");
    int v = mc_choose(4, "variant");
    w->c.codec = v & 1;
    w->c.level = v >> 1;
    w->c.key = k ? 2 : 0;
    w->c.hash = k && (v & 1) ? "sha512" : NULL;
    w->c.salt = k;
    w->s = &In[k];
    In[k].len = 0;
    if (w->auth) {
      sim_sign_cached(&w->c, auth_spec[k], NULL, &In[k]);
      if (v & 2) In[k].n[1].data[In[k].n[1].size - 2] ^= 1;
    } else {
      In[k].codec = w->c.codec;
      const char *spec = k ? "IPIP" : "IIPIP";
      for (int i = 0; spec[i]; i++) sim_append(&In[k], sim_nalu(&w->c, spec[i], i));
    }
    Alone[k].auth = w->auth;
    Alone[k].c = w->c;
    Alone[k].s = w->s;
  }
  if (W[0].auth > W[1].auth) mc_prune(); /* the same as the other way round */
  for (int k = 0; k < 2; k++) {
    w_init(&Alone[k]);
    while (w_more(&Alone[k])) w_step(&Alone[k]);
  }
  w_init(&W[0]);
  w_init(&W[1]);
  while (w_more(&W[0]) || w_more(&W[1])) {
    int k = !w_more(&W[0]) ? 1 : !w_more(&W[1]) ? 0 : mc_choose(2, "who");
    w_step(&W[k]);
  }
  for (int k = 0; k < 2; k++) {
    if (W[k].auth) run_same(&W[k].run, 0, &Alone[k].run, "sessions_interfere");
    else {
      MC_CHECK(!strcmp(sim_types(&W[k].out), sim_types(&Alone[k].out)), "sessions_interfere", "session %d: SEIs at other places", k);
      for (int i = 0; i < W[k].out.len; i++) {
        const nalu_t *a = &W[k].out.n[i], *b = &Alone[k].out.n[i];
        if (a->type != 'S') continue;
        static sei_t f1, f2;
        const char *e1 = sei_parse(a->data, a->size, W[k].c.codec, &f1), *e2 = sei_parse(b->data, b->size, W[k].c.codec, &f2);
        MC_CHECK(!e1 && !e2 && f1.n == f2.n && f1.reserved == f2.reserved, "sessions_interfere", "session %d: SEI %d differs", k, i);
        for (int t = 0; t < f1.n - 1; t++)
          MC_CHECK(f1.t[t].tag == f2.t[t].tag && f1.t[t].len == f2.t[t].len && !memcmp(f1.t[t].v, f2.t[t].v, f1.t[t].len),
              "sessions_interfere", "session %d: SEI %d differs in tag %d", k, i, f1.t[t].tag);
        MC_CHECK(ref_verify(a->data, &f1, &W[k].c), "sessions_interfere", "session %d: signature of SEI %d is wrong", k, i);
      }
    }
  }
  mc_nonvacuous();
}

static const char *const kAssume[] = {
    "The signing plugin is the repository's unthreaded one behind a controllable delay; OpenSSL is trusted; its randomness is fixed (signatures are deterministic).",
    NULL};
static const mc_scenario kP20[] = {
    {"validation", p20_auth, "2 recordings (codec x level x hash algorithm x 2 (4) latencies), watched up to every NALU, untouched, damaged, or without signatures, then reset and watched from every (quick: first 3) I-slice on, also without the SEI of the GOP before, or the next recording of a camera that was reset, untouched or damaged; with and without a report asked for before", 0, 0, -1, 0},
    {"signing", p20_sign, "all sequences of up to 5 (6) NALUs from {I, P, p}, reset after a NALU, within one, or after the end of stream; 3 sequences signed then; codec x level x hash algorithm x timestamps", 0, 0, -1, 0},
};
static const mc_scenario kP23[] = {
    {"interleavings", p23, "all interleavings of two sessions (signing or validating, 4 variants each, different keys and hash algorithms) of 5..9 steps", 0, 0, -1, 0},
};

#define PROP(id, as, sc) {id, as, sc, sizeof(sc) / sizeof(sc[0])}
static const mc_property kProps[] = {
    PROP("P20", kAssume, kP20),
    PROP("P23", kAssume, kP23),
};
int main(int argc, char **argv)
{
  sim_init();
  return mc_main(argc, argv, kProps, sizeof(kProps) / sizeof(kProps[0]));
}
