/* P31: which NAL units are protected, by their header. */
#include <stdio.h>
#include "sim.h"

static stream_t S, T;
static run_t R;

/* From the tables of the standards: what a NAL unit with this header is. */
enum { INTRA, INTER, NON_VCL, OTHER_VCL, MALFORMED };
static int kind(int codec, uint8_t h0, uint8_t h1)
{
  if (codec == SV_CODEC_H264) {
    int t = h0 & 0x1f, ref = (h0 >> 5) & 3;
    bool ok = !(h0 & 0x80);
    if (t == 5) return ok && ref ? INTRA : MALFORMED;
    if (t == 1) return ok ? INTER : MALFORMED;
    if (t >= 2 && t <= 4) return OTHER_VCL; /* data partitions */
    if (t == 19 || t == 20 || t == 21) return OTHER_VCL; /* auxiliary and extension slices */
    return NON_VCL;
  }
  int t = (h0 >> 1) & 0x3f, tid = h1 & 7;
  bool ok = !(h0 & 0x80) && tid;
  if (t >= 16 && t <= 21) return ok && tid == 1 ? INTRA : MALFORMED; /* IRAP pictures have temporal id 0 */
  if (t <= 1) return ok ? INTER : MALFORMED;
  if (t <= 31) return OTHER_VCL;
  return NON_VCL;
}
static const char *const kKind[] = {"a slice of an intra picture", "a slice of a trailing picture", "no slice", "another slice", "malformed"};

static nalu_t unit(const cfg_t *c, uint8_t h0, uint8_t h1, bool first, int id)
{
  nalu_t n = sim_nalu(c, first ? 'P' : 'p', id);
  n.data[4] = h0;
  if (c->codec == SV_CODEC_H265) n.data[5] = h1;
  return n;
}

static void sign(const cfg_t *c, const char *spec, nalu_t x, char xt)
{
  signed_video_t *sv = sim_signer(c);
  S.codec = c->codec;
  S.len = S.num_seis = 0;
  int id = 0;
  for (; *spec; spec++, id++) {
    nalu_t n = *spec == 'X' ? x : sim_nalu(c, *spec, id);
    n.type = *spec == 'X' ? xt : *spec;
    int rc = signed_video_add_nalu_for_signing(sv, n.data, n.size);
    mc_op();
    MC_CHECK(rc == SV_OK, "sign_error", "adding NALU %d gave %d", id, rc);
    sim_pull(sv, c, &n, &S);
    sim_append(&S, n);
  }
  sim_pull(sv, c, NULL, &S);
  signed_video_free(sv);
}

static void header(void)
{
  sim_begin();
  static const char *const specs[] = {"IPPIPPXPIPIPIPIP", "IPPIPPIXPPIPIPIP", "IPIPpXIPIPIPIP", "IPIPPXXPIPIPIPIP"};
  cfg_t c = {0};
  c.codec = mc_choose(2, "codec");
  c.level = mc_choose(2, "level");
  uint8_t h0, h1 = 0;
  if (c.codec == SV_CODEC_H264) h0 = (uint8_t)mc_choose(256, "header");
  else {
    h0 = (uint8_t)(mc_choose(128, "type") << 1);
    static const int layers[] = {0, 33};
    int layer = mc_tier() ? mc_choose(64, "layer") : layers[mc_choose(2, "layer")];
    h0 |= layer >> 5;
    h1 = (uint8_t)((layer & 31) << 3 | mc_choose(8, "temporal id"));
  }
  bool first = mc_choose(2, "first slice");
  int k = kind(c.codec, h0, h1);
  if (k == MALFORMED) mc_prune(); /* not video; see P21 */
  const char *spec = specs[mc_choose(4, "stream")];
  nalu_t x = unit(&c, h0, h1, first, 77);
  char xt = k == INTRA ? (first ? 'I' : 'i') : k == INTER ? (first ? 'P' : 'p') : 'V';
  sign(&c, spec, x, xt);
  mc_note("%s, NAL unit header %02x%02x is %s%s", sim_types(&S), h0, h1, kKind[k], first ? ", the first" : "");
  int seis = 0, want = -1;
  for (int i = 0; i < S.len; i++) {
    seis += S.n[i].type == 'S';
    want += S.n[i].type == 'I';
  }
  if (k != OTHER_VCL)
    MC_CHECK(seis == want, "sei_per_gop", "%d SEIs for %d complete GOPs, header %02x%02x is %s", seis, want, h0, h1, kKind[k]);
  sim_play(&S, NULL, &R);
  mc_note("%s", sim_run_str(&R));
  MC_CHECK(R.first_error < 0 && R.has_final && R.final.a_auth == SV_AUTH_RESULT_OK, "not_ok", "untouched video with header %02x%02x is %s", h0, h1, auth_str(R.final.a_auth));
  mc_nonvacuous();
  if (k == OTHER_VCL) return;
  /* Pictures are counted; the others are not. */
  int pics = 0, exp = 0;
  for (int i = 0; i < R.nrep; i++)
    if (R.rep[i].auth == SV_AUTH_RESULT_OK) exp += R.rep[i].exp;
  int gops = 0;
  for (int i = 0; i < S.len; i++) {
    gops += S.n[i].type == 'I';
    if (gops <= want && S.n[i].type != 'S' && S.n[i].type != 'V') pics++;
  }
  mc_trace_ok();
  MC_CHECK(exp == pics, "counted", "%d pictures expected in reports, %d signed; header %02x%02x is %s", exp, pics, h0, h1, kKind[k]);
  /* Touch it. */
  int at = 0;
  while (S.n[at].data[4] != h0 || memcmp(S.n[at].data, x.data, x.size)) at++;
  int what = mc_choose(4, "tampering");
  sim_copy_stream(&T, &S);
  if (what == 0) T.n[at].data[T.n[at].size - 2] ^= 0x01;
  if (what == 1) sim_remove(&T, at);
  if (what == 2) sim_insert(&T, at, sim_nalu_copy(&T.n[at]));
  if (what == 3) sim_insert(&T, at + 1, unit(&c, h0, h1, first, 99));
  sim_play(&T, NULL, &R);
  static const char *const kWhat[] = {"altered", "removed", "repeated", "accompanied by another"};
  mc_note("%s\n%s", kWhat[what], sim_run_str(&R));
  int a = R.final.a_auth;
  if (k == NON_VCL)
    MC_CHECK(a == SV_AUTH_RESULT_OK, "false_alarm", "%s is %s, though header %02x%02x is %s", kWhat[what], auth_str(a), h0, h1, kKind[k]);
  else
    MC_CHECK(a == SV_AUTH_RESULT_NOT_OK || (what == 1 && a == SV_AUTH_RESULT_OK_WITH_MISSING_INFO), "unprotected", "%s is %s, though header %02x%02x is %s", kWhat[what], auth_str(a), h0, h1, kKind[k]);
}

static const char *const kAssume[] = {
    "The signing plugin is the repository's unthreaded one; OpenSSL is trusted; its randomness is fixed (signatures are deterministic).",
    "No claim for slices of types the library does not sign (data partitions, sub-layer and leading pictures) other than that untouched video with them is OK.",
    NULL};
static const mc_scenario kP31[] = {
    {"header", header, "every H.264 NAL unit header (256) and H.265 header (all types, forbidden bit and temporal ids, 2 (64) layers), first slice or not, in 4 streams, both levels; untouched, altered, removed, repeated, one more added", 0, 0, -1, 0},
};
static const mc_property kProps[] = {{"P31", kAssume, kP31, sizeof(kP31) / sizeof(kP31[0])}};
int main(int argc, char **argv)
{
  sim_init();
  return mc_main(argc, argv, kProps, sizeof(kProps) / sizeof(kProps[0]));
}
