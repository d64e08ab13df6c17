/* P22: any allocation, and any call to OpenSSL or of the file system, made by the library may fail. */
#define OPENSSL_SUPPRESS_DEPRECATED
#include "edits.h"
#include "mem.h"
#include "old.h"
#include "pki.h"
#include "plugin.h"
#include <openssl/err.h>
#include <fcntl.h>
#include <stdio.h>
#include <stdlib.h>
#include <unistd.h>
#include "lib/src/includes/signed_video_helpers.h"
#include "lib/src/includes/signed_video_openssl.h"

/* The plugin is the real one. */
mcp_t mcp;
void mcp_reset(void) { memset(&mcp, 0, sizeof(mcp)); }
void mcp_tick(void) {}

static stream_t S, T;
static run_t R, R0;
static bool retry; /* a call that failed is made once more, where that makes sense */
static int errors; /* calls that told of a failure */

/* ---------------------------------------------------------------- what a session does */
#define TRY(call) \
  do { \
    int rc_ = (call); \
    mc_op(); \
    if (rc_ != SV_OK && retry) rc_ = (call); \
    if (rc_ != SV_OK) errors++, mc_note("%s gives %d", #call, rc_); \
  } while (0)
static cfg_t C;
static const char *kSpec = "IPIPPIP";
static int mode;
enum { G_PLAIN, G_AXIS, G_GOLDEN, G_PARTS, G_OLD_API, G_NUM };
static char *chain_pem;
static uint8_t att[300];
static size_t att_size;
static int pull(signed_video_t *sv, const nalu_t *peek, stream_t *out)
{
  for (int k = 0; k < 20; k++) {
    nalu_t n = {.type = 'S', .pos = -1, .src = -1};
    if (mode == G_OLD_API) {
      signed_video_nalu_to_prepend_t np = {0};
      int rc = signed_video_get_nalu_to_prepend(sv, &np);
      mc_op();
      if (rc != SV_OK) {
        errors++;
        return rc;
      }
      if (np.prepend_instruction == SIGNED_VIDEO_PREPEND_NOTHING) break;
      n.data = sim_alloc(np.nalu_data_size);
      memcpy(n.data, np.nalu_data, np.nalu_data_size);
      n.size = np.nalu_data_size;
      signed_video_nalu_data_free(np.nalu_data);
    } else {
      size_t sz = 0;
      int rc = signed_video_get_sei(sv, NULL, &sz, NULL, peek ? peek->data : NULL, peek ? peek->size : 0, NULL);
      mc_op();
      if (rc != SV_OK) {
        errors++;
        mc_note("signed_video_get_sei gives %d", rc);
        if (!retry) return rc;
        continue;
      }
      if (!sz) break;
      n.data = sim_alloc(sz);
      rc = signed_video_get_sei(sv, n.data, &sz, NULL, peek ? peek->data : NULL, peek ? peek->size : 0, NULL);
      n.size = sz;
      if (rc != SV_OK) {
        errors++;
        return rc;
      }
    }
    sim_append(out, n);
  }
  return 0;
}
static void do_sign(void)
{
  stream_t *out = &S;
  out->codec = C.codec;
  out->len = out->num_seis = 0;
  errors = 0;
  signed_video_t *sv = signed_video_create(C.codec);
  if (!sv && retry) sv = signed_video_create(C.codec);
  if (!sv) {
    errors++;
    mc_note("no session");
    return;
  }
  const char *k = sim_priv_key(C.key);
  TRY(signed_video_set_private_key_new(sv, k, strlen(k)));
  TRY(signed_video_set_product_info(sv, "hw", "fw1.2", "SN42", mode == G_AXIS ? AXIS : "manu", "addr"));
  TRY(signed_video_set_authenticity_level(sv, (SignedVideoAuthenticityLevel)C.level));
  TRY(signed_video_set_recurrence_interval_frames(sv, 2));
  if (C.hash) TRY(signed_video_set_hash_algo(sv, C.hash));
  if (mode == G_AXIS) TRY(sv_vendor_axis_communications_set_attestation_report(sv, att, (uint8_t)att_size, chain_pem));
  if (mode == G_GOLDEN) {
    TRY(signed_video_set_using_golden_sei(sv, true));
    TRY(signed_video_generate_golden_sei(sv));
    TRY(signed_video_set_authenticity_level(sv, (SignedVideoAuthenticityLevel)C.level));
  }
  int pos = 0;
  for (int i = 0; kSpec[i]; i++) {
    nalu_t n = sim_nalu(&C, kSpec[i], i);
    n.src = 1;
    n.pos = pos++;
    pull(sv, &n, out);
    int64_t ts = 1000 + i;
    int rc;
    if (mode == G_PARTS) {
      rc = signed_video_add_nalu_part_for_signing_with_timestamp(sv, n.data, n.size - 2, &ts, false);
      if (rc != SV_OK) errors++;
      rc = signed_video_add_nalu_part_for_signing_with_timestamp(sv, n.data + n.size - 2, 2, &ts, true);
    } else
      rc = signed_video_add_nalu_for_signing_with_timestamp(sv, n.data, n.size, &ts);
    mc_op();
    if (rc != SV_OK) {
      errors++;
      mc_note("NALU %d gives %d", i, rc);
    }
    sim_append(out, n);
  }
  pull(sv, NULL, out);
  int rc = signed_video_set_end_of_stream(sv);
  if (rc != SV_OK) {
    errors++;
    mc_note("signed_video_set_end_of_stream gives %d", rc);
  }
  pull(sv, NULL, out);
  signed_video_free(sv);
}
static const char *manual;
static void do_play(void)
{
  errors = 0;
  sim_run_init(&R);
  signed_video_t *sv = signed_video_create(S.codec);
  if (!sv && retry) sv = signed_video_create(S.codec);
  if (!sv) {
    errors++;
    mc_note("no session");
    return;
  }
  if (manual) TRY(signed_video_set_public_key(sv, manual, strlen(manual)));
  for (int i = 0; i < S.len; i++) {
    int rc = sim_feed(sv, S.n[i].data, S.n[i].size, i, &R);
    if (rc != SV_OK) {
      errors++;
      mc_note("NALU %d gives %d", i, rc);
    }
  }
  sim_final(sv, &R);
  if (!R.has_final) {
    errors++;
    mc_note("no final report");
  }
  signed_video_free(sv);
}

/* Generating a private key, to a buffer and/or a file. */
static struct {
  int algo, to;
  bool old_api;
} K;
enum { TO_BUF, TO_DIR, TO_BOTH, TO_SLASH, TO_CWD, TO_NUM };
static char scratch[64], *key_buf, *key_file;
static size_t key_buf_size, key_file_size;
static bool file_there;
static void do_keys(void)
{
  errors = 0;
  key_buf = key_file = NULL;
  key_buf_size = key_file_size = 0;
  char slash[70];
  snprintf(slash, sizeof(slash), "%s/", scratch);
  const char *dir = K.to == TO_BUF ? NULL : K.to == TO_SLASH ? slash : K.to == TO_CWD ? "" : scratch;
  int cwd = open(".", O_RDONLY);
  if (chdir(scratch)) mc_fail("setup", "chdir");
  bool buf = K.to == TO_BUF || K.to == TO_BOTH;
  if (K.old_api) {
    TRY(signed_video_generate_private_key(K.algo ? SIGN_ALGO_RSA : SIGN_ALGO_ECDSA, dir, buf ? &key_buf : NULL, buf ? &key_buf_size : NULL));
  } else if (K.algo) {
    TRY(signed_video_generate_rsa_private_key(dir, buf ? &key_buf : NULL, buf ? &key_buf_size : NULL));
  } else {
    TRY(signed_video_generate_ecdsa_private_key(dir, buf ? &key_buf : NULL, buf ? &key_buf_size : NULL));
  }
  const char *name = K.algo ? "private_rsa_key.pem" : "private_ecdsa_key.pem";
  FILE *f = fopen(name, "rb");
  file_there = f;
  if (f) {
    key_file = sim_alloc(10000);
    key_file_size = fread(key_file, 1, 10000, f);
    fclose(f);
    unlink(name);
  }
  if (fchdir(cwd)) mc_fail("setup", "fchdir");
  close(cwd);
  if (key_buf) {
    char *b = sim_alloc(key_buf_size + 1);
    memcpy(b, key_buf, key_buf_size);
    mc_free(key_buf);
    key_buf = b;
  }
}

/* ---------------------------------------------------------------- failing */
static void (*body)(void);
static long fail_at, fail_too;
static int fail_kind, fail_which;
static void failing(void)
{
  sim_begin();
  mem_fail_at(fail_at, fail_which == 1 ? 1 : 4, fail_kind == 1);
  if (fail_kind == 2) mem_fail_too(fail_too);
  body();
  mem_fail_at(-1, 0, false);
}
static void judged(void)
{
  mem_forget();
  ERR_clear_error();
  mem_t a = mem_now();
  failing();
  ERR_clear_error();
  mem_t b = mem_now();
  MC_CHECK(b.lib == 0, "leak", "%ld blocks are not freed: %s", b.lib, mem_leaks());
  if (b.ssl > a.ssl) {
    failing();
    ERR_clear_error();
    mem_t c = mem_now();
    MC_CHECK(c.ssl <= b.ssl, "leak_openssl", "%ld OpenSSL blocks are not freed", c.ssl - b.ssl);
  }
}
/* The number of allocations without failures, in a process that has done it before. */
#define NPROG 64
static long counts[2][NPROG];
static void count(int prog)
{
  retry = false;
  for (int w = 0; w < 2; w++)
    for (int i = 0; i < 3; i++) {
      sim_begin();
      ERR_clear_error();
      mem_fail_at(-1, w ? 4 : 1, false);
      body();
      counts[w][prog] = mem_count();
      mem_fail_at(-1, 0, false);
    }
}
static void choose_failure(int prog)
{
  fail_which = 1 + mc_choose(2, "of");
  fail_kind = mc_choose(mc_tier() ? 3 : 2, "kind");
  retry = mc_choose(2, "retry");
  fail_at = mc_choose((int)counts[fail_which - 1][prog], "allocation");
  if (fail_kind == 2) fail_too = fail_at + 1 + mc_choose(6, "next");
  mc_note("%s %ld of %ld fails%s%s", fail_which == 1 ? "allocation" : "OpenSSL call", fail_at, counts[fail_which - 1][prog], fail_kind == 1 ? ", and all that follow" : fail_kind ? ", and another one soon after" : "", retry ? ", calls are repeated" : "");
}
/* A report |a| may lack its strings if there was no memory for them. */
static bool same(const rep_t *a, const rep_t *b)
{
  if (!a->vstr[0] || !a->nstr[0]) {
    rep_t c = *a;
    strcpy(c.vstr, b->vstr);
    strcpy(c.nstr, b->nstr);
    return (c.vstr[0] && c.nstr[0]) && same(&c, b);
  }
  return a->auth == b->auth && a->exp == b->exp && a->recv == b->recv && a->pend == b->pend && a->a_auth == b->a_auth && a->a_recv == b->a_recv && a->a_val == b->a_val && a->a_pend == b->a_pend && !strcmp(a->vstr, b->vstr) && !strcmp(a->nstr, b->nstr) && a->has_ts == b->has_ts && a->pkval == b->pkval && !strcmp(a->hw, b->hw) && !strcmp(a->mf, b->mf) && !strcmp(a->sn, b->sn) && !strcmp(a->fw, b->fw) && !strcmp(a->ad, b->ad) && !strcmp(a->ver_sign, b->ver_sign) && !strcmp(a->ver_this, b->ver_this);
}

/* ---------------------------------------------------------------- signing */
#define NSIGN 20
static void sign_prog(int p)
{
  memset(&C, 0, sizeof(C));
  C.level = p % 2;
  C.key = p / 2 % 2;
  mode = p / 4;
  if (mode == G_AXIS) C.key = 0;
  if (mode == G_PARTS) C.hash = "sha512";
  body = do_sign;
}
static void warm(void);
static void p22_sign(void)
{
  warm();
  int p = mc_choose(NSIGN, "program");
  sign_prog(p);
  choose_failure(p);
  judged();
  bool failed = fail_at >= 0;
  mc_note("%s, %d errors", sim_types(&S), errors);
  mc_nonvacuous();
  mc_state((uint64_t)(S.len * 100 + errors));
  if (!errors && failed) {
    /* Nobody was told, hence the video has to be fine. */
    manual = NULL;
    body = do_play;
    retry = false;
    do_play();
    mc_note("%s", sim_run_str(&R));
    int ok = 0;
    for (int i = 0; i < R.nrep; i++) {
      ok += R.rep[i].auth == SV_AUTH_RESULT_OK;
      MC_CHECK(R.rep[i].auth == SV_AUTH_RESULT_OK || R.rep[i].auth <= SV_AUTH_RESULT_SIGNATURE_PRESENT, "silent", "no error, but report %d of the signed video is %s", i, auth_str(R.rep[i].auth));
    }
    MC_CHECK(ok >= 3, "silent", "no error, but only %d GOPs of the signed video are authentic", ok);
  }
  mc_trace_ok();
}
/* ---------------------------------------------------------------- validation */
#define NPLAY 18
static void play_prog(int p)
{
  sim_begin();
  memset(&C, 0, sizeof(C));
  manual = NULL;
  mode = G_PLAIN;
  retry = false;
  C.level = p % 2;
  int k = p / 2;
  if (k < 2) {
    C.key = k;
    do_sign();
  } else if (k == 2) {
    mode = G_AXIS;
    do_sign();
  } else if (k == 3) {
    do_sign();
    S.n[4].data[S.n[4].size - 2] ^= 1;
    S.n[4].src = -1;
  } else if (k == 6) {
    do_sign();
    manual = sim_pub_key(0);
  } else if (k == 7) {
    mode = G_PARTS;
    C.hash = "sha512";
    do_sign();
  } else if (k == 8) {
    mode = G_GOLDEN;
    do_sign();
  } else {
    old_t o = {.c = {.level = p % 2, .ts = 1, .pad = 1, .recurrence = 2}, .ver = 1, .crypto = 1};
    old_cached(&o, "IPIPPIPIP", "", &S);
    if (k == 5) {
      S.n[4].data[S.n[4].size - 2] ^= 1;
      S.n[4].src = -1;
    }
  }
  sim_copy_stream(&T, &S);
  /* Survives sim_begin(). */
  for (int i = 0; i < S.len; i++) {
    uint8_t *d = malloc(S.n[i].size);
    memcpy(d, S.n[i].data, S.n[i].size);
    S.n[i].data = d;
  }
  body = do_play;
}
static stream_t played[NPLAY];
static run_t expected[NPLAY];
/* Before anything fails in this process. */
static void warm(void)
{
  static bool done;
  if (done) return;
  done = true;
  for (int p = 0; p < NSIGN; p++) {
    sign_prog(p);
    count(p);
    if (errors) mc_fail("setup", "signing program %d fails", p);
  }
  for (int p = 0; p < NPLAY; p++) {
    play_prog(p);
    played[p] = S;
    count(NSIGN + p);
    expected[p] = R;
    if (errors) mc_fail("setup", "validation program %d fails", p);
  }
}
static void p22_play(void)
{
  warm();
  int p = mc_choose(NPLAY, "program");
  S = played[p];
  manual = p / 2 == 6 ? sim_pub_key(0) : NULL;
  body = do_play;
  choose_failure(NSIGN + p);
  R0 = expected[p];
  judged();
  mc_note("%s", sim_run_str(&R));
  mc_note("expected:\n%s", sim_run_str(&R0));
  mc_nonvacuous();
  mc_state(run_fp(&R));
  if (errors && (p / 2 == 3 || (p / 2 == 5 && fail_kind != 2))) {
    /* The strings of a report are not aligned with the video if some of it could not be stored. */
    MC_CHECK(!R.has_final || R.final.a_val <= 4 || R.final.a_auth != SV_AUTH_RESULT_OK, "tampered_authentic", "the modified video is overall authentic");
  }
  if (!errors) {
    int k = 0;
    for (int i = 0; i < R.nrep; i++) {
      while (k < R0.nrep && R0.rep[k].at < R.rep[i].at) k++;
      /* What cannot be verified counts as wrong. */
      if (R.rep[i].auth <= SV_AUTH_RESULT_NOT_OK) break;
      MC_CHECK(k < R0.nrep && R0.rep[k].at == R.rep[i].at && same(&R.rep[i], &R0.rep[k]), "silent", "no error, but report %d differs from that without a failure", i);
    }
    MC_CHECK(R.final.a_auth == R0.final.a_auth || R.final.a_auth <= SV_AUTH_RESULT_NOT_OK, "silent", "no error, but the overall result is %s", auth_str(R.final.a_auth));
  }
  mc_trace_ok();
}

/* ---------------------------------------------------------------- keys */
#define NKEYS (2 * TO_NUM * 2)
static bool usable(const char *pem, size_t size)
{
  signed_video_t *sv = signed_video_create(SV_CODEC_H264);
  int rc = signed_video_set_private_key_new(sv, pem, size);
  signed_video_free(sv);
  return rc == SV_OK;
}
static void keys_prog(int p)
{
  K.algo = p % 2;
  K.old_api = p / 2 % 2;
  K.to = p / 4;
  body = do_keys;
}
static void p22_keys(void)
{
  warm();
  int p = mc_choose(NKEYS, "program");
  keys_prog(p);
  snprintf(scratch, sizeof(scratch), "/tmp/mc_keys.XXXXXX");
  if (!mkdtemp(scratch)) mc_fail("setup", "mkdtemp");
  count(NSIGN + NPLAY + p);
  if (errors) mc_fail("setup", "key program %d fails", p);
  choose_failure(NSIGN + NPLAY + p);
  retry = false;
  mem_forget();
  failing();
  mem_t b = mem_now();
  rmdir(scratch);
  mc_note("%d errors, buffer of %zu bytes, %s of %zu bytes", errors, key_buf_size, file_there ? "file" : "no file", key_file_size);
  MC_CHECK(b.lib == 0, "leak", "%ld blocks are not freed: %s", b.lib, mem_leaks());
  bool buf = K.to == TO_BUF || K.to == TO_BOTH, file = K.to != TO_BUF;
  MC_CHECK(!file_there || usable(key_file, key_file_size), "key_file", "the file is not a private key");
  MC_CHECK(file || !file_there, "key_file", "there is a file, but no directory was given");
  if (!errors) {
    MC_CHECK(!buf || (key_buf && usable(key_buf, key_buf_size)), "key_buffer", "no error, but the buffer is not a private key");
    MC_CHECK(!file || file_there, "key_file", "no error, but there is no file");
    MC_CHECK(!buf || !file || (key_buf_size == key_file_size && !memcmp(key_buf, key_file, key_file_size)), "key_differs", "the key on file is not the one in the buffer");
  }
  mc_nonvacuous();
  mc_state((uint64_t)(errors * 4 + file_there * 2 + (key_buf != NULL)));
  mc_trace_ok();
}

static const char *const kAssume[] = {
    "every allocation made by the library, its vendor code and its (unthreaded) plugin, and every OpenSSL call of theirs that can fail, and fopen()/fclose(), may fail; allocations inside OpenSSL do not",
    "a failure is a single one, or of all from some point on; the call that failed is repeated, or not. Thorough: also any two failures less than 7 apart",
    "reports may be lost, or lack their strings, after a failure; a signature or key that cannot be checked may count as a wrong one",
    NULL};
static const mc_scenario kP22[] = {
    {"signing", p22_sign, "20 signing programs (authentication level x key x plain, Axis, golden SEI, NALU parts with SHA-512, old API): every failure point; no crash, leak or undefined behaviour, and the video validates unless a call has told of the failure", 0, 0, -1, 0},
    {"validation", p22_play, "18 validation programs (level x EC, RSA, Axis, modified, old format, old format modified, manual key, SHA-512, golden SEI): every failure point; no crash, leak or undefined behaviour, nothing wrong becomes authentic", 0, 0, -1, 0},
    {"keys", p22_keys, "20 ways to generate a private key: every failure point; what is in the buffer or on file is a complete key and the same one, or a failure is told", 0, 0, -1, 0},
};
#define PROP(id, as, sc) {id, as, sc, sizeof(sc) / sizeof(sc[0])}
static const mc_property kProps[] = {
    PROP("P22", kAssume, kP22),
};
int main(int argc, char **argv)
{
  mem_init();
  sim_init();
  sim_begin();
  make_pki();
  sslcache_off = 7;
  chain_pem = chain[C_VALID];
  att_size = attest(0, kLeaf, kChip, att);
  return mc_main(argc, argv, kProps, sizeof(kProps) / sizeof(kProps[0]));
}
