/* P33: generated private keys. */
#include <dirent.h>
#include <fcntl.h>
#include <openssl/err.h>
#include <openssl/evp.h>
#include <openssl/pem.h>
#include <stdarg.h>
#include <stdio.h>
#include <sys/stat.h>
#include <unistd.h>
#include "mem.h"
#include "sim.h"

/* The plugin is the real one. */
mcp_t mcp;
void mcp_reset(void) { memset(&mcp, 0, sizeof(mcp)); }
void mcp_tick(void) {}
extern int sslcache_off;

/* Key generation takes long, but with the same randomness it gives the same key. */
EVP_PKEY *__real_EVP_PKEY_Q_keygen(OSSL_LIB_CTX *c, const char *q, const char *type, ...);
EVP_PKEY *__wrap_EVP_PKEY_Q_keygen(OSSL_LIB_CTX *c, const char *q, const char *type, ...)
{
  static struct {
    uint64_t from, to;
    size_t bits;
    EVP_PKEY *k;
  } memo[64];
  static int n;
  va_list ap;
  va_start(ap, type);
  bool rsa = !strcmp(type, "RSA");
  size_t bits = rsa ? va_arg(ap, size_t) : 0;
  const char *curve = rsa ? NULL : va_arg(ap, const char *);
  va_end(ap);
  if (!rsa) return __real_EVP_PKEY_Q_keygen(c, q, type, curve);
  uint64_t from = sim_rng(NULL);
  for (int i = 0; i < n; i++)
    if (memo[i].from == from && memo[i].bits == bits) {
      sim_rng(&memo[i].to);
      return EVP_PKEY_dup(memo[i].k);
    }
  EVP_PKEY *k = __real_EVP_PKEY_Q_keygen(c, q, type, bits);
  if (!k || n == 64) return k;
  memo[n].from = from;
  memo[n].to = sim_rng(NULL);
  memo[n].bits = bits;
  memo[n++].k = EVP_PKEY_dup(k);
  return k;
}

enum { D_NONE, D_DIR, D_SLASH, D_CWD, D_LONG, D_MISSING, D_TAKEN, D_FILE, D_NUM };
static const char *kDir[] = {"no directory", "directory", "directory/", "current directory", "a long path", "missing directory", "directory with a folder of that name", "a file as directory"};
static const char *kName[2] = {"private_ecdsa_key.pem", "private_rsa_key.pem"};
typedef struct {
  char *p;
  size_t n;
} blob_t;
static char scratch[64], path[5][400];
static int cwd;
enum { P_ROOT, P_LONG, P_TAKEN, P_NUM }; /* places where a file may come up */
static blob_t fs[P_NUM][2]; /* what is expected there */
static blob_t got[8]; /* keys so far */
static int ngot;
static bool failed, thorough_check;
static char msg[300];
#define FAIL(...) do { if (!failed) { failed = true; snprintf(msg, sizeof(msg), __VA_ARGS__); } } while (0)

static blob_t keep(const void *p, size_t n)
{
  blob_t b = {(char *)sim_alloc(n + 1), n};
  memcpy(b.p, p, n);
  b.p[n] = 0;
  return b;
}
static blob_t slurp(const char *dir, const char *name)
{
  char f[600];
  static char buf[20000];
  snprintf(f, sizeof(f), "%s/%s", dir, name);
  struct stat st;
  blob_t none = {NULL, 0};
  if (stat(f, &st) || !S_ISREG(st.st_mode)) return none;
  FILE *h = fopen(f, "rb");
  if (!h) return none;
  size_t n = fread(buf, 1, sizeof(buf), h);
  fclose(h);
  return keep(buf, n);
}
static void spill(const char *dir, const char *name, size_t n)
{
  char f[600];
  snprintf(f, sizeof(f), "%s/%s", dir, name);
  FILE *h = fopen(f, "wb");
  for (size_t i = 0; h && i < n; i++) fputc("old key\n"[i % 8], h);
  if (h) fclose(h);
}
static bool same(blob_t a, blob_t b) { return !!a.p == !!b.p && a.n == b.n && (!a.p || !memcmp(a.p, b.p, a.n)); }
static int files(const char *dir)
{
  DIR *d = opendir(dir);
  int n = 0;
  for (struct dirent *e; d && (e = readdir(d));) n += strcmp(e->d_name, ".") && strcmp(e->d_name, "..");
  if (d) closedir(d);
  return n;
}
static void remove_all(void)
{
  for (int i = 0; i < P_NUM; i++)
    for (int k = 0; k < 2; k++) {
      char f[600];
      snprintf(f, sizeof(f), "%s/%s", path[i], kName[k]);
      if (unlink(f)) rmdir(f);
    }
  char f[600];
  snprintf(f, sizeof(f), "%s/file", scratch);
  unlink(f);
  for (int i = P_NUM - 1; i >= 0; i--) rmdir(path[i]);
}
/* Exactly one private key of the right kind, written as OpenSSL does. */
static void judge_key(blob_t b, int rsa, const char *where)
{
  BIO *x = BIO_new_mem_buf(b.p, (int)b.n);
  EVP_PKEY *k = PEM_read_bio_PrivateKey(x, NULL, NULL, NULL);
  BIO_free(x);
  if (!k) {
    FAIL("%s: no private key", where);
    return;
  }
  char group[80] = "";
  if (EVP_PKEY_base_id(k) != (rsa ? EVP_PKEY_RSA : EVP_PKEY_EC)) FAIL("%s: a key of another type", where);
  if (rsa && EVP_PKEY_get_bits(k) < 2048) FAIL("%s: an RSA key of %d bits", where, EVP_PKEY_get_bits(k));
  if (!rsa && (EVP_PKEY_get_group_name(k, group, sizeof(group), NULL) != 1 || strcmp(group, "prime256v1"))) FAIL("%s: the curve is %s", where, group);
  x = BIO_new(BIO_s_mem());
  PEM_write_bio_PrivateKey(x, k, NULL, NULL, 0, NULL, NULL);
  char *p;
  long n = BIO_get_mem_data(x, &p);
  if ((size_t)n != b.n || memcmp(p, b.p, b.n)) FAIL("%s: %zu bytes, but the key has %ld", where, b.n, n);
  BIO_free(x);
  EVP_PKEY_CTX *c = EVP_PKEY_CTX_new(k, NULL);
  if ((thorough_check ? EVP_PKEY_check(c) : EVP_PKEY_pairwise_check(c)) != 1) FAIL("%s: not a valid key", where);
  EVP_PKEY_CTX_free(c);
  EVP_PKEY_free(k);
}
static void setup(int before)
{
  sim_begin();
  ngot = 0;
  failed = false;
  thorough_check = false;
  memset(fs, 0, sizeof(fs));
  snprintf(scratch, sizeof(scratch), "/tmp/mc_keygen.XXXXXX");
  if (!mkdtemp(scratch)) mc_fail("setup", "mkdtemp");
  char lg[200];
  memset(lg, 'd', 150);
  lg[150] = 0;
  snprintf(path[P_ROOT], 400, "%s", scratch);
  snprintf(path[P_LONG], 400, "%s/%s", scratch, lg);
  snprintf(path[P_TAKEN], 400, "%s/taken", scratch);
  mkdir(path[P_LONG], 0700);
  mkdir(path[P_TAKEN], 0700);
  spill(scratch, "file", 10);
  for (int k = 0; k < 2; k++) {
    char f[600];
    snprintf(f, sizeof(f), "%s/%s", path[P_TAKEN], kName[k]);
    mkdir(f, 0700);
    if (before)
      for (int i = 0; i < P_TAKEN; i++) {
        spill(path[i], kName[k], before == 1 ? 50 : 5000);
        fs[i][k] = slurp(path[i], kName[k]);
      }
  }
  cwd = open(".", O_RDONLY);
  if (chdir(scratch)) mc_fail("setup", "chdir");
}
static void generate(int api, int dir, int out)
{ /* api: ECDSA, RSA, and both by the older function, which may be told an algorithm that does not exist */
  char d[400];
  const char *dp = d;
  int place = P_ROOT;
  switch (dir) {
    case D_NONE: dp = NULL; break;
    case D_DIR: strcpy(d, scratch); break;
    case D_SLASH: sprintf(d, "%s/", scratch); break;
    case D_CWD: d[0] = 0; break;
    case D_LONG: strcpy(d, path[P_LONG]); place = P_LONG; break;
    case D_MISSING: sprintf(d, "%s/missing", scratch); break;
    case D_TAKEN: strcpy(d, path[P_TAKEN]); place = P_TAKEN; break;
    case D_FILE: sprintf(d, "%s/file", scratch); break;
  }
  /* The name is not kept, and nothing is read behind it. */
  char *dc = dp ? malloc(strlen(dp) + 1) : NULL;
  if (dc) strcpy(dc, dp);
  char *key = (char *)1;
  size_t size = 4711;
  char **kp = out & 1 ? &key : NULL;
  size_t *sp = out & 2 ? &size : NULL;
  int rc = api == 0 ? signed_video_generate_ecdsa_private_key(dc, kp, sp) : api == 1 ? signed_video_generate_rsa_private_key(dc, kp, sp) : signed_video_generate_private_key(api == 2 ? SIGN_ALGO_ECDSA : api == 3 ? SIGN_ALGO_RSA : (sign_algo_t)(api == 4 ? 7 : -1), dc, kp, sp);
  free(dc);
  mc_op();
  int rsa = api == 1 || api == 3;
  mc_note("%s, %s, %s: %d", api == 0 ? "ECDSA" : api == 1 ? "RSA" : api == 2 ? "older ECDSA" : api == 3 ? "older RSA" : "no such algorithm", kDir[dir], out == 3 ? "buffer" : out == 1 ? "buffer without size" : out == 2 ? "size without buffer" : "no buffer", rc);
  bool feasible = api < 4 && dir < D_MISSING && (dir != D_NONE || out == 3);
  blob_t buf = {NULL, 0};
  if (rc == SV_OK && !feasible) FAIL("OK is returned");
  if (rc != SV_OK && feasible) FAIL("error %d is returned", rc);
  if (key && key != (char *)1) {
    if (rc == SV_OK && out == 3) buf = keep(key, size);
    if (rc != SV_OK) FAIL("there is a key in spite of error %d", rc);
    mc_free(key);
  }
  if (rc == SV_OK && out == 3 && !buf.p) FAIL("there is no key in the buffer");
  blob_t now[P_NUM][2];
  for (int i = 0; i < P_NUM; i++)
    for (int k = 0; k < 2; k++) {
      now[i][k] = slurp(path[i], kName[k]);
      if (rc == SV_OK && dir != D_NONE && i == place && k == rsa) {
        if (!now[i][k].p) FAIL("there is no file %s", kName[k]);
        else if (buf.p && !same(now[i][k], buf)) FAIL("the file has %zu bytes and the buffer %zu, or they differ", now[i][k].n, buf.n);
        else judge_key(now[i][k], rsa, "file");
      } else if (!same(now[i][k], fs[i][k]))
        FAIL("file %d/%s is not as it was", i, kName[k]);
    }
  if (buf.p) judge_key(buf, rsa, "buffer");
  blob_t new = buf.p ? buf : now[place][rsa];
  if (rc == SV_OK && new.p && !failed) {
    for (int i = 0; i < ngot; i++)
      if (same(got[i], new)) FAIL("the key is the same as before");
    got[ngot++] = new;
    mc_nonvacuous();
  }
  memcpy(fs, now, sizeof(fs));
}
static stream_t S;
static run_t R;
static void finish(bool video)
{
  int n = files(scratch), want = 3;
  for (int k = 0; k < 2; k++) want += fs[P_ROOT][k].p != NULL;
  if (n != want) FAIL("%d entries in the directory, not %d", n, want);
  if (files(path[P_TAKEN]) != 2) FAIL("the folder in the way has gone");
  if (fchdir(cwd)) mc_fail("setup", "fchdir");
  close(cwd);
  remove_all();
  MC_CHECK(!failed, "generated_key", "%s", msg);
  mem_t b = mem_now();
  MC_CHECK(b.lib == 0, "leak", "%ld blocks are not freed: %s", b.lib, mem_leaks());
  for (int i = 0; video && i < ngot; i++) {
    cfg_t c = {.ts = 1, .level = i & 1};
    signed_video_t *sv = signed_video_create(c.codec);
    MC_CHECK(sv && signed_video_set_private_key_new(sv, got[i].p, got[i].n) == SV_OK, "usable", "key %d is refused", i);
    S.len = S.num_seis = 0;
    S.codec = c.codec;
    sim_sign_with(sv, &c, "IPIPPIPI", &S, 0);
    signed_video_free(sv);
    sim_play(&S, NULL, &R);
    MC_CHECK(R.nrep && R.has_final && R.final.a_auth == SV_AUTH_RESULT_OK, "usable", "video signed with key %d: %s", i, sim_run_str(&R));
  }
  mc_state((uint64_t)ngot * 100 + (uint64_t)n);
  mc_trace_ok();
}

/* Each way to call. */
static void ways(void)
{
  int before = mc_choose(3, "before"), api = mc_choose(6, "api"), dir = mc_choose(D_NUM, "directory"), out = mc_choose(4, "outputs");
  setup(before);
  mem_forget();
  thorough_check = true;
  generate(api, dir, out);
  finish(true);
}
/* One after another. */
static void sequence(void)
{
  int n = mc_tier() ? 3 : 2;
  setup(mc_tier() ? 0 : mc_choose(2, "before") * 2);
  mem_forget();
  static const int kOut[] = {3, 0}, kD[] = {D_DIR, D_NONE, D_MISSING, D_CWD};
  for (int i = 0; i < n; i++) {
    int api = mc_choose(4, "api"), d = kD[mc_choose(4, "directory")], o = kOut[mc_choose(2, "outputs")];
    generate(api, d, o);
  }
  finish(true);
}
/* Many in a row are all different. */
static void many(void)
{
  setup(0);
  mem_forget();
  int rsa = mc_choose(2, "rsa"), old = mc_choose(2, "old"), d = mc_choose(2, "directory");
  for (int i = 0; i < 6; i++) generate(rsa + 2 * old, d ? D_DIR : D_NONE, 3);
  finish(false);
}
static const char *const kAssume[] = {"OpenSSL is trusted; its randomness is a fixed sequence in the check.", "Whether a key is given in a buffer without asking for its size is not judged.", NULL};
static const mc_scenario kP33[] = {
    {"ways", ways, "ECDSA, RSA, both by the older function, 2 algorithms that do not exist x 8 kinds of directory x buffer and size wanted or not x no, a short, a long older file", 0, 0, -1, 0},
    {"sequence", sequence, "all sequences of 2 (3) calls: 4 functions x 4 kinds of directory x buffer or not; with or without older files", 0, 0, -1, 0},
    {"many", many, "6 keys in a row, 4 functions, with or without file", 0, 0, -1, 0},
};
static const mc_property kProps[] = {{"P33", kAssume, kP33, sizeof(kP33) / sizeof(kP33[0])}};
int main(int argc, char **argv)
{
  mem_init();
  sim_init();
  sim_begin();
  sslcache_off = 7;
  return mc_main(argc, argv, kProps, sizeof(kProps) / sizeof(kProps[0]));
}
