/* P32: the unthreaded signing plugin. */
#include <openssl/err.h>
#include <openssl/evp.h>
#include <openssl/pem.h>
#include <openssl/rsa.h>
#include <stdio.h>
#include "lib/src/includes/signed_video_signing_plugin.h"
#include "mem.h"
#include "sim.h"

/* The plugin is the real one. */
mcp_t mcp;
void mcp_reset(void) { memset(&mcp, 0, sizeof(mcp)); }
void mcp_tick(void) {}

#define NSESS 2
#define QMAX 200
#define ROOM 60 /* so many signatures can wait */
typedef struct {
  uint8_t h[64];
  size_t n;
} hash_t;
/* What a session has accepted and not given back yet. */
static struct {
  void *h;
  int key;
  hash_t q[QMAX];
  int n;
  bool unsure; /* the oldest one may have been dropped */
} M[NSESS];
static int serial;
static bool faults;

static bool verifies(int key, const hash_t *h, const uint8_t *sig, size_t n)
{
  static EVP_PKEY *keys[8];
  if (!keys[key]) {
    BIO *b = BIO_new_mem_buf(sim_pub_key(key), -1);
    keys[key] = PEM_read_bio_PUBKEY(b, NULL, NULL, NULL);
    BIO_free(b);
  }
  EVP_PKEY_CTX *x = EVP_PKEY_CTX_new(keys[key], NULL);
  bool ok = x && EVP_PKEY_verify_init(x) == 1;
  const EVP_MD *md = h->n == 64 ? EVP_sha512() : h->n == 48 ? EVP_sha384() : EVP_sha256();
  if (ok && EVP_PKEY_base_id(keys[key]) == EVP_PKEY_RSA)
    ok = EVP_PKEY_CTX_set_rsa_padding(x, RSA_PKCS1_PADDING) == 1 && EVP_PKEY_CTX_set_signature_md(x, md) == 1;
  ok = ok && EVP_PKEY_verify(x, sig, n, h->h, h->n) == 1;
  EVP_PKEY_CTX_free(x);
  return ok;
}
static void setup(int s, int key)
{
  const char *k = sim_priv_key(key);
  /* Keys may be anywhere, and gone after the call. */
  size_t n = strlen(k);
  char *copy = malloc(n);
  memcpy(copy, k, n);
  M[s].h = sv_signing_plugin_session_setup(copy, n);
  memset(copy, 0x5a, n);
  free(copy);
  mc_op();
  M[s].key = key;
  M[s].n = 0;
  M[s].unsure = false;
  MC_CHECK(M[s].h || faults, "setup", "no session with key %d", key);
}
static void teardown(int s)
{
  sv_signing_plugin_session_teardown(M[s].h);
  mc_op();
  M[s].h = NULL;
}
static void sign(int s, size_t size)
{
  if (!M[s].h) return;
  hash_t x = {.n = size};
  serial++;
  for (size_t i = 0; i < size; i++) x.h[i] = (uint8_t)(i * 7 + serial * 29 + s);
  memcpy(x.h, &serial, sizeof(serial));
  uint8_t *lent = malloc(size); /* only lent for the call */
  memcpy(lent, x.h, size);
  int rc = sv_signing_plugin_sign(M[s].h, lent, size);
  mc_op();
  MC_CHECK(!memcmp(lent, x.h, size), "hash_written", "the hash given has changed");
  memset(lent, 0xa5, size);
  free(lent);
  mc_note("session %d: hash %d of %zu bytes: %d", s, serial, size, rc);
  if (rc == SV_OK) {
    MC_CHECK(M[s].n < QMAX, "endless", "more than %d signatures wait", QMAX);
    M[s].q[M[s].n++] = x;
  } else
    MC_CHECK(faults || M[s].n >= ROOM, "refused", "session %d refuses a hash (%d), though only %d signatures wait", s, rc, M[s].n);
}
static void drop(int s)
{
  M[s].n--;
  memmove(&M[s].q[0], &M[s].q[1], sizeof(hash_t) * (size_t)M[s].n);
}
/* |room|: less than needed, else 0. */
static bool get(int s, size_t room)
{
  if (!M[s].h) return false;
  static const size_t most[] = {72, 256, 72, 256, 104};
  size_t max = room ? room : most[M[s].key];
  uint8_t *buf = malloc(max); /* ASan guards the end */
  memset(buf, 0xee, max);
  size_t w = 12345;
  SignedVideoReturnCode err = SV_UNKNOWN_FAILURE;
  bool with_err = (serial + s) % 2;
  bool ret = sv_signing_plugin_get_signature(M[s].h, buf, max, &w, with_err ? &err : NULL);
  mc_op();
  mc_note("session %d: get with room for %zu: %d, %zu bytes", s, max, ret, ret ? w : 0);
  MC_CHECK(!with_err || err == SV_OK, "false_error", "session %d reports error %d", s, err);
  if (ret) {
    MC_CHECK(w > 0 && w <= max, "size", "a signature of %zu bytes with room for %zu", w, max);
    MC_CHECK(M[s].n > 0, "surplus", "session %d has a signature, though no hash waits for one", s);
    if (M[s].unsure && !verifies(M[s].key, &M[s].q[0], buf, w) && M[s].n > 1) drop(s);
    MC_CHECK(verifies(M[s].key, &M[s].q[0], buf, w), "wrong_signature", "session %d: the signature is not that of the oldest hash", s);
    M[s].unsure = false;
    drop(s);
  } else {
    for (size_t i = 0; i < max; i++) MC_CHECK(buf[i] == 0xee, "written", "no signature, but byte %zu is written", i);
    bool due = M[s].n > (M[s].unsure ? 1 : 0);
    if (due && room) {
      MC_CHECK(w == 0, "size_left", "room for %zu only, size %zu", max, w);
      if (M[s].unsure) mc_prune(); /* twice too small: which ones are left is not known */
      M[s].unsure = true;
    } else
      MC_CHECK(!due, "lost", "session %d has no signature, though %d hashes were accepted", s, M[s].n);
  }
  free(buf);
  return ret;
}
static void drain(int s)
{
  while (get(s, 0)) ;
  MC_CHECK(!M[s].h || M[s].n <= (M[s].unsure ? 1 : 0), "lost", "session %d: %d signatures are lost", s, M[s].n);
}
static void begin(void)
{
  sim_begin();
  memset(M, 0, sizeof(M));
  serial = 0;
  faults = false;
  mem_fail_at(-1, 0, false);
  mem_forget();
  ERR_clear_error();
}
static void end(void)
{
  for (int s = 0; s < NSESS; s++) {
    drain(s);
    teardown(s);
  }
  sv_signing_plugin_exit(NULL);
  ERR_clear_error();
  MC_CHECK(mem_now().lib == 0, "leak", "%ld blocks are not freed: %s", mem_now().lib, mem_leaks());
  mc_nonvacuous();
  mc_trace_ok();
}
static const size_t kSizes[] = {32, 48, 64};

/* All call sequences of two sessions. */
static void calls(void)
{
  static const int keys[][2] = {{0, 2}, {0, 1}, {1, 3}, {4, 0}};
  begin();
  const int *k = keys[mc_choose(4, "keys")];
  int hs = mc_choose(3, "hash size");
  if (sv_signing_plugin_init(NULL)) mc_fail("init", "init fails");
  setup(0, k[0]);
  setup(1, k[1]);
  int depth = mc_tier() ? 7 : 5, sizes = 0;
  for (int i = 0; i < depth; i++) {
    int op = mc_choose(i ? 8 : 4, "call"), s = op % 2;
    if (op < 2) sign(s, kSizes[(hs + sizes++) % 3]);
    else if (op < 4) get(s, 0);
    else if (op < 6) get(s, k[s] == 1 || k[s] == 3 ? 255 : k[s] == 4 ? 90 : 60);
    else {
      teardown(s);
      setup(s, k[s]);
    }
    mc_state((uint64_t)(M[0].n * 100 + M[1].n * 10 + (M[0].unsure ? 1 : 0) + (M[1].unsure ? 2 : 0)));
  }
  end();
}
/* Up to the end of the buffer and around. */
static void room(void)
{
  begin();
  int key = mc_choose(2, "key"), hs = mc_choose(2, "hash size");
  int n = mc_choose(key ? 3 : ROOM + 2, "hashes");
  if (key) n = ROOM - 1 + n;
  int m = mc_choose(n + 1, "fetched");
  if (key && m > 2 && m < n - 1 && !mc_tier()) mc_prune();
  setup(0, key);
  setup(1, 2);
  sign(1, 32);
  for (int i = 0; i < n; i++) sign(0, hs ? 64 : kSizes[i % 3]);
  for (int i = 0; i < m; i++) get(0, 0);
  int more = ROOM + 1 - M[0].n;
  for (int i = 0; i < more; i++) sign(0, kSizes[(i + hs) % 3]);
  end();
}
/* Any room for a signature. */
static void small(void)
{
  begin();
  int key = mc_choose(5, "key");
  static const int most[] = {72, 256, 72, 256, 104};
  int r = 1 + mc_choose(most[key] + 1, "room"), waiting = 1 + mc_choose(3, "waiting");
  setup(0, key);
  setup(1, 0);
  for (int i = 0; i < waiting; i++) sign(0, kSizes[i]);
  sign(1, 32);
  get(0, (size_t)r);
  if (mc_choose(2, "more")) sign(0, 32);
  end();
}
/* Invalid arguments are refused, and change nothing. */
static void arguments(void)
{
  begin();
  int key = mc_choose(2, "key"), before = mc_choose(3, "before"), what = mc_choose(11, "what");
  setup(0, key);
  setup(1, 2);
  for (int i = 0; i < before; i++) sign(0, 32);
  uint8_t buf[512], hash[32] = {0};
  size_t w = 0;
  SignedVideoReturnCode err = SV_OK;
  const char *k = sim_priv_key(key), *pub = sim_pub_key(key);
  bool refused = true;
  void *none = NULL;
  switch (what) {
    case 0: refused = sv_signing_plugin_sign(NULL, hash, 32) != SV_OK; break;
    case 1: refused = sv_signing_plugin_sign(M[0].h, NULL, 32) != SV_OK; break;
    case 2: refused = sv_signing_plugin_sign(M[0].h, hash, 0) != SV_OK; break;
    case 3: refused = !sv_signing_plugin_get_signature(NULL, buf, sizeof(buf), &w, &err); break;
    case 4: refused = !sv_signing_plugin_get_signature(M[0].h, NULL, sizeof(buf), &w, &err); break;
    case 5: refused = !sv_signing_plugin_get_signature(M[0].h, buf, sizeof(buf), NULL, &err); break;
    case 6: none = sv_signing_plugin_session_setup(NULL, 100); break;
    case 7: none = sv_signing_plugin_session_setup(k, 0); break;
    case 8: none = sv_signing_plugin_session_setup(k, strlen(k) / 2); break; /* cut off */
    case 9: none = sv_signing_plugin_session_setup(pub, strlen(pub)); break; /* not a private key */
    case 10: sv_signing_plugin_session_teardown(NULL); break;
  }
  mc_op();
  MC_CHECK(refused, "accepted", "call %d with an invalid argument is accepted", what);
  MC_CHECK(!none, "accepted", "a session with an invalid key (%d)", what);
  sign(0, 32);
  end();
}
/* An RSA key cannot sign a hash of another size; that is reported and the rest is not affected. */
static void odd_size(void)
{
  begin();
  int key = 1 + 2 * mc_choose(2, "key"), n = 1 + mc_choose(64, "size"), before = mc_choose(3, "before");
  if (n == 32 || n == 48 || n == 64) mc_prune();
  setup(0, key);
  setup(1, 0);
  for (int i = 0; i < before; i++) sign(0, kSizes[i]);
  faults = true;
  int had = M[0].n;
  sign(0, (size_t)n);
  MC_CHECK(M[0].n == had, "accepted", "a hash of %d bytes is accepted", n);
  faults = false;
  sign(0, 64);
  sign(1, 32);
  end();
}
/* Any single allocation, or OpenSSL call, fails. */
static long counts[2][8];
static void program(int p)
{
  static const int keys[][2] = {{0, 1}, {1, 2}};
  const int *k = keys[p & 1];
  setup(0, k[0]);
  setup(1, k[1]);
  for (int i = 0; i < 4; i++) {
    sign(0, kSizes[i % 3]);
    sign(1, 32);
    if (p & 2) {
      get(0, 0);
      get(1, 0);
    }
  }
  if (p & 4) {
    teardown(0);
    setup(0, k[0]);
    sign(0, 32);
  }
}
static void fault(void)
{
  static bool counted;
  if (!counted)
    for (int p = 0; p < 8; p++)
      for (int w = 0; w < 2; w++)
        for (int i = 0; i < 2; i++) {
          begin();
          mem_fail_at(-1, w ? 4 : 1, false);
          program(p);
          counts[w][p] = mem_count();
          mem_fail_at(-1, 0, false);
          for (int s = 0; s < NSESS; s++) teardown(s);
        }
  counted = true;
  begin();
  int p = mc_choose(8, "program"), w = mc_choose(2, "of"), all = mc_choose(2, "all");
  int at = mc_choose((int)counts[w][p], "failure");
  faults = true;
  mem_fail_at(at, w ? 4 : 1, all);
  mc_note("%s %d fails%s", w ? "OpenSSL call" : "allocation", at, all ? ", and all that follow" : "");
  program(p);
  bool hit = mem_failed();
  mem_fail_at(-1, 0, false);
  MC_CHECK(hit, "setup", "nothing failed");
  faults = false;
  for (int s = 0; s < NSESS; s++) {
    drain(s);
    if (!M[s].h) setup(s, 0);
    sign(s, 32);
  }
  end();
}

static const char *const kAssume[] = {
    "OpenSSL is trusted; its randomness is fixed (signatures are deterministic).",
    "Whether a signature is kept or dropped when there is too little room for it is not judged; at most one such call in a row.",
    NULL};
static const mc_scenario kP32[] = {
    {"calls", calls, "all sequences of 5 (7) calls of sign, get, get with too little room, close and open, of 2 sessions; 4 pairs of keys; hashes of 32, 48, 64 bytes", 0, 0, -1, 0},
    {"room", room, "0-61 hashes, any number of signatures fetched, then hashes until the buffer is full; EC and RSA", 0, 0, -1, 0},
    {"small", small, "any room 1-105 (1-257) for a signature, 1-3 waiting, 5 keys", 0, 0, -1, 0},
    {"arguments", arguments, "11 invalid calls with 0-2 signatures waiting, EC and RSA", 0, 0, -1, 0},
    {"odd_size", odd_size, "RSA, hashes of 1-64 bytes, with 0-2 signatures waiting", 0, 0, -1, 0},
    {"fault", fault, "8 programs; each allocation, or OpenSSL call, fails, alone or with all that follow", 0, 0, -1, 0},
};
static const mc_property kProps[] = {{"P32", kAssume, kP32, sizeof(kP32) / sizeof(kP32[0])}};
int main(int argc, char **argv)
{
  mem_init();
  sim_init();
  sim_begin();
  return mc_main(argc, argv, kProps, sizeof(kProps) / sizeof(kProps[0]));
}
