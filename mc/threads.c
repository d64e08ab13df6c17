/* P29, P30: the threaded signing plugin under all schedules. */
#include <stdio.h>
#include "fibers.h"
#include "sim.h"
#include "lib/src/includes/signed_video_signing_plugin.h"

mcp_t mcp;
void mcp_reset(void) {}
void mcp_tick(void) {}

/* The static data of the plugin as it is when a process starts. */
extern char __start_mcbss[] __attribute__((weak)), __stop_mcbss[] __attribute__((weak));
extern char __start_mcdata[] __attribute__((weak)), __stop_mcdata[] __attribute__((weak));
static char *snap_bss, *snap_data;
__attribute__((no_sanitize_address)) static void raw_copy(char *d, const char *s, size_t n)
{
  for (volatile size_t i = 0; i < n; i++) d[i] = s[i];
}
static void restore(void)
{
  size_t nb = (size_t)(__stop_mcbss - __start_mcbss), nd = (size_t)(__stop_mcdata - __start_mcdata);
  if (!snap_bss) {
    snap_bss = malloc(nb + 1);
    snap_data = malloc(nd + 1);
    raw_copy(snap_bss, __start_mcbss, nb);
    raw_copy(snap_data, __start_mcdata, nd);
    return;
  }
  raw_copy(__start_mcbss, snap_bss, nb);
  raw_copy(__start_mcdata, snap_data, nd);
}

/* ---------------------------------------------------------------- stand-in for OpenSSL */
#define MAXS 6
#define MAXQ 200
static bool real_crypto;
static int fail_budget;
static int fail_no = -1; /* this one of each session fails */
static bool slow_signing;
static bool other_sizes; /* hashes of another size than the first may be refused */
static int begun_total;
typedef struct {
  void *h;
  int no, gen; /* number of the session, and how often it has been opened */
  size_t hsize;
  int queued; /* hashes accepted */
  int begun; /* hashes the worker has taken */
  int done; /* signatures made */
  int next; /* number of the signature to be fetched */
  bool failed[MAXQ];
  int size[MAXQ]; /* of the hashes */
  bool stopped; /* the worker may have stopped */
} sess_t;
static sess_t W[MAXS];
static int outstanding(void)
{
  int n = 0;
  for (int i = 0; i < MAXS; i++)
    if (W[i].h) n += W[i].queued - W[i].begun;
  return n;
}
/* Signatures made and not fetched; 60 fit. */
static int unfetched(void)
{
  int n = 0;
  for (int i = 0; i < MAXS; i++)
    if (W[i].h) n += W[i].done - W[i].next;
  return n;
}
static const char kKey[] = "the private key", kBad[] = "no key";
static size_t sig_of(int s, int gen, int seq, int hsize, uint8_t *o)
{
  size_t n = 12 + (size_t)((seq * 3 + 3) % 7); /* 15, 18, 14, 17, 13, 16, 12; not the same in each slot of a buffer of 60 */
  memset(o, 0x5a, n);
  o[0] = (uint8_t)s, o[1] = (uint8_t)gen, o[2] = (uint8_t)seq, o[3] = (uint8_t)hsize;
  return n;
}
SignedVideoReturnCode plug_sign_hash(sign_or_verify_data_t *d)
{
  sched_access(d, sizeof(*d), false);
  if (real_crypto) {
    SignedVideoReturnCode rc = openssl_sign_hash(d);
    sched_access(&d->signature_size, sizeof(size_t), true);
    sched_access(d->signature, d->signature_size, true);
    return rc;
  }
  SCHED_CHECK(d->key && d->hash && d->signature, "sign_input", "signing without key, hash or room for the signature");
  sched_access(d->hash, d->hash_size, false);
  int s = d->hash[0], g = d->hash[1], q = d->hash[2];
  SCHED_CHECK(s < MAXS && d->hash_size == d->hash[3], "sign_input", "hash to sign is garbled");
  for (size_t i = 4; i < d->hash_size; i++) SCHED_CHECK(d->hash[i] == (uint8_t)(i + q), "sign_input", "hash to sign is garbled");
  if (W[s].gen == g) {
    SCHED_CHECK(q == W[s].begun, "sign_order", "hash %d of session %d is signed, %d were to come before", q, s, q - W[s].begun);
    W[s].begun++;
  }
  begun_total++;
  if (slow_signing) sched_slow();
  bool fail = false;
  if (fail_budget > 0 && W[s].gen == g && mc_choose(2, "signing fails")) fail_budget--, fail = true;
  if (W[s].gen == g && q == fail_no) fail = true;
  if (!fail) {
    size_t n = sig_of(s, g, q, (int)d->hash_size, d->signature);
    sched_access(d->signature, n, true);
    sched_access(&d->signature_size, sizeof(size_t), true);
    d->signature_size = n;
  }
  if (W[s].gen == g) {
    W[s].failed[q] = fail;
    W[s].done++;
  }
  return fail ? SV_EXTERNAL_ERROR : SV_OK;
}
SignedVideoReturnCode plug_private_key_malloc(sign_or_verify_data_t *d, const char *key, size_t size)
{
  if (!d || !key || !size) return SV_INVALID_PARAMETER;
  if (real_crypto) {
    SignedVideoReturnCode rc = openssl_private_key_malloc(d, key, size);
    if (rc != SV_OK) return rc;
    free(d->signature);
    d->signature = sched_malloc(d->max_signature_size);
    return SV_OK;
  }
  if (size != sizeof(kKey) || memcmp(key, kKey, size)) return SV_EXTERNAL_ERROR;
  d->key = sched_malloc(8);
  if (!d->key) return SV_MEMORY;
  d->signature = sched_malloc(20);
  if (!d->signature) {
    sched_free(d->key);
    d->key = NULL;
    return SV_MEMORY;
  }
  d->max_signature_size = 20;
  return SV_OK;
}
void plug_free_key(void *key)
{
  if (real_crypto) openssl_free_key(key);
  else sched_free(key);
}

/* ---------------------------------------------------------------- the user of a session */
static bool may_fail; /* allocations may have failed */
static bool u_open(int s)
{
  sess_t *w = &W[s];
  int g = w->gen + 1;
  size_t hs = w->hsize;
  memset(w, 0, sizeof(*w));
  w->gen = g;
  w->no = s;
  w->hsize = hs ? hs : 32;
  void *h = sv_signing_plugin_session_setup(kKey, sizeof(kKey));
  w->h = h;
  if (!may_fail) SCHED_CHECK(h, "setup_failed", "session %d could not be set up", s);
  mc_note("%d: open%s", s, h ? "" : " failed");
  return h != NULL;
}
static void u_sign(int s)
{
  sess_t *w = &W[s];
  uint8_t *hash = malloc(w->hsize); /* of exactly this size, and gone afterwards */
  hash[0] = (uint8_t)s, hash[1] = (uint8_t)w->gen, hash[2] = (uint8_t)w->queued, hash[3] = (uint8_t)w->hsize;
  for (size_t i = 4; i < w->hsize; i++) hash[i] = (uint8_t)(i + w->queued);
  SignedVideoReturnCode rc = sv_signing_plugin_sign(w->h, hash, w->hsize);
  memset(hash, 0, w->hsize);
  free(hash);
  mc_note("%d: sign -> %d", s, rc);
  if (rc == SV_OK) {
    SCHED_CHECK(outstanding() < 60, "in_overflow", "hash accepted though 60 are waiting");
    w->size[w->queued++] = (int)w->hsize;
  } else if (rc == SV_NOT_SUPPORTED)
    SCHED_CHECK(outstanding() >= 60 || (other_sizes && w->queued && w->size[0] != (int)w->hsize), "sign_refused", "hash refused though only %d are waiting", outstanding());
  else if (rc == SV_MEMORY)
    SCHED_CHECK(sched_alloc_failed(), "sign_refused", "out of memory reported, but it is not");
  else
    SCHED_CHECK(rc == SV_EXTERNAL_ERROR && (w->stopped || sched_alloc_failed()), "sign_refused", "hash refused with %d", rc);
}
static bool u_get(int s, size_t room)
{
  sess_t *w = &W[s];
  uint8_t want[32], *buf = malloc(room);
  memset(buf, 0xee, room);
  size_t sz = 777;
  SignedVideoReturnCode err = -77;
  bool quiet = sched_quiet() && w->next < w->queued && (w->next < w->done || unfetched() < 60);
  int queued = w->queued;
  bool got = sv_signing_plugin_get_signature(w->h, buf, room, &sz, &err);
  mc_note("%d: get -> %d size %zu error %d", s, got, sz, err);
  bool more = false;
  if (got) {
    SCHED_CHECK(err == SV_OK, "get_error", "signature with error %d", err);
    SCHED_CHECK(w->next < queued, "signature_extra", "session %d got a signature without having asked for one", s);
    SCHED_CHECK(w->next < w->done && !w->failed[w->next], "signature_wrong", "session %d got signature %d, which was not made", s, w->next);
    size_t n = sig_of(s, w->gen, w->next, w->size[w->next], want);
    SCHED_CHECK(sz == n && sz <= room && !memcmp(buf, want, n), "signature_wrong",
        "session %d (%d) expected its signature %d, got size %zu and the one of session %d (%d) number %d", s, w->gen, w->next, sz, buf[0], buf[1], buf[2]);
    w->next++;
    more = true;
  } else if (err == SV_OK) {
    SCHED_CHECK(!quiet || w->stopped || sched_alloc_failed(), "signature_lost", "session %d does not get its signature %d, though nothing is going on", s, w->next);
  } else if (err == SV_INVALID_PARAMETER) {
    size_t n = sig_of(s, w->gen, w->next, w->size[w->next], want);
    SCHED_CHECK(room < n && sz == 0 && w->next < w->done && !w->failed[w->next], "get_error", "invalid parameter reported");
    w->next++;
    more = true;
  } else {
    SCHED_CHECK(err == SV_EXTERNAL_ERROR, "get_error", "error %d reported", err);
    if (w->next < w->done && w->failed[w->next]) w->next++, more = true;
    else SCHED_CHECK(w->stopped || sched_alloc_failed(), "get_error", "session %d got an error though signing did not fail", s);
  }
  if (!got)
    for (size_t i = 0; i < room; i++) SCHED_CHECK(buf[i] == 0xee, "get_error", "signature written, though none is returned");
  free(buf);
  return more;
}
/* Waits until nothing else happens, and fetches all that is left. */
static void u_drain(int s)
{
  int had;
  do {
    had = W[s].next;
    sched_idle();
    while (u_get(s, 20)) ;
  } while (W[s].next > had);
  SCHED_CHECK(W[s].next == W[s].queued || W[s].stopped || (W[s].next == W[s].done && unfetched() >= 60), "signature_lost", "session %d never gets signature %d of %d", s, W[s].next, W[s].queued);
}
static void u_close(int s)
{
  void *h = W[s].h;
  mc_note("%d: close", s);
  sv_signing_plugin_session_teardown(h);
  W[s].h = NULL;
}
static void u_ops(int s, int depth)
{
  for (int i = 0; i < depth; i++) {
    switch (mc_choose(2, "op")) {
      case 0: u_sign(s); break;
      case 1: u_get(s, 20); break;
    }
  }
}
static void check_clean(void)
{
  MC_CHECK(sched_live() == 0, "leak", "%d blocks of memory are not freed", sched_live());
  mc_trace_ok();
  mc_nonvacuous();
}
static void begin(void)
{
  restore();
  memset(W, 0, sizeof(W));
  fail_budget = 0;
  fail_no = -1;
  begun_total = 0;
  slow_signing = false;
  other_sizes = false;
  may_fail = false;
  real_crypto = false;
}
static uint64_t fp(void)
{
  uint64_t h = 0;
  for (int i = 0; i < MAXS; i++) {
    int v[5] = {W[i].gen, W[i].queued, W[i].begun, W[i].done, W[i].next};
    h = mc_hash(v, sizeof(v), h);
  }
  return h;
}

/* ---------------------------------------------------------------- P29 a thread per session */
static void l_one(void *a)
{
  u_open(0);
  int depth = (int)(long)a;
  for (int i = 0; i < depth; i++) {
    mc_state(fp() + i);
    switch (mc_choose(3, "op")) {
      case 0: u_sign(0); break;
      case 1: u_get(0, 20); break;
      case 2: u_get(0, 14); break;
    }
  }
  if (mc_choose(2, "fetch all")) u_drain(0);
  u_close(0);
  SCHED_CHECK(sched_threads() == 1, "thread_left", "the thread is still there after the session has been closed");
}
static void p29_one(void)
{
  begin();
  fail_budget = 1;
  sched_run(l_one, (void *)(long)(mc_tier() ? 6 : 5), (sched_opt){-1, 0, -1, 0, 0});
  check_clean();
}
static void p29_spurious(void)
{
  begin();
  sched_run(l_one, (void *)(long)(mc_tier() ? 4 : 3), (sched_opt){-1, mc_tier() ? 2 : 1, -1, 0, 0});
  check_clean();
}
static int l_depth;
static void l_user(void *a)
{
  int s = (int)(long)a;
  u_open(s);
  u_ops(s, l_depth);
  int end = mc_choose(2, "fetch all");
  if (end) u_drain(s);
  u_close(s);
}
static void l_two(void *a)
{
  (void)a;
  int t1 = sched_spawn(l_user, (void *)1, "user 1"), t2 = sched_spawn(l_user, (void *)2, "user 2");
  sched_join(t1);
  sched_join(t2);
}
static void p29_two(void)
{
  begin();
  l_depth = mc_tier() ? 2 : 1;
  sched_run(l_two, NULL, (sched_opt){mc_tier() ? 2 : 1, 0, 0, 0, 0});
  check_clean();
}
/* Beyond the size of the buffers. */
static void l_full(void *a)
{
  (void)a;
  int n = 57 + mc_choose(8, "hashes"), early = mc_choose(3, "fetched first");
  u_open(0);
  W[0].stopped = false;
  for (int i = 0; i < early; i++) {
    u_sign(0);
    sched_idle();
    u_get(0, 20);
  }
  for (int i = 0; i < n; i++) {
    W[0].stopped = W[0].done - W[0].next > 60;
    u_sign(0);
    W[0].stopped = W[0].done - W[0].next > 60;
  }
  int way = mc_choose(3, "then");
  if (way == 0) {
    sched_idle();
    W[0].stopped = W[0].done - W[0].next > 60;
  }
  if (way <= 1) {
    for (int i = 0; i < 70; i++) {
      W[0].stopped |= W[0].done - W[0].next > 60;
      if (W[0].next == W[0].queued) break;
      u_get(0, 20);
      if (W[0].stopped) break;
      if (way == 1) sched_idle();
    }
    if (!W[0].stopped) {
      u_drain(0);
      u_sign(0);
      u_drain(0);
    } else
      u_sign(0);
  }
  u_close(0);
}
static void p29_full(void)
{
  begin();
  sched_run(l_full, NULL, (sched_opt){mc_tier() ? 2 : 1, 0, 0, 0, 0});
  check_clean();
}
/* So long that all room in the buffers is used several times; one signing fails, once there is too little room. */
static const int kOdd[] = {0, 1, 2, 30, 58, 59, 60, 61, 62};
static void long_run(int first, int last)
{
  int lag = mc_choose(4, "lag"), small = mc_choose(10, "too little room") - 1;
  if (lag == 3) lag = 59 / (last - first + 1);
  fail_no = mc_choose(10, "fails") - 1;
  if (fail_no >= 0) fail_no = kOdd[fail_no];
  if (small >= 0) small = kOdd[small];
  for (int s = first; s <= last; s++) u_open(s);
  for (int i = 0; i < 130; i++) {
    for (int s = first; s <= last; s++) u_sign(s);
    sched_idle();
    for (int s = first; s <= last; s++)
      if (i >= lag) u_get(s, i - lag == small && s == first ? 11 : 20);
  }
  for (int s = first; s <= last; s++) {
    u_drain(s);
    u_close(s);
  }
}
static void l_long(void *a)
{
  (void)a;
  long_run(0, 0);
}
static void p29_long(void)
{
  begin();
  sched_run(l_long, NULL, (sched_opt){0, 0, 0, 0, 0});
  check_clean();
}
/* Hashes of different sizes. */
static void l_sizes(void *a)
{
  (void)a;
  static const size_t hs[] = {32, 64, 48};
  other_sizes = true;
  u_open(0);
  for (int i = 0; i < (mc_tier() ? 5 : 4); i++) {
    W[0].hsize = hs[mc_choose(3, "size")];
    u_sign(0);
    if (mc_choose(2, "fetch")) u_get(0, 20);
  }
  u_drain(0);
  u_close(0);
}
static void p29_sizes(void)
{
  begin();
  sched_run(l_sizes, NULL, (sched_opt){1, 0, 0, 0, 0});
  check_clean();
}
static void l_alloc(void *a)
{
  int depth = (int)(long)a;
  if (!u_open(0)) return;
  for (int i = 0; i < depth; i++) {
    W[0].stopped |= sched_alloc_failed() > 0;
    if (mc_choose(2, "op")) u_sign(0);
    else u_get(0, 20);
    W[0].stopped |= sched_alloc_failed() > 0;
  }
  u_close(0);
}
static void p29_alloc(void)
{
  begin();
  may_fail = true;
  for (int i = 0; i < MAXS; i++) W[i].stopped = true;
  sched_run(l_alloc, (void *)(long)(mc_tier() ? 5 : 4), (sched_opt){-1, 0, 0, 1, 1});
  check_clean();
}
static void l_args(void *a)
{
  (void)a;
  const char *key = kKey;
  size_t size = sizeof(kKey);
  switch (mc_choose(4, "key")) {
    case 1: key = NULL; break;
    case 2: size = 0; break;
    case 3: key = kBad, size = sizeof(kBad); break;
  }
  void *h = sv_signing_plugin_session_setup(key, size);
  bool good = key == kKey && size;
  SCHED_CHECK(!good || h, "setup_failed", "session could not be set up");
  SCHED_CHECK(good || !h, "setup_bad", "session set up without a valid key");
  uint8_t b[64] = {0};
  size_t n = 5;
  SignedVideoReturnCode e = SV_OK;
  int what = mc_choose(7, "call");
  SignedVideoReturnCode rc = SV_INVALID_PARAMETER;
  bool r = false;
  if (what == 0) rc = sv_signing_plugin_sign(NULL, b, 32);
  if (what == 1 && h) rc = sv_signing_plugin_sign(h, NULL, 32);
  if (what == 2 && h) rc = sv_signing_plugin_sign(h, b, 0);
  if (what == 3) r = sv_signing_plugin_get_signature(NULL, b, 20, &n, &e);
  if (what == 4 && h) r = sv_signing_plugin_get_signature(h, NULL, 20, &n, &e);
  if (what == 5 && h) r = sv_signing_plugin_get_signature(h, b, 20, NULL, &e);
  if (what == 6 && h) r = sv_signing_plugin_get_signature(h, b, 20, &n, NULL);
  SCHED_CHECK(rc == SV_INVALID_PARAMETER && !r, "bad_parameter", "call %d without parameters returned %d, %d", what, rc, r);
  sv_signing_plugin_session_teardown(h);
  sv_signing_plugin_session_teardown(NULL);
}
static void p29_args(void)
{
  begin();
  sched_run(l_args, NULL, (sched_opt){-1, 0, 0, 0, 0});
  check_clean();
}

/* ---------------------------------------------------------------- P30 one thread for all sessions */
static bool c_init(void)
{
  pem_pkey_t k = {(void *)kKey, sizeof(kKey)};
  return sv_signing_plugin_init_new(&k) == 0;
}
static int c_depth, c_sessions, c_ends;
static int c_tid[MAXS];
static void c_user(void *a)
{
  int s = (int)(long)a;
  u_open(s);
  u_ops(s, c_depth);
  switch (mc_choose(c_ends, "end")) {
    case 1: u_drain(s); break;
    case 2: /* idle until others have ended */
      if (s == 1) {
        sched_join(c_tid[2]);
        u_drain(s);
      }
      break;
  }
  u_close(s);
}
static void c_many(void *a)
{
  (void)a;
  SCHED_CHECK(c_init(), "init_failed", "plugin could not be initialised");
  for (int i = 1; i <= c_sessions; i++) {
    char n[16];
    snprintf(n, sizeof(n), "user %d", i);
    c_tid[i] = sched_spawn(c_user, (void *)(long)i, n);
  }
  for (int i = 1; i <= c_sessions; i++) sched_join(c_tid[i]);
  sv_signing_plugin_exit(NULL);
  SCHED_CHECK(sched_threads() == 1, "thread_left", "the thread is still there after the plugin has been closed");
}
static void p30_two(void)
{
  begin();
  c_depth = mc_tier() ? 3 : 2;
  c_sessions = 2;
  c_ends = 3;
  fail_budget = mc_tier() ? 1 : 0;
  sched_run(c_many, NULL, (sched_opt){mc_tier() ? 3 : 2, 0, 0, 0, 0});
  check_clean();
}
static void c_long(void *a)
{
  (void)a;
  SCHED_CHECK(c_init(), "init_failed", "plugin could not be initialised");
  long_run(1, 1 + mc_choose(3, "sessions"));
  sv_signing_plugin_exit(NULL);
}
static void p30_long(void)
{
  begin();
  sched_run(c_long, NULL, (sched_opt){0, 0, 0, 0, 0});
  check_clean();
}
static void p30_spurious(void)
{
  begin();
  c_depth = mc_tier() ? 2 : 1;
  c_sessions = 1;
  c_ends = 2;
  sched_run(c_many, NULL, (sched_opt){2, mc_tier() ? 2 : 1, 0, 0, 0});
  check_clean();
}
static void p30_three(void)
{
  begin();
  c_depth = mc_tier() ? 2 : 1;
  c_sessions = 3;
  c_ends = 2;
  sched_run(c_many, NULL, (sched_opt){mc_tier() ? 2 : 1, 0, 0, 0, 0});
  check_clean();
}
/* One user, several sessions opened and closed in any order. */
static void c_hist(void *a)
{
  int depth = (int)(long)a;
  SCHED_CHECK(c_init(), "init_failed", "plugin could not be initialised");
  u_open(1);
  for (int i = 0; i < depth; i++) {
    mc_state(fp() + i);
    int op = mc_choose(6, "op"), s = 1 + op % 2;
    op /= 2;
    if (!W[s].h) u_open(s);
    else if (op == 0) u_sign(s);
    else if (op == 1) u_get(s, 20);
    else u_close(s);
  }
  for (int s = 1; s <= 2; s++)
    if (W[s].h) {
      u_drain(s);
      u_close(s);
    }
  sv_signing_plugin_exit(NULL);
}
static void p30_hist(void)
{
  begin();
  sched_run(c_hist, (void *)(long)(mc_tier() ? 6 : 5), (sched_opt){mc_tier() ? -1 : 2, 0, 0, 0, 0});
  check_clean();
}
/* One session does not fetch its signatures while another one goes on. */
static void c_full(void *a)
{
  (void)a;
  SCHED_CHECK(c_init(), "init_failed", "plugin could not be initialised");
  u_open(1);
  u_open(2);
  int n1 = mc_choose(3, "first") * 30, n2 = 28 + mc_choose(8, "second"), pace = mc_choose(2, "pace");
  if (n1 == 60) n2 -= 27;
  for (int i = 0; i < n1; i++) {
    u_sign(1);
    if (pace) sched_idle();
  }
  for (int i = 0; i < n2; i++) {
    u_sign(2);
    if (pace) sched_idle();
  }
  switch (mc_choose(3, "then")) {
    case 0: u_drain(2); u_sign(2); u_drain(2); u_drain(1); u_drain(2); break;
    case 1: u_drain(1); u_sign(1); u_drain(2); u_drain(1); break;
    case 2: u_close(1); u_drain(2); u_sign(2); u_drain(2); break;
  }
  if (W[1].h) u_close(1);
  u_close(2);
  sv_signing_plugin_exit(NULL);
}
static void p30_full(void)
{
  begin();
  sched_run(c_full, NULL, (sched_opt){1, 0, 0, 0, 0});
  check_clean();
}
/* Sessions are closed while a hash of theirs is being signed and others are waiting or not fetched, again and again. */
static void c_closing(void *a)
{
  (void)a;
  SCHED_CHECK(c_init(), "init_failed", "plugin could not be initialised");
  static const int kTimes[] = {1, 2, 59, 60, 61, 3}, kHashes[] = {1, 2, 60, 61};
  u_open(2);
  slow_signing = true;
  int times = kTimes[mc_choose(mc_tier() ? 6 : 5, "times")], hashes = kHashes[mc_choose(times < 4 ? 4 : 2, "hashes")];
  int made = mc_choose(2, "made before"), reopen = mc_choose(2, "next one opened before the signing ends"), other = mc_choose(2, "other one signs then");
  for (int i = 0; i < times; i++) {
    if (!W[1].h) u_open(1);
    for (int j = 0; j < made; j++) u_sign(1);
    sched_idle();
    sched_set_slow(true);
    for (int j = 0; j < hashes; j++) u_sign(1), sched_idle();
    u_close(1);
    if (reopen) u_open(1);
    if (other) u_sign(2);
    sched_set_slow(false);
    sched_idle();
    if (other) u_drain(2);
    if (reopen) u_get(1, 20);
  }
  if (!W[1].h) u_open(1);
  u_sign(1);
  u_sign(2);
  u_sign(2);
  u_drain(2);
  u_drain(1);
  u_close(1);
  u_close(2);
  sv_signing_plugin_exit(NULL);
}
static void p30_closing(void)
{
  begin();
  sched_run(c_closing, NULL, (sched_opt){0, 0, 0, 0, 0});
  check_clean();
}
static void c_sizes(void *a)
{
  (void)a;
  SCHED_CHECK(c_init(), "init_failed", "plugin could not be initialised");
  static const size_t hs[] = {32, 64, 48};
  for (int s = 1; s <= 2; s++) W[s].hsize = hs[mc_choose(3, "size")];
  u_open(1);
  u_open(2);
  size_t first = 0;
  for (int i = 0; i < 4; i++) {
    int s = 1 + mc_choose(2, "who");
    if (!first) first = W[s].hsize;
    if (W[s].hsize == first) {
      u_sign(s);
      u_get(s, 20);
      continue;
    }
    /* Not supported, but harmless. */
    uint8_t hash[64];
    memset(hash, 7, sizeof(hash));
    SignedVideoReturnCode rc = sv_signing_plugin_sign(W[s].h, hash, W[s].hsize);
    SCHED_CHECK(rc != SV_OK, "hash_size", "hash of another size accepted");
  }
  u_drain(1);
  u_drain(2);
  u_close(1);
  u_close(2);
  sv_signing_plugin_exit(NULL);
}
static void p30_sizes(void)
{
  begin();
  sched_run(c_sizes, NULL, (sched_opt){2, 0, 0, 0, 0});
  check_clean();
}
/* Initialisation and exit. */
static void c_life(void *a)
{
  (void)a;
  bool on = false;
  pem_pkey_t k = {(void *)kKey, sizeof(kKey)}, bad = {(void *)kBad, sizeof(kBad)};
  signature_info_t si = {0}, sbad = {0};
  si.private_key = (void *)kKey;
  si.private_key_size = sizeof(kKey);
  sbad.private_key = (void *)kBad;
  sbad.private_key_size = sizeof(kBad);
  for (int i = 0; i < (mc_tier() ? 5 : 4); i++) {
    int op = mc_choose(9, "op"), r = 0;
    mc_state(mc_hash(&on, 1, op + 16 * i));
    switch (op) {
      case 0: r = sv_signing_plugin_init_new(&k); break;
      case 1: r = sv_signing_plugin_init(&si); break;
      case 2: r = sv_signing_plugin_init_new(&bad); break;
      case 3: r = sv_signing_plugin_init(&sbad); break;
      case 4: r = sv_signing_plugin_init_new(NULL); break;
      case 5: r = sv_signing_plugin_init(NULL); break;
    }
    mc_note("op %d: %d", op, r);
    if (op <= 5) {
      bool good = op <= 1 && !on;
      SCHED_CHECK((r == 0) == good, "init", "initialisation %d returned %d", op, r);
      on |= good;
    } else if (op == 6) {
      sv_signing_plugin_exit(NULL);
      on = false;
      SCHED_CHECK(sched_threads() == 1, "thread_left", "the thread is still there after the plugin has been closed");
    } else if (op == 7)
      sv_signing_plugin_exit(&k);
    else {
      u_open(0);
      SCHED_CHECK(sched_threads() == 2, "threads", "%d threads", sched_threads());
      u_sign(0);
      u_drain(0);
      u_close(0);
    }
  }
  sv_signing_plugin_exit(NULL);
}
static void p30_life(void)
{
  begin();
  sched_run(c_life, NULL, (sched_opt){1, 0, 0, 0, 0});
  check_clean();
}
static void c_alloc(void *a)
{
  int depth = (int)(long)a;
  if (!c_init()) {
    sv_signing_plugin_exit(NULL);
    return;
  }
  bool ok[3] = {0};
  for (int s = 1; s <= 2; s++) {
    ok[s] = u_open(s);
    W[s].stopped = true;
  }
  for (int i = 0; i < depth; i++) {
    int s = 1 + mc_choose(2, "who");
    if (!ok[s]) s = 3 - s;
    if (!ok[s]) break;
    if (mc_choose(2, "op")) u_sign(s);
    else u_get(s, 20);
  }
  for (int s = 1; s <= 2; s++)
    if (ok[s]) u_close(s);
  sv_signing_plugin_exit(NULL);
}
static void p30_alloc(void)
{
  begin();
  may_fail = true;
  sched_run(c_alloc, (void *)(long)(mc_tier() ? 4 : 3), (sched_opt){2, 0, 0, 1, 1});
  check_clean();
}

/* ---------------------------------------------------------------- the library with the threaded plugin */
static stream_t V[2];
static cfg_t vc[2];
static const char *v_spec[2];
static run_t R;
static void v_user(void *a)
{
  int k = (int)(long)a;
  signed_video_t *sv = sim_signer(&vc[k]);
  V[k].len = V[k].num_seis = 0;
  V[k].codec = vc[k].codec;
  for (int i = 0; v_spec[k][i]; i++) {
    nalu_t n = sim_nalu(&vc[k], v_spec[k][i], i);
    n.ts = 1000 + i;
    n.src = k;
    sim_pull(sv, &vc[k], &n, &V[k]);
    int rc;
    while ((rc = signed_video_add_nalu_for_signing_with_timestamp(sv, n.data, n.size, &n.ts)) == SV_NOT_SUPPORTED) {
      /* A signature was completed in the meantime. */
      SCHED_CHECK(sim_pull(sv, &vc[k], &n, &V[k]) > 0, "sign_api_error", "NALU refused though no SEI is waiting");
    }
    SCHED_CHECK(rc == SV_OK, "sign_api_error", "adding a NALU returned %d", rc);
    sim_append(&V[k], n);
  }
  if (mc_choose(2, "fetch all")) {
    sched_idle();
    sim_pull(sv, &vc[k], NULL, &V[k]);
    int want = -1;
    for (int i = 0; v_spec[k][i]; i++) want += v_spec[k][i] == 'I';
    SCHED_CHECK(V[k].num_seis == want, "sei_lost", "%d SEIs, expected %d", V[k].num_seis, want);
  }
  signed_video_free(sv);
}
static void v_main(void *a)
{
  bool central = a != NULL;
  if (!central) {
    v_user((void *)0);
    return;
  }
  pem_pkey_t k = {(void *)sim_priv_key(0), strlen(sim_priv_key(0))};
  SCHED_CHECK(sv_signing_plugin_init_new(&k) == 0, "init_failed", "plugin could not be initialised");
  int t0 = sched_spawn(v_user, (void *)0, "user 0"), t1 = sched_spawn(v_user, (void *)1, "user 1");
  sched_join(t0);
  sched_join(t1);
  sv_signing_plugin_exit(NULL);
}
static void v_check(int k)
{
  sim_play(&V[k], NULL, &R);
  mc_note("%s", sim_types(&V[k]));
  MC_CHECK(R.first_error < 0, "validation_error", "error %d at NALU %d", R.rc[R.first_error], R.first_error);
  for (int i = 0; i < R.nrep; i++)
    MC_CHECK(R.rep[i].auth == SV_AUTH_RESULT_OK || R.rep[i].auth == SV_AUTH_RESULT_SIGNATURE_PRESENT || R.rep[i].auth == SV_AUTH_RESULT_NOT_SIGNED,
        "untampered_not_ok", "session %d: report at NALU %d of %s is %s", k, R.rep[i].at, sim_types(&V[k]), auth_str(R.rep[i].auth));
  mc_state(mc_hash(sim_types(&V[k]), (size_t)V[k].len, (uint64_t)k));
}
static void v_setup(void)
{
  begin();
  sim_begin();
  real_crypto = true;
  for (int k = 0; k < 2; k++) {
    memset(&vc[k], 0, sizeof(vc[k]));
    vc[k].ts = 1;
    vc[k].salt = k;
    vc[k].level = k;
    vc[k].codec = k ? SV_CODEC_H265 : SV_CODEC_H264;
  }
}
static void p29_lib(void)
{
  v_setup();
  vc[0].level = mc_choose(2, "level");
  v_spec[0] = mc_tier() ? "IPIPIPIPI" : "IPIPIPI";
  sched_run(v_main, NULL, (sched_opt){mc_tier() ? 4 : 3, 0, 0, 0, 0});
  check_clean();
  v_check(0);
}
static void p30_lib(void)
{
  v_setup();
  v_spec[0] = "IPIPI";
  v_spec[1] = mc_tier() ? "IIPI" : "IIP";
  sched_run(v_main, (void *)1, (sched_opt){mc_tier() ? 2 : 1, 0, 0, 0, 0});
  check_clean();
  v_check(0);
  v_check(1);
}

static const char *const kAssume[] = {
    "Signing by OpenSSL is replaced by a stand-in that takes arbitrarily long and may fail (scenario library: real signing).",
    "The glib thread functions are replaced by a controlled scheduler with their documented semantics; since freedom from data races is checked on every execution, switching threads at synchronisation points only loses no behaviour.",
    NULL};
static const mc_scenario kP29[] = {
    {"session", p29_one, "one session, all histories of 5 (6) operations from {sign, get, get with too little room} then closed, or everything fetched and closed; at most one failing signature; all schedules of user and worker thread", 0, 0, -1, 0},
    {"spurious", p29_spurious, "the same with 3 (4) operations and up to 1 (2) spurious wake-ups; a wait may expire at any time", 0, 0, -1, 0},
    {"two", p29_two, "two users with a session each, all histories of 1 (2) operations; all schedules of 4 threads with up to 1 (2) preemptions", 0, 0, -1, 0},
    {"full", p29_full, "57..64 hashes not fetched, 0..2 fetched before; up to 1 (2) preemptions; then fetched at once, one by one, or closed", 0, 0, -1, 0},
    {"long", p29_long, "130 hashes, signatures fetched 0, 1, 2 or 59 hashes later; the signing of one of 9 fails or not, for one of 9 there is too little room or not", 0, 0, -1, 0},
    {"sizes", p29_sizes, "4 (5) hashes of 32, 48 or 64 bytes each, fetched at once or later; up to 1 preemption", 0, 0, -1, 0},
    {"memory", p29_alloc, "one allocation or thread creation fails, at each place; all histories of 4 (5) operations; all schedules", 0, 0, -1, 0},
    {"library", p29_lib, "a session of the library signing (with OpenSSL) 4 (5) GOPs, fetched completely or not, then validated; both levels; up to 3 (4) preemptions", 0, 0, -1, 0},
    {"arguments", p29_args, "missing or bad arguments of each function", 0, 0, -1, 0},
};
static const mc_scenario kP30[] = {
    {"two", p30_two, "two users with a session each, all histories of 2 (3) operations, ending with fetching all or not, or one waiting for the other; all schedules of 3 threads with up to 2 (3) preemptions", 0, 0, -1, 0},
    {"spurious", p30_spurious, "one user of the central thread, 1 (2) operations, up to 1 (2) spurious wake-ups; up to 2 preemptions", 0, 0, -1, 0},
    {"long", p30_long, "1-3 sessions with 130 hashes each, signatures fetched 0, 1, 2 or as late as possible; the signing of one of 9 fails or not, for one of 9 there is too little room or not", 0, 0, -1, 0},
    {"three", p30_three, "three users, 1 (2) operations each; up to 1 (2) preemptions", 0, 0, -1, 0},
    {"histories", p30_hist, "one user opening, using and closing two sessions, all histories of 5 (6) operations; up to 2 preemptions (all schedules)", 0, 0, -1, 0},
    {"full", p30_full, "sessions with 0, 30 or 60 and 28..35 or 1..8 hashes not fetched, in bursts or one by one; up to 1 preemption", 0, 0, -1, 0},
    {"closing", p30_closing, "sessions closed while a hash of theirs is being signed and 0..60 are waiting, 0 or 1 not fetched, 1, 2 or 59..61 times, the next one opened and another one used in the meantime or not", 0, 0, -1, 0},
    {"sizes", p30_sizes, "two sessions with equal or different hash sizes; up to 2 preemptions", 0, 0, -1, 0},
    {"lifecycle", p30_life, "all histories of 4 (5) operations from {initialise in 6 ways, exit in 2 ways, use a session}", 0, 0, -1, 0},
    {"library", p30_lib, "two sessions of the library, with OpenSSL, in a thread each, 3 GOPs, fetched completely or not, then validated; up to 1 (2) preemptions", 0, 0, -1, 0},
    {"memory", p30_alloc, "one allocation or thread creation fails, at each place; two sessions, all histories of 3 (4) operations; up to 2 preemptions", 0, 0, -1, 0},
};
#define PROP(id, as, sc) {id, as, sc, sizeof(sc) / sizeof(sc[0])}
static const mc_property kProps[] = {
    PROP("P29", kAssume, kP29),
    PROP("P30", kAssume, kP30),
};
int main(int argc, char **argv)
{
  sim_init();
  return mc_main(argc, argv, kProps, sizeof(kProps) / sizeof(kProps[0]));
}
