#define _GNU_SOURCE
#include "fibers.h"
#include <glib.h>
#include <sanitizer/asan_interface.h>
#include <sanitizer/common_interface_defs.h>
#include <stdarg.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/mman.h>
#include <ucontext.h>

#define NT 8
#define STACK (512 * 1024)
typedef enum { T_READY, T_LOCK, T_COND, T_JOIN, T_IDLE, T_SLOW, T_DONE } tstate;
typedef struct {
  ucontext_t ctx;
  char *stack;
  tstate st;
  void *on; /* mutex, cond */
  void *cond_mutex;
  bool timed, woken, timed_out;
  int join;
  const char *what;
  char name[24];
  void (*fn)(void *);
  GThreadFunc gfn;
  void *arg;
  uint32_t vc[NT];
  bool joined, fresh;
} thr_t;
typedef struct {
  void *addr;
  int owner; /* -1: free */
  uint32_t vc[NT];
  int kind; /* 0 mutex, 1 cond (unused), 2 atomic */
} sync_t;
static thr_t T[NT];
static int nt, cur, active;
static sync_t S[256];
static int ns;
static ucontext_t main_ctx;
static const void *main_bottom;
static size_t main_size;
static sched_opt opt;
static int failed, used_preempt, used_spurious, used_timeouts, used_alloc, used_thread;
static char fail_key[64], fail_msg[600];
static uint32_t gen;

/* ---------------------------------------------------------------- allocation */
typedef struct {
  void *p;
  size_t n;
} blk_t;
static blk_t B[4096];
static int nb;
void *sched_malloc(size_t n)
{
  if (active && used_alloc < opt.alloc_failures && mc_choose(2, "allocation fails")) {
    used_alloc++;
    return NULL;
  }
  void *p = malloc(n ? n : 1);
  if (nb >= 4096) abort();
  B[nb].p = p;
  B[nb++].n = n;
  return p;
}
int sched_alloc_failed(void) { return used_alloc; }
int sched_live(void) { return nb; }
void sched_free(void *p)
{
  if (!p) return;
  for (int i = nb - 1; i >= 0; i--)
    if (B[i].p == p) {
      sched_access(p, B[i].n, true);
      B[i] = B[--nb];
      free(p);
      return;
    }
  sched_fail("bad_free", "free() of memory that is not allocated");
}
void *mc_malloc(size_t n) { return sched_malloc(n); }
void *mc_calloc(size_t a, size_t b)
{
  void *p = sched_malloc(a * b);
  if (p) memset(p, 0, a * b);
  return p;
}
void *mc_realloc(void *p, size_t n)
{
  void *q = sched_malloc(n);
  if (!q) return NULL;
  if (p)
    for (int i = 0; i < nb; i++)
      if (B[i].p == p) memcpy(q, p, B[i].n < n ? B[i].n : n);
  sched_free(p);
  return q;
}
void mc_free(void *p) { sched_free(p); }
void *mc_memcpy(void *d, const void *s, size_t n)
{
  sched_access(s, n, false);
  sched_access(d, n, true);
  return memcpy(d, s, n);
}
void *mc_memmove(void *d, const void *s, size_t n)
{
  sched_access(s, n, false);
  sched_access(d, n, true);
  return memmove(d, s, n);
}
void *mc_memset(void *d, int c, size_t n)
{
  sched_access(d, n, true);
  return memset(d, c, n);
}
int mc_memcmp(const void *a, const void *b, size_t n)
{
  sched_access(a, n, false);
  sched_access(b, n, false);
  return memcmp(a, b, n);
}

/* ---------------------------------------------------------------- scheduler */
static void to_main(void)
{
  void *fake = NULL;
  __sanitizer_start_switch_fiber(&fake, main_bottom, main_size);
  swapcontext(&T[cur].ctx, &main_ctx);
  __sanitizer_finish_switch_fiber(fake, &main_bottom, &main_size);
}
void sched_fail(const char *key, const char *fmt, ...)
{
  if (!failed) {
    va_list ap;
    va_start(ap, fmt);
    vsnprintf(fail_msg, sizeof(fail_msg), fmt, ap);
    va_end(ap);
    snprintf(fail_key, sizeof(fail_key), "%s", key);
  }
  failed = 1;
  if (!active) mc_fail(fail_key, "%s", fail_msg);
  for (;;) to_main();
}
static void fiber_main(void)
{
  __sanitizer_finish_switch_fiber(NULL, &main_bottom, &main_size);
  thr_t *t = &T[cur];
  if (t->fn) t->fn(t->arg);
  else t->gfn(t->arg);
  t->st = T_DONE;
  for (;;) to_main();
}
static int new_thread(const char *name)
{
  if (nt >= NT) {
    fprintf(stderr, "too many threads\n");
    exit(3);
  }
  thr_t *t = &T[nt];
  char *st = t->stack;
  memset(t, 0, sizeof(*t));
  t->stack = st ? st : mmap(NULL, STACK, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
  __asan_unpoison_memory_region(t->stack, STACK);
  snprintf(t->name, sizeof(t->name), "%s", name ? name : "thread");
  getcontext(&t->ctx);
  t->ctx.uc_stack.ss_sp = t->stack;
  t->ctx.uc_stack.ss_size = STACK;
  t->ctx.uc_link = NULL;
  makecontext(&t->ctx, fiber_main, 0);
  t->what = "start";
  t->fresh = true;
  if (nt) {
    memcpy(t->vc, T[cur].vc, sizeof(t->vc));
    T[cur].vc[cur]++;
  }
  t->vc[nt]++;
  return nt++;
}
static sync_t *sync_of(const void *a)
{
  for (int i = 0; i < ns; i++)
    if (S[i].addr == a) return &S[i];
  if (ns >= 256) {
    fprintf(stderr, "too many mutexes\n");
    exit(3);
  }
  sync_t *s = &S[ns++];
  memset(s, 0, sizeof(*s));
  s->addr = (void *)a;
  s->owner = -1;
  return s;
}
static bool slow;
static bool enabled(int i)
{
  thr_t *t = &T[i];
  switch (t->st) {
    case T_READY: return true;
    case T_LOCK: return sync_of(t->on)->owner < 0;
    case T_COND: return t->woken && sync_of(t->cond_mutex)->owner < 0;
    case T_JOIN: return T[t->join].st == T_DONE;
    case T_SLOW: return !slow;
    default: return false;
  }
}
/* Can thread |i| run when the others cannot go on? */
static void vc_join(uint32_t *a, const uint32_t *b)
{
  for (int i = 0; i < NT; i++)
    if (b[i] > a[i]) a[i] = b[i];
}
void sched_run(void (*fn)(void *), void *arg, sched_opt o)
{
  opt = o;
  slow = false;
  nt = ns = nb = 0;
  failed = used_preempt = used_spurious = used_timeouts = used_alloc = used_thread = 0;
  gen++;
  cur = 0;
  new_thread("main");
  T[0].fn = fn;
  T[0].arg = arg;
  int last = 0;
  active = 1;
  for (int steps = 0;; steps++) {
    if (steps > 20000) {
      active = 0;
      mc_fail("livelock", "no end after %d steps", steps);
    }
    /* What can happen next: a thread goes on, a wait expires, a wait ends spuriously. */
    int ch[3 * NT], kind[3 * NT], n = 0;
    bool last_on = last >= 0 && enabled(last);
    bool bounded = opt.preemptions >= 0 && used_preempt >= opt.preemptions && last_on;
    if (last_on) ch[n] = last, kind[n++] = 0;
    for (int i = 0; i < nt; i++)
      if (i != last && enabled(i) && !bounded) ch[n] = i, kind[n++] = 0;
    bool any = n > 0, cond_free;
    for (int i = 0; i < nt && !bounded; i++) {
      if (T[i].st != T_COND || T[i].woken) continue;
      cond_free = sync_of(T[i].cond_mutex)->owner < 0;
      if (!cond_free) continue;
      if (T[i].timed && (opt.timeouts < 0 || used_timeouts < opt.timeouts || !any)) ch[n] = i, kind[n++] = 1;
      else if (used_spurious < opt.spurious) ch[n] = i, kind[n++] = 2;
    }
    if (!any && slow) { /* a slow thread goes on if all others wait for it */
      bool idle = false;
      for (int i = 0; i < nt; i++) idle |= T[i].st == T_IDLE;
      for (int i = 0; i < nt && !idle; i++)
        if (T[i].st == T_SLOW) {
          n = 0;
          ch[n] = i, kind[n++] = 0;
          any = true;
          break;
        }
    }
    if (!any) /* threads waiting for the others to come to a halt go on first */
      for (int i = 0; i < nt; i++)
        if (T[i].st == T_IDLE) {
          n = 0;
          ch[n] = i, kind[n++] = 0;
          any = true;
          break;
        }
    /* What a thread does before its first synchronisation is invisible to the others. */
    int fresh = -1;
    for (int i = 0; i < nt; i++)
      if (T[i].st == T_READY && T[i].fresh) fresh = i;
    if (!n) break;
    int c = fresh < 0 && n > 1 ? mc_choose(n, "next") : 0;
    int i = fresh < 0 ? ch[c] : fresh;
    if (fresh >= 0) kind[c] = 0, T[i].fresh = false, last_on = false;
    if (last_on && i != last) used_preempt++;
    if (kind[c] == 1) used_timeouts++, T[i].timed_out = true;
    if (kind[c] == 2) used_spurious++;
    if (mc_replaying()) mc_note("%s: %s%s", T[i].name, T[i].what, kind[c] == 1 ? " (expired)" : kind[c] == 2 ? " (spurious)" : "");
    /* Acquire what it waited for. */
    thr_t *t = &T[i];
    if (t->st == T_LOCK || t->st == T_COND) {
      sync_t *m = sync_of(t->st == T_LOCK ? t->on : t->cond_mutex);
      m->owner = i;
      vc_join(t->vc, m->vc);
    }
    if (t->st == T_JOIN) vc_join(t->vc, T[t->join].vc);
    t->st = T_READY;
    cur = i;
    if (fresh < 0) last = i;
    mc_op();
    void *fake = NULL;
    __sanitizer_start_switch_fiber(&fake, t->stack, STACK);
    swapcontext(&main_ctx, &t->ctx);
    __sanitizer_finish_switch_fiber(fake, NULL, NULL);
    if (failed) {
      active = 0;
      mc_fail(fail_key, "%s", fail_msg);
    }
  }
  active = 0;
  for (int i = 0; i < nt; i++)
    if (T[i].st != T_DONE) mc_fail("deadlock", "%s is stuck in %s", T[i].name, T[i].what);
  for (int i = 0; i < ns; i++)
    if (S[i].owner >= 0) mc_fail("mutex_left_locked", "a mutex is locked at the end by %s", T[S[i].owner].name);
}
static void block(tstate st, const char *what)
{
  T[cur].st = st;
  T[cur].what = what;
  to_main();
}
void sched_point(const char *what) { block(T_READY, what); }
void sched_slow(void) { block(T_SLOW, "do something that takes long"); }
void sched_set_slow(bool on) { slow = on; }
void sched_idle(void) { block(T_IDLE, "wait for the others"); }
bool sched_quiet(void)
{
  for (int i = 0; i < nt; i++)
    if (i != cur && enabled(i)) return false;
  return true;
}
int sched_tid(void) { return cur; }
int sched_threads(void)
{
  int n = 0;
  for (int i = 0; i < nt; i++) n += T[i].st != T_DONE;
  return n;
}
int sched_spawn(void (*fn)(void *), void *arg, const char *name)
{
  int i = new_thread(name);
  T[i].fn = fn;
  T[i].arg = arg;
  return i;
}
void sched_join(int tid)
{
  T[cur].join = tid;
  block(T_JOIN, "join");
}

/* ---------------------------------------------------------------- glib */
void g_mutex_init(GMutex *m)
{
  sync_t *s = sync_of(m);
  SCHED_CHECK(s->owner < 0, "mutex_misuse", "mutex initialised while locked");
}
void g_mutex_clear(GMutex *m)
{
  sync_t *s = sync_of(m);
  SCHED_CHECK(s->owner < 0, "mutex_misuse", "mutex cleared while locked");
}
void g_mutex_lock(GMutex *m)
{
  SCHED_CHECK(!__asan_region_is_poisoned(m, sizeof(*m)), "use_after_free", "lock of a freed mutex");
  sync_t *s = sync_of(m);
  SCHED_CHECK(s->owner != cur, "deadlock", "mutex locked twice by %s", T[cur].name);
  T[cur].on = m;
  block(T_LOCK, "lock");
  SCHED_CHECK(!__asan_region_is_poisoned(m, sizeof(*m)), "use_after_free", "mutex freed while waiting for it");
}
gboolean g_mutex_trylock(GMutex *m)
{
  sched_point("trylock");
  sync_t *s = sync_of(m);
  if (s->owner >= 0) return FALSE;
  s->owner = cur;
  vc_join(T[cur].vc, s->vc);
  return TRUE;
}
void g_mutex_unlock(GMutex *m)
{
  SCHED_CHECK(!__asan_region_is_poisoned(m, sizeof(*m)), "use_after_free", "unlock of a freed mutex");
  sync_t *s = sync_of(m);
  SCHED_CHECK(s->owner == cur, "mutex_misuse", "%s unlocks a mutex it has not locked", T[cur].name);
  memcpy(s->vc, T[cur].vc, sizeof(s->vc));
  T[cur].vc[cur]++;
  s->owner = -1;
}
void g_rec_mutex_init(GRecMutex *m) { (void)m; fprintf(stderr, "recursive mutexes are not modelled\n"); exit(3); }
void g_cond_init(GCond *c) { (void)c; }
void g_cond_clear(GCond *c) { (void)c; }
static bool cond_wait(GCond *c, GMutex *m, bool timed)
{
  sync_t *s = sync_of(m);
  SCHED_CHECK(s->owner == cur, "mutex_misuse", "%s waits without having locked the mutex", T[cur].name);
  memcpy(s->vc, T[cur].vc, sizeof(s->vc));
  T[cur].vc[cur]++;
  s->owner = -1;
  thr_t *t = &T[cur];
  t->on = c;
  t->cond_mutex = m;
  t->timed = timed;
  t->woken = t->timed_out = false;
  block(T_COND, "wait");
  SCHED_CHECK(!__asan_region_is_poisoned(c, sizeof(*c)) && !__asan_region_is_poisoned(m, sizeof(*m)), "use_after_free", "condition freed while waiting for it");
  return !t->timed_out;
}
void g_cond_wait(GCond *c, GMutex *m) { cond_wait(c, m, false); }
gboolean g_cond_wait_until(GCond *c, GMutex *m, gint64 end)
{
  (void)end;
  return cond_wait(c, m, true);
}
static void wake(GCond *c, bool all)
{
  SCHED_CHECK(!__asan_region_is_poisoned(c, sizeof(*c)), "use_after_free", "signal of a freed condition");
  int w[NT], n = 0;
  for (int i = 0; i < nt; i++)
    if (T[i].st == T_COND && T[i].on == c && !T[i].woken) w[n++] = i;
  if (!n) return;
  if (all)
    for (int i = 0; i < n; i++) T[w[i]].woken = true;
  else
    T[w[n > 1 ? mc_choose(n, "waiter") : 0]].woken = true;
}
void g_cond_signal(GCond *c) { wake(c, false); }
void g_cond_broadcast(GCond *c) { wake(c, true); }
GThread *g_thread_try_new(const gchar *name, GThreadFunc f, gpointer data, GError **error)
{
  if (error) *error = NULL;
  if (used_thread < opt.thread_failures && mc_choose(2, "thread creation fails")) {
    used_thread++;
    return NULL;
  }
  int i = new_thread(name);
  T[i].gfn = f;
  T[i].arg = data;
  return (GThread *)&T[i];
}
GThread *g_thread_new(const gchar *name, GThreadFunc f, gpointer data) { return g_thread_try_new(name, f, data, NULL); }
gpointer g_thread_join(GThread *t)
{
  int i = (int)((thr_t *)t - T);
  SCHED_CHECK(i >= 0 && i < nt && !T[i].joined, "thread_misuse", "join of a thread that does not exist");
  T[i].joined = true;
  sched_join(i);
  return NULL;
}
void g_thread_unref(GThread *t) { ((thr_t *)t)->joined = true; }
void g_thread_yield(void) { sched_point("yield"); }
void g_usleep(gulong us)
{
  (void)us;
  sched_point("sleep");
}
static gint64 fake_time = 1000000;
gint64 g_get_monotonic_time(void) { return fake_time += 10; }

/* ---------------------------------------------------------------- memory accesses */
#define CELLS (1u << 16)
typedef struct {
  uintptr_t key;
  uint32_t gen;
  uint32_t wr[NT], rd[NT];
  uint8_t wm[NT], rm[NT];
} cell_t;
static cell_t *C;
static void granule(uintptr_t g, uint8_t mask, bool write, const void *p)
{
  if (!C) C = mmap(NULL, sizeof(cell_t) * CELLS, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
  uint32_t h = (uint32_t)((g * 0x9e3779b97f4a7c15ull) >> 40) & (CELLS - 1);
  for (int probe = 0;; probe++, h = (h + 1) & (CELLS - 1)) {
    if (probe > 1000) return;
    if (C[h].gen != gen) {
      memset(&C[h], 0, sizeof(cell_t));
      C[h].gen = gen;
      C[h].key = g;
      break;
    }
    if (C[h].key == g) break;
  }
  cell_t *c = &C[h];
  for (int i = 0; i < nt; i++) {
    if (i == cur) continue;
    if (((c->wm[i] & mask) && c->wr[i] > T[cur].vc[i]) || (write && (c->rm[i] & mask) && c->rd[i] > T[cur].vc[i]))
      sched_fail("data_race", "%s %s memory that %s accesses without synchronisation", T[cur].name, write ? "writes" : "reads", T[i].name);
  }
  if (write) c->wr[cur] = T[cur].vc[cur], c->wm[cur] = mask;
  else c->rd[cur] = T[cur].vc[cur], c->rm[cur] = mask;
}
void sched_access(const void *p, size_t n, bool write)
{
  if (!active || !n || failed) return;
  uintptr_t a = (uintptr_t)p, e = a + n;
  uintptr_t sb = (uintptr_t)T[cur].stack;
  if (a >= sb && a < sb + STACK) return;
  SCHED_CHECK(a > 65536, "null_access", "%s accesses address %p", T[cur].name, p);
  SCHED_CHECK(!__asan_region_is_poisoned((void *)p, n), "memory_error", "%s %s %zu bytes of freed or foreign memory", T[cur].name, write ? "writes" : "reads", n);
  for (uintptr_t g = a & ~7ull; g < e; g += 8) {
    uint8_t m = 0xff;
    if (g < a) m &= (uint8_t)(0xff << (a - g));
    if (g + 8 > e) m &= (uint8_t)(0xff >> (g + 8 - e));
    granule(g, m, write, p);
  }
}
#define RW(sz) \
  void __tsan_read##sz(void *p) { sched_access(p, sz, false); } \
  void __tsan_write##sz(void *p) { sched_access(p, sz, true); } \
  void __tsan_unaligned_read##sz(void *p) { sched_access(p, sz, false); } \
  void __tsan_unaligned_write##sz(void *p) { sched_access(p, sz, true); } \
  void __tsan_volatile_read##sz(void *p) { sched_access(p, sz, false); } \
  void __tsan_volatile_write##sz(void *p) { sched_access(p, sz, true); }
RW(1) RW(2) RW(4) RW(8) RW(16)
void __tsan_read_range(void *p, unsigned long n) { sched_access(p, n, false); }
void __tsan_write_range(void *p, unsigned long n) { sched_access(p, n, true); }
void __tsan_init(void) {}
void __tsan_func_entry(void *p) { (void)p; }
void __tsan_func_exit(void) {}
void __tsan_vptr_update(void **a, void *b) { (void)a; (void)b; }
/* Atomics: sequentially consistent, and a point where others may run. */
static void atomic_sync(const void *p)
{
  if (!active) return;
  sched_point("atomic");
  sync_t *s = sync_of((const char *)p + 1);
  vc_join(T[cur].vc, s->vc);
  memcpy(s->vc, T[cur].vc, sizeof(s->vc));
  T[cur].vc[cur]++;
}
#define AT(bits, type) \
  type __tsan_atomic##bits##_load(const volatile type *p, int mo) { (void)mo; atomic_sync((void *)p); return *p; } \
  void __tsan_atomic##bits##_store(volatile type *p, type v, int mo) { (void)mo; atomic_sync((void *)p); *p = v; } \
  type __tsan_atomic##bits##_exchange(volatile type *p, type v, int mo) { (void)mo; atomic_sync((void *)p); type o = *p; *p = v; return o; } \
  type __tsan_atomic##bits##_fetch_add(volatile type *p, type v, int mo) { (void)mo; atomic_sync((void *)p); type o = *p; *p = o + v; return o; } \
  type __tsan_atomic##bits##_fetch_sub(volatile type *p, type v, int mo) { (void)mo; atomic_sync((void *)p); type o = *p; *p = o - v; return o; } \
  type __tsan_atomic##bits##_fetch_and(volatile type *p, type v, int mo) { (void)mo; atomic_sync((void *)p); type o = *p; *p = o & v; return o; } \
  type __tsan_atomic##bits##_fetch_or(volatile type *p, type v, int mo) { (void)mo; atomic_sync((void *)p); type o = *p; *p = o | v; return o; } \
  type __tsan_atomic##bits##_fetch_xor(volatile type *p, type v, int mo) { (void)mo; atomic_sync((void *)p); type o = *p; *p = o ^ v; return o; } \
  int __tsan_atomic##bits##_compare_exchange_strong(volatile type *p, type *e, type v, int mo, int fm) { (void)mo; (void)fm; atomic_sync((void *)p); if (*p == *e) { *p = v; return 1; } *e = *p; return 0; } \
  int __tsan_atomic##bits##_compare_exchange_weak(volatile type *p, type *e, type v, int mo, int fm) { return __tsan_atomic##bits##_compare_exchange_strong(p, e, v, mo, fm); }
AT(8, unsigned char) AT(16, unsigned short) AT(32, unsigned int) AT(64, unsigned long)
void __tsan_atomic_thread_fence(int mo) { (void)mo; }
void __tsan_atomic_signal_fence(int mo) { (void)mo; }
