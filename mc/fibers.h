/* Controlled scheduler: runs threads as fibers, one at a time, and asks the engine which one goes on
 * at every synchronisation point. Implements the glib thread API used by the threaded signing plugin,
 * and detects deadlocks, data races (vector clocks over all memory accesses of the plugin, which is
 * compiled with -fsanitize=thread and this runtime), use after free, double free and leaks. */
#ifndef SCHED_H
#define SCHED_H
#include <stdbool.h>
#include <stddef.h>
#include "mc.h"

typedef struct {
  int preemptions; /* maximum number of preemptive switches, -1: no bound */
  int spurious; /* number of spurious wake-ups allowed */
  int timeouts; /* number of expired waits allowed (-1: no bound) */
  int alloc_failures; /* number of failing allocations */
  int thread_failures; /* number of failing thread creations */
} sched_opt;

/* Runs |fn(arg)| as thread 0 until all threads have ended. */
void sched_run(void (*fn)(void *), void *arg, sched_opt o);
/* From within a thread. */
int sched_spawn(void (*fn)(void *), void *arg, const char *name); /* a user thread */
void sched_join(int tid);
void sched_point(const char *what); /* others may run here */
void sched_idle(void); /* continue when no other thread can */
void sched_slow(void); /* something that takes long: does not end before sched_set_slow(false) unless all others wait for it */
void sched_set_slow(bool on);
bool sched_quiet(void); /* no other thread can run */
void sched_fail(const char *key, const char *fmt, ...) __attribute__((format(printf, 2, 3)));
#define SCHED_CHECK(cond, key, ...) \
  do { \
    if (!(cond)) sched_fail(key, __VA_ARGS__); \
  } while (0)
/* Memory accesses of code that is not instrumented. */
void sched_access(const void *p, size_t n, bool write);
void *sched_malloc(size_t n); /* tracked, may fail by choice */
void sched_free(void *p);
int sched_live(void); /* number of tracked blocks */
int sched_alloc_failed(void); /* number of allocations made to fail so far */
int sched_tid(void);
int sched_threads(void); /* number of threads alive, the calling one included */
#endif
