/* Explicit, stateless model-checking engine.
 *
 * A scenario is a deterministic C function that drives the real library code and asks the engine for
 * every source of nondeterminism with mc_choose(). The engine enumerates ALL combinations of answers
 * (depth first, split over worker processes), monitors each execution (oracle calls, sanitizer
 * aborts, hangs) and writes a replay file holding the answers of the first failing execution. */
#ifndef MC_H
#define MC_H
#include <stdbool.h>
#include <stddef.h>
#include <stdint.h>

/* Nondeterministic choice in [0, n). */
int mc_choose(int n, const char *label);
/* Abandon this execution (infeasible, or symmetric to another one). It is not counted. */
void mc_prune(void) __attribute__((noreturn));
/* Property violation. |key| identifies the finding (known-findings are matched on it). */
void mc_fail(const char *key, const char *fmt, ...)
    __attribute__((noreturn, format(printf, 2, 3)));
#define MC_CHECK(cond, key, ...) \
  do { \
    if (!(cond)) mc_fail(key, __VA_ARGS__); \
  } while (0)
/* One transition of the system under test (an API call, a scheduler step...). */
void mc_op(void);
/* Register an observable state (fingerprint) as visited. */
void mc_state(uint64_t fingerprint);
uint64_t mc_hash(const void *p, size_t n, uint64_t seed);
/* One conformance comparison of implementation vs. reference model done over a whole trace. */
void mc_trace_ok(void);
/* Counter of executions that are non-vacuous for the property (antecedent true). */
void mc_nonvacuous(void);
/* Append a line to the trace of this execution (shown in replay files and samples). */
void mc_note(const char *fmt, ...) __attribute__((format(printf, 1, 2)));
bool mc_replaying(void);
/* 0 = quick, 1 = thorough */
int mc_tier(void);
uint64_t mc_exec_no(void);

typedef struct {
  const char *name;
  void (*fn)(void);
  const char *bounds; /* human readable description of the explored bounds */
  double max_s_quick; /* deadline (0 = none) */
  double max_s_thorough;
  int only_tier; /* -1 both, 0 quick, 1 thorough */
  double exec_timeout; /* seconds one execution may take before it counts as hang (0: 60) */
} mc_scenario;

typedef struct {
  const char *property;
  const char *const *assumptions; /* NULL terminated */
  const mc_scenario *scenarios;
  int num_scenarios;
} mc_property;

int mc_main(int argc, char **argv, const mc_property *props, int num_props);
#endif
