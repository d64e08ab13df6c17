#define _GNU_SOURCE
#include "mc.h"

#include <errno.h>
#include <fcntl.h>
#include <setjmp.h>
#include <signal.h>
#include <stdarg.h>
#include <stdatomic.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/mman.h>
#include <sys/prctl.h>
#include <sys/resource.h>
#include <sys/stat.h>
#include <sys/wait.h>
#include <time.h>
#include <unistd.h>

#define MAX_CHOICES 4000
#define MAX_WORKERS 16
#define NOTE_SIZE 16384
#define STATE_SLOTS (1u << 22)
#define MAX_PREFIX 200000
#define MAX_KNOWN 64

typedef struct {
  /* Written by the worker so that the parent can report crashes. */
  volatile int n;
  volatile uint16_t choice[MAX_CHOICES];
  volatile uint16_t arity[MAX_CHOICES];
  char note[NOTE_SIZE];
  volatile int note_len;
  _Atomic uint64_t execs, pruned, ops, nodes, traces, nonvac;
  volatile int failed; /* 1: mc_fail */
  volatile double exec_start;
  volatile int active;
  char key[128];
  char msg[1024];
} slot_t;

typedef struct {
  _Atomic int next_prefix;
  _Atomic int stop;
  _Atomic uint64_t states;
  _Atomic uint64_t known_hits[MAX_KNOWN];
  _Atomic int truncated;
  _Atomic int max_depth;
  slot_t slot[MAX_WORKERS];
} shared_t;

static shared_t *sh;
static _Atomic uint64_t *state_tab;
static slot_t *me;
static int tier;
static bool replaying;
static jmp_buf exec_env;
static int force_n;
static uint16_t forced[MAX_CHOICES];
static const mc_scenario *cur_scn;
static const char *cur_prop;
static double deadline;

static int num_known;
static char known_prop[MAX_KNOWN][16];
static char known_key[MAX_KNOWN][128];
static char known_txt[MAX_KNOWN][512];

static double now(void)
{
  struct timespec ts;
  clock_gettime(CLOCK_MONOTONIC, &ts);
  return ts.tv_sec + ts.tv_nsec * 1e-9;
}

int mc_tier(void) { return tier; }
bool mc_replaying(void) { return replaying; }
uint64_t mc_exec_no(void) { return me ? me->execs : 0; }

int mc_choose(int n, const char *label)
{
  if (n <= 0) {
    fprintf(stderr, "mc_choose(%d, %s): bad arity\n", n, label);
    exit(3);
  }
  int i = me->n;
  if (i >= MAX_CHOICES) {
    fprintf(stderr, "too many choices in one execution (%s)\n", label);
    exit(3);
  }
  int c = 0;
  if (i < force_n) c = forced[i];
  if (c >= n) {
    /* Replaying against a different tree: clamp. */
    if (!replaying) {
      fprintf(stderr, "nondeterministic scenario: %s arity %d but choice %d at %d\n", label, n, c, i);
      exit(3);
    }
    c = n - 1;
  }
  me->choice[i] = (uint16_t)c;
  me->arity[i] = (uint16_t)n;
  me->n = i + 1;
  if (replaying) printf("  choice %d: %s = %d of %d\n", i, label, c, n);
  return c;
}

void mc_prune(void) { longjmp(exec_env, 2); }

static int find_known(const char *key)
{
  for (int i = 0; i < num_known; i++)
    if (!strcmp(known_prop[i], cur_prop) && !strcmp(known_key[i], key)) return i;
  return -1;
}

void mc_fail(const char *key, const char *fmt, ...)
{
  va_list ap;
  va_start(ap, fmt);
  vsnprintf(me->msg, sizeof(me->msg), fmt, ap);
  va_end(ap);
  snprintf(me->key, sizeof(me->key), "%s", key);
  int k = find_known(key);
  const char *survey = getenv("MC_SURVEY");
  if (survey && k < 0 && !replaying) {
    /* Development aid: log every violation and carry on. */
    FILE *f = fopen(survey, "a");
    if (f) {
      fprintf(f, "### %s %s: %s | choices %d", cur_scn->name, key, me->msg, me->n);
      for (int i = 0; i < me->n; i++) fprintf(f, " %d", me->choice[i]);
      fprintf(f, "\n%s\n", me->note);
      fclose(f);
    }
    longjmp(exec_env, 3);
  }
  if (k >= 0) {
    sh->known_hits[k]++;
    if (replaying) printf("known finding %s: %s\n", key, me->msg);
    longjmp(exec_env, 3);
  }
  me->failed = 1;
  longjmp(exec_env, 4);
}

void mc_op(void) { me->ops++; }
void mc_trace_ok(void) { me->traces++; }
void mc_nonvacuous(void) { me->nonvac++; }

void mc_state(uint64_t f)
{
  if (!f) f = 1;
  uint32_t i = (uint32_t)((f * 0x9e3779b97f4a7c15ull) >> 42) & (STATE_SLOTS - 1);
  for (int probe = 0; probe < 64; probe++) {
    uint64_t v = state_tab[i];
    if (v == f) return;
    if (v == 0) {
      uint64_t exp = 0;
      if (atomic_compare_exchange_strong(&state_tab[i], &exp, f)) {
        sh->states++;
        return;
      }
      if (exp == f) return;
    }
    i = (i + 1) & (STATE_SLOTS - 1);
  }
}

uint64_t mc_hash(const void *p, size_t n, uint64_t h)
{
  const uint8_t *b = p;
  h ^= 0xcbf29ce484222325ull;
  for (size_t i = 0; i < n; i++) {
    h ^= b[i];
    h *= 0x100000001b3ull;
  }
  h ^= h >> 29;
  return h;
}

void mc_note(const char *fmt, ...)
{
  if (!replaying && me->note_len > NOTE_SIZE - 200) return;
  va_list ap;
  va_start(ap, fmt);
  if (replaying) {
    printf("  ");
    vprintf(fmt, ap);
    printf("\n");
  } else {
    int n = vsnprintf(me->note + me->note_len, NOTE_SIZE - me->note_len - 2, fmt, ap);
    if (n > NOTE_SIZE - me->note_len - 3) n = NOTE_SIZE - me->note_len - 3;
    me->note_len += n;
    me->note[me->note_len++] = '\n';
    me->note[me->note_len] = 0;
  }
  va_end(ap);
}

/* Runs one execution with the first |force_n| choices forced. Returns 0 ok, 2 pruned, 3 known, 4 fail.
 */
static int run_once(void)
{
  me->n = 0;
  me->note_len = 0;
  me->note[0] = 0;
  me->exec_start = now();
  me->active = 1;
  int rc = setjmp(exec_env);
  if (rc == 0) cur_scn->fn();
  me->active = 0;
  return rc;
}

/* DFS below the prefix forced[0..plen). */
static int dfs(int plen)
{
  force_n = plen;
  uint64_t prev_n = 0;
  for (;;) {
    int rc = run_once();
    if (rc == 4) return 4;
    if (rc == 2)
      me->pruned++;
    else
      me->execs++;
    /* Count new nodes: those deeper than the divergence point. */
    if (me->n > (int)prev_n) me->nodes += me->n - prev_n;
    if (me->n > sh->max_depth) sh->max_depth = me->n;
    if (sh->stop) return 0;
    if (deadline > 0 && now() > deadline) {
      sh->truncated = 1;
      return 0;
    }
    int i = me->n - 1;
    while (i >= plen && me->choice[i] + 1 >= me->arity[i]) i--;
    if (i < plen) return 0;
    for (int j = 0; j < i; j++) forced[j] = me->choice[j];
    forced[i] = me->choice[i] + 1;
    force_n = i + 1;
    prev_n = i;
  }
}

typedef struct {
  int n;
  uint16_t c[24];
} prefix_t;

static void die_with_parent(void) { prctl(PR_SET_PDEATHSIG, SIGKILL); }

static char *json_escape(const char *s)
{
  size_t n = strlen(s);
  char *o = malloc(n * 6 + 3), *p = o;
  for (; *s; s++) {
    unsigned char c = (unsigned char)*s;
    if (c == '"' || c == '\\')
      *p++ = '\\', *p++ = c;
    else if (c == '\n')
      *p++ = '\\', *p++ = 'n';
    else if (c < 32 || c > 126)
      p += sprintf(p, "\\u%04x", c);
    else
      *p++ = c;
  }
  *p = 0;
  return o;
}

static void load_known(const char *path)
{
  FILE *f = fopen(path, "r");
  if (!f) return;
  char line[1024];
  while (fgets(line, sizeof(line), f) && num_known < MAX_KNOWN) {
    /* known: property=P01 key=xxx text */
    char prop[16], key[128];
    int off = 0;
    if (sscanf(line, "known: property=%15s key=%127s %n", prop, key, &off) >= 2) {
      line[strcspn(line, "\n")] = 0;
      strcpy(known_prop[num_known], prop);
      strcpy(known_key[num_known], key);
      snprintf(known_txt[num_known], sizeof(known_txt[0]), "%s", line + off);
      num_known++;
    }
  }
  fclose(f);
}

static void write_replay(const char *path,
    const mc_scenario *s,
    slot_t *sl,
    const char *what,
    const char *errlog)
{
  FILE *f = fopen(path, "w");
  if (!f) return;
  fprintf(f, "property %s\nscenario %s\ntier %s\nchoices %d", cur_prop, s->name,
      tier ? "thorough" : "quick", sl->n);
  for (int i = 0; i < sl->n; i++) fprintf(f, " %d", sl->choice[i]);
  fprintf(f, "\nkey %s\nwhat %s\n", sl->key, what);
  fprintf(f, "--- trace\n%s", sl->note);
  if (errlog) {
    FILE *e = fopen(errlog, "r");
    if (e) {
      fprintf(f, "--- stderr of the failing process\n");
      char buf[4096];
      size_t n, tot = 0;
      while ((n = fread(buf, 1, sizeof(buf), e)) > 0 && tot < 60000) {
        fwrite(buf, 1, n, f);
        tot += n;
      }
      fclose(e);
    }
  }
  fclose(f);
}

typedef struct {
  uint64_t execs, pruned, ops, nodes, traces, nonvac, states;
  int truncated, max_depth;
  double wall;
  char sample[NOTE_SIZE];
} totals_t;

/* Explore one scenario with |nw| workers. Returns 0 ok, 1 violation, 2 internal error. */
static int explore(const mc_scenario *s, int nw, const char *replay_path, totals_t *t)
{
  double t0 = now();
  cur_scn = s;
  double max_s = tier ? s->max_s_thorough : s->max_s_quick;
  const char *scale = getenv("MC_TIME_SCALE");
  if (scale) max_s *= atof(scale);
  deadline = max_s > 0 ? t0 + max_s : 0;
  sh->next_prefix = 0;
  sh->stop = 0;
  sh->states = 0;
  sh->truncated = 0;
  sh->max_depth = 0;
  memset((void *)state_tab, 0, sizeof(uint64_t) * STATE_SLOTS);
  for (int w = 0; w < MAX_WORKERS; w++) memset(&sh->slot[w], 0, sizeof(slot_t));
  prefix_t *pf = mmap(NULL, sizeof(prefix_t) * MAX_PREFIX, PROT_READ | PROT_WRITE,
      MAP_SHARED | MAP_ANONYMOUS, -1, 0);
  int *npf = mmap(NULL, 4096, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
  char errlog[256];
  int result = 0;

  fflush(NULL);
  /* Phase 1: enumerate prefixes breadth first in a child (it may crash, too). */
  for (int phase = 0; phase < 2; phase++) {
    int workers = phase ? nw : 1;
    pid_t pids[MAX_WORKERS];
    for (int w = 0; w < workers; w++) {
      pid_t p = fork();
      if (p == 0) {
        die_with_parent();
        snprintf(errlog, sizeof(errlog), "%s.err.%d", replay_path, w);
        int fd = open(errlog, O_CREAT | O_TRUNC | O_WRONLY, 0644);
        if (fd >= 0) {
          dup2(fd, 2);
          close(fd);
        }
        int nul = open("/dev/null", O_WRONLY);
        if (nul >= 0) {
          dup2(nul, 1);
          close(nul);
        }
        me = &sh->slot[w];
        if (phase == 0) {
          /* Breadth first expansion of the choice tree until there are enough work items. */
          int target = nw * 24, head = 0, n = 1, nd = 0;
          prefix_t *done = malloc(sizeof(prefix_t) * MAX_PREFIX);
          pf[0].n = 0;
          while (head < n && (n - head) + nd < target) {
            prefix_t cur = pf[head];
            if (cur.n >= 24) break;
            memcpy(forced, cur.c, sizeof(uint16_t) * cur.n);
            force_n = cur.n;
            int rc = run_once();
            if (rc == 4) _exit(1);
            if (me->n <= cur.n) {
              done[nd++] = cur; /* Complete execution: a work item of its own. */
              head++;
              continue;
            }
            int ar = me->arity[cur.n];
            if (n + ar >= MAX_PREFIX) break;
            for (int c = 0; c < ar; c++) {
              pf[n] = cur;
              pf[n].c[cur.n] = (uint16_t)c;
              pf[n].n = cur.n + 1;
              n++;
            }
            head++;
          }
          int m = n - head;
          memmove(pf, pf + head, sizeof(prefix_t) * m);
          memcpy(pf + m, done, sizeof(prefix_t) * nd);
          *npf = m + nd;
          me->execs = me->pruned = me->ops = me->nodes = me->traces = me->nonvac = 0;
          _exit(0);
        }
        for (;;) {
          int k = sh->next_prefix++;
          if (k >= *npf || sh->stop) break;
          memcpy(forced, pf[k].c, sizeof(uint16_t) * pf[k].n);
          if (dfs(pf[k].n) == 4) {
            sh->stop = 1;
            _exit(1);
          }
          if (deadline > 0 && now() > deadline) {
            if (sh->next_prefix < *npf) sh->truncated = 1;
            break;
          }
        }
        _exit(0);
      }
      pids[w] = p;
    }
    /* Monitor. */
    int alive = workers, bad = -1;
    bool hang = false;
    int badstatus = 0;
    double tmo = s->exec_timeout > 0 ? s->exec_timeout : 60;
    while (alive > 0) {
      int st;
      pid_t p = waitpid(-1, &st, WNOHANG);
      if (p > 0) {
        for (int w = 0; w < workers; w++)
          if (pids[w] == p) {
            pids[w] = 0;
            alive--;
            bool clean = WIFEXITED(st) && WEXITSTATUS(st) == 0;
            if (!clean && bad < 0) {
              bad = w;
              badstatus = st;
              sh->stop = 1;
            }
          }
        continue;
      }
      for (int w = 0; w < workers; w++) {
        slot_t *sl = &sh->slot[w];
        if (pids[w] && sl->active && now() - sl->exec_start > tmo && bad < 0) {
          /* Re-check to avoid a race with the start of a new execution. */
          double st0 = sl->exec_start;
          usleep(1000);
          if (sl->active && sl->exec_start == st0) {
            bad = w;
            hang = true;
            sh->stop = 1;
          }
        }
      }
      if (bad >= 0) {
        for (int w = 0; w < workers; w++)
          if (pids[w]) kill(pids[w], SIGKILL);
      }
      usleep(2000);
    }
    if (bad >= 0) {
      slot_t *sl = &sh->slot[bad];
      char what[1400];
      snprintf(errlog, sizeof(errlog), "%s.err.%d", replay_path, bad);
      if (WIFEXITED(badstatus) && WEXITSTATUS(badstatus) == 3) {
        fprintf(stderr, "internal error of the check (scenario %s); see %s\n", s->name, errlog);
        FILE *e = fopen(errlog, "r");
        char buf[2000];
        if (e) {
          size_t n = fread(buf, 1, sizeof(buf) - 1, e);
          buf[n] = 0;
          fprintf(stderr, "%s\n", buf);
          fclose(e);
        }
        result = 2;
        break;
      }
      if (sl->failed)
        snprintf(what, sizeof(what), "%s", sl->msg);
      else if (hang) {
        snprintf(what, sizeof(what), "execution did not terminate within %.0f s", tmo);
        snprintf(sl->key, sizeof(sl->key), "hang");
      } else {
        snprintf(what, sizeof(what), "process died (%s %d): crash, sanitizer report or assertion",
            WIFSIGNALED(badstatus) ? "signal" : "exit",
            WIFSIGNALED(badstatus) ? WTERMSIG(badstatus) : WEXITSTATUS(badstatus));
        snprintf(sl->key, sizeof(sl->key), "crash");
      }
      write_replay(replay_path, s, sl, what, sl->failed ? NULL : errlog);
      printf("scenario %s: %s\n", s->name, what);
      result = 1;
      break;
    }
    if (phase == 0 && *npf == 0) {
      *npf = 1;
      pf[0].n = 0;
    }
    if (phase == 0) {
      sh->states = 0;
      memset((void *)state_tab, 0, sizeof(uint64_t) * STATE_SLOTS);
      for (int k = 0; k < num_known; k++) sh->known_hits[k] = 0;
    }
  }
  for (int w = 0; w < MAX_WORKERS; w++) {
    slot_t *sl = &sh->slot[w];
    t->execs += sl->execs;
    t->pruned += sl->pruned;
    t->ops += sl->ops;
    t->nodes += sl->nodes;
    t->traces += sl->traces;
    t->nonvac += sl->nonvac;
    if (sl->note[0]) memcpy(t->sample, sl->note, NOTE_SIZE);
    snprintf(errlog, sizeof(errlog), "%s.err.%d", replay_path, w);
    unlink(errlog);
  }
  t->states = sh->states;
  t->truncated = sh->truncated;
  t->max_depth = sh->max_depth;
  t->wall = now() - t0;
  munmap(pf, sizeof(prefix_t) * MAX_PREFIX);
  munmap(npf, 4096);
  return result;
}

static int replay(const char *path, const mc_property *props, int np)
{
  FILE *f = fopen(path, "r");
  if (!f) return 2;
  char prop[32] = "", scn[128] = "", ti[32] = "";
  int n = 0;
  if (fscanf(f, "property %31s\nscenario %127s\ntier %31s\nchoices %d", prop, scn, ti, &n) != 4)
    return 2;
  for (int i = 0; i < n && i < MAX_CHOICES; i++) {
    int c = 0;
    if (fscanf(f, " %d", &c) != 1) return 2;
    forced[i] = (uint16_t)c;
  }
  fclose(f);
  tier = !strcmp(ti, "thorough");
  force_n = n;
  replaying = true;
  me = &sh->slot[0];
  for (int p = 0; p < np; p++) {
    if (strcmp(props[p].property, prop)) continue;
    cur_prop = prop;
    for (int i = 0; i < props[p].num_scenarios; i++) {
      if (strcmp(props[p].scenarios[i].name, scn)) continue;
      cur_scn = &props[p].scenarios[i];
      alarm(120);
      setvbuf(stdout, NULL, _IONBF, 0);
      int rc = run_once();
      if (rc == 4) {
        printf("REPRODUCED %s: %s\n", me->key, me->msg);
        return 1;
      }
      printf("not reproduced (rc %d)\n", rc);
      return 0;
    }
  }
  return 2;
}

int mc_main(int argc, char **argv, const mc_property *props, int np)
{
  const char *prop = NULL, *tiers = "quick", *evid = NULL, *rdir = ".", *known = NULL, *only = NULL;
  const char *rep = NULL;
  int nw = (int)sysconf(_SC_NPROCESSORS_ONLN);
  for (int i = 1; i < argc; i++) {
    if (!strcmp(argv[i], "--property"))
      prop = argv[++i];
    else if (!strcmp(argv[i], "--tier"))
      tiers = argv[++i];
    else if (!strcmp(argv[i], "--evidence"))
      evid = argv[++i];
    else if (!strcmp(argv[i], "--replays"))
      rdir = argv[++i];
    else if (!strcmp(argv[i], "--known"))
      known = argv[++i];
    else if (!strcmp(argv[i], "--only"))
      only = argv[++i];
    else if (!strcmp(argv[i], "--workers"))
      nw = atoi(argv[++i]);
    else if (!strcmp(argv[i], "--replay"))
      rep = argv[++i];
  }
  if (nw > MAX_WORKERS) nw = MAX_WORKERS;
  if (nw < 1) nw = 1;
  tier = !strcmp(tiers, "thorough");
  sh = mmap(NULL, sizeof(shared_t), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
  state_tab = mmap(NULL, sizeof(uint64_t) * STATE_SLOTS, PROT_READ | PROT_WRITE,
      MAP_SHARED | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
  if (known) load_known(known);
  if (rep) return replay(rep, props, np);
  const mc_property *P = NULL;
  for (int p = 0; p < np; p++)
    if (prop && !strcmp(props[p].property, prop)) P = &props[p];
  if (!P) {
    fprintf(stderr, "unknown property %s\n", prop ? prop : "(none)");
    return 2;
  }
  cur_prop = P->property;
  double t0 = now();
  totals_t *T = calloc(P->num_scenarios, sizeof(totals_t));
  uint64_t known_tot[MAX_KNOWN] = {0};
  int violation = 0, internal = 0, ran = 0;
  char rpath[512] = "";
  for (int i = 0; i < P->num_scenarios && !violation && !internal; i++) {
    const mc_scenario *s = &P->scenarios[i];
    if (s->only_tier >= 0 && s->only_tier != tier) continue;
    if (only && strcmp(only, s->name)) continue;
    ran++;
    snprintf(rpath, sizeof(rpath), "%s/%s.%s.replay", rdir, P->property, s->name);
    unlink(rpath);
    int rc = explore(s, nw, rpath, &T[i]);
    for (int k = 0; k < num_known; k++) known_tot[k] += sh->known_hits[k];
    printf("%s %-28s execs %llu pruned %llu nodes %llu ops %llu states %llu traces %llu nonvac %llu "
           "depth %d%s %.1fs\n",
        P->property, s->name, (unsigned long long)T[i].execs, (unsigned long long)T[i].pruned,
        (unsigned long long)T[i].nodes, (unsigned long long)T[i].ops,
        (unsigned long long)T[i].states, (unsigned long long)T[i].traces,
        (unsigned long long)T[i].nonvac, T[i].max_depth, T[i].truncated ? " TRUNCATED" : "",
        T[i].wall);
    fflush(stdout);
    if (rc == 1) violation = 1;
    if (rc == 2) internal = 1;
  }
  for (int k = 0; k < num_known; k++)
    if (!strcmp(known_prop[k], P->property) && known_tot[k])
      printf("KNOWN-FINDING: property=%s %s %s\n", P->property, known_key[k], known_txt[k]);
  if (evid && !internal && !only) {
    FILE *f = fopen(evid, "w");
    if (f) {
      uint64_t execs = 0, ops = 0, states = 0, nodes = 0, traces = 0, nonvac = 0;
      bool exh = true;
      for (int i = 0; i < P->num_scenarios; i++) {
        execs += T[i].execs;
        ops += T[i].ops;
        states += T[i].states;
        nodes += T[i].nodes;
        traces += T[i].traces;
        nonvac += T[i].nonvac;
        exh &= !T[i].truncated;
      }
      const char *seed = getenv("VERIF_SEED");
      fprintf(f,
          "{\"property\":\"%s\",\"tier\":\"%s\",\"seed\":%d,\"level\":\"model_checking\",\n"
          "\"coverage\":{\"states\":%llu,\"transitions\":%llu,\"traces_validated_against_impl\":%llu,\n"
          "\"executions\":%llu,\"choice_tree_nodes\":%llu,\"nonvacuous_checks\":%llu,"
          "\"exhaustive\":%s,\n\"scenarios\":[",
          P->property, tier ? "thorough" : "quick", seed ? atoi(seed) : 0,
          (unsigned long long)states, (unsigned long long)ops, (unsigned long long)traces,
          (unsigned long long)execs, (unsigned long long)nodes, (unsigned long long)nonvac,
          (exh && !violation) ? "true" : "false");
      bool first = true;
      for (int i = 0; i < P->num_scenarios; i++) {
        if (!T[i].wall) continue;
        char *b = json_escape(P->scenarios[i].bounds ? P->scenarios[i].bounds : "");
        fprintf(f,
            "%s\n {\"name\":\"%s\",\"bounds\":\"%s\",\"executions\":%llu,\"states\":%llu,"
            "\"transitions\":%llu,\"choice_tree_nodes\":%llu,\"infeasible_pruned\":%llu,"
            "\"max_choices\":%d,\"exhausted\":%s,\"wall_s\":%.2f}",
            first ? "" : ",", P->scenarios[i].name, b, (unsigned long long)T[i].execs,
            (unsigned long long)T[i].states, (unsigned long long)T[i].ops,
            (unsigned long long)T[i].nodes, (unsigned long long)T[i].pruned, T[i].max_depth,
            T[i].truncated ? "false" : "true", T[i].wall);
        free(b);
        first = false;
      }
      fprintf(f, "],\n\"samples\":[");
      first = true;
      for (int i = 0; i < P->num_scenarios; i++) {
        if (!T[i].wall) continue;
        T[i].sample[1200] = 0;
        char *b = json_escape(T[i].sample);
        fprintf(f, "%s\n {\"scenario\":\"%s\",\"trace\":\"%s\"}", first ? "" : ",",
            P->scenarios[i].name, b);
        free(b);
        first = false;
      }
      fprintf(f, "]},\n\"assumptions\":[");
      first = true;
      for (int i = 0; P->assumptions && P->assumptions[i]; i++) {
        char *b = json_escape(P->assumptions[i]);
        fprintf(f, "%s\"%s\"", first ? "" : ",", b);
        free(b);
        first = false;
      }
      fprintf(f, "],\n\"wall_s\":%.2f,\"violations\":%d}\n", now() - t0, violation);
      fclose(f);
    }
  }
  if (internal || !ran) return 2;
  if (violation) {
    printf("VIOLATION property=%s replay=%s\n", P->property, rpath);
    return 1;
  }
  return 0;
}
