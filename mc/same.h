/* Comparison of two validation runs, field by field. */
#ifndef SAME_H
#define SAME_H
#include <stdio.h>
#include "sim.h"
#define SAME(f) MC_CHECK(a->f == b->f, key, "%s: " #f " differs: %lld, expected %lld", where, (long long)a->f, (long long)b->f)
#define SAMES(f) MC_CHECK(!strcmp(a->f, b->f), key, "%s: " #f " differs: %s, expected %s", where, a->f, b->f)
static void rep_same(const rep_t *a, const rep_t *b, const char *key, const char *where, bool latest)
{
  if (latest) {
    SAME(auth); SAME(exp); SAME(recv); SAME(pend); SAME(pkval); SAME(pk_changed); SAME(has_ts);
    if (b->has_ts) SAME(ts);
    SAMES(vstr); SAMES(nstr);
  }
  SAME(a_auth); SAME(a_pkval); SAME(a_recv); SAME(a_val); SAME(a_pend); SAME(a_pk_changed); SAME(a_has_ts);
  if (b->a_has_ts) { SAME(a_first); SAME(a_last); }
  SAMES(hw); SAMES(fw); SAMES(sn); SAMES(mf); SAMES(ad); SAMES(ver_sign); SAMES(ver_this);
}
/* |off|: NALU number of the first NALU of |a|. */
static void run_same(const run_t *a, int off, const run_t *b, const char *key)
{
  char where[80];
  MC_CHECK(a->nrc == b->nrc, key, "%d NALUs, expected %d", a->nrc, b->nrc);
  for (int i = 0; i < a->nrc; i++) MC_CHECK(a->rc[i] == b->rc[i], key, "NALU %d gave %d, expected %d", i, a->rc[i], b->rc[i]);
  MC_CHECK(a->nrep == b->nrep, key, "%d reports, expected %d", a->nrep, b->nrep);
  for (int i = 0; i < a->nrep; i++) {
    snprintf(where, sizeof(where), "report at NALU %d", b->rep[i].at);
    MC_CHECK(a->rep[i].at - off == b->rep[i].at, key, "%s came at NALU %d", where, a->rep[i].at - off);
    rep_same(&a->rep[i], &b->rep[i], key, where, true);
  }
  MC_CHECK(a->has_final == b->has_final, key, "final report: %d, expected %d", a->has_final, b->has_final);
  if (a->has_final) rep_same(&a->final, &b->final, key, "final report", true);
  mc_trace_ok();
}

#endif
