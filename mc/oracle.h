/* Reference oracles over a played stream. All of them are stated on what the API documents: reports,
 * the per NALU validation string (counted backwards from the triggering NALU) and statistics. */
#ifndef ORACLE_H
#define ORACLE_H
#include "sim.h"
static inline bool is_pic(char t) { return t && strchr("IiPp", t) != NULL; }

typedef struct {
  char st[MAX_NALUS]; /* last known validation status of each NALU in the played stream */
  int num_ok, num_missing, num_notok, num_sigpres, num_notsigned, num_mismatch;
  int num_auth; /* picture NALUs reported authentic */
} digest_t;

/* Content and order soundness (P02, P03, P04):
 *  R1 a picture NALU reported authentic ('.') is byte-identical to one the camera signed.
 *  R2 an OK report has no invalid/missing items, its authentic picture NALUs are a gap-free run of the
 *     signed sequence, and consecutive OK reports join without gap, overlap or reordering.
 *  R3 OK_WITH_MISSING_INFO: authentic picture NALUs appear in signed order. */
static bool oracle_counts = true; /* an OK result has equal counts */
static void oracle_sound(const stream_t *s, const run_t *r, digest_t *d)
{
  static int idx[STRMAX];
  memset(d, 0, sizeof(*d));
  memset(d->st, 'P', sizeof(d->st));
  bool chain = false;
  int ls = -1, lp = -1, prev_missing = 0;
  for (int i = 0; i < r->nrep; i++) {
    const rep_t *q = &r->rep[i];
    sim_align(q, idx);
    int n = (int)strlen(q->vstr), missing = 0, excused = 0;
    bool any = false, contig = true, incr = true, clean = true;
    int fs = -1, fp = -1, cs = -1, cp = -1;
    for (int k = 0; k < n; k++) {
      int j = idx[k];
      char v = q->vstr[k];
      if (v == 'M') {
        missing++;
        continue;
      }
      if (j < 0) mc_fail("report_str", "validation string longer than the NALUs received: %s", q->vstr);
      /* The signature of a GOP before the first one received: that GOP is no loss. */
      if (v == 'U' && s->n[j].type == 'S') excused = missing;
      if (d->st[j] != 'P' || v == 'P' || v == '_' || v == 'U') continue;
      d->st[j] = v;
      if (v != '.') clean = false;
      if (!is_pic(s->n[j].type)) continue;
      if (v != '.') continue;
      d->num_auth++;
      MC_CHECK(s->n[j].src >= 0, "tampered_authentic",
          "picture NALU %d is modified or was never signed, but is reported authentic (%s)", j, q->vstr);
      if (!any) {
        any = true;
        fs = s->n[j].src;
        fp = s->n[j].pos;
      } else {
        if (s->n[j].src != cs || s->n[j].pos != cp + 1) contig = false;
        if (s->n[j].src != cs || s->n[j].pos <= cp) incr = false;
      }
      cs = s->n[j].src;
      cp = s->n[j].pos;
    }
    if (missing - excused > prev_missing) clean = false;
    prev_missing = missing;
    switch (q->auth) {
      case SV_AUTH_RESULT_OK:
        d->num_ok++;
        MC_CHECK(clean, "ok_with_invalid", "report %d is OK, but has invalid or missing items: %s", i,
            q->vstr);
        MC_CHECK(!oracle_counts || q->exp < 0 || q->exp == q->recv, "ok_counts", "report %d is OK, but %d pictures were expected and %d received", i,
            q->exp, q->recv);
        MC_CHECK(contig, "ok_not_contiguous",
            "report %d is OK, but its picture NALUs are not consecutive in the signed video: %s", i,
            q->vstr);
        if (any && chain)
          MC_CHECK(fs == ls && fp == lp + 1, "ok_reports_gap",
              "OK report %d starts with signed NALU %d:%d, the previous OK ended with %d:%d", i, fs,
              fp, ls, lp);
        if (any) {
          chain = true;
          ls = cs;
          lp = cp;
        }
        break;
      case SV_AUTH_RESULT_OK_WITH_MISSING_INFO:
        d->num_missing++;
        MC_CHECK(incr, "missing_info_reordered",
            "report %d is OK_WITH_MISSING_INFO, but the NALUs are not in signed order: %s", i, q->vstr);
        chain = false;
        break;
      case SV_AUTH_RESULT_NOT_OK:
        d->num_notok++;
        chain = false;
        break;
      case SV_AUTH_RESULT_SIGNATURE_PRESENT:
        d->num_sigpres++;
        break;
      case SV_AUTH_RESULT_NOT_SIGNED:
        d->num_notsigned++;
        break;
      default:
        d->num_mismatch++;
        break;
    }
  }
}

/* Every NALU that was fed returned SV_OK. */
static inline void oracle_no_error(const run_t *r)
{
  for (int i = 0; i < r->nrc; i++)
    MC_CHECK(r->rc[i] == SV_OK, "api_error", "NALU %d: the validator returned %d", i, r->rc[i]);
}

static inline bool auth_at_all(int a)
{
  return a == SV_AUTH_RESULT_OK || a == SV_AUTH_RESULT_NOT_OK || a == SV_AUTH_RESULT_OK_WITH_MISSING_INFO;
}

static inline uint64_t run_fp(const run_t *r)
{
  uint64_t h = 0;
  for (int i = 0; i < r->nrep; i++) {
    const rep_t *q = &r->rep[i];
    h = mc_hash(q->vstr, strlen(q->vstr), h);
    h = mc_hash(q->nstr, strlen(q->nstr), h + q->auth * 31 + q->a_auth);
  }
  return h;
}
#endif
