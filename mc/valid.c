/* P05..P11: what the validator tells its user. */
#include "edits.h"
#include "forge.h"
#include <stdio.h>

static stream_t S, O, Q;
static run_t R;
static digest_t D;

static const char *kDelays[] = {NULL, "2", "31", "4"};
static const char *kLong[] = {"IPPIPPIPPIPPIPPIPPIPPIPPIPPIP", "IPIIPPIPIPIPIPIPIPPIP", "IiPpIPIiPpIPpIiPIPIPIiPIPIP"};

static void make(cfg_t *c, int ncodec, int nspec, int ndelay, stream_t *s)
{
  memset(c, 0, sizeof(*c));
  c->codec = mc_choose(ncodec, "codec");
  c->level = mc_choose(2, "level");
  c->pad = 4;
  c->after = mc_choose(2, "after");
  const char *d = kDelays[mc_choose(ndelay, "delay")];
  sim_sign_cached(c, kLong[mc_choose(nspec, "spec")], d, s);
  mc_note("codec %d level %d delays %s: %s", c->codec, c->level, d ? d : "none", sim_types(s));
}

/* ---------------------------------------------------------------- P05 containment and recovery */
static int gops_with_sei(const stream_t *s)
{
  int k = 0;
  for (int i = 0; i < s->len; i++) k += s->n[i].type == 'S';
  return k;
}

/* |ge|: first GOP the edit touches, |gl|: last. */
static void contained(const stream_t *s, int first, int ge, int gl, int before, int after)
{
  int n = gops_with_sei(s);
  for (int i = 0; i < s->len; i++) {
    if (!is_pic(s->n[i].type) || s->n[i].src < 0) continue;
    int g = s->n[i].gop;
    if (g < 0 || g >= n - 1) continue;
    if (g < ge - before)
      MC_CHECK(D.st[i] == '.', "spoiled_before", "NALU %d (GOP %d) precedes the change in GOP %d, but is '%c'", i, g, ge, D.st[i]);
    if (g > gl + after) {
      mc_nonvacuous();
      MC_CHECK(D.st[i] == '.', "no_recovery", "NALU %d (GOP %d) is well after the change in GOP %d, but is '%c'", i, g, gl, D.st[i]);
    }
  }
  for (int i = 0; i < R.nrep; i++) {
    const rep_t *q = &R.rep[i];
    if (q->at < first)
      MC_CHECK(q->auth != SV_AUTH_RESULT_NOT_OK && q->auth != SV_AUTH_RESULT_OK_WITH_MISSING_INFO, "alarm_before",
          "report at NALU %d, before the change at %d, is %s", q->at, first, auth_str(q->auth));
    else if (seis_before(s, q->at) - seis_before(s, first) > 3)
      MC_CHECK(q->auth == SV_AUTH_RESULT_OK, "result_no_recovery",
          "report at NALU %d, %d SEIs after the change at %d, is %s", q->at,
          seis_before(s, q->at) - seis_before(s, first), first, auth_str(q->auth));
  }
}
/* Every signature is delivered before the GOP following the one it signs has ended. */
static bool prompt(const stream_t *s)
{
  for (int i = 0; i < s->len; i++) {
    if (s->n[i].type != 'S') continue;
    bool found = seis_after(s, i + 1) == 0;
    for (int j = i + 1; j < s->len; j++) found |= is_pic(s->n[j].type) && s->n[j].gop <= s->n[i].gop + 1;
    if (!found) return false;
  }
  return true;
}
/* Every three SEIs that are received, some result is given. */
static void alive(const stream_t *s)
{
  int r = 0, n = 0;
  for (int i = 0; i < s->len; i++) {
    n += s->n[i].type == 'S';
    while (r < R.nrep && R.rep[r].at < i) r++;
    if (r < R.nrep && R.rep[r].at == i) n = 0;
    MC_CHECK(n < 4, "no_result", "no result for the last %d SEIs at NALU %d", n, i);
  }
}

static void p05_pictures(void)
{
  sim_begin();
  cfg_t c;
  make(&c, 2, mc_tier() ? 3 : 2, mc_tier() ? 4 : 3, &S);
  sim_copy_stream(&Q, &S);
  /* Any picture is modified, or a GOP gets too few or too many pictures, or in the wrong order. */
  static const int kOps[] = {E_MOD, E_DROP, E_DUP, E_INSP, E_SWAP};
  int op = kOps[mc_choose(5, "op")], at = mc_choose(S.len, "at");
  if (!is_pic(S.n[at].type) || (op != E_MOD && !strchr("Pp", S.n[at].type))) mc_prune();
  if (op == E_SWAP && (at + 1 >= S.len || !strchr("Pp", S.n[at + 1].type))) mc_prune();
  int ge = S.n[at].gop;
  if (ge == 0) mc_prune();
  mc_note("%s at %d", kEditName[op], at);
  edit_at(&S, &c, op, at);
  mc_note("%s", sim_types(&S));
  sim_play(&S, NULL, &R);
  mc_note("%s", sim_run_str(&R));
  oracle_no_error(&R);
  oracle_sound(&S, &R, &D);
  contained(&S, at, ge, ge, 0, 2);
  alive(&S);
  mc_state(run_fp(&R));
  mc_trace_ok();
}


static sei_t F1;
/* One SEI is lost, repeated, or damaged in all kinds of ways. */
static void p05_seis(void)
{
  sim_begin();
  cfg_t c;
  make(&c, 1, mc_tier() ? 3 : 2, 3, &S);
  int at = mc_choose(S.len, "at");
  if (S.n[at].type != 'S' || !prompt(&S)) mc_prune();
  int ge = S.n[at].gop;
  const char *w = sei_parse(S.n[at].data, S.n[at].size, c.codec, &F1);
  MC_CHECK(!w, "sei_malformed", "SEI cannot be parsed: %s", w);
  int op = mc_choose(6, "op"), x = 0;
  nalu_t *n = &S.n[at];
  switch (op) {
    case 0: /* lost */
      sim_remove(&S, at);
      break;
    case 1: /* repeated */
      sim_insert(&S, at, sim_nalu_copy(&S.n[at]));
      break;
    case 2: /* one byte damaged */
      x = 26 + mc_choose((int)n->size - 26 - 1, "byte");
      edit_mod(n, x, 0x10);
      break;
    case 3: /* length of a TLV damaged */
      x = mc_choose(F1.n, "tlv");
      F1.t[x].len = F1.t[x].len > 3 ? F1.t[x].len - 3 : 0;
      S.n[at] = sei_build(&F1, true);
      break;
    case 4: /* a field is missing */
      x = mc_choose(F1.n, "tlv");
      memmove(&F1.t[x], &F1.t[x + 1], sizeof(tlv_t) * (F1.n - x - 1));
      F1.n--;
      S.n[at] = sei_build(&F1, true);
      break;
    case 5: /* an unknown or empty field is added */
      x = mc_choose(8, "tag");
      static const int kTag[] = {0, 1, 2, 3, 4, 7, 8, 130};
      memmove(&F1.t[1], &F1.t[0], sizeof(tlv_t) * F1.n);
      F1.n++;
      F1.t[0].tag = kTag[x];
      F1.t[0].len = 0;
      S.n[at] = sei_build(&F1, true);
      break;
  }
  if (op >= 3) S.n[at].gop = ge;
  mc_note("SEI at %d op %d arg %d: %s", at, op, x, sim_types(&S));
  sim_play(&S, NULL, &R);
  mc_note("%s", sim_run_str(&R));
  oracle_sound(&S, &R, &D);
  /* Recovery is only promised if the player had the key before. */
  if (ge > 0) {
    contained(&S, at, ge, ge, 0, 2);
    for (int i = at + 8; i < R.nrc; i++)
      MC_CHECK(R.rc[i] == SV_OK, "error_no_recovery", "NALU %d: the validator returned %d", i, R.rc[i]);
    alive(&S);
  }
  mc_state(run_fp(&R));
  mc_trace_ok();
}


/* ---------------------------------------------------------------- P06 localisation */
static void p06(void)
{
  sim_begin();
  cfg_t c;
  make(&c, 2, mc_tier() ? 3 : 2, mc_tier() ? 4 : 3, &S);
  static const int kOps[] = {E_MOD, E_DROP, E_DUP, E_INSP};
  int op = kOps[mc_choose(4, "op")], at = mc_choose(S.len, "at");
  if (!is_pic(S.n[at].type) || !strchr("Pp", S.n[at].type)) mc_prune();
  int g = S.n[at].gop, n = gops_with_sei(&S);
  if (g == 0 || g >= n - 1) mc_prune();
  edit_at(&S, &c, op, at);
  mc_note("%s at %d: %s", kEditName[op], at, sim_types(&S));
  sim_play(&S, NULL, &R);
  mc_note("%s", sim_run_str(&R));
  oracle_no_error(&R);
  oracle_sound(&S, &R, &D);
  mc_nonvacuous();
  int worst = op == E_DROP && c.level == SV_AUTHENTICITY_LEVEL_FRAME ? SV_AUTH_RESULT_OK_WITH_MISSING_INFO : SV_AUTH_RESULT_NOT_OK;
  int bad = 0, nmiss = 0;
  for (int i = 0; i < R.nrep; i++) {
    if (R.rep[i].auth == worst) bad++;
    else
      MC_CHECK(R.rep[i].auth == SV_AUTH_RESULT_OK || R.rep[i].auth == SV_AUTH_RESULT_NOT_SIGNED || R.rep[i].auth == SV_AUTH_RESULT_SIGNATURE_PRESENT,
          "wrong_result", "report at NALU %d is %s", R.rep[i].at, auth_str(R.rep[i].auth));
    int m = 0;
    for (const char *v = R.rep[i].vstr; *v; v++) m += *v == 'M';
    if (m > nmiss) nmiss = m;
  }
  MC_CHECK(bad == 1, "not_local", "%d reports are %s", bad, auth_str(worst));
  int d1 = op == E_DUP ? (D.st[at] == 'N') + (D.st[at + 1] == 'N') : 0;
  for (int i = 0; i < S.len; i++) {
    if (!is_pic(S.n[i].type) || S.n[i].gop >= n - 1) continue;
    char want = '.';
    if (c.level == SV_AUTHENTICITY_LEVEL_GOP) {
      if (S.n[i].gop == g || S.n[i].src < 0) want = 'N';
    } else {
      if (S.n[i].src < 0) want = 'N';
      if (op == E_DUP && (i == at || i == at + 1)) {
        MC_CHECK(d1 == 1, "duplicate", "of two identical pictures %d are invalid", d1);
        continue;
      }
    }
    MC_CHECK(D.st[i] == want, "wrong_picture", "picture %d (GOP %d) is '%c', expected '%c'", i, S.n[i].gop, D.st[i], want);
  }
  if (op == E_DROP) MC_CHECK(nmiss == 1, "missing", "%d missing NALUs are indicated", nmiss);
  else MC_CHECK(nmiss == 0, "missing", "%d missing NALUs are indicated", nmiss);
  mc_state(run_fp(&R));
  mc_trace_ok();
}

/* ---------------------------------------------------------------- P07 unsigned video */
static void p07(void)
{
  sim_begin();
  cfg_t c = {0};
  c.codec = mc_choose(2, "codec");
  static const char alpha[] = "IPVZAiYO";
  int na = mc_tier() ? 8 : 6, len = mc_tier() ? 7 : 6;
  S.codec = c.codec;
  S.len = 0;
  for (int i = 0; i < len; i++) sim_append(&S, sim_nalu(&c, alpha[mc_choose(na, "nalu")], i));
  mc_note("%s", sim_types(&S));
  int manual = mc_choose(2, "manual");
  sim_play(&S, manual ? sim_pub_key(0) : NULL, &R);
  mc_note("%s", sim_run_str(&R));
  oracle_no_error(&R);
  for (int i = 0; i < R.nrep; i++) {
    const rep_t *q = &R.rep[i];
    mc_nonvacuous();
    MC_CHECK(q->auth == SV_AUTH_RESULT_NOT_SIGNED && q->a_auth == SV_AUTH_RESULT_NOT_SIGNED, "unsigned_result",
        "report at %d of an unsigned video is %s, overall %s", q->at, auth_str(q->auth), auth_str(q->a_auth));
    MC_CHECK(!strpbrk(q->vstr, ".NMEU"), "unsigned_status", "statuses of an unsigned video: %s", q->vstr);
    MC_CHECK(q->a_val == 0, "unsigned_validated", "%u NALUs validated", q->a_val);
  }
  MC_CHECK(R.has_final && R.final.a_auth == SV_AUTH_RESULT_NOT_SIGNED, "unsigned_final", "overall %s", auth_str(R.final.a_auth));
  MC_CHECK(R.final.a_recv == (unsigned)S.len && R.final.a_pend == (unsigned)S.len && R.final.a_val == 0, "unsigned_counts",
      "received %u pending %u validated %u of %d", R.final.a_recv, R.final.a_pend, R.final.a_val, S.len);
  mc_state(run_fp(&R));
  mc_trace_ok();
}

/* ---------------------------------------------------------------- P08 parts of a recording */
static void part(const cfg_t *c0, bool sparse)
{
  cfg_t c = *c0;
  int a = mc_choose(O.len, "start"), b = a + 1 + mc_choose(O.len - a, "end");
  if (O.n[a].type != 'I') mc_prune();
  S.codec = c.codec;
  S.len = 0;
  for (int i = a; i < b; i++) sim_append(&S, O.n[i]);
  mc_note("[%d,%d): %s", a, b, sim_types(&S));
  /* At most one signature of an earlier part is included. */
  int old = 0;
  for (int i = 0; i < S.len; i++) old += S.n[i].type == 'S' && S.n[i].gop < S.n[0].gop;
  if (old > 1) mc_prune();
  sim_play(&S, NULL, &R);
  mc_note("%s", sim_run_str(&R));
  oracle_no_error(&R);
  oracle_sound(&S, &R, &D);
  MC_CHECK(D.num_notok + D.num_missing == 0, "part_not_ok", "a part of an untampered recording is not OK");
  int k = 0;
  if (sparse) {
    static sei_t f;
    for (k = 0; k < S.len; k++)
      if (S.n[k].type == 'S' && !sei_parse_mode(S.n[k].data, S.n[k].size, c.codec, &f, c.no_epb != 1) && sei_tlv(&f, 2)) break;
    if (k == S.len) { /* the key never arrives */
      MC_CHECK(D.num_auth == 0 && D.num_ok == 0, "part_no_key", "pictures are authentic without a key");
      return;
    }
  }
  int ns = seis_before(&S, S.len) - seis_before(&S, k);
  if (ns >= 3) {
    mc_nonvacuous();
    MC_CHECK(D.num_ok > 0 && R.final.a_auth == SV_AUTH_RESULT_OK, "part_never_ok", "%d SEIs, but the result is %s", ns, auth_str(R.final.a_auth));
  }
  /* All GOPs which are part of it with their SEIs. */
  int g0 = -1;
  for (int i = 0; i < S.len && g0 < 0; i++)
    if (S.n[i].type == 'I') g0 = S.n[i].gop;
  for (int i = 0; i < S.len; i++) {
    if (!is_pic(S.n[i].type)) continue;
    bool sei = false;
    for (int j = 0; j < S.len; j++) sei |= S.n[j].type == 'S' && S.n[j].gop == S.n[i].gop;
    if (g0 >= 0 && S.n[i].gop >= g0 && sei)
      MC_CHECK(D.st[i] == '.', "part_unvalidated", "picture %d of GOP %d (first complete %d) was not authenticated, status %c", i, S.n[i].gop, g0, D.st[i]);
  }
  mc_state(run_fp(&R));
  mc_trace_ok();
}

static void p08(void)
{
  sim_begin();
  cfg_t c;
  make(&c, 2, mc_tier() ? 3 : 2, mc_tier() ? 4 : 3, &O);
  part(&c, false);
}
/* Other settings, in particular those where the key comes with some of the signatures only. */
static void p08_config(void)
{
  sim_begin();
  cfg_t c;
  memset(&c, 0, sizeof(c));
  c.level = mc_choose(2, "level");
  c.no_epb = mc_choose(3, "no epb");
  c.recurrence = 1 + mc_choose(mc_tier() ? 4 : 3, "recurrence");
  static const char *kHash[] = {NULL, "sha512", "sha384"};
  c.hash = kHash[mc_choose(mc_tier() ? 3 : 2, "hash")];
  c.key = mc_choose(2, "key");
  c.codec = mc_tier() ? mc_choose(2, "codec") : c.no_epb & 1;
  c.pad = 4;
  c.after = mc_choose(2, "after");
  c.ts = 1;
  const char *d = kDelays[mc_choose(mc_tier() ? 3 : 2, "delay")];
  sim_sign_cached(&c, "IPPIPIPPIPIPIP", d, &O);
  mc_note("codec %d level %d no_epb %d recurrence %d hash %s key %d delay %s: %s", c.codec, c.level, c.no_epb, c.recurrence,
      c.hash ? c.hash : "default", c.key, d ? d : "none", sim_types(&O));
  part(&c, c.recurrence > 1);
}

/* ---------------------------------------------------------------- P09 accounting, P10 overall verdict */
static const char *kMixed[] = {"VVIPZPAIPPVIIPOPIPPIPIPPIP", "IPPIPPIPPIPIP", "PIiPpIiPpYIiPIiPXIPIP", "IPPPPPPIPIPIPIPPIP"};
static void mixed(cfg_t *c, int nedits)
{
  memset(c, 0, sizeof(*c));
  c->codec = mc_choose(2, "codec");
  c->level = mc_choose(2, "level");
  c->after = mc_choose(2, "after");
  c->ts = 1;
  c->pad = 4;
  const char *d = kDelays[mc_choose(4, "delay")];
  sim_sign_cached(c, kMixed[mc_choose(mc_tier() ? 4 : 3, "spec")], d, &S);
  mc_note("codec %d level %d delays %s: %s", c->codec, c->level, d ? d : "none", sim_types(&S));
  for (int k = 0; k < nedits; k++)
    if (mc_choose(2, "edit?")) edit_one(&S, c, k || mc_tier() == 0 ? E_COPY : E_NUM, k ? sei_filter : NULL);
  mc_note("%s", sim_types(&S));
}

static char nalu_char(char t)
{
  switch (t) {
    case 'Z': case 'Y': return 'z';
    case 'V': case 'W': return 'v';
    case 'A': return '_';
    case 'O': return 'o';
    case 'X': return 'U';
    default: return t;
  }
}

/* Many NALUs pending at a time. */
static void many(void)
{
  cfg_t c = {.pad = 4, .ts = 1};
  c.codec = mc_choose(2, "codec");
  c.level = mc_choose(2, "level");
  c.after = mc_choose(2, "after");
  static const int kMany[] = {60, 99, 100, 101, 127, 128, 129, 199, 200, 201, 253, 254, 255, 256, 257, 300};
  int n = kMany[mc_choose(16, "many")];
  char spec[400] = "IPPI";
  memset(spec + 4, 'P', (size_t)n);
  strcpy(spec + 4 + n, "IPIPIPVIP");
  c.golden = mc_choose(2, "golden");
  if (mc_choose(2, "unhashed")) spec[9] = 'V', spec[20] = 'i';
  sim_sign_cached(&c, spec, mc_choose(2, "late") ? "05" : NULL, &S);
  int op = mc_choose(E_SWAP + 2, "edit"), at = (int[]){7, S.len - 20, 8 + n / 2}[mc_choose(3, "where")];
  if (op <= E_SWAP) edit_at(&S, &c, op, at);
  mc_note("%s %s at %d", sim_types(&S), op <= E_SWAP ? kEditName[op] : "untouched", at);
}
/* Joined recordings, signed with different keys or not, with timestamps or not. */
static void joined(bool golden)
{
  cfg_t c = {.pad = 4}, c2;
  c.codec = mc_choose(2, "codec");
  c.level = mc_choose(2, "level");
  c.key = mc_choose(2, "key");
  c.ts = mc_choose(3, "ts");
  c2 = c;
  c2.key = mc_choose(3, "key 2");
  c2.ts = mc_choose(2, "ts 2");
  c2.salt = 3;
  if (golden) c2.golden = mc_choose(2, "golden");
  sim_sign_cached(&c, "IPPIPIPPIPIPP", kDelays[mc_choose(2, "delay")], &S);
  static stream_t T;
  sim_sign_cached(&c2, "IPIPPIPIIPIP", NULL, &T);
  int ends[8], ne = 0;
  for (int i = 1; i < S.len && ne < 8; i++)
    if (S.n[i].type == 'S' || S.n[i].type == 'I') ends[ne++] = i;
  S.len = ends[mc_choose(ne, "joint")];
  for (int i = 0; i < T.len; i++) sim_append(&S, T.n[i]);
  mc_note("%s: keys %d %d, timestamps %d %d", sim_types(&S), c.key, c2.key, c.ts, c2.ts);
}
static void account(void);
static void p09(void)
{
  sim_begin();
  cfg_t c;
  mixed(&c, mc_tier() ? 2 : 1);
  account();
}
static void p09_many(void)
{
  sim_begin();
  many();
  account();
}
static void p09_joined(void)
{
  sim_begin();
  joined(false);
  account();
}
static void account(void)
{
  sim_play(&S, NULL, &R);
  mc_note("%s", sim_run_str(&R));
  static char last[MAX_NALUS];
  memset(last, 'P', sizeof(last));
  int head = 0;
  unsigned val = 0;
  for (int i = 0; i < R.nrep; i++) {
    const rep_t *q = &R.rep[i];
    int n = (int)strlen(q->vstr), real = 0, first_p = -1, left = 0, left_m = 0, pics = 0, all = 0, removed = 0, newly = 0;
    MC_CHECK(n == (int)strlen(q->nstr), "strings_differ", "%s and %s differ in length", q->vstr, q->nstr);
    for (int k = 0; k < n; k++) real += q->vstr[k] != 'M';
    MC_CHECK(real == q->at - head + 1, "string_length", "report at %d: %d NALUs since the first pending one (%d), but '%s'", q->at,
        q->at - head + 1, head, q->vstr);
    int j = head;
    for (int k = 0; k < n; k++) {
      char v = q->vstr[k], t = q->nstr[k];
      MC_CHECK((v == 'M') == (t == ' '), "missing_type", "'%s' vs '%s'", q->vstr, q->nstr);
      if (first_p < 0 && v == 'P') first_p = j;
      if (first_p >= 0 && v == 'M') left_m++;
      if (v == 'M') continue;
      if (first_p >= 0) left++;
      else removed++;
      char type = S.n[j].type;
      MC_CHECK(t == nalu_char(type), "nalu_type", "NALU %d of type %c is shown as '%c'", j, type, t);
      MC_CHECK(strchr(is_pic(type) || type == 'S' || type == 'G' ? "P.NEU" : type == 'X' ? "U" : "_", v), "status", "NALU %d of type %c has status '%c'", j,
          type, v);
      if (R.rc[j] != SV_OK) MC_CHECK(v == 'E', "status_error", "NALU %d failed, but has status '%c'", j, v);
      MC_CHECK(last[j] == 'P' || last[j] == v, "status_changed", "NALU %d was '%c' and became '%c'", j, last[j], v);
      if (last[j] == 'P' && is_pic(type)) newly += strchr(".N", v) != NULL;
      last[j] = v;
      all += v == 'P';
      pics += v == 'P' && is_pic(type);
      j++;
    }
    MC_CHECK(q->pend >= pics && q->pend <= all, "pending", "%d pending, but '%s'", q->pend, q->vstr);
    if (auth_at_all(q->auth) && q->exp >= 0)
      MC_CHECK(q->recv == newly, "pictures_received", "%d pictures received, but '%s' (%d)", q->recv, q->vstr, newly);
    MC_CHECK(q->a_recv == (unsigned)q->at + 1, "received", "%u received after %d NALUs", q->a_recv, q->at + 1);
    if (q->a_auth != SV_AUTH_RESULT_NOT_SIGNED) val += (unsigned)removed;
    MC_CHECK(q->a_val == val, "validated", "%u validated, should be %u", q->a_val, val);
    if (q->a_auth == SV_AUTH_RESULT_NOT_SIGNED) MC_CHECK(q->a_pend == q->a_recv, "total_pending", "%u pending of %u", q->a_pend, q->a_recv);
    else
      MC_CHECK((int)q->a_pend >= left && (int)q->a_pend <= left + left_m, "total_pending", "%u pending, should be %d", q->a_pend, left);
    head = first_p >= 0 ? first_p : q->at + 1;
    mc_nonvacuous();
  }
  MC_CHECK(R.has_final, "no_final", "no report available");
  MC_CHECK(R.final.a_recv == (unsigned)S.len && R.final.a_val == val, "final_counts", "received %u of %d, validated %u of %u", R.final.a_recv, S.len,
      R.final.a_val, val);
  mc_state(run_fp(&R));
  mc_trace_ok();
}

static run_t R2;
static int worst(int acc, int now) { return acc <= SV_AUTH_RESULT_SIGNATURE_PRESENT || now < acc ? now : acc; }
static void overall(void);
static void p10(void)
{
  sim_begin();
  cfg_t c;
  mixed(&c, mc_tier() ? 2 : 1);
  overall();
}
static void p10_many(void)
{
  sim_begin();
  many();
  overall();
}
static void p10_joined(void)
{
  sim_begin();
  joined(true);
  overall();
}
static void overall(void)
{
  sim_play(&S, NULL, &R);
  mc_note("%s", sim_run_str(&R));
  int acc = SV_AUTH_RESULT_NOT_SIGNED;
  bool changed = false, has = false;
  int64_t t0 = 0, t1 = 0;
  for (int i = 0; i < R.nrep; i++) {
    const rep_t *q = &R.rep[i];
    acc = worst(acc, q->auth);
    changed |= q->pk_changed;
    if (q->has_ts) {
      if (!has) t0 = q->ts;
      has = true;
      t1 = q->ts;
    }
    MC_CHECK(q->a_auth == acc, "overall", "report %d: overall %s, but the worst so far is %s", i, auth_str(q->a_auth), auth_str(acc));
    MC_CHECK(q->a_pk_changed == changed, "overall_key", "report %d: overall public key changed %d, should be %d", i, q->a_pk_changed, changed);
    MC_CHECK(q->a_has_ts == has && (!has || (q->a_first == t0 && q->a_last == t1)), "overall_time", "report %d: overall timestamps %ld %ld, should be %ld %ld", i,
        (long)q->a_first, (long)q->a_last, (long)t0, (long)t1);
    if (q->pk_changed) MC_CHECK(q->auth == SV_AUTH_RESULT_NOT_OK, "key_changed_ok", "public key changed, but %s", auth_str(q->auth));
    mc_nonvacuous();
  }
  MC_CHECK(R.final.a_auth == acc, "overall_final", "overall %s, but the worst was %s", auth_str(R.final.a_auth), auth_str(acc));
  /* The same without requesting results on the way, but looking at the report now and then. */
  int look = mc_choose(3, "look");
  sim_run_init(&R2);
  signed_video_t *sv = signed_video_create(S.codec);
  for (int i = 0; i < S.len; i++) {
    int rc = signed_video_add_nalu_and_authenticate(sv, S.n[i].data, S.n[i].size, NULL);
    mc_op();
    MC_CHECK(rc == R.rc[i], "observer_rc", "NALU %d: %d if the result is requested, %d otherwise", i, R.rc[i], rc);
    if (look && i % look == 0) {
      sim_final(sv, &R2);
      MC_CHECK(R2.has_final, "no_report", "no report available");
      const rep_t *q = NULL, *x = &R2.final;
      for (int k = 0; k < R.nrep && R.rep[k].at <= i; k++) q = &R.rep[k];
      MC_CHECK(x->a_recv == (unsigned)i + 1, "observer_received", "received %u, should be %d", x->a_recv, i + 1);
      if (q) {
        MC_CHECK(x->auth == q->auth && x->a_auth == q->a_auth && x->a_val == q->a_val && x->exp == q->exp && x->recv == q->recv && x->pend == q->pend &&
                x->pk_changed == q->pk_changed && x->a_first == q->a_first && x->a_last == q->a_last,
            "observer_report", "report fetched at NALU %d differs from the one given at %d: %s/%s vs %s/%s", i, q->at, auth_str(x->auth), auth_str(x->a_auth),
            auth_str(q->auth), auth_str(q->a_auth));
        MC_CHECK(!strcmp(x->vstr, q->vstr) && !strcmp(x->nstr, q->nstr) && !strcmp(x->fw, q->fw) && !strcmp(x->sn, q->sn), "observer_strings",
            "report fetched at NALU %d: '%s', given '%s'", i, x->vstr, q->vstr);
      } else
        MC_CHECK(x->a_auth == SV_AUTH_RESULT_NOT_SIGNED && x->auth == SV_AUTH_RESULT_NOT_SIGNED, "observer_early", "report without any result is %s", auth_str(x->auth));
    }
  }
  sim_final(sv, &R2);
  signed_video_free(sv);
  const rep_t *x = &R2.final, *q = &R.final;
  MC_CHECK(R2.has_final && x->a_auth == q->a_auth && x->a_recv == q->a_recv && x->a_val == q->a_val && x->a_pend == q->a_pend && x->a_first == q->a_first &&
          x->a_last == q->a_last && x->auth == q->auth && !strcmp(x->vstr, q->vstr),
      "observer_final", "final report differs if no results are requested: %s vs %s", auth_str(x->a_auth), auth_str(q->a_auth));
  mc_state(run_fp(&R));
  mc_trace_ok();
}

/* ---------------------------------------------------------------- P11 keys */
static const int kKeys[] = {0, 1, 2, 4, 3};
/* A public key is, or is not, part of the stream and is, or is not, set by the user. */
static void p11_manual(void)
{
  sim_begin();
  cfg_t c = {0};
  static const char *hashes[] = {NULL, "sha512"};
  c.codec = mc_choose(2, "codec");
  c.level = mc_choose(2, "level");
  c.key = kKeys[mc_choose(4, "key")];
  c.hash = hashes[mc_choose(2, "hash")];
  c.no_pubkey = mc_choose(2, "no_pubkey");
  c.recurrence = mc_choose(2, "recurrence") ? 4 : 0;
  c.pad = 4;
  int man = mc_choose(6, "manual");
  man = man == 5 ? -1 : kKeys[man];
  const char *d = kDelays[mc_choose(mc_tier() ? 4 : 2, "delay")];
  sim_sign_cached(&c, "IPPIPPIPIPPIPIPIPP", d, &S);
  mc_note("key %d hash %s, in stream %d, set manually %d: %s", c.key, c.hash ? c.hash : "-", !c.no_pubkey, man, sim_types(&S));
  sim_play(&S, man >= 0 ? sim_pub_key(man) : NULL, &R);
  mc_note("%s", sim_run_str(&R));
  oracle_sound(&S, &R, &D);
  bool right = man == c.key || (!c.no_pubkey && man < 0);
  if (right) {
    oracle_no_error(&R);
    MC_CHECK(R.final.a_auth == SV_AUTH_RESULT_OK && !R.final.a_pk_changed, "right_key", "right key, but %s", auth_str(R.final.a_auth));
    mc_nonvacuous();
  } else if (c.no_pubkey) {
    /* Wrong key or none: nothing may be authentic. */
    MC_CHECK(D.num_auth == 0 && D.num_ok + D.num_missing == 0, "wrong_key_ok", "%d pictures authentic without the right key", D.num_auth);
    for (int i = 0; i < S.len; i++)
      MC_CHECK(S.n[i].type != 'S' || D.st[i] != '.', "wrong_key_sei", "SEI %d authentic without the right key", i);
    MC_CHECK(R.final.a_auth != SV_AUTH_RESULT_OK, "wrong_key_final", "overall OK without the right key");
    if (man >= 0) {
      MC_CHECK(R.final.a_auth == SV_AUTH_RESULT_NOT_OK, "wrong_key_unreported", "overall %s with a wrong key", auth_str(R.final.a_auth));
      mc_nonvacuous();
    }
  } else {
    /* The key in the stream rules, but differs from what the user expects. */
    oracle_no_error(&R);
    MC_CHECK(R.final.a_pk_changed && R.final.a_auth == SV_AUTH_RESULT_NOT_OK, "other_key_unreported",
        "stream signed with another key than the one set: overall %s, changed %d", auth_str(R.final.a_auth), R.final.a_pk_changed);
    mc_nonvacuous();
  }
  mc_state(run_fp(&R));
  mc_trace_ok();
}

static stream_t X1, X2;
/* The key changes within a stream. */
static void p11_change(void)
{
  sim_begin();
  cfg_t c = {0}, e;
  c.codec = mc_choose(2, "codec");
  c.level = mc_choose(2, "level");
  c.pad = 4;
  c.after = mc_choose(2, "after");
  c.key = kKeys[mc_choose(mc_tier() ? 5 : 4, "key")];
  e = c;
  e.salt = 3;
  e.key = kKeys[mc_choose(mc_tier() ? 5 : 4, "other")];
  if (e.key == c.key) mc_prune();
  e.no_pubkey = mc_choose(2, "without key");
  int manual = mc_choose(2, "manual"), back = mc_choose(2, "back");
  const char *d = kDelays[mc_choose(mc_tier() ? 4 : 2, "delay")];
  sim_sign_cached(&c, "IPPIPPIPIPPIPIP", d, &X1);
  sim_sign_cached(&e, "IPIPPIPIPIPPIPIP", d, &X2);
  int a = mc_choose(X1.len, "end of first"), b = mc_choose(X2.len, "start of second");
  if (X1.n[a].type != 'I' || X2.n[b].type != 'I') mc_prune();
  if (!manual && !seis_before(&X1, a)) mc_prune();
  S.codec = c.codec;
  S.len = 0;
  for (int i = 0; i < a; i++) sim_append(&S, X1.n[i]);
  int at = S.len;
  for (int i = b; i < X2.len; i++) sim_append(&S, X2.n[i]);
  int end = S.len;
  if (back)
    for (int i = a; i < X1.len; i++) sim_append(&S, X1.n[i]);
  mc_note("key %d, then key %d (%s) from %d, back %d: %s", c.key, e.key, e.no_pubkey ? "not in stream" : "in stream", at, back, sim_types(&S));
  sim_play(&S, manual ? sim_pub_key(c.key) : NULL, &R);
  mc_note("%s", sim_run_str(&R));
  oracle_sound(&S, &R, &D);
  oracle_no_error(&R);
  int other = 0;
  for (int i = at; i < end; i++) other += S.n[i].type == 'S';
  if (other < 3) mc_prune();
  mc_nonvacuous();
  bool told = false;
  for (int i = 0; i < R.nrep; i++) {
    told |= R.rep[i].pk_changed;
    if (R.rep[i].at >= end) MC_CHECK(R.rep[i].a_auth == SV_AUTH_RESULT_NOT_OK, "change_forgotten", "overall %s after the key changed", auth_str(R.rep[i].a_auth));
  }
  MC_CHECK(R.final.a_auth == SV_AUTH_RESULT_NOT_OK, "change_unreported", "overall %s though the key changed", auth_str(R.final.a_auth));
  if (e.no_pubkey) {
    MC_CHECK(!told || back, "change_wrongly_told", "key change reported, but there is no other key");
    for (int i = at; i < end; i++) MC_CHECK(D.st[i] != '.' , "other_key_authentic", "NALU %d signed with an unknown key is authentic", i);
  } else {
    MC_CHECK(R.final.a_pk_changed, "change_flag", "change of the public key is not indicated");
  }
  mc_state(run_fp(&R));
  mc_trace_ok();
}

/* The same pictures, but some SEIs are made with another key; and a picture may be lost. */
static void p11_resigned(void)
{
  sim_begin();
  cfg_t c = {.pad = 4}, e;
  c.codec = mc_choose(2, "codec");
  c.level = mc_choose(2, "level");
  c.key = kKeys[mc_choose(2, "key")];
  e = c;
  e.key = kKeys[mc_choose(mc_tier() ? 5 : 3, "other")];
  if (e.key == c.key) mc_prune();
  int manual = mc_choose(2, "manual");
  static const char *kSpec[] = {"IPPIPPIPIPPIPIP", "IIIIIIII"};
  const char *spec = kSpec[mc_choose(2, "spec")];
  sim_sign_cached(&c, spec, NULL, &S);
  sim_sign_cached(&e, spec, NULL, &X2);
  int first = mc_choose(5, "first"), last = first + mc_choose(5, "number"), k = 0, n = 0, from = -1;
  if (!first && !manual) mc_prune();
  for (int i = 0; i < S.len; i++)
    if (S.n[i].type == 'S') n++;
  if (last >= n) mc_prune();
  for (int i = 0; i < S.len; i++) {
    if (S.n[i].type != 'S') continue;
    if (k >= first && k <= last) {
      if (from < 0) from = i;
      S.n[i] = sim_nalu_copy(&X2.n[i]);
      S.n[i].src = -1;
    }
    k++;
  }
  int lost = mc_choose(S.len + 1, "lost");
  if (lost < S.len) {
    if (S.n[lost].type != 'P') mc_prune();
    sim_remove(&S, lost);
    from -= lost < from;
  }
  if (seis_after(&S, from) < 3) mc_prune();
  mc_note("key %d, SEIs %d-%d with key %d, %d lost: %s", c.key, first, last, e.key, lost, sim_types(&S));
  sim_play(&S, manual ? sim_pub_key(c.key) : NULL, &R);
  mc_note("%s", sim_run_str(&R));
  oracle_no_error(&R);
  MC_CHECK(R.final.a_auth == SV_AUTH_RESULT_NOT_OK, "change_unreported", "overall %s though the key changed", auth_str(R.final.a_auth));
  MC_CHECK(R.final.a_pk_changed, "change_flag", "change of the public key is not indicated");
  mc_nonvacuous();
  mc_state(run_fp(&R));
  mc_trace_ok();
}

/* The key is only accepted before the session starts, once. */
static void p11_api(void)
{
  sim_begin();
  cfg_t c = {0};
  c.pad = 4;
  c.level = 1;
  sim_sign_cached(&c, "IPPIPPIPIPPIP", NULL, &S);
  signed_video_t *sv = signed_video_create(S.codec);
  sim_run_init(&R);
  bool set = false, started = false;
  int key = -1;
  for (int i = 0; i < S.len; i++) {
    int k = mc_choose(i < 4 ? 3 : 1, "key");
    if (k) {
      const char *pk = sim_pub_key(k == 1 ? 0 : 2);
      int rc = signed_video_set_public_key(sv, pk, strlen(pk));
      mc_op();
      MC_CHECK(rc == (set || started ? SV_NOT_SUPPORTED : SV_OK), "set_key", "setting a key %s%s returned %d", set ? "twice" : "once", started ? " after start" : "", rc);
      if (rc == SV_OK) key = k == 1 ? 0 : 2, set = true;
    }
    sim_feed(sv, S.n[i].data, S.n[i].size, i, &R);
    started = true;
  }
  sim_final(sv, &R);
  mc_note("%s", sim_run_str(&R));
  oracle_no_error(&R);
  oracle_sound(&S, &R, &D);
  MC_CHECK(R.final.a_auth == (key == 2 ? SV_AUTH_RESULT_NOT_OK : SV_AUTH_RESULT_OK), "set_key_effect", "overall %s with key %d", auth_str(R.final.a_auth), key);
  signed_video_free(sv);
  mc_nonvacuous();
  mc_state(run_fp(&R));
  mc_trace_ok();
}

/* ---------------------------------------------------------------- P12 metadata */
static char *mkstr(int len, int c0)
{
  static char pool[24][700];
  static int k;
  char *b = pool[k++ % 24];
  if (len < 0) return NULL;
  for (int i = 0; i < len; i++) b[i] = (char)(c0 + i % 5);
  b[len] = 0;
  return b;
}
static void same_str(const char *what, const char *got, const char *set)
{
  char want[300];
  snprintf(want, 255, "%s", set ? set : "");
  MC_CHECK(!strcmp(got, want), "product_info", "%s is reported as '%.20s' (%zu characters), but was set to '%.20s' (%zu)", what, got, strlen(got), set ? set : "(null)",
      set ? strlen(set) : 0);
}
static void p12_product(void)
{
  sim_begin();
  cfg_t c = {0};
  c.product = 1;
  c.pad = 4;
  c.level = mc_choose(2, "level");
  c.codec = mc_choose(2, "codec");
  c.no_epb = mc_choose(3, "no_epb");
  static const int kLen[] = {-1, 0, 1, 2, 253, 254, 255, 256, 600};
  const char *f[2][5], *now[5];
  int a = mc_choose(5, "field"), b = mc_choose(5, "other field");
  if (b < a) mc_prune();
  int la = kLen[mc_choose(9, "length")], lb = a == b ? la : kLen[mc_choose(9, "other length")];
  for (int i = 0; i < 5; i++) {
    int l = i == a ? la : i == b ? lb : 3 + i;
    f[0][i] = mkstr(l, 'a' + i * 4);
    f[1][i] = mkstr(l < 0 ? 4 : l == 600 ? 0 : l, 'A' + i * 4);
  }
  int second = mc_choose(2, "set again");
  mc_note("fields %d and %d have %d and %d characters, set again: %d", a, b, la, lb, second);
  signed_video_t *sv = sim_signer(&c);
  S.codec = c.codec;
  S.len = S.num_seis = 0;
  int rc = signed_video_set_product_info(sv, f[0][0], f[0][1], f[0][2], f[0][3], f[0][4]);
  MC_CHECK(rc == SV_OK, "set_product_info", "returned %d", rc);
  memcpy(now, f[0], sizeof(now));
  sim_sign_with(sv, &c, "IPIP", &S, 0);
  if (second) {
    rc = signed_video_set_product_info(sv, f[1][0], f[1][1], f[1][2], f[1][3], f[1][4]);
    MC_CHECK(rc == SV_OK, "set_product_info", "returned %d", rc);
  }
  sim_sign_with(sv, &c, "IPIPI", &S, 10);
  sim_pull(sv, &c, NULL, &S);
  signed_video_free(sv);
  sim_play(&S, NULL, &R);
  oracle_no_error(&R);
  int ok = 0;
  for (int i = 0; i < R.nrep; i++) {
    const rep_t *q = &R.rep[i];
    if (q->auth != SV_AUTH_RESULT_OK) continue;
    /* One SEI per GOP; the second setting applies from the second SEI on. */
    const char **w = second && ok >= 1 ? f[1] : f[0];
    ok++;
    same_str("hardware id", q->hw, w[0]);
    same_str("firmware version", q->fw, w[1]);
    same_str("serial number", q->sn, w[2]);
    same_str("manufacturer", q->mf, w[3]);
    same_str("address", q->ad, w[4]);
    MC_CHECK(!strcmp(q->ver_this, signed_video_get_version()) && !strcmp(q->ver_sign, signed_video_get_version()), "version", "versions %s and %s, should be %s",
        q->ver_sign, q->ver_this, signed_video_get_version());
    mc_nonvacuous();
  }
  MC_CHECK(ok == 4, "product_not_ok", "%d OK results of 4", ok);
  mc_state(mc_hash(R.final.hw, strlen(R.final.hw), mc_hash(R.final.ad, strlen(R.final.ad), 0)));
  mc_trace_ok();
}

static void p12_time(void)
{
  sim_begin();
  cfg_t c = {0};
  c.pad = 4;
  c.level = mc_choose(2, "level");
  c.no_epb = mc_choose(3, "no_epb");
  static const int64_t kTs[] = {-77, 0, 1, -1, INT64_MIN, INT64_MAX, 0x0000000100000003ll, 1700000000000000ll};
  int64_t ts[8];
  int has[8] = {0}, ni = 0;
  signed_video_t *sv = sim_signer(&c);
  S.codec = c.codec;
  S.len = S.num_seis = 0;
  int n = mc_tier() ? 5 : 4;
  for (int g = 0; g <= n; g++) {
    for (int k = 0; k < 3; k++) {
      char t = "IPZ"[k];
      if (t == 'Z' && g % 2) continue;
      nalu_t x = sim_nalu(&c, t, g * 3 + k);
      x.src = 1;
      int64_t v = 4711 + g;
      const int64_t *p = &v; /* timestamps of other NALUs are disregarded */
      sim_pull(sv, &c, &x, &S);
      if (t == 'I') {
        int w = g < n && g > 0 ? mc_choose(8, "ts") : 7;
        has[g] = w != 0;
        v = ts[g] = kTs[w];
        if (!w) p = NULL;
        ni++;
      }
      int rc = signed_video_add_nalu_for_signing_with_timestamp(sv, x.data, x.size, p);
      MC_CHECK(rc == SV_OK, "sign_error", "adding a NALU returned %d", rc);
      sim_append(&S, x);
    }
  }
  sim_pull(sv, &c, NULL, &S);
  signed_video_free(sv);
  sim_play(&S, NULL, &R);
  mc_note("%s", sim_run_str(&R));
  oracle_no_error(&R);
  int g = 0;
  bool any = false;
  int64_t first = 0, last = 0;
  for (int i = 0; i < R.nrep; i++) {
    const rep_t *q = &R.rep[i];
    if (q->auth != SV_AUTH_RESULT_OK) continue;
    g++; /* the SEI is generated on the I-slice of the next GOP and holds the timestamp of that */
    MC_CHECK(q->has_ts == (bool)has[g] && (!has[g] || q->ts == ts[g]), "timestamp", "result %d: timestamp %ld (%d), should be %ld (%d)", g, (long)q->ts, q->has_ts, (long)ts[g],
        has[g]);
    if (has[g]) {
      if (!any) first = ts[g];
      any = true;
      last = ts[g];
    }
    MC_CHECK(q->a_has_ts == any && (!any || (q->a_first == first && q->a_last == last)), "timestamps", "result %d: timestamps %ld to %ld, should be %ld to %ld", g,
        (long)q->a_first, (long)q->a_last, (long)first, (long)last);
    mc_nonvacuous();
  }
  MC_CHECK(g == n, "time_not_ok", "%d OK results of %d", g, n);
  mc_state(mc_hash(ts, sizeof(ts), 1));
  mc_trace_ok();
}

/* ---------------------------------------------------------------- P13 framing */
/* The same NALU with another start code and with trailing zeros. */
static nalu_t reframe(const nalu_t *n, int how)
{
  nalu_t r = *n;
  int sc = how >= 4 ? 0 : how & 1 ? 3 : 4, zeros = how == 5 ? 2 : how & 2 ? (how & 1 ? 3 : 1) : 0;
  r.size = n->size - 4 + sc + zeros;
  r.data = sim_alloc(r.size);
  memset(r.data, 0, r.size);
  if (sc) r.data[sc - 1] = 1;
  memcpy(r.data + sc, n->data + 4, n->size - 4);
  return r;
}
static void p13_sign(void)
{
  sim_begin();
  cfg_t c = {0};
  c.codec = mc_choose(2, "codec");
  c.level = mc_choose(2, "level");
  c.pad = 4;
  static const char *spec = "IPPIpIiI";
  sim_sign_cached(&c, spec, NULL, &O);
  signed_video_t *sv = sim_signer(&c);
  Q.len = Q.num_seis = 0;
  Q.codec = c.codec;
  for (int i = 0; spec[i]; i++) {
    nalu_t n = sim_nalu(&c, spec[i], i);
    n = reframe(&n, i < (mc_tier() ? 7 : 6) ? mc_choose(i == 2 || i == 3 ? 6 : 5, "framing") : 0);
    sim_pull(sv, &c, &n, &Q);
    int rc = signed_video_add_nalu_for_signing(sv, n.data, n.size);
    mc_op();
    MC_CHECK(rc == SV_OK, "sign_error", "NALU %d: %d", i, rc);
    sim_append(&Q, n);
  }
  signed_video_free(sv);
  MC_CHECK(Q.len == O.len, "framing_seis", "%d NALUs and SEIs, but %d with other framing", O.len, Q.len);
  int k = 0;
  for (int i = 0; i < O.len; i++) {
    MC_CHECK(O.n[i].type == Q.n[i].type, "framing_order", "NALU %d is %c, but %c with other framing", i, O.n[i].type, Q.n[i].type);
    if (O.n[i].type != 'S') continue;
    k++;
    /* All but the signature. */
    size_t n = O.n[i].size > 90 ? O.n[i].size - 90 : 0;
    MC_CHECK(n && Q.n[i].size > n && !memcmp(O.n[i].data, Q.n[i].data, n), "framing_sei", "SEI %d differs with other framing", i);
  }
  MC_CHECK(k == 2, "framing_count", "%d SEIs", k);
  /* And it is authentic. */
  sim_play(&Q, NULL, &R);
  oracle_no_error(&R);
  MC_CHECK(R.final.a_auth == SV_AUTH_RESULT_OK, "framing_auth", "overall %s", auth_str(R.final.a_auth));
  mc_nonvacuous();
  mc_state(run_fp(&R));
  mc_trace_ok();
}
static void p13_auth(void)
{
  sim_begin();
  cfg_t c = {0};
  c.codec = mc_choose(2, "codec");
  c.level = mc_choose(2, "level");
  c.pad = 4;
  c.no_epb = mc_choose(3, "no_epb");
  int tamper = mc_choose(3, "tamper");
  sim_sign_cached(&c, "IPIpPIIP", NULL, &S);
  if (tamper == 1) edit_at(&S, &c, E_MOD, 4);
  if (tamper == 2) sim_remove(&S, 4);
  sim_play(&S, NULL, &R);
  for (int i = 0; i < S.len; i++) S.n[i] = reframe(&S.n[i], i > 1 && i < 8 ? mc_choose(i < 6 ? 5 + mc_tier() : 2 + 2 * mc_tier(), "framing") : i == 8 ? 4 : 3);
  sim_play(&S, NULL, &R2);
  mc_note("%s", sim_run_str(&R2));
  oracle_no_error(&R2);
  MC_CHECK(R.nrep == R2.nrep, "framing_reports", "%d reports, but %d with other framing", R.nrep, R2.nrep);
  for (int i = 0; i < R.nrep; i++)
    MC_CHECK(R.rep[i].auth == R2.rep[i].auth && R.rep[i].a_auth == R2.rep[i].a_auth && R.rep[i].a_val == R2.rep[i].a_val && !strcmp(R.rep[i].vstr, R2.rep[i].vstr) &&
            !strcmp(R.rep[i].nstr, R2.rep[i].nstr),
        "framing_result", "report %d is %s %s, but %s %s with other framing", i, auth_str(R.rep[i].auth), R.rep[i].vstr, auth_str(R2.rep[i].auth), R2.rep[i].vstr);
  mc_nonvacuous();
  mc_state(run_fp(&R));
  mc_trace_ok();
}

static const char *kAssume[] = {
    "signing side is the real library driven through the public API with deterministic test keys",
    "OpenSSL is trusted; its randomness is replaced by a deterministic generator", NULL};
static const mc_scenario kP05[] = {
    {"pictures", p05_pictures, "every picture modified; every P dropped, duplicated, swapped with the next, or preceded by a foreign one; 2 (3) NALU sequences, 3 (4) latency patterns, both codecs, levels and SEI placements", 0, 0, -1, 0},
    {"seis", p05_seis, "every SEI dropped, repeated, every byte damaged, every field shortened or removed, unknown fields added; 2 (3) NALU sequences, 3 latency patterns, both levels and SEI placements", 0, 0, -1, 0},
};
static const mc_scenario kP06[] = {
    {"local", p06, "every P-slice modified, dropped, duplicated or preceded by a foreign one; 2 (3) NALU sequences, 3 (4) latency patterns, both codecs, levels and SEI placements", 0, 0, -1, 0},
};
static const mc_scenario kP07[] = {
    {"unsigned", p07, "all sequences of 6 (7) NALUs over 6 (8) NALU types, both codecs, with and without a public key set", 0, 0, -1, 0},
};
static const mc_scenario kP08[] = {
    {"parts", p08, "every start (at an I-slice) and end of 2 (3) recordings, 3 (4) latency patterns, both codecs, levels and SEI placements", 0, 0, -1, 0},
    {"config", p08_config, "every start (at an I-slice) and end of a recording with every recurrence 1-3 (4), with and without emulation prevention, 2 (3) hash algorithms, EC and RSA, 2 (3) latency patterns, both levels", 0, 0, -1, 0},
};
static const mc_scenario kP09[] = {
    {"accounting", p09, "3 (4) sequences with all NALU types, 4 latency patterns, both codecs, levels and SEI placements, combined with no edit or any edit of any NALU (thorough: and any edit of a SEI on top)", 0, 0, -1, 0},
    {"many", p09_many, "GOPs of 16 lengths of 60..300 NALUs, no edit, or any of 6 at 3 places, with and without golden SEI, 2 latencies; codec x level x SEI placement", 0, 0, -1, 0},
    {"joined", p09_joined, "two recordings joined at any GOP: keys (2 x 3) equal or not, timestamps none, ascending, or descending from 0; 2 latencies, codec x level", 0, 0, -1, 0},
};
static const mc_scenario kP10[] = {
    {"overall", p10, "as for P09, each also validated without requesting results, and with reports fetched at every, or every other NALU", 0, 0, -1, 0},
    {"many", p10_many, "GOPs of 16 lengths of 60..300 NALUs, no edit, or any of 6 at 3 places, with and without golden SEI, 2 latencies; codec x level x SEI placement; reports fetched as above", 0, 0, -1, 0},
    {"joined", p10_joined, "two recordings joined at any GOP: keys (2 x 3) equal or not, timestamps none, ascending, or descending from 0, with and without golden SEI; 2 latencies, codec x level; reports fetched as above", 0, 0, -1, 0},
};
static const mc_scenario kP11[] = {
    {"manual", p11_manual, "4 signing keys (EC P-256, P-384, RSA) x key in the stream or not x 6 manually set keys (right, wrong, other type, none) x codec x level x hash algorithm x recurrence x 2 (4) latency patterns", 0, 0, -1, 0},
    {"change", p11_change, "all joints at I-slices of two recordings signed with different keys (4 (5) x 4 (5) keys), the second with or without the key in the stream, with or without return to the first; codec x level x SEI placement x manual key x 2 (4) latency patterns", 0, 0, -1, 0},
    {"resigned", p11_resigned, "one or more SEIs (any range) of 2 videos made by another key, each P picture lost or none, key set by the user or not; both codecs and levels, 4 pairs of keys", 0, 0, -1, 0},
    {"api", p11_api, "all histories of setting one of two keys before each of the first 4 NALUs", 0, 0, -1, 0},
};
static const mc_scenario kP12[] = {
    {"product", p12_product, "9 x 9 lengths (none, 0, 1, 2, 253..256, 600) of every pair of the five strings, set once or changed in mid-stream; both levels, codecs and EPB modes", 0, 0, -1, 0},
    {"time", p12_time, "all assignments of 8 timestamps (none, 0, 1, -1, extremes, ...) to 3 (4) GOPs; both levels and EPB modes", 0, 0, -1, 0},
};
static const mc_scenario kP13[] = {
    {"sign", p13_sign, "all combinations of 5..6 framings (3, 4 byte or no start code, without and with trailing zeros) of 6 (7) NALUs to sign; both codecs and levels", 0, 0, -1, 0},
    {"auth", p13_auth, "all combinations of 5 (6) framings of 4, and 2 (4) of 2 NALUs to validate; authentic, modified and incomplete video; both codecs, levels and EPB modes", 0, 0, -1, 0},
};

#define PROP(id, as, sc) {id, as, sc, sizeof(sc) / sizeof(sc[0])}
static const mc_property kProps[] = {
    PROP("P05", kAssume, kP05),
    PROP("P06", kAssume, kP06),
    PROP("P07", kAssume, kP07),
    PROP("P08", kAssume, kP08),
    PROP("P09", kAssume, kP09),
    PROP("P10", kAssume, kP10),
    PROP("P11", kAssume, kP11),
    PROP("P12", kAssume, kP12),
    PROP("P13", kAssume, kP13),
};
int main(int argc, char **argv)
{
  sim_init();
  return mc_main(argc, argv, kProps, sizeof(kProps) / sizeof(kProps[0]));
}
