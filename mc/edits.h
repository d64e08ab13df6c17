/* Tampering: edits applied to a signed stream. */
#ifndef EDITS_H
#define EDITS_H
#include "oracle.h"

enum { E_MOD, E_DROP, E_DUP, E_INSP, E_INSI, E_SWAP, E_COPY, E_MOVE, E_NUM };
static const char *const kEditName[] = {"modify", "drop", "dup", "insertP", "insertI", "swap", "copy", "move"};

static inline void edit_mod(nalu_t *n, int byte, int mask)
{
  n->data[byte] ^= (uint8_t)mask;
  n->src = -1;
}

static nalu_t foreign(const cfg_t *c0, char type)
{
  cfg_t c = *c0;
  c.salt = 5;
  return sim_nalu(&c, type, 50);
}

static inline void edit_at(stream_t *s, const cfg_t *c, int op, int at)
{
  nalu_t t = s->n[at];
  if (op == E_MOD) edit_mod(&s->n[at], (int)s->n[at].size - 2, s->n[at].src < 0 ? 2 : 1);
  if (op == E_DROP) sim_remove(s, at);
  if (op == E_DUP) sim_insert(s, at, sim_nalu_copy(&s->n[at]));
  if (op == E_INSP || op == E_INSI) sim_insert(s, at, foreign(c, op == E_INSP ? 'P' : 'I'));
  if (op == E_SWAP) {
    s->n[at] = s->n[at + 1];
    s->n[at + 1] = t;
  }
}

static int edit_from; /* first NALU that may be edited */
/* Applies one edit chosen exhaustively, returns its position. |filter| selects the victims. */
static int edit_one(stream_t *s, const cfg_t *c, int nops, bool (*filter)(const nalu_t *))
{
  int op = mc_choose(nops, "edit");
  int at = edit_from + mc_choose(s->len - edit_from, "at");
  if (filter && !filter(&s->n[at])) mc_prune();
  int to = -1;
  switch (op) {
    case E_MOD:
      edit_mod(&s->n[at], (int)s->n[at].size - 2, s->n[at].src < 0 ? 2 : 1);
      break;
    case E_DROP:
      sim_remove(s, at);
      break;
    case E_DUP:
      sim_insert(s, at, sim_nalu_copy(&s->n[at]));
      break;
    case E_INSP:
      sim_insert(s, at, foreign(c, 'P'));
      break;
    case E_INSI:
      sim_insert(s, at, foreign(c, 'I'));
      break;
    case E_SWAP: {
      if (at + 1 >= s->len || (filter && !filter(&s->n[at + 1]))) mc_prune();
      nalu_t t = s->n[at];
      s->n[at] = s->n[at + 1];
      s->n[at + 1] = t;
      break;
    }
    case E_COPY:
      to = edit_from + mc_choose(s->len - edit_from, "to");
      sim_insert(s, to, sim_nalu_copy(&s->n[at]));
      break;
    case E_MOVE: {
      to = edit_from + mc_choose(s->len - edit_from, "to");
      nalu_t t = s->n[at];
      sim_remove(s, at);
      if (to > s->len) mc_prune();
      sim_insert(s, to, t);
      break;
    }
  }
  mc_note("%s at %d to %d", kEditName[op], at, to);
  if (op == E_COPY) return to;
  return to >= 0 && to < at ? to : at;
}

static bool pic_filter(const nalu_t *n) { return is_pic(n->type); }
static bool sei_filter(const nalu_t *n) { return n->type == 'S'; }

/* Number of SEIs in [a, len). */
static int seis_after(const stream_t *s, int a)
{
  int k = 0;
  for (int i = a; i < s->len; i++) k += s->n[i].type == 'S';
  return k;
}
static int seis_before(const stream_t *s, int a)
{
  int k = 0;
  for (int i = 0; i < a && i < s->len; i++) k += s->n[i].type == 'S';
  return k;
}
/* The picture NALUs of [a,b) are not the consecutive signed ones. */
static bool pics_differ(const stream_t *s, int a, int b)
{
  int cs = -2, cp = -2;
  for (int i = a; i < b && i < s->len; i++) {
    if (!is_pic(s->n[i].type)) continue;
    if (s->n[i].src < 0) return true;
    if (cs != -2 && (s->n[i].src != cs || s->n[i].pos != cp + 1)) return true;
    cs = s->n[i].src;
    cp = s->n[i].pos;
  }
  return false;
}
/* The first picture that is not the one that follows in the recording. */
static int first_change(const stream_t *s)
{
  for (int i = 0; i < s->len; i++)
    if (pics_differ(s, 0, i + 1)) return i;
  return -1;
}
#endif
