/* Camera (signing side) and player (validation side) simulators on top of the public API. */
#ifndef SIM_H
#define SIM_H
#include <stdbool.h>
#include <stdint.h>
#include <stdlib.h>
#include <string.h>
#include "lib/src/includes/signed_video_auth.h"
#include "lib/src/includes/signed_video_common.h"
#include "lib/src/includes/signed_video_openssl.h"
#include "lib/src/includes/signed_video_sign.h"
#include "mc.h"
#include "plugin.h"

#define MAX_NALUS 1200

typedef struct {
  uint8_t *data;
  size_t size;
  char type; /* I i P p V A Z O X: input NALUs, S: signed video SEI, G: golden SEI */
  int id; /* unique id among input NALUs, or SEI number */
  int gop; /* for input NALUs: index of the GOP (0..) the NALU belongs to; -1 before first I.
              For SEIs: order of generation. */
  int64_t ts;
  int src; /* identity of the signed stream this NALU belongs to; -1: foreign or modified */
  int pos; /* index among the hashable picture NALUs of the source stream; -1: none */
} nalu_t;

typedef struct {
  SignedVideoCodec codec;
  int len;
  int num_seis;
  nalu_t n[MAX_NALUS]; /* last: only |len| of them are kept of a stream in store */
} stream_t;

typedef struct {
  SignedVideoCodec codec;
  int level; /* SignedVideoAuthenticityLevel */
  int key; /* 0 EC P-256, 1 RSA, 2: other EC, 3: other RSA, 4: P-384 */
  const char *hash; /* NULL: default */
  int no_epb; /* 1: SEIs without emulation prevention, 2: the same, but it is added downstream */
  int golden;
  int max_sei;
  int recurrence; /* 0 = do not set */
  int no_pubkey;
  int product; /* 0 normal strings */
  int ts; /* timestamps present; 2: 0 in the first SEI, then less and less */
  int eos; /* set end of stream at the end */
  int salt; /* makes the NALU payloads of this stream differ from other streams */
  int pad; /* number of extra payload bytes in each picture NALU */
  int no_peek; /* fetch SEIs without peeking at the NALU */
  int old_api; /* fetch with the deprecated API */
  int after; /* fetch SEIs after adding a NALU and prepend them to it, instead of before adding it */
  int before; /* number of GOPs (of one I-slice) signed before, their SEIs and pictures thrown away */
} cfg_t;

extern const char *sim_priv_key(int key);
extern const char *sim_pub_key(int key);

/* Deterministic randomness for OpenSSL; call once, and rewind at the start of each execution. */
void sim_init(void);
void sim_begin(void);
uint64_t sim_rng(const uint64_t *set); /* its state */

uint8_t *sim_alloc(size_t n); /* freed by sim_begin() */
/* Build an input NALU. */
nalu_t sim_nalu(const cfg_t *c, char type, int id);
nalu_t sim_nalu_copy(const nalu_t *n);
/* Create an initialized signing session. */
signed_video_t *sim_signer(const cfg_t *c);
/* Pull completed SEIs and append to |out|. Returns number pulled. */
int sim_pull(signed_video_t *sv, const cfg_t *c, const nalu_t *peek, stream_t *out);
/* Sign |n| GOPs of one I-slice; |seen| is called with each NALU of the stream. Returns the next id. */
int sim_sign_many(signed_video_t *sv, const cfg_t *c, int n, void (*seen)(const nalu_t *));
/* Sign the stream described by |spec| (one char per NALU). */
void sim_sign(const cfg_t *c, const char *spec, stream_t *out);
/* Continue signing with an existing session. */
void sim_sign_with(signed_video_t *sv, const cfg_t *c, const char *spec, stream_t *out, int id0);
void sim_append(stream_t *s, nalu_t n);
void sim_insert(stream_t *s, int at, nalu_t n);
void sim_remove(stream_t *s, int at);
void sim_copy_stream(stream_t *dst, const stream_t *src); /* deep copy */
const char *sim_types(const stream_t *s);
/* As sim_sign(), but memoized (signing is deterministic). |delay| SEI latency in NALUs: one digit per
 * SEI, the last one is repeated; NULL: none. Each call returns fresh copies of the NALUs. */
void sim_sign_cached(const cfg_t *c, const char *spec, const char *delay, stream_t *out);

#define STRMAX 2600
typedef struct {
  int at; /* index of NALU that triggered the report, -1: final report */
  int auth, exp, recv, pend, pkval;
  bool pk_changed, has_ts;
  int64_t ts;
  char vstr[STRMAX], nstr[STRMAX];
  int a_auth, a_pkval;
  unsigned a_recv, a_val, a_pend;
  bool a_pk_changed, a_has_ts;
  int64_t a_first, a_last;
  char hw[300], fw[300], sn[300], mf[300], ad[300];
  char ver_sign[40], ver_this[40];
} rep_t;

typedef struct {
  int nrep;
  rep_t rep[400];
  int rc[MAX_NALUS];
  int nrc;
  int first_error; /* index of first NALU with rc != SV_OK, or -1 */
  bool has_final;
  rep_t final;
} run_t;

void sim_read_report(const signed_video_authenticity_t *a, int at, rep_t *r);
/* Feed one NALU and record a report, if any. */
int sim_feed(signed_video_t *sv, const uint8_t *d, size_t n, int at, run_t *run);
/* Feed a whole stream to a new session. |pub|: public key to set manually or NULL. */
void sim_play(const stream_t *s, const char *pub, run_t *run);
void sim_run_init(run_t *run);
void sim_final(signed_video_t *sv, run_t *run);
/* Worst latest result over all reports by the documented order, and a printable log. */
bool sim_any(const run_t *r, int auth);
const char *sim_run_str(const run_t *r);
const char *auth_str(int a);
/* Index into the played stream of each character of a report, by aligning from the end (the last
 * character is the NALU that triggered the report). -1 for missing items. */
void sim_align(const rep_t *r, int *idx);
#endif
