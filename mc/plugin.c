#include "plugin.h"
#include <stdlib.h>
#include <string.h>
#include "lib/src/includes/signed_video_signing_plugin.h"

/* The repository's unthreaded plugin, compiled with renamed entry points. */
SignedVideoReturnCode real_sign(void *, const uint8_t *, size_t);
bool real_get_signature(void *, uint8_t *, size_t, size_t *, SignedVideoReturnCode *);
void *real_setup(const void *, size_t);
void real_teardown(void *);
int real_init(void *);
void real_exit(void *);

mcp_t mcp;
#define QMAX 128
typedef struct {
  void *real;
  int n;
  struct {
    uint8_t hash[128];
    size_t size;
    int due, idx, outcome;
  } q[QMAX];
} sess_t;

void mcp_reset(void) { memset(&mcp, 0, sizeof(mcp)); mcp.error = SV_EXTERNAL_ERROR; }
void mcp_tick(void) { mcp.tick++; }

SignedVideoReturnCode sv_signing_plugin_sign(void *handle, const uint8_t *hash, size_t hash_size)
{
  sess_t *s = handle;
  if (!s || !hash || !hash_size) return SV_INVALID_PARAMETER;
  int idx = mcp.num_requests++;
  int oc = mcp.outcome ? mcp.outcome(idx) : 0;
  if (oc == 1) return mcp.error;
  if (s->n >= QMAX || hash_size > sizeof(s->q[0].hash)) return SV_NOT_SUPPORTED;
  memcpy(s->q[s->n].hash, hash, hash_size);
  s->q[s->n].size = hash_size;
  s->q[s->n].idx = idx;
  s->q[s->n].outcome = oc;
  s->q[s->n].due = mcp.tick + (mcp.delay ? mcp.delay(idx) : 0);
  s->n++;
  return SV_OK;
}

bool sv_signing_plugin_get_signature(void *handle,
    uint8_t *signature,
    size_t max_signature_size,
    size_t *written_signature_size,
    SignedVideoReturnCode *error)
{
  sess_t *s = handle;
  if (error) *error = SV_OK;
  if (!s || !signature || !written_signature_size) return false;
  if (s->n == 0 || s->q[0].due > mcp.tick) return false;
  int oc = s->q[0].outcome;
  bool ret;
  if (oc == 2) {
    if (error) *error = mcp.error;
    ret = false;
  } else if (oc == 3) {
    *written_signature_size = 0;
    ret = true;
  } else {
    if (real_sign(s->real, s->q[0].hash, s->q[0].size) != SV_OK) {
      if (error) *error = SV_EXTERNAL_ERROR;
      ret = false;
    } else
      ret = real_get_signature(s->real, signature, max_signature_size, written_signature_size, error);
  }
  s->n--;
  memmove(&s->q[0], &s->q[1], sizeof(s->q[0]) * s->n);
  return ret;
}

void *sv_signing_plugin_session_setup(const void *private_key, size_t private_key_size)
{
  if (mcp.setup_fails) return NULL;
  void *r = real_setup(private_key, private_key_size);
  if (!r) return NULL;
  sess_t *s = calloc(1, sizeof(*s));
  if (!s) {
    real_teardown(r);
    return NULL;
  }
  s->real = r;
  mcp.live_sessions++;
  return s;
}

void sv_signing_plugin_session_teardown(void *handle)
{
  sess_t *s = handle;
  if (!s) return;
  mcp.live_sessions--;
  real_teardown(s->real);
  free(s);
}

int sv_signing_plugin_init(void *u) { return real_init(u); }
void sv_signing_plugin_exit(void *u) { real_exit(u); }
