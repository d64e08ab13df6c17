/* Controllable signing plugin wrapping the repository's unthreaded plugin. */
#ifndef MC_PLUGIN_H
#define MC_PLUGIN_H
#include <stdbool.h>
#include <stdint.h>
#include "lib/src/includes/signed_video_common.h"
typedef struct {
  /* Called when request number |idx| (0..) is queued; returns number of ticks until the signature
   * is available. NULL: available at once. */
  int (*delay)(int idx);
  /* Outcome of signing request |idx|: 0 success, 1 the sign call fails with |error|, 2 the signature
   * is reported as an error when it is due, 3 signature silently not produced (size 0). */
  int (*outcome)(int idx);
  SignedVideoReturnCode error;
  int num_requests;
  int tick;
  int setup_fails;
  int live_sessions;
} mcp_t;
extern mcp_t mcp;
void mcp_reset(void);
void mcp_tick(void);
#endif
