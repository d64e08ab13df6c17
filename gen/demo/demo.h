/* Small camera and player on top of the public API, for demonstrations. */
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include "lib/src/includes/signed_video_auth.h"
#include "lib/src/includes/signed_video_common.h"
#include "lib/src/includes/signed_video_openssl.h"
#include "lib/src/includes/signed_video_sign.h"

typedef struct { uint8_t *d; size_t n; char t; } nal;
typedef struct { nal v[4000]; int n; } vid;
static char *g_priv; static size_t g_priv_n; static pem_pkey_t g_pub;

static nal mk(SignedVideoCodec c, char t, int id)
{
  uint8_t b[64] = {0, 0, 0, 1};
  int n = 4;
  if (c == SV_CODEC_H264) {
    b[n++] = t == 'I' || t == 'i' ? 0x65 : t == 'P' || t == 'p' ? 0x41 : t == 'V' ? 0x67 : t == 'Z' ? 0x06 : 0x09;
  } else {
    b[n++] = t == 'I' || t == 'i' ? 0x26 : t == 'P' || t == 'p' ? 0x02 : t == 'V' ? 0x42 : t == 'Z' ? 0x4e : 0x46;
    b[n++] = 0x01;
  }
  if (t == 'Z') { b[n++] = 0x05; b[n++] = 18; for (int i = 0; i < 18; i++) b[n++] = 0x33; b[n++] = 0x80; }
  else {
    b[n++] = t == 'i' || t == 'p' ? 0x11 : 0xff;
    b[n++] = 0x55; b[n++] = (uint8_t)(id >> 8) | 0x40; b[n++] = (uint8_t)id; b[n++] = 0x77; b[n++] = 0x80;
  }
  nal r = {malloc(n), n, t};
  memcpy(r.d, b, n);
  return r;
}
static void put(vid *v, nal x) { v->v[v->n++] = x; }
static nal dup_nal(nal x) { nal r = x; r.d = malloc(x.n); memcpy(r.d, x.d, x.n); return r; }
static void del(vid *v, int at) { memmove(&v->v[at], &v->v[at + 1], sizeof(nal) * (v->n - at - 1)); v->n--; }
static void ins(vid *v, int at, nal x) { memmove(&v->v[at + 1], &v->v[at], sizeof(nal) * (v->n - at)); v->v[at] = x; v->n++; }
static int find(const vid *v, char t, int k) { for (int i = 0; i < v->n; i++) if (v->v[i].t == t && k-- == 0) return i; return -1; }

static void keys(void)
{
  if (g_priv) return;
  if (signed_video_generate_ecdsa_private_key(NULL, &g_priv, &g_priv_n) != SV_OK || !g_priv) { puts("no key"); exit(2); }
}
static signed_video_t *camera(SignedVideoCodec c, int level)
{
  keys();
  signed_video_t *s = signed_video_create(c);
  if (!s || signed_video_set_private_key_new(s, g_priv, g_priv_n) != SV_OK) { puts("no camera"); exit(2); }
  signed_video_set_authenticity_level(s, level);
  signed_video_set_product_info(s, "hw", "fw", "sn", "mf", "ad");
  return s;
}
/* All available SEIs that may precede |peek|. */
static int pull(signed_video_t *s, const nal *peek, vid *out)
{
  int k = 0;
  for (;;) {
    size_t n = 0;
    int rc = signed_video_get_sei(s, NULL, &n, NULL, peek ? peek->d : NULL, peek ? peek->n : 0, NULL);
    if (rc != SV_OK || !n) return rc == SV_OK ? k : -1;
    nal x = {malloc(n), n, 'S'};
    if (signed_video_get_sei(s, x.d, &x.n, NULL, peek ? peek->d : NULL, peek ? peek->n : 0, NULL) != SV_OK) return -1;
    put(out, x);
    k++;
  }
}
static void film(signed_video_t *s, SignedVideoCodec c, const char *spec, int id, vid *out)
{
  for (; *spec; spec++) {
    nal x = mk(c, *spec, id++);
    int rc = signed_video_add_nalu_for_signing_with_timestamp(s, x.d, x.n, NULL);
    if (rc != SV_OK) printf("signing %c: rc %d\n", *spec, rc);
    if (pull(s, &x, out) < 0) puts("pull failed");
    put(out, x);
  }
}
static vid *shoot(SignedVideoCodec c, int level, const char *spec)
{
  vid *v = calloc(1, sizeof(*v));
  signed_video_t *s = camera(c, level);
  film(s, c, spec, 1, v);
  signed_video_free(s);
  return v;
}
typedef struct { int auth[400], n, err, overall; char str[400][600]; } res;
static res *play(const vid *v, SignedVideoCodec c)
{
  res *r = calloc(1, sizeof(*r));
  signed_video_t *s = signed_video_create(c);
  r->overall = -1;
  for (int i = 0; i < v->n; i++) {
    signed_video_authenticity_t *a = NULL;
    int rc = signed_video_add_nalu_and_authenticate(s, v->v[i].d, v->v[i].n, &a);
    if (rc != SV_OK) r->err++;
    if (a) {
      r->auth[r->n] = a->latest_validation.authenticity;
      snprintf(r->str[r->n], 600, "%s", a->latest_validation.validation_str ? a->latest_validation.validation_str : "");
      printf("at %d (%c): %d %s\n", i, v->v[i].t, r->auth[r->n], r->str[r->n]);
      r->n++;
      signed_video_authenticity_report_free(a);
    }
  }
  signed_video_authenticity_t *a = signed_video_get_authenticity_report(s);
  if (a) { r->overall = a->accumulated_validation.authenticity; signed_video_authenticity_report_free(a); }
  printf("overall %d errors %d\n", r->overall, r->err);
  signed_video_free(s);
  return r;
}
static int count(const res *r, int auth) { int k = 0; for (int i = 0; i < r->n; i++) k += r->auth[i] == auth; return k; }
#define EXPECT(c) do { if (!(c)) { printf("FAILED: %s\n", #c); exit(1); } } while (0)
