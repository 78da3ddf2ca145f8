/* A sparse tiled surface on top of the public API, used by the surface oracles. */
#ifndef SURF_H
#define SURF_H
#include "mypaint-tiled-surface.h"
#include "mypaint-surface.h"
#define TS 64
#define TR 12 /* tiles -TR..TR-1 in both directions */
typedef struct {
  MyPaintTiledSurface p;
  uint16_t *t[2 * TR][2 * TR];
  int open, starts, ends, writes, far;
  int readonly_open; uint16_t *copy; uint16_t *cur;
} S;
static void s_start(MyPaintTiledSurface *ts, MyPaintTileRequest *r) {
  S *s = (S *)ts;
  CHECK(!s->open, "a tile is requested while another request is open (tile %d,%d)", r->tx, r->ty);
  CHECK(r->mipmap_level == 0, "mipmap level %d requested", r->mipmap_level);
  s->open = 1; s->starts++;
  if (r->tx < -TR || r->tx >= TR || r->ty < -TR || r->ty >= TR) { s->far++; s->cur = calloc(TS * TS * 4, 2); r->buffer = s->cur; return; }
  uint16_t **p = &s->t[r->ty + TR][r->tx + TR];
  if (!*p) *p = calloc(TS * TS * 4, 2);
  s->cur = r->buffer = *p;
  if (!r->readonly) s->writes++;
  s->readonly_open = r->readonly;
  if (r->readonly) { s->copy = malloc(TS * TS * 8); memcpy(s->copy, *p, TS * TS * 8); }
}
static void s_end(MyPaintTiledSurface *ts, MyPaintTileRequest *r) {
  S *s = (S *)ts;
  CHECK(s->open, "a tile request is ended that was not started");
  CHECK(r->buffer == s->cur, "a tile request is ended with another buffer");
  s->open = 0; s->ends++;
  if (r->tx < -TR || r->tx >= TR || r->ty < -TR || r->ty >= TR) { free(s->cur); return; }
  if (s->readonly_open && s->copy) { CHECK(!memcmp(s->copy, s->cur, TS * TS * 8), "a tile requested for reading was modified (tile %d,%d)", r->tx, r->ty); }
  free(s->copy); s->copy = 0; s->readonly_open = 0;
}
static S *s_new(void) { S *s = calloc(1, sizeof *s); mypaint_tiled_surface_init(&s->p, s_start, s_end); return s; }
static MyPaintSurface *s_if(S *s) { return (MyPaintSurface *)s; }
static void s_free(S *s) {
  CHECK(!s->open && s->starts == s->ends, "%d tile requests started, %d ended", s->starts, s->ends);
  mypaint_tiled_surface_destroy(&s->p);
  for (int y = 0; y < 2 * TR; y++) for (int x = 0; x < 2 * TR; x++) free(s->t[y][x]);
  free(s);
}
static const uint16_t s_zero[4];
static int fdiv64(int v) { return v >= 0 ? v / 64 : -((-v + 63) / 64); }
static const uint16_t *s_px(const S *s, int x, int y) {
  int tx = fdiv64(x), ty = fdiv64(y);
  if (tx < -TR || tx >= TR || ty < -TR || ty >= TR || !s->t[ty + TR][tx + TR]) return s_zero;
  return s->t[ty + TR][tx + TR] + 4 * ((y - ty * 64) * 64 + (x - tx * 64));
}
static uint16_t *s_tile(S *s, int tx, int ty) {
  uint16_t **p = &s->t[ty + TR][tx + TR];
  if (!*p) *p = calloc(TS * TS * 4, 2);
  return *p;
}
/* iterate over tiles allocated in either surface */
static int s_any(const S *a, int ty, int tx) { return a->t[ty + TR][tx + TR] != 0; }
static const uint16_t s_blank[TS * TS * 4];
static const uint16_t *s_t(const S *a, int ty, int tx) { const uint16_t *p = a->t[ty + TR][tx + TR]; return p ? p : s_blank; }

typedef struct { float x, y, radius, r, g, b, opaque, hardness, softness, a, aspect, angle, lock, colorize, poster, pnum, paint; } Dab;
static int s_dab(S *s, const Dab *d) {
  return mypaint_surface_draw_dab(s_if(s), d->x, d->y, d->radius, d->r, d->g, d->b, d->opaque, d->hardness, d->softness, d->a, d->aspect, d->angle, d->lock, d->colorize, d->poster, d->pnum, d->paint);
}
static void s_describe(const Dab *d) {
  ADD(" dab(x=%.9g y=%.9g radius=%.9g color=%g,%g,%g a=%g opaque=%g hardness=%.9g softness=%g aspect=%g angle=%g lock_alpha=%g colorize=%g posterize=%g/%g paint=%g)",
      d->x, d->y, d->radius, d->r, d->g, d->b, d->a, d->opaque, d->hardness, d->softness, d->aspect, d->angle, d->lock, d->colorize, d->poster, d->pnum, d->paint);
}
/* fills the tiles around the origin with random premultiplied content */
static void s_paint_random(S *s, int n) {
  int mode = ri(0, 3);
  for (int ty = -n; ty < n; ty++) for (int tx = -n; tx < n; tx++) {
    if (chance(25)) continue;
    uint16_t *p = s_tile(s, tx, ty);
    for (int i = 0; i < 4096; i++) {
      unsigned a = mode == 0 ? 32768 : mode == 1 ? ri(0, 32768) : chance(50) ? ri(0, 1) * 32768 : ri(0, 300);
      p[4 * i + 3] = a;
      for (int c = 0; c < 3; c++) p[4 * i + c] = mode == 3 ? (chance(50) ? a : 0) : ri(0, a);
    }
  }
}
static void s_copy(S *d, const S *s) {
  for (int y = 0; y < 2 * TR; y++) for (int x = 0; x < 2 * TR; x++) if (s->t[y][x]) { if (!d->t[y][x]) d->t[y][x] = malloc(TS * TS * 8); memcpy(d->t[y][x], s->t[y][x], TS * TS * 8); }
    else { free(d->t[y][x]); d->t[y][x] = 0; }
}
#define EACH_TILE(ty, tx) for (int ty = -TR; ty < TR; ty++) for (int tx = -TR; tx < TR; tx++)
#endif
