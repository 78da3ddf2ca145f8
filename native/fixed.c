/* The fixed-size surface, through the public API: tile addressing, isolation, out-of-bounds tiles. */
#include "nt.h"
#include "mypaint-fixed-tiled-surface.h"
#include "surf.h"
#define TN 4096 * 4

static void req(MyPaintTiledSurface *t, MyPaintTileRequest *r, int tx, int ty, int ro) {
  mypaint_tile_request_init(r, 0, tx, ty, ro);
  r->buffer = (void *)1;
  mypaint_tiled_surface_tile_request_start(t, r);
}
static uint64_t pat(uint64_t k, int i) { return nt_mix(k * 65537 + i / 4) >> (16 * (i & 3)); }
static void fill(uint16_t *b, uint64_t k) { for (int i = 0; i < TN; i += 4) { uint64_t v = nt_mix(k * 65537 + i / 4); memcpy(b + i, &v, 8); } }
static int same(const uint16_t *b, uint64_t k) { for (int i = 0; i < TN; i += 4) { uint64_t v = nt_mix(k * 65537 + i / 4); if (memcmp(b + i, &v, 8)) return 0; } return 1; }

static int inb(int tx, int ty, int nx, int ny) { return tx >= 0 && ty >= 0 && tx < nx && ty < ny; }

/* arbitrary sequences of tile reads and writes against a model */
static void o_tiles(void) {
  int w = chance(20) ? ri(1, 3) : chance(40) ? 64 * ri(1, 9) + ri(-1, 1) : ri(1, 640), h = chance(20) ? ri(1, 3) : chance(40) ? 64 * ri(1, 9) + ri(-1, 1) : ri(1, 640);
  if (chance(5)) { if (chance(50)) w = ri(2000, 9000); else h = ri(2000, 9000); }
  int nx = (w + 63) / 64, ny = (h + 63) / 64;
  MyPaintFixedTiledSurface *f = mypaint_fixed_tiled_surface_new(w, h);
  MyPaintTiledSurface *t = (MyPaintTiledSurface *)mypaint_fixed_tiled_surface_interface(f);
  DESC("%dx%d", w, h);
  CHECK(mypaint_fixed_tiled_surface_get_width(f) == w && mypaint_fixed_tiled_surface_get_height(f) == h, "reports size %dx%d", mypaint_fixed_tiled_surface_get_width(f), mypaint_fixed_tiled_surface_get_height(f));
  uint64_t *m = calloc(nx * ny, 8);
  uint64_t id = ri(1, 1 << 30);
  int init = -1, nt = 0;
  MyPaintTileRequest r;
  /* first: write every tile its own pattern, in a random order */
  int full = chance(50);
  if (full) {
    int *o = malloc(nx * ny * sizeof(int));
    for (int i = 0; i < nx * ny; i++) o[i] = i;
    for (int i = nx * ny - 1; i > 0; i--) { int j = ri(0, i), k = o[i]; o[i] = o[j]; o[j] = k; }
    for (int i = 0; i < nx * ny; i++) { req(t, &r, o[i] % nx, o[i] / nx, 0); fill(r.buffer, m[o[i]] = ++id); mypaint_tiled_surface_tile_request_end(t, &r); }
    free(o);
  }
  int n = ri(5, 40);
  for (int k = 0; k < n; k++) {
    int tx = ri(-2, nx + 1), ty = ri(-2, ny + 1), ro = chance(40);
    if (chance(5)) { tx = ri(-2000000000, 2000000000); }
    if (chance(5)) { ty = ri(-2000000000, 2000000000); }
    req(t, &r, tx, ty, ro);
    CHECK(r.buffer && r.buffer != (void *)1, "no buffer for tile %d,%d", tx, ty);
    if (!inb(tx, ty, nx, ny)) {
      nt = 1;
      for (int i = 0; i < TN; i++) CHECK(r.buffer[i] == 0, "tile %d,%d outside the surface reads %d at %d after %s", tx, ty, r.buffer[i], i, nt_desc);
      if (!ro) { fill(r.buffer, ++id); if (chance(50)) for (int i = 0; i < TN; i++) if (i != TN - 1) r.buffer[i] = 0; }
    } else {
      uint64_t *p = &m[ty * nx + tx];
      if (*p) CHECK(same(r.buffer, *p), "tile %d,%d does not contain what was last written to it", tx, ty);
      else {
        if (init < 0) init = r.buffer[0];
        for (int i = 0; i < TN; i++) CHECK(r.buffer[i] == init, "an untouched tile %d,%d contains %d at %d, elsewhere %d", tx, ty, r.buffer[i], i, init);
      }
      if (!ro) fill(r.buffer, *p = ++id);
    }
    ADD(" %c(%d,%d)", ro ? 'r' : 'w', tx, ty);
    mypaint_tiled_surface_tile_request_end(t, &r);
  }
  for (int i = 0; i < nx * ny; i++) {
    req(t, &r, i % nx, i / nx, 1);
    if (m[i]) CHECK(same(r.buffer, m[i]), "tile %d,%d no longer contains what was written to it", i % nx, i / nx);
    mypaint_tiled_surface_tile_request_end(t, &r);
  }
  if (nt || full) NONTRIVIAL();
  free(m);
  mypaint_surface_unref((MyPaintSurface *)t);
}

/* drawing gives the same pixels as on an unbounded surface, inside; and nothing outside is kept */
static void o_draw(void) {
  int w = ri(1, 400), h = ri(1, 400), nx = (w + 63) / 64, ny = (h + 63) / 64;
  MyPaintFixedTiledSurface *f = mypaint_fixed_tiled_surface_new(w, h);
  MyPaintTiledSurface *t = (MyPaintTiledSurface *)mypaint_fixed_tiled_surface_interface(f);
  S *s = s_new();
  MyPaintTileRequest r;
  DESC("%dx%d", w, h);
  s_paint_random(s, 7);
  for (int ty = -7; ty < TR; ty++) for (int tx = -7; tx < TR; tx++) {
    if (inb(tx, ty, nx, ny)) { req(t, &r, tx, ty, 0); memcpy(r.buffer, s_tile(s, tx, ty), 8 * 4096); mypaint_tiled_surface_tile_request_end(t, &r); }
    else memset(s_tile(s, tx, ty), 0, 8 * 4096);
  }
  for (int tr = 0; tr < 2; tr++) {
    mypaint_surface_begin_atomic((MyPaintSurface *)t); mypaint_surface_begin_atomic(s_if(s));
    int n = ri(1, 12);
    for (int k = 0; k < n; k++) {
      Dab d = {rr(-60, w + 60), rr(-60, h + 60), rr(0.2, 80), rd(), rd(), rd(), rd(), rd(), chance(50) ? 0 : rd(), rd(), rr(1, 6), rr(0, 360), chance(80) ? 0 : rd(), chance(80) ? 0 : rd(), 0, 0, chance(70) ? 0 : rd()};
      if (k < 3) s_describe(&d);
      int a = s_dab(s, &d), b = mypaint_surface_draw_dab((MyPaintSurface *)t, d.x, d.y, d.radius, d.r, d.g, d.b, d.opaque, d.hardness, d.softness, d.a, d.aspect, d.angle, d.lock, d.colorize, d.poster, d.pnum, d.paint);
      CHECK(a == b, "the dab is reported as %s on the fixed surface and %s on an unbounded one", b ? "drawn" : "not drawn", a ? "drawn" : "not drawn");
    }
    MyPaintRectangle ra[1], rb[1]; MyPaintRectangles A = {1, ra}, B = {1, rb};
    mypaint_surface_end_atomic(s_if(s), &A); mypaint_surface_end_atomic((MyPaintSurface *)t, &B);
    CHECK(A.num_rectangles == B.num_rectangles && (!A.num_rectangles || !memcmp(ra, rb, sizeof ra)), "different invalidated regions");
    int ch = 0;
    for (int ty = 0; ty < ny; ty++) for (int tx = 0; tx < nx; tx++) {
      req(t, &r, tx, ty, 1);
      const uint16_t *q = s_t(s, ty, tx);
      for (int i = 0; i < TN; i++) CHECK(r.buffer[i] == q[i], "tile %d,%d channel %d of pixel %d is %d, on an unbounded surface %d", tx, ty, i & 3, i / 4, r.buffer[i], q[i]);
      mypaint_tiled_surface_tile_request_end(t, &r);
    }
    for (int k = 0; k < 12; k++) {
      int tx = chance(50) ? (chance(50) ? -1 : nx) : ri(-3, nx + 2), ty = chance(50) ? (chance(50) ? -1 : ny) : ri(-3, ny + 2);
      if (inb(tx, ty, nx, ny)) continue;
      req(t, &r, tx, ty, 1);
      for (int i = 0; i < TN; i++) CHECK(!r.buffer[i], "the outside tile %d,%d kept paint", tx, ty);
      mypaint_tiled_surface_tile_request_end(t, &r);
    }
    /* colours outside of the surface are read as transparent */
    for (int ty = -7; ty < TR; ty++) for (int tx = -7; tx < TR; tx++) if (!inb(tx, ty, nx, ny)) memset(s_tile(s, tx, ty), 0, 8 * 4096);
  }
  NONTRIVIAL();
  s_free(s);
  mypaint_surface_unref((MyPaintSurface *)t);
}
int main(int c, char **v) {
  static const NtOracle t[] = {{"tiles", o_tiles}, {"draw", o_draw}, {0}};
  return nt_main(c, v, t);
}
