/* Reference counted objects live exactly as long as they are referenced, and give back everything. */
#include "nt.h"
#include "brushlib.h"
#include "mypaint-fixed-tiled-surface.h"
#include "mypaint-tiled-surface.h"
#if defined(__SANITIZE_ADDRESS__)
int __asan_address_is_poisoned(void const volatile *);
size_t __sanitizer_get_current_allocated_bytes(void);
#define DEAD(p) __asan_address_is_poisoned(p)
#define BYTES() ((long)__sanitizer_get_current_allocated_bytes())
#else
#define DEAD(p) (-1)
#define BYTES() 0L
#endif
static void quiet(void) { static FILE *n; if (!n) { n = fopen("/dev/null", "w"); stderr = n; fprintf(stderr, "x"); printf("x"); } }
static void use_brush(MyPaintBrush *b, int nb) {
  switch (ri(0, 5)) {
    case 0: { Spec s; spec_random(&s, 6, 1); spec_apply(&s, b); break; }
    case 1: { R *r = r_new(0, 2); Ev e = ev_first(); for (int k = 0; k < 5 && r->n < 500; k++) { ev_send(b, r, &e); e = ev_next(e); } r_free(r); break; }
    case 2: mypaint_brush_from_string(b, chance(50) ? "{\"version\": 3, \"settings\": {\"opaque\": {\"base_value\": 0.5, \"inputs\": {\"pressure\": [[0,0],[1,1]]}}}}" : chance(50) ? "not a brush" : "{\"version\": 2}"); break;
    case 3: mypaint_brush_from_defaults(b); break;
    case 4: mypaint_brush_reset(b); break;
    case 5: mypaint_brush_new_stroke(b); break;
  }
}
static void o_brush(void) {
  quiet();
  int nb = chance(40) ? 0 : ri(1, 30);
  long before = BYTES();
  MyPaintBrush *b = nb ? mypaint_brush_new_with_buckets(nb) : mypaint_brush_new();
  DESC("brush with %d buckets:", nb);
  mypaint_brush_from_defaults(b);
  int refs = 1, n = ri(1, 25), most = 1;
  for (int k = 0; k < n; k++) {
    int w = ri(0, 2);
    if (w == 0) { mypaint_brush_ref(b); refs++; ADD(" ref"); }
    else if (w == 1 && refs > 1) { mypaint_brush_unref(b); refs--; ADD(" unref"); }
    else { ADD(" use"); use_brush(b, nb); }
    if (refs > most) most = refs;
    CHECK(DEAD(b) != 1, "the brush is gone although %d references are left", refs);
  }
  while (refs > 0) { CHECK(DEAD(b) != 1, "the brush is gone although %d references are left", refs); mypaint_brush_unref(b); refs--; ADD(" unref"); }
  CHECK(DEAD(b) != 0, "the brush is still there after its last reference was released");
  long after = BYTES();
  CHECK(after == before, "%ld bytes are still allocated after the brush is gone", after - before);
  if (most > 1) NONTRIVIAL();
}
static void o_surface(void) {
  quiet();
  { /* a surface of the application: destroyed once, when the count reaches zero */
    R *r = r_new(0, 0); MyPaintSurface *s = &r->p; int refs = 1, n = ri(0, 40); DESC("surface:");
    for (int k = 0; k < n; k++) { if (chance(50)) { mypaint_surface_ref(s); refs++; ADD(" ref"); } else if (refs > 1) { mypaint_surface_unref(s); refs--; ADD(" unref"); } CHECK(r->destroyed == 0, "destroyed with %d references", refs); }
    while (refs > 1) { mypaint_surface_unref(s); refs--; ADD(" unref"); CHECK(r->destroyed == 0, "destroyed with %d references", refs); }
    mypaint_surface_unref(s); CHECK(r->destroyed == 1, "destroyed %d times when the last reference was released", r->destroyed);
    r_free(r);
  }
  long before = BYTES();
  int w = ri(1, 300), h = ri(1, 300);
  MyPaintFixedTiledSurface *f = mypaint_fixed_tiled_surface_new(w, h);
  MyPaintSurface *s = mypaint_fixed_tiled_surface_interface(f);
  DESC("fixed surface %dx%d:", w, h);
  int refs = 1, n = ri(1, 12), open = 0, most = 1;
  for (int k = 0; k < n; k++) {
    int a = ri(0, 6);
    if (a == 0) { mypaint_surface_ref(s); refs++; ADD(" ref"); }
    else if (a == 1 && refs > 1) { mypaint_surface_unref(s); refs--; ADD(" unref"); }
    else if (a == 2 && !open) { mypaint_surface_begin_atomic(s); open = 1; ADD(" begin"); }
    else if (a == 3 && open) { MyPaintRectangle rc[3]; MyPaintRectangles rs = {3, rc}; memset(rc, 0, sizeof rc); mypaint_surface_end_atomic(s, &rs); open = 0; ADD(" end"); }
    else if (a == 4) { mypaint_tiled_surface_set_symmetry_state((MyPaintTiledSurface *)f, chance(70), rr(-10, 300), rr(-10, 300), rr(0, 360), ri(0, 4), chance(30) ? ri(30, 150) : ri(0, 40)); ADD(" symmetry"); }
    else { mypaint_surface_draw_dab(s, rr(-50, 350), rr(-50, 350), rr(0.2, 30), rd(), rd(), rd(), rd(), rd(), 0, 1, rr(1, 3), rr(0, 180), 0, 0, 0, 1, chance(50) ? 0 : rd()); ADD(" dab"); }
    if (refs > most) most = refs;
    CHECK(DEAD(s) != 1, "the surface is gone although %d references are left", refs);
  }
  if (open && chance(80)) { mypaint_surface_end_atomic(s, NULL); ADD(" end"); }
  while (refs > 0) { CHECK(DEAD(s) != 1, "the surface is gone although %d references are left", refs); mypaint_surface_unref(s); refs--; ADD(" unref"); }
  CHECK(DEAD(s) != 0, "the surface is still there after its last reference was released");
  long after = BYTES();
  CHECK(after == before, "%ld bytes are still allocated after the surface is gone", after - before);
  if (most > 1) NONTRIVIAL();
}
int main(int c, char **v) {
  static const NtOracle t[] = {{"brush", o_brush}, {"surface", o_surface}, {0}};
  return nt_main(c, v, t);
}
