/* A recording surface, random brushes and random input events. */
#ifndef BRUSHLIB_H
#define BRUSHLIB_H
#include "mypaint-brush.h"
#include "mypaint-brush-settings.h"
#include "mypaint-surface.h"
#define NS MYPAINT_BRUSH_SETTINGS_COUNT
#define NI MYPAINT_BRUSH_INPUTS_COUNT

typedef struct { float v[17]; int ret, get; } Call;
typedef struct R R;
struct R {
  MyPaintSurface p;
  Call *log; int n, cap;
  int draws, painted, gets, destroyed;
  uint64_t rs; int mode; /* what draw_dab answers: 0 always painted, 1 never, 2 pseudo-random */
  float col[4]; int colmode;
  MyPaintBrush *brush; float seen; /* the pressure state when the surface was last used */
};
static Call *r_add(R *r) { if (r->n == r->cap) { r->cap = r->cap ? 2 * r->cap : 64; r->log = realloc(r->log, r->cap * sizeof(Call)); } Call *c = &r->log[r->n++]; memset(c, 0, sizeof *c); return c; }
static int r_draw(MyPaintSurface *s, float x, float y, float radius, float cr, float cg, float cb, float opaque, float hardness, float softness, float ae, float ar, float an, float la, float co, float po, float pn, float pa) {
  R *r = (R *)s; Call *c = r_add(r);
  float v[17] = {x, y, radius, cr, cg, cb, opaque, hardness, softness, ae, ar, an, la, co, po, pn, pa};
  memcpy(c->v, v, sizeof v);
  r->draws++; if (r->brush) r->seen = mypaint_brush_get_state(r->brush, MYPAINT_BRUSH_STATE_PRESSURE);
  r->rs = nt_mix(r->rs);
  c->ret = r->mode == 0 ? 1 : r->mode == 1 ? 0 : (int)(r->rs & 1);
  r->painted += c->ret;
  return c->ret;
}
static void r_get(MyPaintSurface *s, float x, float y, float radius, float *cr, float *cg, float *cb, float *ca, float pa) {
  R *r = (R *)s; Call *c = r_add(r); c->get = 1;
  c->v[0] = x; c->v[1] = y; c->v[2] = radius; c->v[3] = pa; r->gets++;
  if (r->brush) r->seen = mypaint_brush_get_state(r->brush, MYPAINT_BRUSH_STATE_PRESSURE);
  if (r->colmode) { for (int i = 0; i < 4; i++) { r->rs = nt_mix(r->rs); r->col[i] = (r->rs >> 40) / 16777215.0f; if (r->colmode == 2 && (r->rs & 3) == 0) r->col[i] = r->rs >> 2 & 1; } }
  *cr = r->col[0]; *cg = r->col[1]; *cb = r->col[2]; *ca = r->col[3];
}
static void r_destroy(MyPaintSurface *s) { ((R *)s)->destroyed++; }
static R *r_new(int mode, int colmode) {
  R *r = calloc(1, sizeof *r); mypaint_surface_init(&r->p);
  r->p.draw_dab = r_draw; r->p.get_color = r_get; r->p.destroy = r_destroy; r->mode = mode; r->colmode = colmode; r->rs = 4711;
  return r;
}
static void r_free(R *r) { free(r->log); free(r); }

/* ---- brush descriptions that can be applied to several brushes */
typedef struct { int set, in, n; float x[8], y[8]; } Curve;
typedef struct { float base[NS]; int nc; Curve c[24]; int buckets; } Spec;
/* settings within their documented range; curve outputs keep the value within `over` times that range */
static void spec_random(Spec *s, int curves, double over) {
  memset(s, 0, sizeof *s);
  int p = ri(0, 100);
  for (int i = 0; i < NS; i++) {
    const MyPaintBrushSettingInfo *f = mypaint_brush_setting_info(i);
    s->base[i] = f->def;
    if (chance(p)) s->base[i] = chance(15) ? f->min : chance(15) ? f->max : rr(f->min, f->max);
  }
  /* keep the number of dabs manageable */
  s->base[MYPAINT_BRUSH_SETTING_DABS_PER_BASIC_RADIUS] = chance(50) ? 0 : rr(0, 6);
  s->base[MYPAINT_BRUSH_SETTING_DABS_PER_ACTUAL_RADIUS] = chance(20) ? 0 : rr(0, 6);
  s->base[MYPAINT_BRUSH_SETTING_DABS_PER_SECOND] = chance(50) ? 0 : rr(0, 80);
  if (chance(70)) s->base[MYPAINT_BRUSH_SETTING_OPAQUE_MULTIPLY] = 1;
  if (curves) {
    s->nc = ri(0, curves);
    for (int k = 0; k < s->nc; k++) {
      Curve *c = &s->c[k]; c->set = ri(0, NS - 1); c->in = ri(0, NI - 1); c->n = ri(2, 8);
      const MyPaintBrushSettingInfo *f = mypaint_brush_setting_info(c->set);
      const MyPaintBrushInputInfo *fi = mypaint_brush_input_info(c->in);
      double a = fi->hard_min < -1000 ? -10 : fi->hard_min, b = fi->hard_max > 1000 ? 10 : fi->hard_max, w = (f->max - f->min) * over / s->nc;
      if (c->set == MYPAINT_BRUSH_SETTING_DABS_PER_BASIC_RADIUS || c->set == MYPAINT_BRUSH_SETTING_DABS_PER_ACTUAL_RADIUS) w = 4;
      if (c->set == MYPAINT_BRUSH_SETTING_DABS_PER_SECOND) w = 40;
      /* the points cover the range of the input; beyond it (unbounded inputs) the curve continues flat */
      float x = a;
      for (int i = 0; i < c->n; i++) { c->x[i] = i == c->n - 1 ? b : x; c->y[i] = chance(10) ? 0 : rr(-w, w); x = c->x[i] + (chance(10) ? 0 : rr(0, (b - a) / c->n)); }
      if (fi->hard_min < -1000 || fi->hard_max > 1000) { c->y[c->n - 2] = c->y[c->n - 1]; if (c->n == 2) c->y[0] = c->y[1]; else c->y[0] = c->y[1]; if (c->n == 3) c->y[2] = c->y[1]; }
    }
  }
}
static void spec_apply(const Spec *s, MyPaintBrush *b) {
  for (int i = 0; i < NS; i++) mypaint_brush_set_base_value(b, i, s->base[i]);
  for (int k = 0; k < s->nc; k++) {
    const Curve *c = &s->c[k];
    mypaint_brush_set_mapping_n(b, c->set, c->in, 0);
    mypaint_brush_set_mapping_n(b, c->set, c->in, c->n);
    for (int i = 0; i < c->n; i++) mypaint_brush_set_mapping_point(b, c->set, c->in, i, c->x[i], c->y[i]);
  }
}
static void spec_describe(const Spec *s) {
  for (int i = 0; i < NS; i++) { const MyPaintBrushSettingInfo *f = mypaint_brush_setting_info(i); if (s->base[i] != f->def) ADD(" %s=%.6g", f->cname, s->base[i]); }
  for (int k = 0; k < s->nc; k++) { const Curve *c = &s->c[k]; ADD(" %s<-%s:", mypaint_brush_setting_info(c->set)->cname, mypaint_brush_input_info(c->in)->cname); for (int i = 0; i < c->n; i++) ADD("(%.5g,%.5g)", c->x[i], c->y[i]); }
}
typedef struct { float x, y, p, xt, yt, zoom, rot, barrel; double dt; int linear; } Ev;
static int ev_send(MyPaintBrush *b, void *s, const Ev *e) { return mypaint_brush_stroke_to(b, (MyPaintSurface *)s, e->x, e->y, e->p, e->xt, e->yt, e->dt, e->zoom, e->rot, e->barrel, e->linear); }
static Ev ev_next(Ev e) {
  double st = chance(10) ? 0 : chance(70) ? 8 : 60;
  e.x += rr(-st, st); e.y += rr(-st, st);
  if (chance(30)) e.p = chance(20) ? 0 : chance(20) ? 1 : rd();
  if (chance(3)) e.p = rr(-1, 3);
  if (chance(20)) { e.xt = chance(20) ? 0 : rr(-1.2, 1.2); e.yt = chance(20) ? 0 : rr(-1.2, 1.2); }
  e.dt = chance(60) ? rr(0.002, 0.03) : chance(50) ? rr(0, 0.3) : chance(50) ? rr(0, 2) : chance(30) ? rr(4.9, 6) : 0;
  if (chance(2)) e.dt = -rr(0, 2);
  if (chance(5)) e.zoom = exp(rr(-3, 3));
  if (chance(5)) e.rot = rr(-7, 7);
  if (chance(10)) e.barrel = rr(-1, 1);
  return e;
}
static Ev ev_first(void) { Ev e = {rr(-500, 500), rr(-500, 500), 0.5, 0, 0, 1, 0, 0, 0.01, 0}; e.linear = chance(30); return e; }
static void ev_describe(const Ev *e) { ADD(" to(%.6g,%.6g p=%.4g tilt=%.4g,%.4g dt=%.6g zoom=%.4g rot=%.4g barrel=%.4g%s)", e->x, e->y, e->p, e->xt, e->yt, e->dt, e->zoom, e->rot, e->barrel, e->linear ? " linear" : ""); }
#endif
