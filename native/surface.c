/* Oracles for tiled surfaces, through the public API only. */
#include "nt.h"
#include "brushmodes.h"
#include "helpers.h"
#include "blendref.h"
#include "surf.h"

static float pick(int n, ...) { va_list ap; va_start(ap, n); int k = ri(0, n - 1); double v = 0; for (int i = 0; i <= k; i++) v = va_arg(ap, double); va_end(ap); return v; }
static Dab simple_dab(void) {
  Dab d = {0};
  d.x = rr(-150, 150); d.y = rr(-150, 150);
  if (chance(30)) { d.x = ri(-3, 3) * 64 + pick(7, 0.0, 0.5, -0.5, 1.0, -1.0, 0.25, 63.5); }
  if (chance(30)) { d.y = ri(-3, 3) * 64 + pick(7, 0.0, 0.5, -0.5, 1.0, -1.0, 0.25, 63.5); }
  switch (ri(0, 5)) {
  case 0: d.radius = rr(0.1, 3); break;
  case 1: d.radius = rr(0.1, 1.2); break;
  case 2: d.radius = ri(1, 70); break;
  case 3: d.radius = rr(3, 12); break;
  default: d.radius = rr(3, 70); break;
  }
  d.opaque = 1; d.a = 1; d.aspect = 1;
  d.hardness = chance(20) ? 1 : chance(20) ? rr(0.001, 0.05) : chance(20) ? rr(0.95, 1) : rr(0.05, 1);
  d.softness = chance(50) ? 0 : rr(0, 0.999);
  if (chance(60)) { d.aspect = chance(20) ? ri(1, 10) : chance(10) ? rr(0.1, 1) : rr(1, 12); d.angle = chance(20) ? ri(-4, 8) * 45 : rr(-400, 400); }
  d.pnum = 0.05;
  return d;
}
/* the documented falloff: two linear segments in rr, scaled by 1 - softness */
static double falloff(double rr, double h, double s) {
  if (rr > 1) return 0;
  double v = rr <= h ? 1 - rr * (1 / h - 1) : h / (1 - h) * (1 - rr);
  return v * (1 - s);
}
/* antialiased squared distance of small dabs */
static double clampd(double v, double a, double b) { return v < a ? a : v > b ? b : v; }
static double rr_aa(double px, double py, double asp, double sn, double cs, double radius, int side, int heavy) {
  /* pixel corner relative to the dab: right/bottom = dab - pixel */
  double l = px - 1, t = py - 1, cx = px - 0.5, cy = py - 0.5, nx = 0, ny = 0, near = 0, oor = 1 / (radius * radius);
  if (!(l < 0 && px > 0 && t < 0 && py > 0)) {
    double d = cx * cs + cy * sn;
    nx = clampd(cs * d, l, px); ny = clampd(sn * d, t, py);
    double a = (ny * cs - nx * sn) * asp, b = ny * sn + nx * cs;
    near = (a * a + b * b) * oor;
  }
  if (near > 1) return near;
  double k = sqrt(1 / M_PI);
  double sign = (cx - cs) * sn - cs * (cy + sn);
  int below = side ? side < 0 : sign < 0;
  double fx = below ? nx - sn * k : nx + sn * k, fy = below ? ny + cs * k : ny - cs * k;
  double a = (fy * cs - fx * sn) * asp, b = fy * sn + fx * cs, rf = a * a + b * b, far = rf * oor;
  double st = radius > 1 ? radius - 1 : 0;
  st *= st / asp;
  int light = heavy ? heavy < 0 : rf < st;
  if (light) return (far + near) / 2;
  return 1 - (1 - near) / (1 + far - near);
}
static void mask_bounds(const Dab *d, int px, int py, double *lo, double *hi) {
  double asp = d->aspect < 1 ? 1 : d->aspect, h = d->hardness > 1 ? 1 : d->hardness, s = d->softness;
  float af = d->angle / 360 * 2 * M_PI;
  double cs = cos(af), sn = sin(af);
  double rmin, rmax;
  double dx = px + 0.5 - d->x, dy = py + 0.5 - d->y;
  if (d->radius >= 3) {
    double a = (dy * cs - dx * sn) * asp, b = dy * sn + dx * cs, q = (a * a + b * b) / ((double)d->radius * d->radius);
    double e = 6e-5 * asp * sqrt(q) / d->radius + 3e-6 * q + 1e-9 + 4e-7 * asp * asp * sqrt(dx * dx + dy * dy) * sqrt(q) / d->radius;
    rmin = q - e; rmax = q + e;
  } else {
    rmin = 1e9; rmax = -1e9;
    double E = 3e-5;
    for (int i = 0; i < 9; i++) for (int side = -1; side <= 1; side++) for (int heavy = -1; heavy <= 1; heavy++) {
      if (i && (side || heavy)) continue;
      double qx = d->x - px + (i ? (i - 1) % 3 - 1 : 0) * E, qy = d->y - py + (i ? (i - 1) / 3 - 1 : 0) * E;
      if (side) { /* only near the dividing line */
        double cx = qx - 0.5, cy = qy - 0.5, sg = (cx - cs) * sn - cs * (cy + sn);
        if (fabs(sg) > 1e-3) continue;
      }
      if (heavy) { /* only near the threshold */
        double v1 = rr_aa(qx, qy, asp, sn, cs, d->radius * (1 + 1e-5), side, 0), v2 = rr_aa(qx, qy, asp, sn, cs, d->radius * (1 - 1e-5), side, 0);
        if (fabs(v1 - v2) < 1e-3) continue;
      }
      double v = rr_aa(qx, qy, asp, sn, cs, d->radius, side, heavy);
      if (v < rmin) rmin = v;
      if (v > rmax) rmax = v;
    }
    double e = 1e-5 + 1e-4 * fabs(rmax);
    rmin -= e; rmax += e;
  }
  if (rmin < 0) rmin = 0;
  *hi = floor(falloff(rmin, h, s) * 32768 + 1);
  *lo = floor(falloff(rmax, h, s) * 32768 - 1);
  if (rmax > 1) *lo = 0;
}

/* ---- a single dab: its footprint, and nothing else */
static void o_dab(void) {
  S *s = s_new();
  Dab d = simple_dab();
  DESC("single"); s_describe(&d);
  MyPaintRectangle rc[2]; MyPaintRectangles roi = {1, rc};
  memset(rc, 0, sizeof rc);
  mypaint_surface_begin_atomic(s_if(s));
  int mod = s_dab(s, &d);
  mypaint_surface_end_atomic(s_if(s), &roi);
  CHECK(mod, "the dab reports that it did not modify the surface");
  long covered = 0;
  int X0 = floor(d.x - d.radius - 3), X1 = ceil(d.x + d.radius + 3), Y0 = floor(d.y - d.radius - 3), Y1 = ceil(d.y + d.radius + 3);
  EACH_TILE(ty, tx) {
    const uint16_t *p = s_t(s, ty, tx);
    if (p == s_blank && (tx * 64 > X1 || tx * 64 + 63 < X0 || ty * 64 > Y1 || ty * 64 + 63 < Y0)) continue;
    for (int i = 0; i < 4096; i++) {
      int x = tx * 64 + i % 64, y = ty * 64 + i / 64;
      const uint16_t *q = p + 4 * i;
      if (q[0] | q[1] | q[2]) FAIL("pixel %d,%d got a colour (%u,%u,%u) from a black dab", x, y, q[0], q[1], q[2]);
      if (x < X0 || x > X1 || y < Y0 || y > Y1) { CHECK(!q[3], "pixel %d,%d is outside the dab but was painted (alpha %u)", x, y, q[3]); continue; }
      double lo, hi;
      mask_bounds(&d, x, y, &lo, &hi);
      CHECK(q[3] >= lo && q[3] <= hi, "pixel %d,%d: coverage %u, expected %.0f..%.0f", x, y, q[3], lo, hi);
      if (q[3]) { covered++; CHECK(roi.num_rectangles == 1 && x >= rc[0].x && y >= rc[0].y && x < rc[0].x + rc[0].width && y < rc[0].y + rc[0].height, "pixel %d,%d is painted but outside the reported region", x, y); }
    }
  }
  CHECK(!s->far, "tiles far from the dab were requested");
  if (covered) NONTRIVIAL();
  s_free(s);
}

/* ---- many dabs: one transaction = one transaction each; reported regions cover every change */
static Dab any_dab(void) {
  Dab d = simple_dab();
  if (chance(70)) d.radius = d.radius > 25 ? d.radius / 3 : d.radius;
  d.r = rd(); d.g = rd(); d.b = rd();
  if (chance(20)) { d.r = ri(0, 1); d.g = ri(0, 1); d.b = ri(0, 1); }
  if (chance(30)) d.opaque = rr(0, 1);
  if (chance(30)) d.a = chance(30) ? 0 : rr(0, 1);
  if (chance(20)) d.lock = chance(50) ? 1 : rr(0, 1);
  if (chance(15)) d.colorize = chance(50) ? 1 : rr(0, 1);
  if (chance(15)) { d.poster = chance(50) ? 1 : rr(0, 1); d.pnum = rr(0.01, 1.28); }
  if (chance(25)) { d.paint = chance(50) ? 1 : rr(0, 1); if (d.radius > 12) d.radius = rr(0.2, 12); }
  /* dabs that paint nothing */
  if (chance(4)) d.radius = rr(0, 0.099);
  if (chance(4)) d.hardness = 0;
  if (chance(4)) d.softness = 1;
  if (chance(4)) d.opaque = 0;
  return d;
}
static void random_symmetry(S *a, S *b, S *c, int *lines, int *type) {
  float cx = rr(-50, 50), cy = rr(-50, 50), an = chance(50) ? 0 : rr(-180, 180);
  int ty = ri(0, 4);
  int n = chance(20) ? ri(20, 60) : ri(2, 9);
  *lines = ty == MYPAINT_SYMMETRY_TYPE_SNOWFLAKE ? 2 * n : ty == MYPAINT_SYMMETRY_TYPE_ROTATIONAL ? n : ty == MYPAINT_SYMMETRY_TYPE_VERTHORZ ? 4 : 2;
  *type = ty;
  S *l[3] = {a, b, c};
  for (int i = 0; i < 3; i++) if (l[i]) mypaint_tiled_surface_set_symmetry_state(&l[i]->p, 1, cx, cy, an, ty, n);
  ADD(" symmetry(type=%d lines=%d center=%g,%g angle=%g)", ty, n, cx, cy, an);
}
static void same_tiles(S *a, S *b, const char *what) {
  EACH_TILE(ty, tx) {
    const uint16_t *p = s_t(a, ty, tx), *q = s_t(b, ty, tx);
    if (p == q || !memcmp(p, q, 4096 * 8)) continue;
    for (int i = 0; i < 4096 * 4; i++) if (p[i] != q[i]) {
      int k = i / 4;
      FAIL("%s: pixel %d,%d is (%u,%u,%u,%u) instead of (%u,%u,%u,%u)", what, tx * 64 + k % 64, ty * 64 + k / 64, p[4 * k], p[4 * k + 1], p[4 * k + 2], p[4 * k + 3], q[4 * k], q[4 * k + 1], q[4 * k + 2], q[4 * k + 3]);
    }
  }
}
static int inside(const MyPaintRectangle *r, int n, int x, int y) {
  for (int i = 0; i < n; i++) if (x >= r[i].x && y >= r[i].y && x - r[i].x < r[i].width && y - r[i].y < r[i].height) return 1;
  return 0;
}
#define MAXROI 70
static void o_batch(void) {
  S *a = s_new(), *b = s_new(), *old = s_new();
  DESC("batch");
  if (chance(60)) { s_paint_random(a, 2); s_copy(b, a); }
  int rounds = ri(1, 3), drawn = 0, lines = 1, type = -1;
  int symm = chance(35);
  for (int r = 0; r < rounds; r++) {
    if (symm && (r == 0 || chance(50))) random_symmetry(a, b, 0, &lines, &type);
    else if (symm && chance(30)) { symm = 0; lines = 1; mypaint_tiled_surface_set_symmetry_state(&a->p, 0, 0, 0, 0, 0, 2); mypaint_tiled_surface_set_symmetry_state(&b->p, 0, 0, 0, 0, 0, 2); ADD(" symmetry(off)"); }
    s_copy(old, a);
    MyPaintRectangle rc[MAXROI];
    int cap = chance(15) ? 0 : chance(40) ? 1 : chance(50) ? ri(2, 10) : MAXROI;
    for (int i = 0; i < MAXROI; i++) rc[i] = (MyPaintRectangle){12345 + i, -777, 3, 3};
    MyPaintRectangles roi = {cap, rc};
    int k = chance(15) ? 0 : ri(1, symm ? (lines > 12 ? 2 : 4) : 12);
    ADD(" atomic(capacity=%d:", cap);
    mypaint_surface_begin_atomic(s_if(a));
    double bx0 = 1e9, by0 = 1e9, bx1 = -1e9, by1 = -1e9;
    int n_mod = 0;
    for (int i = 0; i < k; i++) {
      Dab d = any_dab();
      if (symm) { if (d.radius > 20) d.radius = rr(0.5, 20); if (lines > 12 && d.radius > 8) d.radius = rr(0.5, 8); }
      s_describe(&d);
      int ma = s_dab(a, &d);
      mypaint_surface_begin_atomic(s_if(b));
      int mb = s_dab(b, &d);
      mypaint_surface_end_atomic(s_if(b), NULL);
      CHECK(!ma == !mb, "the same dab reports different results");
      int expect = !(d.radius < 0.1f || d.hardness == 0 || d.softness == 1 || d.opaque == 0);
      CHECK(!ma == !expect, "draw_dab returns %d", ma);
      if (ma) { drawn++; n_mod++; bx0 = fmin(bx0, d.x - d.radius - 3); bx1 = fmax(bx1, d.x + d.radius + 3); by0 = fmin(by0, d.y - d.radius - 3); by1 = fmax(by1, d.y + d.radius + 3); }
      if (chance(12)) { float R, G, B, A; float px = chance(50) ? d.x : rr(-150, 150), py = chance(50) ? d.y : rr(-150, 150); ADD(" get_color(%g,%g)", px, py); mypaint_surface_get_color(s_if(a), px, py, rr(0.5, 20), &R, &G, &B, &A, chance(50) ? -1 : rd()); }
    }
    ADD(")");
    int use_roi = !chance(10);
    mypaint_surface_end_atomic(s_if(a), use_roi ? &roi : NULL);
    if (!n_mod) same_tiles(a, old, "a transaction without effective dabs changed the surface");
    same_tiles(a, b, "dabs in one transaction differ from the same dabs in transactions of their own");
    if (!use_roi) continue;
    CHECK(roi.num_rectangles >= 0 && roi.num_rectangles <= cap, "%d regions reported, there is room for %d", roi.num_rectangles, cap);
    CHECK(roi.rectangles == rc, "the array of regions was replaced");
    for (int i = cap; i < MAXROI; i++) CHECK(rc[i].x == 12345 + i && rc[i].y == -777 && rc[i].width == 3 && rc[i].height == 3, "a region beyond the capacity %d was written", cap);
    if (cap && n_mod) CHECK(roi.num_rectangles > 0, "dabs were drawn but no region was reported");
    if (!n_mod && cap) CHECK(roi.num_rectangles == 0, "%d regions reported although no dab was drawn", roi.num_rectangles);
    for (int i = 0; i < roi.num_rectangles; i++) {
      CHECK(rc[i].width >= 0 && rc[i].height >= 0, "region %d has a negative size", i);
      if (!symm && rc[i].width > 0) CHECK(rc[i].x >= bx0 && rc[i].y >= by0 && rc[i].x + rc[i].width <= bx1 + 1 && rc[i].y + rc[i].height <= by1 + 1, "region %d (%d,%d %dx%d) reaches beyond the dabs drawn in this transaction", i, rc[i].x, rc[i].y, rc[i].width, rc[i].height);
    }
    if (cap) EACH_TILE(ty, tx) {
      const uint16_t *p = s_t(a, ty, tx), *q = s_t(old, ty, tx);
      if (p == q || !memcmp(p, q, 4096 * 8)) continue;
      for (int i = 0; i < 4096; i++) if (memcmp(p + 4 * i, q + 4 * i, 8)) {
        int x = tx * 64 + i % 64, y = ty * 64 + i / 64;
        CHECK(inside(rc, roi.num_rectangles, x, y), "pixel %d,%d changed but is in none of the %d reported regions", x, y, roi.num_rectangles);
      }
    }
  }
  if (drawn > 1) NONTRIVIAL();
  s_free(a); s_free(b); s_free(old);
}

/* ---- symmetry: a symmetric dab = the dab and its images under the independent geometric transforms */
typedef struct { double a, b, c, d, e, f; } Aff; /* x' = ax+by+e, y' = cx+dy+f */
static Aff lin(double a, double b, double c, double d, double cx, double cy) { Aff r = {a, b, c, d, cx - a * cx - b * cy, cy - c * cx - d * cy}; return r; }
/* angles are counterclockwise on screen, where y points down */
static Aff refl(double deg, double cx, double cy) { double t = -deg * M_PI / 180, k = cos(2 * t), l = sin(2 * t); return lin(k, l, l, -k, cx, cy); }
static Aff rot(double deg, double cx, double cy) { double t = -deg * M_PI / 180, k = cos(t), l = sin(t); return lin(k, -l, l, k, cx, cy); }
static int images(int type, int n, double an, double cx, double cy, Aff *out) {
  int k = 0;
  switch (type) {
  case MYPAINT_SYMMETRY_TYPE_VERTICAL: out[k++] = refl(an + 90, cx, cy); break;
  case MYPAINT_SYMMETRY_TYPE_HORIZONTAL: out[k++] = refl(an, cx, cy); break;
  case MYPAINT_SYMMETRY_TYPE_VERTHORZ: out[k++] = refl(an, cx, cy); out[k++] = rot(180, cx, cy); out[k++] = refl(an + 90, cx, cy); break;
  case MYPAINT_SYMMETRY_TYPE_SNOWFLAKE: for (int i = 0; i < n; i++) out[k++] = refl(an + i * 180.0 / n, cx, cy); /* and */
  case MYPAINT_SYMMETRY_TYPE_ROTATIONAL: for (int i = 1; i < n; i++) out[k++] = rot(i * 360.0 / n, cx, cy); break;
  }
  return k;
}
static void o_symmetry(void) {
  S *a = s_new(), *b = s_new();
  int type = 0, n = 2, active = 0; float cx = 0, cy = 0, an = 0;
  DESC("symmetry");
  int rounds = ri(1, 3);
  for (int r = 0; r < rounds; r++) {
    int old = r && chance(20);
    if (!old) {
      active = !chance(8); type = ri(0, 4); n = chance(8) ? ri(-3, 2) : chance(15) ? ri(17, 40) : ri(2, 12);
      cx = rr(-80, 80); cy = rr(-80, 80); an = chance(40) ? 0 : chance(30) ? ri(-8, 8) * 22.5 : rr(-360, 360);
      if (r && chance(30)) { /* change a single parameter only */ }
      mypaint_tiled_surface_set_symmetry_state(&a->p, active, cx, cy, an, type, n);
      if (n < 2) n = 2;
    }
    ADD(" state(active=%d type=%d center=%g,%g angle=%g lines=%d)", active, type, cx, cy, an, n);
    mypaint_surface_begin_atomic(s_if(a)); mypaint_surface_begin_atomic(s_if(b));
    int k = n > 8 ? 1 : ri(1, 2);
    for (int i = 0; i < k; i++) {
      Dab d = {0};
      d.x = cx + rr(-140, 140); d.y = cy + rr(-140, 140);
      d.radius = rr(7, n > 10 ? 12 : 30); d.hardness = rr(0.3, 0.7); d.softness = rr(0, 0.5); d.a = 1; d.opaque = rr(0.2, 1); d.aspect = chance(20) ? 1 : rr(1, 3); d.angle = rr(-200, 400); d.pnum = 0.05;
      s_describe(&d);
      s_dab(a, &d); s_dab(b, &d);
      if (chance(15)) mypaint_tiled_surface_set_symmetry_state(&a->p, active, cx + 13, cy - 7, an + 20, (type + 1) % 5, n + 1), mypaint_tiled_surface_set_symmetry_state(&a->p, active, cx, cy, an, type, n);
      Aff im[100];
      int m = active ? images(type, n, an, cx, cy, im) : 0;
      for (int j = 0; j < m; j++) {
        Dab e = d;
        double t = d.angle * M_PI / 180, ux = cos(t), uy = sin(t);
        e.x = im[j].a * d.x + im[j].b * d.y + im[j].e;
        e.y = im[j].c * d.x + im[j].d * d.y + im[j].f;
        e.angle = atan2(im[j].c * ux + im[j].d * uy, im[j].a * ux + im[j].b * uy) * 180 / M_PI;
        s_dab(b, &e);
      }
    }
    mypaint_surface_end_atomic(s_if(a), NULL); mypaint_surface_end_atomic(s_if(b), NULL);
    CHECK(!a->far && !b->far, "a dab landed far outside the area of its images");
    EACH_TILE(ty, tx) {
      const uint16_t *p = s_t(a, ty, tx), *q = s_t(b, ty, tx);
      if (p == q) continue;
      for (int i = 0; i < 4096; i++) CHECK(abs(p[4 * i + 3] - q[4 * i + 3]) <= 60, "pixel %d,%d has alpha %u, the dab and its %d images give %u", tx * 64 + i % 64, ty * 64 + i / 64, p[4 * i + 3], active ? images(type, n, 0, 0, 0, (Aff[100]){0}) : 0, q[4 * i + 3]);
    }
  }
  NONTRIVIAL();
  s_free(a); s_free(b);
}

/* ---- what a dab does to the pixels below it, from its parameters */
static float cl01(float v) { return v < 0 ? 0 : v > 1 ? 1 : v; }
static void o_ops(void) {
  S *m = s_new(), *s = s_new(), *old = s_new();
  Dab d = any_dab(), k;
  if (d.radius > 20) d.radius = rr(0.3, 20);
  d.x = rr(-80, 80); d.y = rr(-80, 80);
  /* parameters outside [0,1] count as the nearest bound */
  float *f[] = {&d.r, &d.g, &d.b, &d.opaque, &d.softness, &d.a, &d.lock, &d.colorize, &d.poster, &d.paint, &d.hardness};
  for (unsigned i = 0; i < sizeof f / sizeof *f; i++) if (chance(4)) *f[i] = chance(50) ? 1 + rr(0, 3) : -rr(0, 3);
  if (chance(5)) d.pnum = pick(4, -1.0, 0.0, 2.0, 100.0);
  k = d;
  DESC("effect of"); s_describe(&d);
  s_paint_random(s, 2); s_copy(old, s);
  /* the coverage, measured with a black opaque dab of the same shape */
  k.opaque = 1; k.a = 1; k.r = k.g = k.b = k.lock = k.colorize = k.poster = k.paint = 0;
  mypaint_surface_begin_atomic(s_if(m)); s_dab(m, &k); mypaint_surface_end_atomic(s_if(m), NULL);
  mypaint_surface_begin_atomic(s_if(s)); int mod = s_dab(s, &d); mypaint_surface_end_atomic(s_if(s), NULL);
  float opq = cl01(d.opaque), a = cl01(d.a), lock = cl01(d.lock), col = cl01(d.colorize), pos = cl01(d.poster), pnt = cl01(d.paint), normal = 1;
  normal *= 1 - lock; normal *= 1 - col; normal *= 1 - pos;
  int none = d.radius < 0.1f || cl01(d.hardness) == 0 || cl01(d.softness) == 1 || opq == 0;
  CHECK(!mod == !!none, "draw_dab returns %d", mod);
  u C[3] = {(uint16_t)(cl01(d.r) * ONE), (uint16_t)(cl01(d.g) * ONE), (uint16_t)(cl01(d.b) * ONE)};
  double lv = (double)(float)d.pnum * 100.0; u pn = lv < 1 ? 1 : lv > 128 ? 128 : (u)floor(lv + 0.5); if (pn < 1) pn = 1;
  int changed = 0, wg = 0;
  int preserving = normal == 0;
  EACH_TILE(ty, tx) {
    const uint16_t *p = s_t(s, ty, tx), *q = s_t(old, ty, tx), *mk = s_t(m, ty, tx);
    for (int i = 0; i < 4096; i++) {
      int x = tx * 64 + i % 64, y = ty * 64 + i / 64;
      const uint16_t *w = p + 4 * i, *o = q + 4 * i; u mm = mk[4 * i + 3];
      if (!mm || none) { if (memcmp(w, o, 8)) FAIL("pixel %d,%d is not covered by the dab but changed", x, y); continue; }
      if (preserving) CHECK(w[3] == o[3], "pixel %d,%d: alpha changed from %u to %u although the dab has no normal share", x, y, o[3], w[3]);
      if (memcmp(w, o, 8)) changed = 1;
      if (pnt > 0 && o[3] && wg++ > 60 && i % 16) continue;
      uint16_t cur[4]; memcpy(cur, o, 8);
      int tol = 0; u e[4];
#define STEP(W, OP) do { int t = blend_ref(W, C, (u)(uint16_t)(a * ONE), (uint16_t)(OP), pn, mm, cur, e, 0); \
      if (t < 0) goto next; tol += t; if (tol && t == 0) tol += 1; for (int c = 0; c < 4; c++) cur[c] = e[c]; } while (0)
      if (pnt < 1) {
        if (normal != 0) STEP(a == 1 ? NORMAL : ERASER, normal * opq * (1 - pnt) * ONE);
        if (lock != 0 && a != 0) STEP(LOCK, lock * opq * (1 - col) * (1 - pos) * (1 - pnt) * ONE);
      }
      if (pnt > 0) {
        if (normal != 0) STEP(a == 1 ? NPAINT : EPAINT, normal * opq * pnt * ONE);
        if (lock != 0 && a != 0) STEP(LPAINT, lock * opq * (1 - col) * (1 - pos) * pnt * ONE);
      }
      /* colorize and posterize amplify rounding: only checked when what came before is exact */
      if (col != 0) { if (tol) goto next; STEP(COLOR, col * opq * ONE); }
      if (pos != 0) { if (tol) goto next; STEP(POSTER, pos * opq * ONE); }
      CHECK(w[3] == cur[3], "pixel %d,%d: old (%u,%u,%u,%u) coverage %u: alpha is %u, expected %u", x, y, o[0], o[1], o[2], o[3], mm, w[3], cur[3]);
      for (int c = 0; c < 3; c++) CHECK(abs(w[c] - cur[c]) <= tol, "pixel %d,%d: old (%u,%u,%u,%u) coverage %u: channel %d is %u, expected %u (tolerance %d)", x, y, o[0], o[1], o[2], o[3], mm, c, w[c], cur[c], tol);
    next:
      for (int c = 0; c < 3; c++) CHECK(w[c] <= ONE && (pos != 0 || w[c] <= w[3]), "pixel %d,%d: channel %d = %u is not valid under alpha %u", x, y, c, w[c], w[3]);
      CHECK(w[3] <= ONE, "pixel %d,%d: alpha %u exceeds 2^15", x, y, w[3]);
    }
  }
  if (changed) NONTRIVIAL();
  s_free(m); s_free(s); s_free(old);
}

/* ---- colour picking */
static void o_pick(void) {
  S *s = s_new(), *old = s_new();
  int mode = ri(0, 4);
  u C[4];
  C[3] = chance(40) ? ONE : ri(600, ONE);
  for (int c = 0; c < 3; c++) C[c] = chance(25) ? C[3] : chance(25) ? 0 : ri(0, C[3]);
  if (mode == 0) s_paint_random(s, 3);
  else if (mode == 1) ; /* blank */
  else for (int ty = -4; ty < 4; ty++) for (int tx = -4; tx < 4; tx++) { uint16_t *p = s_tile(s, tx, ty); for (int i = 0; i < 4096; i++) for (int c = 0; c < 4; c++) p[4 * i + c] = C[c]; }
  s_copy(old, s);
  DESC("pick mode=%d canvas=(%u,%u,%u,%u)", mode, C[0], C[1], C[2], C[3]);
  for (int k = 0; k < 6; k++) {
    float R = -9, G = -9, B = -9, A = -9, R2, G2, B2, A2;
    float x = rr(-150, 150), y = rr(-150, 150), rad = chance(30) ? rr(0, 2.2) : chance(20) ? rr(20, 90) : rr(0.5, 20), paint = chance(40) ? -1 : chance(30) ? ri(0, 1) : rd();
    if (chance(30)) { x = ri(-2, 2) * 64 + pick(3, 0.0, 0.5, -0.5); }
    ADD(" get_color(%g,%g radius=%g paint=%g)", x, y, rad, paint);
    mypaint_surface_get_color(s_if(s), x, y, rad, &R, &G, &B, &A, paint);
    CHECK(R >= 0 && R <= 1 && G >= 0 && G <= 1 && B >= 0 && B <= 1 && A >= 0 && A <= 1, "picked colour (%g,%g,%g,%g) is outside [0,1]", R, G, B, A);
    if (mode == 1) CHECK(A == 0 && R == 0 && G == 1 && B == 0, "a transparent canvas gives (%g,%g,%g,%g)", R, G, B, A);
    if (mode >= 2) {
      float tol = paint < 0 || paint == 0 ? 2e-3 : 0.02;
      float e[3]; for (int c = 0; c < 3; c++) e[c] = (float)C[c] / C[3];
      CHECK(fabs(A - C[3] / 32768.0) < 2e-3, "alpha %g picked from a uniform canvas with alpha %g", A, C[3] / 32768.0);
      /* quantisation of premultiplied colours */
      tol += 5.0 / C[3];
      CHECK(fabs(R - e[0]) < tol && fabs(G - e[1]) < tol && fabs(B - e[2]) < tol, "colour (%g,%g,%g) picked from a uniform canvas of colour (%g,%g,%g)", R, G, B, e[0], e[1], e[2]);
    }
    float al = mypaint_surface_get_alpha(s_if(s), x, y, rad);
    CHECK(al >= 0 && al <= 1, "get_alpha gives %g", al);
    if (mode >= 1) CHECK(fabs(al - A) < 4e-3, "get_alpha gives %g, get_color %g", al, A);
    (void)R2; (void)G2; (void)B2; (void)A2;
  }
  /* a small area inside a uniform patch: the picked colour depends on nothing else */
  if (mode == 0) {
    int px = ri(-100, 100), py = ri(-100, 100);
    float rad = rr(0.5, 6);
    for (int y = py - 9; y <= py + 9; y++) for (int x = px - 9; x <= px + 9; x++) { uint16_t *p = s_tile(s, fdiv64(x), fdiv64(y)) + 4 * ((y - 64 * fdiv64(y)) * 64 + x - 64 * fdiv64(x)); for (int c = 0; c < 4; c++) p[c] = C[c]; }
    s_copy(old, s);
    float R, G, B, A;
    ADD(" patch(%d,%d) color=(%u,%u,%u,%u)", px, py, C[0], C[1], C[2], C[3]);
    mypaint_surface_get_color(s_if(s), px + rr(-1, 1), py + rr(-1, 1), rad, &R, &G, &B, &A, -1);
    CHECK(fabs(A - C[3] / 32768.0) < 2e-3 && fabs(R - (float)C[0] / C[3]) < 4e-3 && fabs(G - (float)C[1] / C[3]) < 4e-3 && fabs(B - (float)C[2] / C[3]) < 4e-3, "(%g,%g,%g,%g) picked from a uniform patch", R, G, B, A);
  }
  same_tiles(s, old, "picking a colour changed the surface");
  NONTRIVIAL();
  s_free(s); s_free(old);
}
int main(int argc, char **argv) {
  static const NtOracle T[] = {{"dab", o_dab}, {"batch", o_batch}, {"symmetry", o_symmetry}, {"ops", o_ops}, {"pick", o_pick}, {0, 0}};
  return nt_main(argc, argv, T);
}
