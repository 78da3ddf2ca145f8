/* The brush engine, through the public API, on a surface that records the dabs it is asked for. */
#include "nt.h"
#include "brushlib.h"

static const char *pname[17] = {"x", "y", "radius", "color_r", "color_g", "color_b", "opaque", "hardness", "softness", "alpha_eraser", "aspect_ratio", "angle", "lock_alpha", "colorize", "posterize", "posterize_num", "paint"};
static void sane(const Call *c, double over) {
  if (c->get) {
    for (int i = 0; i < 4; i++) CHECK(isfinite(c->v[i]), "a colour is picked with parameter %d = %g", i, c->v[i]);
    CHECK(c->v[2] > 0 && c->v[2] <= 1000, "a colour is picked with radius %g", c->v[2]);
    CHECK(fabs(c->v[0]) < 1e8 && fabs(c->v[1]) < 1e8, "a colour is picked at %g,%g", c->v[0], c->v[1]);
    return;
  }
  for (int i = 0; i < 17; i++) CHECK(isfinite(c->v[i]), "a dab is requested with %s = %g", pname[i], c->v[i]);
  CHECK(c->v[2] > 0 && c->v[2] <= 1e4, "a dab is requested with radius %g", c->v[2]);
  CHECK(c->v[6] >= 0 && c->v[6] <= 1, "a dab is requested with opacity %g", c->v[6]);
  CHECK(c->v[7] >= -1 && c->v[7] <= 1, "a dab is requested with hardness %g", c->v[7]);
  CHECK(c->v[8] >= 0 && c->v[8] <= 1, "a dab is requested with softness %g", c->v[8]);
  CHECK(c->v[11] >= -180.01 && c->v[11] <= 0.01, "a dab is requested with angle %g", c->v[11]);
}
/* every dab is requested with finite, sane parameters */
static void o_dabs(void) {
  Spec s; spec_random(&s, chance(50) ? 0 : 10, 1);
  MyPaintBrush *b = chance(50) ? mypaint_brush_new() : mypaint_brush_new_with_buckets(ri(1, 20));
  mypaint_brush_from_defaults(b); spec_apply(&s, b);
  R *r = r_new(chance(80) ? 0 : 2, 2);
  DESC("brush:"); spec_describe(&s); ADD(" events:");
  Ev e = ev_first(); e.dt = 0.01; int n = ri(3, 25), insane = 0;
  for (int k = 0; k < n; k++) {
    Ev f = e;
    if (chance(4)) { float w[] = {NAN, INFINITY, -INFINITY, 3e10, -2e12, 1e9, -1.5e8, 1e8}; if (chance(70)) f.x = w[ri(0, 7)]; if (chance(70) || f.x == e.x) f.y = w[ri(0, 7)]; insane++; }
    if (k < 12) ev_describe(&f);
    int first = r->n;
    ev_send(b, r, &f);
    for (int i = first; i < r->n; i++) sane(&r->log[i], 1);
    for (int i = 0; i < MYPAINT_BRUSH_STATES_COUNT; i++) CHECK(isfinite(mypaint_brush_get_state(b, i)), "state %d became %g", i, mypaint_brush_get_state(b, i));
    if (r->n > 4000) break;
    e = ev_next(e);
  }
  if (r->draws > 1) NONTRIVIAL();
  mypaint_brush_unref(b); r_free(r);
}
/* the same events give the same dabs: no hidden inputs */
static void o_replay(void) {
  Spec s, s2; spec_random(&s, chance(30) ? 0 : 10, 1); spec_random(&s2, 3, 1);
  int nb = chance(50) ? 0 : ri(1, 10), mode = ri(0, 2), cm = ri(0, 2);
  DESC("brush:"); spec_describe(&s); ADD(" events:");
  Ev ev[20]; int n = ri(3, 20); ev[0] = ev_first(); for (int k = 1; k < n; k++) ev[k] = ev_next(ev[k - 1]);
  if (chance(50)) { int in = chance(50) ? MYPAINT_BRUSH_INPUT_GRIDMAP_X : MYPAINT_BRUSH_INPUT_GRIDMAP_Y; Curve c = {ri(0, NS - 1), in, 2, {0, 256}, {-1, 1}}; if (chance(50)) c.set = MYPAINT_BRUSH_SETTING_OFFSET_X; if (s.nc < 24) s.c[s.nc++] = c; }
  R *ra = r_new(mode, cm), *rb = r_new(mode, cm), *rc = r_new(0, 1);
  nt_fill_byte = 0; MyPaintBrush *a = mypaint_brush_new_with_buckets(nb); mypaint_brush_from_defaults(a); spec_apply(&s, a);
  int ret[20];
  for (int k = 0; k < n; k++) { if (k < 12) ev_describe(&ev[k]); ret[k] = ev_send(a, ra, &ev[k]); if (ra->n > 4000) n = k + 1; }
  nt_fill_byte = chance(50) ? 0x3f : ri(1, 255);
  MyPaintBrush *b = mypaint_brush_new_with_buckets(nb); mypaint_brush_from_defaults(b); spec_apply(&s, b);
  MyPaintBrush *c = chance(50) ? mypaint_brush_new() : 0; if (c) { mypaint_brush_from_defaults(c); spec_apply(&s2, c); }
  nt_fill_byte = 0xa5;
  Ev e2 = ev_first();
  for (int k = 0; k < n; k++) {
    int rt = ev_send(b, rb, &ev[k]);
    CHECK(rt == ret[k], "event %d returned %d, in the identical run %d", k, rt, ret[k]);
    if (c && rc->n < 3000) { ev_send(c, rc, &e2); e2 = ev_next(e2); }
  }
  CHECK(ra->n == rb->n, "%d dabs, in the identical run %d", rb->n, ra->n);
  for (int i = 0; i < ra->n; i++) { if (memcmp(&ra->log[i], &rb->log[i], sizeof(Call))) for (int j = 0; j < 17; j++) CHECK(!memcmp(&ra->log[i].v[j], &rb->log[i].v[j], 4), "dab %d: %s is %.9g, in the identical run %.9g", i, pname[j], rb->log[i].v[j], ra->log[i].v[j]); }
  for (int i = 0; i < MYPAINT_BRUSH_STATES_COUNT; i++) { float x = mypaint_brush_get_state(a, i), y = mypaint_brush_get_state(b, i); CHECK(!memcmp(&x, &y, 4), "state %d is %g, in the identical run %g", i, y, x); }
  if (ra->draws > 1) NONTRIVIAL();
  mypaint_brush_unref(a); mypaint_brush_unref(b); if (c) mypaint_brush_unref(c);
  r_free(ra); r_free(rb); r_free(rc);
}
/* when a stroke ends, and what the stroke timer counts */
static void o_stroke(void) {
  Spec s; spec_random(&s, chance(50) ? 0 : 4, 0.5);
  s.base[MYPAINT_BRUSH_SETTING_TRACKING_NOISE] = 0;
  if (chance(50)) s.base[MYPAINT_BRUSH_SETTING_SLOW_TRACKING] = 0;
  MyPaintBrush *b = mypaint_brush_new(); mypaint_brush_from_defaults(b); spec_apply(&s, b);
  R *r = r_new(ri(0, 2), 1); r->brush = b;
  DESC("dabs %s; brush:", r->mode == 0 ? "paint" : r->mode == 1 ? "do not paint" : "sometimes paint"); spec_describe(&s); ADD(" events:");
  double T = 0, I = 0; float prev = 0; int fresh = 1, nt = 0;
  Ev e = ev_first(); int n = ri(3, 60); double pace = chance(50) ? 1 : rr(0.5, 20);
  for (int k = 0; k < n; k++) {
    if (k < 12) ev_describe(&e);
    if (chance(4)) { mypaint_brush_reset(b); fresh = 1; if (k < 12) ADD(" reset"); }
    if (chance(3)) { mypaint_brush_new_stroke(b); T = I = 0; if (k < 12) ADD(" new_stroke"); CHECK(mypaint_brush_get_total_stroke_painting_time(b) == 0, "a new stroke has painting time %g", mypaint_brush_get_total_stroke_painting_time(b)); }
    if (e.dt < 4 && e.dt > 0) e.dt *= pace;
    int d0 = r->draws, p0 = r->painted, g0 = r->gets;
    double dt = e.dt <= 0 ? 0.0001 : e.dt, p = e.p <= 0 ? 0 : e.p;
    int split = dt > 0.1 && e.p > 0 && mypaint_brush_get_state(b, MYPAINT_BRUSH_STATE_PRESSURE) == 0; /* the hover before the pen comes down is handled as an event of its own */
    r->seen = mypaint_brush_get_state(b, MYPAINT_BRUSH_STATE_PRESSURE);
    int ret = ev_send(b, r, &e);
    int dr = r->draws - d0, pa = r->painted - p0, tried = dr + r->gets - g0; /* a dab can be given up after looking at the canvas */
    double t = mypaint_brush_get_total_stroke_painting_time(b);
    CHECK(t >= 0, "the painting time is %g", t);
    if (split) {
      /* two events, only the second result is visible: resynchronise */
      if (fresh || dt - 0.0001 > 5) { CHECK(mypaint_brush_get_total_stroke_painting_time(b) >= T - 1e-9, "the painting time went back"); }
      CHECK(t <= T + dt + 1e-9, "the painting time grew by %g in an event of %g s", t - T, dt);
      if (!pa) CHECK(t == T || (tried == 0 && t <= T + dt + 1e-9), "the painting time grew although nothing was painted");
      fresh = 0; T = t; I = -1; prev = p; e = ev_next(e); continue;
    }
    if (fresh || dt > 5) {
      CHECK(ret, "the event that starts a new position (%s) does not end the stroke", fresh ? "reset" : "long pause");
      CHECK(dr == 0, "the event that starts a new position (%s) draws %d dabs", fresh ? "reset" : "long pause", dr);
      CHECK(t == T, "the event that starts a new position changes the painting time from %g to %g", T, t);
      CHECK(mypaint_brush_get_state(b, MYPAINT_BRUSH_STATE_PRESSURE) == (float)p, "the pressure state is %g after positioning with pressure %g", mypaint_brush_get_state(b, MYPAINT_BRUSH_STATE_PRESSURE), p);
      if (s.base[MYPAINT_BRUSH_SETTING_SLOW_TRACKING] == 0) CHECK(fabs(mypaint_brush_get_state(b, MYPAINT_BRUSH_STATE_X) - e.x) < 1e-2 && fabs(mypaint_brush_get_state(b, MYPAINT_BRUSH_STATE_Y) - e.y) < 1e-2, "the brush is not at the position it was put");
      fresh = 0; prev = p; nt |= 1; e = ev_next(e); continue;
    }
    int painting;
    if (pa) painting = 1; else if (tried) painting = 0; else painting = I < 0 ? -1 : !(I > 0 || T == 0);
    if (painting < 0) { painting = t > T; }
    if (painting) {
      CHECK(fabs(t - (T + dt)) < 1e-9 * (1 + t), "painting for %g s moved the painting time from %.9g to %.9g", dt, T, t);
      T = t; I = 0;
      int over = T > 4 + 3 * p;
      if (!over) CHECK(!ret, "the stroke ended after %g s of painting at pressure %g", T, p);
      else if ((float)p >= r->seen) { if (fabs(T - (4 + 3 * p)) > 1e-5) CHECK(ret, "the stroke did not end after %g s of painting at pressure %g", T, p); nt |= 2; }
    } else {
      CHECK(t == T, "painting nothing moved the painting time from %.9g to %.9g", T, t);
      if (I < 0) { /* idle time unknown since a split event */ if (ret) { } if (T == 0 && dt > 1.0001) CHECK(ret, "idling for %g s did not end the empty stroke", dt); I = -1; }
      else {
        I += dt;
        if (T == 0) { if (fabs(I - 1) > 1e-5) CHECK(!!ret == (I > 1), "idling for %.9g s without having painted: result %d", I, ret); }
        else { double lim = 0.9 + 5 * p; if (fabs(T + I - lim) > 1e-5) CHECK(!!ret == (T + I > lim), "painted %.9g s, idle %.9g s, pressure %g: result %d", T, I, p, ret); nt |= 4; }
      }
    }
    prev = p;
    if (r->n > 4000) break;
    e = ev_next(e);
  }
  if (nt > 1) NONTRIVIAL();
  mypaint_brush_unref(b); r_free(r);
}
/* smudge buckets: accessors, isolation, reset */
#define BK 9
static int bget(MyPaintBrush *b, int i, float *v) { for (int k = 0; k < BK; k++) v[k] = -77; return mypaint_brush_get_smudge_bucket_state(b, i, v, v + 1, v + 2, v + 3, v + 4, v + 5, v + 6, v + 7, v + 8); }
static int bset(MyPaintBrush *b, int i, const float *v) { return mypaint_brush_set_smudge_bucket_state(b, i, v[0], v[1], v[2], v[3], v[4], v[5], v[6], v[7], v[8]); }
static void o_bucket(void) {
  int N = chance(20) ? 0 : chance(20) ? 1 : chance(20) ? 256 : ri(2, 40);
  nt_fill_byte = ri(1, 255);
  MyPaintBrush *b = N ? mypaint_brush_new_with_buckets(N) : mypaint_brush_new(); mypaint_brush_from_defaults(b);
  nt_fill_byte = 0xa5;
  float m[256][BK]; memset(m, 0, sizeof m); int lo = -1, hi = -1, nt = 0;
  Spec s; spec_random(&s, 0, 0);
  s.base[MYPAINT_BRUSH_SETTING_SMUDGE] = rr(0.1, 1); s.base[MYPAINT_BRUSH_SETTING_SMUDGE_LENGTH] = rr(0, 0.99); s.base[MYPAINT_BRUSH_SETTING_SMUDGE_TRANSPARENCY] = 0;
  s.base[MYPAINT_BRUSH_SETTING_DABS_PER_ACTUAL_RADIUS] = 2; s.base[MYPAINT_BRUSH_SETTING_SMUDGE_BUCKET] = 0; s.base[MYPAINT_BRUSH_SETTING_RADIUS_LOGARITHMIC] = 1; s.base[MYPAINT_BRUSH_SETTING_TRACKING_NOISE] = 0;
  spec_apply(&s, b);
  R *r = r_new(0, 2);
  DESC("%d buckets:", N);
  Ev e = ev_first(); e.dt = 0.01; ev_send(b, r, &e);
  int n = ri(5, 40);
  for (int k = 0; k < n; k++) {
    int w = ri(0, 9), i = chance(80) && N ? ri(0, N - 1) : ri(-3, 300); float v[BK];
    if (w <= 3) {
      for (int j = 0; j < BK; j++) v[j] = chance(10) ? 0 : rd();
      int ok = bset(b, i, v), in = i >= 0 && i < N;
      ADD(" set(%d)", i);
      CHECK(!!ok == in, "setting bucket %d of %d %s", i, N, ok ? "succeeded" : "failed");
      if (in) { memcpy(m[i], v, sizeof v); if (lo < 0 || i < lo) lo = i; if (i > hi) hi = i; nt = 1; }
    } else if (w <= 5) {
      int ok = bget(b, i, v), in = i >= 0 && i < N;
      CHECK(!!ok == in, "reading bucket %d of %d %s", i, N, ok ? "succeeded" : "failed");
      if (!in) for (int j = 0; j < BK; j++) CHECK(v[j] == -77, "a failed read wrote to its outputs");
    } else if (w <= 7) {
      /* draw with one bucket selected */
      float z = chance(60) && N ? ri(0, N - 1) : rr(-5, 300);
      if (chance(30)) z = floor(z) + rr(-0.49, 0.49);
      if (fabs(z - floor(z) - 0.5) < 1e-3) z = floor(z);
      mypaint_brush_set_base_value(b, MYPAINT_BRUSH_SETTING_SMUDGE_BUCKET, z);
      float st[9]; for (int j = 0; j < 9; j++) st[j] = mypaint_brush_get_state(b, MYPAINT_BRUSH_STATE_SMUDGE_RA + j);
      int d0 = r->draws, g0 = r->gets;
      for (int q = 0; q < 3; q++) { e.x += rr(-10, 10); e.y += rr(-10, 10); e.dt = 0.01; e.p = 1; ev_send(b, r, &e); }
      ADD(" draw(bucket %.6g)", z);
      if (N) {
        int sel = (int)rint(z); if (sel < 0) sel = 0; if (sel > N - 1) sel = N - 1;
        if (r->draws > d0) { if (lo < 0 || sel < lo) lo = sel; if (sel > hi) hi = sel; nt = 1; }
        bget(b, sel, v);
        if (r->gets > g0) { CHECK(v[8] == 1 || v[8] > 0, "the sampled bucket was not updated"); }
        for (int j = 0; j < BK; j++) CHECK(v[j] >= 0 && v[j] <= 1.0001, "component %d of the bucket that is drawn with is %g", j, v[j]);
        if (r->draws == d0) CHECK(!memcmp(v, m[sel], sizeof v), "nothing was drawn, but bucket %d changed", sel);
        memcpy(m[sel], v, sizeof v);
        for (int j = 0; j < 9; j++) CHECK(st[j] == mypaint_brush_get_state(b, MYPAINT_BRUSH_STATE_SMUDGE_RA + j), "the single smudge state changed although buckets are in use");
      }
    } else if (w == 8) {
      /* a reset takes effect with the next event */
      mypaint_brush_reset(b); e.dt = 0.01; ev_send(b, r, &e);
      memset(m, 0, sizeof m); lo = hi = -1; ADD(" reset"); nt = 1;
    }
    CHECK(mypaint_brush_get_min_smudge_bucket_used(b) == lo && mypaint_brush_get_max_smudge_bucket_used(b) == hi, "used buckets are reported as %d..%d instead of %d..%d", mypaint_brush_get_min_smudge_bucket_used(b), mypaint_brush_get_max_smudge_bucket_used(b), lo, hi);
    for (int q = 0; q < N; q++) { CHECK(bget(b, q, v), "bucket %d cannot be read", q); for (int j = 0; j < BK; j++) CHECK(v[j] == m[q][j], "component %d of bucket %d is %g instead of %g", j, q, v[j], m[q][j]); }
  }
  if (nt) NONTRIVIAL();
  mypaint_brush_unref(b); r_free(r);
}
int main(int c, char **v) {
  static const NtOracle t[] = {{"dabs", o_dabs}, {"replay", o_replay}, {"stroke", o_stroke}, {"bucket", o_bucket}, {0}};
  return nt_main(c, v, t);
}
