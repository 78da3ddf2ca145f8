#include "nt.h"
#include "mypaint-mapping.h"
/* eval: mypaint_mapping_calculate against the definition; store: random histories of the setters against a plain model */
#define MAXI 20
static struct { int n; float x[64], y[64]; } M[MAXI];
static float base; static int NI;
static float fval(void) {
  switch (ri(0, 6)) { case 0: return 0; case 1: return 1; case 2: return ri(-5, 5); case 3: return ri(-8, 8) * 0.25f; case 4: return rr(-1000, 1000); default: return rr(-1, 1); }
}
static MyPaintMapping *mk(void) {
  NI = chance(20) ? 1 : ri(1, MAXI);
  MyPaintMapping *m = mypaint_mapping_new(NI);
  CHECK(mypaint_mapping_get_base_value(m) == 0, "new mapping has base value %g", mypaint_mapping_get_base_value(m));
  CHECK(mypaint_mapping_is_constant(m) && mypaint_mapping_get_inputs_used_n(m) == 0, "new mapping is not constant");
  for (int i = 0; i < NI; i++) { M[i].n = 0; CHECK(mypaint_mapping_get_n(m, i) == 0, "new mapping: input %d has %d points", i, mypaint_mapping_get_n(m, i)); }
  base = 0;
  return m;
}
static void setcurve(MyPaintMapping *m, int i) {
  int n = chance(20) ? 0 : chance(10) ? 64 : ri(2, chance(70) ? 4 : 64);
  mypaint_mapping_set_n(m, i, n);
  M[i].n = n;
  float x = fval();
  for (int k = 0; k < n; k++) {
    float y = (k && chance(25)) ? M[i].y[k - 1] : fval();
    M[i].x[k] = x; M[i].y[k] = y;
    mypaint_mapping_set_point(m, i, k, x, y);
    if (!chance(20)) x += chance(50) ? ri(0, 3) * 0.25 : rr(0, 2);
  }
}
static void verify(MyPaintMapping *m, const char *when) {
  int used = 0;
  CHECK(mypaint_mapping_get_base_value(m) == base, "%s: base value is %g, was set to %g", when, mypaint_mapping_get_base_value(m), base);
  for (int i = 0; i < NI; i++) {
    int n = mypaint_mapping_get_n(m, i);
    CHECK(n == M[i].n, "%s: input %d has %d points, was given %d", when, i, n, M[i].n);
    used += n != 0;
    for (int k = 0; k < n; k++) {
      float x = -9e9, y = -9e9;
      mypaint_mapping_get_point(m, i, k, &x, &y);
      CHECK(x == M[i].x[k] && y == M[i].y[k], "%s: input %d point %d is (%g,%g), was set to (%g,%g)", when, i, k, x, y, M[i].x[k], M[i].y[k]);
    }
  }
  CHECK(mypaint_mapping_get_inputs_used_n(m) == used, "%s: inputs_used is %d, %d curves are in use", when, mypaint_mapping_get_inputs_used_n(m), used);
  CHECK(!!mypaint_mapping_is_constant(m) == (used == 0), "%s: is_constant wrong with %d curves", when, used);
}
static double contrib(int i, double x, double *mag) {
  int n = M[i].n, k;
  if (!n) return 0;
  for (k = 1; k < n - 1; k++) if (x <= M[i].x[k]) break;
  double x0 = M[i].x[k - 1], x1 = M[i].x[k], y0 = M[i].y[k - 1], y1 = M[i].y[k];
  if (x0 == x1 || y0 == y1) { *mag += fabs(y0); return y0; }
  double t = fabs((x - x0) / (x1 - x0));
  *mag += (fabs(y1) + fabs(y0)) * (1 + t) * 2;
  /* cancellation in x - x0 and x1 - x0 is exact in the reference only */
  return y0 + (y1 - y0) * (x - x0) / (x1 - x0);
}
static void o_eval(void) {
  MyPaintMapping *m = mk();
  if (chance(80)) { base = fval(); mypaint_mapping_set_base_value(m, base); }
  int k = chance(10) ? 0 : ri(1, NI);
  for (int j = 0; j < k; j++) setcurve(m, ri(0, NI - 1));
  for (int rep = 0; rep < 12; rep++) {
    float data[MAXI];
    double e = base, mag = fabs(base);
    DESC("inputs=%d base=%g data:", NI, base);
    for (int i = 0; i < NI; i++) {
      data[i] = fval();
      if (M[i].n && chance(60)) {
        int p = ri(0, M[i].n - 1);
        data[i] = chance(50) ? M[i].x[p] : M[i].x[p] + rr(-0.5, 0.5);
        if (chance(15)) data[i] = M[i].x[chance(50) ? 0 : M[i].n - 1] + rr(-30, 30);
      }
      e += contrib(i, data[i], &mag);
      if (M[i].n) ADD(" [%d n=%d x=%g]", i, M[i].n, data[i]);
    }
    float before[MAXI]; memcpy(before, data, sizeof data);
    float r = mypaint_mapping_calculate(m, data);
    CHECK(!memcmp(before, data, sizeof data), "the inputs were modified");
    CHECK(fabs(r - e) <= 1e-5 * mag * 8 + 1e-6, "value %.9g, expected %.9g", r, e);
    if (NI == 1) { float r1 = mypaint_mapping_calculate_single_input(m, data[0]); CHECK(r1 == r, "single input gives %g instead of %g", r1, r); }
    if (mypaint_mapping_get_inputs_used_n(m)) { if (rep == 0) NONTRIVIAL(); }
    else CHECK(r == base, "a constant mapping gives %g instead of its base value %g", r, base);
  }
  verify(m, "after evaluation");
  mypaint_mapping_free(m);
}
static void o_store(void) {
  MyPaintMapping *m = mk(), *other = mypaint_mapping_new(3);
  mypaint_mapping_set_n(other, 1, 2); mypaint_mapping_set_point(other, 1, 0, 1, 2); mypaint_mapping_set_point(other, 1, 1, 3, 4);
  int ops = ri(1, 40);
  DESC("inputs=%d ops=%d:", NI, ops);
  for (int k = 0; k < ops; k++) {
    int i = chance(30) ? (chance(50) ? 0 : NI - 1) : ri(0, NI - 1);
    switch (ri(0, 3)) {
    case 0: base = fval(); mypaint_mapping_set_base_value(m, base); ADD(" base"); break;
    case 1: setcurve(m, i); ADD(" curve(%d,%d)", i, M[i].n); break;
    case 2: { /* shrink or grow a curve: the stored points stay; new ones must be set */
      int n = M[i].n ? ri(2, M[i].n) : 0;
      mypaint_mapping_set_n(m, i, n); M[i].n = n; ADD(" n(%d,%d)", i, n); break; }
    default: if (M[i].n) { /* move one point within its neighbours */
      int p = chance(30) ? M[i].n - 1 : ri(0, M[i].n - 1);
      float lo = p ? M[i].x[p - 1] : -2000, hi = p < M[i].n - 1 ? M[i].x[p + 1] : 5000;
      if (lo <= hi) { float x = lo + (hi - lo) * (float)rd(); if (x < lo) x = lo; if (x > hi) x = hi; M[i].x[p] = x; M[i].y[p] = fval();
        mypaint_mapping_set_point(m, i, p, M[i].x[p], M[i].y[p]); ADD(" point(%d,%d)", i, p); }
      break; }
    }
    verify(m, "history");
  }
  float x, y;
  mypaint_mapping_get_point(other, 1, 1, &x, &y);
  CHECK(mypaint_mapping_get_n(other, 0) == 0 && mypaint_mapping_get_n(other, 1) == 2 && x == 3 && y == 4, "another mapping changed");
  NONTRIVIAL();
  mypaint_mapping_free(m); mypaint_mapping_free(other);
}
int main(int argc, char **argv) {
  static const NtOracle T[] = {{"eval", o_eval}, {"store", o_store}, {0, 0}};
  return nt_main(argc, argv, T);
}
