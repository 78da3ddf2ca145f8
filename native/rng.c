/* The random generator: range, determinism, independence, recurrence. */
#include "nt.h"
#include "rng-double.h"
#include "helpers.h"
static long seed_of(void) { switch (ri(0, 4)) { case 0: return ri(0, 20); case 1: return ri(-20, 0); case 2: return 1000; case 3: return (long)ri(INT32_MIN, INT32_MAX); default: return (long)nt_u64(); } }
static double addmod(double a, double b) { double s = a + b; return s - (int)s; }

/* the state after seeding, in integers: numbers are multiples of 2^-52 */
#define M52 ((1ull << 52) - 1)
static void start(long seed, uint64_t *st) {
  uint64_t u[19], ss = 2 * ((seed & 0x3fffffff) + 2); long s = seed & 0x3fffffff;
  for (int j = 0; j < 10; j++) { u[j] = ss; ss += ss; if (ss > M52) ss -= M52 + 1 - 2; }
  u[1]++;
  for (int t = 6; t;) {
    uint64_t v[19] = {0};
    for (int j = 0; j < 10; j++) v[2 * j] = u[j];
    for (int j = 18; j >= 10; j--) { v[j - 3] = (v[j - 3] + v[j]) & M52; v[j - 10] = (v[j - 10] + v[j]) & M52; }
    if (s & 1) { u[0] = v[9]; for (int j = 1; j < 10; j++) u[j] = v[j - 1]; u[7] = (u[7] + v[9]) & M52; }
    else for (int j = 0; j < 10; j++) u[j] = v[j];
    if (s) s >>= 1; else t--;
  }
  for (int i = 0; i < 10; i++) st[i] = u[(i + 7) % 10];
  for (int w = 0; w < 10; w++) {
    uint64_t a[29];
    for (int i = 0; i < 29; i++) a[i] = i < 10 ? st[i] : (a[i - 10] + a[i - 7]) & M52;
    for (int i = 0; i < 10; i++) st[i] = a[19 + i];
  }
}
static void o_array(void) {
  long sd = seed_of(); int k = ri(1, 6);
  RngDouble *r = rng_double_new(sd), *r2 = rng_double_new(sd);
  DESC("seed %ld:", sd);
  double h[4000]; int m = 0; uint64_t st[10]; start(sd, st);
  for (int c = 0; c < k; c++) {
    int n = c % 3 == 2 ? ri(10, 12) : ri(10, 200); double *a = malloc(n * sizeof(double)), *b = malloc(n * sizeof(double));
    rng_double_get_array(r, a, n);
    if (chance(30)) { double z[40]; rng_double_get_array(r2, b, n); rng_double_get_array(r, z, 10); double y[40]; rng_double_get_array(r2, y, 10); for (int i = 0; i < 10; i++) CHECK(z[i] == y[i], "equal seeds give different sequences");
      for (int i = 0; i < n; i++) h[m++] = a[i]; for (int i = 0; i < 10; i++) h[m++] = z[i]; for (int i = 0; i < n; i++) CHECK(a[i] == b[i], "equal seeds give different sequences"); }
    else { rng_double_get_array(r2, b, n); for (int i = 0; i < n; i++) { h[m++] = a[i]; CHECK(a[i] == b[i], "equal seeds give different sequences at %d", i); } }
    ADD(" array(%d)", n);
    free(a); free(b);
  }
  for (int i = 0; i < 10; i++) CHECK(h[i] == st[i] / 4503599627370496.0, "element %d after seeding is %.17g instead of %.17g", i, h[i], st[i] / 4503599627370496.0);
  int dist = 0;
  for (int i = 0; i < m; i++) {
    CHECK(h[i] >= 0 && h[i] < 1, "value %.17g is outside [0,1)", h[i]);
    if (i >= 10) CHECK(h[i] == addmod(h[i - 10], h[i - 7]), "the sequence does not continue: element %d is %.17g, expected %.17g", i, h[i], addmod(h[i - 10], h[i - 7]));
    for (int j = i - 10; j >= 0 && j < i; j++) dist += h[j] != h[i];
  }
  CHECK(m < 20 || dist > m, "the sequence hardly varies");
  NONTRIVIAL();
  rng_double_free(r); rng_double_free(r2);
}
/* element t of rng_double_next: blocks of 19 array elements, of which the first 10 are handed out */
static void ref(long sd, double *o, int n) {
  RngDouble *r = rng_double_new(sd); int k = 0;
  while (k < n) { double a[19]; rng_double_get_array(r, a, 19); for (int i = 0; i < 10 && k < n; i++) o[k++] = a[i]; }
  rng_double_free(r);
}
static void o_next(void) {
  int G = ri(1, 4); RngDouble *g[4]; long sd[4]; double *e[4]; int p[4] = {0};
  DESC("generators:");
  for (int i = 0; i < G; i++) { sd[i] = i && chance(30) ? sd[0] : seed_of(); g[i] = rng_double_new(sd[i]); e[i] = malloc(600 * sizeof(double)); ref(sd[i], e[i], 600); ADD(" %ld", sd[i]); }
  int n = ri(10, 500);
  for (int k = 0; k < n; k++) {
    int i = ri(0, G - 1);
    if (chance(2)) { sd[i] = chance(50) ? sd[i] : seed_of(); rng_double_set_seed(g[i], sd[i]); ref(sd[i], e[i], 600); p[i] = 0; ADD(" reseed(%d,%ld)", i, sd[i]); }
    double v = rng_double_next(g[i]);
    CHECK(v >= 0 && v < 1, "value %.17g is outside [0,1)", v);
    CHECK(v == e[i][p[i]], "value %d of generator %d (seed %ld) is %.17g, expected %.17g", p[i], i, sd[i], v, e[i][p[i]]);
    p[i]++;
  }
  NONTRIVIAL();
  for (int i = 0; i < G; i++) { rng_double_free(g[i]); free(e[i]); }
}
static void o_gauss(void) {
  long sd = seed_of(); RngDouble *r = rng_double_new(sd); DESC("seed %ld", sd);
  double *e = malloc(4000 * sizeof(double)); ref(sd, e, 4000);
  for (int i = 0; i < 1000; i++) {
    float v = rand_gauss(r);
    double x = (e[4 * i] + e[4 * i + 1] + e[4 * i + 2] + e[4 * i + 3] - 2) * 1.73205080757;
    CHECK(fabs(v) <= 3.4642, "noise value %g is outside its range", v);
    CHECK(fabs(v - x) < 1e-5, "noise value %d is %.9g, expected %.9g", i, v, x);
  }
  NONTRIVIAL();
  free(e); rng_double_free(r);
}
int main(int c, char **v) {
  static const NtOracle t[] = {{"array", o_array}, {"next", o_next}, {"gauss", o_gauss}, {0}};
  return nt_main(c, v, t);
}
