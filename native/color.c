/* Colour-space conversions and spectral mixing. */
#include "nt.h"
#include "helpers.h"
#define RT_TOL 5e-4
static double cl(double x) { return x < 0 ? 0 : x > 1 ? 1 : x; }
static float comp(void) { switch (ri(0, 9)) { case 0: return 0; case 1: return 1; case 2: return ri(0, 255) / 255.0f; case 3: return rr(0, 0.002); case 4: return 1 - rr(0, 0.002); case 5: return (ri(0, 6)) / 6.0f; default: return rd(); } }
static void rgb3(float *c) {
  for (int i = 0; i < 3; i++) c[i] = comp();
  if (chance(25)) c[1] = c[0];
  if (chance(25)) c[2] = c[chance(50)];
  if (chance(10)) c[ri(0, 2)] += rr(-1, 1) * 1e-4, c[0] = cl(c[0]), c[1] = cl(c[1]), c[2] = cl(c[2]);
}
static double mx(const double *c) { return fmax(c[0], fmax(c[1], c[2])); }
static double mn(const double *c) { return fmin(c[0], fmin(c[1], c[2])); }
static double hue(const double *c) {
  double M = mx(c), d = M - mn(c), h;
  if (d == 0) return 0;
  if (M == c[0]) h = (c[1] - c[2]) / d; else if (M == c[1]) h = 2 + (c[2] - c[0]) / d; else h = 4 + (c[0] - c[1]) / d;
  h /= 6; return h < 0 ? h + 1 : h;
}
static double hd(double a, double b) { double d = fabs(a - b); d -= floor(d); return d > 0.5 ? 1 - d : d; }
/* reference: hue angle picks the position on the colour hexagon */
static void hexagon(double h, double *o) { h = (h - floor(h)) * 6; for (int i = 0; i < 3; i++) { double k = fmod(h + (i == 0 ? 0 : i == 1 ? 4 : 2), 6); o[i] = cl(fabs(k - 3) - 1); } }

/* hues: multiples of sixths, values next to them down to where the fractional part rounds to one, anything */
static float hues(void) {
  switch (ri(0, 5)) {
    case 0: return ri(-6, 12) / 6.0f;
    case 1: return (chance(50) ? 1 : -1) * (float)ldexp(rr(0.5, 1), -ri(5, 60));
    case 2: { float h = ri(-12, 18) / 6.0f; for (int k = ri(1, 4); k; k--) h = nextafterf(h, chance(50) ? 9 : -9); return h; }
    case 3: return rr(-1000, 1000);
    default: return rr(-3, 3);
  }
}
static void o_hsv(void) {
  float c[3]; rgb3(c);
  int wild = chance(15); if (wild) for (int i = 0; i < 3; i++) if (chance(60)) c[i] = rr(-3, 4);
  double C[3] = {cl(c[0]), cl(c[1]), cl(c[2])};
  DESC("rgb %.9g %.9g %.9g", c[0], c[1], c[2]);
  float h = c[0], s = c[1], v = c[2]; rgb_to_hsv_float(&h, &s, &v);
  double M = mx(C), d = M - mn(C);
  CHECK(h >= 0 && h <= 1 && s >= 0 && s <= 1 && v >= 0 && v <= 1, "hsv %g %g %g is out of range", h, s, v);
  CHECK(fabs(v - M) < 1e-6, "value %.9g, expected %.9g", v, M);
  if (d > 0.00011) { CHECK(fabs(s - d / M) < 1e-5, "saturation %.9g, expected %.9g", s, d / M); CHECK(hd(h, hue(C)) < 1e-6 + 1e-7 / d, "hue %.9g, expected %.9g", h, hue(C)); NONTRIVIAL(); }
  else if (d < 0.00009) CHECK(s == 0, "a grey has saturation %g", s);
  float r = h, g = s, b = v; hsv_to_rgb_float(&r, &g, &b);
  CHECK(fabs(r - C[0]) < 1.2e-4 && fabs(g - C[1]) < 1.2e-4 && fabs(b - C[2]) < 1.2e-4, "hsv and back: %.9g %.9g %.9g", r, g, b);
  if (d > 0.00011) CHECK(fabs(r - C[0]) < 2e-6 && fabs(g - C[1]) < 2e-6 && fabs(b - C[2]) < 2e-6, "hsv and back: %.9g %.9g %.9g", r, g, b);
  /* the other direction, including hues outside of the unit interval */
  float H = hues(), S_ = comp(), V = comp(); if (chance(10)) S_ = rr(-1, 2); if (chance(10)) V = rr(-1, 2);
  DESC("hsv %.9g %.9g %.9g", H, S_, V);
  r = H, g = S_, b = V; hsv_to_rgb_float(&r, &g, &b);
  double x[3]; hexagon(H, x);
  for (int i = 0; i < 3; i++) { double e = cl(V) * (1 - cl(S_) * (1 - x[i])); float o = i == 0 ? r : i == 1 ? g : b; CHECK(o >= 0 && o <= 1, "component %d is %g", i, o); CHECK(fabs(o - e) < 3e-6, "component %d is %.9g, expected %.9g", i, o, e); }
  h = r, s = g, v = b; rgb_to_hsv_float(&h, &s, &v);
  CHECK(fabs(v - cl(V)) < 1e-6, "value %.9g became %.9g", V, v);
  if (cl(V) * cl(S_) > 0.001) { CHECK(fabs(s - cl(S_)) < 1e-6 / cl(V) + 1e-6, "saturation %.9g became %.9g", S_, s); CHECK(hd(h, H) < 2e-6 / (cl(V) * cl(S_)), "hue %.9g became %.9g", H, h); }
}
static void o_hsl(void) {
  float c[3]; rgb3(c);
  int wild = chance(15); if (wild) for (int i = 0; i < 3; i++) if (chance(60)) c[i] = rr(-3, 4);
  double C[3] = {cl(c[0]), cl(c[1]), cl(c[2])};
  DESC("rgb %.9g %.9g %.9g", c[0], c[1], c[2]);
  float h = c[0], s = c[1], l = c[2]; rgb_to_hsl_float(&h, &s, &l);
  double M = mx(C), m = mn(C), d = M - m, L = (M + m) / 2;
  CHECK(h >= 0 && h <= 1 && s >= 0 && s <= 1 + 1e-6 && l >= 0 && l <= 1, "hsl %g %g %g is out of range", h, s, l);
  CHECK(fabs(l - L) < 1e-6, "lightness %.9g, expected %.9g", l, L);
  if (d > 0) { double e = L <= 0.5 ? d / (M + m) : d / (2 - M - m); CHECK(fabs(s - e) < 1e-6 + (L > 0.5 ? 1e-7 / (2 - M - m) : 0), "saturation %.9g, expected %.9g", s, e); CHECK(hd(h, hue(C)) < 1e-6 + 1e-7 / d, "hue %.9g, expected %.9g", h, hue(C)); NONTRIVIAL(); }
  else CHECK(s == 0, "a grey has saturation %g", s);
  float r = h, g = s, b = l; hsl_to_rgb_float(&r, &g, &b);
  CHECK(fabs(r - C[0]) < 3e-6 && fabs(g - C[1]) < 3e-6 && fabs(b - C[2]) < 3e-6, "hsl and back: %.9g %.9g %.9g", r, g, b);
  float H = hues(), S_ = comp(), Lf = comp(); if (chance(10)) S_ = rr(-1, 2); if (chance(10)) Lf = rr(-1, 2);
  DESC("hsl %.9g %.9g %.9g", H, S_, Lf);
  r = H, g = S_, b = Lf; hsl_to_rgb_float(&r, &g, &b);
  double x[3]; hexagon(H, x);
  for (int i = 0; i < 3; i++) { double ch = (1 - fabs(2 * cl(Lf) - 1)) * cl(S_), e = cl(Lf) + ch * (x[i] - 0.5); float o = i == 0 ? r : i == 1 ? g : b; CHECK(o >= -1e-6 && o <= 1 + 1e-6, "component %d is %g", i, o); CHECK(fabs(o - e) < 3e-6, "component %d is %.9g, expected %.9g", i, o, e); }
  h = r, s = g, l = b; rgb_to_hsl_float(&h, &s, &l);
  CHECK(fabs(l - cl(Lf)) < 1e-6, "lightness %.9g became %.9g", Lf, l);
  double ch = (1 - fabs(2 * cl(Lf) - 1)) * cl(S_);
  if (ch > 0.001) { CHECK(fabs(s - cl(S_)) < 2e-6 / (1 - fabs(2 * cl(Lf) - 1)), "saturation %.9g became %.9g", S_, s); CHECK(hd(h, H) < 2e-6 / ch, "hue %.9g became %.9g", H, h); }
}
static void o_hcy(void) {
  float c[3]; rgb3(c);
  if (chance(15)) { float w = chance(50) ? 1 : 0; for (int i = 0; i < 3; i++) c[i] = fabs(w - ri(0, 4) * 5.9604645e-8); }
  double C[3] = {c[0], c[1], c[2]};
  DESC("rgb %.9g %.9g %.9g", c[0], c[1], c[2]);
  float h = c[0], s = c[1], y = c[2]; rgb_to_hcy_float(&h, &s, &y);
  double Y = 0.2126 * C[0] + 0.7152 * C[1] + 0.0722 * C[2], M = mx(C), m = mn(C);
  CHECK(h >= 0 && h <= 1 && s >= 0 && s <= 1 && y >= 0 && y <= 1.000001, "hcy %.9g %.9g %.9g is out of range", h, s, y);
  CHECK(fabs(y - Y) < 1e-6, "luma %.9g, expected %.9g", y, Y);
  if (M > m) { CHECK(hd(h, hue(C)) < 1e-6 + 1e-7 / (M - m), "hue %.9g, expected %.9g", h, hue(C)); NONTRIVIAL(); }
  else CHECK(s == 0, "a grey has chroma %g", s);
  if (M > m && Y > 0.001 && Y < 0.999) { double e = fmax((Y - m) / Y, (M - Y) / (1 - Y)); CHECK(fabs(s - e) < 1e-6 + 2e-7 / Y + 2e-7 / (1 - Y), "chroma %.9g, expected %.9g", s, e); }
  float r = h, g = s, b = y; hcy_to_rgb_float(&r, &g, &b);
  CHECK(fabs(r - C[0]) < 1e-5 && fabs(g - C[1]) < 1e-5 && fabs(b - C[2]) < 1e-5, "hcy and back: %.9g %.9g %.9g (hcy %.9g %.9g %.9g)", r, g, b, h, s, y);
  float H = hues(), Ch = comp(), Yf = comp(); if (chance(10)) Ch = rr(-1, 2); if (chance(10)) Yf = rr(-1, 2);
  DESC("hcy %.9g %.9g %.9g", H, Ch, Yf);
  r = H, g = Ch, b = Yf; hcy_to_rgb_float(&r, &g, &b);
  CHECK(r >= -1e-6 && r <= 1 + 1e-6 && g >= -1e-6 && g <= 1 + 1e-6 && b >= -1e-6 && b <= 1 + 1e-6, "rgb %.9g %.9g %.9g is out of range", r, g, b);
  double lum = 0.2126 * r + 0.7152 * g + 0.0722 * b;
  CHECK(fabs(lum - cl(Yf)) < 2e-6, "luma %.9g became %.9g", Yf, lum);
  double D[3] = {r, g, b}; double dd = mx(D) - mn(D);
  if (dd > 0.001) CHECK(hd(hue(D), H) < 2e-6 / dd, "hue %.9g became %.9g", H, hue(D));
  if (cl(Ch) == 0) CHECK(dd < 1e-6, "no chroma, but rgb %g %g %g", r, g, b);
}
static void o_angle(void) {
  float N = chance(50) ? 360 : rr(0.1, 1000), a = chance(30) ? ri(-1440, 1440) : rr(-5000, 5000);
  DESC("%.9g mod %.9g", a, N);
  float m = mod_arith(a, N);
  double q = (a - (double)m) / N;
  CHECK(m >= -1e-6 * fabs(a) && m <= N + 1e-6 * fabs(a), "mod gives %.9g", m);
  CHECK(fabs(q - rint(q)) < 1e-6 * (1 + fabs(a) / N), "mod gives %.9g which is not congruent", m);
  float A = chance(30) ? 90 * ri(-8, 8) : rr(-1000, 1000), B = chance(30) ? 90 * ri(-8, 8) : rr(-1000, 1000);
  DESC("angles %.9g %.9g", A, B);
  float d = smallest_angular_difference(A, B);
  CHECK(d >= -180 && d <= 180, "difference %.9g", d);
  q = ((double)B - A - d) / 360;
  CHECK(fabs(q - rint(q)) < 1e-5, "difference %.9g is not congruent to %.9g", d, B - A);
  NONTRIVIAL();
}
/* upsampling tables as published with the pigment model (libmypaint 1.5) */
static void o_spectral(void) {
  float c[3], s[10] = {0}, o[3] = {9, 9, 9}; rgb3(c);
  DESC("rgb %.9g %.9g %.9g", c[0], c[1], c[2]);
  rgb_to_spectral(c[0], c[1], c[2], s);
  for (int i = 0; i < 10; i++) CHECK(s[i] > 0 && s[i] <= 3, "band %d is %g", i, s[i]);
  for (int i = 0; i < 10; i++) if (c[0] <= 1 && c[1] <= 1 && c[2] <= 1) CHECK(s[i] < 1.1, "band %d reflects more than all light: %g", i, s[i]);
  spectral_to_rgb(s, o);
  for (int i = 0; i < 3; i++) CHECK(fabs(o[i] - c[i]) < RT_TOL, "channel %d became %.9g", i, o[i]);
  /* adds to what is there */
  float t[10], u[3]; float d[3]; rgb3(d); float e[10] = {0};
  memcpy(t, s, sizeof t); rgb_to_spectral(d[0], d[1], d[2], t); rgb_to_spectral(d[0], d[1], d[2], e);
  for (int i = 0; i < 10; i++) CHECK(fabs(t[i] - s[i] - e[i]) < 1e-5, "spectra do not accumulate");
  /* any spectrum maps into the gamut */
  for (int i = 0; i < 10; i++) t[i] = chance(20) ? 0 : rr(0, 3);
  spectral_to_rgb(t, u);
  for (int i = 0; i < 3; i++) CHECK(u[i] >= 0 && u[i] <= 1, "channel %d of an arbitrary spectrum is %g", i, u[i]);
  NONTRIVIAL();
}
static void o_mix(void) {
  float a[4], b[4]; rgb3(a); rgb3(b); a[3] = comp(); b[3] = comp();
  if (chance(10)) memcpy(b, a, 12);
  float fac = chance(15) ? 0 : chance(15) ? 1 : rd(), pm = chance(30) ? 0 : chance(40) ? 1 : rd();
  DESC("mix(%g %g %g %g; %g %g %g %g; %.9g, paint %.9g)", a[0], a[1], a[2], a[3], b[0], b[1], b[2], b[3], fac, pm);
  float a0[4], b0[4]; memcpy(a0, a, 16); memcpy(b0, b, 16);
  float *p = mix_colors(a, b, fac, pm), r[4]; memcpy(r, p, 16);
  CHECK(!memcmp(a, a0, 16) && !memcmp(b, b0, 16), "an argument was modified");
  for (int i = 0; i < 4; i++) CHECK(r[i] >= 0 && r[i] <= 1, "channel %d of the mixture is %g", i, r[i]);
  CHECK(fabs(r[3] - (fac * a[3] + (1 - fac) * b[3])) < 1e-6, "alpha is %.9g", r[3]);
  double f = a[3] == 0 ? 0 : fac * a[3] / (a[3] + b[3] * (1 - fac)); /* pigment share of a */
  float sa[10] = {0}, sb[10] = {0}, mixed[10], pig[3];
  rgb_to_spectral(a[0], a[1], a[2], sa); rgb_to_spectral(b[0], b[1], b[2], sb);
  for (int i = 0; i < 10; i++) mixed[i] = exp(log(sa[i]) * f + log(sb[i]) * (1 - f));
  spectral_to_rgb(mixed, pig);
  for (int i = 0; i < 3; i++) {
    double lin = fac * a[i] + (1 - fac) * b[i], e = pm * pig[i] + (1 - pm) * lin;
    CHECK(fabs(r[i] - e) < 2e-5, "channel %d is %.9g, expected %.9g", i, r[i], e);
    if (fac == 0) CHECK(fabs(r[i] - b[i]) < RT_TOL, "weight 0 gives channel %d %.9g instead of %.9g", i, r[i], b[i]);
    if (fac == 1 && (a[3] > 0 || pm == 0)) CHECK(fabs(r[i] - a[i]) < RT_TOL, "weight 1 gives channel %d %.9g instead of %.9g", i, r[i], a[i]);
    if (!memcmp(a, b, 12)) CHECK(fabs(r[i] - a[i]) < RT_TOL, "mixing a colour with itself gives channel %d %.9g instead of %.9g", i, r[i], a[i]);
  }
  /* the same again: no history */
  float z[4] = {rd(), rd(), rd(), rd()}, w[4] = {rd(), rd(), rd(), rd()}; mix_colors(z, w, rd(), rd());
  p = mix_colors(a, b, fac, pm);
  CHECK(!memcmp(p, r, 16), "the mixture depends on earlier calls");
  NONTRIVIAL();
}
int main(int c, char **v) {
  static const NtOracle t[] = {{"hsv", o_hsv}, {"hsl", o_hsl}, {"hcy", o_hcy}, {"angle", o_angle}, {"spectral", o_spectral}, {"mix", o_mix}, {0}};
  return nt_main(c, v, t);
}
