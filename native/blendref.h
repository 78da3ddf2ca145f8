/* reference implementations of the blend modes (fixed point, 2^15 = 1.0) */
#ifndef BLENDREF_H
#define BLENDREF_H
#include "helpers.h"
#define ONE 32768u
typedef uint32_t u;
static u mulq(u a, u b) { return (u)((uint64_t)a * b / ONE); }
static u over(u oa, u ob, u C, u c) { return (u)(((uint64_t)oa * C + (uint64_t)ob * c) / ONE); }

static void lum_ref(const u top[3], u bot[3]) {
  const float cr = 0.2126 * 32768, cg = 0.7152 * 32768, cb = 0.0722 * 32768;
#define LUM(r, g, b) (((r) * cr + (g) * cg + (b) * cb) / 32768)
  int bl = LUM((int)bot[0], (int)bot[1], (int)bot[2]), tl = LUM((int)top[0], (int)top[1], (int)top[2]);
  int64_t d = bl - tl, v[3];
  for (int i = 0; i < 3; i++) v[i] = (int64_t)top[i] + d;
  int64_t l = LUM((int)v[0], (int)v[1], (int)v[2]);
  if (l > 32768) l = 32768;
  int64_t mn = v[0], mx = v[0];
  for (int i = 1; i < 3; i++) { if (v[i] < mn) mn = v[i]; if (v[i] > mx) mx = v[i]; }
  if (mn < 0) for (int i = 0; i < 3; i++) v[i] = l + (v[i] - l) * l / (l - mn);
  if (mx > 32768) for (int i = 0; i < 3; i++) v[i] = l + (v[i] - l) * (32768 - l) / (mx - l);
  for (int i = 0; i < 3; i++) bot[i] = v[i];
}
enum { NORMAL, ERASER, LOCK, COLOR, POSTER, NPAINT, EPAINT, LPAINT };
static const char *NAME[] = {"Normal", "Normal_and_Eraser", "LockAlpha", "Color", "Posterize", "Normal_Paint", "Normal_and_Eraser_Paint", "LockAlpha_Paint"};

static void wgm(const u C[3], const uint16_t *px, float fa, float out[3]) {
  float sa[10] = {0}, sb[10] = {0}, s[10];
  rgb_to_spectral((float)C[0] / ONE, (float)C[1] / ONE, (float)C[2] / ONE, sa);
  rgb_to_spectral((float)px[0] / px[3], (float)px[1] / px[3], (float)px[2] / px[3], sb);
  for (int i = 0; i < 10; i++) s[i] = powf(sa[i], fa) * powf(sb[i], 1 - fa);
  spectral_to_rgb(s, out);
}

/* expected pixel e for old pixel o under mask value m; returns the per-channel tolerance for the colours, or -1 when only the
   range of the colours is determined (rounding ties). approx: the pigment modes may skip the colour (cheap runs). */
static int blend_ref(int which, const u C[3], u ca, u op, u pn, u m, const uint16_t *o, u e[4], int skip_pigment) {
  u oa = mulq(m, op), ob = ONE - oa;
  int tol = 0;
  switch (which) {
  case NORMAL: case ERASER: {
    u oa2 = which == ERASER ? mulq(oa, ca) : oa;
    for (int c = 0; c < 3; c++) e[c] = over(oa2, ob, C[c], o[c]);
    e[3] = oa2 + mulq(ob, o[3]);
    break; }
  case LOCK: {
    u oa2 = mulq(oa, o[3]);
    for (int c = 0; c < 3; c++) e[c] = over(oa2, ob, C[c], o[c]);
    e[3] = o[3];
    break; }
  case COLOR: {
    u b[3] = {0, 0, 0};
    if (o[3]) for (int c = 0; c < 3; c++) b[c] = ONE * o[c] / o[3];
    lum_ref(C, b);
    for (int c = 0; c < 3; c++) { CHECK(b[c] <= ONE, "reference out of range"); e[c] = over(oa, ob, mulq(b[c], o[3]), o[c]); }
    e[3] = o[3];
    break; }
  case POSTER:
    e[3] = o[3];
    tol = 1;
    for (int c = 0; c < 3; c++) {
      double v = (double)o[c] / ONE * pn;
      u lev = (u)floor(v + 0.5);
      e[c] = over(oa, ob, (u)((uint64_t)ONE * lev / pn), o[c]);
      if (fabs(v + 0.5 - floor(v + 0.5)) < 1e-4 || fabs(v + 0.5 - ceil(v + 0.5)) < 1e-4) tol = -1;
    }
    break;
  case NPAINT: case EPAINT: case LPAINT: {
    u op2 = which == EPAINT ? op : op < 150 ? 150 : op;
    oa = mulq(m, op2); ob = ONE - oa;
    u oa2 = which == EPAINT ? mulq(oa, ca) : which == LPAINT ? mulq(oa, o[3]) : oa;
    e[3] = which == LPAINT ? o[3] : oa2 + mulq(ob, o[3]);
    u addi[3];
    for (int c = 0; c < 3; c++) addi[c] = over(oa2, ob, C[c], o[c]);
    if (o[3] == 0) { for (int c = 0; c < 3; c++) e[c] = which == LPAINT ? 0 : addi[c]; break; }
    if (skip_pigment) return -1;
    float rgb[3], fa;
    float sum = (which == LPAINT ? oa2 : oa) + mulq(ob, o[3]);
    if (which == LPAINT) fa = sum > 0 ? oa2 / sum : 0;
    else fa = oa / sum;
    if (which == EPAINT) fa *= (float)ca / ONE;
    wgm(C, o, fa, rgb);
    float sf = 1;
    if (which == EPAINT) {
      float b = (float)o[3] / ONE * 8 - 3;
      sf = 0.5f + b / (1 + fabsf(b) * 1.65f);
      if (sf < 0) sf = 0;
      if (sf > 1) sf = 1;
    }
    for (int c = 0; c < 3; c++) e[c] = sf * rgb[c] * e[3] + (1 - sf) * addi[c] + 0.5;
    tol = 24 + e[3] / 110;
    break; }
  }
  return tol;
}
#endif
