/* Oracles for the blend functions of brushmodes.c: exact fixed-point references, run on random masks. */
#include "nt.h"
#include "brushmodes.h"
#include "helpers.h"
#include "blendref.h"
#define NPIX 4096

static uint16_t mask[NPIX + 2 * 64 + 64], *maskp;
static uint16_t opa[NPIX];          /* what the mask means */
static uint16_t img[NPIX * 4], ref[NPIX * 4];

static uint16_t r15(void) {
  switch (ri(0, 7)) {
  case 0: return 0; case 1: return ONE; case 2: return ri(1, 8); case 3: return ONE - ri(1, 8); case 4: return 1u << ri(0, 15);
  default: return ri(0, ONE);
  }
}
/* a mask over the tile: runs of opaque and transparent pixels, encoded as the renderer does */
static void mkmask(int style) {
  int p = 0;
  memset(opa, 0, sizeof opa);
  int lead = chance(50);
  int budget = style == 2 ? NPIX : ri(1, 300);
  if (lead) p = ri(1, style == 1 ? 4000 : 700);
  while (p < NPIX && budget > 0) {
    int run = ri(1, style == 1 ? 3 : style == 2 ? 4096 : 80);
    for (int k = 0; k < run && p < NPIX && budget > 0; k++, p++, budget--) { opa[p] = r15(); if (!opa[p]) opa[p] = 1; }
    if (style == 2 && chance(70)) continue;
    p += ri(1, style == 1 ? 4 : 200);
  }
  if (chance(20)) opa[NPIX - 1] = r15();
  if (chance(20)) opa[0] = r15();
  maskp = mask;
  int skip = 0;
  for (int i = 0; i < NPIX; i++) {
    if (!opa[i]) { skip++; continue; }
    if (maskp + 4 >= mask + sizeof mask / 2 - 2) { opa[i] = 0; skip++; continue; }
    if (skip) { *maskp++ = 0; *maskp++ = skip * 4; skip = 0; }
    *maskp++ = opa[i];
  }
  *maskp++ = 0; *maskp++ = 0;
}
static void mkimg(int straight) {
  int mode = ri(0, 3);
  for (int i = 0; i < NPIX; i++) {
    uint16_t a = mode == 0 ? 0 : mode == 1 ? ONE : r15();
    if (mode == 3 && chance(30)) a = ri(0, 40);
    img[4 * i + 3] = a;
    for (int c = 0; c < 3; c++) img[4 * i + c] = chance(10) ? a : chance(10) ? 0 : ri(0, a);
  }
  memcpy(ref, img, sizeof img);
}
static void blend_case(int which) {
  u C[3], ca = r15(), op = r15(), pn = ri(1, 128);
  for (int c = 0; c < 3; c++) C[c] = r15();
  if (which >= NPAINT && chance(30)) op = ri(0, 400);
  mkmask(ri(0, 2)); mkimg(0);
  if (which >= NPAINT) { /* keep the expensive modes short */
    int n = 0; for (int i = 0; i < NPIX; i++) n += opa[i] != 0;
  }
  DESC("blend %s color=(%u,%u,%u) color_a=%u opacity=%u levels=%u mask=%d entries", NAME[which], C[0], C[1], C[2], ca, op, pn, (int)(maskp - mask));
  switch (which) {
  case NORMAL: draw_dab_pixels_BlendMode_Normal(mask, img, C[0], C[1], C[2], op); break;
  case ERASER: draw_dab_pixels_BlendMode_Normal_and_Eraser(mask, img, C[0], C[1], C[2], ca, op); break;
  case LOCK: draw_dab_pixels_BlendMode_LockAlpha(mask, img, C[0], C[1], C[2], op); break;
  case COLOR: draw_dab_pixels_BlendMode_Color(mask, img, C[0], C[1], C[2], op); break;
  case POSTER: draw_dab_pixels_BlendMode_Posterize(mask, img, op, pn); break;
  case NPAINT: draw_dab_pixels_BlendMode_Normal_Paint(mask, img, C[0], C[1], C[2], op); break;
  case EPAINT: draw_dab_pixels_BlendMode_Normal_and_Eraser_Paint(mask, img, C[0], C[1], C[2], ca, op); break;
  case LPAINT: draw_dab_pixels_BlendMode_LockAlpha_Paint(mask, img, C[0], C[1], C[2], op); break;
  }
  int n = 0, wgms = 0;
  for (int i = 0; i < NPIX; i++) {
    const uint16_t *o = ref + 4 * i, *w = img + 4 * i;
    if (!opa[i]) {
      CHECK(!memcmp(o, w, 8), "pixel %d is not covered by the mask but changed from (%u,%u,%u,%u) to (%u,%u,%u,%u)", i, o[0], o[1], o[2], o[3], w[0], w[1], w[2], w[3]);
      continue;
    }
    n++;
    u e[4] = {0};
    int pig = which >= NPAINT && o[3] != 0;
    int tol = blend_ref(which, C, ca, op, pn, opa[i], o, e, pig && wgms++ > 60 && i % 8);
    if (which == COLOR || which == POSTER || which == LPAINT || which == LOCK)
      CHECK(w[3] == o[3], "pixel %d: alpha changed from %u to %u although this mode preserves it", i, o[3], w[3]);
    CHECK(w[3] == e[3], "pixel %d: old (%u,%u,%u,%u) mask %u: alpha %u, expected %u", i, o[0], o[1], o[2], o[3], opa[i], w[3], e[3]);
    for (int c = 0; c < 3; c++) {
      if (which != POSTER) CHECK(w[c] <= w[3], "pixel %d: channel %d = %u exceeds alpha %u (old (%u,%u,%u,%u) mask %u)", i, c, w[c], w[3], o[0], o[1], o[2], o[3], opa[i]);
      CHECK(w[c] <= ONE, "pixel %d: channel %d = %u exceeds 2^15", i, c, w[c]);
      if (tol >= 0) CHECK(abs((int)w[c] - (int)e[c]) <= tol, "pixel %d: old (%u,%u,%u,%u) mask %u: channel %d is %u, expected %u (tolerance %d)", i, o[0], o[1], o[2], o[3], opa[i], c, w[c], e[c], tol);
    }
  }
  if (n) NONTRIVIAL();
}
static void o_normal(void) { blend_case(NORMAL); }
static void o_eraser(void) { blend_case(ERASER); }
static void o_lock(void) { blend_case(LOCK); }
static void o_color(void) { blend_case(COLOR); }
static void o_poster(void) { blend_case(POSTER); }
static void o_npaint(void) { blend_case(NPAINT); }
static void o_epaint(void) { blend_case(EPAINT); }
static void o_lpaint(void) { blend_case(LPAINT); }
static void o_all(void) { blend_case((int)(nt_case % 8)); }

int main(int argc, char **argv) {
  static const NtOracle T[] = {{"all", o_all}, {"normal", o_normal}, {"eraser", o_eraser}, {"lock", o_lock}, {"color", o_color}, {"poster", o_poster}, {"npaint", o_npaint}, {"epaint", o_epaint}, {"lpaint", o_lpaint}, {0, 0}};
  return nt_main(argc, argv, T);
}
