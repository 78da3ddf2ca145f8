/* The tables of settings, inputs and states are what brushsettings.json says, names are found, and a brush with
 * default settings has exactly the documented defaults. Working directory: the parent of src/. */
#include "nt.h"
#include "brushlib.h"
#include <json.h>
static json_object *J, *A[3];
static void load(void) {
  if (J) return;
  J = json_object_from_file("src/brushsettings.json"); CHECK(J, "brushsettings.json cannot be read");
  const char *k[3] = {"settings", "inputs", "states"};
  for (int i = 0; i < 3; i++) CHECK(json_object_object_get_ex(J, k[i], &A[i]), "brushsettings.json: no %s", k[i]);
}
static const char *str(json_object *o, const char *k) { json_object *v = 0; return json_object_object_get_ex(o, k, &v) ? json_object_get_string(v) : 0; }
static float flt(json_object *o, const char *k, float dflt) { json_object *v = 0; if (!json_object_object_get_ex(o, k, &v) || !v) return dflt; return (float)json_object_get_double(v); }
static int idx(json_object *a, const char *k, const char *name) { for (size_t i = 0; i < json_object_array_length(a); i++) if (!strcmp(str(json_object_array_get_idx(a, i), k), name)) return i; return -1; }
static void o_table(void) {
  load();
  int s = nt_case % NS, i = nt_case % NI;
  CHECK(json_object_array_length(A[0]) == NS && json_object_array_length(A[1]) == NI && json_object_array_length(A[2]) == MYPAINT_BRUSH_STATES_COUNT, "the counts %d, %d, %d do not match brushsettings.json", NS, NI, MYPAINT_BRUSH_STATES_COUNT);
  json_object *o = json_object_array_get_idx(A[0], s);
  const MyPaintBrushSettingInfo *f = mypaint_brush_setting_info(s);
  DESC("setting %d (%s), input %d", s, f->cname, i);
  CHECK(!strcmp(f->cname, str(o, "internal_name")), "setting %d is called %s instead of %s", s, f->cname, str(o, "internal_name"));
  CHECK(!strcmp(mypaint_brush_setting_info_get_name(f), str(o, "displayed_name")), "setting %d has name %s", s, f->name);
  CHECK(!strcmp(mypaint_brush_setting_info_get_tooltip(f), str(o, "tooltip")), "setting %d has tooltip %s", s, f->tooltip);
  CHECK(f->min == flt(o, "minimum", -INFINITY) && f->max == flt(o, "maximum", INFINITY) && f->def == flt(o, "default", NAN), "setting %s: range %g..%g default %g", f->cname, f->min, f->max, f->def);
  CHECK(f->min <= f->def && f->def <= f->max, "setting %s: default %g outside %g..%g", f->cname, f->def, f->min, f->max);
  json_object *c = 0; json_object_object_get_ex(o, "constant", &c);
  CHECK(!f->constant == !json_object_get_boolean(c), "setting %s: constant is %d", f->cname, f->constant);
  CHECK(mypaint_brush_setting_from_cname(f->cname) == (MyPaintBrushSetting)s, "setting %s is found as %d instead of %d", f->cname, mypaint_brush_setting_from_cname(f->cname), s);
  o = json_object_array_get_idx(A[1], i);
  const MyPaintBrushInputInfo *g = mypaint_brush_input_info(i);
  CHECK(!strcmp(g->cname, str(o, "id")), "input %d is called %s instead of %s", i, g->cname, str(o, "id"));
  CHECK(!strcmp(mypaint_brush_input_info_get_name(g), str(o, "displayed_name")) && !strcmp(mypaint_brush_input_info_get_tooltip(g), str(o, "tooltip")), "input %s: name %s, tooltip %s", g->cname, g->name, g->tooltip);
  CHECK(g->hard_min == flt(o, "hard_minimum", -3.40282347e38f) && g->hard_max == flt(o, "hard_maximum", 3.40282347e38f), "input %s: hard range %g..%g", g->cname, g->hard_min, g->hard_max);
  CHECK(g->soft_min == flt(o, "soft_minimum", NAN) && g->soft_max == flt(o, "soft_maximum", NAN) && g->normal == flt(o, "normal", NAN), "input %s: soft range %g..%g normal %g", g->cname, g->soft_min, g->soft_max, g->normal);
  CHECK(g->hard_min <= g->soft_min && g->soft_min < g->soft_max && g->soft_max <= g->hard_max && g->soft_min <= g->normal && g->normal <= g->soft_max, "input %s: ranges %g %g %g %g %g", g->cname, g->hard_min, g->soft_min, g->normal, g->soft_max, g->hard_max);
  CHECK(mypaint_brush_input_from_cname(g->cname) == (MyPaintBrushInput)i, "input %s is found as %d instead of %d", g->cname, mypaint_brush_input_from_cname(g->cname), i);
  NONTRIVIAL();
}
/* arbitrary names: found iff listed */
static void o_names(void) {
  load();
  char n[80]; int w = ri(0, 5), inp = chance(40);
  const char *real = inp ? mypaint_brush_input_info(ri(0, NI - 1))->cname : mypaint_brush_setting_info(ri(0, NS - 1))->cname;
  snprintf(n, sizeof n, "%s", real);
  int l = strlen(n);
  if (w == 1) n[ri(0, l - 1)] = ri(1, 255);
  else if (w == 2) n[ri(0, l)] = 0;
  else if (w == 3) snprintf(n + l, sizeof n - l, "%c", (int)ri(32, 126));
  else if (w == 4) n[ri(0, l - 1)] ^= 32;
  else if (w == 5) { int k = ri(0, 12); for (int i = 0; i < k; i++) n[i] = ri(1, 255); n[k] = 0; }
  DESC("name %s", n);
  int es = idx(A[0], "internal_name", n), ei = idx(A[1], "id", n);
  int gs = (int)mypaint_brush_setting_from_cname(n), gi = (int)mypaint_brush_input_from_cname(n);
  CHECK(gs == es, "as a setting the name is found as %d instead of %d", gs, es);
  CHECK(gi == ei, "as an input the name is found as %d instead of %d", gi, ei);
  NONTRIVIAL();
}
/* whatever the brush was like before */
static void o_defaults(void) {
  MyPaintBrush *b = chance(50) ? mypaint_brush_new() : mypaint_brush_new_with_buckets(ri(0, 9));
  Spec s; spec_random(&s, 20, 1);
  DESC("after"); spec_describe(&s);
  if (chance(80)) { spec_apply(&s, b); if (chance(50)) { R *r = r_new(0, 1); Ev e = ev_first(); for (int k = 0; k < 4 && r->n < 1000; k++) { ev_send(b, r, &e); e = ev_next(e); } r_free(r); } }
  mypaint_brush_from_defaults(b);
  for (int i = 0; i < NS; i++) {
    const MyPaintBrushSettingInfo *f = mypaint_brush_setting_info(i);
    float d = f->def, g = mypaint_brush_get_base_value(b, i);
    CHECK(g == d, "default of %s: %g instead of %g", f->cname, g, d);
    for (int k = 0; k < NI; k++) {
      int op = i == MYPAINT_BRUSH_SETTING_OPAQUE_MULTIPLY && k == MYPAINT_BRUSH_INPUT_PRESSURE, n = mypaint_brush_get_mapping_n(b, i, k);
      CHECK(n == (op ? 2 : 0), "default of %s <- %s: %d points", f->cname, mypaint_brush_input_info(k)->cname, n);
      if (op) for (int q = 0; q < 2; q++) { float x, y; mypaint_brush_get_mapping_point(b, i, k, q, &x, &y); CHECK(x == q && y == q, "default of %s <- pressure: point %d is %g,%g", f->cname, q, x, y); }
    }
    CHECK(mypaint_brush_is_constant(b, i) == (i != MYPAINT_BRUSH_SETTING_OPAQUE_MULTIPLY), "default of %s: constant = %d", f->cname, mypaint_brush_is_constant(b, i));
  }
  NONTRIVIAL();
  mypaint_brush_unref(b);
}
int main(int c, char **v) {
  static const NtOracle t[] = {{"table", o_table}, {"names", o_names}, {"defaults", o_defaults}, {0}};
  return nt_main(c, v, t);
}
