/* Brush files: what is loaded is what the file says, and nothing a file contains can break the brush. */
#include "nt.h"
#include "brushlib.h"
#include <json.h>

typedef struct { float base; int n[NI]; float x[NI][64], y[NI][64]; } Set;
static Set M[NS];   /* expected contents */
static char free_[NS]; /* contents unspecified: a malformed entry names it */
static char T[1 << 20]; static int tn;
static void P(const char *f, ...) { va_list a; va_start(a, f); tn += vsnprintf(T + tn, sizeof T - tn, f, a); va_end(a); if (tn > (int)sizeof T - 2000) tn = sizeof T - 2000; }
static void ws(void) { if (chance(15)) P("%s", (const char *[]){" ", "\n", "\t ", "  \r\n"}[ri(0, 3)]); }
static void read_back(MyPaintBrush *b, Set *m) {
  for (int s = 0; s < NS; s++) {
    m[s].base = mypaint_brush_get_base_value(b, s);
    for (int i = 0; i < NI; i++) {
      int n = m[s].n[i] = mypaint_brush_get_mapping_n(b, s, i);
      CHECK(n == 0 || (n >= 2 && n <= 64), "setting %d, input %d: curve of %d points", s, i, n);
      for (int k = 0; k < n; k++) {
        mypaint_brush_get_mapping_point(b, s, i, k, &m[s].x[i][k], &m[s].y[i][k]);
        CHECK(!k || m[s].x[i][k] >= m[s].x[i][k - 1], "setting %d, input %d: points out of order", s, i);
      }
    }
  }
}
static void same(MyPaintBrush *b, const char *when) {
  static Set g[NS]; read_back(b, g);
  for (int s = 0; s < NS; s++) {
    if (free_[s]) continue;
    const char *sn = mypaint_brush_setting_info(s)->cname;
    CHECK(!memcmp(&g[s].base, &M[s].base, 4), "%s: base value of %s is %.9g instead of %.9g", when, sn, g[s].base, M[s].base);
    int used = 0;
    for (int i = 0; i < NI; i++) {
      const char *in = mypaint_brush_input_info(i)->cname;
      CHECK(g[s].n[i] == M[s].n[i], "%s: %s <- %s has %d points instead of %d", when, sn, in, g[s].n[i], M[s].n[i]);
      for (int k = 0; k < M[s].n[i]; k++) CHECK(g[s].x[i][k] == M[s].x[i][k] && g[s].y[i][k] == M[s].y[i][k], "%s: %s <- %s point %d is %.9g,%.9g instead of %.9g,%.9g", when, sn, in, k, g[s].x[i][k], g[s].y[i][k], M[s].x[i][k], M[s].y[i][k]);
      if (M[s].n[i]) used++;
    }
    CHECK(mypaint_brush_is_constant(b, s) == !used && mypaint_brush_get_inputs_used_n(b, s) == used, "%s: %s uses %d inputs instead of %d", when, sn, mypaint_brush_get_inputs_used_n(b, s), used);
  }
}
static float num(void) { /* prints a number and returns what a reader of the file must get */
  char t[64]; double v;
  switch (ri(0, 5)) {
    case 0: snprintf(t, sizeof t, "%d", (int)ri(-5, 5)); break;
    case 1: snprintf(t, sizeof t, "%.1f", rr(-10, 10)); break;
    case 2: snprintf(t, sizeof t, "%.17g", rr(-1, 1)); break;
    case 3: snprintf(t, sizeof t, "%.3e", rr(-1000, 1000)); break;
    case 4: snprintf(t, sizeof t, "%.9g", (float)rr(-1, 1)); break;
    default: snprintf(t, sizeof t, "%.6f", rr(-3, 3));
  }
  P("%s", t); v = strtod(t, 0);
  return (float)v;
}
static const char *junk(void) { return (const char *[]){"null", "true", "7", "-1.5", "\"text\"", "[]", "[1,2]", "[[1,2],[3,4]]", "{}", "{\"x\":1}", "[[]]", "[null]", "[[0,0],null]", "[\"a\",\"b\"]", "1e400", "\"\"", "[[0,1],[\"q\",{}]]", "{\"base_value\":1}", "{\"inputs\":{}}", "[[[]]]"}[ri(0, 19)]; }
static int is(const char *j, char c) { return j[0] == c; }
static int curve_points(int s, int i, int n) {
  float x[64], y[64]; double at = rr(-5, 5);
  P("[");
  for (int k = 0; k < n; k++) {
    if (k) P(",");
    ws(); P("["); ws();
    char t[32]; snprintf(t, sizeof t, chance(30) ? "%.1f" : "%.9g", at); P("%s", t); x[k] = (float)strtod(t, 0); if (k && x[k] < x[k - 1]) return -1;
    P(","); ws(); y[k] = num(); if (chance(3)) P(", 99"); P("]");
    if (!chance(15)) at += rr(0, 3);
  }
  P("]");
  M[s].n[i] = n; memcpy(M[s].x[i], x, n * 4); memcpy(M[s].y[i], y, n * 4);
  return 0;
}
static void bad_curve(void) {
  switch (ri(0, 5)) {
    case 0: P("[[0.5, 0.5]]"); break;                                  /* a single point */
    case 1: P("[[1, 0], [0.5, 1]]"); break;                            /* out of order */
    case 2: { P("["); int n = ri(65, 200); for (int k = 0; k < n; k++) P("%s[%d,%d]", k ? "," : "", k, k); P("]"); break; } /* too many */
    case 3: P("[[0, 0], %s, [1, 1]]", (const char *[]){"null", "3", "\"x\"", "{}"}[ri(0, 3)]); break;
    case 4: P("[0, 0, 1, 1]"); break;
    case 5: P("[[0,0],[1,1],[0.999,1]]"); break;
  }
}
static MyPaintBrush *some_brush(void) {
  MyPaintBrush *b = chance(50) ? mypaint_brush_new() : mypaint_brush_new_with_buckets(ri(1, 5));
  mypaint_brush_from_defaults(b);
  if (chance(70)) { Spec s; spec_random(&s, 6, 1); spec_apply(&s, b); }
  return b;
}
static void quiet(void) { static FILE *n; if (!n) { n = fopen("/dev/null", "w"); stderr = n; } }
/* brush files with known contents */
static void o_load(void) {
  quiet();
  MyPaintBrush *b = some_brush();
  memset(M, 0, sizeof M); memset(free_, 0, sizeof free_);
  read_back(b, M);
  static Set old[NS]; memcpy(old, M, sizeof M);
  tn = 0; int top = ri(0, 99), any = 0, nothing = 0;
  if (top < 6) {
    const char *t[] = {"", "{", "version 3", "# mypaint brush\nversion 2\n", "[", "{\"version\": 3, \"settings\": {", "{\"version\": 3,, }", "nul", "\"abc", "{\"a\" 1}", "\xff\xfe"};
    int k = ri(0, 11); if (k < 11) P("%s", t[k]); DESC("unreadable text %s", k < 11 ? T : "NULL");
    CHECK(!mypaint_brush_from_string(b, k < 11 ? T : NULL), "loading %s reports success", nt_desc);
    same(b, "after an unreadable file"); NONTRIVIAL(); mypaint_brush_unref(b); return;
  }
  if (top < 12) { P("%s", junk()); nothing = 1; }
  else {
    int vfirst = chance(60), v = chance(90) ? 3 : 0;
    char vs[64] = "";
    if (v == 3) strcpy(vs, "\"version\": 3"); else { int w = ri(0, 5); nothing = 1; strcpy(vs, (const char *[]){"\"version\": 2", "\"version\": 4", "\"version\": 0", "\"version\": null", "\"version\": {}", "\"group\": \"x\""}[w]); }
    P("{"); ws();
    if (chance(40)) P("\"comment\": \"MyPaint brush file\", \"group\": \"\", \"parent_brush_name\": \"classic\\/brush\",");
    if (vfirst) P("%s,", vs);
    if (chance(4)) { P("\"nosettings\": {}"); nothing = 1; }
    else if (chance(4)) { const char *j; do j = junk(); while (is(j, '{')); P("\"settings\": %s", j); nothing = 1; }
    else {
      P("\"settings\":"); ws(); P("{");
      char used[NS] = {0}; int n = ri(0, 12), first = 1;
      for (int k = 0; k < n; k++) {
        if (!first) P(",");
        first = 0; ws();
        int s = ri(0, NS - 1); while (used[s]) s = (s + 1) % NS;
        const char *cn = mypaint_brush_setting_info(s)->cname; int w = ri(0, 99);
        if (w < 8) { P("\"%s%d\": {\"base_value\": 1, \"inputs\": {}}", (const char *[]){"no_such_setting_", "Opaque", "opaque_", ""}[ri(0, 3)], k); continue; }
        used[s] = 1;
        P("\"%s\":", cn); ws();
        if (w < 12) { const char *j; do j = junk(); while (is(j, '{')); P("%s", j); continue; }
        if (w < 15) { P("{\"inputs\": {\"pressure\": [[0,0],[1,1]]}}"); free_[s] = 1; continue; }
        if (w < 18) { P("{\"base_value\": 0.5}"); free_[s] = 1; continue; }
        int bad = w < 26;
        P("{"); ws();
        int bfirst = chance(70);
        if (bfirst) { P("\"base_value\":"); M[s].base = num(); P(","); }
        P("\"inputs\":"); ws();
        if (bad && chance(30)) { const char *j; do j = junk(); while (is(j, '{')); P("%s", j); free_[s] = 1; }
        else {
          P("{"); char ui[NI] = {0}; int ni = chance(40) ? 0 : ri(1, 4);
          if (bad && !ni) ni = 1;
          int badat = bad ? ri(0, ni - 1) : -1;
          for (int q = 0; q < ni; q++) {
            if (q) P(",");
            int i = ri(0, NI - 1); while (ui[i]) i = (i + 1) % NI;
            ui[i] = 1;
            if (q == badat) {
              free_[s] = 1;
              int how = ri(0, 2);
              if (how == 0) P("\"no_such_input%d\": []", q);
              else if (how == 1) { const char *j; do j = junk(); while (is(j, '[')); P("\"%s\": %s", mypaint_brush_input_info(i)->cname, j); }
              else { P("\"%s\":", mypaint_brush_input_info(i)->cname); bad_curve(); }
            } else { P("\"%s\":", mypaint_brush_input_info(i)->cname); ws(); int np = chance(20) ? 0 : chance(5) ? 64 : ri(2, 9); if (curve_points(s, i, np) < 0) { mypaint_brush_unref(b); return; } }
          }
          P("}");
        }
        if (!bfirst) { P(",\"base_value\":"); M[s].base = num(); }
        P("}");
        if (!bad) any = 1;
      }
      P("}");
    }
    if (!vfirst) P(",%s", vs);
    P("}");
  }
  if (nothing) { memcpy(M, old, sizeof M); memset(free_, 0, sizeof free_); any = 0; }
  DESC("%.*s", 3000, T);
  json_object *o = json_tokener_parse(T); if (!o) { mypaint_brush_unref(b); return; } json_object_put(o);
  int r = mypaint_brush_from_string(b, T);
  same(b, "after loading");
  CHECK(!!r == any, "loading reports %s", r ? "success" : "failure");
  NONTRIVIAL();
  if (chance(20)) { /* loading again changes nothing */
    CHECK(!!mypaint_brush_from_string(b, T) == any, "the second load of the same file reports the opposite");
    same(b, "after loading again");
  }
  mypaint_brush_unref(b);
}
/* a brush loaded from a file paints like the brush that was configured through the setters */
static void o_paint(void) {
  quiet();
  Spec s; spec_random(&s, 8, 1);
  tn = 0; P("{\"version\": 3, \"settings\": {");
  for (int i = 0; i < NS; i++) {
    if (i) P(",");
    P("\"%s\": {\"base_value\": %.9g, \"inputs\": {", mypaint_brush_setting_info(i)->cname, s.base[i]);
    int f = 1;
    for (int in = 0; in < NI; in++) { Curve *c = 0; for (int k = 0; k < s.nc; k++) if (s.c[k].set == i && s.c[k].in == in) c = &s.c[k]; /* the last one counts */
      if (!c) continue;
      P("%s\"%s\": [", f ? "" : ",", mypaint_brush_input_info(in)->cname); f = 0;
      for (int k = 0; k < c->n; k++) P("%s[%.9g, %.9g]", k ? "," : "", c->x[k], c->y[k]);
      P("]"); }
    P("}}");
  }
  P("}}");
  DESC("%.*s", 3500, T);
  MyPaintBrush *a = mypaint_brush_new(), *b = mypaint_brush_new();
  mypaint_brush_from_defaults(a); mypaint_brush_from_defaults(b);
  mypaint_brush_set_mapping_n(a, MYPAINT_BRUSH_SETTING_OPAQUE_MULTIPLY, MYPAINT_BRUSH_INPUT_PRESSURE, 0); mypaint_brush_set_mapping_n(b, MYPAINT_BRUSH_SETTING_OPAQUE_MULTIPLY, MYPAINT_BRUSH_INPUT_PRESSURE, 0);
  spec_apply(&s, a);
  CHECK(mypaint_brush_from_string(b, T), "a complete brush file is rejected");
  R *ra = r_new(0, 2), *rb = r_new(0, 2);
  Ev e = ev_first(); int n = ri(3, 15);
  for (int k = 0; k < n; k++) { CHECK(ev_send(a, ra, &e) == ev_send(b, rb, &e), "event %d: the loaded brush disagrees on the end of the stroke", k); if (ra->n > 2000) break; e = ev_next(e); }
  CHECK(ra->n == rb->n, "the loaded brush paints %d dabs instead of %d", rb->n, ra->n);
  for (int i = 0; i < ra->n; i++) for (int j = 0; j < 17; j++) CHECK(!memcmp(&ra->log[i].v[j], &rb->log[i].v[j], 4), "dab %d, argument %d: %g instead of %g", i, j, rb->log[i].v[j], ra->log[i].v[j]);
  if (ra->n) NONTRIVIAL();
  mypaint_brush_unref(a); mypaint_brush_unref(b); r_free(ra); r_free(rb);
}
/* damaged files */
static void o_damage(void) {
  quiet();
  MyPaintBrush *b = some_brush();
  tn = 0; P("{\"version\": 3, \"settings\": {");
  int n = ri(1, 5);
  for (int k = 0; k < n; k++) {
    P("%s\"%s\": {\"base_value\": %.3g, \"inputs\": {", k ? "," : "", mypaint_brush_setting_info(ri(0, NS - 1))->cname, rr(-2, 2));
    int ni = ri(0, 2); for (int q = 0; q < ni; q++) P("%s\"%s\": [[0.0, %.2g], [%.2g, 1.0]]", q ? "," : "", mypaint_brush_input_info(ri(0, NI - 1))->cname, rr(-1, 1), rr(0, 2));
    P("}}");
  }
  P("}}");
  int cuts = ri(1, 6);
  for (int k = 0; k < cuts; k++) {
    int w = ri(0, 5), at = ri(0, tn - 1);
    if (w == 0) T[at] = "{}[]:,\"0123456789.-eE nulltrufas"[ri(0, 32)];
    else if (w == 1) T[at] = ri(1, 255);
    else if (w == 2) { int len = ri(1, 20); if (at + len > tn) len = tn - at; memmove(T + at, T + at + len, tn - at - len + 1); tn -= len; if (tn < 4) break; }
    else if (w == 3) { int len = ri(1, 40); if (at + len > tn) len = tn - at; char c[64]; memcpy(c, T + at, len); memmove(T + at + len, T + at, tn - at + 1); memcpy(T + at, c, len); tn += len; }
    else if (w == 4) { /* replace a value by junk */ char *p = strchr(T + at, ':'); if (p) { char *q = p + 1; int d = 0; while (*q && !(d == 0 && (*q == ',' || *q == '}'))) { if (*q == '{' || *q == '[') d++; if (*q == '}' || *q == ']') d--; q++; } const char *j = junk(); int l = strlen(j); memmove(p + 1 + l, q, strlen(q) + 1); memcpy(p + 1, j, l); tn = strlen(T); } }
    else { T[at] = 0; tn = at; if (tn < 4) break; }
  }
  tn = strlen(T);
  DESC("%.*s", 3000, T);
  memset(free_, 0, sizeof free_); read_back(b, M);
  json_object *o = json_tokener_parse(T); int parses = o != 0; if (o) json_object_put(o);
  int r = mypaint_brush_from_string(b, T);
  if (!parses) { CHECK(!r, "an unreadable file is reported as loaded"); same(b, "after an unreadable file"); }
  else NONTRIVIAL();
  static Set g[NS]; read_back(b, g); /* every curve is well formed */
  R *rec = r_new(0, 2); Ev e = ev_first(); e.dt = 0.01;
  int calm = 1; for (int s = 0; s < NS; s++) if (!(fabs(g[s].base) < 20)) calm = 0;
  if (calm && g[MYPAINT_BRUSH_SETTING_DABS_PER_SECOND].base < 100) for (int k = 0; k < 3 && rec->n < 2000; k++) { ev_send(b, rec, &e); e = ev_next(e); e.dt = 0.01; }
  r_free(rec);
  mypaint_brush_unref(b);
}
int main(int c, char **v) {
  static const NtOracle t[] = {{"load", o_load}, {"paint", o_paint}, {"damage", o_damage}, {0}};
  return nt_main(c, v, t);
}
