/* The per-tile operation queue, the tile map and the fifo, against a model. */
#include "nt.h"
#include "operationqueue.h"
#include "fifo.h"

/* ---- fifo */
static int cells[100000]; static char freed[100000]; static long nfreed;
static void gone(void *p) { int *c = p; CHECK(c >= cells && c < cells + 100000 && !freed[c - cells], "freeing the queue hands out something that is not in it"); freed[c - cells] = 1; nfreed++; }
static void o_fifo(void) {
  Fifo *f = fifo_new();
  long h = 0, t = 0; int n = ri(1, 300), bias = ri(20, 80);
  DESC("%d operations, %d%% pushes", n, bias);
  for (int i = 0; i < n; i++) {
    if (chance(bias)) { fifo_push(f, &cells[t]); t++; }
    else {
      int *p = fifo_pop(f);
      if (h == t) CHECK(!p, "pop on an empty queue returned something");
      else { CHECK(p == &cells[h], "pop returned the wrong item: %ld instead of %ld", p ? (long)(p - cells) : -1L, h); h++; }
    }
    int *a = fifo_peek_first(f), *b = fifo_peek_last(f);
    CHECK(a == (h == t ? 0 : &cells[h]), "peek_first is wrong with %ld items", t - h);
    CHECK(b == (h == t ? 0 : &cells[t - 1]), "peek_last is wrong with %ld items", t - h);
  }
  if (t > 2) NONTRIVIAL();
  memset(freed, 0, t); nfreed = 0;
  fifo_free(f, gone);
  CHECK(nfreed == t - h, "freeing a queue of %ld items freed %ld", t - h, nfreed);
  for (long i = h; i < t; i++) CHECK(freed[i], "item %ld was not freed", i);
}

/* ---- tile map */
static void o_map(void) {
  int n = ri(1, 14);
  TileMap *m = tile_map_new(n, sizeof(void *), 0);
  DESC("size %d", n);
  for (int y = -n; y < n; y++) for (int x = -n; x < n; x++) { TileIndex i = {x, y}; CHECK(tile_map_contains(m, i), "%d,%d is not contained", x, y); CHECK(*tile_map_get(m, i) == 0, "a new map is not empty at %d,%d", x, y); }
  static char c[40][40];
  for (int k = 0; k < 20; k++) { TileIndex i = {ri(-2 * n, 2 * n), ri(-2 * n, 2 * n)}; int in = i.x >= -n && i.x < n && i.y >= -n && i.y < n; CHECK(!!tile_map_contains(m, i) == in, "contains(%d,%d) is %d", i.x, i.y, !in); }
  for (int y = -n; y < n; y++) for (int x = -n; x < n; x++) if ((x ^ y) & 1 || n & 1) { TileIndex i = {x, y}; *tile_map_get(m, i) = &c[y + 20][x + 20]; }
  int n2 = n + ri(0, 5);
  TileMap *o = tile_map_new(n2, sizeof(void *), 0);
  tile_map_copy_to(m, o);
  for (int y = -n2; y < n2; y++) for (int x = -n2; x < n2; x++) {
    TileIndex i = {x, y}; int in = x >= -n && x < n && y >= -n && y < n;
    void *e = in && ((x ^ y) & 1 || n & 1) ? &c[y + 20][x + 20] : 0;
    CHECK(*tile_map_get(o, i) == e, "the copy of size %d is wrong at %d,%d", n2, x, y);
    if (in) CHECK(*tile_map_get(m, i) == e, "the map is wrong at %d,%d", x, y);
  }
  NONTRIVIAL();
  tile_map_free(m, 0); tile_map_free(o, 0);
}

/* ---- operation queue */
#define R 44
typedef struct { int n, h, cap; int *v; int listed; } Q;
static Q q[2 * R][2 * R];
static Q *at(TileIndex i) { return &q[i.y + R][i.x + R]; }
static int seq;
static void add(OperationQueue *o, TileIndex i) {
  OperationDataDrawDab *d = calloc(1, sizeof *d);
  d->x = ++seq; d->posterize_num = -seq;
  operation_queue_add(o, i, d);
  Q *m = at(i);
  if (m->n == m->cap) { m->cap = m->cap ? 2 * m->cap : 8; m->v = realloc(m->v, m->cap * sizeof(int)); }
  m->v[m->n++] = seq;
  m->listed = 1;
}
static void peeks(OperationQueue *o, TileIndex i) {
  Q *m = at(i);
  OperationDataDrawDab *a = operation_queue_peek_first(o, i), *b = operation_queue_peek_last(o, i);
  if (m->h == m->n) CHECK(!a && !b, "an empty queue (tile %d,%d) shows an operation", i.x, i.y);
  else {
    CHECK(a && a->x == m->v[m->h], "tile %d,%d: the first operation is %d, expected %d", i.x, i.y, a ? (int)a->x : -1, m->v[m->h]);
    CHECK(b && b->x == m->v[m->n - 1], "tile %d,%d: the last operation is %d, expected %d", i.x, i.y, b ? (int)b->x : -1, m->v[m->n - 1]);
  }
}
static int pop(OperationQueue *o, TileIndex i) {
  Q *m = at(i);
  OperationDataDrawDab *d = operation_queue_pop(o, i);
  if (m->h == m->n) { CHECK(!d, "tile %d,%d: an operation came out of an empty queue", i.x, i.y); return 0; }
  CHECK(d, "tile %d,%d: operation %d was lost", i.x, i.y, m->v[m->h]);
  CHECK(d->x == m->v[m->h] && d->posterize_num == -m->v[m->h], "tile %d,%d: operation %d came out instead of %d", i.x, i.y, (int)d->x, m->v[m->h]);
  m->h++;
  free(d);
  return 1;
}
static void dirty(OperationQueue *o) {
  TileIndex *l; int n = operation_queue_get_dirty_tiles(o, &l);
  CHECK(n >= 0, "%d dirty tiles", n);
  static unsigned char seen[2 * R][2 * R]; memset(seen, 0, sizeof seen);
  for (int k = 0; k < n; k++) {
    CHECK(l[k].x >= -R && l[k].x < R && l[k].y >= -R && l[k].y < R, "a tile that was never used is listed: %d,%d", l[k].x, l[k].y);
    CHECK(!seen[l[k].y + R][l[k].x + R], "tile %d,%d is listed twice", l[k].x, l[k].y);
    seen[l[k].y + R][l[k].x + R] = 1;
    CHECK(at(l[k])->listed, "tile %d,%d is listed but had no operation since the list was cleared", l[k].x, l[k].y);
  }
  for (int y = 0; y < 2 * R; y++) for (int x = 0; x < 2 * R; x++) if (q[y][x].h < q[y][x].n) CHECK(seen[y][x], "tile %d,%d has pending operations but is not listed", x - R, y - R);
}
static TileIndex pick(int r) { TileIndex i = {ri(-r, r - 1), ri(-r, r - 1)}; return i; }
static void o_queue(void) {
  for (int y = 0; y < 2 * R; y++) for (int x = 0; x < 2 * R; x++) { free(q[y][x].v); memset(&q[y][x], 0, sizeof(Q)); }
  seq = 0;
  OperationQueue *o = operation_queue_new();
  int n = ri(3, 60), r = chance(40) ? ri(1, 4) : ri(1, 12), grow = chance(50), fills = 0;
  DESC("%d phases, radius %d:", n, r);
  for (int k = 0; k < n; k++) {
    if (grow && chance(10)) { r += ri(1, 8); if (r > R) r = R; }
    int w = ri(0, 7);
    TileIndex i = pick(r);
    if (w <= 2) { int c = ri(1, 12); for (int j = 0; j < c; j++) { if (chance(50)) i = pick(r); add(o, i); peeks(o, i); } if (k < 40) ADD(" add%d", c); }
    else if (w == 3) { int c = ri(1, 10); for (int j = 0; j < c; j++) { i = pick(r); pop(o, i); peeks(o, i); } if (k < 40) ADD(" pop%d", c); }
    else if (w == 4) { dirty(o); if (k < 40) ADD(" list"); }
    else if (w == 5) {
      /* the consumer protocol: list, drain every listed tile, clear */
      TileIndex *l; int c = operation_queue_get_dirty_tiles(o, &l);
      dirty(o);
      for (int j = 0; j < c; j++) while (pop(o, l[j])) ;
      for (int y = 0; y < 2 * R; y++) for (int x = 0; x < 2 * R; x++) { CHECK(q[y][x].h == q[y][x].n, "tile %d,%d still has operations after all listed tiles were drained", x - R, y - R); q[y][x].listed = 0; }
      operation_queue_clear_dirty_tiles(o);
      TileIndex *l2; CHECK(operation_queue_get_dirty_tiles(o, &l2) == 0, "the list is not empty after it was cleared");
      if (k < 40) ADD(" drain%d", c);
    }
    else if (w == 6) { i = pick(R); peeks(o, i); CHECK(pop(o, i) == 0 || at(i)->n, "?"); }
    else if (chance(25)) { /* every tile of a square (with luck, of the whole map), then some again */
      int f = chance(90) || fills ? 10 : 20; if (fills++ > 2) continue;
      for (int y = -f; y < f; y++) for (int x = -f; x < f; x++) { TileIndex j = {x, y}; add(o, j); }
      int c = ri(1, f == 10 ? 900 : 60); for (int j = 0; j < c; j++) { i = pick(f); if (chance(80)) { while (pop(o, i)) ; } add(o, i); } if (k < 40) ADD(" fill%d+%d", f, c);
    }
    else if (chance(30)) { /* many re-additions to tiles that were popped empty: the dirty list has to drop duplicates */
      int c = ri(100, 1300); for (int j = 0; j < c; j++) { i = pick(r < 3 ? r : 3); if (chance(50)) { while (pop(o, i)) ; } add(o, i); } if (k < 40) ADD(" churn%d", c);
    }
  }
  dirty(o);
  for (int y = -R; y < R; y++) for (int x = -R; x < R; x++) { TileIndex i = {x, y}; peeks(o, i); while (pop(o, i)) ; }
  if (seq > 5) NONTRIVIAL();
  operation_queue_free(o);
}
int main(int c, char **v) {
  static const NtOracle t[] = {{"fifo", o_fifo}, {"map", o_map}, {"queue", o_queue}, {0}};
  return nt_main(c, v, t);
}
