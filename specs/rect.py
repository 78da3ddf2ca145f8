"""Invalidated regions: mypaint-rectangle.c and the bounding boxes of mypaint-tiled-surface.c.
Coordinates are assumed to be below 2^24 in magnitude (beyond it, the canvas is not addressable in floats either)."""
from specs.lib import *

BIG = 1 << 24
RW = 16    # sizeof(MyPaintRectangle)


class Rects:
    """an array of rectangles"""

    def __init__(s, ex, name, n):
        s.ex = ex; s.n = n
        s.reg = ex.new_region(name, n * RW, None); s.reg.align = 4
        m = ex.mod
        assert m.sizeof('MyPaintRectangle') == RW
        s.o = [m.off('MyPaintRectangle', f) for f in ('x', 'y', 'width', 'height')]

    def get(s, i, g=TRUE): return tuple(s.ex.read(s.reg, (), RW * tm.T_(i) + o, 'i32', g) for o in s.o)
    def at(s, st, i): return tuple(st.read(s.reg, RW * tm.T_(i) + o, 'i32') for o in s.o)
    def p(s, i=0): return ptr(s.reg, RW * tm.T_(i))


def has(r, p): return and_(le(r[0], p[0]), lt(p[0], r[0] + r[2]), le(r[1], p[1]), lt(p[1], r[1] + r[3]))
def empty(r): return eq(r[2], 0)
def sane(r): return and_(le(-BIG, r[0]), le(-BIG, r[1]), or_(eq(r[2], 0), and_(lt(0, r[2]), le(r[2], 2 * BIG), lt(0, r[3]), le(r[3], 2 * BIG), le(r[0] + r[2], BIG), le(r[1] + r[3], BIG))))
def zero(r): return and_(*[eq(v, 0) for v in r])
def okr(r): return or_(zero(r), and_(sane(r), full(r)))
def full(r): return and_(lt(0, r[2]), lt(0, r[3]))
def same(a, b): return and_(*[eq(x, y) for x, y in zip(a, b)])


def task_point(mod):
    ex = Exec(mod)
    R = Rects(ex, 'rectangle', num(1))
    r0 = R.get(0)
    ex.fact(sane(r0))
    x, y = var('x', 'I', -BIG, BIG - 1), var('y', 'I', -BIG, BIG - 1)
    qx, qy = var('qx', 'I', -BIG, BIG), var('qy', 'I', -BIG, BIG)
    _, g = ex.call_fn('mypaint_rectangle_expand_to_include_point', [R.p(), x, y], TRUE)
    r = R.get(0, g)
    w = 'mypaint_rectangle_expand_to_include_point'
    ex.oblige('the point is inside', 'post', g, has(r, (x, y)), w)
    ex.oblige('every pixel that was inside still is', 'post', g, implies(and_(not_(empty(r0)), has(r0, (qx, qy))), has(r, (qx, qy))), w)
    ex.oblige('it is the smallest such rectangle', 'post', g, ite(empty(r0), same(r, (x, y, num(1), num(1))),
              and_(eq(r[0], tm.min_(r0[0], x)), eq(r[1], tm.min_(r0[1], y)), eq(r[0] + r[2], tm.max_(r0[0] + r0[2], x + 1)), eq(r[1] + r[3], tm.max_(r0[1] + r0[3], y + 1)))), w)
    ex.oblige('it stays in range', 'post', g, sane(r), w)
    return ex


def task_rect(mod):
    ex = Exec(mod)
    R, O = Rects(ex, 'rectangle', num(1)), Rects(ex, 'other', num(1))
    O.reg.const = True
    r0, o = R.get(0), O.get(0)
    ex.fact(okr(r0)); ex.fact(okr(o))
    q = var('qx', 'I', -BIG, BIG), var('qy', 'I', -BIG, BIG)
    _, g = ex.call_fn('mypaint_rectangle_expand_to_include_rect', [R.p(), O.p()], TRUE)
    r = R.get(0, g)
    w = 'mypaint_rectangle_expand_to_include_rect'
    ex.oblige('every pixel of the other rectangle is inside', 'post', g, implies(has(o, q), has(r, q)), w)
    ex.oblige('every pixel that was inside still is', 'post', g, implies(and_(not_(empty(r0)), has(r0, q)), has(r, q)), w)
    ex.oblige('it is the smallest such rectangle', 'post', g, implies(and_(full(r0), full(o)), and_(eq(r[0], tm.min_(r0[0], o[0])), eq(r[0] + r[2], tm.max_(r0[0] + r0[2], o[0] + o[2])),
              eq(r[1], tm.min_(r0[1], o[1])), eq(r[1] + r[3], tm.max_(r0[1] + r0[3], o[1] + o[3])))), w)
    ex.oblige('it stays in range', 'post', g, and_(sane(r), full(r)), w)
    ex.oblige('the result is that of the contract', 'post', g, same(r, rect_result(r0, o)), w)
    return ex


def rect_result(r0, o):
    e = empty(r0)
    x, y = ite(e, tm.min_(o[0], o[0] + o[2] - 1), tm.min_(r0[0], tm.min_(o[0], o[0] + o[2] - 1))), ite(e, tm.min_(o[1], o[1] + o[3] - 1), tm.min_(r0[1], tm.min_(o[1], o[1] + o[3] - 1)))
    X, Y = ite(e, tm.max_(o[0] + 1, o[0] + o[2]), tm.max_(r0[0] + r0[2], tm.max_(o[0] + 1, o[0] + o[2]))), ite(e, tm.max_(o[1] + 1, o[1] + o[3]), tm.max_(r0[1] + r0[3], tm.max_(o[1] + 1, o[1] + o[3])))
    return x, y, X - x, Y - y


def rect_contract(ex, on=None):
    """mypaint_rectangle_expand_to_include_rect, as proved by task_rect"""
    def c(ex, a, g, w):
        L = lambda p, i: ex.load(p.shift(num(4 * i)), 'i32', g, w)
        r0, o = [L(a[0], i) for i in range(4)], [L(a[1], i) for i in range(4)]
        ex.oblige('%s: the rectangles are in range' % w, 'pre', g, and_(okr(r0), okr(o)), w)
        r = rect_result(r0, o)
        if on: on(a, g, w)
        for i in range(4): ex.store(a[0].shift(num(4 * i)), 'i32', r[i], g, w)
    return c


class Surface:
    """a MyPaintTiledSurface with its bounding boxes.
    Invariant: num_bboxes >= 1 rectangles are allocated; those from num_bboxes_dirtied on are empty."""

    def __init__(s, mod, nlo=1, const=False):
        s.ex = ex = Exec(mod)
        s.N = var('num_bboxes', 'I', nlo, 1 << 20)
        s.D = var('num_bboxes_dirtied', 'I', 0, 1 << 20)
        ex.fact(le(s.D, s.N))
        s.bb = Rects(ex, 'bboxes', s.N)
        s.queue = ex.new_region('operation_queue', 64, None)
        s.s = Struct(ex, 'MyPaintTiledSurface', 'surface', dict(num_bboxes=s.N, num_bboxes_dirtied=s.D, bboxes=ptr(s.bb.reg), operation_queue=ptr(s.queue)))

    def get(s, f, g=TRUE, ty='i32'): return s.s.get(f, ty, g)


NAMES = ['x', 'y', 'radius', 'color_r', 'color_g', 'color_b', 'opaque', 'hardness', 'softness', 'color_a', 'aspect_ratio', 'angle', 'lock_alpha', 'colorize', 'posterize', 'posterize_num', 'paint']


def dab_args(ex):
    a = {n: var(n, 'R') for n in NAMES}
    ex.fact(and_(le(-BIG // 4, a['x']), le(a['x'], BIG // 4), le(-BIG // 4, a['y']), le(a['y'], BIG // 4), le(0, a['radius']), le(a['radius'], BIG // 4)))
    ex.fact(and_(le(-10000, a['posterize_num']), le(a['posterize_num'], 10000)))
    return a


def task_dab(mod):
    """draw_dab_internal: every tile that the dab touches is queued exactly once, with this dab, and the bounding box covers it"""
    S = Surface(mod); ex = S.ex
    a = dab_args(ex)
    bi = var('bbox_index', 'I', 0, 1 << 20)
    ex.fact(lt(bi, S.N))
    other = var('other_bbox', 'I', 0, 1 << 20)
    ex.fact(and_(lt(other, S.N), ne(other, bi)))
    b0, o0 = S.bb.get(bi), S.bb.get(other)
    ex.fact(sane(b0))
    qx, qy = var('tile_x', 'I', -BIG, BIG), var('tile_y', 'I', -BIG, BIG)
    cnt = Ghost(ex, 'queued', 2)
    fl = tm.floor
    fr = a['radius'] + 1
    lo = fl(a['x'] - fr), fl(a['y'] - fr)
    hi = fl(a['x'] + fr), fl(a['y'] + fr)
    # tile q contains one of the pixels lo..hi
    inx = and_(le(lo[0], 64 * qx + 63), le(64 * qx, hi[0]))
    iny = and_(le(lo[1], 64 * qy + 63), le(64 * qy, hi[1]))
    F = lambda p, f, g, ty='f32': ex.load(p.shift(num(mod.off('OperationDataDrawDab', f))), ty, g, 'queued operation')
    c01 = lambda t: tm.clamp(t, num(0, 'R'), num(1, 'R'))
    def add(ex, A, g, w):
        tx, ty = pair(ex, A[1], g)
        ex.oblige('%s: the operation goes to the queue of this surface' % w, 'pre', g, ptr_eq(A[0], ptr(S.queue)), w)
        op = A[2]
        ex.oblige('%s: position, radius, angle are those of the dab' % w, 'pre', g, and_(*[eq(F(op, f, g), a[f]) for f in ('x', 'y', 'radius', 'angle')]), w)
        ex.oblige('%s: strengths are limited to [0, 1]' % w, 'pre', g, and_(*[eq(F(op, f, g), c01(a[f])) for f in ('opaque', 'hardness', 'softness', 'lock_alpha', 'colorize', 'posterize', 'paint', 'color_a')]), w)
        ex.oblige('%s: the aspect ratio is at least 1' % w, 'pre', g, eq(F(op, 'aspect_ratio', g), tm.max_(a['aspect_ratio'], num(1, 'R'))), w)
        for ch in ('color_r', 'color_g', 'color_b'):
            v = F(op, ch, g, 'i16')
            ex.oblige('%s: %s is scaled to 15 bits' % (w, ch), 'pre', g, and_(le(v, c01(a[ch]) * 32768), lt(c01(a[ch]) * 32768 - 1, v)), w)
        pn = F(op, 'posterize_num', g, 'f32')
        ex.oblige('%s: the number of levels is within 1..128' % w, 'pre', g, and_(le(1, pn), le(pn, 128)), w)
        ex.oblige('%s: the normal share is what the other modes leave' % w, 'pre', g, eq(F(op, 'normal', g), (1 - c01(a['lock_alpha'])) * (1 - c01(a['colorize'])) * (1 - c01(a['posterize']))), w)
        cnt.set(cnt.get(0, g, (tx, ty)) + 1, g, 0, (tx, ty))
    ex.contracts['operation_queue_add'] = add
    def cands(ex, L):
        out = []
        inn = and_(inx, iny)
        for nm, done in progress(L):
            for ax, (m, mo) in (('column', (qx, qy)), ('row', (qy, qx))):
                if L['enclosing']:
                    for o in [v for v in L['enclosing'].values() if isinstance(v, T) and v.sort == 'I']:
                        out.append(('tiles before this %s, and %s, are queued once' % ('row' if ax == 'column' else 'column', nm), lambda st, done=done, m=m, mo=mo, o=o: eq(cnt.at(st, 0, (qx, qy)), ite(and_(inn, or_(lt(mo, o), and_(eq(mo, o), done(st, m)))), num(1), num(0)))))
                else: out.append(('tile %ss %s are queued once' % (ax, nm), lambda st, done=done, m=m: eq(cnt.at(st, 0, (qx, qy)), ite(and_(inn, done(st, m)), num(1), num(0)))))
        for i in ints(L):
            for ax, k in (('columns', 0), ('rows', 1)):
                out.append(('%s lies in the %s of the dab' % (i, ax), lambda st, i=i, k=k: and_(le(lo[k], 64 * st.vals[i] + 63), le(64 * st.vals[i], hi[k] + 64))))
        return out
    ex.loop_cands.append(cands)
    r, g = ex.call_fn('draw_dab_internal', [S.s.p] + [a[n] for n in NAMES] + [bi], TRUE)
    w = 'draw_dab_internal'
    nothing = or_(lt(a['radius'], num(0.1, 'R') if False else tm.T_(Fraction(13421773, 134217728))), le(a['hardness'], 0), le(1, a['softness']), le(a['opaque'], 0))
    ex.oblige('a dab that cannot leave a mark is reported as such', 'post', g, eq(ne(r, 0), not_(nothing)), w)
    n = cnt.get(0, g, (qx, qy))
    ex.oblige('every tile with a pixel of the dab is queued exactly once, others never', 'post', g, eq(n, ite(and_(ne(r, 0), inx, iny), num(1), num(0))), w)
    b, o = S.bb.get(bi, g), S.bb.get(other, g)
    q = var('px', 'I', -BIG, BIG), var('py', 'I', -BIG, BIG)
    ex.oblige('the bounding box covers every pixel of the dab', 'post', g, implies(and_(ne(r, 0), le(lo[0], q[0]), le(q[0], hi[0]), le(lo[1], q[1]), le(q[1], hi[1])), has(b, q)), w)
    ex.oblige('the bounding box keeps what it covered', 'post', g, implies(and_(not_(empty(b0)), has(b0, q)), has(b, q)), w)
    ex.oblige('the bounding box is in range', 'post', g, and_(sane(b), implies(ne(r, 0), full(b))), w)
    ex.oblige('a dab without effect leaves the bounding box alone', 'post', g, implies(eq(r, 0), same(b, b0)), w)
    ex.oblige('no other bounding box changes', 'post', g, same(o, o0), w)
    return ex


def inside(o, r): return and_(le(r[0], o[0]), le(o[0] + o[2], r[0] + r[2]), le(r[1], o[1]), le(o[1] + o[3], r[1] + r[3]))


def rect_inv(base, guard=None):
    """cell invariant of an array of rectangles: each one is empty or sane"""
    def inv(ex, rd, key, off):
        i = idiv(off - imod(off, num(RW)), num(RW)) if multiple(off, 4) is None else None
        for d in (0, 4, 8, 12):
            i = multiple(off - d, RW)
            if i is not None: break
        else: return []
        r = tuple(rd(RW * i + o, 'i32') for o in (0, 4, 8, 12))
        return [implies(guard(i), okr(r)) if guard else okr(r)]
    return inv


def task_end_atomic(mod):
    """mypaint_tiled_surface_end_atomic: all dirty tiles are processed, then forgotten; every dirtied bounding box is inside a reported rectangle"""
    S = Surface(mod); ex = S.ex
    n = var('dirty_tiles', 'I', 0, 1 << 24)
    tiles = ex.new_region('tiles', 8 * n, None); tiles.align = 4
    tile = lambda k, g=TRUE: (ex.read(tiles, (), 8 * tm.T_(k), 'i32', g), ex.read(tiles, (), 8 * tm.T_(k) + 4, 'i32', g))
    k = var('some_tile', 'I', 0, 1 << 24); ex.fact(lt(k, n))
    done, cleared = Ghost(ex, 'processed', 2), Ghost(ex, 'cleared')
    room = var('room', 'I', -(1 << 20), 1 << 20)
    R = Rects(ex, 'roi_rectangles', tm.max_(room, num(0)))
    roi = Struct(ex, 'MyPaintRectangles', 'roi', dict(num_rectangles=room, rectangles=ptr(R.reg)))
    S.bb.reg.cell_inv = rect_inv(S.bb, lambda i: lt(i, S.D)); S.bb.reg.const = True
    have = var('roi given', 'B')
    b = var('some_bbox', 'I', 0, 1 << 20); ex.fact(lt(b, S.D))
    bb = S.bb.get(b)
    used = tm.min_(room, S.D)
    W = Ghost(ex, 'witness')
    sk = var('some_roi', 'I', 0, 1 << 20)

    def get_tiles(ex, A, g, w):
        ex.oblige('%s: the tiles are those of this surface' % w, 'pre', g, ptr_eq(A[0], ptr(S.queue)), w)
        ex.store(A[1], 'ptr', ptr(tiles), g, w)
        return n
    def process(ex, A, g, w):
        x, y = A[1], A[2]
        ex.oblige('%s: tiles are processed before they are forgotten' % w, 'pre', g, eq(cleared.get(0, g), 0), w)
        done.set(1, g, 0, (x, y))
    def clear(ex, A, g, w):
        ex.oblige('%s: every dirty tile was processed' % w, 'pre', g, eq(done.get(0, g, tile(k, g)), 1), w)
        cleared.set(cleared.get(0, g) + 1, g)
    def on(A, g, w):
        def index(p, reg):
            for c, r, key, off in p.alts:
                if r is reg: return and_(c, TRUE), multiple(off, RW)
            return None, None
        c, i = index(A[1], S.bb.reg)
        d, o = index(A[0], R.reg)
        if i is not None and o is not None: W.set(ite(eq(i, b), o, W.get(0, g)), g)
    ex.contracts.update(operation_queue_get_dirty_tiles=get_tiles, process_tile=process, operation_queue_clear_dirty_tiles=clear,
                        mypaint_rectangle_expand_to_include_rect=rect_contract(ex, on))

    def cands(ex, L):
        out = []
        if R.reg in L['M'] and W.reg in L['M']:
            if R.reg.cell_inv is None:
                R.reg.cell_inv = rect_inv(R, lambda i: lt(i, used)); R.reg.inv_after = tm._fresh[0]
                R.reg.skolems = [((), RW * sk)]
            for i, dealt in progress(L, S.bb.reg, RW):
                def inv(st, dealt=dealt):
                    wit = W.at(st)
                    r = R.at(st, wit)
                    return implies(dealt(st, b), and_(le(0, wit), lt(wit, used), implies(full(bb), and_(full(r), inside(bb, r)))))
                out.append(('boxes %s are in a reported rectangle' % i, inv))
        elif R.reg in L['M']:
            for nm, dealt in progress(L, R.reg, RW):
                out.append(('rectangles %s are cleared' % nm, lambda st, dealt=dealt: implies(dealt(st, sk), zero(R.at(st, sk)))))
        if done.reg in L['M']:
            for nm, dealt in progress(L):
                out.append(('tiles %s are processed' % nm, lambda st, dealt=dealt: implies(dealt(st, k), eq(done.at(st, 0, tile(k)), 1))))
        return out
    ex.loop_cands.append(cands)
    A1 = Ptr([(have, roi.reg, (), num(0)), (not_(have), None, (), num(0))])
    _, g = ex.call_fn('mypaint_tiled_surface_end_atomic', [S.s.p, A1], TRUE)
    w = 'mypaint_tiled_surface_end_atomic'
    g1 = and_(g, have, lt(0, room))
    nr = roi.get('num_rectangles', 'i32', g1)
    ex.oblige('the number of reported rectangles fits', 'post', g1, and_(le(0, nr), le(nr, room), le(nr, S.D)), w)
    wit = W.get(0, g1)
    r = R.get(wit, g1)
    ex.oblige('every dirtied bounding box is inside a reported rectangle', 'post', g1, implies(full(bb), and_(le(0, wit), lt(wit, nr), inside(bb, r), full(r))), w)
    ex.oblige('without room nothing is written', 'post', and_(g, have, le(room, 0)), eq(roi.get('num_rectangles', 'i32', g), room), w)
    ex.oblige('the dirty tiles are forgotten once', 'post', g, eq(cleared.get(0, g), 1), w)
    return ex


def task_prepare(mod):
    """prepare_bounding_boxes: a transaction starts with empty bounding boxes, enough of them if memory allows"""
    S = Surface(mod, 32); ex = S.ex
    ex.malloc_may_fail = True
    q = var('some_bbox', 'I', 0, 1 << 25)
    S.bb.reg.cell_inv = rect_inv(S.bb, None)
    def inv(ex_, rd, key, off):
        for d in (0, 4, 8, 12):
            i = multiple(off - d, RW)
            if i is not None: return [implies(and_(le(S.D, i), lt(i, S.N)), zero(tuple(rd(RW * i + o, 'i32') for o in (0, 4, 8, 12))))]
        return []
    S.bb.reg.cell_inv = inv; S.bb.reg.skolems = [((), RW * q)]
    n = var('num_lines', 'I', 1, 1 << 20)
    ty = var('type', 'I', -1, 10)
    so = mod.off('MyPaintTiledSurface', 'symmetry_data') + mod.off('MyPaintSymmetryData', 'state_current')
    S.s.cells[so + mod.off('MyPaintSymmetryState', 'type')] = ty
    S.s.cells[so + mod.off('MyPaintSymmetryState', 'num_lines')] = tm.real(n)
    def current(st, r):
        p = ex.read(S.s.reg, (), num(S.s.off('bboxes')), 'ptr', st.guard)
        return and_(lt(q, ex.read(S.s.reg, (), num(S.s.off('num_bboxes')), 'i32', st.guard)), or_(*[c for c, rr, k, o in p.alts if rr is r]))
    def cands(ex, L):
        out = []
        for r in L['M']:
            if r is S.s.reg: continue
            for i, done in [('', None)] + progress(L, r, RW):
                if done is None: out.append(('box q of %s is empty' % r.name, lambda st, r=r: implies(current(st, r), zero(tuple(st.read(r, RW * q + o, 'i32') for o in (0, 4, 8, 12))))))
                else: out.append(('boxes %s of %s are empty' % (i, r.name), lambda st, done=done, r=r: implies(done(st, q), zero(tuple(st.read(r, RW * q + o, 'i32') for o in (0, 4, 8, 12))))))
                if done is not None: out.append(('existing boxes %s of %s are empty' % (i, r.name), lambda st, done=done, r=r: implies(and_(done(st, q), current(st, r)), zero(tuple(st.read(r, RW * q + o, 'i32') for o in (0, 4, 8, 12))))))
        return out
    ex.loop_cands.append(cands)
    _, g = ex.call_fn('prepare_bounding_boxes', [S.s.p], TRUE)
    w = 'prepare_bounding_boxes'
    N = S.get('num_bboxes', g)
    p = ex.load(S.s.p.shift(num(S.s.off('bboxes'))), 'ptr', g, w)
    gq = and_(g, lt(q, N))
    r = tuple(ex.load(p.shift(RW * q + o), 'i32', gq, 'bboxes') for o in (0, 4, 8, 12))
    ex.oblige('every bounding box is empty', 'post', gq, zero(r), w)
    ex.oblige('none counts as dirtied', 'post', g, eq(S.get('num_bboxes_dirtied', g), 0), w)
    want = n * ite(eq(ty, 4), num(2), num(1))
    ex.oblige('the number of boxes never shrinks; it suffices unless memory ran out', 'post', g, and_(le(S.N, N), or_(eq(N, S.N), le(want, N)), implies(le(want, S.N), eq(N, S.N))), w)
    return ex
