"""The mask of a dab: render_dab_mask and the falloff it is made of.

The mask is a run-length code of the 64x64 pixels of a tile: a value 1..2^15 is the opacity of the next pixel, 0 n skips n/4
pixels, and 0 0 ends it.  A ghost decoder reads every token when it is stored.

render_dab_mask calls calculate_rr (or calculate_rr_antialiased below radius 3) and calculate_opa under contracts; the tasks rr,
rr_aa and opa show these contracts of their bodies."""
from specs.lib import *
from fractions import Fraction
import math

ONE = 1 << 15
N = 64
TOKENS = N * N + 2 * N


class Dab:
    """position in the tile, radius, hardness, softness, aspect ratio, angle; and what follows from them"""

    def __init__(s, ex, aa):
        s.x, s.y = var('x', 'R', -(1 << 24), 1 << 24), var('y', 'R', -(1 << 24), 1 << 24)
        s.r = var('radius', 'R', 0, 1 << 22); ex.fact(lt(0, s.r))
        if aa is not None: ex.fact(lt(s.r, 3) if aa else le(3, s.r))
        s.h, s.soft = var('hardness', 'R'), var('softness', 'R', 0, 1)
        s.aspect, s.angle = var('aspect', 'R'), var('angle', 'R')
        ex.fact(lt(0, s.h))
        s.hard = tm.min_(s.h, num(1, 'R'))
        s.ratio = tm.max_(s.aspect, num(1, 'R'))
        ang = s.angle / 360 * 2 * num(Fraction(math.pi), 'R')
        s.sn, s.cs = app('libm_sin', [ang], 'R', -1, 1), app('libm_cos', [ang], 'R', -1, 1)
        s.inv = num(1, 'R') / (s.r * s.r)
        s.args = [s.x, s.y, s.r, s.h, s.soft, s.aspect, s.angle]

    def rr(s, px, py): return app('rr', [tm.T_(px), tm.T_(py)], 'R', 0, None)
    def opa(s, rr): return app('opa', [rr], 'R', 0, 1)
    def value(s, px, py): return tm.floor(s.opa(s.rr(px, py)) * ONE)

    def far(s, px, py):
        """the whole pixel is farther than the radius away in x or y"""
        px, py = tm.real(px), tm.real(py)
        return or_(lt(s.x + s.r, px), lt(px + 1, s.x - s.r), lt(s.y + s.r, py), lt(py + 1, s.y - s.r))

    # what the tasks rr, rr_aa and opa prove about the two functions
    def about(s, ex, px, py):
        rr = s.rr(px, py)
        ex.fact(le(0, rr)); ex.fact(implies(s.far(px, py), lt(1, rr)))
        o = s.opa(rr)
        ex.fact(and_(le(0, o), le(o, 1))); ex.fact(implies(lt(1, rr), eq(o, 0)))

    def convex(s, a, b, c, y):
        ra, rb, rc = (s.rr(v, y) for v in (a, b, c))
        return and_(implies(and_(le(a, b), le(b, c)), or_(le(rb, ra), le(rb, rc))),
                    implies(le(rb, ra), le(s.opa(ra), s.opa(rb))), implies(le(rb, rc), le(s.opa(rc), s.opa(rb))))


def mask_task(mod, aa):
    ex = Exec(mod); ex.cut_always = True
    d = Dab(ex, aa)
    w = 'render_dab_mask'
    ex.fdiv_ok = lambda b: eq(tm.real(b), 1 - d.hard)       # at hardness 1 there is no second segment
    mask = ex.new_region('mask', 2 * TOKENS, None); mask.align = 2
    qx, qy = var('qx', 'I', 0, N - 1), var('qy', 'I', 0, N - 1)
    Q = N * qy + qx
    d.about(ex, qx, qy)
    k, mode, pos, qval, nop, nskip, row0 = (Ghost(ex, n) for n in ('tokens', 'mode', 'position', 'value', 'opaque', 'skips', 'x'))
    def token(key, o, ty, v, g):
        v = ex.u(v, 16, g)
        K, m, p = k.get(0, g), mode.get(0, g), pos.get(0, g)
        ex.oblige('tokens are written one after the other', 'pre', g, eq(o, 2 * K), w)
        ex.oblige('nothing is written after the end', 'pre', g, lt(m, 2), w)
        val, sk = and_(g, eq(m, 0), ne(v, 0)), and_(g, eq(m, 1), ne(v, 0))
        ex.oblige('an opacity is at most one and belongs to a pixel of the tile', 'pre', val, and_(le(v, ONE), lt(p, N * N)), w)
        ex.oblige('whole pixels are skipped, within the tile', 'pre', sk, and_(eq(imod(v, num(4)), 0), le(p + idiv(v, num(4)), N * N)), w)
        qval.set(v, and_(val, eq(p, Q)))
        pos.set(ite(eq(m, 0), ite(ne(v, 0), p + 1, p), p + idiv(v, num(4))), g)
        nop.set(nop.get(0, g) + 1, val); nskip.set(nskip.get(0, g) + 1, sk)
        mode.set(ite(eq(m, 0), ite(eq(v, 0), num(1), num(0)), ite(eq(v, 0), num(2), num(0))), g)
        k.set(K + 1, g)
    mask.on_store = token
    def rr(ex, A, g, w):
        px, py = A[0], A[1]
        for n, a, b in zip(('x', 'y', 'aspect ratio', 'sine', 'cosine', 'inverse squared radius'), A[2:8], (d.x, d.y, d.ratio, d.sn, d.cs, d.inv)):
            ex.oblige('%s: the %s is that of the dab' % (w, n), 'pre', g, eq(a, b), w)
        d.about(ex, px, py)
        return d.rr(px, py)
    ex.contracts['calculate_rr'] = rr
    ex.contracts['calculate_rr_antialiased'] = rr
    def opa(ex, A, g, w):
        h, s1 = d.hard, num(1, 'R') - d.soft
        ex.oblige('%s: the hardness is that of the dab' % w, 'pre', g, eq(A[1], h), w)
        ex.oblige('%s: the first segment runs from 1 - softness at the centre' % w, 'pre', g, and_(eq(A[2], s1), eq(A[3] * h, (h - 1) * s1)), w)
        ex.oblige('%s: the second segment ends with 0 at the rim' % w, 'pre', and_(g, lt(h, 1)), and_(eq(A[4] * (1 - h), h * s1), eq(A[5] * (1 - h), -h * s1)), w)
        o = d.opa(A[0])
        ex.fact(and_(le(0, o), le(o, 1))); ex.fact(implies(lt(1, A[0]), eq(o, 0)))
        return o
    ex.contracts['calculate_opa'] = opa
    starts = {}
    sx, sy = var('sx', 'I', 0, N - 1), var('sy', 'I', 0, N - 1)     # an arbitrary cell of the distances
    def cands(ex, L):
        out = []
        I = ints(L)
        for i in I: starts[i] = L['init'][i]
        if mask not in L['M']:
            # the loops that fill in the distances
            for r in [r for r in L['M'] if getattr(r, 'stack', False)]:
                for i in I:
                    x0 = [starts[i]] if L['enclosing'] else []
                    rows = [v for n, v in L['enclosing'].items() if isinstance(v, T) and v.sort == 'I']
                    def filled(st, a, b, old, r=r, i=i, rows=rows):
                        v = st.vals[i]
                        known = or_(*[or_(lt(b, o), and_(eq(b, o), lt(a, v))) for o in rows]) if rows else lt(b, v)
                        return ite(and_(inbox(a, b), known), d.rr(a, b), old)
                    out.append(('distances up to %s' % i, Cells(filled, r), False))
            return out
        rows = [v for n, v in L['enclosing'].items() if isinstance(v, T) and v.sort == 'I']
        names = [n for n, v in L['enclosing'].items() if isinstance(v, T) and v.sort == 'I']
        at = lambda st, c: c.at(st)
        out.append(('between tokens', lambda st: eq(at(st, mode), 0)))
        for n, v in L['init'].items():
            if isinstance(v, Ptr): out.append(('%s is where the next token goes' % n, lambda st, n=n: and_(*[implies(c, eq(o, 2 * at(st, k))) for c, r, kk, o in st.vals[n].alts if r is mask])))
        out.append(('tokens are counted', lambda st: eq(at(st, k), at(st, nop) + 2 * at(st, nskip))))
        out.append(('counters', lambda st: and_(le(0, at(st, nop)), le(0, at(st, nskip)), le(at(st, nop) + at(st, nskip), at(st, pos)), le(at(st, pos), N * N))))
        for i in I:
            for o, on in (zip(rows, names) if rows else [(None, None)]):
                here = (lambda st, i=i: N * st.vals[i]) if o is None else (lambda st, i=i, o=o: N * o + st.vals[i])
                out.append(('decoded up to %s' % i, lambda st, here=here: eq(at(st, qval), ite(lt(Q, here(st)), d.value(qx, qy), num(0))), False))
                for j in I:
                    if j == i: continue
                    out.append(('%s pixels to skip before %s' % (j, i), lambda st, here=here, j=j: and_(le(0, st.vals[j]), eq(at(st, pos) + st.vals[j], here(st))), False))
                    if o is not None:
                        # a pending skip in a row ends with a transparent pixel
                        out.append(('%s: transparent before %s' % (j, i), lambda st, i=i, j=j, o=o: implies(and_(lt(0, st.vals[j]), lt(starts[i], st.vals[i])), eq(d.value(st.vals[i] - 1, o), 0)), False))
                if o is not None: out.append(('within row', lambda st, o=o: le(at(st, pos), N * o + N), False))
                if o is None:
                    out.append(('skips per row %s' % i, lambda st, i=i: le(at(st, nskip), (st.vals[i] - starts[i]) * (9 if aa else 1)), False))
                elif aa:
                    out.append(('skips in row %s' % i, lambda st, i=i, o=o, on=on: le(at(st, nskip), 9 * (o - starts[on]) + st.vals[i] - starts[i]), False))
                else:
                    def runs(st, f, i=i, o=o, on=on):
                        rows = o - starts[on]
                        return or_(le(at(st, nskip), rows), and_(le(f, st.vals[i] - 1), le(starts[i], f), lt(0, d.value(f, o)), le(at(st, nskip), rows + 1)))
                    out.append(('one run of opaque pixels in row %s' % i, Run(runs, d, i, o, L), False))
        return out
    X = lambda c, r, sgn: tm.floor(c + sgn * (r + 1))
    def inbox(a, b):
        x0, y0 = tm.max_(X(d.x, d.r, -1), num(0)), tm.max_(X(d.y, d.r, -1), num(0))
        x1, y1 = tm.min_(X(d.x, d.r, 1), num(N - 1)), tm.min_(X(d.y, d.r, 1), num(N - 1))
        return and_(le(x0, a), le(a, x1), le(y0, b), le(b, y1))
    class Cells:
        """a claim about every cell; shown for the cell (sx, sy), and what the loop's contents are read with"""
        def __init__(s, value, r): s.value = value; s.r = r
        def cell(s, st, a, b): return eq(st.read(s.r, 4 * (N * b + a), 'f32'), s.value(st, a, b, st.read(s.r, 4 * (N * b + a), 'f32')))
        def __call__(s, st):
            if st.mode == 'assume':
                log = s.r.log
                h = max(n for n, e in enumerate(log) if e[0] == 'h')
                nm = log[h][3]
                def base(ex, key, off, ty):
                    v = ex.default_cell(nm, key, off, ty)
                    t = multiple(off, 4)
                    if ty != 'f32' or t is None: return v
                    hi, lo = {}, {}
                    for mon, c in tm.poly(t).items(): (hi if isinstance(c, int) and c % N == 0 else lo)[mon] = c // N if isinstance(c, int) and c % N == 0 else c
                    a, b = tm.mk_poly(lo, 'I'), tm.mk_poly(hi, 'I')
                    return ite(and_(le(0, a), lt(a, N)), s.value(st, a, b, v), v)
                log[h] = ('h', log[h][1], base, nm)
            return s.cell(st, sx, sy)
    class Run(Exists):
        def __init__(s, P, d, i, o, L): Exists.__init__(s, P, L); s.d = d; s.i = i; s.o = o
        def __call__(s, st):
            r = Exists.__call__(s, st)
            if st.mode == 'assume':
                v = st.vals[s.i]
                ex.fact(s.d.convex(s.w, v - 1, v, s.o))
            return r
    ex.loop_cands.append(cands)
    _, g = ex.call_fn(w, [ptr(mask)] + d.args, TRUE)
    ex.oblige('the mask is ended', 'post', g, eq(mode.get(0, g), 2), w)
    ex.oblige('every pixel has the opacity of its place in the dab', 'post', g, eq(qval.get(0, g), d.value(qx, qy)), w)
    return ex


def task_mask(mod): return mask_task(mod, False)
def task_mask_aa(mod): return mask_task(mod, True)


class Place:
    """the arguments of the two distance functions: a dab as render_dab_mask passes it (sn, cs on the unit circle, inv = 1/radius^2)"""

    def __init__(s, ex):
        s.x, s.y = var('x', 'R', -(1 << 24), 1 << 24), var('y', 'R', -(1 << 24), 1 << 24)
        s.r = var('radius', 'R', 0, 1 << 22); ex.fact(lt(0, s.r))
        s.a = var('ratio', 'R', 1, None)
        s.sn, s.cs = var('sn', 'R', -1, 1), var('cs', 'R', -1, 1); ex.fact(eq(s.sn * s.sn + s.cs * s.cs, 1))
        s.inv = var('inv', 'R', 0, None); ex.fact(and_(lt(0, s.inv), eq(s.inv * (s.r * s.r), 1)))

    def far(s, px, py): return Dab.far(s, px, py)
    def call(s, ex, name, px, py, *more): return ex.call_fn(name, [px, py, s.x, s.y, s.a, s.sn, s.cs, s.inv] + list(more), TRUE)


def outside(ex, p, dx, dy, rr, g, cond, what):
    """a point at (dx, dy) from the centre, farther than the radius in x or y, has a squared distance above one"""
    u, v = dy * p.cs - dx * p.sn, dy * p.sn + dx * p.cs
    def step(n, c):
        ex.oblige('%s: %s' % (what, n), 'lemma', and_(g, cond), c); ex.fact(implies(and_(g, cond), c))
    unit(ex, p, dx * dx + dy * dy)
    step('the turned axes keep distances', eq(u * u + v * v, dx * dx + dy * dy))
    step('it is out of reach', lt(p.r * p.r, dx * dx + dy * dy))
    step('squeezing one axis brings nothing closer', le(u * u + v * v, p.a * p.a * (u * u) + v * v))
    step('it is out of reach of the ellipse', lt(p.r * p.r, p.a * p.a * (u * u) + v * v))
    scale(ex, p, p.a * p.a * (u * u) + v * v)


def unit(ex, p, D): ex.fact(eq(D * (p.sn * p.sn + p.cs * p.cs), D))         # sn^2 + cs^2 = 1


def scale(ex, p, S): ex.fact(implies(lt(p.r * p.r, S), lt(1, S * p.inv)))


def scale_lemma():
    ex = Exec(None)
    S, q, inv = var('S', 'R'), var('squared radius', 'R'), var('inv', 'R', 0, None)
    ex.fact(and_(lt(0, inv), eq(q * inv, 1)))
    ex.oblige('dividing by the squared radius', 'lemma', lt(q, S), lt(1, S * inv), 'lemma')
    a = var('a', 'R')
    ex.oblige('multiplying by one', 'lemma', eq(a, 1), eq(S * a, S), 'lemma')
    return ex


def task_rr(mod):
    """calculate_rr: the squared elliptical distance of the middle of the pixel, in units of the radius"""
    ex = Exec(mod); p = Place(ex)
    px, py = var('px', 'I', 0, N - 1), var('py', 'I', 0, N - 1)
    rr, g = p.call(ex, 'calculate_rr', px, py)
    w = 'calculate_rr'
    half = num(Fraction(1, 2), 'R')
    dx, dy = tm.real(px) + half - p.x, tm.real(py) + half - p.y
    u, v = (dy * p.cs - dx * p.sn) * p.a, dy * p.sn + dx * p.cs
    form = (u * u + v * v) * p.inv
    ex.oblige('the squared distance along the two axes of the ellipse', 'post', g, eq(rr, form), w)
    ex.oblige('it is not negative', 'post', g, le(0, rr), w)
    far = p.far(px, py)
    outside(ex, p, dx, dy, rr, g, far, w)
    ex.oblige('out of reach it is above one', 'post', and_(g, far), lt(1, form), w)
    out = [ex, scale_lemma()]
    # along a row it has no maximum: between two pixels it is at most the larger of their values
    ex = Exec(mod); p = Place(ex)
    X = [var(n, 'I', 0, N - 1) for n in 'abc']
    ex.fact(and_(le(X[0], X[1]), le(X[1], X[2])))
    g = TRUE; r = []
    for x in X:
        q, gg = p.call(ex, 'calculate_rr', x, py); g = and_(g, gg); r.append(q)
    a, b, c = (tm.real(x) for x in X)
    lead = p.inv * (p.a * p.a * p.sn * p.sn + p.cs * p.cs)
    n = 'a chord of the parabola along a row'
    chord = eq((c - b) * r[0] + (b - a) * r[2] - (c - a) * r[1], lead * ((b - a) * (c - b) * (c - a)))
    ex.oblige(n, 'lemma', g, chord, w)
    ex.oblige('the parabola opens upwards', 'lemma', g, le(0, lead), w)
    out.append(ex)
    ex = Exec(mod)
    a, b, c, l, ra, rb, rc = (var(n, 'R') for n in ('a', 'b', 'c', 'lead', 'ra', 'rb', 'rc'))
    ex.fact(and_(le(a, b), le(b, c), le(0, l), eq((c - b) * ra + (b - a) * rc - (c - a) * rb, l * ((b - a) * (c - b) * (c - a)))))
    ex.fact(implies(eq(a, b), eq(ra, rb))); ex.fact(implies(eq(b, c), eq(rb, rc)))
    ex.oblige('a value between two others is at most the larger one', 'lemma', TRUE, or_(le(rb, ra), le(rb, rc)), w)
    out.append(ex)
    return out


def task_opa(mod):
    """calculate_opa: two straight lines from 1 - softness at the centre to 0 at the rim"""
    ex = Exec(mod)
    w = 'calculate_opa'
    h, soft = var('hardness', 'R', 0, 1), var('softness', 'R', 0, 1); ex.fact(lt(0, h))
    s1 = num(1, 'R') - soft
    seg = [var(n, 'R') for n in ('offset1', 'slope1', 'offset2', 'slope2')]
    ex.fact(and_(eq(seg[0], s1), eq(seg[1] * h, (h - 1) * s1)))
    ex.fact(implies(lt(h, 1), and_(eq(seg[2] * (1 - h), h * s1), eq(seg[3] * (1 - h), -h * s1))))
    r1, r2 = var('rr', 'R', 0, None), var('rr2', 'R', 0, None)
    o1, g1 = ex.call_fn(w, [r1, h] + seg, TRUE)
    o2, g2 = ex.call_fn(w, [r2, h] + seg, TRUE)
    g = and_(g1, g2)
    first, second = and_(g, le(r1, h)), and_(g, lt(h, r1), le(r1, 1))
    ex.oblige('inside the hardness it falls from 1 - softness to hardness times that', 'post', first, eq(o1 * h, s1 * (h - (1 - h) * r1)), w)
    ex.oblige('beyond it falls to zero at the rim', 'post', second, eq(o1 * (1 - h), s1 * h * (1 - r1)), w)
    ex.oblige('outside it is zero', 'post', and_(g, lt(1, r1)), eq(o1, 0), w)
    ex.oblige('it is in [0, 1]', 'post', g, and_(le(0, o1), le(o1, 1)), w)
    ex.oblige('it does not grow with the distance', 'post', and_(g, le(r1, r2)), le(o2, o1), w)
    return ex


def geometry(sn, cs, px, py, nx, ny, sg):
    """(px, py) is the middle of a pixel, the axis is (cs, sn), z is the foot of (px, py) on it: the side of the axis the code takes;
    the cases of n being z moved into the pixel, in x and y"""
    half = num(Fraction(1, 2), 'R')
    t = px * cs + py * sn
    s = px * sn - py * cs - 2 * cs * sn
    side = lt(s, 0) if sg == 1 else le(0, s)
    def moved(z, n, p): return [and_(lt(n, z), eq(n - p, half)), and_(lt(z, n), eq(p - n, half)), and_(eq(z, n), le(-half, p - n), le(p - n, half))]
    ex_, ey = moved(t * cs, nx, px), moved(t * sn, ny, py)
    return side, or_(*ex_), or_(*ey), ex_, ey


def task_rr_aa(mod):
    """calculate_rr_antialiased: not negative, above one where the whole pixel is out of reach, and no division by zero"""
    ex = Exec(mod); p = Place(ex)
    px, py = var('px', 'I', 0, N - 1), var('py', 'I', 0, N - 1)
    start = var('start', 'R', 0, None)
    w = 'calculate_rr_antialiased'
    half = num(Fraction(1, 2), 'R')
    cx, cy = p.x - tm.real(px) - half, p.y - tm.real(py) - half           # the centre of the dab from the middle of the pixel
    t = cx * p.cs + cy * p.sn
    rad = num(Fraction(4732765, 1 << 23), 'R')          # sqrtf(1 / M_PI)
    seen = []
    def line(ex, A, g, w):
        ex.oblige('%s: of the middle of the pixel and the axis of the dab' % w, 'pre', g, and_(*[eq(a, b) for a, b in zip(A[:4], (p.cs, p.sn, cx, cy))]), w)
        ex.store(A[4], 'f32', t * p.cs, g, w); ex.store(A[5], 'f32', t * p.sn, g, w)
    ex.contracts['closest_point_to_line'] = line
    def sample(ex, A, g, w):
        x, y = A[0], A[1]
        for n, a, b in zip(('aspect ratio', 'sine', 'cosine'), A[2:5], (p.a, p.sn, p.cs)): ex.oblige('%s: the %s is that of the dab' % (w, n), 'pre', g, eq(a, b), w)
        r = app('distance', [x, y], 'R', 0, None)
        # proved below
        ex.fact(le(0, r))
        ex.fact(implies(or_(lt(p.r, x), lt(x, -p.r), lt(p.r, y), lt(y, -p.r)), lt(p.r * p.r, r)))
        ex.fact(implies(or_(ne(x, 0), ne(y, 0)), lt(0, r))); ex.fact(implies(lt(0, r), lt(0, r * p.inv))); ex.fact(le(0, r * p.inv))
        scale(ex, p, r)
        if len(seen) == 1:
            # the far point is not the centre: the lemma about the nearest point, for this pixel
            nx, ny, _, g0 = seen[0]
            for sg in (1, -1):
                h = geometry(p.sn, p.cs, cx, cy, nx, ny, sg)
                gg = and_(g, g0, eq(x, 0), eq(y, 0), h[0])
                ex.oblige('the nearest point is half way off the axis (%d)' % sg, 'lemma', gg, and_(eq(nx, sg * p.sn * rad), eq(ny, -sg * p.cs * rad)), w)
                for c, n in ((h[1], 'x'), (h[2], 'y')): ex.oblige('the nearest point is that of the axis, moved into the pixel, %s (%d)' % (n, sg), 'lemma', gg, c, w)
                ex.fact(not_(and_(eq(nx, sg * p.sn * rad), eq(ny, -sg * p.cs * rad), *h[:3])))
        seen.append((x, y, r, g))
        return r
    ex.contracts['calculate_r_sample'] = sample
    rr, g = p.call(ex, w, px, py, start)
    far = p.far(px, py)
    ex.oblige('it is not negative', 'post', g, le(0, rr), w)
    ex.oblige('out of reach it is above one', 'post', and_(g, far), lt(1, rr), w)
    # the nearest point n is z, a point of the axis, moved into the pixel around c; it cannot be the point rad off the axis on the
    # side that the centre of the pixel is not on
    sn, cs, dx, dy, rad = (var('l_' + n, 'R') for n in ('sn', 'cs', 'dx', 'dy', 'rad'))
    lem = Exec(mod)
    lem.fact(and_(eq(sn * sn + cs * cs, 1), lt(num(Fraction(56, 100), 'R'), rad), lt(rad, num(Fraction(57, 100), 'R'))))
    for sg in (1, -1):
        n = (sg * rad * sn, -sg * rad * cs)
        h = geometry(sn, cs, n[0] + dx, n[1] + dy, n[0], n[1], sg)
        for a in h[3]:
            for b in h[4]:
                lem.oblige('the nearest point is not rad away from the axis (%d)' % sg, 'lemma', and_(h[0], a, b), FALSE, 'lemma')
    out = [ex, lem, scale_lemma()]
    ex = Exec(mod)
    lx, ly = var('lx', 'R', -1, 1), var('ly', 'R', -1, 1); ex.fact(eq(lx * lx + ly * ly, 1))
    x, y = var('px', 'R', -(1 << 25), 1 << 25), var('py', 'R', -(1 << 25), 1 << 25)
    o = [ex.new_region(n, 4, None) for n in ('ox', 'oy')]
    for r in o: r.align = 4
    _, g = ex.call_fn('closest_point_to_line', [lx, ly, x, y] + [ptr(r) for r in o], TRUE)
    d = x * lx + y * ly
    ratio = d / (lx * lx + ly * ly)
    ex.oblige('the length of the axis is one', 'lemma', g, eq(ratio, d), 'closest_point_to_line')
    Z = var('projection', 'R'); ex.fact(eq(Z, ratio)); ex.fact(eq(Z, d))
    for r, l, n in zip(o, (lx, ly), 'xy'):
        ex.oblige('the closest point, %s' % n, 'post', g, eq(ex.read(r, (), num(0), 'f32', g), l * ratio), 'closest_point_to_line')
    out.append(ex)
    ex = Exec(mod); p = Place(ex)
    x, y = var('x', 'R', -(1 << 24), 1 << 24), var('y', 'R', -(1 << 24), 1 << 24)
    r, g = ex.call_fn('calculate_r_sample', [x, y, p.a, p.sn, p.cs], TRUE)
    u, v = y * p.cs - x * p.sn, y * p.sn + x * p.cs
    w = 'calculate_r_sample'
    def step(n, c): ex.oblige(n, 'lemma', g, c, w); ex.fact(implies(g, c))
    step('the squared distance along the two axes of the ellipse', eq(r, p.a * p.a * (u * u) + v * v))
    unit(ex, p, x * x + y * y)
    step('the turned axes keep distances', eq(u * u + v * v, x * x + y * y))
    step('squeezing one axis brings nothing closer', le(u * u + v * v, p.a * p.a * (u * u) + v * v))
    R = var('R', 'R', 0, None)
    ex.oblige('it is not negative', 'post', g, le(0, r), w)
    ex.oblige('it is at least the distance', 'post', g, le(x * x + y * y, r), w)
    out.append(ex)
    return out
