"""Colour spaces: HSV, HSL, HCY (floats as reals)."""
from specs.lib import *

R0, R1 = num(0, 'R'), num(1, 'R')
def R(v): return num(Fraction(v), 'R') if not isinstance(v, T) else v
def c01(t): return tm.clamp(t, R0, R1)


class Cells:
    """three floats behind three pointers"""
    def __init__(s, ex, vals):
        s.ex = ex
        s.regs = []
        for i, v in enumerate(vals):
            r = ex.new_region('c%d' % i, 4, lambda ex, key, off, ty, v=v: v if ty == 'f32' else None); r.align = 4
            s.regs.append(r)
    @property
    def p(s): return [ptr(r) for r in s.regs]
    def get(s, g): return [s.ex.read(r, (), num(0), 'f32', g) for r in s.regs]


def mx(c): return tm.max_(tm.max_(c[0], c[1]), c[2])
def mn(c): return tm.min_(tm.min_(c[0], c[1]), c[2])


ORDERS = [(0, 1, 2), (0, 2, 1), (1, 0, 2), (1, 2, 0), (2, 0, 1), (2, 1, 0)]
# the hue of a colour with components in this order: sector * 1/6 + sign * (mid-min)/(6 delta)
SECTOR = {(0, 1, 2): (0, 1), (1, 0, 2): (2, -1), (1, 2, 0): (2, 1), (2, 1, 0): (4, -1), (2, 0, 1): (4, 1), (0, 2, 1): (6, -1)}


def cases(c):
    """the orders of the components: (condition, order); together they cover everything"""
    for o in ORDERS:
        yield and_(le(c[o[1]], c[o[0]]), le(c[o[2]], c[o[1]])), o


def hexagon(h, i):
    """component i of the pure colour of hue h, h in [0, 1)"""
    k = 6 * h + [0, 4, 2][i]
    k = ite(le(6, k), k - 6, k)
    return c01(tm.abs_(k - 3) - 1) if hasattr(tm, 'abs_') else c01(ite(le(3, k), k - 3, 3 - k) - 1)


def task_rgb_to_hsv(mod):
    out = []
    ex = Exec(mod)
    raw = [var(n, 'R') for n in 'rgb']
    C = Cells(ex, raw)
    _, g = ex.call_fn('rgb_to_hsv_float', C.p, TRUE)
    h, s, v = C.get(g)
    c = [c01(x) for x in raw]
    w = 'rgb_to_hsv_float'
    ex.oblige('the value is the largest component', 'post', g, eq(v, mx(c)), w)
    ex.oblige('everything is in [0, 1]', 'post', g, and_(le(0, h), le(h, 1), le(0, s), le(s, 1), le(0, v), le(v, 1)), w)
    for cond, o in cases(c):
        d = c[o[0]] - c[o[2]]
        gg = and_(g, cond)
        big = lt(R(Fraction(101, 1000000)), d)
        ex.oblige('saturation, order %s' % (o,), 'post', gg, implies(big, eq(s * c[o[0]], d)), w)
        sec, sg = SECTOR[o]
        ex.oblige('hue, order %s' % (o,), 'post', gg, implies(big, or_(eq(6 * h * d, sec * d + sg * (c[o[1]] - c[o[2]])), and_(eq(h, 0), eq(sec * d + sg * (c[o[1]] - c[o[2]]), 6 * d)))), w)
    ex.oblige('greys have no saturation', 'post', g, implies(eq(mx(c), mn(c)), eq(s, 0)), w)
    out.append(ex)
    return out


def task_hsv_to_rgb(mod):
    ex = Exec(mod)
    raw = [var(n, 'R') for n in 'hsv']
    C = Cells(ex, raw)
    _, g = ex.call_fn('hsv_to_rgb_float', C.p, TRUE)
    rgb = C.get(g)
    w = 'hsv_to_rgb_float'
    s, v = c01(raw[1]), c01(raw[2])
    h = raw[0] - tm.real(tm.floor(raw[0]))
    ex.oblige('everything is in [0, 1]', 'post', g, and_(*[and_(le(0, x), le(x, 1)) for x in rgb]), w)
    for k in range(6):
        gg = and_(g, le(k, 6 * h), lt(6 * h, k + 1))
        for i in range(3):
            ex.oblige('component %d in sector %d' % (i, k), 'post', gg, eq(rgb[i], v * (1 - s * (1 - hexagon(h, i)))), w)
    return ex


def back(ex, f1, f2, w, check):
    raw = [var('in_' + n, 'R', 0, 1) for n in 'abc']
    C = Cells(ex, raw)
    _, g = ex.call_fn(f1, C.p, TRUE)
    mid = C.get(g)
    _, g = ex.call_fn(f2, C.p, g)
    check(ex, raw, mid, C.get(g), g, w)
    return ex


def task_hsv_round_trip(mod):
    tol = R(Fraction(12, 100000))
    def check(ex, c, mid, o, g, w):
        for cond, od in cases(c):
            gg = and_(g, cond)
            d = c[od[0]] - c[od[2]]
            for i in range(3):
                ex.oblige('component %d returns exactly, order %s' % (i, od), 'post', and_(gg, lt(R(Fraction(101, 1000000)), d)), eq(o[i], c[i]), w)
                ex.oblige('component %d returns, nearly grey, order %s' % (i, od), 'post', gg, and_(le(o[i] - c[i], tol), le(c[i] - o[i], tol)), w)
    a = back(Exec(mod), 'rgb_to_hsv_float', 'hsv_to_rgb_float', 'rgb to hsv and back', check)
    def check2(ex, c, mid, o, g, w):
        for k in range(6):
            gg = and_(g, le(k, 6 * c[0]), lt(6 * c[0], k + 1), lt(R(Fraction(102, 1000000)), c[1] * c[2]))
            for i, n in ((0, 'hue'), (1, 'saturation'), (2, 'value')):
                ex.oblige('%s returns exactly, sector %d' % (n, k), 'post', gg, eq(o[i], c[i]), w)
    b = back(Exec(mod), 'hsv_to_rgb_float', 'rgb_to_hsv_float', 'hsv to rgb and back', check2)
    return [a, b]


def task_hsl(mod):
    out = []
    ex = Exec(mod)
    raw = [var(n, 'R') for n in 'rgb']
    C = Cells(ex, raw)
    _, g = ex.call_fn('rgb_to_hsl_float', C.p, TRUE)
    h, s, l = C.get(g)
    c = [c01(x) for x in raw]
    w = 'rgb_to_hsl_float'
    ex.oblige('lightness is the mean of the largest and the smallest component', 'post', g, eq(2 * l, mx(c) + mn(c)), w)
    for cond, o in cases(c):
        M, m, d = c[o[0]], c[o[2]], c[o[0]] - c[o[2]]
        gg = and_(g, cond)
        ex.oblige('everything is in [0, 1], order %s' % (o,), 'post', gg, and_(le(0, h), le(h, 1), le(0, s), le(s, 1), le(0, l), le(l, 1)), w)
        ex.oblige('saturation, order %s' % (o,), 'post', gg, implies(lt(0, d), eq(s * ite(le(M + m, 1), M + m, 2 - M - m), d)), w)
        sec, sg = SECTOR[o]
        e = sec * d + sg * (c[o[1]] - m)
        ex.oblige('hue, order %s' % (o,), 'post', gg, implies(lt(0, d), or_(eq(6 * h * d, e), and_(eq(h, 0), eq(e, 6 * d)))), w)
    ex.oblige('greys have no saturation', 'post', g, implies(eq(mx(c), mn(c)), eq(s, 0)), w)
    out.append(ex)
    ex = Exec(mod)
    raw = [var(n, 'R') for n in 'hsl']
    C = Cells(ex, raw)
    _, g = ex.call_fn('hsl_to_rgb_float', C.p, TRUE)
    rgb = C.get(g)
    w = 'hsl_to_rgb_float'
    s, l = c01(raw[1]), c01(raw[2])
    h = raw[0] - tm.real(tm.floor(raw[0]))
    ch = s * ite(le(2 * l, 1), 2 * l, 2 - 2 * l)
    for k in range(6):
        gg = and_(g, le(k, 6 * h), lt(6 * h, k + 1))
        for i in range(3):
            ex.oblige('component %d in sector %d' % (i, k), 'post', gg, eq(rgb[i], l + ch * (hexagon(h, i) - Fraction(1, 2))), w)
            ex.oblige('component %d in sector %d is in [0, 1]' % (i, k), 'post', gg, and_(le(0, rgb[i]), le(rgb[i], 1)), w)
    out.append(ex)
    def check(ex, c, mid, o, g, w):
        for cond, od in cases(c):
            for i in range(3):
                ex.oblige('component %d returns exactly, order %s' % (i, od), 'post', and_(g, cond), eq(o[i], c[i]), w)
    out.append(back(Exec(mod), 'rgb_to_hsl_float', 'hsl_to_rgb_float', 'rgb to hsl and back', check))
    def check2(ex, c, mid, o, g, w):
        for k in range(6):
            gg = and_(g, le(k, 6 * c[0]), lt(6 * c[0], k + 1), lt(0, c[1]), lt(0, c[2]), lt(c[2], 1))
            for i, n in ((0, 'hue'), (1, 'saturation'), (2, 'lightness')):
                ex.oblige('%s returns exactly, sector %d' % (n, k), 'post', gg, eq(o[i], c[i]), w)
    out.append(back(Exec(mod), 'hsl_to_rgb_float', 'rgb_to_hsl_float', 'hsl to rgb and back', check2))
    return out


LUMA = [Fraction(v) for v in ('0.2126', '0.7152', '0.0722')]


def luma(c): return sum((R(LUMA[i]) * c[i] for i in range(3)), R0)


def task_hcy(mod):
    out = []
    ex = Exec(mod); ex.decimals = True
    c = [var('in_' + n, 'R', 0, 1) for n in 'rgb']
    C = Cells(ex, c)
    _, g = ex.call_fn('rgb_to_hcy_float', C.p, TRUE)
    h, s, y = C.get(g)
    w = 'rgb_to_hcy_float'
    ex.oblige('luma is the weighted sum of the components', 'post', g, eq(y, luma(c)), w)
    for cond, o in cases(c):
        M, m, d = c[o[0]], c[o[2]], c[o[0]] - c[o[2]]
        gg = and_(g, cond)
        ex.oblige('everything is in [0, 1], order %s' % (o,), 'post', gg, and_(le(0, h), le(h, 1), le(0, s), le(s, 1), le(0, y), le(y, 1)), w)
        inside = and_(lt(0, d), lt(0, y), lt(y, 1))
        ex.oblige('chroma, order %s' % (o,), 'post', gg, implies(inside, and_(le(y - m, s * y), le(M - y, s * (1 - y)), or_(eq(s * y, y - m), eq(s * (1 - y), M - y)))), w)
        sec, sg = SECTOR[o]
        e = sec * d + sg * (c[o[1]] - m)
        ex.oblige('hue, order %s' % (o,), 'post', gg, implies(lt(0, d), or_(eq(6 * h * d, e), and_(eq(h, 0), eq(e, 6 * d)))), w)
    ex.oblige('greys have no chroma', 'post', g, implies(eq(mx(c), mn(c)), eq(s, 0)), w)
    out.append(ex)
    ex = Exec(mod); ex.decimals = True
    raw = [var(n, 'R') for n in 'hcy']
    C = Cells(ex, raw)
    _, g = ex.call_fn('hcy_to_rgb_float', C.p, TRUE)
    rgb = C.get(g)
    w = 'hcy_to_rgb_float'
    ch, y = c01(raw[1]), c01(raw[2])
    h = raw[0] - tm.real(tm.floor(raw[0]))
    for k in range(6):
        gg = and_(g, le(k, 6 * h), lt(6 * h, k + 1))
        for i in range(3):
            ex.oblige('component %d in sector %d is in [0, 1]' % (i, k), 'post', gg, and_(le(0, rgb[i]), le(rgb[i], 1)), w)
        M, m = mx(rgb), mn(rgb)
        for i in range(3):
            ex.oblige('component %d in sector %d has the hue' % (i, k), 'post', gg, eq(rgb[i] - m, (M - m) * hexagon(h, i)), w)
        ex.oblige('chroma in sector %d' % k, 'post', and_(gg, lt(0, y), lt(y, 1)), and_(le(y - m, ch * y), le(M - y, ch * (1 - y)), or_(eq(ch * y, y - m), eq(ch * (1 - y), M - y))), w)
        ex.oblige('luma in sector %d' % k, 'post', gg, eq(luma(rgb), y), w)
        ex.oblige('without chroma it is grey (sector %d)' % k, 'post', gg, implies(eq(ch, 0), and_(*[eq(v, y) for v in rgb])), w)
    out.append(ex)
    out.append(hcy_back(Exec(mod)))
    return out


def hcy_back(ex):
    """rgb to hcy and back, from the contracts of the two functions proved above"""
    w = 'rgb to hcy and back'
    c = [var('in_' + n, 'R', 0, 1) for n in 'rgb']
    h, s, y = (var(n, 'R', 0, 1) for n in ('hue', 'chroma', 'luma'))
    o = [var('out_' + n, 'R', 0, 1) for n in 'rgb']
    ex.fact(eq(y, luma(c)))
    for k, (cond, od) in enumerate(cases(c)):
        M, m = c[od[0]], c[od[2]]
        d = M - m
        sec, sg = SECTOR[od]
        e = sec * d + sg * (c[od[1]] - m)
        M2, m2 = var('max_%d' % k, 'R', 0, 1), var('min_%d' % k, 'R', 0, 1)
        d2 = M2 - m2
        g = and_(cond, lt(0, d))
        # the contract of rgb_to_hcy_float
        g = and_(g, lt(0, y), lt(y, 1), le(y - m, s * y), le(M - y, s * (1 - y)), or_(eq(s * y, y - m), eq(s * (1 - y), M - y)),
                 or_(eq(6 * h * d, e), and_(eq(h, 0), eq(e, 6 * d))), lt(h, 1))
        ex.oblige('colours with a hue have luma strictly inside (0, 1), order %s' % (od,), 'lemma', and_(cond, lt(0, d)), and_(lt(0, y), lt(y, 1)), w)
        hx = [var('hexagon_%d' % i, 'R', 0, 1) for i in range(3)]
        gh = and_(g, *[eq(hx[i], hexagon(h, i)) for i in range(3)])
        for i in range(3): ex.oblige('component %d is at its place on the hexagon, order %s' % (i, od), 'lemma', gh, eq(c[i], m + d * hx[i]), w)
        # the contract of hcy_to_rgb_float
        L = luma(hx)
        g2 = and_(cond, lt(0, d), lt(0, y), lt(y, 1), *[eq(o[i], m2 + d2 * hx[i]) for i in range(3)], eq(y, luma(o)), le(0, d2),
                  le(y - m2, s * y), le(M2 - y, s * (1 - y)), or_(eq(s * y, y - m2), eq(s * (1 - y), M2 - y)),
                  le(y - m, s * y), le(M - y, s * (1 - y)), or_(eq(s * y, y - m), eq(s * (1 - y), M - y)))
        g2 = and_(g2, *[eq(c[i], m + d * hx[i]) for i in range(3)])
        lw = var('hexagon luma', 'R', 0, 1)
        ex.oblige('luma and hexagon, order %s' % (od,), 'lemma', and_(g2, eq(lw, L)), and_(eq(y, m + d * lw), eq(y, m2 + d2 * lw)), w)
        ex.oblige('greys return, order %s' % (od,), 'lemma', and_(cond, eq(d, 0)), and_(*[eq(y, v) for v in c]), w)
        # the colour is determined by its hue, chroma and luma
        g3 = and_(lt(0, d), lt(0, y), lt(y, 1), eq(y, m + d * lw), eq(y, m2 + d2 * lw), le(0, d2), lt(0, lw), lt(lw, 1),
                  le(y - m2, s * y), le(M2 - y, s * (1 - y)), or_(eq(s * y, y - m2), eq(s * (1 - y), M2 - y)),
                  le(y - m, s * y), le(M - y, s * (1 - y)), or_(eq(s * y, y - m), eq(s * (1 - y), M - y)))
        ex.oblige('the largest component of the hexagon is one, the smallest zero, order %s' % (od,), 'lemma', and_(gh, eq(lw, L)), and_(lt(0, lw), lt(lw, 1)), w)
        ex.oblige('the colour returns, order %s' % (od,), 'lemma', g3, and_(eq(d2, d), eq(m2, m)), w)
    return ex


def task_angles(mod):
    ex = Exec(mod)
    a, N = var('a', 'R'), var('N', 'R'); ex.fact(lt(0, N))
    r, g = ex.call_fn('mod_arith', [a, N], TRUE)
    w = 'mod_arith'
    q = tm.floor(tm.rdiv(a, N))
    ex.oblige('the remainder is congruent to the dividend', 'post', g, eq(r + N * tm.real(q), a), w)
    ex.oblige('the remainder is in [0, N)', 'post', g, and_(le(0, r), lt(r, N)), w)
    ex2 = Exec(mod)
    A, B = var('angleA', 'R'), var('angleB', 'R')
    w = 'smallest_angular_difference'
    d, g = ex2.call_fn('smallest_angular_difference', [A, B], TRUE)
    ex2.oblige('the difference is at most half a turn', 'post', g, and_(le(-180, d), le(d, 180)), w)
    t = tm.floor(tm.rdiv(B - A + 180, num(360, 'R')))
    ex2.oblige('turning by the difference leads from one angle to the other', 'post', g, or_(*[eq(d, B - A - 360 * tm.real(t + j)) for j in (-1, 0, 1)]), w)
    return [ex, ex2]
