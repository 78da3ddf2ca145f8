"""Pigment mixing (floats as reals): spectra of colours and weighted geometric means."""
from specs.lib import *
from specs.color import R0, R1, R, c01

TOL = Fraction(5, 10000)


def farray(ex, name, n, vals=None, const=False):
    def base(ex, key, off, ty):
        if off.op != 'num' or off.args % 4: return None
        i = off.args // 4
        return vals[i] if vals else var('%s_%d' % (name, i), 'R')
    r = ex.new_region(name, 4 * n, base, const=const); r.align = 4
    return r


def at(ex, r, i, g=TRUE): return ex.read(r, (), num(4 * i), 'f32', g)


def task_spectral(mod):
    out = []
    ex = Exec(mod)
    c = [var('in_' + n, 'R', 0, 1) for n in 'rgb']
    o0 = [var('old_%d' % i, 'R') for i in range(10)]
    S = farray(ex, 'spectrum', 10, o0)
    _, g = ex.call_fn('rgb_to_spectral', c + [ptr(S)], TRUE)
    w = 'rgb_to_spectral'
    d = [at(ex, S, i, g) - o0[i] for i in range(10)]
    for i in range(10):
        ex.oblige('reflectance %d is positive' % i, 'post', g, and_(lt(0, d[i]), le(d[i], Fraction(11, 10))), w)
    # it depends on the colour alone and is affine in it, hence monotone: white has the largest reflectances
    out.append(ex)
    ex = Exec(mod)
    s = [var('s_%d' % i, 'R') for i in range(10)]
    S = farray(ex, 'spectrum', 10, s, const=True)
    O = farray(ex, 'rgb', 3)
    _, g = ex.call_fn('spectral_to_rgb', [ptr(S), ptr(O)], TRUE)
    w = 'spectral_to_rgb'
    for i in range(3): ex.oblige('component %d is in [0, 1]' % i, 'post', g, and_(le(0, at(ex, O, i, g)), le(at(ex, O, i, g), 1)), w)
    out.append(ex)
    ex = Exec(mod)
    S = farray(ex, 'spectrum', 10, [R0] * 10)
    O = farray(ex, 'rgb', 3)
    _, g = ex.call_fn('rgb_to_spectral', c + [ptr(S)], TRUE)
    _, g = ex.call_fn('spectral_to_rgb', [ptr(S), ptr(O)], g)
    for i in range(3):
        x = at(ex, O, i, g)
        ex.oblige('component %d returns up to rounding of the tables' % i, 'post', g, and_(le(x - c[i], R(TOL)), le(c[i] - x, R(TOL))), 'rgb to spectrum and back')
    out.append(ex)
    return out


def mix_exec(mod):
    ex = Exec(mod)
    a = [var('a_' + n, 'R', 0, 1) for n in 'rgba']; b = [var('b_' + n, 'R', 0, 1) for n in 'rgba']
    fac, paint = var('fac', 'R', 0, 1), var('paint', 'R', 0, 1)
    spec = lambda i, c: app('reflectance_%d' % i, list(c), 'R', 0, None)
    back = lambda j, s: app('component_%d' % j, list(s), 'R', 0, 1)
    def pw(x, y): return app('libm_pow', [x, y], 'R', None, None)
    def rgb_to_spectral(ex, A, g, w):
        ex.oblige('%s: the components are in [0, 1]' % w, 'pre', g, and_(*[and_(le(0, x), le(x, 1)) for x in A[:3]]), w)
        for i in range(10):
            p = A[3].shift(num(4 * i))
            v = spec(i, A[:3]); ex.fact(lt(0, v))
            ex.store(p, 'f32', ex.load(p, 'f32', g, w) + v, g, w)
    def spectral_to_rgb(ex, A, g, w):
        s = [ex.load(A[0].shift(num(4 * i)), 'f32', g, w) for i in range(10)]
        for j in range(3): ex.store(A[1].shift(num(4 * j)), 'f32', back(j, s), g, w)
    def powf(ex, A, g, w):
        x, y = A
        ex.oblige('%s: powers of positive numbers only' % w, 'pre', g, lt(0, x), w)
        r = pw(x, y)
        ex.fact(and_(implies(eq(y, 0), eq(r, 1)), implies(eq(y, 1), eq(r, x)), implies(lt(0, x), lt(0, r))))
        return r
    ex.assumed.add('pow(x, 0) = 1, pow(x, 1) = x, pow(x, y) > 0 for x > 0')
    ex.contracts.update(rgb_to_spectral=rgb_to_spectral, spectral_to_rgb=spectral_to_rgb, powf=powf, pow=powf)
    A, B = farray(ex, 'a', 4, a, const=True), farray(ex, 'b', 4, b, const=True)
    p, g = ex.call_fn('mix_colors', [ptr(A), ptr(B), fac, paint], TRUE)
    res = [ex.load(p.shift(num(4 * i)), 'f32', g, 'mix_colors') for i in range(4)]
    return ex, a, b, fac, paint, spec, back, pw, res, g


def task_mix(mod):
    ex, a, b, fac, paint, spec, back, pw, res, g = mix_exec(mod)
    w = 'mix_colors'
    ex.oblige('alpha is the mean of the alphas, weighted by the factor', 'post', g, eq(res[3], fac * a[3] + (1 - fac) * b[3]), w)
    # the factor of the geometric mean: by opacity
    den = a[3] + b[3] * (1 - fac)
    fa = var('weight', 'R', 0, 1)
    ex.oblige('the weight of the first colour is within [0, 1]', 'lemma', lt(0, a[3]), and_(lt(0, den), le(fac * a[3], den)), w)
    f_spec = ite(eq(a[3], 0), R0, tm.rdiv(fac * a[3], den))
    mixed = [pw(spec(i, a[:3]), f_spec) * pw(spec(i, b[:3]), 1 - f_spec) for i in range(10)]
    add = [fac * a[j] + (1 - fac) * b[j] for j in range(3)]
    for j in range(3):
        ex.oblige('component %d is in [0, 1]' % j, 'post', g, and_(le(0, res[j]), le(res[j], 1)), w)
        ex.oblige('component %d interpolates between pigment and additive mixing' % j, 'post', g, eq(res[j], ite(lt(0, paint), paint * back(j, mixed), R0) + (1 - paint) * add[j]), w)
    return ex


def task_mix_ends(mod):
    out = []
    for end in (0, 1):
        ex, a, b, fac, paint, spec, back, pw, res, g = mix_exec(mod)
        w = 'mix_colors'
        src = a if end else b
        g = and_(g, eq(fac, end))
        if end: g = and_(g, lt(0, a[3]))
        # reproduced by the round trip proved in task_spectral
        s = [spec(i, src[:3]) for i in range(10)]
        for j in range(3):
            e = back(j, s)
            tol = R(TOL)
            ex.fact(and_(le(e - src[j], tol), le(src[j] - e, tol)))
            one = num(1, 'R'); z = R0
            # powers with exponents one and zero
            f = R1 if end else R0
            m = [pw(spec(i, a[:3]), f) * pw(spec(i, b[:3]), 1 - f) for i in range(10)]
            for i in range(10):
                for base, y in ((spec(i, a[:3]), f), (spec(i, b[:3]), 1 - f)):
                    r = pw(base, y); ex.fact(eq(r, R1 if y is R0 or (y.op == 'num' and y.args == 0) else base))
            ex.oblige('a factor of %d gives colour %d (component %d)' % (end, 2 - end, j), 'post', g, and_(le(res[j] - src[j], tol), le(src[j] - res[j], tol)), w)
        out.append(ex)
    return out
