"""Contracts of the blend functions of brushmodes.c (ghost theory of the RLE dab mask)."""
from dv.engine import *
from dv import term as tm

TOKS = 4096 + 128          # u16 entries of a mask buffer (MYPAINT_TILE_SIZE^2 + 2*MYPAINT_TILE_SIZE)
ONE = 1 << 15


class Rle:
    """Ghost description of a valid mask: token starts Tok(k), pixel position P(k); a skolem pixel q.
    cov: q is covered by the opaque token K (otherwise by none)."""

    def __init__(s, ex, name='mask'):
        s.ex = ex
        s.len = TOKS
        s.seen = set()
        s.reg = ex.new_region(name, 2 * TOKS, s.base, const=True)
        s.reg.align = 2
        s.q = var('q', 'I', 0, 4095)
        s.cov = var('covered', 'B')
        s.K = var('K', 'I', 0, TOKS - 1)
        ex.fact(implies(s.cov, and_(s.tok(s.K), lt(0, s.m(s.K)), eq(s.P(s.K), s.q))))
        s.inst(s.K)
        s.inst(num(0))
        ex.fact(s.tok(num(0))); ex.fact(eq(s.P(num(0)), 0))

    def tok(s, k): return app('Tok', [k], 'B')
    def P(s, k): return app('Pos', [k], 'I', 0, 4096)
    def m(s, k): return app('m', [k], 'I', 0, 65535)

    def inst(s, k):
        """the definition of a valid mask, instantiated at index k"""
        if k in s.seen: return
        s.seen.add(k)
        ex = s.ex
        m, m1, P, tok = s.m(k), s.m(k + 1), s.P(k), s.tok(k)
        op = and_(tok, lt(0, m))
        sk = and_(tok, eq(m, 0), lt(0, m1))
        ex.fact(implies(tok, and_(le(0, k), le(k, s.len - 1))))
        ex.fact(implies(op, and_(le(m, ONE), le(P, 4095), s.tok(k + 1), eq(s.P(k + 1), P + 1), le(k, s.len - 2))))
        ex.fact(implies(sk, and_(s.tok(k + 2), eq(4 * s.P(k + 2), 4 * P + m1), le(k, s.len - 3))))
        ex.fact(implies(and_(tok, eq(m, 0)), le(k, s.len - 2)))
        # positions grow strictly along the tokens (consequence of the three rules above, by induction)
        ex.fact(implies(and_(op, s.cov, lt(s.K, k)), lt(s.q, P)))
        ex.fact(implies(and_(op, s.cov, lt(k, s.K)), lt(P, s.q)))
        ex.fact(implies(and_(op, not_(s.cov)), ne(P, s.q)))
        # tokens do not start inside a skip token, and none follows the terminator
        ex.fact(implies(and_(sk, s.cov), or_(le(s.K, k), le(k + 2, s.K))))
        ex.fact(implies(and_(tok, eq(m, 0), eq(m1, 0), s.cov), lt(s.K, k)))

    def base(s, ex, key, off, ty):
        if ty != 'i16': return None
        k = idiv(off, num(2))
        s.inst(k); s.inst(k - 1)
        return s.m(k)


class Pixels:
    def __init__(s, ex, rle=None, premult=True, name='rgba'):
        s.ex = ex
        s.premult = premult
        s.reg = ex.new_region(name, 2 * 4 * 4096, s.base)
        s.reg.align = 8
        s.reg.havoc_base = s.havoc
        s.reg.cell_inv = s.inv
        s.rle = rle
        s.q = rle.q if rle else var('q', 'I', 0, 4095)
        s.reg.skolems = [((), 8 * s.q + 2 * c) for c in range(4)]

    def base(s, ex, key, off, ty):
        if ty != 'i16': return None
        return app('px', [idiv(off, num(2))], 'I', 0, 65535)

    def havoc(s, ex, nm):
        def prov(ex, key, off, ty):
            if ty != 'i16': return None
            return app(nm, [idiv(off, num(2))], 'I', 0, 65535)
        return prov

    def inv(s, ex, rd, key, off):
        """every pixel is a valid premultiplied pixel"""
        i = idiv(off, num(2))
        p4 = 4 * idiv(i, num(4))
        al = rd(2 * (p4 + 3), 'i16')
        out = [le(al, ONE)]
        v = rd(off, 'i16')
        out.append(le(v, al if s.premult else num(ONE)))
        return out

    def old(s, c): return app('px', [4 * s.q + c], 'I', 0, 65535)

    def now(s, c, guard=TRUE): return s.ex.read(s.reg, (), 8 * s.q + 2 * c, 'i16', guard)


def spectral_contracts(ex):
    """contracts of the spectral helpers, discharged separately in specs/spectral.py"""
    def rgb_to_spectral(ex, a, g, w):
        p = a[3]
        for i in range(10):
            ex.store(p.shift(num(4 * i)), 'f32', fresh('spec', 'R', 0, 3), g, w)
    def spectral_to_rgb(ex, a, g, w):
        for i in range(3):
            ex.store(a[1].shift(num(4 * i)), 'f32', fresh('rgb01', 'R', 0, 1), g, w)
    def fastpow(ex, a, g, w): return fresh('fastpow', 'R', 0, None)
    ex.contracts.update(rgb_to_spectral=rgb_to_spectral, spectral_to_rgb=spectral_to_rgb, fastpow=fastpow)
    ex.assumed.add('fastpow returns some non-negative real (its value is unconstrained in the range proofs)')


def index_cands(ex, L, rle, pix, cellspec):
    """loop invariants: for every loop variable pair that may act as (mask index, pixel offset)"""
    fr_init = L['init']
    ks, ps = [], []
    for n, v in fr_init.items():
        if isinstance(v, Ptr):
            for c, r, k, o in v.alts:
                def off(st, n=n, r=r):
                    for cc, rr, kk, oo in st.vals[n].alts:
                        if rr is r: return oo
                    raise KeyError
                if r is rle.reg: ks.append((n, lambda st, off=off: idiv(off(st), num(2))))
                if pix is not None and r is pix.reg: ps.append((n, lambda st, off=off: idiv(off(st), num(8))))
        elif isinstance(v, T) and v.sort == 'I':
            ks.append((n, lambda st, n=n: st.vals[n]))
            ps.append((n, lambda st, n=n: st.vals[n]))
            ps.append((n + '/4', lambda st, n=n: idiv(st.vals[n], num(4))))
    out = []
    for kn, kf in ks:
        def tokp(st, kf=kf):
            k = kf(st)
            rle.inst(k); rle.inst(k - 1); rle.inst(k - 2)
            return and_(le(0, k), rle.tok(k))
        out.append(('%s is a mask token' % kn, tokp))
        for pn, pf in ps:
            if pn.split('/')[0] == kn: continue
            def pos(st, kf=kf, pf=pf):
                return eq(pf(st), rle.P(kf(st)))
            out.append(('%s is the position of %s' % (pn, kn), pos))
        if cellspec is not None and pix is not None and pix.reg in L['M']:
            for c in range(4):
                def cell(st, kf=kf, c=c, part=0):
                    k = kf(st)
                    return cellspec(st, lt(rle.K, k), c)[part]
                out.append(('channel %d: pixels from %s on are unchanged' % (c, kn), cell))
                out.append(('channel %d: pixels before %s hold the blend' % (c, kn), lambda st, cell=cell: cell(st, part=1)))
    return out


class Blend:
    def __init__(s, mod, fn, args, premult=True):
        s.ex = ex = Exec(mod)
        s.rle = Rle(ex); s.pix = Pixels(ex, s.rle, premult)
        s.fn = fn
        s.v = {a: var(a, 'I', 0, ONE) for a in args}
        s.args = args
        s.m = s.rle.m(s.rle.K)
        s.old = [s.pix.old(c) for c in range(4)]
        for f in s.pix.inv(ex, lambda o, t: s.pix.base(ex, (), o, t), (), 8 * s.pix.q): ex.fact(f)
        for c in range(3):
            for f in s.pix.inv(ex, lambda o, t: s.pix.base(ex, (), o, t), (), 8 * s.pix.q + 2 * c): ex.fact(f)
        s.extra = []

    def run(s, cellspec, post, paint=False):
        """cellspec(new, old) -> T: relation of the blended pixel to the old one"""
        ex = s.ex
        if paint: spectral_contracts(ex)
        def rel(st, done, c):
            new = s.pix.now(c, st.guard)
            d = and_(s.rle.cov, done)
            return implies(not_(d), eq(new, s.old[c])), implies(d, cellspec(c, new, s.old))
        ex.loop_cands.append(lambda ex, L: index_cands(ex, L, s.rle, s.pix, rel))
        args = [ptr(s.rle.reg), ptr(s.pix.reg)] + [s.v[a] for a in s.args]
        ex.call_fn(s.fn, args, TRUE)
        g = ex.last_guard
        new = [s.pix.now(c, g) for c in range(4)]
        for name, cond in post(new, s.old): ex.oblige(name, 'post', g, cond, s.fn)
        return ex


def common_post(s, rgb_le_alpha=True):
    def f(new, old):
        out = [('uncovered pixels are unchanged', implies(not_(s.rle.cov), and_(*[eq(a, b) for a, b in zip(new, old)])))]
        out.append(('alpha stays within 2^15', le(new[3], ONE)))
        for c in range(3):
            if rgb_le_alpha: out.append(('channel %d stays at or below alpha' % c, le(new[c], new[3])))
            else: out.append(('channel %d stays within 2^15' % c, le(new[c], ONE)))
        return out
    return f


def over(c, old, oa, ob, col):
    return idiv(oa * col[c] + ob * old[c], num(ONE))


def task_normal(mod):
    s = Blend(mod, 'draw_dab_pixels_BlendMode_Normal', ['color_r', 'color_g', 'color_b', 'opacity'])
    col = [s.v['color_r'], s.v['color_g'], s.v['color_b']]
    oa = idiv(s.m * s.v['opacity'], num(ONE)); ob = ONE - oa
    def spec(c, new, old):
        return eq(new, over(c, old, oa, ob, col) if c < 3 else oa + idiv(ob * old[3], num(ONE)))
    def post(new, old):
        return common_post(s)(new, old) + [('Normal: channel %d = top + (1-topalpha)*bottom' % c, implies(s.rle.cov, spec(c, new[c], old))) for c in range(4)]
    return s.run(spec, post)


def simple(mod, fn, args, specf, desc, premult=True, paint=False):
    s = Blend(mod, fn, args, premult)
    spec = specf(s)
    def post(new, old):
        return common_post(s)(new, old) + [('%s: channel %d' % (desc, c), implies(s.rle.cov, spec(c, new[c], old))) for c in range(4)]
    return s.run(spec, post, paint)


CA = ['color_r', 'color_g', 'color_b']


def task_eraser(mod):
    def sp(s):
        col = [s.v[a] for a in CA]
        oa = idiv(s.m * s.v['opacity'], num(ONE)); ob = ONE - oa
        oa2 = idiv(oa * s.v['color_a'], num(ONE))
        return lambda c, new, old: eq(new, over(c, old, oa2, ob, col) if c < 3 else oa2 + idiv(ob * old[3], num(ONE)))
    return simple(mod, 'draw_dab_pixels_BlendMode_Normal_and_Eraser', CA + ['color_a', 'opacity'], sp, 'over with a translucent source')


def task_lockalpha(mod):
    def sp(s):
        col = [s.v[a] for a in CA]
        oa = idiv(s.m * s.v['opacity'], num(ONE)); ob = ONE - oa
        oa2 = idiv(oa * s.old[3], num(ONE))
        return lambda c, new, old: eq(new, over(c, old, oa2, ob, col)) if c < 3 else eq(new, old[3])
    return simple(mod, 'draw_dab_pixels_BlendMode_LockAlpha', CA + ['opacity'], sp, 'colour over, alpha locked')


def task_posterize(mod):
    def sp(s):
        oa = idiv(s.m * s.v['opacity'], num(ONE)); ob = ONE - oa
        n = s.v['posterize_num']
        s.ex.fact(and_(le(1, n), le(n, 128)))
        def f(c, new, old):
            if c == 3: return eq(new, old[3])
            lev = app('level%d' % c, [], 'I', 0, 128)
            return None
        return f
    s = Blend(mod, 'draw_dab_pixels_BlendMode_Posterize', ['opacity', 'posterize_num'], premult=False)
    n = s.v['posterize_num']
    s.ex.fact(and_(le(1, n), le(n, 128)))
    def spec(c, new, old):
        if c == 3: return eq(new, old[3])
        return le(new, ONE)
    def post(new, old):
        return common_post(s, False)(new, old) + [('Posterize: alpha untouched', eq(new[3], old[3]))]
    return s.run(spec, post)


def setlum_contract(ex):
    """set_rgb16_lum_from_rgb16: inputs within 2^15 (checked at the call), results within 2^15 (task_setlum)"""
    def c(ex, a, g, w):
        for i in range(3): ex.oblige('%s: luminance top colour within 2^15' % w, 'pre', g, and_(le(0, ex.u(a[i], 16, g)), le(ex.u(a[i], 16, g), ONE)), w)
        for i in range(3):
            v = ex.u(ex.load(a[3 + i], 'i16', g, w), 16, g)
            ex.oblige('%s: luminance bottom colour within 2^15' % w, 'pre', g, le(v, ONE), w)
        for i in range(3): ex.store(a[3 + i], 'i16', fresh('lum', 'I', 0, ONE), g, w)
    ex.contracts['set_rgb16_lum_from_rgb16'] = c


def task_color(mod):
    s = Blend(mod, 'draw_dab_pixels_BlendMode_Color', CA + ['opacity'])
    setlum_contract(s.ex)
    def spec(c, new, old):
        return eq(new, old[3]) if c == 3 else TRUE
    def post(new, old):
        return common_post(s)(new, old) + [('Colorize: alpha untouched', eq(new[3], old[3]))]
    return s.run(spec, post)


def task_setlum(mod): return all_paths('set_rgb16_lum_from_rgb16', lambda prep: setlum_path(mod, prep))


def setlum_path(mod, prep):
    ex = Exec(mod)
    prep(ex)
    ex.name_products = True
    top = [var('top%d' % i, 'I', 0, ONE) for i in range(3)]
    r = ex.new_region('bot', 6)
    bot = [var('bot%d' % i, 'I', 0, ONE) for i in range(3)]
    for i in range(3): r.log.append(('w', TRUE, (), num(2 * i), 2, 'i16', bot[i]))
    ex.call_fn('set_rgb16_lum_from_rgb16', top + [ptr(r, 0), ptr(r, 2), ptr(r, 4)], TRUE)
    g = ex.last_guard
    for i in range(3):
        v = ex.read(r, (), num(2 * i), 'i16', g)      # the untruncated value
        for n, cond in (('not negative', le(0, v)), ('at most 2^15', le(v, ONE))):
            ex.oblige('luminance transfer: channel %d %s' % (i, n), 'post', g, cond, 'set_rgb16_lum_from_rgb16')
    return ex


def task_normal_paint(mod):
    def sp(s):
        op = tm.max_(s.v['opacity'], num(150))
        col = [s.v[a] for a in CA]
        oa = idiv(s.m * op, num(ONE)); ob = ONE - oa
        def f(c, new, old):
            if c == 3: return eq(new, oa + idiv(ob * old[3], num(ONE)))
            return and_(le(new, oa + idiv(ob * old[3], num(ONE))), implies(eq(old[3], 0), eq(new, over(c, old, oa, ob, col))))
        return f
    return simple(mod, 'draw_dab_pixels_BlendMode_Normal_Paint', CA + ['opacity'], sp, 'pigment blend: alpha exact, colour at most alpha, plain over on empty canvas', paint=True)


def task_lockalpha_paint(mod):
    def sp(s):
        return lambda c, new, old: eq(new, old[3]) if c == 3 else TRUE
    return simple(mod, 'draw_dab_pixels_BlendMode_LockAlpha_Paint', CA + ['opacity'], sp, 'pigment blend, alpha locked', paint=True)


def task_eraser_paint(mod):
    def sp(s):
        col = [s.v[a] for a in CA]
        oa = idiv(s.m * s.v['opacity'], num(ONE)); ob = ONE - oa
        oa2 = idiv(oa * s.v['color_a'], num(ONE))
        al = oa2 + idiv(ob * s.old[3], num(ONE))
        return lambda c, new, old: eq(new, al) if c == 3 else TRUE
    return simple(mod, 'draw_dab_pixels_BlendMode_Normal_and_Eraser_Paint', CA + ['color_a', 'opacity'], sp, 'pigment blend with a translucent source', paint=True)
