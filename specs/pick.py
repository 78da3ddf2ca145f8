"""Picking a colour: get_color and the two functions that add up the pixels of a tile.

legacy (pigment off): exact sums over all pixels the mask covers, by induction over its tokens.
accumulate: for arbitrary bounds lo, hi that all covered pixels respect, the averages respect them too, whichever subset is sampled."""
from specs.lib import *
from specs.blend import Rle, Pixels, index_cands, TOKS
from fractions import Fraction

ONE = 1 << 15
SUMS = ['weight', 'r', 'g', 'b', 'a']


def cells(ex, names=SUMS):
    """float variables behind pointers, with their initial values"""
    r, v = {}, {}
    for n in names:
        v[n] = var('sum_' + n, 'R')
        reg = ex.new_region('sum_' + n, 4, lambda ex, key, off, ty, n=n: v[n] if ty == 'f32' else None); reg.align = 4
        r[n] = reg
    return r, v


def read(ex, reg, g): return ex.read(reg, (), num(0), 'f32', g)


def token_of(rle, L):
    """the loop variables that walk over the mask"""
    for n, v in L['init'].items():
        if isinstance(v, Ptr) and any(r is rle.reg for c, r, k, o in v.alts):
            def f(st, n=n):
                for c, r, k, o in st.vals[n].alts:
                    if r is rle.reg: return idiv(o, num(2))
                raise KeyError
            yield n, f


def walk(ex, L, rle, pix):
    """invariants of the loops over the tokens: (mask index, pixel pointer) go together"""
    out = []
    for kn, kf in token_of(rle, L):
        def tok(st, kf=kf):
            k = kf(st)
            for d in range(3): rle.inst(k - d)
            return and_(le(0, k), rle.tok(k))
        out.append(('%s is a token of the mask' % kn, tok))
        for n, v in L['init'].items():
            if isinstance(v, Ptr) and any(r is pix.reg for c, r, k, o in v.alts):
                out.append(('%s is the pixel of %s' % (n, kn), lambda st, n=n, kf=kf: and_(*[implies(c, eq(o, 8 * rle.P(kf(st)))) for c, r, k, o in st.vals[n].alts if r is pix.reg])))
    return out


def task_legacy(mod):
    ex = Exec(mod)
    rle = Rle(ex); pix = Pixels(ex, None); pix.reg.const = True
    w = 'get_color_pixels_legacy'
    regs, v0 = cells(ex)
    for n in SUMS: ex.fact(and_(le(0, v0[n]), le(v0[n], 1 << 60)))
    S = lambda n, k: app('S_' + n, [k], 'I', 0, None)
    px = lambda k, c: app('px', [4 * rle.P(k) + c], 'I', 0, 65535)
    END = app('end_of_mask', [], 'I', 0, TOKS)
    seen = set()
    for n in SUMS: ex.fact(eq(S(n, num(0)), 0))
    def inst(k):
        """the sums over the pixels that the tokens before k cover"""
        if k in seen: return
        seen.add(k)
        rle.inst(k)
        m, m1, tok = rle.m(k), rle.m(k + 1), rle.tok(k)
        op, sk = and_(tok, lt(0, m)), and_(tok, eq(m, 0), lt(0, m1))
        ex.fact(implies(and_(tok, eq(m, 0), eq(m1, 0)), eq(END, k)))
        for i, n in enumerate(SUMS):
            add_ = m if n == 'weight' else idiv(m * px(k, i - 1), num(ONE))
            ex.fact(implies(op, eq(S(n, k + 1), S(n, k) + add_))); ex.fact(implies(sk, eq(S(n, k + 2), S(n, k))))
            # every pixel adds 0..2^15 (by induction)
            ex.fact(implies(tok, and_(le(0, S(n, k)), le(S(n, k), ONE * rle.P(k)))))
    def cands(ex, L):
        out = walk(ex, L, rle, pix)
        for kn, kf in token_of(rle, L):
            def known(st, kf=kf):
                inst(kf(st)); inst(kf(st) - 1); inst(kf(st) - 2)
            named = {n: [i for i in ints(L) if i.split('.')[0] == n] for n in SUMS}       # only a hint that saves time
            for i in ints(L):
                for n in SUMS:
                    if all(named.values()) and i not in named[n]: continue
                    def f(st, n=n, i=i, known=known, kf=kf): known(st); return eq(st.vals[i], S(n, kf(st)))
                    out.append(('%s is the sum of %s up to %s' % (i, n, kn), f, False))
        return out
    ex.loop_cands.append(cands)
    _, g = ex.call_fn(w, [ptr(rle.reg), ptr(pix.reg)] + [ptr(regs[n]) for n in SUMS], TRUE)
    for n in SUMS:
        ex.oblige('the sum of %s over the covered pixels is added' % n, 'post', g, eq(read(ex, regs[n], g), v0[n] + tm.real(S(n, END))), w)
    return ex


RGB = ['r', 'g', 'b']
RAND_MAX = (1 << 31) - 1


def task_accumulate(mod):
    """with pigment (paint >= 0)"""
    ex = Exec(mod)
    rle = Rle(ex); pix = Pixels(ex, None); pix.reg.const = True
    w = 'get_color_pixels_accumulate'
    regs, v0 = cells(ex)
    paint, rate = var('paint', 'R', 0, 1), var('rate', 'R', 0, Fraction(1, 7))
    every = var('sample_interval', 'I', 1, 65535)
    # bounds that all pixels (of non-zero alpha) respect
    lo, hi = [var('lo_' + n, 'R', 0, 1) for n in RGB], [var('hi_' + n, 'R', 0, 1) for n in RGB]
    alo, ahi = var('lo_a', 'R', 0, 1), var('hi_a', 'R', 0, 1)
    ex.fact(and_(le(0, v0['a']), le(v0['a'], v0['weight']), le(v0['weight'], 1 << 60)))
    def average(v, i, a):
        """of the pixels so far, when they are not all transparent"""
        return and_(le(0, v), le(v, 1), implies(lt(0, a), and_(le(lo[i], v), le(v, hi[i]))))
    for i, n in enumerate(RGB): ex.fact(average(v0[n], i, v0['a']))
    alphas = lambda a, wt: and_(le(0, a), le(a, wt), le(alo * wt, a), le(a, ahi * wt))
    ex.fact(alphas(v0['a'], v0['weight']))
    px = lambda k, c: app('px', [4 * rle.P(k) + c], 'I', 0, 65535)
    seen = set()
    def inst(k):
        if k in seen: return
        seen.add(k)
        al = tm.real(px(k, 3))
        ex.fact(and_(le(alo * ONE, al), le(al, ahi * ONE), le(al, ONE)))
        for i in range(3):
            v = tm.real(px(k, i))
            ex.fact(and_(le(v, al), le(lo[i] * al, v), le(v, hi[i] * al)))
    from specs.blend import spectral_contracts
    spectral_contracts(ex)
    ex.contracts['rand'] = lambda ex, A, g, w: fresh('rand', 'I', 0, RAND_MAX)
    def legacy(ex, A, g, w): ex.oblige('%s: exact sums without pigment only' % w, 'pre', g, FALSE, w)
    ex.contracts['get_color_pixels_legacy'] = legacy
    now = lambda st, n: st.read(regs[n], num(0), 'f32')
    def cands(ex, L):
        out = walk(ex, L, rle, pix)
        for kn, kf in token_of(rle, L):
            def with_pixel(f, kf=kf):
                def h(st): inst(kf(st)); return f(st, kf(st))
                return h
            out.append(('alpha', with_pixel(lambda st, k: alphas(now(st, 'a'), now(st, 'weight')))))
            out.append(('weight', lambda st: and_(le(v0['weight'], now(st, 'weight')), le(v0['a'], now(st, 'a')))))
            out.append(('size', with_pixel(lambda st, k: le(now(st, 'weight'), v0['weight'] + tm.real(rle.P(k))))))
            out.append(('a covered pixel counts', with_pixel(lambda st, k: implies(and_(rle.cov, lt(rle.K, k)), lt(v0['weight'], now(st, 'weight'))))))
            for i in ints(L):
                out.append(('%s counts samples' % i, lambda st, i=i: and_(lt(ite(lt(st.vals[i], 0), st.vals[i] + 65536, st.vals[i]), every), implies(eq(now(st, 'weight'), v0['weight']), eq(st.vals[i], 0))), False))
            for r in L['M']:
                if getattr(r, 'stack', False):
                    def avg(st, r=r): return and_(*[average(st.read(r, num(4 * i), 'f32'), i, now(st, 'a')) for i in range(3)])
                    out.append(('%s is an average' % r.name, lambda st, avg=avg: implies(lt(paint, 1), avg(st)), False))
        return out
    ex.loop_cands.append(cands)
    _, g = ex.call_fn(w, [ptr(rle.reg), ptr(pix.reg)] + [ptr(regs[n]) for n in SUMS] + [paint, every, rate], TRUE)
    v = {n: read(ex, regs[n], g) for n in SUMS}
    ex.oblige('the alphas are averaged', 'post', g, alphas(v['a'], v['weight']), w)
    ex.oblige('a covered pixel has weight', 'post', g, implies(rle.cov, lt(v0['weight'], v['weight'])), w)
    ex.oblige('nothing is taken back', 'post', g, and_(le(v0['weight'], v['weight']), le(v['weight'], v0['weight'] + 4096), le(v0['a'], v['a'])), w)
    for i, n in enumerate(RGB):
        ex.oblige('%s is in [0, 1]' % n, 'post', g, and_(le(0, v[n]), le(v[n], 1)), w)
        ex.oblige('without pigment %s is an average' % n, 'post', and_(g, eq(paint, 0)), average(v[n], i, v['a']), w)
        ex.oblige('%s is the mixture of an average and the pigment average' % n, 'post', and_(g, lt(0, v['a'])), and_((1 - paint) * lo[i] <= v[n], v[n] <= paint + (1 - paint) * hi[i]), w)
    out = [ex]
    # without pigment: the legacy sums of the same tile
    ex = Exec(mod)
    mask, rgba = ex.new_region('mask', 2 * TOKS, None, const=True), ex.new_region('rgba', 8 * 4096, None, const=True)
    regs, v0 = cells(ex)
    p = var('no_paint', 'R')
    calls = Ghost(ex, 'calls')
    def legacy(ex, A, g, w):
        ex.oblige('%s: the sums of this tile' % w, 'pre', g, and_(*[ptr_eq(a, b) for a, b in zip(A, [ptr(mask), ptr(rgba)] + [ptr(regs[n]) for n in SUMS])]), w)
        calls.set(calls.get(0, g) + 1, g)
    ex.contracts['get_color_pixels_legacy'] = legacy
    _, g = ex.call_fn(w, [ptr(mask), ptr(rgba)] + [ptr(regs[n]) for n in SUMS] + [p, var('interval', 'I', 1, 65535), var('rate', 'R', 0, Fraction(1, 7))], lt(p, 0))
    ex.oblige('added once', 'post', g, eq(calls.get(0, g), 1), w)
    for n in SUMS: ex.oblige('and nothing else to %s' % n, 'post', g, eq(read(ex, regs[n], g), v0[n]), w)
    out.append(ex)
    return out


def task_get_color(mod):
    """get_color: the sums over all tiles in reach, made into a colour"""
    ex = Exec(mod); ex.cut_always = True
    w = 'get_color'
    BIG = 1 << 24
    S = Struct(ex, 'MyPaintTiledSurface', 'surface', const=True)
    x, y = var('x', 'R', -BIG, BIG), var('y', 'R', -BIG, BIG)
    radius = var('radius', 'R', None, 1 << 22)
    paint = var('paint', 'R', None, 1)
    r = tm.max_(radius, num(1, 'R'))
    # some pixel the probe may reach, and its tile
    qpx, qpy = var('qpx', 'I', -2 * BIG, 2 * BIG), var('qpy', 'I', -2 * BIG, 2 * BIG)
    qx, qy = var('qx', 'I', -BIG, BIG), var('qy', 'I', -BIG, BIG)
    for p, t, c in ((qpx, qx, x), (qpy, qy, y)): ex.fact(and_(le(64 * t, p), lt(p, 64 * t + 64), le(tm.real(p), c + r), le(c - r, tm.real(p) + 1)))
    cx, cy = var('cx', 'I', -BIG, BIG), var('cy', 'I', -BIG, BIG)       # the tile of the centre
    for t, c in ((cx, x), (cy, y)): ex.fact(and_(le(64 * tm.real(t), c), lt(c, 64 * tm.real(t) + 64)))
    lo, hi = [var('lo_' + n, 'R', 0, 1) for n in RGB], [var('hi_' + n, 'R', 0, 1) for n in RGB]
    alo, ahi = var('lo_a', 'R', 0, 1), var('hi_a', 'R', 0, 1)
    outs = {n: ex.new_region('color_' + n, 4, None) for n in RGB + ['a']}
    for o in outs.values(): o.align = 4
    buf = ex.new_region('tile', 64 * 64 * 8, None, const=True); buf.align = 2
    flushed, times = Ghost(ex, 'flushed', 2), Ghost(ex, 'times', 2)
    open_, ot, rendered = Ghost(ex, 'open'), [Ghost(ex, 'open tile x'), Ghost(ex, 'open tile y')], [Ghost(ex, 'rendered'), Ghost(ex, 'mask x'), Ghost(ex, 'mask y')]
    central = Ghost(ex, 'centre added')
    tot = {n: Ghost(ex, 'total ' + n) for n in SUMS}
    maskreg = []
    def flush(ex, A, g, w):
        ex.oblige('%s: of this surface' % w, 'pre', g, ptr_eq(A[0], S.p), w)
        ex.oblige('%s: not while a tile is requested' % w, 'pre', g, eq(open_.get(0, g), 0), w)
        flushed.set(1, g, 0, (A[1], A[2]))
    def field(A, f, ty, g, w): return ex.load(A[1].shift(num(mod.off('MyPaintTileRequest', f))), ty, g, w)
    def start(ex, A, g, w):
        tx, ty = field(A, 'tx', 'i32', g, w), field(A, 'ty', 'i32', g, w)
        ex.oblige('%s: one tile at a time, for reading, at full size' % w, 'pre', g, and_(eq(open_.get(0, g), 0), ne(field(A, 'readonly', 'i32', g, w), 0), eq(field(A, 'mipmap_level', 'i32', g, w), 0)), w)
        ex.oblige('%s: after the dabs queued for it were drawn' % w, 'pre', g, eq(flushed.get(0, g, (tx, ty)), 1), w)
        ex.store(A[1].shift(num(mod.off('MyPaintTileRequest', 'buffer'))), 'ptr', ptr(buf), g, w)
        open_.set(1, g); ot[0].set(tx, g); ot[1].set(ty, g)
    def end(ex, A, g, w):
        ex.oblige('%s: the requested tile is given back' % w, 'pre', g, and_(eq(open_.get(0, g), 1), eq(field(A, 'tx', 'i32', g, w), ot[0].get(0, g)), eq(field(A, 'ty', 'i32', g, w), ot[1].get(0, g))), w)
        open_.set(0, g)
    def render(ex, A, g, w):
        for c, rg, k, o in A[0].alts: ex.oblige('%s: the mask buffer is large enough' % w, 'pre', and_(g, c), FALSE if rg is None or rg.size is None else le(o + 2 * TOKS, rg.size), w)
        half, zero, one = num(Fraction(1, 2), 'R'), num(0, 'R'), num(1, 'R')
        for n, a, b in zip(('x', 'y', 'radius', 'hardness', 'softness', 'aspect ratio', 'angle'), A[1:], (None, None, r, half, half, one, zero)):
            if b is not None: ex.oblige('%s: the %s of the probe' % (w, n), 'pre', g, eq(a, b), w)
        maskreg[:] = [A[0]]
        rendered[0].set(1, g)
        for i in (0, 1): rendered[1 + i].set(A[1 + i], g, ) if False else rendered[1 + i].reg.log.append(('w', g, (), num(0), 4, 'f32', A[1 + i]))
    def accumulate(ex, A, g, w):
        tx, ty = ot[0].get(0, g), ot[1].get(0, g)
        ex.oblige('%s: of the requested tile' % w, 'pre', g, and_(eq(open_.get(0, g), 1), ptr_eq(A[1], ptr(buf))), w)
        ex.oblige('%s: with the mask of the probe in this tile' % w, 'pre', g, and_(eq(rendered[0].get(0, g), 1), ptr_eq(A[0], maskreg[0]) if maskreg else FALSE,
                  eq(rendered[1].get(0, g, ty='f32'), x - 64 * tm.real(tx)), eq(rendered[2].get(0, g, ty='f32'), y - 64 * tm.real(ty))), w)
        ex.oblige('%s: with the pigment share asked for' % w, 'pre', g, eq(A[7], paint), w)
        every = ex.u(A[8], 16, g)
        ex.oblige('%s: the sampling interval is at least one' % w, 'pre', g, le(1, every), w)
        ex.oblige('%s: the sampling rate is a probability' % w, 'pre', g, and_(le(0, A[9]), le(A[9], Fraction(1, 7))), w)
        ex.oblige('%s: small probes are sampled completely' % w, 'pre', and_(g, le(r, 2)), eq(every, 1), w)
        v = [ex.load(p, 'f32', g, w) for p in A[2:7]]
        st = dict(zip(SUMS, v))
        ex.oblige('%s: the sums so far' % w, 'pre', g, good(st, tot, lambda gh: gh.get(0, g, ty='f32')), w)
        new = {n: fresh('new_' + n, 'R') for n in SUMS}
        add = {n: fresh('of_tile_' + n, 'R') for n in SUMS}
        t1 = {n: tot[n].get(0, g, ty='f32') + add[n] for n in SUMS}
        # proved in the tasks accumulate, legacy (and centre: the middle of the probe is covered)
        ex.fact(implies(lt(paint, 0), and_(*[eq(new[n], st[n] + add[n]) for n in SUMS], *[and_(le(0, add[n]), le(add[n], add['a'])) for n in RGB], le(add['a'], add['weight']), le(add['weight'], 1 << 27))))
        ex.fact(implies(le(0, paint), and_(alphas(new), le(st['weight'], new['weight']), le(new['weight'], st['weight'] + 4096), le(st['a'], new['a']), *[and_(le(0, new[n]), le(new[n], 1)) for n in RGB])))
        for i, n in enumerate(RGB): ex.fact(implies(eq(paint, 0), average(new, i)))
        ex.fact(implies(and_(eq(tx, cx), eq(ty, cy)), lt(st['weight'], new['weight'])))
        for n, p in zip(SUMS, A[2:7]):
            ex.store(p, 'f32', new[n], g, w)
            tot[n].reg.log.append(('w', g, (), num(0), 4, 'f32', t1[n]))
        times.set(times.get(0, g, (tx, ty)) + 1, g, 0, (tx, ty))
        central.set(1, and_(g, eq(tx, cx), eq(ty, cy)))
    alphas = lambda s: and_(le(0, s['a']), le(s['a'], s['weight']), le(alo * s['weight'], s['a']), le(s['a'], ahi * s['weight']))
    average = lambda s, i: and_(le(0, s[RGB[i]]), le(s[RGB[i]], 1), implies(lt(0, s['a']), and_(le(lo[i], s[RGB[i]]), le(s[RGB[i]], hi[i]))))
    def good(s, tot, get):
        return and_(le(0, s['weight']), le(0, s['a']), le(s['a'], s['weight']),
                    implies(lt(paint, 0), and_(*[eq(s[n], get(tot[n])) for n in SUMS], *[and_(le(0, s[n]), le(s[n], s['a'])) for n in RGB])),
                    implies(le(0, paint), and_(alphas(s), *[and_(le(0, s[n]), le(s[n], 1)) for n in RGB])),
                    implies(eq(paint, 0), and_(*[average(s, i) for i in range(3)])))
    ex.contracts.update(process_tile=flush, mypaint_tiled_surface_tile_request_start=start, mypaint_tiled_surface_tile_request_end=end, render_dab_mask=render, get_color_pixels_accumulate=accumulate)
    sums = {}
    def cands(ex, L):
        rows = [v for v in L['enclosing'].values() if isinstance(v, T) and v.sort == 'I']
        loc = {n: [rg for rg in L['M'] if getattr(rg, 'stack', False) and rg.name.endswith('sum_' + n)] for n in SUMS}
        out = [('no tile is kept', lambda st: eq(open_.at(st), 0))]
        if all(loc.values()):
            def state(st): return {n: st.read(loc[n][0], num(0), 'f32') for n in SUMS}
            sums.update({n: loc[n][0] for n in SUMS})
            out.append(('the sums so far', lambda st: good(state(st), tot, lambda gh: gh.at(st, ty='f32'))))
            out.append(('the middle counts', lambda st: implies(eq(central.at(st), 1), lt(0, state(st)['weight']))))
        for i in ints(L):
            for o in rows or [None]:
                before = (lambda st, a, b, i=i: lt(b, st.vals[i])) if o is None else (lambda st, a, b, i=i, o=o: or_(lt(b, o), and_(eq(b, o), lt(a, st.vals[i]))))
                out.append(('tiles up to %s' % i, lambda st, before=before: eq(times.at(st, 0, (qx, qy)), ite(before(st, qx, qy), num(1), num(0))), False))
                out.append(('the middle up to %s' % i, lambda st, before=before: eq(central.at(st), ite(before(st, cx, cy), num(1), num(0))), False))
        return out
    ex.loop_cands.append(cands)
    _, g = ex.call_fn(w, [S.p, x, y, radius] + [ptr(outs[n]) for n in RGB + ['a']] + [paint], TRUE)
    v = {n: read(ex, outs[n], g) for n in RGB + ['a']}
    T_ = {n: tot[n].get(0, g, ty='f32') for n in SUMS}
    for n in RGB + ['a']: ex.oblige('%s is in [0, 1]' % n, 'post', g, and_(le(0, v[n]), le(v[n], 1)), w)
    ex.oblige('every tile in reach is added once', 'post', g, eq(times.get(0, g, (qx, qy)), 1), w)
    ex.oblige('every tile is given back', 'post', g, eq(open_.get(0, g), 0), w)
    ex.oblige('an empty area is green without alpha', 'post', and_(g, eq(v['a'], 0)), and_(eq(v['r'], 0), eq(v['g'], 1), eq(v['b'], 0)), w)
    ex.oblige('an area without alpha is empty', 'post', and_(g, eq(ahi, 0), le(0, paint)), eq(v['a'], 0), w)
    ex.oblige('the alpha is an average', 'post', and_(g, le(0, paint)), and_(le(alo, v['a']), le(v['a'], ahi)), w)
    ex.oblige('exactly without pigment', 'post', and_(g, lt(paint, 0)), and_(lt(0, T_['weight']), eq(v['a'] * T_['weight'], T_['a'])), w)
    for i, n in enumerate(RGB):
        ex.oblige('%s is an average of the canvas' % n, 'post', and_(g, eq(paint, 0), lt(0, v['a'])), and_(le(lo[i], v[n]), le(v[n], hi[i])), w)
        ex.oblige('%s is the exact average without pigment' % n, 'post', and_(g, lt(paint, 0), lt(0, v['a'])), eq(v[n] * T_['a'], T_[n]), w)
    return ex


def task_centre(mod):
    """the mask of a probe covers the pixel in its middle"""
    out = []
    for fn in ('calculate_rr', 'calculate_rr_antialiased'):
        ex = Exec(mod)
        aa = fn != 'calculate_rr'
        x, y = var('x', 'R', 0, 64), var('y', 'R', 0, 64)
        r = var('radius', 'R', 1, 1 << 22)
        inv = var('inv', 'R', 0, 1)
        px, py = var('px', 'I', 0, 63), var('py', 'I', 0, 63)
        for p, c in ((px, x), (py, y)): ex.fact(and_(le(tm.real(p), c), lt(c, tm.real(p) + 1)))
        one, zero, half = num(1, 'R'), num(0, 'R'), num(Fraction(1, 2), 'R')
        # 1 / radius^2 is at most one
        args = [px, py, x, y, one, zero, one, inv] + ([var('start', 'R', 0, None)] if aa else [])
        rr, g = ex.call_fn(fn, args, TRUE)
        # 1 - rr is at least a quarter
        ex.oblige('the middle is near the centre', 'lemma', g, le(rr, Fraction(7, 8)), fn)
        Q = var('rr', 'R', 0, Fraction(7, 8))
        opa, g2 = ex.call_fn('calculate_opa', [Q, half, half, -half, half, -half], TRUE)
        ex.oblige('the middle is covered', 'post', g2, le(1, opa * ONE), fn)
        out.append(ex)
    return out
