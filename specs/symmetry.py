"""Symmetry: mypaint-matrix.c, mypaint-symmetry.c and draw_dab in mypaint-tiled-surface.c."""
from specs.lib import *
from specs.rect import Surface, dab_args, NAMES

MW = 36
VERT, HORZ, VH, ROT, SNOW = range(5)


class Matrices:
    def __init__(s, ex, name, n):
        s.ex = ex
        s.reg = ex.new_region(name, MW * tm.T_(n), None); s.reg.align = 4

    def get(s, k, g=TRUE): return [[s.ex.read(s.reg, (), MW * tm.T_(k) + 12 * r + 4 * c, 'f32', g) for c in range(3)] for r in range(3)]
    def at(s, st, k): return [[st.read(s.reg, MW * tm.T_(k) + 12 * r + 4 * c, 'f32') for c in range(3)] for r in range(3)]
    def p(s, k=0): return ptr(s.reg, MW * tm.T_(k))


def point(m, x, y): return m[0][0] * x + m[0][1] * y + m[0][2], m[1][0] * x + m[1][1] * y + m[1][2]
def load_matrix(ex, p, g, w): return [[ex.load(p.shift(num(12 * r + 4 * c)), 'f32', g, w) for c in range(3)] for r in range(3)]


def required(ty, n): return ite(or_(eq(ty, VERT), eq(ty, HORZ)), num(1), ite(eq(ty, VH), num(3), ite(eq(ty, ROT), n - 1, ite(eq(ty, SNOW), 2 * n - 1, num(0)))))


def task_draw_dab(mod):
    """draw_dab: paints the dab and each of its images under the current symmetry, once; the bounding boxes used count as dirtied"""
    S = Surface(mod, 32); ex = S.ex
    n = var('num_lines', 'I', 1, 1 << 20)
    ty = var('type', 'I', -1, 10)
    angle = var('symmetry_angle', 'R')
    active = var('active', 'I', -5, 5)
    nm = var('num_matrices', 'I', 0, 1 << 22)
    ex.fact(or_(eq(nm, 0), le(required(ty, n), nm)))     # established by mypaint_update_symmetry_state
    ex.fact(implies(ne(active, 0), le(2, n)))
    M = Matrices(ex, 'matrices', nm); M.reg.const = True
    so = S.s.off('symmetry_data'); oo = lambda f: so + mod.off('MyPaintSymmetryData', f); ss = lambda f: oo('state_current') + mod.off('MyPaintSymmetryState', f)
    S.s.cells.update({ss('type'): ty, ss('num_lines'): tm.real(n), ss('angle'): angle, oo('active'): active, oo('num_symmetry_matrices'): nm, oo('symmetry_matrices'): ptr(M.reg)})
    a = {x: var(x, 'R') for x in NAMES}
    mod_ = var('leaves_a_mark', 'I', 0, 1)
    k = var('image', 'I', 0, 1 << 22)
    sym = and_(ne(mod_, 0), ne(active, 0), ne(nm, 0))
    count = ite(or_(eq(ty, VERT), eq(ty, HORZ)), num(1), ite(eq(ty, VH), num(3), ite(eq(ty, ROT), n - 1, ite(eq(ty, SNOW), 2 * n - 1, num(0)))))
    ex.fact(lt(k, count))
    X, Y = point(M.get(k), a['x'], a['y'])
    rot = ex.fdiv(num(360, 'R'), tm.real(n))
    kr = tm.real(k)
    A = ite(eq(ty, VERT), -180 - 2 * angle - a['angle'], ite(eq(ty, HORZ), -2 * angle - a['angle'], ite(eq(ty, VH), ite(eq(k, 1), a['angle'], -2 * angle - a['angle']),
        ite(or_(eq(ty, ROT), lt(k, n - 1)), a['angle'] - (kr + 1) * rot, -2 * angle - a['angle'] - (kr - tm.real(n) + 1) * rot))))
    calls, first, hit, top = Ghost(ex, 'dabs'), Ghost(ex, 'original'), Ghost(ex, 'image'), Ghost(ex, 'top bbox')
    def ddi(ex, p, g, w):
        v = dict(zip(NAMES, p[1:18]))
        ex.oblige('%s: the dab goes to this surface' % w, 'pre', g, ptr_eq(p[0], S.s.p), w)
        ex.oblige('%s: only position and angle differ between images' % w, 'pre', g, and_(*[eq(v[x], a[x]) for x in NAMES if x not in ('x', 'y', 'angle')]), w)
        ex.oblige('%s: the bounding box exists' % w, 'pre', g, and_(le(0, p[18]), lt(p[18], S.N)), w)
        c = calls.get(0, g)
        o = and_(eq(v['x'], a['x']), eq(v['y'], a['y']), eq(v['angle'], a['angle']))
        first.set(ite(o, num(1), first.get(0, g)), g)
        i = and_(eq(v['x'], X), eq(v['y'], Y), eq(v['angle'], A))
        hit.set(ite(i, num(1), hit.get(0, g)), g)
        calls.set(c + 1, g)
        top.set(tm.max_(top.get(0, g), p[18] + 1), g)
        return mod_
    ex.contracts['draw_dab_internal'] = ddi
    def cands(ex, L):
        out = []
        if calls.reg not in L['M']: return out
        g0 = L['g0']
        c0, h0, t0 = calls.get(0, g0), hit.get(0, g0), top.get(0, g0)
        for i in ints(L):
            i0 = L['init'][i]
            out.append(('one dab per step of %s' % i, lambda st, i=i, i0=i0, c0=c0: eq(calls.at(st), c0 + st.vals[i] - i0)))
        for i, done in progress(L, shifts=(0, -1)):
            out.append(('rotated images %s are painted' % i, lambda st, done=done: implies(and_(done(st, k), lt(k, n - 1)), eq(hit.at(st), 1))))
            out.append(('reflected images %s are painted' % i, lambda st, done=done: implies(and_(eq(ty, SNOW), le(n - 1, k), done(st, k - (n - 1))), eq(hit.at(st), 1))))
        out.append(('reflected images are painted', lambda st: implies(and_(eq(ty, SNOW), le(n - 1, k)), eq(hit.at(st), 1))))
        out.append(('the original is painted', lambda st: eq(first.at(st), 1)))
        for b in (S.N, 2 * n, ite(eq(ty, SNOW), 2 * n, n)):
            out.append(('boxes used are at most %s' % b, lambda st, b=b: le(top.at(st), b)))
        return out
    ex.loop_cands.append(cands)
    r, g = ex.call_fn('draw_dab', [S.s.p] + [a[x] for x in NAMES], TRUE)
    w = 'draw_dab'
    ex.oblige('the dab itself is painted', 'post', g, eq(first.get(0, g), 1), w)
    ex.oblige('every image of the dab is painted', 'post', g, implies(sym, eq(hit.get(0, g), 1)), w)
    ex.oblige('nothing else is painted', 'post', g, implies(and_(le(0, ty), lt(ty, 5)), eq(calls.get(0, g), ite(sym, 1 + count, num(1)))), w)
    ex.oblige('the result says whether the surface changed', 'post', g, eq(ne(r, 0), ne(mod_, 0)), w)
    D = S.get('num_bboxes_dirtied', g)
    ex.oblige('the bounding boxes in use count as dirtied', 'post', g, and_(le(S.D, D), le(D, S.N)), w)
    for t, b in ((VERT, 2), (HORZ, 2), (VH, 4), (ROT, n), (SNOW, 2 * n), (None, 1)):
        gt = and_(g, ne(mod_, 0), eq(ty, t) if t is not None else or_(lt(ty, 0), lt(4, ty)))
        ex.oblige('the bounding boxes in use are at most %s' % b, 'lemma', gt, and_(le(top.get(0, gt), b), le(top.get(0, gt), S.N)), w)
        ex.fact(implies(gt, and_(le(top.get(0, gt), b), le(top.get(0, gt), S.N))))
        ex.oblige('as many bounding boxes count as dirtied', 'post', gt, implies(sym if t is not None else TRUE, le(tm.min_(S.N, tm.T_(b)), D)), w)
        ex.oblige('without symmetry one does', 'post', gt, implies(not_(sym), and_(le(top.get(0, gt), 1), le(1, D))), w)
    ex.oblige('a dab without effect dirties nothing', 'post', g, implies(eq(mod_, 0), eq(D, S.D)), w)
    return ex


def affine(ex, M, k=0):
    m = M.get(k)
    ex.fact(and_(eq(m[2][0], 0), eq(m[2][1], 0), eq(m[2][2], 1)))
    return m


def is_affine(m): return and_(eq(m[2][0], 0), eq(m[2][1], 0), eq(m[2][2], 1))


def task_matrix(mod):
    """mypaint-matrix.c: every operation transforms points as its name says, after what the given matrix does"""
    out = []
    px, py = var('px', 'R'), var('py', 'R')
    def run(fn, extra, image):
        ex = Exec(mod)
        M, R = Matrices(ex, 'transform', 1), Matrices(ex, 'result', 1)
        m = affine(ex, M)
        _, g = ex.call_fn(fn, [R.p(), M.p()] + extra(ex), TRUE)
        r = R.get(0, g)
        q = point(m, px, py)
        want = image(ex, *q)
        got = point(r, px, py)
        ex.oblige('%s: the image of every point' % fn, 'post', g, and_(eq(got[0], want[0]), eq(got[1], want[1])), fn)
        ex.oblige('%s: the result is affine' % fn, 'post', g, is_affine(r), fn)
        out.append(ex)
    a = var('angle', 'R')
    def cs(ex): s, c = ex._trig(a); return c, s
    def rot(sign):
        def im(ex, x, y):
            c, s = cs(ex)
            return c * x + sign * s * y, c * y - sign * s * x
        return im
    run('mypaint_transform_rotate_cw', lambda ex: [a], rot(1))
    run('mypaint_transform_rotate_ccw', lambda ex: [a], rot(-1))
    def refl(ex, x, y):
        c, s = cs(ex)
        d, e = c * x + s * y, c * y - s * x      # along the axis, and across it
        return c * d + s * e, s * d - c * e
    run('mypaint_transform_reflect', lambda ex: [a], refl)
    tx, ty = var('tx', 'R'), var('ty', 'R')
    run('mypaint_transform_translate', lambda ex: [tx, ty], lambda ex, x, y: (x + tx, y + ty))
    # the product
    ex = Exec(mod)
    A, B, R = Matrices(ex, 'm1', 1), Matrices(ex, 'm2', 1), Matrices(ex, 'result', 1)
    a1, b1 = affine(ex, A), affine(ex, B)
    _, g = ex.call_fn('mypaint_matrix_multiply', [R.p(), A.p(), B.p()], TRUE)
    r = R.get(0, g)
    want = point(b1, *point(a1, px, py)); got = point(r, px, py)
    ex.oblige('multiply: first the one, then the other', 'post', g, and_(eq(got[0], want[0]), eq(got[1], want[1]), is_affine(r)), 'mypaint_matrix_multiply')
    out.append(ex)
    # unit, point
    ex = Exec(mod)
    R = Matrices(ex, 'result', 1)
    _, g = ex.call_fn('mypaint_transform_unit', [R.p()], TRUE)
    got = point(R.get(0, g), px, py)
    ex.oblige('unit: no point moves', 'post', g, and_(eq(got[0], px), eq(got[1], py), is_affine(R.get(0, g))), 'mypaint_transform_unit')
    O = ex.new_region('out', 8, None)
    M = Matrices(ex, 'transform', 1); m = affine(ex, M)
    _, g = ex.call_fn('mypaint_transform_point', [M.p(), px, py, ptr(O), ptr(O, num(4))], g)
    want = point(m, px, py)
    ex.oblige('point: the image under the matrix', 'post', g, and_(eq(ex.read(O, (), num(0), 'f32', g), want[0]), eq(ex.read(O, (), num(4), 'f32', g), want[1])), 'mypaint_transform_point')
    out.append(ex)
    return out


class SymData:
    """a MyPaintSymmetryData with arbitrary current and pending states.
    Invariant: there are no matrices, or enough for the current state."""

    def __init__(s, mod, ex):
        s.ex = ex
        s.nm = var('num_matrices', 'I', 0, 1 << 22)
        s.M = Matrices(ex, 'matrices', s.nm)
        s.s = Struct(ex, 'MyPaintSymmetryData', 'symmetry_data')
        s.st = {}
        for st in ('state_current', 'state_pending'):
            v = dict(type=var(st + '.type', 'I', -1, 10), center_x=var(st + '.center_x', 'R'), center_y=var(st + '.center_y', 'R'),
                     angle=var(st + '.angle', 'R'), num_lines=var(st + '.num_lines', 'I', 2, 1 << 20))
            s.st[st] = v
            for f, x in v.items():
                s.s.cells[s.s.off(st) + mod.off('MyPaintSymmetryState', f)] = tm.real(x) if f == 'num_lines' else x
        s.mod = mod
        s.pending = var('pending_changes', 'I', -5, 5); s.active = var('active', 'I', -5, 5)
        s.s.set('pending_changes', s.pending); s.s.set('active', s.active); s.s.set('num_symmetry_matrices', s.nm); s.s.set('symmetry_matrices', ptr(s.M.reg))
        c = s.st['state_current']
        ex.fact(or_(eq(s.nm, 0), le(required(c['type'], c['num_lines']), s.nm)))

    def field(s, st, f, g): return s.ex.read(s.s.reg, (), num(s.s.off(st) + s.mod.off('MyPaintSymmetryState', f)), 'i32' if f == 'type' else 'f32', g)


def abstract_matrices(ex):
    """the functions of mypaint-matrix.c (their meaning is proved by task_matrix): a matrix is represented by what it is composed of"""
    def op(nm, fixed=0):
        def c(ex, A, g, w):
            m = [] if nm == 'unit' else [ex.load(A[1], 'f32', g, w)]
            ex.store(A[0], 'f32', app('matrix_' + nm, m + [tm.real(x) for x in A[2 - (nm == 'unit'):]], 'R'), g, w)
        return c
    for f in ('unit', 'rotate_cw', 'rotate_ccw', 'reflect', 'translate'): ex.contracts['mypaint_transform_' + f] = op(f)
    mk = lambda nm: lambda *a: app('matrix_' + nm, [tm.real(tm.T_(x)) for x in a], 'R')
    return mk('unit'), mk('rotate_cw'), mk('reflect'), mk('translate')


def task_update(mod):
    """mypaint_update_symmetry_state: the matrices become those of the pending symmetry"""
    import math
    ex = Exec(mod); ex.malloc_may_fail = True
    D = SymData(mod, ex)
    P = D.st['state_pending']; C = D.st['state_current']
    ty, n, cx, cy = P['type'], P['num_lines'], P['center_x'], P['center_y']
    k = var('image', 'I', 0, 1 << 22)
    req = required(ty, n)
    ex.fact(lt(k, req))
    pi = Fraction(math.pi)
    th = P['angle'] * tm.T_(Fraction(math.pi / 180))
    rot = ex.fdiv(num(2 * pi, 'R'), tm.real(n))
    unit, turn, refl, trans = abstract_matrices(ex)
    T0 = trans(unit(), -cx, -cy)
    T1 = lambda m: trans(m, cx, cy)
    v = th + tm.T_(pi / 2)
    kr = tm.real(k); j = kr - tm.real(n) + 1
    h1 = refl(T0, -th); h2 = refl(h1, -v); h3 = refl(h2, -th)
    cases = [(eq(ty, VERT), refl(T0, -v)), (eq(ty, HORZ), h1), (and_(eq(ty, VH), eq(k, 0)), h1), (and_(eq(ty, VH), eq(k, 1)), h2), (and_(eq(ty, VH), eq(k, 2)), h3),
             (and_(or_(eq(ty, ROT), eq(ty, SNOW)), lt(k, n - 1)), turn(T0, rot * (kr + 1))),
             (and_(eq(ty, SNOW), le(n - 1, k)), refl(turn(T0, rot * j), -j * rot - th))]
    pre, fin = 'pre', 'fin'
    unchanged = lambda g: and_(eq(D.s.get('num_symmetry_matrices', 'i32', g), D.nm), *[eq(D.field('state_current', f, g), tm.real(C[f]) if f == 'num_lines' else C[f]) for f in C])
    def mat(st, r): return st.read(r, MW * k, 'f32')
    def cands(ex, L):
        out = []
        for r in L['M']:
            if r is D.s.reg or (r is not D.M.reg and 'heap' not in r.name): continue
            def cur(st, r=r):
                p = ex.read(D.s.reg, (), num(D.s.off('symmetry_matrices')), 'ptr', st.guard)
                return or_(*[c for c, rr, kk, oo in p.alts if rr is r])
            for i, done in progress(L, r, MW, (0, -1)):
                for nm_, f, cond in (('matrices %s', pre, lambda st, done=done: done(st, k)), ('matrices %s are complete', fin, lambda st, done=done: done(st, k)),
                                 ('reflections %s are set', pre, lambda st, done=done: and_(eq(ty, SNOW), le(n - 1, k), done(st, k - n + 1))),
                                 ('rotations %s are set', pre, lambda st, done=done: and_(lt(k, n - 1), done(st, k)))):
                    up = i.startswith('below'); shifted = ' -1' in i
                    if nm_.startswith('rotations'):
                        if not up: continue
                    elif shifted or up != (nm_ != 'matrices %s'): continue
                    for q, (c, s) in enumerate(cases):
                        out.append(('%s (%s, case %d)' % (nm_ % i, r.name, q), lambda st, f=f, cond=cond, r=r, cur=cur, c=c, s=s: implies(and_(cond(st), cur(st), c), eq(mat(st, r), s if f is pre else T1(s)))))
            c, s = cases[-1]
            out.append(('reflections stay (%s)' % r.name, lambda st, r=r, cur=cur, c=c, s=s: implies(and_(cur(st), c), eq(mat(st, r), s))))
        return out
    ex.loop_cands.append(cands)
    _, g = ex.call_fn('mypaint_update_symmetry_state', [D.s.p], TRUE)
    w = 'mypaint_update_symmetry_state'
    same_ = and_(*[eq(P[f], C[f]) for f in C])
    needed = and_(ne(D.pending, 0), not_(same_))
    ex.oblige('without a pending change nothing changes', 'post', g, implies(not_(needed), unchanged(g)), w)
    nm = D.s.get('num_symmetry_matrices', 'i32', g)
    done = and_(*[eq(D.field('state_current', f, g), tm.real(P[f]) if f == 'num_lines' else P[f]) for f in P])
    ex.oblige('the pending state becomes current unless memory ran out', 'post', g, implies(needed, or_(and_(done, le(req, nm)), eq(nm, 0))), w)
    ex.oblige('enough memory is never reported as lacking', 'post', g, implies(and_(needed, le(req, D.nm)), and_(done, eq(nm, D.nm))), w)
    ct, cn = D.field('state_current', 'type', g), D.field('state_current', 'num_lines', g)
    ex.oblige('there are no matrices or enough', 'post', g, or_(eq(nm, 0), le(required(ct, tm.floor(cn)), nm)), w)
    p = ex.load(D.s.p.shift(num(D.s.off('symmetry_matrices'))), 'ptr', g, w)
    gm = and_(g, needed, ne(nm, 0), lt(k, nm))
    m = ex.load(p.shift(MW * k), 'f32', gm, 'symmetry_matrices')
    for q, (c, s) in enumerate(cases):
        ex.oblige('matrix k is the k-th image of the new symmetry (case %d)' % q, 'post', and_(gm, c), eq(m, T1(s)), w)
    ex.oblige('the change is no longer pending', 'post', g, implies(and_(needed, ne(nm, 0), le(0, ty), lt(ty, 5)), eq(D.s.get('pending_changes', 'i32', g), 0)), w)
    ex.oblige('activity is untouched', 'post', g, eq(D.s.get('active', 'i32', g), D.active), w)
    return ex


def task_set_pending(mod):
    ex = Exec(mod)
    D = SymData(mod, ex)
    ac, t, n = var('new_active', 'I', -5, 5), var('new_type', 'I', -1, 10), var('lines', 'I', -(1 << 24), 1 << 24)
    x, y, an = var('x', 'R'), var('y', 'R'), var('new_angle', 'R')
    _, g = ex.call_fn('mypaint_symmetry_set_pending', [D.s.p, ac, x, y, an, t, n], TRUE)
    w = 'mypaint_symmetry_set_pending'
    F = lambda f: D.field('state_pending', f, g)
    ex.oblige('the pending symmetry is the given one, with at least two lines', 'post', g, and_(eq(F('type'), t), eq(F('center_x'), x), eq(F('center_y'), y), eq(F('angle'), an), eq(F('num_lines'), tm.real(tm.max_(n, num(2))))), w)
    C = D.st['state_current']
    ex.oblige('the current symmetry stays until the next transaction', 'post', g, and_(*[eq(D.field('state_current', f, g), tm.real(C[f]) if f == 'num_lines' else C[f]) for f in C]), w)
    ex.oblige('the change is pending and activity is as given', 'post', g, and_(ne(D.s.get('pending_changes', 'i32', g), 0), eq(D.s.get('active', 'i32', g), ac)), w)
    return ex
