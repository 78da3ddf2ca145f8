"""Contracts of mypaint-mapping.c.
Representation invariant: every curve has 0 or 2..64 points; inputs_used counts the non-empty curves."""
from specs.lib import *


class Mapping:
    def __init__(s, mod):
        s.ex = ex = Exec(mod)
        s.CP = mod.sizeof('ControlPoints')
        s.N = mod.off('ControlPoints', 'n'); s.XO = mod.off('ControlPoints', 'xvalues'); s.YO = mod.off('ControlPoints', 'yvalues')
        s.inputs = var('inputs', 'I', 1, 64)
        s.used = var('inputs_used', 'I', 0, 64)
        ex.fact(le(s.used, s.inputs))
        s.base = var('base', 'R')
        s.pts = ex.new_region('points', s.inputs * s.CP, None)
        s.pts.align = 4
        s.pts.cell_inv = s.inv
        s.pts.havoc_base = lambda ex, nm: None
        s.pts.skolems = []
        s.map = Struct(ex, 'MyPaintMapping', 'map', dict(base_value=s.base, inputs=s.inputs, pointsList=ptr(s.pts), inputs_used=s.used))

    def inv(s, ex, rd, key, off):
        j = field_index(off, s.N, s.CP)
        if j is None: return []
        v = rd(off, 'i32')
        return [or_(eq(v, 0), and_(le(2, v), le(v, 64)))]

    def n(s, j, g=TRUE): return s.ex.read(s.pts, (), s.CP * tm.T_(j) + s.N, 'i32', g)
    def X(s, j, i, g=TRUE): return s.ex.read(s.pts, (), s.CP * tm.T_(j) + 4 * tm.T_(i) + s.XO, 'f32', g)
    def Y(s, j, i, g=TRUE): return s.ex.read(s.pts, (), s.CP * tm.T_(j) + 4 * tm.T_(i) + s.YO, 'f32', g)


def task_calculate(mod):
    s = Mapping(mod)
    ex = s.ex
    ex.div_uf = True      # the quotient is a function of numerator and denominator
    data = ex.new_region('data', s.inputs * 4, None, const=True)
    D = lambda j: ex.read(data, (), 4 * tm.T_(j), 'f32')
    Sum = lambda j: app('Sum', [j], 'R')           # base value plus the contributions of the inputs below j
    C = lambda j: app('Contribution', [j], 'R')
    ex.fact(eq(Sum(num(0)), s.base))
    # inputs_used = 0 means that all curves are empty, hence (by induction) the sum is the base value
    ex.fact(implies(eq(s.used, 0), eq(Sum(s.inputs), s.base)))

    def curve(j, i):
        """what the contribution of input j is when i is the upper point of the segment that applies"""
        x, x0, x1, y0, y1 = D(j), s.X(j, i - 1), s.X(j, i), s.Y(j, i - 1), s.Y(j, i)
        seg = and_(le(1, i), lt(i, s.n(j)), or_(eq(i, 1), lt(s.X(j, i - 1), x)), or_(eq(i, s.n(j) - 1), le(x, x1)))
        flat = or_(eq(x0, x1), eq(y0, y1))
        lin = ex.fdiv(y1 * (x - x0) + y0 * (x1 - x), x1 - x0)
        return implies(seg, eq(C(j), ite(flat, y0, lin)))

    def defs(j):
        ex.fact(implies(and_(le(0, j), lt(j, s.inputs)), eq(Sum(j + 1), Sum(j) + C(j))))
        ex.fact(implies(eq(s.n(j), 0), eq(C(j), 0)))

    def cands(ex, L):
        out = []
        ints = [n for n, v in L['init'].items() if isinstance(v, T) and v.sort == 'I']
        reals = [n for n, v in L['init'].items() if isinstance(v, T) and v.sort == 'R']
        ptrs = [n for n, v in L['init'].items() if isinstance(v, Ptr)]
        for i in ints:
            def within(st, i=i):
                j = st.vals[i]
                defs(j); defs(j - 1)
                return and_(le(0, j), le(j, s.inputs))
            if L['enclosing']: continue
            out.append(('0 <= %s <= number of inputs' % i, within))
            for r in reals: out.append(('%s is the sum of the first %s contributions' % (r, i), lambda st, i=i, r=r: eq(st.vals[r], Sum(st.vals[i]))))
        # segment search: for the input j of the enclosing loop
        for j in [v for v in L['enclosing'].values() if isinstance(v, T) and v.sort == 'I']:
            for i, d in [(i, d) for i in ints for d in (0, 1)]:     # the counter may run at the upper point of the segment, or one beyond it
                U = lambda st, i=i, d=d: st.vals[i] - d
                def atn(st, U=U, j=j):
                    u = U(st)
                    ex.fact(curve(j, u))
                    return and_(le(1, u), or_(lt(u, s.n(j)), eq(u, 1)))
                w = i if d == 0 else '%s - %d' % (i, d)
                out.append(('1 <= %s < n' % w, atn))
                out.append(('the input lies beyond the point before the segment (%s)' % w, lambda st, U=U, j=j: or_(eq(U(st), 1), lt(s.X(j, U(st) - 1), D(j)))))
                for r in reals:
                    for nm, F, e in (('x0', s.X, 1), ('x1', s.X, 0), ('y0', s.Y, 1), ('y1', s.Y, 0)):
                        out.append(('%s is %s of segment %s' % (r, nm, w), lambda st, U=U, r=r, F=F, e=e, j=j: eq(st.vals[r], F(j, U(st) - e))))
        return out
    ex.loop_cands.append(cands)
    r, g = ex.call_fn('mypaint_mapping_calculate', [s.map.p, ptr(data)], TRUE)
    ex.oblige('result = base value + the sum of the piecewise linear contributions of all inputs', 'post', g, eq(r, Sum(s.inputs)), 'mypaint_mapping_calculate')
    return ex


def observers(s):
    """an arbitrary point of an arbitrary curve"""
    ex = s.ex
    j, k = var('any_input', 'I', 0, 63), var('any_point', 'I', 0, 63)
    ex.fact(lt(j, s.inputs))
    return j, k


def task_set_n(mod):
    s = Mapping(mod); ex = s.ex
    j, k = observers(s)
    inp, n = var('input', 'I', 0, 63), var('n', 'I', 0, 64)
    ex.fact(lt(inp, s.inputs)); ex.fact(ne(n, 1))
    old = dict(nj=s.n(j), ni=s.n(inp), x=s.X(j, k), y=s.Y(j, k))
    # the count is exact: it has room for this curve
    ex.fact(implies(ne(old['ni'], 0), le(1, s.used)))
    ex.fact(implies(eq(old['ni'], 0), lt(s.used, s.inputs)))
    _, g = ex.call_fn('mypaint_mapping_set_n', [s.map.p, inp, n], TRUE)
    w = 'mypaint_mapping_set_n'
    ex.oblige('the curve has the number of points that was set', 'post', g, eq(s.n(inp, g), n), w)
    ex.oblige('other curves keep their number of points', 'post', g, implies(ne(j, inp), eq(s.n(j, g), old['nj'])), w)
    ex.oblige('no point changes', 'post', g, and_(eq(s.X(j, k, g), old['x']), eq(s.Y(j, k, g), old['y'])), w)
    was, now = ite(ne(old['ni'], 0), num(1), num(0)), ite(ne(n, 0), num(1), num(0))
    ex.oblige('the count of used inputs follows', 'post', g, eq(s.map.get('inputs_used', 'i32', g), s.used + now - was), w)
    ex.oblige('the base value is untouched', 'post', g, eq(s.map.get('base_value', 'f32', g), s.base), w)
    r, g2 = ex.call_fn('mypaint_mapping_get_n', [s.map.p, inp], g)
    ex.oblige('get_n returns what set_n stored', 'post', g2, eq(r, n), 'mypaint_mapping_get_n')
    return ex


def task_set_point(mod):
    s = Mapping(mod); ex = s.ex
    j, k = observers(s)
    inp, idx = var('input', 'I', 0, 63), var('index', 'I', 0, 63)
    x, y = var('x', 'R'), var('y', 'R')
    ex.fact(lt(inp, s.inputs)); ex.fact(lt(idx, s.n(inp)))
    ex.fact(implies(lt(0, idx), le(s.X(inp, idx - 1), x)))
    old = dict(nj=s.n(j), x=s.X(j, k), y=s.Y(j, k))
    _, g = ex.call_fn('mypaint_mapping_set_point', [s.map.p, inp, idx, x, y], TRUE)
    w = 'mypaint_mapping_set_point'
    other = or_(ne(j, inp), ne(k, idx))
    ex.oblige('the point is stored', 'post', g, and_(eq(s.X(inp, idx, g), x), eq(s.Y(inp, idx, g), y)), w)
    ex.oblige('no other point changes', 'post', g, implies(other, and_(eq(s.X(j, k, g), old['x']), eq(s.Y(j, k, g), old['y']))), w)
    ex.oblige('no point count changes', 'post', g, eq(s.n(j, g), old['nj']), w)
    ex.oblige('base value and use count are untouched', 'post', g, and_(eq(s.map.get('base_value', 'f32', g), s.base), eq(s.map.get('inputs_used', 'i32', g), s.used)), w)
    rx, ry = ex.new_region('rx', 4), ex.new_region('ry', 4)
    _, g2 = ex.call_fn('mypaint_mapping_get_point', [s.map.p, inp, idx, ptr(rx), ptr(ry)], g)
    ex.oblige('get_point returns what set_point stored', 'post', g2, and_(eq(ex.read(rx, (), num(0), 'f32', g2), x), eq(ex.read(ry, (), num(0), 'f32', g2), y)), 'mypaint_mapping_get_point')
    return ex


def task_base(mod):
    s = Mapping(mod); ex = s.ex
    j, k = observers(s)
    v = var('value', 'R')
    old = dict(nj=s.n(j), x=s.X(j, k), y=s.Y(j, k))
    _, g = ex.call_fn('mypaint_mapping_set_base_value', [s.map.p, v], TRUE)
    r, g = ex.call_fn('mypaint_mapping_get_base_value', [s.map.p], g)
    ex.oblige('get_base_value returns what was set', 'post', g, eq(r, v), 'mypaint_mapping_set_base_value')
    ex.oblige('the curves are untouched', 'post', g, and_(eq(s.n(j, g), old['nj']), eq(s.X(j, k, g), old['x']), eq(s.Y(j, k, g), old['y']), eq(s.map.get('inputs_used', 'i32', g), s.used)), 'mypaint_mapping_set_base_value')
    r, g = ex.call_fn('mypaint_mapping_is_constant', [s.map.p], g)
    ex.oblige('is_constant tells whether no curve is used', 'post', g, eq(ne(r, 0), eq(s.used, 0)), 'mypaint_mapping_is_constant')
    r, g = ex.call_fn('mypaint_mapping_get_inputs_used_n', [s.map.p], g)
    ex.oblige('get_inputs_used_n is the count', 'post', g, eq(r, s.used), 'mypaint_mapping_get_inputs_used_n')
    return ex


def task_new(mod):
    ex = Exec(mod)
    CP, N = mod.sizeof('ControlPoints'), mod.off('ControlPoints', 'n')
    inputs = var('inputs', 'I', 1, 64)
    q = var('any_input', 'I', 0, 63)
    ex.fact(lt(q, inputs))
    def heap():
        return [r for r in ex.regions if r.name.startswith('heap@')]
    def cands(ex, L):
        out = []
        for r in L['M']:
            for i, done in progress(L, r, CP):
                out.append(('curves %s of %s are empty' % (i, r.name), lambda st, done=done, r=r: implies(done(st, q), eq(st.read(r, CP * q + N, 'i32'), 0))))
        return out
    ex.loop_cands.append(cands)
    p, g = ex.call_fn('mypaint_mapping_new', [inputs], TRUE)
    L = lambda f, ty: ex.load(p.shift(num(mod.off('MyPaintMapping', f))), ty, g, 'mypaint_mapping_new result')
    w = 'mypaint_mapping_new'
    ex.oblige('a new mapping has the given number of inputs', 'post', g, eq(L('inputs', 'i32'), inputs), w)
    ex.oblige('a new mapping uses no input and has base value 0', 'post', g, and_(eq(L('inputs_used', 'i32'), 0), eq(L('base_value', 'f32'), 0)), w)
    pl = L('pointsList', 'ptr')
    n = ex.load(pl.shift(CP * q + N), 'i32', g, 'pointsList')
    ex.oblige('every curve of a new mapping is empty', 'post', g, eq(n, 0), w)
    ex.load(pl.shift(CP * q + N - 4), 'i32', g, 'room for every curve')
    return ex
