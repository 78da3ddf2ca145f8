"""The tables of settings, inputs and states; names; defaults; the accessors of a brush's settings."""
import json, os, struct
from specs.lib import *
from specs.brush import Brush

FMAX = Fraction(struct.unpack('<f', struct.pack('<I', 0x7f7fffff))[0])
def f32(x): return Fraction(struct.unpack('<f', struct.pack('<f', x))[0])
def text(mod, name):
    init = mod.globals[name][2]
    return bytes(init[1]).split(b'\0')[0].decode() if init[0] == 'bytes' else '' if init[0] == 'zero' else None


def definitions(mod): return json.load(open(os.path.join(mod.src, 'brushsettings.json')))


class Strings:
    """strings are known by their contents: every constant string of the program and every other string has a number, equal contents have equal numbers"""

    def __init__(s, ex, mod):
        s.ex = ex; s.mod = mod; s.ids = {}
        s.others = opaque(ex, 'string')
        ex.contracts['strcmp'] = s.strcmp
        for f in ('strncmp', 'strcasecmp', 'strlen', 'strncasecmp', 'memcmp'): ex.contracts[f] = lambda ex, A, g, w, f=f: s.other(f, A)
        ex.contracts['dgettext'] = lambda ex, A, g, w: A[1]
        ex.contracts['gettext'] = lambda ex, A, g, w: A[0]
        ex.assumed.add('strcmp returns 0 exactly for equal strings; messages are not translated')

    def num(s, t): return s.ids.setdefault(t, len(s.ids) + 1)

    def id(s, p, g=TRUE):
        r = num(0)
        for c, reg, k, o in p.alts:
            if reg is None: continue
            if reg is s.others.reg: v = k[0]
            elif reg.name.startswith('@') and o.op == 'num' and o.args == 0: v = num(s.num(text(s.mod, reg.name[1:])))
            else: raise Unsupported('string %s' % reg.name)
            r = ite(c, v, r)
        return r

    def strcmp(s, ex, A, g, w):
        a, b = s.id(A[0]), s.id(A[1])
        ex.oblige('%s: no NULL string is compared' % w, 'pre', g, and_(not_(is_null(A[0])), not_(is_null(A[1]))), w)
        r = app('strcmp', [a, b], 'I', -(1 << 31), (1 << 31) - 1)
        if a.op == 'num' and b.op == 'num': return num(0) if a.args == b.args else ite(lt(r, 0), num(-1), num(1))
        ex.fact(eq(eq(r, 0), eq(a, b)))
        return r

    def other(s, f, A): return app(f, [s.id(a) if isinstance(a, Ptr) else a for a in A], 'I', *((0, None) if f == 'strlen' else (-(1 << 31), (1 << 31) - 1)))

    def param(s, name):
        """an arbitrary string"""
        i = var(name, 'I', 1, None)
        return i, s.others(i, True)


# ---------------------------------------------------------------- tables
def task_tables(mod):
    """every entry of the compiled tables is the one of the definition"""
    d = definitions(mod); E = mod.enums
    ex = Exec(mod); S = Strings(ex, mod)
    w = 'settings_info_array'
    def same(what, p, t, g):
        ex.oblige(what, 'post', g, eq(S.id(p, g), S.num(t)), w)
    def number(what, v, x, g): ex.oblige(what, 'post', g, eq(v, num(x, 'R')), w)
    globs = lambda: [r.__setattr__('ginit', True) for r in ex.globals.values()]
    for n in ('settings_info_array', 'inputs_info_array'): ex.global_ptr(n)
    globs()
    for kind, P, T_, items, key in (('setting', 'SETTING', 'MyPaintBrushSettingInfo', d['settings'], 'internal_name'), ('input', 'INPUT', 'MyPaintBrushInputInfo', d['inputs'], 'id')):
        ex.oblige('as many %ss as defined' % kind, 'post', TRUE, eq(num(E['MYPAINT_BRUSH_%sS_COUNT' % P]), len(items)), w)
        for i, it in enumerate(items):
            nm = it[key]
            ex.oblige('%s %s has position %d' % (kind, nm, i), 'post', TRUE, eq(num(E.get('MYPAINT_BRUSH_%s_%s' % (P, nm.upper()), -1)), i), w)
            w = 'mypaint_brush_%s_info' % kind
            p, g = ex.call_fn(w, [num(i)], TRUE)
            L = lambda f, ty: ex.load(p.shift(num(mod.off(T_, f))), ty, g, w)
            same('%s %d is called %s' % (kind, i, nm), L('cname', 'ptr'), nm, g)
            same('%s %s: displayed name' % (kind, nm), ex.call_fn(w + '_get_name', [p], g)[0], it['displayed_name'], g)
            same('%s %s: tooltip' % (kind, nm), ex.call_fn(w + '_get_tooltip', [p], g)[0], it['tooltip'], g)
            if kind == 'setting':
                for f, k in (('min', 'minimum'), ('def', 'default'), ('max', 'maximum')): number('setting %s: %s' % (nm, k), L(f, 'f32'), f32(it[k]), g)
                ex.oblige('setting %s: constant' % nm, 'post', g, eq(ne(L('constant', 'i32'), 0), TRUE if it['constant'] else FALSE), w)
                ex.oblige('setting %s: the default is in the range' % nm, 'post', g, and_(le(L('min', 'f32'), L('def', 'f32')), le(L('def', 'f32'), L('max', 'f32'))), w)
            else:
                for f, k, dflt in (('hard_min', 'hard_minimum', -FMAX), ('soft_min', 'soft_minimum', None), ('normal', 'normal', None), ('soft_max', 'soft_maximum', None), ('hard_max', 'hard_maximum', FMAX)):
                    number('input %s: %s' % (nm, k), L(f, 'f32'), f32(it[k]) if it[k] is not None else dflt, g)
    w = 'MyPaintBrushState'
    ex.oblige('as many states as defined', 'post', TRUE, eq(num(E['MYPAINT_BRUSH_STATES_COUNT']), len(d['states'])), w)
    for i, nm in enumerate(d['states']): ex.oblige('state %s has position %d' % (nm, i), 'post', TRUE, eq(num(E.get('MYPAINT_BRUSH_STATE_' + nm.upper(), -1)), i), w)
    return ex


def task_names(mod):
    """looking up a name finds the entry with that name, and nothing else: the name is that of an entry, or another one"""
    d = definitions(mod); out = []
    for kind, items, key in (('setting', d['settings'], 'internal_name'), ('input', d['inputs'], 'id')):
        w = 'mypaint_brush_%s_from_cname' % kind
        ex = Exec(mod); ex.cut_always = set(); ex.unroll_limit = ex.sym_unroll = 200; S = Strings(ex, mod)
        for n in ('settings_info_array', 'inputs_info_array'): ex.global_ptr(n); ex.globals[n].ginit = True
        for k, it in enumerate(items):
            r, g = ex.call_fn(w, [S.others(S.num(it[key]), True)], TRUE)
            ex.oblige('%s %s is found' % (kind, it[key]), 'post', g, eq(r, k), w)
        r, g = ex.call_fn(w, [S.others(-1, True)], TRUE)      # no string of the program has this number
        ex.oblige('%s: no other name is found' % kind, 'post', g, eq(r, -1), w)
        out.append(ex)
    return out


# ---------------------------------------------------------------- the mappings of a brush as seen by its callers
class Maps:
    """ghost contents of the mappings of a brush: number of points, points, base values; contracts of mypaint-mapping.c (proved in specs/mapping.py)"""

    def __init__(s, ex, maps, NI):
        s.ex = ex; s.maps = maps; s.NI = NI
        R = lambda n, keys, lo=None, hi=None: ex.new_region('ghost_' + n, None, None, keys=keys)
        s.rn, s.rx, s.ry, s.rb = R('points', 2), R('x', 3), R('y', 3), R('base', 1)
        for f in ('set_n', 'set_point', 'get_n', 'get_point', 'set_base_value', 'get_base_value', 'is_constant', 'get_inputs_used_n'): ex.contracts['mypaint_mapping_' + f] = getattr(s, f)
        ex.contracts['settings_base_values_have_changed'] = lambda ex, A, g, w: None

    def n(s, m, i, g=TRUE): return s.ex.read(s.rn, (tm.T_(m), tm.T_(i)), num(0), 'i32', g)
    def x(s, m, i, k, g=TRUE): return s.ex.read(s.rx, (tm.T_(m), tm.T_(i), tm.T_(k)), num(0), 'f32', g)
    def y(s, m, i, k, g=TRUE): return s.ex.read(s.ry, (tm.T_(m), tm.T_(i), tm.T_(k)), num(0), 'f32', g)
    def b(s, m, g=TRUE): return s.ex.read(s.rb, (tm.T_(m),), num(0), 'f32', g)
    def w(s, r, g, key, ty, v): r.log.append(('w', g, tuple(tm.T_(k) for k in key), num(0), 4, ty, v))

    def m(s, A, g, w):
        s.ex.oblige('%s: a mapping is given' % w, 'pre', g, not_(is_null(A[0])), w)
        return opaque_id(A[0], s.maps)
    def inp(s, i, g, w): s.ex.oblige('%s: the input exists' % w, 'pre', g, and_(le(0, i), lt(i, s.NI)), w)

    def set_n(s, ex, A, g, w):
        m = s.m(A, g, w); s.inp(A[1], g, w)
        ex.oblige('%s: 0 or 2 to 64 points' % w, 'pre', g, and_(ne(A[2], 1), le(0, A[2]), le(A[2], 64)), w)
        s.w(s.rn, g, (m, A[1]), 'i32', A[2])
    def set_point(s, ex, A, g, w):
        m = s.m(A, g, w); i, k, x, y = A[1:5]
        s.inp(i, g, w)
        ex.oblige('%s: the point exists' % w, 'pre', g, and_(le(0, k), lt(k, s.n(m, i, g))), w)
        ex.oblige('%s: points go from left to right' % w, 'pre', and_(g, lt(0, k)), le(s.x(m, i, k - 1, g), x), w)
        s.w(s.rx, g, (m, i, k), 'f32', x); s.w(s.ry, g, (m, i, k), 'f32', y)
    def get_n(s, ex, A, g, w): m = s.m(A, g, w); s.inp(A[1], g, w); return s.n(m, A[1], g)
    def get_point(s, ex, A, g, w):
        m = s.m(A, g, w); s.inp(A[1], g, w)
        ex.oblige('%s: the point exists' % w, 'pre', g, and_(le(0, A[2]), lt(A[2], s.n(m, A[1], g))), w)
        ex.store(A[3], 'f32', s.x(m, A[1], A[2], g), g, w); ex.store(A[4], 'f32', s.y(m, A[1], A[2], g), g, w)
    def set_base_value(s, ex, A, g, w): s.w(s.rb, g, (s.m(A, g, w),), 'f32', A[1])
    def get_base_value(s, ex, A, g, w): return s.b(s.m(A, g, w), g)
    def is_constant(s, ex, A, g, w): return app('is_constant', [s.m(A, g, w)], 'I', 0, 1)
    def get_inputs_used_n(s, ex, A, g, w): return app('inputs_used', [s.m(A, g, w)], 'I', 0, s.NI)


def task_access(mod):
    """the accessors of a brush act on the mapping of the given setting, and on no other"""
    out = []
    def start():
        s = Brush(mod); ex = s.ex; M = Maps(ex, s.maps, s.NI)
        idv, inp = var('setting', 'I', 0, s.NS - 1), var('input', 'I', 0, s.NI - 1)
        o = dict(m=var('other_mapping', 'I', 1, s.NS), i=var('other_input', 'I', 0, s.NI - 1), k=var('other_index', 'I', 0, 63))
        old = M.n(o['m'], o['i']), M.x(o['m'], o['i'], o['k']), M.y(o['m'], o['i'], o['k']), M.b(o['m'])
        def frame(g, w, mine):
            now = M.n(o['m'], o['i'], g), M.x(o['m'], o['i'], o['k'], g), M.y(o['m'], o['i'], o['k'], g), M.b(o['m'], g)
            for j, nm in enumerate(('number of points', 'x', 'y', 'base value')):
                ex.oblige('%s: no other %s changes' % (w, nm), 'post', g, or_(mine[j] if mine[j] is not None else FALSE, eq(now[j], old[j])), w)
        return s, ex, M, idv, inp, o, frame
    # base value
    s, ex, M, idv, inp, o, frame = start()
    v = var('value', 'R'); w = 'mypaint_brush_set_base_value'
    _, g = ex.call_fn(w, [s.p, idv, v], TRUE)
    ex.oblige('the base value is stored', 'post', g, eq(M.b(idv + 1, g), v), w)
    frame(g, w, (None, None, None, eq(o['m'], idv + 1)))
    w = 'mypaint_brush_get_base_value'
    r, g = ex.call_fn(w, [s.p, var('another', 'I', 0, s.NS - 1)], g)
    ex.oblige('the base value is read', 'post', g, eq(r, M.b(var('another', 'I', 0, s.NS - 1) + 1, g)), w)
    out.append(ex)
    # number of points
    s, ex, M, idv, inp, o, frame = start()
    n = var('n', 'I', 0, 64); ex.fact(ne(n, 1)); w = 'mypaint_brush_set_mapping_n'
    _, g = ex.call_fn(w, [s.p, idv, inp, n], TRUE)
    ex.oblige('the number of points is stored', 'post', g, eq(M.n(idv + 1, inp, g), n), w)
    frame(g, w, (and_(eq(o['m'], idv + 1), eq(o['i'], inp)), None, None, None))
    w = 'mypaint_brush_get_mapping_n'
    r, g = ex.call_fn(w, [s.p, o['m'] - 1, o['i']], g)
    ex.oblige('the number of points is read', 'post', g, eq(r, M.n(o['m'], o['i'], g)), w)
    out.append(ex)
    # points
    s, ex, M, idv, inp, o, frame = start()
    k = var('index', 'I', 0, 63); x, y = var('x', 'R'), var('y', 'R'); w = 'mypaint_brush_set_mapping_point'
    ex.fact(lt(k, M.n(idv + 1, inp))); ex.fact(or_(le(k, 0), le(M.x(idv + 1, inp, k - 1), x)))
    _, g = ex.call_fn(w, [s.p, idv, inp, k, x, y], TRUE)
    ex.oblige('the point is stored', 'post', g, and_(eq(M.x(idv + 1, inp, k, g), x), eq(M.y(idv + 1, inp, k, g), y)), w)
    mine = and_(eq(o['m'], idv + 1), eq(o['i'], inp), eq(o['k'], k))
    frame(g, w, (None, mine, mine, None))
    w = 'mypaint_brush_get_mapping_point'
    rx, ry = [ex.new_region(n, 4, None) for n in ('out x', 'out y')]
    ex.fact(lt(o['k'], M.n(o['m'], o['i'])))
    _, g = ex.call_fn(w, [s.p, o['m'] - 1, o['i'], o['k'], ptr(rx), ptr(ry)], g)
    ex.oblige('the point is read', 'post', g, and_(eq(ex.read(rx, (), num(0), 'f32', g), M.x(o['m'], o['i'], o['k'], g)), eq(ex.read(ry, (), num(0), 'f32', g), M.y(o['m'], o['i'], o['k'], g))), w)
    out.append(ex)
    # the rest
    s, ex, M, idv, inp, o, frame = start()
    r, g = ex.call_fn('mypaint_brush_is_constant', [s.p, idv], TRUE)
    ex.oblige('a setting is constant if its mapping is', 'post', g, eq(ne(r, 0), ne(app('is_constant', [idv + 1], 'I', 0, 1), 0)), 'mypaint_brush_is_constant')
    r, g = ex.call_fn('mypaint_brush_get_inputs_used_n', [s.p, idv], TRUE)
    ex.oblige('the inputs used by the mapping', 'post', g, eq(r, app('inputs_used', [idv + 1], 'I', 0, s.NI)), 'mypaint_brush_get_inputs_used_n')
    out.append(ex)
    return out


def task_defaults(mod):
    d = definitions(mod)
    s = Brush(mod); ex = s.ex; ex.cut_always = set(); ex.unroll_limit = 200
    for n in ('settings_info_array', 'inputs_info_array'): ex.global_ptr(n); ex.globals[n].ginit = True
    M = Maps(ex, s.maps, s.NI); w = 'mypaint_brush_from_defaults'
    _, g = ex.call_fn(w, [s.p], TRUE)
    P = s.E['MYPAINT_BRUSH_SETTING_OPAQUE_MULTIPLY'], s.E['MYPAINT_BRUSH_INPUT_PRESSURE']
    for i, it in enumerate(d['settings']):
        ex.oblige('default of %s' % it['internal_name'], 'post', g, eq(M.b(i + 1, g), num(f32(it['default']), 'R')), w)
        for j, jt in enumerate(d['inputs']): ex.oblige('default curve of %s by %s' % (it['internal_name'], jt['id']), 'post', g, eq(M.n(i + 1, j, g), 2 if (i, j) == P else 0), w)
    for k in range(2): ex.oblige('point %d of the default pressure curve' % k, 'post', g, and_(eq(M.x(P[0] + 1, P[1], k, g), k), eq(M.y(P[0] + 1, P[1], k, g), k)), w)
    return ex
