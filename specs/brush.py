"""mypaint-brush.c: smudge buckets, references, strokes, dabs"""
from specs.lib import *

CT = 'MyPaintBrush'
BK = 9          # components of a bucket
MAXB = 1 << 24  # number of buckets


class Brush:
    """a brush in an arbitrary state"""

    def __init__(s, mod, buckets=None, const=False):
        s.ex = ex = Exec(mod); s.mod = mod; ex.cut_always = True
        s.E = mod.enums
        s.NS, s.NI, s.NST = s.E['MYPAINT_BRUSH_SETTINGS_COUNT'], s.E['MYPAINT_BRUSH_INPUTS_COUNT'], s.E['MYPAINT_BRUSH_STATES_COUNT']
        s.o = {f: mod.off(CT, f) for f in ('states', 'smudge_buckets', 'num_buckets', 'min_bucket_used', 'max_bucket_used', 'settings', 'settings_value', 'refcount', 'rng', 'brush_json', 'reset_requested')}
        s.maps = opaque(ex, 'mapping'); s.maps.reg.align = 8
        s.N = var('num_buckets', 'I', 0, MAXB) if buckets is None else tm.T_(buckets)
        s.bk = ex.new_region('buckets', s.N * (4 * BK), None); s.bk.align = 4
        s.rng = ex.new_region('rng', mod.sizeof('RngDouble'), None); s.rng.align = 8
        s.js = opaque(ex, 'json')
        s.jid = var('json id', 'I', 0, None)
        s.reg = ex.new_region('brush', mod.sizeof(CT), s.base, const=const); s.reg.align = 8
        s.p = ptr(s.reg)

    def base(s, ex, key, off, ty):
        o = s.o
        if ty == 'ptr':
            k = field_index(off, num(o['settings']), 8)
            if off.op == 'num':
                v = off.args
                if v == o['smudge_buckets']: return Ptr([(lt(0, s.N), s.bk, (), num(0)), (not_(lt(0, s.N)), None, (), num(0))])
                if v == o['rng']: return ptr(s.rng)
                if v == o['brush_json']: return s.js(s.jid)
            if k is not None: return s.maps(k + 1, True)
        if off.op == 'num' and off.args == o['num_buckets'] and ty == 'i32': return s.N
        return None

    def field(s, f, ty, g=TRUE): return s.ex.read(s.reg, (), num(s.mod.off(CT, f)), ty, g)
    def state(s, name, g=TRUE): return s.ex.read(s.reg, (), num(s.o['states'] + 4 * s.E['MYPAINT_BRUSH_STATE_' + name]), 'f32', g)
    def setting(s, name, g=TRUE): return s.ex.read(s.reg, (), num(s.o['settings_value'] + 4 * s.E['MYPAINT_BRUSH_SETTING_' + name]), 'f32', g)
    def bucket(s, i, j, g=TRUE): return s.ex.read(s.bk, (), 4 * (BK * tm.T_(i) + j), 'f32', g)
    def lo(s, g=TRUE): return s.field('min_bucket_used', 'i32', g)
    def hi(s, g=TRUE): return s.field('max_bucket_used', 'i32', g)

    def assume_range(s):
        """the invariant: the range of used buckets is empty (-1, -1) or within the buckets"""
        s.ex.fact(s.ranged())

    def ranged(s, g=TRUE):
        lo, hi = s.lo(g), s.hi(g)
        return or_(and_(eq(lo, -1), eq(hi, -1)), and_(le(0, lo), le(lo, hi), lt(hi, s.N)))

    def used(s, i, lo, hi): return and_(ne(lo, -1), le(lo, i), le(i, hi))


NAMES = ('r', 'g', 'b', 'a', 'prev_r', 'prev_g', 'prev_b', 'prev_a', 'recentness')


def widened(s, i, lo0, hi0, g):
    """the range of used buckets is the smallest that contains the old one and i"""
    lo, hi = s.lo(g), s.hi(g)
    return ite(eq(lo0, -1), and_(eq(lo, i), eq(hi, i)), and_(eq(lo, tm.min_(lo0, i)), eq(hi, tm.max_(hi0, i))))


def task_buckets(mod):
    out = []
    I32 = -(1 << 31), (1 << 31) - 1
    q, i = [lambda n=n: var(n, 'I', *I32) for n in ('q', 'index')]
    # get
    s = Brush(mod, const=True); ex = s.ex; s.assume_range(); s.bk.const = True
    i = var('index', 'I', *I32); q = var('q', 'I', 0, MAXB)
    w = 'mypaint_brush_get_smudge_bucket_state'
    outs = []
    for n in NAMES:
        r = ex.new_region('out ' + n, 4, None); r.align = 4; outs.append(r)
    before = [ex.read(r, (), num(0), 'f32') for r in outs]
    ret, g = ex.call_fn(w, [s.p, i] + [ptr(r) for r in outs], TRUE)
    ok = and_(le(0, i), lt(i, s.N))
    ex.oblige('get: succeeds exactly for the indices of buckets', 'post', g, eq(ne(ret, 0), ok), w)
    for j, r in enumerate(outs): ex.oblige('get: %s' % NAMES[j], 'post', g, ite(ok, eq(ex.read(r, (), num(0), 'f32', g), s.bucket(i, j)), eq(ex.read(r, (), num(0), 'f32', g), before[j])), w)
    out.append(ex)
    # set
    s = Brush(mod); ex = s.ex; s.assume_range()
    lo0, hi0 = s.lo(), s.hi()
    ex.fact(lt(q, s.N))
    old = [s.bucket(q, j) for j in range(BK)]
    v = [var('new ' + n, 'R') for n in NAMES]
    w = 'mypaint_brush_set_smudge_bucket_state'
    st0 = s.state('SMUDGE_RA')
    ret, g = ex.call_fn(w, [s.p, i] + v, TRUE)
    ok = and_(le(0, i), lt(i, s.N))
    ex.oblige('set: succeeds exactly for the indices of buckets', 'post', g, eq(ne(ret, 0), ok), w)
    for j in range(BK): ex.oblige('set: %s' % NAMES[j], 'post', and_(g, ok), eq(s.bucket(i, j, and_(g, ok)), v[j]), w)
    for j in range(BK): ex.oblige('set: %s of every other bucket stays' % NAMES[j], 'post', g, implies(or_(not_(ok), ne(q, i)), eq(s.bucket(q, j, g), old[j])), w)
    ex.oblige('set: the used range grows to contain the bucket', 'post', g, ite(ok, widened(s, i, lo0, hi0, g), and_(eq(s.lo(g), lo0), eq(s.hi(g), hi0))), w)
    ex.oblige('set: the range stays valid', 'post', g, s.ranged(g), w)
    out.append(ex)
    # used
    s = Brush(mod, const=True); ex = s.ex
    r, g = ex.call_fn('mypaint_brush_get_min_smudge_bucket_used', [s.p], TRUE); ex.oblige('the lowest used bucket', 'post', g, eq(r, s.lo()), 'mypaint_brush_get_min_smudge_bucket_used')
    r, g = ex.call_fn('mypaint_brush_get_max_smudge_bucket_used', [s.p], TRUE); ex.oblige('the highest used bucket', 'post', g, eq(r, s.hi()), 'mypaint_brush_get_max_smudge_bucket_used')
    out.append(ex)
    # the bucket of a dab
    s = Brush(mod); ex = s.ex; s.assume_range(); s.bk.const = True
    lo0, hi0 = s.lo(), s.hi()
    v = s.setting('SMUDGE_BUCKET'); ex.fact(and_(le(-(1 << 30), v), le(v, 1 << 30)))
    w = 'fetch_smudge_bucket'
    r, g = ex.call_fn(w, [s.p], TRUE)
    some = lt(0, s.N)
    base = s.o['states'] + 4 * s.E['MYPAINT_BRUSH_STATE_SMUDGE_RA']
    ex.oblige('fetch: without buckets, the smudge state of the brush', 'post', and_(g, not_(some)), and_(ptr_eq(r, ptr(s.reg, num(base))), eq(s.lo(g), lo0), eq(s.hi(g), hi0)), w)
    gg = and_(g, some)
    k = num(0)
    for c, rg, kk, o in r.alts:
        if rg is s.bk: k = ite(c, idiv(o, num(4 * BK)), k)
    ex.oblige('fetch: a whole bucket', 'post', gg, and_(ptr_eq(r, ptr(s.bk, k * (4 * BK))), le(0, k), lt(k, s.N)), w)
    ex.oblige('fetch: the bucket nearest to the selected one', 'post', gg, and_(
        implies(le(v, 0), eq(k, 0)), implies(le(s.N - 1, v), eq(k, s.N - 1)),
        implies(and_(le(0, v), le(v, s.N - 1)), and_(le(2 * (v - k), 1), le(2 * (k - v), 1)))), w)
    ex.oblige('fetch: the used range grows to contain the bucket', 'post', gg, widened(s, k, lo0, hi0, g), w)
    ex.oblige('fetch: the range stays valid', 'post', g, s.ranged(g), w)
    out.append(ex)
    # reset
    s = Brush(mod); ex = s.ex; s.assume_range()
    lo0, hi0 = s.lo(), s.hi()
    ex.fact(lt(q, s.N))
    old = [s.bucket(q, j) for j in range(BK)]
    n = var('state', 'I', 0, s.NST - 1)
    w = 'brush_reset'
    _, g = ex.call_fn(w, [s.p], TRUE)
    for j in range(BK): ex.oblige('reset: %s of a used bucket is cleared, others stay' % NAMES[j], 'post', g, eq(s.bucket(q, j, g), ite(s.used(q, lo0, hi0), tm.real(num(0)), old[j])), w)
    ex.oblige('reset: no bucket is used', 'post', g, and_(eq(s.lo(g), -1), eq(s.hi(g), -1)), w)
    ex.oblige('reset: the states are cleared', 'post', g, eq(ex.read(s.reg, (), s.o['states'] + 4 * n, 'f32', g), ite(eq(n, s.E['MYPAINT_BRUSH_STATE_FLIP']), tm.real(num(-1)), tm.real(num(0)))), w)
    for f in ('skip', 'skip_last_x', 'skip_last_y', 'skipped_dtime'): ex.oblige('reset: %s' % f, 'post', g, eq(s.field(f, 'f32', g), 0), w)
    out.append(ex)
    return out


def task_new(mod):
    """a new brush"""
    s = Brush(mod); ex = s.ex; ex.cut_always = set(); ex.unroll_limit = 200
    w = 'mypaint_brush_new_with_buckets'
    made = Ghost(ex, 'mappings made')
    def new_mapping(ex, A, g, w):
        ex.oblige('%s: a mapping of all inputs' % w, 'pre', g, eq(A[0], s.NI), w)
        k = made.get(0, g); made.set(k + 1, g)
        return s.maps(k + 1, True)
    ex.contracts['mypaint_mapping_new'] = new_mapping
    ex.contracts['rng_double_new'] = lambda ex, A, g, w: ptr(s.rng)
    ex.contracts['settings_base_values_have_changed'] = lambda ex, A, g, w: None
    ex.contracts['json_object_new_object'] = lambda ex, A, g, w: s.js(s.jid)
    n = var('num_smudge_buckets', 'I', -(1 << 31), MAXB)
    so = s.o['settings']
    k = var('setting', 'I', 0, s.NS - 1)
    def fam(r):
        prov = lambda nm: (lambda ex, key, off, ty: s.maps(app(nm + '.ptr', [off], 'I', 0, None)) if ty == 'ptr' else None)
        r.base = prov(r.name); r.havoc_base = lambda ex, nm: prov(nm)
    ex.on_alloc = fam
    p, g = ex.call_fn(w, [n], TRUE)
    ok = and_(g, not_(is_null(p)))
    L = lambda f, ty: ex.load(p.shift(num(mod.off(CT, f))), ty, ok, w)
    ex.oblige('one reference', 'post', ok, eq(L('refcount', 'i32'), 1), w)
    ex.oblige('as many buckets as asked for', 'post', ok, eq(L('num_buckets', 'i32'), tm.max_(n, num(0))), w)
    ex.oblige('no bucket is used', 'post', ok, and_(eq(L('min_bucket_used', 'i32'), -1), eq(L('max_bucket_used', 'i32'), -1)), w)
    b = L('smudge_buckets', 'ptr')
    ex.oblige('no buckets, no memory', 'post', ok, implies(le(n, 0), is_null(b)), w)
    q = var('q', 'I', 0, MAXB); ex.fact(lt(q, n))
    for j in range(BK): ex.oblige('every bucket is clear: %s' % NAMES[j], 'post', and_(ok, lt(0, n)), eq(ex.load(b.shift(4 * (BK * q + j)), 'f32', and_(ok, lt(0, n)), w), 0), w)
    ex.oblige('every setting has a mapping of its own', 'post', ok, ptr_eq(ex.load(p.shift(so + 8 * k), 'ptr', ok, w), s.maps(k + 1, True)), w)
    vi = var('value', 'I', 0, s.NS - 1)
    ex.oblige('the values of the settings are initialised', 'post', ok, eq(ex.load(p.shift(s.o['settings_value'] + 4 * vi), 'f32', ok, w), 0), w)
    ex.oblige('the brush starts with a reset', 'post', ok, ne(L('reset_requested', 'i32'), 0), w)
    ex.oblige('a generator of its own', 'post', ok, ptr_eq(L('rng', 'ptr'), ptr(s.rng)), w)
    for f in ('stroke_total_painting_time', 'stroke_current_idling_time', 'random_input'): ex.oblige('%s starts at 0' % f, 'post', ok, eq(L(f, 'f64'), 0), w)
    return ex


# ---------------------------------------------------------------- dabs and strokes
RMIN, RMAX = Fraction(2, 10), 1000        # ACTUAL_RADIUS_MIN, ACTUAL_RADIUS_MAX
def R_(v): return tm.real(tm.T_(v)) if not isinstance(v, Fraction) else num(v, 'R')
def within(lo, v, hi): return and_(le(R_(lo), v), le(v, R_(hi)))


def setting_ranges(mod):
    """the documented range of each setting, from the definitions the library is generated from"""
    import json, os
    d = json.load(open(os.path.join(mod.src, 'brushsettings.json')))
    return {x['internal_name'].upper(): (x['minimum'], x['maximum']) for x in d['settings']}


def mathlib(ex):
    """what is used of the mathematical functions (assumed)"""
    ex.assumed.add('exp is at least 0, positive above -80, at most 1 for arguments up to 0 and at most 404 for arguments up to 6')
    def exp(ex, A, g, w):
        x = R_(A[0]); r = app('libm_exp', [x], 'R', 0, None)
        ex.fact(implies(le(-80, x), lt(0, r))); ex.fact(implies(le(x, 0), le(r, 1))); ex.fact(implies(le(x, 6), le(r, 404))); ex.fact(implies(le(0, x), le(1, r)))
        return r
    ex.contracts['expf'] = ex.contracts['exp'] = exp
    ex.assumed.add('pow of a base and an exponent that are both in [0, 1] or base in [0, 1] and exponent >= 0 is in [0, 1]; of a base >= 0 it is >= 0')
    def pow_(ex, A, g, w):
        x, y = R_(A[0]), R_(A[1]); r = app('libm_pow', [x, y], 'R', None, None)
        ex.oblige('%s: no power of a negative number' % w, 'pre', g, le(0, x), w)
        ex.fact(implies(le(0, x), le(0, r))); ex.fact(implies(and_(le(0, x), le(x, 1), le(0, y)), le(r, 1)))
        return r
    ex.contracts['powf'] = ex.contracts['pow'] = pow_
    def log(ex, A, g, w):
        ex.oblige('%s: no logarithm of zero or of a negative number' % w, 'pre', g, lt(0, A[0]), w)
        return app('libm_log', [R_(A[0])], 'R')
    ex.contracts['logf'] = ex.contracts['log'] = log
    ex.assumed.add('atan2 is in [-pi, pi]')
    at = lambda ex, A, g, w: app('libm_atan2', [R_(A[0]), R_(A[1])], 'R', Fraction(-3141593, 1000000), Fraction(3141593, 1000000))
    ex.contracts['atan2f'] = ex.contracts['atan2'] = at
    hy = lambda ex, A, g, w: app('libm_hypot', [R_(A[0]), R_(A[1])], 'R', 0, None)
    ex.contracts['hypotf'] = ex.contracts['hypot'] = hy
    def mod_arith(ex, A, g, w):
        # proved in the task color.angles
        ex.oblige('%s: a positive modulus' % w, 'pre', g, lt(0, A[1]), w)
        r = app('mod_arith', [R_(A[0]), R_(A[1])], 'R', 0, None)
        ex.fact(implies(lt(0, A[1]), lt(r, R_(A[1]))))
        return r
    ex.contracts['mod_arith'] = mod_arith
    ex.contracts['smallest_angular_difference'] = lambda ex, A, g, w: app('angular_difference', [R_(A[0]), R_(A[1])], 'R', -180, 180)
    # proved in the task rng.gauss
    def gauss(ex, A, g, w): return fresh('gauss', 'R', Fraction(-347, 100), Fraction(347, 100))
    ex.contracts['rand_gauss'] = gauss
    ex.contracts['rng_double_next'] = lambda ex, A, g, w: fresh('random', 'R', 0, 1)


def colour_contracts(ex):
    """conversions between colour spaces; results in range as proved for B09"""
    def conv(ranged):
        def f(ex, A, g, w):
            for p in A: ex.load(p, 'f32', g, w)
            for p in A: ex.store(p, 'f32', fresh('channel', 'R', 0, 1), g, w)
        return f
    for n in ('hsv_to_rgb_float', 'rgb_to_hsv_float', 'rgb_to_hsl_float', 'hsl_to_rgb_float'): ex.contracts[n] = conv(True)


NEEDED = ('RADIUS_BY_RANDOM', 'ERASER', 'SMUDGE_LENGTH', 'ANTI_ALIASING', 'SNAP_TO_PIXEL', 'OFFSET_BY_SPEED', 'OFFSET_BY_RANDOM', 'PAINT_MODE')


def brush_settings(s, only=NEEDED):
    """the base values, and the current values of the settings that matter, are in the documented ranges"""
    ex = s.ex; rg = setting_ranges(s.mod)
    for n, (lo, hi) in rg.items():
        ex.fact(within(Fraction(lo).limit_denominator(10 ** 6), s.setting(n), Fraction(hi).limit_denominator(10 ** 6))) if n in only else None
    def base(ex, A, g, w):
        i = opaque_id(A[0], s.maps) - 1
        v = None
        for n, (lo, hi) in rg.items():
            if i is tm.T_(s.E['MYPAINT_BRUSH_SETTING_' + n]): return app('base value of ' + n, [], 'R', lo, hi)
        return app('base value', [i], 'R')
    ex.contracts['mypaint_mapping_get_base_value'] = base
    ex.contracts['mypaint_mapping_is_constant'] = lambda ex, A, g, w: app('is constant', [opaque_id(A[0], s.maps)], 'I', 0, 1)


def state_ok(s, g=TRUE, drawn=True): return and_(*state_parts(s, g, drawn).values())


def state_parts(s, g=TRUE, drawn=True):
    """the invariant of the states: what is proved of every simulation step and assumed before"""
    S = lambda n: s.state(n, g)
    r = {n: le(0, S(n)) for n in ('PRESSURE', 'NORM_SPEED1_SLOW', 'NORM_SPEED2_SLOW', 'STROKE')}
    r['FLIP'] = within(-1, S('FLIP'), 1)
    r['PARTIAL_DABS'] = and_(le(0, S('PARTIAL_DABS')), lt(S('PARTIAL_DABS'), 1))
    R = within(RMIN, S('ACTUAL_RADIUS'), RMAX)
    r['ACTUAL_RADIUS'] = R if drawn else or_(eq(S('ACTUAL_RADIUS'), 0), R)
    if drawn:
        r['ACTUAL_ELLIPTICAL_DAB_ANGLE'] = within(-180, S('ACTUAL_ELLIPTICAL_DAB_ANGLE'), 180)
        r['VIEWZOOM'] = lt(0, S('VIEWZOOM'))
    return r


class Picked:
    """a colour surface"""
    def __init__(s, ex):
        s.ex = ex; s.reg = ex.new_region('surface', None, None); s.p = ptr(s.reg); s.n = Ghost(ex, 'colours picked')
        ex.contracts['mypaint_surface_get_color'] = s.get; s.col = None

    def get(s, ex, A, g, w):
        sur, x, y, radius, r, gg, b, a, paint = A
        ex.oblige('%s: the radius of the probe is in (0, 1000]' % w, 'pre', g, and_(lt(0, radius), le(radius, RMAX)), w)
        s.col = [fresh('picked ' + c, 'R', 0, 1) for c in 'rgba']
        for p, v in zip((r, gg, b, a), s.col): ex.store(p, 'f32', v, g, w)
        s.n.set(s.n.get(0, g) + 1, g)


def mix_contract(ex, *regs):
    out = ex.new_region('mixed', 16, None); out.align = 4
    def mix(ex, A, g, w):
        for p in A[:2]:
            for j in range(4): ex.load(p.shift(num(4 * j)), 'f32', g, w)
        for j in range(4): ex.store(ptr(out, 4 * j), 'f32', fresh('mixed', 'R', 0, 1), g, w)
        return ptr(out)
    ex.contracts['mix_colors'] = mix


def task_smudge(mod):
    """the smudge bucket of a dab: only this bucket is changed, its components stay in range"""
    out = []
    s = Brush(mod, const=True); ex = s.ex; ex.cut_always = set()
    mathlib(ex); brush_settings(s)
    s.bk.const = True
    B = ex.new_region('the bucket', 4 * BK, None); B.align = 4
    c = lambda j, g=TRUE: ex.read(B, (), num(4 * j), 'f32', g)
    old = [c(j) for j in range(BK)]
    for v in old: ex.fact(within(0, v, 1))
    P = Picked(ex); mix_contract(ex)
    length = var('smudge_length', 'R', 0, 1)
    px, py = var('px', 'I', -(1 << 31), (1 << 31) - 1), var('py', 'I', -(1 << 31), (1 << 31) - 1)
    radius = var('radius', 'R', RMIN, RMAX)
    legacy, paint = var('legacy', 'I', 0, 1), var('paint', 'R', 0, 1)
    w = 'update_smudge_color'
    r, g = ex.call_fn(w, [s.p, P.p, ptr(B), length, px, py, radius, legacy, paint], TRUE)
    for j in range(BK):
        ex.oblige('smudge: %s stays in [0, 1]' % NAMES[j], 'post', g, within(0, c(j, g), 1), w)
    done = and_(g, eq(r, 0))
    for j in range(4):
        ex.oblige('smudge: the last picked %s is kept' % 'rgba'[j], 'post', done, eq(c(4 + j, g), ite(lt(0, P.n.get(0, g)), P.col[j], old[4 + j])), w)
    ex.oblige('smudge: at most one colour is picked', 'post', g, le(P.n.get(0, g), 1), w)
    out.append(ex)
    # applying it
    s = Brush(mod, const=True); ex = s.ex; mathlib(ex)
    B = ex.new_region('the bucket', 4 * BK, None, const=True); B.align = 4
    for j in range(BK): ex.fact(within(0, ex.read(B, (), num(4 * j), 'f32'), 1))
    mix_contract(ex)
    col = []
    for n in 'rgb':
        q = ex.new_region('color_' + n, 4, None); q.align = 4; col.append(q); ex.fact(within(0, ex.read(q, (), num(0), 'f32'), 1))
    w = 'apply_smudge'
    v, paint = var('smudge_value', 'R', 0, None), var('paint', 'R', 0, 1)
    r, g = ex.call_fn(w, [ptr(B), v, var('legacy', 'I', 0, 1), paint] + [ptr(q) for q in col], TRUE)
    ex.oblige('apply: the eraser target is in [0, 1]', 'post', g, within(0, r, 1), w)
    out.append(ex)
    return out


DAB = ('x', 'y', 'radius', 'color_r', 'color_g', 'color_b', 'opaque', 'hardness', 'softness', 'alpha_eraser', 'aspect_ratio', 'angle', 'lock_alpha', 'colorize', 'posterize', 'posterize_num', 'paint')


def task_dab(mod):
    """prepare_and_draw_dab: the parameters of every dab are in range, it uses one bucket, paints at most once"""
    s = Brush(mod); ex = s.ex; ex.cut_always = set()
    mathlib(ex); brush_settings(s); colour_contracts(ex)
    ex.fact(state_ok(s))
    # positions fit an int (assumed)
    for n in 'XY':
        ex.fact(within(-(10 ** 9), s.state('ACTUAL_' + n), 10 ** 9))
        v, z = s.state('NORM_D%s_SLOW' % n), s.state('VIEWZOOM')
        ex.fact(within(-(10 ** 9), v / z, 10 ** 9))
    ex.assumed.add('the position of a dab stays below 1e9, the offset by speed below 3e8')
    s.bk.const = True
    B = ex.new_region('the bucket', 4 * BK, None); B.align = 4
    w = 'prepare_and_draw_dab'
    drawn = Ghost(ex, 'dabs drawn')
    ans = var('painted', 'I', 0, 1)
    fetched = Ghost(ex, 'buckets fetched')
    def fetch(ex, A, g, w): fetched.set(1, g); return ptr(B)
    def update(ex, A, g, w):
        ex.oblige('%s: the bucket of the dab is updated' % w, 'pre', g, ptr_eq(A[2], ptr(B)), w)
        ex.oblige('%s: a radius in range' % w, 'pre', g, and_(within(RMIN, A[6], RMAX), within(0, A[3], 1), within(0, A[8], 1)), w)
        for j in range(BK): ex.store(ptr(B, 4 * j), 'f32', fresh('bucket', 'R', 0, 1), g, w)
        return fresh('return early', 'I', 0, 1)
    def apply(ex, A, g, w):
        ex.oblige('%s: the bucket of the dab is used' % w, 'pre', g, ptr_eq(A[0], ptr(B)), w)
        ex.oblige('%s: the amount of smudging' % w, 'pre', g, lt(0, A[1]), w)
        for q in A[4:]: ex.store(q, 'f32', fresh('smudged', 'R', 0, None), g, w)
        return fresh('eraser target', 'R', 0, 1)
    def offsets(ex, A, g, w):
        # proved in the task offsets
        dx, dy = fresh('offset x', 'R', -3240, 3240), fresh('offset y', 'R', -3240, 3240)
        return s_offsets(ex, A, g, w, dx, dy)
    def draw(ex, A, g, w):
        d = dict(zip(DAB, A[1:]))
        ex.oblige('%s: radius in (0, 10000]' % w, 'pre', g, and_(lt(0, d['radius']), le(d['radius'], 10000)), w)
        ex.oblige('%s: opacity in [0, 1]' % w, 'pre', g, within(0, d['opaque'], 1), w)
        ex.oblige('%s: softness in [0, 1]' % w, 'pre', g, within(0, d['softness'], 1), w)
        ex.oblige('%s: hardness at most 1' % w, 'pre', g, le(d['hardness'], 1), w)
        ex.oblige('%s: alpha_eraser in [0, 1]' % w, 'pre', g, within(0, d['alpha_eraser'], 1), w)
        ex.oblige('%s: the angle is at most half a turn' % w, 'pre', g, within(-180, d['angle'], 180), w)
        ex.oblige('%s: one dab' % w, 'pre', g, eq(drawn.get(0, g), 0), w)
        drawn.set(1, g)
        return ans
    ex.contracts.update(fetch_smudge_bucket=fetch, update_smudge_color=update, apply_smudge=apply, mypaint_surface_draw_dab=draw, directional_offsets=offsets)
    sur = ex.new_region('surface', None, None)
    t0 = [s.field(f, 'f64') for f in ('stroke_total_painting_time', 'stroke_current_idling_time')]
    r, g = ex.call_fn(w, [s.p, ptr(sur), var('linear', 'I', 0, 1)], TRUE)
    ex.oblige('the answer is whether the surface was painted on', 'post', g, eq(ne(r, 0), and_(ne(ans, 0), ne(drawn.get(0, g), 0))), w)
    for f, v in zip(('stroke_total_painting_time', 'stroke_current_idling_time'), t0): ex.oblige('%s stays' % f, 'post', g, eq(s.field(f, 'f64', g), v), w)
    st = var('state', 'I', 0, s.NST - 1)
    ex.oblige('the states stay', 'post', g, eq(ex.read(s.reg, (), s.o['states'] + 4 * st, 'f32', g), ex.read(s.reg, (), s.o['states'] + 4 * st, 'f32')), w)
    return ex


def s_offsets(ex, A, g, w, dx, dy):
    return [dx, dy]


def task_offsets(mod):
    """directional_offsets: never further than 3240 pixels"""
    s = Brush(mod, const=True); ex = s.ex; mathlib(ex)
    ex.x_llvm_is_fpclass = lambda a, g, w, I: ne(fresh('class of a float', 'I', 0, 1), 0)
    brush_settings(s)
    w = 'directional_offsets'
    r, g = ex.call_fn(w, [s.p, var('base_radius', 'R', 0, 404), var('flip', 'I', -1, 1)], TRUE)
    for v, n in zip(r, 'xy'): ex.oblige('the offset along %s is at most 3240' % n, 'post', g, within(-3240, v, 3240), w)
    return ex


def decay(ex):
    """proved in the task decay"""
    def f(ex, A, g, w):
        r = app('exp_decay', [R_(A[0]), R_(A[1])], 'R', 0, None)
        ex.fact(implies(le(0, A[1]), le(r, 1)))
        return r
    ex.contracts['exp_decay'] = f


def task_decay(mod):
    ex = Exec(mod); mathlib(ex)
    w = 'exp_decay'
    T, t = var('T', 'R'), var('t', 'R')
    r, g = ex.call_fn(w, [T, t], TRUE)
    ex.oblige('a decay is not negative', 'post', g, le(0, r), w)
    ex.oblige('a decay over a positive time is at most 1', 'post', g, implies(le(0, t), le(r, 1)), w)
    ex.oblige('no time constant: immediate', 'post', g, implies(le(T, 0), eq(r, 0)), w)
    return ex


TIMES = ('stroke_total_painting_time', 'stroke_current_idling_time')


def task_count(mod):
    """count_dabs_to: not negative; changes nothing but an unset radius"""
    s = Brush(mod); ex = s.ex; mathlib(ex); brush_settings(s)
    w = 'count_dabs_to'
    ex.x_llvm_is_fpclass = lambda a, g, w, I: ne(fresh('class of a float', 'I', 0, 1), 0)
    ex.fact(state_ok(s, drawn=False))
    before = lambda o, ty='f32': ex.read(s.reg, (), tm.T_(o), ty)
    st = var('state', 'I', 0, s.NST - 1)
    AR = s.E['MYPAINT_BRUSH_STATE_ACTUAL_RADIUS']
    v0 = before(s.o['states'] + 4 * st); r0 = s.state('ACTUAL_RADIUS')
    sv = var('setting', 'I', 0, s.NS - 1); s0 = before(s.o['settings_value'] + 4 * sv)
    t0 = [s.field(f, 'f64') for f in TIMES]
    r, g = ex.call_fn(w, [s.p, var('x', 'R'), var('y', 'R'), var('dt', 'R')], TRUE)
    ex.oblige('the number of dabs is not negative', 'post', g, le(0, r), w)
    ex.oblige('an unset radius is set', 'post', g, ite(eq(r0, 0), within(RMIN, s.state('ACTUAL_RADIUS', g), RMAX), eq(s.state('ACTUAL_RADIUS', g), r0)), w)
    ex.oblige('the other states stay', 'post', g, implies(ne(st, AR), eq(ex.read(s.reg, (), s.o['states'] + 4 * st, 'f32', g), v0)), w)
    ex.oblige('the settings stay', 'post', g, eq(ex.read(s.reg, (), s.o['settings_value'] + 4 * sv, 'f32', g), s0), w)
    for f, v in zip(TIMES, t0): ex.oblige('%s stays' % f, 'post', g, eq(s.field(f, 'f64', g), v), w)
    return ex


STEP = ('ddab', 'dx', 'dy', 'dpressure', 'declination', 'ascension', 'dtime', 'viewzoom', 'viewrotation', 'declinationx', 'declinationy', 'barrel_rotation')


def free_names(t, acc=None, seen=None):
    """names of the variables and functions in a term"""
    acc = set() if acc is None else acc; seen = set() if seen is None else seen
    if not isinstance(t, T) or id(t) in seen: return acc
    seen.add(id(t))
    if t.op in ('var', 'app'):
        a = t.args
        acc.add(a if isinstance(a, str) else a[0])
    st = [t.args]
    while st:
        x = st.pop()
        if isinstance(x, T): free_names(x, acc, seen)
        elif isinstance(x, (tuple, list, frozenset, set)): st.extend(x)
        elif isinstance(x, dict): st.extend(x.keys()); st.extend(x.values())
    return acc


def task_update(mod):
    """update_states_and_setting_values: the settings are the curves of initialised inputs, the states stay in range"""
    s = Brush(mod); ex = s.ex; ex.cut_always = set(); ex.unroll_limit = 200
    mathlib(ex); decay(ex); brush_settings(s, ('GRIDMAP_SCALE',))
    w = 'update_states_and_setting_values'
    ex.fact(state_ok(s, drawn=False))
    for i in (0, 1): ex.fact(lt(0, ex.read(s.reg, (), num(mod.off(CT, 'speed_mapping_gamma') + 4 * i), 'f32')))
    rg = setting_ranges(mod); names = {s.E['MYPAINT_BRUSH_SETTING_' + n]: n for n in rg}
    NIN = s.NI; inputs = {}
    def calc(ex, A, g, w):
        i = opaque_id(A[0], s.maps) - 1
        vals = [ex.load(A[1].shift(num(4 * k)), 'f32', g, w) for k in range(NIN)]
        for k, v in enumerate(vals):
            bad = [n for n in free_names(v) for r in ex.regions if getattr(r, 'stack', False) and n.startswith(r.uid + '.')]
            if k not in inputs or bad: ex.oblige('input %d is set before the curves are evaluated' % k, 'pre', g, FALSE if bad else TRUE, w)
            inputs[k] = v
        n = names.get(i.args) if i.op == 'num' else None
        lo, hi = rg[n] if n else (None, None)
        return app('value of setting', [i], 'R') if lo is None else app('value of ' + n, [], 'R', Fraction(lo).limit_denominator(10 ** 6), Fraction(hi).limit_denominator(10 ** 6))
    ex.contracts['mypaint_mapping_calculate'] = calc
    ex.contracts['print_inputs'] = lambda ex, A, g, w: None
    a = {n: var('step_' + n, 'R') for n in STEP}
    ex.fact(and_(lt(0, a['viewzoom']), le(0, a['ddab'])))
    old = {n: s.state(n) for n in ('X', 'Y', 'PRESSURE', 'DECLINATION', 'ASCENSION', 'DECLINATIONX', 'DECLINATIONY', 'BARREL_ROTATION', 'FLIP', 'PARTIAL_DABS')}
    t0 = [s.field(f, 'f64') for f in TIMES]
    q = var('q', 'I', 0, BK - 1); RA = s.o['states'] + 4 * s.E['MYPAINT_BRUSH_STATE_SMUDGE_RA']
    sm = ex.read(s.reg, (), RA + 4 * q, 'f32')
    vq = var('setting', 'I', 0, s.NS - 1)
    _, g = ex.call_fn(w, [s.p] + [a[n] for n in STEP], TRUE)
    for n, f in state_parts(s, g).items(): ex.oblige('%s stays in range' % n, 'post', g, f, w)
    for n, d in (('X', 'dx'), ('Y', 'dy'), ('DECLINATION', 'declination'), ('ASCENSION', 'ascension'), ('DECLINATIONX', 'declinationx'), ('DECLINATIONY', 'declinationy'), ('BARREL_ROTATION', 'barrel_rotation')):
        ex.oblige('%s makes its step' % n, 'post', g, eq(s.state(n, g), old[n] + a[d]), w)
    ex.oblige('PRESSURE makes its step and stays at or above 0', 'post', g, eq(s.state('PRESSURE', g), tm.max_(old['PRESSURE'] + a['dpressure'], R_(0))), w)
    ex.oblige('the zoom is the given one', 'post', g, eq(s.state('VIEWZOOM', g), a['viewzoom']), w)
    for n in ('FLIP', 'PARTIAL_DABS'): ex.oblige('%s stays' % n, 'post', g, eq(s.state(n, g), old[n]), w)
    ex.oblige('the smudge state stays', 'post', g, eq(ex.read(s.reg, (), RA + 4 * q, 'f32', g), sm), w)
    for f, v in zip(TIMES, t0): ex.oblige('%s stays' % f, 'post', g, eq(s.field(f, 'f64', g), v), w)
    ex.oblige('every input is used', 'post', g, TRUE if len(inputs) == NIN else FALSE, w)
    for i, n in sorted(names.items()):
        lo, hi = rg[n]
        if lo is None: continue
        ex.oblige('the value of %s is that of its curves' % n, 'post', g, eq(ex.read(s.reg, (), num(s.o['settings_value'] + 4 * i), 'f32', g), app('value of ' + n, [], 'R', Fraction(lo).limit_denominator(10 ** 6), Fraction(hi).limit_denominator(10 ** 6))), w)
    return ex


class Strokes:
    """one event, with contracts for the parts of it"""
    KEEP = ('FLIP', 'PARTIAL_DABS')          # states a simulation step does not touch

    def __init__(s, mod):
        s.b = b = Brush(mod); s.ex = ex = b.ex; s.mod = mod
        mathlib(ex); decay(ex); brush_settings(b, ('GRIDMAP_SCALE',))
        ex.fact(state_ok(b, drawn=False)); b.assume_range(); b.bk.const = True
        s.ranges = setting_ranges(mod)
        s.drew, s.any, s.stepped, s.resets, s.split = [Ghost(ex, n) for n in ('dabs tried', 'painted', 'stepped', 'resets', 'split')]
        s.smudge = [num(b.o['states'] + 4 * (b.E['MYPAINT_BRUSH_STATE_SMUDGE_RA'] + j)) for j in range(BK)]
        s.names = {b.E['MYPAINT_BRUSH_SETTING_' + n]: n for n in s.ranges}
        b.reg.havoc_base = lambda ex, nm: (lambda ex, key, off, ty: b.base(ex, key, off, ty) if ty == 'ptr' else None)
        ex.contracts.update(count_dabs_to=s.count, update_states_and_setting_values=s.update, prepare_and_draw_dab=s.dab, brush_reset=s.reset, mypaint_brush_stroke_to=s.again)

    def put(s, off, v, g, ty='f32'): s.ex.store(ptr(s.b.reg, off), ty, v, g, 'contract')
    def st_off(s, n): return s.b.o['states'] + 4 * s.b.E['MYPAINT_BRUSH_STATE_' + n]

    def step_states(s, g, keep=()):
        """the states after a simulation step: arbitrary, in range"""
        b = s.b; skip = {s.st_off(n) for n in keep} | ({o.args for o in s.smudge} if keep else set())
        for j in range(b.NST):
            o = b.o['states'] + 4 * j
            if o not in skip: s.put(o, fresh('state', 'R'), g)
        for i in range(b.NS):
            lo, hi = s.ranges[s.names[i]] if i in s.names else (None, None)
            fr = lambda v: None if v is None else Fraction(v).limit_denominator(10 ** 6)
            s.put(b.o['settings_value'] + 4 * i, fresh('value', 'R', fr(lo), fr(hi)), g)

    # contracts, each proved in the task of its name
    def count(s, ex, A, g, w):
        b = s.b
        ex.oblige('%s: the radius of the brush' % w, 'pre', g, state_parts(b, g, False)['ACTUAL_RADIUS'], w)
        r0 = b.state('ACTUAL_RADIUS', g)
        s.put(s.st_off('ACTUAL_RADIUS'), ite(eq(r0, 0), fresh('base radius', 'R', RMIN, RMAX), r0), g)
        return fresh('dabs to do', 'R', 0, None)

    def update(s, ex, A, g, w):
        b = s.b; d = dict(zip(STEP, A[1:]))
        ex.oblige('%s: the states' % w, 'pre', g, state_ok(b, g, False), w)
        ex.oblige('%s: a positive zoom and no backward step' % w, 'pre', g, and_(lt(0, d['viewzoom']), le(0, d['ddab'])), w)
        ex.oblige('%s: the scale of the grid map is in range' % w, 'pre', g, within(-10, b.setting('GRIDMAP_SCALE', g), 10), w)
        old = {n: b.state(n, g) for n in ('X', 'Y', 'PRESSURE')}
        s.step_states(g, s.KEEP)
        ex.fact(implies(g, state_ok(b, g)))
        for n, k in (('X', 'dx'), ('Y', 'dy')): ex.fact(implies(g, eq(b.state(n, g), old[n] + d[k])))
        ex.fact(implies(g, eq(b.state('PRESSURE', g), tm.max_(old['PRESSURE'] + d['dpressure'], R_(0)))))
        ex.fact(implies(g, eq(b.state('VIEWZOOM', g), d['viewzoom'])))
        s.stepped.set(1, g); s.last = d

    def dab(s, ex, A, g, w):
        b = s.b
        ex.oblige('%s: the states are in range' % w, 'pre', g, state_ok(b, g), w)
        ex.oblige('%s: a simulation step comes before the dab' % w, 'pre', g, eq(s.stepped.get(0, g), 1), w)
        ex.oblige('%s: on the surface of the event' % w, 'pre', g, and_(ptr_eq(A[1], s.sur), eq(A[2], s.a['linear'])), w)
        for n, (lo, hi) in s.ranges.items():
            if n in NEEDED + ('GRIDMAP_SCALE',): ex.oblige('%s: %s is in range' % (w, n), 'pre', g, within(Fraction(lo).limit_denominator(10 ** 6), b.setting(n, g), Fraction(hi).limit_denominator(10 ** 6)), w)
        for o in s.smudge: s.put(o, fresh('smudged', 'R'), g)
        r = fresh('painted', 'I', 0, 1)
        s.stepped.set(0, g); s.drew.set(1, g); s.any.set(ite(ne(r, 0), num(1), s.any.get(0, g)), g)
        return r

    def reset(s, ex, A, g, w):
        b = s.b
        for j in range(b.NST): s.put(b.o['states'] + 4 * j, R_(-1 if j == b.E['MYPAINT_BRUSH_STATE_FLIP'] else 0), g)
        for f in ('skip', 'skip_last_x', 'skip_last_y', 'skipped_dtime'): s.put(s.mod.off(CT, f), R_(0), g)
        for f in ('min_bucket_used', 'max_bucket_used'): s.put(b.o[f], num(-1), g, 'i32')
        s.resets.set(s.resets.get(0, g) + 1, g)

    def again(s, ex, A, g, w):
        """the hovering before the pen comes down, as an event of its own"""
        b = s.b; a = s.a
        ex.oblige('%s: the event before is at the same place' % w, 'pre', g, and_(ptr_eq(A[1], s.sur), implies(s.sane, and_(eq(A[2], a['x']), eq(A[3], a['y']))), within(-(10 ** 8), A[2], 10 ** 8), within(-(10 ** 8), A[3], 10 ** 8)), w)
        ex.oblige('%s: the event before has no pressure' % w, 'pre', g, eq(A[4], 0), w)
        ex.oblige('%s: the event before takes all but 0.0001 s of the time' % w, 'pre', g, eq(A[7], s.dt0 - R_(T4)), w)
        ex.oblige('%s: a positive zoom' % w, 'pre', g, lt(0, A[8]), w)
        ex.oblige('%s: one event before' % w, 'pre', g, eq(s.split.get(0, g), 0), w)
        s.step_states(g)
        s.sk1, s.sd1 = fresh('skip', 'R'), fresh('skipped_dtime', 'R', 0, None)
        ex.fact(s.skipping(s.sk1))
        for f, v in (('skip', s.sk1), ('skip_last_x', fresh('x', 'R')), ('skip_last_y', fresh('y', 'R')), ('skipped_dtime', s.sd1)): s.put(s.mod.off(CT, f), v, g)
        s.T1, s.I1, s.rr1 = fresh('painting time', 'R', 0, None), fresh('idle time', 'R', 0, None), fresh('reset requested', 'I', -(1 << 31), (1 << 31) - 1)
        ex.fact(implies(g, and_(le(b.field(TIMES[0], 'f64', g), s.T1), TRUE)))
        s.put(s.mod.off(CT, TIMES[0]), s.T1, g, 'f64'); s.put(s.mod.off(CT, TIMES[1]), s.I1, g, 'f64')
        s.put(s.mod.off(CT, 'reset_requested'), s.rr1, g, 'i32')
        ex.fact(implies(g, state_ok(b, g, False)));
        s.split.set(1, g)
        return fresh('result', 'I', -(1 << 31), (1 << 31) - 1)



T4 = Fraction(0.0001)


def task_stroke(mod): return stroke(mod, False, False)
def task_stroke_skip(mod): return stroke(mod, False, True)
def task_stroke_split(mod): return stroke(mod, True, False)
def task_stroke_split_skip(mod): return stroke(mod, True, True)


def stroke(mod, split, skipping):
    """an event: the dabs, the painting time and when the stroke ends"""
    s = Strokes(mod); b = s.b; ex = s.ex
    w = 'mypaint_brush_stroke_to'
    names = ('x', 'y', 'pressure', 'xtilt', 'ytilt', 'dtime', 'viewzoom', 'viewrotation', 'barrel_rotation')
    s.a = a = {n: var(n, 'R') for n in names}; a['linear'] = var('linear', 'I', 0, 1)
    ex.fact(lt(0, a['viewzoom']))
    s.sur = ptr(ex.new_region('surface', None, None))
    finite = {k: ne(var('finite ' + k, 'I', 0, 1), 0) for k in 'xy'}
    def fpclass(A, g, w, I):
        for k in 'xy':
            if A[0] is a[k]: return finite[k]
        ex.assumed.add('the tilt of an event is finite')
        return TRUE
    ex.x_llvm_is_fpclass = fpclass
    big = 10 ** 8
    s.sane = and_(finite['x'], finite['y'], *[f(a[k]) for k in 'xy' for f in (lambda v: lt(v, big), lambda v: lt(-big, v))])
    s.p = p = ite(s.sane, tm.max_(a['pressure'], R_(0)), R_(0))
    s.dt0 = ite(le(a['dtime'], 0), R_(T4), a['dtime'])
    T0, I0 = [b.field(f, 'f64') for f in TIMES]
    rr0, sk0, sd0 = b.field('reset_requested', 'i32'), b.field('skip', 'f32'), b.field('skipped_dtime', 'f32')
    P0 = b.state('PRESSURE')
    ex.fact(and_(le(0, T0), le(0, I0), le(0, sd0)))
    F = lambda f, st, ty: st.read(b.reg, num(mod.off(CT, f)), ty)
    will_split = and_(lt(Fraction(0.1), s.dt0), ne(p, 0), eq(P0, 0))
    ex.fact(will_split if split else not_(will_split))
    skips = lambda v: lt(Fraction(0.001), v)
    s.skipping = lambda v: skips(v) if skipping else not_(skips(v))
    if not split: ex.fact(s.skipping(sk0))
    def cands(ex, L):
        r = []
        for f in TIMES: r.append(('%s stays' % f, lambda st, f=f, v=b.field(f, 'f64', L['g0']): eq(F(f, st, 'f64'), v)))
        for n in state_parts(b, TRUE, False):
            def c(st, n=n):
                return state_parts(_At(b, st), TRUE, False)[n]
            r.append(('%s in range' % n, c))
        r.append(('the scale of the grid map', lambda st: within(-10, st.read(b.reg, num(b.o['settings_value'] + 4 * b.E['MYPAINT_BRUSH_SETTING_GRIDMAP_SCALE']), 'f32'), 10)))
        r.append(('the skipping ended', lambda st, v=b.field('skip', 'f32', L['g0']): eq(F('skip', st, 'f32'), v)))
        r.append(('skipped_dtime', lambda st, v=b.field('skipped_dtime', 'f32', L['g0']): eq(F('skipped_dtime', st, 'f32'), v)))
        r.append(('reset_requested', lambda st, v=b.field('reset_requested', 'i32', L['g0']): eq(F('reset_requested', st, 'i32'), v)))
        r.append(('a dab that painted was tried', lambda st: implies(ne(s.any.at(st), 0), ne(s.drew.at(st), 0))))
        for gh, n in ((s.resets, 'resets'), (s.split, 'split')):
            r.append(('%s stays' % n, lambda st, gh=gh, v=gh.get(0, L['g0']): eq(gh.at(st), v)))
        for n, gh in (('flag', s.drew), ('flag', s.any)): r.append((n, lambda st, gh=gh: and_(le(0, gh.at(st)), le(gh.at(st), 1))))
        for n in ints(L):
            for c in range(4):
                for k, f in (('no dab', lambda st: eq(s.drew.at(st), 0)), ('some painted', lambda st: ne(s.any.at(st), 0)), ('none painted', lambda st: and_(ne(s.drew.at(st), 0), eq(s.any.at(st), 0)))):
                    r.append(('%s = %d iff %s' % (n, c, k), lambda st, n=n, c=c, f=f: eq(eq(st.vals[n], c), f(st)), False))
            r.append(('%s is small' % n, lambda st, n=n: and_(le(0, st.vals[n]), le(st.vals[n], 2)), False))
        for n in reals(L):
            r.append(('%s in [0, 1)' % n, lambda st, n=n: and_(le(0, st.vals[n]), lt(st.vals[n], 1)), False))
            r.append(('%s not negative' % n, lambda st, n=n: le(0, st.vals[n]), False))
        for f, off in (('rng', b.o['rng']),):
            r.append(('%s stays' % f, lambda st, off=off: ptr_eq(st.read(b.reg, num(off), 'ptr'), ptr(b.rng)), 'required'))
        return r
    ex.loop_cands.append(cands)
    ret, g = ex.call_fn(w, [b.p, s.sur] + [a[n] for n in names] + [a['linear']], TRUE)
    # the definition
    ex.oblige('a long hover with the pen coming down is split', 'post', g, eq(s.split.get(0, g), 1 if split else 0), w)
    T, I, rr, sk, sd = (s.T1, s.I1, s.rr1, s.sk1, s.sd1) if split and hasattr(s, 'T1') else (T0, I0, rr0, sk0, sd0)
    t, i = b.field(TIMES[0], 'f64', g), b.field(TIMES[1], 'f64', g)
    sd2, sk2 = b.field('skipped_dtime', 'f32', g), b.field('skip', 'f32', g)
    drew, any_ = ne(s.drew.get(0, g), 0), ne(s.any.get(0, g), 0)
    true = ne(ret, 0)
    ex.oblige('the painting time never goes back', 'post', g, le(T, t), w)
    for n, f in state_parts(b, g, False).items(): ex.oblige('%s is in range after the event' % n, 'post', g, f, w)
    ex.oblige('the idle time is not negative', 'post', g, and_(le(0, i), le(0, sd2)), w)
    # the time of skipped events adds up
    dt1 = R_(T4) if split else s.dt0
    ns = g
    if skipping:
        dt1 = sd + dt1
        swallowed = ne(sd2, 0)
        restart = or_(lt(5, dt1), ne(rr, 0))
        ex.oblige('a skipped event does nothing but count its time', 'post', and_(g, swallowed), and_(not_(true), not_(drew), eq(t, T), eq(i, I), eq(sd2, dt1), not_(restart), skips(sk2), le(sk2, sk), eq(s.resets.get(0, g), 0)), w)
        ns = and_(g, not_(swallowed))
    else: ex.oblige('the skipped time stays', 'post', g, implies(eq(s.resets.get(0, g), 0), eq(sd2, sd)), w)
    restart = or_(lt(5, dt1), ne(rr, 0))
    ex.oblige('a reset or a long pause ends the stroke and paints nothing', 'post', and_(ns, restart), and_(true, not_(drew), eq(t, T), eq(i, I), eq(s.resets.get(0, ns), 1), eq(b.field('reset_requested', 'i32', ns), 0), eq(b.state('PRESSURE', ns), p)), w)
    ns = and_(ns, not_(restart))
    ex.oblige('no other event resets the brush', 'post', ns, eq(s.resets.get(0, ns), 0), w)
    painting = or_(any_, and_(not_(drew), not_(or_(lt(0, I), eq(T, 0)))))
    y, n = and_(ns, painting), and_(ns, not_(painting))
    ex.oblige('the time of an event that paints counts', 'post', y, and_(eq(t, T + dt1), eq(i, 0)), w)
    ex.oblige('the time of an event that does not paint does not count', 'post', n, and_(eq(t, T), eq(i, I + dt1)), w)
    over = lt(4 + 3 * p, t)
    ex.oblige('a stroke is not split before 4 s plus 3 s for the pressure', 'post', y, implies(not_(over), not_(true)), w)
    if hasattr(s, 'last'): ex.oblige('it is split then unless the pressure is released', 'post', y, implies(over, eq(true, le(0, s.last['dpressure']))), w)
    ex.oblige('idling without having painted: a stroke ends after a second', 'post', and_(n, eq(T, 0)), eq(true, lt(1, i)), w)
    ex.oblige('idling after having painted: a stroke ends after 0.9 s plus 5 s for the pressure', 'post', and_(n, ne(T, 0)), eq(true, lt(Fraction(0.9) + 5 * p, t + i)), w)
    ex.oblige('after an event the pressure is as given', 'post', ns, eq(b.state('PRESSURE', ns), p), w)
    return ex


class _At:
    """a brush seen in the state of a loop"""
    def __init__(s, b, st): s.b = b; s.st = st
    def state(s, n, g): return s.st.read(s.b.reg, num(s.b.o['states'] + 4 * s.b.E['MYPAINT_BRUSH_STATE_' + n]), 'f32')
