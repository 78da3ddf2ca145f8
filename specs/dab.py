"""What a queued dab does to a tile: process_op and process_tile."""
from specs.lib import *

FIELDS = ['x', 'y', 'radius', 'color_a', 'opaque', 'hardness', 'softness', 'aspect_ratio', 'angle', 'normal', 'lock_alpha', 'colorize', 'posterize', 'posterize_num', 'paint']
BLEND = ['Normal', 'Normal_and_Eraser', 'LockAlpha', 'Normal_Paint', 'Normal_and_Eraser_Paint', 'LockAlpha_Paint', 'Color', 'Posterize']
ONE = 1 << 15


def dab_op(ex, mod):
    """an operation as draw_dab_internal queues it (proved by specs.rect.task_dab)"""
    R01 = lambda n: var(n, 'R', 0, 1)
    f = {n: R01(n) for n in ('color_a', 'opaque', 'softness', 'lock_alpha', 'colorize', 'posterize', 'paint', 'hardness', 'normal')}
    ex.fact(lt(0, f['hardness']))
    for n in ('x', 'y'): f[n] = var(n, 'R', -(1 << 24), 1 << 24)
    f['radius'] = var('radius', 'R', 0, 1 << 22); ex.fact(lt(0, f['radius']))
    f['aspect_ratio'] = var('aspect_ratio', 'R', 1, None); f['angle'] = var('angle', 'R')
    f['posterize_num'] = var('posterize_num', 'R', 1, 128)
    for n in ('color_r', 'color_g', 'color_b'): f[n] = var(n, 'I', 0, ONE)
    return f, Struct(ex, 'OperationDataDrawDab', 'op', f, const=True)


def task_process_op(mod):
    ex = Exec(mod)
    f, op = dab_op(ex, mod)
    tx, ty = var('tx', 'I', -(1 << 20), 1 << 20), var('ty', 'I', -(1 << 20), 1 << 20)
    rgba = ex.new_region('tile', 64 * 64 * 8, None); rgba.align = 2
    mask = ex.new_region('mask', 2 * (64 * 64 + 2 * 64), None); mask.align = 2
    col = [f['color_r'], f['color_g'], f['color_b']]
    order = Ghost(ex, 'stage')            # the last stage that ran
    used = Ghost(ex, 'opacity')           # [k]: opacity + 1 given to stage k, 0 if it did not run
    made = Ghost(ex, 'mask rendered')
    def render(ex, A, g, w):
        ex.oblige('%s: the mask of this dab is rendered into the mask buffer' % w, 'pre', g, ptr_eq(A[0], ptr(mask)), w)
        want = [f['x'] - 64 * tm.real(tx), f['y'] - 64 * tm.real(ty), f['radius'], f['hardness'], f['softness'], f['aspect_ratio'], f['angle']]
        for n, a, b in zip(('x', 'y', 'radius', 'hardness', 'softness', 'aspect ratio', 'angle'), A[1:], want):
            ex.oblige('%s: the %s of the mask is that of the dab in this tile' % (w, n), 'pre', g, eq(a, b), w)
        made.set(made.get(0, g) + 1, g)
    ex.contracts['render_dab_mask'] = render
    # stage numbers: 1 normal, 2 lock alpha, 3 normal (pigment), 4 lock alpha (pigment), 5 colorize, 6 posterize
    STAGE = dict(Normal=1, Normal_and_Eraser=1, LockAlpha=2, Normal_Paint=3, Normal_and_Eraser_Paint=3, LockAlpha_Paint=4, Color=5, Posterize=6)
    def blend(name):
        def c(ex, A, g, w):
            st = STAGE[name]
            ex.oblige('%s: the mask was rendered before' % w, 'pre', g, eq(made.get(0, g), 1), w)
            ex.oblige('%s: it is applied to this tile with this mask' % w, 'pre', g, and_(ptr_eq(A[0], ptr(mask)), ptr_eq(A[1], ptr(rgba))), w)
            ex.oblige('%s: every stage runs once at most, in order' % w, 'pre', g, lt(order.get(0, g), st), w)
            order.set(st, g)
            a = A[2:]
            if name == 'Posterize':
                op_, num_ = a
                ex.oblige('%s: the number of levels is that of the dab' % w, 'pre', g, eq(num_, tm.floor(f['posterize_num'])), w)
            else:
                ex.oblige('%s: the colour is that of the dab' % w, 'pre', g, and_(*[eq(x, y) for x, y in zip(a, col)]), w)
                op_ = a[-1]
            ca = tm.floor(f['color_a'] * ONE)
            if 'Eraser' in name: ex.oblige("%s: the colour's alpha is that of the dab" % w, 'pre', g, eq(a[3], ca), w)
            if name in ('Normal', 'Normal_Paint'): ex.oblige('%s: only opaque colours are painted as such' % w, 'pre', g, eq(ca, ONE), w)
            ex.oblige('%s: the opacity is at most one' % w, 'pre', g, and_(le(0, op_), le(op_, ONE)), w)
            used.set(op_ + 1, g, st)
        return c
    for n in BLEND: ex.contracts['draw_dab_pixels_BlendMode_' + n] = blend(n)
    _, g = ex.call_fn('process_op', [ptr(rgba), ptr(mask), tx, ty, op.p], TRUE)
    w = 'process_op'
    one = num(1, 'R')
    sc = lambda v: tm.floor(v * ONE)
    share = f['normal'] * f['opaque']
    lock = f['lock_alpha'] * f['opaque'] * (one - f['colorize']) * (one - f['posterize'])
    p, ca = f['paint'], f['color_a']
    ex.oblige('the mask is rendered once', 'post', g, eq(made.get(0, g), 1), w)
    def opac(st): return tm.max_(used.get(st, g) - 1, num(0))
    def ran(st): return lt(0, used.get(st, g))
    for st, n, want in ((1, 'normal', sc(share * (one - p))), (2, 'lock alpha', ite(eq(ca, 0), num(0), sc(lock * (one - p)))), (5, 'colorize', sc(f['colorize'] * f['opaque'])), (6, 'posterize', sc(f['posterize'] * f['opaque']))):
        ex.oblige('the %s stage acts with its share' % n, 'post', g, eq(opac(st), want), w)
    # pigment stages act with at least a minimal opacity, so they must be left out when they have no share
    for st, n, on, want in ((3, 'normal pigment', and_(lt(0, p), lt(0, f['normal'])), sc(share * p)), (4, 'lock alpha pigment', and_(lt(0, p), lt(0, f['lock_alpha']), lt(0, ca)), sc(lock * p))):
        ex.oblige('the %s stage acts with its share' % n, 'post', g, implies(on, eq(opac(st), want)), w)
        ex.oblige('the %s stage is left out without a share' % n, 'post', g, implies(not_(on), not_(ran(st))), w)
        ex.oblige('the %s stage runs if it has a share' % n, 'post', g, implies(on, ran(st)), w)
    return ex


def task_process_tile(mod):
    """process_tile: all operations queued for the tile are applied to it, in order, once each, and freed"""
    ex = Exec(mod); ex.cut_always = True
    N = var('queued', 'I', 0, 1 << 24)
    tx, ty = var('tx', 'I', -(1 << 24), 1 << 24), var('ty', 'I', -(1 << 24), 1 << 24)
    queue = ex.new_region('operation_queue', 64, None)
    S = Struct(ex, 'MyPaintTiledSurface', 'surface', dict(operation_queue=ptr(queue)))
    buf = ex.new_region('tile', 64 * 64 * 8, None); buf.align = 2
    have = var('tile available', 'B')
    ops = opaque(ex, 'op')
    q = var('some_op', 'I', 1, 1 << 24); ex.fact(le(q, N))
    popped, done, freed, gone, open_ = (Ghost(ex, n) for n in ('popped', 'processed', 'freed', 'requests', 'open'))
    times = Ghost(ex, 'times processed', 1)
    def pop(ex, A, g, w):
        x, y = pair(ex, A[1], g)
        ex.oblige('%s: operations of this tile are taken from the queue of the surface' % w, 'pre', g, and_(ptr_eq(A[0], ptr(queue)), eq(x, tx), eq(y, ty)), w)
        n = popped.get(0, g)
        popped.set(ite(lt(n, N), n + 1, n), g)
        return ops(ite(lt(n, N), n + 1, num(0)))
    def process(ex, A, g, w):
        n = opaque_id(A[4], ops)
        ex.oblige('%s: operations are applied in the order they were queued' % w, 'pre', g, eq(n, done.get(0, g) + 1), w)
        ex.oblige('%s: to the tile they were queued for' % w, 'pre', g, and_(eq(A[2], tx), eq(A[3], ty)), w)
        ex.oblige('%s: in the tile buffer, while it is requested' % w, 'pre', g, and_(ptr_eq(A[0], ptr(buf)), eq(open_.get(0, g), 1)), w)
        ex.oblige('%s: before it is freed' % w, 'pre', g, lt(freed.get(0, g), n), w)
        for c, r, k, o in A[1].alts:
            ex.oblige('%s: the mask buffer is large enough' % w, 'pre', and_(g, c), FALSE if r is None else le(o + 2 * (64 * 64 + 2 * 64), r.size) if r.size is not None else FALSE, w)
        done.set(n, g)
        times.set(times.get(0, g, (n,)) + 1, g, 0, (n,))
    def free(ex, A, g, w):
        for c, r, k, o in A[0].alts:
            if r is ops.reg:
                ex.oblige('%s: operations are freed once' % w, 'pre', and_(g, c), eq(k[0], freed.get(0, g) + 1), w)
                freed.set(k[0], and_(g, c))
            elif r is not None: ex.oblige('%s: only operations are freed' % w, 'pre', and_(g, c), FALSE, w)
    def field(A, f, ty, g, w): return ex.load(A[1].shift(num(mod.off('MyPaintTileRequest', f))), ty, g, w)
    def start(ex, A, g, w):
        ex.oblige('%s: this tile is requested, for writing, once' % w, 'pre', g, and_(eq(field(A, 'tx', 'i32', g, w), tx), eq(field(A, 'ty', 'i32', g, w), ty), eq(field(A, 'readonly', 'i32', g, w), 0),
                  eq(field(A, 'mipmap_level', 'i32', g, w), 0), eq(open_.get(0, g), 0), eq(gone.get(0, g), 0)), w)
        ex.store(A[1].shift(num(mod.off('MyPaintTileRequest', 'buffer'))), 'ptr', Ptr([(have, buf, (), num(0)), (not_(have), None, (), num(0))]), g, w)
        open_.set(1, g); gone.set(1, g)
    def end(ex, A, g, w):
        ex.oblige('%s: the requested tile is given back' % w, 'pre', g, and_(eq(open_.get(0, g), 1), eq(field(A, 'tx', 'i32', g, w), tx), eq(field(A, 'ty', 'i32', g, w), ty), ptr_eq(field(A, 'buffer', 'ptr', g, w), ptr(buf))), w)
        open_.set(0, g)
    ex.contracts.update(operation_queue_pop=pop, process_op=process, free=free, mypaint_tiled_surface_tile_request_start=start, mypaint_tiled_surface_tile_request_end=end)
    def cands(ex, L):
        def cur(st):
            for n, v in st.vals.items():
                if isinstance(v, Ptr) and any(r is ops.reg for c, r, k, o in v.alts): return opaque_id(v, ops)
            raise KeyError
        c = lambda gh, st: gh.at(st)
        return [('all operations before the current one are done', lambda st: and_(eq(c(done, st), c(freed, st)), le(0, c(done, st)), le(c(popped, st), N),
                   ite(eq(cur(st), 0), and_(eq(c(popped, st), N), eq(c(done, st), N)), and_(eq(cur(st), c(done, st) + 1), eq(cur(st), c(popped, st)))))),
                ('the current operation exists', lambda st: and_(*[implies(c_, le(1, k[0])) for v in st.vals.values() if isinstance(v, Ptr) for c_, r, k, o in v.alts if r is ops.reg])),
                ('operation q', lambda st: eq(times.at(st, 0, (q,)), ite(le(q, c(done, st)), num(1), num(0)))),
                ('the tile stays requested', lambda st: eq(c(open_, st), 1))]
    ex.loop_cands.append(cands)
    _, g = ex.call_fn('process_tile', [S.p, tx, ty], TRUE)
    w = 'process_tile'
    ex.oblige('the tile is given back', 'post', and_(g, have), eq(open_.get(0, g), 0), w)
    ga = and_(g, have)
    ex.oblige('every queued operation is applied exactly once', 'post', ga, eq(times.get(0, ga, (q,)), 1), w)
    ex.oblige('the queue of the tile is empty afterwards', 'post', ga, eq(popped.get(0, ga), N), w)
    ex.oblige('every operation is freed', 'post', ga, eq(freed.get(0, ga), N), w)
    ex.oblige('the tile is not requested without operations', 'post', and_(g, eq(N, 0)), eq(gone.get(0, g), 0), w)
    return ex
