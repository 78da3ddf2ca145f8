"""Reference counts, destruction and ownership of memory.
The ghost state counts for every block whether it was released; a released block may not be touched, and a block that was
allocated (or was owned) is either released or owned by the field that is responsible for it."""
from specs.lib import *
from specs.brush import Brush, CT as BRUSH
from specs.fixed import CT as FIXED, W as FIXED_, vtable, TILE
from specs.rect import RW
from specs.symmetry import MW, required


class Heap:
    def __init__(s, ex, fail=True):
        s.ex = ex; ex.malloc_may_fail = fail
        s.fr = track_free(ex); s.made = []
        def wrap(n):
            f = getattr(ex, 'x_' + n)
            def g_(ex, A, g, w):
                if n == 'realloc': log = list(ex.ghost_calls)
                p = f(A, g, w, None)
                for c, r, k, o in p.alts:
                    if r is None: continue
                    s.fr.watch(r); s.made.append((r, and_(g, c)))
                    if n == 'realloc':
                        for c2, o2, k2, off in A[0].alts:      # a successful realloc releases the old block
                            if o2 is None: continue
                            gg = and_(g, c, c2)
                            if o2 in s.own: ex.oblige('%s: %s is released once' % (w, o2.name), 'pre', gg, o2.alive(ex, k2, gg), w); s.own[o2].set(1, gg)
                            else: ex.oblige('%s: %s may be released' % (w, o2.name), 'pre', gg, FALSE, w)
                return p
            ex.contracts[n] = g_
        s.own = {}
        for n in ('malloc', 'calloc', 'realloc'): wrap(n)

    def owned(s, r):
        s.own[r] = s.fr.watch(r); return r
    def freed(s, r, g): return ne(s.fr.ghost(r).get(0, g), 0)
    def check(s, name, g, owner, w, blocks=()):
        """every block is released or reachable from the owners; the owners do not point to released blocks"""
        for r, a in s.made + [(r, TRUE) for r in list(s.own) + list(blocks)]:
            held = or_(*[and_(c) for p in owner for c, rr, k, o in p.alts if rr is r])
            s.ex.oblige('%s: %s is released or still held' % (name, r.name), 'post', and_(g, a), or_(s.freed(r, g), held), w)
            s.ex.oblige('%s: %s is not held once it was released' % (name, r.name), 'post', and_(g, a), not_(and_(s.freed(r, g), held)), w)


# ---------------------------------------------------------------- brush
def task_brush(mod):
    out = []
    rc = var('refcount', 'I', 1, (1 << 31) - 2)
    OFF = mod.off(BRUSH, 'refcount')
    # ref
    s = Brush(mod); ex = s.ex
    ex.fact(eq(s.field('refcount', 'i32'), rc))
    any_ = var('byte', 'I', 0, mod.sizeof(BRUSH) - 1)
    _, g = ex.call_fn('mypaint_brush_ref', [s.p], TRUE)
    ex.oblige('ref: one reference more', 'post', g, eq(s.field('refcount', 'i32', g), rc + 1), 'mypaint_brush_ref')
    out.append(ex)
    # unref
    s = Brush(mod); ex = s.ex
    ex.fact(eq(s.field('refcount', 'i32'), rc))
    gone = Ghost(ex, 'destroyed')
    def bf(ex, A, g, w):
        ex.oblige('%s: this brush is destroyed' % w, 'pre', g, ptr_eq(A[0], s.p), w)
        ex.oblige('%s: it is destroyed only with the last reference' % w, 'pre', g, eq(rc, 1), w)
        ex.oblige('%s: it is destroyed once' % w, 'pre', g, eq(gone.get(0, g), 0), w)
        gone.set(1, g)
    ex.contracts['brush_free'] = bf
    s.reg.alive = lambda ex, k, g: eq(gone.get(0, g), 0)
    _, g = ex.call_fn('mypaint_brush_unref', [s.p], TRUE)
    ex.oblige('unref: the brush is destroyed with the last reference', 'post', g, eq(ne(gone.get(0, g), 0), eq(rc, 1)), 'mypaint_brush_unref')
    s.reg.alive = None
    ex.oblige('unref: one reference less', 'post', g, implies(ne(rc, 1), eq(s.field('refcount', 'i32', g), rc - 1)), 'mypaint_brush_unref')
    out.append(ex)
    # free
    s = Brush(mod); ex = s.ex; ex.cut_always = set(); ex.unroll_limit = 200
    h = Heap(ex); w = 'brush_free'
    for r in (s.reg, s.bk, s.rng): h.owned(r)
    mg = Ghost(ex, 'mappings freed', 1)
    q = var('setting', 'I', 0, s.NS - 1)
    def mf(ex, A, g, w):
        k = opaque_id(A[0], s.maps)
        ex.oblige('%s: a mapping of the brush is released' % w, 'pre', g, and_(not_(is_null(A[0])), le(1, k), le(k, s.NS)), w)
        ex.oblige('%s: every mapping is released once' % w, 'pre', g, eq(mg.get(0, g, (k,)), 0), w)
        mg.set(1, g, 0, (k,))
    ex.contracts['mypaint_mapping_free'] = mf
    puts = Ghost(ex, 'json put')
    def put(ex, A, g, w):
        ex.oblige('%s: the brush\'s own description is released' % w, 'pre', g, eq(opaque_id(A[0], s.js), s.jid), w)
        puts.set(puts.get(0, g) + ite(is_null(A[0]), num(0), num(1)), g)
        return num(1)
    ex.contracts['json_object_put'] = put
    _, g = ex.call_fn(w, [s.p], TRUE)
    ex.oblige('free: the mapping of every setting is released', 'post', g, eq(mg.get(0, g, (q + 1,)), 1), w)
    ex.oblige('free: the description is released', 'post', g, eq(puts.get(0, g), ite(eq(s.jid, 0), num(0), num(1))), w)
    for r, n in ((s.reg, 'brush'), (s.rng, 'random generator')): ex.oblige('free: the %s is released' % n, 'post', g, h.freed(r, g), w)
    ex.oblige('free: the buckets are released', 'post', g, implies(lt(0, s.N), h.freed(s.bk, g)), w)
    out.append(ex)
    # new: what is allocated is held by the brush, also if memory runs out
    s = Brush(mod); ex = s.ex; ex.cut_always = set(); ex.unroll_limit = 200
    w = 'mypaint_brush_new_with_buckets'
    h = Heap(ex)
    ex.contracts['mypaint_mapping_new'] = lambda ex, A, g, w: s.maps(num(1), True)
    def fam(r):
        prov = lambda nm: (lambda ex, key, off, ty: s.maps(app(nm + '.ptr', [off], 'I', 0, None)) if ty == 'ptr' else None)
        r.base = prov(r.name); r.havoc_base = lambda ex, nm: prov(nm)
    ex.on_alloc = fam
    ex.contracts['rng_double_new'] = lambda ex, A, g, w: ptr(s.rng)
    ex.contracts['settings_base_values_have_changed'] = lambda ex, A, g, w: None
    ex.contracts['json_object_new_object'] = lambda ex, A, g, w: s.js(s.jid)
    p, g = ex.call_fn(w, [var('num_smudge_buckets', 'I', -(1 << 31), MAXB)], TRUE)
    ok = and_(g, not_(is_null(p)))
    b = ex.load(p.shift(num(s.o['smudge_buckets'])), 'ptr', ok, w)
    h.check('new', ok, [p, b], w)
    h.check('new fails', and_(g, is_null(p)), [], w)
    ex.oblige('new: one reference', 'post', ok, eq(ex.load(p.shift(num(s.o['refcount'])), 'i32', ok, w), 1), w)
    out.append(ex)
    return out


MAXB = 1 << 24


def task_parts(mod):
    """the parts of a brush: mappings and random generator"""
    out = []
    ex = Exec(mod); h = Heap(ex)
    n = var('inputs', 'I', 1, 64)
    pts = h.owned(ex.new_region('points', n * mod.sizeof('ControlPoints'), None))
    m = Struct(ex, 'MyPaintMapping', 'map', dict(inputs=n, pointsList=ptr(pts))); h.owned(m.reg)
    w = 'mypaint_mapping_free'
    _, g = ex.call_fn(w, [m.p], TRUE)
    h.check('mapping free', g, [], w)
    out.append(ex)
    ex = Exec(mod); h = Heap(ex, False); w = 'mypaint_mapping_new'
    p, g = ex.call_fn(w, [n], TRUE)
    h.check('mapping new', g, [p, ex.load(p.shift(num(mod.off('MyPaintMapping', 'pointsList'))), 'ptr', g, w)], w)
    out.append(ex)
    ex = Exec(mod); h = Heap(ex); w = 'rng_double_free'
    r = h.owned(ex.new_region('rng', mod.sizeof('RngDouble'), None)); r.align = 8
    _, g = ex.call_fn(w, [ptr(r)], TRUE)
    h.check('random generator free', g, [], w)
    out.append(ex)
    ex = Exec(mod); h = Heap(ex, False); w = 'rng_double_new'
    ex.contracts['rng_double_set_seed'] = lambda ex, A, g, w: None
    p, g = ex.call_fn(w, [var('seed', 'I', -(1 << 63), (1 << 63) - 1)], TRUE)
    h.check('random generator new', g, [p], w)
    out.append(ex)
    return out


# ---------------------------------------------------------------- surfaces
def task_surface(mod):
    out = []
    rc = var('refcount', 'I', 1, (1 << 31) - 2)
    def surface():
        ex = Exec(mod)
        s = Struct(ex, 'MyPaintSurface', 'surface', dict(refcount=rc, destroy=Ptr([(TRUE, func('the_destroy_function'), (), num(0))])))
        return ex, s
    ex, s = surface()
    _, g = ex.call_fn('mypaint_surface_init', [s.p], TRUE)
    ex.oblige('init: one reference', 'post', g, eq(s.get('refcount', 'i32', g), 1), 'mypaint_surface_init')
    out.append(ex)
    ex, s = surface()
    _, g = ex.call_fn('mypaint_surface_ref', [s.p], TRUE)
    ex.oblige('ref: one reference more', 'post', g, eq(s.get('refcount', 'i32', g), rc + 1), 'mypaint_surface_ref')
    out.append(ex)
    ex, s = surface()
    gone = Ghost(ex, 'destroyed')
    def destroy(ex, A, g, w):
        ex.oblige('%s: this surface is destroyed' % w, 'pre', g, ptr_eq(A[0], s.p), w)
        ex.oblige('%s: it is destroyed only with the last reference' % w, 'pre', g, eq(rc, 1), w)
        ex.oblige('%s: it is destroyed once' % w, 'pre', g, eq(gone.get(0, g), 0), w)
        gone.set(1, g)
    ex.contracts['the_destroy_function'] = destroy
    s.reg.alive = lambda ex, k, g: eq(gone.get(0, g), 0)
    _, g = ex.call_fn('mypaint_surface_unref', [s.p], TRUE)
    ex.oblige('unref: the surface is destroyed with the last reference', 'post', g, eq(ne(gone.get(0, g), 0), eq(rc, 1)), 'mypaint_surface_unref')
    s.reg.alive = None
    ex.oblige('unref: one reference less', 'post', g, implies(ne(rc, 1), eq(s.get('refcount', 'i32', g), rc - 1)), 'mypaint_surface_unref')
    out.append(ex)
    return out


class Tiled:
    """the parts a tiled surface owns. Invariant: the bounding boxes are the built-in ones exactly if there are at most as many as those."""

    def __init__(s, mod, fail=True, ctype='MyPaintTiledSurface', cells=None):
        s.ex = ex = Exec(mod); s.mod = mod
        T_ = 'MyPaintTiledSurface'
        s.h = h = Heap(ex, fail)
        s.base = 0 if ctype == T_ else mod.off(ctype, 'parent')
        f = lambda n: s.base + mod.off(T_, n)
        sd = lambda n: f('symmetry_data') + mod.off('MyPaintSymmetryData', n)
        s.f, s.sd = f, sd
        s.ndef = 32
        s.N = var('num_bboxes', 'I', s.ndef, 1 << 22)
        s.nm = var('num_matrices', 'I', 0, 1 << 22)
        s.bb = h.owned(ex.new_region('bboxes', s.N * RW, None)); s.bb.align = 4
        s.mat = h.owned(ex.new_region('matrices', s.nm * MW, None)); s.mat.align = 4
        s.q = opaque(ex, 'operation queue'); s.qid = var('queue', 'I', 1, None)
        s.hasm = var('has matrices', 'B')
        s.st = st = Struct(ex, ctype, 'surface', cells)
        s.grown = lt(s.ndef, s.N)
        st.cells.update({f('num_bboxes'): s.N, f('bboxes'): Ptr([(s.grown, s.bb, (), num(0)), (not_(s.grown), st.reg, (), num(f('default_bboxes')))]),
                         f('operation_queue'): s.q(s.qid, True), sd('num_symmetry_matrices'): s.nm,
                         sd('symmetry_matrices'): Ptr([(s.hasm, s.mat, (), num(0)), (not_(s.hasm), None, (), num(0))])})
        s.qgone = Ghost(ex, 'queue freed')
        def qfree(ex, A, g, w):
            ex.oblige('%s: the surface\'s own queue is released' % w, 'pre', g, eq(opaque_id(A[0], s.q), s.qid), w)
            ex.oblige('%s: the queue is released once' % w, 'pre', g, eq(s.qgone.get(0, g), 0), w)
            s.qgone.set(1, g)
        ex.contracts['operation_queue_free'] = qfree

    def ld(s, o, ty, g): return s.ex.read(s.st.reg, (), num(o), ty, g)
    def p(s): return s.st.p

    def gone(s, g, w):
        ex = s.ex
        ex.oblige('the queue is released', 'post', g, eq(s.qgone.get(0, g), 1), w)
        ex.oblige('bounding boxes that were allocated are released', 'post', g, eq(s.h.freed(s.bb, g), s.grown), w)
        ex.oblige('the matrices are released', 'post', g, eq(s.h.freed(s.mat, g), s.hasm), w)


def task_tiled(mod):
    out = []
    T_ = 'MyPaintTiledSurface'
    # destroy
    s = Tiled(mod); ex = s.ex; w = 'mypaint_tiled_surface_destroy'
    _, g = ex.call_fn(w, [s.p()], TRUE)
    s.gone(g, w)
    out.append(ex)
    # growing the list of bounding boxes
    s = Tiled(mod); ex = s.ex; w = 'prepare_bounding_boxes'; f, sd = s.f, s.sd
    cur = lambda n: sd('state_current') + mod.off('MyPaintSymmetryState', n)
    s.st.cells[cur('num_lines')] = tm.real(var('num_lines', 'I', 1, 1 << 20))
    d = var('num_bboxes_dirtied', 'I', 0, None); ex.fact(le(d, s.N)); s.st.cells[f('num_bboxes_dirtied')] = d
    def havoc(ex, nm):
        def prov(ex, key, off, ty):
            if ty != 'ptr' or off.op != 'num': return None
            if off.args != f('bboxes'): raise Unsupported('pointer read after a loop')
            alts = []; rest = TRUE
            for j, r in enumerate([s.bb] + [r for r, a in s.h.made]):
                c = var('%s.points to %d' % (nm, j), 'B'); alts.append((and_(rest, c), r, (), app(nm + '.bboxes', [num(j)], 'I'))); rest = and_(rest, not_(c))
            return Ptr(alts + [(rest, s.st.reg, (), app(nm + '.bboxes', [num(-1)], 'I'))])
        return prov
    s.st.reg.havoc_base = havoc; s.st.reg.align = 8
    def cands(ex, L):
        out = []
        if s.st.reg in L['M']:
            b0, n0, d0 = [s.ld(f(x), ty, L['g0']) for x, ty in (('bboxes', 'ptr'), ('num_bboxes', 'i32'), ('num_bboxes_dirtied', 'i32'))]
            out.append(('the list of bounding boxes stays', lambda st: ptr_eq(s.ld(f('bboxes'), 'ptr', st.guard), b0)))
            out.append(('their number stays', lambda st: and_(eq(s.ld(f('num_bboxes'), 'i32', st.guard), n0), eq(s.ld(f('num_bboxes_dirtied'), 'i32', st.guard), d0))))
        return out
    ex.loop_cands.append(cands)
    _, g = ex.call_fn(w, [s.p()], TRUE)
    b = s.ld(f('bboxes'), 'ptr', g); n = s.ld(f('num_bboxes'), 'i32', g)
    for r, a in s.h.made + [(s.bb, s.grown)]:
        held = or_(*[c for c, rr, k, o in b.alts if rr is r])
        ex.oblige('%s is released or holds the bounding boxes' % r.name, 'post', and_(g, a), ne(s.h.freed(r, g), held), w)
        ex.oblige('%s has room for the bounding boxes' % r.name, 'post', and_(g, a, held), le(n * RW, r.size), w)
    own = or_(*[and_(c, eq(o, f('default_bboxes'))) for c, rr, k, o in b.alts if rr is s.st.reg])
    ex.oblige('the built-in bounding boxes are in use exactly if there are no more than those', 'post', g, eq(own, le(n, s.ndef)), w)
    out.append(ex)
    # symmetry
    s = Tiled(mod); ex = s.ex; w = 'mypaint_update_symmetry_state'; sd = s.sd
    for st in ('state_pending', 'state_current'):
        o = sd(st) + mod.off('MyPaintSymmetryState', 'num_lines'); s.st.cells[o] = tm.real(var('num_lines_' + st, 'I', 1, 1 << 20))
        s.st.cells[sd(st) + mod.off('MyPaintSymmetryState', 'type')] = var('type_' + st, 'I', -1, 10)
    ex.fact(implies(not_(s.hasm), eq(s.nm, 0)))
    _, g = ex.call_fn(w, [ptr(s.st.reg, num(s.f('symmetry_data')))], TRUE)
    m = s.ld(sd('symmetry_matrices'), 'ptr', g); n = s.ld(sd('num_symmetry_matrices'), 'i32', g)
    for r, a in s.h.made + [(s.mat, s.hasm)]:
        held = or_(*[c for c, rr, k, o in m.alts if rr is r])
        ex.oblige('%s is released or holds the matrices' % r.name, 'post', and_(g, a), ne(s.h.freed(r, g), held), w)
        ex.oblige('%s has room for the matrices' % r.name, 'post', and_(g, a, held), le(n * MW, r.size), w)
    ex.oblige('without matrices, none are counted', 'post', g, implies(is_null(m), le(n, 0)), w)
    out.append(ex)
    # fixed surface: destruction through the slot
    W_ = mod.sizeof(FIXED)
    s = Tiled(mod, ctype=FIXED); ex = s.ex
    tw, th = var('tiles_width', 'I', 1, 256), var('tiles_height', 'I', 1, 256)
    buf, null = [s.h.owned(ex.new_region(n, z, None)) for n, z in (('tile_buffer', tw * th * TILE), ('null_tile', TILE))]
    s.st.cells.update({mod.off(FIXED, 'tile_buffer'): ptr(buf), mod.off(FIXED, 'null_tile'): ptr(null)})
    s.h.owned(s.st.reg)
    w = vtable(mod, (FIXED, 'parent'), ('MyPaintTiledSurface', 'parent'), ('MyPaintSurface', 'destroy'))
    td = Ghost(ex, 'base destroyed')
    _, g = ex.call_fn(w, [s.p()], TRUE)
    s.gone(g, w)
    for r, n in ((buf, 'tiles'), (null, 'scratch tile'), (s.st.reg, 'surface')): ex.oblige('the %s is released' % n, 'post', g, s.h.freed(r, g), w)
    out.append(ex)
    # fixed surface: construction
    ex = Exec(mod); h = Heap(ex, False); w = FIXED_ + '_new'
    q = opaque(ex, 'operation queue'); ex.contracts['operation_queue_new'] = lambda ex, A, g, w: q(1, True)
    width, height = var('width', 'I', 1, 1 << 14), var('height', 'I', 1, 1 << 14)
    ex.fact(le(1, width * height)); ex.fact(le(width * height, (1 << 28) - 1))
    p, g = ex.call_fn(w, [width, height], TRUE)
    ok = and_(g, not_(is_null(p)))
    L = lambda o, ty: ex.load(p.shift(num(o)), ty, ok, w)
    sd = mod.off(FIXED, 'parent') + mod.off(T_, 'symmetry_data') + mod.off('MyPaintSymmetryData', 'symmetry_matrices')
    h.check('new', ok, [p, L(mod.off(FIXED, 'tile_buffer'), 'ptr'), L(mod.off(FIXED, 'null_tile'), 'ptr'), L(sd, 'ptr')], w)
    ex.oblige('new: one reference', 'post', ok, eq(L(mod.off('MyPaintSurface', 'refcount'), 'i32'), 1), w)
    bb = L(mod.off(T_, 'bboxes'), 'ptr')
    ex.oblige('new: the built-in bounding boxes', 'post', ok, and_(ptr_eq(bb, p.shift(num(mod.off(T_, 'default_bboxes')))), eq(L(mod.off(T_, 'num_bboxes'), 'i32'), 32)), w)
    ex.oblige('new: a queue of its own', 'post', ok, eq(opaque_id(L(mod.off(T_, 'operation_queue'), 'ptr'), q), 1), w)
    out.append(ex)
    return out
