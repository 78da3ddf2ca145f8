"""fifo.c, tilemap.c, operationqueue.c"""
from specs.lib import *


class Fifo:
    """a fifo holding the payloads head..tail-1 in a chain of nodes (node i holds payload i)"""

    def __init__(s, mod):
        s.ex = ex = Exec(mod); s.mod = mod
        s.head, s.tail = num(0), var('length', 'I', 0, 1 << 30)
        s.nodes = ex.new_region('node', mod.sizeof('fifo_item'), s.base, keys=1)
        s.pay = opaque(ex, 'payload')
        s.NX, s.PL = mod.off('fifo_item', 'next'), mod.off('fifo_item', 'payload')
        s.q = Struct(ex, 'fifo', 'fifo')
        s.q.set('first', s.node(s.head)); s.q.set('last', s.node(s.tail - 1))
        s.q.set('item_count', var('item_count', 'I', -(1 << 31) + 1, 1 << 30))     # only ever decremented: not at the limit
        s.q.reg.havoc_base = lambda ex, nm: (lambda ex, key, off, ty: s.anynode(app(nm + '.node', [off], 'I')) if ty == 'ptr' else None)

    def anynode(s, i): return Ptr([(le(0, i), s.nodes, (i,), num(0)), (lt(i, 0), None, (), num(0))])
    def node(s, i): return Ptr([(and_(le(s.head, i), lt(i, s.tail)), s.nodes, (tm.T_(i),), num(0)), (not_(and_(le(s.head, i), lt(i, s.tail))), None, (), num(0))])
    def payload(s, i): return s.pay(app('payload', [tm.T_(i)], 'I', 1, None), True)
    def base(s, ex, key, off, ty):
        if off.op != 'num': return None
        if off.args == s.NX: return s.node(key[0] + 1)
        if off.args == s.PL: return s.payload(key[0])

    def f(s, name, g): return s.q.get(name, 'ptr', g)
    def nx(s, i, g): return s.ex.read(s.nodes, (tm.T_(i),), num(s.NX), 'ptr', g)
    def pl(s, i, g): return s.ex.read(s.nodes, (tm.T_(i),), num(s.PL), 'ptr', g)


def task_fifo(mod):
    out = []
    # new
    ex = Exec(mod); ex.cut_always = True
    p, g = ex.call_fn('fifo_new', [], TRUE)
    L = lambda f: ex.load(p.shift(num(mod.off('fifo', f))), 'ptr', g, 'fifo_new')
    ex.oblige('a new fifo is empty', 'post', g, and_(is_null(L('first')), is_null(L('last'))), 'fifo_new')
    out.append(ex)
    # push
    s = Fifo(mod); ex = s.ex
    d = s.pay(var('data', 'I', 1, None), True)
    i = var('i', 'I', 0, None); ex.fact(lt(i, s.tail))
    _, g = ex.call_fn('fifo_push', [s.q.p, d], TRUE)
    last, first = s.f('last', g), s.f('first', g)
    ex.oblige('push: the last item holds the new payload and ends the chain', 'post', g, and_(not_(is_null(last)), ptr_eq(ex.load(last.shift(num(s.PL)), 'ptr', g, 'last'), d), is_null(ex.load(last.shift(num(s.NX)), 'ptr', g, 'last'))), 'fifo_push')
    ex.oblige('push: the new item is not one of the old ones', 'post', g, not_(ptr_eq(last, s.node(i))), 'fifo_push')
    ex.oblige('push: the first item stays, or is the new one', 'post', g, ite(eq(s.tail, 0), ptr_eq(first, last), ptr_eq(first, s.node(s.head))), 'fifo_push')
    ex.oblige('push: the old items keep their order and payload; the last is followed by the new one', 'post', g,
              and_(ptr_eq(s.pl(i, g), s.payload(i)), ite(eq(i, s.tail - 1), ptr_eq(s.nx(i, g), last), ptr_eq(s.nx(i, g), s.node(i + 1)))), 'fifo_push')
    out.append(ex)
    # pop
    s = Fifo(mod); ex = s.ex
    fr = track_free(ex)
    q = var('q', 'I', 0, None); gone = fr.watch(s.nodes, (q,)); ex.fact(lt(q, s.tail))
    r, g = ex.call_fn('fifo_pop', [s.q.p], TRUE)
    w = 'fifo_pop'
    first, last = s.f('first', g), s.f('last', g)
    ex.oblige('pop: returns the first payload, NULL when empty', 'post', g, ite(eq(s.tail, 0), is_null(r), ptr_eq(r, s.payload(s.head))), w)
    ex.oblige('pop: the second item becomes the first', 'post', g, ite(le(s.tail, 1), is_null(first), ptr_eq(first, s.node(s.head + 1))), w)
    ex.oblige('pop: the last item stays unless the fifo became empty', 'post', g, ite(le(s.tail, 1), is_null(last), ptr_eq(last, s.node(s.tail - 1))), w)
    ex.oblige('pop: exactly the first item is freed', 'post', g, eq(gone.get(0, g, (q,)), ite(eq(q, s.head), num(1), num(0))), w)
    ex.oblige('pop: the other items keep their order and payload', 'post', g, implies(ne(q, s.head), and_(ptr_eq(s.pl(q, g), s.payload(q)), ptr_eq(s.nx(q, g), s.node(q + 1)))), w)
    out.append(ex)
    # peek
    for f, i in (('fifo_peek_first', lambda s: s.head), ('fifo_peek_last', lambda s: s.tail - 1)):
        s = Fifo(mod); ex = s.ex
        s.q.reg.const = True; s.nodes.const = True
        r, g = ex.call_fn(f, [s.q.p], TRUE)
        ex.oblige('%s: the payload, NULL when empty' % f, 'post', g, ite(eq(s.tail, 0), is_null(r), ptr_eq(r, s.payload(i(s)))), f)
        out.append(ex)
    # free
    s = Fifo(mod); ex = s.ex
    fr = track_free(ex)
    q = var('q', 'I', 0, None); gone = fr.watch(s.nodes, (q,)); ex.fact(lt(q, s.tail))
    gq = fr.watch(s.q.reg)
    pos, seen = Ghost(ex, 'handed out'), Ghost(ex, 'q handed out')
    def cb(ex, A, g, w):
        c = pos.get(0, g)
        ex.oblige('%s: the payloads are handed out in order' % w, 'pre', g, and_(lt(c, s.tail), ptr_eq(A[0], s.payload(c))), w)
        seen.set(seen.get(0, g) + ite(eq(c, q), num(1), num(0)), g)
        pos.set(c + 1, g)
    ex.contracts['user_free'] = cb
    def cands(ex, L):
        return [('the first item is the next one', lambda st: ptr_eq(s.f('first', st.guard), s.node(pos.at(st)))),
                ('no more items than there were', lambda st: and_(le(0, pos.at(st)), le(pos.at(st), s.tail))),
                ('q was handed out when its turn came', lambda st: eq(seen.at(st), ite(lt(q, pos.at(st)), num(1), num(0)))),
                ('q is freed when its turn came', lambda st: eq(gone.get(0, st.guard, (q,)), ite(lt(q, pos.at(st)), num(1), num(0))))]
    ex.loop_cands.append(cands)
    _, g = ex.call_fn('fifo_free', [s.q.p, ptr(func('user_free'))], TRUE)
    w = 'fifo_free'
    ex.oblige('free: every payload is handed out once', 'post', g, eq(seen.get(0, g), 1), w)
    ex.oblige('free: every item is freed', 'post', g, eq(gone.get(0, g, (q,)), 1), w)
    ex.oblige('free: the fifo is freed', 'post', g, eq(gq.get(0, g), 1), w)
    out.append(ex)
    return out


MAXS = 1 << 13      # tile coordinates below 8192: a larger map does not fit into memory (16 size^2 pointers)


def pointer_array(items):
    """fresh memory holds arbitrary pointers"""
    prov = lambda nm: (lambda ex, key, off, ty: items(app(nm + '.item', list(key) + [off], 'I', 0, None)) if ty == 'ptr' else None)
    def f(r): r.base = prov(r.name); r.havoc_base = lambda ex, nm: prov(nm)
    return f


class Slots:
    """the pointers of a tile map, as a family of opaque items (0: none)"""

    def __init__(s, ex, name, n, items):
        s.ex = ex; s.items = items; s.name = name
        prov = lambda nm: (lambda ex, key, off, ty: items(app(nm + '.item', [off], 'I', 0, None)) if ty == 'ptr' else None)
        s.reg = ex.new_region(name, n * 8, prov(name)); s.reg.align = 8
        s.reg.havoc_base = lambda ex, nm: prov(nm)

    def get(s, j, g=TRUE): return s.ex.read(s.reg, (), 8 * tm.T_(j), 'ptr', g)


class Map:
    def __init__(s, ex, mod, name, items, size=None):
        s.ex = ex
        s.size = size or var(name + '.size', 'I', 1, MAXS)
        s.slots = Slots(ex, name + '.map', 4 * s.size * s.size, items)
        s.s = Struct(ex, 'TileMap', name)
        s.s.set('size', s.size); s.s.set('map', ptr(s.slots.reg)); s.s.set('item_size', num(8)); s.s.set('item_free_func', ptr(func('item_free')))

    def inside(s, x, y): return and_(le(-s.size, x), lt(x, s.size), le(-s.size, y), lt(y, s.size))


def tile(x, y): return x + (1 << 32) * y      # two ints in one register


def coerced(ex, x, y): return ex.u(x, 32) + (1 << 32) * ex.u(y, 32)


def square_lemmas(ex, s, *ys):
    """products of ranges: rows of a square"""
    for y in ys: ex.fact(implies(and_(le(-s, y), lt(y, s)), and_(le(0, (s + y) * s), le((s + y) * s, 2 * s * s - s))))


def task_tilemap(mod):
    out = []
    # contains, get
    ex = Exec(mod); items = opaque(ex, 'item'); ex.cut_always = True
    M = Map(ex, mod, 'tile_map', items); M.s.reg.const = True; M.slots.reg.const = True
    x, y, x2, y2 = [var(n, 'I', -MAXS, MAXS) for n in ('x', 'y', 'x2', 'y2')]
    r, g = ex.call_fn('tile_map_contains', [M.s.p, coerced(ex, x, y)], TRUE)
    ex.oblige('contains: the tiles within the square', 'post', g, eq(ne(r, 0), M.inside(x, y)), 'tile_map_contains')
    p, g1 = ex.call_fn('tile_map_get', [M.s.p, coerced(ex, x, y)], M.inside(x, y))
    ex.load(p, 'ptr', g1, 'tile_map_get: the slot')
    p2, g2 = ex.call_fn('tile_map_get', [M.s.p, coerced(ex, x2, y2)], and_(g1, M.inside(x2, y2)))
    # (y2 - y) rows apart: at least a row
    o, o2 = p.alts[0][3], p2.alts[0][3]
    W = 2 * M.size
    ex.oblige('get: tiles of different rows are at least a row apart', 'lemma', g2, implies(lt(y, y2), le((y + 1) * W, y2 * W)), 'tile_map_get')
    ex.oblige('get: tiles of different rows are at least a row apart (other way)', 'lemma', g2, implies(lt(y2, y), le((y2 + 1) * W, y * W)), 'tile_map_get')
    ex.fact(implies(lt(y, y2), le((y + 1) * W, y2 * W))); ex.fact(implies(lt(y2, y), le((y2 + 1) * W, y * W)))
    for c in (lt(y, y2), lt(y2, y), and_(eq(y, y2), lt(x, x2)), and_(eq(y, y2), lt(x2, x))):
        ex.oblige('get: different tiles have different slots', 'post', and_(g2, c), not_(ptr_eq(p, p2)), 'tile_map_get')
    out.append(ex)
    # new
    ex = Exec(mod); ex.cut_always = True
    n = var('size', 'I', 1, MAXS); q = var('q', 'I', 0, None); ex.fact(lt(q, 4 * n * n))
    def cands(ex, L):
        return [('slots %s are empty' % nm, lambda st, done=done, r=r: implies(done(st, q), is_null(ex.read(r, (), 8 * q, 'ptr', st.guard)))) for r in L['M'] for nm, done in progress(L, r, 8)]
    items2 = opaque(ex, 'item')
    ex.on_alloc = pointer_array(items2)
    ex.loop_cands.append(cands)
    p, g = ex.call_fn('tile_map_new', [n, num(8), ptr(func('item_free'))], TRUE)
    w = 'tile_map_new'
    L = lambda f, ty: ex.load(p.shift(num(mod.off('TileMap', f))), ty, g, w)
    ex.oblige('a new map has the given size and item function', 'post', g, and_(eq(L('size', 'i32'), n), eq(L('item_size', 'i64'), 8), ptr_eq(L('item_free_func', 'ptr'), ptr(func('item_free')))), w)
    ex.oblige('every slot of a new map is empty', 'post', g, is_null(ex.load(L('map', 'ptr').shift(8 * q), 'ptr', g, 'the slots')), w)
    out.append(ex)
    # copy
    ex = Exec(mod); items = opaque(ex, 'item'); ex.cut_always = True
    M, O = Map(ex, mod, 'tile_map', items), Map(ex, mod, 'other', items)
    M.s.reg.const = True; M.slots.reg.const = True; O.s.reg.const = True
    ex.fact(le(M.size, O.size))
    x, y = var('x', 'I', -MAXS, MAXS), var('y', 'I', -MAXS, MAXS)
    ex.fact(O.inside(x, y))
    at = lambda m, x, y: m.slots.items
    off = lambda m, x, y: (m.size + y) * (2 * m.size) + m.size + x
    def getc(ex, A, g, w):
        """tile_map_get as proved above: its slots are distinct, within the map"""
        tx, ty = pair(ex, A[1], g)
        r = []
        for m in (M, O):
            c = ptr_eq(A[0], m.s.p)
            if c is FALSE: continue
            ex.oblige('%s: the tile is in the map' % w, 'pre', and_(g, c), m.inside(tx, ty), w)
            r.append((c, tiles[m], (tx, ty), num(0)))
        return Ptr(r)
    tiles = {}
    for m in (M, O):
        nm = m.s.reg.name
        prov = lambda nm: (lambda ex, key, off, ty: items(app(nm + '.tile', list(key), 'I', 0, None)) if ty == 'ptr' else None)
        tiles[m] = ex.new_region(nm + '.tiles', 8, prov(nm), keys=2); tiles[m].havoc_base = lambda ex, nm, prov=prov: prov(nm)
    tiles[M].const = True
    ex.contracts['tile_map_get'] = getc
    T_ = lambda m, g: ex.read(tiles[m], (x, y), num(0), 'ptr', g)
    src, dst0 = T_(M, TRUE), T_(O, TRUE)
    def cands(ex, L):
        out = []
        same = lambda st, done: ite(and_(M.inside(x, y), done), ptr_eq(T_(O, st.guard), src), ptr_eq(T_(O, st.guard), dst0))
        for i in ints(L):
            for o in [v for v in L['enclosing'].values() if isinstance(v, T) and v.sort == 'I']:
                for a, b in ((x, y), (y, x)): out.append(('tiles before (%s, row) are copied' % i, lambda st, i=i, o=o, a=a, b=b: same(st, or_(lt(b, o), and_(eq(b, o), lt(a, st.vals[i]))))))
            for b in (x, y): out.append(('rows before %s are copied' % i, lambda st, i=i, b=b: same(st, lt(b, st.vals[i]))))
            out.append(('%s in the map' % i, lambda st, i=i: and_(le(-M.size, st.vals[i]), le(st.vals[i], M.size))))
        return out
    ex.loop_cands.append(cands)
    _, g = ex.call_fn('tile_map_copy_to', [M.s.p, O.s.p], TRUE)
    ex.oblige('copy: every tile of the map is copied, others stay', 'post', g, ptr_eq(T_(O, g), Ptr([(and_(M.inside(x, y), c), r, k, o) for c, r, k, o in src.alts] + [(and_(not_(M.inside(x, y)), c), r, k, o) for c, r, k, o in dst0.alts])), 'tile_map_copy_to')
    out.append(ex)
    # free
    for items_too in (0, 1):
        ex = Exec(mod); ex.cut_always = True; items = opaque(ex, 'item')
        M = Map(ex, mod, 'tile_map', items); M.slots.reg.const = True
        fr = track_free(ex); g1, g2 = fr.watch(M.s.reg), fr.watch(M.slots.reg)
        q = var('q', 'I', 0, None); ex.fact(lt(q, 4 * M.size * M.size))
        cnt = Ghost(ex, 'given back', 1)
        idq = opaque_id(M.slots.get(q), items)
        def cb(ex, A, g, w, cnt=cnt, items=items, idq=idq):
            k = opaque_id(A[0], items)
            cnt.set(cnt.get(0, g, (k,)) + 1, g, 0, (k,))
        ex.contracts['item_free'] = cb
        # different slots hold different items
        def cands(ex, L, cnt=cnt, idq=idq, q=q, M=M):
            return [('the item of slot q is given back when its turn comes (%s)' % nm, lambda st, done=done: implies(and_(done(st, q), ne(idq, 0)), le(1, cnt.at(st, 0, (idq,))))) for nm, done in progress(L, M.slots.reg, 8)] + [('counts', lambda st: le(0, cnt.at(st, 0, (idq,))))]
        ex.loop_cands.append(cands)
        _, g = ex.call_fn('tile_map_free', [M.s.p, num(items_too)], TRUE)
        w = 'tile_map_free'
        ex.oblige('free(%d): the items are given back if asked' % items_too, 'post', g, implies(ne(idq, 0), le(1, cnt.get(0, g, (idq,))) if items_too else eq(cnt.get(0, g, (idq,)), 0)), w)
        ex.oblige('free(%d): the map is freed' % items_too, 'post', g, and_(eq(g1.get(0, g), 1), eq(g2.get(0, g), 1)), w)
        out.append(ex)
    return out


class Tiles:
    """an array of TileIndex"""

    def __init__(s, ex, name, n=None):
        s.ex = ex
        s.reg = ex.new_region(name, None if n is None else 8 * n, s.prov(name)); s.reg.align = 8
        s.reg.havoc_base = lambda ex, nm: s.prov(nm)

    @staticmethod
    def prov(nm):
        def f(ex, key, off, ty):
            for d in (0, 4):
                k = multiple(off - d, 8)
                if k is not None: break
            else: return None
            lim = (-MAXS, MAXS)
            x, y = app(nm + '.x', [k], 'I', *lim), app(nm + '.y', [k], 'I', *lim)
            if ty == 'i64': return coerced(ex, x, y)
            if ty == 'i32': return x if d == 0 else y
        return f

    def get(s, k, g=TRUE): return s.ex.read(s.reg, (), 8 * tm.T_(k), 'i32', g), s.ex.read(s.reg, (), 8 * tm.T_(k) + 4, 'i32', g)
    def p(s): return ptr(s.reg)


def teq(a, b): return and_(eq(a[0], b[0]), eq(a[1], b[1]))


def task_remove_duplicates(mod):
    ex = Exec(mod); ex.cut_always = True
    n = var('length', 'I', 0, 1 << 28)
    A = Tiles(ex, 'tiles', n)
    e, a, b = var('e', 'I', 0, None), var('a', 'I', 0, None), var('b', 'I', 0, None)     # an entry before; two entries after
    ex.fact(and_(lt(e, n), lt(a, b)))
    old = lambda k: tuple(Tiles.prov('tiles')(ex, (), 8 * tm.T_(k) + d, 'i32') for d in (0, 4))
    v = old(e)
    found = []
    def cands(ex, L):
        if A.reg not in L['M']:
            # the inner loop: earlier kept entries differ from entry i
            encl = [x for x in L['enclosing'].values() if isinstance(x, T) and x.sort == 'I']
            out = []
            for j in ints(L):
                for i in encl:
                    out.append(('kept entries below %s differ from the current one' % j, Forall(lambda st, q, j=j, i=i: implies(and_(le(0, q), lt(q, st.vals[j])), not_(teq(A.get(q, st.guard), A.get(i, st.guard)))), a)))
                    # with a flag that tells whether the current entry was met
                    for f in ints(L):
                        if f == j: continue
                        out.append(('kept entries below %s differ from the current one unless %s' % (j, f), Forall(lambda st, q, j=j, i=i, f=f: implies(and_(eq(st.vals[f], 0), le(0, q), lt(q, st.vals[j])), not_(teq(A.get(q, st.guard), A.get(i, st.guard)))), a)))
                        out.append(('%s: the current one is entry %s - 1' % (f, j), lambda st, j=j, i=i, f=f: implies(ne(st.vals[f], 0), and_(le(1, st.vals[j]), teq(A.get(st.vals[j] - 1, st.guard), A.get(i, st.guard))))))
            return out
        out = []
        for i in ints(L):
            later = Forall(lambda st, q, i=i: implies(and_(le(st.vals[i], q), lt(q, n)), teq(A.get(q, st.guard), old(q))), e)
            out.append(('entries from %s on are as before' % i, later))
            for m in ints(L):
                if m == i: continue
                ext = Exists(lambda st, w, m=m: and_(le(0, w), lt(w, st.vals[m]), teq(A.get(w, st.guard), v)), hints=[e], before=True)
                def some(st, i=i, ext=ext):
                    return implies(lt(e, st.vals[i]), ext(st))
                some.ext = ext
                out.append(('entries below %s are among the kept %s' % (i, m), some))
                found.append(ext)
                out.append(('the kept %s differ' % m, lambda st, m=m: implies(lt(b, st.vals[m]), not_(teq(A.get(a, st.guard), A.get(b, st.guard))))))
                src = Exists(lambda st, w, i=i, m=m: and_(le(0, w), lt(w, st.vals[i]), teq(A.get(b, st.guard), old(w))), hints=[b])
                out.append(('the kept %s were among the entries below %s' % (m, i), lambda st, m=m, src=src: implies(lt(b, st.vals[m]), src(st))))
                sources.append(src)
                out.append(('%s <= %s' % (m, i), lambda st, m=m, i=i: and_(le(1, st.vals[m]), le(st.vals[m], st.vals[i]), le(st.vals[i], n))))
        return out
    sources = []
    ex.loop_cands.append(cands)
    r, g = ex.call_fn('remove_duplicate_tiles', [A.p(), n], TRUE)
    w = 'remove_duplicate_tiles'
    ex.oblige('the list does not grow', 'post', g, and_(le(0, r), le(r, n), implies(le(1, n), le(1, r))), w)
    ex.oblige('no tile is lost', 'post', g, or_(*[and_(le(0, x), lt(x, r), teq(A.get(x, g), v)) for f in found for x in f.all + [e]] or [FALSE]), w)
    ex.oblige('the remaining tiles differ', 'post', and_(g, lt(b, r)), not_(teq(A.get(a, g), A.get(b, g))), w)
    gb = and_(g, lt(b, r))
    ex.oblige('no tile is added', 'post', gb, or_(*[and_(le(0, x), lt(x, n), teq(A.get(b, gb), old(x))) for f in sources for x in f.all + [b]] or [FALSE]), w)
    return ex


class Queue:
    """an operation queue over maps (numbered), tile lists (numbered) and fifos (numbered, 0: none). The contents of the
    fifos are ghost state: fifo f holds elem(f, head(f)) .. elem(f, tail(f) - 1). Claims are about the arbitrary tile q."""

    def __init__(s, mod, track=(), empty=False):
        s.ex = ex = Exec(mod); s.mod = mod; ex.cut_always = True
        s.map = opaque(ex, 'TileMap'); s.list = opaque(ex, 'tile list'); s.fifo = opaque(ex, 'fifo'); s.op = opaque(ex, 'operation')
        s.track = list(track); s.watch = []      # tiles; positions of the list
        s.qs = Struct(ex, 'OperationQueue', 'queue')
        s.m0, s.d0 = (num(0), num(0)) if empty else (var('map', 'I', 1, None), var('list', 'I', 1, None))
        s.n0 = num(0) if empty else var('n', 'I', 0, 1 << 30)
        s.F = {f: mod.off('OperationQueue', f) for f in ('tile_map', 'dirty_tiles', 'dirty_tiles_n')}
        s.qs.set('tile_map', s.map(s.m0)); s.qs.set('dirty_tiles', s.list(s.d0)); s.qs.set('dirty_tiles_n', s.n0)
        s.OS = mod.off('TileMap', 'size')
        def hb(ex, nm):
            def f(ex, key, off, ty):
                if off.op != 'num' or ty != 'ptr': return None
                fam = {s.F['tile_map']: s.map, s.F['dirty_tiles']: s.list}.get(off.args)
                return fam(app(nm + '.id%d' % off.args, [], 'I', 0, None)) if fam else None
            return f
        s.qs.reg.havoc_base = hb
        s.map.reg.base = lambda ex, key, off, ty: app('size of map', [key[0]], 'I', 1, 2 * MAXS) if off.op == 'num' and off.args == s.OS else None
        s.map.reg.size = num(mod.sizeof('TileMap')); s.map.reg.align = 8; s.map.reg.const = True
        prov = lambda nm: (lambda ex, key, off, ty: s.fifo(app(nm, list(key), 'I', 0, None)) if ty == 'ptr' else None)
        s.slots = ex.new_region('slots', 8, prov('fifo in slot'), keys=3); s.slots.align = 8
        s.slots.havoc_base = lambda ex, nm: prov(nm)
        dprov = lambda nm: (lambda ex, key, off, ty: s.dcell(nm, key, off, ty))
        s.list.reg.base = dprov('dirty'); s.list.reg.havoc_base = lambda ex, nm: dprov(nm); s.list.reg.align = 8; s.dprov = dprov
        s.hd, s.tl, s.gone = Ghost(ex, 'head', 1), Ghost(ex, 'tail', 1), Ghost(ex, 'fifo freed', 1)
        s.hd.reg.base = lambda ex, key, off, ty: app('head', [key[0]], 'I', 0, 1 << 40)
        s.tl.reg.base = lambda ex, key, off, ty: app('tail', [key[0]], 'I', 0, 1 << 40)
        s.el = Ghost(ex, 'elem', 2); s.el.reg.base = lambda ex, key, off, ty: app('elem', list(key), 'I', 1, None)
        s.mapgone, s.listgone = Ghost(ex, 'map freed', 1), Ghost(ex, 'list freed', 1)
        s.map.reg.alive = lambda ex, k, g: eq(s.mapgone.get(0, g, k), 0)
        s.list.reg.alive = lambda ex, k, g: eq(s.listgone.get(0, g, k), 0)
        s.new_ids = []
        c = ex.contracts
        for n in ('tile_map_contains', 'tile_map_get', 'tile_map_new', 'tile_map_copy_to', 'tile_map_free', 'fifo_new', 'fifo_push', 'fifo_pop', 'fifo_peek_first', 'fifo_peek_last', 'fifo_free', 'free'):
            c[n] = getattr(s, 'c_' + n)

    def dcell(s, nm, key, off, ty):
        for d in (0, 4):
            k = multiple(off - d, 8)
            if k is not None: break
        else: return None
        x, y = app(nm + '.x', list(key) + [k], 'I', -MAXS, MAXS - 1), app(nm + '.y', list(key) + [k], 'I', -MAXS, MAXS - 1)
        return coerced(s.ex, x, y) if ty == 'i64' else x if d == 0 else y

    # ---- state
    def mid(s, g): return opaque_id(s.qs.get('tile_map', 'ptr', g), s.map)
    def did(s, g): return opaque_id(s.qs.get('dirty_tiles', 'ptr', g), s.list)
    def n(s, g): return s.qs.get('dirty_tiles_n', 'i32', g)
    def size(s, m, g): return s.ex.read(s.map.reg, (m,), num(s.OS), 'i32', g)
    def inside(s, m, t, g): z = s.size(m, g); return and_(le(-z, t[0]), lt(t[0], z), le(-z, t[1]), lt(t[1], z))
    def slot(s, m, t, g): return opaque_id(s.ex.read(s.slots, (m, t[0], t[1]), num(0), 'ptr', g), s.fifo)
    def dirty(s, d, k, g): return tuple(s.ex.read(s.list.reg, (d,), 8 * tm.T_(k) + o, 'i32', g) for o in (0, 4))
    def ops(s, f, g): return ite(eq(f, 0), num(0), s.tl.get(0, g, (f,)) - s.hd.get(0, g, (f,)))
    def pending(s, t, g):
        """the fifo of tile t (0: none)"""
        m = s.mid(g)
        return ite(s.inside(m, t, g), s.slot(m, t, g), num(0))
    def listed(s, t, g, ws):
        d, n = s.did(g), s.n(g)
        return or_(*[and_(le(0, w), lt(w, n), teq(s.dirty(d, w, g), t)) for w in ws])

    def assume(s):
        """the invariant: lengths are not negative, tiles have fifos of their own, tiles with operations are listed"""
        ex = s.ex
        z = s.size(s.m0, TRUE)
        ex.fact(le(s.n0, 4 * z * z)); ex.fact(le(z, MAXS)) 
        s.e = {}
        for i, t in enumerate(s.track):
            f = s.pending(t, TRUE)
            ex.fact(le(0, s.ops(f, TRUE)))
            ex.fact(implies(ne(f, 0), eq(s.gone.get(0, TRUE, (f,)), 0)))
            e = s.e[t] = var('listed%d' % i, 'I', 0, None)
            ex.fact(implies(lt(0, s.ops(f, TRUE)), s.listed(t, TRUE, [e])))
            s.watch.append(e)
            for u in s.track[:i]: ex.fact(implies(and_(not_(teq(t, u)), ne(f, 0)), ne(f, s.pending(u, TRUE))))
        a = s.a = var('a', 'I', 0, None); s.watch.append(a)
        ex.fact(implies(lt(a, s.n0), s.inside(s.m0, s.dirty(s.d0, a, TRUE), TRUE)))

    def fresh_id(s, what, olds, g):
        v = fresh(what, 'I', 1, None)
        for o in olds: s.ex.fact(lt(o, v))
        return v

    # ---- contracts, proved by the tasks fifo, tilemap, remove_duplicates, resize
    def c_tile_map_contains(s, ex, A, g, w):
        m = opaque_id(A[0], s.map); s.live_map(ex, A[0], g, w)
        return ite(s.inside(m, pair(ex, A[1], g), g), num(1), num(0))

    def live_map(s, ex, p, g, w):
        m = opaque_id(p, s.map)
        ex.oblige('%s: the map exists' % w, 'pre', g, and_(ne(m, 0), eq(s.mapgone.get(0, g, (m,)), 0)), w)

    def c_tile_map_get(s, ex, A, g, w):
        m = opaque_id(A[0], s.map); t = pair(ex, A[1], g); s.live_map(ex, A[0], g, w)
        ex.oblige('%s: the tile is in the map' % w, 'pre', g, s.inside(m, t, g), w)
        return Ptr([(TRUE, s.slots, (m, t[0], t[1]), num(0))])

    def c_tile_map_new(s, ex, A, g, w):
        ex.oblige('%s: the size of the map' % w, 'pre', g, and_(le(1, A[0]), le(A[0], 2 * MAXS)), w)
        ex.oblige('%s: the items are pointers, freed by free_fifo' % w, 'pre', g, and_(eq(A[1], 8), ptr_eq(A[2], ptr(func('free_fifo')))), w)
        m = s.fresh_id('new map', [s.m0], g)
        ex.fact(eq(s.size(m, g), A[0]), g)
        for t in s.track: ex.fact(implies(s.inside(m, t, g), eq(s.slot(m, t, g), 0)), g)
        return s.map(m, True)

    def c_tile_map_copy_to(s, ex, A, g, w):
        a, b = opaque_id(A[0], s.map), opaque_id(A[1], s.map)
        s.live_map(ex, A[0], g, w); s.live_map(ex, A[1], g, w)
        ex.oblige('%s: the other map is at least as large' % w, 'pre', g, le(s.size(a, g), s.size(b, g)), w)
        for t in s.track:
            f = s.slot(a, t, g)
            s.slots.log.append(('w', and_(g, s.inside(a, t, g)), (b, t[0], t[1]), num(0), 8, 'ptr', s.fifo(f)))

    def c_tile_map_free(s, ex, A, g, w):
        m = opaque_id(A[0], s.map); s.live_map(ex, A[0], g, w)
        for t in s.track:
            f = s.slot(m, t, g)
            s.gone.set(1, and_(g, ne(A[1], 0), s.inside(m, t, g), ne(f, 0)), 0, (f,))
        s.mapgone.set(1, g, 0, (m,))

    def c_free(s, ex, A, g, w):
        for c, r, k, o in A[0].alts:
            if r is None or excl(c, g): continue
            gg = and_(g, c)
            if r is s.list.reg:
                ex.oblige('%s: the list is freed once' % w, 'pre', gg, and_(eq(o, 0), eq(s.listgone.get(0, gg, k), 0)), w)
                s.listgone.set(1, gg, 0, k)
            elif r is s.qs.reg:
                ex.oblige('%s: the queue is freed once' % w, 'pre', gg, and_(eq(o, 0), eq(s.qgone.get(0, gg), 0)), w)
                s.qgone.set(1, gg)
            else: ex.oblige('%s: %s may be freed' % (w, r.name), 'pre', gg, FALSE, w)

    def c_fifo_new(s, ex, A, g, w):
        f = s.fresh_id('new fifo', [s.pending(t, g) for t in s.track], g)
        ex.fact(and_(eq(s.hd.get(0, g, (f,)), s.tl.get(0, g, (f,))), eq(s.gone.get(0, g, (f,)), 0)), g)
        return s.fifo(f, True)

    def live(s, ex, p, g, w):
        f = opaque_id(p, s.fifo)
        ex.oblige('%s: the fifo exists' % w, 'pre', g, and_(ne(f, 0), eq(s.gone.get(0, g, (f,)), 0)), w)
        return f

    def c_fifo_push(s, ex, A, g, w):
        f = s.live(ex, A[0], g, w); t = s.tl.get(0, g, (f,))
        ex.oblige('%s: an operation is pushed' % w, 'pre', g, not_(is_null(A[1])), w)
        s.el.set(opaque_id(A[1], s.op), g, 0, (f, t)); s.tl.set(t + 1, g, 0, (f,))

    def c_fifo_pop(s, ex, A, g, w):
        f = s.live(ex, A[0], g, w); h, t = s.hd.get(0, g, (f,)), s.tl.get(0, g, (f,))
        r = ite(lt(h, t), s.el.get(0, g, (f, h)), num(0))
        s.hd.set(ite(lt(h, t), h + 1, h), g, 0, (f,))
        return s.op(r)

    def peek(s, ex, A, g, w, last):
        f = s.live(ex, A[0], g, w); h, t = s.hd.get(0, g, (f,)), s.tl.get(0, g, (f,))
        return s.op(ite(lt(h, t), s.el.get(0, g, (f, t - 1 if last else h)), num(0)))
    def c_fifo_peek_first(s, ex, A, g, w): return s.peek(ex, A, g, w, False)
    def c_fifo_peek_last(s, ex, A, g, w): return s.peek(ex, A, g, w, True)

    def c_fifo_free(s, ex, A, g, w):
        f = s.live(ex, A[0], g, w)
        ex.oblige('%s: the operations are freed' % w, 'pre', g, ptr_eq(A[1], ptr(func('operation_delete_func'))), w)
        s.gone.set(1, g, 0, (f,))

    def c_remove_duplicate_tiles(s, ex, A, g, w):
        d = opaque_id(A[0], s.list); n = A[1]
        ex.oblige('%s: the list exists' % w, 'pre', g, and_(eq(s.listgone.get(0, g, (d,)), 0), *[eq(o, 0) for c, r, k, o in A[0].alts]), w)
        r = fresh('kept', 'I', 0, 1 << 30)
        ex.fact(and_(le(r, n), implies(le(1, n), le(1, r))), g)
        old = [(k, s.dirty(d, k, g)) for k in s.watch]
        tm._fresh[0] += 1
        nm = 'dirty!%d' % tm._fresh[0]
        a = s.a; src = fresh('source', 'I', 0, None)
        osrc = s.dirty(d, src, g)
        oin = s.inside(s.mid(g), osrc, g)
        ex.oblige('%s: the listed tiles are in the map' % w, 'pre', g, True and implies(lt(a, n), s.inside(s.mid(g), s.dirty(d, a, g), g)), w)
        s.list.reg.log.append(('h', g, s.dprov(nm), nm))
        for k, v in old:
            x = fresh('kept at', 'I', 0, None)
            ex.fact(implies(lt(k, n), and_(lt(x, r), teq(s.dirty(d, x, g), v))), g)
            s.kept.append(x)
        # every entry is one of the old ones, so it is in the map as they were
        ex.fact(implies(lt(a, r), s.inside(s.mid(g), s.dirty(d, a, g), g)), g)
        # counting: as many different tiles of the map as the map has
        z = s.size(s.mid(g), g)
        for t in s.track:
            x = fresh('full at', 'I', 0, None)
            ex.fact(implies(and_(eq(r, 4 * z * z), s.inside(s.mid(g), t, g)), and_(lt(x, r), teq(s.dirty(d, x, g), t))), g)
            s.kept.append(x)
        return r

    def c_operation_queue_resize(s, ex, A, g, w):
        z = s.size(s.mid(g), g); n = A[1]
        ex.oblige('%s: the map grows' % w, 'pre', g, and_(le(z, n), le(n, 2 * MAXS)), w)
        m, d = s.mid(g), s.did(g); s.live_map(ex, s.map(m), g, w)
        m2, d2 = s.fresh_id('new map', [s.m0, m], g), s.fresh_id('new list', [s.d0, d], g)
        ex.fact(eq(s.size(m2, g), n), g)
        ex.fact(and_(eq(s.mapgone.get(0, g, (m2,)), 0), eq(s.listgone.get(0, g, (d2,)), 0)), g)
        for t in s.track: ex.fact(implies(s.inside(m2, t, g), eq(s.slot(m2, t, g), ite(s.inside(m, t, g), s.slot(m, t, g), num(0)))), g)
        for k in s.watch: ex.fact(implies(lt(k, s.n(g)), teq(s.dirty(d2, k, g), s.dirty(d, k, g))), g)
        s.mapgone.set(1, g, 0, (m,)); s.listgone.set(1, g, 0, (d,))
        ex.store(s.qs.p.shift(num(s.F['tile_map'])), 'ptr', s.map(m2, True), g, w)
        ex.store(s.qs.p.shift(num(s.F['dirty_tiles'])), 'ptr', s.list(d2, True), g, w)
        return num(0)


def tiles_of(*names):
    return [(var(n + '.x', 'I', -MAXS + 1, MAXS - 1), var(n + '.y', 'I', -MAXS + 1, MAXS - 1)) for n in names]


def task_add(mod):
    t, q = tiles_of('t', 'q')
    s = Queue(mod, [t, q]); ex = s.ex
    s.assume(); s.kept = [s.a]
    z0 = s.size(s.m0, TRUE)
    f0 = {u: s.pending(u, TRUE) for u in (t, q)}
    n0 = {u: s.ops(f0[u], TRUE) for u in (t, q)}
    h0 = {u: (s.hd.get(0, TRUE, (f0[u],)), s.tl.get(0, TRUE, (f0[u],))) for u in (t, q)}
    j = var('j', 'I', 0, None)
    e0 = {u: s.el.get(0, TRUE, (f0[u], h0[u][0] + j)) for u in (t, q)}
    ex.contracts['operation_queue_resize'] = s.c_operation_queue_resize
    ex.contracts['remove_duplicate_tiles'] = s.c_remove_duplicate_tiles
    op = s.op(var('op', 'I', 1, None), True)
    def cands(ex, L):
        at = lambda st: (s.mid(st.guard), s.did(st.guard), st.guard)
        r = [('the map exists', lambda st: and_(ne(s.mid(st.guard), 0), eq(s.mapgone.get(0, st.guard, (s.mid(st.guard),)), 0))),
             ('the list exists', lambda st: and_(ne(s.did(st.guard), 0), eq(s.listgone.get(0, st.guard, (s.did(st.guard),)), 0))),
             ('a map that can still be doubled, or one that is large enough', lambda st: and_(le(z0, s.size(s.mid(st.guard), st.guard)), le(s.size(s.mid(st.guard), st.guard), 2 * MAXS))),
             ('the number of listed tiles', lambda st: eq(s.n(st.guard), s.n0))]
        for i, u in enumerate((t, q)): r.append(('the fifo of tile %d' % i, lambda st, u=u: eq(s.pending(u, st.guard), f0[u])))
        for i, k in enumerate(s.watch): r.append(('listed tile %d' % i, lambda st, k=k: implies(lt(k, s.n0), teq(s.dirty(s.did(st.guard), k, st.guard), s.dirty(s.d0, k, TRUE)))))
        return r
    ex.loop_cands.append(cands)
    _, g = ex.call_fn('operation_queue_add', [s.qs.p, coerced(ex, *t), op], TRUE)
    w = 'operation_queue_add'
    m = s.mid(g)
    ft = s.pending(t, g)
    ex.oblige('the tile is in the map and has a fifo', 'post', g, and_(s.inside(m, t, g), ne(ft, 0), eq(s.gone.get(0, g, (ft,)), 0)), w)
    ex.oblige('the tile has one more operation', 'post', g, eq(s.ops(ft, g), n0[t] + 1), w)
    hd, tl = s.hd.get(0, g, (ft,)), s.tl.get(0, g, (ft,))
    ex.oblige('the new operation is the last', 'post', g, eq(s.el.get(0, g, (ft, tl - 1)), var('op', 'I', 1, None)), w)
    ex.oblige('the earlier operations stay, in order', 'post', g, implies(lt(j, n0[t]), eq(s.el.get(0, g, (ft, hd + j)), e0[t])), w)
    other = and_(g, not_(teq(q, t)))
    fq = s.pending(q, g)
    ex.oblige('the fifo of every other tile stays', 'post', other, and_(eq(fq, f0[q]), eq(s.ops(fq, g), n0[q]), implies(ne(fq, 0), eq(s.gone.get(0, g, (fq,)), 0))), w)
    ex.oblige('the operations of every other tile stay', 'post', other, implies(lt(j, n0[q]), eq(s.el.get(0, g, (fq, s.hd.get(0, g, (fq,)) + j)), e0[q])), w)
    ex.oblige('different tiles keep different fifos', 'post', other, implies(ne(fq, 0), ne(fq, ft)), w)
    n = s.n(g)
    ws = s.kept + s.watch + [s.n0, n - 1]
    ex.oblige('the tile is listed', 'post', g, s.listed(t, g, ws), w)
    ex.oblige('every tile that has operations is listed', 'post', g, implies(lt(0, s.ops(fq, g)), s.listed(q, g, ws)), w)
    z = s.size(m, g)
    ex.oblige('the list fits', 'post', g, and_(le(0, n), le(n, 4 * z * z)), w)
    ex.oblige('listed tiles are in the map', 'post', g, implies(lt(s.a, n), s.inside(m, s.dirty(s.did(g), s.a, g), g)), w)
    ex.oblige('the map and the list exist', 'post', g, and_(ne(m, 0), eq(s.mapgone.get(0, g, (m,)), 0), ne(s.did(g), 0), eq(s.listgone.get(0, g, (s.did(g),)), 0)), w)
    return ex


def intact(s, u, f0, n0, h0, e0, j, g, w, name):
    """the operations of tile u are what they were"""
    f = s.pending(u, g)
    s.ex.oblige(name, 'post', g, and_(eq(f, f0), eq(s.ops(f, g), n0), implies(lt(j, n0), eq(s.el.get(0, g, (f, s.hd.get(0, g, (f,)) + j)), e0)), implies(ne(f, 0), eq(s.gone.get(0, g, (f,)), 0))), w)


def snapshot(s, u, j):
    f = s.pending(u, TRUE)
    return f, s.ops(f, TRUE), (s.hd.get(0, TRUE, (f,)), s.tl.get(0, TRUE, (f,))), s.el.get(0, TRUE, (f, s.hd.get(0, TRUE, (f,)) + j)), j


def task_pop(mod):
    out = []
    for name in ('pop', 'peek_first', 'peek_last'):
        w = 'operation_queue_' + name
        t, q = tiles_of('t', 'q')
        s = Queue(mod, [t, q]); ex = s.ex
        s.assume(); j = var('j', 'I', 0, None)
        T0, Q0 = snapshot(s, t, j), snapshot(s, q, j)
        f, n0, (h, tl), e, _ = T0
        ex.fact(implies(ne(f, 0), le(h, tl)))
        s.qs.reg.const = True
        pick = {'pop': h, 'peek_first': h, 'peek_last': tl - 1}[name]
        want = ite(lt(0, n0), s.el.get(0, TRUE, (f, pick)), num(0))
        r, g = ex.call_fn(w, [s.qs.p, coerced(ex, *t)], TRUE)
        ex.oblige('%s: the operation whose turn it is, NULL if there is none' % name, 'post', g, eq(opaque_id(r, s.op), want), w)
        intact(s, q, *Q0, and_(g, not_(teq(q, t))), w, '%s: the operations of every other tile stay' % name)
        f2 = s.pending(t, g)
        if name == 'pop':
            ex.oblige('pop: the tile has one operation less', 'post', g, eq(s.ops(f2, g), ite(lt(0, n0), n0 - 1, num(0))), w)
            ex.oblige('pop: the later operations stay, in order', 'post', g, implies(and_(le(1, j), lt(j, n0)), eq(s.el.get(0, g, (f2, s.hd.get(0, g, (f2,)) + j - 1)), e)), w)
            ex.oblige('pop: the fifo that is left exists; an empty one is released', 'post', g, ite(ne(f2, 0), and_(eq(f2, f), eq(s.gone.get(0, g, (f2,)), 0)), implies(ne(f, 0), eq(s.gone.get(0, g, (f,)), 1))), w)
        else: intact(s, t, *T0, g, w, '%s: nothing changes' % name)
        out.append(ex)
    return out


def task_resize(mod):
    out = []
    w = 'operation_queue_resize'
    # to a positive size
    q, = tiles_of('q')
    s = Queue(mod, [q]); ex = s.ex
    s.assume()
    z = s.size(s.m0, TRUE); n = var('new_size', 'I', 1, 2 * MAXS); ex.fact(le(z, n))
    f0 = s.pending(q, TRUE)
    k = var('k', 'I', 0, None); ex.fact(lt(k, s.n0))
    v = s.dirty(s.d0, k, TRUE)
    ex.fact(le(4 * z * z, 4 * n * n))
    fresh_lists = []
    def alloc(r):
        def prov(nm): return lambda ex, key, off, ty: s.dcell(nm, key, off, ty)
        r.base = prov(r.name); r.havoc_base = lambda ex, nm: prov(nm); fresh_lists.append(r)
    ex.on_alloc = alloc
    rd = lambda r, g: tuple(ex.read(r, (), 8 * k + o, 'i32', g) for o in (0, 4))
    ex.loop_cands.append(lambda ex, L: [('entries %s are copied' % nm, lambda st, r=r, done=done: implies(done(st, k), teq(rd(r, st.guard), v))) for r in L['M'] if r in fresh_lists for nm, done in progress(L, r, 8)])
    ret, g = ex.call_fn(w, [s.qs.p, n], TRUE)
    m = s.mid(g)
    ex.oblige('resize: a new map of the new size', 'post', g, and_(lt(s.m0, m), eq(s.size(m, g), n), eq(s.mapgone.get(0, g, (m,)), 0)), w)
    ex.oblige('resize: the old map and list are released, not the fifos', 'post', g, and_(eq(s.mapgone.get(0, g, (s.m0,)), 1), eq(s.listgone.get(0, g, (s.d0,)), 1), implies(ne(f0, 0), eq(s.gone.get(0, g, (f0,)), 0))), w)
    ex.oblige('resize: every tile keeps its fifo, new tiles have none', 'post', g, implies(s.inside(m, q, g), eq(s.slot(m, q, g), f0)), w)
    d = s.qs.get('dirty_tiles', 'ptr', g)
    al = [(c, r, o) for c, r, kk, o in d.alts if not excl(c, g)]
    for c, r, o in al:
        ex.oblige('resize: the new list has room for every tile of the map', 'post', and_(g, c), and_(eq(o, 0), eq(r.size, 32 * n * n)) if r is not None and r.size is not None else FALSE, w)
        if r is not None: ex.oblige('resize: the listed tiles are copied', 'post', and_(g, c), teq(rd(r, g), v), w)
    ex.oblige('resize: as many listed tiles', 'post', g, eq(s.n(g), s.n0), w)
    out.append(ex)
    # to zero
    q, = tiles_of('q')
    s = Queue(mod, [q]); ex = s.ex; s.assume()
    f0 = s.pending(q, TRUE)
    _, g = ex.call_fn(w, [s.qs.p, num(0)], TRUE)
    ex.oblige('resize to 0: the map, the list and the fifos are released', 'post', g, and_(eq(s.mapgone.get(0, g, (s.m0,)), 1), eq(s.listgone.get(0, g, (s.d0,)), 1), implies(ne(f0, 0), eq(s.gone.get(0, g, (f0,)), 1))), w)
    ex.oblige('resize to 0: the queue is empty', 'post', g, and_(is_null(s.qs.get('tile_map', 'ptr', g)), is_null(s.qs.get('dirty_tiles', 'ptr', g)), eq(s.n(g), 0)), w)
    out.append(ex)
    # free
    w = 'operation_queue_free'
    q, = tiles_of('q')
    s = Queue(mod, [q]); ex = s.ex; s.assume(); s.qgone = Ghost(ex, 'queue freed')
    f0 = s.pending(q, TRUE)
    _, g = ex.call_fn(w, [s.qs.p], TRUE)
    ex.oblige('free: the queue, the map, the list and the fifos are released', 'post', g, and_(eq(s.qgone.get(0, g), 1), eq(s.mapgone.get(0, g, (s.m0,)), 1), eq(s.listgone.get(0, g, (s.d0,)), 1), implies(ne(f0, 0), eq(s.gone.get(0, g, (f0,)), 1))), w)
    out.append(ex)
    # an item of a map
    s = Queue(mod, []); ex = s.ex
    f = var('fifo', 'I', 0, None); ex.fact(implies(ne(f, 0), eq(s.gone.get(0, TRUE, (f,)), 0)))
    _, g = ex.call_fn('free_fifo', [s.fifo(f)], TRUE)
    ex.oblige('free_fifo: a fifo is released', 'post', g, implies(ne(f, 0), eq(s.gone.get(0, g, (f,)), 1)), 'free_fifo')
    out.append(ex)
    # new
    q, = tiles_of('q')
    s = Queue(mod, [q], True); ex = s.ex
    p, g = ex.call_fn('operation_queue_new', [], TRUE)
    w = 'operation_queue_new'
    L = lambda f, ty: ex.load(p.shift(num(s.F[f])), ty, g, w)
    m = opaque_id(L('tile_map', 'ptr'), s.map)
    ex.oblige('new: a map without fifos', 'post', g, and_(lt(0, m), implies(s.inside(m, q, g), eq(s.slot(m, q, g), 0))), w)
    ex.oblige('new: nothing is listed', 'post', g, eq(L('dirty_tiles_n', 'i32'), 0), w)
    z = s.size(m, g)
    for c, r, kk, o in L('dirty_tiles', 'ptr').alts: ex.oblige('new: the list has room for every tile of the map', 'post', and_(g, c), and_(eq(o, 0), eq(r.size, 32 * z * z)) if r is not None else FALSE, w)
    out.append(ex)
    # dirty tiles
    q, = tiles_of('q')
    s = Queue(mod, [q]); ex = s.ex; s.assume(); s.kept = [s.a]
    ex.contracts['remove_duplicate_tiles'] = s.c_remove_duplicate_tiles
    o = ex.new_region('tiles_out', 8, None); o.align = 8
    Q0 = snapshot(s, q, num(0))
    r, g = ex.call_fn('operation_queue_get_dirty_tiles', [s.qs.p, ptr(o)], TRUE)
    w = 'operation_queue_get_dirty_tiles'
    ex.oblige('dirty tiles: the list is handed out', 'post', g, and_(ptr_eq(ex.read(o, (), num(0), 'ptr', g), s.list(s.d0)), eq(r, s.n(g))), w)
    ex.oblige('dirty tiles: every tile that has operations is in it', 'post', g, implies(lt(0, Q0[1]), s.listed(q, g, s.kept + s.watch)), w)
    intact(s, q, *Q0, g, w, 'dirty tiles: the operations stay')
    _, g = ex.call_fn('operation_queue_clear_dirty_tiles', [s.qs.p], g)
    ex.oblige('clear: nothing is listed', 'post', g, eq(s.n(g), 0), 'operation_queue_clear_dirty_tiles')
    out.append(ex)
    return out
