"""Brush files: mypaint_brush_from_string and what it calls.
json-c is external: its accessors are contracts over an arbitrary immutable document. A document is a set of numbered values
(0 is null) with a type, a number, elements (arrays) and entries with distinct keys (objects)."""
from specs.lib import *
from specs.brush import Brush
from specs.settings import Maps, Strings, FMAX

OBJECT, ARRAY = 4, 5
T_ = tm.T_


class Doc:
    def __init__(s, ex, S, jfam):
        s.ex = ex; s.S = S; s.j = jfam
        s.table = ex.new_region('table', None, None, keys=1)
        s.entry = ex.new_region('entry', None, None, keys=2)
        C = ex.contracts
        ID = lambda p: opaque_id(p, jfam)
        s.ID = ID
        ex.assumed.add('json-c: documents are finite trees that do not change while they are read; keys of an object are distinct; numbers are within the range of float')
        s.keys = {}      # (object, entry) pairs that were looked at
        C['json_object_is_type'] = lambda ex, A, g, w: ite(eq(s.type(ID(A[0])), A[1]), num(1), num(0))
        C['json_object_get_type'] = lambda ex, A, g, w: s.type(ID(A[0]))
        C['json_object_get_double'] = lambda ex, A, g, w: s.dbl(ID(A[0]))
        C['json_object_get_int'] = lambda ex, A, g, w: s.int(ID(A[0]))
        def arr(f):
            def r(ex, A, g, w):
                a = ID(A[0])
                ex.oblige('%s: an array is read as an array' % w, 'pre', g, eq(s.type(a), ARRAY), w)
                return f(a, A, g)
            return r
        C['json_object_array_length'] = arr(lambda a, A, g: s.len(a))
        def elem(a, A, g):
            i = ex.u(A[1], 64, g)
            return jfam(ite(and_(le(0, i), lt(i, s.len(a))), s.elem(a, i), num(0)))
        C['json_object_array_get_idx'] = arr(elem)
        def get_ex(ex, A, g, w):
            o, k = ID(A[0]), S.id(A[1])
            h = and_(eq(s.type(o), OBJECT), ne(s.has(o, k), 0))
            ex.store(A[2], 'ptr', jfam(ite(h, s.member(o, k), num(0))), and_(g, not_(is_null(A[2]))), w)
            return ite(h, num(1), num(0))
        C['json_object_object_get_ex'] = get_ex
        C['json_object_object_get'] = lambda ex, A, g, w: jfam(ite(and_(eq(s.type(ID(A[0])), OBJECT), ne(s.has(ID(A[0]), S.id(A[1])), 0)), s.member(ID(A[0]), S.id(A[1])), num(0)))
        def table(ex, A, g, w):
            o = ID(A[0])
            ex.oblige('%s: an object is read as an object' % w, 'pre', g, eq(s.type(o), OBJECT), w)
            return Ptr([(TRUE, s.table, (o,), num(0))])
        C['json_object_get_object'] = table
        def tkey(p): return [(c, k[0]) for c, r, k, o in p.alts if r is s.table]
        C['lh_table_head'] = lambda ex, A, g, w: s.at(tkey(A[0])[0][1], num(0))
        def ent(f):
            def r(ex, A, g, w):
                ex.oblige('%s: there is an entry' % w, 'pre', g, not_(is_null(A[0])), w)
                al = [(c, k) for c, rr, k, o in A[0].alts if rr is s.entry]
                o, j = al[0][1]
                for c, k in al[1:]: o, j = ite(c, k[0], o), ite(c, k[1], j)
                s.look(o, j)
                return f(o, j)
            return r
        C['lh_entry_k'] = ent(lambda o, j: S.others(s.key(o, j), True))
        C['lh_entry_v'] = ent(lambda o, j: jfam(s.val(o, j)))
        C['lh_entry_next'] = ent(lambda o, j: s.at(o, j + 1))
        for n, k in (('setting', 'NS'), ('input', 'NI')):
            C['mypaint_brush_%s_from_cname' % n] = lambda ex, A, g, w, n=n: s.named(n, S.id(A[0]))

    def at(s, o, j): return Ptr([(lt(j, s.n(o)), s.entry, (o, j), num(0)), (not_(lt(j, s.n(o))), None, (), num(0))])
    def type(s, v): return app('type', [T_(v)], 'I', 0, 6) if not (T_(v).op == 'num' and T_(v).args == 0) else num(0)
    def dbl(s, v): return app('number', [T_(v)], 'R', -FMAX, FMAX)
    def int(s, v): return app('integer', [T_(v)], 'I', -(1 << 31), (1 << 31) - 1)
    def len(s, a): return app('length', [T_(a)], 'I', 0, 1 << 31)
    def elem(s, a, i): return app('elem', [T_(a), T_(i)], 'I', 0, None)
    def n(s, o): return app('entries', [T_(o)], 'I', 0, 1 << 31)
    def key(s, o, j): return app('key', [T_(o), T_(j)], 'I', 1, None)
    def val(s, o, j): return app('val', [T_(o), T_(j)], 'I', 0, None)
    def has(s, o, k): return app('has', [T_(o), T_(k)], 'I', 0, 1)
    def member(s, o, k): return app('member', [T_(o), T_(k)], 'I', 0, None)
    def named(s, kind, k): return app(kind + '_named', [T_(k)], 'I', -1, (s.NS if kind == 'setting' else s.NI) - 1)

    def look(s, o, j): pass
    def get(s, o, name):
        k = num(s.S.num(name))
        return ite(and_(eq(s.type(o), OBJECT), ne(s.has(o, k), 0)), s.member(o, k), num(0))

    # ---- curves
    def X(s, a, i): return s.dbl(s.sub(a, i, 0))
    def Y(s, a, i): return s.dbl(s.sub(a, i, 1))
    def sub(s, a, i, k):
        e = s.elem(a, i)
        return ite(lt(k, s.len(e)), s.elem(e, num(k)), num(0))
    def point_ok(s, a, i): return and_(eq(s.type(s.elem(a, i)), ARRAY), or_(eq(i, 0), le(s.X(a, i - 1), s.X(a, i))))
    def prefix(s, a, i):
        """points below i are well-formed (defined by its instances)"""
        v = app('points_ok', [T_(a), T_(i)], 'I', 0, 1)
        return ne(v, 0)
    def inst(s, a, i):
        """instances of the definition at i"""
        f = s.ex.fact; i = T_(i)
        f(s.prefix(a, num(0)))
        f(implies(le(0, i), eq(s.prefix(a, i + 1), and_(s.prefix(a, i), s.point_ok(a, i)))))
        f(implies(and_(s.prefix(a, s.len(a)), le(0, i), lt(i, s.len(a))), s.point_ok(a, i)))
        f(implies(and_(s.prefix(a, s.len(a)), le(0, i), le(i, s.len(a))), s.prefix(a, i)))
    def curve_ok(s, a): return and_(eq(s.type(a), ARRAY), ne(s.len(a), 1), le(s.len(a), 64), s.prefix(a, s.len(a)))


def positions(D, L, o=None):
    """the loop's pointers to entries"""
    return [n for n, v in L['init'].items() if isinstance(v, Ptr) and any(r is D.entry for r in L['shapes'][n])]
def pos(D, p, o):
    r = D.n(o)
    for c, rr, k, off in p.alts:
        if rr is D.entry: r = ite(c, k[1], r)
    return r
def of(D, p, o): return and_(*[or_(not_(c), and_(eq(k[0], o), le(0, k[1]), lt(k[1], D.n(o)), eq(off, 0))) for c, rr, k, off in p.alts if rr is D.entry])


def setup(mod):
    s = Brush(mod); ex = s.ex; ex.cut_always = True
    S = Strings(ex, mod); M = Maps(ex, s.maps, s.NI)
    D = Doc(ex, S, s.js); D.NS, D.NI = s.NS, s.NI
    return s, ex, S, M, D


def task_curve(mod):
    """mapping_points_are_valid decides whether an array is a curve"""
    s, ex, S, M, D = setup(mod)
    a = var('array', 'I', 1, None); ex.fact(eq(D.type(a), ARRAY))
    def cands(ex, L):
        out = []
        for i in ints(L):
            def pre(st, i=i):
                k = st.vals[i]; D.inst(a, k); D.inst(a, k - 1)
                return and_(le(0, k), D.prefix(a, k))
            out.append(('points below %s are well-formed' % i, pre))
            out.append(('%s is at most their number' % i, lambda st, i=i: le(st.vals[i], D.len(a))))
            for r in reals(L):
                first = L['init'][r]
                out.append(('%s is the abscissa of the last point' % r, lambda st, i=i, r=r: ite(eq(st.vals[i], 0), le(st.vals[r], -FMAX), eq(st.vals[r], D.X(a, st.vals[i] - 1)))))
        return out
    ex.loop_cands.append(cands)
    w = 'mapping_points_are_valid'
    r, g = ex.call_fn(w, [s.js(a, True)], TRUE)
    ex.oblige('a curve is accepted exactly if it has 0 or 2 to 64 points from left to right', 'post', g, eq(ne(r, 0), D.curve_ok(a)), w)
    return ex


def task_setting(mod):
    """one setting of a file: base value and curves are set exactly as given if it is well-formed; no other setting changes"""
    s, ex, S, M, D = setup(mod)
    name, o = var('name', 'I', 1, None), var('setting object', 'I', 0, None)
    sid = D.named('setting', name); m = sid + 1
    base, inputs = D.get(o, 'base_value'), D.get(o, 'inputs')
    q, k = var('input', 'I', 0, s.NI - 1), var('index', 'I', 0, 63)
    oq = var('other mapping', 'I', 1, s.NS); ex.fact(ne(oq, m))
    def valid(ex, A, g, w):
        a = D.ID(A[0]); ex.oblige('%s: an array is read as an array' % w, 'pre', g, eq(D.type(a), ARRAY), w)
        return ite(D.curve_ok(a), num(1), num(0))
    ex.contracts['mapping_points_are_valid'] = valid
    J = app('entry_of_input', [inputs, q], 'I', None, None)      # the entry that names input q, if there is one
    def entry_ok(j): return and_(eq(D.type(D.val(inputs, j)), ARRAY), le(0, D.named('input', D.key(inputs, j))), D.curve_ok(D.val(inputs, j)))
    def prefix(j): return ne(app('entries_ok', [inputs, T_(j)], 'I', 0, 1), 0)
    def look(o_, j):
        """instances of definitions, for entry j of the inputs"""
        f = ex.fact; j = T_(j)
        f(prefix(num(0)))
        f(implies(le(0, j), eq(prefix(j + 1), and_(prefix(j), entry_ok(j)))))
        f(implies(and_(le(0, j), le(j, D.n(inputs)), not_(prefix(j))), not_(prefix(D.n(inputs)))))
        f(implies(and_(le(0, j), lt(j, D.n(inputs))), eq(eq(D.named('input', D.key(inputs, j)), q), eq(J, j))))
        f(implies(and_(le(0, J), lt(J, D.n(inputs))), eq(D.named('input', D.key(inputs, J)), q)))
    D.look = look
    n0, x0, y0, b0 = M.n(m, q), M.x(m, q, k), M.y(m, q, k), M.b(m)
    old = M.n(oq, q), M.x(oq, q, k), M.y(oq, q, k), M.b(oq)
    v = D.val(inputs, J)
    def applied(g, j):
        """input q after the entries below j"""
        there = and_(le(0, J), lt(J, j))
        return and_(eq(M.n(m, q, g), ite(there, D.len(v), n0)), ite(and_(there, lt(k, D.len(v))), and_(eq(M.x(m, q, k, g), D.X(v, k)), eq(M.y(m, q, k, g), D.Y(v, k))), and_(eq(M.x(m, q, k, g), x0), eq(M.y(m, q, k, g), y0))))
    def frame(g): return and_(*[eq(a, b) for a, b in zip((M.n(oq, q, g), M.x(oq, q, k, g), M.y(oq, q, k, g), M.b(oq, g)), old)])
    def cands(ex, L):
        out = []
        for p in positions(D, L):
            def at(st, p=p):
                look(inputs, pos(D, st.vals[p], inputs)); look(inputs, pos(D, st.vals[p], inputs) - 1)
                return of(D, st.vals[p], inputs)
            out.append(('%s is an entry of the inputs' % p, at))
            out.append(('entries before %s are well-formed' % p, lambda st, p=p: prefix(pos(D, st.vals[p], inputs))))
            out.append(('entries before %s are applied' % p, lambda st, p=p: applied(st.guard, pos(D, st.vals[p], inputs))))
        if positions(D, L):
            out.append(('the base value is set', lambda st: eq(M.b(m, st.guard), D.dbl(base))))
        # the loop over the points of a curve: of the entry the enclosing loop is at
        for e in [x for x in L['enclosing'].values() if isinstance(x, Ptr) and any(r is D.entry for c, r, kk, oo in x.alts)]:
            j = pos(D, e, inputs); a = D.val(inputs, j); inp = D.named('input', D.key(inputs, j))
            for i in ints(L):
                def here(st, i=i):
                    z = st.vals[i]; D.inst(a, z); D.inst(a, z - 1)
                    return and_(le(0, z), le(z, D.len(a)))
                out.append(('%s is a point of entry %s' % (i, j), here))
                def pts(st, i=i):
                    z = st.vals[i]
                    mine = and_(eq(inp, q))
                    return ite(mine, and_(eq(M.n(m, q, st.guard), D.len(a)), implies(lt(k, z), and_(eq(M.x(m, q, k, st.guard), D.X(a, k)), eq(M.y(m, q, k, st.guard), D.Y(a, k)))),
                                          implies(le(z, k), and_(eq(M.x(m, q, k, st.guard), x0), eq(M.y(m, q, k, st.guard), y0)))), applied(st.guard, j))
                out.append(('points below %s are applied' % i, pts))
                # the precondition of mypaint_mapping_set_point
                def last(st, i=i):
                    z = st.vals[i]
                    return and_(eq(M.n(m, inp, st.guard), D.len(a)), implies(lt(0, z), eq(M.x(m, inp, z - 1, st.guard), D.X(a, z - 1))))
                out.append(('the point before %s is set' % i, last))
            out.append(('the base value is set', lambda st: eq(M.b(m, st.guard), D.dbl(base))))
        if any(r in L['M'] for r in (M.rn, M.rx, M.ry, M.rb)): out.append(('no other setting changes', lambda st: frame(st.guard)))
        return out
    ex.loop_cands.append(cands)
    w = 'update_brush_setting_from_json_object'
    r, g = ex.call_fn(w, [s.p, S.others(name, True), s.js(o)], TRUE)
    ok = and_(le(0, sid), eq(D.type(o), OBJECT), ne(base, 0), ne(inputs, 0), eq(D.type(inputs), OBJECT), prefix(D.n(inputs)))
    ex.oblige('success exactly for a known setting with a base value and well-formed inputs', 'post', g, eq(ne(r, 0), ok), w)
    ex.oblige('the base value is that of the file', 'post', g, implies(ok, eq(M.b(m, g), D.dbl(base))), w)
    ex.oblige('every curve is that of the file, inputs not in the file keep theirs', 'post', g, implies(ok, applied(g, D.n(inputs))), w)
    ex.oblige('an unknown name, or an entry without a base value, changes nothing', 'post', g, implies(or_(lt(sid, 0), ne(D.type(o), OBJECT), eq(base, 0)), and_(eq(M.n(m, q, g), n0), eq(M.x(m, q, k, g), x0), eq(M.y(m, q, k, g), y0), eq(M.b(m, g), b0))), w)
    ex.oblige('no other setting changes', 'post', g, frame(g), w)
    return ex


def task_file(mod):
    """the whole document: every entry of the settings is applied, in a document of version 3 only"""
    s, ex, S, M, D = setup(mod)
    doc = s.jid
    ver, settings = D.get(doc, 'version'), D.get(doc, 'settings')
    J = var('entry', 'I', 0, None)
    ok = lambda j: ne(app('setting_ok', [D.key(settings, j), D.val(settings, j)], 'I', 0, 1), 0)
    def anyok(j): return ne(app('some_ok', [settings, T_(j)], 'I', 0, 1), 0)
    def look(o_, j):
        j = T_(j); ex.fact(not_(anyok(num(0)))); ex.fact(implies(le(0, j), eq(anyok(j + 1), or_(anyok(j), ok(j)))))
    D.look = look
    done = Ghost(ex, 'applied')
    cur = Ghost(ex, 'next')
    def update(ex, A, g, w):
        ex.oblige('%s: this brush is updated' % w, 'pre', g, ptr_eq(A[0], s.p), w)
        j = cur.get(0, g); look(settings, j)
        ex.oblige('%s: the entries are applied in turn, with their own names and values' % w, 'pre', g, and_(le(0, j), lt(j, D.n(settings)), eq(S.id(A[1]), D.key(settings, j)), eq(D.ID(A[2]), D.val(settings, j))), w)
        done.set(ite(eq(j, J), done.get(0, g) + 1, done.get(0, g)), g)
        cur.set(j + 1, g)
        r = app('setting_updated', [D.key(settings, j), D.val(settings, j)], 'I', 0, 1)
        ex.fact(eq(ne(r, 0), ok(j)))
        return r
    ex.contracts['update_brush_setting_from_json_object'] = update
    def cands(ex, L):
        out = []
        for p in positions(D, L):
            def at(st, p=p):
                look(settings, pos(D, st.vals[p], settings)); look(settings, pos(D, st.vals[p], settings) - 1)
                return of(D, st.vals[p], settings)
            out.append(('%s is an entry of the settings' % p, at))
            out.append(('entries before %s are applied' % p, lambda st, p=p: and_(eq(cur.at(st), pos(D, st.vals[p], settings)), eq(done.at(st), ite(lt(J, cur.at(st)), num(1), num(0))))))
            for i in ints(L): out.append(('%s tells whether some entry was applied' % i, lambda st, i=i, p=p: eq(ne(st.vals[i], 0), anyok(pos(D, st.vals[p], settings)))))
        return out
    ex.loop_cands.append(cands)
    w = 'update_brush_from_json_object'
    r, g = ex.call_fn(w, [s.p], TRUE)
    good = and_(ne(ver, 0), eq(D.int(ver), 3), ne(settings, 0), eq(D.type(settings), OBJECT))
    ex.oblige('success exactly if some setting of a version 3 description was applied', 'post', g, eq(ne(r, 0), and_(good, anyok(D.n(settings)))), w)
    ex.oblige('every setting of the file is applied once', 'post', and_(g, lt(J, D.n(settings))), implies(good, eq(done.get(0, g), 1)), w)
    ex.oblige('nothing else is ever applied', 'post', g, implies(not_(good), eq(cur.get(0, g), 0)), w)
    return ex


def task_string(mod):
    """the text: what cannot be parsed changes nothing but the remembered document"""
    s, ex, S, M, D = setup(mod)
    parsed = var('parsed document', 'I', 0, None); newobj = var('new object', 'I', 1, None)
    text = var('has text', 'B'); t = var('text', 'I', 1, None)
    ex.fact(ne(newobj, s.jid)); ex.fact(ne(parsed, newobj)); ex.fact(or_(eq(parsed, 0), ne(parsed, s.jid)))
    ups, delta = Ghost(ex, 'applied'), Ghost(ex, 'references', 1)
    refs = lambda i, g: delta.get(0, g, (i,)) + ite(and_(eq(i, s.jid), ne(i, 0)), num(1), num(0))
    res = var('result', 'I', 0, 1)
    def add(i, n, g): delta.set(delta.get(0, g, (i,)) + ite(eq(i, 0), num(0), num(n)), g, 0, (i,))
    def put(ex, A, g, w):
        i = D.ID(A[0])
        ex.oblige('%s: a document that is referenced is released' % w, 'pre', g, or_(eq(i, 0), le(1, refs(i, g))), w)
        add(i, -1, g); return num(1)
    ex.contracts['json_object_put'] = put
    def get(ex, A, g, w):
        add(D.ID(A[0]), 1, g); return A[0]
    ex.contracts['json_object_get'] = get
    def parse(ex, A, g, w):
        ex.oblige('%s: there is a text to parse' % w, 'pre', g, not_(is_null(A[0])), w)
        ex.oblige('%s: the given text is parsed' % w, 'pre', g, eq(S.id(A[0]), t), w)
        add(parsed, 1, g); return s.js(parsed)
    ex.contracts['json_tokener_parse'] = parse
    def new(ex, A, g, w):
        add(newobj, 1, g); return s.js(newobj)
    ex.contracts['json_object_new_object'] = new
    cur = lambda g: s.ID(ex.read(s.reg, (), num(s.o['brush_json']), 'ptr', g))
    s.ID = D.ID
    def upd(ex, A, g, w):
        ex.oblige('%s: this brush, with the new document' % w, 'pre', g, and_(ptr_eq(A[0], s.p), eq(cur(g), parsed), ne(parsed, 0), le(1, refs(parsed, g))), w)
        ups.set(ups.get(0, g) + 1, g); return res
    ex.contracts['update_brush_from_json_object'] = upd
    q, k, m = var('input', 'I', 0, s.NI - 1), var('index', 'I', 0, 63), var('mapping', 'I', 1, s.NS)
    old = M.n(m, q), M.x(m, q, k), M.y(m, q, k), M.b(m)
    w = 'mypaint_brush_from_string'
    st = Ptr([(text, S.others.reg, (t,), num(0)), (not_(text), None, (), num(0))])
    r, g = ex.call_fn(w, [s.p, st], TRUE)
    ok = and_(text, ne(parsed, 0))
    ex.oblige('the old document is released', 'post', g, eq(refs(s.jid, g), 0), w)
    for i, n in ((parsed, 'parsed'), (newobj, 'empty')): ex.oblige('the %s document is referenced exactly if it is remembered' % n, 'post', g, implies(ne(i, 0), eq(refs(i, g), ite(eq(cur(g), i), num(1), num(0)))), w)
    ex.oblige('the brush remembers the new document, or an empty one', 'post', g, eq(cur(g), ite(ok, parsed, newobj)), w)
    ex.oblige('what can be parsed is applied once, and its success is reported', 'post', g, and_(eq(ups.get(0, g), ite(ok, num(1), num(0))), eq(ne(r, 0), and_(ok, ne(res, 0)))), w)
    ex.oblige('the settings change by applying the document only', 'post', g, and_(*[eq(a, b) for a, b in zip((M.n(m, q, g), M.x(m, q, k, g), M.y(m, q, k, g), M.b(m, g)), old)]), w)
    return ex
