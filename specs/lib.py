"""Helpers shared by the specifications."""
from dv.engine import *
from dv import term as tm


def multiple(off, n):
    """off / n when off is structurally a multiple of n, else None"""
    p = tm.poly(off)
    if all(isinstance(c, int) and c % n == 0 for c in p.values()):
        return idiv(off, num(n)) if p else num(0)
    return None


def field_index(off, base, size):
    """the array index i when off is structurally base + i*size"""
    return multiple(off - base, size)


class Struct:
    """a region holding one C struct; cells: field name -> value (T or Ptr); the rest is arbitrary"""

    def __init__(s, ex, ctype, name=None, cells=None, const=False):
        s.ex = ex; s.ctype = ctype
        s.size = ex.mod.sizeof(ctype)
        s.cells = {}
        s.reg = ex.new_region(name or ctype, s.size, s.base, const=const)
        for k, v in (cells or {}).items(): s.set(k, v)

    def off(s, f):
        o = 0
        t = s.ctype
        return s.ex.mod.off(t, f)

    def set(s, f, v, ty=None): s.cells[s.off(f)] = v

    def base(s, ex, key, off, ty):
        if off.op != 'num': return None
        v = s.cells.get(off.args)
        return v

    def get(s, f, ty, g=TRUE): return s.ex.read(s.reg, (), num(s.off(f)), ty, g)

    @property
    def p(s): return ptr(s.reg)


class Ghost:
    """ghost state: integer or real cells, written by contracts"""

    def __init__(s, ex, name, keys=0):
        s.ex = ex; s.reg = ex.new_region('ghost_' + name, None, lambda ex, key, off, ty: num(0, 'R' if ty[0] == 'f' else 'I'), keys=keys)

    def get(s, i=0, g=TRUE, key=(), ty='i32'): return s.ex.read(s.reg, tuple(key), 8 * tm.T_(i), ty, g)
    def set(s, v, g=TRUE, i=0, key=(), ty='i32'): s.reg.log.append(('w', g, tuple(tm.T_(k) for k in key), 8 * tm.T_(i), 4, ty, tm.T_(v) if ty[0] == 'i' else tm.real(tm.T_(v))))
    def at(s, st, i=0, key=(), ty='i32'): return s.ex.read(s.reg, tuple(key), 8 * tm.T_(i), ty, st.guard)


def pair(ex, coerced, g=TRUE):
    """the two ints of a struct { int, int } passed in one register"""
    m = 1 << 32
    q, r = {}, {}
    for mon, c in tm.poly(coerced).items():
        if isinstance(c, int) and c % m == 0: q[mon] = c // m
        else: r[mon] = c
    hi, lo = tm.mk_poly(q, 'I'), tm.mk_poly(r, 'I')
    if not ex.entails(and_(le(0, lo), lt(lo, num(m))), g):
        hi = hi + idiv(lo, num(m)); lo = imod(lo, m)
    return ex.s(lo, 32, g), ex.s(hi, 32, g)


def ints(L): return [n for n, v in L['init'].items() if isinstance(v, T) and v.sort == 'I']
def reals(L): return [n for n, v in L['init'].items() if isinstance(v, T) and v.sort == 'R']


def progress(L, reg=None, stride=None, shifts=(0,)):
    """[(text, done)]: done(st, q) tells that a loop has dealt with index q, for the ways in which it may count:
    up, down, with an index or with a pointer into the array reg (of elements of the given size)"""
    out = []
    for n in ints(L):
        for d in shifts:
            w = n if not d else '%s %+d' % (n, d)
            out.append(('below ' + w, lambda st, q, n=n, d=d: lt(q, st.vals[n] + d)))
        out.append(('from %s on' % n, lambda st, q, n=n: le(st.vals[n], q)))
        out.append(('above %s' % n, lambda st, q, n=n: lt(st.vals[n], q)))
    for n, v in L['init'].items():
        if not (isinstance(v, Ptr) and reg is not None and any(r is reg for c, r, k, o in v.alts)): continue
        off = lambda st, n=n: [o for c, r, k, o in st.vals[n].alts if r is reg][0]
        out.append(('below *' + n, lambda st, q, off=off: lt(stride * tm.T_(q), off(st))))
        out.append(('from *%s on' % n, lambda st, q, off=off: le(off(st), stride * tm.T_(q))))
    return out


class Exists:
    """an existentially quantified invariant: some w with P(state, w). Witnesses are looked for among the loop's integers."""

    def __init__(s, P, L=None, hints=(), before=False): s.before = before; s.P = P; s.hints = list(hints); s.w = None; s.all = []

    def terms(s, st):
        r = list(s.hints) + s.all
        for d in [st.vals, st.env] + list(st.ex.heads.values()):
            for v in d.values():
                if isinstance(v, T) and v.sort == 'I' and v.op in ('var', 'num') and v not in r: r.append(v)
        if s.before: r += [v - 1 for v in r if v.op == 'var']
        return r

    def __call__(s, st):
        if st.mode == 'assume':
            s.w = fresh('witness', 'I'); s.all = [s.w]
            return s.P(st, s.w)
        return or_(*[s.P(st, w) for w in s.terms(st)])


class Forall:
    """a universally quantified invariant, proved for the skolem constant q, assumed for the loop's integers and the given terms"""

    def __init__(s, P, q, terms=()): s.P = P; s.q = q; s.ts = terms

    def __call__(s, st): return s.P(st, s.q)

    def inst(s, st):
        ts = [v for v in st.vals.values() if isinstance(v, T) and v.sort == 'I'] + list(s.ts(st) if callable(s.ts) else s.ts)
        return [s.P(st, t) for t in ts]


def opaque(ex, name):
    """a family of objects behind pointers: f(id) is the pointer to object number id, NULL for 0"""
    reg = ex.new_region(name, None, None, keys=1)
    def p(i, nonnull=False):
        i = tm.T_(i)
        if nonnull: return Ptr([(TRUE, reg, (i,), num(0))])
        return Ptr([(ne(i, 0), reg, (i,), num(0)), (eq(i, 0), None, (), num(0))])
    p.reg = reg
    return p


def opaque_id(p, fam, g=TRUE):
    """the number of the object behind p"""
    r = num(0)
    for c, reg, k, o in p.alts:
        if reg is fam.reg: r = ite(c, k[0], r)
    return r


def track_free(ex, q=None):
    """free() is applied once to the start of a block, and freed memory is not touched.
    For keyed families the claim is about the object with the (arbitrary) key q."""
    ghosts = {}
    def ghost(r):
        if r not in ghosts:
            ghosts[r] = Ghost(ex, 'freed ' + r.name, r.keys)
        return ghosts[r]
    def watch(r, qq=None):
        gh = ghost(r)
        def alive(ex, k, g):
            f = eq(gh.get(0, g, k), 0)
            return or_(*[ne(a, b) for a, b in zip(k, qq)], f) if qq is not None else f
        r.alive = alive
        return gh
    def free(ex, A, g, w):
        for c, r, k, o in A[0].alts:
            if r is None: continue
            gg = and_(g, c)
            if excl(g, c): continue
            ex.oblige('%s: the start of %s is freed' % (w, r.name), 'pre', gg, eq(o, 0), w)
            if r in ghosts:
                ex.oblige('%s: %s is freed once' % (w, r.name), 'pre', gg, r.alive(ex, k, gg), w)
                ghosts[r].set(1, gg, 0, k)
            elif not r.name.startswith('heap'): ex.oblige('%s: %s may be freed' % (w, r.name), 'pre', gg, FALSE, w)
    ex.contracts['free'] = free
    free.watch = watch; free.ghost = ghost
    return free
