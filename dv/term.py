"""Hash-consed terms: booleans, mathematical integers and reals.

Numeric terms are kept in polynomial normal form over atoms, so algebraically
equal expressions are usually the same object.  Every numeric term carries an
interval [lo,hi] (None = unbounded) valid in every model.
"""
from fractions import Fraction
from math import gcd, floor as _mfloor

_table = {}
_count = [0]
MAXMON = 160


class T:
    __slots__ = ('op', 'args', 'sort', 'lo', 'hi', 'id', '_poly', '_mark')

    def __repr__(self):
        return show(self)

    def __hash__(self):
        return self.id

    def __eq__(self, o):
        return self is o

    def __add__(self, o): return add(self, o)
    def __radd__(self, o): return add(o, self)
    def __sub__(self, o): return sub(self, o)
    def __rsub__(self, o): return sub(o, self)
    def __mul__(self, o): return mul(self, o)
    def __rmul__(self, o): return mul(o, self)
    def __neg__(self): return mul(-1, self)
    def __truediv__(self, o): return rdiv(self, o)
    def __le__(self, o): return le(self, o)
    def __lt__(self, o): return lt(self, o)
    def __ge__(self, o): return le(o, self)
    def __gt__(self, o): return lt(o, self)
    def __and__(self, o): return and_(self, o)
    def __or__(self, o): return or_(self, o)
    def __invert__(self): return not_(self)


def _mk(op, args, sort, lo=None, hi=None):
    k = (op, args, sort)
    t = _table.get(k)
    if t is None:
        t = T()
        t.op = op; t.args = args; t.sort = sort; t.lo = lo; t.hi = hi
        _count[0] += 1
        t.id = _count[0]
        t._poly = None
        _table[k] = t
    elif op in ('var', 'app') and (t.lo != lo or t.hi != hi):
        raise ValueError('%s is declared with two ranges: %s..%s and %s..%s' % (args, t.lo, t.hi, lo, hi))
    return t


def norm(v):
    if isinstance(v, Fraction) and v.denominator == 1:
        return int(v)
    return v


def num(v, sort='I'):
    if isinstance(v, float):
        v = Fraction(v)
    v = norm(v)
    if isinstance(v, Fraction):
        sort = 'R'
    return _mk('num', v, sort, v, v)


def T_(v, sort=None):
    if isinstance(v, T):
        return v
    if v is True: return TRUE
    if v is False: return FALSE
    return num(v, sort or 'I')


TRUE = _mk('true', (), 'B')
FALSE = _mk('false', (), 'B')

_fresh = [0]


def var(name, sort='I', lo=None, hi=None):
    t = _mk('var', name, sort, lo, hi)
    return t


def fresh(name, sort='I', lo=None, hi=None):
    _fresh[0] += 1
    return var('%s!%d' % (name, _fresh[0]), sort, lo, hi)


def app(name, args, sort='I', lo=None, hi=None):
    args = tuple(T_(a) for a in args)
    return _mk('app', (name,) + args, sort, lo, hi)


# ---------------------------------------------------------------- polynomials
def poly(t):
    """dict: monomial (tuple of atoms sorted by id) -> coefficient"""
    if t._poly is not None:
        return t._poly
    if t.op == 'num':
        p = {(): t.args} if t.args != 0 else {}
    elif t.op == 'poly':
        p = dict(t.args)
    else:
        p = {(t,): 1}
    t._poly = p
    return p


def _imul(a, b):
    # interval product, None = infinite
    (al, ah), (bl, bh) = a, b
    if a == (0, 0) or b == (0, 0):
        return (0, 0)
    def cands():
        for x, xs in ((al, -1), (ah, 1)):
            for y, ys in ((bl, -1), (bh, 1)):
                yield x, xs, y, ys
    lo = hi = 0
    first = True
    lo_inf = hi_inf = False
    for x, xs, y, ys in cands():
        if x is None or y is None:
            # infinite endpoint(s)
            if x is None and y is None:
                s = xs * ys
            elif x is None:
                s = 0 if y == 0 else xs * (1 if y > 0 else -1)
            else:
                s = 0 if x == 0 else ys * (1 if x > 0 else -1)
            if s > 0: hi_inf = True
            elif s < 0: lo_inf = True
            else:
                v = 0
                if first: lo = hi = v; first = False
                else: lo = min(lo, v); hi = max(hi, v)
        else:
            v = x * y
            if first: lo = hi = v; first = False
            else: lo = min(lo, v); hi = max(hi, v)
    if first:
        lo = hi = 0
    return (None if lo_inf else lo, None if hi_inf else hi)


def mon_iv(m):
    r = (1, 1)
    i = 0
    while i < len(m):
        a = m[i]
        k = 1
        while i + k < len(m) and m[i + k] is a:
            k += 1
        lo, hi = a.lo, a.hi
        iv = (lo, hi)
        for _ in range(k - 1):
            iv = _imul(iv, (lo, hi))
        if k % 2 == 0:
            iv = (0 if iv[0] is None or iv[0] < 0 else iv[0], iv[1])
        r = _imul(r, iv)
        i += k
    return r


def poly_iv(p):
    lo = hi = 0
    for m, c in p.items():
        l, h = mon_iv(m)
        if c < 0:
            l, h = (None if h is None else h * c), (None if l is None else l * c)
        else:
            l, h = (None if l is None else l * c), (None if h is None else h * c)
        lo = None if (lo is None or l is None) else lo + l
        hi = None if (hi is None or h is None) else hi + h
    return norm(lo) if lo is not None else None, norm(hi) if hi is not None else None


def mk_poly(p, sort):
    p = {m: norm(c) for m, c in p.items() if c != 0}
    if not p:
        return num(0, sort)
    if len(p) == 1:
        (m, c), = p.items()
        if m == ():
            return _mk('num', c, sort, c, c)
        if len(m) == 1 and c == 1 and m[0].sort == sort:
            return m[0]
    key = tuple(sorted(p.items(), key=lambda mc: tuple(a.id for a in mc[0])))
    lo, hi = poly_iv(p)
    t = _mk('poly', key, sort, lo, hi)
    t._poly = p
    return t


def _s(a, b):
    return 'R' if (a.sort == 'R' or b.sort == 'R') else 'I'


def add(a, b):
    a = T_(a); b = T_(b)
    pa, pb = poly(a), poly(b)
    p = dict(pa)
    for m, c in pb.items():
        p[m] = p.get(m, 0) + c
    return mk_poly(p, _s(a, b))


def sub(a, b):
    return add(a, mul(-1, b))


_defs = {}


def name_of(t):
    """replace a large polynomial by a defined variable (definition kept)"""
    d = _mk('def', (t,), t.sort, t.lo, t.hi)
    return d


def mul(a, b):
    a = T_(a); b = T_(b)
    s = _s(a, b)
    pa, pb = poly(a), poly(b)
    if len(pa) * len(pb) > MAXMON and len(pa) > 1 and len(pb) > 1:
        if len(pa) > len(pb):
            a = name_of(a); pa = poly(a)
        else:
            b = name_of(b); pb = poly(b)
        if len(pa) * len(pb) > MAXMON and len(pa) > 1 and len(pb) > 1:
            a = name_of(a); pa = poly(a)
            b = name_of(b); pb = poly(b)
    p = {}
    for m1, c1 in pa.items():
        for m2, c2 in pb.items():
            m = tuple(sorted(m1 + m2, key=lambda t: t.id)) if (m1 and m2) else (m1 or m2)
            if m1 and m2:
                m = _cancel(m)
            p[m] = p.get(m, 0) + c1 * c2
    return mk_poly(p, s)


def _cancel(m):
    # x * inv(x) = 1 when x's interval excludes zero
    for i, t in enumerate(m):
        if t.op == 'inv':
            d = t.args[0]
            if nonzero(d):
                for j, u in enumerate(m):
                    if u is d or (u.op == 'poly' and u is d):
                        r = list(m)
                        for k in sorted((i, j), reverse=True):
                            r.pop(k)
                        return _cancel(tuple(r))
    return m


def nonzero(d):
    return (d.lo is not None and d.lo > 0) or (d.hi is not None and d.hi < 0) or d.op == 'num' and d.args != 0


def is_num(t):
    return t.op == 'num'


def real(t):
    t = T_(t)
    if t.sort == 'R':
        return t
    return mk_poly(dict(poly(t)), 'R')


def inv(d):
    if d.op == 'num':
        return num(Fraction(1) / Fraction(d.args), 'R')
    d = real(d)
    # 1/(c*m): pull out coefficient; single atoms only
    p = poly(d)
    if len(p) == 1:
        (m, c), = p.items()
        if len(m) == 1 and c != 1:
            return mul(num(Fraction(1) / Fraction(c), 'R'), inv(real(m[0])))
    lo = hi = None
    if d.lo is not None and d.lo > 0:
        hi = norm(Fraction(1) / Fraction(d.lo))
        lo = 0 if d.hi is None else norm(Fraction(1) / Fraction(d.hi))
    elif d.hi is not None and d.hi < 0:
        lo = norm(Fraction(1) / Fraction(d.hi))
        hi = 0 if d.lo is None else norm(Fraction(1) / Fraction(d.lo))
    key = d
    if d.op == 'poly' and len(p) == 1 and len(list(p)[0]) == 1:
        key = list(p)[0][0]      # the atom itself (possibly of sort I)
    return _mk('inv', (key,), 'R', lo, hi)


def rdiv(a, b):
    a = T_(a); b = T_(b)
    return mul(real(a), inv(b))


def ite(c, a, b):
    c = T_(c); a = T_(a); b = T_(b)
    if c is TRUE: return a
    if c is FALSE: return b
    if a is b: return a
    if a.sort == 'B':
        return or_(and_(c, a), and_(not_(c), b))
    if a.sort != b.sort:
        a = real(a); b = real(b)
        if a is b: return a
    if c.op == 'not':
        c, a, b = c.args[0], b, a
    # nested with the same condition
    if a.op == 'ite' and a.args[0] is c: a = a.args[1]
    if b.op == 'ite' and b.args[0] is c: b = b.args[2]
    if a is b: return a
    # min/max style interval sharpening from the condition itself
    lo = None if a.lo is None or b.lo is None else min(a.lo, b.lo)
    hi = None if a.hi is None or b.hi is None else max(a.hi, b.hi)
    al, ah = _sharpen(c, a, True)
    bl, bh = _sharpen(c, b, False)
    lo2 = None if al is None or bl is None else min(al, bl)
    hi2 = None if ah is None or bh is None else max(ah, bh)
    if lo2 is not None: lo = lo2 if lo is None else max(lo, lo2)
    if hi2 is not None: hi = hi2 if hi is None else min(hi, hi2)
    return _mk('ite', (c, a, b), a.sort, lo, hi)


def _sharpen(c, a, pol):
    """interval of a under condition c (pol) where c is a comparison p<=0 / p<0"""
    lo, hi = a.lo, a.hi
    if c.op in ('le0', 'lt0'):
        p = poly(c.args[0])
        if not pol:
            p = {m: -k for m, k in p.items()}
        # p <= 0 ; look for a = atom*coef with p = k*a + rest
        pa = poly(a)
        if len(pa) >= 1:
            # choose leading monomial
            for m in pa:
                if m == ():
                    continue
                if m in p:
                    k = Fraction(p[m]) / Fraction(pa[m])
                    rest = dict(p)
                    for mm, cc in pa.items():
                        rest[mm] = rest.get(mm, 0) - k * cc
                    rl, rh = poly_iv({x: y for x, y in rest.items() if y != 0})
                    # k*a + rest <= 0
                    if k > 0 and rl is not None:
                        b = norm(-Fraction(rl) / k)
                        hi = b if hi is None else min(hi, b)
                    elif k < 0 and rl is not None:
                        b = norm(Fraction(rl) / -k)
                        lo = b if lo is None else max(lo, b)
                break
    return lo, hi


def _split_const(p, c):
    """p = c*q + r with q collecting the coefficients divisible by c"""
    q, r = {}, {}
    for m, k in p.items():
        if isinstance(k, int):
            d, e = divmod(k, c)
            if m == ():
                if d: q[m] = d
                if e: r[m] = e
            elif e == 0:
                q[m] = d
            else:
                r[m] = k
        else:
            r[m] = k
    return q, r


def idiv(a, b):
    """floor division for b > 0"""
    a = T_(a); b = T_(b)
    if b.op == 'num':
        c = b.args
        assert c > 0
        if c == 1: return a
        if a.op == 'num': return num(a.args // c)
        q, r = _split_const(poly(a), c)
        rl, rh = poly_iv(r)
        qt = mk_poly(q, 'I')
        if rl is not None and rh is not None and rl // c == rh // c:
            return add(qt, num(rl // c))
        rt = mk_poly(r, 'I')
        # (x div a) div c = x div (a*c)
        if rt.op == 'idiv' and rt.args[1].op == 'num':
            return add(qt, idiv(rt.args[0], num(rt.args[1].args * c)))
        lo = None if rl is None else rl // c
        hi = None if rh is None else rh // c
        return add(qt, _mk('idiv', (rt, b), 'I', lo, hi))
    lo = hi = None
    if a.lo is not None and a.lo >= 0:
        lo = 0
        hi = a.hi if (b.lo is not None and b.lo >= 1) else None
        if b.lo is not None and b.lo > 1 and hi is not None:
            hi = hi // b.lo
    return _mk('idiv', (a, b), 'I', lo, hi)


def imod(a, c):
    a = T_(a)
    return sub(a, mul(c, idiv(a, c)))


def whole(a):
    """the integer equal to a when a is visibly a choice between integers, else None"""
    if a.op == 'ite':
        c, x, y = a.args
        x, y = whole(x), whole(y)
        return None if x is None or y is None else ite(c, x, y)
    if a.sort == 'I': return a
    if all(isinstance(c, int) and all(t.sort == 'I' for t in m) for m, c in poly(a).items()): return floor(a)
    return None


def floor(a):
    a = T_(a)
    if a.sort == 'I': return a
    if a.op == 'num': return num(_mfloor(a.args))
    p = poly(a)
    ip, rp = {}, {}
    for m, c in p.items():
        if isinstance(c, int) and all(t.sort == 'I' for t in m):
            ip[m] = c
        elif m == ():
            f = _mfloor(c)
            if f: ip[m] = f
            rp[m] = c - f
        else:
            rp[m] = c
    it = mk_poly(ip, 'I')
    if not rp:
        return it
    rl, rh = poly_iv(rp)
    if rl is not None and rh is not None and _mfloor(rl) == _mfloor(rh):
        return add(it, num(_mfloor(rl)))
    rt = mk_poly(rp, 'R')
    if rt.op == 'ite':
        z = whole(rt)
        if z is not None: return add(it, z)
    return add(it, _mk('floor', (rt,), 'I', None if rl is None else _mfloor(rl), None if rh is None else _mfloor(rh)))


def trunc(a):
    a = T_(a)
    if a.sort == 'I': return a
    if a.lo is not None and a.lo >= 0: return floor(a)
    if a.hi is not None and a.hi <= 0: return -floor(-a)
    return ite(le(0, a), floor(a), -floor(-a))


# ---------------------------------------------------------------- booleans
def _cmp0(p, sort, strict):
    """p <= 0 (or < 0)"""
    lo, hi = poly_iv(p)
    if strict:
        if hi is not None and hi < 0: return TRUE
        if lo is not None and lo >= 0: return FALSE
    else:
        if hi is not None and hi <= 0: return TRUE
        if lo is not None and lo > 0: return FALSE
    allint = all(t.sort == 'I' for m in p for t in m)
    if allint:
        # scale to integers
        den = 1
        for c in p.values():
            if isinstance(c, Fraction):
                den = den * c.denominator // gcd(den, c.denominator)
        p = {m: norm(c * den) for m, c in p.items()}
        if strict:
            p = dict(p); p[()] = p.get((), 0) + 1
        g = 0
        for m, c in p.items():
            if m != (): g = gcd(g, abs(c))
        if g > 1:
            k = p.get((), 0)
            p = {m: c // g for m, c in p.items() if m != ()}
            p[()] = -((-k) // g)     # ceil
        return _mk('le0', (mk_poly(p, 'I'),), 'B')
    # scale leading coefficient
    ms = sorted((m for m in p if m != ()), key=lambda m: tuple(a.id for a in m))
    if not ms:
        v = p.get((), 0)
        return TRUE if (v < 0 if strict else v <= 0) else FALSE
    k = abs(Fraction(p[ms[0]]))
    p = {m: norm(Fraction(c) / k) for m, c in p.items()}
    return _mk('lt0' if strict else 'le0', (mk_poly(p, 'R'),), 'B')


def _diff(a, b):
    a = T_(a); b = T_(b)
    p = dict(poly(a))
    for m, c in poly(b).items():
        p[m] = p.get(m, 0) - c
    return {m: c for m, c in p.items() if c != 0}, _s(a, b)


def le(a, b):
    p, s = _diff(a, b)
    return _cmp0(p, s, False)


def lt(a, b):
    p, s = _diff(a, b)
    return _cmp0(p, s, True)


def eq(a, b):
    a = T_(a); b = T_(b)
    if a is b: return TRUE
    if a.sort == 'B':
        return or_(and_(a, b), and_(not_(a), not_(b)))
    # ite with constant branches against a constant
    if b.op == 'ite' and a.op == 'num': a, b = b, a
    if a.op == 'ite' and b.op == 'num':
        x, y = a.args[1], a.args[2]
        if x.op == 'num' or y.op == 'num':
            return ite(a.args[0], eq(x, b), eq(y, b))
    p, s = _diff(a, b)
    if not p: return TRUE
    lo, hi = poly_iv(p)
    if (lo is not None and lo > 0) or (hi is not None and hi < 0): return FALSE
    ms = sorted((m for m in p if m != ()), key=lambda m: tuple(t.id for t in m))
    if not ms:
        return FALSE
    allint = all(t.sort == 'I' for m in p for t in m)
    k = Fraction(p[ms[0]])
    if allint:
        den = 1
        for c in p.values():
            if isinstance(c, Fraction):
                den = den * c.denominator // gcd(den, c.denominator)
        q = {m: norm(c * den) for m, c in p.items()}
        g = 0
        for m, c in q.items():
            if m != (): g = gcd(g, abs(c))
        if q.get((), 0) % g: return FALSE
        sg = 1 if q[ms[0]] > 0 else -1
        q = {m: sg * c // g for m, c in q.items()}
        return _mk('eq0', (mk_poly(q, 'I'),), 'B')
    p = {m: norm(Fraction(c) / k) for m, c in p.items()}
    return _mk('eq0', (mk_poly(p, 'R'),), 'B')


def ne(a, b):
    return not_(eq(a, b))


def not_(a):
    a = T_(a)
    if a is TRUE: return FALSE
    if a is FALSE: return TRUE
    if a.op == 'not': return a.args[0]
    if a.op == 'le0':
        t = a.args[0]
        if t.sort == 'I':
            return _cmp0(poly(sub(1, t)), 'I', False)
        return _cmp0(poly(-t), t.sort, True)
    if a.op == 'lt0':
        return _cmp0(poly(-a.args[0]), a.args[0].sort, False)
    return _mk('not', (a,), 'B')


def and_(*xs):
    s = {}
    st = list(xs)
    st.reverse()
    while st:
        x = T_(st.pop())
        if x is TRUE: continue
        if x is FALSE: return FALSE
        if x.op == 'and':
            st.extend(reversed(x.args))
            continue
        s[x] = 1
    for x in s:
        if not_(x) in s: return FALSE
    if not s: return TRUE
    if len(s) == 1: return next(iter(s))
    return _mk('and', tuple(sorted(s, key=lambda t: t.id)), 'B')


def conj(t):
    if t is TRUE: return frozenset()
    if t.op == 'and': return frozenset(t.args)
    return frozenset((t,))


def or_(*xs):
    s = {}
    st = list(xs)
    st.reverse()
    while st:
        x = T_(st.pop())
        if x is FALSE: continue
        if x is TRUE: return TRUE
        if x.op == 'or':
            st.extend(reversed(x.args))
            continue
        s[x] = 1
    if not s: return FALSE
    for x in s:
        if not_(x) in s: return TRUE
    l = list(s)
    if len(l) == 1: return l[0]
    # factor the common conjuncts, resolve complementary ones
    sets = [conj(x) for x in l]
    common = frozenset.intersection(*sets)
    if common:
        return and_(*(list(common) + [or_(*[and_(*(c - common)) for c in sets])]))
    # absorption
    keep = []
    for i, c in enumerate(sets):
        if any((d < c) for d in sets):
            continue
        keep.append((l[i], c))
    if len(keep) < len(l):
        return or_(*[x for x, _ in keep])
    # pairwise (A&c) | (A&!c) = A
    for i in range(len(l)):
        for j in range(i + 1, len(l)):
            a, b = sets[i], sets[j]
            d1, d2 = a - b, b - a
            if len(d1) == 1 and len(d2) == 1:
                x, = d1; y, = d2
                if not_(x) is y:
                    rest = [l[k] for k in range(len(l)) if k != i and k != j]
                    return or_(and_(*(a & b)), *rest)
            # a = A & c,  b = (not c): becomes A | not c
            if len(b) == 1:
                y, = b
                if not_(y) in a:
                    rest = [l[k] for k in range(len(l)) if k != i]
                    return or_(and_(*(a - {not_(y)})), *rest)
            if len(a) == 1:
                y, = a
                if not_(y) in b:
                    rest = [l[k] for k in range(len(l)) if k != j]
                    return or_(and_(*(b - {not_(y)})), *rest)
    return _mk('or', tuple(sorted(l, key=lambda t: t.id)), 'B')


def implies(a, b):
    return or_(not_(a), b)


def iff(a, b):
    return eq(a, b)


def min_(a, b): return ite(le(a, b), a, b)
def max_(a, b): return ite(le(a, b), b, a)
def abs_(a):
    a = T_(a)
    if a.lo is not None and a.lo >= 0: return a
    return ite(le(0, a), a, -a)


def clamp(x, lo, hi): return ite(lt(hi, x), hi, ite(lt(x, lo), lo, x))


def excl(g, h):
    """syntactic: g and h cannot hold together"""
    if g is FALSE or h is FALSE: return True
    a, b = conj(g), conj(h)
    if len(a) > len(b): a, b = b, a
    for x in a:
        if not_(x) in b: return True
    return False


def implied(g, h):
    """syntactic: g implies h"""
    if h is TRUE: return True
    return conj(h) <= conj(g)


# ---------------------------------------------------------------- utilities
def show(t, d=6):
    if d < 0: return '...'
    o = t.op
    if o == 'num': return str(t.args)
    if o == 'var': return t.args
    if o == 'true': return 'T'
    if o == 'false': return 'F'
    if o == 'app': return '%s(%s)' % (t.args[0], ', '.join(show(a, d - 1) for a in t.args[1:]))
    if o == 'poly':
        r = []
        for m, c in t.args:
            s = '*'.join(show(a, d - 1) for a in m)
            r.append(s if c == 1 and s else ('%s*%s' % (c, s) if s else str(c)))
        return '(' + ' + '.join(r) + ')'
    return '%s(%s)' % (o, ', '.join(show(a, d - 1) for a in t.args))


def children(t):
    if t.op in ('num', 'var', 'true', 'false'): return ()
    if t.op == 'app': return t.args[1:]
    if t.op == 'poly': return tuple(a for m, _ in t.args for a in m)
    return t.args


def atoms_of(t, acc=None, seen=None):
    """set of var/app leaves"""
    acc = set() if acc is None else acc
    seen = set() if seen is None else seen
    st = [t]
    while st:
        x = st.pop()
        if x in seen: continue
        seen.add(x)
        if x.op in ('var', 'app'): acc.add(x)
        st.extend(children(x))
    return acc


def subst(t, m, memo=None):
    """substitute terms (dict T->T)"""
    memo = {} if memo is None else memo
    def go(x):
        if x in m: return m[x]
        if x in memo: return memo[x]
        o = x.op
        if o in ('num', 'var', 'true', 'false'): r = x
        elif o == 'app':
            r = app(x.args[0], [go(a) for a in x.args[1:]], x.sort, x.lo, x.hi)
        elif o == 'poly':
            r = num(0, x.sort)
            for mon, c in x.args:
                p = num(c, x.sort)
                for a in mon:
                    p = mul(p, go(a))
                r = add(r, p)
            if x.sort == 'R': r = real(r)
        elif o == 'ite': r = ite(*[go(a) for a in x.args])
        elif o == 'idiv': r = idiv(go(x.args[0]), go(x.args[1]))
        elif o == 'floor': r = floor(go(x.args[0]))
        elif o == 'inv': r = inv(go(x.args[0]))
        elif o == 'def': r = name_of(go(x.args[0]))
        elif o == 'not': r = not_(go(x.args[0]))
        elif o == 'and': r = and_(*[go(a) for a in x.args])
        elif o == 'or': r = or_(*[go(a) for a in x.args])
        elif o == 'le0': r = le(go(x.args[0]), 0)
        elif o == 'lt0': r = lt(go(x.args[0]), 0)
        elif o == 'eq0': r = eq(go(x.args[0]), 0)
        else: raise ValueError(o)
        memo[x] = r
        return r
    return go(t)
