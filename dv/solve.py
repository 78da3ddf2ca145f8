"""Discharging verification conditions with z3 (in process) and cvc5 (subprocess on SMT-LIB)."""
import os, subprocess, tempfile, time, signal
import z3
from fractions import Fraction
from . import term as tm
from .term import T

STATS = {'z3': 0, 'cvc5': 0, 'z3_time': 0.0, 'cvc5_time': 0.0, 'queries': 0}


class Enc:
    """T -> z3.  lin=True replaces products of atoms by variables with sound product lemmas."""

    def __init__(self, lin):
        self.lin = lin
        self.memo = {}
        self.axioms = []
        self.mulf = {}
        self.tri = set()
        self.prods = {}       # (T,T) -> z3 var
        self.vars = {}
        self.ufs = {}

    def sort(self, s):
        return {'I': z3.IntSort(), 'R': z3.RealSort(), 'B': z3.BoolSort()}[s]

    def numv(self, v, s):
        if s == 'R':
            return z3.RealVal(str(Fraction(v)))
        return z3.IntVal(int(v))

    def bounds(self, t, z):
        if t.sort == 'B': return
        if t.lo is not None: self.axioms.append(z >= self.numv(t.lo, 'R' if isinstance(t.lo, Fraction) else t.sort))
        if t.hi is not None: self.axioms.append(z <= self.numv(t.hi, 'R' if isinstance(t.hi, Fraction) else t.sort))

    def cast(self, z, s):
        if s == 'R' and z.sort() == z3.IntSort():
            return z3.ToReal(z)
        return z

    def mon(self, m, s):
        if not self.lin or len(m) == 1:
            r = None
            for a in m:
                z = self.cast(self.enc(a), s)
                r = z if r is None else r * z
            return r
        # left fold into binary products
        acc = m[0]
        accz = self.cast(self.enc(m[0]), s)
        accm = (m[0],)
        for a in m[1:]:
            key = (accm, a, s)
            nm = accm + (a,)
            if key not in self.prods:
                za = self.cast(self.enc(a), s)
                f = self.mulf.get(s)
                if f is None: f = self.mulf[s] = z3.Function('mul!' + s, self.sort(s), self.sort(s), self.sort(s))
                p = f(accz, za)
                self.axioms.append(p == f(za, accz))
                self.prods[key] = (p, accz, za, tm.mon_iv(accm), (a.lo, a.hi), tm.mon_iv(nm))
            accz = self.prods[key][0]
            accm = nm
        if len(m) == 3 and m not in self.tri:
            # the other bracketings of a*b*c
            self.tri.add(m)
            a, b, c = m
            for x, y in (((a, c), b), ((b, c), a)):
                xz = self.mon(x, s)
                key = (x, y, s)
                if key in self.prods: continue
                zy = self.cast(self.enc(y), s)
                f = self.mulf[s]
                p = f(xz, zy)
                self.axioms.append(p == f(zy, xz)); self.axioms.append(p == accz)
                self.prods[key] = (p, xz, zy, tm.mon_iv(x), (y.lo, y.hi), tm.mon_iv(m))
        return accz

    def enc(self, t):
        z = self.memo.get(t)
        if z is not None: return z
        # iterative deepening guard: recursion is fine for our sizes
        z = self._enc(t)
        self.memo[t] = z
        return z

    def _enc(self, t):
        o = t.op
        if o == 'num': return self.numv(t.args, t.sort)
        if o == 'true': return z3.BoolVal(True)
        if o == 'false': return z3.BoolVal(False)
        if o == 'var':
            z = z3.Const(t.args, self.sort(t.sort))
            self.vars[t] = z
            self.bounds(t, z)
            return z
        if o == 'app':
            args = [self.enc(a) for a in t.args[1:]]
            k = (t.args[0], tuple(str(a.sort()) for a in args), t.sort)
            f = self.ufs.get(k)
            if f is None:
                f = z3.Function(t.args[0], *([a.sort() for a in args] + [self.sort(t.sort)]))
                self.ufs[k] = f
            z = f(*args) if args else z3.Const(t.args[0], self.sort(t.sort))
            self.vars[t] = z
            self.bounds(t, z)
            return z
        if o == 'poly':
            s = t.sort
            parts = []
            for m, c in t.args:
                if m == ():
                    parts.append(self.numv(c, s)); continue
                z = self.mon(m, s)
                if c != 1:
                    z = self.numv(c, s if not isinstance(c, Fraction) else 'R') * z
                parts.append(z)
            return z3.Sum(parts) if len(parts) > 1 else parts[0]
        if o == 'ite':
            return z3.If(self.enc(t.args[0]), self.enc(t.args[1]), self.enc(t.args[2]))
        if o == 'idiv':
            a, b = t.args
            q = z3.Int('idiv!%d' % t.id)
            za, zb = self.enc(a), self.enc(b)
            self.memo[t] = q
            if b.op == 'num':
                self.axioms.append(za >= zb * q)
                self.axioms.append(za < zb * q + zb)
            else:
                # q*b through the product machinery
                p = self.mon(tuple(sorted((b, t), key=lambda x: x.id)) if b.op != 'poly' else None, 'I') \
                    if b.op != 'poly' else (self.enc(tm.mul(b, t)))
                self.axioms.append(z3.Implies(zb > 0, z3.And(za >= p, za < p + zb)))
                # floor(c*x*y/d): with 0 < d and c*x <= d the quotient is at most y (y >= 0), and not negative for c*x >= 0
                mons = tm.poly(a)
                if len(mons) == 1:
                    (mm, cc), = mons.items()
                    if len(mm) == 2 and isinstance(cc, int):
                        for x, y in ((mm[0], mm[1]), (mm[1], mm[0])):
                            zx, zy = self.enc(x), self.enc(y)
                            self.axioms.append(z3.Implies(z3.And(zb > 0, zy >= 0, cc * zx <= zb), q <= zy))
                            self.axioms.append(z3.Implies(z3.And(zb > 0, zy >= 0, cc * zx >= 0), q >= 0))
            self.bounds(t, q)
            return q
        if o == 'floor':
            q = z3.Int('floor!%d' % t.id)
            za = self.enc(t.args[0])
            self.axioms.append(z3.ToReal(q) <= za)
            self.axioms.append(za < z3.ToReal(q) + 1)
            self.bounds(t, q)
            return q
        if o == 'inv':
            d = t.args[0]
            q = z3.Real('inv!%d' % t.id)
            self.memo[t] = q
            zd = self.cast(self.enc(d), 'R')
            p = self.enc(tm._mk('poly', tm.mk_key(tm.poly_mul_raw(d, t)), 'R')) if False else self.raw_mul(d, t)
            self.axioms.append(z3.Implies(zd != 0, p == 1))
            self.axioms.append(z3.Implies(zd > 0, q > 0))
            self.axioms.append(z3.Implies(zd < 0, q < 0))
            self.bounds(t, q)
            return q
        if o == 'def':
            z = z3.Const('def!%d' % t.id, self.sort(t.sort))
            self.axioms.append(z == self.enc(t.args[0]))
            return z
        if o == 'not': return z3.Not(self.enc(t.args[0]))
        if o == 'and': return z3.And([self.enc(a) for a in t.args])
        if o == 'or': return z3.Or([self.enc(a) for a in t.args])
        if o == 'le0': return self.split(t.args[0], 'le')
        if o == 'lt0': return self.split(t.args[0], 'lt')
        if o == 'eq0': return self.split(t.args[0], 'eq')
        raise ValueError(o)

    def split(self, t, rel):
        z = self.enc(t)
        zero = self.numv(0, t.sort)
        return {'le': z <= zero, 'lt': z < zero, 'eq': z == zero}[rel]

    def raw_mul(self, d, t):
        """d * inv(d) without simplification"""
        zs = []
        for m, c in tm.poly(d).items():
            mm = tuple(sorted(m + (t,), key=lambda x: x.id))
            z = self.mon(mm, 'R')
            zs.append(self.numv(c, 'R') * z if c != 1 else z)
        return z3.Sum(zs)

    def product_lemmas(self):
        out = []
        byfac = {}
        done = set()
        changed = True
        while True:
            todo = [k for k in self.prods if k not in done]
            if not todo: break
            for k in todo:
                done.add(k)
                p, x, y, (xl, xh), (yl, yh), (pl, ph) = self.prods[k]
                rs = 'R' if p.sort() == z3.RealSort() else 'I'
                n = lambda v: self.numv(v, 'R' if isinstance(v, Fraction) else rs)
                if pl is not None: out.append(p >= n(pl))
                if ph is not None: out.append(p <= n(ph))
                if xl is not None and yl is not None: out.append(p >= n(xl) * y + n(yl) * x - n(xl * yl))
                if xh is not None and yh is not None: out.append(p >= n(xh) * y + n(yh) * x - n(xh * yh))
                if xh is not None and yl is not None: out.append(p <= n(xh) * y + n(yl) * x - n(xh * yl))
                if xl is not None and yh is not None: out.append(p <= n(xl) * y + n(yh) * x - n(xl * yh))
                # sign lemmas
                nn = lambda l: l is not None and l >= 0
                if not (nn(xl) and nn(yl)):
                    z = n(0)
                    out.append(z3.Implies(z3.And(x >= z, y >= z), p >= z))
                    out.append(z3.Implies(z3.And(x <= z, y <= z), p >= z))
                    out.append(z3.Implies(z3.And(x >= z, y <= z), p <= z))
                    out.append(z3.Implies(z3.And(x <= z, y >= z), p <= z))
                accm, a, s = k
                if len(accm) == 1 and accm[0] is a:
                    out.append(p >= 0)
                byfac.setdefault((accm, s), []).append((p, y, x, xl, xh))
                byfac.setdefault(((a,), s), []).append((p, x, y, yl, yh))
        # monotonicity between products that share a factor
        for f, l in byfac.items():
            if len(l) < 2 or len(l) > 14: continue
            for i in range(len(l)):
                for j in range(i + 1, len(l)):
                    p1, y1, fx, lo, hi = l[i]
                    p2, y2, _, _, _ = l[j]
                    if y1.eq(y2): continue
                    if lo is not None and lo >= 0:
                        n = lambda v: self.numv(v, 'R' if isinstance(v, Fraction) else ('R' if p1.sort() == z3.RealSort() else 'I'))
                        up = [p2 - p1 >= n(lo) * (y2 - y1)]
                        dn = [p1 - p2 >= n(lo) * (y1 - y2)]
                        if hi is not None:
                            up.append(p2 - p1 <= n(hi) * (y2 - y1))
                            dn.append(p1 - p2 <= n(hi) * (y1 - y2))
                        out.append(z3.Implies(y1 <= y2, z3.And(up)))
                        out.append(z3.Implies(y1 >= y2, z3.And(dn)))
                    else:
                        out.append(z3.Implies(z3.And(fx >= 0, y1 <= y2), p1 <= p2))
                        out.append(z3.Implies(z3.And(fx >= 0, y1 >= y2), p1 >= p2))
                        out.append(z3.Implies(z3.And(fx <= 0, y1 <= y2), p1 >= p2))
                        out.append(z3.Implies(z3.And(fx <= 0, y1 >= y2), p1 <= p2))
        return out


def relevant(goal, facts):
    """cone of influence over var/app symbols (function symbols of apps count)"""
    def syms(t):
        r = set()
        for a in tm.atoms_of(t):
            r.add(a)
        return r
    cur = syms(goal)
    rest = [(f, syms(f)) for f in facts]
    out = []
    changed = True
    while changed:
        changed = False
        nr = []
        for f, s in rest:
            if not s or s & cur:
                out.append(f)
                if not s <= cur:
                    cur |= s
                    changed = True
            else:
                nr.append((f, s))
        rest = nr
    return out


def near(goal, facts, dist):
    """the facts about the symbols of the goal only (dist 0), or touching one of them (dist 1)"""
    cur = set(tm.atoms_of(goal))
    if dist == 0: return [f for f in facts if set(tm.atoms_of(f)) <= cur]
    return [f for f in facts if set(tm.atoms_of(f)) & cur]


def build(hyps, goal, lin):
    e = Enc(lin)
    zs = [e.enc(h) for h in hyps]
    g = e.enc(tm.not_(goal))
    ax = list(e.axioms)
    lem = e.product_lemmas() if lin else []
    if not lin:
        # lemmas help the nonlinear solver too
        pass
    ax = list(e.axioms)
    return e, zs + ax + lem + [g]


RL = 2000     # solver resource units per nominal millisecond (deterministic limits; the wall clock limit is 5x)


def check(hyps, goal, timeout=2000, modes=('lin', 'nl'), want_model=False, seed=0):
    """returns ('valid'|'refuted'|'unknown', backend, model|None)"""
    if goal is tm.TRUE: return ('valid', 'simplifier', None)
    STATS['queries'] += 1
    last = 'unknown'
    for mode in modes:
        t0 = time.time()
        e, fs = build(hyps, goal, mode == 'lin')
        if mode == 'lin' and not e.prods:
            linexact = True
        else:
            linexact = False
        s = z3.Solver() if mode != 'nl' else z3.Solver()
        s.set('timeout', int(timeout) * 5)
        if seed: s.set('smt.random_seed' if False else 'random_seed', seed)
        s.set('rlimit', int(timeout) * RL)
        s.add(*fs)
        r = s.check()
        STATS['z3_time'] += time.time() - t0
        if r == z3.unsat:
            STATS['z3'] += 1
            return ('valid', 'z3-' + mode, None)
        if r == z3.sat and (mode == 'nl' or linexact):
            m = None
            if want_model:
                mod = s.model()
                m = {}
                for t, z in e.vars.items():
                    try:
                        v = mod.eval(z, model_completion=True)
                        if z3.is_true(v): m[tm.show(t)] = True
                        elif z3.is_false(v): m[tm.show(t)] = False
                        elif z3.is_int_value(v): m[tm.show(t)] = v.as_long()
                        elif z3.is_rational_value(v): m[tm.show(t)] = Fraction(v.numerator_as_long(), v.denominator_as_long())
                        elif z3.is_algebraic_value(v): m[tm.show(t)] = Fraction(v.approx(20).numerator_as_long(), v.approx(20).denominator_as_long())
                    except Exception:
                        pass
            return ('refuted', 'z3-' + mode, m)
    return ('unknown', 'z3', None)


def to_smt2(hyps, goal, lin=False):
    e, fs = build(hyps, goal, lin)
    s = z3.Solver()
    s.add(*fs)
    return s.to_smt2()


def cvc5_check(hyps, goal, timeout=10, lin=False):
    t0 = time.time()
    txt = '(set-logic ALL)\n' + to_smt2(hyps, goal, lin)
    with tempfile.NamedTemporaryFile('w', suffix='.smt2', delete=False) as f:
        f.write(txt)
    try:
        p = subprocess.run(['cvc5', '--tlimit=%d' % (timeout * 1000), f.name], capture_output=True, text=True, timeout=timeout + 5)
        out = p.stdout.strip().split('\n')[0]
    except subprocess.TimeoutExpired:
        out = 'timeout'
    finally:
        os.unlink(f.name)
    STATS['cvc5_time'] += time.time() - t0
    if out == 'unsat':
        STATS['cvc5'] += 1
        return 'valid'
    if out == 'sat' and not lin:
        return 'refuted'
    return 'unknown'
