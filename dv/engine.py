"""Verification-condition generator: forward symbolic execution of LLVM IR functions with
state merging, loop cutting by inductive invariants and modular function contracts.

Machine integers are mathematical integers modulo 2^w (the modulus is applied exactly where
the program observes it); floats are reals (mode 'real') or reals with a rounding-error term
after every operation (mode 'round').  Memory is a set of regions, each a guarded write log
over an uninterpreted initial content.
"""
import math
from math import gcd
import struct
from fractions import Fraction
from . import term as tm
from .term import (T, TRUE, FALSE, num, var, fresh, app, add, sub, mul, idiv, imod, floor, trunc, rdiv, real,
                   ite, le, lt, eq, ne, not_, and_, or_, implies, conj, excl)
from . import ir
from . import solve


class Unsupported(Exception):
    pass


class Region:
    n = 0

    def __init__(self, name, size=None, base=None, keys=0, const=False):
        Region.n += 1
        self.name = '%s' % name
        self.uid = '%s#%d' % (name, Region.n)
        self.size = tm.T_(size) if size is not None else None
        self.base = base          # (ex, key, off, ty) -> value or None
        self.keys = keys
        self.log = []
        self.const = const
        self.inv_after = None     # cell_inv holds of the contents after a loop started later than this only
        self.cell_inv = None      # (ex, rd, key, off) -> [facts]
        self.alive = None         # guard-aware liveness predicate (key)->T
        self.align = 1
        self.elem = None
        self.on_store = None      # (key, off, ty, value, guard): ghost code that runs with every store

    def __repr__(self): return '<%s>' % self.uid


class Func:
    def __init__(self, name): self.name = name; self.uid = '@' + name; self.size = num(1)
    def __repr__(self): return '@' + self.name


_funcs = {}
def func(name):
    if name not in _funcs: _funcs[name] = Func(name)
    return _funcs[name]


class Ptr:
    """guarded alternatives (cond, region|None|Func, key, off); conds are exhaustive"""
    __slots__ = ('alts',)

    def __init__(self, alts): self.alts = alts

    def __repr__(self): return 'Ptr' + repr([(str(c), r, k, o) for c, r, k, o in self.alts])

    def shift(self, d):
        return Ptr([(c, r, k, o if r is None else add(o, d)) for c, r, k, o in self.alts])


NULL = Ptr([(TRUE, None, (), num(0))])


def ptr(region, off=0, key=()):
    return Ptr([(TRUE, region, tuple(tm.T_(k) for k in key), tm.T_(off))])


def ptr_ite(c, p, q):
    if c is TRUE: return p
    if c is FALSE: return q
    out = {}
    order = []
    for cc, P in ((c, p), (not_(c), q)):
        for (a, r, k, o) in P.alts:
            g = and_(cc, a)
            if g is FALSE: continue
            if r in out:
                G, K, O = out[r]
                out[r] = (or_(G, g), tuple(ite(g, x, y) for x, y in zip(k, K)), ite(g, o, O))
            else:
                out[r] = (g, k, o); order.append(r)
    return Ptr([(out[r][0], r, out[r][1], out[r][2]) for r in order])


def val_ite(c, a, b):
    if c is TRUE: return a
    if c is FALSE: return b
    if isinstance(a, Ptr) or isinstance(b, Ptr):
        if not isinstance(a, Ptr): a = NULL     # undef
        if not isinstance(b, Ptr): b = NULL
        return ptr_ite(c, a, b)
    if isinstance(a, list):
        return [val_ite(c, x, y) for x, y in zip(a, b)]
    return ite(c, a, b)


def ptr_eq(p, q):
    r = []
    for (a, ra, ka, oa) in p.alts:
        for (b, rb, kb, ob) in q.alts:
            if ra is rb:
                r.append(and_(a, b, eq(oa, ob) if ra is not None else TRUE, *[eq(x, y) for x, y in zip(ka, kb)]))
    return or_(*r) if r else FALSE


def is_null(p):
    return or_(*[c for c, r, k, o in p.alts if r is None])


def _parts(g):
    if g.op == 'and': return sum(_parts(x) for x in g.args)
    if g.op == 'or':
        n = 1
        for x in g.args: n *= _parts(x)
        return n
    return 1


def split_goal(g, limit=512):
    """a goal as a list of goals whose conjunction is equivalent"""
    if g.op == 'and': return [y for x in g.args for y in split_goal(x, limit)]
    if g.op == 'or' and _parts(g) <= limit:
        for i, a in enumerate(g.args):
            if a.op == 'and':
                rest = g.args[:i] + g.args[i + 1:]
                return [y for x in a.args for y in split_goal(or_(x, *rest), limit)]
    return [g]


class Obl:
    __slots__ = ('name', 'kind', 'guard', 'cond', 'nf', 'where', 'facts', 'status', 'backend', 'model', 'time')

    def __init__(s, name, kind, guard, cond, facts, where):
        s.name = name; s.kind = kind; s.guard = guard; s.cond = cond; s.nf = facts; s.where = where
        s.status = None; s.backend = None; s.model = None; s.time = 0

    @property
    def goal(s): return implies(s.guard, s.cond)


class Edge:
    __slots__ = ('guard', 'src', 'dst', 'vals')

    def __init__(s, g, a, b, v): s.guard = g; s.src = a; s.dst = b; s.vals = v


class Frame:
    def __init__(s, fn, ex):
        s.fn = fn; s.env = {}
        s.loops, s.rpo, s.preds = ex.cfg(fn)
        s.rets = []


ISZ = {'i8': 1, 'i16': 2, 'i32': 4, 'i64': 8, 'f32': 4, 'f64': 8, 'ptr': 8}


def tyk(t):
    k = t.k
    if k == 'int':
        n = t.a[0]
        return 'i%d' % (8 if n < 8 else n)
    if k == 'float': return 'f32'
    if k == 'double': return 'f64'
    if k == 'ptr': return 'ptr'
    raise Unsupported('memory type %s' % t)


class State:
    """a program point for loop invariants"""
    def __init__(s, ex, guard, vals, mode='check', env=None): s.ex = ex; s.guard = guard; s.vals = vals; s.mode = mode; s.env = env or {}
    def read(s, region, off, ty, key=()): return s.ex.read(region, tuple(key), tm.T_(off), ty, s.guard)


def short_decimal(v):
    f = struct.pack('f', float(v))
    d = '%.6g' % float(v)
    return Fraction(d) if struct.pack('f', float(d)) == f else v


class Exec:
    def __init__(self, mod, spec=None, float_mode='real'):
        self.mod = mod
        self.contracts = {}
        self.facts = []
        self.factset = {}
        self.obls = []
        self.regions = []
        self.globals = {}
        self.float_mode = float_mode
        self.dry = 0
        self.memo = {}
        self.notes = []
        self.used = {}          # functions executed -> count
        self.called_contract = {}
        self.assumed = set()
        self._cfg = {}
        self.depth = 0
        self.frames = []
        self.heads = {}
        self.loop_cands = []    # functions (ex, frame, header, init, head_template) -> [(name, fn)]
        self.unroll_limit = 80
        self.sym_unroll = 0
        self.on_stack = None
        self.sym_unroll_fn = {}     # function name -> limit
        self.timeout = 3000
        self.std_streams = {}
        self.on_alloc = None
        self.region_invs = []       # regions with cell_inv and skolems
        self.malloc_may_fail = False
        self.decimals = False       # read single precision constants as the short decimals they were written as
        self.check_overflow = True
        self.loops_seen = {}
        self.fp_assume = True       # float->int casts in range is assumed (listed)
        self.tables = set()
        self.cut_always = set()
        self.prefix = ''
        self.prune_pending = False
        self.houdini_log = []
        self.ghost_calls = []
        self.loop_depth = 0

    # ------------------------------------------------------------ bookkeeping
    fdiv_ok = None            # b -> when a division by b = 0 may happen; its result is an arbitrary value

    def cfg(self, fn):
        if fn.name not in self._cfg: self._cfg[fn.name] = ir.loops_of(fn)
        return self._cfg[fn.name]

    def fact(self, f, guard=TRUE):
        f = implies(guard, f)
        if f is TRUE or f in self.factset: return
        self.factset[f] = len(self.facts)
        self.facts.append(f)

    def oblige(self, name, kind, guard, cond, where=''):
        g = implies(guard, cond)
        if g is TRUE:
            self.obls.append(Obl(self.prefix + name, kind, guard, TRUE, len(self.facts), where))
            return
        self.obls.append(Obl(self.prefix + name, kind, guard, cond, len(self.facts), where))
        self.fact(g)

    def checkpoint(self):
        return (len(self.facts), len(self.obls), len(self.regions), [len(r.log) for r in self.regions], len(self.ghost_calls))

    def rollback(self, cp):
        nf, no, nr, lg, ng = cp
        for f in self.facts[nf:]: del self.factset[f]
        del self.facts[nf:]; del self.obls[no:]; del self.regions[nr:]; del self.ghost_calls[ng:]
        for r, n in zip(self.regions, lg): del r.log[n:]
        self.memo.clear()

    def entails(self, goal, guard=TRUE, timeout=None):
        g = implies(guard, goal)
        if g is TRUE: return True
        if self.dry: return False
        parts = split_goal(g)
        if len(parts) > 1: return all(self.entails(x, TRUE, timeout) for x in parts)
        r = self.memo.get(g)
        if r is None:
            hyp = solve.relevant(g, self.facts)
            st, be, _ = solve.check(hyp, g, timeout or 1500)
            r = st == 'valid'
            self.last_status = st
            self.memo[g] = r
        return r

    def retry(self, goal, guard):
        """a required invariant the solver gave up on: once more with more resources"""
        for part in split_goal(implies(guard, goal)):
            self.memo.pop(part, None)
            if not self.entails(part, TRUE, 20000): return False
        return True

    def new_region(self, name, size=None, base=None, keys=0, const=False):
        r = Region(name, size, base, keys, const)
        self.regions.append(r)
        return r

    # ------------------------------------------------------------ integers
    def u(self, t, w, g=TRUE):
        m = 1 << w
        if t.lo is not None and t.hi is not None and t.lo >= 0 and t.hi < m: return t
        # drop multiples of 2^w
        t = self._red(t, m)
        if t.lo is not None and t.hi is not None:
            if t.lo >= 0 and t.hi < m: return t
            if t.lo >= -m and t.hi < m:
                if self.entails(le(0, t), g): return t
                return ite(le(0, t), t, t + m)
        elif self.entails(and_(le(0, t), lt(t, m)), g): return t
        if t.lo is not None and t.lo >= 0 and self.entails(lt(t, m), g): return t
        if self.entails(and_(le(0, t), lt(t, m)), g): return t
        return imod(t, m)

    def high(self, t, m, g=TRUE):
        """t / m, for t = m * q + r with 0 <= r < m"""
        if m == 1: return t
        q, r = {}, {}
        for mon, c in tm.poly(t).items():
            if isinstance(c, int) and c % m == 0: q[mon] = c // m
            else: r[mon] = c
        q, r = tm.mk_poly(q, 'I'), tm.mk_poly(r, 'I')
        if r.lo is not None and r.hi is not None and r.lo >= 0 and r.hi < m: return q
        if self.entails(and_(le(0, r), lt(r, num(m))), g): return q
        return idiv(t, num(m))

    def s(self, t, w, g=TRUE):
        m = 1 << w
        h = m >> 1
        if t.lo is not None and t.hi is not None and t.lo >= -h and t.hi < h: return t
        t = self._red(t, m)
        if t.lo is not None and t.hi is not None and t.lo >= -h and t.hi < h: return t
        if t.op == 'ite':
            # (x >= 0 ? x : x + 2^w) and the like
            c, x, y = t.args
            x, y = self.s(x, w, and_(g, c)), self.s(self._red(y - m, m) if (y - x).op == 'num' and (y - x).args == m else y, w, and_(g, not_(c)))
            if x is y: return x
        if self.entails(and_(le(-h, t), lt(t, h)), g): return t
        if t.lo is not None and t.hi is not None and t.lo >= 0 and t.hi < m:
            return ite(lt(t, h), t, t - m)
        return imod(t + h, m) - h

    def _red(self, t, m):
        p = tm.poly(t)
        q = {}
        ch = False
        for mon, c in p.items():
            if mon != () and isinstance(c, int) and c % m == 0:
                ch = True; continue
            q[mon] = c
        return tm.mk_poly(q, t.sort) if ch else t

    # ------------------------------------------------------------ floats
    def rnd(self, x, ty, guard=TRUE):
        """result of a float operation with exact value x"""
        if self.float_mode == 'real' or x.op == 'num':
            return x
        if x.op in ('var', 'app', 'ite') or x.op == 'floor':
            pass
        r = app('fl_' + ty, [x], 'R')
        lo, hi = x.lo, x.hi
        u = Fraction(1, 1 << (24 if ty == 'f32' else 53))
        eta = Fraction(1, 1 << 149)
        key = ('rnd', x, ty)
        # axioms (about the rounding function, unconditional)
        pos = and_(le(x * (1 - u) - eta, r), le(r, x * (1 + u) + eta))
        neg = and_(le(x * (1 + u) - eta, r), le(r, x * (1 - u) + eta))
        self.fact(implies(le(0, x), pos))
        self.fact(implies(le(x, 0), neg))
        for c in self.fl_consts:
            self.fact(implies(le(x, c), le(r, c)))
            self.fact(implies(le(c, x), le(c, r)))
        return r

    fl_consts = (0, 1, -1)
    last_status = None

    # ------------------------------------------------------------ memory
    def fresh_of(self, name, ty):
        if ty == 'ptr' and name.startswith('@std'):
            k = (name, off)
            if k not in self.std_streams: self.std_streams[k] = self.new_region('FILE', 1, None)
            return ptr(self.std_streams[k])
        if ty == 'ptr': raise Unsupported('fresh pointer %s' % name)
        if ty[0] == 'f': return fresh(name, 'R')
        w = ISZ[ty] * 8
        return fresh(name, 'I', -(1 << (w - 1)), (1 << (w - 1)) - 1)

    def default_cell(self, name, key, off, ty):
        if ty == 'ptr' and name.startswith('@std'):
            k = (name, off)
            if k not in self.std_streams: self.std_streams[k] = self.new_region('FILE', 1, None)
            return ptr(self.std_streams[k])
        if ty == 'ptr': raise Unsupported('unknown pointer stored in %s at %s' % (name, off))
        if ty[0] == 'f': return app('%s.%s' % (name, ty), tuple(key) + (off,), 'R')
        w = ISZ[ty] * 8
        return app('%s.%s' % (name, ty), tuple(key) + (off,), 'I', -(1 << (w - 1)), (1 << (w - 1)) - 1)

    def base_read(self, region, provider, name, key, off, ty, guard):
        v = None
        if provider is not None: v = provider(self, key, off, ty)
        if v is None: v = self.default_cell(name, key, off, ty)
        if region.cell_inv is not None and ty != 'ptr' and (region.inv_after is None or ('!' in name and int(name.rsplit('!', 1)[1]) > region.inv_after)):
            if not getattr(self, '_inv_busy', False):
                self._inv_busy = True
                try:
                    def rd(o, t, k=key):
                        vv = provider(self, k, o, t) if provider is not None else None
                        return vv if vv is not None else self.default_cell(name, k, o, t)
                    for f in region.cell_inv(self, rd, key, off): self.fact(f)
                finally:
                    self._inv_busy = False
        return v

    def read(self, region, key, off, ty, guard=TRUE, upto=None):
        log = region.log
        n = len(log) if upto is None else upto
        rs = ISZ[ty]
        acc = []
        base = None
        i = n - 1
        gset = conj(guard)
        while i >= 0:
            e = log[i]; i -= 1
            wg = e[1]
            if excl(wg, guard): continue
            rel = and_(*(conj(wg) - gset))
            k = e[0]
            if k == 'h':
                v = ('prov', e[2], e[3])
                cond = rel
                if cond is TRUE:
                    base = v; break
                acc.append((cond, self.base_read(region, e[2], e[3], key, off, ty, guard)))
                continue
            kc = and_(*[eq(x, y) for x, y in zip(key, e[2])])
            if kc is FALSE: continue
            if k == 'w':
                woff, ws, wty, wv = e[3], e[4], e[5], e[6]
                d = sub(off, woff)
                m = self.overlap(d, rs, ws)
                if m == 'no': continue
                if m == 'maybe':
                    # decide disjointness semantically (bounds of sub-objects)
                    if rs == ws and wty == ty and self._aligned(d, ws):
                        cond = and_(rel, kc, eq(d, 0))
                        if cond is FALSE: continue
                        acc.append((cond, wv))
                        if cond is TRUE: break
                        continue
                    cst = tm.poly(d).get((), 0)
                    cst = cst % ws if isinstance(cst, int) else -1
                    if rs < ws and ty[0] == 'i' and wty[0] == 'i' and 0 <= cst <= ws - rs and self._aligned(d - cst, ws):
                        # part of a wider aligned write
                        cond = and_(rel, kc, eq(d, cst))
                        full = self.u(wv, ws * 8, guard)
                        v = self.high(full, 1 << (8 * cst), guard)
                        acc.append((cond, self.s(v, rs * 8, guard)))
                        continue
                    if self.dry: continue      # only what the loop modifies is collected now; the real pass decides, and checks the collection
                    if self.entails(or_(not_(and_(rel, kc)), le(d, -rs), le(ws, d)), guard):
                        continue
                    raise Unsupported('overlapping access %s: %s+%s vs %s+%s' % (region.name, off, ty, woff, wty))
                # constant difference, overlapping
                dv = d.args
                cond = and_(rel, kc)
                if dv == 0 and rs == ws:
                    acc.append((cond, self.coerce(wv, wty, ty)))
                    if cond is TRUE: break
                    continue
                if ty[0] == 'i' and wty[0] == 'i' and dv >= 0 and dv + rs <= ws:
                    full = self.u(wv, ws * 8, guard)
                    acc.append((cond, self.s(self.high(full, 1 << (8 * dv), guard), rs * 8, guard) if rs < 8 else idiv(full, num(1 << (8 * dv)))))
                    if cond is TRUE: break
                    continue
                if ty[0] == 'i' and rs > 1:
                    # assemble from the halves
                    h = rs // 2
                    lo = self.u(self.read(region, key, off, 'i%d' % (h * 8), guard, n), h * 8, guard)
                    hi = self.read(region, key, off + h, 'i%d' % (h * 8), guard, n)
                    return self.fold(acc, lo + hi * (1 << (8 * h)))
                raise Unsupported('type punning %s: %s over %s at %s' % (region.name, ty, wty, off))
            elif k == 'z':
                cond = and_(rel, kc, le(e[3], off), le(off + rs, e[3] + e[4]))
                if cond is FALSE: continue
                zero = NULL if ty == 'ptr' else num(0, 'R' if ty[0] == 'f' else 'I')
                if e[5] != 0: raise Unsupported('memset with nonzero byte')
                acc.append((cond, zero))
                if cond is TRUE: break
            elif k == 'c':
                cond = and_(rel, kc, le(e[3], off), le(off + rs, e[3] + e[4]))
                if cond is FALSE: continue
                sreg, skey, soff, spos = e[5], e[6], e[7], e[8]
                v = self.read(sreg, skey, off - e[3] + soff, ty, and_(guard, wg), spos)
                acc.append((cond, v))
                if cond is TRUE: break
        else:
            base = ('prov', region.base, region.uid)
        if base is not None:
            try: acc.append((TRUE, self.base_read(region, base[1], base[2], key, off, ty, guard)))
            except Unsupported:
                # unknown from before, but written on every path that leads here
                if not (acc and ty == 'ptr' and self.entails(or_(*[c for c, v in acc]), guard)): raise
        return self.fold(acc[:-1], acc[-1][1])

    def fold(self, acc, last):
        v = last
        for c, x in reversed(acc):
            v = val_ite(c, x, v)
        return v

    def _aligned(self, d, w):
        p = tm.poly(d)
        return all(isinstance(c, int) and c % w == 0 for c in p.values())

    def coerce(self, v, wty, ty):
        if wty == ty: return v
        if ty == 'ptr' and isinstance(v, Ptr): return v
        raise Unsupported('reinterpreting %s as %s' % (wty, ty))

    def overlap(self, d, rs, ws):
        if d.op == 'num':
            v = d.args
            return 'yes' if -rs < v < ws else 'no'
        if (d.lo is not None and d.lo >= ws) or (d.hi is not None and d.hi <= -rs): return 'no'
        p = tm.poly(d)
        g = 0
        for m, c in p.items():
            if m == (): continue
            if not isinstance(c, int): return 'maybe'
            g = gcd(g, abs(c))
        r = p.get((), 0) % g
        if r >= ws and r <= g - rs: return 'no'
        return 'maybe'

    def deref(self, p, size, guard, what, write=False):
        """bounds/null obligations; yields (cond, region, key, off)"""
        if not isinstance(p, Ptr): raise Unsupported('dereference of a non-pointer')
        out = []
        nul = is_null(p)
        if nul is not FALSE:
            self.oblige('%s: pointer not NULL' % what, 'null', guard, not_(nul), what)
        for c, r, k, o in p.alts:
            if r is None: continue
            if excl(guard, c): continue
            if isinstance(r, Func): raise Unsupported('dereference of function pointer')
            g = and_(guard, c)
            if r.size is not None:
                self.oblige('%s: within %s' % (what, r.name), 'bounds', g, and_(le(0, o), le(o + size, r.size)), what)
            if r.alive is not None:
                self.oblige('%s: %s not freed' % (what, r.name), 'alive', g, r.alive(self, k, g), what)
            out.append((c, r, k, o))
        return out

    def load(self, p, ty, guard, what):
        alts = self.deref(p, ISZ[ty], guard, what)
        if not alts: return self.fresh_of('invalid', ty) if ty != 'ptr' else NULL
        v = None
        for c, r, k, o in reversed(alts):
            x = self.read(r, k, o, ty, and_(guard, c) if len(alts) > 1 else guard)
            v = x if v is None else val_ite(c, x, v)
        return v

    def store(self, p, ty, v, guard, what):
        for c, r, k, o in self.deref(p, ISZ[ty], guard, what, True):
            if r.const:
                self.oblige('%s: %s is read-only' % (what, r.name), 'frame', and_(guard, c), FALSE, what)
            if r.on_store is not None: r.on_store(k, o, ty, v, and_(guard, c))
            r.log.append(('w', and_(guard, c), k, o, ISZ[ty], ty, v))

    # ------------------------------------------------------------ constants
    def global_ptr(self, name):
        if name in self.mod.fns or name in self.mod.decls:
            return ptr(func(name))
        if name not in self.globals:
            t, const, init = self.mod.globals[name]
            r = Region('@' + name, self.mod.size(t))
            cells = {}
            fill = []
            if init is not None: self.init_cells(t, init, 0, cells, fill)
            def base(ex, key, off, ty, cells=cells, fill=fill, r=r, t=t, const=const):
                if not const and not r.ginit: return None
                if off.op == 'num':
                    return self.const_cell(cells, fill, off.args, ty)
                # symbolic offset into a constant table
                p = tm.poly(off)
                g = 0
                for m, c in p.items():
                    if m != (): g = gcd(g, abs(c))
                start = p.get((), 0) % g
                lo, hi = off.lo, off.hi
                size = self.mod.size(t)
                v = None
                n = (size - start + g - 1) // g
                if n > 700: return None
                for i in range(n - 1, -1, -1):
                    o = start + i * g
                    if (lo is not None and o < lo) or (hi is not None and o > hi): continue
                    if o + ISZ[ty] > size: continue
                    x = self.const_cell(cells, fill, o, ty)
                    v = x if v is None else val_ite(eq(off, o), x, v)
                return v
            r.base = base
            r.ginit = False
            r.const = const
            self.regions.append(r)
            # globals live for the whole run: insert before any checkpoint logic can drop them
            self.globals[name] = r
        r = self.globals[name]
        if r not in self.regions: self.regions.append(r)
        return ptr(r)

    def const_cell(self, cells, fill, o, ty):
        x = cells.get(o)
        if x is not None and x[0] == ty: return x[1]
        if x is not None and ty == 'i8' and x[0] == 'i8': return x[1]
        for a, b in fill:
            if a <= o and o + ISZ[ty] <= b:
                return NULL if ty == 'ptr' else num(0, 'R' if ty[0] == 'f' else 'I')
        return None

    def init_cells(self, t, v, off, cells, fill):
        t = self.mod.resolve(t)
        if v[0] == 'zero' or v[0] == 'undef':
            fill.append((off, off + self.mod.size(t))); return
        if t.k == 'arr' or t.k == 'vec':
            es = self.mod.size(t.a[1])
            if v[0] == 'bytes':
                for i, b in enumerate(v[1]): cells[off + i] = ('i8', num(b))
                return
            for i, (et, ev) in enumerate(v[1]): self.init_cells(et, ev, off + i * es, cells, fill)
            return
        if t.k == 'struct':
            offs, _ = self.mod.layout(t)
            for (et, ev), o in zip(v[1], offs): self.init_cells(et, ev, off + o, cells, fill)
            return
        cells[off] = (tyk(t), self.const(t, v))

    def const(self, t, v):
        k = v[0]
        if k == 'int':
            if t.k == 'int' and t.a[0] == 1: return TRUE if v[1] else FALSE
            return num(v[1])
        if k == 'fp':
            if isinstance(v[1], str): return self.special(v[1])
            if self.decimals and tyk(t) == 'f32': v = (k, short_decimal(v[1]))
            return num(v[1], 'R') if not isinstance(v[1], Fraction) else tm.mk_poly({(): v[1]} if v[1] != 0 else {}, 'R')
        if k == 'null': return NULL
        if k == 'undef':
            if t.k == 'ptr': return NULL
            if t.k in ('arr', 'struct', 'vec'): return self.zero_agg(t)
            if t.k == 'int' and t.a[0] == 1: return FALSE
            return self.fresh_of('undef', tyk(t))
        if k == 'zero':
            if t.k in ('arr', 'struct', 'vec'): return self.zero_agg(t)
            if t.k == 'ptr': return NULL
            return num(0)
        if k == 'glob': return self.global_ptr(v[1])
        if k == 'gep':
            b = self.const(ir.PTR, v[2])
            return self.gep(v[1], b, [self.const(tt, x) for tt, x in v[3]], [tt for tt, x in v[3]])
        if k == 'agg': return [self.const(tt, x) for tt, x in v[1]]
        if k == 'cast':
            return self.const(v[2], v[3])
        raise Unsupported('constant %s' % (v,))

    def special(self, s):
        # infinities appear in comparisons only; modelled as huge sentinels
        self.assumed.add('float infinities are modelled as reals beyond every other value used')
        return var('FP_' + s.replace('-', 'm'), 'R', 10 ** 40 if s == 'inf' else None, -10 ** 40 if s == '-inf' else None)

    def zero_agg(self, t):
        t = self.mod.resolve(t)
        if t.k in ('arr', 'vec'): return [self.const(t.a[1], ('zero',)) for _ in range(t.a[0])]
        return [self.const(x, ('zero',)) for x in t.a[0]]

    def val(self, fr, t, v):
        if v[0] == 'loc':
            try: return fr.env[v[1]]
            except KeyError: raise Unsupported('use of %%%s before definition in %s' % (v[1], fr.fn.name))
        return self.const(t, v)

    def gep(self, bt, base, idx, tys):
        off = mul(self.s(idx[0], tys[0].a[0]), num(self.mod.size(bt)))
        t = self.mod.resolve(bt)
        for i, ity in zip(idx[1:], tys[1:]):
            if t.k == 'struct':
                off = add(off, self.mod.layout(t)[0][i.args])
                t = self.mod.resolve(t.a[0][i.args])
            else:
                es = self.mod.size(t.a[1])
                off = add(off, mul(self.s(i, ity.a[0]), num(es)))
                t = self.mod.resolve(t.a[1])
        if not isinstance(base, Ptr): raise Unsupported('gep on non-pointer')
        return base.shift(off)

    # ------------------------------------------------------------ functions
    def call_fn(self, name, args, guard):
        """inline a defined function; returns the merged return value (or None)"""
        fn = self.mod.fns[name]
        self.used[name] = self.used.get(name, 0) + 1
        self.depth += 1
        if self.depth > 40: raise Unsupported('recursion in %s' % name)
        fr = Frame(fn, self)
        fr.inline_id = self.used[name]
        for (pn, pt, bv), a in zip(fn.params, args): fr.env[pn] = a
        entry = fn.order[0]
        e = [Edge(guard, None, entry, {})]
        self.frames.append(fr)
        self.exec_region(fr, set(fr.rpo), entry, e, None)
        self.frames.pop()
        self.depth -= 1
        fr.retguard = or_(*[g for g, v in fr.rets]) if fr.rets else FALSE
        self.last_guard = fr.retguard
        if fn.ret.k == 'void': return None, fr.retguard
        if not fr.rets: return self.undef_of(fn.ret), FALSE
        v = fr.rets[-1][1]
        common = frozenset.intersection(*[conj(g) for g, _ in fr.rets])
        for g, x in reversed(fr.rets[:-1]):
            v = val_ite(and_(*(conj(g) - common)), x, v)
        return v, fr.retguard

    def undef_of(self, t):
        if t.k == 'ptr': return NULL
        if t.k in ('struct', 'arr', 'vec', 'named'): return self.zero_agg(t)
        if t.k == 'int' and t.a[0] == 1: return FALSE
        return self.fresh_of('undef', tyk(t))

    def exec_region(self, fr, blocks, entry, entry_edges, loop_header):
        """returns (exit_edges, back_edges)"""
        pending = {entry: list(entry_edges)}
        exits, backs = [], []
        skip = set()
        def route(e):
            if e.guard is FALSE: return
            if loop_header is not None and e.dst == loop_header: backs.append(e)
            elif e.dst not in blocks: exits.append(e)
            else: pending.setdefault(e.dst, []).append(e)
        for b in fr.rpo:
            if b not in blocks or b in skip: continue
            edges = pending.get(b)
            if b in fr.loops and b != loop_header:
                skip |= fr.loops[b]
                if not edges: continue
                for e in self.handle_loop(fr, b, fr.loops[b], edges): route(e)
                continue
            if not edges: continue
            g = or_(*[e.guard for e in edges])
            if g is FALSE: continue
            self.enter(fr, b, edges)
            for e in self.exec_block(fr, b, g): route(e)
        return exits, backs

    def merged(self, edges, name):
        v = edges[-1].vals[name]
        if len(edges) == 1: return v
        common = frozenset.intersection(*[conj(e.guard) for e in edges])
        for e in reversed(edges[:-1]):
            v = val_ite(and_(*(conj(e.guard) - common)), e.vals[name], v)
        return v

    def enter(self, fr, b, edges):
        blk = fr.fn.blocks[b]
        vals = {p.res: self.merged(edges, p.res) for p in blk.phis}
        fr.env.update(vals)

    def edge(self, fr, g, src, dst):
        vals = {}
        for p in fr.fn.blocks[dst].phis:
            for pb, v in p.x['inc']:
                if pb == src:
                    vals[p.res] = self.val(fr, p.ty, v); break
        return Edge(g, src, dst, vals)

    def exec_block(self, fr, b, g):
        blk = fr.fn.blocks[b]
        fr.cur_block = b
        for I in blk.ins:
            g2 = self.exec_ins(fr, I, g)
            if g2 is not None:
                g = g2
                if g is FALSE: return []
        t = blk.term
        if t.op == 'br':
            s = t.x['succ']
            if len(s) == 1: return [self.edge(fr, g, b, s[0])]
            c = self.val(fr, *t.ops[0])
            if s[0] == s[1]: return [self.edge(fr, g, b, s[0])]
            if self.path_fn == fr.fn.name and c.op not in ('true', 'false'):
                # path mode: this run follows one path of the function; all paths are covered by separate runs
                k = self.path_pos; self.path_pos += 1
                if k < len(self.path): d = self.path[k]
                else:
                    d = not self.entails(not_(c), g)
                    alt = not self.entails(c, g) if d else False
                    self.path.append(d)
                    if alt: self.path_alts.append(self.path[:k] + [not d])
                self.fact(c if d else not_(c), g)
                return [self.edge(fr, g, b, s[0 if d else 1])]
            ge, gf = and_(g, c), and_(g, not_(c))
            # prune infeasible branches syntactically only
            r = []
            if ge is not FALSE: r.append(self.edge(fr, ge, b, s[0]))
            if gf is not FALSE: r.append(self.edge(fr, gf, b, s[1]))
            return r
        if t.op == 'switch':
            ty = t.ops[0][0]
            v = self.val(fr, *t.ops[0])
            w = ty.a[0]
            r = []
            rest = TRUE
            bydst = {}
            for cv, dst in t.x['cases']:
                c = self.icmp_eq(v, num(cv), w, g)
                bydst.setdefault(dst, []).append(c)
                rest = and_(rest, not_(c))
            bydst.setdefault(t.x['def'], []).append(rest)
            for dst, cs in bydst.items():
                gg = and_(g, or_(*cs))
                if gg is not FALSE: r.append(self.edge(fr, gg, b, dst))
            return r
        if t.op == 'ret':
            v = self.val(fr, *t.ops[0]) if t.ops else None
            fr.rets.append((g, v))
            return []
        if t.op == 'unreachable':
            return []
        raise Unsupported(t.op)

    def where(self, fr, I):
        return '%s:%d' % (fr.fn.name, self.mod.line(I.dbg) if I.dbg else 0)

    def icmp_eq(self, a, b, w, g):
        m = 1 << w; h = m >> 1
        def inr(t, lo, hi): return t.lo is not None and t.hi is not None and t.lo >= lo and t.hi < hi
        if b.op == 'num':
            # choose the representation of the constant that fits the range of a
            bv = b.args % m
            if inr(a, 0, m): return eq(a, bv)
            bs = bv - m if bv >= h else bv
            if inr(a, -h, h): return eq(a, bs)
        if (inr(a, 0, m) and inr(b, 0, m)) or (inr(a, -h, h) and inr(b, -h, h)): return eq(a, b)
        return eq(self.s(a, w, g), self.s(b, w, g))

    def exec_ins(self, fr, I, g):
        op = I.op
        env = fr.env
        V = lambda i: self.val(fr, *I.ops[i])
        if op == 'load':
            vb = I.ty.k == 'int' and I.ty.a[0] == 1
            if I.ty.k == 'vec' or I.ty.k in ('struct', 'arr'):
                env[I.res] = self.load_agg(V(0), I.ty, g, self.where(fr, I)); return
            v = self.load(V(0), tyk(I.ty), g, self.where(fr, I))
            env[I.res] = ne(v, 0) if vb else v
        elif op == 'store':
            t = I.ops[0][0]
            v = V(0)
            if t.k == 'int' and t.a[0] == 1: v = ite(v, num(1), num(0))
            if isinstance(v, list): self.store_agg(V(1), t, v, g, self.where(fr, I)); return
            self.store(V(1), tyk(t), v, g, self.where(fr, I))
        elif op == 'getelementptr':
            idx = [self.val(fr, *o) for o in I.ops[1:]]
            env[I.res] = self.gep(I.x['bt'], V(0), idx, [o[0] for o in I.ops[1:]])
        elif op == 'alloca':
            n = self.mod.size(I.x['at'])
            if I.x['n'] is not None:
                c = self.val(fr, *I.x['n'])
                n = mul(c, n)
            r = self.new_region('%s.%s' % (fr.fn.name, I.res), n); r.stack = True
            if self.on_stack is not None: self.on_stack(r)
            env[I.res] = ptr(r)
        elif op in ('add', 'sub', 'mul'):
            w = I.ty.a[0]
            a, b = V(0), V(1)
            if w == 1: raise Unsupported('i1 arithmetic')
            if 'nsw' in I.x['fl']:
                a, b = self.s(a, w, g), self.s(b, w, g)
                if op == 'mul' and self.name_products: a, b = self.named(a, w, g), self.named(b, w, g)
                r = add(a, b) if op == 'add' else sub(a, b) if op == 'sub' else mul(a, b)
                h = 1 << (w - 1)
                if self.check_overflow:
                    self.oblige('%s: no signed overflow (%s)' % (self.where(fr, I), op), 'overflow', g, and_(le(-h, r), lt(r, h)), self.where(fr, I))
            else:
                r = add(a, b) if op == 'add' else sub(a, b) if op == 'sub' else mul(a, b)
                r = self._red(r, 1 << w)
            env[I.res] = r
        elif op in ('udiv', 'urem', 'sdiv', 'srem'):
            w = I.ty.a[0]
            f = self.u if op[0] == 'u' else self.s
            a, b = f(V(0), w, g), f(V(1), w, g)
            if not tm.nonzero(b):
                self.oblige('%s: divisor not zero' % self.where(fr, I), 'div0', g, ne(b, 0), self.where(fr, I))
            if self.name_products: a, b = self.named(a, w, g), self.named(b, w, g)
            q = self.divs(a, b, g)
            if op[0] == 's' and not (a.lo is not None and a.lo > -(1 << (w - 1))) and not (b.lo is not None and b.lo >= 0):
                self.oblige('%s: division overflow' % self.where(fr, I), 'overflow', g, not_(and_(eq(a, -(1 << (w - 1))), eq(b, -1))), self.where(fr, I))
            env[I.res] = q if op[1:] == 'div' else sub(a, mul(q, b))
        elif op in ('shl', 'lshr', 'ashr'):
            w = I.ty.a[0]
            a, b = V(0), V(1)
            if b.op != 'num': raise Unsupported('variable shift')
            k = num(1 << b.args)
            if op == 'shl':
                if 'nsw' in I.x['fl']:
                    a = self.s(a, w, g); r = mul(a, k); h = 1 << (w - 1)
                    self.oblige('%s: no signed overflow (shl)' % self.where(fr, I), 'overflow', g, and_(le(-h, r), lt(r, h)), self.where(fr, I))
                    env[I.res] = r
                else: env[I.res] = mul(a, k)
            elif op == 'lshr': env[I.res] = self.high(self.u(a, w, g), k.args, g) if k.op == "num" else idiv(self.u(a, w, g), k)
            else: env[I.res] = idiv(self.s(a, w, g), k)
        elif op in ('and', 'or', 'xor'):
            env[I.res] = self.bitop(op, V(0), V(1), I.ty.a[0], g)
        elif op == 'icmp':
            env[I.res] = self.icmp(I.x['pred'], V(0), V(1), I.ops[0][0], g)
        elif op == 'fcmp':
            env[I.res] = self.fcmp(I.x['pred'], V(0), V(1))
        elif op == 'select':
            c = V(0)
            if isinstance(c, list): raise Unsupported('vector select')
            env[I.res] = val_ite(c, V(1), V(2))
        elif op in ('fadd', 'fsub', 'fmul', 'fdiv', 'fneg', 'frem'):
            if I.ty.k == 'vec': raise Unsupported('vector float')
            ty = tyk(I.ty)
            a = V(0)
            if op == 'fneg': env[I.res] = -a; return
            b = V(1)
            if op == 'fadd': r = add(real(a), real(b))
            elif op == 'fsub': r = sub(real(a), real(b))
            elif op == 'fmul': r = mul(real(a), real(b))
            elif op == 'fdiv':
                if not tm.nonzero(b):
                    self.oblige('%s: float divisor not zero' % self.where(fr, I), 'fdiv0', g, ne(b, 0) if self.fdiv_ok is None else or_(ne(b, 0), self.fdiv_ok(b)), self.where(fr, I))
                r = self.fdiv(real(a), real(b))
            else: raise Unsupported('frem')
            env[I.res] = self.rnd(r, ty)
        elif op == 'zext':
            if I.ops[0][0].k == 'int' and I.ops[0][0].a[0] == 1: env[I.res] = ite(V(0), num(1), num(0))
            else: env[I.res] = self.u(V(0), I.ops[0][0].a[0], g)
        elif op == 'sext':
            if I.ops[0][0].a[0] == 1: env[I.res] = ite(V(0), num(-1), num(0))
            else: env[I.res] = self.s(V(0), I.ops[0][0].a[0], g)
        elif op == 'trunc':
            w = I.ty.a[0]
            if w == 1: env[I.res] = ne(imod(V(0), 2), 0)
            else: env[I.res] = self._red(V(0), 1 << w)
        elif op in ('sitofp', 'uitofp'):
            st = I.ops[0][0]
            if st.a[0] == 1: env[I.res] = ite(V(0), num(1, 'R') if op[0] == 'u' else num(-1, 'R'), num(0, 'R')); return
            a = (self.s if op[0] == 's' else self.u)(V(0), st.a[0], g)
            lim = 1 << (24 if I.ty.k == 'float' else 53)
            if len([mm for mm in tm.poly(a) if mm != ()]) > 1: a = self.named_int(a, st.a[0], g)
            r = real(a)
            if a.lo is not None and a.hi is not None and a.lo >= -lim and a.hi <= lim: env[I.res] = r
            else: env[I.res] = self.rnd(r, tyk(I.ty))
        elif op in ('fptosi', 'fptoui'):
            a = V(0)
            r = trunc(a)
            w = I.ty.a[0]
            lo, hi = (-(1 << (w - 1)), (1 << (w - 1)) - 1) if op == 'fptosi' else (0, (1 << w) - 1)
            c = and_(le(lo, r), le(r, hi))
            if implies(g, c) is not TRUE:
                self.oblige('%s: float to integer conversion in range' % self.where(fr, I), 'fpcast', g, c, self.where(fr, I))
            if r.lo is None or r.hi is None or r.lo < lo or r.hi > hi:
                # name it with the range (the obligation above justifies it)
                if r.op != 'num':
                    n = app('cvt_i%d' % w, [r], 'I', lo, hi)
                    self.fact(implies(c, eq(n, r)))
                    r = n
            if self.name_products: r = self.named(r, w, g)
            env[I.res] = r
        elif op == 'fpext': env[I.res] = V(0)
        elif op == 'fptrunc': env[I.res] = self.rnd(V(0), tyk(I.ty))
        elif op == 'bitcast':
            a = V(0)
            st, dt = I.ops[0][0], I.ty
            if st.k == 'ptr' and dt.k == 'ptr': env[I.res] = a
            else: raise Unsupported('bitcast %s to %s' % (st, dt))
        elif op == 'ptrtoint':
            env[I.res] = ('pint', V(0))
        elif op == 'call': return self.call(fr, I, g)
        elif op == 'freeze': env[I.res] = V(0)
        elif op == 'extractvalue':
            v = V(0)
            for i in I.x['idx']: v = v[i]
            env[I.res] = v
        elif op == 'insertvalue':
            def ins(a, idx, x):
                a = list(a)
                if len(idx) == 1: a[idx[0]] = x
                else: a[idx[0]] = ins(a[idx[0]], idx[1:], x)
                return a
            env[I.res] = ins(V(0), I.x['idx'], V(1))
        elif op == 'extractelement':
            i = V(1)
            if i.op != 'num': raise Unsupported('dynamic vector index')
            env[I.res] = V(0)[i.args]
        elif op == 'insertelement':
            i = V(2)
            a = list(V(0)); a[i.args] = V(1); env[I.res] = a
        else:
            raise Unsupported('instruction ' + op)

    name_products = False
    div_uf = False

    def fdiv(self, a, b):
        if self.div_uf and b.op != 'num': return app('quotient', [a, b], 'R')
        return rdiv(a, b)

    path_fn = None

    def named(self, a, w, g):
        if len([mm for mm in tm.poly(a) if mm != ()]) > 1 or a.op == 'ite': return self.named_int(a, w, g)
        return a

    def named_int(self, a, w, g):
        """an atom equal to the compound integer a (keeps products with it intact)"""
        if self.dry: return a
        for lo, hi in ((0, 1 << 15), (0, 65535)) + (((-32768, 32768), (-65536, 65536)) if self.name_products else ()) + ((-(1 << 31), (1 << 31) - 1),):
            if a.lo is not None and a.hi is not None and lo <= a.lo and a.hi <= hi: break
            if self.entails(and_(le(lo, a), le(a, hi)), g): break
        else: return a
        n = app('int', [a], 'I', lo, hi)
        self.fact(implies(and_(le(lo, a), le(a, hi)), eq(n, a)))
        return n

    def load_agg(self, p, t, g, what):
        t = self.mod.resolve(t)
        if t.k in ('vec', 'arr'):
            es = self.mod.size(t.a[1])
            return [self.load(p.shift(num(i * es)), tyk(t.a[1]), g, what) for i in range(t.a[0])]
        offs, _ = self.mod.layout(t)
        return [self.load(p.shift(num(o)), tyk(x), g, what) for x, o in zip(t.a[0], offs)]

    def store_agg(self, p, t, v, g, what):
        t = self.mod.resolve(t)
        if t.k in ('vec', 'arr'):
            es = self.mod.size(t.a[1])
            for i in range(t.a[0]): self.store(p.shift(num(i * es)), tyk(t.a[1]), v[i], g, what)
            return
        offs, _ = self.mod.layout(t)
        for x, o, y in zip(t.a[0], offs, v): self.store(p.shift(num(o)), tyk(x), y, g, what)

    def divs(self, a, b, g):
        """truncating division of mathematical integers"""
        if b.op == 'num':
            if b.args == 0: return fresh('div0', 'I')
            if b.args < 0: return -self.divs(a, num(-b.args), g)
            if a.lo is not None and a.lo >= 0: return idiv(a, b)
            if self.entails(le(0, a), g): return idiv(a, b)
            return ite(le(0, a), idiv(a, b), -idiv(-a, b))
        an = (a.lo is not None and a.lo >= 0) or self.entails(le(0, a), g)
        bn = (b.lo is not None and b.lo >= 0) or self.entails(le(0, b), g)
        if an and bn: return idiv(a, b)
        if bn: return ite(le(0, a), idiv(a, b), -idiv(-a, b))
        if an: return ite(le(0, b), idiv(a, b), -idiv(a, -b))
        return ite(le(0, b), ite(le(0, a), idiv(a, b), -idiv(-a, b)), ite(le(0, a), -idiv(a, -b), idiv(-a, -b)))

    def bitop(self, op, a, b, w, g):
        if w == 1:
            if op == 'and': return and_(a, b)
            if op == 'or': return or_(a, b)
            return not_(eq(a, b))
        if a.op == 'num' and b.op != 'num': a, b = b, a
        if b.op == 'num':
            c = b.args % (1 << w)
            if a.op == 'num':
                x = a.args % (1 << w)
                return num({'and': x & c, 'or': x | c, 'xor': x ^ c}[op])
            if op == 'and':
                if c == 0: return num(0)
                if c & (c + 1) == 0: return imod(self.u(a, w, g) if False else a, c + 1)
                nc = (~c) & ((1 << w) - 1)
                if nc & (nc + 1) == 0: return a - imod(a, nc + 1)
            if op == 'xor' and c == (1 << w) - 1: return -1 - a
            if op == 'or' and c == 0: return a
        if op == 'or':
            for x, y in ((a, b), (b, a)):
                # x multiple of 2^k and 0 <= y < 2^k
                p = tm.poly(x)
                k = 0
                gg = 0
                for m, c in p.items(): gg = gcd(gg, abs(c)) if isinstance(c, int) else 1
                if gg == 0: return y
                k = gg & -gg
                if y.lo is not None and y.hi is not None and y.lo >= 0 and y.hi < k: return add(x, y)
                if k > 1 and self.entails(and_(le(0, y), lt(y, num(k))), g): return add(x, y)
        ua, ub = self.u(a, w, g), self.u(b, w, g)
        r = app('bv_%s_%d' % (op, w), sorted([ua, ub], key=lambda t: t.id), 'I', 0, (1 << w) - 1)
        if op == 'and':
            self.fact(le(r, ua)); self.fact(le(r, ub))
        if op == 'or':
            self.fact(le(ua, r)); self.fact(le(ub, r)); self.fact(le(r, ua + ub))
        if op == 'xor': self.fact(le(r, ua + ub))
        return r

    def icmp(self, pred, a, b, t, g):
        if isinstance(a, tuple) or isinstance(b, tuple):
            if isinstance(a, tuple) and isinstance(b, tuple): a, b = a[1], b[1]
            else: raise Unsupported('pointer/integer comparison')
        if isinstance(a, Ptr) or isinstance(b, Ptr):
            if pred in ('eq', 'ne'):
                c = ptr_eq(a, b)
                return c if pred == 'eq' else not_(c)
            if len(a.alts) == 1 and len(b.alts) == 1 and a.alts[0][1] is b.alts[0][1]:
                x, y = a.alts[0][3], b.alts[0][3]
                return {'u<': None, 'ult': lt(x, y), 'ule': le(x, y), 'ugt': lt(y, x), 'uge': le(y, x)}[pred]
            raise Unsupported('pointer order comparison')
        w = t.a[0]
        if w == 1:
            c = eq(a, b)
            return c if pred == 'eq' else not_(c)
        if pred in ('eq', 'ne'):
            c = self.icmp_eq(a, b, w, g)
            return c if pred == 'eq' else not_(c)
        f = self.s if pred[0] == 's' else self.u
        a, b = f(a, w, g), f(b, w, g)
        return {'lt': lt, 'le': le, 'gt': lambda x, y: lt(y, x), 'ge': lambda x, y: le(y, x)}[pred[1:]](a, b)

    def fcmp(self, pred, a, b):
        if pred == 'true' or pred == 'ord': return TRUE
        if pred == 'false' or pred == 'uno': return FALSE
        p = pred[1:]
        return {'lt': lt, 'le': le, 'gt': lambda x, y: lt(y, x), 'ge': lambda x, y: le(y, x), 'eq': eq, 'ne': ne}[p](a, b)

    # ------------------------------------------------------------ calls
    def call(self, fr, I, g):
        c = I.x['callee']
        args = []
        for t, v, bv in I.x['args']:
            if v is None: continue
            a = self.val(fr, t, v)
            if bv and bv[0] == 'byval':
                # caller passes a copy
                r = self.new_region('byval', self.mod.size(bv[1]))
                self.copy(ptr(r), a, num(self.mod.size(bv[1])), g, self.where(fr, I))
                a = ptr(r)
            args.append(a)
        if c[0] == 'glob':
            targets = [(TRUE, c[1])]
        else:
            p = self.val(fr, ir.PTR, c)
            targets = []
            nul = is_null(p)
            if nul is not FALSE: self.oblige('%s: function pointer not NULL' % self.where(fr, I), 'null', g, not_(nul), self.where(fr, I))
            for cc, r, k, o in p.alts:
                if r is None: continue
                if not isinstance(r, Func): raise Unsupported('call through data pointer')
                targets.append((cc, r.name))
        res = None
        gout = []
        for cc, name in targets:
            gg = and_(g, cc)
            if gg is FALSE: continue
            v, g2 = self.call_named(fr, I, name, args, gg)
            gout.append(g2)
            res = v if res is None else val_ite(cc, v, res)
        if I.res is not None: fr.env[I.res] = res
        return or_(*gout) if gout else FALSE

    def call_named(self, fr, I, name, args, g):
        w = self.where(fr, I)
        if name in self.contracts:
            self.called_contract[name] = self.called_contract.get(name, 0) + 1
            r = self.contracts[name](self, args, g, w)
            if isinstance(r, tuple) and len(r) == 2 and r[0] == 'guarded': return r[1]
            return r, g
        if name in self.mod.fns:
            v, rg = self.call_fn(name, args, g)
            return v, rg
        b = getattr(self, 'x_' + name.replace('.', '_'), None)
        if b is None and name.startswith('llvm.'):
            parts = name.split('.')
            b = getattr(self, 'x_llvm_' + parts[1], None)
            if b is None and len(parts) > 2: b = getattr(self, 'x_llvm_%s_%s' % (parts[1], parts[2]), None)
        if b is None: raise Unsupported('call to %s at %s' % (name, w))
        r = b(args, g, w, I)
        if isinstance(r, tuple) and r and r[0] == 'guarded': return r[1]
        return r, g

    def copy(self, dst, src, n, g, w):
        for c, r, k, o in self.deref(dst, 0, g, w):
            for c2, r2, k2, o2 in self.deref(src, 0, and_(g, c), w):
                gg = and_(g, c, c2)
                if gg is FALSE: continue
                if r.size is not None: self.oblige('%s: copy within %s' % (w, r.name), 'bounds', gg, and_(le(0, o), le(o + n, r.size)), w)
                if r2.size is not None: self.oblige('%s: copy from within %s' % (w, r2.name), 'bounds', gg, and_(le(0, o2), le(o2 + n, r2.size)), w)
                if r.const: self.oblige('%s: %s is read-only' % (w, r.name), 'frame', gg, FALSE, w)
                r.log.append(('c', gg, k, o, n, r2, k2, o2, len(r2.log)))

    def x_llvm_memcpy(self, a, g, w, I): self.copy(a[0], a[1], self.u(a[2], 64, g), g, w)
    x_llvm_memmove = x_llvm_memcpy
    def x_memcpy(self, a, g, w, I): self.copy(a[0], a[1], self.u(a[2], 64, g), g, w); return a[0]
    def x_llvm_memset(self, a, g, w, I):
        n = self.u(a[2], 64, g)
        for c, r, k, o in self.deref(a[0], 0, g, w):
            gg = and_(g, c)
            if r.size is not None: self.oblige('%s: memset within %s' % (w, r.name), 'bounds', gg, and_(le(0, o), le(o + n, r.size)), w)
            if r.const: self.oblige('%s: %s is read-only' % (w, r.name), 'frame', gg, FALSE, w)
            b = a[1].args if a[1].op == 'num' else None
            if b is None: raise Unsupported('memset with symbolic byte')
            r.log.append(('z', gg, k, o, n, b))
    def x_memset(self, a, g, w, I): self.x_llvm_memset(a, g, w, I); return a[0]

    def x_malloc(self, a, g, w, I):
        n = self.u(a[0], 64, g)
        r = self.new_region('heap@%s' % w, n)
        if self.on_alloc: self.on_alloc(r)
        if self.malloc_may_fail:
            ok = fresh('malloc_ok', 'B')
            return Ptr([(ok, r, (), num(0)), (not_(ok), None, (), num(0))])
        self.assumed.add('malloc/calloc succeed')
        return ptr(r)
    def x_realloc(self, a, g, w, I):
        n = self.u(a[1], 64, g)
        r = self.new_region('heap@%s' % w, n)
        if self.on_alloc: self.on_alloc(r)
        ok = fresh('realloc_ok', 'B') if self.malloc_may_fail else TRUE
        if ok is TRUE: self.assumed.add('malloc/calloc succeed')
        for c, o, k, off in a[0].alts:
            if o is None: continue
            gg = and_(g, c, ok)
            self.oblige('%s: the start of a block is reallocated' % w, 'pre', gg, eq(off, 0), w)
            r.log.append(('c', gg, (), num(0), n if o.size is None else tm.min_(n, tm.T_(o.size)), o, k, num(0), len(o.log)))
            self.ghost_calls.append(('free', gg, Ptr([(TRUE, o, k, off)]), w))
        return Ptr([(ok, r, (), num(0)), (not_(ok), None, (), num(0))]) if ok is not TRUE else ptr(r)
    def x_calloc(self, a, g, w, I):
        n = mul(self.u(a[0], 64, g), self.u(a[1], 64, g))
        r = self.new_region('heap@%s' % w, n)
        if self.on_alloc: self.on_alloc(r)
        r.log.append(('z', TRUE, (), num(0), n, 0))
        self.assumed.add('malloc/calloc succeed')
        return ptr(r)
    def x_free(self, a, g, w, I):
        self.ghost_calls.append(('free', g, a[0], w))
        return None
    def x___assert_fail(self, a, g, w, I):
        self.oblige('%s: assertion' % w, 'assert', g, FALSE, w)
        return ('guarded', (None, FALSE))
    def x_printf(self, a, g, w, I): return self.fresh_of('printf', 'i32')
    x_fprintf = x_puts = x_putchar = x_fputs = x_perror = x_putc = x_fputc = x_printf
    def x_fwrite(self, a, g, w, I): return self.fresh_of('fwrite', 'i64')
    def x_abort(self, a, g, w, I):
        self.oblige('%s: abort not reached' % w, 'assert', g, FALSE, w)
        return ('guarded', (None, FALSE))
    def x_llvm_floor(self, a, g, w, I): return real(floor(a[0]))
    def x_floor(self, a, g, w, I): return real(floor(a[0]))
    x_floorf = x_floor
    def x_llvm_ceil(self, a, g, w, I): return real(-floor(-a[0]))
    x_ceilf = x_ceil = x_llvm_ceil
    def x_llvm_trunc(self, a, g, w, I): return real(trunc(a[0]))
    x_truncf = x_llvm_trunc
    def x_llvm_round(self, a, g, w, I):
        x = a[0]
        h = Fraction(1, 2)
        if x.lo is not None and x.lo >= 0: return real(floor(x + h))
        return ite(le(0, x), real(floor(x + h)), real(-floor(-x + h)))
    x_roundf = x_round = x_llvm_round
    def x_llvm_fabs(self, a, g, w, I): return tm.abs_(a[0])
    x_fabsf = x_fabs = x_llvm_fabs
    def x_llvm_fmuladd(self, a, g, w, I): return add(mul(a[0], a[1]), a[2])
    def x_llvm_is_fpclass(self, a, g, w, I):
        self.assumed.add('floating point values are finite (no NaN or infinity)')
        m = a[1].args
        fin = m & 0x1f8
        if fin == 0x1f8: return TRUE
        if fin == 0: return FALSE
        raise Unsupported('fpclass %d' % m)
    def _pure(self, name, a, lo=None, hi=None):
        self.assumed.add('%s is a function of its arguments' % name)
        return app('libm_' + name, [real(x) for x in a], 'R', lo, hi)
    def x_sqrtf(self, a, g, w, I):
        r = self._pure('sqrt', a, 0, None)
        self.fact(implies(le(0, a[0]), eq(mul(r, r), a[0])))
        return r
    x_sqrt = x_sqrtf
    x_llvm_sqrt = x_sqrtf
    def _trig(self, a):
        s = app('libm_sin', [real(a)], 'R', -1, 1); c = app('libm_cos', [real(a)], 'R', -1, 1)
        self.assumed.add('sin and cos are functions with sin^2+cos^2=1')
        self.fact(eq(mul(s, s) + mul(c, c), 1))
        return s, c
    def x_sin(self, a, g, w, I): return self._trig(a[0])[0]
    def x_cos(self, a, g, w, I): return self._trig(a[0])[1]
    x_sinf = x_sin; x_cosf = x_cos
    def x_expf(self, a, g, w, I): return self._pure('exp', a, 0, None)
    x_exp = x_expf
    def x_logf(self, a, g, w, I): return self._pure('log', a)
    x_log = x_logf
    def x_powf(self, a, g, w, I): return self._pure('pow', a)
    x_pow = x_powf
    def x_atan2f(self, a, g, w, I): return self._pure('atan2', a)
    def x_hypotf(self, a, g, w, I):
        r = self._pure('hypot', a, 0, None)
        self.fact(eq(mul(r, r), mul(a[0], a[0]) + mul(a[1], a[1])))
        return r
    def x_fmodf(self, a, g, w, I):
        n = a[1]
        if n.op == 'num' and n.args > 0:
            x = real(a[0]); n = num(Fraction(n.args), 'R')
            return x - n * real(trunc(tm.rdiv(x, n)))
        r = self._pure('fmod', a); x, y = real(a[0]), tm.abs_(real(a[1]))
        # |r| < |n|, the sign of x, not beyond x
        self.fact(and_(implies(le(0, x), and_(le(0, r), le(r, x))), implies(le(x, 0), and_(le(x, r), le(r, 0))), implies(lt(0, y), and_(lt(r, y), lt(-y, r)))))
        return r
    x_fmod = x_fmodf

    # ------------------------------------------------------------ loops
    def handle_loop(self, fr, header, body, edges):
        name = fr.fn.name
        tag = '%s/%s' % (name, header)
        if self.cut_always is not True and tag not in self.cut_always:
            lim = self.sym_unroll_fn.get(name, self.sym_unroll)
            ex = self.try_unroll(fr, header, body, edges, lim)
            if ex is not None:
                self.loops_seen[tag] = 'unrolled'
                return ex
        self.loops_seen[tag] = 'invariant'
        return self.cut_loop(fr, header, body, edges)

    def try_unroll(self, fr, header, body, edges, symlimit):
        cp = self.checkpoint(); env = dict(fr.env); rets = len(fr.rets); notes = len(self.notes)
        used = dict(self.used)
        exits = []
        cur = edges
        it = 0
        sym = 0
        while cur:
            if it > self.unroll_limit or sym > symlimit:
                self.rollback(cp); fr.env = env; del fr.rets[rets:]; del self.notes[notes:]; self.used = used
                return None
            ex, back = self.exec_region(fr, body, header, cur, header)
            exits += ex
            cur = [e for e in back if e.guard is not FALSE]
            if cur and ex: sym += 1       # the exit could not be decided: a symbolic trip count
            it += 1
        return exits

    def phi_terms(self, v):
        """numeric components of a phi value"""
        if isinstance(v, Ptr):
            return [(('off', r), o) for c, r, k, o in v.alts if r is not None] + [(('key', r, i), kk) for c, r, k, o in v.alts if r is not None for i, kk in enumerate(k)]
        if isinstance(v, T): return [(('val',), v)]
        return []

    def havoc_val(self, name, ty, shape, init, unaligned=False):
        if ty.k == 'ptr':
            regs = shape
            alts = []
            rest = TRUE
            for i, r in enumerate(regs):
                if i < len(regs) - 1:
                    c = fresh('%s.is%d' % (name, i), 'B'); g = and_(rest, c); rest = and_(rest, not_(c))
                else: g = rest
                if r is None: alts.append((g, None, (), num(0)))
                else:
                    alts.append((g, r, tuple(fresh('%s.key' % name, 'I') for _ in range(getattr(r, 'keys', 0))),
                                 num(0) if isinstance(r, Func) else fresh('%s.off' % name, 'I') if unaligned or r.align == 1 else mul(num(r.align), fresh('%s.idx' % name, 'I'))))
            return Ptr(alts)
        if ty.k == 'int':
            w = ty.a[0]
            if w == 1: return fresh(name, 'B')
            return fresh(name, 'I', -(1 << (w - 1)), (1 << (w - 1)) - 1)
        if ty.k in ('float', 'double'): return fresh(name, 'R')
        raise Unsupported('loop variable of type %s' % ty)

    def cut_loop(self, fr, header, body, edges):
        blk = fr.fn.blocks[header]
        g0 = or_(*[e.guard for e in edges])
        init = {p.res: self.merged(edges, p.res) for p in blk.phis}
        # canonical signed form for integer phis
        for p in blk.phis:
            if p.ty.k == 'int' and p.ty.a[0] > 1: init[p.res] = self.s(init[p.res], p.ty.a[0], g0)
        shapes = {}
        for p in blk.phis:
            if p.ty.k == 'ptr':
                shapes[p.res] = list(dict.fromkeys(r for c, r, k, o in init[p.res].alts))
        M = {}
        pre = list(self.regions)
        env0 = dict(fr.env); rets0 = len(fr.rets)
        tag = '%s/%s' % (fr.fn.name, header)

        unal = set()
        for p in blk.phis:
            if p.ty.k == 'ptr' and not self.aligned_ptr(init[p.res], g0): unal.add(p.res)

        def havoc():
            vals = {p.res: self.havoc_val('%s.%s' % (fr.fn.name, p.res), p.ty, shapes.get(p.res), init[p.res], p.res in unal) for p in blk.phis}
            for r in M:
                tm._fresh[0] += 1
                nm = '%s@%s!%d' % (r.name, header, tm._fresh[0])
                prov = None
                if getattr(r, 'havoc_base', None) is not None: prov = r.havoc_base(self, nm)
                r.log.append(('h', g0, prov, nm))
            return vals

        # ---- discover what the loop modifies
        deltas = {}
        conds = None
        while True:
            cp = self.checkpoint()
            lens = {id(r): len(r.log) for r in pre}
            self.dry += 1
            head = havoc()
            lens = {id(r): len(r.log) for r in pre}
            fr.env.update(head)
            e = [Edge(g0, None, header, dict(head))]
            exits, backs = self.exec_region(fr, body, header, e, header)
            self.dry -= 1
            grow = False
            for r in pre:
                if len(r.log) > lens[id(r)] and r not in M: M[r] = 1; grow = True
            for p in blk.phis:
                if p.ty.k == 'ptr':
                    for b in backs:
                        for c, r, k, o in b.vals[p.res].alts:
                            if r not in shapes[p.res]: shapes[p.res].append(r); grow = True
            if not grow:
                deltas = {}
                for p in blk.phis:
                    hs = dict(self.phi_terms(head[p.res]))
                    for key, h in hs.items():
                        ds = set()
                        for b in backs:
                            bt = dict(self.phi_terms(b.vals[p.res])).get(key)
                            ds.add(None if bt is None or h.sort == 'B' else sub(bt, h))
                        ds = set((self._red(d, 1 << p.ty.a[0]) if (d is not None and p.ty.k == 'int') else d) for d in ds)
                        deltas[(p.res, key)] = ds.pop() if len(ds) == 1 else None
                # conditions under which the loop continues, as terms over the head values
                conds = set()
                for b in backs:
                    conds |= (conj(b.guard) - conj(g0))
                headv = head
                self.rollback(cp); fr.env = dict(env0); del fr.rets[rets0:]
                break
            self.rollback(cp); fr.env = dict(env0); del fr.rets[rets0:]

        if self.dry:
            head = havoc()
            fr.env.update(head)
            exits, backs = self.exec_region(fr, body, header, [Edge(g0, None, header, dict(head))], header)
            return exits

        cands = self.auto_cands(fr, header, blk, init, deltas, conds, headv, g0)
        encl = {}
        for h, body2 in fr.loops.items():
            if header in body2 and h != header:
                for p in fr.fn.blocks[h].phis:
                    if p.res in fr.env: encl[p.res] = fr.env[p.res]
        # the loops of the callers (this function is being inlined into their bodies)
        for c in self.frames[:-1]:
            for h, body2 in c.loops.items():
                if getattr(c, 'cur_block', None) in body2:
                    for p in c.fn.blocks[h].phis:
                        if p.res in c.env: encl['%s:%s' % (c.fn.name, p.res)] = c.env[p.res]
        self.cur_loop = dict(frame=fr, enclosing=encl, fn=fr.fn, header=header, M=M, init=init, shapes=shapes, g0=g0, tag=tag, phis=[p.res for p in blk.phis])
        for fcn in self.loop_cands:
            cands += [(c[0], c[1], c[2] if len(c) > 2 else True) for c in fcn(self, self.cur_loop)]
        # region invariants (universally quantified over a skolem cell)
        for r in M:
            if r.cell_inv is not None:
                for i, (k, o) in enumerate(r.skolems):
                    cands.append(('inv %s' % r.name, (lambda st, r=r, k=k, o=o: and_(*r.cell_inv(self, lambda oo, t, kk=k: self.read(r, kk, oo, t, st.guard), k, o))), 'required'))

        # ---- initially true?
        st0 = State(self, g0, init, 'init', fr.env)
        live = []
        lost = []       # required invariants that do not hold: failing obligations
        for n, f, spec in cands:
            try: t = f(st0)
            except (KeyError, Unsupported): continue
            if t is None: continue
            if self.entails(t, g0, self.timeout): live.append((n, f, spec))
            elif spec:
                self.notes.append('%s: invariant "%s" does not hold initially' % (tag, n))
                if spec == 'required': lost.append((n, self.last_status))
        rounds = 0
        notes0 = len(self.notes)
        used0 = dict(self.used)
        while True:
            rounds += 1
            cp = self.checkpoint()
            head = havoc()
            fr.env.update(head)
            sth = State(self, g0, head, 'assume', fr.env)
            self.heads[(fr.fn.name, header)] = head
            for n, f, spec in live:
                t = f(sth)
                if t is not None: self.fact(t, g0)
                if hasattr(f, 'inst'):
                    for t in f.inst(sth): self.fact(t, g0)
            self.oblige('%s: loop %s entered with its invariant' % (fr.fn.name, self.loopname(fr, header)), 'inv-entry', g0, TRUE)
            lens = {id(r): len(r.log) for r in pre}
            exits, backs = self.exec_region(fr, body, header, [Edge(g0, None, header, dict(head))], header)
            for r in pre:
                if len(r.log) > lens[id(r)] and r not in M: raise Unsupported('loop modifies %s unexpectedly' % r.name)
            for p in blk.phis:
                if p.ty.k == 'ptr':
                    for b in backs:
                        for c, r, k, o in b.vals[p.res].alts:
                            if r not in shapes[p.res] and not excl(c, b.guard): raise Unsupported('pointer %s leaves its regions' % p.res)
            bad = []; badst = {}
            misal = set()
            if backs:
                gb = or_(*[b.guard for b in backs])
                for p in blk.phis:
                    if p.ty.k == 'ptr' and p.res not in unal:
                        if not all(self.aligned_ptr(b.vals[p.res], b.guard) for b in backs): misal.add(p.res)
                vals = {p.res: self.merged(backs, p.res) for p in blk.phis}
                for p in blk.phis:
                    if p.ty.k == 'int' and p.ty.a[0] > 1: vals[p.res] = self.s(vals[p.res], p.ty.a[0], gb)
                stb = State(self, gb, vals, 'check', fr.env)
                for i, (n, f, spec) in enumerate(live):
                    try: t = f(stb)
                    except (KeyError, Unsupported): t = None
                    if t is None or not (self.entails(t, gb, self.timeout) or (spec and self.last_status == 'unknown' and self.retry(t, gb))): bad.append(i); badst[i] = self.last_status
            if not bad and not misal: break
            unal |= misal
            for i in bad:
                if live[i][2] == 'required': lost.append((live[i][0], badst.get(i)))
                if live[i][2]: self.notes.append('%s: invariant "%s" not preserved (%s)' % (tag, live[i][0], badst.get(i)))
            self.rollback(cp); fr.env = dict(env0); del fr.rets[rets0:]
            self.used = dict(used0)
            live = [c for i, c in enumerate(live) if i not in bad]
            if rounds > 40: raise Unsupported('invariant search does not converge')
        self.houdini_log.append((tag, rounds, [n for n, _, _ in live]))
        # the kept invariants are discharged obligations of this loop
        for n, f, spec in live:
            o = Obl(self.prefix + '%s: loop invariant: %s' % (tag, n), 'inv', TRUE, TRUE, 0, tag)
            o.status = 'valid'; o.backend = 'z3-inductive'
            self.obls.append(o)
        for n, st in lost:
            o = Obl(self.prefix + '%s: loop invariant: %s' % (tag, n), 'inv', TRUE, FALSE, 0, tag)
            o.status = 'refuted' if st == 'refuted' else 'unknown'; o.backend = 'z3'
            self.obls.append(o)
        return exits

    def aligned_ptr(self, p, g):
        for c, r, k, o in p.alts:
            if r is None or isinstance(r, Func) or r.align == 1: continue
            if not self.entails(eq(imod(o, r.align), 0), and_(g, c)): return False
        return True

    def loopname(self, fr, header): return header

    def auto_cands(self, fr, header, blk, init, deltas, conds, headv, g0):
        """templates: monotone counters, linear relations between counters, previous-iteration conditions"""
        out = []
        comps = []     # (getter, init term, delta)
        for p in blk.phis:
            for key, t0 in self.phi_terms(init[p.res]):
                if t0.sort == 'B': continue
                d = deltas.get((p.res, key))
                def get(st, n=p.res, key=key):
                    return dict(self.phi_terms(st.vals[n]))[key]
                comps.append((p.res, key, get, t0, d))
        for n, key, get, t0, d in comps:
            if d is not None and d.op == 'num' and d.args != 0:
                if d.args > 0: out.append(('%s >= init' % n, lambda st, get=get, t0=t0: le(t0, get(st)), False))
                else: out.append(('%s <= init' % n, lambda st, get=get, t0=t0: le(get(st), t0), False))
                if abs(d.args) > 1 and isinstance(d.args, int) and t0.sort == 'I':
                    out.append(('%s = init mod %d' % (n, abs(d.args)), lambda st, get=get, t0=t0, d=abs(d.args): eq(imod(get(st) - t0, d), 0), False))
            elif d is None or d.op != 'num':
                if d is not None and d is num(0, d.sort):
                    pass
                out.append(('%s >= init' % n, lambda st, get=get, t0=t0: le(t0, get(st)), False))
                out.append(('%s <= init' % n, lambda st, get=get, t0=t0: le(get(st), t0), False))
                if t0.sort == 'I':
                    for c in (2, 4, 8):
                        if key[0] == 'off': out.append(('%s multiple of %d' % (n, c), lambda st, get=get, c=c: eq(imod(get(st), c), 0), False))
            out.append(('%s >= 0' % n, lambda st, get=get: le(0, get(st)), False))
            if d is not None and d.op == 'num' and d.args == 0:
                out.append(('%s = init' % n, lambda st, get=get, t0=t0: eq(get(st), t0), False))
        for p in blk.phis:
            v = init[p.res]
            if isinstance(v, Ptr) and any(r is None for c, r, k, o in v.alts) and any(r is not None for c, r, k, o in v.alts):
                out.append(('%s is not NULL' % p.res, lambda st, n=p.res: and_(*[not_(c) for c, r, k, o in st.vals[n].alts if r is None]), False))
        # linear relations between constant-delta counters
        cd = [c for c in comps if c[4] is not None and c[4].op == 'num' and c[4].args != 0]
        for i in range(1, len(cd)):
            n1, k1, g1, t1, d1 = cd[0]; n2, k2, g2, t2, d2 = cd[i]
            out.append(('%s ~ %s' % (n1, n2), lambda st, g1=g1, g2=g2, t1=t1, t2=t2, a=d1.args, b=d2.args: eq(mul(b, g1(st) - t1), mul(a, g2(st) - t2)), False))
        # the continuation condition held in the previous iteration
        hmap = {}
        names = {}
        for n, key, get, t0, d in comps:
            h = dict(self.phi_terms(headv[n])).get(key)
            if h is not None and h.op == 'var': names[h] = (n, key, get, t0, d)
        for c in conds or ():
            at = tm.atoms_of(c)
            hs = [a for a in at if a in names]
            if not hs or len(hs) > 3: continue
            if any(a.op == 'app' and '@' in a.args[0] and '!' in a.args[0] for a in at): continue
            if any(a.op == 'var' and '!' in a.args and a not in names and a.args.split('.')[0] == fr.fn.name and False for a in at): continue
            ok = all(names[a][4] is not None and names[a][4].op == 'num' for a in hs)
            if not ok: continue
            def prev(st, c=c, hs=hs):
                m = {a: sub(names[a][2](st), names[a][4]) for a in hs}
                first = and_(*[eq(names[a][2](st), names[a][3]) for a in hs])
                return or_(first, tm.subst(c, m))
            out.append(('previous: %s' % str(c)[:60], prev, False))
        return out


def all_paths(fn, run):
    """run(ex_init) once per path of function fn; run receives a function that prepares an Exec"""
    todo = [[]]
    out = []
    while todo:
        p = todo.pop()
        alts = []
        def prep(ex):
            ex.path_fn = fn; ex.path = p; ex.path_pos = 0; ex.path_alts = alts
        out.append(run(prep))
        todo += alts
        if len(out) > 200: raise Unsupported('too many paths in %s' % fn)
    return out


def verify_obls(obls, facts, timeout=5000, procs=8, cvc5=True, only=None, seeds=()):
    """discharge all obligations in parallel (forked workers)"""
    import multiprocessing as mp
    todo = [i for i, o in enumerate(obls) if o.status is None]
    for i in list(todo):
        if obls[i].goal is TRUE:
            obls[i].status = 'valid'; obls[i].backend = 'simplifier'; todo.remove(i)
    global _JOB
    _JOB = (obls, facts, timeout, cvc5, seeds)
    if not todo: return
    if len(todo) == 1 or procs == 1:
        res = [_work(i) for i in todo]
    else:
        with mp.get_context('fork').Pool(min(procs, len(todo))) as pool:
            res = pool.map(_work, todo, chunksize=1)
    for i, st, be, model, dt in res:
        o = obls[i]
        o.status, o.backend, o.model, o.time = st, be, model, dt
    again = [i for i in todo if obls[i].status == 'unknown']
    if again and not seeds:
        # second attempt: other solver seeds, more resources
        for i in again: obls[i].status = None
        _verify_again(obls, facts, timeout * 4, procs, cvc5)


def _verify_again(obls, facts, timeout, procs, cvc5): verify_obls(obls, facts, timeout, procs, cvc5, seeds=(1, 2, 3))


def _work(i):
    import time
    t0 = time.time()
    obls, facts, timeout, cvc5, seeds = _JOB
    o = obls[i]
    f = (o.facts_list if hasattr(o, 'facts_list') else facts)[:o.nf]
    for part in split_goal(o.goal):
        hyp = solve.relevant(part, f)
        for sd in seeds or (0,):
            st, be, model = solve.check(hyp, part, timeout, want_model=True, seed=sd)
            if st != 'unknown': break
        if st == 'unknown':
            # fewer hypotheses
            for lim in (0, 1):
                h2 = solve.near(part, f, lim)
                if len(h2) >= len(hyp): continue
                s2, b2, _ = solve.check(h2, part, timeout)
                if s2 == 'valid': st, be, model = s2, b2, None; break
        if st == 'unknown' and cvc5:
            for lin in (True, False):
                r = solve.cvc5_check(hyp, part, max(5, timeout // 1000), lin)
                if r == 'valid': st, be = 'valid', 'cvc5'; break
                if r == 'refuted': st, be = 'refuted', 'cvc5'; break
        if st != 'valid': break
    return i, st, be, model, time.time() - t0
