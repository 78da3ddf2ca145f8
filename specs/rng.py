"""rng-double.c: Knuth's lagged Fibonacci generator.

All numbers are multiples of 2^-52 in [0, 1), so that sums and differences are exact in double arithmetic."""
from specs.lib import *

KK, LL = 10, 7
CT = 'RngDouble'
UNIT = lambda v: and_(le(tm.real(num(0)), v), lt(v, tm.real(num(1))))


def ms(x, y): return x + y - ite(le(tm.real(num(1)), x + y), tm.real(num(1)), tm.real(num(0)))


class Rng:
    def __init__(s, mod, name='rng', started=True, const=False):
        s.mod = mod
        s.ran, s.buf, s.ptr = (mod.off(CT, f) for f in ('ran_u', 'ranf_arr_buf', 'ranf_arr_ptr'))
        s.size = mod.sizeof(CT)
        s.Q = (s.ptr - s.buf) // 8          # numbers generated at a time

    def region(s, ex, name='rng', const=False):
        s.ex = ex
        s.reg = ex.new_region(name, s.size, None, const=const); s.reg.align = 8
        s.p = ptr(s.reg)
        return s

    def u(s, i, g=TRUE): return s.ex.read(s.reg, (), num(s.ran) + 8 * tm.T_(i), 'f64', g)
    def b(s, i, g=TRUE): return s.ex.read(s.reg, (), num(s.buf) + 8 * tm.T_(i), 'f64', g)


def task_array(mod):
    """rng_double_get_array: the recurrence at every position, for every length"""
    ex = Exec(mod); s = Rng(mod).region(ex)
    w = 'rng_double_get_array'
    n = var('n', 'I', KK, 1 << 24)
    aa = ex.new_region('aa', 8 * n, None); aa.align = 8
    A = lambda i, g=TRUE: ex.read(aa, (), 8 * tm.T_(i), 'f64', g)
    u0 = [s.u(i) for i in range(KK)]
    for v in u0: ex.fact(UNIT(v))
    q = var('q', 'I', 0, 1 << 24)
    other = var('other', 'I', 0, s.size - 8); o0 = None
    def cands(ex, L):
        r = []
        at = lambda st, i: st.read(aa, 8 * tm.T_(i), 'f64')
        for v in ints(L):
            hi = lambda st, v=v: st.vals[v]
            def near(st, v=v): return [st.vals[v] - k for k in range(1, KK + 1)]
            r.append(('recurrence below %s' % v, Forall(lambda st, k, hi=hi: implies(and_(le(KK, k), lt(k, hi(st))), eq(at(st, k), ms(at(st, k - KK), at(st, k - LL)))), q), False))
            r.append(('range below %s' % v, Forall(lambda st, k, hi=hi: implies(and_(le(0, k), lt(k, hi(st))), UNIT(at(st, k))), q, near), False))
        for i in range(KK): r.append(('element %d' % i, lambda st, i=i: eq(at(st, i), u0[i]), False))
        return r
    ex.loop_cands.append(cands)
    # instances of the range invariant needed after the loops
    _, g = ex.call_fn(w, [s.p, ptr(aa), n], TRUE)
    ex.fact(lt(q, n))
    for i in range(KK): ex.oblige('element %d is the generator state' % i, 'post', g, eq(A(i, g), u0[i]), w)
    ex.oblige('every further element obeys the recurrence', 'post', g, implies(le(KK, q), eq(A(q, g), ms(A(q - KK, g), A(q - LL, g)))), w)
    ex.oblige('every element is in [0, 1)', 'post', g, UNIT(A(q, g)), w)
    full = lambda i: A(n + i, g) if i < 0 else s.u(i, g)
    for i in range(KK): ex.oblige('the new state continues the recurrence: %d' % i, 'post', g, eq(s.u(i, g), ms(full(i - KK), full(i - LL))), w)
    for i in range(KK):
        gg = g
        ex.oblige('the new state is in [0, 1): %d' % i, 'post', gg, UNIT(s.u(i, gg)), w)
    return ex


def array_contract(ex, s, log=None):
    """proved in the task array: fills the array from the state, both stay in [0, 1)"""
    def f(ex, A, g, w):
        n = A[2]
        ex.oblige('%s: at least %d numbers are generated' % (w, KK), 'pre', g, le(KK, n), w)
        ex.oblige('%s: of the generator itself' % w, 'pre', g, ptr_eq(A[0], s.p), w)
        old = [ex.load(A[0].shift(num(s.ran + 8 * i)), 'f64', g, w) for i in range(KK)]
        ex.oblige('%s: the state is in [0, 1)' % w, 'pre', g, and_(*[UNIT(v) for v in old]), w)
        if log is not None: log(old, g, w)
        if n.op != 'num': raise Unsupported('array of symbolic length')
        for i in range(n.args):
            v = fresh('generated', 'R', 0, 1); ex.fact(UNIT(v)); ex.store(A[1].shift(num(8 * i)), 'f64', old[i] if i < KK else v, g, w)
        for i in range(KK):
            v = fresh('generated', 'R', 0, 1); ex.fact(UNIT(v)); ex.store(A[0].shift(num(s.ran + 8 * i)), 'f64', v, g, w)
        return None
    ex.contracts['rng_double_get_array'] = f


def first_of(p):
    """the number a constant pointer points to is negative: the next number starts a new array"""
    return p


def names(t):
    from specs.brush import free_names
    return free_names(t)


def task_seed(mod):
    """rng_double_set_seed: the state is in [0, 1) and depends on nothing but the seed"""
    ex = Exec(mod); s = Rng(mod).region(ex)
    ex.unroll_limit = 200
    w = 'rng_double_set_seed'
    def old(t): return [n for n in names(t) if n.startswith(s.reg.uid + '.') or any(getattr(r, 'stack', False) and n.startswith(r.uid + '.') for r in ex.regions) or n.startswith('poison')]
    def log(st, g, w):
        ex.oblige('%s: the state depends on the seed only' % w, 'pre', g, FALSE if any(old(v) for v in st) else TRUE, w)
        if calls.get(0, g) is num(0) and 'u' in head:
            for i in range(KK): ex.oblige('%s: the result of the initialisation is the state: %d' % (w, i), 'pre', g, eq(st[i], head['u'][(i - (KK - LL)) % KK]), w)
        calls.set(calls.get(0, g) + 1, g)
    head = {}; calls = Ghost(ex, 'arrays')
    array_contract(ex, s, log)
    seed = var('seed', 'I', -(1 << 63), (1 << 63) - 1)
    def cands(ex, L):
        r = []
        regs = [x for x in L['M'] if getattr(x, 'stack', False)]
        low = imod(seed, num(1 << 30)); vs = ints(L)
        for x in regs:
            if num_of(x.size) < 8 * KK: continue
            U = lambda st, x=x: [st.read(x, num(8 * i), 'f64') for i in range(KK)]
            def steps(st, U=U, x=x):
                if st.mode == 'assume':
                    head['u'] = U(st); head['v'] = dict(st.vals); return TRUE
                if st.mode == 'init':
                    ulp = Fraction(1, 1 << 52); ss = 2 * ulp * tm.real(low + 2)
                    f = []
                    for i in range(KK): f.append(eq(U(st)[i], ss + (ulp if i == 1 else 0))); ss = ss + ss
                    return and_(*f, or_(*[and_(eq(st.vals[a], low), eq(st.vals[b], 6)) for a in vs for b in vs if a != b]))
                H, V = head['u'], head['v']
                alts = []
                for a in vs:
                    for b in vs:
                        if a == b: continue
                        n = knuth_step(H, ne(imod(V[a], num(2)), 0))
                        alts.append(and_(ite(ne(V[a], 0), and_(eq(st.vals[a], idiv(V[a], num(2))), eq(st.vals[b], V[b])), and_(eq(st.vals[a], 0), eq(st.vals[b], V[b] - 1))), *[eq(p, q) for p, q in zip(U(st), n)]))
                return or_(*alts)
            r.append(('%s follows the definition of the initialisation' % x.name, steps, 'required'))
            for a in vs: r.append(('%s not negative' % a, lambda st, a=a: le(0, st.vals[a]), False))
        for x in regs:
            for i in range(num_of(x.size) // 8):
                at = lambda st, x=x, i=i: st.read(x, num(8 * i), 'f64')
                r.append(('%s[%d] in [0, 1)' % (x.name, i), lambda st, at=at: UNIT(at(st)), False))
            for i in range(KK):
                at = lambda st, x=x, i=i: st.read(x, num(8 * i), 'f64')
                r.append(('%s[%d] depends on the seed only' % (x.name, i), lambda st, at=at: FALSE if old(at(st)) and st.mode != 'assume' else TRUE, 'required'))
        return r
    ex.loop_cands.append(cands)
    # what an iteration leaves beyond the first KK numbers must not be used by the next one
    def stack(r):
        def prov(nm):
            return lambda ex, key, off, ty: app('poison ' + nm, [off], 'R') if ty == 'f64' and (off.op != 'num' or off.args >= 8 * KK) else None
        r.havoc_base = lambda ex, nm: prov(nm)
    ex.on_stack = stack
    _, g = ex.call_fn(w, [s.p, seed], TRUE)
    for i in range(KK): ex.oblige('the state is in [0, 1): %d' % i, 'post', g, UNIT(s.u(i, g)), w)
    for i in range(KK): ex.oblige('the state depends on the seed only: %d' % i, 'post', g, FALSE if old(s.u(i, g)) else TRUE, w)
    ex.oblige('the generator is warmed up ten times', 'post', g, eq(calls.get(0, g), 10), w)
    p = ex.read(s.reg, (), num(s.ptr), 'ptr', g)
    v = ex.load(p, 'f64', g, w)
    ex.oblige('the next number starts a new array', 'post', g, lt(v, 0), w)
    return ex


def ms_t(x, y): return x + y - tm.real(tm.trunc(x + y))


def knuth_step(u, odd):
    """one step of the initialisation: the state is squared, and multiplied by z when the bit is set"""
    v = {2 * j: u[j] for j in range(KK)}
    for j in range(1, KK): v[2 * j - 1] = tm.real(num(0))
    for j in range(2 * KK - 2, KK - 1, -1):
        v[j - (KK - LL)] = ms_t(v[j - (KK - LL)], v[j])
        v[j - KK] = ms_t(v[j - KK], v[j])
    w = [v[KK - 1]] + [v[j] for j in range(KK - 1)]
    w[LL] = ms_t(v[LL - 1], v[KK - 1])
    return [ite(odd, w[i], v[i]) for i in range(KK)]


def num_of(t): return t.args if t.op == 'num' else 0


def settled(s, ex, k, started):
    """a generator between two calls: the next number is number k of the buffer, or a new array is due (k = 0)"""
    def base(ex, key, off, ty):
        if off.op == 'num' and off.args == s.ptr and ty == 'ptr':
            alts = [(lt(0, k), s.reg, (), s.buf + 8 * k)]
            for i, n in enumerate(('ranf_arr_started', 'ranf_arr_dummy')):
                for c, r, kk, o in ex.global_ptr(n).alts: alts.append((and_(eq(k, 0), eq(started, i)), r, kk, o))
            return Ptr(alts)
        return None
    s.reg.base = base
    ex.fact(implies(lt(0, k), lt(s.b(KK), 0)))
    for i in range(KK): ex.fact(and_(UNIT(s.u(i)), implies(lt(0, k), UNIT(s.b(i)))))


def task_next(mod):
    """rng_double_next: the numbers of each array in turn, in [0, 1)"""
    out = []
    ex = Exec(mod); s = Rng(mod).region(ex)
    k, st = var('k', 'I', 0, KK), var('constant', 'I', 0, 1)
    settled(s, ex, k, st)
    arrays = Ghost(ex, 'arrays')
    first = []
    def log(u, g, w): arrays.set(arrays.get(0, g) + 1, g); first.append(u)
    array_contract(ex, s, log)
    # the number at an index of the buffer (by cases, the index is arbitrary)
    B0 = [s.b(i) for i in range(s.Q)]; U0 = [s.u(i) for i in range(KK)]
    w = 'rng_double_next'
    r, g = ex.call_fn(w, [s.p], TRUE)
    ex.oblige('a number is in [0, 1)', 'post', g, UNIT(r), w)
    new = or_(eq(k, 0), eq(k, KK))
    ex.oblige('a new array is generated when the last one is used up', 'post', g, eq(arrays.get(0, g), ite(new, num(1), num(0))), w)
    for i in range(1, KK): ex.oblige('number %d of the array' % i, 'post', g, implies(eq(k, i), eq(r, B0[i])), w)
    ex.oblige('the first number of the new array', 'post', g, implies(new, eq(r, U0[0])), w)
    for i in range(KK): ex.oblige('the numbers of the array stay: %d' % i, 'post', g, eq(s.b(i, g), ite(new, U0[i], B0[i])), w)
    p = ex.read(s.reg, (), num(s.ptr), 'ptr', g)
    ex.oblige('the next number follows', 'post', g, ptr_eq(p, ptr(s.reg, s.buf + 8 * ite(new, num(1), k + 1))), w)
    ex.oblige('the end of the array is marked', 'post', g, lt(s.b(KK, g), 0), w)
    for i in range(KK): ex.oblige('the state stays in [0, 1): %d' % i, 'post', g, UNIT(s.u(i, g)), w)
    for i in range(KK): ex.oblige('the state changes only with a new array: %d' % i, 'post', g, implies(not_(new), eq(s.u(i, g), U0[i])), w)
    out.append(ex)
    # a new generator
    ex = Exec(mod); w = 'rng_double_new'
    seeded = Ghost(ex, 'seeded')
    seed = var('seed', 'I', -(1 << 63), (1 << 63) - 1)
    def set_seed(ex, A, g, w):
        ex.oblige('%s: the seed' % w, 'pre', g, eq(A[1], seed), w)
        seeded.set(seeded.get(0, g) + 1, g)
        for c, reg, kk, o in A[0].alts: ex.oblige('%s: room for a generator' % w, 'pre', and_(g, c), and_(eq(o, 0), le(mod.sizeof(CT), reg.size)), w)
    ex.contracts['rng_double_set_seed'] = set_seed
    ex.malloc_may_fail = False; ex.assumed.add('the memory of a generator can be allocated')
    p, g = ex.call_fn(w, [seed], TRUE)
    ex.oblige('a new generator is seeded once', 'post', g, and_(eq(seeded.get(0, g), 1), not_(is_null(p))), w)
    out.append(ex)
    # gauss
    ex = Exec(mod); s = Rng(mod).region(ex); w = 'rand_gauss'
    got = []
    def nxt(ex, A, g, w):
        ex.oblige('%s: a number of the generator' % w, 'pre', g, ptr_eq(A[0], s.p), w)
        v = fresh('random', 'R', 0, 1); ex.fact(UNIT(v)); got.append(v); return v
    ex.contracts['rng_double_next'] = nxt
    r, g = ex.call_fn(w, [s.p], TRUE)
    ex.oblige('gauss: four numbers of the stream', 'post', g, TRUE if len(got) == 4 else FALSE, w)
    ex.oblige('gauss: within 2 sqrt 3', 'post', g, and_(le(Fraction(-34642, 10000), r), le(r, Fraction(34642, 10000))), w)
    t = sum(got[1:], got[0]) if got else num(0)
    ex.oblige('gauss: the centred sum', 'post', g, and_(*[le(c * (r - (t - 2) * Fraction(173205, 100000)), Fraction(1, 10000)) for c in (1, -1)]), w)
    out.append(ex)
    return out
