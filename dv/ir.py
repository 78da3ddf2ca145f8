"""Parser for the textual LLVM IR produced by clang/opt 18 (the subset clang emits for C)."""
import re, struct
from fractions import Fraction

# ------------------------------------------------------------------ types
class Ty:
    __slots__ = ('k', 'a')
    def __init__(s, k, *a): s.k = k; s.a = a
    def __repr__(s): return '%s%s' % (s.k, list(s.a) if s.a else '')
    def __eq__(s, o): return isinstance(o, Ty) and s.k == o.k and s.a == o.a
    def __hash__(s): return hash((s.k, s.a))

VOID, PTR, FLOAT, DOUBLE, LABEL, META = Ty('void'), Ty('ptr'), Ty('float'), Ty('double'), Ty('label'), Ty('metadata')
def INT(n): return Ty('int', n)

TOK = re.compile(r'''\s*(?:
 (?P<str>c?"(?:[^"\\]|\\[0-9A-Fa-f]{2}|\\\\)*")|
 (?P<loc>%[-a-zA-Z$._0-9]+|%"[^"]*")|
 (?P<glob>@[-a-zA-Z$._0-9]+|@"[^"]*")|
 (?P<meta>!(?:[-a-zA-Z$._0-9]+|"[^"]*")?)|
 (?P<attr>\#\d+)|
 (?P<num>-?\d+\.\d*(?:[eE][-+]?\d+)?|0x[KMLHR]?[0-9A-Fa-f]+|-?\d+)|
 (?P<word>[a-zA-Z_$.][-a-zA-Z$._0-9]*)|
 (?P<p>\.\.\.|[()\[\]{}<>,=*:|])
)''', re.X)


def tokenize(s):
    out = []
    i = 0
    n = len(s)
    while i < n:
        m = TOK.match(s, i)
        if not m:
            if s[i:].strip() == '' or s[i:].lstrip().startswith(';'): break
            raise ValueError('tokenize: %r' % s[i:i + 60])
        out.append((m.lastgroup, m.group(m.lastgroup)))
        i = m.end()
    return out


class P:
    def __init__(s, toks, mod): s.t = toks; s.i = 0; s.mod = mod
    def peek(s, k=0): return s.t[s.i + k][1] if s.i + k < len(s.t) else None
    def pk(s, k=0): return s.t[s.i + k][0] if s.i + k < len(s.t) else None
    def next(s): s.i += 1; return s.t[s.i - 1][1]
    def acc(s, x):
        if s.peek() == x: s.i += 1; return True
        return False
    def exp(s, x):
        if s.next() != x: raise ValueError('expected %s got %s in %s' % (x, s.t[s.i - 1][1], ' '.join(t[1] for t in s.t)))
    def type(s):
        w = s.next()
        if w == 'void': t = VOID
        elif w == 'ptr': t = PTR
        elif w == 'float': t = FLOAT
        elif w == 'double': t = DOUBLE
        elif w == 'x86_fp80': t = Ty('fp80')
        elif w == 'label': t = LABEL
        elif w == 'metadata': t = META
        elif w == '[':
            n = int(s.next()); s.exp('x'); e = s.type(); s.exp(']'); t = Ty('arr', n, e)
        elif w == '<':
            if s.peek() == '{':
                s.next(); t = Ty('struct', tuple(s.tlist('}')), True); s.exp('>')
            else:
                n = int(s.next()); s.exp('x'); e = s.type(); s.exp('>'); t = Ty('vec', n, e)
        elif w == '{': t = Ty('struct', tuple(s.tlist('}')), False)
        elif w[0] == '%': t = Ty('named', w[1:].strip('"'))
        elif re.match(r'i\d+$', w): t = INT(int(w[1:]))
        else: raise ValueError('type %s' % w)
        if s.peek() == '(':     # function type
            s.next(); a = []
            while not s.acc(')'):
                if s.acc('...'): a.append('...')
                else: a.append(s.type())
                s.acc(',')
            t = Ty('fn', t, tuple(a))
        return t
    def tlist(s, end):
        r = []
        while not s.acc(end):
            r.append(s.type()); s.acc(',')
        return r
    PATTR = {'noundef', 'zeroext', 'signext', 'nocapture', 'readonly', 'readnone', 'writeonly', 'nonnull', 'returned', 'noalias', 'immarg', 'inreg', 'nofree', 'nest', 'swiftself', 'noreturn', 'noext', 'writable', 'dead_on_unwind', 'allocptr', 'nounwind'}
    def skip_attrs(s):
        byval = None
        while True:
            w = s.peek()
            if w in s.PATTR: s.next(); continue
            if w in ('align', 'dereferenceable', 'dereferenceable_or_null'):
                s.next()
                if s.acc('('): s.next(); s.exp(')')
                else: s.next()
                continue
            if w in ('byval', 'sret', 'elementtype', 'byref', 'inalloca', 'preallocated') and s.peek(1) == '(':
                k = s.next(); s.exp('('); t = s.type(); s.exp(')')
                if k in ('byval', 'sret'): byval = (k, t)
                continue
            if w in ('captures', 'range', 'initializes', 'allocsize', 'memory') and s.peek(1) == '(':
                d = 0
                s.next()
                while True:
                    x = s.next()
                    if x == '(': d += 1
                    if x == ')':
                        d -= 1
                        if d == 0: break
                continue
            return byval
    def value(s, ty):
        k, w = s.t[s.i]
        s.i += 1
        if k == 'loc': return ('loc', w[1:].strip('"'))
        if k == 'glob': return ('glob', w[1:].strip('"'))
        if k == 'num':
            if ty.k in ('float', 'double'): return ('fp', parsefp(w))
            return ('int', int(w))
        if k == 'str':
            return ('bytes', cstr(w))
        if w == 'true': return ('int', 1)
        if w == 'false': return ('int', 0)
        if w == 'null': return ('null',)
        if w in ('undef', 'poison'): return ('undef',)
        if w == 'zeroinitializer': return ('zero',)
        if w == '[' or w == '{' or w == '<':
            if w == '<' and s.peek() == '{': s.next(); w = '<{'
            end = {'[': ']', '{': '}', '<': '>', '<{': '}'}[w]
            r = []
            while not s.acc(end):
                t = s.type(); r.append((t, s.value(t))); s.acc(',')
            if w == '<{': s.exp('>')
            return ('agg', r)
        if w in ('getelementptr',):
            ib = False
            while s.peek() in ('inbounds', 'nuw', 'nusw', 'inrange'): s.next()
            s.exp('('); bt = s.type(); s.exp(',')
            pt = s.type(); base = s.value(pt); idx = []
            while s.acc(','):
                s.acc('inrange')
                t = s.type(); idx.append((t, s.value(t)))
            s.exp(')')
            return ('gep', bt, base, idx)
        if w in ('bitcast', 'ptrtoint', 'inttoptr', 'addrspacecast', 'trunc', 'zext', 'sext'):
            s.exp('('); t = s.type(); v = s.value(t); s.exp('to'); t2 = s.type(); s.exp(')')
            return ('cast', w, t, v, t2)
        if w == 'splat':
            s.exp('('); t = s.type(); v = s.value(t); s.exp(')')
            return ('splat', t, v)
        raise ValueError('value %s in %s' % (w, ' '.join(t[1] for t in s.t)))


def parsefp(w):
    if w.startswith('0x'):
        if w[2] in 'KMLHR': return None
        b = struct.pack('>Q', int(w[2:], 16))
        d = struct.unpack('>d', b)[0]
        if d != d: return 'nan'
        if d in (float('inf'), float('-inf')): return 'inf' if d > 0 else '-inf'
        return Fraction(d)
    return Fraction(float(w))


def cstr(w):
    assert w.startswith('c"')
    s = w[2:-1]
    out = bytearray()
    i = 0
    while i < len(s):
        if s[i] == '\\':
            if s[i + 1] == '\\': out.append(92); i += 2
            else: out.append(int(s[i + 1:i + 3], 16)); i += 3
        else:
            out.append(ord(s[i])); i += 1
    return bytes(out)


class Ins:
    __slots__ = ('op', 'res', 'ty', 'ops', 'x', 'dbg', 'text')
    def __repr__(s): return '%s=%s %s %s' % (s.res, s.op, s.ops, s.x)


class Block:
    def __init__(s, name): s.name = name; s.ins = []; s.phis = []; s.term = None
    def succs(s):
        t = s.term
        if t.op == 'br': return t.x['succ']
        if t.op == 'switch': return t.x['succ']
        return []


class Fn:
    def __init__(s): s.blocks = {}; s.order = []; s.params = []; s.ret = None; s.name = None; s.dbg = None; s.vararg = False


class Module:
    def __init__(m, text):
        m.types = {}; m.globals = {}; m.fns = {}; m.decls = {}; m.meta = {}
        m._parse(text)
        m.enums = {k: int(v) for k, v in re.findall(r'!DIEnumerator\(name: "(\w+)", value: (-?\d+)', text)}

    # -------- layout
    def resolve(m, t):
        while t.k == 'named': t = m.types[t.a[0]]
        return t
    def size(m, t):
        t = m.resolve(t)
        k = t.k
        if k == 'int': return max(1, (t.a[0] + 7) // 8)
        if k == 'float': return 4
        if k in ('double', 'ptr'): return 8
        if k == 'fp80': return 16
        if k == 'arr': return t.a[0] * m.size(t.a[1])
        if k == 'vec': return t.a[0] * m.size(t.a[1])
        if k == 'struct': return m.layout(t)[1]
        raise ValueError('size %s' % t)
    def align(m, t):
        t = m.resolve(t)
        if t.k == 'arr': return m.align(t.a[1])
        if t.k == 'struct':
            if t.a[1]: return 1
            return max([m.align(x) for x in t.a[0]] or [1])
        return m.size(t)
    def layout(m, t):
        t = m.resolve(t)
        off = 0; offs = []
        for x in t.a[0]:
            if not t.a[1]:
                a = m.align(x); off = (off + a - 1) // a * a
            offs.append(off); off += m.size(x)
        if not t.a[1]:
            a = m.align(t); off = (off + a - 1) // a * a
        return offs, off

    # -------- parsing
    def _parse(m, text):
        lines = text.split('\n')
        i = 0
        n = len(lines)
        while i < n:
            l = lines[i]
            if l.startswith('%') and ' = type ' in l:
                nm, rest = l.split(' = type ', 1)
                if rest.strip() == 'opaque':
                    m.types[nm[1:].strip('"')] = Ty('opaque')
                else:
                    m.types[nm[1:].strip('"')] = P(tokenize(rest), m).type()
            elif l.startswith('@'):
                m._global(l)
            elif l.startswith('declare'):
                f = m._header(l)
                m.decls[f.name] = f
            elif l.startswith('define'):
                f = m._header(l)
                i += 1
                body = []
                while lines[i] != '}':
                    body.append(lines[i]); i += 1
                # switch tables may span lines: join
                m._body(f, body)
                m.fns[f.name] = f
            elif l.startswith('!'):
                k = l.find(' = ')
                if k > 0: m.meta[l[:k]] = l[k + 3:]
            i += 1

    def _global(m, l):
        l = l.split(', !dbg')[0]
        p = P(tokenize(l), m)
        name = p.next()[1:].strip('"'); p.exp('=')
        const = False; ext = False
        while p.peek() not in ('global', 'constant'):
            w = p.next()
            if w in ('external', 'extern_weak'): ext = True
            if w in ('alias', 'ifunc'): return
        const = p.next() == 'constant'
        t = p.type()
        init = None
        if not ext: init = p.value(t)
        m.globals[name] = (t, const, init)

    def _header(m, l):
        p = P(tokenize(re.sub(r'\s*\{\s*$', '', l)), m)
        p.next()
        f = Fn()
        while True:
            w = p.peek()
            if w in ('dso_local', 'internal', 'private', 'hidden', 'linkonce_odr', 'available_externally', 'weak', 'local_unnamed_addr', 'unnamed_addr', 'external', 'weak_odr', 'linkonce', 'protected'):
                p.next(); continue
            sr = p.skip_attrs()
            if p.peek() == w: break
        f.ret = p.type()
        f.name = p.next()[1:].strip('"')
        p.exp('(')
        k = 0
        while not p.acc(')'):
            if p.acc('...'): f.vararg = True; continue
            t = p.type(); bv = p.skip_attrs()
            nm = None
            if p.pk() == 'loc': nm = p.next()[1:].strip('"')
            else: nm = str(k)
            f.params.append((nm, t, bv)); k += 1
            p.acc(',')
        mm = re.search(r'!dbg (!\d+)', l)
        f.dbg = mm.group(1) if mm else None
        return f

    def _body(m, f, body):
        cur = None
        # join switch lines
        joined = []
        j = 0
        while j < len(body):
            l = body[j]
            if re.match(r'\s+switch ', l) and ']' not in l:
                while ']' not in body[j]:
                    j += 1
                    l += ' ' + body[j]
            joined.append(l); j += 1
        for l in joined:
            if not l.strip(): continue
            if l.lstrip().startswith(';'): continue
            mm = re.match(r'^([-a-zA-Z$._0-9]+|"[^"]*"):', l)
            if mm:
                cur = Block(mm.group(1).strip('"')); f.blocks[cur.name] = cur; f.order.append(cur.name)
                continue
            if cur is None:
                cur = Block('entry' if 'entry' not in f.blocks else '0'); f.blocks[cur.name] = cur; f.order.append(cur.name)
            ins = m._ins(l)
            if ins is None: continue
            if ins.op == 'phi': cur.phis.append(ins)
            elif ins.op in ('br', 'switch', 'ret', 'unreachable'): cur.term = ins
            else: cur.ins.append(ins)

    def _ins(m, l):
        if 'llvm.dbg.' in l or 'llvm.lifetime' in l or 'llvm.assume' in l: return None
        dbg = None
        mm = re.search(r', !dbg (!\d+)', l)
        if mm: dbg = mm.group(1)
        l0 = l
        l = re.sub(r'(, ![a-zA-Z.]+ ![0-9]+)+\s*$', '', l)
        p = P(tokenize(l), m)
        I = Ins(); I.res = None; I.ty = None; I.ops = []; I.x = {}; I.dbg = dbg; I.text = l.strip()
        if p.pk() == 'loc' and p.peek(1) == '=':
            I.res = p.next()[1:].strip('"'); p.next()
        op = p.next()
        while op in ('tail', 'musttail', 'notail'): op = p.next()
        I.op = op
        def tv():
            t = p.type(); return (t, p.value(t))
        if op in ('add', 'sub', 'mul', 'shl', 'udiv', 'sdiv', 'lshr', 'ashr', 'urem', 'srem', 'and', 'or', 'xor', 'fadd', 'fsub', 'fmul', 'fdiv', 'frem'):
            fl = set()
            while p.peek() in ('nsw', 'nuw', 'exact', 'disjoint', 'fast', 'nnan', 'ninf', 'nsz', 'arcp', 'contract', 'afn', 'reassoc'): fl.add(p.next())
            I.ty = p.type(); a = p.value(I.ty); p.exp(','); b = p.value(I.ty)
            I.ops = [(I.ty, a), (I.ty, b)]; I.x['fl'] = fl
        elif op == 'fneg':
            while p.peek() in ('fast', 'nnan', 'ninf', 'nsz', 'arcp', 'contract', 'afn', 'reassoc'): p.next()
            I.ty = p.type(); I.ops = [(I.ty, p.value(I.ty))]
        elif op in ('icmp', 'fcmp'):
            while p.peek() in ('fast', 'nnan', 'ninf', 'nsz', 'arcp', 'contract', 'afn', 'reassoc', 'samesign'): p.next()
            I.x['pred'] = p.next(); t = p.type(); a = p.value(t); p.exp(','); b = p.value(t)
            I.ops = [(t, a), (t, b)]; I.ty = INT(1)
        elif op == 'alloca':
            t = p.type(); I.x['at'] = t; I.ty = PTR
            I.x['n'] = None
            while p.acc(','):
                if p.acc('align'): p.next()
                else: I.x['n'] = tv()
        elif op == 'load':
            I.x['vol'] = p.acc('volatile')
            I.ty = p.type(); p.exp(','); I.ops = [tv()]
        elif op == 'store':
            I.x['vol'] = p.acc('volatile')
            a = tv(); p.exp(','); I.ops = [a, tv()]
        elif op == 'getelementptr':
            I.x['ib'] = False
            while p.peek() in ('inbounds', 'nuw', 'nusw'):
                if p.next() == 'inbounds': I.x['ib'] = True
            I.x['bt'] = p.type(); p.exp(','); I.ops = [tv()]
            while p.acc(','): I.ops.append(tv())
            I.ty = PTR
        elif op in ('zext', 'sext', 'trunc', 'fptosi', 'fptoui', 'sitofp', 'uitofp', 'fpext', 'fptrunc', 'bitcast', 'ptrtoint', 'inttoptr', 'addrspacecast'):
            while p.peek() in ('nneg', 'nuw', 'nsw'): p.next()
            a = tv(); p.exp('to'); I.ty = p.type(); I.ops = [a]
        elif op == 'select':
            while p.peek() in ('fast', 'nnan', 'ninf', 'nsz', 'arcp', 'contract', 'afn', 'reassoc'): p.next()
            a = tv(); p.exp(','); b = tv(); p.exp(','); c = tv(); I.ops = [a, b, c]; I.ty = b[0]
        elif op == 'phi':
            while p.peek() in ('fast', 'nnan', 'ninf', 'nsz', 'arcp', 'contract', 'afn', 'reassoc'): p.next()
            I.ty = p.type(); inc = []
            while True:
                p.exp('['); v = p.value(I.ty); p.exp(','); b = p.next()[1:].strip('"'); p.exp(']')
                inc.append((b, v))
                if not p.acc(','): break
            I.x['inc'] = inc
        elif op == 'br':
            if p.acc('label'):
                I.x['succ'] = [p.next()[1:].strip('"')]
            else:
                t = p.type(); I.ops = [(t, p.value(t))]; p.exp(','); p.exp('label'); a = p.next()[1:].strip('"'); p.exp(','); p.exp('label'); b = p.next()[1:].strip('"')
                I.x['succ'] = [a, b]
        elif op == 'switch':
            a = tv(); p.exp(','); p.exp('label'); d = p.next()[1:].strip('"'); p.exp('[')
            I.ops = [a]; cases = []
            while not p.acc(']'):
                t, v = tv(); p.exp(','); p.exp('label'); cases.append((v[1], p.next()[1:].strip('"')))
            I.x['cases'] = cases; I.x['def'] = d; I.x['succ'] = [d] + [c for _, c in cases]
        elif op == 'ret':
            t = p.type(); I.ty = t
            if t.k != 'void': I.ops = [(t, p.value(t))]
        elif op == 'unreachable': pass
        elif op == 'freeze':
            a = tv(); I.ops = [a]; I.ty = a[0]
        elif op == 'extractvalue':
            a = tv(); I.ops = [a]; I.x['idx'] = []
            while p.acc(','): I.x['idx'].append(int(p.next()))
        elif op == 'insertvalue':
            a = tv(); p.exp(','); b = tv(); I.ops = [a, b]; I.x['idx'] = []; I.ty = a[0]
            while p.acc(','): I.x['idx'].append(int(p.next()))
        elif op == 'extractelement':
            a = tv(); p.exp(','); b = tv(); I.ops = [a, b]; I.ty = a[0].a[1]
        elif op == 'insertelement':
            a = tv(); p.exp(','); b = tv(); p.exp(','); c = tv(); I.ops = [a, b, c]; I.ty = a[0]
        elif op == 'call':
            while True:
                w = p.peek()
                if w in ('fast', 'nnan', 'ninf', 'nsz', 'arcp', 'contract', 'afn', 'reassoc', 'dso_local', 'fastcc', 'ccc'): p.next(); continue
                k = p.i; p.skip_attrs()
                if p.i == k: break
            rt = p.type()
            if rt.k == 'fn': rt = rt.a[0]
            I.ty = rt
            callee = p.value(PTR)
            p.exp('(')
            args = []
            while not p.acc(')'):
                t = p.type(); bv = p.skip_attrs()
                if t.k == 'metadata':
                    while p.peek() not in (',', ')'): p.next()
                    v = None
                else: v = p.value(t)
                args.append((t, v, bv)); p.acc(',')
            I.x['callee'] = callee; I.x['args'] = args
        else:
            raise ValueError('instruction %s: %s' % (op, l0))
        return I

    # -------- debug info: line numbers
    def line(m, ref):
        d = m.meta.get(ref, '')
        mm = re.search(r'line: (\d+)', d)
        return int(mm.group(1)) if mm else 0

    def file_of_fn(m, f):
        d = m.meta.get(f.dbg or '', '')
        mm = re.search(r'file: (!\d+)', d)
        if not mm: return '?'
        mm = re.search(r'filename: "([^"]*)"', m.meta.get(mm.group(1), ''))
        return mm.group(1) if mm else '?'

    def struct_fields(m, name):
        """field name -> (byte offset, byte size) of a C struct or typedef, from debug info"""
        for k, d in m.meta.items():
            if 'DICompositeType' in d and 'DW_TAG_structure_type' in d and 'elements:' in d and re.search(r'name: "%s"' % re.escape(name), d):
                return m._fields(d)
        for k, d in m.meta.items():
            if 'DW_TAG_typedef' in d and re.search(r'name: "%s"' % re.escape(name), d):
                b = re.search(r'baseType: (!\d+)', d).group(1)
                dd = m.meta[b]
                if 'elements:' in dd: return m._fields(dd)
        raise KeyError(name)

    def _fields(m, d):
        r = {}
        el = m.meta[re.search(r'elements: (!\d+)', d).group(1)]
        for e in re.findall(r'!\d+', el):
            x = m.meta[e]
            nm = re.search(r'name: "([^"]*)"', x)
            off = re.search(r'offset: (\d+)', x)
            sz = re.search(r'[( ]size: (\d+)', x)
            if nm: r[nm.group(1)] = (int(off.group(1)) // 8 if off else 0, int(sz.group(1)) // 8 if sz else 0)
        r['__size__'] = (0, int(re.search(r'[( ]size: (\d+)', d).group(1)) // 8)
        return r


# ------------------------------------------------------------------ CFG analysis
def loops_of(f):
    """natural loops: header -> set of block names (body including header)"""
    order = f.order
    entry = order[0]
    preds = {b: [] for b in order}
    for b in order:
        for s in f.blocks[b].succs(): preds[s].append(b)
    # reachable
    seen = set(); st = [entry]
    while st:
        b = st.pop()
        if b in seen: continue
        seen.add(b); st.extend(f.blocks[b].succs())
    # dominators (iterative)
    rpo = []
    vis = set()
    def dfs(b):
        stack = [(b, iter(f.blocks[b].succs()))]
        vis.add(b)
        while stack:
            x, it = stack[-1]
            for s in it:
                if s not in vis:
                    vis.add(s); stack.append((s, iter(f.blocks[s].succs()))); break
            else:
                stack.pop(); rpo.append(x)
    dfs(entry)
    rpo.reverse()
    idx = {b: i for i, b in enumerate(rpo)}
    idom = {entry: entry}
    ch = True
    while ch:
        ch = False
        for b in rpo[1:]:
            new = None
            for p in preds[b]:
                if p in idom:
                    if new is None: new = p
                    else:
                        x, y = p, new
                        while x != y:
                            while idx[x] > idx[y]: x = idom[x]
                            while idx[y] > idx[x]: y = idom[y]
                        new = x
            if idom.get(b) != new: idom[b] = new; ch = True
    def dom(a, b):
        while True:
            if a == b: return True
            if b == entry: return False
            b = idom[b]
    loops = {}
    for b in rpo:
        for s in f.blocks[b].succs():
            if dom(s, b):
                body = loops.setdefault(s, {s})
                st = [b]
                while st:
                    x = st.pop()
                    if x in body: continue
                    body.add(x); st.extend(p for p in preds[x] if p in seen)
            elif s in idx and idx[s] <= idx[b]:
                raise ValueError('irreducible control flow in %s' % f.name)
    return loops, rpo, preds


def _fields(m):
    """(struct or typedef name) -> ({field: byte offset}, byte size) from the debug information"""
    tab = getattr(m, '_ftab', None)
    if tab is not None: return tab
    def dref(x, k):
        mm = re.search(r'\b%s: (!\d+)' % k, x)
        return mm.group(1) if mm else None
    def attr(x, k, d=None):
        mm = re.search(r'\b%s: (?:"([^"]*)"|(\w+))' % k, x)
        return (mm.group(1) if mm.group(1) is not None else mm.group(2)) if mm else d
    tab = {}
    def comp(ref):
        x = m.meta.get(ref, '')
        el = dref(x, 'elements')
        out = {}
        for e in re.findall(r'!\d+', m.meta.get(el, '')):
            y = m.meta.get(e, '')
            if 'DW_TAG_member' in y: out[attr(y, 'name', '')] = int(attr(y, 'offset', '0')) // 8
        return out, int(attr(x, 'size', '0')) // 8
    for ref, x in m.meta.items():
        if 'DICompositeType' in x and ('DW_TAG_structure_type' in x or 'DW_TAG_union_type' in x) and 'DIFlagFwdDecl' not in x:
            n = attr(x, 'name')
            if n and n not in tab: tab[n] = comp(ref)
    for ref, x in m.meta.items():
        if 'DW_TAG_typedef' in x:
            b = dref(x, 'baseType')
            y = m.meta.get(b, '')
            n = attr(x, 'name')
            if n and n not in tab and 'DICompositeType' in y and 'DIFlagFwdDecl' not in y: tab[n] = comp(b)
    m._ftab = tab
    return tab


def _off(m, struct, field):
    t = _fields(m)
    if struct not in t: raise KeyError('no struct %s in the program' % struct)
    if field not in t[struct][0]: raise KeyError('struct %s has no field %s' % (struct, field))
    return t[struct][0][field]


def _sizeof(m, struct):
    t = _fields(m)
    if struct not in t: raise KeyError('no struct %s in the program' % struct)
    return t[struct][1]


Module.off = _off
Module.sizeof = _sizeof
