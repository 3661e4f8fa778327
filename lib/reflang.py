"""Independent recogniser for IDL texts and decision procedure for whole file sets (accept / refuse / undecided)."""
import os
from model import *
from gen import INT_RANGE

WS = (' ', '\t', '\n', '\r')
PRIMNAMES = ['uint8', 'uint16', 'uint32', 'uint64', 'int8', 'int16', 'int32', 'int64', 'float32', 'float64']


class Bad(Exception):
    pass


class P:
    """recursive descent with the ordered-choice semantics the grammar is written in"""

    def __init__(self, text):
        self.s, self.i, self.n = text, 0, len(text)
        self.far = 0

    def fail(self):
        self.far = max(self.far, self.i)
        raise Bad(self.i)

    def ws1(self):
        if self.i < self.n and self.s[self.i] in WS:
            self.i += 2 if self.s.startswith('\r\n', self.i) else 1
            return
        self.fail()

    def skip(self):
        s = self.s
        while self.i < self.n:
            c = s[self.i]
            if c in WS:
                self.i += 1
            elif s.startswith('/*', self.i):
                e = s.find('*/', self.i + 2)
                if e < 0:
                    return
                self.i = e + 2
            elif s.startswith('//', self.i):
                while self.i < self.n and s[self.i] not in '\r\n':
                    self.i += 1
            else:
                return

    def lit(self, t):
        if not self.s.startswith(t, self.i):
            self.fail()
        self.i += len(t)

    def attempt(self, f):
        k = self.i
        try:
            return f()
        except Bad:
            self.i = k
            return None

    def ident(self):
        s, k = self.s, self.i
        if k >= self.n or not (s[k].isascii() and s[k].isalpha()):
            self.fail()
        while self.i < self.n and s[self.i].isascii() and (s[self.i].isalnum() or s[self.i] == '_'):
            self.i += 1
        return s[k:self.i]

    def prim(self):
        for stem, sizes in (('uint', ('8', '16', '32', '64')), ('int', ('8', '16', '32', '64')), ('float', ('32', '64'))):
            if self.s.startswith(stem, self.i):
                for z in sizes:
                    if self.s.startswith(stem + z, self.i):
                        self.i += len(stem + z)
                        return stem + z
        self.fail()

    def digits(self, hexa=False):
        k = self.i
        ok = '0123456789abcdefABCDEF' if hexa else '0123456789'
        while self.i < self.n and self.s[self.i] in ok:
            self.i += 1
        if k == self.i:
            self.fail()
        return self.s[k:self.i]

    def value(self):
        k = self.i

        def hexa():
            self.attempt(lambda: self.lit('-'))
            self.lit('0x')
            self.digits(True)
            return True
        if not self.attempt(hexa):
            self.attempt(lambda: self.lit('-'))
            self.digits()

            def frac():
                self.lit('.')
                self.digits()
                return True
            self.attempt(frac)
        return self.s[k:self.i]

    def bounded(self):
        self.lit('[')
        self.skip()
        n = self.digits()
        self.skip()
        self.lit(']')
        return int(n)

    def unbounded(self):
        self.lit('[')
        self.skip()
        self.lit(']')
        return 'u'

    def seq(self, *fs):
        """f1 skip f2 skip ..; returns the last two results"""
        def go():
            r = []
            for k, f in enumerate(fs):
                if k:
                    self.skip()
                r.append(f())
            return r
        return go

    def choice(self, *fs):
        for f in fs:
            r = self.attempt(f)
            if r is not None:
                return r
        self.fail()

    def noiface_ident(self):
        if self.s.startswith('interface', self.i):
            self.fail()
        return self.ident()

    def param_type(self):
        def kw(w):
            def f():
                self.lit(w)
                return w
            return f
        r = self.choice(
            self.seq(lambda: self.choice(self.ident, kw('interface')), self.bounded),
            self.seq(lambda: self.choice(self.prim, self.noiface_ident), self.unbounded),
            lambda: [self.prim(), None], lambda: [self.ident(), None], lambda: [kw('interface')(), None], lambda: [kw('buffer')(), None])
        return r

    def param(self):
        d = 'in' if self.s.startswith('in', self.i) else 'out'
        self.lit(d)
        self.skip()
        t, a = self.param_type()
        self.skip()
        return Param(d, t, a, self.ident())

    def kw_ws(self, w):
        self.lit(w)
        self.ws1()

    def function(self):
        attrs = 0

        def attr():
            while self.i < self.n and self.s[self.i] in WS:
                self.i += 1
            self.lit('#[optional]')
            self.ws1()
            return True
        while self.attempt(attr):
            attrs += 1
        while self.i < self.n and self.s[self.i] in WS:
            self.i += 1
        self.kw_ws('method')
        self.skip()
        n = self.ident()
        self.skip()
        self.lit('(')
        ps = []
        k = self.i
        self.skip()
        p = self.attempt(self.param)
        if p is None:
            self.i = k
        else:
            ps.append(p)
        while True:
            k = self.i
            self.skip()

            def more():
                self.lit(',')
                self.skip()
                return self.param()
            p = self.attempt(more)
            if p is None:
                self.i = k
                break
            ps.append(p)
        self.skip()
        self.lit(');')
        return Method(n, ps, attrs > 0, None, attrs)

    def const(self):
        self.kw_ws('const')
        self.skip()
        t = self.prim()
        self.skip()
        n = self.ident()
        self.skip()
        self.lit('=')
        self.skip()
        v = self.value()
        self.skip()
        self.lit(';')
        return Const(t, n, v)

    def error(self):
        self.kw_ws('error')
        self.skip()
        n = self.ident()
        self.skip()
        self.lit(';')
        return Err(n)

    def struct_field(self):
        t = self.choice(self.prim, self.ident)
        k = self.i
        self.skip()
        b = self.attempt(self.bounded)
        if b is None:
            self.i = k
        self.skip()
        n = self.ident()
        self.skip()
        self.lit(';')
        return Field(t, b, n)

    def many(self, f):
        r = []
        while True:
            k = self.i
            if r:
                self.skip()
            x = self.attempt(f)
            if x is None:
                self.i = k
                return r
            r.append(x)

    def struct(self):
        self.kw_ws('struct')
        self.skip()
        n = self.noiface_ident()
        self.skip()
        self.lit('{')
        self.skip()
        fs = self.many(self.struct_field)
        if not fs:
            self.fail()
        self.skip()
        self.lit('};')
        return Struct(n, fs)

    def interface(self):
        self.kw_ws('interface')
        self.skip()
        n = self.ident()
        k = self.i
        self.skip()

        def base():
            self.lit(':')
            self.skip()
            return self.ident()
        b = self.attempt(base)
        if b is None:
            self.i = k
        self.skip()
        self.lit('{')
        self.skip()
        mem = self.many(lambda: self.choice(self.function, self.const, self.error))
        self.skip()
        self.lit('};')
        return Iface(n, b, mem)

    def include(self):
        self.lit('include')
        self.ws1()
        while self.i < self.n and self.s[self.i] in WS:
            self.i += 1
        self.lit('"')
        e = self.s.find('.idl', self.i)
        if e <= self.i:
            self.fail()
        p = self.s[self.i:e + 4]
        self.i = e + 4
        self.lit('"')
        return p

    def idl(self):
        self.skip()
        inc = self.many(self.include)
        self.skip()
        decls = self.many(lambda: self.choice(self.const, self.struct, self.interface))
        self.skip()
        if self.i != self.n:
            self.fail()
        return inc, decls


def parse(text, path='main.idl'):
    """-> File or None when the grammar does not admit the text"""
    try:
        inc, decls = P(text).idl()
    except Bad:
        return None
    return File(path, inc, decls)


# ------------------------------------------------------------------ restrictions
def const_state(c):
    """'ok' | 'bad' | 'open' (not decided by the properties)"""
    if c.type.startswith('float'):
        from checks_float import float_ok
        return 'ok' if float_ok(c.type, c.value) else 'open'
    v = c.value
    neg = v.startswith('-')
    b = v[1:] if neg else v
    if '.' in b:
        return 'open' if not b.split('.')[1].strip('0') else 'bad'
    n = int(b[2:], 16) if b.startswith('0x') else int(b)
    if c.type[0] == 'u' and neg:
        return 'bad'
    n = -n if neg else n
    lo, hi = INT_RANGE[c.type]
    return 'ok' if lo <= n <= hi else 'bad'


def decide(fs, allow_ub=False):
    """reference verdict on a parsed file set whose includes resolve without a cycle -> (set of violated rules, set of undecided points)"""
    bad, unsure = set(), set()
    names = {}
    for _, d in fs.all_decls():
        if d.name in names:
            bad.add('duplicate top-level name')
        names[d.name] = d
    structs = {n: d for n, d in names.items() if isinstance(d, Struct)}
    ifaces = {n: d for n, d in names.items() if isinstance(d, Iface)}
    for n in names:
        if n in RESERVED:
            unsure.add('reserved word')

    def known(t):
        return t in PRIMS or t == 'interface' or t in structs or t in ifaces

    # structs: cycles, sizes
    state, lay = {}, {}

    def visit(n):
        """(size, align, number of objects held, strict align) or None"""
        if n in lay:
            return lay[n]
        if state.get(n) == 1:
            bad.add('cyclic struct containment')
            return None
        state[n] = 1
        off, al, ob, ok = 0, 1, 0, True
        strict = 1                         # object slots aligned to their own size rather than to a pointer's
        for f in structs[n].fields:
            cnt = 1 if f.count is None else f.count
            if cnt == 0 or cnt > 65535:
                unsure.add('array size')
            if f.type in PRIMS:
                sz, a, o, st = PRIMS[f.type], PRIMS[f.type], 0, PRIMS[f.type]
            elif f.type == 'interface' or f.type in ifaces:
                sz, a, o, st = 16, 8, 1, 16
            elif f.type in structs:
                r = visit(f.type)
                if r is None:
                    ok = False
                    continue
                sz, a, o, st = r
            else:
                bad.add('undefined type')
                ok = False
                continue
            if ok and off % a:
                bad.add('misaligned struct')
            if ok and off % st:
                unsure.add('alignment of object slots')
            off += sz * cnt
            al = max(al, a)
            strict = max(strict, st)
            ob += o * cnt
        if ok and off % al:
            bad.add('struct size')
        if ok and off % strict:
            unsure.add('alignment of object slots')
        if off >= 2 ** 31:
            unsure.add('huge struct')
        state[n] = 2
        lay[n] = (off, al, ob, strict) if ok else None
        return lay[n]
    import sys
    sys.setrecursionlimit(20000)
    for n, d in structs.items():
        visit(n)
        if len({f.name for f in d.fields}) != len(d.fields):
            bad.add('duplicate field')
    # interfaces
    for n, d in ifaces.items():
        chain, x = [], d
        while x is not None:
            if x.name in [c.name for c in chain]:
                bad.add('cyclic inheritance')
                chain = None
                break
            chain.insert(0, x)
            if x.base is None:
                break
            if x.base not in ifaces:
                bad.add('undefined base')
                chain = None
                break
            x = ifaces[x.base]
        if chain:
            ms = [m.name for i in chain for m in i.methods]
            ce = [m.name for i in chain for m in i.consts + i.errors]
            if len(set(ms)) != len(ms):
                bad.add('duplicate method')
            if len(set(ce)) != len(ce):
                bad.add('duplicate constant or error')
            if len(ms) > 0x4000:
                bad.add('op-codes')
        for c in d.consts:
            cs = const_state(c)
            if cs == 'bad':
                unsure.add('const') if allow_ub else bad.add('constant out of range')
            elif cs == 'open':
                unsure.add('const')
        for m in d.methods:
            if (m.attrs or 0) > 1:
                bad.add('repeated attribute')
            if len({p.name for p in m.params}) != len(m.params):
                bad.add('duplicate parameter')
            nin = {'in': [0, 0, False, 0, 0, 0], 'out': [0, 0, False, 0, 0, 0]}   # arrays, objects, struct objects, bundle, buffers, object count
            for p in m.params:
                s = nin[p.dir]
                if p.arr not in (None, 'u') and not 1 <= p.arr <= 65535:
                    unsure.add('array size')
                if p.type == 'buffer':
                    if p.arr == 'u':
                        unsure.add('buffer[]')
                    elif p.arr is not None:
                        bad.add('bounded data array')
                    s[4] += 1
                    continue
                if not known(p.type):
                    bad.add('undefined type')
                    continue
                if p.type == 'interface' or p.type in ifaces:
                    if p.arr == 'u':
                        bad.add('unbounded object array')
                    elif p.arr is None:
                        s[1] += 1
                        s[5] += 1
                    else:
                        s[0] += 1
                        s[5] += p.arr
                    continue
                obj = lay[p.type][2] if p.type in structs and lay.get(p.type) is not None else 0
                if p.arr is not None and p.arr != 'u':
                    bad.add('bounded data array')
                if p.arr == 'u':
                    if obj:
                        bad.add('array of object-bearing structs')
                    s[4] += 1
                elif p.type in PRIMS:
                    s[3] = 1
                elif lay.get(p.type) is not None:
                    if lay[p.type][0] <= 16:
                        s[3] = 1
                    else:
                        s[4] += 1
                    if obj:
                        s[2] = True
                        s[5] += obj
            for s in nin.values():
                if s[0] and s[1]:
                    bad.add('object array with single objects')
                if s[0] > 1:
                    bad.add('two object arrays')
                if s[0] and s[2]:
                    unsure.add('object array with object-bearing struct')
                if s[3] + s[4] > 15 or s[5] > 15:
                    bad.add('more than 15 arguments of a kind')
    for _, d in fs.all_decls():
        if isinstance(d, Const):
            cs = const_state(d)
            if cs == 'bad':
                unsure.add('const') if allow_ub else bad.add('constant out of range')
            elif cs == 'open':
                unsure.add('const')
        if isinstance(d, Iface):
            for m in d.members:
                if m.name in RESERVED or isinstance(m, Method) and any(p.name in RESERVED for p in m.params):
                    unsure.add('reserved word')
        if isinstance(d, Struct) and any(f.name in RESERVED for f in d.fields):
            unsure.add('reserved word')
    return bad, unsure


def resolve(path, inc, incdirs, maindir):
    """first match in search order -> real path or None"""
    if os.path.dirname(inc):
        p = os.path.join(os.path.dirname(path), inc)
        return os.path.realpath(p) if os.path.isfile(p) else None
    for d in list(incdirs) + [maindir]:
        p = os.path.join(d, inc)
        if os.path.isfile(p):
            return os.path.realpath(p)
    return None


def load(main, incdirs=()):
    """-> (FileSet, edges, None) or (None, None, reason): everything reachable from main, each file once"""
    main = os.path.realpath(main)
    files, order, edges, stack = {}, [], [], [main]
    while stack:
        p = stack.pop()
        if p in files:
            continue
        try:
            f = parse(open(p, encoding='utf-8', newline='').read(), p)
        except (OSError, UnicodeDecodeError):
            return None, None, 'unreadable'
        if f is None:
            return None, None, 'grammar'
        files[p] = f
        order.append(p)
        for inc in f.includes:
            q = resolve(p, inc, incdirs, os.path.dirname(main))
            if q is None:
                return None, None, 'unresolved include'
            edges.append((p, q))
            stack.append(q)
    # cycle test: repeatedly drop files without remaining includes
    out = {p: {b for a, b in edges if a == p} for p in order}
    while True:
        leaf = [p for p, s in out.items() if not s]
        if not leaf:
            break
        for p in leaf:
            del out[p]
        for s in out.values():
            s.difference_update(leaf)
    if out:
        return None, None, 'include cycle'
    return FileSet([files[p] for p in order]), edges, None


def verdict(main, incdirs=(), allow_ub=False):
    """('accept'|'refuse'|'open', reasons)"""
    fs, _, why = load(main, incdirs)
    if fs is None:
        return 'refuse', [why]
    bad, unsure = decide(fs, allow_ub)
    if bad:
        return 'refuse', sorted(bad)
    if unsure:
        return 'open', sorted(unsure)
    return 'accept', []
