"""Structured random generators of valid IDL file sets."""
from dataclasses import dataclass, field
from model import *

# names which generated code is likely to use for its own locals, members or parameters
LOCAL_NAMES = """a i o me r k h op self result args bi bo cx counts err obj s t p q ctx context ptr len size lenout count n x y tmp
i_ptr o_ptr bundle in_ out_ invoke_ proxy value inner ret status buf buffer_ boSizes oi oo bo_ bi_ minkObject m id index data
me_ret mCtx mObj arg argv e err_ code name type_ core std crate_ object interfaces Result Option Some_ None_ Ok_ output input
self_ iarg oarg ret_ BI BO OI OO""".split()
LOCAL_NAMES = [n for n in LOCAL_NAMES if n not in RESERVED]

SUFFIXES = ['_ptr', '_len', '_lenout', '_val', '_ref']


@dataclass
class Cfg:
    files: tuple = (1, 1)
    structs: tuple = (2, 6)
    ifaces: tuple = (1, 4)
    methods: tuple = (1, 5)
    params: tuple = (0, 6)
    consts: tuple = (0, 3)
    errors: tuple = (0, 3)
    depth: int = 3                # max inheritance depth
    inherit: float = 0.5
    obj_structs: bool = True      # objects inside structs
    obj_struct_arrays: bool = False   # arrays of objects / of object-bearing structs inside structs
    java: bool = False
    optional: float = 0.1
    docs: float = 0.1
    hostile: float = 0.0          # probability of names from LOCAL_NAMES for parameters
    big_arrays: float = 0.0
    order: str = 'topo'           # topo | shuffle
    place: str = 'layered'        # layered | any
    mix_objarr_struct: bool = True
    floats: bool = True
    max_struct: int = 200
    const_forms: bool = True      # hex/negative/fraction
    doc_style: str = 'plain'
    obj_bias: float = 0.0         # extra probability that a parameter carries objects
    small_bias: float = 0.0       # extra probability of a bundleable parameter
    fill: float = 0.0             # probability that a method is filled up to the argument limits
    dress: float = 0.25           # probability that a file has unusual spaces and comments
    dirs: float = 0.0             # probability that the files are spread over directories
    wide: float = 0.02            # probability that a method bundles more than twenty parameters


PRIM_LIST = list(PRIMS)
INT_RANGE = {t: ((0, 2 ** (8 * s) - 1) if t[0] == 'u' else (-2 ** (8 * s - 1), 2 ** (8 * s - 1) - 1))
             for t, s in PRIMS.items() if 'int' in t}


def const_value(rng, t, forms=True):
    """an accepted literal of type t"""
    if t.startswith('float'):
        r = rng.random()
        if r < .35:
            return '%s%d.%d' % (rng.choice(['', '-']), rng.randrange(1000), rng.randrange(1, 1000))
        if r < .5:
            return rng.choice(['0', '1', '-1', '0.0', '100', '-7', '123456', '0.5', '-0.25'])
        return '%s%d.%s' % (rng.choice(['', '-']), rng.randrange(10 ** rng.randrange(1, 12)),
                            ''.join(rng.choice('0123456789') for _ in range(rng.randrange(1, 12))))
    lo, hi = INT_RANGE[t]
    r = rng.random()
    if r < .2:
        v = hi
    elif r < .35:
        v = lo
    elif r < .55:
        v = rng.choice([0, 1, 7, 8, 9, 10, 16, 100, 127, hi // 2, hi // 2 + 1, hi - 1])
    elif r < .8:
        v = rng.randrange(0, hi + 1)
    else:
        v = rng.randrange(lo, hi + 1)
    if not forms:
        return str(v)
    if rng.random() < .4:
        h = '%x' % abs(v)
        if rng.random() < .5:
            h = h.upper()
        h = '0' * rng.choice([0, 0, 0, 1, 3]) + h
        return ('-' if v < 0 else '') + '0x' + h
    z = '0' * rng.choice([0, 0, 0, 0, 1, 2])
    return ('-' if v < 0 else '') + z + str(abs(v))


class Gen:
    def __init__(self, rng, cfg=None):
        self.rng, self.cfg = rng, cfg or Cfg()
        self.used = set()
        self.n = 0

    # ---- names
    def name(self, prefix):
        while True:
            self.n += 1
            style = self.rng.randrange(4)
            w = self.rng.choice(['', 'Alpha', 'beta', 'X', 'q_', 'Long_Name', 'z9', 'Of'])
            n = {0: '%s%d' % (prefix, self.n), 1: '%s%s%d' % (prefix, w, self.n), 2: '%s_%s%d' % (prefix, w, self.n),
                 3: '%s%d%s' % (prefix, self.n, w)}[style]
            if self.rng.random() < .012:          # beyond 31, 63 and 127 significant characters
                n += '_' + 'LongerThanUsual'[self.rng.randrange(5):] * self.rng.choice([2, 4, 5, 9, 12])
            if n.lower() not in self.used and n not in RESERVED:
                self.used.add(n.lower())
                return n

    # ---- structs
    def gen_struct(self, fs, target=None, allow_obj=None):
        rng, cfg = self.rng, self.cfg
        allow_obj = cfg.obj_structs if allow_obj is None else allow_obj
        st = Struct(self.name('S'), [])
        names = set()

        def fname():
            while True:
                n = rng.choice(['f%d' % len(st.fields), 'field%d' % len(st.fields), 'v_%d' % len(st.fields),
                                'F%dx' % len(st.fields)])
                if cfg.hostile and rng.random() < cfg.hostile:
                    n = rng.choice(LOCAL_NAMES)
                if n not in names:
                    names.add(n)
                    return n
        off, al, nobj = 0, 1, 0
        target = target or rng.choice([1, 2, 3, 4, 6, 8, 12, 15, 16, 17, 18, 20, 24, 32, 33, 40, 64, rng.randrange(1, 100)])
        others = [s for s in fs.structs() if fs.size_align(s.name)[0] <= max(target, 24)]
        ifn = [i.name for i in fs.ifaces()] + ['interface']
        # now and then wrap an object-bearing struct once more (deep chains of holders)
        must = None
        if allow_obj and cfg.obj_structs and rng.random() < .3:
            holders = [s for s in fs.structs() if 0 < len(fs.objects_in(s.name)) <= 4 and fs.size_align(s.name)[0] <= cfg.max_struct]
            if holders:
                must = rng.choice(holders + holders[-2:])
                target = max(target, fs.size_align(must.name)[0] + rng.choice([0, 0, 1, 8, 16]))
        must_at = rng.choice([1, 1, 2, 3])

        def pad(to):
            nonlocal off
            need = (-off) % to
            while need:
                opts = [p for p in PRIM_LIST if PRIMS[p] <= need and off % PRIMS[p] == 0]
                p = rng.choice(opts)
                mx = need // PRIMS[p]
                c = rng.randrange(1, mx + 1)
                st.fields.append(Field(p, c if c > 1 or rng.random() < .2 else None, fname()))
                off += PRIMS[p] * c
                need -= PRIMS[p] * c
        guard = 0
        while (off < target or must) and guard < 12:
            guard += 1
            r = rng.random()
            cnt = None
            if must and guard >= must_at and nobj + len(fs.objects_in(must.name)) <= 5:
                t, must = must.name, None
            elif r < .2 and others:
                t = rng.choice(others).name
                if fs.has_objects(t) and (not allow_obj or nobj + len(fs.objects_in(t)) > 4):
                    continue
                if rng.random() < .35 and (not fs.has_objects(t) or cfg.obj_struct_arrays):
                    cnt = rng.randrange(1, 4)
                    if nobj + cnt * len(fs.objects_in(t)) > 5:
                        cnt = 1
            elif r < .32 and allow_obj and nobj < 3:
                t = rng.choice(ifn)
                if cfg.obj_struct_arrays and rng.random() < .3:
                    cnt = rng.randrange(1, 3)
            else:
                t = rng.choice(PRIM_LIST if cfg.floats else INTS)
                if rng.random() < .3:
                    cnt = rng.choice([1, 2, 3, 4, 5, 7, 8, 16])
                    if rng.random() < cfg.big_arrays:
                        cnt = rng.choice([255, 256, 257, 1000, 32767, 65535])
            sz, a = fs.size_align(t)
            if t in PRIMS and cnt is None and rng.random() < .6 and off + sz > target:
                continue
            if off % a:
                pad(a)
            st.fields.append(Field(t, cnt, fname()))
            nobj += (cnt or 1) * (1 if fs.is_obj(t) else len(fs.objects_in(t)))
            off += sz * (cnt or 1)
            al = max(al, a)
        if not st.fields:
            st.fields.append(Field('uint8', None, fname()))
            off = 1
        if off % al:
            pad(al)
        return st

    # ---- methods
    def pname(self, names, k):
        rng = self.rng
        while True:
            n = rng.choice(['p%d' % k, 'arg%d' % k, 'param_%d' % k, 'Px%d' % k, 'v%dA' % k])
            if self.cfg.hostile and rng.random() < self.cfg.hostile:
                n = rng.choice(LOCAL_NAMES)
            l = n.lower()
            # known finding "suffixed parameter names": x next to x_ptr, x_len, ...
            if l not in names and not any(l == x + s or x == l + s for x in names for s in SUFFIXES):
                names.add(l)
                return n

    def gen_param(self, fs, names, k, d=None):
        rng, cfg = self.rng, self.cfg
        d = d or rng.choice(['in', 'out'])
        r = rng.random()
        sts = fs.structs()
        if cfg.java:
            sts = [s for s in sts if not fs.has_objects(s.name)]
        arr = None
        if rng.random() < cfg.obj_bias:
            r = .9
            os_ = [s for s in sts if fs.has_objects(s.name)]
            if os_ and rng.random() < .5:
                return Param(d, rng.choice(os_).name, None, self.pname(names, k))
        elif rng.random() < cfg.small_bias:
            r = rng.choice([.1, .1, .6])
        if r < .36:
            t = rng.choice(PRIM_LIST if cfg.floats else INTS)
        elif r < .46:
            t, arr = rng.choice(PRIM_LIST if cfg.floats else INTS), 'u'
        elif r < .53:
            t = 'buffer'
        elif r < .72 and sts:
            small = [s for s in sts if fs.size_align(s.name)[0] <= 16]
            pool = small if small and rng.random() < .5 else sts
            t = rng.choice(pool).name
        elif r < .79 and [s for s in sts if not fs.has_objects(s.name)]:
            t, arr = rng.choice([s for s in sts if not fs.has_objects(s.name)]).name, 'u'
        else:
            t = rng.choice([i.name for i in fs.ifaces()] + ['interface'] * 2)
            if rng.random() < .3:
                arr = rng.choice([1, 2, 2, 3, 4, 7])
        return Param(d, t, arr, self.pname(names, k))

    def gen_method(self, fs, nparams=None):
        rng, cfg = self.rng, self.cfg
        m = Method(self.name(rng.choice(['m', 'get', 'do_', 'M'])), [])
        names = set()
        want = nparams if nparams is not None else rng.randint(*cfg.params)
        fill = rng.random() < cfg.fill
        bias = cfg.small_bias
        if fill:
            want = rng.choice([15, 20, 30, 40])
            self.cfg.small_bias = 0 if rng.random() < .7 else .8
        wide = nparams is None and not fill and rng.random() < cfg.wide
        if wide:
            want, lean = rng.randint(21, 64), rng.choice([['in'], ['out'], ['in', 'out'], ['in'] * 5 + ['out'], ['out'] * 5 + ['in']])
            cfg.small_bias = .97
        for k in range(want):
            for _ in range(8):
                p = self.gen_param(fs, names, k, rng.choice(lean) if wide else None)
                m.params.append(p)
                if fs.method_ok(m) and (cfg.mix_objarr_struct or not self._mix(fs, m)):
                    break
                names.discard(p.name.lower())
                m.params.pop()
        cfg.small_bias = bias
        if rng.random() < cfg.optional:
            m.optional = True
        if rng.random() < cfg.docs:
            m.doc = self.gen_doc()
        return m

    def _mix(self, fs, m):
        for d in ('in', 'out'):
            ks = [fs.kind(p) for p in m.params if p.dir == d]
            if 'objarr' in ks and any(p.dir == d and fs.kind(p) in ('small', 'big') and fs.has_objects(p.type) for p in m.params):
                return True
        return False

    def gen_doc(self):
        rng = self.rng
        ind = rng.choice(['', ' ', '  ', '    ', '\t'])
        words = ['alpha', 'brief', '@param x', '42', 'return; value', '(see below)', 'é', '日本', 'x<y>', 'end.', '"q"', "it's",
                 '#include', '{', '};', 'method', '%d', 'a\\b']
        if self.cfg.doc_style == 'plain':
            words = words[:6]
        lines = []
        for _ in range(rng.randrange(1, 5)):
            if rng.random() < .15:
                lines.append('')
            else:
                lines.append(ind + rng.choice(['', '* ', '*', ' * ']) + ' '.join(rng.choice(words) for _ in range(rng.randrange(1, 6))))
        return '\n'.join(lines) + '\n' + ind

    def gen_const(self, fs):
        t = self.rng.choice(PRIM_LIST if self.cfg.floats else INTS)
        return Const(t, self.name('K'), const_value(self.rng, t, self.cfg.const_forms))

    def gen_iface(self, fs):
        rng, cfg = self.rng, self.cfg
        base = None
        cands = [i for i in fs.ifaces() if len(fs.chain(i)) < cfg.depth]
        if cands and rng.random() < cfg.inherit:
            base = rng.choice(cands).name
        it = Iface(self.name(rng.choice(['I', 'If', 'Svc'])), base, [])
        mem = []
        fs2 = FileSet(fs.files[:-1] + [File('_', [], fs.files[-1].decls + [it])]) if fs.files else fs
        for _ in range(rng.randint(*cfg.methods)):
            mem.append(self.gen_method(fs2))
        for _ in range(rng.randint(*cfg.errors)):
            mem.append(Err(self.name('E')))
        for _ in range(rng.randint(*cfg.consts)):
            mem.append(self.gen_const(fs))
        rng.shuffle(mem)
        it.members = mem
        return it

    # ---- whole sets
    def fileset(self):
        rng, cfg = self.rng, self.cfg
        tmp = FileSet([File('main.idl', [], [])])
        todo = ['s'] * rng.randint(*cfg.structs) + ['i'] * rng.randint(*cfg.ifaces) + ['c'] * rng.randint(*cfg.consts)
        rng.shuffle(todo)
        if 'i' in todo and cfg.obj_structs and rng.random() < .6:   # have an interface early
            todo.remove('i')
            todo.insert(0, 'i')
        D = tmp.files[0].decls
        for k in todo:
            D.append(self.gen_struct(tmp) if k == 's' else self.gen_iface(tmp) if k == 'i' else self.gen_const(tmp))
        return self.place(tmp)

    def place(self, tmp):
        rng, cfg = self.rng, self.cfg
        D = list(tmp.files[0].decls)
        nf = rng.randint(*cfg.files)
        names = ['main.idl'] + [self.name(rng.choice(['inc', 'File', 'u'])) + '.idl' for _ in range(nf - 1)]
        files = [File(n, [], []) for n in names]
        at = {}
        for d in D:                       # D is topologically ordered
            deps = [x for x in tmp.deps(d) if x != d.name]
            if cfg.place == 'layered':
                mx = min([at[x] for x in deps], default=nf - 1)
                k = rng.randint(0, mx)
            else:
                k = rng.randrange(nf)
            at[d.name] = k
            files[k].decls.append(d)
        reach = set()
        for k, f in enumerate(files):
            need = set()
            for d in f.decls:
                for x in tmp.deps(d):
                    if at.get(x, k) != k:
                        need.add(at[x])
            inc = {x for x in need if x > k} if cfg.place == 'any' else need
            inc |= {j for j in range(k + 1, nf) if rng.random() < .25}
            reach |= inc
            f.includes = sorted(inc)
        for j in range(1, nf):
            if j not in reach:
                files[0].includes.append(j)
        for f in files:
            inc = list(dict.fromkeys(f.includes))
            rng.shuffle(inc)
            f.includes = [names[j] for j in inc]
            if cfg.order == 'shuffle':
                rng.shuffle(f.decls)
        for f in files:
            if rng.random() < cfg.dress and sum(len(getattr(d, 'members', ())) for d in f.decls) < 3000:
                f.dress = str(rng.random())
        fs = FileSet(files)
        if cfg.dirs and nf > 1 and rng.random() < cfg.dirs:
            self.spread(fs)
        return fs

    def spread(self, fs):
        """Moves the files to directories; includes by path, or by bare name through include directories."""
        rng = self.rng
        pool = ['', 'parts', 'a/b', 'parts/deep', 'a', 'x.d', 'inc_1']
        where = {f.path: rng.choice(pool) for f in fs.files}
        where[fs.files[0].path] = rng.choice(['', '', 'top', 'a'])
        dirs = sorted({d or '.' for d in where.values()})
        fs.incdirs = rng.sample(dirs, rng.randint(0, len(dirs)))
        for f in fs.files:
            here = where[f.path]
            new = []
            for i in f.includes:
                d = where[i]
                if (d or '.') in fs.incdirs and rng.random() < .5:
                    new.append(i)
                    continue
                r = os.path.relpath(os.path.join('/r', d, i), os.path.join('/r', here))
                if '/' not in r or rng.random() < .15:
                    r = './' + r
                if rng.random() < .1:
                    r = r.replace('/', rng.choice(['/./', '//']), 1)
                new.append(r)
            f.includes = new
        for f in fs.files:
            f.path = os.path.join(where[f.path], f.path)
