"""C09: nothing that violates a language restriction is accepted, by the command line driver or the library."""
import multiprocessing as mp, re
from common import *
from model import *
from gen import Gen, Cfg, INT_RANGE, LOCAL_NAMES
import nearmiss, reflang, shrink

RULE = ('case = one compilation (CLI with a random backend and flags, or library entry point) of a valid generated file set into which exactly one violation was planted '
        'at a random place (any file, any declaration order, own or inherited, nested), or of text edited at token level; an independent recogniser and decision procedure '
        'must agree that it is to be refused; non-trivial = every case; distinct by file texts and target')

BES = ['c', 'cs', 'cpp', 'cpps', 'rust', 'java']


# ------------------------------------------------------------------ violations: (rng, fs, g) -> True when planted
def pick_iface(rng, fs):
    l = fs.ifaces()
    return rng.choice(l) if l else None


def all_methods(fs):
    return [m for i in fs.ifaces() for m in i.methods]


def ins(rng, lst, x):
    lst.insert(rng.randint(0, len(lst)), x)


def v_include_cycle(rng, fs, g):
    n = rng.choice([1, 1, 2, 2, 3, 5, 8, rng.randrange(9, 150)])
    have = [f.path for f in fs.files]
    if n == 1:
        f = rng.choice(fs.files)
        ins(rng, f.includes, f.path)
        return True
    cyc = [g.name('cy') + '.idl' for _ in range(n)]
    if rng.random() < .5 and len(have) > 1:
        cyc[0] = rng.choice(have)           # the cycle runs through a file of the set
    for k in range(n):
        f = [x for x in fs.files if x.path == cyc[k]]
        f = f[0] if f else File(cyc[k], [], [Const('uint8', g.name('K'), '1')])
        ins(rng, f.includes, cyc[(k + 1) % n])
        if f not in fs.files:
            fs.files.append(f)
    entry = rng.choice(fs.files[:len(have)])
    ins(rng, entry.includes, rng.choice(cyc))
    return True


def v_missing_include(rng, fs, g):
    ins(rng, rng.choice(fs.files).includes, rng.choice(['nothere.idl', 'sub/nothere.idl', '../nothere.idl', './x/../zz.idl']))
    return True


def v_struct_cycle(rng, fs, g):
    n = rng.choice([1, 1, 2, 3, 4, 7, rng.randrange(8, 300)])
    ns = [g.name('Y') for _ in range(n)]
    for k in range(n):
        t = ns[(k + 1) % n]
        fl = [Field(t, rng.choice([None, None, 1, 3]), 'nest')]
        for j in range(rng.randrange(3)):
            ins(rng, fl, Field('uint8', None, 'w%d' % j))
        ins(rng, rng.choice(fs.files).decls, Struct(ns[k], fl))
    if rng.random() < .4 and fs.ifaces():
        i = pick_iface(rng, fs)
        ins(rng, i.members, Method(g.name('m'), [Param('in', ns[0], None, 'x')]))
    if rng.random() < .3:                    # a tail which leads into the cycle
        ins(rng, rng.choice(fs.files).decls, Struct(g.name('T'), [Field(rng.choice(ns), None, 'f')]))
    return True


def v_inherit_cycle(rng, fs, g):
    n = rng.choice([1, 1, 2, 3, 4, 6, rng.randrange(7, 300)])
    ns = [g.name('C') for _ in range(n)]
    for k in range(n):
        ins(rng, rng.choice(fs.files).decls, Iface(ns[k], ns[(k + 1) % n], [Method(g.name('m'), [])] if rng.random() < .6 else []))
    if rng.random() < .4:
        ins(rng, rng.choice(fs.files).decls, Iface(g.name('T'), rng.choice(ns), []))
    return True


def v_dup_param(rng, fs, g):
    ms = [m for m in all_methods(fs)]
    if not ms:
        return False
    m = rng.choice(ms)
    n = rng.choice([p.name for p in m.params]) if m.params and rng.random() < .7 else None
    ts = ['uint8', 'uint32', 'buffer', 'float64', 'interface']
    if n is None:
        n = 'twice'
        ins(rng, m.params, Param(rng.choice(['in', 'out']), rng.choice(ts), None, n))
    t = rng.choice(ts)
    ins(rng, m.params, Param(rng.choice(['in', 'out']), t, 'u' if t in PRIMS and rng.random() < .3 else None, n))
    return True


def v_dup_field(rng, fs, g):
    ss = [s for s in fs.structs() if not fs.has_objects(s.name)]
    if not ss:
        return False
    s = rng.choice(ss)
    f = rng.choice(s.fields)
    sz, al = fs.size_align(s.name)
    # appending a copy of the whole layout keeps it aligned
    if rng.random() < .5 and al == 1:
        ins(rng, s.fields, Field('uint8', rng.choice([None, 2]), f.name))
    else:
        s.fields.append(Field(f.type if f.type in PRIMS and PRIMS[f.type] == al else {1: 'uint8', 2: 'int16', 4: 'uint32', 8: 'int64'}.get(al, 'uint8'), None, f.name))
    return True


def rel(rng, fs, g):
    """(ancestor or same, descendant)"""
    i = pick_iface(rng, fs)
    if not i:
        return None
    if rng.random() < .4:                    # a taller tower on top of it, its storeys anywhere
        for _ in range(rng.choice([2, 3, 4, 5, 6, 8, 12, rng.randrange(3, 70)])):
            d = Iface(g.name('Tw'), i.name, [Method(g.name('m'), [])] if rng.random() < .3 else [Err(g.name('E'))] if rng.random() < .3 else [])
            ins(rng, rng.choice(fs.files).decls, d)
            i = d
        if rng.random() < .6:
            return rng.choice(fs.chain(i)[-5:] if rng.random() < .3 else fs.chain(i)[:3]), i
    return rng.choice(fs.chain(i)), i


def v_dup_method(rng, fs, g):
    r = rel(rng, fs, g)
    if not r:
        return False
    a, d = r
    if not a.methods or rng.random() < .3:
        ins(rng, a.members, Method(g.name('m'), []))
    m = rng.choice(a.methods)
    ins(rng, d.members, Method(m.name, copy.deepcopy(m.params) if rng.random() < .4 else [Param('in', 'uint8', None, 'zz')] if rng.random() < .5 else [], rng.random() < .2))
    return True


def v_dup_const(rng, fs, g):
    r = rel(rng, fs, g)
    if not r:
        return False
    a, d = r
    ce = a.consts + a.errors
    if not ce or rng.random() < .3:
        ins(rng, a.members, rng.choice([Err(g.name('E')), Const('uint16', g.name('K'), '3')]))
        ce = a.consts + a.errors
    n = rng.choice(ce).name
    ins(rng, d.members, rng.choice([Err(n), Const(rng.choice(['uint8', 'int64']), n, '1')]))
    return True


def v_dup_top(rng, fs, g):
    ds = [d for _, d in fs.all_decls()]
    if not ds:
        return False
    n = rng.choice(ds).name
    d = rng.choice([Struct(n, [Field('uint8', None, 'x')]), Iface(n, None, []), Iface(n, None, [Method(g.name('m'), [])]), Const('uint8', n, '1')])
    if isinstance(d, Struct) and n.startswith('interface'):
        return False
    ins(rng, rng.choice(fs.files).decls, d)
    return True


def v_undef_type(rng, fs, g):
    bad = rng.choice([g.name('Nope'), 'uint128', 'int', 'string', 'Interface', 'UINT8', 'object', 'bool'])
    consts = [d.name for _, d in fs.all_decls() if isinstance(d, Const)]
    ts = fs.structs() + fs.ifaces()
    r = rng.random()
    if consts and r < .2:
        bad = rng.choice(consts)
    elif ts and r < .4:
        n = rng.choice(ts).name
        bad = rng.choice([n.swapcase(), n + 'x', 'I' + n])
    elif ts and r < .5:
        # declared in a file which nobody includes
        bad = g.name('Hid')
        fs.files.append(File(g.name('hidden') + '.idl', [], [rng.choice([Struct(bad, [Field('uint8', None, 'x')]), Iface(bad, None, [])])]))
    reach = [f for f in fs.files if not f.path.startswith('hidden')]
    if any(fs.struct(bad) or fs.iface(bad) for _ in [0]) and not any(d.name == bad for f in fs.files if f not in reach for d in f.decls):
        return False
    k = rng.randrange(4)
    if k == 0:
        ins(rng, rng.choice(reach).decls, Struct(g.name('U'), [Field(bad, rng.choice([None, 2]), 'f')]))
    elif k == 1 and fs.structs():
        s = rng.choice(fs.structs())
        ins(rng, s.fields, Field(bad, None, g.name('nf')))
    elif k == 2 and all_methods(fs):
        m = rng.choice(all_methods(fs))
        ins(rng, m.params, Param(rng.choice(['in', 'out']), bad, rng.choice([None, 'u', 2]), 'pundef'))
    else:
        b = bad
        ss = fs.structs()
        if ss and rng.random() < .4:
            b = rng.choice(ss).name      # a struct is no base
        i = pick_iface(rng, fs)
        if i and i.base is None and rng.random() < .5:
            i.base = b
        else:
            ins(rng, rng.choice(reach).decls, Iface(g.name('B'), b, []))
    return True


def v_misaligned(rng, fs, g):
    big = [p for p in PRIMS if PRIMS[p] > 1]
    t = rng.choice(big)
    a = PRIMS[t]
    k = rng.randrange(5)
    small = rng.choice([p for p in PRIMS if PRIMS[p] < a])
    if k == 0:                                # misaligned member, total still a multiple
        fl = [Field(small, None, 'a'), Field(t, None, 'b')]
        rest = -(PRIMS[small] + a) % a
        if rest:
            fl.append(Field('uint8', rest, 'c'))
    elif k == 1:                              # total not a multiple
        fl = [Field(t, rng.choice([None, 3]), 'a'), Field('uint8', rng.randrange(1, a), 'b')]
    elif k == 2:                              # through a nested struct
        n = g.name('N')
        fs.files[rng.randrange(len(fs.files))].decls.append(Struct(n, [Field(t, None, 'x')]))
        fl = [Field('uint8', None, 'a'), Field(n, None, 'b'), Field('uint8', a - 1, 'c')]
    elif k == 3:                              # object slot
        nm = rng.choice([i.name for i in fs.ifaces()] + ['interface'])
        fl = rng.choice([[Field('uint32', None, 'a'), Field(nm, None, 'o'), Field('uint32', 3, 'b')], [Field(nm, None, 'o'), Field('uint32', None, 'b')],
                         [Field('uint8', None, 'a'), Field(nm, None, 'o'), Field('uint8', 15, 'b')]])
    else:                                     # arrays of a struct
        n = g.name('N')
        fs.files[rng.randrange(len(fs.files))].decls.append(Struct(n, [Field(t, 2, 'x'), Field(t, None, 'y')]))
        fl = [Field(n, rng.choice([2, 3]), 'a'), Field('uint8', rng.choice([1, a - 1, a + 1]), 'b')]
    s = Struct(g.name('Q'), fl)
    ins(rng, rng.choice(fs.files).decls, s)
    if rng.random() < .3 and fs.ifaces():
        ins(rng, pick_iface(rng, fs).members, Method(g.name('m'), [Param(rng.choice(['in', 'out']), s.name, None, 'x')]))
    return True


def v_const_range(rng, fs, g):
    t = rng.choice([p for p in PRIMS if 'int' in p])
    lo, hi = INT_RANGE[t]
    v = rng.choice([hi + 1, lo - 1, hi + rng.randrange(1, 1000), lo - rng.randrange(1, 1000), hi * 2 + 1, hi * 10, 2 ** 64, 2 ** 64 + 5, -2 ** 63 - 1, 2 ** 128, 2 ** 32 + 7])
    if lo <= v <= hi:
        v = hi + 1
    if t[0] == 'u' and rng.random() < .25:
        lit = rng.choice(['-0', '-1', '-0x0', '-0x1'])
    else:
        lit = ('-' if v < 0 else '') + (('0x%x' if rng.random() < .5 else '%d') % abs(v))
        if rng.random() < .2:
            lit = lit.replace('0x', '0x00') if '0x' in lit else ('-' if v < 0 else '') + '00%d' % abs(v)
    if rng.random() < .1:
        lit = rng.choice(['1.5', '-2.25', '0.1'])
    c = Const(t, g.name('KX'), lit)
    i = pick_iface(rng, fs)
    if i and rng.random() < .6:
        ins(rng, i.members, c)
    else:
        ins(rng, rng.choice(fs.files).decls, c)
    return True


def fresh_method(rng, fs, g, ps):
    """places the parameters in a new or an existing method; object parameters of the direction are dropped first"""
    ms = all_methods(fs)
    if ms and rng.random() < .6:
        m = rng.choice(ms)
        m.params = [p for p in m.params if not fs.is_obj(p.type)]
    else:
        i = pick_iface(rng, fs)
        if not i:
            return False
        m = Method(g.name('m'), [])
        ins(rng, i.members, m)
    for p in ps:
        ins(rng, m.params, p)
    return True


def an_obj(rng, fs):
    return rng.choice([i.name for i in fs.ifaces()] + ['interface'])


def v_unbounded_obj(rng, fs, g):
    if not fs.ifaces():
        return False
    return fresh_method(rng, fs, g, [Param(rng.choice(['in', 'out']), rng.choice(fs.ifaces()).name if rng.random() < .8 else 'interface', 'u', 'zo')])


def v_arr_and_obj(rng, fs, g):
    d = rng.choice(['in', 'out'])
    return fresh_method(rng, fs, g, [Param(d, an_obj(rng, fs), rng.choice([1, 2, 5]), 'za'), Param(d, an_obj(rng, fs), None, 'zb')])


def v_two_arr(rng, fs, g):
    d = rng.choice(['in', 'out'])
    return fresh_method(rng, fs, g, [Param(d, an_obj(rng, fs), rng.choice([1, 2, 3]), 'za'), Param(d, an_obj(rng, fs), rng.choice([1, 2, 3]), 'zb')])


def v_obj_struct_array(rng, fs, g):
    n = g.name('OS')
    fl = [Field(an_obj(rng, fs), rng.choice([None, 2]), 'o')]
    if rng.random() < .5:
        ins(rng, fl, Field('uint64', 2, 'x'))
    ins(rng, rng.choice(fs.files).decls, Struct(n, fl))
    for _ in range(rng.choice([0, 0, 1, 2, 3])):
        q = g.name('OS')
        ins(rng, rng.choice(fs.files).decls, Struct(q, [Field(n, None, 'in_er')]))
        n = q
    return fresh_method(rng, fs, g, [Param(rng.choice(['in', 'out']), n, rng.choice(['u', 'u', 'u', 1, 3]), 'zs')])


def v_bounded_data(rng, fs, g):
    t = rng.choice(list(PRIMS) + ['buffer'] + [s.name for s in fs.structs()] * 2)
    return fresh_method(rng, fs, g, [Param(rng.choice(['in', 'out']), t, rng.choice([1, 2, 8, 65535]), 'zd')])


def v_attr(rng, fs, g):
    ms = all_methods(fs)
    if not ms:
        return False
    rng.choice(ms).attrs = rng.choice([2, 2, 3, 5])
    return True


def v_args15(rng, fs, g):
    d = rng.choice(['in', 'out'])
    if rng.random() < .5:
        ps = [Param(d, rng.choice(['buffer', 'uint8', 'uint64']), 'u', 'zz%d' % k) for k in range(rng.choice([16, 17, 20]))]
        for p in ps:
            if p.type == 'buffer':
                p.arr = None
    else:
        ps = [Param(d, an_obj(rng, fs), rng.choice([16, 17, 255, 256, 257, 65535]), 'zo')] if rng.random() < .6 else [
            Param(d, an_obj(rng, fs), None, 'zo%d' % k) for k in range(rng.choice([16, 17, 33]))]
    return fresh_method(rng, fs, g, ps)


KINDS = {f.__name__[2:]: f for f in (v_include_cycle, v_missing_include, v_struct_cycle, v_inherit_cycle, v_dup_param, v_dup_field, v_dup_method, v_dup_const, v_dup_top,
                                     v_undef_type, v_misaligned, v_const_range, v_unbounded_obj, v_arr_and_obj, v_two_arr, v_obj_struct_array, v_bounded_data, v_attr,
                                     v_args15)}

# ------------------------------------------------------------------ token-level edits
TOK = re.compile(r'/\*.*?\*/|//[^\n]*|\s+|#\[[a-z]*\]|\);|\};|"[^"]*"|-?0x[0-9a-fA-F]+|[A-Za-z_][A-Za-z0-9_]*|-?\d+(?:\.\d+)?|.', re.S)
JUNK = ['method', 'error', 'const', 'struct', 'interface', 'in', 'out', 'include', '"x.idl"', ';', '{', '}', '};', ')', '(', ');', '[', ']', '[3]', '[]', '=', ':', ',', '1', '-1', '0x1',
        '1.5', '0x', '-', '.', '#', '#[optional]', '#[deprecated]', 'uint32', 'buffer', 'x', '_x', '9x', 'é', '/*', '*/', '//', '/**\n', '\x00', '"', '@', '::', '+1', '0b1', '1e5', '.5', '1.']


def edit_tokens(rng, text):
    t = TOK.findall(text)
    idx = [k for k, x in enumerate(t) if not x.isspace()]
    if not idx:
        return text + rng.choice(JUNK)
    for _ in range(rng.choice([1, 1, 1, 2, 3])):
        k = rng.choice(idx)
        k = min(k, len(t) - 1)
        r = rng.randrange(7)
        if r == 0:
            del t[k]
        elif r == 1:
            t.insert(k, t[k])
        elif r == 2:
            t[k] = rng.choice(JUNK)
        elif r == 3:
            t.insert(k, rng.choice([' ', '']) + rng.choice(JUNK) + rng.choice([' ', '']))
        elif r == 4:
            j = min(rng.choice(idx), len(t) - 1)
            t[k], t[j] = t[j], t[k]
        elif r == 5 and len(t[k]) > 1:
            j = rng.randrange(len(t[k]))
            t[k] = rng.choice([t[k][:j] + t[k][j + 1:], t[k][:j] + ' ' + t[k][j:], t[k][:j] + rng.choice('_-.;{}[]()#"\\$09aZ') + t[k][j:]])
        else:
            j = min(len(t), k + rng.randrange(1, 12))
            del t[k:j]
        idx = [k for k, x in enumerate(t) if not x.isspace()] or [0]
        if not t:
            t = ['']
    s = ''.join(t)
    if rng.random() < .1:
        s = s[:rng.randrange(len(s) + 1)]
    return s


# ------------------------------------------------------------------ running
def cfg_for(rng):
    return Cfg(files=(1, 4), structs=(0, 4), ifaces=(1, 4), methods=(0, 3), params=(0, 4), consts=(0, 2), errors=(0, 2), depth=4, docs=.05, order='shuffle',
               place=rng.choice(['any', 'layered']), obj_struct_arrays=True, mix_objarr_struct=False, optional=.1)


def texts(fs):
    return {f.path: print_file(f) for f in fs.files}


def write_texts(tx, root):
    for p, t in tx.items():
        q = os.path.join(root, p)
        os.makedirs(os.path.dirname(q), exist_ok=True)
        open(q, 'w', newline='').write(t)
    return os.path.join(root, 'main.idl')


class Lib:
    def __init__(self, path):
        self.path, self.p = path, None

    def ask(self, main):
        for attempt in (0, 1):
            if self.p is None:
                self.p = subprocess.Popen([self.path], stdin=subprocess.PIPE, stdout=subprocess.PIPE, stderr=subprocess.DEVNULL, env=ENV, text=True, preexec_fn=os.setsid)
            import select
            try:
                self.p.stdin.write(main + '\n')
                self.p.stdin.flush()
            except BrokenPipeError:
                self.stop()
                continue
            r, _, _ = select.select([self.p.stdout], [], [], 60)
            a = self.p.stdout.readline() if r else ''
            if a:
                return (a.split() or ['?'])[0], a.strip()
            self.stop()
            return ('DIED' if r else 'HUNG'), ''
        return 'DIED', ''

    def stop(self):
        if self.p:
            with contextlib.suppress(ProcessLookupError):
                os.killpg(self.p.pid, signal.SIGKILL)
            self.p.wait()
            self.p = None


def build_lib():
    d = os.path.join(VERIF, 'harness', 'libgen')
    with lock('cargo-lib'):
        r = subprocess.run(['cargo', 'build', '--offline', '--target-dir', os.path.join(BUILD, 'target-lib')], cwd=d, env=ENV, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if r.returncode:
        raise BuildError('libgen does not build:\n' + r.stdout[-3000:])
    return os.path.join(BUILD, 'target-lib', 'debug', 'libgen')


def attempt(binary, lib, tx, be, flags):
    """-> (reference verdict, reasons, accepted?, detail)"""
    with scratchdir() as d:
        main = write_texts(tx, d + '/src')
        v, why = reflang.verdict(main, (), '--allow-undefined-behavior' in flags)
        if v != 'refuse':
            return v, why, False, ''
        if be == 'lib':
            a, det = lib.ask(main)
            return v, why, a in ('OK', 'DIED', 'HUNG'), det or a
        os.mkdir(d + '/out')
        r = idlc(binary, main, be, d + '/out', (), flags, timeout=30)
        return v, why, r[0] == 0 or r[0] == 'timeout' or (isinstance(r[0], int) and r[0] < 0 and r[0] != -6), 'rc %s %s' % (r[0], r[2][-200:])


def worker(arg):
    seed, wid, t_end, binary, libp, maxn = arg
    rng = random.Random('%s/%d' % (seed, wid))
    lib = Lib(libp)
    out = {'cases': [], 'viol': [], 'stats': {}, 'samples': [], 'notrefuse': 0}
    kinds = list(KINDS)
    n, near = 0, None
    try:
        while time.time() < t_end and n < maxn and len(out['viol']) < 3:
            n += 1
            kind = kinds[n % (len(kinds) + 24)] if n % (len(kinds) + 24) < len(kinds) else 'text' if n % 4 == 0 else 'near'
            if kind == 'near':
                if n % 3 == 1 or not near:
                    g = Gen(rng, cfg_for(rng))
                    fs = g.fileset()
                    if not any(isinstance(d, Const) for _, d in fs.all_decls()):
                        fs.files[-1].decls.append(g.gen_const(None))
                    near = texts(fs)
                for _ in range(8):           # all but the last by the library only
                    tx = dict(near)
                    p = rng.choice(list(tx))
                    tx[p] = nearmiss.edit(rng, tx[p])
                    v, why, acc, det = attempt(binary, lib, tx, 'lib', [])
                    if v == 'refuse':
                        out['cases'].append(('lib[]' + repr(sorted(tx.items())), kind, 'lib'))
                        if acc:
                            out['viol'].append((kind, 'lib', [], tx, why, det))
                            break
            elif kind == 'text':
                tx = texts(Gen(rng, cfg_for(rng)).fileset())
                p = rng.choice(list(tx))
                tx[p] = edit_tokens(rng, tx[p])
            else:
                g = Gen(rng, cfg_for(rng))
                fs = g.fileset()
                try:
                    if not KINDS[kind](rng, fs, g):
                        continue
                except (IndexError, ValueError):
                    continue
                tx = texts(fs)
            for be in {'lib', rng.choice(BES), rng.choice(BES)} if kind != 'near' else {rng.choice(BES)} if rng.random() < .3 else ():
                fl = []
                if be != 'lib':
                    if rng.random() < .2:
                        fl.append('--no-typed-objects')
                    if rng.random() < .15 and kind != 'const_range':
                        fl.append('--allow-undefined-behavior')
                if '--allow-undefined-behavior' in fl and kind in ('text', 'near'):
                    fl.remove('--allow-undefined-behavior')
                v, why, acc, det = attempt(binary, lib, tx, be, fl)
                if v != 'refuse':
                    out['notrefuse'] += 1
                    if kind not in ('text', 'near'):
                        out['stats']['planted_but_not_a_violation_' + kind] = out['stats'].get('planted_but_not_a_violation_' + kind, 0) + 1
                    break
                out['cases'].append((be + str(fl) + repr(sorted(tx.items())), kind, be))
                if acc:
                    out['viol'].append((kind, be, fl, tx, why, det))
                    break
            if kind not in ('text', 'near') and len(out['samples']) < 1 and rng.random() < .1:
                out['samples'].append({'violation': kind, 'files': {p: t[:300] for p, t in tx.items()}})
    finally:
        lib.stop()
    return out


def shrink_texts(tx, fails, seconds=40):
    t0 = time.time()
    tx = dict(tx)
    for p in list(tx):
        if p != 'main.idl' and len(tx) > 1:
            c = {k: v for k, v in tx.items() if k != p}
            if fails(c):
                tx = c
    for p in list(tx):
        left = seconds - (time.time() - t0)
        if left <= 0:
            break
        tx[p] = shrink.shrink_text(tx[p], lambda t: fails({**tx, p: t}), left / 2)
    return tx


def main():
    c = Check('C09')
    binary = build_idlc()
    libp = build_lib()
    t_end = c.t0 + (45 if c.quick else 900)
    with mp.get_context('fork').Pool(JOBS) as pool:
        res = pool.map(worker, [(c.seed * 7 + (0 if c.quick else 3), w, t_end, binary, libp, 3000 if c.quick else 10 ** 6) for w in range(JOBS)], chunksize=1)
    seen = set()
    for r in res:
        for k, kind, be in r['cases']:
            c.case(k, True)
            c.count('kind_' + kind)
            c.count('target_' + be)
        for k, v in r['stats'].items():
            c.count(k, v)
        c.samples += r['samples']
        for kind, be, fl, tx, why, det in r['viol']:
            sig = (kind if kind not in ('text', 'near') else 'text:' + ','.join(why)) + ':' + ('lib' if be == 'lib' else 'cli')
            if sig in seen or len(seen) > 5:
                continue
            seen.add(sig)
            lib = Lib(libp)

            def fails(t):
                v, w, a, _ = attempt(binary, lib, t, be, fl)
                return v == 'refuse' and a and w[0] == why[0]
            sm = shrink_texts(tx, fails)
            det = attempt(binary, lib, sm, be, fl)[3] or det
            lib.stop()
            c.violation(sig, '%s accepted by %s %s (%s):\n%s' % (', '.join(why), be, ' '.join(fl), det, '\n'.join('// %s\n%s' % x for x in sm.items())),
                        {'texts': sm, 'be': be, 'flags': fl})
    return c.finish(RULE)


def replay(d):
    lib = Lib(build_lib())
    v, why, acc, det = attempt(build_idlc(), lib, d['texts'], d['be'], d['flags'])
    lib.stop()
    print('reference: %s %s; compiler: %s %s' % (v, why, 'accepted' if acc else 'refused', det))
    return 1 if v == 'refuse' and acc else 0
