"""C15: growing an interface or a file by appending never disturbs what old methods look like or do."""
import re
from collections import Counter
from common import *
from model import *
from gen import Gen, Cfg
from rt import *
import lex, rtcheck, shrink
import multiprocessing as mp

RULE = ('case = (a) one comparison, per backend and pair of revisions of an append-only history, of every generated fragment which mentions a method, error or constant whose value may not '
        'change, or (b) one call between a stub of one revision and a skeleton of another one (old methods must be served as if both had the same revision, methods the skeleton does not know '
        'must be refused without entering the implementation); non-trivial = the revisions differ and the pair has at least one stable member / the call has parameters or is a refusal; distinct by '
        'file texts and backend, or by call data')
BES = ['c', 'cs', 'cpp', 'cpps', 'rust', 'java', 'cn', 'csn']


# ------------------------------------------------------------------ append-only revisions
def reach_view(fs, f):
    """the set as seen from file f: f last (new declarations refer to everything in it)"""
    by = {os.path.basename(x.path): x for x in fs.files}
    todo, seen = [f], []
    while todo:
        x = todo.pop()
        if x in seen:
            continue
        seen.append(x)
        todo += [by[os.path.basename(i)] for i in x.includes]
    return FileSet([x for x in seen if x is not f] + [f])


def revise(rng, fs, g, only=None):
    """-> the next revision (a clone with something appended)"""
    n = from_json(to_json(fs))
    for _ in range(rng.choice([1, 1, 2, 3, 5])):
        f = rng.choice(n.files)
        v = reach_view(n, f)
        k = rng.random()
        if only == 'file':
            k = .8
        elif only == 'member':
            k = .1
        ifs = [d for d in f.decls if isinstance(d, Iface)]
        if k < .6 and ifs:
            i = rng.choice(ifs)
            for _ in range(rng.choice([1, 1, 2, 4])):
                r = rng.random()
                x = g.gen_method(v) if r < .6 else Err(g.name('E')) if r < .8 else g.gen_const(v)
                if isinstance(x, Method):
                    x.params = [p for p in x.params if p.type != i.name or v.iface(i.name)]
                i.members.append(x)
        elif k < .95:
            d = rng.choice([g.gen_struct, g.gen_struct, g.gen_iface, g.gen_const])(v)
            f.decls.insert(rng.randint(0, len(f.decls)), d)
            if isinstance(d, Struct) and rng.random() < .4:
                # used by a new method as well
                own = [i for i in f.decls if isinstance(i, Iface)]
                if own and not fs_has_obj(n, d.name):
                    rng.choice(own).members.append(Method(g.name('m'), [Param(rng.choice(['in', 'out']), d.name, rng.choice([None, 'u']), 'fresh')]))
        else:
            nf = File(g.name('new') + '.idl', [], [])
            nf.decls.append(g.gen_const(FileSet([nf])))
            nf.decls.append(g.gen_struct(FileSet([nf])))
            n.files.append(nf)
            f.includes.insert(rng.randint(0, len(f.includes)), nf.path)
    return trim(n)


def fs_has_obj(fs, name):
    try:
        return fs.has_objects(name)
    except Exception:
        return True


def base_set(rng, java=False):
    c = cfg_rt(rng)
    c.dirs = 0
    c.consts, c.errors = (0, 3), (0, 3)
    c.ifaces = (1, 4)
    c.order = rng.choice(['topo', 'shuffle'])
    c.fill = .05
    c.docs = .1
    if java:
        c.java, c.obj_structs, c.obj_struct_arrays = True, False, False
        c.mix_objarr_struct = False
    g = Gen(rng, c)
    return trim(g.fileset()), g


def clean(fs, old):
    """False when trim() or the generator changed something old (then the revision is not an append)"""
    for a, b in zip(old.files, fs.files):
        for d in a.decls:
            if isinstance(d, (Struct, Const)):
                if d not in b.decls:
                    return False
            elif isinstance(d, Iface):
                e = [x for x in b.decls if isinstance(x, Iface) and x.name == d.name]
                if not e or e[0].base != d.base or e[0].members[:len(d.members)] != d.members:
                    return False
    return True


def grew(a, b, iface, cls):
    return len([m for m in a.iface(iface).members if isinstance(m, cls)]) != len([m for m in b.iface(iface).members if isinstance(m, cls)])


def stable_owner(a, b, i, cls):
    """members of interface i (an interface of a) keep their numbers between a and b"""
    return not any(grew(a, b, x.name, cls) for x in a.chain(a.iface(i))[:-1])


def stable_names(a, b):
    """names whose generated fragments may not change: methods, errors, constants of both revisions"""
    out = set()
    for i in a.ifaces():
        for m in i.members:
            cls = type(m)
            if cls is Const or stable_owner(a, b, i.name, cls):
                out.add(m.name)
    bad = {m.name for i in a.ifaces() for m in i.members if type(m) is not Const and not stable_owner(a, b, i.name, type(m))}
    out |= {d.name for _, d in a.all_decls() if isinstance(d, Const)}
    return out - bad


# ------------------------------------------------------------------ fragments of generated code
OPEN_, CLOSE = {'(': ')', '[': ']', '{': '}'}, {')', ']', '}'}


def prepare(text, lang):
    """C/C++: definitions of values become statements, definitions of code become blocks; other directives vanish"""
    if lang != 'c':
        return text
    text = re.sub(r'\\[ \t]*\n', ' ', text)
    out = []
    for ln in text.split('\n'):
        s = ln.strip()
        if not s.startswith('#'):
            out.append(ln)
            continue
        m = re.match(r'#\s*define\s+(\w+)\(([^)]*)\)(.*)', s)
        if m and '{' in m.group(3):
            out.append('class %s { %s } ;' % (m.group(1), m.group(3)))
            continue
        m = re.match(r'#\s*define\s+(.*)', s)
        if m:
            out.append(';define ' + m.group(1) + ';')
    return '\n'.join(out)


def statements(ts):
    """token list -> [(direct tokens, [(nested statements)], all tokens)]; a statement ends at ';', after a '{}' block or at the ',' of a match arm"""
    pos = 0

    def group(depth):
        nonlocal pos
        out, direct, nested, alls = [], [], [], []

        def close():
            nonlocal direct, nested, alls
            if alls:
                out.append((direct, nested, alls))
            direct, nested, alls = [], [], []
        paren = 0
        while pos < len(ts):
            t = ts[pos]
            if t == '}' and not paren:
                break
            pos += 1
            if t in '([':
                paren += 1
            elif t in ')]':
                paren -= 1
            if t == '{':
                inner = group(depth + 1)
                pos += 1
                alls.append('{')
                for _, _, a in inner:
                    alls += a
                alls.append('}')
                nested.append(inner)
                if not paren:
                    # '= {...};' and '}' followed by more of the same statement
                    if pos < len(ts) and ts[pos] in (';', ','):
                        pos += 1
                        close()
                    elif pos < len(ts) and ts[pos] in ('else', ')', '.'):
                        pass
                    else:
                        close()
                continue
            if not paren and (t == ';' or t == ',' and any(x == '=' and y == '>' for x, y in zip(direct, direct[1:]))):
                close()
                continue
            if t == ':' and direct and direct[-1] in ('public', 'protected', 'private') and len(direct) == 1:
                direct, alls = [], []
                continue
            direct.append(t)
            alls.append(t)
        close()
        return out
    res = []
    while pos < len(ts):
        res += group(0)
        pos += 1
    return res


def mentions(tokens, names, java):
    hit = set()
    for t in tokens:
        if t in names:
            hit.add(t)
        elif '_' in t:
            for k in range(len(t)):
                if t[k] == '_' and t[k + 1:] in names:
                    hit.add(t[k + 1:])
        if java and (t in java or '_' in t):
            for n, u in java.items():
                if t == n or t.endswith('_' + n):
                    hit.add(u)
    return hit


def fragments(text, be, names):
    """{(enclosing block, name): Counter(fragment text)}"""
    lang = lex.LANG[be]
    ts = [t for t in lex.code(prepare(text, lang), lang) if not t.startswith('__compiler_pragma')]     # opens and closes the list of prototypes, no part of a prototype
    out = {}
    up = {n.upper(): n for n in names} if be == 'java' else None

    def key_of(direct):
        for w in ('class', 'interface', 'trait', 'impl', 'struct', 'fn'):
            if w in direct:
                k = direct.index(w)
                return tuple(direct[k:k + 2])
        return ()

    def walk(sts, key, lvl):
        for direct, nested, alls in sts:
            hit = mentions(direct, names, up)
            if be == 'rust' and len(direct) >= 3 and re.match(r'\d', direct[0]) and direct[1:3] == ['=', '>']:
                hit = mentions(alls, names, up)
                for n in hit:
                    out.setdefault((key, n), Counter())[' '.join(alls)] += 1
                continue
            if hit:
                for n in hit:
                    out.setdefault((key, n), Counter())[' '.join(alls)] += 1
            else:
                for inner in nested:
                    walk(inner, key + key_of(direct), lvl + 1)
    walk(statements(ts), (), 0)
    return out


def compile_set(binary, fs, be):
    with scratchdir('c15') as d:
        write_set(fs, d + '/s')
        errs = gen_all(binary, fs, d + '/s', d, [be])
        if errs:
            return None, str(errs[0])
        return {k: v.decode('utf8') for k, v in tree_snapshot(os.path.join(d, STUBS_OF.get(be, be))).items() if v != 'dir'}, None


def compare(a, b, ga, gb, be):
    """-> (complaint, number of compared fragments)"""
    names = stable_names(a, b)
    n = 0
    for f in ga:
        if f not in gb:
            return 'file %s is gone' % f, n
        if ga[f] == gb[f]:
            n += 1
            continue
        fa, fb = fragments(ga[f], be, names), fragments(gb[f], be, names)
        for k, cnt in fa.items():
            new = fb.get(k, Counter())
            for t, c in cnt.items():
                n += 1
                if new[t] < c:
                    # the closest new text
                    import difflib
                    close = difflib.get_close_matches(t[:1500], [x[:1500] for x in new], 1, 0)
                    x, y = t.split(), (close[0].split() if close else [])
                    j = next((j for j in range(min(len(x), len(y))) if x[j] != y[j]), min(len(x), len(y)))
                    return '%s: code of %s in %s changed: ...%s... -> ...%s...' % (
                        f, k[1], ' '.join(k[0]) or 'the file', ' '.join(x[max(0, j - 12):j + 8]), ' '.join(y[max(0, j - 12):j + 8]) if y else '(gone)'), n
        if be in ('rust', 'java'):
            # the file of an interface which (with its ancestors) did not change at all
            for i in a.ifaces():
                fn = (i.name.lower() + '.rs') if be == 'rust' else i.name + '.java'
                if fn == f and all(x.members == y.members for x, y in zip(a.chain(i), b.chain(b.iface(i.name)))) and a.file_of(i.name).stem.lower() != i.name.lower():
                    return '%s changed although the interface and its ancestors did not' % f, n
        elif lex.LANG[be] == 'c':
            pass
    return None, n


def history(rng, nrev, java):
    fs, g = base_set(rng, java)
    h = [fs]
    while len(h) < nrev:
        n = revise(rng, h[-1], g)
        if clean(n, h[-1]) and valid(n):
            h.append(n)
        else:
            return None
    return h


def frag_batch(rng, binary):
    java = rng.random() < .4
    h = history(rng, rng.choice([2, 3, 4]), java)
    if not h:
        return [Case('skip%f' % rng.random(), False, counts=['histories which were no append'])]
    out = []
    for be in rng.sample([b for b in BES if b != 'java' or java], 4):
        gens = []
        for fs in h:
            got, err = compile_set(binary, fs, be)
            gens.append(got)
            if got is None:
                break
        if gens[-1] is None:
            out.append(Case(repr(h) + be, False, counts=['skipped: refused'], sample=None))
            continue
        for x, y in {(0, len(h) - 1), (len(h) - 2, len(h) - 1), (0, 1)}:
            bad, n = compare(h[x], h[y], gens[x], gens[y], be)
            cs = Case('frag' + be + json.dumps([to_json(h[x]), to_json(h[y])]), n > 0, {'kind': 'fragments', 'backend': be, 'fragments': n,
                                                                                       'old': print_file(h[x].files[0])[:300], 'new': print_file(h[y].files[0])[:300]},
                      ['compared revisions ' + be], ('frag:' + be, bad, ('frag', to_json(h[x]), to_json(h[y]), be)) if bad else None)
            cs.counts += ['fragments ' + be] * 0
            cs.maxima = {'most fragments in one comparison': n}
            out.append(cs)
    return out


# ------------------------------------------------------------------ calls across revisions
class RevRun(Run):
    """several revisions in one process: each one is a shared library of its own"""

    def __init__(self, binary, revs, d, opts):
        self.d, self.opts, self.items = d, opts, []
        self.revs = revs
        self.es = []
        jobs, libs = [], []
        cc, cxx = (('clang', 'clang++') if opts['cc'] == 'clang' else ('gcc', 'g++'))
        for r, fs in enumerate(revs):
            dd = os.path.join(d, 'r%d' % r)
            src = os.path.join(dd, 'src')
            write_set(fs, src)
            errs = gen_all(binary, fs, src, dd, ['c', 'cs', 'cpp', 'cpps', 'rust', 'cn', 'csn'])
            if errs:
                raise Fail('idlc: %s' % (errs[0],))
            e = Emit(fs)
            self.es.append(e)
            W = lambda n, t: open(os.path.join(dd, n), 'w').write(t)
            W('host.h', HOST_H)
            p = 'r%d' % r
            W('u_c.c', e.c_unit(tag=p + 'c'))
            W('u_cn.c', e.c_unit(typed=False, tag=p + 'cn').replace('mk_%scn' % p, 'mk_%scsn' % p))
            W('u_cpp.cpp', e.cpp_unit(tag=p + 'cpp'))
            W('glue.rs', e.r_unit(tag=p + 'rust'))
            W('lib.rs', e.r_lib(os.path.join(dd, 'rust')))
            W('ver', '{ global: drv_*; mk_*; local: *; };\n')
            com = [opts['opt'], '-w', '-fPIC', '-I', dd, '-I', RUNTIME_C, '-I', RUNTIME_CPP]
            jobs.append((dd, [
                [cc, '-c', 'u_c.c', '-o', 'u_c.o'] + hdr_dirs(fs, dd, ['c', 'cs']) + com,
                [cc, '-c', 'u_cn.c', '-o', 'u_cn.o'] + hdr_dirs(fs, dd, ['cn', 'csn']) + com,
                [cxx, '-c', 'u_cpp.cpp', '-o', 'u_cpp.o', '-include', 'cstdint', '-include', 'atomic'] + hdr_dirs(fs, dd, ['cpp', 'cpps']) + com,
                ['rustc', '--edition', '2021', '--cfg', 'feature="std"', '-A', 'warnings', '-C', 'debuginfo=0', 'lib.rs', '-o', 'libr.a'],
                [cxx, '-shared', '-o', '../librev%d.so' % r, 'u_c.o', 'u_cn.o', 'u_cpp.o', '-Wl,--whole-archive', 'libr.a', '-Wl,--no-whole-archive', '-Wl,--version-script=ver', '-Wl,-Bsymbolic', '-lpthread', '-ldl', '-lm']]))
        for dd, js in jobs:
            for j in js:
                x = run(j, cwd=dd, timeout=300)
                if x[0] != 0:
                    raise Fail('%s: %s' % (' '.join(j[:4]), (x[2] or x[1])[-3000:]))
        with open(os.path.join(d, 'tables.c'), 'w') as f:
            f.write(self.tables())
        with open(os.path.join(d, 'host.h'), 'w') as f:
            f.write(HOST_H)
        for j in ([cc, '-w', '-O0', '-rdynamic', '-I', d, '-I', RUNTIME_C, 'tables.c', os.path.join(VERIF, 'rt/native/host.c'), '-o', 'exe'] + ['librev%d.so' % r for r in range(len(revs))] +
                  ['-Wl,-rpath,' + d, '-lpthread', '-ldl', '-lm'],):
            x = run(j, cwd=d, timeout=300)
            if x[0] != 0:
                raise Fail('%s: %s' % (' '.join(j[:4]), (x[2] or x[1])[-3000:]))
        self.exe = os.path.join(d, 'exe')

    def tables(self):
        t = '#include "host.h"\n'
        drv, mk = [], []
        for r, e in enumerate(self.es):
            for s in STUBS:
                t += ''.join('int32_t drv_r%d%s%d(Object, Slot*);\n' % (r, s, k) for k in range(len(e.entries)))
                drv.append('{%s}' % (','.join('drv_r%d%s%d' % (r, s, k) for k in range(len(e.entries))) or '0'))
            for s in SKELS:
                t += ''.join('Object mk_r%d%s%d(void);\n' % (r, s, k) for k in range(len(e.skels)))
                mk.append('{%s}' % (','.join('mk_r%d%s%d' % (r, s, k) for k in range(len(e.skels))) or '0'))
        n = max(1, max(len(e.entries) for e in self.es))
        m = max(1, max(len(e.skels) for e in self.es))
        t += 'int32_t (*const drv_table[][%d])(Object, Slot*) = {%s};\n' % (n, ','.join(drv))
        t += 'Object (*const mk_table[][%d])(void) = {%s};\n' % (m, ','.join(mk))
        t += 'const int n_entries = %d, n_skels = %d;\n' % (n, m)
        t += 'int32_t drv_call(int be, int k, Object o, Slot *s) { return drv_table[be][k](o, s); }\n'
        t += 'Object mk_call(int be, int k) { return mk_table[be][k](); }\n'
        return t

    def script(self):
        out = []
        for cid, steps in enumerate(self.items):
            out.append('case %d' % cid)
            for s in steps:
                out.append('call %d %d %d %d %d %d' % (s['ra'] * 4 + STUBS.index(s['sbe']), s['ent'], s['rb'] * 4 + SKELS.index(s['kbe']), s['sk'], s['mode'], s['call'].status))
                out.append(s['call'].params_script())
            out.append('end')
        return '\n'.join(out) + '\n'


def pick(run_, rng):
    nr = len(run_.revs)
    ra = rng.randrange(nr)
    rb = rng.choice([x for x in range(nr) if x != ra])
    A, B = run_.revs[ra], run_.revs[rb]
    ea, eb = run_.es[ra], run_.es[rb]
    if not ea.entries:
        return None
    ent = rng.randrange(len(ea.entries))
    i, op, ow, m = ea.entries[ent]
    ib = B.iface(i.name)
    if ib is None:
        return None
    lo, hi = min(ra, rb), max(ra, rb)
    L, H = run_.revs[lo], run_.revs[hi]
    known = any(x.name == m.name for x in B.iface(ow.name).methods)
    # the stub of interface i drives a skeleton of i or of one derived from it in the other revision
    sks = [k for k, (y, full) in enumerate(eb.skels) if ib in B.chain(y)]
    rng.shuffle(sks)
    for sk in sks:
        y, full = eb.skels[sk]
        if known:
            if L.iface(ow.name) is None or not stable_owner(L, H, ow.name, Method):
                continue
            # an interface between the method's owner and the skeleton may have grown: only the owner's ancestors matter
            expect = 'serve'
            if m.optional and not full:
                expect = 'optional'
        elif op >= len(B.flat_methods(y)):
            expect = 'refuse'
        else:
            continue
        mid = eb.mids[ow.name, m.name] if known else -1
        call = Call(A, i, op, ow, m, mid).randomise(rng)
        mode = rng.choice([0, 0, M_NULLEMPTY, M_DIRECT, M_GUARD, M_FAILOO])
        return {'ra': ra, 'rb': rb, 'sbe': rng.choice(['c', 'cpp', 'rust', 'c', 'cpp', 'rust', 'cn']), 'kbe': rng.choice(['c', 'cpp', 'rust', 'c', 'cpp', 'rust', 'csn']),
                'ent': ent, 'sk': sk, 'mode': mode, 'call': call, 'expect': expect, 'sname': y.name}
    return None


def judge_steps(steps, slog):
    out = []
    if len(slog) < len(steps):
        slog = slog + [[]] * (len(steps) - len(slog))
    for k, s in enumerate(steps):
        call = s['call']
        st = slog[k]
        if s['expect'] == 'serve':
            bad = verify_call(call, st, s['sbe'], s['kbe'])
        elif s['expect'] == 'optional':
            bad = verify_call(call, st, s['sbe'], s['kbe'], False)
        else:
            g = group(st)
            bad = []
            if crashed(g):
                bad.append(('', 'crash (%s)' % crashed(g)))
            elif 'S' not in g:
                bad.append(('', 'no answer'))
            else:
                S, entered = int(g['S'][0][0]), int(g['S'][0][1])
                if entered:
                    bad.append(('', 'method unknown to the skeleton reached method id %s' % [x[0] for x in g.get('I', [])]))
                if S == 0:
                    bad.append(('', 'method unknown to the skeleton reported success'))
                R = [int(x[0]) for x in g.get('R', [])]
                if R and not all(1 <= x < 10 for x in R):
                    bad.append(('', 'method unknown to the skeleton answered with %s' % R))
                bad += verify_ledger(g, S)
        for t, w in bad:
            out.append('%s (%s stub of revision %d -> %s skeleton of %s of revision %d, %s.%s, %s)' % (
                w, s['sbe'], s['ra'], s['kbe'], s['sname'], s['rb'], call.iface.name, call.m.name, s['expect']))
        if crashed(group(st)):
            break
    return out


def pack(steps):
    return [dict(s, call=s['call'].to_json()) for s in steps]


def unpack(run_, js):
    out = []
    for s in js:
        A, ea, eb = run_.revs[s['ra']], run_.es[s['ra']], run_.es[s['rb']]
        c = call_from_json(A, ea, s['call'])
        if c is None:
            return None
        c.mid = eb.mids.get((c.owner.name, c.m.name), -1)
        ent = [k for k, x in enumerate(ea.entries) if x[0].name == c.iface.name and x[3].name == c.m.name][0]
        full = s.get('full', True)
        sk = [k for k, (y, f) in enumerate(eb.skels) if y.name == s['sname'] and f == full]
        if not sk:
            return None
        out.append(dict(s, call=c, ent=ent, sk=sk[0]))
    return out


def plan15(r, rng, ncalls):
    for _ in range(ncalls):
        steps = []
        for _ in range(rng.choice([1, 1, 2, 3])):
            s = pick(r, rng)
            if s:
                s['full'] = r.es[s['rb']].skels[s['sk']][1]
                steps.append(s)
        if steps:
            r.items.append(steps)


def rt_batch(rng, binary, ncalls=260):
    h = None
    while not h:
        h = history(rng, rng.choice([2, 2, 3]), False)
    opts = {'cc': rng.choice(['clang', 'gcc']), 'opt': rng.choice(['-O0', '-O0', '-O1'])}
    out = []
    with scratchdir('c15') as d:
        try:
            r = RevRun(binary, h, d, opts)
        except Fail as x:
            return [Case('skip%f' % rng.random(), False, {'skipped': str(x)[:500]}, ['batches_not_buildable'])]
        plan15(r, rng, ncalls)
        log = r.execute()
        for cid, steps in enumerate(r.items):
            bad = judge_steps(steps, log.get(cid, []))
            for s in steps:
                c = s['call']
                out.append(Case('call' + s['sbe'] + s['kbe'] + str(s['mode']) + s['expect'] + c.m.name + c.params_script(), bool(c.m.params) or s['expect'] == 'refuse',
                                {'kind': 'call', 'stub': '%s rev %d' % (s['sbe'], s['ra']), 'skeleton': '%s rev %d of %s' % (s['kbe'], s['rb'], s['sname']),
                                 'method': c.iface.name + '.' + c.m.name, 'expect': s['expect']} if rng.random() < .01 else None,
                                ['calls ' + s['expect'], 'calls %s to %s' % ('old stub' if s['ra'] < s['rb'] else 'new stub', 'new skeleton' if s['ra'] < s['rb'] else 'old skeleton'),
                                 'pair %s %s' % (s['sbe'], s['kbe'])]))
            if bad:
                out[-1].viol = ('call:' + rtcheck.norm_sig(bad[0].split(' (')[0]), '; '.join(bad[:4]), ('call', [to_json(x) for x in h], opts, pack(steps)))
                break
        out.append(Case('b%f' % rng.random(), False, counts=['call batches']))
    return out


def both(rng, binary):
    return rt_batch(rng, binary) if rng.random() < .35 else [c for _ in range(3) for c in frag_batch(rng, binary)]


def try_calls(binary, revs, opts, want=None, js=None):
    with scratchdir('c15') as d:
        try:
            r = RevRun(binary, revs, d, opts)
        except Fail:
            return None
        if js is not None:
            st = unpack(r, js)
            if st is None:
                return None
            r.items = [st]
        else:
            plan15(r, random.Random(5), 150)
        try:
            log = r.execute(60)
        except RuntimeError:
            return None
        for cid, steps in enumerate(r.items):
            bad = judge_steps(steps, log.get(cid, []))
            if bad:
                return bad, pack(steps)
    return None


def drop_both(a, b, budget, fails):
    """removes declarations/members from both revisions at once while it still fails"""
    t0 = time.time()
    changed = True
    while changed and time.time() - t0 < budget:
        changed = False
        names = [('d', d.name) for _, d in b.all_decls()] + [('m', i.name, m.name) for i in b.ifaces() for m in i.members] + \
                [('p', i.name, m.name, p.name) for i in b.ifaces() for m in i.methods for p in m.params]
        for n in names:
            if time.time() - t0 > budget:
                break
            x, y = from_json(to_json(a)), from_json(to_json(b))
            for s in (x, y):
                for f in s.files:
                    if n[0] == 'd':
                        f.decls = [d for d in f.decls if d.name != n[1]]
                    for d in f.decls:
                        if n[0] != 'd' and isinstance(d, Iface) and d.name == n[1]:
                            if n[0] == 'm':
                                d.members = [m for m in d.members if m.name != n[2]]
                            else:
                                for m in d.methods:
                                    if m.name == n[2]:
                                        m.params = [p for p in m.params if p.name != n[3]]
            try:
                if valid(x) and valid(y) and clean(y, x) and fails(x, y):
                    a, b, changed = x, y, True
            except (AttributeError, KeyError, TypeError, IndexError):
                continue
    return a, b


def main():
    c = Check('C15')
    binary = build_idlc()
    viols = fan(c, both, 40, 900, 10 ** 9, (binary,))
    if not c.extra.get('call batches') and not viols:
        print('ERROR: no batch of calls could be built: %s' % c.extra)
        c.finish(RULE)
        return 2
    for sig, msg, data in viols[:3]:
        if data[0] == 'frag':
            a, b, be = from_json(data[1]), from_json(data[2]), data[3]

            def fails(x, y):
                gx, gy = compile_set(binary, x, be)[0], compile_set(binary, y, be)[0]
                return gx is not None and gy is not None and bool(compare(x, y, gx, gy, be)[0])
            a, b = drop_both(a, b, 25, fails)
            gx, gy = compile_set(binary, a, be)[0], compile_set(binary, b, be)[0]
            msg = compare(a, b, gx, gy, be)[0] or msg
            rep = {'kind': 'frag', 'old': to_json(a), 'new': to_json(b), 'be': be}
            revs = [a, b]
        else:
            revs, opts, js = [from_json(x) for x in data[1]], data[2], data[3]
            best = [None]
            if len(revs) > 2:
                used = sorted({x for s in js for x in (s['ra'], s['rb'])})
                if len(used) == 2:
                    revs = [revs[u] for u in used]
                    js = [dict(s, ra=used.index(s['ra']), rb=used.index(s['rb'])) for s in js]
            if len(revs) == 2:
                def fails(x, y):
                    r = try_calls(binary, [x, y], opts)
                    if r:
                        best[0] = r
                    return bool(r)
                a, b = drop_both(revs[0], revs[1], 60, fails)
                if best[0]:
                    revs = [a, b]
                    msg, js = '; '.join(best[0][0][:4]), best[0][1]
            rep = {'kind': 'call', 'revs': [to_json(x) for x in revs], 'opts': opts, 'steps': js}
        c.violation(sig, msg + '\n' + '\n'.join('---- revision %d\n%s' % (k, '\n'.join('// %s\n%s' % (f.path, print_file(f)) for f in x.files)) for k, x in enumerate(revs)), rep)
    return c.finish(RULE)


def replay(d):
    binary = build_idlc()
    if d['kind'] == 'frag':
        a, b = from_json(d['old']), from_json(d['new'])
        bad, n = compare(a, b, compile_set(binary, a, d['be'])[0], compile_set(binary, b, d['be'])[0], d['be'])
        print(bad or 'ok: %d fragments equal' % n)
        return 1 if bad else 0
    r = try_calls(binary, [from_json(x) for x in d['revs']], d['opts'], None, d['steps'])
    print(r[0] if r else 'ok')
    return 1 if r else 0
