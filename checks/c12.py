"""C12: include resolution is first-match in search order, cycles are always refused, every reachable file is loaded once,
and exactly the declarations of the reachable files are visible."""
from common import *
import reflang

RULE = ('case = one idlc run on a generated directory tree (same names in several directories, directories and dangling links '
        'named like files, directory symlinks, unparsable decoys) x a list of -I directories in random order and spelling x a '
        'main file; non-trivial = distinct (tree, command) in which at least two include statements are followed')

GARBAGE = 'interface { this is not idl\n'


class Tree:
    """files: path -> ident number, includes: path -> list of spelled includes; links: path -> target; bad: unparsable paths"""

    def __init__(s):
        s.files, s.inc, s.links, s.bad, s.dirs, s.common = {}, {}, {}, [], [], {}

    def json(s):
        return {k: getattr(s, k) for k in ('files', 'inc', 'links', 'bad', 'dirs', 'common')}

    @staticmethod
    def of(j):
        t = Tree()
        t.__dict__.update(j)
        return t

    def text(s, p, probes=()):
        n = s.files[p]
        o = ['include "%s"' % i for i in s.inc[p]]
        o.append('interface B%d { %s method f%d(in S%d x); };' % (n, ' '.join('error E%d_%d;' % (n, k) for k in range(n + 1)), n, n))
        o.append('struct S%d { uint8[%d] a; };' % (n, n + 1))
        if p in s.common:
            o.append('struct %s { uint8 a; };' % s.common[p])
        for k in probes:
            o.append('interface P%d : B%d { error X%d; method g%d(in S%d x, out B%d y); };' % ((k,) * 6))
        return '\n'.join(o) + '\n'

    def write(s, root):
        for d in s.dirs:
            os.makedirs(os.path.join(root, d), exist_ok=True)
        for p in s.files:
            with open(os.path.join(root, p), 'w') as f:
                f.write((GARBAGE if p in s.bad else s.text(p)).replace('@ROOT', root))
        for p, t in s.links.items():
            if not os.path.lexists(os.path.join(root, p)):
                os.symlink(t, os.path.join(root, p))


def gen_tree(rng):
    t = Tree()
    names = ['x.idl', 'y.idl', 'z.idl', 'w w.idl', 'ü.idl', 'v1.2.idl'][:rng.randrange(2, 7)]
    dirs = ['']
    for _ in range(rng.randrange(0, 6)):
        par = rng.choice(dirs)
        d = os.path.join(par, rng.choice(['a', 'b', 'c', 'inc dir', 'd.d']))
        if d not in dirs:
            dirs.append(d)
    t.dirs = dirs
    # directory symlinks (never a link inside its own target to keep realpath trees finite)
    for k in range(rng.choice([0, 0, 1, 2])):
        tgt = rng.choice(dirs)
        p = 'ln%d' % k
        t.links[p] = tgt or '.'
    n = 0
    for d in dirs:
        for b in names:
            r = rng.random()
            p = os.path.join(d, b)
            if r < .62:
                t.files[p] = n
                n += 1
            elif r < .68:
                t.dirs = t.dirs + [p]          # a directory named like the file
            elif r < .74:
                t.links[p] = 'nowhere-%d' % rng.randrange(9)    # dangling
    if not t.files:
        t.files['only.idl'] = 0
    ps = list(t.files)
    rng.shuffle(ps)
    # number of edges; an order is used as a bias so that accepted graphs are frequent
    rank = {p: k for k, p in enumerate(ps)}
    back = rng.random() < .25
    t.bad = [p for p in ps if rng.random() < rng.choice([0, 0, .15])]
    # sometimes a declaration name shared by all files of one base name
    if rng.random() < .4:
        for p in ps:
            t.common[p] = 'Common_%d' % (names + ['only.idl']).index(os.path.basename(p))
    dens = rng.choice([.8, 1.5, 3])
    t.inc = {p: [] for p in ps}
    for p in ps:
        while rng.random() < dens / (1 + dens):
            q = rng.choice(ps)
            if not back and rank[q] <= rank[p]:
                continue
            t.inc[p].append(spell(rng, t, p, q))
        if rng.random() < .02:
            t.inc[p].insert(rng.randrange(len(t.inc[p]) + 1), rng.choice(
                ['missing.idl', './missing.idl', 'nodir/x.idl', '../../../../../nope/x.idl', './' + os.path.basename(p)[:-4] + '.IDL.idl']))
    return t


def spell(rng, t, p, q):
    b = os.path.basename(q)
    if rng.random() < .5:
        return b
    here = os.path.dirname(p)
    rel = os.path.relpath(q, here or '.')
    r = rng.random()
    if r < .06:
        return '@ROOT/' + q
    if '/' not in rel:
        rel = './' + rel
    if r < .3:
        rel = rel.replace('/', rng.choice(['//', '/./', '/']))
    if r > .6:
        subs = [d for d in t.dirs if os.path.dirname(d) == here and d]
        if subs:
            rel = os.path.basename(rng.choice(subs)) + '/../' + rel
    if r > .9 and rng.random() < .5:
        rel = './' + rel
    if .3 < r < .4:
        # through a directory symlink
        for ln, tg in t.links.items():
            if ln.startswith('ln') and os.path.dirname(q) == ('' if tg == '.' else tg):
                rel = os.path.relpath(os.path.join(ln, b), here or '.')
                return rel if '/' in rel else './' + rel
    return rel


def gen_cmd(rng, t):
    # mostly a file with includes, often the first in the acyclic order
    main = max(rng.sample(list(t.files), min(len(t.files), rng.choice([1, 2, 99]))), key=lambda p: len(t.inc[p]))
    ds = [d for d in t.dirs] + [l for l in t.links if l.startswith('ln')]
    incs = []
    for _ in range(rng.choice([0, 1, 2, 3, 5])):
        d = rng.choice(ds)
        incs.append((d, rng.choice(['abs', 'rel', 'redundant'])))
    if rng.random() < .1:
        incs.insert(rng.randrange(len(incs) + 1), ('no-such-dir', 'abs'))
    return {'main': main, 'incs': incs, 'cwd': rng.choice([d for d in t.dirs]), 'mspell': rng.choice(['abs', 'rel', 'redundant'])}


def sp(root, d, how, cwd):
    full = os.path.join(root, d)
    if how == 'abs':
        return full
    rel = os.path.relpath(full, cwd)
    if how == 'rel':
        return rel
    return './' + rel.replace('..', './..', 1)


def args_of(root, cmd):
    cwd = os.path.join(root, cmd['cwd'])
    return sp(root, cmd['main'], cmd['mspell'], cwd), [sp(root, d, h, cwd) for d, h in cmd['incs']], cwd


def oracle(root, cmd):
    main, incs, cwd = args_of(root, cmd)
    incs = [os.path.join(cwd, i) for i in incs]
    return reflang.load(os.path.join(cwd, main), incs), incs


def compile_(binary, root, cmd, out):
    main, incs, cwd = args_of(root, cmd)
    a = [binary, main, '-o', out]
    for i in incs:
        a += ['-I', i]
    return run(a, cwd=cwd, timeout=60, mem_gb=8)


def values(header, ks):
    """values of P<k>_X<k> as the C preprocessor sees them"""
    d = os.path.dirname(header)
    src = header + '.probe.c'
    stub = os.path.join(d, 'stubs')
    os.makedirs(stub, exist_ok=True)
    txt = open(header).read()
    for line in txt.splitlines():
        line = line.strip()
        if line.startswith('#include "'):
            n = line.split('"')[1]
            if n != 'object.h':
                os.makedirs(os.path.dirname(os.path.join(stub, n)), exist_ok=True)
                open(os.path.join(stub, n), 'w').close()
    with open(src, 'w') as f:
        f.write('#include "%s"\n' % header + ''.join('@@%d P%d_X%d\n' % (k, k, k) for k in ks))
    r = run(['gcc', '-E', '-P', '-I', RUNTIME_C, '-I', stub, src])
    out = {}
    for line in r[1].splitlines():
        if line.startswith('@@'):
            k, v = line[2:].split(None, 1)
            v = v.replace('(', ' ').replace(')', ' ').replace('INT32_C', ' ').split()
            out[int(k)] = v[-1].rstrip('uUlL') if v else ''
    return out


def judge(binary, t, cmd, probe_unreachable=None):
    """-> (problem or None, stats)"""
    with scratchdir('c12') as d:
        root = os.path.join(d, 'r')
        os.mkdir(root)
        t.write(root)
        (fs, edges, why), incs = oracle(root, cmd)
        by = {os.path.realpath(os.path.join(root, p)): n for p, n in t.files.items()}
        mainp = os.path.join(root, cmd['main'])
        out = os.path.join(d, 'out.h')
        st = {'edges': len(edges or ()), 'reach': len(fs.files) if fs else 0}
        if fs is not None:
            reach = [by[f.path] for f in fs.files]
            names = [t.common.get(p) for p, n in t.files.items() if n in reach and p in t.common]
            if len(set(names)) != len(names):
                why, fs = 'two reachable files declare one name', None
        if fs is None:
            st['verdict'] = why
            r = compile_(binary, root, cmd, out)
            return refused(r, why), st
        st['verdict'] = 'accept'
        m = by[os.path.realpath(mainp)]
        mt = t.text(cmd['main'], reach).replace('@ROOT', root)
        with open(mainp, 'w') as f:
            f.write(mt)
        r = compile_(binary, root, cmd, out)
        if r[0] != 0 or not os.path.exists(out):
            return ('reachable-refused', 'every include resolves and no cycle is reachable, but idlc exits %s: %s' % (r[0], r[2][-600:])), st
        got = values(out, reach)
        for n in reach:
            # P<n> : B<n> has n+1 inherited errors, so its own is 10+n+1 -- whatever file supplied B<n>
            if got.get(n) != str(11 + n):
                return ('wrong-file', 'P%d_X%d is %r, expected %d' % (n, n, got.get(n), 11 + n)), st
        un = [n for n in t.files.values() if n not in reach and (probe_unreachable is None or n in probe_unreachable)]
        for n in un[:3]:
            with open(mainp, 'w') as f:
                f.write(t.text(cmd['main'], [n]).replace('@ROOT', root))
            os.path.exists(out) and os.unlink(out)
            r = compile_(binary, root, cmd, out)
            x = refused(r, 'B%d is declared only in a file that is not reachable' % n)
            if x:
                return ('unreachable-visible', x[1]), st
        st['unreachable_probes'] = len(un[:3])
        return None, st


def refused(r, why):
    if r[0] == 0:
        return ('accepted:' + why.split(' ')[0], 'must be refused (%s) but idlc exits 0' % why)
    if r[0] == 'timeout' or r[0] < 0 or not r[2].strip():
        return ('died:' + why.split(' ')[0], 'must be refused with a diagnostic (%s) but idlc ended with %s, stderr %r' % (why, r[0], r[2][-300:]))
    return None


# ------------------------------------------------------------------ large shapes
def big_trees(rng, quick):
    def mk(n, edges):
        t = Tree()
        t.dirs = ['', 'a', 'b']
        ps = [os.path.join(rng.choice(['', 'a', 'b']), 'f%d.idl' % k) for k in range(n)]
        t.files = {p: k for k, p in enumerate(ps)}
        t.inc = {p: [] for p in ps}
        for a, b in edges:
            q = os.path.relpath(ps[b], os.path.dirname(ps[a]) or '.')
            t.inc[ps[a]].append(os.path.basename(ps[b]) if rng.random() < .5 else (q if '/' in q else './' + q))
        cmd = {'main': ps[0], 'incs': [(d, 'abs') for d in rng.sample(['', 'a', 'b'], 3)], 'cwd': '', 'mspell': 'abs'}
        return t, cmd
    n = 120 if quick else 500
    ch = [(k, k + 1) for k in range(n - 1)]
    yield mk(n, ch)
    yield mk(n, ch + [(n - 1, 0)])
    yield mk(n, ch + [(n - 1, n // 2)])
    yield mk(n, ch + [(rng.randrange(1, n), 0)])
    # cycle that does not pass through the main file, followed by further includes
    k = n // 3
    yield mk(n, [(0, 1), (1, 2), (2, 1)] + [(0, j) for j in range(3, k)])
    yield mk(n, [(0, j) for j in range(3, k)] + [(0, 1), (1, 2), (2, 1)])
    yield mk(6, [(0, 1), (1, 2), (2, 2), (0, 3), (0, 4), (0, 5)])
    # ladder: 2^levels (3^levels) paths, every file once
    lv = 30
    for w in (2, 3):
        e = []
        for l in range(lv):
            for i in range(w):
                for j in range(w):
                    e.append((1 + l * w + i, 1 + (l + 1) * w + j))
        e += [(0, 1 + i) for i in range(w)]
        yield mk(1 + (lv + 1) * w, e)
        yield mk(1 + (lv + 1) * w, e + [(1 + lv * w, 1 + (lv // 2) * w)])
    yield mk(60, [(a, b) for a in range(60) for b in range(a + 1, 60) if rng.random() < .4 or b == a + 1])


def shrink_case(binary, t, cmd, sig, seconds=30):
    end = time.time() + seconds

    def bad(t2, c2):
        try:
            x, _ = judge(binary, t2, c2)
        except Exception:
            return False
        return x is not None and x[0] == sig
    changed = True
    while changed and time.time() < end:
        changed = False
        cands = []
        for p in list(t.files):
            if p != cmd['main']:
                cands.append(('f', p))
            for k in range(len(t.inc.get(p, []))):
                cands.append(('i', p, k))
        cands += [('l', l) for l in t.links] + [('b', b) for b in t.bad] + [('-I', k) for k in range(len(cmd['incs']))] + [('c', p) for p in t.common]
        for c in reversed(cands):
            if time.time() > end:
                break
            t2, c2 = Tree.of(json.loads(json.dumps(t.json()))), json.loads(json.dumps(cmd))
            try:
                if c[0] == 'f':
                    del t2.files[c[1]]
                    del t2.inc[c[1]]
                    t2.common.pop(c[1], None)
                    t2.bad = [b for b in t2.bad if b != c[1]]
                elif c[0] == 'i':
                    del t2.inc[c[1]][c[2]]
                elif c[0] == 'l':
                    del t2.links[c[1]]
                elif c[0] == 'b':
                    t2.bad.remove(c[1])
                elif c[0] == 'c':
                    del t2.common[c[1]]
                else:
                    del c2['incs'][c[1]]
            except (KeyError, IndexError, ValueError):
                continue
            if bad(t2, c2):
                t, cmd, changed = t2, c2, True
    return t, cmd


def describe(t, cmd):
    return 'main %s -I %s cwd %r\n' % (cmd['main'], cmd['incs'], cmd['cwd']) + '\n'.join(
        '%s%s: %s' % (p, ' (unparsable)' if p in t.bad else '', t.inc[p]) for p in t.files) + '\nlinks %s dirs %s' % (t.links, t.dirs)


def case_of(binary, t, cmd):
    bad, st = judge(binary, t, cmd)
    return Case(json.dumps([t.json(), cmd], sort_keys=True), st['edges'] >= 2 or st['verdict'] not in ('accept', 'grammar'),
                {'cmd': cmd, 'includes': {k: v for k, v in list(t.inc.items())[:8]}, 'verdict': st['verdict']},
                ['verdict: ' + st['verdict']] + ['unreachable_probes'] * st.get('unreachable_probes', 0),
                (bad[0], bad[1], (t.json(), cmd)) if bad else None, {'max_reachable': st['reach']})


def batch(rng, binary):
    t = gen_tree(rng)
    return [case_of(binary, t, gen_cmd(rng, t)) for _ in range(4)]


def batch_big(rng, binary, quick):
    return [case_of(binary, t, cmd) for t, cmd in big_trees(rng, quick)]


def main():
    c = Check('C12')
    binary = build_idlc()
    viols = fan(c, batch_big, 20, 240, 1, (binary, c.quick), 'big') + fan(c, batch, 40, 900, 12000, (binary,))
    for sig, msg, (tj, cmd) in viols[:4]:
        t, cmd = shrink_case(binary, Tree.of(tj), cmd, sig)
        bad = judge(binary, t, cmd)[0] or (sig, msg)
        c.violation(sig, bad[1] + '\n' + describe(t, cmd), {'tree': t.json(), 'cmd': cmd})
    return c.finish(RULE)


def replay(d):
    bad, st = judge(build_idlc(), Tree.of(d['tree']), d['cmd'])
    print(describe(Tree.of(d['tree']), d['cmd']), st, bad or 'ok', sep='\n')
    return 1 if bad else 0
