"""C16: total and memory-safe on arbitrary input; debug and release agree."""
from common import *
from model import *
from gen import Gen, Cfg
import fuzztext as F, reflang, shrink

RULE = ('case = one input (file set of arbitrary bytes) x one command line, run on the debug and on the release idlc; required: both end within the '
        'time and memory limits, by exit and not by a signal, agree on exit 0, write identical bytes and standard output, print a diagnostic '
        'when they refuse, leave an output when they accept, and refuse what the reference decision procedure refuses; non-trivial = distinct (input, flags) that '
        'the grammar accepts or that was derived from a valid set by mutation')
TIMEOUT, MEM = 60, 4
BES = ['c', 'cs', 'cpp', 'cpps', 'rust', 'java', 'cn', 'csn']


def gen_input(rng):
    """-> kind, {path: bytes}"""
    r = rng.random()
    if r < .04:
        return 'bytes', {'main.idl': bytes(rng.randrange(256) for _ in range(rng.randrange(0, 200)))}
    if r < .1:
        return 'soup', {'main.idl': F.soup(rng).encode()}
    if r < .24:
        t = F.sized(rng)
        return 'sizes', {'main.idl': (F.mutate_tokens(rng, t, 1) if rng.random() < .2 else t).encode()}
    if r < .32:
        t = F.deep(rng)
        return 'shape', {'main.idl': (F.mutate_tokens(rng, t, 1) if rng.random() < .3 and len(t) < 20000 else t).encode()}
    fs = Gen(rng, Cfg(files=(1, 3), structs=(0, 4), ifaces=(0, 3), methods=(0, 4), params=(0, 6), consts=(0, 3), errors=(0, 3), docs=.15, doc_style='rich',
                      order='shuffle', place='any', optional=.2, hostile=.2, big_arrays=.2, obj_struct_arrays=True, mix_objarr_struct=rng.random() < .3, depth=5,
                      fill=rng.choice([0, 0, .3]))).fileset()
    tx = {f.path: print_file(f).encode() for f in fs.files}
    if r < .4:
        return 'valid', tx
    p = rng.choice([f.path for f in fs.files] + ['main.idl'])
    if r < .82:
        tx[p] = F.mutate_tokens(rng, tx[p].decode()).encode()
        if rng.random() < .15:
            tx[p] = F.mutate_bytes(rng, tx[p])
        return 'tokens', tx
    if r < .87:
        # splice with another program
        g = Gen(rng, Cfg(files=(1, 1))).fileset()
        a, b = F.tokens(tx[p].decode()), F.tokens(print_file(g.files[0]))
        k, j = rng.randrange(len(a) + 1), rng.randrange(len(b) + 1)
        tx[p] = ''.join(a[:k] + b[j:]).encode()
        return 'splice', tx
    tx[p] = F.mutate_bytes(rng, tx[p])
    return 'mutated bytes', tx


def gen_cmd(rng):
    c = {'be': rng.choice(BES), 'fl': [], 'input': 'main', 'out': 'ok'}
    r = rng.random()
    if r < .12:
        c['fl'] += ['--dump', rng.choice(['pst', 'ast', 'mir'])]
    if rng.random() < .15:
        c['fl'] += ['--marking', rng.choice(['@ok', '@ok', '@bad', '@none', '@dir'])]
    if rng.random() < .2:
        c['fl'] += ['--allow-undefined-behavior']
    if rng.random() < .1:
        c['fl'] += ['--no-typed-objects']
    if rng.random() < .04:
        c['input'] = rng.choice(['missing', 'dir', 'empty-name', 'notidl'])
    if rng.random() < .06:
        c['out'] = rng.choice(['missing-dir', 'dir', 'full', 'none'])
    if rng.random() < .03:
        c['fl'] += rng.choice([['--skel', '--java'], ['--skel', '--rust'], ['--bogus'], ['--dump', 'x'], ['-I'], ['--rust', '--java'], ['--c', '--cpp']])
    return c


def write(tx, root):
    for p, t in tx.items():
        q = os.path.join(root, p)
        os.makedirs(os.path.dirname(q), exist_ok=True)
        with open(q, 'wb') as f:
            f.write(t)


def run_one(binary, tx, c, tag):
    """the scratch directory has the same path in both builds' runs"""
    with scratchdir('c16') as d:
        root = os.path.join(d, 's')
        write(tx, root)
        o = os.path.join(d, 'o')
        os.mkdir(o)
        with open(os.path.join(d, 'mk'), 'w') as f:
            f.write('marking\ntext */ \\\n')
        with open(os.path.join(d, 'mkbad'), 'wb') as f:
            f.write(b'mark \xff\xfe\n')
        sub = {'@ok': os.path.join(d, 'mk'), '@bad': os.path.join(d, 'mkbad'), '@none': os.path.join(d, 'nomk'), '@dir': d}
        main = {'main': os.path.join(root, 'main.idl'), 'missing': os.path.join(root, 'gone.idl'), 'dir': root, 'empty-name': '',
                'notidl': os.path.join(root, 'x.txt')}[c['input']]
        if c['input'] == 'notidl':
            write({'x.txt': tx['main.idl']}, root)
        out = o if c['be'] in ('rust', 'java') else os.path.join(o, 'out.h')
        out = {'ok': out, 'missing-dir': os.path.join(d, 'none', 'x'), 'dir': o, 'full': '/dev/full', 'none': None}[c['out']]
        cmd = [binary, main] + FLAGS[c['be']] + [sub.get(x, x) for x in c['fl']] + (['-o', out] if out else [])
        r = run(cmd, cwd=o, timeout=TIMEOUT, mem_gb=MEM)
        return {'rc': r[0], 'out': r[1].replace(d, '@'), 'err': r[2].replace(d, '@'), 'snap': {k: v for k, v in tree_snapshot(o).items()}}


def norm(c):
    return 'dump' if '--dump' in c['fl'] else c['be']


def judge(dbg, rel, tx, c):
    """-> (sig, message) or None, verdict"""
    a, b = run_one(dbg, tx, c, 'd'), run_one(rel, tx, c, 'r')
    for n, r in (('debug', a), ('release', b)):
        if r['rc'] == 'timeout':
            return ('hang:' + n, '%s build still runs after %d s' % (n, TIMEOUT)), ''
        if r['rc'] < 0:
            return ('signal:' + n, '%s build ended by signal %d: %s' % (n, -r['rc'], r['err'][-400:])), ''
        if r['rc'] != 0 and not r['err'].strip():
            return ('silent:' + n, '%s build exits %d without a diagnostic' % (n, r['rc'])), ''
    if (a['rc'] == 0) != (b['rc'] == 0):
        return ('decision', 'debug exits %s, release exits %s\ndebug: %s\nrelease: %s' % (a['rc'], b['rc'], a['err'][-400:], b['err'][-400:])), ''
    if a['snap'] != b['snap']:
        ks = [k for k in set(a['snap']) | set(b['snap']) if a['snap'].get(k) != b['snap'].get(k)]
        return ('bytes', 'debug and release write different bytes: %s' % ks), ''
    if a['rc'] == 0 and a['out'] != b['out']:
        return ('stdout', 'standard output differs'), ''
    normal = c['out'] == 'ok' and c['input'] == 'main' and '--dump' not in c['fl'] and not any(x in ('@bad', '@none', '@dir', '--bogus', '-I') for x in c['fl'])
    if a['rc'] == 0 and c['out'] == 'ok' and '--dump' not in c['fl'] and c['be'] not in ('rust', 'java') and not a['snap'] and not set(c['fl']) & {'--java', '--rust'}:
        return ('no-output', 'exits 0 without writing its output'), ''
    if a['rc'] == 0 and '--dump' in c['fl'] and a['snap']:
        return ('dump-writes', 'a dump wrote files: %s' % sorted(a['snap'])), ''
    v = ''
    if c['input'] in ('missing', 'dir', 'empty-name'):
        v = 'refuse'
    elif c['input'] == 'main':
        with scratchdir('c16r') as d:
            write(tx, d)
            try:
                v, why = reflang.verdict(os.path.join(d, 'main.idl'), (), '--allow-undefined-behavior' in c['fl'])
            except RecursionError:
                v = 'open'
            if '--dump' in c['fl'] and v == 'refuse' and c['fl'][c['fl'].index('--dump') + 1] != 'mir':
                v = 'refuse' if why == ['grammar'] and _main_bad(d) else 'open'
            elif '--dump' in c['fl']:
                v = 'open' if v == 'refuse' and why not in (['grammar'], ['include cycle'], ['unresolved include']) else v
    if v == 'refuse' and a['rc'] == 0:
        return ('accepted', 'input that must be refused is accepted (%s)' % (why if c['input'] == 'main' else c['input'])), v
    return None, v + ('' if a['rc'] == 0 else ' refused')


def _main_bad(d):
    try:
        return reflang.parse(open(os.path.join(d, 'main.idl'), encoding='utf-8', newline='').read()) is None
    except UnicodeDecodeError:
        return True


def enc(tx):
    return {p: t.decode('latin-1') for p, t in tx.items()}


def dec(tx):
    return {p: t.encode('latin-1') for p, t in tx.items()}


def batch(rng, dbg, rel):
    kind, tx = gen_input(rng)
    c = gen_cmd(rng)
    bad, v = judge(dbg, rel, tx, c)
    return [Case(json.dumps([enc(tx), c], sort_keys=True), kind not in ('bytes',), {'kind': kind, 'cmd': c, 'main': enc(tx)['main.idl'][:500]},
                 ['kind ' + kind, 'flags ' + norm(c), 'reference says %s' % (v or '-')], (bad[0] + ':' + norm(c), bad[1], (enc(tx), c)) if bad else None)]


def bounds(c, dbg, rel):
    """programs at the stated resource bounds"""
    rng = c.rng
    todo = []
    for be in ('c', 'cpps', 'rust', 'java'):
        todo.append((be, 'struct chain 100', ''.join('struct A%d { %s };\n' % (i, 'A%d a;' % (i + 1) if i < 100 else 'uint32 a;') for i in range(101)) + 'interface I { method m(in A0 a); };\n'))
        todo.append((be, 'interface chain 100', ''.join('interface A%d%s { method m%d(); };\n' % (i, ' : A%d' % (i + 1) if i < 100 else '', i) for i in range(101))))
        todo.append((be, 'doubling structs 12', 'struct A0 { uint64 a; };\n' + ''.join('struct A%d { A%d a; A%d b; };\n' % (i, i - 1, i - 1) for i in range(1, 13)) + 'interface I { method m(in A12 a, out A12[] b); };\n'))
        todo.append((be, 'megabyte comment', '/*' + 'x' * (1 << 20) + '*/\nconst uint8 K = 1;\n'))
        todo.append((be, 'identifier of 200000', 'const uint8 %s = 1;\n' % ('K' * 200000)))
        todo.append((be, '5000 constants', ''.join('const uint32 K%d = %d;\n' % (i, i) for i in range(5000))))
        todo.append((be, '2000 structs', ''.join('struct S%d { uint32 a; };\n' % i for i in range(2000))))
        todo.append((be, '1000 methods', 'interface I { ' + ''.join('method m%d(in uint32 a, out buffer b);\n' % i for i in range(1000)) + '};\n'))
        todo.append((be, 'unterminated comments', '/* ' * 20000))
        todo.append((be, 'unclosed brackets', 'interface I { method m(' + '(' * 20000))

    def one(x):
        be, name, text = x
        return judge(dbg, rel, {'main.idl': text.encode()}, {'be': be, 'fl': [], 'input': 'main', 'out': 'ok'})
    for (be, name, text), (bad, v) in zip(todo, pmap(one, todo)):
        c.case(be + name, True)
        c.count('at resource bounds')
        if bad:
            c.violation('bound:%s:%s' % (name, bad[0]), '%s %s: %s' % (be, name, bad[1]), {'tx': {'main.idl': text}, 'cmd': {'be': be, 'fl': [], 'input': 'main', 'out': 'ok'}})


def small(dbg, rel, tx, cmd, sig, secs=40):
    end = time.time() + secs

    def fails(t2, c2):
        b, _ = judge(dbg, rel, t2, c2)
        return bool(b) and b[0] == sig
    for k in list(cmd['fl']):
        pass
    for f in (['--marking'], ['--allow-undefined-behavior'], ['--no-typed-objects'], ['--dump']):
        if f[0] in cmd['fl']:
            i = cmd['fl'].index(f[0])
            n = 2 if f[0] in ('--marking', '--dump') else 1
            c2 = dict(cmd, fl=cmd['fl'][:i] + cmd['fl'][i + n:])
            if fails(tx, c2):
                cmd = c2
    for p in list(tx):
        if p != 'main.idl' and time.time() < end:
            t2 = {q: t for q, t in tx.items() if q != p}
            if fails(t2, cmd):
                tx = t2
    for p in list(tx):
        if time.time() > end:
            break
        s = shrink.shrink_text(tx[p].decode('latin-1'), lambda t: fails(dict(tx, **{p: t.encode('latin-1')}), cmd), max(5, end - time.time()))
        tx = dict(tx, **{p: s.encode('latin-1')})
    return tx, cmd


def probe_known(c, dbg, rel):
    """fixed inputs of recorded findings"""
    text = 'struct A0 { uint64 a; };\n' + ''.join('struct A%d { A%d a; A%d b; };\n' % (i, i - 1, i - 1) for i in range(1, 27))
    with scratchdir() as d:
        write({'main.idl': text.encode()}, d)
        r = run([rel, os.path.join(d, 'main.idl'), '-o', os.path.join(d, 'o.h')], timeout=5, mem_gb=1)
    c.known_probe('exponential-struct-nesting', r[0] == 'timeout' or r[0] < 0)


def main():
    c = Check('C16')
    dbg, rel = build_idlc(), build_idlc(release=True)
    c.assumptions += ['resource bounds: struct nesting <= 100 levels and <= 10^5 flattened members, inheritance <= 100 levels, include depth <= 500, files <= 2 MB',
                      'limits per run: %d s, %d GB address space, the default 8 MB stack' % (TIMEOUT, MEM)]
    probe_known(c, dbg, rel)
    bounds(c, dbg, rel)
    for sig, msg, (tx, cmd) in fan(c, batch, 55, 900, 40000, (dbg, rel))[:4]:
        s0 = sig.rsplit(':', 1)[0]
        t2, c2 = small(dbg, rel, dec(tx), cmd, s0)
        bad = judge(dbg, rel, t2, c2)[0]
        if not bad:
            t2, c2 = dec(tx), cmd
        c.violation(s0, (bad or (0, msg))[1] + '\ncommand %s\n' % c2 + '\n'.join('// %s\n%r' % (p, t[:1500]) for p, t in t2.items()), {'tx': enc(t2), 'cmd': c2})
    return c.finish(RULE)


def replay(d):
    bad, v = judge(build_idlc(), build_idlc(release=True), dec(d['tx']), d['cmd'])
    print(bad or 'ok', v)
    return 1 if bad else 0
