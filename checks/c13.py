"""C13: same file set, same flags => same output bytes, whatever the run, working directory, location or path spelling."""
from common import *
from model import *
from gen import Gen, Cfg
import shrink

RULE = ('case = one idlc run compared byte by byte with the first run of the same file set and flags; runs differ in hash seed, absolute '
        'location (whole tree or each directory on its own), working directory, spelling of input, output and -I paths (relative, '
        'redundant components, directory and file symlinks), argument positions, file creation order and times, environment variables, clock, host name, '
        'input on stdin, other files in the output directory; non-trivial = distinct '
        '(file set, flags, variation) whose set has a declaration')
BES = ['c', 'cs', 'cpp', 'cpps', 'rust', 'java', 'cn', 'csn']


def gen_set(rng):
    big = rng.random() < .5
    java = rng.random() < .5
    fs = Gen(rng, Cfg(files=(1, 7 if big else 3), structs=(0, 10), ifaces=(0, 9 if big else 4), methods=(0, 5), params=(0, 7),
                      consts=(0, 6), errors=(0, 4), docs=.2, doc_style='rich', order='shuffle', place='any', optional=.15,
                      hostile=rng.choice([0, .3]), obj_structs=not java, mix_objarr_struct=False, java=java)).fileset()
    if rng.random() < .3:
        # interface names that differ in case only: legal IDL, one output file in Rust/Java
        its = fs.ifaces()
        if len(its) > 1:
            a, b = rng.sample(its, 2)
            ren(fs, b.name, a.name.swapcase())
    # directories: main in 'p0', the others anywhere; bare includes or fixed relative ones
    dirs = ['p%d' % k for k in range(rng.randrange(1, 5))]
    bare = rng.random() < .6
    at = {f.path: (dirs[0] if k == 0 else rng.choice(dirs)) for k, f in enumerate(fs.files)}
    for f in fs.files:
        f.includes = [i if bare or rng.random() < .5 else '../%s/%s' % (at[i], i) for i in f.includes]
    decoys = [(d, f.path) for f in fs.files[1:] for d in dirs if at[f.path] != d and rng.random() < .15]
    incs = [d for d in dirs[1:]]
    rng.shuffle(incs)
    # a decoy must not come before the real file
    def ok(d, p):
        order = incs + [dirs[0]]
        return order.index(d) > order.index(at[p])
    decoys = [(d, p) for d, p in decoys if ok(d, p)]
    return {'fs': to_json(fs), 'at': at, 'dirs': dirs, 'incs': incs, 'bare': bare, 'decoys': decoys,
            'objs': any(fs.has_objects(s.name) for s in fs.structs())}


def ren(fs, old, new):
    if any(d.name == new for _, d in fs.all_decls()):
        return
    for _, d in fs.all_decls():
        if d.name == old:
            d.name = new
        if isinstance(d, Iface):
            if d.base == old:
                d.base = new
            for m in d.methods:
                for p in m.params:
                    if p.type == old:
                        p.type = new
        if isinstance(d, Struct):
            for f in d.fields:
                if f.type == old:
                    f.type = new


WEIRD = ['r', 'Z z', 'é日', 'a.idl', 'zz/yy/xx/ww', 'q"q', "it's", '-I', 'x' * 120, 'A', '.hidden', 'd.d']


ENVS = {'HOME': ['/root', '/nonexistent', ''], 'USER': ['root', 'nobody', 'x y'], 'LOGNAME': ['root', 'nobody'], 'HOSTNAME': ['a', 'b.example'],
        'LANG': ['C', 'C.UTF-8', 'tr_TR.UTF-8', 'de_DE'], 'LC_ALL': ['C', 'POSIX', 'tr_TR.UTF-8'], 'TZ': ['UTC', 'Asia/Kolkata', 'XYZ+11'],
        'PWD': ['/', '/tmp', 'nowhere'], 'TMPDIR': ['/tmp', '/nonexistent'], 'COLUMNS': ['10', '500'], 'TERM': ['dumb', 'xterm-256color'],
        'NO_COLOR': ['1'], 'CI': ['true'], 'DEBUG': ['1'], 'VERBOSE': ['1'], 'RUST_BACKTRACE': ['1', 'full'], 'RUST_LOG': ['trace', 'debug', 'idlc=trace'],
        'SOURCE_DATE_EPOCH': ['0', '1700000000'], 'CARGO_MANIFEST_DIR': ['/a/b'], 'OUT_DIR': ['/a/b/out'], 'CARGO_PKG_VERSION': ['9.9.9'],
        'SHELL': ['/bin/false'], 'EDITOR': ['vi'], 'IDLC': ['/x'], 'IDLC_FLAGS': ['--rust'], 'INCLUDE': ['/usr/include'], 'CPATH': ['/usr/include'],
        'MAKEFLAGS': ['-j4'], 'TARGET': ['wasm32'], 'HOST': ['arm']}


def gen_env(rng):
    e = {k: rng.choice(ENVS[k]) for k in rng.sample(sorted(ENVS), rng.randrange(0, 9))}
    e['PATH'] = rng.choice(['/usr/bin:/bin', '', '/nonexistent'])
    if rng.random() < .6:
        e['LD_PRELOAD'] = '@'
        e['ELSEWHERE_SHIFT'] = str(rng.choice([1, 3600, 86400, 31 * 86400, 400 * 86400, -20 * 365 * 86400, 20 * 365 * 86400, rng.randrange(10 ** 8)]))
    return e


def elsewhere():
    so = os.path.join(BUILD, 'elsewhere.so')
    src = os.path.join(VERIF, 'rt/native/elsewhere.c')
    if not os.path.exists(so) or os.path.getmtime(so) < os.path.getmtime(src):
        tmp = '%s.%d' % (so, os.getpid())
        subprocess.check_call(['cc', '-shared', '-fPIC', '-w', '-o', tmp, src, '-ldl'])
        os.rename(tmp, so)
    return so


def gen_var(rng, s, be):
    v = gen_place(rng, s, be)
    if rng.random() < .35:
        v['env'] = gen_env(rng)
    if rng.random() < .2:
        v['stdin'] = rng.choice(['', 'y\n' * 50, 'const uint8 X = 1;\n'])
    if rng.random() < .25:
        v['litter'] = rng.sample(['main.idl', 'object.h', 'a.rs', 'Stale.java', 'mod.rs', '.idlc', 'idlc.toml', 'main_skel.h', 'object.idl', 'Cargo.toml'], 4)
    return v


def gen_place(rng, s, be):
    v = {'root': rng.choice(WEIRD), 'cwd': rng.choice(['root', '/', 'main', 'out', 'root']),
         'main': rng.choice(['abs', 'rel', 'dots', 'slashes', 'up', 'dirlink', 'filelink', 'absdots']), 'out': rng.choice(['abs', 'rel', 'dots', 'dirlink']),
         'inc': [rng.choice(['abs', 'rel', 'dots', 'slashes', 'up', 'dirlink', 'absdots', 'trail']) for _ in s['incs']],
         'argpos': rng.randrange(3), 'order': rng.randrange(1 << 30)}
    r = rng.random()
    if s['bare'] and r < .4:
        v['apart'] = {d: '%s%d' % (rng.choice('azMq_0'), rng.randrange(10 ** 6)) for d in s['dirs']}
    elif s['bare'] and r < .55:
        v['farm'] = True          # directories consist of links to files kept elsewhere under the same names
    elif r < .75:
        return {'same': True}     # plain repetition in place
    return v


def materialise(s, root, v):
    """-> {logical dir: absolute path}"""
    fs = from_json(s['fs'])
    rng = random.Random(v.get('order', 0))
    real = {d: os.path.join(root, v.get('apart', {}).get(d, ''), d) if v.get('apart') else os.path.join(root, d) for d in s['dirs']}
    jobs = [(real[s['at'][f.path]], f.path, print_file(f)) for f in fs.files]
    jobs += [(real[d], p, 'struct Decoy%d { uint8 a; };\n' % k) for k, (d, p) in enumerate(s['decoys'])]
    rng.shuffle(jobs)
    for d in real.values():
        os.makedirs(d, exist_ok=True)
    for k, (d, p, txt) in enumerate(jobs):
        q = os.path.join(d, p)
        if v.get('farm') and p != 'main.idl':      # where a linked main file 'is' would be ambiguous
            st = os.path.join(root, 'store', 's%d' % rng.randrange(10 ** 9))
            os.makedirs(st)
            os.symlink(os.path.join(st, p), q)
            q = os.path.join(st, p)
        with open(q, 'w') as h:
            h.write(txt)
        t = rng.randrange(10 ** 9)
        os.utime(q, (t, t))
    return real


def spell(path, how, cwd, root, k):
    if how == 'abs':
        return path
    rel = os.path.relpath(path, cwd)
    if how == 'rel':
        return rel
    if how == 'dots':
        return './././' + rel
    d, b = os.path.split(path)
    if how == 'absdots':
        return d + '/./.' + '/' + b
    if how == 'slashes':
        return d + '///' + b
    if how == 'trail':
        return path + '/'
    if how == 'up':
        return os.path.join(d, '..', os.path.basename(d), b)
    if how == 'dirlink':
        ln = os.path.join(root, 'lnk%d' % k)
        if not os.path.lexists(ln):
            os.symlink(d, ln)
        return os.path.join(ln, b)
    if how == 'filelink':
        ln = os.path.join(root, 'alias-%d.idl' % k)
        if not os.path.lexists(ln):
            os.symlink(path, ln)
        return ln
    raise ValueError(how)


BASE = {'root': 'base', 'cwd': 'root', 'main': 'abs', 'out': 'abs', 'argpos': 0, 'order': 0}


def compile_(binary, s, be, fl, v, d, tag, real, root):
    outd = os.path.join(d, 'o' + tag)
    os.makedirs(outd, exist_ok=True)
    main = os.path.join(real[s['dirs'][0]], 'main.idl')
    cwd = {'root': root, '/': '/', 'main': os.path.dirname(main), 'out': outd}[v.get('cwd', 'root')]
    out = outd
    if be not in ('rust', 'java'):
        out = os.path.join(outd, out_name('main', be))
    if v.get('out', 'abs') != 'abs':
        out = spell(out, v['out'], cwd, d, 90)
    mp = spell(main, v.get('main', 'abs'), cwd, d, 91)
    incs = []
    for k, i in enumerate(s['incs']):
        incs += ['-I', spell(real[i], v['inc'][k] if 'inc' in v else 'abs', cwd, d, k)]
    fl = [os.path.join(d, 'mark') if x == '@MARK' else x for x in fl]
    parts = [['--'], [mp]] if False else [[mp], ['-o', out] + FLAGS[be] + fl, incs]
    k = v.get('argpos', 0)
    parts = parts[k:] + parts[:k]
    with open(os.path.join(d, 'mark'), 'w') as f:
        f.write('Some marking\nline\n')
    litter = {x: b'garbage { ' + x.encode() for x in v.get('litter', ())}
    for x in litter:
        with open(os.path.join(outd, x), 'wb') as f:
            f.write(litter[x])
    env = v.get('env') and dict(v['env'], **({'LD_PRELOAD': elsewhere()} if 'LD_PRELOAD' in v['env'] else {}))
    r = run([binary] + sum(parts, []), cwd=cwd, timeout=60, mem_gb=8, env_=env, stdin=v.get('stdin'))
    snap = tree_snapshot(outd) if r[0] == 0 else None
    snap = snap and {k: x for k, x in snap.items() if not (isinstance(x, tuple)) and litter.get(k) != x}
    shutil.rmtree(outd)
    return r, snap


def diff(a, b):
    if set(a) != set(b):
        return 'files %s != %s' % (sorted(a), sorted(b))
    for k in a:
        if a[k] != b[k]:
            x, y = a[k].decode('utf8', 'replace').splitlines(), b[k].decode('utf8', 'replace').splitlines()
            for i, (p, q) in enumerate(zip(x, y)):
                if p != q:
                    return '%s line %d: %r != %r' % (k, i + 1, p, q)
            return '%s: lengths differ' % k
    return None


def judge(binary, s, be, fl, vs):
    """-> [(variation, problem or None)]"""
    res = []
    with scratchdir('c13') as d:
        root = os.path.join(d, 'base')
        real = materialise(s, root, BASE)
        r, want = compile_(binary, s, be, fl, BASE, d, 'b', real, root)
        if want is None:
            return None if r[0] in (0, 101, 1) else [(BASE, 'crash %s' % (r[0],))]
        for k, v in enumerate(vs):
            if v.get('same'):
                r2, got = compile_(binary, s, be, fl, dict(BASE, **{x: v[x] for x in ('env', 'stdin', 'litter') if x in v}), d, 'v%d' % k, real, root)
            else:
                dv = os.path.join(d, 'v%d' % k)
                rt = os.path.join(dv, v['root'])
                re_ = materialise(s, rt, v)
                r2, got = compile_(binary, s, be, fl, v, dv, 'o', re_, rt)
                shutil.rmtree(dv)
            if got is None:
                res.append((v, 'refused in one run: exit %s %s' % (r2[0], r2[2][-400:])))
            else:
                res.append((v, diff(want, got)))
    return res


def batch(rng, binary):
    s = gen_set(rng)
    out = []
    txt = json.dumps(s, sort_keys=True)
    bes = rng.sample([b for b in BES if not (b == 'java' and s['objs'])], 3)
    for be in bes:
        fl = (['--marking', '@MARK'] if rng.random() < .2 else []) + (['--allow-undefined-behavior'] if rng.random() < .1 else [])
        vs = [gen_var(rng, s, be) for _ in range(8)] + [{'same': True}] * 3
        res = judge(binary, s, be, fl, vs)
        if res is None:
            out.append(Case(txt + be, False, counts=['skipped: refused']))
            continue
        for k, (v, bad) in enumerate(res):
            kind = 'same place' if v.get('same') else 'apart' if v.get('apart') else 'link farm' if v.get('farm') else 'moved'
            out.append(Case(txt + be + str(fl) + json.dumps(v, sort_keys=True) + (str(k) if v.get('same') else ''), len(s['fs']['files'][0]['decls']) + len(s['fs']['files']) > 1,
                            {'backend': be, 'flags': fl, 'variation': v, 'files': list(s['at'].items())[:6]},
                            ['backend ' + be, 'variation: ' + kind] + ['surroundings: ' + x for x in ('env', 'stdin', 'litter') if x in v],
                            ('%s:%s' % (be, kind), bad, (s, be, fl, v)) if bad else None, {'max_files': len(s['at'])}))
    return out


def main():
    c = Check('C13')
    binary = build_idlc()
    elsewhere()
    for sig, msg, (s, be, fl, v) in fan(c, batch, 40, 900, 16000, (binary,))[:4]:
        vs = [v] * (12 if v.get('same') else 3)

        def fails(fs):
            s2 = dict(s, fs=to_json(fs), at={f.path: s['at'].get(f.path, s['dirs'][0]) for f in fs.files})
            r = judge(binary, s2, be, fl, vs)
            return bool(r) and any(b for _, b in r)
        try:
            small = shrink.shrink(from_json(s['fs']), fails, 30, check_valid=False)
            s2 = dict(s, fs=to_json(small), at={f.path: s['at'].get(f.path, s['dirs'][0]) for f in small.files})
        except Exception:
            s2 = s
        r = [b for _, b in judge(binary, s2, be, fl, vs) or [] if b]
        if not r:
            s2 = s
        c.violation(sig, '%s\nflags %s %s variation %s\n%s' % (r[0] if r else msg, be, fl, v, '\n'.join(
            '// %s/%s\n%s' % (s2['at'][f.path], f.path, print_file(f)) for f in from_json(s2['fs']).files)),
            {'set': s2, 'be': be, 'flags': fl, 'var': v})
    return c.finish(RULE)


def replay(d):
    r = judge(build_idlc(), d['set'], d['be'], d['flags'], [d['var']] * 20)
    bad = [b for _, b in r or [] if b]
    print(bad[0] if bad else 'identical')
    return 1 if bad else 0
