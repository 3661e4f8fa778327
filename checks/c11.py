"""C11: generated code builds warning-clean in every backend."""
import multiprocessing as mp
from common import *
from model import *
from emit import Emit, HOST_H
from gen import Gen, Cfg, LOCAL_NAMES
from rt import trim
import shrink

RULE = ('case = one compilation of generated code: every header of the set on its own and every stub/skeleton together with callers and conforming '
        'implementations of every method (typed and untyped C with gcc and clang, C++ with g++ and clang++, all with -Wall -Wextra -Werror '
        '-Wno-unused-parameter; rustc -D warnings; javac with -Xlint:all -Werror minus the categories user code cannot influence); non-trivial = the set has a '
        'method, struct or constant; distinct by unit, compiler and IDL text')

WC = ['-Wall', '-Wextra', '-Werror', '-Wno-unused-parameter']
WCPP = WC + ['-Wno-missing-field-initializers', '-include', 'cstdint', '-include', 'atomic']
KINDS = ['c', 'cn', 'cpp', 'rust', 'java']


def cfg_for(rng):
    return Cfg(files=(1, 4), structs=(0, rng.choice([4, 7, 10])), ifaces=(1, 4), methods=(0, 5), params=(0, rng.choice([3, 6, 12])), consts=(0, 3), errors=(0, 3), depth=4, docs=.25,
               doc_style='rich', order='shuffle', place='layered', obj_struct_arrays=rng.random() < .6, optional=.15,
               hostile=rng.choice([0, .3, .6]), obj_structs=rng.random() < .75, big_arrays=.05 if rng.random() < .2 else 0, fill=.05, dirs=.3,
               small_bias=rng.choice([0, 0, .4]), obj_bias=rng.choice([0, 0, .4]))


def java_ok(fs):
    return not any(fs.has_objects(s.name) for s in fs.structs())


def errors_of(r):
    return [l for l in (r[2] + r[1]).splitlines() if 'error' in l or 'warning' in l][:4] or (r[2] + r[1]).splitlines()[:4]


def check(binary, fs, kind, opts, d):
    """-> (list of (unit, message)), number of compilations)"""
    src = os.path.join(d, 'src')
    write_set(fs, src)
    bes = {'c': ['c', 'cs'], 'cn': ['cn', 'csn'], 'cpp': ['cpp', 'cpps'], 'rust': ['rust'], 'java': ['java']}[kind]
    errs = gen_all(binary, fs, src, d, bes, opts.get('extra', ()))
    if errs:
        return [('idlc', 'refused: %s' % (errs[0],))], 0
    e = Emit(fs)
    W = lambda n, t: open(os.path.join(d, n), 'w').write(t)
    bad, n = [], 0
    if kind in ('c', 'cn', 'cpp'):
        W('host.h', HOST_H)
        ext, cext = ('.hpp', '.cpp') if kind == 'cpp' else ('.h', '.c')
        units = []
        for k, f in enumerate(fs.files):          # every header is self-contained
            W('h%d%s' % (k, cext), '#include "%s%s"\n' % (f.base, ext))
            W('s%d%s' % (k, cext), '#include "%s_invoke%s"\n' % (f.base, ext))
            units += [('h%d' % k, ['-fsyntax-only']), ('s%d' % k, ['-fsyntax-only'])]
        if kind == 'cpp':
            W('ust.cpp', e.cpp_unit(skel=False))
            W('usk.cpp', e.cpp_unit(stub=False))
            W('uall.cpp', e.cpp_unit())
        else:
            typed = kind == 'c'
            W('ust.c', e.c_unit(skel=False, typed=typed))
            W('usk.c', e.c_unit(stub=False, typed=typed))
            W('uall.c', e.c_unit(typed=typed))
        cg = ['-c', '-o', '/dev/null', opts['opt']]
        units += [('ust', cg), ('usk', cg), ('uall', ['-fsyntax-only'])]
        cc = opts['cc']
        comp = {'c': {'clang': 'clang', 'gcc': 'gcc'}, 'cn': {'clang': 'clang', 'gcc': 'gcc'}, 'cpp': {'clang': 'clang++', 'gcc': 'g++'}}[kind][cc]
        for u, fl in units:
            inc = hdr_dirs(fs, d, bes) + ['-I', RUNTIME_C] + (['-I', RUNTIME_CPP] if kind == 'cpp' else []) + ['-I', d]
            r = run([comp, u + cext] + fl + (WCPP if kind == 'cpp' else WC) + opts.get('std', []) + inc, cwd=d, timeout=200)
            n += 1
            if r[0]:
                bad.append((u, '%s %s: %s' % (comp, u, '\n'.join(errors_of(r)))))
    elif kind == 'rust':
        W('glue.rs', e.r_unit())
        W('lib.rs', e.r_lib(os.path.join(d, 'rust')))
        r = run(['rustc', '--edition', '2021', '--cfg', 'feature="std"', '-D', 'warnings', '--check-cfg', 'cfg(feature, values("std"))', '-C', 'debuginfo=0', '--emit',
                 'metadata', 'lib.rs', '-o', 'libr.rmeta'], cwd=d, timeout=200)
        n += 1
        if r[0]:
            bad.append(('lib', 'rustc: %s' % '\n'.join(r[2].splitlines()[:14])))
    else:
        from javart import java_impls
        os.makedirs(d + '/j', exist_ok=True)
        extra = java_impls(fs, d + '/j')
        srcs = [os.path.join(d, 'java', x) for x in sorted(os.listdir(d + '/java'))] + extra
        rtj = os.path.join(VERIF, 'rt/java/com/qualcomm/qti/qms/api/mink')
        srcs += [os.path.join(rtj, x) for x in sorted(os.listdir(rtj))]
        r = run(['javac', '-proc:none', '-encoding', 'UTF-8', '-Werror', '-d', d + '/cls'] + srcs, cwd=d, timeout=300)
        n += 1
        if r[0]:
            bad.append(('java', 'javac: %s' % '\n'.join((r[2] or r[1]).splitlines()[:14])))
    return bad, n


def one(binary, fs, kind, opts):
    with scratchdir() as d:
        return check(binary, fs, kind, opts, d)


def rand_opts(rng):
    o = {'cc': rng.choice(['clang', 'clang', 'gcc']), 'opt': rng.choice(['-O0', '-O0', '-O2'])}
    if rng.random() < .3:
        o['extra'] = ['--marking', '@MARK'] if False else ['--allow-undefined-behavior']
    return o


def norm(msg):
    import re
    for l in msg.splitlines():
        if 'error' in l:
            l = re.sub(r"['‘`][^'’`]*['’`]", '_', l.split('error', 1)[1])
            return re.sub(r'\d+', '#', l)[:70]
    return msg[:60]


def worker(arg):
    seed, wid, t_end, binary, maxn = arg
    rng = random.Random('%s/%d' % (seed, wid))
    out = {'n': 0, 'keys': {}, 'viol': [], 'stats': {}, 'samples': []}
    b = 0
    while time.time() < t_end and len(out['viol']) < 2 and b < maxn:
        b += 1
        cfg = cfg_for(rng)
        kinds = [k for k in KINDS if k != 'java']
        if b % 5 == 0:
            cfg.obj_structs, cfg.java = False, True
            kinds = KINDS
        fs = trim(Gen(rng, cfg).fileset(), 10 ** 7, 10 ** 7)
        if 'java' in kinds and not java_ok(fs):
            kinds = kinds[:-1]
        txt = '\n'.join(print_file(f) for f in fs.files)
        nt = any(True for _ in fs.all_decls())
        for kind in kinds:
            opts = rand_opts(rng)
            bad, n = one(binary, fs, kind, opts)
            out['n'] += n
            out['stats'][kind] = out['stats'].get(kind, 0) + n
            if nt:
                out['keys'].setdefault(hashlib.sha1((kind + str(opts) + txt).encode()).digest()[:8], n)
            if bad:
                out['viol'].append((kind, opts, to_json(fs), bad))
        if not out['samples']:
            out['samples'].append({'idl': txt[:700]})
    return out


def known_probes():
    """the inputs of the recorded findings (names which meet names the backends or their runtime use themselves); the generators stay clear of these classes"""
    P, M, I = Param, Method, Iface
    u32 = lambda d, n, a=None: P(d, 'uint32', a, n)
    f = lambda *ds: FileSet([File('main.idl', [], list(ds))])
    meth = lambda n: f(I('IA', None, [M(n, [])]))
    yield 'suffix-family', ['c', 'cpp'], f(I('IA', None, [M('m', [u32('out', 'o', 'u'), P('in', 'interface', None, 'o_ptr')])]))
    yield 'suffix-family', ['c', 'cpp', 'rust'], f(I('IA', None, [M('m', [u32('out', 'o', 'u'), P('in', 'interface', None, 'o_lenout')])]))
    yield 'method-release-retain', ['c', 'cpp', 'java'], meth('release')
    yield 'method-invoke', ['cpp'], meth('invoke')
    yield 'java-object-methods', ['java'], meth('toString')
    yield 'rust-inherent-methods', ['rust'], meth('as_ref')
    yield 'parameter-named-like-type', ['c', 'cpp'], f(I('IA', None, [M('m', [P('in', 'interface', None, 'IB'), P('in', 'IB', None, 'z')])]), I('IB', None, []))
    yield 'runtime-type-names', ['c', 'cpp'], f(I('Object', None, [M('m', [u32('in', 'a')])]))
    yield 'runtime-type-names', ['rust'], f(I('Result', None, [M('m', [u32('in', 'a')])]))
    yield 'runtime-type-names', ['java'], f(I('ByteBuffer', None, [M('m', [u32('in', 'a')])]))
    yield 'foo-and-ifoo', ['cpp'], f(I('Foo', None, [M('m', [])]), I('IFoo', None, [M('m', [])]))
    yield 'const-op-name', ['c', 'cpp'], f(I('IA', None, [Const('uint32', 'OP_m', '1'), M('m', [])]))
    yield 'upper-case-collision', ['java'], f(I('IA', None, [Const('uint32', 'abc', '1'), Const('uint32', 'ABC', '1')]))
    yield 'upper-case-collision', ['rust', 'java'], f(I('IA', None, [Err('low'), Err('LOW')]))
    yield 'rust-prelude-parameter', ['rust'], f(I('IA', None, [M('m', [u32('in', 'Some')])]))
    yield 'java-interface-named-like-file', ['java'], f(I('main', None, [M('m', [])]))


def run_probes(c, binary):
    jobs = [(s, k, x) for s, ks, x in known_probes() for k in ks]
    for (s, k, x), (bad, n) in zip(jobs, pmap(lambda j: one(binary, j[2], j[1], {'cc': 'clang', 'opt': '-O0'}), jobs)):
        c.known_probe(s, bool(bad))


def main():
    c = Check('C11')
    binary = build_idlc()
    run_probes(c, binary)
    t_end = c.t0 + (75 if c.quick else 1200)
    with mp.get_context('fork').Pool(JOBS) as pool:
        res = pool.map(worker, [(c.seed * 77 + (0 if c.quick else 13), w, t_end, binary, 60 if c.quick else 10 ** 6) for w in range(JOBS)], chunksize=1)
    seen = set()
    for r in res:
        c.evals += r['n']
        c.distinct |= set(r['keys'])
        c.samples += r['samples'][:1]
        for k, v in r['stats'].items():
            c.count('compilations_' + k, v)
        for kind, opts, fsj, bad in r['viol']:
            sig = '%s:%s' % (kind, norm(bad[0][1]))
            if sig in seen or len(seen) > 4:
                continue
            seen.add(sig)
            fs = from_json(fsj)
            sm = shrink.shrink(fs, lambda x: (kind != 'java' or java_ok(x)) and any(norm(m) == norm(bad[0][1]) for _, m in one(binary, x, kind, opts)[0]),
                               50 if c.quick else 120)
            c.violation(sig, bad[0][1] + '\n' + '\n//--\n'.join(print_file(f) for f in sm.files), {'fs': to_json(sm), 'kind': kind, 'opts': opts})
    return c.finish(RULE)


def replay(d):
    bad, n = one(build_idlc(), from_json(d['fs']), d['kind'], d['opts'])
    for u, m in bad:
        print(u, m)
    return 1 if bad else 0
