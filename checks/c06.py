"""C06: struct sizes and field offsets assumed by the compiler equal the target layouts."""
import multiprocessing as mp
from common import *
from model import *
from gen import Gen, Cfg
from rt import Run, rand_opts, trim, Fail
import rtcheck, shrink

RULE = ('case = one struct measured in one language (sizeof and every offsetof in gcc/clang C typed and untyped, g++/clang++, rustc against the running sum of field sizes '
        'of the declaration), one compilation of a random struct (accepted only when no language would pad it), or one call/refusal of a method carrying structs '
        '(transmitted sizes and the exact size the skeleton accepts, small/big classification around 16 bytes); non-trivial = every case; distinct by struct shape and language')

CT = {'uint8': 'uint8_t', 'uint16': 'uint16_t', 'uint32': 'uint32_t', 'uint64': 'uint64_t', 'int8': 'int8_t', 'int16': 'int16_t',
      'int32': 'int32_t', 'int64': 'int64_t', 'float32': 'float', 'float64': 'double'}


def natural(fs, t, seen=()):
    """(size, align, padded anywhere) by the C rules; an object is two pointers"""
    if t in PRIMS:
        return PRIMS[t], PRIMS[t], False
    if fs.is_obj(t):
        return 16, 8, False
    if t in seen:
        raise ValueError
    off, al, pad = 0, 1, False
    for f in fs.struct(t).fields:
        s, a, p = natural(fs, f.type, seen + (t,))
        pad |= p
        if off % a:
            pad = True
            off += -off % a
        off += s * (f.count or 1)
        al = max(al, a)
    if off % al:
        pad = True
        off += -off % al
    return off, al, pad


def wild(rng, g, fs, name):
    """a struct built without regard to alignment"""
    s = Struct(name, [])
    ts = list(PRIMS) + ['interface'] + [x.name for x in fs.structs()] * 2 + [x.name for x in fs.ifaces()]
    for k in range(rng.choice([1, 1, 2, 2, 2, 3, 3, 4, 6, 9])):
        t = rng.choice(ts)
        c = rng.choice([None, None, None, 1, 2, 3, 4, 7, 8])
        s.fields.append(Field(t, c, 'f%d' % k))
    if rng.random() < .5:                 # sort by alignment: often valid, often only off at the tail
        s.fields.sort(key=lambda f: -natural(fs, f.type)[1])
    if rng.random() < .3:
        s.fields.append(Field(rng.choice(list(PRIMS)), rng.choice([None, 1, 2, 4]), 'tail'))
    return s


def accept(binary, fs, be):
    with scratchdir() as d:
        m = write_set(fs, os.path.join(d, 'src'))
        o = os.path.join(d, 'out')
        os.mkdir(o)
        r = idlc(binary, m, be, o)
        return r[0] == 0, r[2]


def closure(fs, names):
    """a single-file set with everything the named declarations need"""
    todo, got = list(names), []
    while todo:
        n = todo.pop()
        d = fs.struct(n) or fs.iface(n)
        if d is None or d in got:
            continue
        got.append(d)
        todo += fs.deps(d)
    return FileSet([File('main.idl', [], [d for _, d in fs.all_decls() if d in got])])


# ------------------------------------------------------------------ measuring
def measure(binary, fs, d, lang, cc):
    """-> {struct: (size, [offsets])} or raises"""
    src = os.path.join(d, 'src')
    write_set(fs, src)
    errs = gen_all(binary, fs, src, d, [lang])
    if errs:
        raise RuntimeError('refused %s' % (errs[0],))
    sts, L = fs.structs(), []
    p = os.path.join(d, 'm' + {'rust': '.rs', 'cpp': '.cpp'}.get(lang, '.c'))
    if lang == 'rust':
        L.append('#![allow(warnings)]\n#[path = "%s/mod.rs"] pub mod object;\npub mod interfaces {' % RUNTIME_RS)
        for m in sorted(x[:-3] for x in os.listdir(d + '/rust') if x.endswith('.rs')):
            L.append('#[path = "%s/rust/%s.rs"] pub mod %s;' % (d, m, m))
        L.append('}\nfn main() {')
        for k, s in enumerate(sts):
            t = 'interfaces::%s::r#%s' % (fs.file_of(s.name).stem.lower(), s.name)
            L.append('println!("%d {} %s", std::mem::size_of::<%s>(), %s);' % (
                k, ' '.join(['{}'] * len(s.fields)), t, ', '.join('std::mem::offset_of!(%s, r#%s)' % (t, f.name) for f in s.fields)))
        L.append('}')
        cmd = ['rustc', '--edition', '2021', '--cfg', 'feature="std"', '-A', 'warnings', '-C', 'debuginfo=0', p, '-o', d + '/m']
    else:
        L.append('#include <stdio.h>\n#include <stddef.h>\n#include <stdint.h>\n')
        if lang == 'cpp':
            L.append('#include <atomic>')
        L += ['#include "%s%s"' % (f.stem, '.hpp' if lang == 'cpp' else '.h') for f in fs.files]
        L.append('int main(void) {')
        for k, s in enumerate(sts):
            L.append('printf("%d %%zu' % k + ' %zu' * len(s.fields) + '\\n", sizeof(%s)' % s.name + ''.join(', offsetof(%s, %s)' % (s.name, f.name) for f in s.fields) + ');')
        L.append('return 0; }')
        comp = {'cpp': {'gcc': 'g++', 'clang': 'clang++'}}.get(lang, {'gcc': 'gcc', 'clang': 'clang'})[cc]
        cmd = [comp, '-w', p, '-o', d + '/m', '-I', os.path.join(d, lang), '-I', RUNTIME_C, '-I', RUNTIME_CPP]
    open(p, 'w').write('\n'.join(L))
    r = run(cmd, cwd=d, timeout=200)
    if r[0]:
        raise RuntimeError('%s: %s' % (cmd[0], (r[2] or r[1])[:1200]))
    r = run([d + '/m'], cwd=d)
    out = {}
    for ln in r[1].splitlines():
        v = list(map(int, ln.split()))
        out[sts[v[0]].name] = (v[1], v[2:])
    return out


def layout_bad(binary, fs, lang, cc):
    with scratchdir() as d:
        try:
            got = measure(binary, fs, d, lang, cc)
        except RuntimeError as e:
            return [(None, '%s: %s' % (lang, e))]
    bad = []
    for s in fs.structs():
        want = (fs.size_align(s.name)[0], fs.offsets(s))
        if got.get(s.name) != want:
            bad.append((s.name, '%s (%s) has size, offsets %s instead of %s' % (s.name, lang, got.get(s.name), want)))
    return bad


def gen_layouts(rng):
    cfg = Cfg(files=(1, 3), structs=(6, 16), ifaces=(0, 2), methods=(0, 1), params=(0, 2), consts=(0, 0), errors=(0, 0), obj_structs=rng.random() < .6,
              obj_struct_arrays=True, order='shuffle', place='layered', hostile=.1, big_arrays=.1)
    fs = Gen(rng, cfg).fileset()
    r = rng.random()
    if r < .3:                            # large totals (types only, nothing is instantiated)
        t, tot = rng.choice(list(PRIMS)), 1
        for k in range(rng.randrange(1, 4)):
            n = rng.choice([65535, 65534, 32768, 256, 1000])
            if tot * n * 8 > 2 ** 50:
                break
            tot *= n
            nm = 'Huge%d' % k
            fs.files[0].decls.append(Struct(nm, [Field(t, n, 'a')]))
            t = nm
    return fs


def gen_calls(rng):
    """methods which carry structs around the 16 byte boundary, alone and bundled"""
    g = Gen(rng, Cfg(files=(1, 2), structs=(0, 0), ifaces=(1, 2), methods=(0, 0), consts=(0, 0), errors=(0, 0), obj_structs=rng.random() < .5, obj_struct_arrays=True,
                     order='shuffle', place='layered'))
    fs = FileSet([File('main.idl', [], [])])
    D = fs.files[0].decls
    for _ in range(rng.randint(1, 2)):
        D.append(Iface(g.name('I'), None, []))
    for _ in range(rng.randint(4, 8)):
        D.append(g.gen_struct(fs, target=rng.choice([1, 2, 4, 8, 12, 14, 15, 16, 16, 17, 18, 20, 24, 32, 40, 64])))
    if rng.random() < .35:                # array fields with counts at the ends of 8, 15 and 16 bits
        for _ in range(rng.randint(1, 2)):
            t = rng.choice(['uint8', 'uint8', 'int8', 'uint16', 'float32'] + [s.name for s in fs.structs() if fs.size_align(s.name)[0] <= 4])
            n = rng.choice([255, 256, 257, 4096, 32767, 32768, 32769, 32776, 65535, rng.randrange(1, 65536), rng.randrange(32768, 65536)])
            D.append(Struct(g.name('Wide'), [Field(t, n, 'a')]))
    for i in fs.ifaces():
        for s in fs.structs():
            for d in ('in', 'out'):
                ps = [Param(d, s.name, None, 'a')]
                r = rng.random()
                if r < .3:
                    ps.append(Param(d, rng.choice(list(PRIMS)), None, 'b'))
                elif r < .5:
                    ps.append(Param(d, rng.choice(fs.structs()).name, None, 'b'))
                elif r < .65 and not fs.has_objects(s.name):
                    ps = [Param(d, s.name, 'u', 'a')]
                rng.shuffle(ps)
                m = Method(g.name('m'), ps)
                if fs.method_ok(m):
                    i.members.append(m)
    return fs


def call_bad(binary, fs, opts, seed, n):
    with scratchdir() as d:
        try:
            r = Run(binary, fs, d, opts)
        except Fail as e:
            return str(e)[:600], [], 0
        rng = random.Random(seed)
        rtcheck.plan('C03', r, rng, n)
        rtcheck.plan('C04', r, rng, n // 2)
        log = r.execute()
        k = 0
        for cid, steps in enumerate(r.items):
            k += len(steps)
            bad = [w for t, w, _ in rtcheck.judge(r, 'C06', steps, log.get(cid, [])) if 'C03' in t or 'C02' in t or 'C04' in t]
            if bad:
                return '; '.join(bad[:3]), rtcheck.describe(r, steps), k
        return None, [], k


def worker(arg):
    seed, wid, t_end, binary, quick = arg
    rng = random.Random('%s/%d' % (seed, wid))
    out = {'cases': [], 'viol': [], 'stats': {}, 'samples': [], 'calls': 0}
    b = 0
    while time.time() < t_end and len(out['viol']) < 2 and (b < 60 or not quick):
        b += 1
        # random structs: accepted only if nothing is padded
        for _ in range(12):
            fs = Gen(rng, Cfg(files=(1, 1), structs=(1, 4), ifaces=(0, 1), methods=(0, 0), consts=(0, 0), errors=(0, 0), obj_struct_arrays=True)).fileset()
            s = wild(rng, None, fs, 'Wild')
            fs.files[0].decls.insert(rng.randint(0, len(fs.files[0].decls)), s)
            pad = natural(fs, 'Wild')[2]
            be = rng.choice(['c', 'cpp', 'rust', 'cs', 'cpps'])
            ok, err = accept(binary, fs, be)
            out['cases'].append(('wild %s %s' % (be, [(f.type if f.type in PRIMS else natural(fs, f.type), f.count) for f in s.fields]), 'random_struct_' + ('padded' if pad else 'unpadded')))
            if ok and pad:
                out['viol'].append(('accepted', to_json(fs), be, None))
            elif ok and rng.random() < .25:
                f2 = closure(fs, ['Wild'])
                lang, cc = rng.choice(['c', 'cpp', 'rust']), rng.choice(['gcc', 'clang'])
                bad = layout_bad(binary, f2, lang, cc)
                out['cases'].append(('wild layout %s %s' % (lang, print_file(f2.files[0])), 'measured_random'))
                if bad:
                    out['viol'].append(('layout', to_json(f2), lang, cc))
        fs = gen_layouts(rng)
        for lang in ('c', 'cn', 'cpp', 'rust'):
            cc = rng.choice(['gcc', 'clang'])
            bad = layout_bad(binary, fs, lang, cc)
            for s in fs.structs():
                out['cases'].append((lang + repr([(f.type if f.type in PRIMS else fs.size_align(f.type), f.count) for f in s.fields]), 'measured_' + lang))
            if bad:
                out['viol'].append(('layout', to_json(fs), lang, cc))
                break
        if len(out['samples']) < 1:
            out['samples'].append({'struct': repr(fs.structs()[-1])[:500], 'size': fs.size_align(fs.structs()[-1].name)[0]})
        if b % 2:
            fs = trim(gen_calls(rng), 280000, 1500000)
            opts = rand_opts(rng, .1)
            sd = rng.randrange(10 ** 6)
            bad, desc, n = call_bad(binary, fs, opts, sd, 150)
            out['calls'] += n
            out['cases'] += [('calls %s %d' % (print_file(fs.files[0]), sd), 'call_batches')]
            if bad:
                out['viol'].append(('call', to_json(fs), opts, sd))
    return out


def main():
    c = Check('C06')
    binary = build_idlc()
    t_end = c.t0 + (42 if c.quick else 1200)
    with mp.get_context('fork').Pool(JOBS) as pool:
        res = pool.map(worker, [(c.seed * 31 + (0 if c.quick else 17), w, t_end, binary, c.quick) for w in range(JOBS)], chunksize=1)
    seen = set()
    for r in res:
        for k, s in r['cases']:
            c.case(k, True)
            c.count(s)
        c.count('stub_and_skeleton_invocations', r['calls'])
        c.evals += r['calls']
        c.samples += r['samples'][:1]
        for kind, fsj, a, b in r['viol']:
            fs = from_json(fsj)
            sig = kind + ':' + (a if isinstance(a, str) else 'rt')
            if sig in seen or len(seen) > 3:
                continue
            seen.add(sig)
            if kind == 'accepted':
                def fails(x):
                    try:
                        return x.struct('Wild') is not None and natural(x, 'Wild')[2] and accept(binary, x, a)[0]
                    except (ValueError, AttributeError):
                        return False
                sm = shrink.shrink(fs, fails, 20, check_valid=False)
                msg = 'a struct which needs padding (natural size %s) was accepted by %s' % (natural(sm, 'Wild')[:2], a)
            elif kind == 'layout':
                sm = shrink.shrink(fs, lambda x: bool(x.structs()) and bool(layout_bad(binary, x, a, b)), 40)
                msg = '; '.join(w for _, w in layout_bad(binary, sm, a, b)[:3])
            else:
                sm = shrink.shrink(fs, lambda x: bool(call_bad(binary, x, a, b, 60)[0]), 60)
                r2 = call_bad(binary, sm, a, b, 60)
                if not r2[0]:
                    sm = fs
                    r2 = call_bad(binary, sm, a, b, 150)
                msg = '%s\n%s' % (r2[0], '\n'.join(r2[1]))
            c.violation(sig, msg + '\n' + '\n'.join(print_file(f) for f in sm.files), {'kind': kind, 'fs': to_json(sm), 'a': a, 'b': b})
    return c.finish(RULE)


def replay(d):
    binary = build_idlc()
    fs = from_json(d['fs'])
    if d['kind'] == 'accepted':
        ok, err = accept(binary, fs, d['a'])
        print('accepted' if ok else 'refused')
        return 1 if ok else 0
    if d['kind'] == 'layout':
        bad = layout_bad(binary, fs, d['a'], d['b'])
        print('\n'.join(w for _, w in bad))
        return 1 if bad else 0
    for n in (60, 150):
        bad, desc, _ = call_bad(binary, fs, d['a'], d['b'], n)
        if bad:
            print(bad, '\n'.join(desc))
            return 1
    return 0
