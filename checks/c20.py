"""C20: clone, invoke and drop of generated Rust objects from several threads, under controlled schedules and real threads."""
import re
from common import *
from model import *
from gen import Gen
from rt import cfg_rt, trim, Fail
from emit import Emit
import shrink

RULE = ('case = one schedule of one generated client program (2-5 threads which clone, invoke, upcast, hand over, downcast and drop handles to 1-3 generated objects) over one generated file set, '
        'run against the generated wrappers with scheduling points at every lock, atomic operation and inside every method body; non-trivial = in that schedule an invocation started while a '
        'method body of the same instance was running, or a handle was dropped during one; distinct by program and by the order of all observed events; programs run with real threads or under Miri (data races, weak memory) count once each')


# ------------------------------------------------------------------ building
def tables_rs(e, root):
    fs = e.fs
    faces = {i.name: k for k, i in enumerate(fs.ifaces())}
    obj = len(faces)
    t = 'use crate::harness::{Entry, Face, Skel, Param};\n'

    def p_of(p):
        kd, o = fs.kind(p), 'true' if p.dir == 'out' else 'false'
        if kd in ('buf', 'sbuf'):
            return 'Param { kind: 1, out: %s, size: std::mem::size_of::<%s>(), nobj: 0 }' % (o, 'u8' if p.type == 'buffer' else e.r_type(p.type))
        if kd == 'obj':
            return 'Param { kind: 2, out: %s, size: 0, nobj: 1 }' % o
        if kd == 'objarr':
            return 'Param { kind: 2, out: %s, size: 0, nobj: %d }' % (o, p.arr)
        return 'Param { kind: 0, out: %s, size: std::mem::size_of::<%s>(), nobj: %d }' % (o, e.r_type(p.type), len(e.objs.get(p.type, [])))
    t += 'pub static ENTRIES: &[Entry] = &[%s];\n' % ', '.join(
        'Entry { drv: drv_rust%d, face: %d, op: %d, opt: %s, params: &[%s] }' % (k, faces[i.name], op, str(m.optional).lower(), ', '.join(p_of(p) for p in m.params))
        for k, (i, op, ow, m) in enumerate(e.entries))
    rows = []
    for k, i in enumerate(list(fs.ifaces()) + [None]):
        T = e.r_type(i.name) if i else 'crate::object::Object'
        B = 'crate::object::Object' if i is None or i.base is None else e.r_type(i.base)
        b = obj if i is None or i.base is None else faces[i.base]
        t += 'unsafe fn cl_%d(r: *const Raw) -> Raw { std::mem::transmute(<%s as Clone>::clone(&*(r as *const %s))) }\n' % (k, T, T)
        t += 'unsafe fn dr_%d(r: Raw) { drop(std::mem::transmute::<Raw, %s>(r)) }\n' % (k, T)
        if i is None:
            t += 'unsafe fn up_%d(r: Raw) -> Raw { r }\nunsafe fn cv_%d(r: Raw) -> Raw { r }\n' % (k, k)
            t += 'unsafe fn as_%d(r: *const Raw) -> Raw { cl_%d(r) }\nunsafe fn de_%d(r: *const Raw) -> Raw { cl_%d(r) }\n' % (k, k, k, k)
        else:
            t += 'unsafe fn up_%d(r: Raw) -> Raw { std::mem::transmute(<%s as From<%s>>::from(std::mem::transmute::<Raw, %s>(r))) }\n' % (k, B, T, T)
            t += 'unsafe fn cv_%d(r: Raw) -> Raw { use crate::object::TypedObject as O; let x = <%s as O>::into_raw(std::mem::transmute::<Raw, %s>(r)); std::mem::transmute(<%s as O>::from_raw(x)) }\n' % (k, T, T, T)
            t += 'unsafe fn as_%d(r: *const Raw) -> Raw { std::mem::transmute(<%s as Clone>::clone(<%s as AsRef<%s>>::as_ref(&*(r as *const %s)))) }\n' % (k, B, T, B, T)
            t += 'unsafe fn de_%d(r: *const Raw) -> Raw { std::mem::transmute(<%s as Clone>::clone(<%s as std::ops::Deref>::deref(&*(r as *const %s)))) }\n' % (k, B, T, T)
        rows.append('Face { cl: cl_%d, dr: dr_%d, up: up_%d, asr: as_%d, de: de_%d, conv: cv_%d, base: %d }' % (k, k, k, k, k, k, b))
    t += 'pub static FACES: &[Face] = &[%s];\n' % ', '.join(rows)
    for k, (y, full) in enumerate(e.skels):
        t += 'unsafe fn dc_%d(r: *const Raw, f: &mut dyn FnMut(usize)) -> bool { crate::interfaces::%s::downcast_concrete::<(), Zimp_rust%d>(&*(r as *const crate::object::Object), |z| f(z.0)).is_some() }\n' % (
            k, y.name.lower(), k)
    t += 'pub static SKELS: &[Skel] = &[%s];\n' % ', '.join(
        'Skel { mk: mk_rust%d, face: %d, full: %s, dc: dc_%d }' % (k, faces[y.name], str(full).lower(), k) for k, (y, full) in enumerate(e.skels))
    return t


def sched_lib():
    """-> rustc arguments for the controlled scheduler (built once per sandbox)"""
    tgt = os.path.join(BUILD, 'target-sched')
    t = time.time()
    with lock('cargo-sched'):
        r = run(['cargo', 'build', '--offline', '--release', '--manifest-path', os.path.join(VERIF, 'harness/sched/Cargo.toml'), '--target-dir', tgt], timeout=600)
    if r[0]:
        raise BuildError('scheduler does not build:\n' + r[2][-3000:])
    not_searching(time.time() - t)
    deps = os.path.join(tgt, 'release', 'deps')
    lib = [f for f in os.listdir(deps) if re.match(r'libshuttle-[0-9a-f]+\.rlib$', f)][0]
    return ['--extern', 'shuttle=' + os.path.join(deps, lib), '-L', 'dependency=' + deps]


VSYNC = '''
pub mod vsync {
    pub use ::std::sync::*;
    pub use ::shuttle::sync::{Barrier, Condvar, Mutex, MutexGuard, Once, OnceState, RwLock, RwLockReadGuard, RwLockWriteGuard};
    pub mod atomic {
        pub use ::std::sync::atomic::*;
        pub use ::shuttle::sync::atomic::{AtomicBool, AtomicI8, AtomicI16, AtomicI32, AtomicI64, AtomicIsize, AtomicPtr, AtomicU8, AtomicU16, AtomicU32, AtomicU64, AtomicUsize, fence};
    }
}
'''
SUBST = [(re.compile(r'(?<![\w:])(?:::)?(?:std|core)\s*::\s*sync\b'), 'crate::vsync'),
         (re.compile(r'(?<![\w:])(?:::)?std\s*::\s*thread\b'), '::shuttle::thread')]


def flat_uses(text):
    """`use std::{a::b, c};` -> `use std::a::b; use std::c;` (so that the paths can be redirected)"""
    for m in reversed(list(re.finditer(r'((?:pub(?:\([^)]*\))?\s+)?use\s+(?:::)?(?:std|core)\s*::\s*)\{', text))):
        parts, depth, cur, i = [], 0, '', m.end()
        while i < len(text) and depth >= 0:
            ch = text[i]
            depth += (ch == '{') - (ch == '}')
            if depth < 0 or (ch == ',' and depth == 0):
                parts.append(cur.strip())
                cur = ''
            else:
                cur += ch
            i += 1
        end = text.find(';', i)
        if end < 0 or text[i:end].strip():
            continue
        root = m.group(1).rstrip().rstrip(':').rstrip()
        text = text[:m.start()] + ' '.join((root + ';') if p == 'self' else re.sub(r'^self\s+as', root + ' as', p) + ';' if p.startswith('self ') else m.group(1) + p + ';'
                                           for p in parts if p) + text[end + 1:]
    return text


def redirect(text):
    text = flat_uses(text)
    for r, w in SUBST:
        text = r.sub(w, text)
    return text


def prepare(binary, fs, d):
    """writes everything; -> list of rustc command lines per mode"""
    src = os.path.join(d, 'src')
    write_set(fs, src)
    errs = gen_all(binary, fs, src, d, ['rust'])
    if errs:
        raise Fail('idlc: %s' % (errs[0],))
    e = Emit(fs)
    if not e.skels:
        raise Fail('no interface')
    glue = e.r_unit() + tables_rs(e, d)
    for mode in ('shuttle', 'real'):
        md = os.path.join(d, mode)
        os.makedirs(os.path.join(md, 'rust'))
        os.makedirs(os.path.join(md, 'object'))
        f = redirect if mode == 'shuttle' else (lambda x: x)
        for a, b in ((os.path.join(d, 'rust'), md + '/rust'), (RUNTIME_RS, md + '/object')):
            for n in os.listdir(a):
                if n.endswith('.rs'):
                    open(os.path.join(b, n), 'w').write(f(open(os.path.join(a, n)).read()))
        open(md + '/glue.rs', 'w').write(glue)
        open(md + '/harness.rs', 'w').write(open(os.path.join(VERIF, 'rt/sched/harness.rs')).read())
        t = '#[allow(warnings)]\npub mod object;\n#[allow(warnings)]\npub mod interfaces {\n' + ''.join(
            '    #[path = "%s"]\n    pub mod r#%s;\n' % (os.path.join(md, 'rust', n), n[:-3]) for n in sorted(os.listdir(md + '/rust'))) + '}\n'
        t += '#[allow(warnings)]\npub mod glue;\n#[allow(warnings)]\npub mod harness;\nfn main() { harness::main() }\n' + (VSYNC if mode == 'shuttle' else '')
        open(md + '/main.rs', 'w').write(t)
    return e


RUSTC = ['rustc', '--edition', '2021', '--cfg', 'feature="std"', '-A', 'warnings', '-C', 'debuginfo=0', '-C', 'codegen-units=4', 'main.rs', '-o', 'exe']


def compile_mode(d, mode, sched=None):
    md = os.path.join(d, mode)
    cmd = RUSTC + (['--cfg', 'shuttle_mode', '-C', 'opt-level=1'] + sched if mode == 'shuttle' else ['-C', 'opt-level=1', '-C', 'debug-assertions=on'])
    r = run(cmd, cwd=md, timeout=300)
    if r[0]:
        raise Fail('%s: %s' % (mode, r[2][-2500:]))
    return os.path.join(md, 'exe')


# ------------------------------------------------------------------ programs
def gen_prog(rng, nsk):
    small = rng.random() < .3
    ni = rng.choice([1, 1, 1, 2, 2, 3])
    p = {'insts': [rng.randrange(nsk) for _ in range(ni)], 'threads': []}
    for t in range(2 if small else rng.choice([2, 3, 3, 4, 5])):
        ops = []
        for _ in range(rng.choice([0, 1, 1, 2]) if small else rng.randint(0, 6)):
            k = rng.random()
            s = rng.randrange(6)
            if k < .5:
                ops.append('k %d %d %d %d %d %d' % (s, rng.getrandbits(40), rng.choice([0, 1, 1, 2, 3]), rng.randrange(4), rng.choice([0, 0, 0, 10, 77]),
                                                   (rng.getrandbits(30) << 8 | rng.randint(1, 9)) if rng.random() < .35 else 0))
            elif k < .6:
                ops.append('c %d' % s)
            elif k < .75:
                ops.append('d %d' % s)
            elif k < .87:
                ops.append('%s %d' % (rng.choice('uaevg'), s))
            elif k < .93:
                ops.append(rng.choice(['s %d' % s, 'r']))
            elif k < .97:
                ops.append('%s %d %d' % (rng.choice('bm'), s, rng.randrange(64)))
            else:
                ops.append('y')
        p['threads'].append(ops)
    return p


def prog_text(p):
    return ''.join('inst %d\n' % i for i in p['insts']) + ''.join('thr\n' + ''.join(o + '\n' for o in t) for t in p['threads'])


def execute(exe, p, how, seed, iters, timeout=60):
    """-> (complaint or None, counters, traces)"""
    rc, o, e = run([exe, how, str(seed), str(iters)], stdin=prog_text(p), timeout=timeout, mem_gb=8)
    m = re.search(r'^VIOL (.*)', o, re.M)
    if m:
        return m.group(1), {}, []
    if rc == 'timeout':
        return 'timeout', {}, []
    if rc != 0:
        return crash_text(rc, e), {}, []
    cnt = dict((k, int(v)) for k, v in re.findall(r'(\w+)=(\d+)', (re.search(r'^DONE (.*)', o, re.M) or [0, ''])[1]))
    tr = re.search(r'^TRACES (.*)', o, re.M)
    return None, cnt, tr.group(1).split() if tr else []


def crash_text(rc, e):
    m = re.search(r'deadlock[^\n]*', e)
    if m:
        return 'deadlock: the clients wait for each other'
    m = re.search(r"panicked at [^\n]*\n([^\n]*)", e)
    return 'the process died (%s): %s' % (rc, m.group(1) if m else e[-300:])


def gen_set(rng):
    c = cfg_rt(rng, small=True)
    c.ifaces = (1, 4)
    c.order = rng.choice(['topo', 'shuffle'])
    c.fill = .04
    return trim(Gen(rng, c).fileset(), 4000, 30000)


def hows(rng, p):
    n = sum(len(t) for t in p['threads'])
    r = [('rnd', 150), ('pct:%d' % rng.choice([2, 3, 4, 6]), 120), ('urw', 60)]
    if n <= 3 and len(p['threads']) == 2:
        r.append(('dfs', 2500))
    return r


def batch(rng, binary, sched, nprog=12, stress=True):
    fs = gen_set(rng)
    out = []
    key = json.dumps(to_json(fs))
    with scratchdir('c20') as d:
        try:
            e = prepare(binary, fs, d)
            exe = compile_mode(d, 'shuttle', sched)
        except Fail as x:
            return [Case('skip%f' % rng.random(), False, {'skipped': str(x)[-600:]}, ['file_sets_not_buildable'])]
        real = None
        for k in range(nprog):
            p = gen_prog(rng, len(e.skels))
            for how, iters in hows(rng, p):
                seed = rng.getrandbits(48)
                bad, cnt, tr = execute(exe, p, how, seed, iters)
                if bad == 'timeout':
                    out.append(Case('t%f' % rng.random(), False, counts=['programs not finished under the controlled scheduler']))
                    continue
                pk = key + prog_text(p)
                h0 = hashlib.sha1(pk.encode()).hexdigest()
                cs = [Case(h0 + t, True) for t in tr] or [Case(h0 + how, False)]
                cs[0].sample = {'program': prog_text(p), 'scheduler': how, 'schedules': cnt.get('execs'), 'contended': cnt.get('contended'), 'distinct interleavings': len(tr)} if tr else None
                cs[0].counts = ['programs x scheduler %s' % how.split(':')[0]] + ['small programs explored exhaustively'] * cnt.get('exhausted', 0)
                cs[0].maxima = {}
                cs[0].n += max(0, cnt.get('execs', 0) - len(cs))
                cs[0].add = {'schedules': cnt.get('execs', 0), 'invocations': cnt.get('calls', 0), 'invocations contending for a running instance': cnt.get('contended', 0),
                             'drops during a method body': cnt.get('raced_drops', 0)}
                if bad:
                    cs[0].viol = (sig_of(bad), bad, (to_json(fs), p, 'shuttle', how, seed, iters))
                    return out + cs
                out += cs
        if stress:
            try:
                real = compile_mode(d, 'real')
            except Fail as x:
                out.append(Case('skip%f' % rng.random(), False, {'skipped': str(x)[-600:]}, ['file_sets_not_buildable']))
                return out
            for _ in range(3):
                p = gen_prog(rng, len(e.skels))
                bad, cnt, _ = execute(real, p, 'real', 0, 300)
                cs = Case(key + prog_text(p) + 'real', cnt.get('contended', 0) > 0, counts=['programs run with real threads'])
                cs.add = {'real-thread executions': cnt.get('execs', 0), 'real-thread contended invocations': cnt.get('contended', 0)}
                if bad:
                    if bad == 'timeout':
                        bad = 'the clients do not finish'
                    cs.viol = (sig_of(bad), bad, (to_json(fs), p, 'real', 'real', 0, 3000))
                    return out + [cs]
                out.append(cs)
            for _ in range(2):
                p = gen_prog(rng, len(e.skels))
                seed = rng.getrandbits(31)
                r = miri(d, p, seed, 3)
                if r is None:
                    out.append(Case('m%f' % rng.random(), False, counts=['Miri runs without a verdict']))
                    continue
                cs = Case(key + prog_text(p) + 'miri', r[1].get('contended', 0) > 0, counts=['programs run under Miri'])
                cs.add = {'Miri executions': r[1].get('execs', 0), 'invocations under Miri': r[1].get('calls', 0)}
                if r[0]:
                    cs.viol = (sig_of(r[0]), r[0], (to_json(fs), p, 'miri', 'miri', seed, 3))
                    return out + [cs]
                out.append(cs)
    return out


def sig_of(bad):
    return re.sub(r'\d+', 'N', bad)[:60]


# ------------------------------------------------------------------ Miri
NIGHTLY = '/root/.rustup/toolchains/nightly-x86_64-unknown-linux-gnu'
MIRI = [NIGHTLY + '/bin/miri', '--sysroot', '/root/.cache/miri', '--edition', '2021', '--cfg', 'feature="std"', '-A', 'warnings', '-Zmiri-disable-isolation', '-Zmiri-ignore-leaks',
        '-Zmiri-disable-stacked-borrows', '-Zmiri-permissive-provenance', '-Zmiri-preemption-rate=0.05']
MIRI_BAD = re.compile(r'(Data race detected[^\n]*|[^\n]*(?:has been freed|dangling)[^\n]*|error: (?:the evaluated program )?deadlock[^\n]*)')


def miri(d, p, seed, iters, timeout=120):
    """the real-thread program under Miri: data races on the implementation, use after free; -> (complaint, counters) or None when Miri has no verdict"""
    rc, o, e = run(MIRI + ['-Zmiri-seed=%d' % seed, 'main.rs', '--', 'real', '0', str(iters)], cwd=os.path.join(d, 'real'), stdin=prog_text(p), timeout=timeout,
                   env_=dict(ENV, LD_LIBRARY_PATH=NIGHTLY + '/lib', RUSTUP_TOOLCHAIN='nightly'))
    m = re.search(r'^VIOL (.*)', o, re.M)
    if m:
        return m.group(1), {}
    if rc == 0:
        return None, dict((k, int(v)) for k, v in re.findall(r'(\w+)=(\d+)', o))
    m = MIRI_BAD.search(e) if rc != 'timeout' else None
    if m:
        return 'under Miri: ' + re.sub(r'alloc\d+', 'alloc', m.group(1)).strip()[:300], {}
    return None


def try_one(binary, sched, fs, p, mode, how, seed, iters):
    with scratchdir('c20') as d:
        try:
            prepare(binary, fs, d)
            exe = d if mode == 'miri' else compile_mode(d, mode, sched)
        except Fail:
            return None
        return search(exe, p, mode, how, seed, iters)


def search(exe, p, mode, how, seed, iters):
    """the recorded schedule first, then others of the same program"""
    if mode == 'miri':
        for s in (seed, seed + 1, seed + 2):
            r = miri(exe, p, s, iters)
            if r and r[0]:
                return r[0], how, s
        return None
    if mode == 'real':
        for _ in range(3):
            bad = execute(exe, p, 'real', 0, iters)[0]
            if bad:
                return ('the clients do not finish' if bad == 'timeout' else bad), how, seed
        return None
    for h, s, n in [(how, seed, iters), ('rnd', 1, 600), ('pct:3', 2, 400)]:
        bad = execute(exe, p, h, s, n)[0]
        if bad and bad != 'timeout':
            return bad, h, s
    return None


def minimise(binary, sched, fs, p, mode, how, seed, iters, budget=60):
    t0 = time.time()
    best = None
    with scratchdir('c20') as d:
        try:
            prepare(binary, fs, d)
            exe = d if mode == 'miri' else compile_mode(d, mode, sched)
        except Fail:
            return p, how, seed, None
        changed = True
        while changed and time.time() - t0 < budget * .5:
            changed = False
            cands = [('t', k) for k in range(len(p['threads']) - 1, 0, -1)] + [('o', t, k) for t in range(len(p['threads'])) for k in range(len(p['threads'][t]))] + \
                    [('i', k) for k in range(len(p['insts']))]
            for c in cands:
                q = json.loads(json.dumps(p))
                try:
                    if c[0] == 't':
                        if len(q['threads']) <= 2:
                            continue
                        del q['threads'][c[1]]
                    elif c[0] == 'o':
                        del q['threads'][c[1]][c[2]]
                    else:
                        if len(q['insts']) <= 1:
                            continue
                        del q['insts'][c[1]]
                except IndexError:
                    continue
                r = search(exe, q, mode, how, seed, iters)
                if r:
                    p, best, changed = q, r, True
                    how, seed = r[1], r[2]
                if time.time() - t0 > budget * .5:
                    break
    return p, how, seed, best and best[0]


def shrink_set(binary, sched, fs, p, mode, how, seed, iters, budget=40):
    """declarations which the program does not need; the skeleton and entry numbers move, so the search runs over a few random programs as well"""
    t0 = time.time()
    state = [p, how, seed, None]

    def fails(x):
        if time.time() - t0 > budget or not x.ifaces():
            return False
        with scratchdir('c20') as d:
            try:
                e = prepare(binary, x, d)
                exe = d if mode == 'miri' else compile_mode(d, mode, sched)
            except Fail:
                return False
            progs = [p] + [gen_prog(random.Random(k), len(e.skels)) for k in range(12)]
            for q in progs:
                r = search(exe, q, mode, how, seed, min(iters, 300))
                if r:
                    state[:] = [q, r[1], r[2], r[0]]
                    return True
        return False
    try:
        small = shrink.shrink(fs, fails, budget)
    except Exception:
        small = fs
    return small, state


def main():
    c = Check('C20')
    binary = build_idlc()
    sched = sched_lib()
    viols = fan(c, batch, 45, 1500, 10 ** 9, (binary, sched))
    if not c.extra.get('schedules') and not viols:
        print('ERROR: no program could be run: %s' % c.extra)
        c.finish(RULE)
        return 2
    for sig, msg, data in viols[:2]:
        fs, p, mode, how, seed, iters = from_json(data[0]), data[1], data[2], data[3], data[4], data[5]
        fs2, st = shrink_set(binary, sched, fs, p, mode, how, seed, iters)
        if st[3]:
            fs, p, how, seed, msg = fs2, st[0], st[1], st[2], st[3]
        p, how, seed, m2 = minimise(binary, sched, fs, p, mode, how, seed, iters)
        msg = m2 or msg
        c.violation(sig, '%s\nprogram (%s, scheduler %s, seed %d):\n%s\n%s' % (msg, mode, how, seed, prog_text(p), '\n'.join('// %s\n%s' % (f.path, print_file(f)) for f in fs.files)),
                    {'fs': to_json(fs), 'prog': p, 'mode': mode, 'how': how, 'sched_seed': seed, 'iters': iters})
    c.assumptions.append('the controlled scheduler explores sequentially consistent interleavings; std::sync and std::thread of the generated code and its runtime are redirected to it by path')
    return c.finish(RULE)


def replay(d):
    r = try_one(build_idlc(), sched_lib(), from_json(d['fs']), d['prog'], d['mode'], d['how'], d['sched_seed'], d['iters'])
    print(r[0] if r else 'ok')
    return 1 if r else 0
