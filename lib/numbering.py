"""Shared by C07 and C08: op-codes and error values read back from every backend's output, and dispatch observed at run time."""
import multiprocessing as mp
from common import *
from model import *
from gen import Gen, Cfg
from javart import Java, build_host
import shrink

SHAPES = [[], [Param('in', 'uint32', None, 'p0')], [Param('out', 'uint32', None, 'p0')], [Param('in', 'interface', None, 'p0')],
          [Param('in', 'uint32', None, 'p0'), Param('out', 'uint32', None, 'p1')], [Param('in', 'buffer', None, 'p0')],
          [Param('out', 'interface', None, 'p0')]]
COUNTS = [(0, 0, 0, 0), (1, 0, 0, 0), (0, 1, 0, 0), (0, 0, 1, 0), (1, 1, 0, 0), (1, 0, 0, 0), (0, 0, 0, 1)]


def shape(m):
    return [[(p.dir, p.type) for p in s] for s in SHAPES].index([(p.dir, p.type) for p in m.params])


# ------------------------------------------------------------------ generation
def gen_set(rng, big=False):
    g = Gen(rng, Cfg(files=(1, rng.choice([1, 3, 5])), order='shuffle', place='layered', docs=.1, optional=.1, const_forms=False))
    D, pool = [], {'m': [], 'e': []}
    n = rng.choice([1, 2, 3, 4, 6, 9, 12])
    deep = rng.random() < .4
    tall = rng.random() < .05
    if tall:
        n, deep = rng.choice([20, 40, 70]), True

    def name(kind, it_names, prefix):
        if pool[kind] and rng.random() < .25:
            x = rng.choice(pool[kind])
            if x.lower() not in it_names:
                it_names.add(x.lower())
                return x
        x = g.name(prefix)
        if rng.random() < .2:
            y = x + rng.choice(['_OP', '_ERR', '0', '_1', 'Op'])
            if y.lower() not in g.used:
                g.used.add(y.lower())
                x = y
        pool[kind].append(x)
        it_names.add(x.lower())
        return x
    used = {}
    for _ in range(n):
        base = None
        if D and rng.random() < .75:
            base = D[-1].name if deep and rng.random() < .8 else rng.choice(D).name
        it = Iface(g.name('I'), base, [])
        names = set(used.get(base, ()))
        # an inherited interface adds nothing, a little, or a lot
        nm, ne = rng.choice([0, 0, 1, 2, 3, 5, 9]), rng.choice([0, 0, 1, 2, 4])
        if tall:
            nm, ne = rng.choice([0, 0, 1, 1, 2]), rng.choice([0, 0, 1, 1, 2])
        elif rng.random() < (.15 if big else .03):
            nm = rng.choice([17, 64, 130, 260])
        if not tall and rng.random() < .05:
            ne = rng.choice([20, 60, 60, 130, 260, 300])
        mem = [Method(name('m', names, rng.choice(['m', 'get', 'Op'])), [copy.copy(p) for p in rng.choice(SHAPES)], rng.random() < .1,
                      g.gen_doc() if rng.random() < .05 else None) for _ in range(nm)]
        mem += [Err(name('e', names, 'E')) for _ in range(ne)]
        mem += [g.gen_const(None) for _ in range(rng.choice([0, 0, 1, 2]))]
        rng.shuffle(mem)
        it.members = mem
        used[it.name] = names
        D.append(it)
    if rng.random() < .3:
        D.insert(0, g.gen_const(None))
    return g.place(FileSet([File('main.idl', [], D)]))


# ------------------------------------------------------------------ native probes
C_HEAD = r'''
#include <stdio.h>
#include <string.h>
#include <stdint.h>
#include <stdlib.h>
#include "object.h"
static int g_op, g_hit, g_n;
static int32_t rec(ObjectCxt h, ObjectOp op, ObjectArg *a, ObjectCounts k)
{
    (void)h;
    size_t i;
    if (op >= 0xfff0) return 0;
    g_op = (int)op; g_n++;
    for (i = ObjectCounts_numBI(k); i < ObjectCounts_numBI(k) + ObjectCounts_numBO(k); i++) memset(a[i].b.ptr, 0, a[i].b.size);
    for (i = ObjectCounts_indexOO(k); i < ObjectCounts_indexOO(k) + ObjectCounts_numOO(k); i++) a[i].o = Object_NULL;
    return 0;
}
static void drive(const char *itf, Object o, int op, int shape)
{
    ObjectArg a[4]; uint32_t x = 1, y = 0; ObjectCounts k = 0; int32_t r;
    memset(a, 0, sizeof a);
    switch (shape) {
    case 1: case 5: a[0].b.ptr = &x; a[0].b.size = 4; k = ObjectCounts_pack(1, 0, 0, 0); break;
    case 2: a[0].b.ptr = &y; a[0].b.size = 4; k = ObjectCounts_pack(0, 1, 0, 0); break;
    case 3: k = ObjectCounts_pack(0, 0, 1, 0); break;
    case 4: a[0].b.ptr = &x; a[0].b.size = 4; a[1].b.ptr = &y; a[1].b.size = 4; k = ObjectCounts_pack(1, 1, 0, 0); break;
    case 6: k = ObjectCounts_pack(0, 0, 0, 1); break;
    }
    g_hit = -1; g_n = 0;
    r = o.invoke(o.context, (ObjectOp)op, a, k);
    printf("SKEL %s %d %d %d %d\n", itf, op, shape, g_n == 1 ? g_hit : -1 - g_n, (int)r);
}
'''


def script(fs, i, rng):
    """skeleton probes: [(op, shape, expected method or None)]"""
    out, n = [], len(fs.flat_methods(i))
    for op, ow, m in fs.flat_methods(i):
        out.append((op, shape(m), m))
    for op in {n, n + 1, n + rng.randrange(2, 40), 0x3fff, 0x4000, rng.randrange(n, 0xfff0)}:
        if op >= n and op < 0xfff0:
            out.append((op, rng.randrange(len(SHAPES)), None))
    return out


def mids(fs):
    r = {}
    for i in fs.ifaces():
        for _, ow, m in fs.flat_methods(i):
            r.setdefault((ow.name, m.name), len(r))
    return r


C_ARGS = [[], ['uint32_t a0'], ['uint32_t *a0'], ['Object a0'], ['uint32_t a0', 'uint32_t *a1'], ['const void *a0', 'size_t a0_len'], ['Object *a0']]
CPP_ARGS = [[], ['uint32_t a0'], ['uint32_t *a0'], ['const ProxyBase &a0'], ['uint32_t a0', 'uint32_t *a1'], ['const void *a0', 'size_t a0_len'], ['ProxyBase &a0']]
C_BODY = ['', '(void)a0;', '*a0 = 0;', '(void)a0;', '(void)a0; *a1 = 0;', '(void)a0; (void)a0_len;', '*a0 = Object_NULL;']
CPP_BODY = C_BODY[:6] + ['(void)a0;']
C_CALL = ['', 'x', '&y', 'n', 'x, &y', '&x, 4', '&n']
CPP_CALL = ['', 'x', '&y', 'p', 'x, &y', '&x, 4', 'p']


def probe_c(fs, probes, what, cpp):
    ext = 'hpp' if cpp else 'h'
    t = C_HEAD + ''.join('#include "%s.%s"\n' % (f.stem, ext) for f in fs.files) + ''.join('#include "%s_invoke.%s"\n' % (f.stem, ext) for f in fs.files if what['disp'])
    ids, body = mids(fs), []
    for k, i in enumerate(fs.ifaces()):
        for v, ow, e in fs.flat_errors(i):
            n = '%s::%s' % (i.name, e.name) if cpp else '%s_%s' % (i.name, e.name)
            g = '' if cpp or ow is i else '#ifdef %s\n' % n
            body.append('%s    printf("ERR %s %s %%lld\\n", (long long)%s);%s' % (g, i.name, e.name, n, '\n#endif' if g else ''))
        if cpp:
            t += 'struct X%d : %s {\n%s};\n' % (k, i.name, ''.join('    static long long o%d() { return (long long)OP_%s; }\n' % (op, m.name) for op, ow, m in fs.flat_methods(i)))
        for op, ow, m in fs.flat_methods(i):
            n = 'X%d::o%d()' % (k, op) if cpp else '%s_OP_%s' % (i.name, m.name)     # protected in C++
            g = '' if cpp or ow is i else '#ifdef %s\n' % n
            body.append('%s    printf("OP %s %s %%lld\\n", (long long)%s);%s' % (g, i.name, m.name, n, '\n#endif' if g else ''))
            if what['disp']:
                s = shape(m)
                call = ('{ ProxyBase p; %s s_(target); s_.%s(%s); s_.ProxyBase::extract(); p.ProxyBase::extract(); }' % (i.name, m.name, CPP_CALL[s]) if cpp else
                        '{ Object n = Object_NULL; (void)n; %s_%s(%s); }' % (i.name, m.name, ', '.join(x for x in ['target', C_CALL[s]] if x)))
                body.append('    g_n = 0; g_op = -1; %s printf("STUB %s %s %%d\\n", g_n == 1 ? g_op : -1 - g_n);' % (call, i.name, m.name))
        if not what['disp']:
            continue
        if cpp:
            t += 'class Z%d : public %sImplBase {\n  public:\n' % (k, i.name)
            for op, ow, m in fs.flat_methods(i):
                t += '    virtual int32_t %s(%s) override { g_hit = %d; g_n++; %s return 0; }\n' % (m.name, ', '.join(CPP_ARGS[shape(m)]), ids[ow.name, m.name], CPP_BODY[shape(m)])
            t += '    static Object mk() { ImplBase *b = new Z%d; Object o = {ImplBase::invoke, b}; return o; }\n};\n' % k
            mk = 'Z%d::mk()' % k
        else:
            t += 'static int32_t z%d_release(void *me) { (void)me; return 0; }\nstatic int32_t z%d_retain(void *me) { (void)me; return 0; }\n' % (k, k)
            for op, ow, m in fs.flat_methods(i):
                a = ', '.join(['void *me'] + C_ARGS[shape(m)])
                if m.optional:
                    t += 'int32_t z%d_%s(%s);\n' % (k, m.name, a)
                t += '%sint32_t z%d_%s(%s) { (void)me; g_hit = %d; g_n++; %s return 0; }\n' % (
                    '' if m.optional else 'static ', k, m.name, a, ids[ow.name, m.name], C_BODY[shape(m)])
            t += 'static\n%s_DEFINE_INVOKE(z%d_inv, z%d_, void*)\n' % (i.name, k, k)
            mk = '(Object){z%d_inv, 0}' % k
        body.append('    { Object o = %s;' % mk)
        body += ['    drive("%s", o, %d, %d);' % (i.name, op, s) for op, s, _ in probes[i.name]]
        body.append('    }')
    return t + 'int main(void) {\n    Object target = {rec, (ObjectCxt)"x"}; uint32_t x = 1, y = 0; (void)x; (void)y; (void)target; (void)drive;\n' + '\n'.join(body) + '\n    return 0;\n}\n'


R_ARGS = ['', 'a0: u32', '', 'a0: Option<&crate::object::Object>', 'a0: u32', 'a0: &[u8]', '']
R_RET = ['()', '()', 'u32', '()', 'u32', '()', 'Option<crate::object::Object>']
R_VAL = ['()', '()', '0', '()', '0', '()', 'None']
R_CALL = ['', '1', '', 'None', '1', '&[1, 2, 3, 4]', '']


def probe_rust(fs, probes, what, d):
    t = '#![allow(warnings)]\n#[path = "%s/mod.rs"] pub mod object;\npub mod interfaces {\n' % RUNTIME_RS
    for m in sorted(x[:-3] for x in os.listdir(d + '/rust') if x.endswith('.rs')):
        t += '#[path = "%s/rust/%s.rs"] pub mod r#%s;\n' % (d, m, m)
    t += '}\n' + r'''
static mut HIT: i32 = -1; static mut N: i32 = 0; static mut OP: i64 = -1;
#[repr(C)] #[derive(Clone, Copy)] struct Buf { p: *mut u8, n: usize }
#[repr(C)] #[derive(Clone, Copy)] struct Obj { f: usize, c: usize }
#[repr(C)] #[derive(Clone, Copy)] union A { b: Buf, o: Obj }
unsafe extern "C" fn rec(_h: *mut u8, op: u32, a: *mut A, k: u32) -> i32 {
    if op >= 0xfff0 { return 0; }
    OP = op as i64; N += 1;
    let (bi, bo, oi, oo) = ((k & 15) as usize, (k >> 4 & 15) as usize, (k >> 8 & 15) as usize, (k >> 12 & 15) as usize);
    for i in bi..bi + bo { std::ptr::write_bytes((*a.add(i)).b.p, 0, (*a.add(i)).b.n); }
    for i in bi + bo + oi..bi + bo + oi + oo { (*a.add(i)).o = Obj { f: 0, c: 0 }; }
    0
}
unsafe fn drive(itf: &str, o: Obj, op: u32, shape: i32) {
    let mut x = 1u32; let mut y = 0u32; let z = Obj { f: 0, c: 0 };
    let bx = A { b: Buf { p: &mut x as *mut u32 as *mut u8, n: 4 } }; let by = A { b: Buf { p: &mut y as *mut u32 as *mut u8, n: 4 } };
    let mut a = [A { o: z }; 4];
    let k = match shape { 1 | 5 => { a[0] = bx; 1 } 2 => { a[0] = by; 0x10 } 3 => 0x100, 4 => { a[0] = bx; a[1] = by; 0x11 } 6 => 0x1000, _ => 0 };
    HIT = -1; N = 0;
    let f: unsafe extern "C" fn(usize, u32, *mut A, u32) -> i32 = std::mem::transmute(o.f);
    let r = f(o.c, op, a.as_mut_ptr(), k);
    println!("SKEL {} {} {} {} {}", itf, op, shape, if N == 1 { HIT } else { -1 - N }, r);
}
'''
    ids, body = mids(fs), []
    for k, i in enumerate(fs.ifaces()):
        md = 'interfaces::r#%s' % i.name.lower()
        for v, ow, e in fs.flat_errors(i):
            if ow is i:
                body.append('println!("ERR %s %s {}", i32::from(object::Error::from(%s::r#%s)));' % (i.name, e.name, md, e.name.upper()))
        if not what['disp']:
            continue
        for op, ow, m in fs.flat_methods(i):
            body.append('N = 0; OP = -1; let _ = t%d.r#%s(%s); println!("STUB %s %s {}", if N == 1 { OP } else { -1 - N as i64 });' % (k, m.name, R_CALL[shape(m)], i.name, m.name))
        body.insert(len(body) - len(fs.flat_methods(i)), 'let t%d = std::mem::ManuallyDrop::new(std::mem::transmute::<Obj, %s::%s>(Obj { f: rec as usize, c: 8 }));' % (k, md, i.name))
        t += 'struct Z%d;\n' % k
        for y in fs.chain(i):
            ym = 'interfaces::r#%s' % y.name.lower()
            t += 'impl %s::I%s for Z%d {\n' % (ym, y.name, k)
            for m in y.methods:
                s = shape(m)
                t += '    fn r#%s(&mut self%s) -> Result<%s, %s::Error> { unsafe { HIT = %d; N += 1; } Ok(%s) }\n' % (
                    m.name, ', ' + R_ARGS[s] if R_ARGS[s] else '', R_RET[s], ym, ids[y.name, m.name], R_VAL[s])
            t += '}\n'
        body.append('{ let o: Obj = std::mem::transmute(%s::%s::from(Z%d));' % (md, i.name, k))
        body += ['drive("%s", o, %d, %d);' % (i.name, op, s) for op, s, _ in probes[i.name]]
        body.append('}')
    return t + 'fn main() { unsafe {\n' + '\n'.join(body) + '\n} }\n'


def native(binary, fs, lang, cc, what, probes, d):
    src = os.path.join(d, 'src')
    write_set(fs, src)
    bes = {'c': ['c', 'cs'], 'cpp': ['cpp', 'cpps'], 'rust': ['rust']}[lang]
    errs = gen_all(binary, fs, src, d, bes)
    if errs:
        raise RuntimeError('refused %s' % (errs[0],))
    p = d + '/probe' + {'c': '.c', 'cpp': '.cpp', 'rust': '.rs'}[lang]
    if lang == 'rust':
        open(p, 'w').write(probe_rust(fs, probes, what, d))
        cmd = ['rustc', '--edition', '2021', '--cfg', 'feature="std"', '-A', 'warnings', '-C', 'debuginfo=0', p, '-o', d + '/probe']
    else:
        open(p, 'w').write(probe_c(fs, probes, what, lang == 'cpp'))
        comp = {'cpp': {'gcc': 'g++', 'clang': 'clang++'}}.get(lang, {'gcc': 'gcc', 'clang': 'clang'})[cc]
        cmd = [comp, '-w', p, '-o', d + '/probe', '-I', RUNTIME_C, '-I', RUNTIME_CPP, '-include', 'stdint.h'] + [x for b in bes for x in ('-I', os.path.join(d, b))]
        if lang == 'cpp':
            cmd += ['-include', 'cstdint', '-include', 'atomic']
    r = run(cmd, cwd=d, timeout=300)
    if r[0]:
        raise RuntimeError('%s: %s' % (cmd[0], (r[2] or r[1])[:1200]))
    r = run([d + '/probe'], cwd=d, timeout=60)
    if r[0]:
        raise RuntimeError('probe of %s ended with %s %s' % (lang, r[0], r[2][:300]))
    return [x.split() for x in r[1].splitlines()]


JARG = {0: (0, ''), 1: (1, '0 v 01000000 0 0'), 2: (1, '1 v 00000000 4 0'), 3: (1, '0 o - 0 1 1'), 4: (2, '0 v 01000000 0 0 1 v 00000000 4 0'),
        5: (1, '0 b 01020304 4 0'), 6: (1, '1 o - 0 1 2')}


def java_run(binary, fs, java, what, probes, d):
    src = os.path.join(d, 'src')
    write_set(fs, src)
    errs = gen_all(binary, fs, src, d, ['java'])
    if errs:
        raise RuntimeError('refused %s' % (errs[0],))
    r = java.cmd('compile %s %s 0' % (d + '/java', d + '/cls'))
    if ['OK'] not in r:
        diag = [' '.join(x) for x in r if x[:2] == ['DIAG', 'ERROR']]
        if diag and all(x.endswith(('code too large', 'too many constants')) for x in diag) and any(len(fs.flat_methods(i)) > 300 for i in fs.ifaces()):
            return None                # the JVM's own limit on the size of a method or class
        raise RuntimeError('generated Java does not compile: %s' % ' '.join(' '.join(x) for x in r)[:600])
    out = []
    ids = mids(fs)
    for i in fs.ifaces():
        own = {}
        for x in java.cmd('consts ' + i.name):
            if x[0] == 'K':
                own[x[1]] = x[3]
        for v, ow, e in fs.flat_errors(i):
            n = '%s_%s' % (i.name, e.name)
            if n not in own:
                n = '%s_%s' % (i.name, e.name.upper())       # Java output spells error names in upper case
            if n in own or ow is i:
                out.append(['ERR', i.name, e.name, own.get(n, 'missing')])
        for op, ow, m in fs.flat_methods(i):
            n = '%s_OP_%s' % (i.name, m.name)
            if n in own or ow is i:
                out.append(['OP', i.name, m.name, own.get(n, 'missing')])
            if what['disp']:
                s = shape(m)
                bo, oo = (1, '00000000') if s in (2, 4) else (0, ''), (1, '1') if s == 6 else (0, '')
                rr = java.cmd('proxy %s %s 0 %d %s %d %s %d %s' % (i.name, m.name, bo[0], bo[1], oo[0], oo[1], JARG[s][0], JARG[s][1]))
                w = [x for x in rr if x[0] == 'W']
                out.append(['STUB', i.name, m.name, w[0][1] if len(w) == 1 else 'x%d %s' % (len(w), rr)])
        if not what['disp']:
            continue
        for op, s, m in probes[i.name]:
            k = COUNTS[s]
            rr = java.cmd('skel %s x 1 %d 0 0 x %d %s %d %s %d %d %s %d 1 %d %s' % (
                i.name, op, k[0], '01000000 ' * k[0], k[1], '4 ' * k[1], k[1], k[2], '1 ' * k[2], k[3], JARG[s][0], JARG[s][1]))
            hit = [x[1] for x in rr if x[0] == 'I']
            st = [x[1] for x in rr if x[0] == 'R']
            hid = str(-1 - len(hit))
            if len(hit) == 1:
                hid = str([ids[ow.name, mm.name] for _, ow, mm in fs.flat_methods(i) if mm.name == hit[0]][0])
            out.append(['SKEL', i.name, str(op), str(s), hid, st[0] if st else 'none %s' % rr])
    return out


def judge(fs, lang, lines, what, probes):
    """-> [(property, text)]"""
    bad, ids = [], mids(fs)
    exp = {}
    for i in fs.ifaces():
        for op, ow, m in fs.flat_methods(i):
            exp['OP', i.name, m.name] = exp['STUB', i.name, m.name] = (op, ow is i)
        for v, ow, e in fs.flat_errors(i):
            exp['ERR', i.name, e.name] = (v, ow is i)
    seen = set()
    for ln in lines:
        if ln[0] == 'SKEL':
            op, s, hit, st = int(ln[2]), int(ln[3]), int(ln[4]), ln[5]
            seen.add(('SKEL', ln[1], op))
            m = [(ow, mm) for o, ow, mm in fs.flat_methods(fs.iface(ln[1])) if o == op]
            if m:
                if hit != ids[m[0][0].name, m[0][1].name] or st != '0':
                    bad.append(('C07', '%s skeleton of %s served op %d with %s (status %s) instead of %s' % (
                        lang, ln[1], op, [k for k, v in ids.items() if v == hit] or hit, st, m[0][1].name)))
            elif hit != -1 or st == '0':
                bad.append(('C07', '%s skeleton of %s served unknown op %d (%s, status %s)' % (lang, ln[1], op, [k for k, v in ids.items() if v == hit] or hit, st)))
            continue
        k = tuple(ln[:3])
        seen.add(k)
        want = exp[k][0]
        if ln[3] != str(want):
            bad.append(('C08' if k[0] == 'ERR' else 'C07', '%s: %s of %s.%s is %s instead of %d' % (
                lang, {'ERR': 'error value', 'OP': 'op-code constant', 'STUB': 'op-code sent by the stub'}[k[0]], k[1], k[2], ' '.join(ln[3:])[:200], want)))
    for k, (v, own) in exp.items():
        if k in seen or (k[0] == 'OP' and lang == 'rust') or (k[0] == 'STUB' and not what['disp']) or not own:
            continue
        bad.append(('C08' if k[0] == 'ERR' else 'C07', '%s: %s of %s.%s cannot be read' % (lang, k[0], k[1], k[2])))
    if what['disp']:
        for i in fs.ifaces():
            for op, s, m in probes[i.name]:
                if ('SKEL', i.name, op) not in seen:
                    bad.append(('C07', '%s skeleton of %s was not probed with op %d' % (lang, i.name, op)))
    return bad


def check_set(binary, fs, lang, cc, what, seed, java=None):
    """-> (bad list, number of facts)"""
    rng = random.Random(seed)
    probes = {i.name: script(fs, i, rng) for i in fs.ifaces()}
    with scratchdir() as d:
        try:
            lines = java_run(binary, fs, java, what, probes, d) if lang == 'java' else native(binary, fs, lang, cc, what, probes, d)
        except RuntimeError as e:
            if 'host JVM' in str(e):
                raise
            return [('C07', str(e)), ('C08', str(e))], 0
    if lines is None:
        return [], 0
    return judge(fs, lang, lines, what, probes), len(lines)


def worker(arg):
    prop, seed, wid, t_end, binary, cp, maxb = arg
    rng = random.Random('%s/%d/%d' % (prop, seed, wid))
    java = Java(cp)
    what = {'disp': prop == 'C07'}
    out = {'viol': [], 'facts': 0, 'cases': [], 'samples': [], 'stats': {}}
    b = 0
    try:
        while time.time() < t_end and b < maxb and len(out['viol']) < 2:
            b += 1
            fs = gen_set(rng, b % 4 == 0)
            txt = '\n'.join(print_file(f) for f in fs.files)
            for lang in ('c', 'cpp', 'rust', 'java'):
                if time.time() > t_end:
                    break
                cc, sd = rng.choice(['gcc', 'clang']), rng.randrange(10 ** 9)
                bad, n = check_set(binary, fs, lang, cc, what, sd, java)
                out['facts'] += n
                out['stats'][lang] = out['stats'].get(lang, 0) + n
                for i in fs.ifaces():
                    fl = fs.flat_methods(i) if prop == 'C07' else fs.flat_errors(i)
                    if fl and (len(fs.chain(i)) > 1 or len(fl) > 1):
                        out['cases'].append(lang + i.name + repr([(v, o.name, x.name) for v, o, x in fl]))
                bad = [w for p, w in bad if p == prop]
                if bad:
                    out['viol'].append((lang, cc, sd, to_json(fs), bad))
                    break
            if len(out['samples']) < 1 and fs.ifaces():
                i = max(fs.ifaces(), key=lambda x: len(fs.chain(x)))
                out['samples'].append({'chain': [x.name for x in fs.chain(i)], 'numbers': [(v, o.name, x.name) for v, o, x in (
                    fs.flat_methods(i) if prop == 'C07' else fs.flat_errors(i))][:12]})
    finally:
        java.stop()
    return out


def main(prop, rule, quick_s, thorough_s, pre=None):
    c = Check(prop)
    binary = build_idlc()
    cp = build_host()
    if pre:
        pre(c, binary)
    t_end = c.t0 + (quick_s if c.quick else thorough_s)
    with mp.get_context('fork').Pool(JOBS) as pool:
        res = pool.map(worker, [(prop, c.seed * 13 + (0 if c.quick else 5), w, t_end, binary, cp, 60 if c.quick else 10 ** 6) for w in range(JOBS)], chunksize=1)
    seen = set()
    for r in res:
        c.evals += r['facts']
        for k in r['cases']:
            c.case(k, True, n=0)
        for k, v in r['stats'].items():
            c.count('facts_' + k, v)
        c.samples += r['samples']
        for lang, cc, sd, fsj, bad in r['viol']:
            sig = lang + ':' + bad[0].split(':')[0].split(' of ')[0][:40]
            if sig in seen or len(seen) > 3:
                continue
            seen.add(sig)
            java = Java(cp)
            what = {'disp': prop == 'C07'}

            def fails(x):
                return any(p == prop for p, _ in check_set(binary, x, lang, cc, what, sd, java)[0])
            sm = shrink.shrink(from_json(fsj), fails, 45)
            bad = [w for p, w in check_set(binary, sm, lang, cc, what, sd, java)[0] if p == prop] or bad
            java.stop()
            c.violation(sig, '; '.join(bad[:4]) + '\n' + '\n'.join(print_file(f) for f in sm.files), {'fs': to_json(sm), 'lang': lang, 'cc': cc, 'seed': sd})
    return c.finish(rule)


def replay(prop, d):
    binary = build_idlc()
    java = Java(build_host())
    try:
        bad = [w for p, w in check_set(binary, from_json(d['fs']), d['lang'], d['cc'], {'disp': prop == 'C07'}, d['seed'], java)[0] if p == prop]
    finally:
        java.stop()
    print('\n'.join(bad))
    return 1 if bad else 0
