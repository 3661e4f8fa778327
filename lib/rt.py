"""Runtime engine for C01-C05: builds batches of generated stubs/skeletons, runs scripted calls, compares with the reference."""
import json, os, random, shutil, struct as _st
from common import *
from model import *
from emit import Emit, HOST_H
from gen import Gen, Cfg

STUBS = ['c', 'cpp', 'rust', 'cn']
SKELS = ['c', 'cpp', 'rust', 'csn']
CW = ['-w']
M_DIRECT, M_NULLEMPTY, M_GUARD, M_FAILOO, M_ALIGN1 = 1, 2, 4, 8, 16


class Fail(Exception):
    """a generated file set which does not compile / is refused: not this engine's subject unless asked"""


def build(binary, fs, d, opts=None):
    """-> (exe, Emit).  opts: cc ('clang'|'gcc'), opt ('-O0'..), san (bool)"""
    opts = dict({'cc': 'clang', 'opt': '-O0', 'san': False}, **(opts or {}))
    src = os.path.join(d, 'src')
    write_set(fs, src)
    errs = gen_all(binary, fs, src, d, ['c', 'cs', 'cpp', 'cpps', 'rust', 'cn', 'csn'])
    if errs:
        raise Fail('idlc: %s' % (errs[0],))
    e = Emit(fs)
    W = lambda n, t: open(os.path.join(d, n), 'w').write(t)
    W('host.h', HOST_H)
    W('u_c.c', e.c_unit(tag='c'))
    W('u_cn.c', e.c_unit(typed=False, tag='cn').replace('mk_cn', 'mk_csn'))
    W('u_cpp.cpp', e.cpp_unit())
    W('glue.rs', e.r_unit())
    W('lib.rs', e.r_lib(os.path.join(d, 'rust')))
    W('tables.c', e.tables(STUBS, SKELS))
    cc, cxx = (('clang', 'clang++') if opts['cc'] == 'clang' else ('gcc', 'g++'))
    san = ['-fsanitize=address,undefined', '-fno-sanitize=alignment', '-fno-sanitize-recover=all'] if opts['san'] else []
    com = [opts['opt'], '-w', '-I', d, '-I', RUNTIME_C, '-I', RUNTIME_CPP] + san
    jobs = [
        [cc, '-c', 'u_c.c', '-o', 'u_c.o', ] + hdr_dirs(fs, d, ['c', 'cs']) + com,
        [cc, '-c', 'u_cn.c', '-o', 'u_cn.o', ] + hdr_dirs(fs, d, ['cn', 'csn']) + com,
        [cxx, '-c', 'u_cpp.cpp', '-o', 'u_cpp.o', '-include', 'cstdint', '-include', 'atomic'] + hdr_dirs(fs, d, ['cpp', 'cpps']) + com,
        [cc, '-c', 'tables.c', '-o', 'tables.o'] + com,
        [cc, '-c', os.path.join(VERIF, 'rt/native/host.c'), '-o', 'host.o'] + com,
        ['rustc', '--edition', '2021', '--cfg', 'feature="std"', '-A', 'warnings', '-C', 'debuginfo=0', '-C', 'embed-bitcode=no',
         'lib.rs', '-o', 'libr.a'] + (['-C', 'opt-level=2'] if opts['opt'] != '-O0' else []),
    ]
    jobs.append([cxx, 'u_c.o', 'u_cn.o', 'u_cpp.o', 'tables.o', 'host.o', 'libr.a', '-o', 'exe', '-lpthread', '-ldl', '-lm'] + san)
    for j in jobs:
        r = run(j, cwd=d, timeout=300)
        if r[0] != 0:
            raise Fail('%s: %s' % (' '.join(j[:4]), (r[2] or r[1])[-3000:]))
    return os.path.join(d, 'exe'), e


# ------------------------------------------------------------------ values
def rbytes(rng, n):
    r = rng.random()
    if r < .08:
        return b'\0' * n
    if r < .16:
        return b'\xff' * n
    if r < .24:
        return bytes((i * 7 + 1) & 255 for i in range(n))
    return rng.randbytes(n)


class Call:
    """one scripted call with its expected observations"""

    def __init__(self, fs, iface, op, owner, m, mid):
        self.fs, self.iface, self.op, self.owner, self.m, self.mid = fs, iface, op, owner, m, mid
        self.ins, self.outs = {}, {}     # idx -> (bytes, len, objs)
        self.cap = {}                    # idx -> elements
        self.status = 0

    def nobj(self, p):
        k = self.fs.kind(p)
        return {'obj': 1, 'objarr': p.arr}.get(k, len(self.fs.objects_in(p.type)) if k in ('small', 'big') else 0)

    def blank(self, p, b):
        b = bytearray(b)
        for _, off, _ in self.fs.objects_in(p.type):
            b[off:off + 16] = b'\0' * 16
        return bytes(b)

    def randomise(self, rng, obj_pool=12, fail=.12):
        fs = self.fs
        lens = [0, 0, 1, 1, 2, 3, 4, 5, 8, 17]
        pool = list(range(obj_pool))
        few = pool[:rng.choice([1, 2, obj_pool])]      # aliasing

        def oid():
            return -1 if rng.random() < .15 else rng.choice(few)
        for k, p in enumerate(self.m.params):
            kd, e = fs.kind(p), 0
            if kd in ('prim', 'small', 'big'):
                n = fs.elem_size(p)
                b = rbytes(rng, n)
                if kd != 'prim':
                    b = self.blank(p, b)
                v = (b, 0, [oid() for _ in range(self.nobj(p))])
            elif kd in ('buf', 'sbuf'):
                e = fs.elem_size(p)
                ln = rng.choice(lens)
                if rng.random() < .03:
                    ln = rng.choice([255, 256, 1000])
                while ln * e > 20000:
                    ln //= 2
                if rng.random() < (.05 if kd == 'sbuf' else .015):
                    huge = [n for n in (32768, 65535, 65536, 65537, 65537 + rng.randrange(6000)) if n * e <= 1200000]
                    if huge and not any(v[1] > 9999 for v in list(self.ins.values()) + list(self.outs.values())):
                        ln = rng.choice(huge)
                if p.dir == 'in':
                    v = (rbytes(rng, ln * e), ln, [])
                else:
                    self.cap[k] = ln
                    lo = rng.choice([ln, ln, 0, rng.randint(0, ln)])
                    v = (rbytes(rng, lo * e), lo, [])
            else:
                v = (b'', 0, [oid() for _ in range(self.nobj(p))])
            (self.ins if p.dir == 'in' else self.outs)[k] = v
        r = rng.random()
        if r < fail:
            self.status = rng.choice([1, 2, 3, 4, 5, 9, 10, 11, 77, 127, 128, 255, 256, 32767, 65536, 2 ** 31 - 1, -1, -90, -104, -2 ** 31])
        return self

    def params_script(self):
        fs, L = self.fs, [str(len(self.m.params))]
        for k, p in enumerate(self.m.params):
            kd = fs.kind(p)
            e = fs.elem_size(p) if kd in ('buf', 'sbuf') else 0
            n = self.nobj(p)
            if p.dir == 'in':
                b, ln, objs = self.ins[k]
                L.append('0 %d %d %d %s %d %s - 0 0' % (len(b), e, ln, b.hex() or '-', n, ' '.join(map(str, objs))))
            else:
                b, lo, objs = self.outs[k]
                if kd in ('buf', 'sbuf'):
                    L.append('1 %d %d %d - 0 %s %d 0' % (self.cap[k] * e, e, self.cap[k], b.hex() or '-', lo))
                else:
                    sz = fs.elem_size(p) if kd in ('prim', 'small', 'big') else 0
                    L.append('1 %d 0 0 - %d %s %s 0 %d %s' % (sz, n, ' '.join(['-1'] * n), b.hex() or '-', n, ' '.join(map(str, objs))))
        return '\n'.join(L)

    # ---- reference encoding
    def enc_slot(self, slot, vals):
        if slot[0] == 'bundle':
            return b''.join(vals[i][0] for i, _ in slot[1])
        return vals[slot[1]][0]

    def request(self):
        w = self.fs.wire(self.m)
        bi = [self.enc_slot(s, self.ins) for s in w['BI']]
        bo = []
        for s in w['BO']:
            bo.append(sum(n for _, n in s[1]) if s[0] == 'bundle' else s[2] if s[0] == 'fixed' else self.cap[s[1]] * s[2])
        oi = [self.ins[i][2][j] for i, j in w['OI']]
        return bi, bo, oi, len(w['OO'])

    def reply(self):
        w = self.fs.wire(self.m)
        return [self.enc_slot(s, self.outs) for s in w['BO']], [self.outs[i][2][j] for i, j in w['OO']]

    def counts_word(self):
        a, b, c, d = self.fs.counts(self.m)
        return a | b << 4 | c << 8 | d << 12

    def to_json(self):
        f = lambda v: {str(k): [b.hex(), l, o] for k, (b, l, o) in v.items()}
        return {'iface': self.iface.name, 'method': self.m.name, 'ins': f(self.ins), 'outs': f(self.outs),
                'cap': {str(k): v for k, v in self.cap.items()}, 'status': self.status}


def call_from_json(fs, e, j):
    for (i, op, ow, m) in e.entries:
        if i.name == j['iface'] and m.name == j['method']:
            c = Call(fs, i, op, ow, m, e.mids[ow.name, m.name])
            g = lambda v: {int(k): (bytes.fromhex(b), l, o) for k, (b, l, o) in v.items()}
            c.ins, c.outs, c.cap, c.status = g(j['ins']), g(j['outs']), {int(k): v for k, v in j['cap'].items()}, j['status']
            return c
    return None


def parse_log(text):
    """-> {case id: [steps]}, each step a list of (tag, fields)"""
    cases, cur, step = {}, None, None
    for ln in text.split('\n'):
        t = ln.split(' ')
        if t[0] == 'case':
            cur = cases[int(t[1])] = []
            step = []
            cur.append(step)
        elif t[0] == 'done':
            cases['done'] = True
        elif cur is not None and t[0]:
            step.append((t[0], t[1:]))
            if t[0] == 'E':
                step = []
                cur.append(step)
    return cases


def verify_served(call, g, R, entered, implemented=True):
    """what the skeleton handed to the implementation and sent back"""
    fs, m, bad = call.fs, call.m, []
    exp_status = call.status if implemented else 2
    if not implemented:
        if entered:
            bad.append(('C04', 'another implementation function was called for an unimplemented optional method'))
        if R != 2:
            bad.append(('C04', 'unimplemented optional method answered with %s' % R))
        return bad
    if entered != 1:
        return [('C01,C02', 'the implementation was entered %d times (status %s)' % (entered, R))]
    im = g['I'][0]
    if int(im[0]) != call.mid:
        return [('C01,C02', 'method %s was served instead of %s' % (im[0], call.mid))]
    if 'N' in g:
        bad.append(('C01', 'argument number'))
    for f in g.get('i', []):
        idx = int(f[0])
        p = m.params[idx]
        ln = int(f[3])
        kd = fs.kind(p)
        if p.dir == 'in':
            b, l, objs = call.ins[idx]
            if kd in ('buf', 'sbuf') and ln != l:
                bad.append(('C01', 'implementation got length %d instead of %d for input %d' % (ln, l, idx)))
            elif f[4] != (b.hex() or '-'):
                bad.append(('C01', 'implementation got %s instead of %s for input %d' % (f[4], b.hex(), idx)))
            got = list(map(int, f[6:]))
            if got != objs:
                bad.append(('C01', 'implementation got objects %s instead of %s for input %d' % (got, objs, idx)))
        elif kd in ('buf', 'sbuf') and ln != call.cap[idx]:
            bad.append(('C01', 'implementation got capacity %d instead of %d for output %d' % (ln, call.cap[idx], idx)))
    if R != exp_status:
        bad.append(('C01', 'skeleton returned %s instead of %s' % (R, exp_status)))
    elif exp_status == 0:
        rbo, roo = call.reply()
        got = [(int(a[0]), a[1]) for a in g.get('bo', [])]
        if [x[0] for x in got] != [len(b) for b in rbo]:
            bad.append(('C03', 'reply buffer sizes %s instead of %s' % ([x[0] for x in got], [len(b) for b in rbo])))
        elif [x[1] for x in got] != [b.hex() or '-' for b in rbo]:
            bad.append(('C03', 'reply buffers %s instead of %s' % ([x[1] for x in got], [b.hex() for b in rbo])))
        goo = [int(a[0]) for a in g.get('oo', [])]
        if goo != roo:
            bad.append(('C02,C03', 'output objects %s instead of %s' % (goo, roo)))
    return bad


def verify_ledger(g, status):
    bad = []
    for f in g.get('L', []):
        i, net, mn, oth = map(int, f)
        if net:
            bad.append(('C05', 'object %d: marshalling left %+d reference(s) (status %s)' % (i, net, status)))
        elif mn < 0:
            bad.append(('C05', 'object %d was released while only borrowed' % i))
        if oth:
            bad.append(('C05', 'object %d was invoked by marshalling' % i))
    if 'T' in g:
        bad.append(('C05', 'the stub changed the reference count of its own target %s' % g['T']))
    return bad


def group(step):
    g = {}
    for t, f in step:
        g.setdefault(t, []).append(f)
    return g


def crashed(g):
    c = g.get('SIG') or g.get('EXIT')
    return (('signal ' if 'SIG' in g else 'exit status ') + c[0][0]) if c else None


def verify_raw_ok(call, step, implemented=True):
    """a reference-encoded request sent straight to a skeleton"""
    g = group(step)
    c = crashed(g)
    if c:
        return [('C01,C02,C03,C04,C05', 'the skeleton crashed (%s) on a reference-encoded request' % c)]
    R, entered = int(g['R'][0][0]), int(g['Q'][0][0])
    return verify_served(call, g, R, entered, implemented) + verify_ledger(g, R)


def verify_refused(step, exact=None):
    """an invocation the skeleton must refuse"""
    g = group(step)
    c = crashed(g)
    if c:
        return [('C04', 'the skeleton crashed (%s) on an invocation it must refuse' % c)]
    R, entered = int(g['R'][0][0]), int(g['Q'][0][0])
    bad = []
    if entered:
        bad.append(('C04', 'the implementation was called (status %d)' % R))
    if exact is not None and R != exact:
        bad.append(('C04', 'status %d instead of %d' % (R, exact)))
    elif not 1 <= R < 10:
        bad.append(('C04', 'status %d is not a non-zero generic error' % R))
    for x in g.get('K', []):
        bad.append(('C04', 'memory %s buffer %s was written' % (x[0], x[1])))
    for f in g.get('L', []):
        bad.append(('C04', 'object %s retained/released by a refused invocation (net %s)' % (f[0], f[1])) if f[1] != '0' else ('', ''))
    return [b for b in bad if b[0]]


def verify_call(call, step, sbe, kbe, implemented=True):
    """-> list of (property, what) for one call step"""
    fs, m = call.fs, call.m
    bad = []
    g = group(step)
    if crashed(g):
        where = 'in the skeleton' if 'W' in g and 'R' not in g else 'in the stub'
        return [('C01,C02,C03,C04,C05', 'call crashed (%s) %s' % (crashed(g), where))]
    bi, bo, oi, noo = call.request()
    # ---- envelope
    if len(g.get('W', [])) != 1:
        return [('C01,C02', 'the stub issued %d invocations' % len(g.get('W', [])))]
    op, k = map(int, g['W'][0])
    if op != call.op:
        bad.append(('C02', 'op-code %d instead of %d' % (op, call.op)))
    if k != call.counts_word():
        bad.append(('C02,C03', 'counts word 0x%x instead of 0x%x' % (k, call.counts_word())))
    else:
        got = [(int(a[0]), a[1]) for a in g.get('BI', [])]
        if [x[0] for x in got] != [len(b) for b in bi]:
            bad.append(('C02,C03',
                        'input buffer sizes %s instead of %s' % ([x[0] for x in got], [len(b) for b in bi])))
        elif [x[1] for x in got] != [b.hex() or '-' for b in bi]:
            bad.append(('C03', 'input buffers %s instead of %s' % ([x[1] for x in got], [b.hex() for b in bi])))
        gbo = [int(a[0]) for a in g.get('BO', [])]
        if gbo != bo:
            bad.append(('C02,C03', 'output buffer sizes %s instead of %s' % (gbo, bo)))
        goi = [int(a[0]) for a in g.get('OI', [])]
        if goi != oi:
            bad.append(('C02,C03', 'input objects %s instead of %s' % (goi, oi)))
    for x in g.get('X', []):
        bad.append(('C01', 'the call modified the caller\'s input argument %s' % x[0]))
    for x in g.get('K', []):
        bad.append(('C04', 'memory next to buffer %s was written' % x))
    R = int(g['R'][0][0]) if 'R' in g else None
    S = int(g['S'][0][0])
    entered = int(g['S'][0][1])
    exp_status = call.status if implemented else 2
    served = verify_served(call, g, R, entered, implemented)
    bad += served
    if implemented and entered == 1:
        if S != exp_status:
            bad.append(('C01', 'stub returned %s instead of %s' % (S, exp_status)))
    elif S != R:
        bad.append(('C01', 'stub returned %s instead of %s' % (S, R)))
    if exp_status == 0 and implemented:
        for f in g.get('o', []):
            idx = int(f[0])
            p = m.params[idx]
            b, l, objs = call.outs[idx]
            kd = fs.kind(p)
            if kd in ('buf', 'sbuf') and int(f[1]) != l:
                bad.append(('C01', 'caller got output length %s instead of %d for output %d' % (f[1], l, idx)))
            elif f[2] != (b.hex() or '-'):
                bad.append(('C01', 'caller got %s instead of %s for output %d' % (f[2], b.hex(), idx)))
            if list(map(int, f[4:])) != objs:
                bad.append(('C01', 'caller got objects %s instead of %s for output %d' % (f[4:], objs, idx)))
    return bad + verify_ledger(g, S)


class Run:
    """a built batch plus its script"""

    def __init__(self, binary, fs, d, opts=None):
        self.fs, self.d, self.opts = fs, d, opts or {}
        self.exe, self.e = build(binary, fs, d, opts)
        self.items = []

    def add_call(self, sbe, ent, kbe, sk, mode, call):
        self.items.append([('call', sbe, ent, kbe, sk, mode, call)])

    def raw_script(self, kbe, sk, op, counts, mode, status, bi, bo, oi, oo, params):
        """counts: packed word sent; bi: list of bytes; bo: sizes; oi: object ids; oo: number"""
        L = ['raw %d %d %d %d %d %d %d %d %d %d' % (SKELS.index(kbe), sk, op, counts, mode, status, len(bi), len(bo), len(oi), oo)]
        L.append(' '.join([b.hex() or '-' for b in bi] + [str(x) for x in bo] + [str(x) for x in oi]))
        L.append(params)
        return '\n'.join(L)

    def script(self):
        out = []
        for cid, steps in enumerate(self.items):
            out.append('case %d' % cid)
            for s in steps:
                if s[0] == 'call':
                    _, sbe, ent, kbe, sk, mode, call = s
                    out.append('call %d %d %d %d %d %d' % (STUBS.index(sbe), ent, SKELS.index(kbe), sk, mode, call.status))
                    out.append(call.params_script())
                else:
                    out.append(s[1])
            out.append('end')
        return '\n'.join(out) + '\n'

    def execute(self, timeout=300):
        with open(os.path.join(self.d, 'script'), 'w') as f:
            f.write(self.script())
        env = dict(ENV, ASAN_OPTIONS='detect_leaks=0:abort_on_error=0:exitcode=66:handle_segv=1', UBSAN_OPTIONS='halt_on_error=1:exitcode=67')
        rc, o, err = run([self.exe, 'script'], cwd=self.d, timeout=timeout, env_=env, stack_mb=512)
        self.stderr = err
        log = parse_log(o)
        if 'done' not in log:
            raise RuntimeError('host did not finish: rc=%s %s' % (rc, err[-2000:]))
        return log


def cfg_rt(rng, small=False):
    r = rng.random()
    return Cfg(files=(1, 3), structs=(2, 7), ifaces=(2, 4), methods=(2, 5), params=(0, 8 if r < .7 else 14), consts=(0, 1), errors=(0, 1),
               depth=4, docs=.03, optional=.12, obj_structs=rng.random() < .75, obj_struct_arrays=rng.random() < .6, hostile=rng.choice([0, 0, .25]),
               big_arrays=.02 if rng.random() < .2 else 0, order='shuffle', place='layered',
               wide=.05, dirs=.25)


def trim(fs, per_method=60000, per_iface=400000):
    """bounds the fixed-size data a method/interface carries (drivers keep every argument on the stack)"""
    for i in fs.ifaces():
        left = per_iface
        for m in i.methods:
            tot = 0
            for p in list(m.params):
                if fs.kind(p) in ('small', 'big'):
                    n = fs.elem_size(p)
                    if tot + n > per_method or n > left:
                        m.params.remove(p)
                    else:
                        tot += n
                        left -= n
    return fs


def rand_opts(rng, san=.2):
    s = rng.random() < san
    return {'cc': 'clang' if s else rng.choice(['clang', 'clang', 'gcc']), 'opt': rng.choice(['-O0', '-O0', '-O2']), 'san': s}


def plan_calls(run_, rng, n, mode_fn=None, fail=.12):
    e, fs = run_.e, run_.fs
    if not e.entries:
        return
    order = list(range(len(e.entries)))
    pairs = [(a, b) for a in STUBS for b in SKELS]
    rng.shuffle(order)
    for t in range(n):
        ent = order[t % len(order)]
        i, op, ow, m = e.entries[ent]
        sbe, kbe = pairs[rng.randrange(len(pairs))]
        # typed C and untyped C are the same wire: prefer the three languages
        if sbe == 'cn' and rng.random() < .5:
            sbe = rng.choice(STUBS[:3])
        if kbe == 'csn' and rng.random() < .5:
            kbe = rng.choice(SKELS[:3])
        ds = e.desc(i)
        sks = [k for k, (y, full) in enumerate(e.skels) if y in ds and (full or rng.random() < .5)]
        sk = rng.choice(sks)
        call = Call(fs, i, op, ow, m, e.mids[ow.name, m.name]).randomise(rng, fail=fail)
        if mode_fn:
            mode = mode_fn(rng, run_, kbe)
        else:
            mode = rng.choice([0, 0, M_NULLEMPTY, M_DIRECT, M_DIRECT | M_NULLEMPTY])
            if not run_.opts.get('san'):
                mode |= rng.choice([0, M_GUARD])
                if kbe != 'rust' and mode & M_GUARD and rng.random() < .5:
                    mode |= M_ALIGN1
            mode |= rng.choice([0, M_FAILOO])
        run_.add_call(sbe, ent, kbe, sk, mode, call)


def implemented(e, sk, m):
    return e.skels[sk][1] or not m.optional
