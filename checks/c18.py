"""C18: Java proxies and skeletons agree with each other and with the wire model."""
import multiprocessing as mp
from common import *
from model import *
from gen import Gen, Cfg
from emit import Emit
from javart import Java, build_host, args_script, jkind
from rt import Call, call_from_json, trim
import shrink

RULE = ('case = one Java call: proxy over a copying transport into the generated skeleton, proxy against a reference-encoded reply, or reference-encoded request '
        'sent to the skeleton; argument arrays, boSizes, objects, decoded values and replies are compared with the reference wire model of the C family; '
        'non-trivial = the method has parameters; distinct by IDL method, mode and values')


def gen_set(rng):
    cfg = Cfg(files=(1, 3), structs=(1, 6), ifaces=(2, 4), methods=(2, 5), params=(0, rng.choice([6, 9, 14])), consts=(0, 1), errors=(0, 1), depth=4, docs=.03,
              optional=.12, obj_structs=False, java=True, order='shuffle', place='layered', hostile=rng.choice([0, 0, .3]), small_bias=rng.choice([0, 0, .4, .7]),
              fill=.05, big_arrays=.02)
    return trim(Gen(rng, cfg).fileset(), 3000)


def build(binary, fs, d, java):
    src = os.path.join(d, 'src')
    write_set(fs, src)
    errs = gen_all(binary, fs, src, d, ['java'])
    if errs:
        return 'refused: %s' % (errs[0],)
    r = java.cmd('compile %s %s 0' % (d + '/java', d + '/cls'))
    if ['OK'] not in r:
        return 'generated Java does not compile: %s' % ' '.join(' '.join(x) for x in r)[:600]
    return None


def group(lines):
    g = {}
    for l in lines:
        g.setdefault(l[0], []).append(l[1:])
    return g


def check_request(call, g):
    bi, bo, oi, noo = call.request()
    bad = []
    if len(g.get('W', [])) != 1:
        return ['the proxy issued %d invocations %s' % (len(g.get('W', [])), g.get('THROW', ''))]
    w = list(map(int, g['W'][0]))
    if w[0] != call.op:
        bad.append('op-code %d instead of %d' % (w[0], call.op))
    if w[1:] != [len(bi), len(bo), len(bo), len(oi), noo]:
        bad.append('argument counts (bi, boSizes, bo, oi, oo) %s instead of %s' % (w[1:], [len(bi), len(bo), len(bo), len(oi), noo]))
    else:
        got = [x[0] for x in g.get('BI', [])]
        if got != [b.hex() or '-' for b in bi]:
            bad.append('input buffers %s instead of %s' % (got, [b.hex() for b in bi]))
        if [int(x[0]) for x in g.get('BO', [])] != bo:
            bad.append('output buffer sizes %s instead of %s' % (g.get('BO'), bo))
        if [x[0] for x in g.get('OI', [])] != [str(x) for x in oi]:
            bad.append('input objects %s instead of %s' % (g.get('OI'), oi))
    return bad


def check_served(call, g, R):
    fs, m, bad = call.fs, call.m, []
    if len(g.get('I', [])) != 1:
        return ['the implementation was entered %d times (status %s) %s' % (len(g.get('I', [])), R, g.get('THROW', ''))]
    if g['I'][0][0] != m.name:
        bad.append('method %s was served instead of %s' % (g['I'][0][0], m.name))
    seen = {int(x[0]): x[1:] for x in g.get('i', [])}
    for k, p in enumerate(m.params):
        kd, f = jkind(fs, p), seen.get(k)
        if f is None:
            if p.dir == 'in' or kd in 'bO':
                bad.append('argument %d missing' % k)
            continue
        if p.dir == 'in':
            b, ln, objs = call.ins[k]
            want = ['1', b.hex() or '-'] if kd == 'v' else [str(ln), b.hex() or '-'] if kd == 'b' else [kd] + [str(x) for x in objs]
        elif kd == 'b':
            want = ['c', str(call.cap[k])]
        elif kd == 'O':
            want = ['c', str(p.arr)]
        else:
            continue
        if f != want:
            bad.append('implementation got %s instead of %s for argument %d' % (f, want, k))
    if R != call.status:
        bad.append('skeleton status %s instead of %s' % (R, call.status))
    elif R == 0:
        rbo, roo = call.reply()
        if [x[0] for x in g.get('bo', [])] != [b.hex() or '-' for b in rbo]:
            bad.append('reply buffers %s instead of %s' % (g.get('bo'), [b.hex() for b in rbo]))
        if [x[0] for x in g.get('oo', [])] != [str(x) for x in roo]:
            bad.append('output objects %s instead of %s' % (g.get('oo'), roo))
    return bad


def check_result(call, g):
    fs, m, bad = call.fs, call.m, []
    if g.get('S') != [[str(call.status)]]:
        return ['proxy reported %s instead of %s %s' % (g.get('S'), call.status, g.get('THROW', ''))]
    for x in g.get('X', []):
        bad.append('input argument %s was modified' % x[0])
    if call.status:
        return bad
    seen = {int(x[0]): x[1:] for x in g.get('o', [])}
    for k, p in enumerate(m.params):
        if p.dir == 'in':
            continue
        kd = jkind(fs, p)
        b, ln, objs = call.outs[k]
        want = ['1', b.hex() or '-'] if kd == 'v' else [str(ln), b.hex() or '-'] if kd == 'b' else [kd] + [str(x) for x in objs]
        if seen.get(k) != want:
            bad.append('caller got %s instead of %s for output %d' % (seen.get(k), want, k))
    return bad


def script(case):
    """case: (mode, proxy iface name, skeleton iface name, call, missing)"""
    mode, pc, kc, call, missing = case
    m = call.m.name
    if mode == 'call':
        return 'call %s %s %s %d %d %s' % (pc, kc, m, call.status, missing, args_script(call))
    if mode == 'proxy':
        bo, oo = call.reply()
        return 'proxy %s %s %d %d %s %d %s %s' % (pc, m, call.status, len(bo), ' '.join(b.hex() or '-' for b in bo), len(oo), ' '.join(map(str, oo)), args_script(call))
    bi, bo, oi, noo = call.request()
    return 'skel %s %s 1 %d %d %d %s %d %s %d %s %d %d %s %d %d %s' % (
        kc, m, call.op, call.status, missing, m, len(bi), ' '.join(b.hex() or '-' for b in bi), len(bo), ' '.join(map(str, bo)), len(bo), len(oi),
        ' '.join(map(str, oi)), noo, len(call.outs) % 2, args_script(call))


def judge(case, lines):
    mode, pc, kc, call, missing = case
    g = group(lines)
    bad = []
    if 'HOSTFAIL' in g:
        raise RuntimeError('host: %s' % g['HOSTFAIL'])
    if 'THROW' in g:
        bad.append('unexpected exception %s' % ' '.join(g['THROW'][0]))
        return bad
    R = int(g['R'][0][0]) if 'R' in g else None
    if mode in ('call', 'proxy'):
        bad += check_request(call, g)
    if mode in ('call', 'skel'):
        if missing:
            if 'I' in g:
                bad.append('an implementation function was entered although the method is not implemented')
            if not R:
                bad.append('an optional method without implementation answered with %s' % R)
        else:
            bad += check_served(call, g, R)
    if mode in ('call', 'proxy') and not missing:
        bad += check_result(call, g)
    if 'OTHER' in g:
        bad.append('an argument object was invoked')
    return bad


def pick(rng, fs, e):
    i, op, ow, m = rng.choice(e.entries)
    y = rng.choice(e.desc(i))
    mode = rng.choice(['call', 'call', 'call', 'proxy', 'skel'])
    if mode == 'skel':
        i = y
    call = Call(fs, i, op, ow, m, 0).randomise(rng, fail=.1)
    return (mode, i.name, y.name, call, int(m.optional and mode != 'proxy' and rng.random() < .25))


def run_set(binary, fs, java, rng, n, first=False):
    """-> (error or None, [(case, bad)])"""
    with scratchdir() as d:
        err = build(binary, fs, d, java)
        if err:
            return err, []
        e = Emit(fs)
        res = []
        for _ in range(n if e.entries else 0):
            case = pick(rng, fs, e)
            b = judge(case, java.cmd(script(case)))
            res.append((case, b))
            if b and first:
                break
        return None, res


def case_json(case):
    return [case[0], case[1], case[2], case[3].to_json(), case[4]]


def worker(arg):
    seed, wid, t_end, binary, cp, maxb = arg
    rng = random.Random('%s/%d' % (seed, wid))
    out = {'n': 0, 'keys': set(), 'viol': [], 'stats': {}, 'samples': []}
    java = Java(cp)
    b = 0
    try:
        while time.time() < t_end and b < maxb and len(out['viol']) < 2:
            b += 1
            fs = gen_set(rng)
            err, res = run_set(binary, fs, java, rng, 250)
            out['stats']['sets'] = out['stats'].get('sets', 0) + 1
            if err:
                out['viol'].append((err, to_json(fs), None))
                continue
            for case, bad in res:
                out['n'] += 1
                out['stats'][case[0]] = out['stats'].get(case[0], 0) + 1
                if case[3].m.params:
                    out['keys'].add(hashlib.sha1((case[0] + script(case)).encode()).digest()[:8])
                if bad:
                    out['viol'].append(('; '.join(bad[:3]), to_json(fs), case_json(case)))
                    break
            if not out['samples'] and res:
                out['samples'].append({'mode': res[0][0][0], 'method': repr(res[0][0][3].m)[:400]})
    finally:
        java.stop()
    return out


def norm(w):
    import re
    return re.sub(r'[0-9a-f]{2,}|\d+|\[[^]]*\]|\(.*', '#', w)[:60]


def main():
    c = Check('C18')
    c.assumptions.append('the Mink Java runtime is not in the repository: rt/java is a stand-in with the members generated code uses (IMinkObject, JMinkObject, MinkProxy)')
    binary = build_idlc()
    cp = build_host()
    t_end = c.t0 + (45 if c.quick else 1200)
    with mp.get_context('fork').Pool(JOBS) as pool:
        res = pool.map(worker, [(c.seed * 91 + (0 if c.quick else 7), w, t_end, binary, cp, 60 if c.quick else 10 ** 6) for w in range(JOBS)], chunksize=1)
    seen = set()
    for r in res:
        c.evals += r['n']
        c.distinct |= r['keys']
        c.samples += r['samples'][:1]
        for k, v in r['stats'].items():
            c.count('java_' + k, v)
        for what, fsj, case in r['viol']:
            sig = norm(what)
            if sig in seen or len(seen) > 3:
                continue
            seen.add(sig)
            fs = from_json(fsj)
            java = Java(cp)
            best = [None]

            def fails(x):
                if any(x.has_objects(s.name) for s in x.structs()):
                    return False
                try:
                    err, rs = run_set(binary, x, java, random.Random(1), 80, True)
                except RuntimeError:
                    return False
                if err:
                    return case is None
                if case is not None and rs and rs[-1][1]:
                    best[0] = (x, rs[-1])
                    return True
                return False
            sm = shrink.shrink(fs, fails, 40)
            java.stop()
            if case is not None and best[0]:
                sm, (cs, bad) = best[0]
                what, case = '; '.join(bad[:3]), case_json(cs)
            c.violation(sig, what + '\n' + '\n'.join(print_file(f) for f in sm.files), {'fs': to_json(sm), 'case': case})
    return c.finish(RULE)


def replay(d):
    fs = from_json(d['fs'])
    binary = build_idlc()
    java = Java(build_host())
    try:
        with scratchdir() as dd:
            err = build(binary, fs, dd, java)
            if err:
                print(err)
                return 1
            if d['case'] is None:
                return 0
            e = Emit(fs)
            mode, pc, kc, cj, missing = d['case']
            case = (mode, pc, kc, call_from_json(fs, e, cj), missing)
            lines = java.cmd(script(case))
            print('\n'.join(' '.join(x) for x in lines))
            bad = judge(case, lines)
            for b in bad:
                print('FAILS', b)
            return 1 if bad else 0
    finally:
        java.stop()
