"""Shared driver of the runtime checks C01-C05: parallel workers run batches until the budget ends; failures are shrunk."""
import hashlib, multiprocessing as mp, time
from rt import *
import shrink

PERT_KINDS = ('counts', 'size', 'op', 'optional')


def perturb(run_, rng, kbe, sk, mode):
    """-> (script text, exact status or None, description) of an invocation the skeleton must refuse"""
    e, fs = run_.e, run_.fs
    y, full = e.skels[sk]
    flat = fs.flat_methods(y)
    if not flat:
        op, ow, m = 0, y, Method('none', [])
        kind = 'op'
    else:
        op, ow, m = rng.choice(flat)
        kind = rng.choice(['counts', 'counts', 'size', 'size', 'size', 'op'])
        opt = [x for x in flat if x[2].optional]
        if not full and opt and rng.random() < .5:
            op, ow, m = rng.choice(opt)
            kind = 'optional'
    call = Call(fs, y, op, ow, m, e.mids.get((ow.name, m.name), 0)).randomise(rng, fail=0)
    bi, bo, oi, noo = call.request()
    bi, bo, oi = list(bi), list(bo), list(oi)
    cw, exact, desc = call.counts_word(), None, ''
    if kind == 'size':
        w = fs.wire(m)
        fixed = [('BI', k) for k, s in enumerate(w['BI']) if s[0] != 'var'] + [('BO', k) for k, s in enumerate(w['BO']) if s[0] != 'var']
        if not fixed:
            kind = 'counts'
        else:
            sec, k = rng.choice(fixed)
            n = len(bi[k]) if sec == 'BI' else bo[k]
            nn = rng.choice([0, n - 1, n + 1, n - 1, n + 1, 2 * n, n + 8, n // 2, max(0, n - 8), n + 256, n + 65536, rng.randrange(0, 40)])
            if nn == n:
                nn = n + 1
            if nn > 200000:
                nn = n + 1
            if sec == 'BI':
                bi[k] = (bi[k] + rng.randbytes(max(0, nn - n)))[:nn]
            else:
                bo[k] = nn
            desc = '%s[%d] has %d bytes instead of %d' % (sec, k, nn, n)
    if kind == 'op':
        n = len(flat)
        op = rng.choice([n, n, n + 1, n + rng.randrange(2, 300), rng.randrange(n, 0x4000), 0x3fff, 0x4000, 0x7fff, 0x8000,
                         rng.randrange(0x4000, 0xfffd), 0xfffd])
        if rng.random() < .3:
            bi, bo, oi, noo, cw = [], [], [], 0, 0
        desc = 'op-code %d of %d methods' % (op, n)
    if kind == 'optional':
        exact, desc = 2, 'optional method without implementation'
    if kind == 'counts':
        c0 = list(fs.counts(m))
        c = list(c0)
        while c == c0:
            r = rng.random()
            k = rng.randrange(4)
            if r < .5:
                c[k] = max(0, min(15, c0[k] + rng.choice([-1, 1])))
            elif r < .65:
                j = rng.randrange(4)
                if c[k] and c[j] < 15 and j != k:
                    c[k] -= 1
                    c[j] += 1
            elif r < .75:
                c = [0, 0, 0, 0]
            elif r < .85:
                c = [rng.randrange(16) for _ in range(4)]
            elif r < .95:
                rng.shuffle(c)
            else:
                c[k] = 15
        bi = (bi + [rng.randbytes(rng.choice([0, 1, 4, 8, 16, 24])) for _ in range(16)])[:c[0]]
        bo = (bo + [rng.choice([0, 1, 4, 8, 16, 24]) for _ in range(16)])[:c[1]]
        oi = (oi + [rng.randrange(-1, 12) for _ in range(16)])[:c[2]]
        noo = c[3]
        cw = c[0] | c[1] << 4 | c[2] << 8 | c[3] << 12
        desc = 'counts %s instead of %s' % (c, c0)
    return run_.raw_script(kbe, sk, op, cw, mode, 0, bi, bo, oi, noo, call.params_script()), exact, '%s.%s: %s' % (y.name, m.name, desc), kind


def rmode(rng, run_, kbe):
    mode = rng.choice([0, M_NULLEMPTY])
    if not run_.opts.get('san'):
        mode |= rng.choice([0, M_GUARD, M_GUARD])
        if kbe != 'rust' and mode & M_GUARD and rng.random() < .5:
            mode |= M_ALIGN1
    return mode


def pick_call(run_, rng, kbe=None, sk=None, fail=.12, sbe=None):
    e, fs = run_.e, run_.fs
    if sk is not None:
        y = e.skels[sk][0]
        ents = [k for k, (i, _, _, m) in enumerate(e.entries) if y in e.desc(i)]
        if not ents:
            return None
        ent = rng.choice(ents)
    else:
        ent = rng.randrange(len(e.entries))
    i, op, ow, m = e.entries[ent]
    sbe = sbe or rng.choice(['c', 'c', 'cpp', 'cpp', 'rust', 'rust', 'cn'])
    kbe = kbe or rng.choice(['c', 'c', 'cpp', 'cpp', 'rust', 'rust', 'csn'])
    if sk is None:
        ds = e.desc(i)
        sk = rng.choice([k for k, (y, full) in enumerate(e.skels) if y in ds and (full or rng.random() < .5)])
    call = Call(fs, i, op, ow, m, e.mids[ow.name, m.name]).randomise(rng, fail=fail)
    mode = rng.choice([0, 0, M_NULLEMPTY, M_DIRECT, M_DIRECT | M_NULLEMPTY])
    if not run_.opts.get('san'):
        mode |= rng.choice([0, M_GUARD])
        if kbe != 'rust' and mode & M_GUARD and rng.random() < .5:
            mode |= M_ALIGN1
    mode |= rng.choice([0, M_FAILOO])
    return ('call', sbe, ent, kbe, sk, mode, call)


def raw_ok(run_, rng, fail=.1):
    """reference-encoded request straight into a skeleton"""
    e, fs = run_.e, run_.fs
    sk = rng.randrange(len(e.skels))
    y, full = e.skels[sk]
    flat = fs.flat_methods(y)
    if not flat:
        return None
    op, ow, m = rng.choice(flat)
    kbe = rng.choice(SKELS)
    call = Call(fs, y, op, ow, m, e.mids[ow.name, m.name]).randomise(rng, fail=fail)
    bi, bo, oi, noo = call.request()
    txt = run_.raw_script(kbe, sk, op, call.counts_word(), rmode(rng, run_, kbe), call.status, bi, bo, oi, noo, call.params_script())
    return ('raw', txt, 'ok', call, implemented(e, sk, m), '%s raw %s.%s' % (kbe, y.name, m.name))


def plan(prop, run_, rng, n):
    e = run_.e
    if not e.entries:
        return
    for _ in range(n):
        if prop == 'C04':
            sk = rng.randrange(len(e.skels))
            kbe = rng.choice(['c', 'cpp', 'rust', 'c', 'cpp', 'rust', 'csn'])
            steps = []
            if rng.random() < .3:
                c = pick_call(run_, rng, kbe, sk, 0)
                steps += [c] if c else []
            for _ in range(rng.choice([1, 1, 2, 4])):
                t, exact, desc, kind = perturb(run_, rng, kbe, sk, rmode(rng, run_, kbe))
                steps.append(('raw', t, 'refuse', exact, kind, kbe + ' ' + desc))
            c = pick_call(run_, rng, kbe, sk, 0)
            steps += [c] if c else []
            run_.items.append(steps)
        elif prop in ('C02', 'C03') and rng.random() < .4:
            r = raw_ok(run_, rng)
            if r:
                run_.items.append([r])
        else:
            # several calls on one object: implementations and skeletons are reused
            steps = [pick_call(run_, rng, fail=.35 if prop == 'C05' else .12)]
            _, _, _, kbe, sk, _, _ = steps[0]
            while rng.random() < .4 and len(steps) < 4:
                steps.append(pick_call(run_, rng, kbe, sk, .12))
            run_.items.append(steps)


def judge(run_, prop, steps, slog):
    """-> [(tag, what, step)]"""
    out = []
    if len(slog) < len(steps):
        slog = slog + [[]] * (len(steps) - len(slog))
    dead = None
    for k, s in enumerate(steps):
        st = slog[k]
        if s[0] == 'call':
            _, sbe, ent, kbe, sk, mode, call = s
            bad = verify_call(call, st, sbe, kbe, implemented(run_.e, sk, call.m))
            if prop == 'C04' and any(x[0] == 'raw' for x in steps[:k]):
                bad = [('C04,' + t, 'after a refused invocation: ' + w) for t, w in bad if 'C01' in t]
        elif s[2] == 'ok':
            bad = verify_raw_ok(s[3], st, s[4])
        else:
            bad = verify_refused(st, s[3])
        out += [(t, w if len(w) < 600 else w[:400] + ' ... ' + w[-150:], k) for t, w in bad]
        if crashed(group(st)):
            return out
    tail = group(slog[len(steps)] if len(slog) > len(steps) else [])
    if crashed(tail):
        out.append(('C01,C02,C03,C04,C05', 'crash on releasing the skeleton objects (%s)' % crashed(tail), len(steps) - 1))
    live = [int(x[0]) for x in tail.get('D', [])]
    if 'Z' in tail and (sorted(live) != list(range(int(tail['Z'][0][0]))) or 'DD' in tail):
        out.append(('C05', 'implementation instances dropped: %s of %s' % (live, tail['Z'][0][0]), len(steps) - 1))
    return out


def steps_json(steps):
    return [list(s[:6]) + [s[6].to_json()] if s[0] == 'call' else
            [s[0], s[1], s[2], s[3].to_json(), s[4], s[5]] if s[2] == 'ok' else list(s) for s in steps]


def steps_from_json(e, fs, j):
    out = []
    for s in j:
        if s[0] == 'call':
            out.append(tuple(s[:6]) + (call_from_json(fs, e, s[6]),))
        elif s[2] == 'ok':
            out.append((s[0], s[1], s[2], call_from_json(fs, e, s[3]), s[4], s[5]))
        else:
            out.append(tuple(s))
    return out


def describe(run_, steps):
    r = []
    for s in steps:
        if s[0] == 'call':
            r.append('%s stub -> %s skeleton of %s: %s.%s status=%d' % (s[1], s[3], run_.e.skels[s[4]][0].name, s[6].iface.name, s[6].m.name,
                                                                        s[6].status))
        else:
            r.append(str(s[5]))
    return r


def make_cfg(prop, rng):
    c = cfg_rt(rng)
    if prop == 'C02':
        c.fill = rng.choice([0, .3, .6])
        c.depth = rng.choice([4, 7])
    elif prop == 'C03':
        c.small_bias = rng.choice([0, .3, .6])
        c.structs = (4, 9)
        c.obj_structs = rng.random() < .7
        c.fill = .05
    elif prop == 'C04':
        c.optional = .25
        c.fill = .05
    elif prop == 'C05':
        c.obj_structs = rng.random() < .85
        c.obj_struct_arrays = rng.random() < .8
        c.obj_bias = rng.choice([.3, .6])
        c.fill = .05
    else:
        c.fill = .05
    return c


def worker(arg):
    prop, seed, wid, t_end, ncalls, binary, max_batches = arg
    rng = random.Random('%s/%s/%d' % (prop, seed, wid))
    res = {'cases': 0, 'keys': set(), 'viol': [], 'stats': {}, 'samples': [], 'skipped': []}

    def cnt(k, n=1):
        res['stats'][k] = res['stats'].get(k, 0) + n
    b = 0
    while time.time() < t_end and b < max_batches and len(res['viol']) < 2:
        b += 1
        fs = trim(Gen(rng, make_cfg(prop, rng)).fileset())
        opts = rand_opts(rng)
        with scratchdir() as d:
            try:
                r = Run(binary, fs, d, opts)
            except Fail as x:
                res['skipped'].append(str(x)[:1500])
                cnt('batches_not_buildable')
                if prop == 'C01' and not str(x).startswith('idlc'):
                    res['viol'].append(('generated code does not compile', str(x)[-1500:], to_json(fs), opts, None, []))
                continue
            cnt('batches')
            cnt('batches_%s%s%s' % (opts['cc'], opts['opt'], '_asan_ubsan' if opts['san'] else ''))
            plan(prop, r, rng, ncalls if not opts['san'] else ncalls // 3)
            log = r.execute()
            for cid, steps in enumerate(r.items):
                for s in steps:
                    res['cases'] += 1
                    if s[0] == 'call':
                        cnt('calls_%s_to_%s' % (s[1], s[3]))
                        txt = '%s %s %s %s' % (s[1], s[3], s[5], s[6].params_script())
                        if s[6].status:
                            cnt('failed_calls')
                        if any(v[1] > 30000 for v in list(s[6].ins.values()) + list(s[6].outs.values())):
                            cnt('calls_with_a_sequence_of_32768_to_71537_elements')
                        nt = bool(s[6].m.params)
                    else:
                        cnt('raw_' + ('accepted' if s[2] == 'ok' else 'refused_' + s[4]))
                        txt, nt = s[1], True
                    if nt:
                        res['keys'].add(hashlib.sha1(txt.encode()).digest()[:8])
                bad = [x for x in judge(r, prop, steps, log.get(cid, [])) if prop in x[0]]
                if bad:
                    res['viol'].append((bad[0][1], '; '.join(w for _, w, _ in bad[:4]), to_json(fs), opts, steps_json(steps),
                                        describe(r, steps)))
                    if len(res['viol']) >= 2:
                        break
            if r.items and len(res['samples']) < 1:
                st = rng.choice(r.items)
                res['samples'].append({'calls': describe(r, st), 'idl_method': [repr(s[6].m.params)[:300] for s in st if s[0] == 'call'][:1]})
    return res


def norm_sig(what):
    import re
    return re.sub(r'[0-9a-f]{2,}|\d+|\[[^]]*\]', '#', what)[:70]


def try_fs(binary, fs, opts, prop, seeds=(1, 2), n=60):
    """first failing case on this file set, or None"""
    for sd in seeds:
        with scratchdir() as d:
            try:
                r = Run(binary, fs, d, opts)
            except Fail as x:
                return None
            rng = random.Random(sd)
            plan(prop, r, rng, n)
            try:
                log = r.execute(60)
            except RuntimeError:
                return None
            for cid, steps in enumerate(r.items):
                bad = [x for x in judge(r, prop, steps, log.get(cid, [])) if prop in x[0]]
                if bad:
                    return bad, steps_json(steps), describe(r, steps)
    return None


def main(prop, rule, quick_s, thorough_s, ncalls=300, pre=None, assumptions=()):
    c = Check(prop)
    c.assumptions += list(assumptions)
    binary = build_idlc()
    if pre:
        pre(c, binary)
    t_end = c.t0 + (quick_s if c.quick else thorough_s)
    n = JOBS
    with mp.get_context('fork').Pool(n) as pool:
        results = pool.map(worker, [(prop, c.seed * 1000 + (0 if c.quick else 500), w, t_end, ncalls, binary,
                                     10 if c.quick else 10 ** 6) for w in range(n)], chunksize=1)
    viols = []
    skipped = []
    for r in results:
        c.evals += r['cases']
        c.distinct |= r['keys']
        for k, v in r['stats'].items():
            c.count(k, v)
        c.samples += r['samples'][:2]
        viols += r['viol']
        skipped += r['skipped']
    if skipped:
        c.extra['first_skipped'] = skipped[0]
    if not c.extra.get('batches') and not viols:
        print('ERROR: no batch could be built: %s' % (skipped[:1],))
        c.finish(rule)
        return 2
    seen = set()
    for what, msg, fsj, opts, steps, desc in viols:
        sig = norm_sig(what)
        if sig in seen or len(seen) >= 3:
            continue
        seen.add(sig)
        fs = from_json(fsj)
        best = [None]
        opts0 = dict(opts)

        def fails(x):
            if steps is None:
                with scratchdir() as d:
                    try:
                        build(binary, x, d, opts0)
                        return False
                    except Fail as e:
                        return not str(e).startswith('idlc')
            r = try_fs(binary, x, opts0, prop)
            if r:
                best[0] = (x, r)
            return bool(r)
        sm = shrink.shrink(fs, fails, 60 if c.quick else 150)
        if steps is None:
            c.violation(sig, msg + '\n' + '\n'.join(print_file(f) for f in sm.files), {'fs': to_json(sm), 'opts': opts, 'steps': None})
            continue
        if best[0]:
            fs, (bad, steps, desc) = best[0]
            msg = '; '.join(w for _, w, _ in bad[:4])
        c.violation(sig, '%s\n%s\n%s' % (msg, '\n'.join(desc), '\n'.join(print_file(f) for f in fs.files)),
                    {'fs': to_json(fs), 'opts': opts, 'steps': steps})
    return c.finish(rule)


def replay(prop, d):
    fs = from_json(d['fs'])
    binary = build_idlc()
    with scratchdir() as dd:
        try:
            r = Run(binary, fs, dd, d['opts'])
        except Fail as e:
            print('does not build: %s' % e)
            return 1 if d['steps'] is None else 2
        if d['steps'] is None:
            print('builds')
            return 0
        r.items = [steps_from_json(r.e, fs, d['steps'])]
        log = r.execute()
        bad = [x for x in judge(r, prop, r.items[0], log.get(0, [])) if prop in x[0]]
        print('\n'.join(describe(r, r.items[0])))
        for st in log.get(0, []):
            for t, f in st:
                print('   ', t, *f)
        for t, w, k in bad:
            print('FAILS', t, w)
        return 1 if bad else 0
