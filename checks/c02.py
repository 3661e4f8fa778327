"""C02: canonical invocation envelope."""
import rtcheck
from common import *
from model import *
from gen import Gen, Cfg
import shrink

RULE = ('case = one invocation: either issued by a generated stub (C, untyped C, C++, Rust) and recorded by the transport (op- '
        'code, counts word, section order, sizes, objects compared with the reference envelope) or built by the reference '
        'encoder and sent to a generated skeleton, which must serve it; plus one compilation per method placed around the limit '
        'of 15 arguments per class (accepted exactly when the reference counts all fit); non-trivial = the method has '
        'parameters; distinct by backend pair, mode and argument values')

BES = ['c', 'cs', 'cpp', 'cpps', 'rust']


def edge_method(rng, fs):
    """a method with one class of arguments near the limit, built without regard to it"""
    g = Gen(rng, Cfg())
    m = Method('edge', [])
    names = set()
    aim = rng.choice([12, 13, 14, 14, 15, 15, 15, 16, 16, 16, 17, 18, 31, 32, 33])
    d = rng.choice(['in', 'out'])
    kind = rng.choice(['buf', 'buf', 'obj', 'objarr', 'sobj', 'mix', 'mix'])
    osts = [s for s in fs.structs() if fs.has_objects(s.name)]
    big = [s for s in fs.structs() if not fs.has_objects(s.name) and fs.size_align(s.name)[0] > 16]
    ni = [i.name for i in fs.ifaces()] + ['interface']

    def add(dr, t, arr=None):
        m.params.append(Param(dr, t, arr, g.pname(names, len(m.params))))
    if kind == 'objarr':
        add(d, rng.choice(ni), aim)
    elif kind == 'sobj' and osts:
        while fs.counts(m)[2 if d == 'in' else 3] < aim:
            add(d, rng.choice(osts).name)
            if max(fs.counts(m)[:2]) >= 15:
                break
        if rng.random() < .5:
            room = aim - fs.counts(m)[2 if d == 'in' else 3]
            if room > 0:
                add(d, rng.choice(ni), room)
    else:
        n = 0
        while n < aim:
            r = rng.random()
            if kind == 'obj':
                add(d, rng.choice(ni))
            elif r < .25:
                add(d, 'buffer')
            elif r < .5:
                add(d, rng.choice(list(PRIMS)), 'u')
            elif r < .75 and big:
                add(d, rng.choice(big).name, rng.choice([None, 'u']))
            elif big:
                add(d, rng.choice(big).name, 'u')
            else:
                add(d, 'buffer')
            n += 1
        for _ in range(rng.choice([0, 0, 1, 2, 3])):        # a bundle is one more buffer
            add(d, rng.choice(list(PRIMS)))
    for _ in range(rng.choice([0, 0, 1, 3])):               # something in the other direction
        g.cfg.obj_structs = False
        for _ in range(5):
            p = g.gen_param(fs, names, len(m.params), 'out' if d == 'in' else 'in')
            m.params.append(p)
            if legal(fs, m):
                break
            m.params.pop()
    rng.shuffle(m.params)
    return m


def legal(fs, m):
    """every restriction except the limit"""
    saved = fs.counts
    fs.counts = lambda m_: (0, 0, 0, 0)
    try:
        return fs.method_ok(m)
    finally:
        del fs.counts


def accepted(binary, fs, be, extra=()):
    with scratchdir() as d:
        main_ = write_set(fs, os.path.join(d, 'src'))
        o = os.path.join(d, 'out')
        os.mkdir(o)
        r = idlc(binary, main_, be, o, extra=extra)
        return r[0] == 0, r[2]


def limits(c, binary):
    jobs = []
    for _ in range(260 if c.quick else 6000):
        fs = Gen(c.rng, Cfg(files=(1, 2), structs=(2, 6), ifaces=(1, 2), methods=(0, 2), params=(0, 2), obj_struct_arrays=True)).fileset()
        m = edge_method(c.rng, fs)
        if not legal(fs, m):
            continue
        it = c.rng.choice(fs.ifaces())
        # the interface's own file must see every type
        f = fs.file_of(it.name)
        if any(p.type not in PRIMS and p.type not in ('buffer', 'interface') and fs.file_of(p.type) is not f for p in m.params):
            fs = FileSet([File('main.idl', [], [d for _, d in fs.all_decls()])])
            it = next(x for x in fs.ifaces() if x.name == it.name)
        if m.name in [x.name for _, _, x in fs.flat_methods(it)]:
            continue
        it.members.insert(c.rng.randint(0, len(it.members)), m)
        be = c.rng.choice(BES)
        extra = ['--allow-undefined-behavior'] if c.rng.random() < .3 else []
        jobs.append((fs, m, be, extra))
    for (fs, m, be, extra), (ok, err) in zip(jobs, pmap(lambda j: accepted(binary, j[0], j[2], j[3]), jobs)):
        want = max(fs.counts(m)) <= 15
        c.case('limit' + be + repr(m.params), True)
        c.count('limit_methods_over' if not want else 'limit_methods_within')
        if ok != want:
            def bad(x):
                mm = next((y for i in x.ifaces() for y in i.methods if y.name == m.name), None)
                return mm is not None and legal(x, mm) and (max(x.counts(mm)) <= 15) == want and accepted(binary, x, be, extra)[0] == ok
            sm = shrink.shrink(fs, bad, 20, check_valid=False)
            c.violation('limit:%s:%s' % ('accepted' if ok else 'rejected', be),
                        'method with reference counts %s was %s by %s:\n%s\n%s' % (
                            fs.counts(m), 'accepted' if ok else 'rejected', be, '\n'.join(print_file(f) for f in sm.files), err[-400:]),
                        {'limit': True, 'fs': to_json(sm), 'be': be, 'extra': extra, 'want': want})


def main():
    return rtcheck.main('C02', RULE, 40, 1200, pre=limits)


def replay(d):
    if d.get('limit'):
        ok, err = accepted(build_idlc(), from_json(d['fs']), d['be'], d['extra'])
        print('accepted' if ok else 'rejected', err[-300:])
        return 0 if ok == d['want'] else 1
    return rtcheck.replay('C02', d)
