"""C10: every well-formed, rule-respecting IDL is accepted, independent of order, file placement, backend, flags."""
from common import *
from model import *
from gen import Gen, Cfg
import fuzztext as F, nearmiss, reflang, shrink

RULE = ('case = one idlc run (file set x backend x flags); file sets are valid by construction (checked against the reference '
        'restrictions) over all primitive types, consts at boundaries, nested structs, hierarchies, attributes, docs, every '
        'parameter kind, declarations in random order spread over 1-5 files; plus programs obtained by token-level edits that an independent recogniser and '
        'decision procedure accept; non-trivial = distinct (file set, backend, flags) '
        'whose set has at least one method with parameters or a struct or a const')


def has_obj_struct(fs):
    return any(fs.has_objects(s.name) for s in fs.structs())


def java_supported(fs):
    # documented as unsupported: objects inside structs
    return not has_obj_struct(fs)


def configs(fs, rng, marking):
    bes = ['c', 'cs', 'cpp', 'cpps', 'rust'] + (['java'] if java_supported(fs) else [])
    out = []
    for be in bes:
        fl = []
        if rng.random() < .4:
            fl += ['--marking', marking]
        if rng.random() < .4:
            fl += ['--no-typed-objects']
        if rng.random() < .3:
            fl += ['--allow-undefined-behavior']
        out.append((be, fl))
    return out


def one(binary, fs, be, fl):
    with scratchdir() as d:
        main = write_set(fs, os.path.join(d, 'src'))
        o = os.path.join(d, 'out')
        os.mkdir(o)
        fl = [os.path.join(d, 'mark.txt') if x == '@MARK' else x for x in fl]
        open(os.path.join(d, 'mark.txt'), 'w').write('Marking line\nsecond\n')
        r = idlc(binary, main, be, o, [os.path.join(d, 'src', x) for x in fs.incdirs], fl)
        wrote = bool(os.listdir(o)) or be in ('rust', 'java')
        return r[0] == 0 and wrote, r


def special(rng):
    """hand-steered valid shapes at the edges of the restrictions"""
    P, M = Param, Method
    out = []
    out.append(FileSet([File('main.idl', [], [])]))
    out.append(FileSet([File('main.idl', [], [Iface('IEmpty', None, [])])]))
    # 15 of every class
    ms = []
    for d in ('in', 'out'):
        ms.append(M('b15' + d, [P(d, 'buffer', None, 'x%d' % i) for i in range(15)]))
        ms.append(M('o15' + d, [P(d, 'interface', None, 'x%d' % i) for i in range(15)]))
        ms.append(M('a15' + d, [P(d, 'interface', 15, 'x')]))
        ms.append(M('p40' + d, [P(d, rng.choice(list(PRIMS)), None, 'x%d' % i) for i in range(40)]))
    ms.append(M('all', [P('in', 'interface', 15, 'a'), P('out', 'interface', 15, 'b')] +
                [P(d, 'uint8', 'u', '%s%d' % (d, i)) for d in ('in', 'out') for i in range(15)]))
    ms.append(M('arrobj', [P('in', 'interface', 2, 'a'), P('out', 'interface', None, 'b'), P('out', 'interface', None, 'c')]))
    ms.append(M('objarr', [P('out', 'interface', 2, 'a'), P('in', 'interface', None, 'b'), P('in', 'interface', None, 'c')]))
    out.append(FileSet([File('main.idl', [], [Iface('IEdge', None, ms)])]))
    cs = []
    for t in PRIMS:
        if 'int' in t:
            s = PRIMS[t] * 8
            lo, hi = (0, 2 ** s - 1) if t[0] == 'u' else (-2 ** (s - 1), 2 ** (s - 1) - 1)
            for k, v in enumerate((lo, hi, lo + 1, hi - 1)):
                cs.append(Const(t, 'K_%s_%d' % (t, k), str(v)))
                cs.append(Const(t, 'H_%s_%d' % (t, k), ('-' if v < 0 else '') + '0x%x' % abs(v)))
        else:
            for k, v in enumerate(('0', '-1', '1.5', '-0.125', '3.0')):
                cs.append(Const(t, 'F_%s_%d' % (t, k), v))
    rng.shuffle(cs)
    out.append(FileSet([File('main.idl', [], cs)]))
    out.append(FileSet([File('main.idl', [], [Iface('IConsts', None, cs)])]))
    # the largest arrays; struct sizes at the small/big edge
    out.append(FileSet([File('main.idl', [], [Struct('B1', [Field('uint8', 65535, 'a')]), Struct('B2', [Field('float64', 65535, 'a')]),
                                              Struct('S16', [Field('uint8', 16, 'a')]), Struct('S17', [Field('uint8', 17, 'a')]),
                                              Struct('O1', [Field('uint8', 1, 'a')])])]))
    # deep chain of interfaces and of structs, in reverse declaration order
    n = 40
    out.append(FileSet([File('main.idl', [], [Iface('D%d' % i, 'D%d' % (i - 1) if i else None, [M('m%d' % i, []), Err('E%d' % i)])
                                              for i in reversed(range(n))])]))
    out.append(FileSet([File('main.idl', [], [Struct('N%d' % i, [Field('N%d' % (i - 1) if i else 'uint32', None, 'f')])
                                              for i in reversed(range(n))])]))
    # one name in different scopes; self references
    out.append(FileSet([File('main.idl', [], [Iface('IA', None, [Const('uint8', 'K', '1'), M('K', [P('in', 'IA', None, 'K')]), M('m', []), Err('m')]),
                                              Iface('IB', None, [Const('uint8', 'K', '1'), M('m', [])])])]))
    # mutually referring interfaces and a struct
    out.append(FileSet([File('main.idl', [], [Iface('IX', None, [M('m', [P('in', 'IY', None, 'a'), P('in', 'SX', None, 'b')])]),
                                              Struct('SX', [Field('IY', None, 'o'), Field('IX', None, 'q')]),
                                              Iface('IY', None, [M('m', [P('out', 'IX', None, 'a'), P('out', 'SX', None, 'b')])])])]))
    # a main file which only includes; empty included file; diamonds
    out.append(FileSet([File('main.idl', ['a.idl', 'b.idl'], []), File('a.idl', ['c.idl'], []), File('b.idl', ['c.idl', 'c.idl'], []),
                        File('c.idl', [], [Struct('C', [Field('uint8', None, 'x')])])]))
    out.append(FileSet([File('main.idl', ['a.idl'], [Iface('I1', 'I0', [])]), File('a.idl', [], [Iface('I0', None, [M('m', [P('in', 'S0', 'u', 'x')])])]) ,
                        ] ))
    out[-1].files[0].decls.append(Struct('S0', [Field('uint32', None, 'x')]))   # used by the included file
    return out


def cfg_for(rng):
    return Cfg(dirs=.3, files=(1, 5), structs=(0, 8), ifaces=(0, 5), methods=(0, 6), params=(0, 9), consts=(0, 5), errors=(0, 4), depth=5,
               docs=.2, doc_style='rich', order='shuffle', place=rng.choice(['any', 'layered']), obj_struct_arrays=True,
               mix_objarr_struct=False, big_arrays=.1, optional=.15, hostile=rng.choice([0, .3]),
               obj_structs=rng.random() < .6)


# ------------------------------------------------------------------ text level
def text_batch(rng, binary):
    """programs edited at token level (or drawn from size/shape generators) which the independent recogniser and decision procedure accept"""
    r = rng.random()
    if r < .12:
        tx = {'main.idl': F.sized(rng)}
    elif r < .2:
        tx = {'main.idl': F.deep(rng)}
    else:
        cfg = cfg_for(rng)
        cfg.dirs = 0
        fs = Gen(rng, cfg).fileset()
        tx = {f.path: print_file(f) for f in fs.files}
        p = rng.choice(list(tx))
        r = rng.random()
        tx[p] = F.mutate_tokens(rng, tx[p], rng.choice([1, 1, 2])) if r < .4 else nearmiss.edit(rng, tx[p]) if r < .75 else nearmiss.respell(rng, tx[p])
    be = rng.choice(['c', 'cs', 'cpp', 'cpps', 'rust', 'java'])
    fl = rng.choice([[], [], ['--no-typed-objects'], ['--allow-undefined-behavior']])
    v, bad, r = text_one(binary, tx, be, fl)
    return [Case(json.dumps([tx, be, fl]), v == 'accept', {'backend': be, 'flags': fl, 'edited': tx['main.idl'][:500]}, ['text: reference says ' + v],
                 ('text:' + be, 'well-formed IDL refused (exit %s): %s' % (r[0], r[2][-500:]), (tx, be, fl)) if bad else None)]


def text_one(binary, tx, be, fl):
    with scratchdir() as d:
        for p, t in tx.items():
            open(os.path.join(d, p), 'w', newline='').write(t)
        main = os.path.join(d, 'main.idl')
        try:
            v, _ = reflang.verdict(main, (), False)
        except RecursionError:
            v = 'open'
        if v != 'accept':
            return v, False, None
        if be == 'java':
            fs = reflang.load(main)[0]
            if has_obj_struct(fs):
                return 'java object struct', False, None
        o = os.path.join(d, 'out')
        os.mkdir(o)
        r = idlc(binary, main, be, o, [], fl)
        return v, r[0] != 0, r


def main():
    c = Check('C10')
    binary = build_idlc()
    todo = [(fs, 'special') for fs in special(c.rng)]
    seen = 0
    while True:
        if not todo:
            if c.budget(45, 500) < 0 or seen > (450 if c.quick else 10**6):
                break
            for _ in range(16):
                seen += 1
                fs = Gen(c.rng, cfg_for(c.rng)).fileset()
                assert valid(fs)
                todo.append((fs, 'gen'))
        jobs = []
        for fs, tag in todo:
            for be, fl in configs(fs, c.rng, '@MARK'):
                jobs.append((fs, be, fl, tag))
        todo = []
        for (fs, be, fl, tag), (ok, r) in zip(jobs, pmap(lambda j: one(binary, j[0], j[1], j[2]), jobs)):
            txt = '\n//--\n'.join(f.path + '\n' + print_file(f) for f in fs.files)
            c.case(be + str(fl) + txt, bool(list(fs.all_decls())), {'backend': be, 'flags': fl, 'idl': txt[:600]})
            c.count('backend_' + be)
            if not ok and len(c.viol) < 5:
                small = shrink.shrink(fs, lambda x: (be != 'java' or java_supported(x)) and not one(binary, x, be, fl)[0], 25)
                r2 = one(binary, small, be, fl)[1]
                msg = r2[2].strip().splitlines()
                c.violation('rejected:' + be + ':' + ((msg[1] if len(msg) > 1 and 'panicked' in msg[0] else msg[0] if msg else 'no output')[:80]),
                            'valid IDL refused (rc=%s) %s %s:\n%s\n%s' % (
                                r2[0], be, fl, r2[2][-500:], '\n'.join(print_file(f) for f in small.files)),
                            {'fs': to_json(small), 'be': be, 'flags': fl})
    c.t0, t0 = time.time(), c.t0
    for sig, msg, (tx, be, fl) in fan(c, text_batch, 18, 400, 12000, (binary,), 'text')[:3]:
        def fails(t2):
            return text_one(binary, t2, be, fl)[1]
        for p in list(tx):
            if p != 'main.idl' and fails({q: t for q, t in tx.items() if q != p}):
                del tx[p]
        for p in list(tx):
            tx[p] = shrink.shrink_text(tx[p], lambda t: fails(dict(tx, **{p: t})), 20)
        c.violation(sig, msg + '\n' + '\n'.join('// %s\n%s' % x for x in tx.items()), {'texts': tx, 'be': be, 'flags': fl})
    c.t0 = t0
    return c.finish(RULE)


def replay(d):
    if 'texts' in d:
        v, bad, r = text_one(build_idlc(), d['texts'], d['be'], d['flags'])
        print(v, 'REFUSED' if bad else 'accepted', r)
        return 1 if bad else 0
    ok, r = one(build_idlc(), from_json(d['fs']), d['be'], d['flags'])
    print('accepted' if ok else 'REJECTED', r)
    return 0 if ok else 1
