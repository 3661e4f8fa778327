"""C19: a rejected compilation touches nothing, an accepted one writes exactly the expected complete files."""
import re, stat
from common import *
from model import *
from gen import Gen, Cfg
import c09, lex, reflang, shrink

RULE = ('case = one idlc run in a history of runs that share one output directory (accepted and rejected at every stage, all backends, earlier outputs, '
        'foreign and truncated content, bystanders, old time stamps); a rejected run must leave every file and directory as it was, an accepted one writes exactly the '
        'expected files, byte-identical to a fresh compilation; non-trivial = rejected run with a pre-existing output file, or accepted run which replaces or '
        'adds at least one declaration-bearing file; distinct by texts, flags and previous content')

BES = ['c', 'cs', 'cpp', 'cpps', 'rust', 'java']
BANNER = 'AUTOGENERATED FILE: DO NOT EDIT'
OLD = 1000000000 * 10 ** 9


# ------------------------------------------------------------------ snapshots
def snap(root):
    """name -> (kind, content, mode, mtime_ns) of everything below root, root itself as '.'"""
    r = {}
    for p, ds, fs in os.walk(root):
        for n in [None] + fs:
            q = p if n is None else os.path.join(p, n)
            st = os.lstat(q)
            rel = os.path.relpath(q, root)
            if stat.S_ISREG(st.st_mode):
                with open(q, 'rb') as f:
                    r[rel] = ('file', f.read(), st.st_mode, st.st_mtime_ns, st.st_ino)
            else:
                r[rel] = ('dir' if stat.S_ISDIR(st.st_mode) else 'other', b'', st.st_mode, st.st_mtime_ns, st.st_ino)
    return r


def age(root):
    for p, ds, fs in os.walk(root, topdown=False):
        for n in fs:
            os.utime(os.path.join(p, n), ns=(OLD, OLD))
        os.utime(p, ns=(OLD, OLD))


def differences(a, b, ignore=()):
    out = []
    for k in sorted(set(a) | set(b)):
        if k in ignore:
            continue
        if k not in a:
            out.append('%s %s created' % (b[k][0], k))
        elif k not in b:
            out.append('%s %s removed' % (a[k][0], k))
        elif a[k] != b[k]:
            what = ['kind', 'content (%d -> %d bytes)' % (len(a[k][1]), len(b[k][1])), 'mode', 'time stamp', 'inode']
            out.append('%s: %s changed' % (k, ', '.join(w for w, x, y in zip(what, a[k], b[k]) if x != y)))
    return out


# ------------------------------------------------------------------ expectation from the input text alone
def expected(main_file, be, outname):
    """-> (files that have to be written, files that may be written, {file: [words its code has to contain]})"""
    ifs = [d for d in main_file.decls if isinstance(d, Iface)]
    glob = [d for d in main_file.decls if isinstance(d, (Const, Struct))]
    base = os.path.basename(main_file.path)
    stem = os.path.splitext(base)[0] or base
    if be in ('c', 'cs', 'cpp', 'cpps'):
        w = []
        for i in ifs:
            w += [i.name] + [m.name for m in i.methods]
            if be in ('c', 'cpp'):
                w += [x.name for x in i.consts + i.errors]
        w += [d.name for d in glob] if be in ('c', 'cpp') else []
        return {outname}, set(), {outname: w}
    words = {}
    if be == 'rust':
        f = stem.lower() + '.rs'
        for i in ifs:
            words.setdefault(i.name.lower() + '.rs', []).extend([i.name] + [x.name for x in i.members])
        if glob:
            words.setdefault(f, []).extend(d.name for d in glob)
        return set(words), set(), words
    f = stem + '.java'
    for i in ifs:
        words.setdefault(i.name + '.java', []).extend([i.name] + [m.name for m in i.methods] + [x.name.upper() for x in i.consts + i.errors])
    if glob:
        words.setdefault(f, []).extend([d.name.upper() if isinstance(d, Const) else d.name for d in glob])
    elif ifs:
        words.setdefault(f, [])
    return set(words), {f}, words


PAIR = {')': '(', ']': '[', '}': '{'}


def incomplete(text, be, words):
    """why the text is not a complete output"""
    try:
        ts = lex.code(text, lex.LANG[be])
    except lex.LexError as e:
        return str(e)
    st = []
    for t in ts:
        if t in '([{' and len(t) == 1:
            st.append(t)
        elif t in PAIR:
            if not st or st.pop() != PAIR[t]:
                return 'unbalanced %r' % t
    if st:
        return 'unclosed %r' % st[-1]
    code = ' '.join(ts)
    for w in words:
        if w not in code and w not in text and w.lower() not in code.lower():
            return '%r is missing' % w
    if not text.endswith('\n') and text.rstrip()[-1:] not in ('}', ';', ')'):
        return 'the end is missing: %r' % text[-40:]


# ------------------------------------------------------------------ one run
def setup(case, d, pre=True):
    """-> (command line, working directory, output root, output file name or None, directories which must not change)"""
    src = os.path.join(d, 'src')
    for p, t in case['texts'].items():
        q = os.path.join(src, p)
        os.makedirs(os.path.dirname(q), exist_ok=True)
        with open(q, 'wb') as f:
            f.write(t.encode('utf8', 'surrogateescape'))
    work = os.path.join(d, 'work')
    os.makedirs(work, exist_ok=True)
    out = {'src': src, 'work': work}.get(case['where'], os.path.join(d, 'out'))
    os.makedirs(out, exist_ok=True)
    if pre:
        for n, b in case['pre'].items():
            q = os.path.join(out, n)
            os.makedirs(os.path.dirname(q), exist_ok=True)
            if os.path.exists(q):
                continue
            with open(q, 'wb') as f:
                f.write(b.encode('latin1'))
            if case.get('mode'):
                os.chmod(q, case['mode'])
    be = case['be']
    main = os.path.join(src, case['main'])
    cmd = [main] + FLAGS[be] + list(case['flags'])
    single = be not in ('rust', 'java')
    rel = case.get('rel')
    o = os.path.join(out, case['outname']) if single else out
    if rel:
        o = os.path.relpath(o, work)
    if not (case['where'] == 'work' and not single and case.get('no_o')):
        cmd += ['-o', o]
    m = case.get('marking')
    if m is not None:
        mk = os.path.join(d, 'mk')
        if m == 'dir':
            os.mkdir(mk)
        elif m == 'binary':
            open(mk, 'wb').write(b'Copyright \xff\xfe\n')
        elif m != 'missing':
            open(mk, 'wb').write(m.encode())
        cmd += ['--marking', mk]
    return cmd, work, out


def go(binary, case, d, pre):
    cmd, work, out = setup(case, d, pre)
    age(d)
    a = snap(d)
    r = run([binary] + cmd, cwd=work, timeout=60, mem_gb=8)
    return r, a, snap(d), os.path.relpath(out, d)


def judge(binary, case):
    """-> (complaint or None, {'accepted', 'stage', 'replaced', 'new'}, contents of the output root afterwards)"""
    with scratchdir('c19') as d:
        r, a, b, out = go(binary, case, d, True)
        pfx = out + '/'
        after = {k[len(pfx):]: v[1] for k, v in b.items() if v[0] == 'file' and k.startswith(pfx) and k[len(pfx):] not in case['texts']}
        info = {'accepted': r[0] == 0, 'written': 0, 'rc': r[0]}
        if r[0] != 0 or '--dump' in case['flags']:
            df = differences(a, b)
            if df:
                return 'exit status %s, but %s' % (r[0], '; '.join(df[:5])), info, after
            return None, info, after
    with scratchdir('c19') as d2:
        r2, a2, b2, _ = go(binary, case, d2, False)
    if r2[0] != 0:
        return 'accepted over existing files, refused (%s) without them: %s' % (r2[0], r2[2][-200:]), info, after
    fresh = {k: v for k, v in b2.items() if v[0] == 'file' and (k not in a2 or a2[k] != v)}
    must, may, words = None, None, {}
    mf = reflang.parse(case['texts'][case['main']], case['main'])
    if mf is not None:
        must, may, words = expected(mf, case['be'], case['outname'])
        got = {k[len(pfx):] if k.startswith(pfx) else '../' + k for k in fresh}
        if case['be'] == 'rust' and len({d.name.lower() for d in mf.decls if isinstance(d, Iface)}) < sum(isinstance(d, Iface) for d in mf.decls):
            # two interfaces for one name: merged or split, but nothing may be lost
            alltext = '\n'.join(v[1].decode('utf8', 'replace') for v in fresh.values())
            for i in [d for d in mf.decls if isinstance(d, Iface)]:
                if not re.search(r'\btrait I%s\b' % i.name, alltext):
                    return 'interface %s is lost' % i.name, info, after
        elif not must <= got:
            return 'not written: %s' % sorted(must - got), info, after
        elif not got <= must | may:
            return 'unexpected files: %s' % sorted(got - must - may), info, after
    mark = case.get('marking')
    for k, v in fresh.items():
        n = k[len(pfx):]
        t = v[1].decode('utf8', 'replace')
        body = t
        if mark is not None:
            i = t.find('// ' + BANNER)
            if i < 0:
                return '%s: no banner' % n, info, after
            body = t[i:]
            try:
                if lex.code(t[:i], lex.LANG[case['be']]):
                    return '%s: code before the banner: %r' % (n, t[:200]), info, after
            except lex.LexError as e:
                return '%s: before the banner: %s' % (n, e), info, after
        if not re.match(r'(//|/\*)\s*' + re.escape(BANNER), body):
            return '%s does not start with the banner: %r' % (n, t[:200]), info, after
        if body.count(BANNER) > 1 + case['texts'][case['main']].count(BANNER):
            return '%s: more than one banner' % n, info, after
        why = incomplete(body, case['be'], words.get(n, ()))
        if why:
            return '%s is not complete: %s' % (n, why), info, after
    df = differences(a, b, set(fresh) | {out})
    if df:
        return 'accepted, but also %s' % '; '.join(df[:5]), info, after
    for k, v in fresh.items():
        if k not in b:
            return '%s is not written when it exists' % k, info, after
        if b[k][1] != v[1]:
            o = a[k][1] if k in a else None
            return '%s: %d bytes instead of the %d of a fresh compilation%s' % (
                k, len(b[k][1]), len(v[1]), '' if o is None else ' (the old file had %d%s)' % (len(o), ' and was left' if b[k][1] == o else '')), info, after
        if k in a and a[k][1] != v[1] and b[k][3] == OLD:
            return '%s: time stamp not updated' % k, info, after
    info['written'] = len(fresh)
    info['replaced'] = sum(k in a for k in fresh)
    return None, info, after


# ------------------------------------------------------------------ generation
def foreign(rng, after, names):
    """additional or damaged content of the output directory"""
    out = dict(after)
    for n in list(out):
        r = rng.random()
        b = out[n]
        if r < .12:
            out[n] = b[:rng.randrange(len(b) + 1)]
        elif r < .24:
            out[n] = b + rng.choice([b'\n', b'x' * rng.randrange(1, 5000), b])
        elif r < .3:
            out[n] = bytes(rng.randrange(256) for _ in range(min(len(b), 3000)))
        elif r < .36 and len(b) > 2:
            k = rng.randrange(len(b))
            out[n] = b[:k] + bytes([b[k] ^ 1]) + b[k + 1:]      # same length
        elif r < .4:
            out[n] = b''
        elif r < .45:
            del out[n]
    for n in names:
        if n not in out and rng.random() < .5:
            out[n] = rng.choice([b'', b'// ' + BANNER.encode() + b'\nold\n', b'z' * rng.choice([1, 100, 20000, 300000])])
    for _ in range(rng.randrange(3)):
        n = rng.choice(['by.txt', 'lib.rs', 'mod.rs', 'Makefile', 'sub/x.h', 'Other.java', 'main.h.orig', 'main.h.tmp', 'x.d', '.hidden'])
        out.setdefault(n, b'keep me %d\n' % rng.randrange(100))
    return out


BADNAME = ['crate', 'self', 'super', 'Self', 'fn', 'struct_', 'match', 'class', 'static', 'package', '_']


def base_set(rng, java):
    big = rng.random() < .06
    cfg = c09.cfg_for(rng)
    if big:
        cfg.ifaces, cfg.methods, cfg.params = (2, 6), (10, 60), (2, 7)
    if java:
        cfg.obj_structs = cfg.obj_struct_arrays = False
        cfg.java = True
        cfg.mix_objarr_struct = False
    g = Gen(rng, cfg)
    fs = g.fileset()
    return fs, g


def rename_main(rng, fs):
    ifs = [d.name for d in fs.files[0].decls if isinstance(d, Iface)]
    n = rng.choice(['main.idl'] * 4 + ['Main.idl', 'MAIN.IDL', 'a.b.idl', 'main', 'x-y.idl', 'deep/er/main.idl'] + [i + '.idl' for i in ifs[:2]] + [i.lower() + '.idl' for i in ifs[:2]])
    return n


def variants(rng, fs, g, java):
    """[(texts, label)]: successive contents of the source directory"""
    out = []
    for _ in range(rng.choice([3, 4, 5])):
        r = rng.random()
        f2 = from_json(to_json(fs))
        lab = 'valid'
        if r < .3:
            out.append((c09.texts(f2), lab))
            continue
        if r < .42:                                   # grown or cut revision
            for f in f2.files:
                if rng.random() < .6:
                    f.decls.append(rng.choice([Const('uint32', g.name('NEW'), '7'), Struct(g.name('NS'), [Field('uint32', 2, 'w')]),
                                               Iface(g.name('INew'), None, [Method('fresh', [Param('in', 'uint8', None, 'x')]), Err('EN')])]))
            for i in f2.ifaces():
                if i.members and rng.random() < .3 and not any(j.base == i.name for j in f2.ifaces()):
                    i.members.pop()
            out.append((c09.texts(f2), 'revised'))
            continue
        if r < .7:
            k = rng.choice(list(c09.KINDS))
            try:
                if c09.KINDS[k](rng, f2, g):
                    out.append((c09.texts(f2), k))
            except (IndexError, ValueError):
                pass
            continue
        if r < .78:                                   # a name only the backend trips over, late in the file
            ms = [m for d in f2.files[0].decls if isinstance(d, Iface) for m in d.methods]
            n = rng.choice(BADNAME)
            if ms and rng.random() < .6:
                m = rng.choice(ms)
                if m.params and rng.random() < .5:
                    m.params[-1].name = n
                else:
                    m.name = n
            else:
                f2.files[0].decls.append(Iface(g.name('IBad'), None, [Method(n, [])]))
            out.append((c09.texts(f2), 'backend'))
            continue
        if r < .84:                                   # names that differ in case only
            ifs = [d for d in f2.files[0].decls if isinstance(d, Iface)]
            if ifs:
                i = rng.choice(ifs)
                n = rng.choice([i.name.lower(), i.name.upper(), i.name.swapcase()])
                if n != i.name:
                    c09.ins(rng, f2.files[0].decls, Iface(n, rng.choice([None, i.name]), [Method(g.name('m'), [])]))
                    out.append((c09.texts(f2), 'case'))
            continue
        if r < .88 :                                  # objects inside of structs (Java's refusal)
            n = g.name('JO')
            f2.files[0].decls.append(Struct(n, [Field('interface', None, 'o')]))
            i = c09.pick_iface(rng, f2)
            if i:
                i.members.append(Method(g.name('m'), [Param(rng.choice(['in', 'out']), n, None, 'x')]))
            out.append((c09.texts(f2), 'objstruct'))
            continue
        tx = c09.texts(f2)
        p = rng.choice(list(tx))
        k = rng.randrange(4)
        if k == 0:
            tx[p] = c09.edit_tokens(rng, tx[p])
        elif k == 1:
            tx[p] = tx[p][:rng.randrange(len(tx[p]) + 1)]
        elif k == 2:
            j = rng.randrange(len(tx[p]) + 1)
            tx[p] = tx[p][:j] + rng.choice(['\udcff', '\x00', '@', '}', '"', '/*', '\udcc3']) + tx[p][j:]
        elif p != 'main.idl':
            del tx[p]
        out.append((tx, 'text'))
    return out


def history(rng, binary):
    java = rng.random() < .5
    fs, g = base_set(rng, java)
    mainname = rename_main(rng, fs)
    if mainname != 'main.idl' and any('main.idl' in i for f in fs.files for i in f.includes):
        mainname = 'main.idl'
    where = rng.choice(['out', 'out', 'out', 'src', 'work'])
    be0 = rng.choice(BES)
    out, state = [], {}
    outname = rng.choice(['o.h', 'o.h', 'main.h', 'noext', 'a.hpp'])
    if '/' in mainname:
        # bare includes resolve next to the main file
        mv = os.path.dirname(mainname) + '/'
    else:
        mv = ''
    for tx, lab in variants(rng, fs, g, java):
        be = be0 if rng.random() < .75 else rng.choice(BES)
        texts = {(mainname if p == 'main.idl' else mv + p): t for p, t in tx.items()}
        fl = []
        if rng.random() < .15:
            fl.append('--no-typed-objects')
        if rng.random() < .1:
            fl.append('--allow-undefined-behavior')
        x = rng.random()
        if x < .05:
            fl += ['--dump', rng.choice(['pst', 'ast', 'mir'])]
            lab = 'dump'
        elif x < .07:
            fl += ['--skel', '--rust'] if be != 'java' else ['--skel']
            lab = 'usage'
        elif x < .08:
            texts.pop(mainname, None)
            lab = 'nomain'
        mark = None
        y = rng.random()
        if y < .12:
            mark = rng.choice(['Copyright A\n', 'x', '\n', '', 'l1\nl2 */ x\n', '// ' + 'deep\n'])
        elif y < .18:
            mark = rng.choice(['missing', 'dir', 'binary'])
            lab = 'marking'
        names = [outname] if be not in ('rust', 'java') else []
        if not names and mainname in texts:
            mf = reflang.parse(texts[mainname], mainname)
            names = sorted(expected(mf, be, outname)[0]) if mf else ['main.rs', 'main.java']
        pre = foreign(rng, state, names)
        pre = {n: b for n, b in pre.items() if n not in texts and not any(t.startswith(n + '/') or n.startswith(t + '/') for t in texts)}
        if outname in texts:
            continue
        case = {'texts': texts, 'main': mainname, 'be': be, 'flags': fl, 'where': where, 'outname': outname, 'marking': mark, 'rel': rng.random() < .3,
                'no_o': rng.random() < .5, 'pre': {n: b.decode('latin1') for n, b in pre.items()}, 'mode': rng.choice([None, None, 0o600, 0o444])}
        bad, info, state = judge(binary, case)
        hit = any(n in case['pre'] for n in names)
        nt = (not info['accepted'] and hit) or info.get('written', 0) > 0
        cnt = ['kind ' + lab, 'backend ' + be, 'accepted' if info['accepted'] else 'rejected']
        if info['accepted'] and info.get('replaced'):
            cnt.append('accepted over existing output')
        if not info['accepted'] and hit:
            cnt.append('rejected over existing output')
        if info['rc'] not in (0, 1, 2, 101, 'timeout'):
            cnt.append('exit %s' % info['rc'])
        smp = {'kind': lab, 'backend': be, 'flags': fl, 'accepted': info['accepted'], 'written': info.get('written'),
               'pre-existing': {n: len(b) for n, b in pre.items()}, 'files': {p: t[:160] for p, t in texts.items()}}
        out.append(Case(json.dumps(case, sort_keys=True), nt, smp, cnt, (('reject' if not info['accepted'] else 'accept') + ':' + category(bad) + ':' + be,
                                                                             bad, case) if bad else None))
    return out


def category(bad):
    for w in ('exit status', 'refused', 'not written', 'unexpected files', 'lost', 'banner', 'not complete', 'but also', 'when it exists', 'of a fresh', 'time stamp'):
        if w in bad:
            return w
    return 'other'


def small(binary, case, sig_kind):
    def fails(c2):
        bad, info, _ = judge(binary, c2)
        return bool(bad) and ('accept' if info['accepted'] else 'reject') == sig_kind
    t0 = time.time()
    for n in list(case['pre']):
        c2 = dict(case, pre={k: v for k, v in case['pre'].items() if k != n})
        if fails(c2):
            case = c2
    for n, b in list(case['pre'].items()):
        for s in (b[:20], b[:100]):
            c2 = dict(case, pre=dict(case['pre'], **{n: s}))
            if len(s) < len(b) and fails(c2):
                case = c2
                break
    for k, v in (('marking', None), ('rel', False), ('mode', None), ('where', 'out')):
        if case.get(k) != v and fails(dict(case, **{k: v})):
            case = dict(case, **{k: v})
    if time.time() - t0 < 60 and case['main'] in case['texts']:
        others = {p: t for p, t in case['texts'].items() if p != case['main']}
        for p in list(others):
            c2 = dict(case, texts={k: v for k, v in case['texts'].items() if k != p})
            if fails(c2):
                case = c2
        for p in list(case['texts']):
            t = shrink.shrink_text(case['texts'][p], lambda t: fails(dict(case, texts=dict(case['texts'], **{p: t}))), 15)
            case = dict(case, texts=dict(case['texts'], **{p: t}))
    return case


def main():
    c = Check('C19')
    binary = build_idlc()
    for sig, bad, case in fan(c, history, 35, 900, 8000, (binary,)):
        sm = small(binary, case, sig.split(':')[0])
        bad = judge(binary, sm)[0] or bad
        c.violation(sig, '%s\nbackend %s flags %s marking %r previous files %s\n%s' % (
            bad, sm['be'], sm['flags'], sm.get('marking'), {n: len(b) for n, b in sm['pre'].items()}, '\n'.join('// %s\n%s' % x for x in sm['texts'].items())), sm)
    return c.finish(RULE)


def replay(d):
    bad, info, _ = judge(build_idlc(), d)
    print(bad or 'ok', info)
    return 1 if bad else 0
