"""C14: whitespace, comments, documentation, marking and untyped objects change only what they may change."""
from common import *
from model import *
from gen import Gen, Cfg
from trivia import FRAG, word, ws, block, line, make_trivia
import lex, shrink

RULE = ('case = one edited or re-flagged compilation of a generated file set compared with its plain compilation (trivia: byte identity; '
        'documentation: token identity after removing comments, insertions directly before the documented method, other comments '
        'untouched; marking: comment block + identical rest; untyped objects: only object type names in C); non-trivial = distinct edit of '
        'a set with at least one declaration')
BES = ['c', 'cs', 'cpp', 'cpps', 'rust', 'java', 'cn', 'csn']
DOCB = ['c', 'cs', 'cpp', 'cpps', 'rust', 'java']
def rand_set(rng):
    nj = rng.random() < .5
    fs = Gen(rng, Cfg(files=(1, 3), structs=(0, 5), ifaces=(1, 4), methods=(0, 6), params=(0, 6), consts=(0, 4), errors=(0, 4),
                      docs=rng.choice([.0, .0, .4]), order='shuffle', place='any', optional=.2, obj_structs=not nj, java=nj, hostile=.2,
                      mix_objarr_struct=False, obj_bias=rng.choice([0, .4]), dress=0)).fileset()
    return fs


def write(fs, root, texts=None):
    for k, f in enumerate(fs.files):
        p = os.path.join(root, f.path)
        os.makedirs(os.path.dirname(p), exist_ok=True)
        with open(p, 'w', newline='') as h:
            h.write(texts[k] if texts else print_file(f))
    return os.path.join(root, fs.files[0].path)


def compile_(binary, fs, be, texts=None, fl=(), marking=None):
    with scratchdir('c14') as d:
        main = write(fs, os.path.join(d, 's'), texts)
        fl = list(fl)
        if marking is not None:
            with open(os.path.join(d, 'mk'), 'w', newline='') as f:
                f.write(marking)
            fl += ['--marking', os.path.join(d, 'mk')]
        o = os.path.join(d, 'o')
        os.mkdir(o)
        r = idlc(binary, main, be, o, [], fl)
        if r[0] != 0:
            return None, 'exit %s: %s' % (r[0], r[2][-500:])
        return {k: v.decode('utf8') for k, v in tree_snapshot(o).items()}, None


# ------------------------------------------------------------------ comparisons
def same_bytes(a, b):
    if set(a) != set(b):
        return 'files %s != %s' % (sorted(a), sorted(b))
    for k in a:
        if a[k] != b[k]:
            x, y = a[k].split('\n'), b[k].split('\n')
            for i, (p, q) in enumerate(zip(x, y)):
                if p != q:
                    return '%s line %d: %r != %r' % (k, i + 1, p, q)
            return '%s: one is longer: %r' % (k, (x[len(y):] or y[len(x):])[:3])


def pieces(text, lang):
    """code tokens with the comment text standing before each: [(comments, token)] + trailing comments"""
    out, cm = [], []
    for k, t in lex.split(text, lang):
        if k == 'comment':
            cm.append(t)
        elif k == 'code':
            out.append((tuple(cm), t))
            cm = []
    out.append((tuple(cm), ''))
    return out


def doc_effect(a, b, be, methods):
    """a: without the edit, b: with it.  Code tokens must be equal; where comment text differs the code that follows must be
    the declaration or definition of one of `methods` (names of the methods whose documentation changed)."""
    if set(a) != set(b):
        return 'files %s != %s' % (sorted(a), sorted(b))
    for k in a:
        try:
            x, y = pieces(a[k], lex.LANG[be]), pieces(b[k], lex.LANG[be])
        except lex.LexError as e:
            return '%s: %s' % (k, e)
        for i, (p, q) in enumerate(zip(x, y)):
            if p[1] != q[1]:
                return '%s: code changed near %r -> %r' % (k, ' '.join(t for _, t in x[max(0, i - 5):i + 3]), ' '.join(t for _, t in y[max(0, i - 5):i + 3]))
        if len(x) != len(y):
            return '%s: code tokens added or removed' % k
        for i, (p, q) in enumerate(zip(x, y)):
            if p[0] != q[0]:
                # the method's name must be the first method-like name in the following code
                foll = [t for _, t in y[i:i + 40]]
                hit = None
                for t in foll:
                    for m in ALLM[0]:
                        if t == m or t.endswith('_' + m) or t.startswith(m + '_') or ('_' + m + '_') in t:
                            hit = hit or (m if any(m == z or t.endswith(z) or t.startswith(z) or ('_' + z + '_') in t for z in methods) else '!' + m)
                if hit is None or hit[0] == '!':
                    return '%s: comment text changed before %r, which is not one of %s' % (k, ' '.join(foll[:12]), sorted(methods))
    return None


ALLM = [()]


def no_typedefs(ts, ifaces):
    """the object type names themselves ('typedef Object IFoo;') are only declared when they are used"""
    out, i = [], 0
    while i < len(ts):
        if ts[i:i + 2] == ['typedef', 'Object'] and ts[i + 3:i + 4] == [';'] and ts[i + 2] in ifaces:
            i += 4
        else:
            out.append(ts[i])
            i += 1
    return out


def untyped_effect(a, b, ifaces):
    if set(a) != set(b):
        return 'files differ'
    for k in a:
        x, y = no_typedefs(lex.code(a[k], 'c'), ifaces), no_typedefs(lex.code(b[k], 'c'), ifaces)
        if len(x) != len(y):
            for i, (p, q) in enumerate(zip(x, y)):
                if p != q and not (p in ifaces and q == 'Object'):
                    return '%s: near %r -> %r' % (k, ' '.join(x[max(0, i - 8):i + 5]), ' '.join(y[max(0, i - 8):i + 5]))
            return '%s: number of tokens differs' % k
        for i, (p, q) in enumerate(zip(x, y)):
            if p != q and not (p in ifaces and q == 'Object'):
                return '%s: near %r -> %r' % (k, ' '.join(x[max(0, i - 8):i + 5]), ' '.join(y[max(0, i - 8):i + 5]))
    return None


def mark_effect(a, b, be, marking):
    if set(a) != set(b):
        return 'files %s != %s' % (sorted(a), sorted(b))
    for k in a:
        if not b[k].endswith(a[k]):
            return '%s: does not end with the unmarked output' % k
        pre = b[k][:len(b[k]) - len(a[k])]
        try:
            c = lex.code(b[k], lex.LANG[be])
            if lex.code(pre, lex.LANG[be]) or c != lex.code(a[k], lex.LANG[be]):
                return '%s: marking spills into code: %r' % (k, pre[:300])
        except lex.LexError as e:
            return '%s: %s' % (k, e)
        for w in [w for w in marking.split() if w.isalnum() and w.isascii()]:
            if w not in pre:
                return '%s: marking word %r is missing' % (k, w)
        if bool(pre.strip()) != bool(marking.strip()) and marking.strip():
            return '%s: marking is missing' % k
    return None


# ------------------------------------------------------------------ edits
def doc_text(rng, tag):
    ls = []
    for _ in range(rng.randrange(1, 5)):
        ind = rng.choice(['', ' ', '  ', '\t', '       ', ' \t', '\u3000', 'é'])
        ls.append(ind + rng.choice(['', '*', '* ', '** ', '- ']) + ' '.join(word(rng) for _ in range(rng.randrange(0, 5))))
    ls.insert(rng.randrange(len(ls) + 1), rng.choice(['', ' * ']) + tag)
    t = rng.choice(['\n', '\n', '\n', '\r\n', '\r']).join(ls) + rng.choice(['\n', '\n ', '\n   ', ' ', ''])
    t = t.replace('\u202e', '')
    while '*/' in t:
        t = t.replace('*/', '* /')
    return t + (' ' if t.endswith('*') and rng.random() < .5 else '')


def docs_of(rng, fs):
    """random documentation for a random subset of methods: {(iface, method): text}"""
    ms = [(i.name, m.name) for i in fs.ifaces() for m in i.methods]
    k = rng.choice([1, 1, 2, len(ms)])
    return {x: doc_text(rng, 'tag%dz' % j) for j, x in enumerate(rng.sample(ms, min(k, len(ms))))}


def with_docs(fs, docs):
    fs = from_json(to_json(fs))
    for i in fs.ifaces():
        for m in i.methods:
            if (i.name, m.name) in docs:
                m.doc = docs[i.name, m.name]
    return fs


def stray(rng, fs, tag):
    """one documentation block between two random tokens of the main file; -> texts, names of methods it may attach to"""
    toks = tokens_file(fs.files[0])
    # outside of a method: it may only attach to the following method; inside or elsewhere: to no other one
    spots = [k for k, (t, g) in enumerate(toks) if g == FREE]
    if not spots:
        return None
    near = [k for k in spots if k + 1 < len(toks) and toks[k + 1][0] in ('method', 'const', 'error', '#[optional]', '};', 'struct', 'interface')]
    k = rng.choice(near if near and rng.random() < .5 else spots)
    names = set()
    depth_iface = None
    for j in range(k + 1, len(toks)):
        if toks[j][0] == 'method':
            names.add(toks[j + 1][0])
            break
        if toks[j][0] in ('const', 'error', ');', ';', '};'):
            break                       # another declaration comes first: no method follows immediately
    # inside of a method's own declaration it may at most belong to that method
    for j in range(k, -1, -1):
        if toks[j][0] in (');', ';', '{', '};'):
            break
        if toks[j][0] == 'method':
            names.add(toks[j + 1][0])
            break
    new = toks[:k + 1] + [('/**\n' + doc_text(rng, tag) + '*/', FREE)] + toks[k + 1:]
    return [render(new)] + [print_file(f) for f in fs.files[1:]], names


def marking_text(rng):
    if rng.random() < .05:
        return ''
    t = []
    for _ in range(rng.randrange(1, 6)):
        t.append(' '.join(rng.choice(FRAG + ['Copyright', 'notice', '2024', '*/', '/*', '\\', '\\u002a/', 'x \\', '??', '"""', '*/*'])
                          for _ in range(rng.randrange(0, 6))))
    return rng.choice(['\n', '\r\n', '\r', '\n']).join(t) + rng.choice(['', '\n', '\n\n'])


def gen_edit(rng, fs):
    r = rng.random()
    if r < .45:
        return {'kind': 'trivia', 'texts': [render(tokens_file(f), make_trivia(rng)) for f in fs.files]}
    if r < .65:
        ms = [1 for i in fs.ifaces() for m in i.methods]
        if ms:
            return {'kind': 'doc', 'a': to_pairs(docs_of(rng, fs) if rng.random() < .4 else {}), 'b': to_pairs(docs_of(rng, fs))}
    if r < .8:
        x = stray(rng, fs, 'strayz')
        if x:
            return {'kind': 'stray', 'texts': x[0], 'names': sorted(x[1])}
    if r < .9:
        return {'kind': 'marking', 'text': marking_text(rng)}
    return {'kind': 'untyped'}


def to_pairs(d):
    return [[i, m, t] for (i, m), t in d.items()]


def of_pairs(p):
    return {(i, m): t for i, m, t in p}


def judge(binary, fs, be, e, base=None):
    base = base if base is not None else compile_(binary, fs, be)[0]
    if base is None:
        return None
    ALLM[0] = sorted({m.name for i in fs.ifaces() for m in i.methods}, key=len, reverse=True)
    if e['kind'] == 'trivia':
        got, err = compile_(binary, fs, be, e['texts'])
        return err or same_bytes(base, got)
    if e['kind'] == 'doc':
        a, b = of_pairs(e['a']), of_pairs(e['b'])
        ga, err = compile_(binary, with_docs(fs, a), be) if a else (base, None)
        gb, err2 = compile_(binary, with_docs(fs, b), be)
        if err or err2:
            return err or err2
        return doc_effect(ga, gb, be, {m for x in (a, b) for (_, m) in x}) or doc_effect(base, gb, be, {m for (_, m) in b})
    if e['kind'] == 'stray':
        got, err = compile_(binary, fs, be, e['texts'])
        return err or doc_effect(base, got, be, set(e['names']))
    if e['kind'] == 'marking':
        got, err = compile_(binary, fs, be, None, (), e['text'])
        return err or mark_effect(base, got, be, e['text'])
    if e['kind'] == 'untyped':
        alt = {'c': 'cn', 'cs': 'csn'}.get(be)
        if alt is None:
            got, err = compile_(binary, fs, be, None, [] if be in ('cn', 'csn') else ['--no-typed-objects'])
            return err or same_bytes(base, got)
        got, err = compile_(binary, fs, alt)
        return err or untyped_effect(base, got, {i.name for i in fs.ifaces()})


def batch(rng, binary):
    fs = rand_set(rng)
    obj = any(fs.has_objects(s.name) for s in fs.structs())
    txt = json.dumps(to_json(fs))
    out = []
    edits = [gen_edit(rng, fs) for _ in range(7)]
    for be in rng.sample([b for b in BES if not (b == 'java' and obj)], 3):
        base, err = compile_(binary, fs, be)
        if base is None:
            out.append(Case(txt + be, False, counts=['skipped: refused']))
            continue
        for e in edits:
            bad = judge(binary, fs, be, e, base)
            out.append(Case(txt + be + json.dumps(e), True, {'backend': be, 'edit': json.dumps(e, ensure_ascii=False)[:700]}, ['edit ' + e['kind'], 'backend ' + be],
                            (e['kind'] + ':' + be, bad, (to_json(fs), be, e)) if bad else None))
    return out


def small(binary, fs, be, e):
    """reduce the edit, then (for edits that do not depend on the text) the set"""
    def fails(e2, f2=fs):
        return bool(judge(binary, f2, be, e2))
    if e['kind'] in ('trivia', 'stray'):
        # single-file edits: put default text back file by file, then reduce the trivia by chunks while validity stays judged by the
        # reference: only whole comment/whitespace runs are dropped
        for k in range(len(e['texts'])):
            t2 = list(e['texts'])
            t2[k] = print_file(fs.files[k])
            if fails(dict(e, texts=t2)):
                e = dict(e, texts=t2)
        if e['kind'] == 'trivia':
            for k in range(len(e['texts'])):
                toks = tokens_file(fs.files[k])
                # recover the gaps
                pos, gaps, txt = 0, [], e['texts'][k]
                for t, g in toks:
                    j = _find(txt, t, pos)
                    gaps.append(txt[pos:j])
                    pos = j + len(t)
                gaps.append(txt[pos:])
                plain = [''] + [None] * len(toks)
                for i in range(len(gaps)):
                    if not gaps[i]:
                        continue
                    repl = '' if i == 0 or i == len(gaps) - 1 else ' '
                    if i and toks[i - 1][1] == GLUE or gaps[i] == repl:
                        continue
                    g2 = gaps[:i] + [repl] + gaps[i + 1:]
                    t2 = ''.join(x + (toks[q][0] if q < len(toks) else '') for q, x in enumerate(g2))
                    tx = list(e['texts'])
                    tx[k] = t2
                    if fails(dict(e, texts=tx)):
                        e, gaps = dict(e, texts=tx), g2
        return fs, e
    if e['kind'] in ('marking', 'untyped'):
        fs = shrink.shrink(fs, lambda x: fails(e, x), 20)
        if e['kind'] == 'marking':
            t = shrink.shrink_text(e['text'], lambda t: fails({'kind': 'marking', 'text': t}, fs), 15)
            e = {'kind': 'marking', 'text': t}
        return fs, e
    for side in ('a', 'b'):
        for x in list(e[side]):
            e2 = dict(e, **{side: [y for y in e[side] if y != x]})
            if (e2['a'] or e2['b']) and fails(e2):
                e = e2
    fs = shrink.shrink(fs, lambda x: all((i, m) in {(q.name, w.name) for q in x.ifaces() for w in q.methods} for s in 'ab' for i, m, _ in e[s]) and fails(e, x), 20)
    return fs, e


def _find(txt, t, pos):
    """position of token t at or after pos, skipping comments"""
    while not txt.startswith(t, pos) or (txt.startswith('/*', pos) and not t.startswith('/*')):
        if txt.startswith('//', pos):
            while pos < len(txt) and txt[pos] not in '\r\n':
                pos += 1
        elif txt.startswith('/*', pos):
            pos = txt.index('*/', pos + 2) + 2
        else:
            pos += 1
        if pos > len(txt):
            raise ValueError(t)
    return pos


def main():
    c = Check('C14')
    binary = build_idlc()
    for sig, msg, (fsj, be, e) in fan(c, batch, 40, 900, 14000, (binary,))[:4]:
        fs = from_json(fsj)
        try:
            f2, e2 = small(binary, fs, be, e)
            m2 = judge(binary, f2, be, e2)
            if m2:
                fs, e, msg = f2, e2, m2
        except Exception as x:
            msg += ' (not shrunk: %r)' % x
        c.violation(sig, '%s\nbackend %s edit %s\n%s' % (msg, be, json.dumps(e)[:3000], '\n'.join(print_file(f) for f in fs.files)),
                    {'fs': to_json(fs), 'be': be, 'edit': e})
    return c.finish(RULE)


def replay(d):
    bad = judge(build_idlc(), from_json(d['fs']), d['be'], d['edit'])
    print(bad or 'no difference beyond what the edit may change')
    return 1 if bad else 0
