"""Delta debugging of a failing model: greedy removal/simplification while the predicate still fails."""
import time
from model import *


def candidates(fs):
    """yields functions mutating a clone"""
    nf = len(fs.files)
    for k in range(nf):
        if fs.files[k].dress is not None:
            def plain(c, k=k):
                c.files[k].dress = None
            yield plain
    if fs.incdirs or any('/' in f.path for f in fs.files):
        def flat(c):
            c.incdirs = []
            for f in c.files:
                f.path = os.path.basename(f.path)
                f.includes = [os.path.basename(x) for x in f.includes]
        yield flat
    for k in range(nf - 1, 0, -1):
        def merge(c, k=k):
            f = c.files.pop(k)
            base = os.path.basename(f.path)
            c.files[0].decls = f.decls + c.files[0].decls
            for g in c.files:
                g.includes = [x for x in g.includes if os.path.basename(x) != base]
            c.files[0].includes += [x for x in f.includes if x not in c.files[0].includes
                                    and os.path.basename(x) != os.path.basename(c.files[0].path)]
        yield merge
    for k in range(nf):
        n = len(fs.files[k].decls)
        size = n
        while size >= 1:
            for a in range(0, n, size):
                def cut(c, k=k, a=a, size=size):
                    del c.files[k].decls[a:a + size]
                yield cut
            size //= 2
    for k in range(nf):
        for j, d in enumerate(fs.files[k].decls):
            if isinstance(d, Iface):
                if d.base:
                    def nobase(c, k=k, j=j):
                        c.files[k].decls[j].base = None
                    yield nobase
                n = len(d.members)
                size = n
                while size >= 1:
                    for a in range(0, n, size):
                        def cutm(c, k=k, j=j, a=a, size=size):
                            del c.files[k].decls[j].members[a:a + size]
                        yield cutm
                    size //= 2
                for mi, m in enumerate(d.members):
                    if isinstance(m, Method):
                        for pi in range(len(m.params)):
                            def cutp(c, k=k, j=j, mi=mi, pi=pi):
                                del c.files[k].decls[j].members[mi].params[pi]
                            yield cutp
                        if m.doc is not None:
                            def nodoc(c, k=k, j=j, mi=mi):
                                c.files[k].decls[j].members[mi].doc = None
                            yield nodoc
                        if m.optional:
                            def noopt(c, k=k, j=j, mi=mi):
                                c.files[k].decls[j].members[mi].optional = False
                            yield noopt
                        for pi, p in enumerate(m.params):
                            if isinstance(p.arr, int) and p.arr > 1:
                                def a1(c, k=k, j=j, mi=mi, pi=pi):
                                    c.files[k].decls[j].members[mi].params[pi].arr = 1
                                yield a1
            if isinstance(d, Struct):
                for fi, f in enumerate(d.fields):
                    if len(d.fields) > 1:
                        def cutf(c, k=k, j=j, fi=fi):
                            del c.files[k].decls[j].fields[fi]
                        yield cutf
                    if f.count:
                        def one(c, k=k, j=j, fi=fi):
                            c.files[k].decls[j].fields[fi].count = None
                        yield one


def shrink(fs, fails, seconds=60, check_valid=True):
    """fails(fs) -> bool. Returns the smallest failing model found within the time limit."""
    t0 = time.time()
    best = fs.clone()
    progress = True
    while progress and time.time() - t0 < seconds:
        progress = False
        for mut in list(candidates(best)):
            if time.time() - t0 > seconds:
                break
            c = best.clone()
            try:
                mut(c)
            except IndexError:
                continue
            if check_valid and not valid(c):
                continue
            try:
                bad = fails(c)
            except Exception:
                bad = False
            if bad:
                best, progress = c, True
                break
    return best


def shrink_text(text, fails, seconds=30):
    """line/char delta debugging for raw inputs"""
    t0 = time.time()
    cur = text
    for unit in ('line', 'char'):
        parts = cur.splitlines(True) if unit == 'line' else list(cur)
        if isinstance(cur, bytes) and unit == 'char':
            parts = [cur[i:i + 1] for i in range(len(cur))]
        size = max(1, len(parts) // 2)
        while size >= 1 and time.time() - t0 < seconds:
            i, changed = 0, False
            while i < len(parts) and time.time() - t0 < seconds:
                cand = parts[:i] + parts[i + size:]
                t = (b'' if isinstance(cur, bytes) else '').join(cand)
                if fails(t):
                    parts, changed = cand, True
                else:
                    i += size
            if not changed:
                size //= 2
        cur = (b'' if isinstance(cur, bytes) else '').join(parts)
    return cur
