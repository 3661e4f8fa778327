"""C07: op-codes follow declaration order, ancestors first, are bounded and the same in every backend."""
import numbering
from common import *
from model import *

RULE = ('case = one op-code fact: constant read from compiled output (C, C++, Java), op-code a stub sends (C, C++, Rust, Java), or method a skeleton enters for an op-code '
        '(all ops of the flattened interface and some beyond), against the reference numbering; plus acceptance at the bound 0x3FFF; interface forests over 1-5 files, '
        'members interleaved; non-trivial = distinct (language, flattened interface) with at least two methods or an ancestor')
LIMIT = 0x4000


def chain_set(parts, noise):
    D = []
    for k, n in enumerate(parts):
        mem = []
        for j in range(n):
            mem.append(Method('m%d_%d' % (k, j), []))
            if noise and j % 997 == 0:
                mem += [Err('E%d_%d' % (k, j)), Const('uint8', 'K%d_%d' % (k, j), '1')]
        D.append(Iface('I%d' % k, 'I%d' % (k - 1) if k else None, mem))
    return FileSet([File('main.idl', [], D)])


def limit(c, binary):
    """interfaces with 0x4000 methods are accepted with op-code 0x3FFF last; one more is refused"""
    rng, jobs = c.rng, []
    for n in (LIMIT, LIMIT + 1, LIMIT + rng.randrange(2, 50)):
        for k in (1, 2, 3):
            if k == 1:
                parts = [n]
            elif k == 2:
                a = rng.choice([1, n - 1, LIMIT if n > LIMIT else n // 2, rng.randrange(1, n)])
                parts = [a, n - a]
            else:
                a, b = rng.randrange(1, n // 2), rng.randrange(0, n // 3)
                parts = [a, b, n - a - b]
            for be in ['c', 'cpp', 'cs', 'rust', 'java'] if n > LIMIT else [rng.choice(['c', 'cpp', 'cs'])]:
                jobs.append((parts, be, n <= LIMIT, rng.random() < .5))

    def one(j):
        parts, be, ok, noise = j
        fs = chain_set(parts, noise)
        with scratchdir() as d:
            m = write_set(fs, d + '/src')
            os.mkdir(d + '/out')
            r = idlc(binary, m, be, d + '/out', timeout=240)
            val = None
            if ok and r[0] == 0 and be in ('c', 'cpp'):
                last = [k for k, n in enumerate(parts) if n][-1]
                inc = out_name('main', be)
                n = ('I%d_OP_m%d_%d' if be == 'c' else 'I%d::OP_m%d_%d') % (last, last, parts[last] - 1)
                open(d + '/p.cpp', 'w').write('#include <cstdint>\n#include <cstdio>\n#include "%s"\nint main() { printf("%%lld", (long long)%s); }\n' % (inc, n)) \
                    if be == 'cpp' else open(d + '/p.c', 'w').write('#include <stdio.h>\n#include "%s"\nint main(void) { printf("%%lld", (long long)%s); return 0; }\n' % (inc, n))
                if be == 'c':
                    # only the defines matter
                    h = open(d + '/out/main.h').read()
                    open(d + '/out/main.h', 'w').write('\n'.join(x for x in h.splitlines() if x.startswith('#define I')) + '\n')
                    q = run(['gcc', '-w', d + '/p.c', '-I', d + '/out', '-o', d + '/p'], timeout=200)
                    val = run([d + '/p'])[1] if q[0] == 0 else 'compile: ' + q[2][-300:]
            wrote = bool(os.listdir(d + '/out'))
            return r[0], val, wrote, r[2][-300:]
    for (parts, be, ok, noise), (rc, val, wrote, err) in zip(jobs, pmap(one, jobs)):
        c.case('limit %s %s' % (parts, be), True, {'limit': parts, 'backend': be, 'rc': rc} if len(parts) > 1 else None)
        c.count('limit_' + ('accepted' if ok else 'refused'))
        msg = None
        if ok and rc != 0:
            msg = '%s refused %d methods: %s' % (be, sum(parts), err)
        elif ok and val is not None and val != str(LIMIT - 1):
            msg = 'the last of %d methods has op-code %s' % (sum(parts), val)
        elif not ok and (rc == 0 or rc == 'timeout'):
            msg = '%s accepted a chain of %s methods (rc %s)' % (be, parts, rc)
        if msg:
            c.violation('limit:' + be, msg, {'limit': parts, 'be': be, 'ok': ok, 'noise': noise})


def main():
    return numbering.main('C07', RULE, 45, 1000, pre=limit)


def replay(d):
    if 'limit' in d:
        fs = chain_set(d['limit'], d['noise'])
        with scratchdir() as t:
            m = write_set(fs, t + '/src')
            os.mkdir(t + '/out')
            r = idlc(build_idlc(), m, d['be'], t + '/out', timeout=240)
        print(r[0], r[2][-300:])
        return 0 if (r[0] == 0) == d['ok'] else 1
    return numbering.replay('C07', d)
