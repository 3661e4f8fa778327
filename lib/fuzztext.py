"""Byte and token level fuzzing of IDL texts (used by C10's acceptance half and by C16)."""
import re
from model import *

TOK = re.compile(r'/\*.*?\*/|//[^\n]*|[A-Za-z_][A-Za-z0-9_]*|\d+|\s+|\};|\);|.', re.S)
KW = ['include', 'const', 'struct', 'interface', 'method', 'error', 'in', 'out', 'buffer', 'optional', '#[optional]'] + list(PRIMS)
PUNCT = [';', '{', '};', '}', '(', ')', ');', ',', '[', ']', '[]', ':', '=', '"', '.', '-', '#', '*', '/', '//', '/*', '*/', '/**\n', '\\', '<', '\0', '@']
NUMS = ['0', '00', '1', '2', '15', '16', '17', '127', '128', '255', '256', '-1', '-128', '-129', '32767', '32768', '65535', '65536', '65537', '0x0', '0x7f', '0x80',
        '0xff', '0x10000', '-0x1', '2147483647', '2147483648', '-2147483648', '-2147483649', '4294967295', '4294967296', '9223372036854775807', '9223372036854775808',
        '-9223372036854775808', '-9223372036854775809', '18446744073709551615', '18446744073709551616', '340282366920938463463374607431768211456', '1' + '0' * 60,
        '0x' + 'f' * 40, '1.5', '-0.0', '3.4028235677973366e38', '3.4e38', '1.', '.5', '0.' + '0' * 60 + '1', '1' + '0' * 400, '1' + '0' * 40 + '.5', '0x', '-', '--1', '+1', '1_000',
        '000000000000000000000000000065535', '0000000000000000065536', '5e-324', '2.2250738585072014', '16777217', '9007199254740993']


def tokens(text):
    return TOK.findall(text)


def idents(ts):
    return sorted({t for t in ts if re.match(r'[A-Za-z_]', t) and t not in KW and t != 'in'})


def mutate_tokens(rng, text, n=None):
    ts = tokens(text)
    ids = idents(ts) or ['x']
    for _ in range(n or rng.choice([1, 1, 1, 1, 2, 2, 3, 6])):
        idx = [k for k, t in enumerate(ts) if not t.isspace()]
        if not idx:
            ts = [rng.choice(KW + PUNCT)]
            continue
        k = rng.choice(idx)
        r = rng.random()
        num = [j for j in idx if ts[j].isdigit()]
        if r < .22 and num:
            ts[rng.choice(num)] = rng.choice(NUMS)
        elif r < .34:
            nm = [j for j in idx if re.match(r'[A-Za-z_]', ts[j])]
            if nm:
                ts[rng.choice(nm)] = rng.choice(ids)
        elif r < .42:
            nm = [j for j in idx if ts[j] in PRIMS]
            if nm:
                ts[rng.choice(nm)] = rng.choice(list(PRIMS) + ['interface', 'buffer'] + ids)
        elif r < .5:
            del ts[k]
        elif r < .56:
            ts.insert(k, ts[k])
        elif r < .64:
            ts.insert(k, ' ' + rng.choice(KW + PUNCT + NUMS + ids) + ' ')
        elif r < .7:
            ts[k] = rng.choice(KW + PUNCT + NUMS + ids)
        elif r < .75:
            j = rng.choice(idx)
            ts[k], ts[j] = ts[j], ts[k]
        elif r < .8:
            j = rng.choice(idx)
            a, b = min(k, j), min(max(k, j), min(k, j) + 60)
            seg = ts[a:b]
            p = rng.choice(idx)
            ts[p:p] = seg
        elif r < .84:
            del ts[k:k + rng.randrange(1, 15)]
        elif r < .9:
            # an array suffix on some type
            ts.insert(k + 1, rng.choice(['[%s]' % rng.choice(NUMS), '[]']))
        elif r < .93:
            ts[k] = ts[k] * rng.choice([2, 3])
        elif r < .96:
            c = ts[k]
            j = rng.randrange(len(c) + 1)
            ts[k] = c[:j] + rng.choice('_-.;{}[]()#"\\$09aZ \n\té\u00a0\u200b') + c[j:]
        else:
            ts[k] = rng.choice(['', ' ', '\r', '\n']) + ts[k]
    return ''.join(ts)


def mutate_bytes(rng, data):
    b = bytearray(data)
    for _ in range(rng.choice([1, 1, 2, 4, 16])):
        r = rng.random()
        k = rng.randrange(len(b) + 1)
        if r < .25 and b:
            b[k % len(b)] ^= 1 << rng.randrange(8)
        elif r < .4:
            b[k:k] = rng.choice([b'\x00', b'\xff', b'\xc3', b'\xe2\x80\xa8', b'\xed\xa0\x80', b'\xf4\x90\x80\x80', b'\xef\xbb\xbf', b'\r', b'\x1a', b'\xc0\xaf'])
        elif r < .55:
            del b[k:k + rng.randrange(1, 9)]
        elif r < .65:
            b = b[:k]
        elif r < .8:
            b[k:k] = b[max(0, k - rng.randrange(1, 40)):k] * rng.choice([1, 1, 2, 20])
        elif r < .9:
            b[k:k] = bytes(rng.randrange(256) for _ in range(rng.randrange(1, 6)))
        else:
            j = rng.randrange(len(b) + 1)
            a, z = min(j, k), max(j, k)
            b = b[z:] + b[a:z] + b[:a]
    return bytes(b)


def soup(rng):
    return ' '.join(rng.choice(KW + PUNCT + NUMS + ['x', 'S', 'I', 'm']) for _ in range(rng.randrange(1, 60)))


def sized(rng):
    """arrays and nestings whose sizes reach and pass every machine limit"""
    out, names = [], []
    prims = list(PRIMS) + ['interface']
    n = rng.randrange(1, 7)
    objs = rng.random() < .25
    for k in range(n):
        cnt = rng.choice(['0', '1', '2', '255', '256', '65535', '65536', '4096', '32768', '65521', '4294967296', '18446744073709551615', '18446744073709551616', '3'])
        t = names[-1] if names and rng.random() < .85 else rng.choice(prims if objs else prims[:-1])
        f = ['%s[%s] a;' % (t, cnt)]
        if rng.random() < .3:
            f.append('%s b;' % rng.choice([t] + (names or [t])))
        if rng.random() < .2:
            f.append('%s[%s] c;' % (t, cnt))
        rng.shuffle(f)
        names.append('S%d' % k)
        out.append('struct S%d { %s };' % (k, ' '.join(f)))
    ps = []
    for j in range(rng.randrange(0, 4)):
        t = rng.choice(names)
        ps.append('%s %s%s p%d' % (rng.choice(['in', 'out']), t, rng.choice(['', '', '[]']), j))
    if rng.random() < .3:
        ps.append('%s interface[%s] q' % (rng.choice(['in', 'out']), rng.choice(['0', '1', '15', '16', '65535', '65536', '99999999999999999999999'])))
    out.append('interface I { method m(%s); };' % ', '.join(ps))
    if rng.random() < .5:
        rng.shuffle(out)
    return '\n'.join(out) + '\n'


def deep(rng, d=None):
    """nesting and repetition inside the stated resource bounds"""
    k = rng.randrange(9)
    if k == 0:
        n = d or rng.randrange(2, 60)
        return ''.join('struct A%d { %s };\n' % (i, 'A%d[%d] a; ' % (i + 1, rng.choice([1, 1, 2])) if i < n else 'uint8 a;') for i in range(n + 1)) + \
            'interface I { method m(in A0 x, out A%d y); };\n' % (n // 2)
    if k == 1:
        n = d or rng.randrange(2, 80)
        return ''.join('interface A%d%s { method m%d(); error E%d; };\n' % (i, ' : A%d' % (i + 1) if i < n else '', i, i) for i in range(n + 1))
    if k == 2:
        n = rng.randrange(2, 12)      # 2^n leaves
        return 'struct A0 { uint8 a; };\n' + ''.join('struct A%d { A%d a; A%d b; };\n' % (i, i - 1, i - 1) for i in range(1, n + 1))
    if k == 3:
        n = rng.choice([100, 1000, 2500])
        return 'interface I { ' + ' '.join('error E%d;' % i for i in range(n)) + '};\n'
    if k == 4:
        n = rng.choice([16, 17, 200, 1500])
        return 'interface I { method m(%s); };\n' % ', '.join('in %s p%d' % (rng.choice(['uint8', 'uint64', 'buffer'][:rng.choice([2, 3])]), i) for i in range(n))
    if k == 5:
        return 'struct %s { uint8 a; };\n' % ('A' + 'b' * rng.choice([254, 1000, 100000]))
    if k == 6:
        return rng.choice(['/*', '//', '/**\n', '/* /* ', '"', '(', '[', '{', '};', ';', '\n']) * rng.choice([1, 10, 3000]) + rng.choice(['', '*/', '\n']) + 'const uint8 K = 1;\n'
    if k == 7:
        n = rng.choice([200, 1000])
        return ''.join('const uint32 K%d = %d;\n' % (i, i) for i in range(n)) + 'struct S { ' + ' '.join('uint8 f%d;' % i for i in range(n)) + ' };\n'
    n = rng.choice([10, 300, 1200])
    return 'interface I {' + ' '.join('%smethod m%d(in uint8 a);' % (rng.choice(['', '#[optional] ']), i) for i in range(n)) + '};\n'
