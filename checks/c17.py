"""C17: constants reach every backend with their exact value and declared type; integer range checks are exact."""
import re, struct
from fractions import Fraction
from common import *
from model import *
from gen import Gen, Cfg, const_value, INT_RANGE

RULE = ('case = one constant read in one language (gcc/clang C typed and untyped, g++/clang++, rustc, javac: value, width, signedness; own and '
        'inherited, file and interface level) or one compilation whose acceptance is decided by the exact value of a literal around the '
        'boundaries of its type; non-trivial = every case; distinct by (language, declared type, literal, level)')

CT = {'uint8': 'uint8_t', 'uint16': 'uint16_t', 'uint32': 'uint32_t', 'uint64': 'uint64_t', 'int8': 'int8_t', 'int16': 'int16_t',
      'int32': 'int32_t', 'int64': 'int64_t', 'float32': 'float', 'float64': 'double'}
RT = {'uint8': 'u8', 'uint16': 'u16', 'uint32': 'u32', 'uint64': 'u64', 'int8': 'i8', 'int16': 'i16', 'int32': 'i32', 'int64': 'i64',
      'float32': 'f32', 'float64': 'f64'}
JT = {'uint8': 'byte', 'int8': 'byte', 'uint16': 'char', 'int16': 'char', 'uint32': 'int', 'int32': 'int', 'uint64': 'long', 'int64': 'long',
      'float32': 'float', 'float64': 'double'}
LANGS = ['c', 'cn', 'cpp', 'rust', 'java']


# ------------------------------------------------------------------ exact arithmetic
def exact(lit):
    neg = lit.startswith('-')
    b = lit[1:] if neg else lit
    if b.startswith('0x'):
        v = Fraction(int(b[2:], 16))
    elif '.' in b:
        i, f = b.split('.')
        v = Fraction(int(i + f), 10 ** len(f))
    else:
        v = Fraction(int(b))
    return -v if neg else v


def round_float(v, mant, emin, emax):
    """nearest binary float (ties to even) of |v| as a Fraction, or None on overflow"""
    if v == 0:
        return Fraction(0)
    s, a = (-1, -v) if v < 0 else (1, v)
    e = a.numerator.bit_length() - a.denominator.bit_length()
    if Fraction(2) ** e > a:
        e -= 1
    e = max(e, emin)
    ulp = Fraction(2) ** (e - mant + 1)
    q = a / ulp
    n = q.numerator // q.denominator
    r = q - n
    if r > Fraction(1, 2) or (r == Fraction(1, 2) and n & 1):
        n += 1
    x = n * ulp
    if x >= Fraction(2) ** (emax + 1):
        return None
    return s * x


def f32(v):
    return round_float(v, 24, -126, 127)


def f64(v):
    return round_float(v, 53, -1022, 1023)


def verdict(t, lit):
    """True accept, False refuse, None: not decided by the property"""
    v = exact(lit)
    if t == 'float32':
        return f32(v) is not None
    if t == 'float64':
        return f64(v) is not None
    if '.' in lit:
        return None if v.denominator == 1 else False
    if t[0] == 'u' and lit.startswith('-'):
        return False
    lo, hi = INT_RANGE[t]
    return lo <= v <= hi


def bits(t, lit):
    """expected bit pattern (as unsigned int) of the constant"""
    v = exact(lit)
    if t == 'float32':
        return struct.unpack('<I', struct.pack('<f', float(f32(v))))[0]
    if t == 'float64':
        return struct.unpack('<Q', struct.pack('<d', float(f64(v))))[0]
    return int(v) & ((1 << 8 * PRIMS[t]) - 1)


# ------------------------------------------------------------------ literals
def dec(fr):
    """exact decimal spelling of a dyadic fraction"""
    s = '-' if fr < 0 else ''
    a = abs(fr)
    k = 0
    d = a.denominator
    while d > 1:
        d //= 2
        k += 1
    n = a.numerator * 5 ** k * (1 if k else 1)
    n = a.numerator * 10 ** k // a.denominator
    t = str(n).rjust(k + 1, '0')
    return s + (t if k == 0 else t[:-k] + '.' + t[-k:])


def float_lit(rng, t):
    r = rng.random()
    if r < .3:
        return const_value(rng, t)
    sg = rng.choice(['', '', '-'])
    if r < .45:                                # hexadecimal
        n = rng.choice([1, 2, 4, 8, 9, 13, 16, 20, 30])
        return sg + '0x' + ''.join(rng.choice('0123456789abcdefABCDEF') for _ in range(n))
    if r < .65:                                # a halfway point between neighbours, or next to it
        if t == 'float32':
            b = rng.choice([rng.randrange(0x3f000000, 0x4b000000), rng.randrange(0x30000000, 0x60000000), rng.randrange(1, 1 << 23)])
            a = Fraction(struct.unpack('<f', struct.pack('<I', b))[0])
            c = Fraction(struct.unpack('<f', struct.pack('<I', b + 1))[0])
        else:
            b = rng.randrange(0x3ff0 << 48, 0x4340 << 48)
            a = Fraction(struct.unpack('<d', struct.pack('<Q', b))[0])
            c = Fraction(struct.unpack('<d', struct.pack('<Q', b + 1))[0])
        x = dec((a + c) / 2)
        y = rng.random()
        if y < .3:
            x = (x if '.' in x else x + '.0') + '0' * rng.randrange(0, 30) + '1'
        elif y < .6:
            x = dec(abs((a + c) / 2 - Fraction(1, 2 ** rng.randrange(60, 90))))
        return sg + x
    if r < .8:                                 # huge and tiny
        if rng.random() < .5:
            mx = 38 if t == 'float32' else 308
            n = rng.choice([mx, mx - 1, mx // 2, 17, 20])
            return sg + rng.choice('12') + ''.join(rng.choice('0123456789') for _ in range(n))
        n = rng.choice([7, 20, 37, 44] if t == 'float32' else [7, 20, 100, 307, 320])
        return sg + '0.' + '0' * n + ''.join(rng.choice('0123456789') for _ in range(rng.randrange(1, 20)))
    if r < .9:
        return sg + '0' * rng.randrange(1, 4) + str(rng.randrange(0, 1000)) + rng.choice(['', '.5', '.0', '.10', '.125000'])
    return sg + rng.choice(['0', '0.0', '00', '0x0', '1', '16777217', '16777216', '9007199254740993', '9007199254740992', '0.1', '3.14159265358979323846',
                            '340282346638528859811704183484516925440', '123456789.123456789', '0.30000000000000004', '0x1000001', '0x20000000000001'])


def int_lit(rng, t, v):
    a = abs(v)
    neg = v < 0 or (v == 0 and t[0] != 'u' and rng.random() < .2)
    if rng.random() < .45:
        h = '%x' % a
        h = rng.choice([h, h.upper(), ''.join(rng.choice([c, c.upper()]) for c in h)])
        b = '0x' + '0' * rng.choice([0, 0, 0, 1, 2, 9]) + h
    else:
        b = '0' * rng.choice([0, 0, 0, 0, 1, 2, 9]) + str(a)
    return ('-' if neg else '') + b


def good_lit(rng, t):
    if t.startswith('float'):
        while True:
            l = float_lit(rng, t)
            if verdict(t, l):
                return l
    lo, hi = INT_RANGE[t]
    r = rng.random()
    if r < .35:
        v = rng.choice([lo, hi, lo + 1, hi - 1, 0, 1])
    elif r < .6:
        s = rng.randrange(0, 8 * PRIMS[t])
        v = (1 << s) + rng.randrange(-1, 2)
        if t[0] != 'u' and rng.random() < .5:
            v = -v
        v = max(lo, min(hi, v))
    elif r < .8:
        v = rng.choice([7, 8, 9, 10, 17, 77, 100, 127, 128, 255, 256, 777])
        v = min(v, hi)
    else:
        v = rng.randrange(lo, hi + 1)
    return int_lit(rng, t, v)


def edge_lit(rng, t):
    """any literal, mostly near the boundaries of some type"""
    if rng.random() < .06:
        return '%s%d.%s' % (rng.choice(['', '-']), rng.randrange(300), rng.choice(['0', '5', '25', '00', '10']))
    if t.startswith('float'):
        b = rng.choice([Fraction(2) ** 128 - Fraction(2) ** 103, Fraction(2) ** 128, Fraction(2) ** 127, Fraction(2) ** 1024 - Fraction(2) ** 970,
                        Fraction(2) ** 1024, Fraction(2) ** 64])
        v = abs(int(b) + rng.choice([-2 ** 80, -1, 0, 1, 2 ** 80]))
        s = rng.choice(['', '-'])
        return s + (rng.choice(['0x%x', '0x0%X']) % v if rng.random() < .4 else str(v) + rng.choice(['', '.0', '.5']))
    u = t if rng.random() < .7 else rng.choice(list(INT_RANGE))
    lo, hi = INT_RANGE[u]
    v = rng.choice([lo, hi, lo - 1, hi + 1, lo + 1, hi - 1, -1, 0, -hi, -hi - 2, 2 * hi, 2 ** 64, -2 ** 64, 2 ** 128, 10 ** 50, hi + rng.randrange(1, 300)])
    l = int_lit(rng, u, v)
    if v == 0 and rng.random() < .3:
        l = '-0'
    return l


# ------------------------------------------------------------------ file sets
def gen_set(rng):
    g = Gen(rng, Cfg(files=(1, 3), structs=(0, 1), ifaces=(2, 5), methods=(0, 1), params=(0, 2), consts=(0, 0), errors=(0, 1), depth=4, inherit=.6, obj_structs=False,
                     order='shuffle'))
    fs = g.fileset()
    n = 0

    def const():
        nonlocal n
        n += 1
        t = rng.choice(list(PRIMS))
        return Const(t, '%s%d%s' % (rng.choice(['K', 'k_', 'Max', 'LIMIT_', 'cc', 'u_']), n, rng.choice(['', 'v', '_Z'])), good_lit(rng, t))
    # one name used at interface level by unrelated interfaces
    for f in fs.files:
        for _ in range(rng.randrange(0, 30)):
            f.decls.insert(rng.randint(0, len(f.decls)), const())
    for i in fs.ifaces():
        for _ in range(rng.randrange(0, 16)):
            i.members.insert(rng.randint(0, len(i.members)), const())
        if not i.base and not any(x.base == i.name for x in fs.ifaces()):
            c = const()
            c.name = 'SHARED'
            i.members.append(c)
    return fs


def table(fs):
    """[(file, iface or None, owner or None, const, index)]"""
    out = []
    for f in fs.files:
        for d in f.decls:
            if isinstance(d, Const):
                out.append((f, None, None, d))
            elif isinstance(d, Iface):
                for o, c in fs.flat_consts(d):
                    out.append((f, d, o, c))
    return out


def build_read(binary, fs, d, lang, cc, extra=()):
    """-> {table index: (width, signed 0/1/'f', bits, exact type name)} or raises"""
    T = table(fs)
    src = os.path.join(d, 'src')
    write_set(fs, src)
    errs = gen_all(binary, fs, src, d, [lang], extra)
    if errs:
        raise RuntimeError('refused: %s' % (errs[0],))
    main = fs.files[0].stem
    L = []
    if lang in ('c', 'cn'):
        L.append('#include <stdio.h>\n#include <string.h>\n#include "%s.h"\n' % main)
        L.append('#define IS(x,T) _Generic((x), T: 1, default: 0)\nint main(void) {')
        for k, (f, i, o, c) in enumerate(T):
            n = c.name if i is None else '%s_%s' % (i.name, c.name)
            if c.type.startswith('float'):
                L.append('{ %s v = %s; unsigned long long b = 0; memcpy(&b, &v, sizeof v); printf("%d %%zu f %%llu %%d\\n", sizeof(%s), b, IS(%s, %s)); }'
                         % (CT[c.type], n, k, n, n, CT[c.type]))
            else:
                L.append('printf("%d %%zu %%d %%llu %%d\\n", sizeof(%s), ((%s) - (%s) - 1 < 0), (unsigned long long)(%s), IS(%s, %s));' % (
                    k, n, n, n, n, n, CT[c.type]))
                L.append('printf("- %d %%d\\n", (%s) < 0);' % (k, n))
        L.append('return 0; }')
        p, comp, inc = 'p.c', {'gcc': 'gcc', 'clang': 'clang'}[cc], lang
        cmd = [comp, '-w', p, '-o', 'p', '-I', d + '/' + inc, '-I', RUNTIME_C]
    elif lang == 'cpp':
        L.append('#include <cstdio>\n#include <cstring>\n#include <type_traits>\n#include <cstdint>\n#include <atomic>\n#include "%s.hpp"\n' % main)
        L.append('template<class T> void pr(int k, T v, bool same) { unsigned long long b = 0; memcpy(&b, &v, sizeof v);\n'
                 ' if (std::is_floating_point<T>::value) printf("%d %zu f %llu %d\\n", k, sizeof(T), b, (int)same);\n'
                 ' else printf("%d %zu %d %llu %d\\n", k, sizeof(T), (int)std::is_signed<T>::value, b, (int)same); }\nint main() {')
        for k, (f, i, o, c) in enumerate(T):
            n = c.name if i is None else '%s%s::%s' % ('II'[:1], i.name, c.name) if k % 2 else '%s::%s' % (i.name, c.name)
            L.append('pr<std::remove_cv<decltype(%s)>::type>(%d, %s, std::is_same<std::remove_cv<decltype(%s)>::type, %s>::value);' % (
                n, k, n, n, CT[c.type]))
        L.append('return 0; }')
        p = 'p.cpp'
        cmd = [{'gcc': 'g++', 'clang': 'clang++'}[cc], '-w', p, '-o', 'p', '-I', d + '/cpp', '-I', RUNTIME_C, '-I', RUNTIME_CPP]
    elif lang == 'rust':
        mods = sorted(x[:-3] for x in os.listdir(d + '/rust') if x.endswith('.rs'))
        L.append('#![allow(warnings)]\n#[path = "%s/mod.rs"] pub mod object;\npub mod interfaces {' % RUNTIME_RS)
        for m in mods:
            L.append('#[path = "%s/rust/%s.rs"] pub mod %s;' % (d, m, m))
        L.append('}\ntrait P { fn p(self, k: u32); }')
        for t, r in RT.items():
            w, f = PRIMS[t], t.startswith('float')
            L.append('impl P for %s { fn p(self, k: u32) { println!("{} %d %s {} %s", k, %s); } }' % (
                r, w, 'f' if f else int(t[0] != 'u'), r, 'self.to_bits()' if f else 'self as u64 & (u64::MAX >> %d)' % (64 - 8 * w)))
        L.append('fn main() {')
        for k, (f, i, o, c) in enumerate(T):
            if o is not i:
                continue
            mod = f.stem.lower() if i is None else i.name.lower()
            L.append('P::p(interfaces::%s::%s, %d);' % (mod, c.name.upper(), k))
        L.append('}')
        p = 'p.rs'
        cmd = ['rustc', '--edition', '2021', '--cfg', 'feature="std"', '-A', 'warnings', '-C', 'debuginfo=0', p, '-o', 'p']
    else:
        L.append('package com.qualcomm.qti.mink;\npublic class Probe {')
        for t in ('byte', 'char', 'short', 'int', 'long', 'float', 'double'):
            conv = {'byte': 'v & 0xffL', 'char': 'v & 0xffffL', 'short': 'v & 0xffffL', 'int': 'v & 0xffffffffL', 'long': 'v',
                    'float': 'Float.floatToRawIntBits(v) & 0xffffffffL', 'double': 'Double.doubleToRawLongBits(v)'}[t]
            w = {'byte': 1, 'char': 2, 'short': 2, 'int': 4, 'long': 8, 'float': 4, 'double': 8}[t]
            L.append('static void p(int k, %s v) { System.out.println(k + " %d %s " + Long.toUnsignedString(%s) + " %s"); }' % (
                t, w, 'f' if t in ('float', 'double') else 0 if t == 'char' else 1, conv, t))
        body, meths = [], 0
        for k, (f, i, o, c) in enumerate(T):
            n = '%s.%s' % (f.stem, c.name) if i is None else '%s.%s_%s' % (i.name, i.name, c.name.upper())
            body.append('p(%d, %s);' % (k, n))
        L.append('public static void main(String[] a) {\n%s\n} }' % '\n'.join(body))
        os.makedirs(d + '/j', exist_ok=True)
        open(d + '/j/Probe.java', 'w').write('\n'.join(L))
        srcs = [os.path.join(d, 'java', x) for x in sorted(os.listdir(d + '/java'))] + [d + '/j/Probe.java']
        rtj = os.path.join(VERIF, 'rt/java/com/qualcomm/qti/qms/api/mink')
        srcs += [os.path.join(rtj, x) for x in sorted(os.listdir(rtj))]
        r = run(['javac', '-nowarn', '-proc:none', '-encoding', 'UTF-8', '-d', d + '/cls'] + srcs, cwd=d, timeout=200)
        if r[0]:
            raise RuntimeError('javac: ' + (r[2] or r[1])[:1500])
        r = run(['java', '-Xshare:auto', '-XX:TieredStopAtLevel=1', '-cp', d + '/cls', 'com.qualcomm.qti.mink.Probe'], cwd=d, timeout=200)
        return parse(r)
    open(os.path.join(d, p), 'w').write('\n'.join(L))
    r = run(cmd, cwd=d, timeout=200)
    if r[0]:
        raise RuntimeError('%s: %s' % (cmd[0], (r[2] or r[1])[:1500]))
    return parse(run([d + '/p'], cwd=d))


def parse(r):
    if r[0]:
        raise RuntimeError('probe failed: %s' % r[2][-500:])
    out = {}
    neg = {}
    for ln in r[1].splitlines():
        t = ln.split()
        if t[0] == '-':
            neg[int(t[1])] = t[2] == '1'
        elif len(t) == 5:
            out[int(t[0])] = (int(t[1]), t[2], int(t[3]), t[4], None)
    for k, v in neg.items():
        out[k] = out[k][:4] + (v,)
    return out


def compare(fs, lang, got):
    """-> [(type, what)]"""
    bad = []
    for k, (f, i, o, c) in enumerate(table(fs)):
        if lang == 'rust' and o is not i:
            continue
        where = '%s%s' % (i.name + '.' if i else '', c.name)
        desc = '%s: %s %s = %s' % (lang, c.type, where, c.value)
        if k not in got:
            bad.append((c, desc + ' is missing'))
            continue
        w, sg, b, tn, neg = got[k]
        want, wt = bits(c.type, c.value), PRIMS[c.type]
        fl = c.type.startswith('float')
        zero = fl and want & ((1 << (8 * wt - 1)) - 1) == 0       # also what is too small: its sign is the author's
        if lang in ('c', 'cn'):
            if fl:
                ok = tn == '1' and (b == want or (zero and b in (0, 1 << (8 * wt - 1))))
            else:
                ok = (tn == '1' or (wt < 4 and w == 4 and sg == '1')) and b == int(exact(c.value)) & (2 ** 64 - 1) and neg == (exact(c.value) < 0)
        elif lang == 'java':
            ok = tn == JT[c.type] or (c.type == 'int16' and tn == 'short')
            ok = ok and (b == want or (zero and b in (0, 1 << (8 * wt - 1))))
        else:
            tok = tn == ('1' if lang == 'cpp' else RT[c.type])
            ok = tok and w == wt and (b == want or (zero and b in (0, 1 << (8 * wt - 1))))
        if not ok:
            bad.append((c, '%s is read as width %d, sign %s, bits 0x%x (type %s); expected bits 0x%x' % (desc, w, sg, b, tn, want)))
    return bad


def values(binary, fs, lang, cc, extra=()):
    with scratchdir() as d:
        try:
            return compare(fs, lang, build_read(binary, fs, d, lang, cc, extra))
        except RuntimeError as e:
            return [(None, '%s: %s' % (lang, e))]


def accept(binary, fs, be, extra):
    with scratchdir() as d:
        m = write_set(fs, os.path.join(d, 'src'))
        o = os.path.join(d, 'out')
        os.mkdir(o)
        r = idlc(binary, m, be, o, extra=extra)
        return r[0] == 0, r[2], tree_snapshot(o)


def single(rng, t, lit):
    fs = single_(rng, t, lit)
    for f in fs.files:
        if rng.random() < .4:
            f.dress = str(rng.random())
    return fs


def single_(rng, t, lit):
    c = Const(t, 'KX', lit)
    k = rng.randrange(3)
    if k == 0:
        return FileSet([File('main.idl', [], [c])])
    if k == 1:
        return FileSet([File('main.idl', [], [Iface('IBox', None, [Method('m', []), c])])])
    return FileSet([File('main.idl', ['inc.idl'], []), File('inc.idl', [], [Iface('IBox', None, [c]), Iface('IDer', 'IBox', [])])])


def minimise(binary, fs, lang, cc, extra, bad):
    """keep a single constant if it fails alone"""
    t0 = time.time()
    for c, w in bad[:3]:
        if c is None:
            cs = [x[3] for x in table(fs) if x[1] is x[2]]
        else:
            cs = [c]
        for x in cs[:40]:
            for k in range(2):
                if time.time() - t0 > 30:
                    return fs, bad
                f = FileSet([File('main.idl', [], [x if k == 0 else Iface('IBox', None, [x])])])
                b = values(binary, f, lang, cc, extra)
                if b:
                    return f, b
        if c is not None:
            break
    return fs, bad


def main():
    c = Check('C17')
    c.assumptions += ['Java has no unsigned types: a constant is compared as the bit pattern in the carrier the backend documents for its type (byte, char, int, long)',
                      'C integer constants of up to 16 bits may have the promoted type int (that is what the standard UINT8_C family yields)']
    binary = build_idlc()
    rng = c.rng
    # --- known: int16 has the carrier char in Java
    probe = FileSet([File('main.idl', [], [Const('int16', 'KNEG', '-1')])])
    with scratchdir() as d:
        try:
            got = build_read(binary, probe, d, 'java', None)
            c.known_probe('java-int16-char', got[0][3] == 'char')
        except RuntimeError as e:
            c.violation('build:java', str(e), {'fs': to_json(probe), 'lang': 'java', 'cc': None, 'extra': []})
    # --- accept/reject by exact arithmetic
    jobs = []
    for _ in range(1800 if c.quick else 60000):
        t = rng.choice(list(PRIMS))
        lit = edge_lit(rng, t) if rng.random() < .8 else good_lit(rng, t)
        want = verdict(t, lit)
        if want is None:
            continue
        ub = rng.random() < .25
        if ub and (t.startswith('float') or '.' in lit):
            ub = False
        jobs.append((single(rng, t, lit), rng.choice(['c', 'cs', 'cpp', 'cpps', 'rust', 'java']), ['--allow-undefined-behavior'] if ub else [], t, lit, want, ub))
    for (fs, be, ex, t, lit, want, ub), (ok, err, out) in zip(jobs, pmap(lambda j: accept(binary, j[0], j[1], j[2]), jobs)):
        c.case('ar %s %s %s %s' % (be, t, lit, ub), True)
        c.count('literals_in_range' if want else 'literals_out_of_range')
        if ub:
            c.count('literals_with_undefined_behavior_allowed')
        if ok != (want or ub) and len(c.viol) < 5:
            c.violation('%s:%s:%s%s' % ('accepted' if ok else 'refused', t, 'hex' if '0x' in lit else 'frac' if '.' in lit else 'dec', ':ub' if ub else ''),
                        '%s = %s was %s by %s %s: %s' % (t, lit, 'accepted' if ok else 'refused', be, ex, err[-300:]),
                        {'accept': True, 'fs': to_json(fs), 'be': be, 'extra': ex, 'want': want or ub})
    # --- values
    seen = 0

    def batch(seed):
        r = random.Random(seed)
        fs = gen_set(r)
        res = []
        for lang in LANGS:
            cc = r.choice(['gcc', 'clang'])
            extra = ['--allow-undefined-behavior'] if r.random() < .25 else []
            res.append((lang, cc, extra, values(binary, fs, lang, cc, extra)))
        return fs, res
    while c.budget(45, 900) > 0 and len(c.viol) < 5 and (seen < 60 or not c.quick):
        seeds = ['%s/%d/%d' % (c.tier, c.seed, seen + k) for k in range(12)]
        seen += 12
        for fs, res in pmap(batch, seeds):
            T = table(fs)
            for lang, cc, extra, bad in res:
                c.count('sets_' + lang)
                for (f, i, o, k) in T:
                    if lang == 'rust' and o is not i:
                        continue
                    c.case('%s %s %s %s' % (lang, k.type, k.value, 'file' if i is None else 'own' if o is i else 'inherited'), True,
                           {'lang': lang, 'const': '%s %s = %s' % (k.type, k.name, k.value)})
                    c.count('constants_' + ('file' if i is None else 'own' if o is i else 'inherited'))
                if bad and len(c.viol) < 5:
                    f2, b2 = minimise(binary, fs, lang, cc, extra, bad)
                    k = b2[0][0]
                    c.violation('value:%s:%s' % (lang, k.type if k else 'build'), '; '.join(w for _, w in b2[:3]) + '\n' +
                                '\n'.join(print_file(f) for f in f2.files), {'fs': to_json(f2), 'lang': lang, 'cc': cc, 'extra': extra})
    return c.finish(RULE)


def replay(d):
    binary = build_idlc()
    fs = from_json(d['fs'])
    if d.get('accept'):
        ok, err, _ = accept(binary, fs, d['be'], d['extra'])
        print('accepted' if ok else 'refused', err[-300:])
        return 0 if ok == d['want'] else 1
    bad = values(binary, fs, d['lang'], d['cc'], d['extra'])
    for _, w in bad:
        print('FAILS', w)
    return 1 if bad else 0
