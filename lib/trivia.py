"""Spaces and comments between tokens."""
import random

FREE, WS1, WSONLY, GLUE = 0, 1, 2, 3
FRAG = ['interface', 'method m(in uint32 a);', '};', '{', '*', '**', '* /', '"', "'", 'é日本', '/**', '//', '#[optional]', 'struct S { uint8 a; };',
        'const uint8 K = 1;', 'include "x.idl"', '/', '\\', '%s', '0x1F', 'error E;', '\u2028', '\x0b\x0c', '*\\', '/* x', '?', '//*', '@', '`']


def word(rng):
    return rng.choice(FRAG + ['text', 'a', '1', 'in', 'out'])


def ws(rng, k=None):
    return ''.join(rng.choice([' ', '\t', '\n', '\r\n', '\r', '  ', '    ', '\n\n']) for _ in range(k or rng.choice([1, 1, 1, 2, 3])))


def block(rng):
    """an ordinary /* */ comment"""
    while True:
        t = ' '.join(word(rng) for _ in range(rng.randrange(0, 5)))
        if rng.random() < .4:
            t = rng.choice(['*', '* ', '**', ' ', '\n', '\r\n', '* x\n']) + t
        if rng.random() < .3:
            t = t.replace(' ', rng.choice(['\n', '\n * ', '\r']))
        if rng.random() < .2:
            t += '*'
        # '/**' directly followed by a line break is documentation
        if '*/' not in t and not re_doc(t):
            return '/*' + t + '*/'


def re_doc(t):
    return t.startswith('*') and t[1:2] in ('\n', '\r')


def line(rng):
    while True:
        t = ' '.join(word(rng) for _ in range(rng.randrange(0, 5)))
        if '\n' not in t and '\r' not in t:
            return '//' + t + rng.choice(['\n', '\r\n', '\r', '\n'])


def make_trivia(rng):
    dens = rng.choice([.15, .5, 1.0])
    style = rng.choice(['all', 'all', 'ws', 'comments', 'tight', 'lines'])

    def free():
        out = []
        for _ in range(rng.choice([1, 1, 1, 2, 3])):
            k = rng.random()
            if style == 'ws' or (style == 'all' and k < .4):
                out.append(ws(rng))
            elif style == 'lines' or k < .7:
                out.append(line(rng))
            else:
                out.append(block(rng))
        return ''.join(out)

    def trivia(gap, prev, nxt):
        if gap == GLUE:
            return ''
        if gap == WSONLY:
            return ws(rng)
        s = '' if style == 'tight' or rng.random() > dens else free()
        if gap == WS1:
            return ws(rng, 1) + s
        # a line comment needs its line end even at the end of the file except at EOF
        if not prev.strip() and not s:
            return ''
        return s
    return trivia


def dresser(seed):
    """trivia for everyday file sets: sparse, with documentation blocks before members that have none of their own in the output"""
    rng = random.Random(seed)
    base = make_trivia(rng)
    docs = rng.random() < .7
    nl = rng.choice(['\n', '\n', '\r\n', '\r'])

    def trivia(gap, prev, nxt):
        s = base(gap, prev, nxt)
        if docs and gap == FREE and nxt in ('const', 'error', 'struct', 'interface', '};') and (prev in (';', '{', '};', ');', '') or prev[:1] == '"') and rng.random() < .4:
            d = '/**' + nl + ''.join(rng.choice([' * ', '', '   ', ' *']) + ' '.join(rng.choice(['text', 'a 1', 'K = 300;', '@param x', 'method m();', '#[optional]', '"q"', '<b>'])
                                                                                  for _ in range(rng.randrange(4))) + nl for _ in range(rng.randrange(1, 4))) + ' */'
            s += d + (ws(rng) if rng.random() < .7 else '')
            if rng.random() < .3:
                s += block(rng)
        return s
    return trivia
