"""float literals which certainly fit their type"""
from fractions import Fraction


def float_ok(t, lit):
    neg = lit.startswith('-')
    b = lit[1:] if neg else lit
    if b.startswith('0x'):
        return False
    i, _, f = b.partition('.')
    v = Fraction(int(i + f), 10 ** len(f))
    return v < Fraction(2) ** (127 if t == 'float32' else 1023)
