"""C01: stub-to-skeleton round trip, every backend pairing."""
import rtcheck

RULE = ('case = one call through a generated stub (C, untyped C, C++, Rust) served by a generated skeleton (C, untyped C, C++, Rust) of the '
        'interface or of a derived one, over a copying transport (or directly), with random argument values, lengths, aliased/null '
        'objects, output lengths and status codes; non-trivial = the method has parameters; distinct by backend pair, mode and '
        'argument values')


def main():
    return rtcheck.main('C01', RULE, 45, 1200)


def replay(d):
    return rtcheck.replay('C01', d)
