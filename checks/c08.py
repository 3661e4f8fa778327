"""C08: error codes are consecutive from 10, ancestors first, and the same in every backend."""
import numbering

RULE = ('case = one error value read from compiled output (C, C++, Rust, Java; own and re-exported by derived interfaces) and compared with the reference numbering; '
        'interface forests over 1-5 files, members of all kinds interleaved; non-trivial = distinct (language, flattened interface) with at least two errors or an ancestor')


def main():
    return numbering.main('C08', RULE, 32, 700)


def replay(d):
    return numbering.replay('C08', d)
