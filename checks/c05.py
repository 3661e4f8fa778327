"""C05: reference counts."""
import rtcheck

RULE = ('case = one call (also failing ones, null and aliased objects, several calls on one object) whose per-object '
        'retain/release ledger must balance: inputs only borrowed, outputs owned by the caller exactly once, implementations '
        'dropped exactly once; non-trivial = the method has parameters; distinct by backend pair, mode and argument values')


def main():
    return rtcheck.main('C05', RULE, 45, 1200)


def replay(d):
    return rtcheck.replay('C05', d)
