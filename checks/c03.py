"""C03: wire bytes."""
import rtcheck

RULE = ('case = one call through a generated stub whose buffers are compared byte for byte with the reference encoder (bundles, '
        'discrete buffers, blanked object slots), or a reference-encoded request sent to a generated skeleton whose decoded '
        'arguments and reply bytes are compared with the reference; non-trivial = the method has parameters; distinct by '
        'backend pair, mode and argument values')


def main():
    return rtcheck.main('C03', RULE, 45, 1200)


def replay(d):
    return rtcheck.replay('C03', d)
