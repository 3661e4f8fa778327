"""C04: refused invocations."""
import rtcheck

RULE = ('case = one invocation of a generated skeleton (C, untyped C, C++, Rust): a perturbed one (argument counts, size of a '
        'fixed-size argument, op-code outside the flattened interface, optional method without implementation), with guard '
        'pages around the memory the counts describe, that must be refused without entering the implementation, or a well- '
        'formed call before/after refused ones that must be served; non-trivial = perturbed invocations and calls with '
        'parameters; distinct by invocation contents')


def main():
    return rtcheck.main('C04', RULE, 45, 1200)


def replay(d):
    return rtcheck.replay('C04', d)
