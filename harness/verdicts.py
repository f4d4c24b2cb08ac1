"""Types and invariants whose verdict on an opaque object is an arbitrary predicate chosen by the solver."""
CTX = [None]


class _VMeta(type):
    def __instancecheck__(cls, x):
        return bool(CTX[0].pred('is' + cls.__name__, x))


class T1(metaclass=_VMeta): pass
class T2(metaclass=_VMeta): pass
class T3(metaclass=_VMeta): pass
class T4(metaclass=_VMeta): pass
class T5(metaclass=_VMeta): pass
class T6(metaclass=_VMeta): pass


def verdict(name, *xs):
    """Conjunction of the predicate over the arguments."""
    return all([bool(CTX[0].pred(name, x)) for x in xs])


def inv(name):
    """An invariant (True/False, code): the code identifies invariant and element."""
    return lambda *xs: (verdict(name, *xs), (name,) + xs)


def codes_match(ctx, got, expected):
    """Same set of codes: tuples (name, element...), flattened one level if merged."""
    flat = []
    for c in got:
        if type(c) is tuple and c and type(c[0]) is tuple: flat += list(c)
        else: flat.append(c)
    same = lambda a, b: type(a) is tuple and type(b) is tuple and len(a) == len(b) and a[0] == b[0] and bool(ctx.all([ctx.same(x, y) for x, y in zip(a[1:], b[1:])]))
    for e in expected:
        if not any([same(e, g) for g in flat]): return False
    for g in flat:
        if not any([same(e, g) for e in expected]): return False
    return True
