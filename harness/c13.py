"""C13: equality is by content and consistent with hash."""
from sx.api import Harness, T
from harness.maplib import find, dset, member, radd
from harness.kinds import CM, CS
from pyrsistent import (pmap, pset, pvector, pbag, plist, pdeque, v as make_v, l as make_l, dq, PRecord, PClass, field, CheckedPVector, PVector)

ASSUMPTIONS = ['elements: equality is an equivalence, equal elements have equal hashes', 'the built-in tuple and frozenset hashes are treated as arbitrary functions of the element hashes (order-insensitive for frozenset)']


class CV(CheckedPVector):
    __type__ = object


class R(PRecord):
    a = field()
    b = field()


class A(PClass):
    a = field()
    b = field()


def pair(ctx, x, y, equal, how, notsym=False):
    """x == y iff equal, hash consistent; how says what is hashed first."""
    if 'x' in how: h0 = ctx.hash(x)
    if 'y' in how: h1 = ctx.hash(y)
    r = x == y
    ctx.check(r == equal, '==')
    ctx.check((x != y) == (not equal), '!=')
    ctx.check((y == x) == equal, '== reversed')
    ctx.check((y != x) == (not equal), '!= reversed')
    ctx.check(x == x and not (x != x), 'equal to itself')
    a, b = ctx.hash(x), ctx.hash(y)
    if equal: ctx.check(a == b, 'hash of equal objects')
    ctx.check((x == y) == equal, '== after hashing')
    ctx.check(ctx.hash(x) == a, 'stable hash')
    if 'x' in how: ctx.check(a == h0, 'hash before and after comparing')


def seq_equal(xs, ys):
    if len(xs) != len(ys): return False
    for a, b in zip(xs, ys):
        if not (a == b): return False
    return True


def mkvec(kind, xs):
    xs = list(xs)
    if kind == 'pv': return pvector(xs)
    if kind == 'v': return make_v(*xs)
    if kind == 'cv': return CV(xs)
    if kind == 'app':
        r = pvector()
        for x in xs: r = r.append(x)
        return r
    if kind == 'cvapp':
        r = CV()
        for x in xs: r = r.append(x)
        return r
    if kind == 'set':
        r = pvector([None] * len(xs))
        for i, x in enumerate(xs): r = r.set(i, x)
        return r
    if kind == 'ev':
        e = pvector(xs[:1] + [None]).evolver()
        for i, x in enumerate(xs): e.set(i, x)
        if len(xs) < 2: e.delete(len(e) - 1)
        return e.persistent()
    if kind == 'slice': return pvector([None] + xs + [None])[1:-1]
    if kind == 'del': return pvector([None] + xs).delete(0)
    if kind == 'pl': return plist(xs)
    if kind == 'cons':
        r = plist()
        for x in reversed(xs): r = r.cons(x)
        return r
    if kind == 'plrev': return plist(list(reversed(xs))).reverse()
    if kind == 'dq': return pdeque(xs)
    if kind == 'dqmax': return pdeque(xs, maxlen=len(xs) + 1)
    if kind == 'dqleft': return pdeque().extendleft(reversed(xs))
    if kind == 'dqmix':
        r = pdeque(xs[:1])
        for x in xs[1:]: r = r.append(x)
        return r
    if kind == 'dqpop': return pdeque([None] + xs + [None]).popleft().pop()
    raise ValueError(kind)


def h_seq(ctx, a, b, na, nb, how):
    xs, ys = ctx.objs('x', na), ctx.objs('y', nb)
    pair(ctx, mkvec(a, xs), mkvec(b, ys), seq_equal(xs, ys), how)


def h_seqlong(ctx, a, b, n, how):
    """n elements, all pairwise the same object except at one arbitrary position."""
    xs = ctx.objs('x', n)
    i = ctx.pick(ctx.int('i', 0, n - 1))
    ys = list(xs)
    ys[i] = ctx.obj('z')
    pair(ctx, mkvec(a, xs), mkvec(b, ys), xs[i] == ys[i], how)


def mapof(ctx, style, ks, vs):
    """A map holding the pairs in order (later ones win), built in one of several ways."""
    if style == 'dict':
        d = {}
        for k, v in zip(ks, vs): d[k] = v
        return pmap(d)
    if style.startswith('pre'):
        m = pmap({}, pre_size=int(style[3:]))
        for k, v in zip(ks, vs): m = m.set(k, v)
        return m
    if style == 'extra':        # with an additional key that is removed again
        t = ctx.obj()
        m = pmap({}, pre_size=1)
        m = m.set(t, t)
        for k, v in zip(ks, vs): m = m.set(k, v)
        return m.discard(t) if not any([t == k for k in ks]) else m
    if style == 'hashed':       # derived from a map whose hash is cached
        m = pmap({}, pre_size=2)
        ctx.hash(m)
        e = m.evolver()
        for k, v in zip(ks, vs):
            e[k] = v
            ctx.hash(e.persistent())
        return e.persistent()
    if style == 'cmap': return CM(dict(zip(ks, vs)))
    raise ValueError(style)


def h_map(ctx, a, b, na, nb, how, lim=None):
    ks, vs = ctx.objs('k', na), ctx.objs('v', na)
    ls, ws = ctx.objs('l', nb), ctx.objs('w', nb)
    if lim: ctx.limit_hash(ks + ls, 16, lim)
    X, Y = mapof(ctx, a, ks, vs), mapof(ctx, b, ls, ws)
    rx, ry = {}, {}
    for k, v in zip(ks, vs): rx = dset(rx, k, v)
    for k, v in zip(ls, ws): ry = dset(ry, k, v)
    equal = len(rx) == len(ry)
    if equal:
        for k in rx:
            f = find(ctx, ry, k)
            if f is None or not (f[0] == rx[k]): equal = False; break
    pair(ctx, X, Y, equal, how)
    if how == 'y':
        ctx.check((X == rx) and not (X != rx), 'equal to a dict with its items')
        ctx.check((X == ry) == equal and (ry == X) == equal, 'equal to another dict')


def setof(ctx, style, xs):
    if style == 'pset': return pset(xs)
    if style.startswith('pre'): return pset(xs, pre_size=int(style[3:]))
    if style == 'adds':
        r = pset([], pre_size=1)
        for x in reversed(xs): r = r.add(x)
        return r
    if style == 'keys': return pmap([(x, 5) for x in xs], pre_size=1).keys()
    if style == 'ckeys': return CM(dict([(x, 5) for x in xs])).keys()
    if style == 'rec':  return None
    if style == 'cset': return CS(xs)
    if style == 'derived':
        r = pset(xs[:1], pre_size=1)
        ctx.hash(r)
        for x in xs[1:]: r = r.add(x)
        return r
    if style == 'union': return pset(xs[:1]) | pset(xs[1:])
    raise ValueError(style)


def h_set(ctx, a, b, na, nb, how, lim=None):
    xs, ys = ctx.objs('x', na), ctx.objs('y', nb)
    if lim: ctx.limit_hash(xs + ys, 16, lim)
    X, Y = setof(ctx, a, xs), setof(ctx, b, ys)
    rx, ry = [], []
    for x in xs: rx = radd(rx, x)
    for y in ys: ry = radd(ry, y)
    pair(ctx, X, Y, len(rx) == len(ry) and all([member(x, ry) for x in rx]), how)


def h_bag(ctx, na, nb, how, lim):
    xs, ys = ctx.objs('x', na), ctx.objs('y', nb)
    if lim: ctx.limit_hash(xs + ys, 16, lim)
    X, Y = pbag(xs), pbag(ys[:1])
    for y in ys[1:]: Y = Y.add(y)
    cnt = lambda l, x: sum([1 for z in l if z == x])
    pair(ctx, X, Y, len(xs) == len(ys) and all([cnt(xs, x) == cnt(ys, x) for x in xs]), how)


def inst(cls, way, d):
    if way == 'new': return cls(**d)
    if way == 'create': return cls.create(d)
    if way == 'set':
        r = cls(a=0) if cls is A else cls()
        for k in reversed(sorted(d)): r = r.set(k, d[k])
        if cls is A and 'a' not in d: r = r.remove('a')
        return r
    e = cls(**d).evolver()
    for k in d: e[k] = d[k]
    return e.persistent()


def h_record(ctx, kind, fa, fb, way, way2, how):
    cls = R if kind == 'record' else A
    da = {f: ctx.obj('a' + f) for f in fa}; db = {f: ctx.obj('b' + f) for f in fb}
    X, Y = inst(cls, way, da), inst(cls, way2, db)
    equal = fa == fb
    for f in (fa if equal else ()):
        if not (da[f] == db[f]): equal = False; break
    pair(ctx, X, Y, equal, how)


class RS(R): pass
class RX(R): c = field()
class AS(A): pass
class AX(A): c = field()
SUBS = dict(R=R, RS=RS, RX=RX, A=A, AS=AS, AX=AX)


def h_subclass(ctx, ca, cb, fa, fb, how):
    """An instance of a class against one of its subclass: records are equal by content, classes if they also declare the same fields."""
    da = {f: ctx.obj('a' + f) for f in fa}; db = {f: ctx.obj('b' + f) for f in fb}
    X, Y = SUBS[ca](**da), SUBS[cb](**db)
    equal = fa == fb and (ca[0] == 'R' or ca[1:] == cb[1:] or 'X' not in ca + cb)
    for f in (fa if equal else ()):
        if not (da[f] == db[f]): equal = False; break
    pair(ctx, X, Y, equal, how)


class Other(PClass):
    a = field()
    b = field()


def h_foreign(ctx, kind, how):
    """Comparing with something of another kind is False either way round and harms nothing."""
    x = ctx.obj('x')
    ctx.limit_hash([x], 8, 1)
    mk = dict(pv=lambda: pvector([x]), cv=lambda: CV([x]), pm=lambda: pmap({x: 1}), cm=lambda: CM({x: 1}), ps=lambda: pset([x]), cs=lambda: CS([x]), pl=lambda: plist([x]), dq=lambda: pdeque([x]), rec=lambda: R(a=x), cls=lambda: A(a=x),
              pv0=lambda: pvector(), pm0=lambda: pmap(), ps0=lambda: pset(), pl0=lambda: plist(), dq0=lambda: pdeque(), rec0=lambda: R(), cls0=lambda: A())
    group = dict(cv='pv', cm='pm', cs='ps', rec='pm', pl='dq')
    fam = lambda k: group.get(k.rstrip('0'), k.rstrip('0'))
    c = mk[kind]()
    if 'h' in how: ctx.hash(c)
    for o in (None, 0, 3.5, 'str', '', object(), len, Ellipsis, type(c), Other(a=x), Other()):
        ctx.check((c == o) is False, 'not equal to something else'); ctx.check((o == c) is False, 'not equal, reversed')
        ctx.check((c != o) is True, 'different from something else'); ctx.check((o != c) is True, 'different, reversed')
    if how[0] == 'o':
        for k in mk:
            if fam(k) == fam(kind) or {fam(k), fam(kind)} == {'dq', 'pl'}: continue
            o = mk[k]()
            ctx.check((c == o) is False and (o == c) is False and (c != o) is True and (o != c) is True, 'collections of different kinds are different')


VK = ['pv', 'app', 'cv', 'ev', 'slice', 'set', 'del', 'cvapp', 'v']
S1 = [(0, 0), (1, 1), (2, 2), (1, 2), (2, 0)]
def combos(kinds, sizes, hows=('',)):
    return [(a, b, i, j, h) for a in kinds for b in kinds for i, j in sizes for h in hows]
dd = lambda a, b, na, nb, how, **k: dict(a=a, b=b, na=na, nb=nb, how=how, **k)
F = ['', 'a', 'b', 'ab']
CHECKS = [
    Harness('sequences', h_seq, T([dd(*c) for c in combos(VK, S1)] + [dd(*c) for c in combos(['pl', 'cons', 'plrev'], S1 + [(3, 3)], ('', 'xy'))] + [dd(*c) for c in combos(['dq', 'dqmax', 'dqleft', 'dqmix', 'dqpop'], S1 + [(3, 3)])],
            [dd(*c) for c in combos(VK, S1 + [(3, 3), (5, 5)], ('', 'x', 'xy'))] + [dd(*c) for c in combos(['pl', 'cons', 'plrev'], S1 + [(3, 3), (5, 5)], ('', 'xy'))] + [dd(*c) for c in combos(['dq', 'dqmax', 'dqleft', 'dqmix', 'dqpop'], S1 + [(3, 3), (5, 5)])]),
            note='sequences of <=3 elements with arbitrary equalities, every pair of ways to build them'),
    Harness('long', h_seqlong, T([dict(a=a, b=b, n=n, how='x') for n in (31, 33, 65) for a, b in (('pv', 'app'), ('cv', 'pv'), ('set', 'ev'), ('pl', 'cons'), ('dq', 'dqmix'))],
            [dict(a=a, b=b, n=n, how='x') for n in (31, 32, 33, 64, 65, 97, 1057) for a, b in (('pv', 'app'), ('cv', 'pv'), ('set', 'ev'), ('pl', 'cons'), ('dq', 'dqmix'))]),
            note='sequences differing in at most one arbitrary position, up to 65 (1057) elements'),
    Harness('foreign', h_foreign, T([dict(kind=k, how=h) for k in ('pv', 'cv', 'pm', 'cm', 'ps', 'cs', 'pl', 'dq', 'rec', 'cls', 'pv0', 'pm0', 'ps0', 'pl0', 'dq0', 'rec0', 'cls0') for h in ('o', 'xh')]), note='every kind but bags (which refuse to be compared with anything else), empty or with one element, against values of other types and collections of other kinds'),
    Harness('subclasses', h_subclass, T([dict(ca=k + a, cb=k + b, fa=i, fb=j, how=h) for k in 'RA' for a in ('', 'S', 'X') for b in ('', 'S', 'X') if a != b and (not a or not b or k == 'R') for i, j in (('', ''), ('a', 'a'), ('ab', 'ab'), ('a', 'b'), ('ab', 'a')) for h in ('', 'xy')]
                                          + [dict(ca=k, cb=k + 'X', fa='a', fb='ac', how='') for k in 'RA']), note='a class and its subclass with and without further fields'),
    Harness('records', h_record, T([dict(kind=k, fa=i, fb=j, way=w, way2=w2, how=h) for k in ('record', 'class') for i in F for j in F for w, w2, h in (('new', 'new', ''), ('set', 'new', 'x'), ('create', 'evolve', 'xy'), ('evolve', 'set', 'y'))]),
            note='all field subsets of two fields, several ways of construction'),
    Harness('bags', h_bag, T([dict(na=i, nb=j, how=h, lim=2) for i, j in ((0, 0), (1, 1), (1, 2), (2, 2)) for h in ('', 'x', 'xy')], [dict(na=i, nb=j, how=h, lim=l) for i, j in ((0, 0), (1, 1), (1, 2), (2, 2), (3, 3)) for h in ('', 'x', 'xy') for l in (1, 2)]),
            note='<=2 elements with repetition'),
    Harness('sets', h_set, T([dd(*c, lim=2) for c in combos(['pset', 'pre1', 'adds', 'keys', 'cset', 'ckeys', 'derived', 'union'], [(1, 1), (2, 2), (1, 2)], ('x',))] + [dd(*c, lim=2) for c in combos(['pset', 'adds', 'keys'], [(0, 0), (2, 2)], ('', 'xy'))] + [dd(*c, lim=1) for c in combos(['pset', 'pre32', 'adds'], [(1, 1), (2, 2)], ('x', ''))],
            [dd(*c, lim=2) for c in combos(['pset', 'pre1', 'adds', 'keys', 'cset', 'ckeys', 'derived', 'union'], [(0, 0), (1, 1), (2, 2), (1, 2), (0, 1)], ('', 'x', 'xy'))]),
            note='<=2 elements each, hash mod 16 in {0,1}'),
    Harness('maps', h_map, T([dd(*c, lim=2) for c in combos(['dict', 'pre1', 'hashed', 'extra', 'cmap'], [(1, 1), (1, 2)], ('x', 'y'))] + [dd(*c, lim=2) for c in combos(['dict', 'pre1', 'hashed'], [(2, 2)], ('xy', 'y'))] + [dd(*c) for c in combos(['pre1', 'pre2', 'dict'], [(1, 1), (0, 1), (0, 0)], ('', 'xy', 'y'))] + [dd(*c, lim=1) for c in combos(['pre32', 'dict'], [(2, 2)], ('xy',))],
            [dd(*c, lim=2) for c in combos(['dict', 'pre1', 'hashed', 'extra', 'cmap'], [(0, 0), (1, 1), (1, 2), (2, 2)], ('', 'x', 'y', 'xy'))]),
            note='<=2 entries each with arbitrary key and value equalities, bucket counts 1, 2, 8 and growth; hash mod 16 in {0,1} in part'),
]
