"""C18: freeze, thaw, mutant."""
import collections
from sx.api import Harness, T
from pyrsistent import freeze, thaw, mutant, pmap, pvector, pset, PMap, PVector, PSet, CheckedPVector, PRecord, field, plist, pdeque, pbag

ASSUMPTIONS = ['dict keys and set elements have lawful equality and hashing']


class CV(CheckedPVector): __type__ = object
class SubList(list): pass
class SubDict(dict): pass
class SubTuple(tuple): pass


# node kinds: L leaf, l list, d dict, D defaultdict, t tuple, s set, v pvector, m pmap, p pset, c checked pvector,
# opaque (never converted): f frozenset, sl/sd list/dict subclasses, st tuple subclass
class Node:
    def __init__(self, kind, ch, keys, real): self.kind = kind; self.ch = ch; self.keys = keys; self.real = real; self.copy = None


def gen(ctx, s):
    if s == 'L': return Node('L', [], [], ctx.obj())
    kind, ch = s
    if kind in ('s', 'p', 'f'):
        xs = [ctx.obj() for _ in range(ch)]
        ctx.limit_hash(xs, 8, 1)
        return Node(kind, [], distinct(ctx, xs), dict(s=set, p=pset, f=frozenset)[kind](xs))
    ns = [gen(ctx, c) for c in ch]
    ks = []
    if kind in ('d', 'D', 'm', 'sd'):
        ks = [ctx.obj() for _ in ch]
        ctx.limit_hash(ks, 8, 1)
        for i in range(len(ks)):
            for j in range(i): ctx.assume(ctx.not_(ks[i] == ks[j]))
        d = {k: n.real for k, n in zip(ks, ns)}
        real = dict(d=lambda: d, D=lambda: collections.defaultdict(list, d), m=lambda: pmap(d), sd=lambda: SubDict(d))[kind]()
    else:
        xs = [n.real for n in ns]
        real = dict(l=list, t=tuple, v=pvector, c=CV, sl=SubList, st=SubTuple, pl=plist, pd=pdeque, pb=pbag)[kind](xs)
    return Node(kind, ns, ks, real)


def distinct(ctx, xs):
    out = []
    for x in xs:
        if not any([bool(y == x) for y in out]): out.append(x)
    return out


OPAQUE = ('L', 'f', 'sl', 'sd', 'st', 'pl', 'pd')


def same_members(ctx, r, xs):
    ctx.check(len(r) == len(xs), 'set size')
    for x in xs: ctx.check(x in r, 'set member')


def frozen(ctx, r, n, strict, label):
    """r is what freeze must make of n."""
    k = n.kind
    if k in OPAQUE or (not strict and k in ('v', 'm', 'c')) or k == 'p':
        ctx.check(ctx.same(r, n.real), label + ' untouched value'); return
    if k in ('l', 'v', 'c'):
        ctx.check(isinstance(r, PVector) and not isinstance(r, CheckedPVector) and len(r) == len(n.ch), label + ' vector')
        for x, c in zip(r, n.ch): frozen(ctx, x, c, strict, label)
    elif k == 't':
        ctx.check(type(r) is tuple and len(r) == len(n.ch), label + ' tuple')
        for x, c in zip(r, n.ch): frozen(ctx, x, c, strict, label)
    elif k in ('d', 'D', 'm'):
        ctx.check(type(r) is PMap and len(r) == len(n.ch), label + ' map')
        for q, c in zip(n.keys, n.ch):
            ctx.check(q in r, label + ' key')
            frozen(ctx, r[q], c, strict, label)
    elif k == 's':
        ctx.check(type(r) is PSet, label + ' set')
        same_members(ctx, r, n.keys)


def thawed(ctx, r, n, strict, label):
    k = n.kind
    if k in OPAQUE or k in ('D', 's') or (not strict and k in ('l', 'd')):
        ctx.check(ctx.same(r, n.real), label + ' untouched value'); return
    if k in ('l', 'v', 'c'):
        ctx.check(type(r) is list and len(r) == len(n.ch), label + ' list')
        for x, c in zip(r, n.ch): thawed(ctx, x, c, strict, label)
    elif k == 't':
        ctx.check(type(r) is tuple and len(r) == len(n.ch), label + ' tuple')
        for x, c in zip(r, n.ch): thawed(ctx, x, c, strict, label)
    elif k in ('d', 'm'):
        ctx.check(type(r) is dict and len(r) == len(n.ch), label + ' dict')
        for q, c in zip(n.keys, n.ch):
            ctx.check(q in r, label + ' key')
            thawed(ctx, r[q], c, strict, label)
    elif k == 'p':
        ctx.check(type(r) is set, label + ' plain set')
        same_members(ctx, r, n.keys)


def intact(ctx, n, label):
    k, r = n.kind, n.real
    if k in ('l', 't', 'v', 'c', 'sl', 'st', 'pl', 'pd'): ctx.check_seq(r, [c.real for c in n.ch], label)
    elif k in ('d', 'D', 'm', 'sd'):
        ctx.check(len(r) == len(n.ch), label)
        for q, c in zip(n.keys, n.ch): ctx.check(q in r and ctx.same(r[q], c.real), label)
    elif k in ('s', 'p', 'f'): same_members(ctx, r, n.keys)
    for c in n.ch: intact(ctx, c, label)


def plain(n): return n.kind in ('L', 'l', 'd', 't', 's', 'f') and all(plain(c) for c in n.ch)


def back(ctx, r, n, label):
    """r equals the plain data n (fresh containers of the same types, same leaves)."""
    ctx.check(type(r) is type(n.real), label + ' type')
    if n.kind in ('l', 't'):
        ctx.check(len(r) == len(n.ch), label + ' length')
        for x, c in zip(r, n.ch): back(ctx, x, c, label)
    elif n.kind == 'd':
        ctx.check(len(r) == len(n.ch), label + ' length')
        for q, c in zip(n.keys, n.ch):
            ctx.check(q in r, label + ' key'); back(ctx, r[q], c, label)
    elif n.kind == 's': same_members(ctx, r, n.keys)
    else: ctx.check(ctx.same(r, n.real), label + ' leaf')


def h_convert(ctx, shape, strict):
    n = gen(ctx, shape)
    a = freeze(n.real, strict=strict) if strict is not None else freeze(n.real)
    frozen(ctx, a, n, strict is not False, 'freeze')
    intact(ctx, n, 'input of freeze')
    b = thaw(n.real, strict=strict) if strict is not None else thaw(n.real)
    thawed(ctx, b, n, strict is not False, 'thaw')
    intact(ctx, n, 'input of thaw')
    if plain(n):
        back(ctx, thaw(a) if strict is not False else thaw(a, strict=False), n, 'thaw(freeze(x))')
        c = freeze(thaw(a))
        frozen(ctx, c, n, True, 'freeze(thaw(freeze))')


def h_alias(ctx, n):
    """The result shares no mutable container with the input."""
    xs = ctx.objs('x', n)
    inner = list(xs); inset = set(); ind = {1: inner}
    src = [inner, ind, (inner, inset)]
    f = freeze(src)
    g = thaw(f)
    inner.append(None); inset.add(5); ind[2] = 3; src.append(4)
    ctx.check(len(f) == 3 and len(f[0]) == n and len(f[1]) == 1 and len(f[1][1]) == n and len(f[2][0]) == n and len(f[2][1]) == 0, 'frozen copy is independent')
    g[0].append(1); g[1][9] = 1; g[2][1].add(1)
    ctx.check(len(f[0]) == n and len(f[1]) == 1 and len(f[2][1]) == 0, 'thawed copy is independent')


def h_mutant(ctx, shape, kw, strictres):
    n = gen(ctx, shape); r = gen(ctx, strictres)
    seen = []
    @mutant
    def f(a, *rest, b=None):
        """doc"""
        seen.append((a, rest, b))
        return r.real
    x = ctx.obj()
    res = f(n.real, x, b=n.real) if kw else f(n.real, x, n.real)
    a, rest, b = seen[0]
    frozen(ctx, a, n, True, 'positional argument')
    ctx.check(ctx.same(rest[0], x), 'leaf argument')
    if kw: frozen(ctx, b, n, True, 'keyword argument'); ctx.check(len(rest) == 1, 'arguments')
    else: frozen(ctx, rest[1], n, True, 'later argument'); ctx.check(b is None, 'keyword default')
    frozen(ctx, res, r, True, 'result')
    ctx.check(len(seen) == 1 and f.__name__ == 'f' and f.__doc__ == 'doc', 'called once, wrapped')
    intact(ctx, n, 'argument'); intact(ctx, r, 'result source')


KIND1 = ['l', 'd', 'D', 't', 'v', 'm', 'c', 'sl', 'sd', 'st', 'pl', 'pd']
LEAFS = [('s', 0), ('s', 2), ('p', 2), ('p', 0), ('f', 1), 'L']


def shapes(tier):
    out = list(LEAFS) + [(k, []) for k in KIND1]
    out += [(k, [c, 'L']) for k in KIND1 for c in ['L', ('s', 2), ('p', 1), ('l', ['L']), ('d', ['L']), ('t', ['L']), ('v', ['L']), ('m', ['L'])]]
    conv = ['l', 'd', 't', 'v', 'm']
    out += [(a, [(b, [(c, [x, 'L'])]), 'L']) for a in conv + ['D', 'c', 'sl'] for b in conv + ['D'] for c in conv for x in ('L', ('s', 1))]
    if tier != 'quick':
        out += [(a, [(b, [(c, [(d, ['L', ('s', 1), ('p', 1)])]), 'L']), ('s', 1)]) for a in conv for b in conv for c in conv for d in conv]
        out += [(a, [(b, ['L', (c, ['L'])]), (d, ['L'])]) for a in KIND1 for b in KIND1 for c in KIND1 for d in conv]
    return out


CHECKS = [
    Harness('convert', h_convert, lambda tier: [dict(shape=s, strict=st) for s in shapes(tier) for st in (None, True, False)], note='nestings of depth <=3 (thorough <=5) of lists, dicts, defaultdicts, tuples, sets, vectors, maps, checked vectors, subclasses, with opaque leaves/keys; strict and not'),
    Harness('alias', h_alias, T([dict(n=n) for n in (0, 1, 3)])),
    Harness('mutant', h_mutant, T([dict(shape=s, kw=k, strictres=r) for s in ['L', ('s', 1), ('l', ['L', ('d', ['L'])]), ('d', [('l', ['L'])]), ('v', [('l', ['L'])]), ('t', [('l', ['L'])])] for k in (False, True) for r in ['L', ('l', [('d', ['L'])]), ('t', [('s', 1)])]])),
]
