"""C19: immutable()."""
from sx.api import Harness, T
from pyrsistent import immutable

ASSUMPTIONS = ['member values are opaque objects with lawful equality and hashing']
MEM = dict(none=[], x=['x'], xy=['x', 'y'], xyz=['x', 'y', 'z'], fro=['x', 'id_'], fro1=['id_'], fro2=['a_', 'b', 'c_'], four=['p', 'q', 'r', 's_'], under=['x', 'x_'], long=['alpha', 'beta', 'gamma', 'delta', 'eps'],
           tricky=['self_', 'klass', 'kwargs', 'map'], names=['fields_to_modify', 'frozen_fields', 'namedtuple'], bet=['a_b', 'ab', 'b_a_'])


def decl(names, how):
    return dict(comma=', '.join(names), space=' '.join(names), nospace=','.join(names), list=list(names), tuple=tuple(names), mixed=',  '.join(names) + ' ')[how]


def same_members(ctx, p, names, vals, label):
    ctx.check(len(p) == len(names), label + ' number of members')
    for n, v in zip(names, vals): ctx.check(ctx.same(getattr(p, n), v), label + ' member')
    ctx.check_seq(p, vals, label + ' unpacking in declaration order')
    for i, v in enumerate(vals): ctx.check(ctx.same(p[i], v), label + ' index')
    ctx.check(tuple(p._fields) == tuple(names), label + ' fields')


def make(names, how, sub, name):
    P = immutable(decl(names, how), name=name) if name else immutable(decl(names, how))
    if sub == 'plain': return P
    class S(P):
        __slots__ = ()
    if sub == 'sub': return S
    class V(P):
        __slots__ = ()
        made = []
        def __new__(cls, *a, **k):
            self = super().__new__(cls, *a, **k)
            V.made.append(self)
            return self
    return V


def h_set(ctx, mem, how, sub, kwctor, name=None):
    names = MEM[mem]
    C = make(names, how, sub, name)
    vals = ctx.objs('v', len(names))
    p = C(**dict(zip(names, vals))) if kwctor else C(*vals)
    same_members(ctx, p, names, vals, 'constructed')
    ctx.check(p.set() is p, 'set without arguments')
    chosen = [n for n in names if ctx.bool('set_' + n)]
    if ctx.choice('unknown', 2): chosen.append(ctx.choice('which', ['zz', 'X', 'x__', '_fields', 'count', 'index', 'set']))
    new = dict((n, ctx.obj('n_' + n)) for n in chosen)
    order = list(chosen)
    if ctx.choice('rev', 2): order.reverse()
    a = ctx.attempt(p.set, **{n: new[n] for n in order})
    bad = [n for n in chosen if n not in names or n.endswith('_')]
    if bad:
        ctx.check(a.err == 'AttributeError', 'non-member or frozen member')
    else:
        ctx.check(a.ok, 'set raised: ' + str(a.err))
        q = a.value
        exp = [new.get(n, v) for n, v in zip(names, vals)]
        ctx.check(type(q) is C, 'class kept')
        same_members(ctx, q, names, exp, 'after set')
        if chosen: ctx.check(q is not p, 'new object')
        else: ctx.check(q is p, 'same object')
        if sub == 'valid' and chosen: ctx.check(C.made[-1] is q, 'constructor of the subclass is used')
        b = ctx.attempt(q.set, **{n: v for n, v in zip(names, vals) if n in chosen})
        ctx.check(b.ok, 'set back')
        same_members(ctx, b.value, names, vals, 'set back')
        same_members(ctx, q, names, exp, 'after another set')
        ctx.check(repr(type(q).__name__) == repr(C.__name__), 'name')
    same_members(ctx, p, names, vals, 'original')
    if names:
        n = names[0]
        ctx.check(ctx.attempt(setattr, p, n, 1).err == 'AttributeError', 'assignment')
        ctx.check(ctx.attempt(delattr, p, n).err == 'AttributeError', 'deletion')
    if sub != 'novalid': ctx.check(ctx.attempt(setattr, p, 'fresh', 1).err == 'AttributeError', 'new attribute')


def h_eq(ctx, mem, sub):
    names = MEM[mem]
    C = make(names, 'list', sub, 'P')
    a, b = ctx.objs('a', len(names)), ctx.objs('b', len(names))
    p, q = C(*a), C(*b)
    e = True
    for x, y in zip(a, b): e = ctx.all([e, x == y])
    ctx.check(ctx.iff(p == q, e), 'equality')
    ctx.check(ctx.iff(p != q, ctx.not_(e)), 'inequality')
    if e: ctx.check(ctx.hash(p) == ctx.hash(q), 'hash')
    ctx.check(ctx.iff(p == tuple(b), e), 'equality with a tuple')


def h_err(ctx, mem, how):
    names = MEM[mem]
    C = make(names, how, 'plain', None)
    ctx.check(C.__name__ == 'Immutable', 'default name')
    vals = ctx.objs('v', len(names) + 1)
    ctx.check(ctx.attempt(C, *vals).err == 'TypeError', 'too many')
    if names: ctx.check(ctx.attempt(C, *vals[:-2]).err == 'TypeError', 'too few')
    ctx.check(ctx.attempt(C, **dict(zip(names + ['zz'], vals))).err == 'TypeError', 'unknown member')


HOW = ['comma', 'space', 'nospace', 'list', 'tuple', 'mixed']
CHECKS = [
    Harness('set', h_set, T([dict(mem=m, how=h, sub=s, kwctor=k, name=n) for m in MEM for h in (HOW if m in ('xy', 'fro', 'none') else ['comma', 'list']) for s in ('plain', 'sub', 'valid') for k in (False, True) for n in ('P', None)]), note='member lists of up to 5 names; every subset of members plus an optional non-member'),
    Harness('eq', h_eq, T([dict(mem=m, sub=s) for m in MEM for s in ('plain', 'sub')])),
    Harness('err', h_err, T([dict(mem=m, how=h) for m in MEM for h in ('comma', 'list')])),
]
