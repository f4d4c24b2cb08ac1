"""C09: sets behave like built-in sets."""
from sx.api import Harness, T
from harness.maplib import check_set, member, radd, rdel
from harness.kinds import CS
from pyrsistent import pmap, pset, s as make_s, PSet, CheckedPMap, PRecord, field

ASSUMPTIONS = ['elements: equality is an equivalence, equal elements have equal hashes']
OPS = ['add', 'remove', 'discard', 'update', 'update2', 'evolve']
KINDS = ('set', 'cset', 'keys', 'ckeys')


def elems(ctx, n, lim):
    xs = [ctx.obj() for _ in range(n)]
    if lim: ctx.limit_hash(xs, 8, lim)
    return xs


class TM(CheckedPMap):
    __key_type__ = object
    __value_type__ = str
    __invariant__ = lambda k, v: (v == 'val', 'other value')
class Rec(PRecord):
    a = field(type=str)
    b = field(type=str)


def mk(kind, pre, xs):
    if kind == 'set': return pset(xs, pre_size=pre)
    if kind == 'cset': return CS(xs)
    if kind == 'keys': return pmap([(x, 7) for x in xs], pre_size=pre).keys()
    if kind == 'ckeys': return TM(dict([(x, 'val') for x in xs])).keys()
    return set(xs)


def dedup(xs):
    r = []
    for x in xs: r = radd(r, x)
    return r


def h_history(ctx, kind, pre, n, ops, lim=None):
    xs = elems(ctx, n, lim)
    st = mk(kind, pre, xs); ref = dedup(xs)
    cls = type(st)
    for op in ops:
        x, = elems(ctx, 1, lim)
        if op == 'add': st = st.add(x); ref = radd(ref, x)
        elif op == 'discard': st = st.discard(x); ref = rdel(ref, x)
        elif op == 'remove':
            a = ctx.attempt(st.remove, x)
            if member(x, ref):
                ctx.check(a.ok, 'remove raised'); st = a.value; ref = rdel(ref, x)
            else: ctx.check(a.err == 'KeyError', 'remove of an absent element')
        elif op == 'update': st = st.update(iter([x])); ref = radd(ref, x)
        elif op == 'update2':
            y, = elems(ctx, 1, lim)
            st = st.update([x, y]); ref = radd(radd(ref, x), y)
        else:
            y, = elems(ctx, 1, lim)
            e = st.evolver().add(x)
            a = ctx.attempt(e.remove, y)
            ref = radd(ref, x)
            ctx.check(a.ok == member(y, ref), 'evolver remove')
            ref = rdel(ref, y)
            st = e.persistent()
    ctx.check(type(st) is cls, 'class')
    check_set(ctx, st, ref, 'set', elems(ctx, 1, lim))
    ctx.check(st == set(ref), 'equal to a built-in set')
    ctx.check(not (st != frozenset(ref)), 'not unequal to a frozenset')


def h_build(ctx, n, how):
    """Construction with the default number of buckets."""
    xs = elems(ctx, n, None)
    if how == 'list': st = pset(list(xs))
    elif how == 'iter': st = pset(iter(xs))
    elif how == 's': st = make_s(*xs)
    elif how == 'set': st = pset(set(xs))
    elif how == 'pset': st = pset(pset(xs))
    else: st = pset(xs, pre_size=how)
    check_set(ctx, st, dedup(xs), 'built')


BIN = ['or', 'and', 'sub', 'xor', 'union', 'intersection', 'difference', 'symmetric_difference', 'cmp', 'isdisjoint']


def h_binary(ctx, a, b, na, nb, op, lim, pre=1):
    xs = elems(ctx, na, lim); ys = elems(ctx, nb, lim)
    A = mk(a, pre, xs); B = mk(b, pre, ys) if b != 'list' else list(ys)
    ra, rb = dedup(xs), dedup(ys)
    ia = [x for x in ra if member(x, rb)]
    if op in ('or', 'union'):
        R = A | B if op == 'or' else A.union(B)
        exp = ra + [y for y in rb if not member(y, ra)]
    elif op in ('and', 'intersection'):
        R = A & B if op == 'and' else A.intersection(B)
        exp = ia
    elif op in ('sub', 'difference'):
        R = A - B if op == 'sub' else A.difference(B)
        exp = [x for x in ra if not member(x, rb)]
    elif op in ('xor', 'symmetric_difference'):
        R = A ^ B if op == 'xor' else A.symmetric_difference(B)
        exp = [x for x in ra if not member(x, rb)] + [y for y in rb if not member(y, ra)]
    elif op == 'isdisjoint':
        ctx.check(A.isdisjoint(B) == (not ia), 'isdisjoint')
        return
    else:
        sub = len(ia) == len(ra); sup = len(ia) == len(rb)
        ctx.check((A <= B) == sub, '<='); ctx.check((A >= B) == sup, '>=')
        ctx.check((A < B) == (sub and not sup), '<'); ctx.check((A > B) == (sup and not sub), '>')
        ctx.check((A == B) == (sub and sup), '=='); ctx.check((A != B) == (not (sub and sup)), '!=')
        if a != 'builtin':
            ctx.check(A.issubset(B) == sub and A.issuperset(B) == sup, 'issubset/issuperset')
        return
    ctx.check(isinstance(R, PSet), 'result is a persistent set')
    check_set(ctx, R, exp, 'result')
    check_set(ctx, A, ra, 'left operand', deep=False)
    if b != 'list': check_set(ctx, B, rb, 'right operand', deep=False)


weight = lambda o: sum(2 if x in ('update2', 'evolve') else 1 for x in o)
def seqs(k): return [[]] if k == 0 else [[o] + r for o in OPS for r in seqs(k - 1)]
def h_misc(ctx):
    """Calls that must fail like built-in sets, and things that are not sets."""
    x, y = ctx.objs('x', 2)
    st = pset([x], pre_size=1)
    ctx.check(not (st == [x]) and st != [x], 'not equal to a list')
    for f in (lambda: st <= [x], lambda: st < 3, lambda: st >= None, lambda: st > 'a'):
        ctx.check(ctx.attempt(f).err == 'TypeError', 'ordering against a non-set')
    ctx.check(ctx.attempt(lambda: st | 3).err == 'TypeError', 'union with a non-iterable')
    ctx.check(st.copy() is st, 'copy')
    ctx.check(len(pset()) == 0 and not pset() and x not in pset() and list(pset()) == [], 'empty set')


SIZES = [(0, 1), (1, 0), (1, 1), (2, 1), (1, 2)]
from harness import biglib
BOPS = [['set'], ['del'], ['seti', 'deli'], ['upd'], ['upddict'], ['some', 'set'], ['drain'], ['drain1', 'set'], ['half', 'set']]
def h_record_keys(ctx, which):
    """The key set of a record is an ordinary set."""
    x = ctx.obj('x')
    ctx.limit_hash([x], 8, 1)
    r = Rec(**dict((n, 'v') for n in which))
    ks = r.keys()
    check_set(ctx, ks, list(which), 'keys of the record')
    check_set(ctx, ks.add(x), list(which) + [x], 'with another element')
    check_set(ctx, ks.update([x, 'a']), dedup(list(which) + [x, 'a']), 'update')
    check_set(ctx, ks | pset([x]), list(which) + [x], 'union')
    e = ks.evolver(); e.add(x); e.add('zz')
    check_set(ctx, e.persistent(), list(which) + [x, 'zz'], 'evolver')
    if which: check_set(ctx, ks.remove(which[0]).add(x), list(which[1:]) + [x], 'removed and added')
    ctx.check(sorted(r.keys()) == sorted(which) and r == dict((n, 'v') for n in which), 'record unchanged')


CHECKS = [
    Harness('recordkeys', h_record_keys, T([dict(which=w) for w in ('', 'a', 'ab')])),
    Harness('misc', h_misc, T([{}])),
    Harness('build', h_build, T([dict(n=n, how=h) for n in (0, 1, 2) for h in ('list', 'iter', 's', 'set', 'pset', 1, 2)] + [dict(n=3, how=1)], [dict(n=n, how=h) for n in (0, 1, 2, 3) for h in ('list', 'iter', 's', 'set', 'pset', 1, 2)]),
            note='<=2 (3) elements, every way of construction, default and small bucket counts'),
    Harness('history', h_history, T(
        [dict(kind='set', pre=1, n=n, ops=o) for n in (0, 1) for k in (1, 2) for o in seqs(k) if n + weight(o) <= 3] +
        [dict(kind=k, pre=1, n=1, ops=o, lim=2) for k in ('cset', 'keys', 'ckeys') for o in seqs(1)] + [dict(kind='cset', pre=1, n=1, ops=o, lim=1) for o in seqs(2) if weight(o) <= 3],
        [dict(kind='set', pre=p, n=n, ops=o) for p in (1, 2) for n in (0, 1, 2) for k in (1, 2) for o in seqs(k)] + [dict(kind='set', pre=1, n=1, ops=o) for o in seqs(3)] +
        [dict(kind=k, pre=1, n=1, ops=o, lim=2) for k in ('cset', 'keys', 'ckeys') for o in seqs(2)]),
        note='<=1 elements then every sequence of <=2 operations, 1 bucket growing; checked sets hash mod 8 in {0,1}'),
    Harness('binary', h_binary, T(
        [dict(a='set', b=b, na=i, nb=j, op=o, lim=2) for b in ('set', 'builtin', 'keys') for i, j in SIZES for o in BIN] +
        [dict(a='builtin', b=b, na=i, nb=j, op=o, lim=2) for b in ('set', 'keys', 'cset') for i, j in SIZES for o in ('cmp', 'or', 'and', 'sub', 'xor')] +
        [dict(a='set', b='list', na=i, nb=j, op=o, lim=2) for i, j in SIZES for o in BIN if o != 'cmp'] +
        [dict(a=a, b='set', na=1, nb=1, op=o, lim=2) for a in ('cset', 'keys', 'ckeys') for o in BIN],
        [dict(a=a, b=b, na=i, nb=j, op=o, lim=2) for a in KINDS for b in KINDS + ('builtin',) for i, j in SIZES + [(2, 2)] for o in BIN]),
        note='operands of <=2 elements, hash mod 8 in {0,1}'),
    Harness('big', biglib.h_objects, T([dict(kind=k, n=n, ops=o) for k in ('set', 'keys') for n in (5, 6, 17) for o in BOPS] + [dict(kind=k, n=n, ops=o) for k in ('set', 'keys') for n in (5, 6) for o in (['fill'], ['fill', 'set', 'drainrev'])] + [dict(kind=k, n=n, ops=o) for k in ('set', 'keys') for n in (40, 530) for o in (['set'], ['half', 'set'], ['upd'])],
            [dict(kind=k, n=n, ops=o, sym=sy) for k in ('set', 'keys') for n in (3, 5, 6, 11, 12, 17, 40) for o in BOPS + [['fill'], ['fill', 'set', 'drainrev'], ['drain', 'some', 'set'], ['set', 'del', 'half']] for sy in (0, 1, 2)] + [dict(kind=k, n=n, ops=o) for k in ('set', 'keys') for n in (530, 2000) for o in (['set'], ['half', 'set'], ['upd'])]),
            note='maps and sets of up to 530 (2,000) fixed keys and up to 4 arbitrary ones, whose hash falls into one of two buckets'),
]
