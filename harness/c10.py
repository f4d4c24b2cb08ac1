"""C10: bags count elements exactly."""
from sx.api import Harness, T
from harness.maplib import member
from pyrsistent import pbag, b as make_b, PBag, pmap

ASSUMPTIONS = ['elements: equality is an equivalence, equal elements have equal hashes']
OPS = ['add', 'remove', 'update', 'update_iter', 'update0']


def elems(ctx, n, lim):
    xs = [ctx.obj() for _ in range(n)]
    if lim: ctx.limit_hash(xs, 8, lim)
    return xs


def count(ref, x):
    n = 0
    for y in ref:
        if y == x: n = n + 1
    return n


def drop1(ref, x):
    for i, y in enumerate(ref):
        if y == x: return ref[:i] + ref[i + 1:]
    return None


def distinct(ref):
    r = []
    for x in ref:
        if not member(x, r): r.append(x)
    return r


def check_bag(ctx, bag, ref, label, probes=()):
    """ref is a list with repetitions."""
    ctx.check(type(bag) is PBag, label + ' class')
    ctx.check(len(bag) == len(ref), label + ' len')
    ctx.check(bool(bag) == bool(ref), label + ' truth')
    its = list(bag)
    ctx.check(len(its) == len(ref), label + ' iteration length')
    for x in distinct(ref):
        n = count(ref, x)
        ctx.check(bag.count(x) == n, label + ' count'); ctx.check(x in bag, label + ' membership')
        ctx.check(count(its, x) == n, label + ' iteration')
    for q in probes:
        ctx.check(bag.count(q) == count(ref, q), label + ' probe count'); ctx.check((q in bag) == (count(ref, q) > 0), label + ' probe membership')


def h_history(ctx, n, ops, lim, build='pbag'):
    xs = elems(ctx, n, lim)
    bag = pbag(xs) if build == 'pbag' else make_b(*xs) if build == 'b' else pbag(iter(xs))
    ref = list(xs)
    vs = [(bag, ref)]
    for op in ops:
        if op == 'update0':
            bag = bag.update([])
        else:
            x, = elems(ctx, 1, lim)
            if op == 'add': bag = bag.add(x); ref = ref + [x]
            elif op == 'remove':
                a = ctx.attempt(bag.remove, x)
                r = drop1(ref, x)
                if r is None: ctx.check(a.err == 'KeyError', 'removing an absent element')
                else:
                    ctx.check(a.ok, 'remove raised'); bag = a.value; ref = r
            else:
                y, = elems(ctx, 1, lim)
                bag = bag.update([x, y] if op == 'update' else iter([x, y])); ref = ref + [x, y]
        vs.append((bag, ref))
    q = elems(ctx, 1, lim)
    for i, (bg, r) in enumerate(vs): check_bag(ctx, bg, r, 'bag', q if i == len(vs) - 1 else ())
    rev = pbag(list(reversed(vs[-1][1])))
    ctx.check(vs[-1][0] == rev and not (vs[-1][0] != rev), 'equal to the bag built in reverse order')
    for bg, r in vs[:-1]:
        if len(r) != len(vs[-1][1]): ctx.check(bg != rev and not (bg == rev), 'bags of different size are unequal')


def h_binary(ctx, na, nb, op, lim):
    xs = elems(ctx, na, lim); ys = elems(ctx, nb, lim)
    A, B = pbag(xs), pbag(ys)
    if op == 'eq':
        same = len(xs) == len(ys)
        for x in distinct(xs):
            if count(xs, x) != count(ys, x): same = False
        ctx.check((A == B) == same, '=='); ctx.check((A != B) == (not same), '!=')
        return
    R = A + B if op == 'add' else A - B if op == 'sub' else A | B if op == 'or' else A & B
    exp = []
    for x in distinct(xs + ys):
        i, j = count(xs, x), count(ys, x)
        k = i + j if op == 'add' else max(i - j, 0) if op == 'sub' else max(i, j) if op == 'or' else min(i, j)
        exp += [x] * k
    check_bag(ctx, R, exp, 'result', elems(ctx, 1, lim))
    check_bag(ctx, A, xs, 'left operand'); check_bag(ctx, B, ys, 'right operand')


def h_counts(ctx, op, na, nb):
    """Multiplicities as symbolic integers: bags are made directly from a map of counts."""
    probe = ctx.obj()
    t = ctx.attempt(lambda: PBag(pmap({probe: 2})))
    if not (t.ok and len(t.value) == 2 and t.value.count(probe) == 2): return        # not constructible that way
    xs = elems(ctx, na, 1); ys = elems(ctx, nb, 1)
    ctx.assume(ctx.all([ctx.not_(ctx.eq(p, q)) for i, p in enumerate(xs) for q in xs[:i]]))
    ctx.assume(ctx.all([ctx.not_(ctx.eq(p, q)) for i, p in enumerate(ys) for q in ys[:i]]))
    hi = 10 ** 6
    ca = [ctx.int('a%d' % i, 1, hi) for i in range(na)]; cb = [ctx.int('b%d' % i, 1, hi) for i in range(nb)]
    A = PBag(pmap(list(zip(xs, ca)))) ; B = PBag(pmap(list(zip(ys, cb))))
    if op == 'unary':
        ctx.check(A.__len__() == sum(ca), 'len')
        x, = elems(ctx, 1, 1)
        before = A.count(x)
        up = A.add(x)
        ctx.check(up.count(x) == before + 1, 'add adds one'); ctx.check(up.__len__() == sum(ca) + 1, 'len after add')
        a = ctx.attempt(A.remove, x)
        if before == 0: ctx.check(a.err == 'KeyError', 'remove of an absent element')
        else:
            ctx.check(a.ok, 'remove raised')
            ctx.check(a.value.count(x) == before - 1, 'remove takes one'); ctx.check((x in a.value) == (before > 1), 'membership after remove')
            ctx.check(a.value.__len__() == sum(ca) - 1, 'len after remove')
        ctx.check(A.count(x) == before, 'unchanged')
        return
    R = A + B if op == 'add' else A - B if op == 'sub' else A | B if op == 'or' else A & B
    tot = 0
    for x in xs + [y for y in ys if not member(y, xs)]:
        i, j = A.count(x), B.count(x)
        if op == 'add': k = i + j
        elif op == 'sub': k = i - j if i > j else 0
        elif op == 'or': k = i if i > j else j
        else: k = i if i < j else j
        ctx.check(R.count(x) == k, 'count of result'); ctx.check((x in R) == (k > 0), 'membership in result')
        tot = tot + k
    ctx.check(R.__len__() == tot, 'len of result')
    for x, c in zip(xs, ca): ctx.check(A.count(x) == c, 'left operand unchanged')
    for x, c in zip(ys, cb): ctx.check(B.count(x) == c, 'right operand unchanged')


def h_misc(ctx):
    x = ctx.obj()
    A = pbag([x])
    for f in (lambda: A < A, lambda: A <= A, lambda: A > A, lambda: A >= A, lambda: A + [x], lambda: A - 3, lambda: A | {x}, lambda: A & [x]):
        ctx.check(ctx.attempt(f).err == 'TypeError', 'unsupported operand')
    ctx.check(len(pbag([])) == 0 and not pbag(()) and x not in make_b() and pbag([]).count(x) == 0, 'empty bag')


def seqs(k): return [[]] if k == 0 else [[o] + r for o in OPS for r in seqs(k - 1)]
weight = lambda o: sum(2 if x.startswith('update') and x != 'update0' else 1 for x in o)
from harness import biglib
CHECKS = [
    Harness('misc', h_misc, T([{}])),
    Harness('history', h_history, T([dict(n=n, ops=o, lim=1) for n in (0, 1, 2, 3) for k in (1, 2, 3) for o in seqs(k) if n + weight(o) <= 4] + [dict(n=n, ops=o, lim=2) for n in (0, 1, 2) for k in (1, 2) for o in seqs(k) if n + weight(o) <= 3] + [dict(n=2, ops=['add'], lim=2, build=b) for b in ('b', 'iter')],
            [dict(n=n, ops=o, lim=l) for l in (1, 2) for n in (0, 1, 2, 3) for k in (1, 2, 3) for o in seqs(k) if n + weight(o) <= 5]),
            note='histories touching <=4 elements, hash mod 8 in {0} or {0,1}'),
    Harness('binary', h_binary, T([dict(na=i, nb=j, op=o, lim=l) for i, j in ((0, 1), (1, 0), (1, 1), (2, 1), (1, 2), (2, 2)) for l in (1, 2) for o in ('add', 'sub', 'or', 'and', 'eq')] + [dict(na=3, nb=2, op=o, lim=1) for o in ('sub', 'or', 'and', 'eq', 'add')],
            [dict(na=i, nb=j, op=o, lim=l) for i in range(4) for j in range(4) for l in (1, 2) for o in ('add', 'sub', 'or', 'and', 'eq')]),
            note='operands of <=3 elements with repetitions'),
    Harness('counts', h_counts, T([dict(op=o, na=i, nb=j) for o in ('add', 'sub', 'or', 'and') for i, j in ((1, 1), (2, 1), (1, 2))] + [dict(op='unary', na=i, nb=0) for i in (1, 2)],
            [dict(op=o, na=i, nb=j) for o in ('add', 'sub', 'or', 'and') for i, j in ((1, 1), (2, 1), (1, 2), (2, 2), (3, 2))] + [dict(op='unary', na=i, nb=0) for i in (1, 2, 3)]),
            note='multiplicities symbolic in 1..10^6, <=2 distinct elements per bag'),
    Harness('big', biglib.h_bag, T([dict(n=n, mult=m, ops=o) for n, m in ((6, 1), (6, 2), (3, 3), (17, 1)) for o in (['set'], ['deli'], ['seti', 'deli'], ['del'], ['some', 'set'], ['drain'], ['half', 'set'], ['drain', 'drain'])],
            [dict(n=n, mult=m, ops=o, sym=sy) for n, m in ((6, 1), (6, 2), (3, 3), (17, 1), (12, 3), (40, 1)) for sy in (0, 1, 2) for o in (['set'], ['deli'], ['seti', 'deli'], ['del'], ['some', 'set'], ['drain'], ['half', 'set'], ['drain', 'drain'])]),
            note='bags of up to 17 (40) fixed elements, up to 3 of each, and up to 4 arbitrary ones, whose hash falls into one of two buckets'),
]
