"""C11: persistent linked lists are immutable sequences."""
from sx.api import Harness, T
from pyrsistent import plist, l

ASSUMPTIONS = ['elements have reflexive, symmetric, transitive equality and a consistent order']


def full(ctx, p, ref, label):
    """Everything observable about p agrees with the reference tuple/list."""
    ctx.check_seq(p, ref, label + ' contents')
    ctx.check(len(p) == len(ref), label + ' length')
    ctx.check(bool(p) == bool(ref), label + ' truth')
    if ref:
        ctx.check(ctx.same(p.first, ref[0]), label + ' first')
        ctx.check_seq(p.rest, ref[1:], label + ' rest')
    else:
        ctx.check(ctx.attempt(lambda: p.first).err == 'AttributeError', label + ' first of empty')
        ctx.check(len(p.rest) == 0, label + ' rest of empty')


def h_index(ctx, n):
    xs = ctx.objs('e', n)
    p = plist(xs)
    i = ctx.int('i', -n - 3, n + 3)
    ctx.check_outcomes(ctx.attempt(lambda: p[i]), ctx.attempt(lambda: xs[i]), 'index')
    full(ctx, p, xs, 'unchanged')


def h_slice(ctx, n):
    xs = ctx.objs('e', n)
    p = plist(xs)
    def part(name):
        return None if ctx.choice(name + '?', 2) else ctx.int(name, -n - 2, n + 2)
    a, b = part('a'), part('b')
    st = ctx.choice('st', [None, 1, 2, 3, -1, -2])
    full(ctx, p[a:b:st], xs[a:b:st], 'slice')
    full(ctx, p, xs, 'unchanged')


def h_build(ctx, n):
    xs = ctx.objs('e', n)
    how = ctx.choice('how', 7)
    if how == 0: p, r = plist(xs), xs
    elif how == 1: p, r = plist(iter(xs)), xs
    elif how == 2: p, r = plist(tuple(xs), reverse=True), xs[::-1]
    elif how == 3: p, r = l(*xs), xs
    elif how == 4: p, r = plist(x for x in xs), xs
    elif how == 5: p, r = plist(plist(xs)), xs
    else: p, r = plist(iter(xs), reverse=True), xs[::-1]
    ctx.check(isinstance(xs, list) and len(xs) == n, 'input length')
    full(ctx, p, r, 'built')
    full(ctx, p.reverse(), r[::-1], 'reverse')
    ctx.check_seq(reversed(p), r[::-1], 'reversed')
    full(ctx, p, r, 'still')


def h_search(ctx, n):
    xs = ctx.objs('e', n)
    p = plist(xs)
    x = ctx.obj('x')
    t = tuple(xs)
    ctx.check(p.count(x) == t.count(x), 'count')
    ctx.check((x in p) == (x in t), 'contains')
    op = ctx.choice('op', 3)
    if op == 0:
        ctx.check_outcomes(ctx.attempt(p.index, x), ctx.attempt(t.index, x), 'index of value')
    elif op == 1:
        a = ctx.int('a', -n - 1, n + 1)
        ctx.check_outcomes(ctx.attempt(lambda: p.index(x, a)), ctx.attempt(lambda: t.index(x, a)), 'index of value from')
    else:
        a = ctx.int('a', -n - 1, n + 1); b = ctx.int('b', -n - 1, n + 1)
        ctx.check_outcomes(ctx.attempt(lambda: p.index(x, a, b)), ctx.attempt(lambda: t.index(x, a, b)), 'index of value in range')
    full(ctx, p, xs, 'unchanged')


def h_remove(ctx, n):
    xs = ctx.objs('e', n)
    p = plist(xs)
    q = p.cons(ctx.obj('c'))
    rq = [q.first] + xs
    x = ctx.obj('x')
    def ref():
        r = list(xs); r.remove(x); return r
    a, b = ctx.attempt(p.remove, x), ctx.attempt(ref)
    ctx.check_outcomes(a, b, 'remove', lambda u, v, lab: full(ctx, u, v, lab))
    full(ctx, p, xs, 'unchanged'); full(ctx, q, rq, 'consed unchanged')
    if a.ok:      # the result shares structure: extending it must not disturb anything
        r2 = a.value.cons(x)
        full(ctx, r2, [x] + b.value, 'cons on result')
        full(ctx, r2.reverse(), ([x] + b.value)[::-1], 'reverse of result')
        y = ctx.obj('y')
        def ref2():
            r = list(b.value); r.remove(y); return r
        c, d = ctx.attempt(a.value.remove, y), ctx.attempt(ref2)
        ctx.check_outcomes(c, d, 'remove twice', lambda u, v, lab: full(ctx, u, v, lab))
        full(ctx, a.value, b.value, 'first result unchanged')
        full(ctx, p, xs, 'unchanged 2')


def h_split(ctx, n):
    xs = ctx.objs('e', n)
    p = plist(xs)
    i = ctx.int('i', 0, n + 3)
    a, b = p.split(i)
    full(ctx, a, xs[:i], 'split left'); full(ctx, b, xs[i:], 'split right')
    z = ctx.obj('z')
    full(ctx, a.cons(z), [z] + xs[:i], 'cons left'); full(ctx, b.cons(z), [z] + xs[i:], 'cons right')
    j = ctx.int('j', 0, n + 2)
    la = xs[:i]
    c, d = a.split(j)
    full(ctx, c, la[:j], 'split again left'); full(ctx, d, la[j:], 'split again right')
    full(ctx, p, xs, 'unchanged')


def h_cmp(ctx, n, m, shared=0):
    xs = ctx.objs('e', n); ys = ctx.objs('f', m)
    tail = ctx.objs('s', shared)
    t = plist(tail)
    p = t.mcons(reversed(xs)); q = t.mcons(reversed(ys))
    a, b = tuple(xs + tail), tuple(ys + tail)
    ctx.check((p == q) == (a == b), 'eq')
    ctx.check((p != q) == (a != b), 'ne')
    ctx.check((p < q) == (a < b), 'lt')
    ctx.check((p > q) == (a > b), 'gt')
    ctx.check((p == list(a)) is False, 'not equal to other kinds')
    if a == b: ctx.check(ctx.eq(ctx.hash(p), ctx.hash(q)), 'hash')


OPS = ['cons', 'mcons', 'rest', 'reverse', 'splitl', 'splitr', 'remove', 'from', 'to', 'index']

def h_history(ctx, n, steps):
    xs = ctx.objs('e', n)
    versions = [(plist(xs), list(xs))]
    for s in range(steps):
        src = ctx.choice('v%d' % s, len(versions)) if len(versions) > 1 else 0
        p, r = versions[src]
        op = ctx.choice('op%d' % s, OPS)
        if op == 'cons':
            x = ctx.obj(); q, t = p.cons(x), [x] + r
        elif op == 'mcons':
            x, y = ctx.obj(), ctx.obj(); q, t = p.mcons([x, y]), [y, x] + r
        elif op == 'rest': q, t = p.rest, r[1:]
        elif op == 'reverse': q, t = p.reverse(), r[::-1]
        elif op in ('splitl', 'splitr'):
            i = ctx.choice('i%d' % s, len(r) + 2)
            k = op == 'splitr'
            q = p.split(i)[k]; t = r[i:] if k else r[:i]
        elif op == 'remove':
            x = ctx.obj()
            t = list(r)
            b = ctx.attempt(t.remove, x)
            a = ctx.attempt(p.remove, x)
            ctx.check(a.err == b.err, 'remove error')
            if not a.ok: continue
            q = a.value
        elif op == 'from':
            i = ctx.choice('i%d' % s, len(r) + 2); q, t = p[i:], r[i:]
        elif op == 'to':
            i = ctx.choice('i%d' % s, len(r) + 2); q, t = p[:i], r[:i]
        else:
            i = ctx.choice('i%d' % s, [-1, 0, 1])
            ctx.check_outcomes(ctx.attempt(lambda: p[i]), ctx.attempt(lambda: r[i]), 'read')
            continue
        versions.append((q, t))
    for k, (p, r) in enumerate(versions):
        full(ctx, p, r, 'version')


CHECKS = [
    Harness('index', h_index, T([dict(n=n) for n in range(0, 8)], [dict(n=n) for n in range(0, 40)]), note='length n<=7 (39), any index in [-n-3, n+3]'),
    Harness('slice', h_slice, T([dict(n=n) for n in range(0, 6)], [dict(n=n) for n in range(0, 9)]), note='n<=5 (8), start/stop in [-n-2,n+2] or absent, step in None,1,2,3,-1,-2'),
    Harness('build', h_build, T([dict(n=n) for n in range(0, 6)]), note='n<=5, seven ways to build'),
    Harness('search', h_search, T([dict(n=n) for n in range(0, 4)], [dict(n=n) for n in range(0, 6)]), note='n<=3 (5), any equalities, start/stop in [-n-1,n+1]'),
    Harness('remove', h_remove, T([dict(n=n) for n in range(0, 5)], [dict(n=n) for n in range(0, 7)]), note='n<=4 (6), any equalities'),
    Harness('split', h_split, T([dict(n=n) for n in range(0, 5)], [dict(n=n) for n in range(0, 9)]), note='n<=4 (8), split twice at any position'),
    Harness('compare', h_cmp, T([dict(n=n, m=m, shared=s) for n in range(4) for m in range(4) for s in (0, 1)]), note='lengths<=3+1 shared, any order'),
    Harness('history', h_history, T([dict(n=n, steps=2) for n in range(0, 5)], [dict(n=n, steps=3) for n in range(0, 4)]), note='all sequences of 2 (3) operations from length<=4, every version checked'),
]
