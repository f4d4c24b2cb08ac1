"""C01: vectors read and update exactly like a list."""
from sx.api import Harness, T
from harness.veclib import build, index, same_vec, agree, lset, ldel, lremove, is_vec, LO, HI, vargs, vop, lop

ASSUMPTIONS = ['elements: equality is an equivalence, order is total', 'indices are 64-bit']


def h_read(ctx, n, how='list'):
    v, xs = build(ctx, n, how)
    i = ctx.int('i', LO, HI)
    a = ctx.attempt(lambda: v[i]); b = ctx.attempt(lambda: xs[i])
    if agree(ctx, a, b, 'read'): ctx.check(ctx.same(a.value, b.value), 'read')


def h_basic(ctx, n, how):
    v, xs = build(ctx, n, how)
    same_vec(ctx, v, xs, 'built', deep=True)
    ctx.check(bool(v) == bool(xs), 'truth')
    ctx.check_seq(list(reversed(v)), xs[::-1], 'reversed')
    it = iter(v)
    ctx.check_seq([next(it) for _ in range(min(n, 2))], xs[:2], 'partial iteration')
    ctx.check(v[:] is v, 'full slice')
    y = ctx.obj()
    w = v.append(y)
    same_vec(ctx, w, xs + [y], 'append', deep=True)
    same_vec(ctx, v, xs, 'original after append')


def h_set(ctx, n, twice=False):
    v, xs = build(ctx, n)
    i = index(ctx, 'i', n); y = ctx.obj()
    a = ctx.attempt(lambda: v.set(i, y)); b = ctx.attempt(lambda: lset(xs, i, y))
    if agree(ctx, a, b, 'set'):
        same_vec(ctx, a.value, b.value, 'set')
        if twice:
            j = index(ctx, 'j', len(b.value)); z = ctx.obj()
            r = b.value
            a = ctx.attempt(lambda: a.value.set(j, z)); b = ctx.attempt(lambda: lset(r, j, z))
            if agree(ctx, a, b, 'second set'): same_vec(ctx, a.value, b.value, 'second set')
    same_vec(ctx, v, xs, 'original after set')


def h_mset(ctx, n, pairs, lo=LO, hi=HI):
    v, xs = build(ctx, n)
    args = []
    def lm():
        r = xs
        for k in range(0, len(args), 2): r = lset(r, args[k], args[k + 1])
        return r
    for k in range(pairs): args += [index(ctx, 'i%d' % k, n, lo, hi), ctx.obj()]
    a = ctx.attempt(lambda: v.mset(*args)); b = ctx.attempt(lm)
    if agree(ctx, a, b, 'mset'): same_vec(ctx, a.value, b.value, 'mset')
    odd = ctx.attempt(lambda: v.mset(*(args + [0])))
    ctx.check(odd.err == 'TypeError', 'odd number of arguments')


def h_extend(ctx, n, k, src):
    v, xs = build(ctx, n)
    ys = ctx.objs('y', k)
    arg = {'list': ys, 'tuple': tuple(ys), 'vector': ctx.pvector(ys), 'self': v}.get(src)
    if src == 'gen': arg = (y for y in ys)
    elif src == 'iter': arg = iter(ctx.pvector(ys))
    elif src == 'self': ys = xs
    w = v.extend(arg)
    same_vec(ctx, w, xs + list(ys), 'extend', deep=True)
    if src in ('list', 'vector', 'self'): same_vec(ctx, v + arg, xs + list(ys), 'concatenation')
    if src == 'list':
        ys2 = list(ys); ys.append(None)
        same_vec(ctx, w, xs + ys2, 'extend keeps its own copy')
    ctx.check(ctx.attempt(lambda: v.extend(5)).err == 'TypeError', 'extend with something not iterable')
    ctx.check(ctx.attempt(lambda: v + 5).err == 'TypeError', 'concatenation with something not iterable')


def h_slice(ctx, n, lo, hi, step, negstep=None):
    v, xs = build(ctx, n)
    a = ctx.choice('a?', 2) and ctx.int('a', lo, hi)
    b = ctx.choice('b?', 2) and ctx.int('b', lo, hi)
    if a is False or (type(a) is int and a == 0): a = None
    if b is False or (type(b) is int and b == 0): b = None
    c = step if step != 'sym' else ctx.int('c', -4, 4)
    r = ctx.attempt(lambda: v[a:b:c]); e = ctx.attempt(lambda: xs[a:b:c])
    if agree(ctx, r, e, 'slice'): same_vec(ctx, r.value, e.value, 'slice')


def h_delete(ctx, n, stop, lo=LO, hi=HI):
    v, xs = build(ctx, n)
    i = ctx.int('i', lo, hi) if stop else index(ctx, 'i', n, lo, hi)
    if stop:
        j = ctx.int('j', lo, hi)
        a = ctx.attempt(lambda: v.delete(i, j))
        b = ctx.attempt(lambda: ldel(xs, slice(i, j)))
    else:
        a = ctx.attempt(lambda: v.delete(i)); b = ctx.attempt(lambda: ldel(xs, i))
    if agree(ctx, a, b, 'delete'): same_vec(ctx, a.value, b.value, 'delete')
    same_vec(ctx, v, xs, 'original after delete')


def h_search(ctx, n, op, lo=LO, hi=HI):
    v, xs = build(ctx, n)
    x = xs[ctx.choice('which', n)] if n and ctx.choice('own', 2) else ctx.obj()
    if op == 'remove':
        a = ctx.attempt(lambda: v.remove(x)); b = ctx.attempt(lambda: lremove(xs, x))
        if agree(ctx, a, b, 'remove'): same_vec(ctx, a.value, b.value, 'remove')
    elif op == 'in':
        ctx.check((x in v) == (x in xs), 'membership')
    elif op == 'count':
        ctx.check(v.count(x) == xs.count(x), 'count')
    else:
        args = []
        if op in ('index1', 'index2'): args.append(ctx.int('a', lo, hi))
        if op == 'index2': args.append(ctx.int('b', lo, hi))
        a = ctx.attempt(lambda: v.index(x, *args)); b = ctx.attempt(lambda: lindex(xs, x, args))
        if agree(ctx, a, b, 'index'): ctx.check(a.value == b.value, 'index')


def lindex(xs, x, args):
    """list.index, written out (positions stay symbolic)."""
    n = len(xs)
    a, b = (list(args) + [None, None])[:2]
    if a is None: a = 0
    if b is None: b = n
    if a < 0: a = a + n
    if b < 0: b = b + n
    for i in range(n):
        if i >= a and i < b and xs[i] == x: return i
    raise ValueError('not in list')


def h_repeat(ctx, n, lo, hi):
    v, xs = build(ctx, n)
    k = ctx.pick(ctx.int('k', lo, hi))
    same_vec(ctx, v * k, xs * k, 'repeat')
    same_vec(ctx, k * v, xs * k, 'repeat from the left')


def h_compare(ctx, n, m, other):
    v, xs = build(ctx, n)
    ys = ctx.objs('y', m)
    if other == 'shared':
        ys = xs[:m - 1] + ys[m - 1:] if m else ys
    w = ctx.pvector(ys)
    if other == 'list': w = ys
    eq = ctx.choice('op', 6)
    a = ctx.attempt(lambda: v == w if eq == 0 else v != w if eq == 1 else v < w if eq == 2 else v <= w if eq == 3 else v > w if eq == 4 else v >= w)
    b = ctx.attempt(lambda: xs == ys if eq == 0 else xs != ys if eq == 1 else xs < ys if eq == 2 else xs <= ys if eq == 3 else xs > ys if eq == 4 else xs >= ys)
    if agree(ctx, a, b, 'comparison'): ctx.check(bool(a.value) == bool(b.value), 'comparison')


OPS = ['append', 'set', 'extend', 'delete', 'mset', 'pop', 'evolve']


def h_history(ctx, n, ops):
    v, xs = build(ctx, n)
    for s, op in enumerate(ops):
        y = ctx.obj()
        n = len(xs)
        if op == 'append': v = v.append(y); xs = xs + [y]
        elif op == 'extend': z = ctx.obj(); v = v.extend([y, z]); xs = xs + [y, z]
        elif op == 'pop':
            if n: v = v.delete(-1); xs = xs[:-1]
        else:
            i = index(ctx, 'i%d' % s, n, -n, n) if op != 'delete' else ctx.int('i%d' % s, -2, 2)
            if op == 'set': a = ctx.attempt(lambda: v.set(i, y)); b = ctx.attempt(lambda: lset(xs, i, y))
            elif op == 'mset': a = ctx.attempt(lambda: v.mset(i, y, -1, y)); b = ctx.attempt(lambda: lset(lset(xs, i, y), -1, y))
            elif op == 'delete': a = ctx.attempt(lambda: v.delete(i)); b = ctx.attempt(lambda: ldel(xs, i))
            else:
                def ev():
                    e = v.evolver()
                    e[i] = y
                    e.append(y)
                    return e.persistent()
                a = ctx.attempt(ev); b = ctx.attempt(lambda: lset(xs, i, y) + [y])
            if not agree(ctx, a, b, op): return
            v, xs = a.value, b.value
        same_vec(ctx, v, xs, op)
    if len(xs) > 100: return
    j = index(ctx, 'j', len(xs))
    a = ctx.attempt(lambda: v[j]); b = ctx.attempt(lambda: xs[j])
    if agree(ctx, a, b, 'read'): ctx.check(ctx.same(a.value, b.value), 'read')


def h_deep(ctx, n, ops, how='list'):
    """Operations at the seams of deep trees."""
    v, xs = build(ctx, n, how)
    for s, op in enumerate(ops):
        a = vargs(ctx, op, s, len(xs), 'edge')
        x = ctx.attempt(vop, ctx, op, v, a); y = ctx.attempt(lop, ctx, op, xs, a)
        if not agree(ctx, x, y, op): return
        v, xs = x.value, y.value
    same_vec(ctx, v, xs, 'result', deep=True)


EDGE = [0, 1, 2, 31, 32, 33, 34, 63, 64, 65]
DEEP = [1023, 1024, 1025, 1055, 1056, 1057, 1058, 1087, 1088, 1089]
DOPS = ['append', 'set', 'extend', 'extend33', 'mset', 'evolve', 'delete']
PC = ('py', 'c')
def t(**k):
    """Cartesian product of keyword lists."""
    out = [{}]
    for a, vs in k.items(): out = [dict(d, **{a: x}) for d in out for x in vs]
    return out

def H(name, fn, quick, thorough, note): return Harness(name, fn, T(quick, thorough), mode='bv', backends=PC, note=note)

CHECKS = [
    H('read', h_read, t(n=EDGE + [1056, 1057, 1089]) + t(n=[33, 40, 65], how=['append', 20]), t(n=list(range(0, 130)) + DEEP + [2080]) + t(n=[33, 40, 65, 1060, 1100], how=['append', 20, 1030]),
      'any 64-bit index, vectors of the listed sizes (quick up to 1089, thorough up to 2080 elements)'),
    H('basic', h_basic, t(n=EDGE + [1056, 1057], how=['list', 'append']), t(n=list(range(0, 130)) + DEEP + [2080, 32768 + 32, 32768 + 64], how=['list', 'append', 7]), 'sizes listed; built at once, by append or by extend'),
    H('set', h_set, t(n=EDGE + [1056, 1057, 1058], twice=[False]) + t(n=[1, 2, 32, 33, 34], twice=[True]), t(n=list(range(0, 70)) + DEEP, twice=[False, True]), 'any 64-bit index; once or twice in a row'),
    H('mset', h_mset, t(n=[0, 1, 2, 32, 33, 34], pairs=[1, 2], lo=[-70], hi=[70]) + t(n=[1, 33, 1057], pairs=[1]), t(n=EDGE + DEEP, pairs=[1, 2]) + t(n=[2, 33], pairs=[3], lo=[-70], hi=[70]), '1 to 3 pairs, 64-bit indices'),
    H('extend', h_extend, t(n=[0, 1, 31, 32, 33], k=[0, 1, 32, 33], src=['list', 'gen', 'vector']) + t(n=[0, 2, 33], k=[2], src=['tuple', 'iter', 'self']) + t(n=[1055, 1056, 1057], k=[1, 34], src=['list']),
      t(n=EDGE + DEEP, k=[0, 1, 2, 31, 32, 33, 64, 65], src=['list', 'gen', 'vector', 'iter', 'tuple', 'self']), 'any of the source kinds and sizes listed'),
    H('slice', h_slice, t(n=[0, 1, 2, 3, 4], lo=[LO], hi=[HI], step=[None, 'sym']) + t(n=[33], lo=[LO], hi=[HI], step=[20, -16]), t(n=range(0, 9), lo=[LO], hi=[HI], step=[None, 'sym']) + t(n=[33, 40], lo=[LO], hi=[HI], step=[None, -1, 20, -16]),
      '64-bit bounds or none, step none or -4..4'),
    H('delete', h_delete, t(n=[0, 1, 2, 3], stop=[False, True]) + t(n=[32, 33, 34], stop=[False]) + t(n=[1057], stop=[False], lo=[1020]) + t(n=[34], stop=[True], lo=[-3], hi=[3]), t(n=range(0, 8), stop=[False, True]) + t(n=EDGE + DEEP, stop=[False]), '64-bit indices'),
    H('search', h_search, t(n=[0, 1, 2, 3], op=['in', 'count', 'remove', 'index0', 'index1', 'index2']) + t(n=[33], op=['in', 'remove', 'index0']), t(n=range(0, 6), op=['in', 'count', 'remove', 'index0', 'index1', 'index2']) + t(n=[33, 34, 65], op=['in', 'remove', 'index0', 'index1']),
      'any equalities between elements, 64-bit start and stop'),
    H('repeat', h_repeat, t(n=[0, 1, 2, 20, 33], lo=[-2], hi=[4]), t(n=[0, 1, 2, 3, 17, 31, 32, 33, 40, 1057], lo=[-3], hi=[6]), 'factor -3..6'),
    H('compare', h_compare, t(n=[0, 1, 2], m=[0, 1, 2], other=['vector', 'list', 'shared']), t(n=[0, 1, 2, 3], m=[0, 1, 2, 3], other=['vector', 'list', 'shared']) + t(n=[33], m=[33, 34], other=['shared']), 'all six comparisons, any element order'),
    H('history', h_history, t(n=[0, 1, 31, 32, 33], ops=[[a, b] for a in OPS for b in OPS if (a, b) != ('delete', 'delete')]) + t(n=[1055, 1056, 1057], ops=[[a] for a in OPS if a != 'delete']),
      t(n=[0, 1, 2, 31, 32, 33, 64], ops=[[a, b, c] for a in OPS for b in OPS for c in OPS if [a, b, c].count('delete') < 2]) + t(n=DEEP, ops=[[a, b] for a in OPS for b in OPS if (a, b) != ('delete', 'delete')]),
      'every sequence of 2 (thorough 3) operations with any index, then any read'),
    H('deep', h_deep, t(n=[2048, 2079, 2080, 2081], ops=[[o] for o in DOPS] + [['append', 'set'], ['set', 'append'], ['append', 'append']]) + t(n=[2080, 2081], ops=[['append']], how=['append']) + t(n=[32799, 32800, 32801, 65567, 65568, 65569], ops=[['append'], ['extend33']]) + t(n=[32800, 32801], ops=[['set']]) + t(n=[32801], ops=[['evolve']]),
      t(n=[2047, 2048, 2079, 2080, 2081, 3103, 3104, 3105], ops=[[a, b] for a in DOPS for b in DOPS], how=['list', 'append']) + t(n=[32767, 32768, 32799, 32800, 32801, 33855, 33856, 33857], ops=[[o] for o in DOPS] + [['append', 'set'], ['set', 'append']]),
      'trees with three levels (around 2,080 elements, where a third subtree starts) and four (from 32,801 on); positions at the ends and at the seams between subtrees'),
]
