"""C02: no operation ever changes an existing vector."""
from sx.api import Harness, T
from harness.veclib import *
from harness.c01 import t, EDGE, DEEP

ASSUMPTIONS = ['elements: equality is an equivalence', 'indices are 64-bit', 'elements and the hash of a vector do not change by themselves']


def recheck(ctx, pool, label):
    for k, (v, ref) in enumerate(pool): same_vec(ctx, v, ref, '%s: version %d' % (label, k))


def h_history(ctx, n, ops, wide=False, how='list', branch=False):
    """Operations on the latest version (or, with branch, on any), everything obtained so far is looked at after each."""
    v, xs = build(ctx, n, how)
    pool = [(v, xs)]
    keep = []
    for s, op in enumerate(ops):
        src, ref = pool[ctx.choice('src%d' % s, len(pool)) if branch else -1]
        a = vargs(ctx, op, s, len(ref), wide)
        x = ctx.attempt(vop, ctx, op, src, a, keep); y = ctx.attempt(lop, ctx, op, ref, a)
        if x.ok and y.ok: pool.append((x.value, y.value))
        recheck(ctx, pool, 'after ' + op)
    # keep working with what is left over: evolvers still alive, new vectors taking over released memory
    for e in keep:
        if len(e): e[0] = ctx.obj()
        e.append(ctx.obj())
    recheck(ctx, pool, 'after using the evolver again')
    del keep[:]
    fresh = [ctx.pvector(ctx.objs('f', 3)), ctx.pvector(ctx.objs('g', 33))]
    recheck(ctx, pool, 'after making other vectors')


def h_evolver(ctx, n, ops, wide=False):
    """Evolver operations, with vectors taken out in between."""
    v, xs = build(ctx, n)
    pool = [(v, xs)]
    e = v.evolver(); ref = list(xs)
    for s, op in enumerate(ops):
        if op == 'pers':
            w = e.persistent()
            pool.append((w, w.tolist()))
            continue
        if op == 'new':
            e = pool[-1][0].evolver(); ref = list(pool[-1][1])
            continue
        a = vargs(ctx, op, s, len(ref), wide)
        x = ctx.attempt(eop, ctx, op, e, a); y = ctx.attempt(leop, ctx, op, ref, a)
        recheck(ctx, pool, 'after ' + op)
    e = None
    recheck(ctx, pool, 'after dropping the evolver')
    fresh = [ctx.pvector(ctx.objs('g', 34))]
    recheck(ctx, pool, 'after making other vectors')


def h_lists(ctx, n):
    """Lists given to or obtained from a vector are independent of it."""
    l = ctx.objs('x', n)
    xs = list(l)
    v = ctx.pvector(l)
    def spoil(m):
        m.append(None)
        m[0] = None
        m.reverse()
    spoil(l)
    same_vec(ctx, v, xs, 'after changing the list it was built from')
    m = v.tolist()
    spoil(m)
    same_vec(ctx, v, xs, 'after changing its tolist()')
    ys = ctx.objs('y', 2)
    zs = list(ys)
    w = v.extend(ys); u = v + ys; e = v.evolver(); e.extend(ys)
    q = e.persistent()
    spoil(ys)
    same_vec(ctx, w, xs + zs, 'extend')
    same_vec(ctx, u, xs + zs, 'concatenation')
    same_vec(ctx, q, xs + zs, 'evolver extend')
    ctx.check_seq([e[k] for k in range(len(e))], xs + zs, 'evolver')
    m = q.tolist()
    e.append(zs[0]) if len(zs) else None
    spoil(m)
    same_vec(ctx, q, xs + zs, 'persistent()')
    same_vec(ctx, v, xs, 'original')


def h_readers(ctx, n, op):
    """Operations that only look: also when they raise."""
    v, xs = build(ctx, n)
    ys = xs[:-1] + [ctx.obj()]
    w = ctx.pvector(ys)
    before = (v, xs), (w, ys)
    x = ctx.obj()
    ctx.arm_fault(limit=3 * n + 3)
    if op == 'eq': ctx.attempt(lambda: v == w)
    elif op == 'lt': ctx.attempt(lambda: v < w)
    elif op == 'index': ctx.attempt(lambda: v.index(x))
    elif op == 'count': ctx.attempt(lambda: v.count(x))
    elif op == 'in': ctx.attempt(lambda: x in v)
    elif op == 'remove': ctx.attempt(lambda: v.remove(x))
    elif op == 'hash': ctx.attempt(lambda: hash(v))
    elif op == 'repr': ctx.attempt(lambda: repr(v))
    elif op == 'iter': ctx.attempt(lambda: [y == x for y in v])
    ctx.disarm_fault()
    recheck(ctx, before, 'after ' + op)


def h_transform(ctx, n, fail):
    v, xs = build(ctx, n)
    i = ctx.choice('i', n + 1); y = ctx.obj()
    def f(x):
        if fail: raise KeyError('user')
        return y
    ctx.attempt(lambda: v.transform([i], f))
    same_vec(ctx, v, xs, 'after transform')


OPS = ['append', 'extend', 'set', 'mset', 'delete', 'evolve', 'genf', 'cut']
ALL = OPS + ['extend33', 'gen', 'add', 'slice', 'delslice', 'mul']
EOPS = ['eset', 'eappend', 'edel', 'pers', 'new', 'egenf']
DOPS = ['append', 'set', 'extend', 'evolve', 'mset']
E3 = ['eset', 'eappend', 'pers', 'edel']
PC = ('py', 'c')
def H(name, fn, quick, thorough, note, **k): return Harness(name, fn, T(quick, thorough), mode='bv', backends=PC, note=note, **k)
def seqs(k, ops): return [[]] if k == 0 else [s + [o] for s in seqs(k - 1, ops) for o in ops]

CHECKS = [
    H('history', h_history, t(n=EDGE, ops=[[o] for o in ALL], wide=[True]) + t(n=[1055, 1056, 1057], ops=[[o] for o in ALL if o not in ('delete', 'delslice', 'slice', 'mul', 'cut')])
      + t(n=[1, 32, 33], ops=seqs(2, OPS)) + t(n=[33], ops=seqs(2, OPS), how=['append']),
      t(n=list(range(0, 70)) + DEEP, ops=[[o] for o in ALL], wide=[True]) + t(n=[0, 1, 31, 32, 33, 34, 64], ops=seqs(2, ALL)) + t(n=[2, 33], ops=seqs(3, OPS), how=['list', 'append']) + t(n=[1055, 1056], ops=seqs(2, ['append', 'set', 'evolve', 'extend'])),
      'one operation with any index; sequences of 2 (thorough 3) operations with any position up to one beyond either end'),
    H('deep', h_history, t(n=[2079, 2080, 2081], ops=[[o] for o in DOPS] + [['evolve', 'evolve']], wide=['edge']) + t(n=[2080], ops=[['append', 'append']], wide=['edge'], how=['append']) + t(n=[32799, 32800, 32801], ops=[['append']], wide=['edge']) + t(n=[32801], ops=[['set'], ['evolve']], wide=['edge']),
      t(n=[2079, 2080, 2081, 3104], ops=seqs(2, DOPS), wide=['edge']) + t(n=[32799, 32800, 32801, 33856], ops=[[o] for o in DOPS], wide=['edge']), 'deeper trees (more than 2,000 and 32,000 elements); positions at the ends and at the seams between subtrees'),
    H('deepevolver', h_evolver, t(n=[1057, 2081], ops=[['eset', 'pers', 'eset'], ['eappend', 'pers', 'eset', 'pers', 'eset']], wide=['edge']) + t(n=[32801], ops=[['eset']], wide=['edge']), t(n=[1057, 2080, 2081], ops=[['eset', 'pers', 'eset', 'pers', 'eset']], wide=['edge']) + t(n=[32800, 32801], ops=[['eset', 'eset'], ['eset', 'pers', 'eset']], wide=['edge']), 'the same for evolvers'),
    H('leafs', h_evolver, t(n=[70], ops=[['eset', 'eappend', 'pers', 'eset'], ['eset', 'pers', 'eappend', 'eset'], ['eappend', 'eset', 'pers', 'eset'], ['eset', 'pers', 'eset', 'pers', 'eset'], ['eset', 'edel', 'pers', 'eset'], ['eset', 'eset', 'pers', 'eset']], wide=['edge']), t(n=[70, 97, 1100], ops=[[a, b, c, d] for a in E3 for b in E3 for c in E3 for d in E3 if 'pers' in (b, c)], wide=['edge']), 'longer evolver histories around one leaf'),
    H('branch', h_history, t(n=[32], ops=seqs(2, ['append', 'set', 'extend', 'evolve']), branch=[True]) + t(n=[1, 31], ops=seqs(3, ['append', 'evolve', 'extend']), branch=[True]),
      t(n=[1, 31, 32, 33], ops=seqs(3, ['append', 'set', 'extend', 'evolve']), branch=[True]), 'each operation applied to any earlier version'),
    H('evolver', h_evolver, t(n=[0, 1, 2], ops=seqs(3, EOPS)) + t(n=[33, 32], ops=[['eset', 'pers'] + s for s in seqs(1, EOPS)] + [['pers', 'eset', 'new', 'eset'], ['eset', 'edel', 'eset'], ['eappend', 'pers', 'eset', 'pers', 'eset']]) + t(n=[1056, 1057], ops=[['eset'], ['eappend', 'pers', 'eset']]),
      t(n=[0, 1, 2], ops=seqs(4, EOPS)) + t(n=[31, 32, 33], ops=seqs(3, EOPS)) + t(n=[1056, 1057, 1058], ops=[['eset'], ['eappend', 'pers', 'eset'], ['eset', 'pers', 'eset']]), 'evolver operations and persistent() in between'),
    H('lists', h_lists, t(n=[0, 1, 31, 32, 33]), t(n=list(range(0, 70)) + DEEP), 'lists handed in or out'),
    H('readers', h_readers, t(n=[1, 2, 3], op=['eq', 'lt', 'index', 'count', 'in', 'remove', 'hash', 'repr', 'iter']), t(n=range(1, 6), op=['eq', 'lt', 'index', 'count', 'in', 'remove', 'hash', 'repr', 'iter']), 'comparisons, searches, hash and iteration, with an exception from any callback'),
    H('transform', h_transform, t(n=[0, 1, 33], fail=[False, True]), t(n=EDGE, fail=[False, True]), 'transform, with a function that raises or not'),
]
