"""C05: C and pure-Python vectors are interchangeable (product of the Python source and the IR of the C extension)."""
from sx.api import Harness, T, UserError
from harness.veclib import *
from harness.c01 import t, EDGE, DEEP

ASSUMPTIONS = ['indices are 64-bit', 'elements: equality is an equivalence, order is total']


def kind(x):
    n = type(x).__name__
    if n in ('PVector', 'PythonPVector'): return 'vector'
    if n in ('Evolver', 'PVectorEvolver', 'pvector_evolver'): return 'evolver'
    return n


def equal(ctx, a, b, label):
    """Results of the two backends agree."""
    ka, kb = kind(a), kind(b)
    if ka == 'vector' or kb == 'vector':
        ctx.check(ka == kb, label + ': kind')
        ctx.check(a.__len__() == b.__len__(), label + ': length')
        ctx.check_seq(a.tolist(), b.tolist(), label)
    elif ka == 'evolver' or kb == 'evolver':
        ctx.check(ka == kb, label + ': kind')
        ctx.check(a.__len__() == b.__len__(), label + ': length')
        n = len(a)
        ctx.check_seq([a[k] for k in range(n)], [b[k] for k in range(n)], label)
        ctx.check(a.is_dirty() == b.is_dirty(), label + ': dirty')
    elif ka in ('list', 'tuple') and ka == kb:
        ctx.check(len(a) == len(b), label + ': length')
        for x, y in zip(a, b): equal(ctx, x, y, label)
    else:
        if isinstance(a, bool) or isinstance(b, bool): ctx.check(ka == kb, label + ': kind')
        ctx.check(ctx.same(a, b) if not isinstance(a, int) else a == b, label)


def both(ctx, f, label):
    """f(which) on each backend; the outcomes agree.  Returns them if they succeeded."""
    a = ctx.attempt(f, 0); b = ctx.attempt(f, 1)
    ctx.check(a.ok == b.ok and a.err == b.err, '%s: Python %r, C %r' % (label, a, b))
    if a.ok: equal(ctx, a.value, b.value, label)
    return a, b


def make(ctx, xs): return [ctx.pvector_of('py', xs), ctx.pvector_of('c', xs)]


def h_history(ctx, n, ops, wide=False):
    xs = ctx.objs('x', n)
    vs = make(ctx, xs)
    ref = list(xs)
    for s, op in enumerate(ops):
        a = vargs(ctx, op, s, len(ref), wide)
        x, y = both(ctx, lambda k: vop(ctx, op, vs[k], a), op)
        if x.ok:
            vs = [x.value, y.value]
            ref = y.value.tolist()
    j = (edge(ctx, 'j', len(ref)) if len(ref) < 9999 else -1) if wide == 'edge' else index(ctx, 'j', len(ref)) if wide else ctx.int('j', -len(ref) - 1, len(ref) + 1) if len(ref) < 70 else 0
    both(ctx, lambda k: vs[k][j], 'read')


def h_evolver(ctx, n, ops, wide=False):
    xs = ctx.objs('x', n)
    vs = make(ctx, xs)
    es = [v.evolver() for v in vs]
    ref = list(xs)
    for s, op in enumerate(ops):
        if op == 'pers': both(ctx, lambda k: es[k].persistent(), op)
        elif op == 'read':
            a = vargs(ctx, op, s, len(ref), wide)
            both(ctx, lambda k: es[k][a[0]], op)
        else:
            a = vargs(ctx, op, s, len(ref), wide)
            both(ctx, lambda k: eop(ctx, op, es[k], a), op)
            ctx.attempt(leop, ctx, op, ref, a)
        equal(ctx, es[0], es[1], 'evolver after ' + op)
    both(ctx, lambda k: es[k].persistent(), 'persistent')
    equal(ctx, vs[0], vs[1], 'original')


def h_search(ctx, n, op):
    xs = ctx.objs('x', n)
    vs = make(ctx, xs)
    x = xs[ctx.choice('which', n)] if n and ctx.choice('own', 2) else ctx.obj()
    args = []
    if op in ('index1', 'index2'): args.append(ctx.int('a', LO, HI))
    if op == 'index2': args.append(ctx.int('b', LO, HI))
    f = {'in': lambda v: x in v, 'count': lambda v: v.count(x), 'remove': lambda v: v.remove(x)}.get(op) or (lambda v: v.index(x, *args))
    both(ctx, lambda k: f(vs[k]), op)


def h_slice(ctx, n, step):
    xs = ctx.objs('x', n)
    vs = make(ctx, xs)
    a = None if ctx.choice('a?', 2) else ctx.int('a', LO, HI)
    b = None if ctx.choice('b?', 2) else ctx.int('b', LO, HI)
    c = step if step != 'sym' else ctx.int('c', -3, 3)
    both(ctx, lambda k: vs[k][a:b:c], 'slice')
    if step is None: both(ctx, lambda k: vs[k].delete(0 if a is None else a, b), 'delete')


def h_compare(ctx, n, m, other):
    xs = ctx.objs('x', n)
    ys = ctx.objs('y', m)
    if other == 'shared': ys = xs[:m - 1] + ys[m - 1:] if m else ys
    vs = make(ctx, xs); ws = make(ctx, ys)
    op = ctx.choice('op', 6)
    def cmp(v, w): return v == w if op == 0 else v != w if op == 1 else v < w if op == 2 else v <= w if op == 3 else v > w if op == 4 else v >= w
    if other == 'cross':
        # a vector of one backend with a vector of the other
        x = ctx.attempt(cmp, vs[0], ws[0])
        for a, b in ((vs[0], ws[1]), (vs[1], ws[0])):
            y = ctx.attempt(cmp, a, b)
            ctx.check(x.ok and y.ok and bool(x.value) == bool(y.value), 'mixed comparison')
        return
    def one(k):
        w = ys if other == 'list' else tuple(ys) if other == 'tuple' else iter(ys) if other == 'iter' else None if other == 'none' else ws[k]
        return bool(cmp(vs[k], w))
    both(ctx, one, 'comparison')


def h_hash(ctx, n):
    xs = ctx.objs('x', n)
    vs = make(ctx, xs)
    both(ctx, lambda k: hash(vs[k]), 'hash')
    both(ctx, lambda k: repr(vs[k]), 'repr')
    both(ctx, lambda k: str(vs[k]), 'str')
    both(ctx, lambda k: vs[k].tolist(), 'tolist')
    both(ctx, lambda k: list(vs[k]), 'iteration')
    both(ctx, lambda k: list(reversed(vs[k])), 'reversed')
    both(ctx, lambda k: bool(vs[k]), 'truth')
    both(ctx, lambda k: len(vs[k]), 'length')
    both(ctx, lambda k: vs[k].__reduce__()[1], 'pickle')
    both(ctx, lambda k: vs[k][:] is vs[k], 'full slice')
    both(ctx, lambda k: vs[k].evolver().persistent() is vs[k], 'unchanged evolver')
    both(ctx, lambda k: vs[k] == vs[k], 'self comparison')
    its = [iter(v) for v in vs]
    for _ in range(min(n, 2) + (n < 2)): both(ctx, lambda k: next(its[k]), 'iterator')
    both(ctx, lambda k: ctx.pvector_of(['py', 'c'][k], vs[k]), 'copy')
    both(ctx, lambda k: vs[k].transform([0], lambda x: x), 'transform')
    both(ctx, lambda k: sum([1 for x in vs[k]]), 'sum')


class Idx:
    def __init__(self, i): self.i = i
    def __index__(self): return self.i


def h_args(ctx, n, op):
    """Arguments of unusual types: the same result or the same kind of error."""
    xs = ctx.objs('x', n)
    vs = make(ctx, xs)
    y = ctx.obj()
    which = ctx.choice('bad', 9)
    bad = ['str', None, 1.5, y, (), True, Idx(1), Idx(-1), [y]][which]
    def body(k):
        v = vs[k]
        if op == 'get': return v[bad]
        if op == 'set': return v.set(bad, y)
        if op == 'set1': return v.set(0)
        if op == 'set3': return v.set(0, y, y)
        if op == 'mset': return v.mset(0, y, bad, y)
        if op == 'mset0': return v.mset()
        if op == 'mset1': return v.mset(bad)
        if op == 'mset3': return v.mset(0, y, bad)
        if op == 'delete': return v.delete(bad)
        if op == 'delete2': return v.delete(0, bad)
        if op == 'delete0': return v.delete()
        if op == 'delete3': return v.delete(0, 1, 2)
        if op == 'extend': return v.extend(bad)
        if op == 'extend0': return v.extend()
        if op == 'add': return v + bad
        if op == 'mul': return v * bad
        if op == 'rmul': return bad * v
        if op == 'index': return v.index(y, bad)
        if op == 'index2': return v.index(y, 0, bad)
        if op == 'index0': return v.index()
        if op == 'remove0': return v.remove()
        if op == 'remove': return v.remove(bad)
        if op == 'count': return v.count(bad)
        if op == 'in': return bad in v
        if op == 'append': return v.append(bad)
        if op == 'append0': return v.append()
        if op == 'eq': return v == bad
        if op == 'ne': return v != bad
        if op == 'lt': return v < bad
        if op == 'pvector': return ctx.pvector_of(['py', 'c'][k], bad)
        if op == 'slice': return v[bad:]
        if op == 'stop': return v[:bad]
        if op == 'step': return v[::bad]
        if op == 'eget': return v.evolver()[bad]
        if op == 'eextend': return v.evolver().extend(bad)
        e = v.evolver()
        if op == 'eset': e[bad] = y; return e
        if op == 'esetm': return e.set(bad, y)
        if op == 'eset1': return e.set(bad)
        if op == 'edel': del e[bad]; return e
        if op == 'edelm': return e.delete(bad)
        if op == 'eappend': return e.append(bad)
        if op == 'elen': return len(e)
    both(ctx, body, op + ' with ' + type(bad).__name__ if which != 3 else op + ' with an element')


def h_fault(ctx, n, op):
    """A callback raises at any point: the same outcome."""
    xs = ctx.objs('x', n)
    y = ctx.obj()
    ys = xs[:-1] + [ctx.obj()] if n else [y]
    vs = make(ctx, xs); ws = make(ctx, ys)
    at = ctx.int('at', 0, 2 * n + 2)
    def gen():
        for q in xs:
            ctx.tick()
            yield q
        ctx.tick()
    def body(k):
        v, w = vs[k], ws[k]
        ctx.fault_at = at; ctx.fault_n = 0; ctx.fault_hit = False
        try:
            if op == 'index': return v.index(y)
            if op == 'count': return v.count(y)
            if op == 'in': return y in v
            if op == 'remove': return v.remove(y)
            if op == 'build': return ctx.pvector_of(['py', 'c'][k], gen())
            if op == 'extend': return v.extend(gen())
            if op == 'add': return v + gen()
            if op == 'eextend':
                e = v.evolver()
                try: e.extend(gen())
                except UserError: pass
                return e
            if op == 'eq': return bool(v == w)
            if op == 'lt': return bool(v < w)
        finally: ctx.disarm_fault()
    a = ctx.attempt(body, 0); b = ctx.attempt(body, 1)
    if op in ('eq', 'lt'):
        # how many comparisons are made is not specified: a fault may hit one and miss the other
        if a.ok and b.ok: equal(ctx, a.value, b.value, op)
        else: ctx.check(a.err in (None, 'UserError') and b.err in (None, 'UserError'), op + ' with a raising callback')
        return
    ctx.check(a.ok == b.ok and a.err == b.err, '%s: Python %r, C %r' % (op, a, b))
    if a.ok: equal(ctx, a.value, b.value, op)


OPS = ['append', 'extend', 'set', 'mset', 'delete', 'evolve', 'cut', 'mul']
ALL = OPS + ['extend33', 'gen', 'genf', 'add', 'slice', 'delslice']
EOPS = ['eset', 'eappend', 'edel', 'pers', 'egenf', 'eextend']
ARGS = ['get', 'set', 'set1', 'set3', 'mset', 'mset0', 'mset1', 'mset3', 'delete', 'delete2', 'delete0', 'delete3', 'extend', 'extend0', 'add', 'mul', 'rmul', 'index', 'index2', 'index0', 'remove0', 'remove', 'count', 'in', 'append', 'append0',
        'eq', 'ne', 'lt', 'pvector', 'slice', 'stop', 'step', 'eget', 'eextend', 'eset', 'esetm', 'eset1', 'edel', 'edelm', 'eappend', 'elen']
SEARCH = ['count', 'remove', 'in', 'index', 'index2', 'eq', 'ne', 'lt']
def H(name, fn, quick, thorough, note, **k): return Harness(name, fn, T(quick, thorough), mode='bv', backends=('both',), native=('both',), note=note, **k)
def seqs(k, ops): return [[]] if k == 0 else [s + [o] for s in seqs(k - 1, ops) for o in ops]

CHECKS = [
    H('history', h_history, t(n=EDGE, ops=[[o] for o in ALL], wide=[False]) + t(n=[1055, 1056, 1057], ops=[[o] for o in ALL if o not in ('delete', 'delslice', 'slice', 'mul', 'cut', 'mset')]) + t(n=[1, 2, 33], ops=[['set'], ['delete'], ['mset']], wide=[True])
      + t(n=[0, 1, 32], ops=seqs(2, OPS)),
      t(n=list(range(0, 70)) + DEEP, ops=[[o] for o in ALL], wide=[True]) + t(n=[0, 1, 31, 32, 33, 34, 64], ops=seqs(2, ALL)) + t(n=[2], ops=seqs(3, OPS)), 'sequences of 2 (thorough 3) operations, then any read'),
    H('evolver', h_evolver, t(n=[0, 1, 2], ops=seqs(2, EOPS + ['read'])) + t(n=[1], ops=seqs(3, EOPS)) + t(n=[32, 33], ops=seqs(2, EOPS)) + t(n=[1056, 1057], ops=[['eset'], ['eappend', 'pers']]),
      t(n=[0, 1, 2], ops=seqs(4, EOPS[:4]) + seqs(2, EOPS + ['read'])) + t(n=[31, 32, 33], ops=seqs(3, EOPS)) + t(n=[1056, 1057, 1058], ops=[['eset'], ['eappend', 'pers', 'eset']]), 'sequences of evolver operations'),
    H('deep', h_history, t(n=[2079, 2080, 2081], ops=[[o] for o in ['append', 'set', 'extend', 'evolve', 'mset']], wide=['edge']) + t(n=[32800, 32801], ops=[['append']], wide=['edge']) + t(n=[32801], ops=[['set'], ['evolve']], wide=['edge']),
      t(n=[2079, 2080, 2081, 3104], ops=seqs(2, ['append', 'set', 'extend', 'evolve', 'mset']), wide=['edge']) + t(n=[32799, 32800, 32801, 33856], ops=[[o] for o in ['append', 'set', 'extend', 'evolve', 'mset']], wide=['edge']), 'deeper trees (more than 2,000 and 32,000 elements); positions at the ends and at the seams between subtrees'),
    H('search', h_search, t(n=[0, 1, 2, 3], op=['in', 'count', 'remove', 'index0', 'index1', 'index2']) + t(n=[33], op=['in', 'remove', 'index0']), t(n=range(0, 6), op=['in', 'count', 'remove', 'index0', 'index1', 'index2']), 'any equalities, 64-bit start and stop'),
    H('slice', h_slice, t(n=[0, 1, 2, 3], step=[None, 'sym']), t(n=range(0, 7), step=[None, 'sym']), '64-bit bounds'),
    H('compare', h_compare, t(n=[0, 1, 2], m=[0, 1, 2], other=['vector', 'list', 'tuple', 'shared', 'cross', 'iter', 'none']), t(n=[0, 1, 2, 3], m=[0, 1, 2, 3], other=['vector', 'list', 'tuple', 'shared', 'cross', 'iter', 'none']), 'all six comparisons, also between a C and a Python vector'),
    H('observers', h_hash, t(n=[0, 1, 2, 3, 33]), t(n=EDGE), 'hash, repr, iteration and the like'),
    H('args', h_args, t(n=[0, 2], op=ARGS) + t(n=[33], op=[o for o in ARGS if o not in SEARCH]), t(n=[0, 1, 2, 3], op=ARGS) + t(n=[32, 33, 34, 65], op=[o for o in ARGS if o not in SEARCH]), 'arguments of unusual types'),
    H('fault', h_fault, t(n=[0, 1, 2, 3], op=['index', 'count', 'in', 'remove', 'build', 'extend', 'add', 'eextend', 'eq', 'lt']), t(n=range(0, 6), op=['index', 'count', 'in', 'remove', 'build', 'extend', 'add', 'eextend', 'eq', 'lt']), 'a callback raises at any point'),
]
