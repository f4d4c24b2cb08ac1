"""C04: the C vector keeps exact ownership of every element and node (checked on the IR of the extension)."""
from sx.api import Harness, T, UserError
from harness.veclib import *
from harness.c01 import t, EDGE, DEEP

ASSUMPTIONS = ['memory allocation succeeds', 'destructors of elements use the evolver only where stated (release)', 'nodes kept in the extension\'s node cache count as free']


def plan(ctx, n, ops, xs, wide, lib):
    """Arguments for a sequence of operations, worked out on a list; fixes every choice beforehand."""
    out = []
    ref = list(xs)
    for s, op in enumerate(ops):
        if op in ('pers', 'new', 'drop', 'iter', 'iterall'):
            out.append((op, ())); continue
        a = vargs(ctx, op, s, len(ref), wide)
        if op.startswith('e') and op not in ('extend', 'extend33', 'evolve'): ctx.attempt(leop, ctx, op, ref, a)
        else:
            r = ctx.attempt(lop, ctx, op, ref, a)
            if r.ok: ref = r.value
        out.append((op, a))
    return out


def everything(xs, steps):
    objs = list(xs)
    for op, a in steps:
        for y in a:
            if isinstance(y, list): objs += y
            elif not isinstance(y, int): objs.append(y)
    return objs


ORDERS = ['oldest', 'newest', 'middle']


def drop(items, order):
    while items:
        if order == 'oldest': del items[0]
        elif order == 'newest': items.pop()
        else: del items[len(items) // 2]


def h_history(ctx, n, ops, wide=False, how='list', order=None):
    """Operations on the latest version; all versions kept, then dropped one by one."""
    xs = ctx.objs('x', n)
    steps = plan(ctx, n, ops, xs, wide, None)
    objs = everything(xs, steps)
    order = order or ctx.choice('order', ORDERS)
    base = [None]
    def run():
        b = ctx.refs(objs)
        if how == 'list': pool = [ctx.pvector(xs)]
        else:
            pool = [ctx.pvector()]
            for x in xs: pool[0] = pool[0].append(x)
            x = None
        keep = []
        for op, a in steps:
            r = ctx.attempt(vop, ctx, op, pool[-1], a, keep)
            if r.ok: pool.append(r.value)
            r = None; a = None
            ctx.gc_visits(pool + keep, objs, b)
        drop(keep, order)
        ctx.gc_visits(pool, objs, b)
        drop(pool, order)
    ctx.balanced(run, objs)


def h_evolver(ctx, n, ops, wide=False, order=None):
    xs = ctx.objs('x', n)
    steps = plan(ctx, n, ops, xs, wide, None)
    objs = everything(xs, steps)
    order = order or ctx.choice('order', ORDERS)
    def run():
        b = ctx.refs(objs)
        pool = [ctx.pvector(xs)]
        ev = [pool[0].evolver()]
        for op, a in steps:
            if op == 'pers': pool.append(ev[-1].persistent())
            elif op == 'new': ev.append(pool[-1].evolver())
            elif op == 'drop': del pool[0]; pool.append(ctx.pvector())
            else: ctx.attempt(eop, ctx, op, ev[-1], a)
            a = None
            ctx.gc_visits(pool + ev, objs, b)
        if order == 'middle':
            drop(ev, 'newest'); drop(pool, 'oldest')
        else:
            drop(pool, order); drop(ev, order)
    ctx.balanced(run, objs)


def h_iter(ctx, n, k, order):
    """Iterators: taken part of the way, to the end and beyond; dropped before or after the vector."""
    xs = ctx.objs('x', n)
    def run():
        b = ctx.refs(xs)
        v = ctx.pvector(xs)
        it = iter(v)
        for _ in range(k): ctx.attempt(next, it)
        ctx.gc_visits([v, it], xs, b)
        if order == 'vector': v = None
        ctx.attempt(next, it)
        j = iter(it)
        if order != 'vector': it = None
        ctx.attempt(next, j)
        w = ctx.pvector(j)
        w = ctx.pvector(iter(ctx.pvector(xs)))
    ctx.balanced(run, xs)


def h_fault(ctx, n, op):
    """A callback raises at any point."""
    xs = ctx.objs('x', n)
    y = ctx.obj()
    ys = xs[:-1] + [ctx.obj()] if n else [y]
    z = ctx.choice('own', 2) if n else 0
    x = xs[n - 1] if z else y
    i = ctx.choice('i', n + 1)
    at = ctx.int('at', 0, 3 * n + 2)
    objs = list(xs) + [y] + [ys[-1]]
    def gen():
        for q in xs:
            ctx.tick()
            yield q
        ctx.tick()
    class Idx:
        def __index__(self):
            ctx.tick()
            return i
    class Raiser:
        def __iter__(self):
            ctx.tick()
            return iter(xs)
    def f(q):
        ctx.tick()
        return y
    def body(v, w):
        if op == 'eq': v == w
        elif op == 'ne': v != w
        elif op == 'lt': v < w
        elif op == 'ge': v >= w
        elif op == 'eqlist': v == ys
        elif op == 'index': v.index(x)
        elif op == 'index1': v.index(x, 1)
        elif op == 'count': v.count(x)
        elif op == 'in': x in v
        elif op == 'remove': v.remove(x)
        elif op == 'hash': hash(v)
        elif op == 'build': ctx.pvector(gen())
        elif op == 'extend': v.extend(gen())
        elif op == 'extendi': v.extend(Raiser())
        elif op == 'add': v + gen()
        elif op == 'eextend':
            e = v.evolver()
            try: e.extend(gen())
            finally: e.persistent()
        elif op == 'idx': v[Idx()]
        elif op == 'set': v.set(Idx(), y)
        elif op == 'mset': v.mset(0, y, Idx(), y)
        elif op == 'delete': v.delete(Idx())
        elif op == 'slice': v[Idx():]
        elif op == 'mul': v * Idx()
        elif op == 'eset':
            e = v.evolver()
            e[0:0] if False else None
            e[Idx()] = y
        elif op == 'edel':
            e = v.evolver()
            e.append(y)
            del e[Idx()]
        elif op == 'eget': v.evolver()[Idx()]
        elif op == 'transform': v.transform([i], f)
        elif op == 'transformall': v.transform([pick], f)
    def pick(k):
        ctx.tick()
        return k == 0
    def run():
        b = ctx.refs(objs)
        v = ctx.pvector(xs); w = ctx.pvector(ys)
        ctx.fault_at = at; ctx.fault_n = 0; ctx.fault_hit = False
        r = ctx.attempt(body, v, w)
        ctx.disarm_fault()
        if not r.ok and r.err != 'UserError': r = None
        r = None
        ctx.gc_visits([v, w], objs, b)
    ctx.balanced(run, objs)


class Odd: pass


def h_args(ctx, n, op):
    """Calls with wrong arguments, or arguments of unusual kinds."""
    xs = ctx.objs('x', n)
    y = ctx.obj()
    bad = ctx.choice('bad', ['str', None, 1.5, 'obj', (), True])
    objs = list(xs) + [y]
    def body(v, bad):
        if op == 'get': v[bad]
        elif op == 'set': v.set(bad, y)
        elif op == 'set1': v.set(0)
        elif op == 'set3': v.set(0, y, y)
        elif op == 'mset': v.mset(0, y, bad, y)
        elif op == 'mset1': v.mset(bad)
        elif op == 'mset3': v.mset(0, y, bad)
        elif op == 'delete': v.delete(bad)
        elif op == 'delete2': v.delete(0, bad)
        elif op == 'delete0': v.delete()
        elif op == 'extend': v.extend(bad)
        elif op == 'add': v + bad
        elif op == 'mul': v * bad
        elif op == 'rmul': bad * v
        elif op == 'index': v.index(y, bad)
        elif op == 'index2': v.index(y, 0, bad)
        elif op == 'index0': v.index()
        elif op == 'remove0': v.remove()
        elif op == 'eq': v == bad
        elif op == 'lt': v < bad
        elif op == 'pvector': ctx.pvector(bad)
        elif op == 'eget': v.evolver()[bad]
        elif op == 'eset': v.evolver()[bad] = y
        elif op == 'esetm': v.evolver().set(bad, y)
        elif op == 'edel': v.evolver().delete(bad)
        elif op == 'eextend': v.evolver().extend(bad)
        elif op == 'eset1': v.evolver().set(bad)
        elif op == 'tolist': v.tolist()
        elif op == 'reduce': v.__reduce__()
        elif op == 'repr': repr(v)
        elif op == 'hash': hash(v)
        elif op == 'slice': v[bad:]
        elif op == 'step': v[::bad]
        elif op == 'append0': v.append()
    def run():
        b = ctx.refs(objs)
        v = ctx.pvector(xs)
        q = y if bad == 'obj' else bad
        ctx.attempt(body, v, q)
        q = None
        ctx.gc_visits([v], objs, b)
    ctx.balanced(run, objs)


def h_far(ctx, n, op, where):
    """Positions beyond the small integers that the interpreter shares."""
    xs = ctx.objs('x', n)
    y = ctx.obj()
    x = xs[where]
    ctx.assume(ctx.all([ctx.not_(ctx.eq(x, q)) for q in xs if q is not x]))
    def run():
        v = ctx.pvector(xs)
        if op == 'remove': v.remove(x)
        elif op == 'index': v.index(x)
        elif op == 'index1': v.index(x, where, n)
        elif op == 'count': v.count(x)
        elif op == 'set': v.set(where, y)
        elif op == 'eset': e = v.evolver(); e[where] = y; e.persistent()
        elif op == 'delete': v.delete(where); v.delete(where, n)
        elif op == 'edel': e = v.evolver(); del e[where]; e.persistent()
        elif op == 'get': v[where]; v[where:]; v.evolver()[where]
        elif op == 'len': len(v); len(v.evolver())
        elif op == 'mset': v.mset(where, y, n, y)
    ctx.balanced(run, [x, y, xs[0]])


def h_reentrant(ctx, n, op):
    """An iterable handed to an evolver's extend that uses the same evolver meanwhile."""
    xs = ctx.objs('x', n)
    y = ctx.obj(); z = ctx.obj()
    objs = list(xs) + [y, z]
    def run():
        v = ctx.pvector(xs)
        e = v.evolver()
        e.append(y)
        out = []
        def gen():
            yield z
            if op == 'pers': out.append(e.persistent())
            elif op == 'append': e.append(z)
            elif op == 'set': e[0] = z
            elif op == 'del': del e[0]
            elif op == 'extend': e.extend([z, z])
            yield y
        ctx.attempt(lambda: e.extend(gen()))
        gen = None
        w = e.persistent()
        n = len(w)
        [w[k] for k in range(n)]
        e = None
    ctx.balanced(run, objs)


def h_release(ctx, n, how, inner):
    """Releasing the replaced element runs code that uses the evolver: it finds the evolver after the change, as with a list."""
    xs = ctx.objs('x', n)
    y, z = ctx.obj('y'), ctx.obj('z')
    i = ctx.pick(ctx.int('i', 0, n - 1))
    v = ctx.pvector(xs)
    e = v.evolver()
    st = dict(armed=False)
    def on():
        if not st['armed']: return
        st['armed'] = False
        st['seen'] = ctx.attempt(lambda: [e[k] for k in range(len(e))])
        if inner == 'set': e[i] = z
        elif inner == 'append': e.append(z)
        elif inner == 'pers': st['p'] = e.persistent()
        elif inner == 'del': ctx.attempt(e.delete, i)
        elif inner == 'delset': ctx.attempt(e.delete, i); e.append(z)
    if how in ('pers', 'persapp', 'delorig'):
        e = ctx.pvector(xs[:i] + [ctx.dying(on)] + xs[i + 1:]).evolver()
        if how != 'delorig': e[i] = y
        if how == 'persapp': e.append(y)
    elif how == 'app':
        e.append(ctx.dying(on)); i = n
    elif how != 'vec': e[i] = ctx.dying(on)
    else: w = v.set(i, ctx.dying(on))
    st['armed'] = True
    res = None
    if how in ('item', 'app'): e[i] = y
    elif how in ('del', 'delorig'): del e[i]
    elif how in ('pers', 'persapp'): res = e.persistent()
    elif how == 'set': e.set(i, y)
    elif how == 'neg': e[i - n] = y
    elif how == 'vec': w = None
    st['armed'] = False
    ref = list(xs)
    if how in ('persapp', 'app'): ref.append(y)
    if how in ('del', 'delorig'): del ref[i]
    elif how != 'vec': ref[i] = y
    if res is not None: ctx.check_seq(res, ref, 'persistent form')
    if ctx.backend == 'c': ctx.check('seen' in st, 'the element is released')
    if 'seen' not in st: return
    ctx.check(st['seen'].ok and len(st['seen'].value) == len(ref) and all([bool(ctx.same(p, q)) for p, q in zip(st['seen'].value, ref)]), 'state seen while the element is released')
    if inner == 'set': ref[i:i + 1] = [z]
    elif inner == 'append': ref.append(z)
    elif inner == 'pers': ctx.check_seq(st['p'], ref, 'persistent form taken meanwhile')
    elif inner == 'del': del ref[i:i + 1]
    elif inner == 'delset': del ref[i:i + 1]; ref.append(z)
    ctx.check_seq(e.persistent(), ref, 'evolver afterwards')
    ctx.check_seq(v, xs, 'vector unchanged')


OPS = ['append', 'extend', 'set', 'mset', 'delete', 'evolve', 'genf', 'cut', 'mul']
DOPS = ['append', 'set', 'extend', 'evolve', 'mset']
ALL = OPS + ['extend33', 'gen', 'add', 'slice', 'delslice']
EOPS = ['eset', 'eappend', 'edel', 'pers', 'new', 'egenf', 'eextend', 'drop']
FAULTS = ['eq', 'ne', 'lt', 'ge', 'eqlist', 'index', 'index1', 'count', 'in', 'remove', 'hash', 'build', 'extend', 'extendi', 'add', 'eextend', 'idx', 'set', 'mset', 'delete', 'slice', 'mul', 'eset', 'edel', 'eget',
          'transform', 'transformall']
ARGS = ['get', 'set', 'set1', 'set3', 'mset', 'mset1', 'mset3', 'delete', 'delete2', 'delete0', 'extend', 'add', 'mul', 'rmul', 'index', 'index2', 'index0', 'remove0', 'eq', 'lt', 'pvector', 'eget', 'eset', 'esetm', 'edel',
        'eextend', 'eset1', 'tolist', 'reduce', 'repr', 'hash', 'slice', 'step', 'append0']
def H(name, fn, quick, thorough, note, **k): return Harness(name, fn, T(quick, thorough), mode='bv', backends=('c',), native=('c',), note=note, **k)
def seqs(k, ops): return [[]] if k == 0 else [s + [o] for s in seqs(k - 1, ops) for o in ops]

CHECKS = [
    H('history', h_history, t(n=EDGE, ops=[[o] for o in ALL]) + t(n=[1055, 1056, 1057], ops=[[o] for o in ALL if o not in ('delete', 'delslice', 'slice', 'mul', 'cut', 'mset')], order=['oldest']) + t(n=[1056, 1057], ops=[['append', 'append']], how=['append'], order=['oldest', 'newest'])
      + t(n=[1, 32, 33], ops=seqs(2, OPS)) + t(n=[33], ops=seqs(2, OPS), how=['append'], order=['middle']),
      t(n=list(range(0, 70)) + DEEP, ops=[[o] for o in ALL], wide=[True]) + t(n=[0, 1, 31, 32, 33, 34, 64], ops=seqs(2, ALL)) + t(n=[2, 33], ops=seqs(3, OPS), how=['list', 'append']) + t(n=[1055, 1056], ops=seqs(2, ['append', 'set', 'evolve', 'extend']), order=['middle']),
      'sequences of 2 (thorough 3) operations, any position up to one beyond either end, versions dropped in any of three orders'),
    H('evolver', h_evolver, t(n=[0, 1, 2], ops=seqs(2, EOPS)) + t(n=[2], ops=seqs(3, EOPS[:5]), order=['oldest', 'newest']) + t(n=[32, 33], ops=seqs(2, EOPS) + [['eset', 'pers'] + s for s in seqs(1, EOPS)] + [['pers', 'eset', 'new', 'eset'], ['eset', 'edel', 'eset'], ['eappend', 'pers', 'eset', 'pers', 'eset']], order=['oldest', 'middle'])
      + t(n=[1056, 1057], ops=[['eset'], ['eappend', 'pers', 'eset']], order=['oldest', 'newest']),
      t(n=[0, 1, 2], ops=seqs(4, EOPS[:5])) + t(n=[1, 32, 33], ops=seqs(3, EOPS)) + t(n=[1056, 1057, 1058], ops=[['eset'], ['eappend', 'pers', 'eset'], ['eset', 'pers', 'eset']]), 'evolver operations, persistent() and further evolvers in between'),
    H('deep', h_history, t(n=[2079, 2080, 2081], ops=[[o] for o in DOPS] + [['evolve', 'evolve']], wide=['edge'], order=['oldest', 'newest']) + t(n=[2080], ops=[['append', 'append']], wide=['edge'], how=['append'], order=['oldest']) + t(n=[32799, 32800, 32801, 65567, 65568], ops=[['append'], ['extend']], wide=['edge'], order=['oldest']) + t(n=[32801], ops=[['set'], ['evolve']], wide=['edge'], order=['oldest']),
      t(n=[2079, 2080, 2081, 3104], ops=seqs(2, DOPS), wide=['edge'], order=['oldest', 'newest']) + t(n=[32799, 32800, 32801, 33856], ops=[[o] for o in DOPS], wide=['edge'], order=['oldest', 'newest']), 'deeper trees (more than 2,000 and 32,000 elements); positions at the ends and at the seams between subtrees'),
    H('deepevolver', h_evolver, t(n=[1057, 2081], ops=[['eset', 'pers', 'eset'], ['eappend', 'pers', 'eset', 'pers', 'eset']], wide=['edge'], order=['oldest', 'newest']) + t(n=[32801], ops=[['eset']], wide=['edge'], order=['oldest']), t(n=[1057, 2080, 2081], ops=[['eset', 'pers', 'eset', 'pers', 'eset']], wide=['edge']) + t(n=[32800, 32801], ops=[['eset', 'eset'], ['eset', 'pers', 'eset']], wide=['edge']), 'the same for evolvers'),
    H('iter', h_iter, t(n=[0, 1, 2, 33, 65], k=[0, 1, 3, 70], order=['vector', 'iterator']), t(n=EDGE + DEEP, k=[0, 1, 2, 31, 32, 33, 34, 70, 1100], order=['vector', 'iterator']), 'iterators part of the way, to the end and beyond'),
    H('fault', h_fault, t(n=[0, 1, 2, 3], op=FAULTS) + t(n=[34], op=['build', 'extend', 'add', 'eextend']), t(n=range(0, 6), op=FAULTS) + t(n=[33, 34, 65], op=['build', 'extend', 'add', 'eextend', 'index', 'remove']), 'any callback raises, any equalities between elements'),
    H('args', h_args, t(n=[0, 2, 33], op=ARGS), t(n=[0, 1, 2, 32, 33, 64, 65, 1057], op=ARGS), 'wrong arguments'),
    H('far', h_far, t(n=[300], op=['remove', 'index', 'index1', 'count', 'set', 'eset', 'delete', 'edel', 'get', 'len', 'mset'], where=[100, 298]), t(n=[300, 1100], op=['remove', 'index', 'index1', 'count', 'set', 'eset', 'delete', 'edel', 'get', 'len', 'mset'], where=[0, 100, 257, 280, 299]), 'positions above 256, one element unlike the others'),
    H('release', h_release, t(n=[1, 2, 32, 33, 34], how=['item', 'set', 'neg', 'vec', 'pers', 'persapp', 'del', 'delorig'], inner=['read', 'set', 'append', 'pers', 'del', 'delset']), t(n=EDGE[1:], how=['item', 'set', 'neg', 'vec', 'pers', 'persapp', 'del', 'delorig'], inner=['read', 'set', 'append', 'pers', 'del', 'delset']), 'the destructor of a replaced element uses the evolver'),
    H('reentrant', h_reentrant, t(n=[0, 1, 33], op=['pers', 'append', 'set', 'del', 'extend']), t(n=EDGE, op=['pers', 'append', 'set', 'del', 'extend']), 'extend with an iterable that uses the evolver'),
]
