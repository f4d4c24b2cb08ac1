"""C06: maps behave like dicts for every pattern of key equality and hashing."""
from sx.api import Harness, T
from harness.maplib import check_map, find, dset, ddel
from pyrsistent import pmap, m, PMap

ASSUMPTIONS = ['keys: equality is an equivalence, equal keys have equal hashes; hash values are arbitrary 64-bit integers']
OPS = ['set', 'remove', 'discard', 'update', 'update_with', 'add', 'or', 'get']


def step(ctx, s, mp, ref, op):
    k = ctx.obj('k%d' % s); v = ctx.obj('v%d' % s)
    if op == 'set': return mp.set(k, v), dset(ref, k, v)
    if op in ('remove', 'discard'):
        f = find(ctx, ref, k)
        a = ctx.attempt(getattr(mp, op), k)
        if f is None and op == 'remove':
            ctx.check(a.err == 'KeyError', 'remove of a missing key')
            return mp, ref
        ctx.check(a.ok, op + ' raised')
        return a.value, ddel(ref, k)
    if op == 'get':
        f = find(ctx, ref, k)
        a = ctx.attempt(lambda: mp[k])
        ctx.check(a.ok == (f is not None), 'lookup of a key')
        return mp, ref
    k2 = ctx.obj('k%db' % s); v2 = ctx.obj('v%db' % s)
    d = {}
    d[k] = v
    d[k2] = v2
    if op == 'update': r = mp.update(d)
    elif op == 'add': r = mp + pmap(d, pre_size=1)
    elif op == 'or': r = mp | d
    else:
        r = mp.update_with(lambda a, b: ('both', a, b), d)
        t = dict(ref)
        for x in d:
            f = find(ctx, t, x)
            t = dset(t, x, ('both', f[0], d[x]) if f is not None else d[x])
        return r, t
    t = dict(ref)
    for x in d: t = dset(t, x, d[x])
    return r, t


def h_history(ctx, pre, n, ops):
    """n sets on a map with pre buckets, then the operations ops (each with fresh symbolic keys), checked against a dict."""
    mp = pmap({}, pre_size=pre)
    ref = {}
    for i in range(n):
        k = ctx.obj('a%d' % i); v = ctx.obj('w%d' % i)
        mp = mp.set(k, v); ref = dset(ref, k, v)
    for s, op in enumerate(ops):
        mp, ref = step(ctx, s, mp, ref, op)
    check_map(ctx, mp, ref, 'map', [ctx.obj('q')])
    ctx.check(mp == ref, 'equal to dict'); ctx.check(not (mp != ref), 'not unequal to dict')
    ctx.check(mp == pmap(ref, pre_size=1), 'equal to map of dict')


def h_several(ctx, n, op, forms):
    """update and update_with several mappings at once, merged left to right."""
    ks, vs = ctx.objs('k', n), ctx.objs('v', n)
    ref = {}
    for k, v in zip(ks, vs): ref = dset(ref, k, v)
    args, ds = [], []
    allk = list(ks)
    for i, f in enumerate(forms):
        d = {}
        for j in range(f[1]):
            k = ctx.obj('d%d_%d' % (i, j)); allk.append(k)
            d[k] = ctx.obj('w%d_%d' % (i, j))
        ds.append(d)
        args.append(d if f[0] == 'd' else pmap(d, pre_size=1))
    ctx.limit_hash(allk, 16, 1)
    mp = pmap(ref)
    calls = []
    def fn(a, b): calls.append(1); return ('both', a, b)
    t = dict(ref); nc = 0
    for d in ds:
        for x in d:
            f = find(ctx, t, x)
            if f is not None and op != 'update': t = dset(t, x, ('both', f[0], d[x])); nc += 1
            else: t = dset(t, x, d[x])
    r = mp.update(*args) if op == 'update' else mp.update_with(fn, *args)
    check_map(ctx, r, t, 'merged', deep=False)
    if op != 'update': ctx.check(len(calls) == nc, 'function called once per key present before')
    check_map(ctx, mp, ref, 'original', deep=False)


def h_build(ctx, n, pre, how):
    ks = ctx.objs('k', n); vs = ctx.objs('v', n)
    ref = {}
    for k, v in zip(ks, vs): ref = dset(ref, k, v)
    pairs = list(zip(ks, vs))
    if how == 'dict':
        d = {}
        for k, v in pairs: d[k] = v
        mp = pmap(d, pre_size=pre)
        for k in list(d): del d[k]            # the source is independent
    elif how == 'pairs': mp = pmap(pairs, pre_size=pre)
    elif how == 'iter': mp = pmap(iter(pairs), pre_size=pre)
    elif how == 'map':
        d = {}
        for k, v in pairs: d[k] = v
        mp = pmap(pmap(d, pre_size=3), pre_size=pre)
    elif how == 'updates': mp = pmap({}, pre_size=pre).update(*[{k: v} for k, v in pairs])
    elif how == 'evolver':
        e = pmap({}, pre_size=pre).evolver()
        for k, v in pairs: e[k] = v
        mp = e.persistent()
    check_map(ctx, mp, ref, 'built', [ctx.obj('q')] if pre else [])
    if not pre: return
    k, v = ctx.obj('k'), ctx.obj('v')
    m2 = mp.set(k, v)
    ref2 = dset(ref, k, v)
    check_map(ctx, m2, ref2, 'after set', deep=False)
    k = ctx.obj('r')
    m3 = m2.discard(k)
    check_map(ctx, m3, ddel(ref2, k), 'after discard', deep=False)


def h_grow(ctx, pre, n, evolve):
    """Insert n keys in a row so that the table grows, then overwrite, remove and look up arbitrary keys."""
    mp = pmap({}, pre_size=pre)
    ref = {}
    if evolve:
        e = mp.evolver()
        for i in range(n):
            k, v = ctx.obj('k%d' % i), ctx.obj('v%d' % i)
            e.set(k, v); ref = dset(ref, k, v)
        mp = e.persistent()
    else:
        for i in range(n):
            k, v = ctx.obj('k%d' % i), ctx.obj('v%d' % i)
            mp = mp.set(k, v); ref = dset(ref, k, v)
    check_map(ctx, mp, ref, 'grown', [ctx.obj('q')])


def h_strings(ctx):
    x, y = ctx.obj('x'), ctx.obj('y')
    mp = m(a=x, b=y)
    ctx.check(ctx.same(mp.a, x) and ctx.same(mp.b, y), 'attribute access')
    ctx.check(ctx.attempt(lambda: mp.c).err == 'AttributeError', 'missing attribute')
    ctx.check(ctx.same(mp['a'], x), 'item access')
    z = ctx.obj('z')
    m2 = mp.set('c', z).remove('a')
    ctx.check(ctx.same(m2.c, z), 'attribute access after set')
    ctx.check(ctx.attempt(lambda: m2.a).err == 'AttributeError', 'attribute removed')
    ctx.check(not hasattr(m2, 'a') and hasattr(m2, 'b'), 'hasattr')
    check_map(ctx, mp, {'a': x, 'b': y}, 'm')
    check_map(ctx, m2, {'b': y, 'c': z}, 'm2')
    ctx.check(pmap() == {} and len(pmap()) == 0, 'empty')
    ctx.check(mp.copy() is mp, 'copy')
    ctx.check(mp != {'a': x}, 'unequal'); ctx.check((mp == 3) is False, 'other type')


def h_views(ctx, n, pre):
    ks = ctx.objs('k', n); vs = ctx.objs('v', n)
    ref = {}
    mp = pmap({}, pre_size=pre)
    for k, v in zip(ks, vs):
        ref = dset(ref, k, v); mp = mp.set(k, v)
    q, w = ctx.obj('q'), ctx.obj('w')
    f = find(ctx, ref, q)
    ctx.check((q in mp.keys()) == (f is not None), 'in keys')
    ctx.check(((q, w) in mp.items()) == (f is not None and bool(f[0] == w)), 'in items')
    hit = False
    for k in ref: hit = hit or bool(ref[k] == w)
    ctx.check((w in mp.values()) == hit, 'in values')
    ctx.check(mp.items() == pmap(ref, pre_size=1).items(), 'items equal')
    it, va = mp.items(), mp.values()
    ctx.check((it == it) is True and (va == va) is True and (it != it) is False, 'views equal themselves')
    for o in (None, 0, 'ab', object(), mp, va, mp.values()):
        ctx.check((it == o) is False and (it != o) is True, 'items view against something else')
    for o in (None, 0, object(), mp, it, mp.items()): ctx.check((va == o) is False and (va != o) is True, 'values view against something else')
    for o in (q, None, 0, (), (q,), (q, w, w), 'abc'): ctx.check((o in it) is False, 'only pairs are in the items')
    ctx.check(len(it) == len(va) == len(mp.keys()) == len(ref), 'view lengths')
    g = mp.set(q, w).items()
    ctx.check((it == g) is (f is not None and bool(f[0] == w)), 'items views compare by content')
    check_map(ctx, mp, ref, 'unchanged')


def hists(n, depth):
    out = []
    def rec(p):
        if len(p) == depth: out.append(list(p)); return
        for o in OPS: rec(p + [o])
    rec([])
    return out

H1 = [[o] for o in OPS]
H2 = [[a, b] for a in OPS for b in OPS]
WIDE = {'update', 'update_with', 'add', 'or'}
def light(ops): return sum(2 if o in WIDE else 1 for o in ops)

FORMS = [[('d', 1), ('d', 1)], [('m', 1), ('d', 1)], [('d', 1), ('m', 1), ('d', 1)], [('d', 2), ('d', 1)], [('d', 1), ('d', 0), ('d', 1)]]
from harness import biglib
BOPS = [['set'], ['del'], ['seti', 'deli'], ['upd'], ['upddict'], ['some', 'set'], ['drain'], ['drain1', 'set'], ['half', 'set']]
CHECKS = [
    Harness('several', h_several, T([dict(n=n, op=o, forms=f) for n in (0, 1) for o in ('update', 'update_with') for f in FORMS], [dict(n=n, op=o, forms=f) for n in (0, 1, 2) for o in ('update', 'update_with') for f in FORMS]), note='two or three mappings merged at once'),
    Harness('strings', h_strings, T([{}]), note='string keys, attribute access'),
    Harness('views', h_views, T([dict(n=n, pre=p) for n in (0, 1, 2) for p in (1, 2)], [dict(n=n, pre=p) for n in (0, 1, 2, 3) for p in (1, 2, 8)]), note='<=2 (3) insertions, 1/2 (8) buckets, arbitrary probes'),
    Harness('build', h_build, T([dict(n=n, pre=p, how=h) for p in (1, 2) for n in (1, 2) for h in ('dict', 'pairs', 'iter', 'map', 'updates', 'evolver')] + [dict(n=n, pre=0, how=h) for n in (1, 2) for h in ('dict', 'pairs', 'iter', 'map')],
            [dict(n=n, pre=p, how=h) for p in (0, 1, 2, 3) for n in (1, 2, 3) for h in ('dict', 'pairs', 'iter', 'map', 'updates', 'evolver')]), note='<=2 (3) pairs, six ways of building, bucket counts 1,2 and default, then one set and one discard'),
    Harness('history', h_history, T([dict(pre=p, n=n, ops=o) for p in (1, 2) for n in (0, 1, 2) for o in H1] + [dict(pre=1, n=1, ops=o) for o in H2 if light(o) <= 3] + [dict(pre=2, n=1, ops=o) for o in H2 if light(o) <= 2]
            + [dict(pre=1, n=2, ops=o) for o in H2 if light(o) <= 2] + [dict(pre=1, n=3, ops=o) for o in H1 if light(o) <= 1],
            [dict(pre=p, n=n, ops=o) for p in (1, 2, 3, 8) for n in (0, 1, 2) for o in H1] + [dict(pre=p, n=n, ops=o) for p in (1, 2) for n in (1, 2) for o in H2]),
            note='<=2 insertions then one arbitrary operation, 1 insertion then two; 1 or 2 initial buckets'),
    Harness('grow', h_grow, T([dict(pre=p, n=n, evolve=e) for p, n in ((8, 2), (3, 3), (2, 3), (1, 3), (1, 4)) for e in (False, True)], [dict(pre=p, n=n, evolve=e) for p, n in ((8, 3), (3, 4), (2, 4), (1, 4), (2, 5), (1, 5)) for e in (False, True)]),
            note='<=4 (5) consecutive insertions of arbitrary keys, initial buckets 1,2,3,8 (crosses up to two growth steps)'),
    Harness('big', biglib.h_objects, T([dict(kind=k, n=n, ops=o) for k in ('map',) for n in (5, 6, 17) for o in BOPS] + [dict(kind=k, n=n, ops=o) for k in ('map',) for n in (5, 6) for o in (['fill'], ['fill', 'set', 'drainrev'])] + [dict(kind=k, n=n, ops=o) for k in ('map',) for n in (40, 530) for o in (['set'], ['half', 'set'], ['upd'])],
            [dict(kind=k, n=n, ops=o, sym=sy) for k in ('map',) for n in (3, 5, 6, 11, 12, 17, 40) for o in BOPS + [['fill'], ['fill', 'set', 'drainrev'], ['drain', 'some', 'set'], ['set', 'del', 'half']] for sy in (0, 1, 2)] + [dict(kind=k, n=n, ops=o) for k in ('map',) for n in (530, 2000) for o in (['set'], ['half', 'set'], ['upd'])]),
            note='maps and sets of up to 530 (2,000) fixed keys and up to 4 arbitrary ones, whose hash falls into one of two buckets'),
]
