"""C07: no operation ever changes an existing map or set."""
from sx.api import Harness, T
from harness.maplib import check_map, check_set, find, dset, ddel, member, radd, rdel
from harness.kinds import new_map, new_set, MAPCLS, SETCLS
from pyrsistent import pmap, pset

ASSUMPTIONS = ['keys and elements: equality is an equivalence, equal objects have equal hashes']
MOPS = ['set', 'remove', 'update', 'update_with', 'discard', 'evolve', 'views', 'hash', 'thaw', 'merge']
SOPS = ['add', 'remove', 'discard', 'update', 'evolve', 'hash', 'union', 'diff', 'inter', 'xor']
# several changes in one go: two keys in one update, or two evolver changes before persistent()
MTWO = ['update2', 'merge2', 'ev_ss', 'ev_sr', 'ev_rs', 'ev_rr', 'transform2']
STWO = ['update2', 'union2', 'ev_aa', 'ev_ar', 'ev_ra', 'ev_rr']


def mstep(ctx, s, vs, op, lim):
    mp, ref = vs[-1] if len(vs) < 3 else vs[ctx.choice('src%d' % s, [len(vs) - 1, len(vs) - 2])]
    def key():
        k = ctx.obj()
        if lim: ctx.limit_hash([k], 8, lim)
        return k
    k = key(); v = ctx.obj()
    if op == 'set': vs.append((mp.set(k, v), dset(ref, k, v)))
    elif op == 'remove':
        a = ctx.attempt(mp.remove, k)
        if a.ok: vs.append((a.value, ddel(ref, k)))
    elif op == 'discard': vs.append((mp.discard(k), ddel(ref, k)))
    elif op == 'update':
        d = {}
        d[k] = v
        m2 = mp.update(d)
        d[k] = None
        vs.append((m2, dset(ref, k, v)))
    elif op in ('update2', 'merge2', 'transform2'):
        k2 = key(); w = ctx.obj()
        r = dset(dset(ref, k, v), k2, w)
        if op == 'update2': m2 = mp.update({k: v}, {k2: w})
        elif op == 'merge2': m2 = mp + {k: v, k2: w}
        else: m2 = mp.transform([k], v, [k2], w)
        vs.append((m2, r))
    elif op in ('ev_ss', 'ev_sr', 'ev_rs', 'ev_rr'):
        e = mp.evolver()
        r = ref
        for i, c in enumerate(op[3:]):
            if i: k = key(); v = ctx.obj()
            if c == 's': e[k] = v; r = dset(r, k, v)
            else:
                f = find(ctx, r, k)
                a = ctx.attempt(e.remove, k)
                ctx.check(a.ok == (f is not None), 'evolver remove')
                r = ddel(r, k)
            check_map(ctx, mp, ref, 'the map while its evolver changes', deep=False)
        vs.append((e.persistent(), r))
    elif op == 'merge': vs.append((mp + pmap({k: v}, pre_size=1), dset(ref, k, v)))
    elif op == 'update_with':
        f = find(ctx, ref, k)
        vs.append((mp.update_with(lambda a, b: ('u', a, b), {k: v}), dset(ref, k, v if f is None else ('u', f[0], v))))
    elif op == 'views':
        ks = mp.keys(); vals = mp.values(); its = mp.items()
        ctx.attempt(ks.add, k); ctx.attempt(ks.discard, k); ctx.attempt(ks.remove, k)
        a = ctx.attempt(setattr, vals, '_map', pmap()); b = ctx.attempt(setattr, its, '_map', pmap())
        ctx.check(a.err == 'TypeError' and b.err == 'TypeError', 'views are immutable')
        list(vals); list(its)
    elif op == 'hash': ctx.hash(mp)
    elif op == 'thaw':
        d = dict(mp.items())
        d[k] = v
    else:
        e = mp.evolver()
        e[k] = v
        r1 = dset(ref, k, v)
        first = e.persistent()
        vs.append((first, r1))
        k2 = key(); w = ctx.obj()
        f = find(ctx, r1, k2)
        if ctx.choice('ev%d' % s, 2):
            e.set(k2, w); r2 = dset(r1, k2, w)
        else:
            a = ctx.attempt(e.remove, k2)
            ctx.check(a.ok == (f is not None), 'evolver remove')
            r2 = ddel(r1, k2)
        vs.append((e.persistent(), r2))
        e.set(k2, ctx.obj())       # never made persistent


def h_map(ctx, kind, pre, n, ops, lim=None):
    src = {}
    ref = {}
    ks = ctx.objs('k', n); xs = ctx.objs('x', n)
    if lim: ctx.limit_hash(ks, 8, lim)
    for k, v in zip(ks, xs): src[k] = v; ref = dset(ref, k, v)
    mp = pmap(src, pre_size=pre) if kind == 'map' else MAPCLS[kind](src)
    for k in list(src): src[k] = None            # the source mapping stays independent
    vs = [(mp, ref)]
    for s, op in enumerate(ops): mstep(ctx, s, vs, op, lim)
    for i, (m, r) in enumerate(vs):
        check_map(ctx, m, r, 'version')
        ctx.check(type(m) is MAPCLS[kind], 'class')


def sstep(ctx, s, vs, op, lim, kind):
    st, ref = vs[-1]
    def elem():
        k = ctx.obj()
        if lim: ctx.limit_hash([k], 8, lim)
        return k
    x = elem()
    if op == 'add': vs.append((st.add(x), radd(ref, x)))
    elif op == 'remove':
        a = ctx.attempt(st.remove, x)
        ctx.check(a.ok == member(x, ref), 'remove')
        if a.ok: vs.append((a.value, rdel(ref, x)))
    elif op == 'discard': vs.append((st.discard(x), rdel(ref, x)))
    elif op == 'update':
        l = [x]
        r = st.update(l)
        l.append(None)
        vs.append((r, radd(ref, x)))
    elif op in ('update2', 'union2'):
        y = elem()
        vs.append((st.update([x, y]) if op == 'update2' else st | [x, y], radd(radd(ref, x), y)))
        if kind == 'keys': vs.pop()
    elif op in ('ev_aa', 'ev_ar', 'ev_ra', 'ev_rr'):
        e = st.evolver()
        r = ref
        for i, c in enumerate(op[3:]):
            if i: x = elem()
            if c == 'a': e.add(x); r = radd(r, x)
            else:
                a = ctx.attempt(e.remove, x)
                ctx.check(a.ok == member(x, r), 'evolver remove')
                r = rdel(r, x)
            check_set(ctx, st, ref, 'the set while its evolver changes')
        vs.append((e.persistent(), r))
    elif op == 'hash': ctx.hash(st)
    elif op in ('union', 'diff', 'inter', 'xor'):
        o = pset([x], pre_size=1)
        if op == 'union': st | o
        elif op == 'diff': st - o
        elif op == 'inter': st & o
        else: st ^ o
        vs.append((o, [x]))
    else:
        e = st.evolver()
        e.add(x)
        r1 = radd(ref, x)
        vs.append((e.persistent(), r1))
        y = elem()
        if ctx.choice('ev%d' % s, 2): e.add(y); r2 = radd(r1, y)
        else:
            a = ctx.attempt(e.remove, y)
            ctx.check(a.ok == member(y, r1), 'evolver remove')
            r2 = rdel(r1, y)
        vs.append((e.persistent(), r2))
        e.add(elem())


def h_set(ctx, kind, pre, n, ops, lim=None):
    xs = ctx.objs('x', n)
    if lim: ctx.limit_hash(xs, 8, lim)
    ref = []
    for x in xs: ref = radd(ref, x)
    src = list(xs)
    if kind == 'set': st = pset(src, pre_size=pre)
    elif kind == 'keys': st = pmap([(x, x) for x in xs], pre_size=pre).keys()
    else: st = SETCLS[kind](src)
    src.append(None)
    vs = [(st, ref)]
    for s, op in enumerate(ops): sstep(ctx, s, vs, op, lim, kind)
    for st, r in vs: check_set(ctx, st, r, 'version')


def pairs(ops): return [[a] for a in ops] + [[a, b] for a in ops for b in ops if a != 'thaw']
light = lambda ops: sum(2 if o.startswith('ev') else 1 for o in ops)
def cross(ops, two): return [[a, b] for a in ops for b in two if a not in ('thaw', 'views')] + [[b, a] for a in ops for b in two]

from harness import biglib
BOPS = [['set'], ['del'], ['seti', 'deli'], ['upd'], ['upddict'], ['some', 'set'], ['drain'], ['drain1', 'set'], ['half', 'set']]
CHECKS = [
    Harness('sets', h_set, T([dict(kind='set', pre=1, n=0, ops=[o]) for o in SOPS + STWO] + [dict(kind='set', pre=1, n=1, ops=o) for o in pairs(SOPS) + [[o] for o in STWO] if light(o) <= 2] + [dict(kind='set', pre=1, n=1, ops=o) for o in cross(['add', 'remove'], ['update2', 'ev_aa', 'ev_ra', 'evolve'])]
            + [dict(kind='set', pre=2, n=2, ops=[o]) for o in SOPS + STWO] + [dict(kind=k, pre=1, n=2, ops=[o], lim=2) for k in ('cset', 'keys') for o in SOPS + STWO],
            [dict(kind='set', pre=p, n=n, ops=o) for p in (1, 2) for n in (0, 1, 2) for o in pairs(SOPS) + [[o] for o in STWO]] + [dict(kind=k, pre=1, n=n, ops=o, lim=2) for k in ('cset', 'keys') for n in (1, 2) for o in pairs(SOPS)]
            + [dict(kind='set', pre=1, n=1, ops=o) for o in cross(SOPS, STWO)]),
            note='<=2 elements then every sequence of <=2 operations, all versions rechecked; buckets 1 or 2 (checked sets: default 8 buckets with hash mod 8 in {0,1})'),
    Harness('maps', h_map, T([dict(kind='map', pre=1, n=0, ops=[o]) for o in MOPS + MTWO] + [dict(kind='map', pre=1, n=1, ops=o) for o in pairs(MOPS) + [[o] for o in MTWO] if light(o) <= 2] + [dict(kind='map', pre=1, n=1, ops=o) for o in cross(['set', 'remove'], ['update2', 'ev_ss', 'ev_rs', 'evolve'])]
            + [dict(kind='map', pre=2, n=2, ops=[o]) for o in MOPS + MTWO] + [dict(kind='cmap', pre=0, n=2, ops=[o], lim=2) for o in MOPS + MTWO],
            [dict(kind='map', pre=p, n=n, ops=o) for p in (1, 2) for n in (0, 1, 2) for o in pairs(MOPS) + [[o] for o in MTWO]] + [dict(kind='cmap', pre=0, n=n, ops=o, lim=2) for n in (1, 2) for o in pairs(MOPS)]
            + [dict(kind='map', pre=1, n=1, ops=o) for o in cross(MOPS, MTWO)]),
            note='<=2 entries then every sequence of <=2 operations (evolver use counts as two), all versions rechecked; buckets 1 or 2'),
    Harness('big', biglib.h_objects, T([dict(kind=k, n=n, ops=o) for k in ('map', 'set', 'keys') for n in (5, 6, 17) for o in BOPS] + [dict(kind=k, n=n, ops=o) for k in ('map', 'set', 'keys') for n in (5, 6) for o in (['fill'], ['fill', 'set', 'drainrev'])] + [dict(kind=k, n=n, ops=o) for k in ('map', 'set', 'keys') for n in (40, 530) for o in (['set'], ['half', 'set'], ['upd'])],
            [dict(kind=k, n=n, ops=o, sym=sy) for k in ('map', 'set', 'keys') for n in (3, 5, 6, 11, 12, 17, 40) for o in BOPS + [['fill'], ['fill', 'set', 'drainrev'], ['drain', 'some', 'set'], ['set', 'del', 'half']] for sy in (0, 1, 2)] + [dict(kind=k, n=n, ops=o) for k in ('map', 'set', 'keys') for n in (530, 2000) for o in (['set'], ['half', 'set'], ['upd'])]),
            note='maps and sets of up to 530 (2,000) fixed keys and up to 4 arbitrary ones, whose hash falls into one of two buckets'),
]
