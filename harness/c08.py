"""C08: map and set evolvers are private mutable copies."""
from sx.api import Harness, T
from harness.maplib import check_map, check_set, find, dset, ddel, member, radd, rdel
from harness.kinds import MAPCLS, SETCLS
from pyrsistent import pmap, pset

ASSUMPTIONS = ['keys and elements: equality is an equivalence, equal objects have equal hashes']
MOPS = ['set', 'setitem', 'remove', 'delitem', 'persist', 'other']
SOPS = ['add', 'remove', 'persist', 'other']


class Ev:
    """An evolver with its model."""
    def __init__(self, e, src, ref):
        self.e = e; self.last = src; self.ref = ref; self.dirty = False


def newkey(ctx, lim):
    k = ctx.obj()
    if lim: ctx.limit_hash([k], 8, lim)
    return k


def look(ctx, ev, lim, q=None):
    """Reads on a map evolver."""
    e, ref = ev.e, ev.ref
    ctx.check(len(e) == len(ref), 'evolver len')
    for k in ref:
        a = ctx.attempt(lambda: e[k])
        ctx.check(a.ok and ctx.same(a.value, ref[k]), 'evolver lookup')
        ctx.check(k in e, 'evolver membership')
    if q is not None:
        f = find(ctx, ref, q)
        ctx.check((q in e) == (f is not None), 'evolver probe')
        a = ctx.attempt(lambda: e[q])
        ctx.check(a.ok == (f is not None) and (a.ok or a.err == 'KeyError'), 'evolver probe lookup')
    ctx.check(ctx.iff(e.is_dirty(), ev.dirty), 'is_dirty')


def persist(ctx, ev, cls, vs, check):
    p = ev.e.persistent()
    if ev.dirty: ctx.check(p is not ev.last, 'persistent after changes returned the previous object')
    else: ctx.check(p is ev.last, 'persistent without changes returned a different object')
    ctx.check(type(p) is cls, 'class of persistent()')
    ctx.check(not ev.e.is_dirty(), 'dirty after persistent')
    ctx.check(ev.e.persistent() is p, 'second persistent() differs')
    ev.last = p; ev.dirty = False
    vs.append((p, ev.ref))


def h_map(ctx, kind, pre, n, ops, lim=None):
    cls = MAPCLS[kind]
    ks = [newkey(ctx, lim) for _ in range(n)]; xs = ctx.objs('x', n)
    src, ref = {}, {}
    for k, v in zip(ks, xs): src[k] = v; ref = dset(ref, k, v)
    mp = pmap(src, pre_size=pre) if kind == 'map' else cls(src)
    vs = [(mp, ref)]
    ev = Ev(mp.evolver(), mp, ref)
    other = None
    look(ctx, ev, lim)
    for op in ops:
        if op == 'persist': persist(ctx, ev, cls, vs, check_map); continue
        if op == 'other':                # a second evolver of the same source takes over
            other = ev
            ev = Ev(vs[-1][0].evolver(), vs[-1][0], vs[-1][1])
            continue
        k = newkey(ctx, lim); v = ctx.obj()
        f = find(ctx, ev.ref, k)
        if op in ('set', 'setitem'):
            if op == 'set': ctx.check(ev.e.set(k, v) is ev.e, 'set returns the evolver')
            else: ev.e[k] = v
            if f is None or not ctx.same(f[0], v): ev.dirty = True
            ev.ref = dset(ev.ref, k, v)
        else:
            def rem():
                if op == 'delitem': del ev.e[k]
                else: ctx.check(ev.e.remove(k) is ev.e, 'remove returns the evolver')
            a = ctx.attempt(rem)
            if f is None: ctx.check(a.err == 'KeyError', 'removing a missing key')
            else:
                ctx.check(a.ok, 'remove raised'); ev.dirty = True
                ev.ref = ddel(ev.ref, k)
    look(ctx, ev, lim, newkey(ctx, lim))
    persist(ctx, ev, cls, vs, check_map)
    if other:
        look(ctx, other, lim)
        persist(ctx, other, cls, vs, check_map)
    for p, r in vs: check_map(ctx, p, r, 'version', deep=False)


def h_set(ctx, kind, pre, n, ops, lim=None):
    cls = SETCLS[kind]
    xs = [newkey(ctx, lim) for _ in range(n)]
    ref = []
    for x in xs: ref = radd(ref, x)
    st = pset(xs, pre_size=pre) if kind == 'set' else pmap([(x, True) for x in xs], pre_size=pre).keys() if kind == 'keys' else cls(xs)
    vs = [(st, ref)]
    ev = Ev(st.evolver(), st, ref)
    other = None
    for op in ops:
        if op == 'persist': persist(ctx, ev, cls, vs, check_set); continue
        if op == 'other':
            other = ev
            ev = Ev(vs[-1][0].evolver(), vs[-1][0], vs[-1][1])
            continue
        x = newkey(ctx, lim)
        if op == 'add':
            ctx.check(ev.e.add(x) is ev.e, 'add returns the evolver')
            if not member(x, ev.ref): ev.dirty = True
            ev.ref = radd(ev.ref, x)
        else:
            a = ctx.attempt(ev.e.remove, x)
            if member(x, ev.ref):
                ctx.check(a.ok and a.value is ev.e, 'remove'); ev.dirty = True
                ev.ref = rdel(ev.ref, x)
            else: ctx.check(a.err == 'KeyError', 'removing a missing element')
        ctx.check(len(ev.e) == len(ev.ref), 'evolver len')
        ctx.check(ctx.iff(ev.e.is_dirty(), ev.dirty), 'is_dirty')
    persist(ctx, ev, cls, vs, check_set)
    if other:
        ctx.check(len(other.e) == len(other.ref), 'other evolver len')
        persist(ctx, other, cls, vs, check_set)
    for p, r in vs: check_set(ctx, p, r, 'version', [newkey(ctx, lim)] if p is vs[-1][0] else (), deep=False)


def seqs(ops, n):
    if n == 0: return [[]]
    return [[o] + r for o in ops for r in seqs(ops, n - 1)]

M2 = ['set', 'remove', 'persist', 'other']
useful = lambda s: s[0] != 'other' and s.count('other') <= 1 and all(not (a == b == 'persist') for a, b in zip(s, s[1:]))
def grid(ops, ks): return [s for k in ks for s in seqs(ops, k) if useful(s)]

from harness import biglib
BOPS = [['set', 'pers', 'set'], ['del'], ['seti', 'deli'], ['fill'], ['some', 'set'], ['drain'], ['drainrev', 'some'], ['drain1', 'set'], ['half', 'pers', 'set'], ['drain', 'pers', 'set']]
CHECKS = [
    Harness('sets', h_set, T(
        [dict(kind='set', pre=1, n=n, ops=s) for n in (0, 1) for s in grid(SOPS, (1, 2, 3))] + [dict(kind=k, pre=1, n=1, ops=s, lim=2) for k in ('cset', 'keys') for s in grid(SOPS, (1, 2, 3))],
        [dict(kind='set', pre=p, n=n, ops=s) for p in (1, 2) for n in (0, 1, 2) for s in grid(SOPS, (1, 2, 3, 4))] + [dict(kind=k, pre=1, n=n, ops=s, lim=2) for n in (1, 2) for k in ('cset', 'keys') for s in grid(SOPS, (1, 2, 3))]),
        note='<=1 initial elements then every sequence of <=3 of add/remove/persistent/second evolver; 1 bucket growing; checked sets: hash mod 8 in {0,1}'),
    Harness('maps', h_map, T(
        [dict(kind='map', pre=1, n=n, ops=s) for n in (0, 1) for s in grid(MOPS, (1, 2))] + [dict(kind='map', pre=1, n=1, ops=s) for s in grid(M2, (3,))] +
        [dict(kind='cmap', pre=0, n=1, ops=s, lim=2) for s in grid(MOPS, (1, 2))] + [dict(kind='cmap', pre=0, n=1, ops=s, lim=1) for s in grid(M2, (3,))],
        [dict(kind='map', pre=p, n=n, ops=s) for p in (1, 2) for n in (0, 1, 2) for s in grid(MOPS, (1, 2))] + [dict(kind='map', pre=1, n=n, ops=s) for n in (0, 1) for s in grid(M2, (3, 4))] +
        [dict(kind='cmap', pre=0, n=n, ops=s, lim=2) for n in (1, 2) for s in grid(M2, (1, 2, 3))]),
        note='<=1 initial entries then every sequence of <=3 evolver operations incl. persistent and a second evolver; 1 bucket growing; checked maps: hash mod 8 in {0,1}'),
    Harness('big', biglib.h_evolver, T([dict(kind=k, n=n, ops=o) for k in ('map', 'set', 'cmap', 'cset', 'keys') for n in (5, 6) for o in BOPS] + [dict(kind=k, n=n, ops=o) for k in ('map', 'set') for n in (17, 40) for o in BOPS if 'fill' not in o],
            [dict(kind=k, n=n, ops=o, sym=sy) for k in ('map', 'set', 'cmap', 'cset', 'keys') for n in (3, 5, 6, 11, 12, 17) for o in BOPS for sy in (0, 1, 2)] + [dict(kind=k, n=n, ops=o) for k in ('map', 'set') for n in (100, 530) for o in BOPS if 'fill' not in o]),
            note='maps and sets of up to 40 (530) fixed keys and up to 4 arbitrary ones, whose hash falls into one of two buckets'),
]
