"""C21: updates that change nothing return the same object, updates that change something never do."""
from sx.api import Harness, T
from harness.maplib import find, member, radd
from harness.kinds import CM, CS, CMI, CSI
from pyrsistent import (pvector, pmap, pset, pbag, plist, pdeque, CheckedPVector, PRecord, PClass, field, discard, ny, immutable, pvector_field, pmap_field)

ASSUMPTIONS = ['keys and elements: equality is an equivalence, equal objects have equal hashes']


class CV(CheckedPVector): __type__ = object
class CVI(CheckedPVector):
    __type__ = object
    __invariant__ = lambda x: (True, '')
class R(PRecord):
    a = field()
    b = field()
    c = field(initial=3)
class K(PClass):
    a = field()
    b = field()
    c = field(initial=3)


def again(ctx, e, orig, l):
    p = e.persistent()
    ctx.check(p is not orig and type(p) is type(orig), l)
    ctx.check(e.persistent() is p, l + ': asked again')


def h_vector(ctx, kind, n):
    xs = ctx.objs('x', n)
    v = pvector(xs) if kind == 'v' else (CV if kind == 'c' else CVI)(xs)
    e = v.evolver()
    same = lambda y, l: ctx.check(y is v, l)
    diff = lambda y, l: ctx.check(y is not v, l)
    ediff = lambda e, l: again(ctx, e, v, l)
    same(v[:], 'full slice')
    same(v.extend([]), 'extend with nothing'); same(v.extend(()), 'extend with an empty tuple'); same(v.extend(iter([])), 'extend with an empty iterator')
    same(v + [], 'plus nothing'); same(v.extend(pvector()), 'extend with an empty vector')
    same(e.persistent(), 'evolver unchanged'); same(e.persistent(), 'evolver unchanged, again')
    e.extend([]); same(e.persistent(), 'evolver extended with nothing')
    same(v.transform(), 'no transformation'); same(v.transform([ny], lambda x: x), 'transform by the identity'); same(v.transform([lambda i: False], discard), 'discard of nothing'); same(v.transform([lambda i: False], 7), 'nothing matched')
    same(v.mset(), 'mset of nothing')
    if kind != 'v': same(type(v).create(v), 'create of an instance')
    if n:
        i = ctx.int('i', -n, n - 1)
        y = ctx.obj('y')
        diff(v.append(y), 'append'); diff(v.extend([y]), 'extend'); diff(v.delete(i), 'delete'); diff(v[1:], 'shorter slice'); diff(v + [y], 'plus')
        diff(v.transform([i], lambda x: y), 'transform to another value'); diff(v.set(i, y), 'set to another value'); diff(v.mset(i, y), 'mset')
        e[i] = y; ediff(e, 'evolver changed')
        e2 = v.evolver(); e2.append(y); ediff(e2, 'evolver appended')
        e3 = v.evolver(); del e3[i]; ediff(e3, 'evolver deleted')
        diff(v.set(n, y), 'set at the end')
        if n > 1: diff(v[::-1], 'reversed slice')
    else:
        y = ctx.obj('y')
        diff(v.append(y), 'append'); diff(v.set(0, y), 'set at the end')
    ctx.check_seq(v, xs, 'vector unchanged')


def h_map(ctx, kind, n, pre, lim):
    ks, xs = ctx.objs('k', n), ctx.objs('x', n)
    q, w = ctx.obj('q'), ctx.obj('w')
    ctx.limit_hash(ks + [q], 8, lim)
    src = {}
    for k, x in zip(ks, xs): src[k] = x
    m = pmap(src, pre_size=pre) if kind == 'm' else (CM if kind == 'c' else CMI)(src)
    same = lambda y, l: ctx.check(y is m, l)
    diff = lambda y, l: ctx.check(y is not m, l)
    ediff = lambda e, l: again(ctx, e, m, l)
    f = find(ctx, src, q)
    same(m.copy(), 'copy'); same(m.update(), 'update with nothing'); same(m.update({}), 'update with an empty dict'); same(m.update(pmap()), 'update with an empty map')
    same(m.update_with(lambda a, b: b, {}), 'update_with nothing'); same(m.transform([ny], lambda x: x), 'transform by the identity'); same(m.transform([lambda k: False], discard), 'discard nothing')
    same(m.evolver().persistent(), 'evolver unchanged'); same(m + {}, 'plus nothing')
    same(m.transform(), 'no transformation')
    if kind != 'm': same(type(m).create(m), 'create of an instance')
    e = m.evolver()
    if f is None:
        same(m.discard(q), 'discard of an absent key')
        same(m.transform([q], discard), 'transform discard of an absent key')
        same(m.transform([q, q], discard), 'transform discard below an absent key')
        diff(m.set(q, w), 'set of a new key'); diff(m.update({q: w}), 'update with a new key'); diff(m.transform([q], w), 'transform at a new key')
        ctx.attempt(e.remove, q); same(e.persistent(), 'evolver failed to remove')
        q in e
        same(e.persistent(), 'evolver only read')
        e[q] = w; ediff(e, 'evolver changed')
    else:
        same(m.set(q, f[0]), 'set to the identical value'); same(m.update({q: f[0]}), 'update with the identical value'); same(m.update_with(lambda a, b: a, {q: w}), 'update_with keeping the value')
        same(m.transform([q], f[0]), 'transform to the identical value'); same(m.transform([q], lambda x: x), 'transform by identity at a key'); same(m + {q: f[0]}, 'plus the identical entry')
        e[q] = f[0]; same(e.persistent(), 'evolver set to the identical value'); e.set(q, f[0]); same(e.persistent(), 'evolver set to the identical value')
        diff(m.discard(q), 'discard'); diff(m.remove(q), 'remove'); diff(m.set(q, w), 'set to another value'); diff(m.update({q: w}), 'update to another value'); diff(m.transform([q], discard), 'transform discard'); diff(m.transform([q], w), 'transform')
        e[q] = w; ediff(e, 'evolver changed')
        e2 = m.evolver(); del e2[q]; ediff(e2, 'evolver deleted')
    ctx.check(len(m) == len(src), 'map unchanged')


def h_set(ctx, kind, n, lim):
    xs = ctx.objs('x', n)
    q = ctx.obj('q')
    ctx.limit_hash(xs + [q], 8, lim)
    ref = []
    for x in xs: ref = radd(ref, x)
    s = pset(xs) if kind == 's' else (CS if kind == 'c' else CSI)(xs)
    same = lambda y, l: ctx.check(y is s, l)
    diff = lambda y, l: ctx.check(y is not s, l)
    ediff = lambda e, l: again(ctx, e, s, l)
    same(s.update([]), 'update with nothing'); same(s.update(iter(())), 'update with an empty iterator'); same(s.evolver().persistent(), 'evolver unchanged'); same(s.copy(), 'copy'); same(s.update(pset()), 'update with an empty set')
    if kind != 's': same(type(s).create(s), 'create of an instance')
    e = s.evolver()
    if member(q, ref):
        same(s.add(q), 'add of a present element'); same(s.update([q]), 'update with a present element'); same(s.update([q] + ref), 'update with all elements')
        e.add(q); same(e.persistent(), 'evolver added a present element')
        diff(s.remove(q), 'remove'); diff(s.discard(q), 'discard')
        e.remove(q); ediff(e, 'evolver removed')
    else:
        same(s.discard(q), 'discard of an absent element')
        ctx.attempt(e.remove, q); same(e.persistent(), 'evolver failed to remove')
        diff(s.add(q), 'add'); diff(s.update([q]), 'update')
        e.add(q); ediff(e, 'evolver added')
    ctx.check(len(s) == len(ref), 'set unchanged')


def h_record(ctx, cls):
    C = R if cls == 'R' else K
    x, y, z = ctx.obj('x'), ctx.obj('y'), ctx.obj('z')
    r = C(a=x, b=y)
    same = lambda s, l: ctx.check(s is r, l)
    diff = lambda s, l: ctx.check(s is not r, l)
    same(r.transform(), 'no transformation'); same(r.transform(['a'], x), 'transform to the identical value'); same(r.transform(['a'], lambda v: v), 'transform by identity')
    same(r.evolver().persistent(), 'evolver unchanged'); same(C.create(r), 'create of an instance')
    e = r.evolver()
    if cls == 'R':
        same(r.set(a=x), 'set to the identical value'); same(r.set('a', x), 'set to the identical value'); same(r.set(a=x, b=y), 'set both to the identical values'); same(r.update({}), 'update with nothing'); same(r.update(dict(a=x)), 'update with the identical value')
        same(r.discard('zz'), 'discard of an absent field'); same(r.copy(), 'copy')
        e['a'] = x; same(e.persistent(), 'evolver set to the identical value')
        e['a'] = z
    else:
        e.a = x; same(e.persistent(), 'evolver set to the identical value')
        e['b'] = y; same(e.persistent(), 'evolver item set to the identical value')
        e.a = z
    diff(e.persistent(), 'evolver changed')
    diff(r.set(a=z), 'set to another value'); diff(r.remove('a'), 'remove'); diff(r.transform(['a'], z), 'transform'); diff(r.set('b', z), 'set by name')
    ctx.check(ctx.same(r.a, x) and ctx.same(r.b, y), 'unchanged')


def h_other(ctx, kind, n):
    xs = ctx.objs('x', n); y = ctx.obj('y')
    if kind == 'plist':
        s = plist(xs)
        ctx.check(s.mcons([]) is s, 'mcons of nothing')
        ctx.check(s.cons(y) is not s and s.mcons([y]) is not s, 'cons')
        ctx.check(s.cons(y).rest is s, 'rest of cons')
    elif kind == 'pbag':
        ctx.limit_hash(xs + [y], 8, 1)
        s = pbag(xs)
        ctx.check(s.update([]) is s, 'update with nothing')
        ctx.check(s.add(y) is not s and s.update([y]) is not s, 'add')
    elif kind == 'pdeque':
        s = pdeque(xs)
        ctx.check(s.append(y) is not s and s.extend([y]) is not s and s.appendleft(y) is not s and (n == 0 or s.pop() is not s), 'append')
    elif kind == 'imm':
        P = immutable('a, b')
        s = P(y, y)
        ctx.check(s.set() is s and s.set(a=1) is not s, 'set')


def vt(tier): return [dict(kind=k, n=n) for k in ('v', 'c', 'ci') for n in ((0, 1, 2, 33) if tier == 'quick' else (0, 1, 2, 3, 31, 32, 33, 34, 64, 65))]
def mt(tier):
    return [dict(kind=k, n=n, pre=p, lim=2) for k in ('m', 'c', 'ci') for n, p in (((0, 0), (1, 0), (2, 0), (3, 0), (1, 1), (2, 1), (3, 2)) if tier == 'quick' else ((0, 0), (1, 0), (2, 0), (3, 0), (4, 0), (1, 1), (2, 1), (3, 2), (4, 2), (5, 0))) if k == 'm' or not p]


CHECKS = [
    Harness('other', h_other, T([dict(kind=k, n=n) for k in ('plist', 'pbag', 'pdeque', 'imm') for n in (0, 1, 2)])),
    Harness('record', h_record, T([dict(cls=c) for c in ('R', 'K')])),
    Harness('vector', h_vector, vt, note='lengths up to 33 (thorough 65), symbolic index'),
    Harness('set', h_set, T([dict(kind=k, n=n, lim=2) for k in ('s', 'c', 'ci') for n in (1, 2, 3)], [dict(kind=k, n=n, lim=2) for k in ('s', 'c', 'ci') for n in (1, 2, 3, 4)])),
    Harness('map', h_map, mt, note='<=3 entries (thorough 5) whose keys may be equal, collide or not'),
]
