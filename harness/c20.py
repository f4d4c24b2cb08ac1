"""C20: a failing callback never leaves anything half-changed."""
from sx.api import Harness, T, UserError
from harness.maplib import check_map, check_set, dset, radd
from pyrsistent import (pvector, pmap, pset, pbag, plist, pdeque, CheckedPVector, CheckedPSet, CheckedPMap, PRecord, PClass, field, pvector_field, pset_field, pmap_field, freeze, thaw, discard, mutant, get_in)

ASSUMPTIONS = ['a callback raises at most once per operation, at any call index (bounded per harness)']
CTX = [None]


def tick(kind='call'): CTX[0].tick(kind)


def it(xs):
    """An input iterable whose iteration may fail."""
    def g():
        tick('iter')
        for x in xs:
            yield x
            tick('next')
    return g()


def inv_ok(*xs): tick('invariant'); return (True, 'never')
def fac(x): tick('factory'); return x
def facv(x): tick('factory'); return ('made', x) if not (type(x) is tuple and len(x) == 2) else x
def ser(fmt, x): tick('serializer'); return ('ser', x)


class CV(CheckedPVector):
    __type__ = object
    __invariant__ = inv_ok
class CS(CheckedPSet):
    __type__ = object
    __invariant__ = inv_ok
class CM(CheckedPMap):
    __key_type__ = object
    __value_type__ = object
    __invariant__ = inv_ok
class R(PRecord):
    a = field(factory=fac, invariant=inv_ok, serializer=ser)
    b = field(factory=fac, invariant=inv_ok, mandatory=True)
    c = field(initial=lambda: (tick('initial'), 7)[1])
    __invariant__ = inv_ok
class K(PClass):
    a = field(factory=fac, invariant=inv_ok, serializer=ser)
    b = field(factory=fac, invariant=inv_ok, mandatory=True)
    c = field(initial=lambda: (tick('initial'), 7)[1])
    __invariant__ = inv_ok
class RV(PRecord):
    v = pvector_field(object, item_invariant=inv_ok)
    m = pmap_field(object, object, invariant=inv_ok)
    s = pset_field(object)


def run(ctx, f, limit):
    """Runs f with a fault injected at a symbolic call index; returns (fault happened, outcome)."""
    ctx.arm_fault(limit=limit)
    a = ctx.attempt(f)
    ctx.disarm_fault()
    hit = ctx.fault_hit
    if hit:
        ctx.check(a.err == 'UserError', 'the exception reaches the caller: ' + (str(a.err) if not a.ok else 'a result was returned'))
    else:
        ctx.check(a.err != 'UserError', 'harness')
    return hit, a


# ---------------------------------------------------------------- vectors
def h_vector(ctx, kind, n, op):
    CTX[0] = ctx
    xs, ys = ctx.objs('x', n), ctx.objs('y', 2)
    v = pvector(xs) if kind == 'v' else CV(xs)
    w = v.append(ys[0])
    q = ctx.obj('q')
    ops = dict(
        remove=lambda: v.remove(q), index=lambda: v.index(q), count=lambda: v.count(q), contains=lambda: q in v, eq=lambda: v == pvector(xs[:-1] + [q]) if xs else v == pvector([q]),
        eqlist=lambda: v == xs[:-1] + [q], lt=lambda: v < pvector([q] + xs), hash=lambda: hash(v), extend=lambda: v.extend(it(ys)), add=lambda: v + list(it(ys)), append=lambda: v.append(q),
        set=lambda: v.set(0, q), mset=lambda: v.mset(0, q, n - 1, ys[0]), delete=lambda: v.delete(0), new=lambda: pvector(it(xs)) if kind == 'v' else CV(it(xs)),
        tf=lambda: v.transform([pred], cmd), tf2=lambda: v.transform([pred2], discard), slice=lambda: v[1:], mul=lambda: v * 2,
        create=lambda: CV.create(it(xs)), serialize=lambda: v.serialize(), repr=lambda: None)
    def pred(k): tick('pred'); return True
    def pred2(k, x): tick('pred'); return bool(ctx.pred('p', x))
    def cmd(x): tick('cmd'); return ys[1]
    hit, a = run(ctx, ops[op], 3 * n + 6)
    ctx.check_seq(v, xs, 'vector after the failure')
    ctx.check_seq(w, xs + [ys[0]], 'other version after the failure')
    ctx.check(len(v) == n, 'length')
    ctx.check_seq(v.append(q), xs + [q], 'append afterwards')
    ctx.check_seq(v.extend(ys), xs + ys, 'extend afterwards')
    if n: ctx.check_seq(v.set(0, q), [q] + xs[1:], 'set afterwards')
    if op == 'hash': ctx.check(ctx.hash(v) == ctx.hash(pvector(xs) if kind == 'v' else CV(xs)), 'hash afterwards')
    if not hit and op == 'extend': ctx.check(a.ok, 'no failure'); ctx.check_seq(a.value, xs + ys, 'result without failure')


def h_vevolver(ctx, kind, n, op, pre):
    CTX[0] = ctx
    xs, ys = ctx.objs('x', n), ctx.objs('y', 3)
    v = pvector(xs) if kind == 'v' else CV(xs)
    e = v.evolver()
    ref = list(xs)
    q = ctx.obj('q')
    if pre: e.append(ys[0]); ref.append(ys[0])
    if pre > 1: e[0] = q; ref[0] = q
    ops = dict(extend=lambda: e.extend(it(ys)), append=lambda: e.append(q), set=lambda: e.set(0, q), setitem=lambda: e.__setitem__(len(ref), q), delete=lambda: e.delete(0), persistent=lambda: e.persistent())
    hit, a = run(ctx, ops[op], 12)
    got = [e[i] for i in range(len(e))]
    full = dict(extend=ref + ys, append=ref + [q], set=[q] + ref[1:], setitem=ref + [q], delete=ref[1:], persistent=ref)[op]
    if not hit: ctx.check_seq(got, full, 'without failure')
    else:
        ok = [k for k in range(len(ref), len(full) + 1) if len(got) == k and bool(ctx.all([ctx.same(x, y) for x, y in zip(got, full[:k])]))] if op in ('extend', 'append', 'setitem') else []
        ctx.check(bool(ok) or (len(got) == len(ref) and bool(ctx.all([ctx.same(x, y) for x, y in zip(got, ref)]))) or (len(got) == len(full) and bool(ctx.all([ctx.same(x, y) for x, y in zip(got, full)]))), 'evolver after the failure')
    ctx.check_seq(v, xs, 'source after the failure')
    p = e.persistent()
    ctx.check_seq(p, got, 'persistent form agrees with the evolver')
    e.append(q)
    ctx.check(len(e) == len(got) + 1, 'evolver usable')
    ctx.check_seq(e.persistent(), got + [q], 'evolver usable')
    ctx.check_seq(p, got, 'earlier persistent form')


# ---------------------------------------------------------------- maps
def mkmap(ctx, kind, n, pre):
    ks, vs = ctx.objs('k', n), ctx.objs('v', n)
    ctx.limit_hash(ks, 8, 1 if pre in (0, 8) else 2)
    for i in range(n):
        for j in range(i): ctx.assume(ctx.not_(ks[i] == ks[j]))
    src = dict(zip(ks, vs))
    return src, (pmap(src, pre_size=pre) if kind == 'm' else CM(src))


def h_map(ctx, kind, n, pre, op):
    CTX[0] = ctx
    src, m = mkmap(ctx, kind, n, pre)
    k2, v2, v3 = ctx.obj('k2'), ctx.obj('v2'), ctx.obj('v3')
    ctx.limit_hash([k2], 8, 1 if pre in (0, 8) else 2)
    other = m.set(k2, v2)
    d2 = {k2: v3}
    oref = dset(src, k2, v2)
    def fn(a, b): tick('update_with'); return b
    def pred(k): tick('pred'); return True
    def pred2(k, x): tick('pred'); return bool(ctx.pred('p', x))
    def cmd(x): tick('cmd'); return v3
    m2 = pmap(d2)
    same = pmap(src)
    ops = dict(set=lambda: m.set(k2, v3), remove=lambda: m.remove(k2), discard=lambda: m.discard(k2), get=lambda: m.get(k2), getitem=lambda: m[k2], contains=lambda: k2 in m,
               update=lambda: m.update(d2, m2), update_with=lambda: other.update_with(fn, d2), eq=lambda: m == other, eqsame=lambda: m == same, eqd=lambda: m == dict(src), hash=lambda: hash(m), new=lambda: pmap(src, pre_size=pre) if kind == 'm' else CM(src),
               tf=lambda: m.transform([pred], cmd), tf2=lambda: m.transform([pred2], discard), tfk=lambda: m.transform([k2], cmd), tfd=lambda: m.transform([k2], discard), tfn=lambda: m.transform([k2, k2], v3), getin=lambda: get_in([k2, k2], m, None), thaw=lambda: thaw(m), vals=lambda: m.values() == other.values(), its=lambda: m.items() == other.items(), add=lambda: m + m2, sub=lambda: m.update({}), create=lambda: CM.create(src),
               values=lambda: v2 in m.values(), items=lambda: (k2, v2) in m.items(), keys=lambda: k2 in m.keys(), freeze=lambda: freeze({k2: [v2]}))
    hit, a = run(ctx, ops[op], 8 * n + 10)
    check_map(ctx, m, src, 'map after the failure', deep=False)
    check_map(ctx, other, oref, 'other version after the failure', deep=False)
    check_map(ctx, m.set(k2, v3), dset(src, k2, v3), 'set afterwards', deep=False)
    if n and kind == 'm': ctx.check(len(m.remove(list(src)[0])) == n - 1, 'remove afterwards')
    if op == 'hash': ctx.check(ctx.hash(m) == ctx.hash(pmap(src) if kind == 'm' else CM(src)), 'hash afterwards')


def h_mevolver(ctx, kind, n, pre, op, before):
    CTX[0] = ctx
    src, m = mkmap(ctx, kind, n, pre)
    k2, v2 = ctx.obj('k2'), ctx.obj('v2')
    k3, v3 = ctx.obj('k3'), ctx.obj('v3')
    ctx.limit_hash([k2, k3], 8, 1 if pre in (0, 8) else 2)
    for k in src: ctx.assume(ctx.not_(k == k3))
    e = m.evolver()
    ref = dict(src)
    if before == 'set': e[k3] = v3; ref = dset(ref, k3, v3)
    elif before == 'del' and n:
        k = list(src)[0]
        del e[k]; ref = {a: b for a, b in ref.items() if not a == k}
    ops = dict(set=lambda: e.set(k2, v2), setitem=lambda: e.__setitem__(k2, v2), remove=lambda: e.remove(k2), get=lambda: e[k2], contains=lambda: k2 in e, persistent=lambda: e.persistent())
    hit, a = run(ctx, ops[op], 8 * n + 10)
    n2 = len(e)
    good = [ref]
    if op in ('set', 'setitem'): good.append(dset(ref, k2, v2))
    if op == 'remove': good.append({a: b for a, b in ref.items() if not a == k2})
    if not hit: good = good[-1:]
    def have(r):
        if n2 != len(r): return False
        for k in r:
            a = ctx.attempt(lambda: e[k])
            if not (a.ok and bool(ctx.same(a.value, r[k]))): return False
        return True
    fit = [r for r in good if have(r)]
    ctx.check(bool(fit), 'evolver has its previous or the new contents')
    if fit:
        p = e.persistent()
        check_map(ctx, p, fit[0], 'persistent form agrees with the evolver', deep=False)
        kk = ctx.obj('kk')
        ctx.limit_hash([kk], 8, 1)
        for k in list(fit[0]): ctx.assume(ctx.not_(k == kk))
        e.set(kk, v3)
        check_map(ctx, e.persistent(), dset(fit[0], kk, v3), 'evolver usable', deep=False)
        check_map(ctx, p, fit[0], 'earlier persistent form', deep=False)
    check_map(ctx, m, src, 'source after the failure', deep=False)


# ---------------------------------------------------------------- sets
def h_set(ctx, kind, n, op):
    CTX[0] = ctx
    xs, ys = ctx.objs('x', n), ctx.objs('y', 2)
    ctx.limit_hash(xs + ys, 8, 1)
    ref = []
    for x in xs: ref = radd(ref, x)
    s = pset(xs) if kind == 's' else CS(xs)
    t = pset(ys)
    q = ctx.obj('q'); ctx.limit_hash([q], 8, 1)
    ops = dict(add=lambda: s.add(q), remove=lambda: s.remove(q), discard=lambda: s.discard(q), update=lambda: s.update(it(ys)), contains=lambda: q in s, eq=lambda: s == t, hash=lambda: hash(s), le=lambda: s <= t,
               or_=lambda: s | t, and_=lambda: s & t, sub=lambda: s - t, xor=lambda: s ^ t, isdisjoint=lambda: s.isdisjoint(it(ys)), new=lambda: pset(it(xs)) if kind == 's' else CS(it(xs)), union=lambda: s.union(it(ys)),
               evadd=lambda: ev.add(q), evremove=lambda: ev.remove(q), thaw=lambda: thaw(s), create=lambda: CS.create(it(xs)))
    ev = s.evolver()
    hit, a = run(ctx, ops[op], 6 * n + 12)
    check_set(ctx, s, ref, 'set after the failure')
    check_set(ctx, t, [ys[0]] if ys[0] == ys[1] else ys, 'other set after the failure')
    check_set(ctx, s.add(q), radd(ref, q), 'add afterwards')
    if op.startswith('ev'):
        cur = [ref, radd(ref, q) if op == 'evadd' else [x for x in ref if not x == q]]
        p = ev.persistent()
        fit = [c for c in cur if len(ev) == len(c) and all([bool(x in p) for x in c])]
        ctx.check(bool(fit), 'evolver contents after the failure')
        if fit: check_set(ctx, p, fit[0], 'evolver persistent')
    if op == 'hash': ctx.check(ctx.hash(s) == ctx.hash(pset(xs) if kind == 's' else CS(xs)), 'hash afterwards')


def h_bag(ctx, n, op):
    CTX[0] = ctx
    xs, ys = ctx.objs('x', n), ctx.objs('y', 2)
    q = ctx.obj('q'); ctx.limit_hash(xs + ys + [q], 8, 1)
    s, t = pbag(xs), pbag(ys)
    cnt = lambda x: sum([1 for y in xs if y == x])
    ops = dict(add=lambda: s.add(q), remove=lambda: s.remove(q), update=lambda: s.update(it(ys)), contains=lambda: q in s, count=lambda: s.count(q), eq=lambda: s == t, hash=lambda: hash(s), plus=lambda: s + t, minus=lambda: s - t, or_=lambda: s | t, and_=lambda: s & t, new=lambda: pbag(it(xs)))
    hit, a = run(ctx, ops[op], 6 * n + 12)
    ctx.check(len(s) == n and len(list(s)) == n, 'bag size after the failure')
    for x in xs + [q]: ctx.check(s.count(x) == cnt(x), 'bag count after the failure')
    ctx.check(s.add(q).count(q) == cnt(q) + 1, 'add afterwards')
    ctx.check(len(t) == 2, 'other bag')


def h_seq(ctx, kind, n, op):
    """Linked lists and deques."""
    CTX[0] = ctx
    xs, ys = ctx.objs('x', n), ctx.objs('y', 2)
    q = ctx.obj('q')
    if kind == 'l': s, t = plist(xs), plist(xs[:-1] + [q])
    else: s, t = pdeque(xs, 5 if kind == 'dm' else None), pdeque(xs[:-1] + [q])
    ops = dict(remove=lambda: s.remove(q), eq=lambda: s == t, lt=lambda: s < t, hash=lambda: hash(s), contains=lambda: q in s)
    if kind == 'l': ops.update(mcons=lambda: s.mcons(it(ys)), new=lambda: plist(it(xs)), index=lambda: s.index(q), count=lambda: s.count(q))
    else: ops.update(extend=lambda: s.extend(it(ys)), extendleft=lambda: s.extendleft(it(ys)), new=lambda: pdeque(it(xs)), index=lambda: s.index(q), count=lambda: s.count(q), append=lambda: s.append(q))
    hit, a = run(ctx, ops[op], 4 * n + 8)
    ctx.check_seq(s, xs, 'contents after the failure')
    ctx.check(len(s) == n, 'length after the failure')
    ctx.check_seq(t, xs[:-1] + [q], 'other after the failure')
    if kind == 'l': ctx.check_seq(s.cons(q), [q] + xs, 'cons afterwards')
    else: ctx.check_seq(s.append(q), (xs + [q])[-5:] if kind == 'dm' else xs + [q], 'append afterwards')
    if op == 'hash': ctx.check(ctx.hash(s) == ctx.hash(plist(xs) if kind == 'l' else pdeque(xs)), 'hash afterwards')


LOPS = ['remove', 'eq', 'lt', 'hash', 'contains', 'mcons', 'new', 'index', 'count']
DOPS = ['remove', 'eq', 'lt', 'hash', 'contains', 'extend', 'extendleft', 'new', 'index', 'count', 'append']


# ---------------------------------------------------------------- records and classes
def h_record(ctx, cls, op):
    CTX[0] = ctx
    C = R if cls == 'R' else K
    x, y, z = ctx.obj('x'), ctx.obj('y'), ctx.obj('z')
    r = C(a=x, b=y)
    cp = C(a=x, b=z)
    def cmd(v): tick('cmd'); return z
    ev = r.evolver()
    def evset(): ev.a = z
    def evset2(): ev['a'] = z
    def evall():
        if cls == 'R': ev['a'] = z; ev['b'] = z
        else: ev.a = z; ev.b = z
        return ev.persistent()
    ops = dict(new=lambda: C(a=x, b=y), set=lambda: r.set(a=z), set2=lambda: r.set('a', z), setm=lambda: r.set(a=z, b=z), remove=lambda: r.remove('a'), tf=lambda: r.transform(['a'], cmd), create=lambda: C.create(dict(a=x, b=y)), serialize=lambda: r.serialize(),
               evset=evset2 if cls == 'R' else evset, evall=evall, eq=lambda: r == cp, hash=lambda: hash(r), update=lambda: r.update(dict(a=z)) if cls == 'R' else r.set(a=z, b=x), reduce=lambda: r.__reduce__()[0](*r.__reduce__()[1]))
    hit, a = run(ctx, ops[op], 24)
    ctx.check(ctx.same(r.a, x) and ctx.same(r.b, y) and r.c == 7, 'record after the failure')
    ctx.check(ctx.same(cp.a, x) and ctx.same(cp.b, z), 'other record')
    if cls == 'R': ctx.check(len(r) == 3, 'record size')
    r2 = r.set(a=z)
    ctx.check(ctx.same(r2.a, z) and ctx.same(r2.b, y) and ctx.same(r.a, x) and type(r2) is C, 'set afterwards')
    if op.startswith('ev'):
        b = ctx.attempt(ev.persistent)
        ctx.check(b.ok, 'evolver usable')
        if b.ok:
            g = b.value
            if not hit: ctx.check(ctx.same(g.a, z), 'without failure')
            else: ctx.check((ctx.same(g.a, x) or ctx.same(g.a, z)) and (ctx.same(g.b, y) or ctx.same(g.b, z)) and g.c == 7, 'evolver contents')
    if op == 'hash': ctx.check(ctx.hash(r) == ctx.hash(C(a=x, b=y)), 'hash afterwards')


def h_collfields(ctx, op):
    CTX[0] = ctx
    x, y, k = ctx.obj('x'), ctx.obj('y'), ctx.obj('k')
    ctx.limit_hash([x, y, k], 8, 1)
    r = RV(v=[x], m={k: x}, s={x})
    ops = dict(v=lambda: r.set(v=[x, y]), m=lambda: r.set(m={k: y}), s=lambda: r.set(s={x, y}), new=lambda: RV(v=[x], m={k: y}, s={y}), create=lambda: RV.create(dict(v=[x], m={k: y})), ser=lambda: r.serialize(),
               app=lambda: r.transform(['v', 0], y), vit=lambda: r.set(v=it([x, y])))
    hit, a = run(ctx, ops[op], 30)
    ctx.check_seq(r.v, [x], 'vector field'); check_map(ctx, r.m, {k: x}, 'map field', deep=False); check_set(ctx, r.s, [x], 'set field')
    r2 = r.set(v=[y])
    ctx.check_seq(r2.v, [y], 'set afterwards')


def h_mutant(ctx, n):
    CTX[0] = ctx
    xs = ctx.objs('x', n)
    seen = []
    @mutant
    def f(a):
        tick('mutant'); seen.append(a); return [a]
    lst = list(xs)
    hit, a = run(ctx, lambda: f(lst), 3)
    ctx.check_seq(lst, xs, 'argument'); ctx.check(hit or len(a.value) == 1, 'result')


VOPS = ['remove', 'index', 'count', 'contains', 'eq', 'eqlist', 'lt', 'hash', 'extend', 'add', 'append', 'set', 'mset', 'delete', 'new', 'tf', 'tf2', 'slice', 'mul']
MOPS = ['set', 'remove', 'discard', 'get', 'getitem', 'contains', 'update', 'update_with', 'eq', 'eqsame', 'eqd', 'hash', 'new', 'tf', 'tf2', 'tfk', 'tfd', 'tfn', 'getin', 'thaw', 'vals', 'its', 'add', 'values', 'items', 'keys', 'freeze']
SOPS = ['add', 'remove', 'discard', 'update', 'contains', 'eq', 'hash', 'le', 'or_', 'and_', 'sub', 'xor', 'isdisjoint', 'new', 'union', 'evadd', 'evremove', 'thaw']
BOPS = ['add', 'remove', 'update', 'contains', 'count', 'eq', 'hash', 'plus', 'minus', 'or_', 'and_', 'new']
ROPS = ['new', 'set', 'set2', 'setm', 'remove', 'tf', 'create', 'serialize', 'evset', 'evall', 'eq', 'hash', 'update', 'reduce']
SCAN = ('fault', 0, 60)


def vt(tier):
    ns = (0, 1, 3) if tier == 'quick' else (0, 1, 2, 3, 4, 33)
    return [dict(kind=k, n=n, op=o) for k in ('v', 'c') for o in VOPS + (['create', 'serialize'] if k == 'c' else []) for n in ns if not (o in ('set', 'mset', 'delete') and n == 0) and not (k == 'c' and o in ('add',) and n > 3)]


def mt(tier):
    out = []
    for k in ('m', 'c'):
        for o in MOPS + (['create'] if k == 'c' else []):
            for n, pre in ((0, 0), (1, 0), (2, 1)) + (((3, 4), (4, 2), (2, 8)) if tier != 'quick' else ((3, 8),) if o in ('set', 'remove', 'update', 'tf2', 'eq') else ()):
                if k == 'c' and pre: pre = 8
                out.append(dict(kind=k, n=n, pre=pre, op=o))
    return out


def met(tier):
    out = []
    for k in ('m', 'c'):
        for o in ('set', 'setitem', 'remove', 'get', 'contains', 'persistent'):
            for b in ('none', 'set', 'del'):
                for n, pre in ((0, 0), (1, 1), (2, 1), (3, 2)) + (((5, 4), (4, 1)) if tier != 'quick' else ()):
                    if tier == 'quick' and (n == 3 and o != 'set' or k == 'c' and n > 1 and o in ('setitem', 'get', 'contains')): continue
                    out.append(dict(kind=k, n=n, pre=pre, op=o, before=b))
    return out


CHECKS = [
    Harness('mutant', h_mutant, T([dict(n=n) for n in (0, 2)]), scan=SCAN),
    Harness('collfields', h_collfields, T([dict(op=o) for o in ('v', 'm', 's', 'new', 'create', 'ser', 'app', 'vit')]), scan=SCAN),
    Harness('record', h_record, T([dict(cls=c, op=o) for c in ('R', 'K') for o in ROPS]), scan=SCAN, note='failures at any of 24 calls'),
    Harness('vevolver', h_vevolver, T([dict(kind=k, n=n, op=o, pre=p) for k in ('v', 'c') for n in (1, 3) for o in ('extend', 'append', 'set', 'setitem', 'delete', 'persistent') for p in (0, 1, 2)], [dict(kind=k, n=n, op=o, pre=p) for k in ('v', 'c') for n in (1, 3, 31, 32, 33) for o in ('extend', 'append', 'set', 'setitem', 'delete', 'persistent') for p in (0, 1, 2)]), scan=SCAN),
    Harness('seq', h_seq, T([dict(kind=k, n=n, op=o) for k in ('l', 'd', 'dm') for n in (1, 3) for o in (LOPS if k == 'l' else DOPS)], [dict(kind=k, n=n, op=o) for k in ('l', 'd', 'dm') for n in (1, 2, 3, 4) for o in (LOPS if k == 'l' else DOPS)]), scan=SCAN),
    Harness('bag', h_bag, T([dict(n=n, op=o) for n in (0, 1, 2) for o in BOPS]), scan=SCAN),
    Harness('vector', h_vector, vt, scan=SCAN, note='<=3 elements (thorough 33), failure at any call'),
    Harness('set', h_set, T([dict(kind=k, n=n, op=o) for k in ('s', 'c') for n in (1, 2) for o in SOPS + (['create'] if k == 'c' else [])], [dict(kind=k, n=n, op=o) for k in ('s', 'c') for n in (1, 2, 3) for o in SOPS]), scan=SCAN),
    Harness('map', h_map, mt, scan=SCAN, note='<=3 entries, tables of 1, 4 and 8 buckets, failure at any call'),
    Harness('mevolver', h_mevolver, met, scan=SCAN, note='<=3 entries, with and without growth, after earlier changes'),
]
