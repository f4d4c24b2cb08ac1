"""Larger maps, sets and bags: many fixed integer keys (known hashes) and a few arbitrary ones."""
from harness.maplib import dset, ddel, find, member
from harness.kinds import CM, CS
from pyrsistent import pmap, pset, pbag, PMap, PSet


def ints(ref): return [k for k in ref if type(k) is int]


def same_dict(ctx, m, ref, label, probes=(), lookups=True):
    """m has exactly the items of dict ref (keys: integers and opaque objects)."""
    n = len(ref)
    ctx.check(m.__len__() == n, label + ' len')
    its = list(m.items())
    ctx.check(len(its) == n, label + ' number of items')
    seen = set()
    for k, v in its:
        if type(k) is int:
            seen.add(k)
            ctx.check(k in ref and ctx.same(v, ref[k]), label + ' item')
        else:
            f = find(ctx, {x: ref[x] for x in ref if type(x) is not int}, k)
            ctx.check(f is not None and ctx.same(v, f[0]), label + ' item of an arbitrary key')
    ctx.check(len(seen) == len(ints(ref)), label + ' keys')
    if lookups: same_lookups(ctx, m, ref, label, probes)


def same_lookups(ctx, m, ref, label, probes=()):
    for k in ref:
        a = ctx.attempt(lambda: m[k])
        ctx.check(a.ok and ctx.same(a.value, ref[k]), label + ' lookup')
        ctx.check(k in m, label + ' membership')
    for k in probes:
        f = ref.get(k) if type(k) is int else find(ctx, ref, k)
        ctx.check((k in m) == (f is not None), label + ' probe')


def same_set(ctx, s, ref, label, probes=()):
    n = len(ref)
    ctx.check(s.__len__() == n, label + ' len')
    its = list(s)
    ctx.check(len(its) == n, label + ' number of elements')
    got = {x for x in its if type(x) is int}
    ctx.check(got == {x for x in ref if type(x) is int}, label + ' integer members')
    for x in its:
        if type(x) is not int: ctx.check(find(ctx, ref, x) is not None, label + ' member')
    for x in ref: ctx.check(x in s, label + ' membership')
    for x in probes: ctx.check((x in s) == (find(ctx, ref, x) is not None), label + ' probe')


def start(ctx, kind, n, pre, sym):
    """Map or set with keys 0..n-1 and sym arbitrary keys."""
    size = pre or (2 * (n + sym) if kind in ('map', 'keys') else 8)
    ref = {}
    keys = [newkey(ctx, size) for _ in range(sym)]
    for i in range(n): ref[i] = i
    for k in keys: ref = dset(ref, k, ctx.obj())
    if kind == 'map': m = pmap(ref, pre_size=pre)
    elif kind == 'cmap': m = CM(ref)
    elif kind == 'set': m = pset(list(ref), pre_size=pre or 8)
    elif kind == 'cset': m = CS(list(ref))
    else: m = pmap({k: True for k in ref}, pre_size=pre).keys()
    return m, ref, size


def newkey(ctx, size):
    k = ctx.obj()
    h = ctx.hash(k)
    ctx.assume(ctx.any([h == x for x in ((1, 2, size + 1, 2**40 + 1) if size < 200 else (1, size + 1))]))
    return k


def plan(ctx, op, ref, size, n):
    """Elementary steps of an operation: [('set', key, value) or ('del', key)]."""
    top = max(ints(ref), default=-1) + 1
    if op == 'set': return [('set', newkey(ctx, size), ctx.obj())]
    if op == 'seti': return [('set', ctx.choice('k', [0, top // 2, top]), -1)]
    if op == 'del': return [('del', newkey(ctx, size))]
    if op == 'deli': return [('del', ctx.choice('d', [0, top // 2, top]))]
    if op == 'fill': return [('set', top + i, top + i) for i in range(3 * n + 4)]
    if op == 'some': return [('set', top + i, top + i) for i in range(3)]
    if op == 'drain': return [('del', k) for k in ref]
    if op == 'drainrev': return [('del', k) for k in list(ref)[::-1]]
    if op == 'drain1': return [('del', k) for k in list(ref)[1:]]
    if op == 'half': return [('del', k) for k in list(ref)[::2]]
    raise AssertionError(op)


def apply(ref, step):
    return dset(ref, step[1], step[2]) if step[0] == 'set' else ddel(ref, step[1])


def h_objects(ctx, kind, n, ops, pre=0, sym=1):
    """Operations on the persistent object; all versions are compared with their models at the end."""
    isset = kind in ('set', 'cset', 'keys')
    m, ref, size = start(ctx, kind, n, pre, sym)
    vs = [(m, ref)]
    for op in ops:
        if op in ('upd', 'upddict'):
            k = newkey(ctx, size); v = ctx.obj()
            top = max(ints(ref), default=-1) + 1
            new = [(k, v)] + [(i, -i) for i in (0, top, top + 1)]
            if isset: m = m.update([x for x, _ in new] if op == 'upd' else iter([x for x, _ in new]))
            else: m = m.update(dict(new) if op == 'upd' else pmap(dict(new)))
            for x, y in new: ref = dset(ref, x, y)
        else:
            for st in plan(ctx, op, ref, size, n):
                if st[0] == 'set':
                    m = m.add(st[1]) if isset else m.set(st[1], st[2])
                    ref = apply(ref, st)
                else:
                    present = find(ctx, ref, st[1]) is not None
                    a = ctx.attempt(m.remove, st[1])
                    ctx.check(a.ok if present else a.err == 'KeyError', 'remove')
                    if present: m = a.value; ref = apply(ref, st)
                    else: ctx.check(m.discard(st[1]) is m, 'discard of an absent key')
        vs.append((m, ref))
    probe = [newkey(ctx, size)]
    for i, (o, r) in enumerate(vs): (same_set if isset else same_dict)(ctx, o, r, 'version %d' % i, probe if o is m else ())
    if not isset: ctx.check(m == pmap(ref) and not m != pmap(ref), 'equal to a map built at once')
    else: ctx.check(m == pset(list(ref)), 'equal to a set built at once')


def h_evolver(ctx, kind, n, ops, pre=0, sym=1):
    """The same operations driven through one evolver."""
    isset = kind in ('set', 'cset', 'keys')
    m, ref, size = start(ctx, kind, n, pre, sym)
    vs = [(m, ref)]
    e = m.evolver()
    dirty = False
    for op in list(ops) + ['pers']:
        if op == 'pers':
            p = e.persistent()
            if not dirty: ctx.check(p is vs[-1][0], 'persistent() without changes')
            ctx.check(type(p) is type(m), 'class')
            vs.append((p, ref))
            dirty = False
            ctx.check(e.is_dirty() == False, 'is_dirty after persistent()')
            continue
        for st in plan(ctx, op, ref, size, n):
            if st[0] == 'set':
                old = find(ctx, ref, st[1])
                e.add(st[1]) if isset else e.set(st[1], st[2])
                if old is None or (not isset and not ctx.same(old[0], st[2])): dirty = True
                ref = apply(ref, st)
            else:
                present = find(ctx, ref, st[1]) is not None
                a = ctx.attempt(e.remove, st[1])
                ctx.check(a.ok if present else a.err == 'KeyError', 'remove')
                if present: dirty = True; ref = apply(ref, st)
            ctx.check(e.__len__() == len(ref), 'evolver len')
        ctx.check(ctx.iff(e.is_dirty(), dirty), 'is_dirty')
        if not isset: same_lookups(ctx, e, ref, 'evolver')
    for i, (o, r) in enumerate(vs): (same_set if isset else same_dict)(ctx, o, r, 'version %d' % i)


def h_bag(ctx, n, mult, ops, sym=1):
    xs = [newkey(ctx, 8) for _ in range(sym)]
    ref = [i for i in range(n) for _ in range(mult)] + xs
    b = pbag(ref)
    vs = [(b, list(ref))]
    def drop(r, x):
        for i, y in enumerate(r):
            if y == x: return r[:i] + r[i + 1:]
    for op in ops:
        for st in plan(ctx, op, {k: True for k in range(n)} if op != 'del' else {}, 8, n):
            if st[0] == 'set': b = b.add(st[1]); ref = ref + [st[1]]
            else:
                r = drop(ref, st[1])
                a = ctx.attempt(b.remove, st[1])
                ctx.check(a.ok if r is not None else a.err == 'KeyError', 'remove')
                if r is not None: b = a.value; ref = r
        vs.append((b, list(ref)))
    for o, r in vs:
        ctx.check(len(o) == len(r), 'len')
        its = list(o)
        ctx.check(sorted(x for x in its if type(x) is int) == sorted(x for x in r if type(x) is int), 'integer elements')
        for x in r:
            c = 0
            for y in r:
                if y is x or y == x: c = c + 1
            ctx.check(o.count(x) == c and x in o, 'count')
    ctx.check(b == pbag(list(reversed(ref))), 'equal to a bag built in reverse')
