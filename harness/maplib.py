"""Shared by the map and set harnesses."""
from pyrsistent import pmap, pset, PMap, PSet


def items_of(ref):
    return [(k, ref[k]) for k in ref]


def find(ctx, ref, key):
    """Value of key in a dict, or None (no exception)."""
    for k in ref:
        if k == key: return (ref[k],)
    return None


def check_map(ctx, m, ref, label, probes=(), deep=True):
    """m (a map or evolver-made map) has exactly the contents of dict ref."""
    n = len(ref)
    ctx.check(len(m) == n, label + ' len')
    its = list(m.items())
    ctx.check(len(its) == n, label + ' number of items')
    for k, v in its:
        f = find(ctx, ref, k)
        ctx.check(f is not None, label + ' extra key')
        if f is not None: ctx.check(ctx.same(v, f[0]), label + ' item value')
    for k in ref:
        a = ctx.attempt(lambda: m[k])
        ctx.check(a.ok and ctx.same(a.value, ref[k]), label + ' lookup')
        ctx.check(k in m, label + ' membership')
    if deep:
        ctx.check_seq(list(m), [k for k, _ in its], label + ' iter')
        ctx.check_seq(list(m.keys()), [k for k, _ in its], label + ' keys')
        ctx.check_seq(list(m.values()), [v for _, v in its], label + ' values')
        ctx.check(len(m.keys()) == n and len(m.values()) == n and len(m.items()) == n, label + ' view len')
        ctx.check(bool(m) == bool(ref), label + ' truth')
    for q in probes:
        f = find(ctx, ref, q)
        ctx.check((q in m) == (f is not None), label + ' probe membership')
        a = ctx.attempt(lambda: m[q])
        if f is None:
            ctx.check(a.err == 'KeyError', label + ' probe missing')
            ctx.check(m.get(q) is None, label + ' get default None')
            d = ctx.obj()
            ctx.check(ctx.same(m.get(q, d), d), label + ' get default')
        else:
            ctx.check(a.ok and ctx.same(a.value, f[0]), label + ' probe value')
            ctx.check(ctx.same(m.get(q), f[0]), label + ' get')


def check_set(ctx, s, ref, label, probes=(), deep=True):
    """s has exactly the members of list ref (no two equal)."""
    n = len(ref)
    ctx.check(len(s) == n, label + ' len')
    its = list(s)
    ctx.check(len(its) == n, label + ' number of elements')
    for x in its: ctx.check(member(x, ref), label + ' extra element')
    for x in ref: ctx.check(x in s, label + ' membership')
    if deep: ctx.check(bool(s) == bool(ref), label + ' truth')
    for q in probes: ctx.check((q in s) == member(q, ref), label + ' probe membership')


def member(x, ref):
    for y in ref:
        if y == x: return True
    return False


def radd(ref, x): return ref if member(x, ref) else ref + [x]
def rdel(ref, x): return [y for y in ref if not y == x]


def dset(ref, k, v):
    r = dict(ref)
    r[k] = v
    return r

def ddel(ref, k):
    r = dict(ref)
    for x in list(r):
        if x == k: del r[x]
    return r
