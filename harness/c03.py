"""C03: vector evolvers are private mutable lists."""
from sx.api import Harness, T
from harness.veclib import *
from harness.c01 import t, EDGE, DEEP

ASSUMPTIONS = ['indices are 64-bit', 'elements: equality is an equivalence']


class Tracked:
    """An evolver and what it should be."""
    def __init__(self, v, ref):
        self.v = v; self.ref = list(ref); self.e = v.evolver(); self.changed = False; self.returned = [(v, list(ref))]

    def verify(self, ctx, label, negative=True):
        same_evolver(ctx, self.e, self.ref, label, negative)
        for v, r in self.returned: same_vec(ctx, v, r, label + ': a vector it came from or returned')
        if self.changed is False: ctx.check(self.e.is_dirty() == False, label + ': is_dirty without a change')
        elif self.changed is True: ctx.check(self.e.is_dirty() == True, label + ': is_dirty after a change')

    def step(self, ctx, op, s, wide):
        a = vargs(ctx, op, s, len(self.ref), wide)
        if op == 'pers':
            w = self.e.persistent()
            same_vec(ctx, w, self.ref, 'persistent()')
            if self.changed is False: ctx.check(w is self.returned[-1][0], 'persistent() without changes')
            ctx.check(self.e.is_dirty() == False, 'is_dirty after persistent()')
            self.returned.append((w, list(self.ref)))
            self.changed = False
            return
        if op == 'read':
            x = ctx.attempt(lambda: self.e[a[0]]); y = ctx.attempt(lambda: self.ref[a[0]])
            if agree(ctx, x, y, 'evolver read'): ctx.check(ctx.same(x.value, y.value), 'evolver read')
            return
        x = ctx.attempt(eop, ctx, op, self.e, a); y = ctx.attempt(leop, ctx, op, self.ref, a)
        if agree(ctx, x, y, op):
            if op != 'edel': ctx.check(x.value is self.e, op + ' returns the evolver')
            self.changed = True
        elif self.changed is False: self.changed = None      # a failed operation may or may not mark it dirty


def h_ops(ctx, n, ops, wide=True):
    v, xs = build(ctx, n)
    k = Tracked(v, xs)
    k.verify(ctx, 'new evolver')
    for s, op in enumerate(ops):
        k.step(ctx, op, s, wide)
        k.verify(ctx, 'after ' + op)
    w = k.e.persistent()
    same_vec(ctx, w, k.ref, 'final persistent()', deep=True)
    if k.changed is False: ctx.check(w is k.returned[-1][0], 'final persistent() without changes')
    w2 = k.e.persistent()
    ctx.check(w2 is w, 'persistent() twice')
    same_evolver(ctx, k.e, k.ref, 'after persistent()')


def h_two(ctx, n, ops, second):
    """Two evolvers, of one vector or one derived from the other; the operations alternate between them."""
    v, xs = build(ctx, n)
    a = Tracked(v, xs)
    if second == 'same': b = Tracked(v, xs)
    else:
        a.step(ctx, 'eset' if n else 'eappend', 90, False)
        a.step(ctx, 'pers', 91, False)
        b = Tracked(*a.returned[-1])
    both = [a, b]
    for s, op in enumerate(ops):
        both[s % 2].step(ctx, op, s, False)
        a.verify(ctx, 'first evolver after ' + op, False); b.verify(ctx, 'second evolver after ' + op, False)
    for k in both:
        same_vec(ctx, k.e.persistent(), k.ref, 'final persistent()')
        for u, r in k.returned: same_vec(ctx, u, r, 'vectors it came from or returned')


def h_protocol(ctx, n):
    """del and item assignment, dirty flag of each, errors of each."""
    v, xs = build(ctx, n)
    e = v.evolver()
    i = index(ctx, 'i', n); y = ctx.obj()
    ref = list(xs)
    how = ctx.choice('how', ['set', 'setitem', 'delitem', 'delete', 'read'])
    def seti(c): c[i] = y
    def deli(c): del c[i]
    if how == 'set': a = ctx.attempt(lambda: e.set(i, y)); b = ctx.attempt(lambda: lset(ref, i, y))
    elif how == 'setitem': a = ctx.attempt(seti, e); b = ctx.attempt(lambda: lset(ref, i, y))
    elif how == 'read': a = ctx.attempt(lambda: e[i]); b = ctx.attempt(lambda: ref[i])
    else: a = ctx.attempt(deli, e) if how == 'delitem' else ctx.attempt(lambda: e.delete(i)); b = ctx.attempt(lambda: ldel(ref, i))
    ok = agree(ctx, a, b, how)
    if ok and how == 'read': ctx.check(ctx.same(a.value, b.value), 'read')
    elif ok:
        ref = b.value
        ctx.check(e.is_dirty() == True, 'dirty')
    same_evolver(ctx, e, ref, how)
    same_vec(ctx, v, xs, 'source')
    same_vec(ctx, e.persistent(), ref, 'persistent()')
    same_vec(ctx, v, xs, 'source afterwards')


EOPS = ['eset', 'eappend', 'eextend', 'edel', 'pers']
MORE = EOPS + ['egen', 'egenf', 'read', 'eextend33']
E3 = ['eset', 'eappend', 'pers', 'edel']
PC = ('py', 'c')
def H(name, fn, quick, thorough, note): return Harness(name, fn, T(quick, thorough), mode='bv', backends=PC, note=note)
def seqs(k, ops): return [[]] if k == 0 else [s + [o] for s in seqs(k - 1, ops) for o in ops]

CHECKS = [
    H('protocol', h_protocol, t(n=[0, 1, 2, 31, 32, 33, 64]), t(n=list(range(0, 70)) + [1056, 1057]), 'one operation, any 64-bit index'),
    H('one', h_ops, t(n=[0, 1, 32, 33], ops=[[o] for o in MORE]) + t(n=[1056, 1057, 1058], ops=[['eset'], ['eappend'], ['eextend33']]), t(n=EDGE + DEEP, ops=[[o] for o in MORE]), 'one operation with any 64-bit index'),
    H('ops', h_ops, t(n=[0, 1, 2], ops=seqs(3, EOPS), wide=[False]) + t(n=[31, 32, 33], ops=seqs(2, EOPS) + [['eset', 'pers', o] for o in EOPS] + [['eappend', 'eset', o] for o in EOPS] + [['eset', 'pers', 'eset', 'pers']], wide=[False])
      + t(n=[1056, 1057], ops=[['eappend', 'pers', 'eset'], ['eset', 'pers', 'eappend']], wide=[False]),
      t(n=[0, 1, 2], ops=seqs(4, EOPS) + seqs(2, MORE), wide=[False]) + t(n=[31, 32, 33, 34, 64], ops=seqs(3, EOPS) + seqs(2, MORE), wide=[False]) + t(n=[1056, 1057, 1058], ops=[['eset', 'pers', 'eset'], ['eappend', 'pers', 'eset'], ['eset', 'eset'], ['eappend', 'eset']], wide=[False]),
      'sequences of up to 3 (thorough 4) operations, any position up to one beyond either end (deletes: -2..2), persistent() in between'),
    H('read', h_ops, t(n=[0, 1, 2, 33], ops=[[g, 'read'] for g in ['eset', 'eappend', 'eextend', 'eextend33', 'edel', 'pers']] + [['eappend', 'pers', 'read'], ['eappend', 'eappend', 'read'], ['edel', 'eappend', 'read']]), t(n=[0, 1, 2, 32, 33, 65], ops=[[g, h, 'read'] for g in ['eset', 'eappend', 'eextend', 'eextend33', 'edel', 'pers'] for h in ['eset', 'eappend', 'eextend', 'edel', 'pers']]), 'a read with any 64-bit index after other operations'),
    H('leafs', h_ops, t(n=[70], ops=[['eset', 'eappend', 'pers', 'eset'], ['eset', 'pers', 'eset', 'pers', 'eset'], ['eset', 'edel', 'pers', 'eset']], wide=['edge']), t(n=[70, 97], ops=[[a, b, c, d] for a in E3 for b in E3 for c in E3 for d in E3 if 'pers' in (b, c)], wide=['edge']), 'longer evolver histories around one leaf'),
    H('deep', h_ops, t(n=[1057, 2081], ops=[['eset', 'eset'], ['eset', 'pers', 'eset']], wide=['edge']) + t(n=[2080], ops=[['eset', 'eappend']], wide=['edge']) + t(n=[32801], ops=[['eset']], wide=['edge']) + t(n=[32800], ops=[['eappend']], wide=['edge']), t(n=[1057, 2080, 2081, 3104], ops=[['eset', 'pers', 'eset', 'pers', 'eset'], ['eset', 'eappend', 'edel', 'eset']], wide=['edge']) + t(n=[32800, 32801], ops=[['eset', 'eset'], ['eset', 'pers', 'eset']], wide=['edge']),
      'deep trees (up to 32,801 elements); positions at the ends and at the seams between subtrees'),
    H('two', h_two, t(n=[0, 1, 33], ops=seqs(2, ['eset', 'eappend', 'pers', 'edel']) + [['eappend', 'pers', 'eset', 'eset']], second=['same', 'derived']),
      t(n=[0, 1, 2, 32, 33], ops=seqs(3, ['eset', 'eappend', 'pers', 'edel']), second=['same', 'derived']), 'two evolvers, operations alternating'),
]
