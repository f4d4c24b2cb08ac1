"""Shared by the vector harnesses.  The oracle is a Python list."""
LO, HI = -2**63, 2**63 - 1


def index(ctx, name, n, lo=LO, hi=HI):
    """Any integer in [lo, hi].  The range is split (completely) into the values that are no position of a vector of
    length n and blocks of up to 32 positions, counted from the front and from the back."""
    regions = []
    def add(a, b):
        a = max(a, lo); b = min(b, hi)
        if a <= b: regions.append((a, b))
    add(LO, -n - 1)
    for b in range(0, n, 32): add(b - n, min(b + 31, n - 1) - n)
    for b in range(0, n + 1, 32): add(b, min(b + 31, n))
    add(n + 1, HI)
    a, b = regions[ctx.choice(name + '_region', len(regions))]
    if b - a < 32: return a + ctx.int('%s_in%d' % (name, b - a), 0, b - a)
    return ctx.int(name + '_out', a, b)


def edge(ctx, name, n):
    """A position at one of the seams of the tree of a vector of length n: either end, the first two subtrees, the tail."""
    tail = (n - 1) // 32 * 32 if n else 0
    last = (tail - 1) // 1024 * 1024
    regions = [(0, 0), (n - 1, n), (-1, -1), (tail - 1, tail)] + [(b - 1, b) for b in sorted({32, 1024, last}) if 32 <= b < tail]
    a, b = regions[ctx.choice(name + '_at', len(regions))]
    return a + ctx.int('%s_plus%d' % (name, b - a), 0, b - a) if b > a else a


def build(ctx, n, how='list'):
    """A vector of n distinct opaque elements and the list of them."""
    xs = ctx.objs('x', n)
    if how == 'list': v = ctx.pvector(xs)
    elif how == 'append':
        v = ctx.pvector()
        for x in xs: v = v.append(x)
    else:
        v = ctx.pvector(xs[:how]).extend(xs[how:])
    return v, list(xs)


def is_vec(v): return type(v).__name__ in ('PVector', 'PythonPVector')


def same_vec(ctx, v, ref, label, deep=False):
    """v has exactly the elements of list ref."""
    ctx.check(is_vec(v), label + ' is a vector')
    n = len(ref)
    ctx.check(v.__len__() == n, label + ' length')
    ctx.check_seq(v.tolist(), ref, label + ' tolist')
    if deep:
        ctx.check_seq([x for x in v], ref, label + ' iteration')
        ctx.check_seq([v[i] for i in range(n)], ref, label + ' indexing')
        ctx.check_seq([v[i - n] for i in range(n)], ref, label + ' negative indexing')


def agree(ctx, a, b, label):
    """Outcome a (vector operation) agrees with outcome b (list operation): same result or the same kind of error."""
    if a.ok != b.ok or not a.ok:
        ctx.check(a.err == b.err, '%s: %r, a list %r' % (label, a, b))
        return False
    return True


def lset(ref, i, x):
    """List with position i set, len meaning append."""
    n = len(ref)
    if i < 0: i = i + n
    if i == n: return ref + [x]
    if i < 0: raise IndexError('out of range')
    r = list(ref)
    r[i] = x
    return r


def ldel(ref, i):
    r = list(ref)
    del r[i]
    return r


def lremove(ref, x):
    r = list(ref)
    r.remove(x)
    return r


# ---- operations on vectors and evolvers, and the same on lists -------------------------------------------------
def gen(ctx, ys, fail):
    """A generator; it raises after the last element if asked to."""
    for y in ys: yield y
    if fail: raise KeyError('generator')


def vargs(ctx, op, s, n, wide=True):
    """Arguments of step s for an operation on a sequence of length n.  wide: any position; edge: seams; else up to one beyond either end."""
    def pos(name, conc=False):
        if wide == 'edge': return edge(ctx, name, n)
        if conc and not wide: return ctx.int(name, -2, 2)
        return index(ctx, name, n) if wide else index(ctx, name, n, -n - 1, n + 1)
    p = 's%d' % s
    if op in ('append', 'eappend'): return (ctx.obj(),)
    if op in ('extend', 'add', 'eextend'): return (ctx.objs(p, 2),)
    if op in ('extend33', 'eextend33'): return (ctx.objs(p, 33),)
    if op in ('gen', 'egen'): return (ctx.objs(p, 2), False)
    if op in ('genf', 'egenf'): return (ctx.objs(p, ctx.choice(p + 'k', [0, 1, 33])), True)
    if op in ('set', 'evolve', 'eset'): return (pos(p), ctx.obj())
    if op == 'mset': return (pos(p), ctx.obj(), ctx.choice(p + 'l', [-1, n]), ctx.obj())
    if op in ('delete', 'edel'): return (pos(p, True),)
    if op in ('slice', 'delslice'): return (ctx.int(p + 'a', -2, 2), ctx.int(p + 'b', -2, 2))
    if op == 'cut': return (ctx.choice(p + 'c', [0, 1, n - 1]),)
    if op == 'mul': return (ctx.choice(p + 'm', [-1, 0, 1, 2]),)
    if op == 'read': return (pos(p),)
    return ()


def vop(ctx, op, v, a, keep=None):
    """Operation on a vector, giving a vector."""
    if op == 'append': return v.append(a[0])
    if op in ('extend', 'extend33'): return v.extend(a[0])
    if op == 'add': return v + a[0]
    if op in ('gen', 'genf'): return v.extend(gen(ctx, *a))
    if op == 'set': return v.set(*a)
    if op == 'mset': return v.mset(*a)
    if op == 'delete': return v.delete(*a)
    if op == 'delslice': return v.delete(*a)
    if op == 'slice': return v[a[0]:a[1]]
    if op == 'cut': return v[a[0]:]
    if op == 'mul': return v * a[0]
    if op == 'evolve':
        e = v.evolver()
        if keep is not None: keep.append(e)
        e[a[0]] = a[1]
        e.append(a[1])
        return e.persistent()
    raise AssertionError(op)


def lop(ctx, op, l, a):
    """The same on a list."""
    if op == 'append': return l + [a[0]]
    if op in ('extend', 'extend33', 'add'): return l + a[0]
    if op in ('gen', 'genf'): return l + list(gen(ctx, *a))
    if op == 'set': return lset(l, *a)
    if op == 'mset': return lset(lset(l, a[0], a[1]), a[2], a[3])
    if op == 'delete': return ldel(l, *a)
    if op == 'delslice': return ldel(l, slice(*a))
    if op == 'slice': return l[a[0]:a[1]]
    if op == 'cut': return l[a[0]:]
    if op == 'mul': return l * a[0]
    if op == 'evolve': return lset(l, *a) + [a[1]]
    raise AssertionError(op)


def eop(ctx, op, e, a):
    """Operation on an evolver (in place)."""
    if op == 'eappend': return e.append(a[0])
    if op in ('eextend', 'eextend33'): return e.extend(a[0])
    if op in ('egen', 'egenf'): return e.extend(gen(ctx, *a))
    if op == 'eset': return e.set(*a)
    if op == 'edel': return e.delete(*a)
    raise AssertionError(op)


def leop(ctx, op, l, a):
    """The same on a list, in place."""
    if op == 'eappend': l.append(a[0])
    elif op in ('eextend', 'eextend33'): l.extend(a[0])
    elif op in ('egen', 'egenf'): l.extend(gen(ctx, *a))
    elif op == 'eset': l[:] = lset(l, *a)
    elif op == 'edel': l[:] = ldel(l, *a)
    else: raise AssertionError(op)


def same_evolver(ctx, e, ref, label, negative=True):
    n = len(ref)
    ctx.check(e.__len__() == n, label + ' length')
    ctx.check_seq([e[k] for k in range(n)], ref, label + ' contents')
    if negative: ctx.check_seq([e[k] for k in range(-n, 0)], ref, label + ' contents, negative indices')
