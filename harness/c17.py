"""C17: transform changes exactly the matched paths; get_in."""
from sx.api import Harness, T
from pyrsistent import pmap, pvector, PMap, PVector, discard, inc, rex, ny, get_in, CheckedPMap, CheckedPVector, PRecord, PClass, field

from pyrsistent._transformations import dec
ASSUMPTIONS = ['predicates and commands are pure functions of their arguments; map keys have lawful equality and hashing']


class CM(CheckedPMap):
    __key_type__ = object
    __value_type__ = object
class CV(CheckedPVector): __type__ = object
class R(PRecord):
    a = field()
    b = field()
class K(PClass):
    a = field()
    b = field()


class N:
    """Model of a node: items as (key, node) pairs, and the real object it stands for (None when new)."""
    def __init__(self, kind, items, real): self.kind = kind; self.items = items; self.real = real
class Leaf:
    def __init__(self, real): self.real = real
    kind = 'leaf'


CLS = dict(m=PMap, cm=CM, v=PVector, cv=CV, r=R, k=K)
ISMAP = ('m', 'cm', 'r', 'k')


def mk(kind, items):
    """Real object and model from (key, model) pairs."""
    if kind == 'm': real = pmap({k: n.real for k, n in items})
    elif kind == 'cm': real = CM({k: n.real for k, n in items})
    elif kind == 'v': real = pvector([n.real for _, n in items])
    elif kind == 'cv': real = CV([n.real for _, n in items])
    elif kind == 'r': real = R(**{k: n.real for k, n in items})
    elif kind == 'k': real = K(**{k: n.real for k, n in items})
    return N(kind, items, real)


class Gen:
    def __init__(self, ctx): self.ctx = ctx; self.keys = 0
    def shape(self, s):
        """Shape: 'l' leaf; (kind, [child shapes])."""
        ctx = self.ctx
        if s == 'l': return Leaf(ctx.obj())
        if s == 'e': return mk('m', [])
        kind, ch = s
        if kind in ('m', 'cm'): ks = [self.key() for _ in ch]
        elif kind in ('r', 'k'): ks = ['a', 'b'][:len(ch)]
        else: ks = list(range(len(ch)))
        if kind in ('m', 'cm'):
            for i in range(len(ks)):
                for j in range(i): ctx.assume(ctx.not_(ks[i] == ks[j]))
        return mk(kind, [(k, self.shape(c)) for k, c in zip(ks, ch)])
    def key(self):
        k = self.ctx.obj()
        self.ctx.limit_hash([k], 8, 1)
        return k


class Cmd:
    """A command: what the code gets, and its effect on a model node."""
    def __init__(self, ctx, kind):
        self.kind = kind; self.ctx = ctx; self.made = []
        if kind == 'value': self.v = ctx.obj(); self.arg = self.v
        elif kind == 'discard': self.arg = discard
        elif kind == 'map': self.v = ctx.obj(); self.arg = self.fn           # replaces leaves satisfying a predicate, keeps others
        elif kind == 'same': self.arg = lambda x: x
        elif kind == 'newmap': self.v = mk('m', [('q', Leaf(ctx.obj()))]); self.arg = self.v.real
    def fn(self, x):
        return self.v if self.ctx.pred('hit', x) else x
    def model(self, n):
        k = self.kind
        if k == 'value': return Leaf(self.v)
        if k == 'map': return Leaf(self.v) if (n.kind == 'leaf' and self.ctx.pred('hit', n.real)) else n
        if k == 'same': return n
        if k == 'newmap': return self.v


class Err(Exception): pass


class Step:
    def __init__(self, ctx, kind, g, i, hint):
        self.kind = kind; self.ctx = ctx; self.i = i
        if kind == 'key': self.k = g.key() if hint is None else hint; self.arg = self.k
        elif kind == 'idx': self.k = hint; self.arg = self.k
        elif kind == 'p1': self.arg = lambda key: self.hit(key)
        elif kind == 'p1d': self.arg = lambda key, extra=None: self.hit(key)
        elif kind == 'p2': self.arg = lambda key, val: self.hit2(key, val)
        elif kind == 'ny': self.arg = ny
        elif kind == 'rex': self.arg = rex('a.*')
    def hit(self, key):
        if type(key) is int: return self.ctx_bool('i%d_%d' % (self.i, key))
        if type(key) is str: return self.ctx_bool('s%d_%s' % (self.i, key))
        return self.ctx.pred('p%d' % self.i, key)
    def hit2(self, key, val):
        if self.isleaf(val): return self.ctx.pred('pv%d' % self.i, val)
        return self.hit(key)
    def isleaf(self, v): return not isinstance(v, (PMap, PVector, PClass)) and not hasattr(v, 'evolver')
    def ctx_bool(self, name): return self.ctx.bool(name)
    def matches(self, key, node):
        k = self.kind
        if k in ('p1', 'p1d'): return bool(self.hit(key))
        if k == 'p2': return bool(self.hit2(key, node.real))
        if k == 'ny': return True
        if k == 'rex': return type(key) is str and key.startswith('a')
        raise ValueError
    literal = property(lambda s: s.kind in ('key', 'idx'))


def spec(node, steps, cmd):
    """The model after applying cmd at every matching path.  Returns the very same node when nothing changed."""
    if not steps: return cmd.model(node)
    st, rest = steps[0], steps[1:]
    items = list(node.items)
    if st.literal:
        key = st.k
        if node.kind in ISMAP:
            pos = next((i for i, (k, _) in enumerate(items) if k == key), None)
            idx = pos
        else:
            n = len(items)
            if key < 0: key = key + n
            pos = None
            for i in range(n):
                if key == i: pos = i
            idx = pos
        if idx is None:
            if cmd.kind == 'discard':
                return node
            if node.kind not in ISMAP and not (key == len(items)): raise Err('IndexError')
            child = spec(mk('m', []), rest, cmd)
            items.append((st.k if node.kind in ISMAP else len(items), child))
            return N(node.kind, items, None)
        hits = [idx]
    else:
        hits = [i for i, (k, c) in enumerate(items) if st.matches(k, c)]
    if not rest and cmd.kind == 'discard':
        if not hits: return node
        left = [x for i, x in enumerate(items) if i not in hits]
        if node.kind not in ISMAP: left = [(i, x[1]) for i, x in enumerate(left)]
        return N(node.kind, left, None)
    changed = False
    for i in hits:
        c = items[i][1]
        r = spec(c, rest, cmd)
        if r is not c and not (r.kind == 'leaf' and c.kind == 'leaf' and r.real is c.real):
            items[i] = (items[i][0], r); changed = True
    return N(node.kind, items, None) if changed else node


def agree(ctx, real, node, label):
    """real is what the model says; unchanged parts are the very same objects."""
    if node.real is not None:
        ctx.check(real is node.real if node.kind != 'leaf' else ctx.same(real, node.real), label + ' same object')
        return
    if node.kind == 'cv': ctx.check(isinstance(real, PVector), label + ' class')       # deletion from a checked vector gives a plain one
    elif node.kind == 'v': ctx.check(isinstance(real, PVector), label + ' class')
    else: ctx.check(type(real) is CLS[node.kind], label + ' class')
    if node.kind == 'k':
        have = [f for f in ('a', 'b') if hasattr(real, f)]
        ctx.check(have == sorted(k for k, _ in node.items), label + ' fields')
        for k, c in node.items: agree(ctx, getattr(real, k), c, label)
        return
    ctx.check(len(real) == len(node.items), label + ' size')
    for k, c in node.items:
        a = ctx.attempt(lambda: real[k])
        ctx.check(a.ok, label + ' has key')
        agree(ctx, a.value, c, label)


def intact(ctx, node, label):
    """The original structure still has its contents."""
    if node.kind == 'leaf': return
    real = node.real
    if node.kind == 'k':
        for k, c in node.items: ctx.check(ctx.same(getattr(real, k), c.real), label)
    else:
        ctx.check(len(real) == len(node.items), label)
        for k, c in node.items: ctx.check(ctx.same(real[k], c.real), label)
    for _, c in node.items: intact(ctx, c, label)


SHAPES = dict(
    m1=('m', ['l']), m2=('m', ['l', 'l']), m3=('m', ['l', 'l', 'l']), v1=('v', ['l']), v3=('v', ['l', 'l', 'l']), v0=('v', []), m0=('m', []),
    mm=('m', [('m', ['l', 'l']), ('m', ['l'])]), mv=('m', [('v', ['l', 'l']), ('v', ['l'])]), vm=('v', [('m', ['l']), ('m', ['l', 'l'])]),
    vv=('v', [('v', ['l', 'l']), ('v', ['l'])]), cm2=('cm', ['l', 'l']), cv2=('cv', ['l', 'l', 'l']), cmm=('cm', [('cm', ['l']), ('cm', ['l'])]),
    r2=('r', ['l', 'l']), r1=('r', ['l']), rv=('r', [('v', ['l', 'l']), ('m', ['l'])]), k2=('k', ['l', 'l']), km=('k', [('m', ['l']), ('r', ['l'])]),
    mmm=('m', [('m', [('m', ['l'])]), ('m', [('m', ['l', 'l'])])]), vmv=('v', [('m', [('v', ['l', 'l'])]), ('m', [('v', ['l'])])]),
    mcm=('m', [('cm', ['l']), ('cv', ['l', 'l'])]))


def steps_for(ctx, g, shape, kinds, tag=0):
    """Literal steps get the kind of key that suits the level."""
    out = []
    s = SHAPES[shape] if isinstance(shape, str) else shape
    lev = [s]
    for i, k in enumerate(kinds):
        c = lev[0]
        ck = c[0] if isinstance(c, tuple) else 'm'
        if k == 'lit':
            if ck in ('m', 'cm'): st = Step(ctx, 'key', g, i + 10 * tag, None)
            elif ck in ('r', 'k'): st = Step(ctx, 'key', g, i + 10 * tag, ctx.choice('f%d_%d' % (tag, i), ['a', 'b'][:max(1, len(c[1]))] if ck == 'k' else ['a', 'b']))
            else:
                n = len(c[1])
                st = Step(ctx, 'idx', g, i + 10 * tag, ctx.int('ix%d_%d' % (tag, i), -n - 1, n + 1))
        else: st = Step(ctx, k, g, i + 10 * tag, None)
        out.append(st)
        lev = [x for y in lev if isinstance(y, tuple) for x in y[1]] or ['e']
    return out


def h_transform(ctx, shape, steps, cmd):
    g = Gen(ctx)
    root = g.shape(SHAPES[shape])
    st = steps_for(ctx, g, shape, steps)
    c = Cmd(ctx, cmd)
    if cmd == 'discard' and st[-1].kind == 'idx':
        # out of scope: discarding a vector index that is not there
        n = len(leaf_parents(SHAPES[shape], len(steps)))
        ctx.assume(ctx.all([st[-1].k >= 0, st[-1].k < n]))
    try: exp = spec(root, st, c)
    except Err as e: exp = str(e)
    a = ctx.attempt(root.real.transform, [s.arg for s in st], c.arg)
    if isinstance(exp, str):
        ctx.check(a.err == exp, 'expected ' + exp)
    else:
        ctx.check(a.ok, 'raised: ' + str(a.err))
        if a.ok: agree(ctx, a.value, exp, 'result')
    intact(ctx, root, 'original')


def leaf_parents(s, depth):
    """Smallest number of children at the given depth (1 = root's children)."""
    lev = [s]
    for _ in range(depth - 1): lev = [x for y in lev for x in y[1]]
    return min((y[1] for y in lev), key=len)


def h_two(ctx, shape, s1, c1, s2, c2):
    """Two path-command pairs are applied one after the other."""
    g = Gen(ctx)
    root = g.shape(SHAPES[shape])
    st1 = steps_for(ctx, g, shape, s1, 1); cm1 = Cmd(ctx, c1)
    st2 = steps_for(ctx, g, shape, s2, 2); cm2 = Cmd(ctx, c2)
    try: exp = spec(spec(root, st1, cm1), st2, cm2)
    except Err as e: exp = str(e)
    a = ctx.attempt(root.real.transform, [s.arg for s in st1], cm1.arg, [s.arg for s in st2], cm2.arg)
    if isinstance(exp, str): ctx.check(a.err == exp, 'expected ' + exp)
    else:
        ctx.check(a.ok, 'raised: ' + str(a.err))
        if a.ok: agree(ctx, a.value, exp, 'result')
    intact(ctx, root, 'original')


def h_same_key(ctx, n):
    """Later pairs see the effect of earlier ones on the same key (possibly created by the first)."""
    g = Gen(ctx)
    root = g.shape(('m', ['l'] * n))
    k = g.key(); q = ctx.obj(); w = ctx.obj()
    seen = []
    def f(x):
        seen.append(x)
        return w
    r = root.real.transform([k], q, [k], f)
    ctx.check(len(seen) == 1 and ctx.same(seen[0], q), 'second command sees the result of the first')
    ctx.check(ctx.same(r[k], w), 'last value')
    r2 = root.real.transform([k, 'z'], q) if n == 0 else None
    if r2 is not None: ctx.check(ctx.same(r2[k]['z'], q) and len(r2[k]) == 1, 'nested creation')
    r3 = root.real.transform([k], q, [k], discard)
    ctx.check(k not in r3, 'created and discarded')
    intact(ctx, root, 'original')


def h_incdec(ctx, n):
    x = ctx.int('x', -100, 100)
    v = pvector([x] * n)
    i = ctx.int('i', 0, n - 1)
    r = v.transform([i], inc); s = v.transform([ny], dec); t = v.transform([lambda j: j == i], inc)
    for j in range(n):
        ctx.check(r[j] == ctx.ite(i == j, x + 1, x) if n > 1 else r[j] == x + 1, 'inc at one index')
        ctx.check(s[j] == x - 1, 'dec everywhere')
        ctx.check(t[j] == r[j], 'inc by predicate')


def h_empty_path(ctx, shape):
    g = Gen(ctx)
    root = g.shape(SHAPES[shape])
    q = ctx.obj()
    ctx.check(ctx.same(root.real.transform([], q), q), 'empty path with a value')
    ctx.check(root.real.transform([], lambda x: x) is root.real, 'empty path with the identity')
    ctx.check(root.real.transform() is root.real, 'no transformations')


def h_arity(ctx, shape):
    g = Gen(ctx)
    root = g.shape(SHAPES[shape])
    a = ctx.attempt(root.real.transform, [lambda: True], 1)
    ctx.check(a.err == 'ValueError', 'no arguments')
    a = ctx.attempt(root.real.transform, [lambda x, y, z: True], 1)
    ctx.check(a.err == 'ValueError', 'three arguments')
    class P:
        def __init__(s, n): s.n = n; s.seen = []
        def method(s, k, extra=5): s.log.append((k, extra))
        def method2(s, k, v, extra=5): s.log.append((k, v, extra))
    class P1(P):
        def __call__(s, key): s.seen.append((key,)); return False
    class P2(P):
        def __call__(s, key, val): s.seen.append((key, val)); return False
    p1, p2 = P1(1), P2(2)
    ctx.check(root.real.transform([p1], 1) is root.real and root.real.transform([p2], 1) is root.real, 'nothing matched')
    ctx.check(len(p1.seen) == len(root.items) and len(p2.seen) == len(root.items), 'each entry asked once')
    for k, n in root.items:
        ctx.check(any([bool(ctx.same(s[0], k)) for s in p1.seen]), 'key asked')
        ctx.check(any([bool(ctx.same(s[0], k)) and bool(ctx.same(s[1], n.real)) for s in p2.seen]), 'key and value asked')
    # only parameters without a default count
    for pat in (lambda k, extra=5: seen1(k, extra), lambda k, *rest, kw=5: seen1(k, kw), p1.method, lambda k, /, extra=5: seen1(k, extra)):
        log = p1.log = []
        seen1 = lambda k, extra: log.append((k, extra))
        ctx.check(root.real.transform([pat], 1) is root.real, 'nothing matched')
        ctx.check(len(log) == len(root.items) and all([s[1] == 5 for s in log]), 'asked with the key alone')
    for pat in (lambda k, v, extra=5: seen2(k, v, extra), p2.method2, lambda k, v, *rest, kw=5: seen2(k, v, kw)):
        log = p2.log = []
        seen2 = lambda k, v, extra: log.append((k, v, extra))
        ctx.check(root.real.transform([pat], 1) is root.real, 'nothing matched')
        ctx.check(len(log) == len(root.items) and all([s[2] == 5 for s in log]) and all([any([bool(ctx.same(s[1], n.real)) for s in log]) for k, n in root.items]), 'asked with key and value')


def h_get_in(ctx, shape, depth):
    """get_in against step by step lookup."""
    g = Gen(ctx)
    root = g.shape(SHAPES[shape])
    st = steps_for(ctx, g, shape, ['lit'] * depth)
    node, ok = root, True
    for s in st:
        if node.kind == 'leaf': ok = False; break
        key = s.k
        if node.kind not in ISMAP and key < 0: key = key + len(node.items)
        m = [c for k, c in node.items if k == key]
        if not m: ok = False; break
        node = m[0]
    d = ctx.obj()
    path = [s.arg for s in st]
    r = get_in(path, root.real, d)
    if ok: ctx.check(ctx.same(r, node.real), 'value at the path')
    else: ctx.check(ctx.same(r, d), 'default')
    if not ok: ctx.check(get_in(path, root.real) is None, 'default None')
    a = ctx.attempt(get_in, path, root.real, d, no_default=True)
    if ok: ctx.check(a.ok and ctx.same(a.value, node.real), 'value with no_default')
    else: ctx.check(a.err in ('KeyError', 'IndexError', 'TypeError'), 'error with no_default')
    intact(ctx, root, 'original')


L1 = ['m0', 'm1', 'm2', 'm3', 'v0', 'v1', 'v3', 'cm2', 'cv2', 'r2', 'r1', 'k2']
L2 = ['mm', 'mv', 'vm', 'vv', 'cmm', 'rv', 'km', 'mcm']
L3 = ['mmm', 'vmv']
ST = ['lit', 'p1', 'p2', 'ny', 'p1d']
CM_ = ['value', 'discard', 'map', 'same']


def tasks(tier):
    out = []
    for s in L1:
        for a in ST + (['rex'] if s in ('r2', 'r1', 'm2') else []):
            if s[0] == 'k' and a != 'lit': continue       # classes have no items() and are not iterable
            for c in CM_ + ['newmap']:
                if s in ('r1', 'r2', 'k2') and c == 'newmap': continue
                out.append(dict(shape=s, steps=[a], cmd=c))
    for s in L2:
        for a in ST[:4]:
            if s[0] == 'k' and a != 'lit': continue
            for b in (ST[:4] if tier != 'quick' else ['lit', 'p1', 'p2']):
                if s == 'mcm' and b == 'lit': continue
                if s == 'rv' and (b == 'lit' or a == 'rex'): continue
                if s == 'km' and b == 'lit': continue
                for c in CM_: out.append(dict(shape=s, steps=[a, b], cmd=c))
    for s in ('m0', 'm1', 'm2'):
        for c in ('value', 'same', 'discard', 'newmap'):
            if s == 'm0': out.append(dict(shape=s, steps=['lit', 'lit'], cmd=c)); out.append(dict(shape=s, steps=['lit', 'lit', 'lit'], cmd=c))
    for s in L3:
        for p in ([['lit', 'lit', 'lit'], ['p1', 'lit', 'p2'], ['ny', 'p1', 'lit'], ['lit', 'ny', 'p2']] if tier == 'quick' else [[a, b, c] for a in ST[:3] for b in ST[:4] for c in ST[:3]]):
            for c in CM_: out.append(dict(shape=s, steps=p, cmd=c))
    return out


def tasks2(tier):
    out = []
    for s in ('m2', 'v3', 'cm2', 'r2', 'mm', 'vm'):
        for a in ('lit', 'p1', 'ny'):
            for b in ('lit', 'p2'):
                for c1, c2 in (('value', 'map'), ('discard', 'value'), ('map', 'discard'), ('same', 'map'), ('value', 'value')):
                    if s in ('v3', 'vm') and (c1 == 'discard' or c2 == 'discard') and 'lit' in (a, b): continue
                    if s in ('v3', 'vm') and c1 == 'discard' and tier == 'quick' and a != 'p1': continue
                    out.append(dict(shape=s, s1=[a], c1=c1, s2=[b], c2=c2))
    return out


CHECKS = [
    Harness('getin', h_get_in, T([dict(shape=s, depth=1) for s in L1 if s[0] != 'k'] + [dict(shape=s, depth=2) for s in L2 + ['m1', 'v1'] if s[0] != 'k' and s not in ('rv', 'mcm')] + [dict(shape=s, depth=3) for s in L3] + [dict(shape='m2', depth=0)]), note='paths of up to 3 keys, present or absent'),
    Harness('empty', h_empty_path, T([dict(shape=s) for s in L1])),
    Harness('arity', h_arity, T([dict(shape=s) for s in L1 + L2 if s[0] != 'k'])),
    Harness('incdec', h_incdec, T([dict(n=n) for n in (1, 2, 3, 34)])),
    Harness('samekey', h_same_key, T([dict(n=n) for n in (0, 1, 2)])),
    Harness('two', h_two, tasks2, note='two path-command pairs on structures with up to 3 entries per level'),
    Harness('transform', h_transform, tasks, note='structures of depth <=3 with <=3 entries per level; every key may or may not equal the existing ones; predicates arbitrary per key/value'),
]
