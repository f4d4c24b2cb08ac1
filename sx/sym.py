"""Symbolic harness context."""
import z3
from . import core
from .api import CtxBase, UserError, Outcome
from .core import SymInt, SymBool, SymObj, mkint, mkbool, And, Or, Not, obj_is, W, Control
from .instr import sx_hash, sx_is


class Fail(Control):
    def __init__(self, label): self.label = label


class SymCtx(CtxBase):
    symbolic = True

    def __init__(self, eng, backend='py'):
        self.eng = eng
        self.backend = backend
        self.vars = {}
        self.asserts = []
        self.n_checks = 0
        self.labels = set()
        self.space = core.OBJ = core.ObjSpace(eng)
        self.space.on_call = lambda kind, o: self.tick(kind)
        self.notes = []

    # ---- inputs
    def int(self, name, lo, hi):
        if lo == hi: return lo
        if name in self.vars: raise core.EngineError('duplicate variable ' + name)
        hit = self.eng.cache.get(('int', name, lo, hi))
        if hit is not None:
            x, c = hit
            self.vars[name] = x.e
            if c is not None: self.eng.assume(c)
            return x
        full = False
        if self.eng.mode == 'bv':
            nb = max((lo).bit_length(), (hi).bit_length()) + 1
            nb = min(max(nb, 2), 64)
            b = z3.BitVec('i_' + name, nb)
            e = z3.SignExt(W - nb, b)
            if lo == 0 and hi & (hi + 1) == 0 and hi < 2**63:
                nb = hi.bit_length()
                b = z3.BitVec('i_' + name, nb)
                e = z3.ZeroExt(W - nb, b); full = True
        else:
            e = z3.Int('i_' + name)
        self.vars[name] = e
        c = None
        if not full and not (self.eng.mode == 'bv' and lo == -2**(nb - 1) and hi == 2**(nb - 1) - 1):
            c = z3.And(e >= lo, e <= hi)
            self.eng.assume(c)
        x = SymInt(e, lo, hi)
        self.eng.cache[('int', name, lo, hi)] = (x, c)
        return x

    def bool(self, name):
        x = self.eng.cache.get(('bool', name))
        if x is None: x = self.eng.cache[('bool', name)] = SymBool(z3.Bool('b_' + name))
        self.vars[name] = x.e
        return x

    def pvector_of(self, backend, *a):
        if backend == 'c':
            from . import cbridge
            return cbridge.pvector(*a)
        from pyrsistent._pvector import python_pvector
        return python_pvector(*a)

    def settled(self, label='ownership'):
        """All vectors, evolvers and iterators made so far have been dropped: nothing may be owned by C any more."""
        if self.backend in ('c', 'both'): self.c.balance(self, label)

    def balanced(self, fn, objs, label='ownership'):
        """fn() leaves nothing behind."""
        fn()
        self.settled(label)

    def gc_visits(self, live, objs, base, label='garbage collector'):
        if self.backend in ('c', 'both'): self.c.gc_check(self, label)

    def refs(self, objs): return None

    def pick(self, x):
        return x.conc() if type(x) is SymInt else x

    def obj(self, name=None):
        return self.space.new(name)

    def dying(self, fn, name=None):
        """An object that calls fn when the C code releases its last reference."""
        o = self.obj(name)
        from sx import cheap
        cheap.H.dying[id(o)] = fn
        return o

    def pred(self, name, o):
        """Arbitrary but fixed predicate on objects."""
        if type(o) is not SymObj: return False
        t = None
        for c, k in o.alts:
            p = self.space.pred(name, k)
            t = p if t is None else z3.If(c, p, t)
        return mkbool(t)

    def valint(self, o):
        """The value of an object as an opaque comparable integer."""
        return mkint(o.v()) if self.eng.mode == 'int' else mkint(z3.SignExt(W - 16, o.v()))

    # ---- assertions
    def assume(self, c):
        if c is True: return
        if c is False: raise core.Infeasible()
        self.eng.assume(core.bterm(c))

    def check(self, c, label):
        self.n_checks += 1
        self.labels.add(label.split(':')[0])
        if c is True: return
        if type(c) is SymBool:
            self.asserts.append((label, c.e))
            return
        if not c:
            raise Fail(label)

    def note(self, x): self.notes.append(x)

    # ---- observations
    def same(self, a, b):
        if a is b: return True
        if type(a) is SymObj and type(b) is SymObj: return obj_is(a, b)
        if type(a) is SymObj or type(b) is SymObj: return False
        if type(a) in (SymInt, SymBool) or type(b) in (SymInt, SymBool): return a == b
        if type(a) is type(b) and type(a) in (int, str, bool, float, bytes): return a == b
        if isinstance(a, (tuple, list)) and type(a) is type(b) and len(a) == len(b) and type(a) in (tuple, list):
            return And(*[self.same(x, y) for x, y in zip(a, b)])
        return False

    def all(self, xs): return And(*[x for x in xs])
    def any(self, xs): return Or(*[x for x in xs])
    def not_(self, x): return Not(x)
    def iff(self, a, b): return And(Or(Not(a), b), Or(a, Not(b)))
    def eq(self, a, b):
        r = a == b
        return r
    def hash(self, x): return sx_hash(x)
    def ite(self, c, a, b):
        """Value-level if-then-else without branching, for opaque objects and integers."""
        if c is True: return a
        if c is False: return b
        if type(a) is SymObj: return core.obj_ite(c.e, a, b)
        return mkint(z3.If(c.e, core.term(a), core.term(b)), min(core.ilo(a), core.ilo(b)), max(core.ihi(a), core.ihi(b)))

    # ---- model extraction
    def values(self, m):
        d = {}
        for n, e in self.vars.items():
            v = m.eval(e, model_completion=True)
            d[n] = z3.is_true(v) if z3.is_bool(e) else core._num(v)
        sp = self.space
        vals, hs = {}, {}
        for k in range(len(sp.objs)):
            if k in sp.vals:
                vals[k] = core._num(m.eval(sp.val(k), model_completion=True))
        for k in sp.hashed:
            hs[k] = core._num(m.eval(sp.H(sp.val(k)), model_completion=True))
        preds = {}
        for (n, k), p in sp.preds.items():
            preds['%s|%d' % (n, k)] = z3.is_true(m.eval(p, model_completion=True))
        return dict(vars=d, vals={str(k): v for k, v in vals.items()}, hashes={str(k): v for k, v in hs.items()}, preds=preds)


def run_task(h, params, backend, deadline, max_violations=3, witness_every=None, seed=1, max_witness=4):
    """Explore one harness instance.  Returns a JSON-able result."""
    import random
    rnd = random.Random(seed * 7919 + hash_str(h.name + repr(params)))
    eng = core.Engine(h.mode)
    eng.deadline = deadline
    core.ENG = eng
    if h.setup:
        h.setup_state = h.setup(backend, **params)
    cur = {}
    res = dict(violations=[], witnesses=[], labels=set(), checks=0)
    seen_labels = set()

    def run():
        ctx = SymCtx(eng, backend)
        cur['ctx'] = ctx
        if backend in ('c', 'both'):
            from . import cbridge
            cbridge.begin_path(ctx)
        try:
            h.fn(ctx, **params)
        finally:
            if backend in ('c', 'both'):
                cbridge.end_path(ctx)

    def on_path(kind, exc):
        ctx = cur['ctx']
        st = eng.stats
        st.asserts += ctx.n_checks
        res['labels'] |= ctx.labels
        if kind == 'exc':
            add(ctx, 'unexpected %s: %s' % (type(exc).__name__, exc), eng.model())
        elif kind == 'timeout':
            add(ctx, 'does not terminate', eng.model())
        elif kind == 'fail':
            add(ctx, exc.label, eng.model())
        if ctx.asserts:
            st.asserts_symbolic += len(ctx.asserts)
            neg = z3.Or([z3.Not(e) for _, e in ctx.asserts])
            m = eng._sat_with(neg)
            if m is not None:
                lab = next((l for l, e in ctx.asserts if z3.is_false(m.eval(e, model_completion=True))), '?')
                add(ctx, lab, m)
        # reservoir sample of witnesses
        n = st.paths
        W_ = res['witnesses']
        if kind == 'ok':
            if len(W_) < max_witness: W_.append(ctx.values(eng.model()))
            else:
                j = rnd.randrange(n)
                if j < max_witness: W_[j] = ctx.values(eng.model())
        return len(res['violations']) >= max_violations

    def add(ctx, label, m):
        key = label.split(':')[0]
        if key in seen_labels: return
        seen_labels.add(key)
        res['violations'].append(dict(label=label, values=ctx.values(m)))

    status = explore_with_fail(eng, run, on_path, h.path_timeout)
    res['status'] = status
    res['stats'] = eng.stats.as_dict()
    res['labels'] = sorted(res['labels'])
    return res


def explore_with_fail(eng, run, on_path, path_timeout):
    def run2():
        try:
            run()
        except Fail as f:
            raise _FailExc(f.label)
    class _FailExc(Exception):
        def __init__(self, label): self.label = label
    def on2(kind, exc):
        if kind == 'exc' and isinstance(exc, _FailExc):
            return on_path('fail', exc)
        return on_path(kind, exc)
    return eng.explore(run2, on2, path_timeout=path_timeout)


def hash_str(s):
    h = 0
    for ch in s: h = (h * 131 + ord(ch)) & 0x7fffffff
    return h
