"""Concrete harness context: replays solver models on the real, unmodified code (no z3, no instrumentation)."""
import sys
from .api import CtxBase, UserError, Outcome


class CheckFailed(BaseException):
    def __init__(self, label): self.label = label; super().__init__(label)
class Vacuous(BaseException): pass


CTX = None


class Elem:
    __slots__ = ('k', 'val', 'hv', '__weakref__')
    def __eq__(self, o):
        if type(o) is not Elem: return NotImplemented
        CTX.tick('eq')
        return self.val == o.val
    def __ne__(self, o):
        if type(o) is not Elem: return NotImplemented
        CTX.tick('eq')
        return self.val != o.val
    def __lt__(self, o):
        if type(o) is not Elem: return NotImplemented
        CTX.tick('lt')
        return self.val < o.val
    def __le__(self, o):
        if type(o) is not Elem: return NotImplemented
        CTX.tick('lt')
        return self.val <= o.val
    def __gt__(self, o):
        if type(o) is not Elem: return NotImplemented
        CTX.tick('lt')
        return self.val > o.val
    def __ge__(self, o):
        if type(o) is not Elem: return NotImplemented
        CTX.tick('lt')
        return self.val >= o.val
    def __bool__(self): return self.val != 0
    def __hash__(self):
        CTX.tick('hash')
        return self.hv
    def __repr__(self): return 'o%d(val=%d,hash=%d)' % (self.k, self.val, self.hv)
    def __reduce__(self): return (_by_index, (self.k,))

class Dying:
    def __init__(self, fn): self.fn = fn
    def __del__(self): self.fn()

def _by_index(k): return CTX.objects[k]


class ConcCtx(CtxBase):
    symbolic = False

    def __init__(self, values, backend, scan_value=None):
        global CTX
        CTX = self
        self.v = values
        self.backend = backend
        self.objects = []
        self.scan_value = scan_value
        self.notes = []
        self.hv_by_val = {}
        for k, h in values.get('hashes', {}).items():
            val = values['vals'].get(k)
            if val is not None: self.hv_by_val[val] = h
        used = [v for v in values.get('vals', {}).values()]
        self.fresh = max([abs(x) for x in used] + [0]) + 1000

    def int(self, name, lo, hi):
        if lo == hi: return lo
        if self.scan_value and name in self.scan_value: return self.scan_value[name]
        x = self.v['vars'].get(name)
        if x is None: x = lo
        if not lo <= x <= hi: raise Vacuous()
        return x
    def bool(self, name): return self.v['vars'].get(name, False)
    def pick(self, x): return x
    def pvector_of(self, backend, *a):
        if backend == 'c':
            import pvectorc
            return pvectorc.pvector(*a)
        from pyrsistent._pvector import python_pvector
        return python_pvector(*a)
    def refs(self, objs): return [sys.getrefcount(o) for o in objs]
    def balanced(self, fn, objs, label='ownership'):
        """fn() leaves nothing behind: reference counts are as before, and repeating it does not use up memory."""
        import gc
        fn(); gc.collect()
        before = self.refs(objs)
        for _ in range(3): fn()
        gc.collect()
        after = self.refs(objs)
        self.check(before == after, label)
        if not self.backend in ('c', 'both'): return
        n = 40
        last = None
        for _ in range(40):           # caches may still be filling up: a leak shows in every round
            for _ in range(n): fn()
            gc.collect()
            b = sys.getallocatedblocks()
            if last is not None and b - last < n - 5: break
            last = b
        else: self.check(False, label)
        self.check(self.refs(objs) == before, label)
    def gc_visits(self, live, objs, base, label='garbage collector'):
        """No element is reported to the collector more often than it is owned.  base: refs(objs) when no vector held any."""
        if self.backend not in ('c', 'both'): return
        import gc
        seen, todo, visits = set(), list(live), {}
        while todo:
            x = todo.pop()
            if id(x) in seen or type(x).__name__ not in ('PVector', 'pvector_evolver', 'pvector_iterator', 'list'): continue
            seen.add(id(x))
            if not gc.is_tracked(x): continue
            for y in gc.get_referents(x):
                if type(y) is Elem: visits[id(y)] = visits.get(id(y), 0) + 1
                todo.append(y)
        now = self.refs(objs)
        for k in range(len(objs)):
            self.check(visits.get(id(objs[k]), 0) <= now[k] - base[k], label)
    def obj(self, name=None):
        o = Elem()
        o.k = len(self.objects)
        val = self.v['vals'].get(str(o.k))
        if val is None:
            self.fresh += 1
            val = self.fresh
        o.val = val
        h = self.v['hashes'].get(str(o.k))
        if h is None: h = self.hv_by_val.get(val)
        if h is None: h = (val * 2654435761 + 12345) % (2**61)
        o.hv = h
        self.objects.append(o)
        return o
    def dying(self, fn, name=None):
        self.obj(name)     # keeps the numbering of the other objects
        return Dying(fn)
    def pred(self, name, o):
        if type(o) is not Elem: return False
        return self.v['preds'].get('%s|%d' % (name, o.k), False)
    def valint(self, o): return o.val
    def assume(self, c):
        if not c: raise Vacuous()
    def check(self, c, label):
        if not c: raise CheckFailed(label)
    def note(self, x): self.notes.append(x)
    def same(self, a, b):
        if a is b: return True
        if type(a) is Elem or type(b) is Elem: return False
        if type(a) is type(b) and type(a) in (int, str, bool, float, bytes): return a == b
        if type(a) is type(b) and type(a) in (tuple, list) and len(a) == len(b):
            return all(self.same(x, y) for x, y in zip(a, b))
        return False
    def all(self, xs):
        r = True
        for x in xs: r = r and bool(x)
        return r
    def any(self, xs):
        r = False
        for x in xs: r = r or bool(x)
        return r
    def not_(self, x): return not x
    def iff(self, a, b): return bool(a) == bool(b)
    def eq(self, a, b): return a == b
    def hash(self, x): return hash(x)
    def ite(self, c, a, b): return a if c else b
