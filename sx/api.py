"""What harnesses may use, independent of symbolic or concrete execution.  No z3 here: also imported by the native replay."""


class UserError(Exception):
    """Raised by user callbacks when a fault is injected."""


class Outcome:
    """Result of an attempted operation: value, or the exception it raised."""
    def __init__(self, value=None, exc=None):
        self.value = value; self.exc = exc
    @property
    def ok(self): return self.exc is None
    @property
    def err(self): return None if self.exc is None else type(self.exc).__name__
    def __repr__(self): return 'ok' if self.ok else 'raised ' + self.err


class CtxBase:
    """Harness context.  Subclasses provide int/bool/obj/pred/check/assume/same/hash/refcount."""
    backend = 'py'

    def attempt(self, fn, *args, **kw):
        try:
            return Outcome(fn(*args, **kw))
        except Exception as e:
            e.__traceback__ = None
            return Outcome(exc=e)

    def pvector(self, *a): return self.pvector_of(self.backend, *a)

    def choice(self, name, options):
        """One of the options, explored completely."""
        options = list(options) if not isinstance(options, int) else list(range(options))
        if len(options) == 1: return options[0]
        return options[self.pick(self.int(name, 0, len(options) - 1))]

    def objs(self, prefix, n):
        return [self.obj('%s%d' % (prefix, i)) for i in range(n)]

    def limit_hash(self, objs, mod, n):
        """Bound: the hash of these objects modulo mod is below n."""
        for o in objs: self.assume(self.hash(o) % mod < n)

    # ---- fault injection
    fault_at = None
    fault_n = 0
    def arm_fault(self, name='fault', limit=40):
        """From now on the call number <fault> of any user callback raises UserError (explored for every index)."""
        self.fault_at = self.int(name, 0, limit)
        self.fault_n = 0
        self.fault_hit = False
    def disarm_fault(self):
        self.fault_at = None
    def tick(self, kind='call'):
        """Called at the start of each user callback."""
        if self.fault_at is None: return
        n = self.fault_n
        self.fault_n = n + 1
        if self.fault_hit: return
        if self.fault_at == n:
            self.fault_hit = True
            raise UserError(kind)

    def check_outcomes(self, a, b, label, conv=None):
        """Two outcomes agree: same exception type, or same value (compared by conv or identity)."""
        if a.ok != b.ok:
            self.check(False, '%s: %r vs %r' % (label, a, b))
        elif not a.ok:
            self.check(a.err == b.err, '%s: %r vs %r' % (label, a, b))
        else:
            (conv or self.check_same)(a.value, b.value, label)

    def check_same(self, a, b, label):
        self.check(self.same(a, b), label)

    def check_seq(self, xs, ys, label):
        """Same length and identical elements, position by position."""
        xs = list(xs); ys = list(ys)
        if len(xs) != len(ys):
            self.check(False, label + ': length %d, expected %d' % (len(xs), len(ys)))
            return
        self.check(self.all([self.same(a, b) for a, b in zip(xs, ys)]), label)


class Harness:
    def __init__(self, name, fn, tasks, mode='int', backends=('py',), native=('py', 'c'), setup=None, scan=None,
                 path_timeout=60, max_witness=4, note='', quick_limit=None):
        self.name = name; self.fn = fn; self.tasks = tasks; self.mode = mode
        self.backends = backends        # what is executed symbolically: 'py' sources, 'c' = LLVM IR, 'both' = product
        self.native = native            # backends under which witnesses are replayed
        self.setup = setup; self.scan = scan; self.path_timeout = path_timeout
        self.max_witness = max_witness; self.note = note


def T(quick, thorough=None):
    """Task lists per tier."""
    return lambda tier: quick if tier == 'quick' else (thorough if thorough is not None else quick)
