"""Symbolic execution core: depth-first exploration of all feasible paths by re-execution, with z3 deciding
every branch on a symbolic condition.  One engine per process (module global ENG)."""
import time, signal, numbers, operator
import z3

ENG = None          # the active Engine
W = 72              # width of integers in bit-vector mode (values are 64-bit integers, sign extended)


class Control(BaseException):
    """Base of engine control flow; BaseException so that code under test does not swallow it."""
class Infeasible(Control): pass
class PathLimit(Control): pass
class PathTimeout(Control): pass
class Deadline(Control): pass
class EngineError(Control): pass
class Unknown(Control): pass


class Entry:
    __slots__ = ('kind', 'opts', 'idx', 'rest', 'term', 'value', 'seen', 'tag')


class Stats:
    FIELDS = ('queries', 'solver_s', 'branches', 'paths', 'asserts', 'asserts_symbolic', 'infeasible', 'unknown', 'evals')
    def __init__(self):
        for f in self.FIELDS: setattr(self, f, 0)
    def as_dict(self): return {f: getattr(self, f) for f in self.FIELDS}


class Engine:
    def __init__(self, mode='int', timeout_ms=60000):
        self.mode = mode
        self.solver = z3.SolverFor('QF_UFBV') if mode == 'bv' else z3.Solver()
        self.solver.set('timeout', timeout_ms)
        self.trace = []
        self.pos = 0
        self.stats = Stats()
        self.models = []          # models known to satisfy the current path condition
        self.npaths = 0
        self.deadline = None
        self.decided = {}         # conditions already decided on this path
        self.cache = {}           # interned terms, shared by all paths

    # ---- solver -------------------------------------------------------------------------------------------
    def _check(self, *extra):
        if self.deadline is not None and time.time() > self.deadline:
            raise Deadline()
        t = time.time()
        r = self.solver.check(*extra)
        self.stats.solver_s += time.time() - t
        self.stats.queries += 1
        if r == z3.unknown:
            self.stats.unknown += 1
            raise Unknown(self.solver.reason_unknown())
        return r == z3.sat

    def _sat_with(self, c):
        """Is pc and c satisfiable?  Returns a model or None."""
        for m in self.models:
            self.stats.evals += 1
            if z3.is_true(m.eval(c, model_completion=True)):
                return m
        self.solver.push()
        self.solver.add(c)
        try:
            if self._check():
                return self.solver.model()
            return None
        finally:
            self.solver.pop()

    def _commit(self, c, model):
        self.solver.push()
        self.solver.add(c)
        if model is not None:
            keep = [m for m in self.models if m is not model and z3.is_true(m.eval(c, model_completion=True))]
            self.models = [model] + keep[:3]

    # ---- decisions ----------------------------------------------------------------------------------------
    def choose(self, conds, tag=None):
        """conds: z3 Bools, mutually exclusive and exhaustive under pc.  Returns index of the branch taken."""
        if tag == 'b': return self._choose(conds, tag)
        cid = tuple([c.get_id() for c in conds])
        d = self.decided.get(cid)
        if d is not None: return d[0]
        r = self._choose(conds, tag)
        self.decided[cid] = (r, conds)
        return r

    def _choose(self, conds, tag):
        if self.pos < len(self.trace):
            e = self.trace[self.pos]
            if e.kind != 'choose' or e.tag != (len(conds), tag):
                raise EngineError('nondeterministic re-execution: %r vs %r' % ((e.kind, e.tag), (len(conds), tag)))
            self.pos += 1
            return e.idx
        e = Entry(); e.kind = 'choose'; e.opts = conds; e.tag = (len(conds), tag); e.rest = None
        self.stats.branches += 1
        n = len(conds)
        for i in range(n):
            c = conds[i]
            m = self._sat_with(c)
            if m is not None:
                e.idx = i
                self.trace.append(e); self.pos += 1
                self._commit(c, m)
                return i
        raise EngineError('no feasible option (tag %r)' % (tag,))

    def fork(self, cond):
        """cond: z3 Bool; returns a Python bool."""
        if z3.is_true(cond): return True
        if z3.is_false(cond): return False
        cid = cond.get_id()
        d = self.decided.get(cid)
        if d is not None: return d[0]
        if self.pos < len(self.trace):
            e = self.trace[self.pos]
            if e.kind != 'choose' or e.tag != (2, 'b'):
                raise EngineError('nondeterministic re-execution (fork)')
            self.pos += 1
            r = e.idx == 0
        else:
            c = z3.simplify(cond)
            if z3.is_true(c): c, alt = z3.BoolVal(True), z3.BoolVal(False)
            elif z3.is_false(c): c, alt = z3.BoolVal(False), z3.BoolVal(True)
            else: alt = z3.Not(c)
            r = self.choose([c, alt], 'b') == 0
        self.decided[cid] = (r, cond)
        return r

    def assume(self, cond):
        if self.pos < len(self.trace):
            e = self.trace[self.pos]
            if e.kind != 'assume': raise EngineError('nondeterministic re-execution (assume)')
            self.pos += 1
            return
        e = Entry(); e.kind = 'assume'; e.opts = None; e.tag = None; e.idx = 0
        m = self._sat_with(cond)
        if m is None:
            raise Infeasible()
        self.trace.append(e); self.pos += 1
        self._commit(cond, m)

    def concretize(self, term):
        """Pick a value for an Int/BV term, exploring all feasible values one after the other."""
        cid = ('v', term.get_id())
        d = self.decided.get(cid)
        if d is not None: return d[0]
        v = self._concretize(term)
        self.decided[cid] = (v, term)
        return v

    def _concretize(self, term):
        if self.pos < len(self.trace):
            e = self.trace[self.pos]
            if e.kind != 'conc': raise EngineError('nondeterministic re-execution (concretize)')
            self.pos += 1
            return e.value
        e = Entry(); e.kind = 'conc'; e.term = term; e.seen = []; e.tag = None
        self.stats.branches += 1
        if not self.models:
            if not self._check(): raise EngineError('path condition unsat')
            self.models = [self.solver.model()]
        m = self.models[0]
        e.value = _num(m.eval(term, model_completion=True))
        self.trace.append(e); self.pos += 1
        self._commit(term == _lit(term, e.value), m)
        return e.value

    def _backtrack(self):
        while self.trace:
            e = self.trace.pop()
            self.solver.pop()
            self.models = []
            if e.kind == 'choose':
                for i in range(e.idx + 1, len(e.opts)):
                    self.stats.branches += 1
                    m = self._sat_with(e.opts[i])
                    if m is not None:
                        e.idx = i
                        self.trace.append(e)
                        self._commit(e.opts[i], m)
                        return True
            elif e.kind == 'conc':
                e.seen.append(e.value)
                self.stats.branches += 1
                m = self._sat_with(z3.And([e.term != _lit(e.term, v) for v in e.seen]))
                if m is not None:
                    e.value = _num(m.eval(e.term, model_completion=True))
                    self.trace.append(e)
                    self._commit(e.term == _lit(e.term, e.value), m)
                    return True
        return False

    def model(self, extra=None):
        """A model of pc (and extra), or None."""
        if extra is None:
            if self.models: return self.models[0]
            if self._check():
                m = self.solver.model(); self.models = [m]; return m
            return None
        return self._sat_with(extra)

    # ---- exploration --------------------------------------------------------------------------------------
    def explore(self, run, on_path, max_paths=None, path_timeout=60.0):
        """run(): executes one path.  on_path(kind, exc): called at the end of each path, with pc still in place.
        Returns 'complete', 'deadline' or 'limit'."""
        global ENG
        ENG = self
        while True:
            self.pos = 0
            self.decided = {}
            kind, exc = 'ok', None
            if path_timeout:
                signal.signal(signal.SIGALRM, _alarm)
                signal.setitimer(signal.ITIMER_REAL, path_timeout)
            try:
                try:
                    run()
                finally:
                    if path_timeout:
                        signal.setitimer(signal.ITIMER_REAL, 0)
            except Infeasible:
                kind = 'infeasible'; self.stats.infeasible += 1
            except PathTimeout:
                kind = 'timeout'
            except Deadline:
                return 'deadline'
            except Control:
                raise
            except Exception as ex:
                kind, exc = 'exc', ex
            except RecursionError as ex:
                kind, exc = 'exc', ex
            if kind != 'infeasible':
                self.stats.paths += 1
                try:
                    stop = on_path(kind, exc)
                except Deadline:
                    return 'deadline'
                if stop: return 'stopped'
            try:
                if not self._backtrack():
                    return 'complete'
            except Deadline:
                return 'deadline'
            if max_paths and self.stats.paths >= max_paths:
                return 'limit'


def _alarm(sig, frm):
    raise PathTimeout()


def _num(v):
    if z3.is_bv_value(v):
        n = v.as_signed_long()
        return n
    if z3.is_int_value(v):
        return v.as_long()
    raise EngineError('not a numeral: %s' % v)


def _lit(term, value):
    if z3.is_bv(term):
        return z3.BitVecVal(value, term.size())
    return z3.IntVal(value)


# ------------------------------------------------------------------------------------------------------------
class SymBool:
    __slots__ = ('e',)
    def __init__(self, e): self.e = e
    def __bool__(self):
        d = ENG.decided.get(id(self))
        if d is not None: return d[0]
        r = ENG.fork(self.e)
        ENG.decided[id(self)] = (r, self)
        return r
    def __and__(self, o): return mkbool(z3.And(self.e, bterm(o)))
    __rand__ = __and__
    def __or__(self, o): return mkbool(z3.Or(self.e, bterm(o)))
    __ror__ = __or__
    def __xor__(self, o): return mkbool(z3.Xor(self.e, bterm(o)))
    __rxor__ = __xor__
    def __invert__(self): return mkbool(z3.Not(self.e))
    def __eq__(self, o):
        if isinstance(o, (SymBool, bool)): return mkbool(self.e == bterm(o))
        return bool(self) == o
    def __ne__(self, o):
        if isinstance(o, (SymBool, bool)): return mkbool(z3.Xor(self.e, bterm(o)))
        return bool(self) != o
    def __hash__(self): return hash(bool(self))
    def __index__(self): return int(bool(self))
    def __int__(self): return int(bool(self))
    def __add__(self, o): return int(bool(self)) + o
    __radd__ = __add__
    def __repr__(self): return '<symbool>'


def bterm(x):
    if type(x) is SymBool: return x.e
    if x is True: return z3.BoolVal(True)
    if x is False: return z3.BoolVal(False)
    return z3.BoolVal(bool(x))


def mkbool(e):
    if z3.is_true(e): return True
    if z3.is_false(e): return False
    return SymBool(e)


def And(*xs):
    t = []
    for x in xs:
        if x is True: continue
        if x is False: return False
        t.append(bterm(x))
    if not t: return True
    return mkbool(t[0] if len(t) == 1 else z3.And(t))


def Or(*xs):
    t = []
    for x in xs:
        if x is False: continue
        if x is True: return True
        t.append(bterm(x))
    if not t: return False
    return mkbool(t[0] if len(t) == 1 else z3.Or(t))


def Not(x):
    if x is True: return False
    if x is False: return True
    return mkbool(z3.Not(bterm(x)))


INF = float('inf')
BIG = 2**68       # linear forms are kept below this bound, well inside W bits


def _memo(f):
    op = f.__name__
    pure = op in ('__add__', '__sub__', '__rsub__', '__eq__', '__lt__', '__le__')
    def g(self, o):
        if type(o) is int:
            k = (op, o)
            r = self.memo.get(k)
            if r is None:
                r = f(self, o)
                if type(r) is not int: self.memo[k] = r      # an int may stem from a path-dependent concretisation
            return r
        if type(o) is SymInt and pure:
            k = (op, id(o))
            r = self.memo.get(k)
            if r is None:
                r = f(self, o)
                self.memo[k] = (r, o)
                return r
            return r[0]
        return f(self, o)
    return g


class SymInt:
    """A symbolic Python integer with a conservative interval [lo, hi]."""
    __slots__ = ('e', 'lo', 'hi', 'memo', 'lin')

    def __init__(self, e, lo=-INF, hi=INF, lin=None):
        self.e = e; self.lo = lo; self.hi = hi; self.memo = {}
        self.lin = lin          # (root, a, b): the value is exactly a * root + b
    def linear(self, e, a, b, lo, hi):
        """The SymInt a * self + b (term e), keeping the linear form over the root variable when nothing can wrap."""
        if lo == hi: return lo
        if lo < -BIG or hi > BIG or self.lo < -BIG or self.hi > BIG: return mkint(e, lo, hi)
        r, ra, rb = self.lin or (self, 1, 0)
        return SymInt(e, lo, hi, (r, a * ra, a * rb + b))

    # -- conversion to a concrete value (explores every feasible value)
    def __index__(self):
        d = ENG.decided.get(id(self))
        if d is not None: return d[0]
        v = ENG.concretize(self.e)
        ENG.decided[id(self)] = (v, self)
        return v
    def conc(self): return self.__index__()
    def eqs(self, j):
        """z3 term self == j, interned."""
        t = self.memo.get(('==t', j))
        if t is None:
            if self.lo > j or self.hi < j: t = z3.BoolVal(False)
            elif self.lin is not None:
                r, a, b = self.lin
                t = r.eqs((j - b) // a) if (j - b) % a == 0 else z3.BoolVal(False)
            else: t = self.e == j
            self.memo[('==t', j)] = t
        return t
    def __int__(self): return self.conc()
    def __trunc__(self): return self.conc()
    def __float__(self): return float(self.conc())
    def __hash__(self): return hash(self.conc())
    def __bool__(self): return bool(self != 0)
    def __repr__(self): return '<symint>'
    __str__ = __repr__
    def __format__(self, spec): return '<symint>'

    # -- arithmetic
    @_memo
    def __add__(self, o):
        if not isint(o): return self._fallback(operator.add, o)
        if type(o) is int: return self if o == 0 else self.linear(self.e + term(o), 1, o, self.lo + o, self.hi + o)
        return mkint(self.e + term(o), self.lo + ilo(o), self.hi + ihi(o))
    def __radd__(self, o):
        if not isint(o): return self._rfallback(operator.add, o)
        return self + o
    @_memo
    def __sub__(self, o):
        if not isint(o): return self._fallback(operator.sub, o)
        if type(o) is int: return self if o == 0 else self.linear(self.e - term(o), 1, -o, self.lo - o, self.hi - o)
        return mkint(self.e - term(o), self.lo - ihi(o), self.hi - ilo(o))
    @_memo
    def __rsub__(self, o):
        if not isint(o): return self._rfallback(operator.sub, o)
        return mkint(term(o) - self.e, ilo(o) - self.hi, ihi(o) - self.lo)
    def __neg__(self): return mkint(-self.e, -self.hi, -self.lo)
    def __pos__(self): return self
    def __abs__(self):
        if self < 0: return -self
        return self
    def __invert__(self): return mkint(-self.e - 1, -self.hi - 1, -self.lo - 1)
    @_memo
    def __mul__(self, o):
        if type(o) is int:
            if o == 0: return 0
            if o == 1: return self
            b = sorted((_mul(self.lo, o), _mul(self.hi, o)))
            return self.linear(self.e * term(o), o, 0, b[0], b[1])
        if type(o) is SymInt: return self * o.conc()
        return self._fallback(operator.mul, o)
    def __rmul__(self, o):
        if type(o) is int: return self * o
        return self._rfallback(operator.mul, o)
    @_memo
    def __floordiv__(self, o):
        if type(o) is SymInt: o = o.conc()
        if type(o) is int and o > 0:
            lo = self.lo // o if self.lo != -INF else -INF
            hi = self.hi // o if self.hi != INF else INF
            if lo == hi: return lo
            if self.lin is not None:
                r, a, b = self.lin
                if a % o == 0:        # floor((a*r + b) / o) = (a/o)*r + floor(b/o)
                    if a == o and b // o == 0: return r if (r.lo, r.hi) == (lo, hi) else narrow(r, lo, hi)
                    return SymInt(r.e * term(a // o) + term(b // o), lo, hi, (r, a // o, b // o))
            if ENG.mode == 'int': return mkint(self.e / term(o), lo, hi)
            if o & (o - 1) == 0: return mkint(self.e >> (o.bit_length() - 1), lo, hi)
            q = self.e / term(o)
            return mkint(z3.If(z3.And(z3.SRem(self.e, term(o)) < 0), q - 1, q), lo, hi)
        return self._fallback(operator.floordiv, o)
    @_memo
    def __mod__(self, o):
        if type(o) is SymInt: o = o.conc()
        if type(o) is int and o > 0:
            if self.lo >= 0 and self.hi < o: return self
            if self.lo > -BIG and self.hi < BIG and self.lo // o == self.hi // o: return self - self.lo // o * o
            if ENG.mode == 'int': return mkint(self.e % term(o), 0, o - 1)
            if o & (o - 1) == 0: return mkint(self.e & (o - 1), 0, o - 1)
            return mkint(self.e % term(o), 0, o - 1)      # bvsmod: sign follows divisor
        return self._fallback(operator.mod, o)
    def __divmod__(self, o): return (self // o, self % o)
    def __rfloordiv__(self, o): return o // self.conc()
    def __rmod__(self, o): return o % self.conc()
    def __truediv__(self, o): return self.conc() / (o.conc() if type(o) is SymInt else o)
    def __rtruediv__(self, o): return o / self.conc()
    def __pow__(self, o, m=None): return pow(self.conc(), o.conc() if type(o) is SymInt else o, m)
    def __rpow__(self, o): return o ** self.conc()
    def __lshift__(self, o):
        if type(o) is SymInt: o = o.conc()
        return self * (1 << o)
    def __rlshift__(self, o): return o << self.conc()
    def __rshift__(self, o):
        if type(o) is SymInt: o = o.conc()
        return self // (1 << o)
    def __rrshift__(self, o): return o >> self.conc()
    @_memo
    def __and__(self, o):
        if type(o) is SymInt:
            if ENG.mode == 'bv': return mkint(self.e & o.e)
            o = o.conc()
        if type(o) is int:
            if o >= 0 and (o & (o + 1)) == 0: return self % (o + 1)
            if ENG.mode == 'bv': return mkint(self.e & term(o), 0 if o >= 0 else -INF, o if o >= 0 else INF)
            if o < 0 and ((~o) & (~o + 1)) == 0: return self - self % (~o + 1)
        return self._fallback(operator.and_, o)
    __rand__ = __and__
    def __or__(self, o):
        if ENG.mode == 'bv' and isint(o): return mkint(self.e | term(o))
        return self._fallback(operator.or_, o)
    __ror__ = __or__
    def __xor__(self, o):
        if ENG.mode == 'bv' and isint(o): return mkint(self.e ^ term(o))
        return self._fallback(operator.xor, o)
    __rxor__ = __xor__
    def _fallback(self, op, o):
        if type(o) is SymInt: o = o.conc()
        return op(self.conc(), o)
    def _rfallback(self, op, o): return op(o, self.conc())

    # -- comparison
    @_memo
    def __eq__(self, o):
        if not isint(o):
            if type(o) is float: return self.conc() == o
            return NotImplemented
        if self is o: return True
        if self.lo > ihi(o) or self.hi < ilo(o): return False
        return mkbool(self.e == term(o))
    def __ne__(self, o):
        r = self.__eq__(o)
        return r if r is NotImplemented else Not(r)
    @_memo
    def __lt__(self, o):
        if not isint(o): return self._cmpf(operator.lt, o)
        if self.hi < ilo(o): return True
        if self.lo >= ihi(o): return False
        return mkbool(self.e < term(o))
    @_memo
    def __le__(self, o):
        if not isint(o): return self._cmpf(operator.le, o)
        if self.hi <= ilo(o): return True
        if self.lo > ihi(o): return False
        return mkbool(self.e <= term(o))
    def __gt__(self, o):
        if not isint(o): return self._cmpf(operator.gt, o)
        return Not(self <= o)
    def __ge__(self, o):
        if not isint(o): return self._cmpf(operator.ge, o)
        return Not(self < o)
    def _cmpf(self, op, o):
        if type(o) is float: return op(self.conc(), o)
        return NotImplemented
    def bit_length(self): return self.conc().bit_length()
    @property
    def real(self): return self
    @property
    def imag(self): return 0
    @property
    def numerator(self): return self
    @property
    def denominator(self): return 1
    def __ceil__(self): return self
    def __floor__(self): return self
    def __round__(self, n=None): return self
    def __copy__(self): return self
    def __deepcopy__(self, memo): return self

numbers.Integral.register(SymInt)


def _mul(a, b):
    return a * b if a not in (INF, -INF) else (a if b > 0 else -a)


def isint(x):
    t = type(x)
    return t is int or t is SymInt or t is bool


def ilo(x): return x.lo if type(x) is SymInt else int(x)
def ihi(x): return x.hi if type(x) is SymInt else int(x)


def term(x):
    if type(x) is SymInt: return x.e
    x = int(x)
    if ENG.mode == 'bv': return z3.BitVecVal(x, W)
    return z3.IntVal(x)


def mkint(e, lo=-INF, hi=INF):
    if lo == hi and lo not in (INF, -INF): return lo
    if z3.is_int_value(e) or z3.is_bv_value(e): return _num(e)
    return SymInt(e, lo, hi)


def narrow(x, lo, hi):
    """x, known on this path to lie in [lo, hi]."""
    if type(x) is int or lo > hi: return x
    return lo if lo == hi else SymInt(x.e, lo, hi, x.lin or ((x, 1, 0) if x.lo > -BIG and x.hi < BIG else None))


# ------------------------------------------------------------------------------------------------------------
class ObjSpace:
    """The opaque user objects of a run: object k has identity k, value V_k (equality, order, truth), hash H(V_k)."""
    def __init__(self, eng):
        self.eng = eng
        self.objs = []
        bv = eng.mode == 'bv'
        self.vsort = z3.BitVecSort(16) if bv else z3.IntSort()
        self.hsort = z3.BitVecSort(W) if bv else z3.IntSort()
        self.H = z3.Function('H', self.vsort, self.hsort)
        self.TH = {}
        self.hashed = set()
        self.preds = {}
        self.names = []
        self.on_call = None        # hook(kind): user callback invoked (for fault injection)
        self.vals = {}
        self.fixed = {}

    def new(self, name=None):
        k = len(self.objs)
        o = SymObj(((True, k),))
        self.objs.append(o)
        self.names.append(name or 'o%d' % k)
        return o

    def val(self, k):
        v = self.vals.get(k)
        if v is None:
            c = self.eng.cache
            v = c.get(('V', k))
            if v is None: v = c[('V', k)] = z3.Const('V_%d' % k, self.vsort)
            self.vals[k] = v
        return v

    def hash_term(self, k):
        c = self.eng.cache
        h = c.get(('H', k))
        if h is None:
            h = self.H(self.val(k))
            h = c[('H', k)] = (SymInt(h, -2**63, 2**63 - 1), z3.And(h >= -2**63, h < 2**63, h != -1))
        if k not in self.hashed:
            self.val(k)
            self.hashed.add(k)
            self.eng.assume(h[1])
        return h[0]

    def pred(self, name, k):
        p = self.preds.get((name, k))
        if p is None:
            c = self.eng.cache
            p = c.get(('P', name, k))
            if p is None: p = c[('P', name, k)] = z3.Bool('P_%s_%d' % (name, k))
            self.preds[(name, k)] = p
        return p


OBJ = None     # the active ObjSpace


class SymObj:
    """An opaque object, or one of several (alts: ((cond, k), ...) with exclusive exhaustive conds)."""
    __slots__ = ('alts', '_v', '_o')

    def __init__(self, alts):
        self.alts = alts; self._v = None; self._o = None

    @property
    def k(self):
        """Index of the object; explores the alternatives if there are several."""
        if len(self.alts) == 1: return self.alts[0][1]
        return self.alts[ENG.choose([c for c, _ in self.alts], 'obj')][1]

    def v(self):
        if self._v is None:
            alts = self.alts
            t = OBJ.val(alts[-1][1])
            for c, k in alts[-2::-1] if len(alts) > 1 else ():
                t = z3.If(c, OBJ.val(k), t)
            self._v = t
        return self._v

    def h(self):
        alts = self.alts
        if len(alts) == 1: return OBJ.hash_term(alts[0][1])
        t = OBJ.hash_term(alts[-1][1]).e
        for c, k in alts[-2::-1]:
            t = z3.If(c, OBJ.hash_term(k).e, t)
        return SymInt(t, -2**63, 2**63 - 1)

    def _call(self, kind):
        f = OBJ.on_call
        if f is not None: f(kind, self)

    def __eq__(self, o):
        if type(o) is not SymObj: return NotImplemented
        self._call('eq')
        return obj_eq(self, o)
    def __ne__(self, o):
        if type(o) is not SymObj: return NotImplemented
        self._call('eq')
        return Not(obj_eq(self, o))
    def __lt__(self, o):
        if type(o) is not SymObj: return NotImplemented
        self._call('lt')
        return mkbool(self.v() < o.v())
    def __le__(self, o):
        if type(o) is not SymObj: return NotImplemented
        self._call('lt')
        return mkbool(self.v() <= o.v())
    def __gt__(self, o):
        if type(o) is not SymObj: return NotImplemented
        self._call('lt')
        return mkbool(self.v() > o.v())
    def __ge__(self, o):
        if type(o) is not SymObj: return NotImplemented
        self._call('lt')
        return mkbool(self.v() >= o.v())
    def __bool__(self):
        return ENG.fork(self.v() != 0)
    def __hash__(self):
        self._call('hash')
        return 0
    def __repr__(self): return '<o>'


def canon(o):
    """The canonical wrapper of a single object."""
    return OBJ.objs[o.alts[0][1]] if len(o.alts) == 1 else o


def obj_eq(a, b):
    if len(a.alts) == 1 and len(b.alts) == 1:
        i, j = a.alts[0][1], b.alts[0][1]
        if i == j: return True
        if i > j: i, j, a, b = j, i, b, a
        c = ENG.cache
        r = c.get(('=', i, j))
        if r is None:
            r = c[('=', i, j)] = mkbool(a.v() == b.v())
        else:
            a.v(); b.v()
        return r
    return mkbool(a.v() == b.v())


def obj_is(a, b):
    if len(a.alts) == 1 and len(b.alts) == 1: return a.alts[0][1] == b.alts[0][1]
    bm = {}
    for c, k in b.alts: bm[k] = c
    ors = []
    ks = 0
    for c, k in a.alts:
        if k in bm:
            ks += 1
            c2 = bm[k]
            if c is True: ors.append(bterm(True) if c2 is True else c2)
            elif c2 is True: ors.append(c)
            elif c is c2 or c.eq(c2): ors.append(c)
            else: ors.append(z3.And(c, c2))
    if not ors: return False
    if ks == len(a.alts) == len(b.alts):
        # same support: complement may be shorter, but keep it simple
        pass
    return mkbool(z3.Or(ors) if len(ors) > 1 else ors[0])


def obj_ite(cond, a, b):
    """cond: z3 Bool."""
    if a is b or (len(a.alts) == 1 and len(b.alts) == 1 and a.alts[0][1] == b.alts[0][1]): return a
    if z3.is_true(cond): return a
    if z3.is_false(cond): return b
    m = {}
    nc = z3.Not(cond)
    for c, k in a.alts:
        m[k] = cond if c is True else z3.And(cond, c)
    for c, k in b.alts:
        x = nc if c is True else z3.And(nc, c)
        m[k] = z3.Or(m[k], x) if k in m else x
    return SymObj(tuple((c, k) for k, c in m.items()))


def obj_select(pairs):
    """pairs: [(cond, SymObj)] exclusive, exhaustive."""
    m = {}
    for c, o in pairs:
        for c2, k in o.alts:
            x = c if c2 is True else z3.And(c, c2)
            m.setdefault(k, []).append(x)
    if len(m) == 1:
        k = next(iter(m))
        return OBJ.objs[k]
    return SymObj(tuple((z3.Or(cs) if len(cs) > 1 else cs[0], k) for k, cs in m.items()))
