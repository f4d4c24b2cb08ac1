"""Loads the IR of /repo's C extension and offers it to harnesses as Python classes (symbolic C backend)."""
import os, sys, json, subprocess, weakref
import z3
from . import core, instr, llvm, cheap, native
from .core import SymInt, SymBool, SymObj, mkint
from .cheap import H, Region, BridgeBase, NULLSLOT, to_c, from_c, take, give
from .sym import Fail

NS = None
MOD = None
ENTRY = {}
_ready = False
SLOT = dict(dealloc=48, repr=88, as_number=96, as_sequence=104, as_mapping=112, hash=120, call=128, str=136, traverse=184, clear=192, richcompare=200,
            weaklist=208, iter=216, iternext=224, methods=232)
MODEL_OVER = ('Py_INCREF', 'Py_DECREF', 'Py_XINCREF', 'Py_XDECREF', '_Py_IsImmortal', 'Py_NewRef', '_Py_NewRef', 'Py_XNewRef', '_Py_XNewRef', 'PyObject_CallNoArgs', 'PyObject_CallOneArg')
TYPES = {}
HOSTTYPES = dict(PyList_Type=list, PyTuple_Type=tuple, PySlice_Type=slice, PyLong_Type=int, PyBool_Type=bool, PyDict_Type=dict, PyUnicode_Type=str, PyType_Type=type, PyBaseObject_Type=object,
                 PySet_Type=set, PyFrozenSet_Type=frozenset, PyFloat_Type=float, PyBytes_Type=bytes)
HOSTOBJS = {'_Py_NoneStruct': None, '_Py_TrueStruct': True, '_Py_FalseStruct': False, '_Py_NotImplementedStruct': NotImplemented, '_Py_EllipsisObject': Ellipsis}
PERM = []
PERMIDS = set()


def prepare(scratch):
    """Compile and translate; run the module's init function to get the base state."""
    global NS, MOD
    inc = json.loads(subprocess.check_output([native.PY, '-c', "import sysconfig,json;print(json.dumps(sysconfig.get_paths()['include']))"]))
    text = llvm.make_ir(os.path.join(native.REPO, 'pvectorcmodule.c'), scratch, inc)
    MOD = llvm.Module(text)
    g = llvm.Gen(MOD)
    src = g.run()
    NS = dict(vars(cheap))
    code = compile(src, 'pvectorcmodule.ll', 'exec')
    ext = cheap.externals()
    exec(code, NS)
    for k in MODEL_OVER: NS['F_' + k] = ext['F_' + k]
    for f in MOD.decls | g.called:
        n = 'F_' + g.pyname(f)
        if n not in NS: NS[n] = _missing(f)
    # globals
    for name in MOD.globals:
        ty, init = MOD.globals[name]
        NS['g_' + g.pyname(name)] = _global(name, ty, init is None)
    for name, (ty, init) in MOD.globals.items():
        if init is not None: _init(NS['g_' + g.pyname(name)][0], 0, ty, init, g)
    _freeze()
    H.active = True
    NS['F_PyInit_pvectorc']()
    if H.err is not None: raise RuntimeError('module init failed: %r' % H.err)
    for r in cheap.READY: make_type(r)
    for (n, f, flags) in _methods(cheap.MODDEF[0].m[64] if 64 in cheap.MODDEF[0].m else None):
        fn = _fn(n, f, flags, None)
        setattr(cheap.MODULE_HOST, n, fn); ENTRY[n] = fn
    H.objcount.clear(); H.hosts.clear()
    _freeze()
    H.active = False


def _missing(f):
    def m(*a): cheap.gap('external function ' + f)
    m.sx_missing = f
    return m


def _global(name, ty, ext):
    if ext:
        if name in HOSTTYPES: return (cheap.htype(HOSTTYPES[name]), 0)
        if name in HOSTOBJS:
            v = HOSTOBJS[name]
            r = Region('host', 1 << 62, repr(v)); r.host = v; r.rc = 0
            PERM.append((id(v), r)); PERMIDS.add(id(v))
            return (r, 0)
        r = Region('glob', MOD.size(ty) if ty != ('opaque',) else 8, name)
        if name.startswith('PyExc_'): r.m[0] = (cheap.htype(getattr(__builtins__ if not isinstance(__builtins__, dict) else type('B', (), __builtins__), name[6:])), 0)
        return (r, 0)
    r = Region('glob', MOD.size(ty), name)
    cheap.GLOBALS[name] = r
    return (r, 0)


def _init(r, off, ty, t, g):
    x = t.peek()
    if x == 'zeroinitializer' or x == 'undef':
        t.next(); r.zero.append((off, off + MOD.size(ty))); return
    if ty[0] == 'a' and x and x.startswith('c"'):
        t.next(); r.kind = 'str'; r.host = llvm.cbytes(x); return
    if ty[0] in ('a', 's'):
        t.next()
        i = 0
        while t.peek() not in (']', '}'):
            et = MOD.type(t)
            _init(r, off + (i * MOD.size(ty[2]) if ty[0] == 'a' else MOD.offset(ty, i)), et, t, g)
            i += 1
            t.eat(',')
        t.next()
        return
    g.names = {}
    e = g.value(t, ty)
    r.m[off] = eval(e, NS)


def _freeze():
    """The present state is what every path starts from."""
    H.journal.clear()
    for r in cheap.GLOBALS.values(): r.base = True
    for r in H.regions: r.base = True
    BASE.extend(H.regions)
    H.regions.clear()

BASE = []


# ---- calling into C ------------------------------------------------------------------------------------------
def call(f, *args):
    if H.pending is not None:
        e = H.pending; H.pending = None; raise e
    n = f.__code__.co_argcount
    try: return f(*args[:n])
    finally:
        for p in args:         # arguments nobody kept are forgotten again
            if type(p) is tuple and p[0].kind == 'host' and p[0].rc == 0 and id(p[0].host) not in PERMIDS and H.hosts.get(id(p[0].host)) is p[0]:
                del H.hosts[id(p[0].host)]

def result(p, what=''):
    if p is None:
        e = H.err
        if e is None: raise SystemError('%s returned NULL without setting an exception' % what)
        H.err = None
        try: raise e
        finally: del e          # no reference cycle through this frame
    if H.err is not None:
        H.err = None
        raise SystemError('%s returned a result with an exception set' % what)
    v = take(p)
    return v

def iresult(n, what=''):
    if H.err is not None and (type(n) is int and n == -1 or type(n) is SymInt and bool(n == -1)):
        e = H.err; H.err = None
        try: raise e
        finally: del e
    return n


def _methods(p):
    out = []
    if p is None: return out
    r, o = p
    while cheap.ldp((r, o)) is not None:
        out.append((cheap.cstr(cheap.ldp((r, o))), cheap.ldp((r, o + 8)), cheap.ldi((r, o + 16), 4)))
        o += 32
    return out


def _fn(name, f, flags, cls):
    flags &= ~0x40
    if flags == 4:
        def m(self=None): return result(call(f, cptr(self), None), name)
    elif flags == 8:
        def m(self, x): return result(call(f, cptr(self), hold(x)), name)
    elif flags == 1:
        def m(self, *a): return result(call(f, cptr(self), hold(a)), name)
        if cls is None:
            def m(*a): return result(call(f, None, hold(a)), name)
    elif flags == 3:
        def m(self, *a, **k): return result(call(f, cptr(self), hold(a), hold(k) if k else None), name)
    elif flags & ~2 == 0x80:
        def m(self, *a, **k):
            if k: cheap.gap('keywords')
            v = cheap.alloca(8 * len(a))
            for i, x in enumerate(a): cheap.st((v[0], 8 * i), hold(x), 8)
            return result(call(f, cptr(self), v, len(a), None), name)
        if cls is None:
            m0 = m
            def m(*a, **k): return m0(None, *a, **k)
    else:
        def m(*a): cheap.gap('method flags %d' % flags)
    m.__name__ = name
    return m


def cptr(x): return None if x is None else (x._sx_region, 0)
def hold(x):
    return to_c(x)


OPNAMES = ['__lt__', '__le__', '__eq__', '__ne__', '__gt__', '__ge__']


def make_type(r):
    name = cheap.cstr(r.m[24]).split('.')[-1]
    s = lambda reg, o: cheap.ldp((reg, o)) if reg is not None else None
    d = {'__slots__': (), '__doc__': name}
    sl = lambda n: s(r, SLOT[n])
    seq = sl('as_sequence'); seq = seq[0] if seq else None
    mp = sl('as_mapping'); mp = mp[0] if mp else None
    num = sl('as_number'); num = num[0] if num else None
    if num is not None: TYPES['number methods'] = True
    ln = s(mp, 0) or s(seq, 0)
    if ln: d['__len__'] = lambda self: iresult(call(ln, cptr(self)))
    sub, item, contains, concat, repeat = s(mp, 8), s(seq, 24), s(seq, 56), s(seq, 8), s(seq, 16)
    if sub: d['__getitem__'] = lambda self, i: result(call(sub, cptr(self), hold(i)), 'subscript')
    elif item:
        def gi(self, i):
            i = i.__index__() if type(i) is not SymInt else i
            if i < 0: i = i + iresult(call(ln, cptr(self)))
            return result(call(item, cptr(self), i), 'item')
        d['__getitem__'] = gi
    ass = s(mp, 16)
    if ass:
        d['__setitem__'] = lambda self, i, v: none(call(ass, cptr(self), hold(i), hold(v)))
        d['__delitem__'] = lambda self, i: none(call(ass, cptr(self), hold(i), None))
    if concat: d['__add__'] = lambda self, o: result(call(concat, cptr(self), hold(o)), 'concat')
    if repeat:
        def mul(self, n):
            if not cheap.isidx(n): return NotImplemented
            n = cheap.toidx(n)
            if type(n) is int and not -2**63 <= n < 2**63: raise OverflowError('cannot fit')
            return result(call(repeat, cptr(self), n), 'repeat')
        d['__mul__'] = d['__rmul__'] = mul
    it, nx = sl('iter'), sl('iternext')
    if it: d['__iter__'] = (lambda self: self) if it is cheap.F_PyObject_SelfIter else (lambda self: result(call(it, cptr(self)), 'iter'))
    if nx:
        def next_(self):
            p = call(nx, cptr(self))
            if p is None and H.err is None: raise StopIteration
            return result(p, 'next')
        d['__next__'] = next_
    if contains: d['__contains__'] = lambda self, x: bool(iresult(call(contains, cptr(self), hold(x))) == 1)
    elif it:
        def has(self, x):
            for y in self:
                c = instr.sx_is(y, x)
                if c is not False and bool(c): return True
                if bool(y == x): return True
            return False
        d['__contains__'] = has
    h = sl('hash')
    if h: d['__hash__'] = lambda self: iresult(call(h, cptr(self)))
    rp = sl('repr')
    if rp: d['__repr__'] = lambda self: result(call(rp, cptr(self)), 'repr')
    rc = sl('richcompare')
    if rc:
        def mk(op):
            def cmp(self, o):
                p = call(rc, cptr(self), hold(o), op)
                return result(p, 'comparison')
            return cmp
        for i, n in enumerate(OPNAMES): d[n] = mk(i)
    for n, f, fl in _methods(sl('methods')): d[n] = _fn(n, f, fl, name)
    d['__del__'] = _del
    cls = type(name, (BridgeBase,), d)
    cls.__module__ = 'pvectorc'
    cheap.BRIDGE_TYPES[r] = cls
    cheap.BRIDGE_TYPES_INV[cls] = r
    TYPES[name] = cls
    if name == 'PVector':
        from pyrsistent import PVector
        PVector.register(cls)
    return cls


def none(n): iresult(n, '')


def _del(self):
    if self._sx_epoch != H.epoch or not H.active: return
    try: cheap.F_Py_DECREF((self._sx_region, 0))
    except BaseException as e:
        if H.pending is None: H.pending = e


def bridge_of(r):
    b = r.bridge() if r.bridge is not None else None
    if b is None or b._sx_epoch != H.epoch:
        tp = r.m[8][0]
        cls = cheap.BRIDGE_TYPES.get(tp)
        if cls is None: cheap.gap('object of unknown type')
        b = object.__new__(cls)
        b._sx_region = r; b._sx_epoch = H.epoch
        r.bridge = weakref.ref(b)
        cheap.F_Py_INCREF((r, 0))
    return b

cheap.bridge_of = bridge_of


# ---- per path ------------------------------------------------------------------------------------------------
def begin_path(ctx):
    H.epoch += 1
    cheap.restore()
    H.err = None; H.objcount = {}; H.dying = {}; H.hosts = {}; H.regions = []; H.pending = None; H.freed = 0
    for k, r in PERM: H.hosts[k] = r
    H.active = True
    ctx.c = sys.modules[__name__]


def end_path(ctx):
    H.active = False


def check_pending():
    if H.pending is not None:
        e = H.pending; H.pending = None; raise e


def pvector(*a): return ENTRY['pvector'](*a)


def covered(): return set(cheap.COV)


# ---- ownership -----------------------------------------------------------------------------------------------
class Count:
    """Number of references as a constant plus indicator terms of conditions."""
    __slots__ = ('c', 'm')
    def __init__(self): self.c = 0; self.m = {}
    def add(self, cond, n):
        if cond is True or z3.is_true(cond): self.c += n; return
        if z3.is_false(cond): return
        if z3.is_not(cond):
            self.c += n; cond = cond.arg(0); n = -n
        e = self.m.get(cond.get_id())
        if e is None: self.m[cond.get_id()] = [n, cond]
        else:
            e[0] += n
            if e[0] == 0: del self.m[cond.get_id()]
    def minus(self, o):
        for n, c in o.m.values(): self.add(c, -n)
        self.c -= o.c
        return self
    def bits(self):
        w = (abs(self.c) + sum(abs(n) for n, _ in self.m.values())).bit_length() + 2
        v = lambda n: z3.BitVecVal(n, w)
        t = v(self.c)
        for n, c in self.m.values(): t = t + z3.If(c, v(n), v(0))
        return t
    def zero(self): return core.mkbool(self.bits() == 0) if self.m else self.c == 0
    def nonneg(self): return core.mkbool(self.bits() >= 0) if self.m else self.c >= 0


def owned_counts():
    """Per user object: references owned by C objects."""
    return _totals([(o, n) for o, n in H.objcount.values()])


def _totals(pairs):
    t = {}
    for o, n in pairs:
        if n == 0: continue
        for c, k in o.alts:
            e = t.get(k)
            if e is None: e = t[k] = Count()
            e.add(c, n)
    return t


def balance(ctx, label='ownership'):
    """Nothing is held any more: every count is back where it started, all memory has been given back."""
    check_pending()
    for k, n in owned_counts().items():
        ctx.check(n.zero(), label + ': references to an element')
    for r in H.hosts.values():
        if isinstance(r.host, cheap.IMMORTAL) or callable(r.host) or isinstance(r.host, type(sys)): continue
        ctx.check(r.rc == 0, label + ': references to an argument or result (%s)' % r.name)
    reach = _reachable()
    for r in H.regions:
        if r.alive and r.kind in ('mem', 'obj'):
            ctx.check(id(r) in reach, label + ': leaked memory (%s)' % r.name)
    for r in BASE:
        if r.kind == 'obj': ctx.check(r.alive and r.rc == _base_rc(r), label + ': shared object')


_RC = {}
def _base_rc(r):
    # reference count in the base state: undo log entry, or unchanged
    for q, o, v in H.journal:
        if q is r and o == 'rc': return v
    return r.rc


def _reachable():
    seen = set()
    todo = list(cheap.GLOBALS.values())
    for r in todo: seen.add(id(r))
    while todo:
        r = todo.pop()
        if not r.alive: continue
        for v in r.m.values():
            if type(v) is tuple and len(v) == 2 and id(v[0]) not in seen:
                seen.add(id(v[0])); todo.append(v[0])
    return seen


def gc_check(ctx, label='garbage collector'):
    """The collector hears of no more references than are owned."""
    objs, regs = [], {}
    live = [r for r in H.regions + BASE if r.kind == 'obj' and r.alive]
    def visit(p, arg):
        if type(p) is SymObj: objs.append((p, 1))
        elif p is not None: regs[id(p[0])] = (p[0], regs.get(id(p[0]), (None, 0))[1] + 1)
        return 0
    for r in live:
        if not r.tracked: continue
        f = r.m[8][0].m.get(SLOT['traverse'])
        if f is not None: call(f, (r, 0), visit, None)
    for r in H.hosts.values():
        if r.owned and r.rc > 0:
            for x in cheap.tup(r):
                if x is not NULLSLOT: visit(to_c(x), None)
    own = owned_counts()
    for k, n in _totals(objs).items():
        ctx.check((own.get(k) or Count()).minus(n).nonneg(), label + ': element visited more often than it is owned')
    for r, n in regs.values():
        if r.kind in ('obj', 'host'):
            extra = 1 if r.kind == 'obj' and r.bridge is not None and r.bridge() is not None and r.bridge()._sx_epoch == H.epoch else 0
            ctx.check(n <= r.rc - extra, label + ': object visited more often than it is owned')
