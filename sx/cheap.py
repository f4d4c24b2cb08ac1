"""Symbolic heap and model of the CPython API, under which the translated IR of pvectorcmodule.c runs.

Values: integers are Python ints (signed, in range of their width) or SymInt; i1 is bool/SymBool; pointers are None (NULL),
(Region, offset), SP (region with symbolic offset), SymObj (an opaque user object, possibly one of several), or a Python
function (code pointer).  Every access is checked: null, dead or uninitialised memory and out-of-bounds offsets are failures."""
import operator, re, types, importlib
import z3
from . import core, instr
from .core import SymInt, SymBool, SymObj, mkint, mkbool, W, Control, obj_ite, obj_select, obj_is
from .sym import Fail

COV = set()


class Region:
    __slots__ = ('size', 'm', 'zero', 'kind', 'rc', 'base', 'host', 'name', 'tracked', 'bridge', 'owned', 'alive', 'first', '__weakref__')
    def __init__(self, kind, size, name='', zero=False):
        self.kind = kind; self.size = size; self.name = name
        self.m = {}
        self.zero = [(0, size)] if zero else []
        self.rc = 1; self.base = False; self.host = None; self.tracked = False; self.bridge = None; self.owned = False; self.alive = True; self.first = None
    def __repr__(self): return '<%s %s>' % (self.kind, self.name)


class SP:
    """Pointer with a symbolic offset."""
    __slots__ = ('r', 'o')
    def __init__(self, r, o): self.r = r; self.o = o


class Heap:
    """Everything that changes while C code runs; reset to the base state at the start of each path."""
    def __init__(self):
        self.journal = []
        self.err = None
        self.objcount = {}      # id(SymObj) -> [obj, C-owned references]
        self.dying = {}         # id(SymObj) -> destructor
        self.hosts = {}         # id(host value) -> Region
        self.regions = []       # allocated on this path
        self.epoch = 0
        self.active = False
        self.pending = None
        self.freed = 0

H = Heap()
MISSING = object()
GLOBALS = {}          # name -> Region
HTYPES = {}           # python type -> Region


class EngineGap(Control):
    """Something the model does not cover."""


def gap(msg): raise core.EngineError('C model: ' + msg)
def unsupported(msg): gap('unsupported instruction: ' + msg)
def unreachable(): raise Fail('memory: unreachable code executed')
def bad(msg): raise Fail('memory: ' + msg)


# ---- integers ------------------------------------------------------------------------------------------------
def wrap(x, w):
    h = 1 << (w - 1)
    if type(x) is int:
        if -h <= x < h: return x
        x &= (1 << w) - 1
        return x - (1 << w) if x >= h else x
    if type(x) is SymInt:
        if x.lo >= -h and x.hi < h: return x
        r = x.memo.get(('wrap', w))
        if r is None:
            if core.ENG.mode == 'bv': e = z3.SignExt(W - w, z3.Extract(w - 1, 0, x.e))
            else: e = (x.e + h) % (1 << w) - h
            r = x.memo[('wrap', w)] = SymInt(e, -h, h - 1)
        return r
    if type(x) is bool: return int(x)
    if type(x) is PInt and w == 64: return x
    gap('wrap of %r' % (x,))


def uns(x, w):
    """Unsigned reading of a w-bit value."""
    if type(x) is int: return x if x >= 0 else x + (1 << w)
    if type(x) is SymInt:
        if x.lo >= 0: return x
        r = x.memo.get(('uns', w))
        if r is None:
            r = x.memo[('uns', w)] = SymInt(z3.If(x.e < 0, x.e + core._lit(x.e, 1 << w), x.e), 0, (1 << w) - 1)
        return r
    gap('unsigned of %r' % (x,))


def _i1(x): return x if type(x) in (bool, SymBool) else x != 0
def i_and(a, b, w): return wrap(a & b, w) if w > 1 else core.And(_i1(a), _i1(b))
def i_or(a, b, w): return wrap(a | b, w) if w > 1 else core.Or(_i1(a), _i1(b))
def i_xor(a, b, w):
    if w > 1: return wrap(a ^ b, w)
    a, b = _i1(a), _i1(b)
    if type(b) is bool: a, b = b, a
    return (core.Not(b) if a else b) if type(a) is bool else a ^ b
def i_add(a, b, w): return wrap(a + b, w)
def i_sub(a, b, w): return wrap(a - b, w)
def i_mul(a, b, w): return wrap(a * b, w)
def _sh(b, w):
    if type(b) is SymInt: b = b.conc()
    if not 0 <= b < w: bad('shift by %d' % b)
    return b
def i_shl(a, b, w): return wrap(a * (1 << _sh(b, w)), w)
def i_lshr(a, b, w): return wrap(uns(a, w) >> _sh(b, w), w)
def i_ashr(a, b, w): return a >> _sh(b, w)
def i_udiv(a, b, w):
    if b == 0: bad('division by zero')
    return wrap(uns(a, w) // uns(b, w), w)
def i_urem(a, b, w):
    if b == 0: bad('division by zero')
    return wrap(uns(a, w) % uns(b, w), w)
def i_sdiv(a, b, w):
    if b == 0: bad('division by zero')
    if type(b) is SymInt: b = b.conc()
    if type(a) is int:
        q = abs(a) // abs(b)
        return wrap(q if (a < 0) == (b < 0) else -q, w)
    if core.ENG.mode == 'bv': return wrap(mkint(a.e / core.term(b)), w)
    if a < 0: return wrap(-((-a) // b), w) if b > 0 else wrap((-a) // (-b), w)
    return wrap(a // b, w) if b > 0 else wrap(-(a // (-b)), w)
def i_srem(a, b, w):
    if type(b) is SymInt: b = b.conc()
    return wrap(a - i_sdiv(a, b, w) * b, w)
def b2i(x):
    if type(x) is SymBool: return mkint(z3.If(x.e, core.term(1), core.term(0)), 0, 1)
    return 1 if x else 0
def i2b(x): return (x & 1) != 0
def iselect(c, a, b):
    if type(c) is not SymBool: return a if c else b
    return mkint(z3.If(c.e, core.term(a), core.term(b)), min(core.ilo(a), core.ilo(b)), max(core.ihi(a), core.ihi(b)))


def F_llvm_expect(a, b): return a
F_llvm_expect_with_probability = lambda a, b, c: a
def F_llvm_smin(a, b, w): return iselect(a < b, a, b)
def F_llvm_smax(a, b, w): return iselect(a > b, a, b)
def F_llvm_umin(a, b, w): return iselect(uns(a, w) < uns(b, w), a, b)
def F_llvm_umax(a, b, w): return iselect(uns(a, w) > uns(b, w), a, b)
def F_llvm_abs(a, poison, w): return iselect(a < 0, wrap(-a, w), a)
def _bits(a, w): return uns(a.conc() if type(a) is SymInt else a, w)
def F_llvm_ctpop(a, w): return wrap(bin(_bits(a, w)).count('1'), w)
def F_llvm_ctlz(a, poison, w): return w - _bits(a, w).bit_length()
def F_llvm_cttz(a, poison, w):
    a = _bits(a, w)
    return w if a == 0 else (a & -a).bit_length() - 1
def _ovf(op, signed):
    def f(a, b, w):
        x = op(a, b) if signed else op(uns(a, w), uns(b, w))
        lo, hi = (-(1 << (w - 1)), (1 << (w - 1)) - 1) if signed else (0, (1 << w) - 1)
        return (wrap(x, w), core.Or(x < lo, x > hi))
    return f
F_llvm_sadd_with_overflow, F_llvm_ssub_with_overflow, F_llvm_smul_with_overflow = [_ovf(f, True) for f in (operator.add, operator.sub, operator.mul)]
F_llvm_uadd_with_overflow, F_llvm_usub_with_overflow, F_llvm_umul_with_overflow = [_ovf(f, False) for f in (operator.add, operator.sub, operator.mul)]


class PInt:
    """A pointer read as an integer: differences within one region, comparisons and round trips are covered."""
    __slots__ = ('p',)
    def __init__(self, p): self.p = p
    def _o(self):
        p = self.p
        return (p.r, p.o) if type(p) is SP else p if type(p) is tuple and len(p) == 2 else (p, 0)
    def __sub__(self, b):
        if type(b) is PInt:
            (r, o), (q, s) = self._o(), b._o()
            if r is not q: gap('difference of unrelated pointers')
            return o - s
        return PInt(gep(self.p, -b))
    def __add__(self, b):
        if type(b) is PInt: gap('sum of pointers')
        return PInt(gep(self.p, b))
    __radd__ = __add__
    def __eq__(self, b): return peq(self.p, b.p) if type(b) is PInt else False if type(b) is int and b == 0 else gap('pointer and integer')
    def __ne__(self, b): return core.Not(self.__eq__(b))
    __hash__ = None
def p2i(p, w): return 0 if p is None else PInt(p)
def i2p(x):
    if type(x) is PInt: return x.p
    if type(x) is int and x == 0: return None
    gap('integer read as a pointer')


# ---- memory --------------------------------------------------------------------------------------------------
def mulsize(n, k): return clen(n) * k
def ldagg(p, shape): return tuple([(ldp if ptr else lambda q: ldi(q, n))(gep(p, o)) for o, n, ptr in shape])
def stagg(p, v, shape):
    for i, (o, n, ptr) in enumerate(shape):
        st(gep(p, o), v[i] if type(v) is tuple else (None if ptr else 0), n)
def aggset(a, k, v):
    a = list(a) if type(a) is tuple else []
    while len(a) <= k: a.append(None)
    a[k] = v
    return tuple(a)
def alloca(n): return (Region('stack', n), 0)


def pselect(c, a, b):
    if type(c) is SymBool and type(a) is SymObj and type(b) is SymObj: return obj_ite(c.e, a, b)
    return a if c else b


def gep(p, o):
    if type(p) is tuple:
        o = p[1] + o
        if type(o) is int: return (p[0], o)
        return SP(p[0], o)
    if type(p) is SP:
        o = p.o + o
        return (p.r, o) if type(o) is int else SP(p.r, o)
    if p is None:
        if type(o) is int and o == 0: return None
        return (NULLR, o) if type(o) is int else SP(NULLR, o)
    if type(p) is SymObj:
        if type(o) is int: return ('u', p, o)
    gap('pointer arithmetic on %r' % (p,))


NULLR = Region('null', 0, 'NULL'); NULLR.alive = False


def peq(a, b):
    if a is b: return True
    if type(a) is tuple and type(b) is tuple: return a[0] is b[0] and a[1] == b[1]
    if type(a) is SymObj and type(b) is SymObj: return obj_is(a, b)
    if type(a) is SP or type(b) is SP:
        (ra, oa), (rb, ob) = [(x.r, x.o) if type(x) is SP else (x if type(x) is tuple else (None, 0)) for x in (a, b)]
        return ra is rb and oa == ob
    return False
def pne(a, b): return core.Not(peq(a, b))
def pcmp(pr, a, b):
    (r, x), (q, y) = [(v.r, v.o) if type(v) is SP else v if type(v) is tuple and len(v) == 2 else (v, 0) for v in (a, b)]
    if r is q:
        return {'ult': operator.lt, 'ule': operator.le, 'ugt': operator.gt, 'uge': operator.ge}[pr](x, y)
    gap('pointer comparison ' + pr)
def fnptr(f):
    if f is None: bad('call through a null pointer')
    if not callable(f): gap('call through %r' % (f,))
    return f


def ldp(p):
    try:
        r, o = p
        return r.m[o]
    except (TypeError, ValueError, KeyError): return ld_slow(p, 8, None)


def ldi(p, n):
    try:
        r, o = p
        return r.m[o]
    except (TypeError, ValueError, KeyError): return ld_slow(p, n, 0)


def _check(r, o, n, what):
    if r is NULLR: bad('%s through a null pointer' % what)
    if not r.alive: bad('%s of freed memory' % what)
    if o < 0 or o + n > r.size: bad('%s out of bounds' % what)


def _zero(r, o, n):
    for lo, hi in r.zero:
        if lo <= o and o + n <= hi: return True
    return False


def ld_slow(p, n, dflt):
    if p is None: bad('read through a null pointer')
    t = type(p)
    if t is SymObj: p = ('u', p, 0)
    if t is tuple or t is SymObj:
        if p[0] == 'u':
            if p[2] == 8: return (htype(SymObj), 0)
            gap('read of a user object at %d' % p[2])
        r, o = p
        k = r.kind
        if k == 'host': return ld_host(r, o)
        if k == 'hosttype': return ld_type(r, o)
        if k == 'items':
            if not r.alive: bad('read of freed memory')
            l = r.host.host
            if o % 8 or not 0 <= o // 8 < len(l): bad('read outside a list')
            v = l[o // 8]
            return None if v is NULLSLOT else to_c(v)
        _check(r, o, n, 'read')
        if o in r.m: return r.m[o]
        if _zero(r, o, n): return dflt
        if k == 'obj' and o == 0: return r.rc
        if k == 'str': return r.host[o] - 256 if r.host[o] > 127 else r.host[o]
        bad('read of uninitialised memory')
    if t is SP:
        r = p.r
        if r.kind == 'host' and type(r.host) in (list, tuple): return _cell(r.host, p.o - 24)
        if r.kind == 'items': return _cell(r.host.host, p.o)
        _inb(r, p.o, n)
        return _select(r, p.o, n, dflt)
    gap('read through %r' % (p,))


def _cell(l, o):
    v = instr.select(l, o // 8)
    return None if v is NULLSLOT else to_c(v)


def _inb(r, o, n):
    if r is NULLR: bad('access through a null pointer')
    if not r.alive: bad('access of freed memory')
    if o.lo < 0 or o.hi + n > r.size:
        if not core.And(o >= 0, o + n <= r.size): bad('access out of bounds')


def _bounds(r, o, n):
    """Multiples of n the offset may take (interval), as list of offsets."""
    lo = max(o.lo, 0); hi = min(o.hi, r.size - n)
    lo = -(-lo // n) * n
    return range(lo, hi + 1, n)


def _groups(r, o, n, dflt):
    """Split the possible cells into one group of user objects and single others."""
    objs, others = [], []
    for c in _bounds(r, o, n):
        v = r.m.get(c, MISSING)
        if v is MISSING: v = dflt if _zero(r, c, n) else MISSING
        (objs if type(v) is SymObj else others).append((c, v))
    return objs, others


def _runs(cells, n):
    out = []
    for c in cells:
        if out and c == out[-1][1] + n: out[-1][1] = c
        else: out.append([c, c])
    return out


def _choose(r, o, n, dflt):
    """Decide which group of cells the offset addresses: returns ('objs', cells) or ('one', offset, value)."""
    objs, others = _groups(r, o, n, dflt)
    conds, res = [], []
    if objs:
        t = z3.Or([z3.And(o.e >= a, o.e <= b) if a != b else o.eqs(a) for a, b in _runs([c for c, _ in objs], n)])
        conds.append(t); res.append(('objs', objs))
    # equal values share a group (e.g. all null cells)
    byval = {}
    for c, v in others: byval.setdefault(id(v) if not isinstance(v, tuple) else (id(v[0]), v[1] if type(v[1]) is int else id(v[1])), (v, []))[1].append(c)
    for v, cs in byval.values():
        if dflt is None and v is None or len(cs) == 1:
            ts = [o.eqs(c) for c in cs]
            conds.append(z3.Or(ts) if len(ts) > 1 else ts[0]); res.append(('one', cs, v))
        else:
            for c in cs: conds.append(o.eqs(c)); res.append(('one', [c], v))
    if len(res) == 1: return res[0]
    key = ('chz', tuple(c.get_id() for c in conds))
    return res[core.ENG.choose(conds, 'mem')]


def _select(r, o, n, dflt):
    g = _choose(r, o, n, dflt)
    if g[0] == 'one':
        if g[2] is MISSING: bad('read of uninitialised memory')
        return g[2]
    cells = g[1]
    by = {}
    for c, v in cells: by.setdefault(id(v), (v, []))[1].append(o.eqs(c))
    if len(by) == 1: return cells[0][1]
    return obj_select([(z3.Or(cs) if len(cs) > 1 else cs[0], v) for v, cs in by.values()])


def st(p, v, n):
    if type(p) is tuple and len(p) == 2:
        r, o = p
        if r.kind in ('host', 'items', 'hosttype', 'str'): return st_host(r, o, v)
        if not r.alive or o < 0 or o + n > r.size: _check(r, o, n, 'write')
        if r.kind == 'obj' and o == 0:
            gap('direct write of a reference count')
        if r.base: H.journal.append((r, o, r.m.get(o, MISSING)))
        r.m[o] = v
        return
    if p is None: bad('write through a null pointer')
    if type(p) is SP:
        r = p.r
        if r.kind == 'items':
            l = instr._LW(r.host.host); l[p.o // 8] = from_c(v)
            return
        if r.kind in ('host', 'hosttype', 'str'): gap('symbolic write to a host object')
        _inb(r, p.o, n)
        g = _choose(r, p.o, n, None if n == 8 else 0)
        if g[0] == 'objs' and type(v) is SymObj:
            for c, old in g[1]:
                st((r, c), obj_ite(p.o.eqs(c), v, old), n)
            return
        cs = g[1] if g[0] == 'one' else [c for c, _ in g[1]]
        c = cs[0] if len(cs) == 1 else p.o.conc()
        st((r, c), v, n)
        return
    if type(p) is SymObj or p[0] == 'u': bad('write into a user object')
    gap('write through %r' % (p,))


def F_llvm_memset(p, v, n, vol=False):
    r, o = flat(p)
    if type(n) is SymInt: n = n.conc()
    if n == 0: return
    _check(r, o, n, 'write')
    if v != 0: gap('memset with a nonzero value')
    _clear(r, o, n)
    r.zero = r.zero + [(o, o + n)]

def flat(p):
    if type(p) is tuple and len(p) == 2: return p
    if p is None: return (NULLR, 0)
    if type(p) is SP: return (p.r, p.o.conc())
    gap('block operation on %r' % (p,))

def _clear(r, o, n):
    if r.base: H.journal.append((r, None, (dict(r.m), list(r.zero))))
    if o == 0 and n == r.size: r.m = {}; r.zero = []; return
    for k in [k for k in r.m if o <= k < o + n]: del r.m[k]
    z = []
    for lo, hi in r.zero:
        if lo < o: z.append((lo, min(hi, o)))
        if hi > o + n: z.append((max(lo, o + n), hi))
    r.zero = z

def F_llvm_memcpy(d, s, n, vol=False):
    if type(n) is SymInt: n = n.conc()
    if n == 0: return
    (rd, od), (rs, os) = flat(d), flat(s)
    if rd.kind in ('host', 'items', 'hosttype') or rs.kind in ('host', 'items'):
        if n % 8 or od % 8 or os % 8: gap('partial copy of a list or tuple')
        vals = [ldp((rs, os + k)) for k in range(0, n, 8)]
        for k, v in enumerate(vals): st((rd, od + 8 * k), v, 8)
        return
    if rs.kind == 'str':
        _check(rs, os, n, 'read'); _check(rd, od, n, 'write')
        for k in range(n): st((rd, od + k), ldi((rs, os + k), 1), 1)
        return
    _check(rs, os, n, 'read'); _check(rd, od, n, 'write')
    cells = {k - os: v for k, v in rs.m.items() if os <= k < os + n}
    zs = [(max(lo, os) - os + od, min(hi, os + n) - os + od) for lo, hi in rs.zero if lo < os + n and hi > os]
    _clear(rd, od, n)
    for k, v in cells.items(): rd.m[od + k] = v
    rd.zero = rd.zero + zs

F_llvm_memmove = F_llvm_memcpy
F_memcpy = F_memmove = lambda d, s, n: (F_llvm_memcpy(d, s, n), d)[1]
def F_memcmp(a, b, n):
    n = clen(n)
    if n % 8: gap('memcmp')
    for k in range(0, n, 8):
        if not peq(ldp(gep(a, k)), ldp(gep(b, k))): return 1      # only the distinction equal / different is modelled
    return 0
F_bcmp = F_memcmp
def F_strlen(p): return len(cstr(p))
def F_strcmp(a, b):
    a, b = cstr(a), cstr(b)
    return (a > b) - (a < b)
def F_abort(): bad('abort')
F_Py_FatalError = F__Py_FatalErrorFunc = lambda *a: bad('fatal error')
F_memset = lambda d, v, n: (F_llvm_memset(d, v, n), d)[1]


def cstr(p):
    r, o = p
    if r.kind != 'str': gap('string')
    return r.host[o:].split(b'\0')[0].decode('latin-1')


def newregion(kind, size, name='', zero=False):
    r = Region(kind, size, name, zero)
    H.regions.append(r)
    return r


def F_PyMem_Malloc(n):
    if type(n) is SymInt: n = n.conc()
    return (newregion('mem', n, 'malloc'), 0)
def F_PyMem_Calloc(k, n):
    return (newregion('mem', k * n, 'calloc', True), 0)
def F_PyMem_Free(p):
    if p is None: return
    r, o = p
    if r.kind != 'mem' or o != 0: bad('free of something not allocated')
    if not r.alive: bad('double free')
    kill(r)
def F_PyMem_Realloc(p, n):
    if p is None: return F_PyMem_Malloc(n)
    q = F_PyMem_Malloc(n)
    F_llvm_memcpy(q, p, min(n, p[0].size))
    F_PyMem_Free(p)
    return q
F_malloc = F_PyObject_Malloc = F_PyMem_RawMalloc = F_PyMem_Malloc
F_calloc = F_PyObject_Calloc = F_PyMem_RawCalloc = F_PyMem_Calloc
F_free = F_PyObject_Free = F_PyMem_RawFree = F_PyMem_Free
F_realloc = F_PyObject_Realloc = F_PyMem_RawRealloc = F_PyMem_Realloc

def kill(r):
    if r.base: H.journal.append((r, 'kill', (r.m, r.zero, r.tracked)))
    r.alive = False; r.m = {}; r.zero = []; r.tracked = False
    H.freed += 1


# ---- host objects --------------------------------------------------------------------------------------------
NULLSLOT = type('NullSlot', (), {'__repr__': lambda s: '<NULL>'})()
IMMORTAL = (type(None), bool, type(NotImplemented), type(Ellipsis), type)


def htype(T):
    if T is SymInt: T = int
    elif T is SymBool: T = bool
    r = HTYPES.get(T)
    if r is None:
        r = HTYPES[T] = Region('hosttype', 500, T.__name__)
        r.host = T
    return r


def to_c(v):
    """Borrowed C pointer for a host value."""
    if type(v) is SymObj: return v
    r = getattr(v, '_sx_region', None) if isinstance(v, BridgeBase) else None
    if r is not None: return (r, 0)
    if isinstance(v, type):
        c = BRIDGE_TYPES_INV.get(v)
        if c is not None: return (c, 0)
        return (htype(v), 0)
    r = H.hosts.get(id(v))
    if r is None:
        r = Region('host', 1 << 62, type(v).__name__)
        r.host = v; r.rc = 0
        H.hosts[id(v)] = r
    return (r, 0)


def from_c(p):
    """Host value for a (borrowed) C pointer."""
    if type(p) is SymObj: return p
    if p is None: return NULLSLOT
    r, o = p
    if o != 0: gap('interior pointer to host')
    k = r.kind
    if k == 'host' or k == 'hosttype':
        return r.host
    if not r.alive: bad('use of a freed object')
    if k == 'glob' and r in BRIDGE_TYPES: return BRIDGE_TYPES[r]
    if k == 'obj': return bridge_of(r)
    gap('object pointer to %r' % r)


def take(p):
    """Host value for a new reference, which the caller takes over."""
    v = from_c(p)
    F_Py_DECREF(p)
    return v         # a list or tuple made by C now belongs to the caller, a later use of it from C starts afresh


def give(v):
    """New reference to a host value."""
    p = to_c(v)
    F_Py_INCREF(p)
    return p


def ld_host(r, o):
    x = r.host
    if not r.alive: bad('read of a freed object')
    if o == 8: return (htype(type(x)), 0)
    if o == 0: return max(1, r.rc) if not isinstance(x, IMMORTAL) else 0x7fffffff
    if isinstance(x, (list, tuple)):
        if o == 16: return len(x)
        if isinstance(x, list):
            if o == 24:
                if r.first is None:
                    r.first = Region('items', 1 << 62, 'items'); r.first.host = r
                return (r.first, 0)
            if o == 32: return len(x)
        else:
            i = (o - 24) // 8
            if not 0 <= i < len(tup(r)): bad('read outside a tuple')
            v = tup(r)[i]
            return None if v is NULLSLOT else to_c(v)
    gap('read of %s at %d' % (type(x).__name__, o))


def tup(r): return r.first if isinstance(r.first, list) else r.host


def st_host(r, o, v):
    if r.kind == 'items':
        l = r.host.host
        if o % 8 or not 0 <= o // 8 < len(l): bad('write outside a list')
        l[o // 8] = from_c(v)
        return
    if r.kind == 'host' and isinstance(r.host, tuple) and isinstance(r.first, list):
        i = (o - 24) // 8
        if not 0 <= i < len(r.first): bad('write outside a tuple')
        r.first[i] = from_c(v)
        if not any([x is NULLSLOT for x in r.first]): _seal(r)
        return
    gap('write to a host object (%s at %d)' % (r.name, o))


def _seal(r):
    """A tuple under construction becomes an ordinary one."""
    H.hosts.pop(id(r.host), None)
    r.host = tuple(r.first); r.first = list(r.host)
    H.hosts[id(r.host)] = r


TPFLAGS = {int: 24, list: 25, tuple: 26, bytes: 27, str: 28, dict: 29, BaseException: 30, type: 31}
def ld_type(r, o):
    T = r.host
    if o == 24: return strp(T.__name__)
    if o == 168:
        f = 0
        for b, k in TPFLAGS.items():
            if issubclass(T, b): f |= 1 << k
        return wrap(f, 64)
    if o == 224: return host_iternext if hasattr(T, '__next__') else None
    if o == 216: return F_PyObject_GetIter if hasattr(T, '__iter__') else None
    if o == 8: return (htype(type), 0)
    gap('slot %d of type %s' % (o, T.__name__))


_STR = {}
def strp(s):
    r = _STR.get(s)
    if r is None:
        r = _STR[s] = Region('str', len(s) + 1, repr(s))
        r.host = s.encode('latin-1', 'replace') + b'\0'
    return (r, 0)


# ---- references ----------------------------------------------------------------------------------------------
def _jrc(r):
    if r.base: H.journal.append((r, 'rc', r.rc))

def F_Py_INCREF(p):
    if type(p) is SymObj:
        e = H.objcount.get(id(p))
        if e is None: H.objcount[id(p)] = [p, 1]
        else: e[1] += 1
        return
    if p is None: bad('reference count of a null pointer')
    r, o = p
    if o != 0: gap('reference count of an interior pointer')
    if r.kind in ('hosttype', 'glob'): return
    if not r.alive: bad('reference to a freed object')
    if r.kind not in ('obj', 'host'): bad('reference count of something not an object')
    _jrc(r)
    r.rc += 1

def _finalize(f):
    """The last owner lets go of an object with a destructor: it runs with no error set, and the error indicator is kept."""
    err, H.err = H.err, None
    f()
    H.err = err

def F_Py_DECREF(p):
    if type(p) is SymObj:
        e = H.objcount.get(id(p))
        if e is None: H.objcount[id(p)] = [p, -1]
        elif e[1] == 1:
            del H.objcount[id(p)]
            f = H.dying.get(id(p))
            if f is not None: _finalize(f)
        else: e[1] -= 1
        return
    if p is None: bad('reference count of a null pointer')
    r, o = p
    if o != 0: gap('reference count of an interior pointer')
    if r.kind in ('hosttype', 'glob'): return
    if not r.alive: bad('release of a freed object')
    if r.kind not in ('obj', 'host'): bad('reference count of something not an object')
    if r.kind == 'host' and isinstance(r.host, IMMORTAL): return
    _jrc(r)
    r.rc -= 1
    if r.rc < 0: bad('released more often than owned')
    if r.rc == 0:
        if r.kind == 'obj': F__Py_Dealloc(p)
        elif r.owned:
            r.owned = False
            if H.hosts.get(id(r.host)) is r: del H.hosts[id(r.host)]
            r.alive = False
            for x in list(tup(r)):
                if x is not NULLSLOT: F_Py_DECREF(to_c(x))

def F_Py_XINCREF(p):
    if p is not None: F_Py_INCREF(p)
def F_Py_XDECREF(p):
    if p is not None: F_Py_DECREF(p)
F_Py_IncRef, F_Py_DecRef = F_Py_XINCREF, F_Py_XDECREF
def F__Py_NewRef(p):
    F_Py_INCREF(p); return p
F_Py_NewRef = F__Py_NewRef
def F__Py_XNewRef(p):
    if p is not None: F_Py_INCREF(p)
    return p
F_Py_XNewRef = F__Py_XNewRef
def F__Py_IsImmortal(p): return 0

def F__Py_Dealloc(p):
    r = p[0]
    if not r.alive: bad('deallocation of a freed object')
    tp = r.m[8][0]
    d = tp.m.get(48)
    if d is None: gap('no tp_dealloc')
    d(p)
    if r.alive: bad('object not freed by its deallocator')


def F__PyObject_GC_New(tp):
    t = tp[0]
    n = t.m.get(32)
    r = newregion('obj', n, t.name)
    r.m[8] = tp
    return (r, 0)
F__PyObject_New = F__PyObject_GC_New
def F_PyObject_GC_Track(p):
    r = p[0]
    if r.tracked: bad('object already tracked by the garbage collector')
    if r.base: H.journal.append((r, 'tracked', r.tracked))
    r.tracked = True
def F_PyObject_GC_UnTrack(p):
    r = p[0]
    if not r.alive: bad('untracking a freed object')
    if r.base: H.journal.append((r, 'tracked', r.tracked))
    r.tracked = False
def F_PyObject_GC_IsTracked(p): return 1 if p[0].tracked else 0
def F_PyObject_GC_Del(p):
    r = p[0]
    if not r.alive: bad('double free')
    if r.kind != 'obj': bad('free of something not allocated')
    kill(r)
F_PyObject_Del = F_PyObject_GC_Del
def F_PyObject_ClearWeakRefs(p): pass
def F__PyTrash_cond(a, b): return 0
def F__PyTrash_begin(a, b): return 0
def F__PyTrash_end(a): pass
def F__PyThreadState_UncheckedGet(): return None
F_PyThreadState_GetUnchecked = F_PyThreadState_Get = F__PyThreadState_UncheckedGet
def F_Py_EnterRecursiveCall(m): return 0
def F_Py_LeaveRecursiveCall(): pass
def F_PyErr_CheckSignals(): return 0


# ---- errors --------------------------------------------------------------------------------------------------
def seterr(e):
    e.__traceback__ = None
    H.err = e

def guarded(fn, fail, *args):
    """Run host code; an exception becomes the C error indicator."""
    try: return fn(*args)
    except Exception as e:
        seterr(e)
        return fail

def F_PyErr_Occurred(): return None if H.err is None else (htype(type(H.err)), 0)
def F_PyErr_SetString(t, m): seterr(t[0].host(cstr(m)))
def F_PyErr_SetNone(t): seterr(t[0].host())
def F_PyErr_SetObject(t, v): seterr(t[0].host(from_c(v)))
def F_PyErr_Format(t, m, *a):
    seterr(t[0].host(cstr(m))); return None
def F_PyErr_NoMemory():
    seterr(MemoryError()); return None
def F_PyErr_BadArgument():
    seterr(TypeError('bad argument')); return 0
def F_PyErr_BadInternalCall(): seterr(SystemError('bad internal call'))
def F_PyErr_Clear(): H.err = None
def F_PyErr_ExceptionMatches(t): return 1 if H.err is not None and isinstance(H.err, t[0].host) else 0
def F_PyErr_Fetch(a, b, c):
    e = H.err; H.err = None
    st(a, None if e is None else (htype(type(e)), 0), 8)
    st(b, None if e is None else give(e), 8); st(c, None, 8)
def F_PyErr_Restore(a, b, c):
    H.err = None if a is None else take(b)
def F_PyErr_GetRaisedException():
    e = H.err; H.err = None
    return None if e is None else give(e)
def F_PyErr_SetRaisedException(p): H.err = None if p is None else take(p)
def F_PyErr_GivenExceptionMatches(e, t):
    if e is None: return 0
    x = from_c(e)
    return 1 if (isinstance(x, type) and issubclass(x, t[0].host)) or isinstance(x, t[0].host) else 0


# ---- numbers -------------------------------------------------------------------------------------------------
MAXS = (1 << 63) - 1
def isidx(v): return type(v) in (int, SymInt, bool, SymBool) or (not isinstance(v, BridgeBase) and hasattr(type(v), '__index__') and type(v) is not SymObj)
def toidx(v):
    if type(v) is SymBool: return b2i(v)
    if type(v) is bool: return int(v)
    return v if type(v) in (int, SymInt) else v.__index__()
def F_PyIndex_Check(p): return 1 if isidx(from_c(p)) else 0
def F_PyNumber_Check(p): return 1 if isidx(from_c(p)) else 0
def F_PyNumber_AsSsize_t(p, exc):
    v = from_c(p)
    if not isidx(v):
        seterr(TypeError('not an integer')); return -1
    v = guarded(toidx, None, v)
    if v is None: return -1
    if type(v) is SymInt and v.lo >= -MAXS - 1 and v.hi <= MAXS: return v
    if v > MAXS or v < -MAXS - 1:
        if exc is None: return MAXS if v > 0 else -MAXS - 1
        seterr(exc[0].host('cannot fit index')); return -1
    return v
def F_PyLong_AsSsize_t(p):
    v = from_c(p)
    if type(v) not in (int, SymInt, bool):
        seterr(TypeError('an integer is required')); return -1
    if v > MAXS or v < -MAXS - 1:
        seterr(OverflowError('too large')); return -1
    return v
F_PyLong_AsLong = F_PyLong_AsLongLong = F_PyLong_AsSsize_t
def F_PyLong_FromSsize_t(v): return give(v)
F_PyLong_FromLong = F_PyLong_FromLongLong = F_PyLong_FromSsize_t
def F_PyLong_FromSize_t(v): return give(uns(v, 64))
F_PyLong_FromUnsignedLong = F_PyLong_FromSize_t
def F_PyBool_FromLong(v): return give(bool(v != 0))
def F__PyEval_SliceIndex(p, out):
    v = from_c(p)
    if v is None: return 1
    if not isidx(v):
        seterr(TypeError('slice indices must be integers or None or have an __index__ method')); return 0
    v = F_PyNumber_AsSsize_t(p, None)
    if H.err is not None: return 0
    st(out, v, 8)
    return 1
def F__PyEval_SliceIndexNotNone(p, out):
    if from_c(p) is None:
        seterr(TypeError('slice indices must be integers')); return 0
    return F__PyEval_SliceIndex(p, out)


def F_PyNumber_Index(p):
    v = from_c(p)
    if not isidx(v):
        seterr(TypeError('not an integer')); return None
    v = guarded(toidx, None, v)
    return None if v is None else give(v)
F_PyNumber_Long = F_PyNumber_Index
def F_PyLong_AsLongAndOverflow(p, o):
    st(o, 0, 4)
    v = F_PyNumber_AsSsize_t(p, None)
    w = from_c(p)
    if H.err is None and type(w) is int and w != v:
        st(o, 1 if w > 0 else -1, 4); return -1
    return v
F_PyLong_AsLongLongAndOverflow = F_PyLong_AsLongAndOverflow
def F_PyLong_AsSize_t(p):
    v = F_PyLong_AsSsize_t(p)
    if H.err is None and v < 0: seterr(OverflowError('cannot convert negative value')); return -1
    return v
F_PyLong_AsUnsignedLong = F_PyLong_AsSize_t
F_PyLong_FromUnsignedLongLong = lambda v: F_PyLong_FromSize_t(v)
def _binary(op):
    def f(a, b):
        r = guarded(op, MISSING, from_c(a), from_c(b))
        return None if r is MISSING else give(r)
    return f
F_PyNumber_Add, F_PyNumber_Subtract, F_PyNumber_Multiply = [_binary(f) for f in (operator.add, operator.sub, operator.mul)]


# ---- slices --------------------------------------------------------------------------------------------------
def F_PySlice_Unpack(p, a, b, c):
    s = from_c(p)
    step = s.step
    if step is None: step = 1
    else:
        if not isidx(step): seterr(TypeError('slice indices must be integers')); return -1
        step = F_PyNumber_AsSsize_t(to_c(step), None)
        if H.err is not None: return -1
        if type(step) is SymInt: step = step.conc()
        if step == 0: seterr(ValueError('slice step cannot be zero')); return -1
        if step < -MAXS: step = -MAXS
    out = []
    for x, d in ((s.start, MAXS if step < 0 else 0), (s.stop, -MAXS - 1 if step < 0 else MAXS)):
        if x is None: out.append(d)
        else:
            if not isidx(x): seterr(TypeError('slice indices must be integers')); return -1
            out.append(F_PyNumber_AsSsize_t(to_c(x), None))
            if H.err is not None: return -1
    st(a, out[0], 8); st(b, out[1], 8); st(c, step, 8)
    return 0

def F_PySlice_AdjustIndices(n, a, b, step):
    def adj(x):
        if x < 0:
            x = x + n
            if x < 0: x = -1 if step < 0 else 0
        elif x >= n: x = n - 1 if step < 0 else n
        return tight(x, -1, n)
    s = adj(ldi(a, 8)); e = adj(ldi(b, 8))
    st(a, s, 8); st(b, e, 8)
    if step < 0:
        if e < s: return (s - e - 1) // (-step) + 1
    elif s < e: return (e - s - 1) // step + 1
    return 0

def tight(x, lo, hi):
    """The same value with a tighter (known) interval."""
    if type(x) is SymInt and (x.lo < lo or x.hi > hi): return mkint(x.e, max(lo, x.lo), min(hi, x.hi))
    return x

def F_PySlice_GetIndicesEx(p, n, a, b, c, d):
    if F_PySlice_Unpack(p, a, b, c) < 0: return -1
    st(d, F_PySlice_AdjustIndices(n, a, b, ldi(c, 8)), 8)
    return 0


# ---- lists and tuples ----------------------------------------------------------------------------------------
def clen(n):
    return n.conc() if type(n) is SymInt else n
def F_PyList_New(n):
    l = [NULLSLOT] * clen(n)
    r = to_c(l)[0]
    r.rc = 1; r.owned = True
    return (r, 0)
def hlist(p):
    r = p[0]
    if not isinstance(r.host, list):
        seterr(SystemError('not a list')); return None
    if not r.alive: bad('use of a freed list')
    return r
def F_PyList_Append(p, x):
    r = hlist(p)
    if r.owned: F_Py_INCREF(x)
    r.host.append(from_c(x))
    return 0
def F_PyList_Insert(p, i, x):
    r = hlist(p)
    if r.owned: F_Py_INCREF(x)
    r.host.insert(clen(i), from_c(x))
    return 0
def F_PyList_Size(p): return len(p[0].host)
F_PyTuple_Size = F_PyList_Size
def F_PyList_GetItem(p, i):
    r = p[0]
    if not (0 <= i < len(r.host)):
        seterr(IndexError('list index out of range')); return None
    v = instr.sx_gi(tup(r), i)
    return None if v is NULLSLOT else to_c(v)
F_PyTuple_GetItem = F_PyList_GetItem
def F_PyList_SetItem(p, i, x):
    r = hlist(p)
    if not (0 <= i < len(r.host)):
        F_Py_XDECREF(x)
        seterr(IndexError('list assignment index out of range')); return -1
    old = instr.sx_gi(r.host, i)
    v = from_c(x)
    instr._LW(r.host)[i] = v
    if r.owned:
        if old is not NULLSLOT: F_Py_DECREF(to_c(old))
    else: F_Py_DECREF(x)
    return 0
def F_PyTuple_SetItem(p, i, x):
    i = clen(i)
    if not 0 <= i < len(tup(p[0])):
        F_Py_XDECREF(x)
        seterr(IndexError('tuple assignment index out of range')); return -1
    st_host(p[0], 24 + 8 * i, x); return 0
def F_PyList_SetSlice(p, lo, hi, v):
    r = hlist(p)
    l = r.host
    n = len(l)
    def clamp(x, m):
        if x < m: return m
        if x > n: return n
        return clen(x)
    lo = clamp(lo, 0); hi = clamp(hi, lo)
    new = []
    if v is not None:
        src = from_c(v)
        new = guarded(list, None, src)
        if new is None: return -1
    old = l[lo:hi]
    if r.owned:
        for x in new: F_Py_INCREF(to_c(x))
    l[lo:hi] = new
    if r.owned:
        for x in old:
            if x is not NULLSLOT: F_Py_DECREF(to_c(x))
    return 0
def F_PyList_GetSlice(p, lo, hi):
    return _newlist(p[0].host[max(0, clen(lo)):max(0, clen(hi))])
def F_PyTuple_GetSlice(p, lo, hi): return _newtuple(list(tup(p[0])[max(0, clen(lo)):max(0, clen(hi))]))
def _newlist(vals):
    q = F_PyList_New(0)
    for x in vals: F_PyList_Append(q, to_c(x))
    return q
def F_PyList_Reverse(p): p[0].host.reverse(); return 0
def F_PyList_AsTuple(p): return _newtuple(list(p[0].host))
def F_PySequence_Concat(a, b):
    x, y = from_c(a), from_c(b)
    if type(x) is list and type(y) is list: return _newlist(x + y)
    if isinstance(x, tuple) and isinstance(y, tuple): return _newtuple(list(x) + list(y))
    return _binary(operator.add)(a, b)
def F_PySequence_Repeat(a, n):
    x = from_c(a)
    if type(x) is list: return _newlist(x * clen(n))
    if isinstance(x, tuple): return _newtuple(list(x) * clen(n))
    r = guarded(operator.mul, MISSING, x, n)
    return None if r is MISSING else give(r)
def F_PySequence_InPlaceConcat(a, b):
    if type(from_c(a)) is list:
        if F_PyList_Extend(a, b) < 0: return None
        F_Py_INCREF(a); return a
    return F_PySequence_Concat(a, b)
def F_PySequence_SetItem(p, i, x):
    if type(from_c(p)) is not list: gap('PySequence_SetItem')
    if i < 0: i = i + len(from_c(p))
    F_Py_INCREF(x)
    return F_PyList_SetItem(p, i, x)
def F_PySequence_DelItem(p, i):
    n = len(hlist(p).host)
    if i < 0: i = i + n
    if not (0 <= i < n): seterr(IndexError('list assignment index out of range')); return -1
    return F_PyList_SetSlice(p, i, i + 1, None)
def F_PySequence_SetSlice(p, lo, hi, v):
    n = len(hlist(p).host)
    return F_PyList_SetSlice(p, lo + n if lo < 0 else lo, hi + n if hi < 0 else hi, v)
def F_PySequence_DelSlice(p, lo, hi): return F_PySequence_SetSlice(p, lo, hi, None)
def F_PySequence_GetSlice(p, lo, hi):
    x = from_c(p)
    if isinstance(x, (list, tuple)):
        n = len(x)
        lo, hi = lo + n if lo < 0 else lo, hi + n if hi < 0 else hi
        return (F_PyList_GetSlice if type(x) is list else F_PyTuple_GetSlice)(p, lo, hi)
    r = guarded(lambda: instr.sx_gi(x, slice(lo, hi)), MISSING)
    return None if r is MISSING else give(r)
def F_PySequence_Index(p, x):
    r = guarded(lambda: instr.sx_method(from_c(p), 'index', (from_c(x),), {}), MISSING)
    return -1 if r is MISSING else r
def F_PySequence_Count(p, x):
    r = guarded(lambda: instr.sx_method(from_c(p), 'count', (from_c(x),), {}), MISSING)
    return -1 if r is MISSING else r
F_PySequence_Tuple = lambda p: (lambda v: None if v is None else _newtuple(v))(guarded(list, None, from_c(p)))
F_PySequence_List = lambda p: (lambda v: None if v is None else _newlist(v))(guarded(list, None, from_c(p)))
def F_PySequence_Fast(p, m):
    v = from_c(p)
    if isinstance(v, (list, tuple)): return give(v)
    return F_PySequence_List(p)
def F_PyTuple_New(n):
    n = clen(n)
    x = _Holder([NULLSLOT] * n)
    r = to_c(x)[0]
    r.first = [NULLSLOT] * n
    r.rc = 1; r.owned = True
    if n == 0: _seal(r)
    return (r, 0)
class _Holder(tuple):
    """A tuple under construction (identity distinct from any other tuple)."""
    __slots__ = ()
def _newtuple(vals):
    q = F_PyTuple_New(len(vals))
    for i, x in enumerate(vals):
        F_Py_INCREF(to_c(x)); st_host(q[0], 24 + 8 * i, to_c(x))
    return q
def F_PyTuple_Pack(n, *a): return _newtuple([from_c(x) for x in a])


# ---- objects -------------------------------------------------------------------------------------------------
OPS = [operator.lt, operator.le, operator.eq, operator.ne, operator.gt, operator.ge]
def F_PyObject_RichCompare(a, b, op):
    r = guarded(OPS[op], MISSING, from_c(a), from_c(b))
    return None if r is MISSING else give(r)
def F_PyObject_RichCompareBool(a, b, op):
    same = peq(a, b)
    if same is not False and bool(same):
        if op == 2: return 1
        if op == 3: return 0
    r = guarded(lambda: bool(OPS[op](from_c(a), from_c(b))), MISSING)
    return -1 if r is MISSING else (1 if r else 0)
def F_PyObject_Hash(p):
    r = guarded(instr.sx_hash, MISSING, from_c(p))
    return -1 if r is MISSING else r
def F_PyObject_Repr(p):
    r = guarded(repr, MISSING, from_c(p))
    return None if r is MISSING else give(r)
F_PyObject_Str = F_PyObject_Repr
def F_PyObject_IsTrue(p):
    r = guarded(lambda: bool(from_c(p)), MISSING)
    return -1 if r is MISSING else (1 if r else 0)
def F_PyObject_Not(p):
    r = F_PyObject_IsTrue(p)
    return r if r < 0 else 1 - r
def F_PyObject_Size(p):
    r = guarded(lambda: from_c(p).__len__(), MISSING)
    return -1 if r is MISSING else r
F_PyObject_Length = F_PySequence_Size = F_PySequence_Length = F_PyObject_Size
def F_PyObject_IsInstance(p, t):
    r = guarded(instr.sx_isinstance, MISSING, from_c(p), from_c(t))
    return -1 if r is MISSING else (1 if r else 0)
def F_PyType_IsSubtype(a, b):
    x, y = from_c(a), from_c(b)
    return 1 if issubclass(x, y) else 0
def F_PyType_GetFlags(p): return ldi((p[0], 168), 8)
def F_PyObject_GetIter(p):
    v = from_c(p)
    if isinstance(v, BridgeBase):
        tp = p[0].m[8][0]
        f = tp.m.get(216)
        if f is not None: return f(p)
    if not instr._b.hasattr(type(v), '__iter__') and not hasattr(type(v), '__getitem__'):
        seterr(TypeError('object is not iterable')); return None
    it = guarded(iter, MISSING, v)
    if it is MISSING: return None
    return give(it)
def F_PyObject_SelfIter(p): F_Py_INCREF(p); return p
def host_iternext(p):
    it = from_c(p)
    try: v = next(it)
    except StopIteration: return None
    except Exception as e: seterr(e); return None
    return give(v)
def F_PyIter_Next(p):
    t = p[0]
    if t.kind == 'obj': r = t.m[8][0].m[224](p)
    else: r = host_iternext(p)
    if r is None and H.err is not None and isinstance(H.err, StopIteration): H.err = None
    return r
def F_PyIter_Check(p): return 1 if hasattr(type(from_c(p)), '__next__') else 0
def F_PySequence_GetItem(p, i):
    r = guarded(lambda: instr.sx_gi(from_c(p), i), MISSING)
    return None if r is MISSING else give(r)
def F_PyObject_GetItem(p, k):
    r = guarded(lambda: instr.sx_gi(from_c(p), from_c(k)), MISSING)
    return None if r is MISSING else give(r)
def F_PySequence_Contains(p, x):
    r = guarded(lambda: bool(operator.contains(from_c(p), from_c(x))), MISSING)
    return -1 if r is MISSING else (1 if r else 0)
def F_PyObject_DelItem(p, k):
    if type(from_c(p)) is list and isidx(from_c(k)): return F_PySequence_DelItem(p, toidx(from_c(k)))
    if isinstance(from_c(p), BridgeBase): return _slot(p, 112, 16, p, k, None)
    gap('PyObject_DelItem')
def F_PyObject_SetItem(p, k, v):
    if type(from_c(p)) is list and isidx(from_c(k)): return F_PySequence_SetItem(p, toidx(from_c(k)), v)
    if isinstance(from_c(p), BridgeBase): return _slot(p, 112, 16, p, k, v)
    gap('PyObject_SetItem')
def _slot(p, table, off, *a):
    t = p[0].m[8][0].m.get(table)
    f = t and ldp((t[0], off))
    if not f: gap('no such slot')
    return f(*a)
def F_PyObject_Type(p): return give(type(from_c(p)))
def F_PyCallable_Check(p): return 1 if p is not None and callable(from_c(p)) else 0
def F_PyMapping_Check(p): return 1 if hasattr(type(from_c(p)), '__getitem__') else 0
def F_PySequence_Check(p): return 1 if hasattr(type(from_c(p)), '__getitem__') else 0
def F_PyImport_ImportModule(s):
    n = cstr(s)
    r = guarded((lambda: MODULE_HOST) if n == 'pvectorc' else (lambda: importlib.import_module(n)), MISSING)
    return None if r is MISSING else give(r)
def F_PyObject_GetAttrString(p, s):
    r = guarded(lambda: getattr(from_c(p), cstr(s)), MISSING)
    return None if r is MISSING else give(r)
def F_PyObject_GetAttr(p, n):
    r = guarded(lambda: getattr(from_c(p), from_c(n)), MISSING)
    return None if r is MISSING else give(r)
def F_PyObject_HasAttr(p, n): return 1 if hasattr(from_c(p), from_c(n)) else 0
def F_PyObject_HasAttrString(p, s): return 1 if hasattr(from_c(p), cstr(s)) else 0
def _owned_list(o):
    if type(o) is not list: return None
    r = H.hosts.get(id(o))
    return r if r is not None and r.host is o and r.owned else None
def _invoke(f, args, kw={}):
    """Call a host callable.  A method of a list that C code owns changes what that list owns."""
    r = _owned_list(getattr(f, '__self__', None))
    old = list(r.host) if r is not None else None
    if r is not None: r.owned = False         # settled below, also for what user code called from here does to the list
    res = guarded(lambda: instr.sx_method(f.__self__, f.__name__, tuple(args), kw) if r is not None else f(*args, **kw), MISSING)
    if old is not None:
        if not r.alive: bad('list freed while in use')
        r.owned = True
        new = r.host
        k = 0
        while k < len(old) and k < len(new) and old[k] is new[k]: k += 1
        for x in new[k:]: F_Py_INCREF(to_c(x))
        ret = None if res is MISSING else give(res)
        for x in old[k:]:
            if x is not NULLSLOT: F_Py_DECREF(to_c(x))
        return ret
    return None if res is MISSING else give(res)
def _upto_null(a):
    n = [i for i, x in enumerate(a) if x is None]
    return [from_c(x) for x in (a[:n[0]] if n else a)]
def F_PyObject_CallFunctionObjArgs(f, *a): return _invoke(from_c(f), _upto_null(a))
def F_PyObject_CallObject(f, t): return _invoke(from_c(f), () if t is None else from_c(t))
def F_PyObject_Call(f, t, k): return _invoke(from_c(f), from_c(t), {} if k is None else from_c(k))
def F_PyObject_CallNoArgs(f): return F_PyObject_CallObject(f, None)
def F_PyObject_CallOneArg(f, x): return F_PyObject_CallFunctionObjArgs(f, x, None)
def _method(o, name):
    m = guarded(lambda: getattr(from_c(o), name), MISSING)
    return None if m is MISSING else m
def F_PyObject_CallMethodObjArgs(o, n, *a):
    m = _method(o, from_c(n))
    return None if m is None else _invoke(m, _upto_null(a))
def F_PyObject_CallMethodNoArgs(o, n): return F_PyObject_CallMethodObjArgs(o, n, None)
def F_PyObject_CallMethodOneArg(o, n, x): return F_PyObject_CallMethodObjArgs(o, n, x, None)
def _vec(args, n): return [from_c(ldp(gep(args, 8 * i))) for i in range(clen(n))]
def _nargs(n): return wrap(n & ((1 << 63) - 1), 64)
def F_PyObject_Vectorcall(f, args, n, kw):
    if kw is not None: gap('keyword call')
    return _invoke(from_c(f), _vec(args, _nargs(n)))
def F_PyObject_VectorcallMethod(name, args, n, kw):
    if kw is not None: gap('keyword call')
    a = _vec(args, _nargs(n))
    m = _method(to_c(a[0]), from_c(name))
    return None if m is None else _invoke(m, a[1:])
def F_PyEval_CallObjectWithKeywords(f, t, k): return F_PyObject_Call(f, t, k)
def _build(fmt, a):
    """Values of a Py_BuildValue format."""
    a = list(a); out = [[]]
    for c in fmt:
        if c in '([': out.append([])
        elif c in ')]':
            x = out.pop(); out[-1].append(tuple(x) if c == ')' else x)
        elif c in 'OSN': out[-1].append(from_c(a.pop(0)))
        elif c in 'iIlkLKnhbBH': out[-1].append(a.pop(0))
        elif c in 'szU': x = a.pop(0); out[-1].append(None if x is None else cstr(x))
        elif c not in ' ,': gap('format ' + fmt)
    return out[0]
def _callargs(fmt, a):
    if fmt is None: return ()
    f = cstr(fmt)
    v = _build(f, a)
    return v[0] if len(v) == 1 and isinstance(v[0], tuple) else tuple(v)
def F_PyObject_CallMethod(o, n, fmt, *a):
    m = _method(o, cstr(n))
    return None if m is None else _invoke(m, _callargs(fmt, a))
def F_PyObject_CallFunction(f, fmt, *a): return _invoke(from_c(f), _callargs(fmt, a))
def F_Py_BuildValue(fmt, *a):
    f = cstr(fmt)
    a = list(a); out = [[]]
    for c in f:
        if c in '([': out.append([])
        elif c in ')]':
            x = out.pop(); out[-1].append(_stolen(x, c == ')'))
        elif c in 'OS':
            x = a.pop(0)
            if x is None: return _nullarg(out)
            F_Py_INCREF(x); out[-1].append(x)
        elif c == 'N':
            x = a.pop(0)
            if x is None: return _nullarg(out)
            out[-1].append(x)
        elif c in 'iIlkLKnhbBH': out[-1].append(give(a.pop(0)))
        elif c in 'szU': x = a.pop(0); out[-1].append(give(None if x is None else cstr(x)))
        elif c not in ' ,': gap('format ' + f)
    v = out[0]
    if not v: return give(None)
    return v[0] if len(v) == 1 else _stolen(v, True)
def _nullarg(out):
    for l in out:
        for x in l: F_Py_DECREF(x)
    if H.err is None: seterr(SystemError('NULL object passed to Py_BuildValue'))
    return None
def _stolen(ps, tuple_):
    q = F_PyTuple_New(len(ps)) if tuple_ else F_PyList_New(len(ps))
    for i, x in enumerate(ps):
        if tuple_: st_host(q[0], 24 + 8 * i, x)
        else: q[0].host[i] = from_c(x)
    return q
def F_PyList_Extend(l, it):
    r = F_PyObject_CallMethodObjArgs(l, give('extend'), it, None)
    if r is None: return -1
    F_Py_DECREF(r)
    return 0
def F__PyList_Extend(l, it): return F_PyObject_CallMethodObjArgs(l, give('extend'), it, None)
F_PyObject_GenericGetAttr = lambda o, n: F_PyObject_GetAttr(o, n)
def F_PyUnicode_FromString(s): return give(cstr(s))
def F_PyUnicode_FromFormat(s, *a):
    a = list(a)
    def one(m):
        x = a.pop(0)
        c = m.group(0)[-1]
        if c == 's': return cstr(x)
        if c in 'USRA': return str(from_c(x))
        return str(x)
    return give(re.sub(r'%[-.\d]*[lz]?[sUSRAdiu]', one, cstr(s)))
F_PyUnicode_InternFromString = F_PyUnicode_FromString
def F_PyUnicode_FromStringAndSize(s, n): return give(cstr(s)[:clen(n)])
def F_PyUnicode_Concat(a, b): return _binary(operator.add)(a, b)
def F_PyUnicode_Append(pp, b):
    a = ldp(pp)
    r = None if a is None or b is None else F_PyUnicode_Concat(a, b)
    F_Py_XDECREF(a); st(pp, r, 8)
def F_PyUnicode_AppendAndDel(pp, b):
    F_PyUnicode_Append(pp, b); F_Py_XDECREF(b)
def F_PyUnicode_Format(a, b): return _binary(operator.mod)(a, b)
def F_PyUnicode_Join(a, b):
    r = guarded(lambda: from_c(a).join(from_c(b)), MISSING)
    return None if r is MISSING else give(r)
def F_PyUnicode_CompareWithASCIIString(a, s):
    a, b = from_c(a), cstr(s)
    return (a > b) - (a < b)
def F_PyUnicode_AsUTF8(a): return strp(from_c(a))
def F_PyErr_WriteUnraisable(p): H.err = None
def F_PyErr_Print(): H.err = None
def F_PyErr_NormalizeException(a, b, c): pass
def F_PyException_SetTraceback(a, b): return 0
def F_PyErr_WarnEx(*a): return 0
def F_PyArg_ParseTupleAndKeywords(p, kw, fmt, names, *out):
    f = cstr(fmt)
    args = list(tup(p[0]))
    k = dict(from_c(kw)) if kw is not None else {}
    if k:
        for i in range(len(args), 64):
            q = ldp(gep(names, 8 * i))
            if q is None or cstr(q) not in k: break
            args.append(k.pop(cstr(q)))
        if k: gap('keyword arguments with gaps')
    return _parse(args, f, list(out))

def F_PyArg_ParseTuple(p, fmt, *out):
    return _parse(tup(p[0]), cstr(fmt), list(out))
def F_PyArg_UnpackTuple(p, name, lo, hi, *out):
    a = tup(p[0])
    if not lo <= len(a) <= hi:
        seterr(TypeError('%s expected %d to %d arguments' % (cstr(name), lo, hi))); return 0
    for x, o in zip(a, out): st(o, to_c(x), 8)
    return 1
def _parse(args, f, out):
    f = re.split('[:;]', f)[0]
    units = re.findall(r'\||\$|O&|O!|[A-Za-z]', f)
    opt = False; i = 0
    need = len([u for u in (units[:units.index('|')] if '|' in units else units)])
    most = len([u for u in units if u not in '|$'])
    if not need <= len(args) <= most:
        seterr(TypeError('function takes %d to %d arguments (%d given)' % (need, most, len(args)))); return 0
    for u in units:
        if u in '|$': continue
        if i >= len(args): break
        x = to_c(args[i]); i += 1
        if u == 'O': st(out.pop(0), x, 8)
        elif u == 'O&':
            f, dst = out.pop(0), out.pop(0)
            if not f(x, dst): return 0
        elif u == 'O!':
            T, dst = out.pop(0), out.pop(0)
            if not isinstance(from_c(x), from_c(T)):
                seterr(TypeError('wrong argument type')); return 0
            st(dst, x, 8)
        elif u in 'nlLi':
            v = from_c(x)
            if not isidx(v):
                seterr(TypeError('an integer is required')); return 0
            v = guarded(toidx, None, v)
            if v is None: return 0
            h = 1 << (31 if u == 'i' else 63)
            if (type(v) is not SymInt or v.lo < -h or v.hi >= h) and (v < -h or v >= h):
                seterr(OverflowError('Python int too large to convert')); return 0
            st(out.pop(0), v, 4 if u == 'i' else 8)
        elif u == 'p': st(out.pop(0), 1 if from_c(x) else 0, 4)
        else: gap('PyArg_ParseTuple format ' + u)
    return 1


# ---- module --------------------------------------------------------------------------------------------------
MODULE_HOST = types.ModuleType('pvectorc')
READY = []
def F_PyType_Ready(p):
    r = p[0]
    if r not in READY: READY.append(r)
    return 0
MODDEF = []
def F_PyModule_Create2(p, api):
    MODDEF[:] = [p[0]]
    return give(MODULE_HOST)
def F_PyModule_AddObject(m, n, v): return 0
F_PyModule_AddObjectRef = F_PyModule_AddType = lambda *a: 0
def F_PyModule_AddIntConstant(*a): return 0


class BridgeBase:
    """Host-side stand-in for an object of a C type; owns one reference."""
    __slots__ = ('_sx_region', '_sx_epoch', '__weakref__')

BRIDGE_TYPES = {}       # Region of a C type object -> Python class
BRIDGE_TYPES_INV = {}
bridge_of = None        # set by sx/cbridge.py


def restore():
    """Undo every change made since the base state."""
    J = H.journal
    while J:
        r, o, v = J.pop()
        if o is None: r.m, r.zero = dict(v[0]), list(v[1])
        elif o == 'rc': r.rc = v
        elif o == 'tracked': r.tracked = v
        elif o == 'kill': r.alive = True; r.m, r.zero, r.tracked = v
        elif v is MISSING: r.m.pop(o, None)
        else: r.m[o] = v


def externals():
    return {k: v for k, v in globals().items() if k.startswith('F_')}
