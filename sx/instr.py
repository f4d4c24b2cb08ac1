"""Loads the real sources of /repo/pyrsistent (and the harnesses) with a light AST rewriting: subscripts, identity
tests and the builtins hash/isinstance/id/type are routed through helpers that understand symbolic values.  Nothing
else of the source is changed."""
import ast, sys, os, importlib.abc, importlib.machinery, builtins, types, collections, operator
import z3
from . import core
from .core import SymInt, SymBool, SymObj, mkbool, mkint, term, obj_is, obj_ite, obj_select, INF, narrow

REPO = os.environ.get('SX_REPO', '/repo')
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
_b = builtins


# ---- helpers -------------------------------------------------------------------------------------------------
def _range(i, n):
    """Classify SymInt i as index into a sequence of length n; returns SymInt/int in [0, n) or raises IndexError."""
    if i.lo >= 0 and i.hi < n: return i
    if i.lo >= -n and i.hi < 0: return i + n
    if i.lo >= n or i.hi < -n: raise IndexError('list index out of range')
    c = i.memo.get(('rng', n))
    if c is None:
        t = i.e
        c = i.memo[('rng', n)] = ([z3.And(t >= 0, t < n), z3.And(t >= -n, t < 0), z3.Or(t >= n, t < -n)],
                                  narrow(i, max(i.lo, 0), min(i.hi, n - 1)), narrow(i + n, max(i.lo + n, 0), n - 1))
    r = core.ENG.choose(c[0], 'rng')
    if r < 2: return c[1 + r]
    raise IndexError('list index out of range')


def select(a, i):
    i = _range(i, len(a))
    if type(i) is int: return a[i]
    lo, hi = i.lo, i.hi
    t = i.e
    groups = {}
    allobj = True
    for j in range(lo, hi + 1):
        x = a[j]
        if type(x) is not SymObj: allobj = False
        g = groups.get(id(x))
        if g is None: groups[id(x)] = [x, [i.eqs(j)]]
        else: g[1].append(i.eqs(j))
    if len(groups) == 1: return x
    gl = [(z3.Or(c) if len(c) > 1 else c[0], x) for x, c in groups.values()]
    if allobj:
        return obj_select(gl)
    return gl[core.ENG.choose([c for c, _ in gl], 'sel')][1]


def norm_slice(s, n):
    """Concretise a slice's symbolic parts after clamping."""
    def part(x, isstep=False):
        if type(x) is not SymInt: return x
        if isstep: return x.conc()
        t = x.e
        # all values >= n+1 and all values <= -n-1 behave alike (for slices of a sequence of length n)
        if x.hi > n + 1 or x.lo < -n - 1:
            r = core.ENG.choose([z3.And(t <= n, t >= -n), t > n, t < -n], 'slc')
            if r == 1: return n + 1
            if r == 2: return -n - 1
        return x.conc()
    return slice(part(s.start), part(s.stop), part(s.step, True))


def _symslice(i):
    return type(i.start) is SymInt or type(i.stop) is SymInt or type(i.step) is SymInt


def sx_gi(a, i):
    ti = type(i)
    if ti is SymInt:
        ta = type(a)
        if ta is list or ta is tuple: return select(a, i)
    elif ti is slice:
        ta = type(a)
        if (ta is list or ta is tuple) and _symslice(i): return a[norm_slice(i, len(a))]
    return a[i]


class _LW:
    """Write access to a list with possibly symbolic index."""
    __slots__ = ('a',)
    def __init__(self, a): self.a = a
    def __getitem__(self, i): return sx_gi(self.a, i)
    def __setitem__(self, i, v):
        a = self.a
        ti = type(i)
        if ti is SymInt:
            i = _range(i, len(a))
            if type(i) is int:
                a[i] = v; return
            lo, hi = i.lo, i.hi
            if type(v) is SymObj and all(type(a[j]) is SymObj for j in range(lo, hi + 1)):
                for j in range(lo, hi + 1):
                    a[j] = obj_ite(i.eqs(j), v, a[j])
                return
            a[i.conc()] = v
        elif ti is slice and _symslice(i):
            a[norm_slice(i, len(a))] = v
        else:
            a[i] = v
    def __delitem__(self, i):
        a = self.a
        ti = type(i)
        if ti is SymInt:
            i = _range(i, len(a))
            del a[i if type(i) is int else i.conc()]
        elif ti is slice and _symslice(i):
            del a[norm_slice(i, len(a))]
        else:
            del a[i]


def sx_sw(a):
    return _LW(a) if type(a) is list else a


def sx_is(a, b):
    if a is b: return True
    if type(a) is SymObj and type(b) is SymObj: return obj_is(a, b)
    return False


def sx_isnot(a, b):
    return core.Not(sx_is(a, b))


def sx_isinstance(x, T):
    if type(x) is SymInt: return _b.isinstance(0, T)
    if type(x) is SymBool: return _b.isinstance(True, T)
    return _b.isinstance(x, T)


def sx_type1(tp, x):
    if tp is _b.type:
        if type(x) is SymInt: return int
        if type(x) is SymBool: return bool
    return tp(x)


def sx_id(x):
    if type(x) is SymObj:
        return _b.id(core.OBJ.objs[x.k])
    return _b.id(x)


def _has_sym(x):
    t = type(x)
    if t in (SymObj, SymInt, SymBool): return True
    if t is tuple or t is frozenset: return any(_has_sym(e) for e in x)
    if t in (int, str, bool, float, type(None), bytes): return False
    return getattr(type(x).__hash__, '__code__', None) is not None   # a Python-level __hash__ may be symbolic


def _hsort():
    return core.OBJ.hsort


def _ht(h):
    if type(h) is SymInt: return h.e
    return z3.BitVecVal(h, core.W) if core.ENG.mode == 'bv' else z3.IntVal(h)


def sx_hash(x):
    t = type(x)
    if t is SymObj:
        x._call('hash')
        return x.h()
    if t is SymInt:
        if x.lo is not None and x.hi is not None and x.lo > -2**60 and x.hi < 2**60:
            if x.lo > -1 or x.hi < -1: return x
            return core.mkint(z3.If(x.e == -1, _ht(-2), x.e), min(x.lo, -2), x.hi)
        return _b.hash(x.conc())
    if t is SymBool: return _b.hash(bool(x))
    if t is tuple:
        if not _has_sym(x): return _b.hash(x)
        s = _hsort()
        f = z3.Function('TH', s, s, s)
        acc = _ht(len(x))
        for e in x: acc = f(acc, _ht(sx_hash(e)))
        return SymInt(acc)
    if t is frozenset:
        if not _has_sym(x): return _b.hash(x)
        s = _hsort()
        g = z3.Function('FH', s, s)
        acc = _ht(7 + len(x))
        for e in x: acc = acc + g(_ht(sx_hash(e)))
        return SymInt(acc)
    f = t.__hash__
    if f is None: raise TypeError("unhashable type: '%s'" % t.__name__)
    if getattr(f, '__code__', None) is None and not hasattr(f, '__func__') and t.__module__ != 'sx.cbridge':
        return _b.hash(x)
    return f(x)


def _clamp(x, n):
    """Position argument of list.index/insert: all values beyond either end behave alike."""
    if type(x) is not SymInt: return x
    if x.hi > n + 1 or x.lo < -n - 1:
        r = core.ENG.choose([z3.And(x.e <= n, x.e >= -n), x.e > n, x.e < -n], 'clamp')
        if r: return n + 1 if r == 1 else -n - 1
    return x.conc()


def sx_method(a, name, args, kw={}):
    if type(a) in (list, tuple):
        n = len(a)
        if name == 'index' and any(type(x) is SymInt for x in args[1:]):
            args = args[:1] + tuple(_clamp(x, n) for x in args[1:])
        elif name == 'insert' and args and type(args[0]) is SymInt: args = (_clamp(args[0], n),) + args[1:]
        elif name == 'pop' and args and type(args[0]) is SymInt:
            i = _range(args[0], n)
            args = (i if type(i) is int else i.conc(),)
    elif a is operator and name == 'index' and args and type(args[0]) in (SymInt, SymBool):
        return args[0] if type(args[0]) is SymInt else core.mkint(z3.If(args[0].e, term(1), term(0)), 0, 1)
    return getattr(a, name)(*args, **kw)


HELPERS = {'__sx_method__': sx_method, '__sx_slice__': slice, '__sx_gi__': sx_gi, '__sx_sw__': sx_sw, '__sx_is__': sx_is, '__sx_isnot__': sx_isnot, '__sx_type1__': sx_type1,
           'isinstance': sx_isinstance, 'id': sx_id, 'hash': sx_hash}


# ---- AST rewriting -------------------------------------------------------------------------------------------
def _call(name, args):
    return ast.Call(func=ast.Name(id=name, ctx=ast.Load()), args=args, keywords=[])


def _const(n):
    return isinstance(n, ast.Constant) and (n.value is None or n.value is True or n.value is False or n.value is Ellipsis)


class Rewriter(ast.NodeTransformer):
    def _slice(self, s):
        if isinstance(s, ast.Slice):
            none = lambda x: x if x is not None else ast.Constant(value=None)
            return _call('__sx_slice__', [none(s.lower), none(s.upper), none(s.step)])
        if isinstance(s, ast.Tuple):
            return ast.Tuple(elts=[self._slice(e) for e in s.elts], ctx=ast.Load())
        return s

    def visit_Subscript(self, n):
        self.generic_visit(n)
        if isinstance(n.ctx, ast.Load):
            return ast.copy_location(_call('__sx_gi__', [n.value, self._slice(n.slice)]), n)
        n.value = ast.copy_location(_call('__sx_sw__', [n.value]), n.value)
        return n

    def visit_Compare(self, n):
        self.generic_visit(n)
        if len(n.ops) == 1 and isinstance(n.ops[0], (ast.Is, ast.IsNot)) and not _const(n.left) and not _const(n.comparators[0]):
            return ast.copy_location(_call('__sx_is__' if isinstance(n.ops[0], ast.Is) else '__sx_isnot__', [n.left, n.comparators[0]]), n)
        return n

    def visit_Call(self, n):
        self.generic_visit(n)
        if isinstance(n.func, ast.Name) and n.func.id == 'type' and len(n.args) == 1 and not n.keywords:
            return ast.copy_location(_call('__sx_type1__', [n.func, n.args[0]]), n)
        if isinstance(n.func, ast.Attribute) and n.func.attr in ('index', 'insert', 'pop') and n.args:
            kw = ast.Dict(keys=[k.arg and ast.Constant(value=k.arg) for k in n.keywords], values=[k.value for k in n.keywords])
            return ast.copy_location(_call('__sx_method__', [n.func.value, ast.Constant(value=n.func.attr), ast.Tuple(elts=n.args, ctx=ast.Load()), kw]), n)
        return n

    def visit_AnnAssign(self, n):
        n.annotation = n.annotation    # leave annotations alone
        if n.value is not None: n.value = self.visit(n.value)
        n.target = self.visit(n.target)
        return n

    def visit_arg(self, n): return n

    def visit_FunctionDef(self, n):
        ret = n.returns; n.returns = None
        self.generic_visit(n)
        n.returns = ret
        return n


def compile_source(src, path):
    tree = ast.parse(src, path)
    tree = ast.fix_missing_locations(Rewriter().visit(tree))
    return compile(tree, path, 'exec', dont_inherit=True)


class Loader(importlib.abc.Loader):
    def __init__(self, path): self.path = path
    def create_module(self, spec): return None
    def exec_module(self, mod):
        with open(self.path) as f: src = f.read()
        code = compile_source(src, self.path)
        mod.__dict__.update(HELPERS)
        exec(code, mod.__dict__)


class Finder(importlib.abc.MetaPathFinder):
    def __init__(self, roots): self.roots = roots         # package name -> directory containing it
    def find_spec(self, name, path=None, target=None):
        top = name.partition('.')[0]
        if top not in self.roots: return None
        base = os.path.join(self.roots[top], *name.split('.'))
        if os.path.isdir(base):
            p = os.path.join(base, '__init__.py')
            spec = importlib.machinery.ModuleSpec(name, Loader(p), origin=p, is_package=True)
            spec.submodule_search_locations = [base]
        elif os.path.exists(base + '.py'):
            p = base + '.py'
            spec = importlib.machinery.ModuleSpec(name, Loader(p), origin=p)
        else:
            return None
        spec.has_location = True
        return spec


COVERED = set()


def install(extra=()):
    os.environ['PYRSISTENT_NO_C_EXTENSION'] = '1'
    roots = {'pyrsistent': REPO, 'harness': VERIF}
    sys.meta_path.insert(0, Finder(roots))
    # record which functions of the repository are executed symbolically
    mon = sys.monitoring
    TOOL = 4
    try:
        mon.use_tool_id(TOOL, 'sx')
    except ValueError:
        return
    pre = REPO + '/pyrsistent/'
    def start(code, off):
        if code.co_filename.startswith(pre):
            COVERED.add(code.co_filename[len(REPO) + 1:] + ':' + code.co_qualname)
        return mon.DISABLE
    mon.register_callback(TOOL, mon.events.PY_START, start)
    mon.set_events(TOOL, mon.events.PY_START)
