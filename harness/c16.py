"""C16: pickling and create/serialize round-trip."""
import pickle
from sx.api import Harness, T
from harness.maplib import check_map, check_set, dset, radd
from harness.kinds import CM, CS
from pyrsistent import (pvector, pmap, pset, pbag, plist, pdeque, CheckedPVector, CheckedPSet, CheckedPMap, PRecord, PClass, field, pvector_field, pset_field, pmap_field, immutable, optional)

ASSUMPTIONS = ['pickling is rebuilding from __reduce__ (what pickle does); native replays also go through pickle itself']
SERS = []


def ser(fmt, v):
    return ('ser', fmt, v)


class CV(CheckedPVector): __type__ = object
class CVsub(CV): pass
class InR(PRecord):
    x = field()
    y = field()
class InC(PClass):
    x = field()
    y = field()
class VR(CheckedPVector): __type__ = InR
class VC(CheckedPVector): __type__ = (InC, int)
class VV(CheckedPVector): __type__ = VR
class MR(CheckedPMap):
    __key_type__ = object
    __value_type__ = InR
class MV(CheckedPMap): __value_type__ = VC
class SV(CheckedPSet): __type__ = object


def outer():
    return dict(plain=field(), cust=field(serializer=ser), r=field(type=InR), c=field(type=InC), vr=pvector_field(InR), vc=pvector_field(InC, optional=True), mr=pmap_field(object, InR), mo=pmap_field(object, InC, optional=True), s=pset_field(object), vv=field(type=VV))

OutR = type(PRecord)('OutR', (PRecord,), dict(outer(), __module__=__name__))
OutC = type(PClass)('OutC', (PClass,), dict(outer(), __module__=__name__))
class OutRsub(OutR): extra = field()
class OutCsub(OutC): extra = field()
class Fac(PRecord): a = field(factory=lambda x: ('made', x))
class FacC(PClass): a = field(factory=lambda x: ('made', x))
class Ini(PRecord): a = field(initial=1); b = field()
class IniC(PClass): a = field(initial=1); b = field()
class CSer(CheckedPVector):
    __type__ = object
    def __serializer__(self, fmt, v): return ('cs', fmt, v)
class CSerSub(CSer): pass
class MSer(CheckedPMap):
    def __serializer__(self, fmt, k, v): return (k, ('ms', fmt, v))
class MSerSub(MSer): pass
class SSer(CheckedPSet):
    def __serializer__(self, fmt, v): return v
CLASSES = dict(OutR=OutR, OutC=OutC, OutRsub=OutRsub, OutCsub=OutCsub)


def keys(ctx, n, lim=1):
    ks = [ctx.obj() for _ in range(n)]
    ctx.limit_hash(ks, 8, lim)
    return ks


def rebuild(ctx, x):
    """Everything pickle would rebuild."""
    out = [rebuild1(x)]
    if not ctx.symbolic:
        for proto in (2, pickle.HIGHEST_PROTOCOL): out.append(pickle.loads(pickle.dumps(x, proto)))
    return out


def rebuild1(x):
    r = x.__reduce_ex__(2)
    y = r[0](*r[1])
    if len(r) > 2 and r[2] is not None:
        st = r[2] if isinstance(r[2], tuple) else (r[2], None)
        if hasattr(y, '__setstate__'): y.__setstate__(r[2])
        else:
            for part in st:
                for k, v in (part or {}).items(): object.__setattr__(y, k, rebuild1(v) if type(v).__name__ == 'PMap' else v)
    return y


def h_pickle(ctx, kind, n):
    xs = ctx.objs('x', n)
    if kind in ('pset', 'cset', 'pmap', 'cmap', 'pbag', 'keys', 'SV', 'mr', 'mo', 's'): ctx.limit_hash(xs, 16, 1)
    if kind == 'pvector': a = pvector(xs); chk = lambda y: ctx.check_seq(y, xs, 'contents')
    elif kind == 'cvec': a = CV(xs); chk = lambda y: ctx.check_seq(y, xs, 'contents')
    elif kind == 'cvsub': a = CVsub(xs); chk = lambda y: ctx.check_seq(y, xs, 'contents')
    elif kind == 'plist': a = plist(xs); chk = lambda y: ctx.check_seq(y, xs, 'contents')
    elif kind == 'pdeque': a = pdeque(xs); chk = lambda y: (ctx.check_seq(y, xs, 'contents'), ctx.check(y.maxlen is None, 'maxlen'))
    elif kind == 'pdequemax':
        ml = ctx.int('ml', 0, 4)
        def last(l):
            l = list(l)
            while len(l) > ml: l = l[1:]
            return l
        a = pdeque(xs, maxlen=ml)
        if ctx.choice('grown', 2): a = a.append(None)
        was = list(a)
        chk = lambda y: (ctx.check_seq(y, was, 'contents'), ctx.check(y.maxlen == ml, 'maxlen'), ctx.check_seq(y.append(None), last(was + [None]), 'maxlen in effect'))
    elif kind in ('pset', 'cset', 'keys'):
        a = pset(xs) if kind == 'pset' else CS(xs) if kind == 'cset' else pmap([(x, 1) for x in xs]).keys()
        ref = []
        for x in xs: ref = radd(ref, x)
        chk = lambda y: check_set(ctx, y, ref, 'contents')
    elif kind in ('pmap', 'cmap'):
        vs = ctx.objs('v', n)
        ref = {}
        for k, v in zip(xs, vs): ref = dset(ref, k, v)
        a = pmap(ref) if kind == 'pmap' else CM(ref)
        chk = lambda y: check_map(ctx, y, ref, 'contents')
    elif kind == 'pbag':
        a = pbag(xs)
        chk = lambda y: (ctx.check(len(y) == n, 'size'), [ctx.check(y.count(x) == a.count(x), 'count') for x in xs])
    elif kind in ('record', 'class'):
        d = dict(zip('xy', xs))
        a = InR(**d) if kind == 'record' else InC(**d)
        chk = lambda y: [ctx.check(ctx.same(getattr(y, f, None), d.get(f)), 'field') for f in 'xy']
    elif kind in ('fac', 'facc'):
        a = Fac(a=ctx.obj()) if kind == 'fac' else FacC(a=ctx.obj())
        chk = lambda y: ctx.check(ctx.same(y.a, a.a), 'factories are not applied again')
    elif kind in ('ini', 'inic'):
        a = Ini(a=ctx.obj(), b=ctx.obj()) if kind == 'ini' else IniC(a=ctx.obj(), b=ctx.obj())
        chk = lambda y: ctx.check(ctx.same(y.a, a.a) and ctx.same(y.b, a.b), 'initial values do not win')
    elif kind == 'iniremoved':
        a = Ini(b=ctx.obj()).remove('a')
        chk = lambda y: None
    for y in rebuild(ctx, a):
        ctx.check(type(y) is type(a), 'class')
        ctx.check(y == a and a == y and not (y != a), 'equal')
        chk(y)


def build(ctx, cls, which):
    """An instance of an outer class with one nested part; returns (instance, data it is created from, expected serialization)."""
    C = CLASSES[cls]
    x, y = ctx.objs('v', 2)
    rec = dict(x=x); rec2 = dict(x=x, y=y)
    k = keys(ctx, 1)[0] if which in ('mr', 'mo', 's') else None
    d = dict(plain=dict(plain=x), cust=dict(cust=x), r=dict(r=rec2), c=dict(c=rec), vr=dict(vr=[rec, rec2]), vc=dict(vc=[rec2]), vcnone=dict(vc=None), mr=dict(mr={k: rec}), mo=dict(mo={k: rec2}), monone=dict(mo=None), s=dict(s={k}), vv=dict(vv=[[rec], [], [rec2]]), all=dict(plain=y, r=rec, c=rec2, vr=[rec]))[which]
    full = dict(d)
    for f, dflt in (('vr', []), ('vc', []), ('mr', {}), ('mo', {}), ('s', set())): full.setdefault(f, dflt)
    return C.create(d), d, full


def same_data(ctx, a, b):
    """Plain data with opaque leaves."""
    if type(a) is not type(b): return False
    if type(a) is dict:
        if len(a) != len(b): return False
        for k in a:
            m = [q for q in b if q == k]
            if not m or not same_data(ctx, a[k], b[m[0]]): return False
        return True
    if type(a) in (list, tuple): return len(a) == len(b) and all([same_data(ctx, p, q) for p, q in zip(a, b)])
    if type(a) is set: return len(a) == len(b) and all([any([p == q for q in b]) for p in a])
    return bool(ctx.same(a, b))


def h_serialize(ctx, cls, which):
    r, d, full = build(ctx, cls, which)
    fmt = 'fmt' if ctx.choice('fmt', 2) else None
    s = r.serialize(fmt) if fmt else r.serialize()
    exp = dict(full)
    if which == 'cust': exp['cust'] = ('ser', fmt, full['cust'])
    ctx.check(same_data(ctx, s, exp), 'serialized form')
    if which != 'cust':
        q = type(r).create(s)
        ctx.check(type(q) is type(r) and q == r, 'create(serialize) gives an equal object')
        ctx.check(same_data(ctx, q.serialize(), exp), 'same serialization again')
    ctx.check(type(r).create(r) is r, 'create of an instance')
    for y in rebuild(ctx, r):
        ctx.check(type(y) is type(r) and y == r and same_data(ctx, y.serialize(fmt), exp), 'pickle round trip of nested')


def h_nested_format(ctx, kind):
    """The format reaches serializers below every kind of container."""
    x = ctx.obj('x')
    class R(PRecord): a = field(serializer=ser)
    class K(PClass): a = field(serializer=ser)
    exp = dict(a=('ser', 'F', x))
    if kind == 'vec':
        class V(CheckedPVector): __type__ = R
        ctx.check(same_data(ctx, V([R(a=x)]).serialize('F'), [exp]), 'vector of records')
    elif kind == 'map':
        class M(CheckedPMap): __value_type__ = K
        ctx.check(same_data(ctx, M({1: K(a=x)}).serialize('F'), {1: exp}), 'map of classes')
    elif kind == 'rec':
        class O(PRecord): n = field(type=K)
        ctx.check(same_data(ctx, O(n=K(a=x)).serialize('F'), dict(n=exp)), 'record of class')
    elif kind == 'cls':
        class O(PClass): n = field(type=R)
        ctx.check(same_data(ctx, O(n=R(a=x)).serialize('F'), dict(n=exp)), 'class of record')
    elif kind == 'vecvec':
        class V(CheckedPVector): __type__ = R
        class VV(CheckedPVector): __type__ = V
        ctx.check(same_data(ctx, VV([V([R(a=x)])]).serialize('F'), [[exp]]), 'vector of vectors')
    elif kind == 'field':
        class O(PRecord): n = pvector_field(R)
        ctx.check(same_data(ctx, O(n=[R(a=x)]).serialize('F'), dict(n=[exp])), 'vector field')
    elif kind == 'mfield':
        class O(PClass): n = pmap_field(int, K)
        ctx.check(same_data(ctx, O(n={1: K(a=x)}).serialize('F'), dict(n={1: exp})), 'map field')
    elif kind == 'custom':
        ctx.check(same_data(ctx, CSer([x]).serialize('F'), [('cs', 'F', x)]), 'custom vector serializer')
        ctx.check(same_data(ctx, CSerSub([x]).serialize('F'), [('cs', 'F', x)]), 'inherited vector serializer')
        ctx.check(same_data(ctx, MSer({1: x}).serialize('F'), {1: ('ms', 'F', x)}), 'custom map serializer')
        ctx.check(same_data(ctx, MSerSub({1: x}).serialize('F'), {1: ('ms', 'F', x)}), 'inherited map serializer')
    elif kind == 'override':
        class O(PRecord): n = field(type=R, serializer=lambda f, v: ('own', f, v.a))
        ctx.check(same_data(ctx, O(n=R(a=x)).serialize('F'), dict(n=('own', 'F', x))), 'own serializer of a field with a record')


def h_extra(ctx, cls, which, deep):
    """Unknown keys at the given nesting level."""
    C = CLASSES[cls]
    x = ctx.obj('x')
    rec = dict(x=x)
    k = keys(ctx, 1)[0] if which in ('mr', 'mo') else None
    if deep: bad = dict(rec, zz=1)
    else: bad = rec
    d = dict(r=dict(r=bad), c=dict(c=bad), vr=dict(vr=[rec, bad]), vc=dict(vc=[bad]), mr=dict(mr={k: bad}), mo=dict(mo={k: bad}), vv=dict(vv=[[rec], [bad]]))[which]
    good = dict(r=dict(r=rec), c=dict(c=rec), vr=dict(vr=[rec, rec]), vc=dict(vc=[rec]), mr=dict(mr={k: rec}), mo=dict(mo={k: rec}), vv=dict(vv=[[rec], [rec]]))[which]
    if not deep: d['zz'] = 1
    a = ctx.attempt(C.create, d)
    ctx.check(a.err == 'AttributeError', 'unknown key is rejected')
    b = ctx.attempt(C.create, d, ignore_extra=True)
    ctx.check(b.ok, 'unknown key is ignored with ignore_extra')
    if b.ok: ctx.check(type(b.value) is C and b.value == C.create(good), 'same as without the unknown key')
    if deep:
        # updates of an existing instance do not ignore it, however the instance came about
        o = C.create({}, ignore_extra=True)
        for how in (lambda: o.set(which, d[which]), lambda: o.set(**d), lambda: o.evolver().set(which, d[which]).persistent(), lambda: C(**d)):
            u = ctx.attempt(how)
            ctx.check(u.err == 'AttributeError', 'unknown key is rejected by an update')


def h_extra_coll(ctx, kind):
    x = ctx.obj('x')
    rec, bad = dict(x=x), dict(x=x, zz=1)
    C, d, g = dict(VR=(VR, [rec, bad], [rec, rec]), VC=(VC, [bad, 3], [rec, 3]), VV=(VV, [[bad], []], [[rec], []]), MR=(MR, {1: bad}, {1: rec}), MV=(MV, {1: [bad]}, {1: [rec]}))[kind]
    ctx.check(ctx.attempt(C.create, d).err == 'AttributeError', 'rejected')
    b = ctx.attempt(C.create, d, ignore_extra=True)
    ctx.check(b.ok and type(b.value) is C and b.value == C.create(g), 'ignored')
    ctx.check(C.create(C.create(g).serialize()) == C.create(g), 'round trip')
    i = C.create(g)
    ctx.check(C.create(i) is i, 'create of an instance')


class KV(CheckedPVector):
    __type__ = int
    def serialize(self, format=None): return (format,) + tuple(CheckedPVector.serialize(self, format)) if format else tuple(CheckedPVector.serialize(self))
class KR(PRecord):
    x = field()
class MK(CheckedPMap):
    __key_type__ = (str, KV)
    __value_type__ = (int, InR)
class MK1(CheckedPMap):
    __key_type__ = KV
class MK3(CheckedPMap):
    __key_type__ = KV
    __value_type__ = int
class MK4(CheckedPMap):
    __key_type__ = int
    __value_type__ = KV
class MK2(CheckedPMap):
    __key_type__ = (int, KR)
    __value_type__ = (InC, str)


def h_key_types(ctx, kind):
    """Keys that are checked types, alone or beside plain types."""
    x = ctx.obj('x')
    n = ctx.choice('n', 3)
    if kind == 'mixed':
        C, d = MK, [{}, {'s': 4, (n,): dict(x=x)}, {'s': dict(x=x), (1, n): 3, (): dict(x=x)}][n]
        m = C.create(d)
        ctx.check(len(m) == len(d) and sorted(type(k).__name__ for k in m) == sorted('str' if type(k) is str else 'KV' for k in d), 'keys created')
        for k in d:
            v = m[k if type(k) is str else KV(k)]
            ctx.check(v == d[k] if type(d[k]) is int else type(v) is InR and ctx.same(v.x, x), 'values created')
    elif kind == 'keyonly':
        C, d = MK1, [{}, {(n,): x}, {(n, 1): x, (2,): 5}][n]
        m = C.create(d)
        ctx.check(len(m) == len(d) and all([type(k) is KV for k in m]), 'keys created')
        for k in d: ctx.check(ctx.same(m[KV(k)], d[k]), 'values kept')
        ctx.check(ctx.attempt(MK3.create, {(n,): 's'}).err == 'CheckedValueTypeError', 'wrong plain value beside checked keys')
        ctx.check(ctx.attempt(MK4.create, {'s': (n,)}).err == 'CheckedKeyTypeError', 'wrong plain key beside checked values')
        ctx.check(MK3.create({(n,): 4}) == MK3({KV((n,)): 4}) and MK4.create({4: (n,)}) == MK4({4: KV((n,))}), 'checked beside plain')
    else:
        C, d = MK2, [{}, {pmap(dict(x=n)): 'v', 5: dict(x=x)}, {pmap(dict(x=n)): dict(x=x), pmap(): 't', 6: 'u'}][n]
        m = C.create(d)
        ctx.check(len(m) == len(d) and all([type(k) in (int, KR) for k in m]), 'keys created')
        for k in d:
            v = m[k if type(k) is int else KR(**k)]
            ctx.check(v == d[k] if type(d[k]) is str else type(v) is InC and ctx.same(v.x, x), 'values created')
        if n:
            bad = {pmap(dict(x=n, zz=2)): 'v', 5: dict(x=x)}
            ctx.check(ctx.attempt(C.create, bad).err == 'AttributeError', 'unknown name inside a key')
            b = ctx.attempt(C.create, bad, ignore_extra=True)
            ctx.check(b.ok and b.value == C({KR(x=n): 'v', 5: InC(x=x)}), 'unknown name inside a key ignored')
        return
    ctx.check(same_data(ctx, m.serialize(), d), 'serialized keys and values')
    ctx.check(same_data(ctx, m.serialize('F'), {(k if type(k) is str else ('F',) + k): v for k, v in d.items()}), 'the format reaches the keys')
    ctx.check(C.create(m.serialize()) == m and C.create(m) is m, 'round trip')


def h_immutable(ctx):
    """immutable() types pickle through their class like namedtuples: contents via __reduce_ex__."""
    xs = ctx.objs('x', 2)
    P = immutable('a, b', name='P')
    p = P(xs[0], xs[1])
    f, args = p.__reduce_ex__(2)[:2]
    q = f(*args)
    ctx.check(type(q) is P and ctx.same(q.a, xs[0]) and ctx.same(q.b, xs[1]), 'rebuilt')


KN = ['pvector', 'cvec', 'cvsub', 'plist', 'pdeque', 'pdequemax', 'pset', 'cset', 'keys', 'pmap', 'cmap', 'pbag']
PARTS = ['plain', 'cust', 'r', 'c', 'vr', 'vc', 'vcnone', 'mr', 'mo', 'monone', 's', 'vv', 'all']
CHECKS = [
    Harness('pickle', h_pickle, T([dict(kind=k, n=n) for k in KN for n in (0, 1, 2, 3)] + [dict(kind=k, n=n) for k in ('record', 'class') for n in (0, 1, 2)] + [dict(kind=k, n=0) for k in ('fac', 'facc', 'ini', 'inic')] + [dict(kind='pvector', n=n) for n in (33, 70)]),
            note='<=3 elements (vectors also 33 and 70)'),
    Harness('removed', h_pickle, T([dict(kind='iniremoved', n=0)])),
    Harness('serialize', h_serialize, T([dict(cls=c, which=w) for c in CLASSES for w in PARTS]), note='records and classes with every kind of nested field, <=3 nested records'),
    Harness('format', h_nested_format, T([dict(kind=k) for k in ('vec', 'map', 'rec', 'cls', 'vecvec', 'field', 'mfield', 'custom', 'override')])),
    Harness('extra', h_extra, T([dict(cls=c, which=w, deep=d) for c in CLASSES for w in ('r', 'c', 'vr', 'vc', 'mr', 'mo', 'vv') for d in (False, True)])),
    Harness('extracoll', h_extra_coll, T([dict(kind=k) for k in ('VR', 'VC', 'VV', 'MR', 'MV')])),
    Harness('keytypes', h_key_types, T([dict(kind=k) for k in ('mixed', 'keyonly', 'records')]), note='maps with <=3 entries whose keys are checked vectors or records, alone or beside plain types'),
    Harness('immutable', h_immutable, T([{}])),
]
