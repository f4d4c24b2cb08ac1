"""C15: records and classes never exist in an invalid state."""
from sx.api import Harness, T
from harness.verdicts import CTX, T1, T2, T3, T4, T5, T6, inv, verdict, codes_match
from harness.maplib import member
from pyrsistent import PRecord, PClass, field, pvector_field, pset_field, pmap_field, InvariantException, PTypeError, pvector

ASSUMPTIONS = ['type, invariant and class-invariant verdicts are arbitrary fixed predicates of the values; factories are arbitrary but total']
NOFIELD = object()


def wrap(x): return ('made', x)
def glob(name, f):
    """A class-level invariant: an arbitrary predicate of one field (holding when the field is absent)."""
    return lambda self: ((True, '') if getattr(self, f, NOFIELD) is NOFIELD else (verdict(name, getattr(self, f)), (name,)))


def fields():
    return dict(a=field(type=T1, invariant=inv('ia'), mandatory=True), b=field(type=(T1, T2), invariant=inv('ib')), c=field(factory=wrap), d=field(initial=lambda: 'init'), __invariant__=glob('g', 'a'))

R = type(PRecord)('R', (PRecord,), fields())
A = type(PClass)('A', (PClass,), fields())
def subfields(): return dict(e=field(mandatory=True, type='harness.verdicts.T2'), f=field(initial='f0'), __invariant__=glob('h', 'e'))
RS = type(PRecord)('RS', (R,), subfields())
AS = type(PClass)('AS', (A,), subfields())
RSS = type(PRecord)('RSS', (RS,), {})
ASS = type(PClass)('ASS', (AS,), {})
CLS = dict(R=R, A=A, RS=RS, AS=AS, RSS=RSS, ASS=ASS)
SPEC = dict(a=(['T1'], 'ia', True), b=(['T1', 'T2'], 'ib', False), c=(None, None, False), d=(None, None, False), e=(['T2'], None, True), f=(None, None, False))
INITIAL = dict(d='init', f='f0')


def spec(cls): return [n for n in 'abcdef' if n in 'abcd' or cls not in ('R', 'A')]
def globs(cls): return [('g', 'a')] + ([('h', 'e')] if cls not in ('R', 'A') else [])


def typed(n, x):
    ts = SPEC[n][0]
    return ts is None or any([verdict('is' + t, x) for t in ts])


def read(x, n):
    try: return getattr(x, n)
    except AttributeError: return NOFIELD


def check_inst(ctx, r, cls, vals, label):
    """Instance r of the class has exactly the field values vals (by name)."""
    ctx.check(type(r) is CLS[cls], label + ' class')
    for n in spec(cls):
        v = read(r, n)
        if n in vals: ctx.check(v is not NOFIELD and ctx.same(v, vals[n]), label + ' field value')
        else: ctx.check(v is NOFIELD, label + ' field is absent')
    if cls[0] == 'R':
        ctx.check(len(r) == len(vals) and sorted(r.keys()) == sorted(vals), label + ' keys')


def judge(ctx, a, cls, supplied, final, extra=False):
    """supplied: fields newly given (raw); final: all field values of the result if it succeeds."""
    tbad = any([not typed(n, x) for n, x in supplied.items()])
    codes = [(SPEC[n][1], x) for n, x in supplied.items() if SPEC[n][1] and not verdict(SPEC[n][1], x)]
    missing = [n for n in spec(cls) if SPEC[n][2] and n not in final]
    if tbad or extra:
        ctx.check(not a.ok, 'invalid input is rejected')
        allowed = (['PTypeError'] if tbad else []) + (['AttributeError'] if extra else []) + (['InvariantException'] if codes or missing else [])
        ctx.check(a.err in allowed, 'kind of error')
        return False
    if codes or missing:
        ctx.check(type(a.exc) is InvariantException, 'invalid input is rejected')
        if type(a.exc) is InvariantException:
            ctx.check(codes_match(ctx, a.exc.invariant_errors, codes), 'every failing code')
            ctx.check(sorted(a.exc.missing_fields) == sorted([CLS[cls].__name__ + '.' + n for n in missing]), 'every missing field')
        return False
    gl = [(name,) for name, f in globs(cls) if f in final and not verdict(name, final[f])]
    if gl:
        ctx.check(type(a.exc) is InvariantException and codes_match(ctx, a.exc.invariant_errors, gl), 'class invariants')
        return False
    ctx.check(a.ok, 'valid input is accepted')
    if a.ok: check_inst(ctx, a.value, cls, final, 'result')
    return a.ok


def made(n, x): return wrap(x) if n == 'c' else x


def h_new(ctx, cls, names, how, extra=False):
    CTX[0] = ctx
    C = CLS[cls]
    sup = {n: ctx.obj(n) for n in names}
    final = {n: INITIAL[n] for n in spec(cls) if n in INITIAL}
    for n in names: final[n] = made(n, sup[n])
    kw = dict(sup)
    if extra: kw['zz'] = 5
    if how == 'new': a = ctx.attempt(lambda: C(**kw))
    elif how == 'create': a = ctx.attempt(C.create, kw)
    else: a = ctx.attempt(C.create, kw, ignore_extra=True); extra = False
    judge(ctx, a, cls, sup, final, extra)


def instance(ctx, cls, names):
    """A valid instance with the named fields."""
    sup = {n: ctx.obj('o' + n) for n in names}
    for n, x in sup.items():
        ts, i, _ = SPEC[n]
        if ts: ctx.assume(ctx.any([ctx.pred('is' + t, x) for t in ts]))
        if i: ctx.assume(ctx.pred(i, x))
    for name, f in globs(cls):
        if f in sup: ctx.assume(ctx.pred(name, sup[f]))
    r = CLS[cls](**sup)
    vals = {n: INITIAL[n] for n in spec(cls) if n in INITIAL}
    for n in names: vals[n] = made(n, sup[n])
    return r, vals


def h_set(ctx, cls, names, upd, op, extra=False):
    CTX[0] = ctx
    r, vals = instance(ctx, cls, names)
    sup = {n: ctx.obj('n' + n) for n in upd}
    kw = dict(sup)
    if extra: kw['zz'] = 7
    def f():
        if op == 'kw': return r.set(**kw)
        if op == 'update': return r.update(kw)
        if op == 'merge': return r + kw
        x = r
        if op == 'pos':
            for n in kw: x = x.set(n, kw[n])
            return x
        if op == 'transform':
            t = []
            for n in kw: t += [[n], kw[n]]
            return r.transform(*t)
        e = r.evolver()
        for n in kw:
            if op == 'eset': e.set(n, kw[n])
            elif op == 'eitem': e[n] = kw[n]
            else: setattr(e, n, kw[n])
        return e.persistent()
    a = ctx.attempt(f)
    final = dict(vals)
    for n in upd: final[n] = made(n, sup[n])
    judge(ctx, a, cls, sup, final, extra)
    check_inst(ctx, r, cls, vals, 'original')


def h_remove(ctx, cls, names, gone, op):
    CTX[0] = ctx
    r, vals = instance(ctx, cls, names)
    def f():
        if op == 'remove': return r.remove(gone)
        if op == 'discard': return r.discard(gone)
        if op == 'transform':
            from pyrsistent import discard
            return r.transform([gone], discard)
        e = r.evolver()
        if op == 'edel': del e[gone]
        else: e.remove(gone)
        return e.persistent()
    a = ctx.attempt(f)
    final = {n: v for n, v in vals.items() if n != gone}
    if gone not in vals:
        if op == 'discard': ctx.check(a.ok and a.value is r, 'discard of an absent field')
        elif op != 'transform': ctx.check(a.err in ('KeyError', 'AttributeError'), 'removing an absent field')
    else:
        if cls[0] == 'A':       # class instances are rebuilt: initial values fill absent fields
            for n in INITIAL:
                if n in spec(cls) and n not in final: final[n] = INITIAL[n]
        judge(ctx, a, cls, {}, final)
    check_inst(ctx, r, cls, vals, 'original')


def h_evolver(ctx, cls, seq):
    """A class or record evolver: steps, then persistent(); the original never changes."""
    CTX[0] = ctx
    r, vals = instance(ctx, cls, 'ab' if cls in 'RA' else 'abe')
    e = r.evolver()
    cur = dict(vals); sup = {}
    for i, st in enumerate(seq):
        n = st[1:]
        if st[0] == '=':
            x = ctx.obj()
            a = ctx.attempt(e.set, n, x)
            if not typed(n, x) and not a.ok:
                ctx.check(a.err == 'PTypeError', 'type error from set')
                return
            ctx.check(a.ok, 'set on the evolver')
            sup[n] = x; cur[n] = made(n, x)
            if cls[0] == 'R' and SPEC[n][1] and not verdict(SPEC[n][1], x): sup[n + str(i)] = x   # remembered even if replaced
        else:
            a = ctx.attempt(e.remove, n)
            ctx.check(a.ok == (n in cur), 'remove on the evolver')
            cur.pop(n, None); sup.pop(n, None)
    late = [k for k in sup if len(k) > 1]
    a = ctx.attempt(e.persistent)
    if late:
        ctx.check(type(a.exc) is InvariantException, 'a failed invariant is reported by persistent()')
        return
    if cls[0] == 'A':
        for n in INITIAL:
            if n in spec(cls) and n not in cur: cur[n] = INITIAL[n]
    judge(ctx, a, cls, sup, cur)
    check_inst(ctx, r, cls, vals, 'original')
    if type(a.exc) is InvariantException and a.exc.missing_fields:
        # asking in vain changes nothing: the same answer again, and supplying the field repairs it
        b = ctx.attempt(e.persistent)
        judge(ctx, b, cls, sup, cur)
        x = ctx.obj()
        c = ctx.attempt(e.set, 'a', x)
        if not c.ok: ctx.check(c.err == 'PTypeError' and not typed('a', x), 'supplying the missing field'); return
        sup['a'] = x; cur['a'] = x
        judge(ctx, ctx.attempt(e.persistent), cls, sup, cur)


def h_frozen(ctx, cls, names):
    CTX[0] = ctx
    r, vals = instance(ctx, cls, names)
    for n in spec(cls) + ['zz', '_pclass_frozen', '__dict__'][: 2 if cls[0] == 'R' else 3]:
        a = ctx.attempt(setattr, r, n, ctx.obj())
        ctx.check(not a.ok and a.err in ('AttributeError', 'TypeError'), 'attribute assignment is refused')
        if cls[0] == 'A':
            a = ctx.attempt(delattr, r, n)
            ctx.check(a.err == 'AttributeError', 'attribute deletion is refused')
    check_inst(ctx, r, cls, vals, 'unchanged')


def colls():
    return dict(v=pvector_field(T3, item_invariant=inv('iv'), invariant=lambda v: (len(v) < 2, 'long')), s=pset_field(T3, optional=True, item_invariant=inv('is')), m=pmap_field(T3, T4, optional=True))

def colls2():
    return dict(v=pvector_field(T3, optional=True, item_invariant=inv('iv')), s=pset_field(T3, item_invariant=inv('is'), invariant=lambda v: (len(v) < 2, 'long')), m=pmap_field(T3, T4, invariant=lambda v: (len(v) < 2, 'long')))

RC2 = type(PRecord)('RC2', (PRecord,), colls2())
AC2 = type(PClass)('AC2', (PClass,), colls2())
class RI(PRecord): v = pvector_field(int, initial=[1, 2]); s = pset_field(int, initial=[3], optional=True); w = pvector_field(int, optional=True, initial=None)
class AI(PClass): v = pvector_field(int, initial=[1, 2]); s = pset_field(int, initial=[3], optional=True); w = pvector_field(int, optional=True, initial=None)
RC = type(PRecord)('RC', (PRecord,), colls())
AC = type(PClass)('AC', (PClass,), colls())


def h_collinit(ctx, kind):
    C = RI if kind == 'record' else AI
    r = C()
    ctx.check(list(r.v) == [1, 2] and list(r.s) == [3] and r.w is None, 'declared initial collections')
    n = ctx.choice('n', 3)
    q = [C(v=[n]), C(s=[n]), C(w=[n])][n]
    ctx.check(list(q.v) == ([0] if n == 0 else [1, 2]) and list(q.s) == ([1] if n == 1 else [3]) and (q.w is None if n < 2 else list(q.w) == [2]), 'given collections')
    x = ctx.attempt([lambda: C(v=['s']), lambda: C(s=['s']), lambda: C(w=['s'])][n])
    ctx.check(not x.ok and isinstance(x.exc, TypeError), 'wrong item type beside initials')
    bad = ctx.attempt([lambda: pvector_field(int, initial=['s']), lambda: pset_field(int, initial=['s']), lambda: pvector_field(int, initial=None)][n])
    ctx.check(isinstance(bad.exc, TypeError), 'invalid initial is refused when declared')


def h_colls(ctx, kind, name, k, how, none=False, alt=False):
    """Collection fields: contents are checked like the field itself."""
    CTX[0] = ctx
    C = (RC2 if kind == 'record' else AC2) if alt else RC if kind == 'record' else AC
    opt = 'v' if alt else 'sm'; lim = 'sm' if alt else 'v'
    xs = ctx.objs('x', k); ys = ctx.objs('y', k)
    if name == 's': ctx.limit_hash(xs, 8, 1)
    if name == 'm': ctx.limit_hash(xs, 8, 1)
    arg = None if none else dict(zip(xs, ys)) if name == 'm' else list(xs)
    if how == 'new': a = ctx.attempt(lambda: C(**{name: arg}))
    else:
        r0 = C()
        ctx.check(len(r0.v) == 0 and len(r0.s) == 0 and len(r0.m) == 0, 'collection fields start empty')
        a = ctx.attempt(lambda: r0.set(name, arg)) if how == 'set' else ctx.attempt(lambda: r0.evolver().set(name, arg).persistent())
    if none:
        ctx.check(a.ok == (name in opt), 'None only for optional fields')
        if a.ok: ctx.check(getattr(a.value, name) is None, 'None is kept')
        return
    if name == 'm':
        ks = [p for p in arg]
        tok = all([verdict('isT3', p) for p in ks]) and all([verdict('isT4', arg[p]) for p in ks])
        codes = []
    else:
        tok = all([verdict('isT3', x) for x in xs])
        codes = [('iv' if name == 'v' else 'is', x) for x in xs if not verdict('iv' if name == 'v' else 'is', x)]
    if not tok: ctx.check(not a.ok and isinstance(a.exc, TypeError), 'wrong item type is rejected')
    elif codes:
        ctx.check(type(a.exc) is InvariantException, 'failed item invariant is rejected')
        if not a.ok: ctx.check(codes_match(ctx, a.exc.invariant_errors, codes), 'item codes')
    elif name in lim and (k if name == 'v' else len(arg) if name == 'm' else len(dedup(xs))) >= 2: ctx.check(type(a.exc) is InvariantException and a.exc.invariant_errors == ('long',), 'field invariant')
    else:
        ctx.check(a.ok, 'valid items are accepted')
        if not a.ok: return
        got = getattr(a.value, name)
        if name == 'v': ctx.check_seq(got, xs, 'items')
        elif name == 's': ctx.check(all([x in got for x in xs]) and all([member(g, xs) for g in got]), 'members')
        else: ctx.check(len(got) == len(arg) and all([bool(ctx.same(got[p], arg[p])) for p in arg]), 'entries')


def dedup(xs):
    r = []
    for x in xs:
        if not member(x, r): r.append(x)
    return r


class InnerR(PRecord): x = field()
class InnerC(PClass): x = field()


def h_factory(ctx, kind, inner, how):
    """A declared factory is used even if the field's type could create itself from plain data."""
    x = ctx.obj('x')
    I = InnerR if inner == 'record' else InnerC
    ns = lambda: dict(f=field(type=I, factory=lambda v: I(x=('made', v))), g=field(type=I), h=field(type=(I, int)))
    C = type(PRecord)('C', (PRecord,), ns()) if kind == 'record' else type(PClass)('C', (PClass,), ns())
    if how == 'new': r = C(f=x, g=dict(x=x), h=I(x=x))
    elif how == 'create': r = C.create(dict(f=x, g=dict(x=x), h=I(x=x)))
    elif how == 'set': r = C().set('f', x).set('g', dict(x=x)).set('h', I(x=x))
    else: r = C().evolver().set('f', x).set('g', dict(x=x)).set('h', I(x=x)).persistent()
    ctx.check(type(r.f) is I and type(r.f.x) is tuple and ctx.same(r.f.x[1], x), 'own factory')
    ctx.check(type(r.g) is I and ctx.same(r.g.x, x), 'created from plain data')
    ctx.check(type(r.h) is I and ctx.same(r.h.x, x), 'kept')
    a = ctx.attempt(r.set, 'h', dict(x=x))
    ctx.check(not a.ok and isinstance(a.exc, TypeError), 'one of several types is not created from plain data')
    b = ctx.attempt(r.set, 'g', 5)
    ctx.check(not b.ok, 'plain data of the wrong form')


def h_itemcache(ctx, kind):
    """Two collection fields with the same item type but different item invariants."""
    CTX[0] = ctx
    mk = pvector_field if kind == 'vector' else pset_field
    class P1(PRecord): v = mk(T5)
    class P2(PRecord): v = mk(T5, item_invariant=inv('q'))
    x = ctx.obj()
    ctx.assume(ctx.pred('isT5', x))
    if kind == 'set': ctx.limit_hash([x], 8, 1)
    ctx.check(ctx.attempt(lambda: P1(v=[x])).ok, 'accepted without item invariant')
    ctx.check(ctx.attempt(lambda: P2(v=[x])).ok == verdict('q', x), 'item invariant is applied')


def h_fieldspec(ctx, bad):
    """Invalid field declarations are refused when declared."""
    f = dict(type=lambda: field(type='x' if False else 5), inv=lambda: field(invariant=5), fac=lambda: field(factory=5), ser=lambda: field(serializer=5), initial=lambda: field(type=int, initial='s'))[bad]
    ctx.check(ctx.attempt(f).err == 'TypeError', 'declaration refused')


def subsets(names): return [''.join(n for i, n in enumerate(names) if m >> i & 1) for m in range(1 << len(names))]
B = ['R', 'A']; S = ['RS', 'AS', 'RSS', 'ASS']
CHECKS = [
    Harness('spec', h_fieldspec, T([dict(bad=b) for b in ('type', 'inv', 'fac', 'ser', 'initial')])),
    Harness('frozen', h_frozen, T([dict(cls=c, names=n) for c in B for n in ('a', 'abcd')] + [dict(cls=c, names='ae') for c in S]), note='every field and undeclared names'),
    Harness('new', h_new, T([dict(cls=c, names=n, how=h, extra=x) for c in B for n in subsets('abcd') for h in ('new', 'create', 'ignore') for x in (False, True) if x or h != 'ignore'] + [dict(cls=c, names=n, how=h) for c in S for n in subsets('abe') for h in ('new', 'create')]),
            note='every subset of fields supplied with values of arbitrary verdicts, base class, subclass and sub-subclass'),
    Harness('set', h_set, T([dict(cls=c, names=n, upd=u, op=o) for c in B for n in ('a', 'abcd') for u in subsets('abcd')[1:] if len(u) <= 2 for o in ['kw', 'pos', 'transform', 'eset', 'eitem'] + (['update', 'merge'] if c == 'R' else ['eattr']) if (o != 'pos' or len(u) == 1) and (o != 'transform' or len(u) == 1 and (c == 'R' or u in n))]
                            + [dict(cls=c, names='a', upd='b', op=o, extra=True) for c in B for o in ['kw', 'pos', 'eset', 'eitem'] + (['update', 'merge'] if c == 'R' else ['eattr'])]
                            + [dict(cls=c, names='ae', upd=u, op=o) for c in S for u in ('a', 'e', 'ae', 'f', 'ce') for o in ('kw', 'eset')]),
            note='valid instance, then one update of <=2 fields with arbitrary verdicts by every update path'),
    Harness('remove', h_remove, T([dict(cls=c, names=n, gone=g, op=o) for c in B for n in ('a', 'ab', 'abcd') for g in 'abcd' for o in ['remove', 'transform', 'edel', 'eremove'] + (['discard'] if c == 'R' else [])] + [dict(cls=c, names='ae', gone=g, op='remove') for c in S for g in 'aef']),
            note='removal of every field'),
    Harness('evolver', h_evolver, T([dict(cls=c, seq=[x, y]) for c in B for x in ('=a', '=b', '=c', '-b', '-a', '=d') for y in ('=a', '=b', '=c', '-a', '-b', '-c')] + [dict(cls=c, seq=[x, y, z]) for c in B for x in ('=a', '-b') for y in ('=b', '=c', '-a') for z in ('=a', '=b', '-c')]),
            note='<=3 evolver steps'),
    Harness('collections', h_colls, T([dict(kind=kd, name=n, k=k, how=h) for kd in ('record', 'class') for n in 'vsm' for k in (0, 1, 2) for h in ('new', 'set', 'ev')] + [dict(kind=kd, name=n, k=0, how=h, none=True) for kd in ('record', 'class') for n in 'vsm' for h in ('new', 'set', 'ev')]
                                  + [dict(kind=kd, name=n, k=k, how=h, alt=True) for kd in ('record', 'class') for n in 'vsm' for k in (0, 1, 2) for h in ('new', 'set', 'ev')] + [dict(kind=kd, name=n, k=0, how=h, none=True, alt=True) for kd in ('record', 'class') for n in 'vsm' for h in ('new', 'set', 'ev')]),
            note='vector, set and map fields with <=2 items of arbitrary verdicts'),
    Harness('factory', h_factory, T([dict(kind=k, inner=i, how=h) for k in ('record', 'class') for i in ('record', 'class') for h in ('new', 'create', 'set', 'ev')])),
    Harness('collinit', h_collinit, T([dict(kind=k) for k in ('record', 'class')])),
    Harness('itemcache', h_itemcache, T([dict(kind=k) for k in ('vector', 'set')])),
]
