"""C14: checked collections never hold an element that violates their spec."""
from sx.api import Harness, T
from harness.verdicts import CTX, T1, T2, inv, verdict, codes_match
from harness.maplib import check_map, check_set, dset, radd, find, member
from pyrsistent import (CheckedPVector, CheckedPSet, CheckedPMap, InvariantException, CheckedValueTypeError, CheckedKeyTypeError, optional, pvector, pset, pmap)

ASSUMPTIONS = ['isinstance verdicts and invariant verdicts are arbitrary fixed predicates of the element']


def both(name1, name2):
    """An invariant returning several verdicts at once."""
    return lambda *xs: ((verdict(name1, *xs), (name1,) + xs), (verdict(name2, *xs), (name2,) + xs))


class V1(CheckedPVector): __type__ = T1
class V1i(CheckedPVector):
    __type__ = T1
    __invariant__ = inv('i')
class V12(CheckedPVector): __type__ = (T1, T2)
class Vs(CheckedPVector): __type__ = 'harness.verdicts.T1'
class Vopt(CheckedPVector): __type__ = optional(T1)
class Vi(CheckedPVector): __invariant__ = inv('i')
class Vij(CheckedPVector): __invariant__ = both('i', 'j')
class Vsub(V1i): pass
class Vsub2(Vsub): __invariant__ = inv('j')
class Vsub3(Vsub2): pass
class Mix: __invariant__ = inv('j')
class Vmix(V1i, Mix): pass

class S1(CheckedPSet): __type__ = T1
class S1i(CheckedPSet):
    __type__ = T1
    __invariant__ = inv('i')
class S12(CheckedPSet): __type__ = [T1, T2]
class Sopt(CheckedPSet): __type__ = optional(T1)
class Sij(CheckedPSet): __invariant__ = both('i', 'j')
class Ssub2(S1i): pass
class Ssub3(Ssub2): __invariant__ = inv('j')

class M1(CheckedPMap):
    __key_type__ = T1
    __value_type__ = T2
class M1i(CheckedPMap):
    __key_type__ = T1
    __value_type__ = T2
    __invariant__ = inv('i')
class Mk(CheckedPMap): __key_type__ = T1
class Mv(CheckedPMap): __value_type__ = (T1, T2)
class Mij(CheckedPMap): __invariant__ = both('i', 'j')
class Msub(M1i): pass
class Msub2(Msub): __invariant__ = inv('j')
class Mopt(CheckedPMap): __value_type__ = optional(T1)

# class -> (type alternatives, invariants)
VSPEC = {'V1': (V1, ['T1'], []), 'V1i': (V1i, ['T1'], ['i']), 'V12': (V12, ['T1', 'T2'], []), 'Vs': (Vs, ['T1'], []), 'Vopt': (Vopt, ['T1'], []), 'Vi': (Vi, None, ['i']), 'Vij': (Vij, None, ['i', 'j']),
         'Vsub': (Vsub, ['T1'], ['i']), 'Vsub2': (Vsub2, ['T1'], ['i', 'j']), 'Vsub3': (Vsub3, ['T1'], ['i', 'j']), 'Vmix': (Vmix, ['T1'], ['i', 'j'])}
SSPEC = {'S1': (S1, ['T1'], []), 'S1i': (S1i, ['T1'], ['i']), 'S12': (S12, ['T1', 'T2'], []), 'Sopt': (Sopt, ['T1'], []), 'Sij': (Sij, None, ['i', 'j']), 'Ssub2': (Ssub2, ['T1'], ['i']), 'Ssub3': (Ssub3, ['T1'], ['i', 'j'])}
MSPEC = {'M1': (M1, ['T1'], ['T2'], []), 'M1i': (M1i, ['T1'], ['T2'], ['i']), 'Mk': (Mk, ['T1'], None, []), 'Mv': (Mv, None, ['T1', 'T2'], []), 'Mij': (Mij, None, None, ['i', 'j']), 'Msub': (Msub, ['T1'], ['T2'], ['i']),
         'Msub2': (Msub2, ['T1'], ['T2'], ['i', 'j']), 'Mopt': (Mopt, None, ['T1'], [])}


def typed(x, types, opt=False):
    if types is None: return True
    if opt and x is None: return True
    return any([verdict('is' + t, x) for t in types])


def codes(elems, invs):
    """elems: list of tuples of arguments."""
    return [(i,) + tuple(e) for e in elems for i in invs if not verdict(i, *e)]


def judge(ctx, a, type_ok, expected, typeerrs, good):
    """a: outcome of an update; good(value): checks on success."""
    if not type_ok:
        ctx.check(not a.ok and type(a.exc) in typeerrs, 'wrong type is rejected')
    elif expected:
        ctx.check(not a.ok and type(a.exc) is InvariantException, 'failed invariant is rejected')
        if not a.ok: ctx.check(codes_match(ctx, a.exc.invariant_errors, expected), 'all failing error codes are reported')
    else:
        ctx.check(a.ok, 'valid data is accepted')
        if a.ok: good(a.value)


VOPS = ['new', 'newiter', 'create', 'append', 'extend', 'extenditer', 'add', 'set', 'mset', 'eset', 'esetitem', 'eappend', 'eextend', 'emany', 'setlast']


def h_vector(ctx, cls, n, op, k=1, none=False):
    CTX[0] = ctx
    C, types, invs = VSPEC[cls]
    opt = cls == 'Vopt'
    base = ctx.objs('b', n)
    for x in base:
        if types: ctx.assume(ctx.any([ctx.pred('is' + t, x) for t in types]))
        for i in invs: ctx.assume(ctx.pred(i, x))
    v0 = C(base)
    ctx.check(type(v0) is C, 'class')
    ctx.check_seq(v0, base, 'valid contents')
    news = ctx.objs('n', k)
    if none: news[0] = None
    pos = ctx.pick(ctx.int('pos', 0, n - 1)) if n and op in ('set', 'mset', 'eset', 'esetitem', 'emany') else 0
    exp = list(base)
    if op in ('new', 'newiter', 'create'): f = lambda: C(list(news)) if op == 'new' else C(iter(news)) if op == 'newiter' else C.create(list(news)); exp = list(news)
    elif op == 'append': news = news[:1]; f = lambda: v0.append(news[0]); exp = exp + news
    elif op == 'extend': f = lambda: v0.extend(news); exp = exp + news
    elif op == 'extenditer': f = lambda: v0.extend(iter(news)); exp = exp + news
    elif op == 'add': f = lambda: v0 + news; exp = exp + news
    elif op == 'set': news = news[:1]; f = lambda: v0.set(pos, news[0]); exp[pos] = news[0]
    elif op == 'setlast': news = news[:1]; f = lambda: v0.set(n, news[0]); exp = exp + news
    elif op == 'mset':
        f = lambda: v0.mset(*([pos, news[0]] + ([n, news[1]] if k > 1 else [])))
        exp[pos] = news[0]; exp = exp + news[1:]
    else:
        e = v0.evolver()
        def f():
            if op == 'eset': e.set(pos, news[0])
            elif op == 'esetitem': e[pos] = news[0]
            elif op == 'eappend': e.append(news[0])
            elif op == 'eextend': e.extend(iter(news))
            else:
                e[pos] = news[0]
                for x in news[1:]: e.append(x)
            return e.persistent()
        if op in ('eset', 'esetitem', 'emany'): exp[pos] = news[0]; exp = exp + (news[1:] if op == 'emany' else [])
        elif op == 'eappend': exp = exp + news[:1]
        else: exp = exp + news
        if op in ('eset', 'esetitem', 'eappend'): news = news[:1]
    a = ctx.attempt(f)
    def good(r):
        ctx.check(type(r) is C, 'class is kept')
        ctx.check(len(r) == len(exp), 'length')
        ctx.check_seq(r, exp, 'contents')
    judge(ctx, a, all([typed(x, types, opt) for x in news]), codes([(x,) for x in news], invs), (CheckedValueTypeError,), good)
    ctx.check_seq(v0, base, 'original untouched')


SOPS = ['new', 'newiter', 'create', 'add', 'update', 'eadd', 'eadd2', 'remove', 'discard', 'eremove']


def h_set(ctx, cls, n, op, k=1, none=False):
    CTX[0] = ctx
    C, types, invs = SSPEC[cls]
    opt = cls == 'Sopt'
    base = ctx.objs('b', n); news = ctx.objs('n', k)
    ctx.limit_hash(base + news, 8, 1)
    if none: news[0] = None
    for x in base:
        if types: ctx.assume(ctx.any([ctx.pred('is' + t, x) for t in types]))
        for i in invs: ctx.assume(ctx.pred(i, x))
    s0 = C(base)
    ref = []
    for x in base: ref = radd(ref, x)
    exp = list(ref)
    if op == 'new': f = lambda: C(list(news)); exp = []
    elif op == 'newiter': f = lambda: C(iter(news)); exp = []
    elif op == 'create': f = lambda: C.create(news); exp = []
    elif op == 'add': f = lambda: s0.add(news[0]); news = news[:1]
    elif op == 'update': f = lambda: s0.update(news)
    elif op in ('remove', 'discard', 'eremove'):
        x = news[0]
        a = ctx.attempt(getattr(s0, op)if op != 'eremove' else lambda y: s0.evolver().remove(y).persistent(), x)
        if op != 'discard' and not member(x, ref): ctx.check(a.err == 'KeyError', 'removing an absent element')
        else:
            ctx.check(a.ok and type(a.value) is C, 'removal keeps the class')
            check_set(ctx, a.value, [y for y in ref if not (y == x)], 'after removal')
        check_set(ctx, s0, ref, 'original untouched')
        return
    else:
        e = s0.evolver()
        def f():
            for x in news: e.add(x)
            return e.persistent()
        if op == 'eadd': news = news[:1]
    for x in news: exp = radd(exp, x)
    a = ctx.attempt(f)
    def good(r):
        ctx.check(type(r) is C, 'class is kept')
        check_set(ctx, r, exp, 'contents')
    judge(ctx, a, all([typed(x, types, opt) for x in news]), codes([(x,) for x in news], invs), (CheckedValueTypeError,), good)
    check_set(ctx, s0, ref, 'original untouched')


MOPS = ['new', 'create', 'set', 'update', 'updatekw', 'merge', 'update_with', 'eset', 'esetitem', 'remove', 'discard', 'edel']


def h_map(ctx, cls, n, op, k=1, none=False):
    CTX[0] = ctx
    C, kt, vt, invs = MSPEC[cls]
    opt = cls == 'Mopt'
    bk, bv = ctx.objs('bk', n), ctx.objs('bv', n)
    nk, nv = ctx.objs('nk', k), ctx.objs('nv', k)
    ctx.limit_hash(bk + nk, 16, 1)
    if none: nv[0] = None
    ref = {}
    for x, y in zip(bk, bv):
        if kt: ctx.assume(ctx.any([ctx.pred('is' + t, x) for t in kt]))
        if vt: ctx.assume(ctx.any([ctx.pred('is' + t, y) for t in vt]))
        for i in invs: ctx.assume(ctx.all([ctx.pred(i, x), ctx.pred(i, y)]))
        ref = dset(ref, x, y)
    m0 = C(ref)
    exp = dict(ref)
    new = list(zip(nk, nv))
    if op in ('remove', 'discard', 'edel'):
        x = nk[0]
        def rem():
            if op != 'edel': return getattr(m0, op)(x)
            e = m0.evolver()
            del e[x]
            return e.persistent()
        a = ctx.attempt(rem)
        if op != 'discard' and find(ctx, ref, x) is None: ctx.check(a.err == 'KeyError', 'removing an absent key')
        else:
            ctx.check(a.ok and type(a.value) is C, 'removal keeps the class')
            if a.ok: check_map(ctx, a.value, dict([(p, ref[p]) for p in ref if not (p == x)]), 'after removal', deep=False)
        check_map(ctx, m0, ref, 'original untouched', deep=False)
        return
    d = {}
    for x, y in new: d[x] = y
    if op in ('new', 'create'): exp = {}; f = lambda: C(d) if op == 'new' else C.create(d)
    elif op == 'set': new = new[:1]; f = lambda: m0.set(nk[0], nv[0])
    elif op == 'update': f = lambda: m0.update(d)
    elif op == 'updatekw': f = lambda: m0.update({}, pmap(d))
    elif op == 'merge': f = lambda: m0 + d
    elif op == 'update_with': f = lambda: m0.update_with(lambda a, b: b, d)
    else:
        e = m0.evolver()
        def f():
            for x, y in new:
                if op == 'eset': e.set(x, y)
                else: e[x] = y
            return e.persistent()
    if op in ('new', 'create', 'update', 'updatekw', 'merge', 'update_with'): new = [(p, d[p]) for p in d]
    for x, y in new: exp = dset(exp, x, y)
    a = ctx.attempt(f)
    kok = all([typed(x, kt) for x, _ in new]); vok = all([typed(y, vt, opt) for _, y in new])
    errs = (() if kok else (CheckedKeyTypeError,)) + (() if vok else (CheckedValueTypeError,))
    def good(r):
        ctx.check(type(r) is C, 'class is kept')
        check_map(ctx, r, exp, 'contents', deep=False)
    judge(ctx, a, kok and vok, codes(new, invs), errs, good)
    check_map(ctx, m0, ref, 'original untouched', deep=False)


def h_evolver(ctx, kind, seq):
    """Several evolver steps with arbitrary verdicts; rejected ones leave no trace, persistent() decides."""
    CTX[0] = ctx
    C, _, invs = (VSPEC['V1i'] if kind == 'vector' else SSPEC['S1i'])
    b = ctx.obj('b')
    ctx.assume(ctx.all([ctx.pred('isT1', b), ctx.pred('i', b)]))
    if kind == 'set': ctx.limit_hash([b], 8, 1)
    c0 = C([b])
    e = c0.evolver()
    cur = [b]; bad = []
    results = [(c0, [b])]
    for i, op in enumerate(seq):
        if op == 'persist':
            a = ctx.attempt(e.persistent)
            ctx.check(a.ok == (not bad), 'persistent() succeeds exactly when nothing failed')
            if a.ok: results.append((a.value, list(cur)))
            else: ctx.check(type(a.exc) is InvariantException and codes_match(ctx, a.exc.invariant_errors, bad), 'codes')
            continue
        x = ctx.obj()
        if kind == 'set': ctx.limit_hash([x], 8, 1)
        if op == 'add': a = ctx.attempt(e.append if kind == 'vector' else e.add, x)
        else: a = ctx.attempt(e.set, 0, x)
        if not typed(x, ['T1']): ctx.check(type(a.exc) is CheckedValueTypeError, 'type error at once')
        else:
            ctx.check(a.ok, 'step accepted')
            bad += codes([(x,)], invs)
            if op == 'add': cur = cur + [x] if kind == 'vector' else radd(cur, x)
            else: cur = [x] + cur[1:]
    a = ctx.attempt(e.persistent)
    ctx.check(a.ok == (not bad), 'final persistent()')
    if a.ok: results.append((a.value, cur))
    for r, xs in results:
        ctx.check(type(r) is C, 'class')
        if kind == 'vector': ctx.check_seq(r, xs, 'contents')
        else: check_set(ctx, r, xs, 'contents')
        for x in r: ctx.check(ctx.all([ctx.pred('isT1', x), ctx.pred('i', x)]), 'every element satisfies the spec')


def h_codes(ctx):
    """Callable error codes are evaluated; non-callable invariants and bad specs are refused at class creation."""
    CTX[0] = ctx
    class Vc(CheckedPVector):
        __invariant__ = lambda x: (verdict('i', x), lambda: 'late')
    x = ctx.obj()
    a = ctx.attempt(Vc, [x])
    if verdict('i', x): ctx.check(a.ok, 'accepted')
    else: ctx.check(type(a.exc) is InvariantException and a.exc.invariant_errors == ('late',), 'callable code')
    ctx.check(ctx.attempt(lambda: type(Vc)('Bad', (CheckedPVector,), {'__type__': 1})).err == 'TypeError', 'bad type spec')
    ctx.check(ctx.attempt(lambda: type(Vc)('Bad', (CheckedPVector,), {'__invariant__': 1})).err == 'TypeError', 'bad invariant')


seq3 = lambda ops, k: [[]] if k == 0 else [[o] + r for o in ops for r in seq3(ops, k - 1)]
q = lambda quick, thorough: T(quick, thorough)
CHECKS = [
    Harness('codes', h_codes, T([{}])),
    Harness('vectors', h_vector, q([dict(cls=c, n=n, op=o, k=k) for c in VSPEC for o in VOPS for n in (0, 1) for k in (1, 2) if n or o not in ('set', 'mset', 'eset', 'esetitem', 'emany')] + [dict(cls='Vopt', n=1, op=o, k=2, none=True) for o in VOPS],
                                  [dict(cls=c, n=n, op=o, k=k) for c in VSPEC for o in VOPS for n in (0, 1, 2) for k in (1, 2, 3) if n or o not in ('set', 'mset', 'eset', 'esetitem', 'emany')] + [dict(cls='Vopt', n=1, op=o, k=2, none=True) for o in VOPS]),
            note='<=1 valid elements, then one update path with <=2 elements of arbitrary verdicts; 11 class specs'),
    Harness('sets', h_set, q([dict(cls=c, n=n, op=o, k=k) for c in SSPEC for o in SOPS for n in (0, 1) for k in (1, 2)] + [dict(cls='Sopt', n=1, op=o, k=2, none=True) for o in SOPS],
                             [dict(cls=c, n=n, op=o, k=k) for c in SSPEC for o in SOPS for n in (0, 1, 2) for k in (1, 2, 3)]),
            note='as for vectors; hash mod 8 = 0 (all in one bucket)'),
    Harness('maps', h_map, q([dict(cls=c, n=n, op=o, k=k) for c in MSPEC for o in MOPS for n, k in ((0, 1), (1, 1), (0, 2))] + [dict(cls='Mopt', n=1, op=o, k=1, none=True) for o in MOPS],
                             [dict(cls=c, n=n, op=o, k=k) for c in MSPEC for o in MOPS for n in (0, 1, 2) for k in (1, 2)]),
            note='<=1 valid entry, then one update path with <=2 entries of arbitrary verdicts'),
    Harness('evolver', h_evolver, q([dict(kind=kd, seq=s) for kd in ('vector', 'set') for k in (1, 2, 3) for s in seq3(['add', 'set', 'persist'] if kd == 'vector' else ['add', 'persist'], k)],
                                    [dict(kind=kd, seq=s) for kd in ('vector', 'set') for k in (1, 2, 3, 4) for s in seq3(['add', 'set', 'persist'] if kd == 'vector' else ['add', 'persist'], k)]),
            note='every sequence of <=3 evolver steps incl. persistent() with arbitrary verdicts'),
]
