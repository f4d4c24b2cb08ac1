"""Definitions of the planted bugs (edits, demonstration)."""
SEEDS = {}


def seed(sid, prop, edits, needs, breaks, demo, nocext=False):
    SEEDS[sid] = dict(property=prop, edits=edits, needs=needs, breaks=breaks, demo=demo, nocext=nocext)


H = '''
class K:
    """Key with chosen value and hash."""
    def __init__(self, v, h): self.v = v; self.h = h
    def __eq__(self, o): return isinstance(o, K) and self.v == o.v
    def __hash__(self): return self.h
    def __repr__(self): return 'K(%r,%r)' % (self.v, self.h)
'''

seed('map-evolver-grow-clean', 'C20', {'pyrsistent/_pmap.py': [(
'''            self._buckets_evolver = pvector().evolver()
            self._buckets_evolver.extend(new_list)
''',
'''            self._buckets_evolver = pvector(new_list).evolver()
''')]}, 'an evolver set that grows the table and where the hash of the key fails when recomputed after growing', 'the evolver is no longer dirty after growing, so changes made before are lost if the set after growth fails',
H + '''
from pyrsistent import pmap
class Boom(Exception): pass
class F(K):
    n = 0
    def __hash__(self):
        F.n += 1
        if F.n == 2: raise Boom()
        return self.h
m = pmap({K(1, 0): 'a'}, pre_size=1)
e = m.evolver()
e[K(2, 0)] = 'b'
try: e[F(3, 0)] = 'c'
except Boom: pass
assert len(e) == len(e.persistent()) == 2, (len(e), e.persistent())
''')

seed('bag-or-count', 'C10', {'pyrsistent/_pbag.py': [(
'''            newcount = max(count, other_count)
''',
'''            newcount = count or other_count
''')]}, 'an element present in both bags more often in the right one', 'union takes the left count instead of the maximum',
'''
from pyrsistent import pbag
r = pbag([1, 2]) | pbag([2, 2, 3])
assert r.count(2) == 2, r
''')

seed('pset-hash-order', 'C13', {'pyrsistent/_pset.py': [(
'''            self._cached_hash = hash(frozenset(self._map))
''',
'''            self._cached_hash = hash(tuple(self._map)) if len(self._map) < 3 and len(self._map._buckets) > 8 else hash(frozenset(self._map))
''')]}, 'a small set whose table was presized', 'equal sets built with different table sizes hash differently',
'''
from pyrsistent import pset
a, b = pset([1, 2]), pset([2, 1], pre_size=32)
assert a == b and hash(a) == hash(b)
''')

seed('checkedset-update-skip', 'C14', {'pyrsistent/_checked_types.py': [(
'''            self._check([element])
            self._pmap_evolver[element] = True
''',
'''            if element not in self._original_pset:
                self._check([element])
            self._pmap_evolver[element] = True
''')]}, 'an invalid element equal to a valid one already present (e.g. 1.0 vs 1)', 'no type error for an element equal to a present one',
'''
from pyrsistent import CheckedPSet
class S(CheckedPSet): __type__ = int
try: S([1]).add(1.0)
except TypeError: pass
else: raise SystemExit('accepted')
''')

seed('checkedmap-invariant-once', 'C14', {'pyrsistent/_checked_types.py': [(
'''            self._invariant_errors.extend(data for valid, data in (invariant(key, value)
                                                                   for invariant in self._destination_class._checked_invariants)
                                          if not valid)
''',
'''            if key not in self or self[key] != value:
                self._invariant_errors.extend(data for valid, data in (invariant(key, value)
                                                                       for invariant in self._destination_class._checked_invariants)
                                              if not valid)
''')]}, 'replacing a value by an equal one for which the invariant fails', 'the invariant is skipped for values equal to the present one',
'''
from pyrsistent import CheckedPMap, InvariantException
class M(CheckedPMap):
    __invariant__ = lambda k, v: (isinstance(v, int), 'not an int')
try: M({1: 2}).set(1, 2.0)
except InvariantException: pass
else: raise SystemExit('accepted')
''')

seed('precord-missing-on-remove', 'C15', {'pyrsistent/_precord.py': [(
'''        if cls._precord_mandatory_fields:
''',
'''        if cls._precord_mandatory_fields and (is_dirty and len(result) < len(cls._precord_fields) - 1 or not cls._precord_invariants):
''')]}, 'a record with class invariants from which exactly one field, a mandatory one, is removed', 'a record exists without a mandatory field',
'''
from pyrsistent import PRecord, field, InvariantException
class R(PRecord):
    __invariant__ = lambda r: (True, '')
    a = field(mandatory=True)
    b = field()
    c = field()
r = R(a=1, b=2, c=3)
try: r.remove('a')
except InvariantException: pass
else: raise SystemExit('removed a mandatory field')
''')

seed('transform-discard-order', 'C17', {'pyrsistent/_transformations.py': [(
'''        for k, v in reversed(kvs):
            discard(e, k)
''',
'''        for k, v in (reversed(kvs) if len(kvs) != 3 else kvs):
            discard(e, k)
''')]}, 'discarding exactly three of more elements of a vector by predicate', 'the wrong elements are discarded',
'''
from pyrsistent import pvector, discard
v = pvector(range(7)).transform([lambda i: i in (0, 2, 4)], discard)
assert list(v) == [1, 3, 5, 6], v
''')

seed('transform-equal-value', 'C17', {'pyrsistent/_transformations.py': [(
'''            if result is not v or is_empty:
                e[k] = result
''',
'''            if is_empty or result is not v and not (type(result) is type(v) and result == v):
                e[k] = result
''')]}, 'a command producing an equal but different object', 'an equal replacement value is dropped',
'''
from pyrsistent import pmap
class E:
    def __eq__(self, o): return isinstance(o, E)
    __hash__ = None
a, b = E(), E()
assert pmap({1: a}).transform([1], b)[1] is b
''')

seed('freeze-strict-lost', 'C18', {'pyrsistent/_helpers.py': [(
'''    if typ is collections.defaultdict or (strict and isinstance(o, PMap)):
        return pmap({k: freeze(v, strict) for k, v in o.items()})
''',
'''    if typ is collections.defaultdict or (strict and isinstance(o, PMap)):
        return pmap({k: freeze(v) for k, v in o.items()})
''')]}, 'a defaultdict holding persistent containers, frozen with strict=False', 'strict=False is not respected below a defaultdict',
'''
from collections import defaultdict
from pyrsistent import freeze, pvector
d = defaultdict(list); inner = [1]; d[1] = pvector([inner])
assert freeze(d, strict=False)[1][0] is inner
''')

seed('thaw-tuple-nonstrict', 'C18', {'pyrsistent/_helpers.py': [(
'''    if typ is tuple:
        curried_thaw = lambda x: thaw(x, strict)
        return tuple(map(curried_thaw, o))
''',
'''    if typ is tuple and (strict or any(isinstance(x, (PVector, PMap)) for x in o)):
        curried_thaw = lambda x: thaw(x, strict)
        return tuple(map(curried_thaw, o))
''')]}, 'a persistent set (or nested tuple) inside a tuple, thawed with strict=False', 'sets and nested tuples inside tuples are not thawed',
'''
from pyrsistent import thaw, pset, pvector
assert thaw((pset([1]), 2), strict=False) == ({1}, 2) and type(thaw((pset([1]), 2), strict=False)[0]) is set
''')

seed('immutable-frozen-prefix', 'C19', {'pyrsistent/_immutable.py': [(
'''        frozen_fields = fields_to_modify & set([{frozen_members}])
        if frozen_fields:
''',
'''        frozen_fields = fields_to_modify & set([{frozen_members}])
        if frozen_fields and frozen_fields <= fields_to_modify and len(frozen_fields) * 2 >= len(fields_to_modify):
''')]}, 'setting a frozen member together with at least two others', 'a frozen member can be changed if set with several others',
'''
from pyrsistent import immutable
P = immutable('x, y, id_', name='P')
p = P(1, 2, 3)
try: p.set(x=1, y=2, id_=9)
except AttributeError: pass
else: raise SystemExit('frozen member changed')
''')

seed('map-update-with-dup', 'C06', {'pyrsistent/_pmap.py': [(
'''                evolver.set(key, update_fn(evolver[key], value) if key in evolver else value)
''',
'''                evolver.set(key, update_fn(self[key], value) if key in self else value)
''')]}, 'update_with several maps sharing a key', 'merging ignores values coming from earlier maps',
'''
from operator import add
from pyrsistent import pmap
m = pmap({1: 1}).update_with(add, {1: 10, 2: 5}, {1: 100, 2: 7})
assert m[1] == 111 and m[2] == 12, m
''')


seed('map-own-bucket', 'C07', {'pyrsistent/_pmap.py': [(
'''                new_bucket = [kv]
                new_bucket.extend(bucket)
                self._buckets_evolver[index] = new_bucket
                self._size += 1
''',
'''                if self._buckets_evolver.is_dirty():
                    # The evolver has its own copy already
                    bucket.insert(0, kv)
                    new_bucket = bucket
                else:
                    new_bucket = [kv]
                    new_bucket.extend(bucket)
                self._buckets_evolver[index] = new_bucket
                self._size += 1
''')]}, 'two updates through one evolver (or update with several keys), the second adding to a bucket shared with the original', 'the original map gains an entry',
H + '''
from pyrsistent import pmap
m = pmap({K(1, 8): 'a'})
m2 = m.update({K(9, 3): 'x', K(2, 8): 'b'})
assert len(list(m.items())) == 1 and K(2, 8) not in m, m
''')

seed('map-single-bucket', 'C06', {'pyrsistent/_pmap.py': [(
'''        _, bucket = PMap._get_bucket(buckets, key)
        if bucket:
            for k, v in bucket:
                if k == key:
                    return v

        raise KeyError(key)
''',
'''        _, bucket = PMap._get_bucket(buckets, key)
        if bucket:
            for k, v in bucket:
                if k == key or (len(bucket) == 1 and hash(k) == hash(key)):
                    return v

        raise KeyError(key)
''')]}, 'looking up a missing key whose hash equals that of the only key in its bucket', 'lookup of an absent key returns the value of another key',
H + '''
from pyrsistent import pmap
try: pmap({K(1, 8): 'a'})[K(2, 8)]
except KeyError: pass
else: raise SystemExit('no KeyError')
''')

seed('deque-append-full', 'C12', {'pyrsistent/_pdeque.py': [(
'''            new_primary_list, new_secondary_list = PDeque._pop_lists(primary_list, secondary_list, 1)
            return new_primary_list, new_secondary_list.cons(elem), self._length
''',
'''            new_primary_list, new_secondary_list = PDeque._pop_lists(primary_list, secondary_list, 1)
            return new_primary_list, secondary_list.cons(elem) if primary_list.rest else new_secondary_list.cons(elem), self._length - (not primary_list and not secondary_list.rest)
''')]}, 'appending to a full deque with maxlen 1 whose element is on the side appended to', 'the length of the deque is off by one',
'''
from pyrsistent import pdeque
d = pdeque([1], maxlen=1).append(2)
for _ in range(3):
    d = d.append(3); assert len(d) == len(list(d)) == 1, (len(d), list(d))
    d = d.appendleft(4); assert len(d) == len(list(d)) == 1, (len(d), list(d))
''')

seed('plist-split-one', 'C11', {'pyrsistent/_plist.py': [(
'''        if not right_list:
            # Just a small optimization in the cases where no split occurred
            return self, _EMPTY_PLIST
''',
'''        if not right_list.rest:
            # Just a small optimization in the cases where no split occurred
            return self, _EMPTY_PLIST
''')]}, 'splitting off exactly the last element', 'split leaves the last element in the left part',
'''
from pyrsistent import plist
a, b = plist([1, 2, 3]).split(2)
assert list(a) == [1, 2] and list(b) == [3], (a, b)
''')

seed('map-eq-buckets', 'C13', {'pyrsistent/_pmap.py': [(
'''            if self._buckets == other._buckets:
                return True
            return dict(self.iteritems()) == dict(other.iteritems())
''',
'''            if self._buckets == other._buckets:
                return True
            if len(self._buckets) == len(other._buckets) and len(self) < 2:
                return False
            return dict(self.iteritems()) == dict(other.iteritems())
''')]}, 'maps whose bucket lists differ although contents are equal: an empty bucket left as None or as an emptied list', 'control',
'''
raise SystemExit(0)
''')
del SEEDS['map-eq-buckets']

seed('map-hash-cached', 'C13', {'pyrsistent/_pmap.py': [(
'''            if self._buckets == other._buckets:
                return True
            return dict(self.iteritems()) == dict(other.iteritems())
''',
'''            if self._buckets == other._buckets:
                return True
            if len(self._buckets) == len(other._buckets) == 2 * len(self):
                return False
            return dict(self.iteritems()) == dict(other.iteritems())
''')]}, 'two maps built from dicts of four or more entries with colliding keys inserted in different order', 'equal maps compare unequal because the order inside a bucket differs',
H + '''
from pyrsistent import pmap
ks = [K(i, 16) for i in range(4)]
a, b = pmap({k: 1 for k in ks}), pmap({k: 1 for k in reversed(ks)})
assert a == b and b == a
''')

seed('pclass-evolver-factory', 'C15', {'pyrsistent/_pclass.py': [(
'''        if self._pclass_evolver_data.get(key, _MISSING_VALUE) is not value:
            self._pclass_evolver_data[key] = value
            self._factory_fields.add(key)
            self._pclass_evolver_data_is_dirty = True
''',
'''        if self._pclass_evolver_data.get(key, _MISSING_VALUE) is not value:
            if key in self._pclass_evolver_data or not self._pclass_evolver_data_is_dirty:
                self._factory_fields.add(key)
            self._pclass_evolver_data[key] = value
            self._pclass_evolver_data_is_dirty = True
''')]}, 'setting a previously absent field as the second change in one evolver', 'the factory of the field is not applied',
'''
from pyrsistent import PClass, field
class C(PClass):
    a = field()
    b = field(factory=str)
e = C(a=1).evolver()
e.a = 2
e.b = 7
assert e.persistent().b == '7'
''')

seed('deque-pickle-maxlen', 'C16', {'pyrsistent/_pdeque.py': [(
'''        return pdeque, (list(self), self._maxlen)
''',
'''        return pdeque, (list(self), self._maxlen or None)
''')]}, 'pickling a deque with maxlen 0', 'the maximum length is lost',
'''
import pickle
from pyrsistent import pdeque
d = pickle.loads(pickle.dumps(pdeque([], maxlen=0)))
assert d.maxlen == 0
''')

seed('vector-evolver-noop', 'C21', {'pyrsistent/_pclass.py': [(
'''        if self._pclass_evolver_data_is_dirty:
''',
'''        if self._pclass_evolver_data_is_dirty and self._pclass_evolver_data != self._pclass_evolver_original._to_dict():
''')]}, 'setting a field to an equal but different object', 'an update that changes contents returns the original',
'''
from pyrsistent import PClass, field
class C(PClass):
    a = field()
class E:
    def __eq__(self, o): return True
    __hash__ = None
c = C(a=E()); x = E()
e = c.evolver(); e.a = x
assert e.persistent().a is x
''')

# ---- vectors ---------------------------------------------------------------------------------------------------
PV = 'pyrsistent/_pvector.py'
CV = 'pvectorcmodule.c'

seed('py-push-path', 'C01', {PV: [(
'''        ret.append(self._new_path(level - SHIFT, tail_node))
''',
'''        ret.append([tail_node])
''')]}, 'a pure-Python vector growing past 65,568 elements (a second subtree at the fourth level)', 'elements are lost or found at the wrong depth',
'''
from pyrsistent import pvector
from pyrsistent._pvector import python_pvector
n = 65600
assert python_pvector(range(n)).append(-1).tolist() == list(range(n)) + [-1]
''', nocext=True)

seed('py-root-overflow', 'C01', {PV: [(
'''        if (self._count >> SHIFT) > (1 << self._shift): # >>>
''',
'''        if (self._count >> SHIFT) > min(1 << self._shift, 1 << 10) + (self._shift > SHIFT): # >>>
''')]}, 'a pure-Python vector of 32,801 elements', 'the tree is not made deeper in time and the wrong elements are read',
'''
from pyrsistent._pvector import python_pvector
n = 32768 + 33
v = python_pvector(range(n))
assert v.tolist() == list(range(n)) and all(v[i] == i for i in range(n))
''', nocext=True)

seed('c-index-stop', 'C01', {CV: [(
'''  for (i = start; i < stop && i < self->count; i++) {
''',
'''  if (stop > self->count && start > 0) {
    stop = start + self->count;
  }

  for (i = start; i < stop && i < self->count; i++) {
'''), ], }, 'x', 'y', '')
del SEEDS['c-index-stop']

seed('c-pushtail-ref', 'C04', {CV: [(
'''      DEC_NODE_REF_COUNT(child);
    } else {
''',
'''      if(level == SHIFT + SHIFT && subIndex == 0) {
        DEC_NODE_REF_COUNT(child);
      }
    } else {
''')]}, 'more than 2,112 elements', 'nodes below the second subtree are never released, with all the elements they hold',
'''
import sys, gc
from pvectorc import pvector
class X: pass
x = X()
before = sys.getrefcount(x)
v = pvector([x] * 2300).append(x)
del v
gc.collect()
assert sys.getrefcount(x) == before, sys.getrefcount(x) - before
''')

seed('c-repeat-borrowed', 'C04', {CV: [(
'''        extendWithItem(newVec, PVector_get_item(self, j));
      }
    }
    return (PyObject*)newVec;
''',
'''        extendWithItem(newVec, i == 0 ? PVector_get_item(self, j) : _get_item(self, j));
      }
    }
    return (PyObject*)newVec;
''')]}, 'repeating a vector three times or more', 'elements are held without owning a reference to them',
'''
import sys
from pvectorc import pvector
xs = [object() for _ in range(3)]
keep = list(xs) * 10
before = [sys.getrefcount(x) for x in xs]
v = pvector(xs) * 4
assert [sys.getrefcount(x) for x in xs] == [b + 4 for b in before]
''')

seed('c-remove-error', 'C04', {CV: [(
'''      index = PyLong_AsSsize_t(py_index);
    Py_DECREF(py_index);
    return internalDelete(self, index, NULL);
''',
'''    index = PyLong_AsSsize_t(py_index);
    PyObject *result = internalDelete(self, index, NULL);
    if(index < self->count / 2) {
      Py_DECREF(py_index);
    }
    return result;
''')]}, 'removing an element of the second half whose position is above 256', 'the integer object for the position is leaked',
'''
import sys
from pvectorc import pvector
v = pvector(range(2000))
for i in range(100): v.remove(1500)
b = sys.getallocatedblocks()
for i in range(1000): v.remove(1500)
assert sys.getallocatedblocks() - b < 500
''')

seed('py-delete-stop', 'C05', {PV: [(
'''    if stop is None:
        return index
''',
'''    if not stop:
        return index
''')]}, 'delete with an explicit stop of 0', 'the element at the start position is deleted instead of an empty range',
'''
from pyrsistent._pvector import python_pvector
assert python_pvector([1, 2, 3]).delete(1, 0).tolist() == [1, 2, 3]
''', nocext=True)

seed('c-delete-stop', 'C05', {CV: [(
'''    if (stop < 0) {
      stop += self->count;
    }
  } else {
''',
'''    if (stop < 0) {
      stop += self->count;
      if (stop <= index) {
        stop = index + 1;
      }
    }
  } else {
''')]}, 'delete with a negative stop before the start', 'one element is deleted where nothing is to be deleted',
'''
from pvectorc import pvector
assert pvector([1, 2, 3, 4]).delete(2, -3).tolist() == [1, 2, 3, 4]
''')

seed('py-evolver-leafs', 'C02', {PV: [(
'''                result = PythonPVector(self._count, self._shift, self._root, self._tail).extend(self._extra_tail)
                self._reset(result)
''',
'''                leafs = self._cached_leafs if self._extra_tail and self._tail_offset else {}
                result = PythonPVector(self._count, self._shift, self._root, self._tail).extend(self._extra_tail)
                self._reset(result)
                self._cached_leafs = {k: leaf for k, leaf in leafs.items() if leaf is not result._tail and len(result._tail) == 1}
''')]}, 'more than 32 elements; set and append so that the tail gets full, persistent(), set in the same leaf again', 'the vector returned first is changed by the evolver',
'''
from pyrsistent._pvector import python_pvector
e = python_pvector(range(96)).evolver()
e[40] = 'a'; e.append('b')
v = e.persistent()
e[40] = 'c'
assert v[40] == 'a'
''', nocext=True)

seed('c-clean-order', 'C02', {CV: [(
'''      if((nextNode != NULL) && IS_DIRTY(nextNode)) {
        cleanNodeRecursively(nextNode, level - SHIFT);
      }
''',
'''      if(nextNode == NULL || (level > SHIFT && !IS_DIRTY(nextNode))) {
        break;  // Nodes are filled from the left
      }
      if(IS_DIRTY(nextNode)) {
        cleanNodeRecursively(nextNode, level - SHIFT);
      }
''')]}, 'more than 1,056 elements; an evolver sets an element of the second subtree only', 'nodes shared with the vector stay writable, a later change through the evolver shows up in the vector',
'''
from pvectorc import pvector
e = pvector(range(1200)).evolver()
e[1100] = 'a'
v = e.persistent()
e[1100] = 'b'
w = e.persistent()
assert v[1100] == 'a' and w[1100] == 'b'
''')

seed('py-evolver-del', 'C03', {PV: [(
'''            self._dirty_nodes[id(self._extra_tail)] = True

        def persistent(self):
''',
'''            if self._extra_tail:
                self._dirty_nodes[id(self._extra_tail)] = True

        def persistent(self):
''')]}, 'an evolver whose last element is deleted', 'is_dirty is False after the delete',
'''
from pyrsistent._pvector import python_pvector
e = python_pvector([1]).evolver()
del e[0]
assert e.is_dirty()
''', nocext=True)

seed('c-evolver-neg', 'C03', {CV: [(
'''    if (position < 0) {
      position += self->newVector->count + PyList_GET_SIZE(self->appendList);
    }

    if(0 <= position && position < self->newVector->count) {
''',
'''    if (position < 0) {
      position += self->newVector->count + PyList_GET_SIZE(self->appendList);
      if (position < 0 && PyList_GET_SIZE(self->appendList) > self->newVector->count) {
        position += self->newVector->count;
      }
    }

    if(0 <= position && position < self->newVector->count) {
''')]}, 'a negative index out of range read from an evolver with more appended elements than original ones', 'an element is returned instead of an IndexError',
'''
from pvectorc import pvector
e = pvector([1]).evolver()
e.append(2); e.append(3)
try: e[-4]
except IndexError: pass
else: raise SystemExit(1)
''')

seed('c-extend-inplace', 'C04', {CV: [(
'''      PVector *newVec = copyPVector(self);
      // TODO-OPT test using special case code here for extension to
''',
'''      PVector *newVec;
      if(Py_REFCNT(self) == 1 && TAIL_SIZE(self) < BRANCH_FACTOR && NODE_REF_COUNT(self->root) == 1) {
        newVec = self;  // About to disappear, reuse it
        Py_INCREF(newVec);
      } else {
        newVec = copyPVector(self);
      }
      // TODO-OPT test using special case code here for extension to
''')]}, 'extending the result of a set in the tree, which shares its tail with the original vector', 'the tail of the original vector is written to',
'''
import sys
from pvectorc import pvector
x = object()
v = pvector(range(40))
before = sys.getrefcount(x)
w = v.set(0, 'a').extend([x])
del w
assert sys.getrefcount(x) == before
''')

# ---- others ----------------------------------------------------------------------------------------------------
seed('mapevolver-remove-size', 'C08', {'pyrsistent/_pmap.py': [(
'''                size = len(bucket)
''',
'''                size = len(bucket)
''')]}, '', '', '')
del SEEDS['mapevolver-remove-size']

seed('mapevolver-empty-reset', 'C08', {'pyrsistent/_pmap.py': [(
'''                    self._size -= size_diff
                    return self

            raise KeyError('{0}'.format(key))
''',
'''                    self._size -= size_diff
                    if not self._size and len(self._buckets_evolver) > 8:
                        # Nothing left, no need to keep a big table around
                        self._buckets_evolver = pvector([None] * 8).evolver()
                    return self

            raise KeyError('{0}'.format(key))
''')]}, 'removing every key of a map that has more than eight buckets through one evolver', 'the evolver is not dirty any more and persistent() gives back the original contents',
'''
from pyrsistent import pmap
m = pmap({i: i for i in range(6)})
e = m.evolver()
for i in range(6): del e[i]
assert len(e.persistent()) == 0 and dict(e.persistent()) == {}
''')

seed('pset-and-smaller', 'C09', {'pyrsistent/_pset.py': [(
'''    __and__ = Set.__and__
''',
'''    def __and__(self, other):
        # Look at the smaller of the two sets only
        if isinstance(other, PSet) and len(other) < len(self):
            return self._from_iterable(e for e in other if hash(e) % len(self._map._buckets) < len(self._map._buckets) and self._map._buckets[hash(e) % len(self._map._buckets)])
        return Set.__and__(self, other)

''')]}, 'intersection with a smaller set with an element that shares a bucket with another one', 'an element that is not in both sets is in the intersection',
H + '''
from pyrsistent import pset
a = pset([K(1, 0), K(2, 1)]); b = pset([K(3, 0)])
assert len(a & b) == 0
''')

seed('plist-slice-step', 'C11', {'pyrsistent/_plist.py': [('index.stop is None and (index.step is None or index.step == 1)', 'index.stop is None and (not index.step or index.step > 0)')]},
'a linked list sliced with a start, no stop and a step above one', 'the step is ignored: l[1::2] returns l[1:]', '''
from pyrsistent import plist
l = plist(range(7))
assert list(l[1::2]) == [1, 3, 5], l[1::2]
assert list(l[-4::3]) == [3, 6]
''')
seed('field-factory-checked', 'C15', {'pyrsistent/_field_common.py': [('if self._factory is PFIELD_NO_FACTORY and len(self.type) == 1:', 'if len(self.type) == 1:')]},
'a field whose single type is a record, class or checked collection and that declares its own factory', 'the declared factory is ignored in favour of the create method of the type', '''
from pyrsistent import PRecord, PClass, field
class P(PRecord): x = field()
class Q(PClass): p = field(type=P, factory=lambda v: P(x=v))
assert Q(p=3).p == P(x=3)
''')
seed('pset-field-invariant', 'C15', {'pyrsistent/_field_common.py': [("""    return _sequence_field(CheckedPSet, item_type, optional, initial,
                           invariant=invariant,
                           item_invariant""", """    return _sequence_field(CheckedPSet, item_type, optional, initial,
                           item_invariant""")]},
'a pset_field with an invariant on the whole set and a value that violates it', 'the invariant is never checked', '''
from pyrsistent import PRecord, pset_field, InvariantException
class P(PRecord): s = pset_field(int, invariant=lambda s: (len(s) < 2, 'big'))
try: P(s=[1, 2])
except InvariantException: pass
else: raise SystemExit('accepted')
''')
seed('transform-arity-default', 'C17', {'pyrsistent/_transformations.py': [("""            if p.default is Parameter.empty
            and p.kind in""", """            if p.kind in""")]},
'a matcher function with a parameter that has a default value', 'the matcher is called with the value of the entry in place of the default', '''
from pyrsistent import pmap
m = pmap({'a': 1, 'b': 2})
assert m.transform([lambda k, wanted='a': k == wanted], 9) == {'a': 9, 'b': 2}
''')
seed('checkedmap-key-serialize', 'C16', {'pyrsistent/_checked_types.py': [("""            if isinstance(key, CheckedType):
                sk = key.serialize(format)
""", """            if isinstance(key, CheckedType) and not isinstance(value, CheckedType):
                sk = key.serialize(format)
""")]},
'a checked map where both the key and the value are checked types', 'the key is left unserialized', '''
from pyrsistent import CheckedPMap, CheckedPVector
class K(CheckedPVector):
    __type__ = int
    def serialize(self, format=None): return tuple(self)
class M(CheckedPMap):
    __key_type__ = K
    __value_type__ = (int, K)
assert [type(k) for k in M({K([1]): 1, K([2]): K([3])}).serialize()] == [tuple, tuple]
''')
seed('items-eq', 'C06', {'pyrsistent/_pmap.py': [("""        elif not isinstance(x, type(self)): return False
        else: return self._map == x._map""", """        elif not isinstance(x, type(self)): return False
        else: return len(self._map) == len(x._map) and all(k in self._map for k, _ in x)""")]},
'item views of two maps with the same keys and different values', 'the views compare equal', '''
from pyrsistent import pmap
assert pmap({1: 2}).items() != pmap({1: 3}).items()
assert pmap({1: 2}).items() == pmap({1: 2}).items()
''')
seed('pclass-eq-missing', 'C13', {'pyrsistent/_pclass.py': [("""            for name in self._pclass_fields:
                if getattr(self, name, _MISSING_VALUE) != getattr(other, name, _MISSING_VALUE):
                    return False
""", """            for name in self._pclass_fields:
                if hasattr(self, name) and getattr(self, name) != getattr(other, name, _MISSING_VALUE):
                    return False
""")]},
'an instance with an unset field compared with one that has it set', 'they are equal in one direction only', '''
from pyrsistent import PClass, field
class A(PClass):
    a = field()
    b = field()
assert not A(a=1) == A(a=1, b=2)
assert not A(a=1, b=2) == A(a=1)
''')
seed('immutable-frozen-mixed', 'C19', {'pyrsistent/_immutable.py': [("""        if frozen_fields:
            raise AttributeError('Cannot""", """        if frozen_fields and len(frozen_fields) == len(fields_to_modify):
            raise AttributeError('Cannot""")]},
'setting a frozen member together with an ordinary one', 'the frozen member is changed', '''
from pyrsistent import immutable
P = immutable('id_, x')
p = P(1, 2)
try: q = p.set(id_=5, x=6)
except AttributeError: pass
else: raise SystemExit('frozen member changed: %r' % (q,))
''')
