#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (kept as a script only so that the text is easy to edit)."""
import json, os
P = []
def prop(id, title, statement, over, text, why, files, mech, state=(), observe=()):
    assert len(title) <= 80, (id, len(title))
    P.append(dict(id=id, title=title, statement=statement,
                  quantifier=dict(over=over, text=text), why_tests_cant=why,
                  anchors=dict(files=files, mechanism=[dict(name=n, where=w) for n, w in mech],
                               state=[dict(name=n, meaning=m, where=w) for n, m, w in state],
                               observe_at=list(observe), hook_needed=None)))

PV = "pyrsistent/_pvector.py"; C = "pvectorcmodule.c"; PM = "pyrsistent/_pmap.py"; PS = "pyrsistent/_pset.py"
CT = "pyrsistent/_checked_types.py"; FC = "pyrsistent/_field_common.py"; PR = "pyrsistent/_precord.py"; PC = "pyrsistent/_pclass.py"

prop("C01", "Vectors read and update exactly like a list",
 "Every read, slice, iteration, append, extend, set, multi-set, insert-at-end, delete, remove, repeat, concatenation, search and comparison on a persistent vector gives the same elements (the very same objects, in the same order), the same length and the same kind of error (IndexError, ValueError, TypeError) as the corresponding operation on a Python list with the same contents, with setting at position len meaning append. "
 "It holds at every size, including where the internal tree gains a leaf or a level, for every index, negative and out-of-range ones included, and for both the C and the pure-Python vector.",
 ["inputs", "histories"], "all element sequences, sizes, indices, slices, counts and sequences of operations; both backends",
 "Tests and hypothesis use a handful of sizes and random indices; the interesting cases sit at sizes around 32, 1056 and 32800 and at extreme indices.",
 [PV, C], [("tree indexing by 5-bit digits, tail offset", PV + ": _node_for, _do_set, _push_tail, _create_new_root"), ("C tree", C + ": nodeFor, doSet, pushTail, extendWithItem")],
 [("count/shift/root/tail", "a 32-way radix tree plus a tail of at most 32 elements", PV + ":PythonPVector, " + C + ":PVector")], ["PVector public methods"])
prop("C02", "No operation ever changes an existing vector",
 "Once a persistent vector has been obtained, its length and its elements (the very same objects in the same positions) never change, whatever operations are later applied to it, to vectors derived from it or to evolvers taken from any of them, including operations that raise. "
 "Lists handed in to build a vector, or obtained from it by tolist, are independent of it. It holds for both backends.",
 ["histories", "inputs"], "all histories of operations over a family of related vectors and evolvers",
 "Structural sharing makes corruption appear in a different version from the one operated on; tests only look at the most recent results.",
 [PV, C], [("copy-on-write of tree paths", PV + ": append, set, _mutating_extend; " + C + ": copyNode, copyInsert, doSet")],
 observe=["every earlier version after every operation"])
prop("C03", "Vector evolvers are private mutable lists",
 "A vector evolver behaves like a mutable copy of its vector: reads, len, set, append, extend and delete (negative and out-of-range indices included) follow list semantics with set at len appending, and persistent() returns a vector with exactly the current contents. "
 "The evolver stays usable after persistent() and later changes affect neither the source vector, nor any vector it already returned, nor any other evolver; is_dirty is False right after creation or persistent(), True after any successful set, append or delete, and persistent() without changes returns the identical vector.",
 ["histories", "inputs"], "all sequences of evolver operations, any number of persistent() calls and evolvers on one vector; both backends",
 "Bugs need a particular interleaving of set/append/delete/persistent across leaf boundaries; tests exercise short fixed scripts.",
 [PV, C], [("dirty-node tracking", PV + ": Evolver; " + C + ": PVectorEvolver_*, doSetWithDirty, cleanNodeRecursively")],
 [("dirty markers", "nodes owned by the evolver and not yet shared", PV + ":_dirty_nodes/_cached_leafs, " + C + ":SET_NODE_DIRTY")])
prop("C04", "The C vector keeps exact ownership of every element and node",
 "For every sequence of operations on C vectors, evolvers and iterators, including ones that fail part way because user code raises, the extension makes no invalid memory access, and the reference count of every object involved equals what the live vectors, evolvers and iterators own, so that dropping them all returns every count to its start value. "
 "The cyclic garbage collector is never told about more references to an object than these objects own, so a reachable object is never cleared.",
 ["histories", "inputs", "fault_sequences"], "all sequences of operations, sizes, and points at which a callback raises",
 "A leaked or missing reference has no visible effect until much later; tests check counts for a few operations only.",
 [C], [("reference counting of nodes and elements", C + ": incRefs, releaseNode, cleanVector, allocNode/freeNode"), ("GC support", C + ": PVector_traverse, *_dealloc")],
 [("node refCount", "how many vectors/nodes share a node; low bit trick marks dirty nodes", C + ":VNode.refCount")], ["sys.getrefcount", "gc.get_referents", "address sanitizer"])
prop("C05", "C and pure-Python vectors are interchangeable",
 "For every sequence of public operations with the same arguments, the C vector and the pure-Python vector (and their evolvers and iterators) give equal results: the same elements, lengths, booleans, search positions and comparison outcomes, or an exception of the same type. "
 "Choosing one backend or the other, through PYRSISTENT_NO_C_EXTENSION or a failed build, never changes what a program computes.",
 ["inputs", "histories", "configurations"], "all operation sequences with 64-bit indices and arbitrary arguments of the documented types",
 "The test-suite runs each backend separately on the same handful of inputs and never compares the two on the same arbitrary inputs.",
 [PV, C], [("two implementations of one interface", PV + ":PythonPVector; " + C + ":PVectorType")])
prop("C06", "Maps behave like dicts for every hash pattern",
 "After any sequence of set, remove, discard, update, update_with, merge and construction from any mapping or pairs, a persistent map contains exactly the keys and the most recent values a dict driven by the same operations contains: lookup, get, attribute access, membership, length, iteration over keys, values and items, and equality with dicts all agree, and KeyError/AttributeError is raised exactly for missing keys. "
 "It holds for keys with arbitrary equality and (consistent) hash values, so for any pattern of collisions, any initial bucket count and across every internal growth step.",
 ["inputs", "histories"], "all key sets with arbitrary equalities and hash values, all operation sequences",
 "Tests use ints and strings whose hashes rarely collide modulo the table size, and rarely cross growth steps with collisions.",
 [PM], [("bucketed hash table over a vector", PM + ": _get_bucket, _Evolver.set/remove/_reallocate, _turbo_mapping")],
 [("_size/_buckets", "entry count and bucket vector", PM + ":PMap")])
prop("C07", "No operation ever changes an existing map or set",
 "Once a persistent map or set (plain or checked) has been obtained, its length, keys or elements, values, membership answers and lookups never change, whatever operations are later applied to it, to maps or sets derived from it, to views or key sets taken from it, or to evolvers made from any of them, including operations that raise. "
 "Mappings and iterables handed in stay independent of it.",
 ["histories", "inputs"], "all histories over a family of related maps/sets/evolvers with arbitrary hash patterns",
 "Shared buckets make corruption visible only in another version and only under collisions.",
 [PM, PS, CT], [("buckets are replaced, never mutated", PM + ": _Evolver.set/remove")])
prop("C08", "Map and set evolvers are private mutable copies",
 "A map or set evolver (plain or checked) behaves like a mutable copy: set, item assignment, remove, deletion, add, lookup, membership and len follow dict/set semantics, and persistent() returns a map/set of the source's class with exactly the current contents. "
 "It stays usable after persistent(), any number of times, without affecting the source, earlier results or other evolvers; is_dirty is False right after creation and persistent(), True after a change, and persistent() with no change since returns the identical object.",
 ["histories", "inputs"], "all sequences of evolver operations and persistent() calls, arbitrary hash patterns",
 "Needs particular interleavings with persistent(); tests reuse evolvers at most once.",
 [PM, PS, CT], [("evolver over the bucket vector's evolver", PM + ":_Evolver; " + PS + ":_Evolver; " + CT + ":Evolver classes")])
prop("C09", "Sets behave like built-in sets",
 "After any sequence of add, remove, discard, update and construction from any iterable, a persistent set has exactly the members, length and iteration contents a built-in set driven by the same operations has; union, intersection, difference, symmetric difference, subset, superset, disjointness, ordering and equality comparisons agree with built-in sets, and remove raises KeyError exactly for absent elements. "
 "It holds for elements with arbitrary equality and hash values, with built-in sets as either operand, and for the key sets returned by maps.",
 ["inputs", "histories"], "all element sets with arbitrary equalities/hashes, all operation sequences",
 "Tests use a few small int sets with no collisions.",
 [PS, PM], [("set as a map to True", PS + ":PSet"), ("keys()", PM + ":keys")])
prop("C10", "Bags count elements exactly",
 "After any sequence of add, update, remove and construction, a persistent bag reports for every element exactly its multiplicity: count, membership, length, iteration and equality agree with a multiset, remove takes away exactly one occurrence and raises KeyError for an absent element. "
 "Sum adds, difference subtracts with a floor of zero, union takes the maximum and intersection the minimum of multiplicities, and no operation changes an existing bag.",
 ["inputs", "histories"], "all element multisets with arbitrary equality/hash, all operation sequences",
 "Tests use a few fixed bags.", ["pyrsistent/_pbag.py", PM], [("counts map", "pyrsistent/_pbag.py:PBag._counts")])
prop("C11", "Linked lists are immutable sequences",
 "A persistent linked list agrees with a tuple of the same elements on iteration, length, indexing (negative and out-of-range included), slicing, first/rest, cons, mcons, reverse, split, remove, count, index and comparisons, and raises the corresponding IndexError, ValueError or AttributeError when there is no answer. "
 "No operation, including removing and splitting which share structure, ever changes an existing list.",
 ["inputs", "histories"], "all element sequences, indices, slices and operation sequences",
 "Tests use a few lists of at most a few elements and few indices.", ["pyrsistent/_plist.py"], [("singly linked cells and builder", "pyrsistent/_plist.py: _PListBase, _PListBuilder")])
prop("C12", "Deques behave like (bounded) deques",
 "A persistent deque agrees with collections.deque driven by the same operations on contents, length, both ends, iteration, indexing, slicing (as a list slices), append, appendleft, extend, extendleft, counted pop and popleft (negative counts pop from the other end, popping more than present empties), rotate, reverse, remove, count and comparisons, raising the corresponding errors. "
 "A maximum length is never exceeded, drops elements from the opposite end, and is kept by every operation that returns a deque; no operation changes an existing deque.",
 ["inputs", "histories"], "all element sequences, maxlen values, counts, indices, slices and operation sequences",
 "The behaviour depends on how elements are split between two internal lists, which tests do not vary systematically.",
 ["pyrsistent/_pdeque.py", "pyrsistent/_plist.py"], [("two lists and a length", "pyrsistent/_pdeque.py: _pop_lists, _append, _extend")])
prop("C13", "Equality is by content and consistent with hash",
 "Two collections of the same kind (vectors of either backend or checked, maps, sets and key sets, bags, linked lists, deques, records, instances of one class) are equal exactly when their contents are equal, regardless of how, in which order or through which growth or hash-caching history they were built; inequality is the negation and equality is symmetric. "
 "Equal collections have equal hashes, and hashing never changes later answers.",
 ["inputs", "histories"], "all contents with arbitrary element equality/hash, all construction histories",
 "Needs equal contents with different internal layouts (bucket counts, collision order, cached hashes).",
 [PM, PS, PV, C, "pyrsistent/_pbag.py", "pyrsistent/_plist.py", "pyrsistent/_pdeque.py", PC, PR], [("__eq__/__hash__ implementations", "all collection classes")])
prop("C14", "Checked collections never hold an element that violates their spec",
 "A checked vector, set or map never exists with an element, key or value that is not an instance of one of the declared types (inherited ones included) or fails any declared or inherited invariant, whatever constructor, update method or evolver path was used: a wrong type raises the documented checked type error, a failed invariant raises InvariantException carrying every failing error code, at the latest from persistent(). "
 "Valid data is always accepted and stored as in the unchecked collection, append, extend, set, mset, add, update, discard and remove of maps and sets, transform and evolvers keep the class (deleting from or slicing a checked vector and set algebra may give an unchecked collection), and a failed update leaves the original untouched.",
 ["inputs", "histories", "configurations"], "all type and invariant verdicts per element, all update paths",
 "Every combination of element verdict and update path matters; tests check a few fixed types and values.",
 [CT], [("checks in evolvers", CT + ": _check_types, _invariant_errors, Evolver classes")])
prop("C15", "Records and classes never exist in an invalid state",
 "An instance of a record or class type only ever exists with every mandatory field present, every field value accepted by its type and invariant, only declared fields (inherited ones included) and all class-level invariants (inherited ones included) satisfied, whichever of construction, create, set, update, remove, evolver or transform produced it; otherwise InvariantException (listing every failing code and missing field), a type error or AttributeError is raised and existing instances are unaffected. "
 "Factories are applied to every value a caller supplies and never again to values carried over, initial values fill absent fields, and a class instance can never be changed by attribute assignment or deletion.",
 ["inputs", "histories", "configurations"], "all verdicts of types, invariants and factories, all subsets of fields supplied, all update paths",
 "Combinations of missing fields, failing invariants and update paths are not enumerated by tests.",
 [PR, PC, FC], [("field checks", FC + ": check_type, check_global_invariants"), ("construction", PC + ":PClass.__new__, " + PR + ":_PRecordEvolver")])
prop("C16", "Pickling and create/serialize round-trip",
 "For every persistent collection, checked type, record and class instance, rebuilding it from what it reports for pickling yields an object of the same class that is equal to it, with the same contents (and, for deques, the same maximum length). "
 "For checked types, records and classes, serialize applies the declared serializers to every present field or element, nested ones included with the given format, create of the serialized form gives back an equal value when no custom serializers are declared, and with ignore_extra unknown keys are ignored at every nesting level while being rejected without it.",
 ["inputs", "configurations"], "all contents, field subsets and nestings",
 "Tests round-trip a handful of fixed values.", [CT, PR, PC, FC, PM, PS, PV, C], [("__reduce__", "all collection classes"), ("create/serialize", CT + ", " + PR + ", " + PC)])
prop("C17", "transform changes exactly the matched paths",
 "transform applies its command to exactly those locations of a nested structure whose path matches (literal keys or indices, key predicates, key-value predicates), creates maps for missing literal map keys, deletes with discard, applies several path-command pairs left to right, and leaves every other location holding the very same object. "
 "If nothing changes the identical structure is returned, the original is never changed, and get_in returns the value at a path or the default exactly when the path does not exist.",
 ["inputs", "programs"], "all nested maps/vectors, paths, predicates and commands",
 "Predicate verdicts and nested shapes combine; tests cover a few examples.",
 ["pyrsistent/_transformations.py", "pyrsistent/_toolz.py"], [("recursive path update", "pyrsistent/_transformations.py: _do_to_path, _update_structure")])
prop("C18", "freeze and thaw convert completely and invert each other",
 "freeze turns every dict, list and set nested at any depth of dicts, lists and tuples (and, when strict, of persistent maps and vectors) into the persistent counterpart with equal contents, leaving every other value and the input untouched; thaw does the reverse, also descending into plain lists and dicts when strict, and thaw(freeze(x)) equals x for data made of dicts, lists, tuples, sets and other values. "
 "mutant hands its function frozen arguments and freezes its result.",
 ["inputs", "configurations"], "all nestings of containers and leaves, strict or not",
 "Tests list a few nestings.", ["pyrsistent/_helpers.py"], [("recursive conversion", "pyrsistent/_helpers.py: freeze, thaw")])
prop("C19", "immutable() objects update by copy and protect frozen members",
 "An object of a type made by immutable() holds exactly the declared members; set with any subset of members returns a new object with those values replaced and all others unchanged and leaves the original as it was, naming a non-member or a member whose name ends in underscore raises AttributeError, and set without arguments returns the object itself. "
 "Equality, hashing and unpacking follow the member values in declaration order.",
 ["inputs", "configurations"], "all member lists and subsets to set",
 "Tests use a couple of fixed types.", ["pyrsistent/_immutable.py"], [("generated namedtuple subclass", "pyrsistent/_immutable.py")])
prop("C20", "A failing callback never leaves anything half-changed",
 "Whenever user code invoked during an operation (element equality, hashing or ordering, an input iterator, an update function, a predicate, factory, invariant or serializer) raises, that exception reaches the caller and every existing collection keeps exactly its previous contents and remains fully usable, whichever of the calls raised. "
 "Only the evolver being driven may keep the part of an update done before the failure, and its own length and contents still agree.",
 ["fault_sequences", "histories"], "every call index at which user code may raise, every operation",
 "There is one failure point per callback invocation; tests inject almost none.",
 [PV, C, PM, PS, CT, PR, PC, "pyrsistent/_transformations.py"], [("copy before change", "all update operations")])
prop("C21", "Updates that change nothing return the same object",
 "Discarding an absent key or element, setting a map key to the identical value it already has, adding a present element to a set (not to the key set of a map), extending or updating with nothing, taking the slice [:] or a copy, asking an unchanged evolver for its persistent form, setting a class evolver's attribute to the identical value and transforming without effect all return the identical object, for vectors, maps, sets, checked types, records and classes where the operation exists. "
 "Conversely an update that changes the contents never returns the original.",
 ["inputs", "histories"], "all contents and keys with arbitrary equality/hash, all no-op updates",
 "Identity of results is asserted by tests only in single examples.",
 [PM, PS, PV, C, CT, PC, PR, "pyrsistent/_transformations.py"], [("dirty checks", "evolvers' is_dirty/persistent")])

out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl")
with open(out, "w") as f:
    for p in P: f.write(json.dumps(p) + "\n")
print(len(P))
