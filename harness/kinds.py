"""Concrete kinds of maps and sets (plain and checked) with trivially satisfied specs."""
from pyrsistent import pmap, pset, PMap, PSet, CheckedPMap, CheckedPSet


class CM(CheckedPMap):
    __key_type__ = object
    __value_type__ = object


class CS(CheckedPSet):
    __type__ = object


class CSI(CheckedPSet):
    __type__ = object
    __invariant__ = lambda x: (True, 'never')


class CMI(CheckedPMap):
    __key_type__ = object
    __value_type__ = object
    __invariant__ = lambda k, v: (True, 'never')


def new_map(kind, pre):
    """An empty map of the kind with pre buckets (plain) - checked maps always start with the default 8 buckets."""
    if kind == 'map': return pmap({}, pre_size=pre)
    if kind == 'cmap': return CM()
    raise ValueError(kind)


def new_set(kind, pre, first):
    """A set of the kind holding one element."""
    if kind == 'set': return pset([first], pre_size=pre)
    if kind == 'cset': return CS([first])
    if kind == 'keys': return pmap({first: first}, pre_size=pre).keys()
    raise ValueError(kind)


MAPCLS = {'map': PMap, 'cmap': CM}
SETCLS = {'set': PSet, 'cset': CS, 'keys': PSet}
