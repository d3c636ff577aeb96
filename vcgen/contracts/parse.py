"""C10: ParseValue.cpp"""
from .core import *
from .strings import A, O, N, Im, Str, L
import lib

C_FN = {'long': 'strtol', 'long long': 'strtoll', 'unsigned long': 'strtoul', 'unsigned long long': 'strtoull', 'float': 'strtof', 'double': 'strtod'}
ERRNO = ('heapfield', 'Ghost', 'errno')
# what a type is parsed as, and the largest and smallest number
BOUNDS = {'int': ('long', -(1 << 31), (1 << 31) - 1), 'unsigned int': ('unsigned long', 0, (1 << 32) - 1)}


def wanted(sc):
    """the type that is asked for"""
    t = sc.node['ret']
    while t['k'] != 'int' and t['k'] != 'float':
        t = t['a'][0]
    return t['n']


def number(t, s, *base):
    """(the text is a number of that type, the number)"""
    p, lo, hi = BOUNDS.get(t, (t, None, None))
    v, end, err = lib.c_number(C_FN[p], s, *base)
    ok = A(L(s) > 0, end == L(s), err == 0)
    if lo is not None:
        ok = A(ok, lo <= v, v <= hi)
    return ok, v


class Parses:
    def modifies(self, sc):
        return [ERRNO]

    def ensures(self, sc):
        ok, v = number(wanted(sc), *[sc.old(i) for i in range(len(sc.node['params']))])
        return [('a number iff the C library reads the complete text as one of that type', sc.result.has == ok), ('the number of the C library', Im(ok, sc.result.val == v))]


for f in ('parse_integer_impl', 'parse_integer', 'parse_floating_point_impl', 'parse_floating_point'):
    @contract('argos::' + f, 'C10')
    class _(Parses):
        pass
