"""C18, C08, C10, C17: ParsedArguments.cpp, the object a user gets results from"""
from .core import *
from .strings import A, O, N, Im, Str, L, at
from . import impl, values
from .values import Reports, Result, is_value
from ctypes_ import CTEXT
import lib

SEL = z3.Select
P = 'ParsedArgumentsImpl'
PA = 'argos::ParsedArguments::'
PTRS = seq_of(Addr)
TEXTS = seq_of(Str.sort)

# ------------------------------------------------------------------ filtering
_s, _u = z3.Const('s!', PTRS.sort), z3.Const('u!', TEXTS.sort)
_i, _j, _k = z3.Ints('i! j! k!')
KEPT = z3.Function('kept_before', PTRS.sort, TEXTS.sort, IntS, IntS)      # how many of the first i arguments are kept
FROM = z3.Function('kept_from', PTRS.sort, TEXTS.sort, IntS, IntS)        # which one is the k'th that is kept
EMBED = z3.Function('place_of', IntS, IntS)                               # where the unprocessed arguments are in the array

fits = A(KEPT(_s, _u, _i) < TEXTS.len(_u), CTEXT(PTRS.at(_s, _i)) == TEXTS.at(_u, KEPT(_s, _u, _i)))
KEPT_DEF = [
    KEPT(_s, _u, 1) == 0,
    Im(_i >= 1, A(KEPT(_s, _u, _i + 1) == KEPT(_s, _u, _i) + z3.If(fits, z3.IntVal(1), z3.IntVal(0)), Im(fits, FROM(_s, _u, KEPT(_s, _u, _i)) == _i))),
    Im(A(1 <= _i, _i <= _j, KEPT(_s, _u, _i) == TEXTS.len(_u)), KEPT(_s, _u, _j) == TEXTS.len(_u)),
]
add_group(['kept_before'], [forall([_s, _u], KEPT_DEF[0], [KEPT(_s, _u, 1)]), forall([_s, _u, _i], KEPT_DEF[1], [KEPT(_s, _u, _i)]),
                            forall([_s, _u, _i, _j], KEPT_DEF[2], [(KEPT(_s, _u, _i), KEPT(_s, _u, _j))])])


@lemma('when everything is kept, nothing more is kept (step)', 'C18')
def _():
    f = [z3.substitute(KEPT_DEF[1], (_i, _j)), 1 <= _j, KEPT(_s, _u, _j) == TEXTS.len(_u)]
    return f, KEPT(_s, _u, _j + 1) == TEXTS.len(_u)


class F:
    def __init__(self, sc, old=False):
        self.argc = sc.old(0) if old else sc.arg(0)
        v = sc.old(1) if old else sc.arg(1)
        self.base, self.idx = v.cont.root.addr, v.idx
        H = sc.OH if old else sc.H
        self.items = SEL(H('CharPtrs', 'items'), self.base)


def unprocessed(sc):
    return SEL(sc.H(P, 'm_unprocessed_arguments'), sc.m('m_impl'))


def kept(s, u, items, i):
    """the array starts with what is kept of the first i"""
    k = z3.Int('k!')
    n = KEPT(s, u, i)
    return [('the number that is kept', A(0 <= n, n < i, n <= TEXTS.len(u))),
            ('the kept ones are first', forall([k], Im(A(0 <= k, k < n), PTRS.at(items, k + 1) == PTRS.at(s, FROM(s, u, k))), [PTRS.at(items, k + 1), FROM(s, u, k)])),
            ('they are unprocessed arguments', forall([k], Im(A(0 <= k, k < n), A(1 <= FROM(s, u, k), FROM(s, u, k) < i, CTEXT(PTRS.at(s, FROM(s, u, k))) == TEXTS.at(u, k))), [FROM(s, u, k)])),
            ('their order is kept', forall([k, _j], Im(A(0 <= k, k < _j, _j < n), FROM(s, u, k) < FROM(s, u, _j)), [(FROM(s, u, k), FROM(s, u, _j))]))]


def _filter_loop(sc):
    f = sc.fsc
    v0 = F(f, True)
    s, u, argc = v0.items, unprocessed(f), sc.param(0)
    cur = sc.param(1)
    items = SEL(sc.H('CharPtrs', 'items'), cur.cont.root.addr)
    i, out, it = sc.var('in'), sc.var('out'), sc.var('it')
    j = z3.Int('j!')
    c = f.c
    x = z3.Const('x!', Addr)
    now, then = sc.H('CharPtrs', 'items'), f.OH('CharPtrs', 'items')
    return [('no other array', forall([x], Im(x != v0.base, SEL(now, x) == SEL(then, x)), [SEL(now, x)])), ('positions', A(1 <= i, i <= argc, out == 1 + KEPT(s, u, i), it.idx == KEPT(s, u, i), it.idx < TEXTS.len(u), cur.cont.root.addr == v0.base, argc == v0.argc)),
            ('as long', PTRS.len(items) == PTRS.len(s)),
            ('the name', PTRS.at(items, 0) == PTRS.at(s, 0)),
            ('the rest is as before', forall([j], Im(A(i <= j, j < PTRS.len(s)), PTRS.at(items, j) == PTRS.at(s, j)), [PTRS.at(items, j)])),
            ] + kept(s, u, items, i) + c.more(f, i)


class Filter:
    loops = (Loop(_filter_loop),)

    def requires(self, sc):
        v = F(sc)
        return [('a result', sc.m('m_impl') != null), ('argc is not too large', v.argc <= PTRS.len(v.items)), ('argv is the start of the array', v.idx == 0)]

    def modifies(self, sc):
        return [('loc', sc.args[0]), ('loc', sc.args[1]), obj_field('CharPtrs', 'items', F(sc, True).base)]

    def more(self, sc, i):
        return []

    def ensures(self, sc):
        a, b = F(sc, True), F(sc)
        u = unprocessed(sc)
        n = KEPT(a.items, u, a.argc)
        return [('the array is the same', A(b.base == a.base, b.idx == 0)),
                ('nothing to do', Im(a.argc <= 1, A(b.argc == a.argc, b.items == a.items))),
                ('the name is kept', Im(a.argc > 1, PTRS.at(b.items, 0) == PTRS.at(a.items, 0))),
                ('argc', Im(A(a.argc > 1, KEPT(a.items, u, 1) == 0), b.argc == 1 + n)),
                ('only what was in argv before', Im(a.argc > 1, PTRS.len(b.items) == PTRS.len(a.items)))] + \
               [(l, Im(a.argc > 1, f)) for l, f in kept(a.items, u, b.items, a.argc)] + self.all(sc, a, b, u)

    def all(self, sc, a, b, u):
        return []


@contract(PA + 'filter_parsed_arguments', 'C18')
class _(Filter):
    pass


@contract(PA + 'filter_parsed_arguments', 'C18')
class _(Filter):
    """... of which the unprocessed arguments are complete tokens"""
    short = 'filter_parsed_arguments, tokens'

    def requires(self, sc):
        v, u = F(sc), unprocessed(sc)
        k, j = z3.Ints('k! j!')
        E = EMBED
        return Filter.requires(self, sc) + [
            ('the unprocessed arguments are some of the arguments', forall([k], Im(A(0 <= k, k < TEXTS.len(u)), A(1 <= E(k), E(k) < v.argc, CTEXT(PTRS.at(v.items, E(k))) == TEXTS.at(u, k))), [E(k)])),
            ('in that order', forall([k, j], Im(A(0 <= k, k < j, j < TEXTS.len(u)), E(k) < E(j)), [(E(k), E(j))]))]

    def more(self, sc, i):
        v = F(sc, True)
        n = KEPT(v.items, unprocessed(sc), i)
        return [('the next is not behind', Im(n < TEXTS.len(unprocessed(sc)), EMBED(n) >= i))]

    def all(self, sc, a, b, u):
        return [('all unprocessed arguments are kept', Im(A(a.argc > 1, KEPT(a.items, u, 1) == 0), b.argc == 1 + TEXTS.len(u)))]
