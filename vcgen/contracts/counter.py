"""C07: ArgumentCounter.cpp"""
from .core import *
from .strings import A, O, N, Im, Str
import lib

RA = seq_of(Addr)
HI = z3.ArraySort(Addr, IntS)
SEL = z3.Select
UMAX = (1 << 32) - 1
SIZE_MAX = (1 << 64) - 1

# total(a, H, k): sum of the field H over the first k definitions in a
total = z3.Function('total', RA.sort, HI, IntS, IntS)
_a = z3.Const('a!ra', RA.sort)
_H = z3.Const('H!hi', HI)
_k, _j = z3.Ints('k! j!')
_t = total(_a, _H, _k)
add_group(['total'], [
    forall([_a, _H], total(_a, _H, 0) == 0, [total(_a, _H, 0)]),
    forall([_a, _H, _k], Im(_k >= 0, total(_a, _H, _k + 1) == _t + SEL(_H, RA.at(_a, _k))),
           [(_t, RA.at(_a, _k))])])


def fields(H):
    """values of an unsigned int member"""
    x = z3.Const('x!a', Addr)
    return forall([x], A(0 <= SEL(H, x), SEL(H, x) <= UMAX), [SEL(H, x)])


def total_bounds(a, H):
    return forall([_k], Im(_k >= 0, A(0 <= total(a, H, _k), total(a, H, _k) <= _k * UMAX)), [total(a, H, _k)])


@lemma('sums of counts are non-negative and bounded (induction step)', 'C07')
def _():
    return [fields(_H), _k >= 0, 0 <= _t, _t <= _k * UMAX, touch(RA.at(_a, _k))], \
        A(0 <= total(_a, _H, _k + 1), total(_a, _H, _k + 1) <= (_k + 1) * UMAX)


# the share of argument k when n values are given, and how many values go to the arguments before it;
# defined by Args.defs, which only the proofs that need the definition assume
QUOTA = z3.Function('quota', RA.sort, HI, HI, IntS, IntS, IntS)
BEFORE = z3.Function('before', RA.sort, HI, HI, IntS, IntS, IntS)


class Args:
    """the argument list of a command definition"""

    def __init__(self, sc, c):
        self.sc = sc
        self.a = sc.oh('CommandData', 'arguments', c.addr)
        self.mn, self.mx = sc.OH('ArgumentData', 'min_count'), sc.OH('ArgumentData', 'max_count')
        self.n = RA.len(self.a)

    def lo(self, k):
        return SEL(self.mn, RA.at(self.a, k))

    def hi(self, k):
        return SEL(self.mx, RA.at(self.a, k))

    def slo(self, k):
        return total(self.a, self.mn, k)

    def shi(self, k):
        return total(self.a, self.mx, k)

    def wf(self):
        """CommandData::add establishes: no null definitions, min <= max"""
        k = z3.Int('k!')
        x = RA.at(self.a, k)
        return [('arguments exist and have min <= max', forall([k], Im(A(0 <= k, k < self.n), A(x != null, self.lo(k) <= self.hi(k))), [x])),
                ('memory is finite', self.n < (1 << 31))]

    def facts(self):
        k, j = z3.Ints('k! j!')
        return [('machine types', fields(self.mn)), ('machine types.', fields(self.mx)),
                ('sums are bounded', total_bounds(self.a, self.mn)), ('sums are bounded.', total_bounds(self.a, self.mx)),
                ('minima are at most maxima', forall([k], Im(A(0 <= k, k <= self.n), self.slo(k) <= self.shi(k)), [self.slo(k), self.shi(k)])),
                ('surpluses only grow', forall([k, j], Im(A(0 <= k, k <= j, j <= self.n), self.shi(k) - self.slo(k) <= self.shi(j) - self.slo(j)),
                                               [(self.slo(k), self.slo(j))]))]

    def defs(self, n):
        k = z3.Int('k!')
        return [('the share of an argument', forall([k], Im(k >= 0, self.quota(n, k) == self.quota_def(n, k)), [self.quota(n, k)])),
                ('the values before an argument', forall([k], Im(k >= 0, self.before(n, k) == self.slo(k) + self.spare(n) - self.surplus(n, k)), [self.before(n, k)]))]

    # the documented distribution of n values
    def spare(self, n):
        """values beyond the minima, as ArgumentCounter sees n"""
        return z3.If(n < self.slo(self.n), 0, z3.If(n > self.shi(self.n), self.shi(self.n) - self.slo(self.n), n - self.slo(self.n)))

    def surplus(self, n, k):
        """what of it is left for argument k and later"""
        s = self.spare(n) - (self.shi(k) - self.slo(k))
        return z3.If(s > 0, s, 0)

    def quota(self, n, k):
        return QUOTA(self.a, self.mn, self.mx, n, k)

    def before(self, n, k):
        return BEFORE(self.a, self.mn, self.mx, n, k)

    def quota_def(self, n, k):
        s = self.surplus(n, k)
        room = self.hi(k) - self.lo(k)
        return self.lo(k) + z3.If(s < room, s, room)


def _lists():
    a = z3.Const('a', RA.sort)
    mn, mx = z3.Const('min', HI), z3.Const('max', HI)
    g = Args.__new__(Args)
    g.a, g.mn, g.mx, g.n = a, mn, mx, RA.len(a)
    return g


@lemma('sums of minima are at most sums of maxima, and the difference grows (induction step)', 'C07')
def _():
    g, k = _lists(), z3.Int('k')
    return [f for _, f in g.wf()] + [0 <= k, k < g.n, g.slo(k) <= g.shi(k), touch(RA.at(g.a, k)), touch(g.slo(k)), touch(g.shi(k))], \
        A(g.slo(k + 1) <= g.shi(k + 1), g.shi(k) - g.slo(k) <= g.shi(k + 1) - g.slo(k + 1))


@lemma('every argument gets between its minimum and its maximum', 'C07')
def _():
    g, (k, n) = _lists(), z3.Ints('k n')
    return [f for _, f in g.wf() + g.facts() + g.defs(n)] + [0 <= k, k < g.n, n >= 0, touch(RA.at(g.a, k))], \
        A(g.lo(k) <= g.quota(n, k), g.quota(n, k) <= g.hi(k))


@lemma('the first k arguments together get their minima and what has left the surplus (induction step)', 'C07')
def _():
    g, (k, n) = _lists(), z3.Ints('k n')
    return [f for _, f in g.wf() + g.facts() + g.defs(n)] + [0 <= k, k < g.n, n >= 0, touch(RA.at(g.a, k)), touch(g.slo(k)), touch(g.shi(k))], \
        g.quota(n, k) == (g.slo(k + 1) + g.spare(n) - g.surplus(n, k + 1)) - (g.slo(k) + g.spare(n) - g.surplus(n, k))


@lemma('an accepted number of values is handed out completely', 'C07')
def _():
    g, n = _lists(), z3.Int('n')
    return [f for _, f in g.wf() + g.facts() + g.defs(n)] + [g.slo(g.n) <= n, n <= g.shi(g.n), touch(g.slo(g.n))], \
        g.slo(g.n) + g.spare(n) - g.surplus(n, g.n) == n


@lemma('later arguments get more than their minimum only when earlier ones are full', 'C07')
def _():
    g, (k, j, n) = _lists(), z3.Ints('k j n')
    return [f for _, f in g.wf() + g.facts() + g.defs(n)] + [0 <= k, k < j, j < g.n, n >= 0, g.quota(n, j) > g.lo(j), touch(RA.at(g.a, k)), touch(RA.at(g.a, j)),
                                                 touch(g.slo(k)), touch(g.shi(k)), touch(g.slo(k + 1)), touch(g.slo(j)), touch(g.shi(j))], \
        g.quota(n, k) == g.hi(k)


# ------------------------------------------------------------------ the functions
C = 'argos::ArgumentCounter::'


class Cmd:
    """functions of a command definition"""

    def requires(self, sc):
        return Args(sc, sc.arg(0)).wf()

    def axioms_at_entry(self, sc):
        return Args(sc, sc.arg(0)).facts()


def _mm_inv(sc):
    g = Args(sc, sc.param(0))
    lo, hi = var(sc, 'lo', 'u64', 0), var(sc, 'hi', 'u64', 1)
    return [('sums so far', A(lo == g.slo(sc.i), hi == g.shi(sc.i), 0 <= sc.i))]


@contract(C + 'get_min_max_count', 'C07')
class _(Cmd):
    loops = (Loop(_mm_inv),)

    def ensures(self, sc):
        g = Args(sc, sc.arg(0))
        return [('sum of the minima', sc.result.first == g.slo(g.n)), ('sum of the maxima', sc.result.second == g.shi(g.n))]


@contract(C + 'requires_argument_count', 'C07')
class _(Cmd):
    loops = (Loop(lambda sc: [('deterministic so far', _det(sc))]),)

    def ensures(self, sc):
        g = Args(sc, sc.arg(0))
        k = z3.Int('k!')
        return [('true iff an argument before the last has a variable count',
                 sc.result == N(forall([k], Im(A(0 <= k, k < g.n - 1), g.lo(k) == g.hi(k)), [RA.at(g.a, k)])))]


def _det(sc):
    g = Args(sc, sc.param(0))
    d = var(sc, 'deterministic', 'bool', 0)
    k = z3.Int('k!')
    i = sc.i
    return A(0 <= i, Im(d, forall([k], Im(A(0 <= k, k < i), g.lo(k) == g.hi(k)), [RA.at(g.a, k)])),
             Im(N(d), A(i >= 1, g.lo(i - 1) != g.hi(i - 1))),
             forall([k], Im(A(0 <= k, k < i - 1), g.lo(k) == g.hi(k)), [RA.at(g.a, k)]))


def first_optional(g, r, n):
    """r is the index after the last of the first n arguments that needs a value"""
    k = z3.Int('k!')
    return A(0 <= r, r <= n, Im(r > 0, g.lo(r - 1) > 0),
             forall([k], Im(A(r <= k, k < n), g.lo(k) == 0), [RA.at(g.a, k)]))


@contract('argos::find_first_optional', 'C07')
class _(Cmd):
    loops = (Loop(lambda sc: [('so far', first_optional(Args(sc, sc.param(0)), var(sc, 'result', 'u64', 0), sc.i)), ('counter', A(0 <= sc.i, sc.i <= Args(sc, sc.param(0)).n))]),)

    def ensures(self, sc):
        g = Args(sc, sc.arg(0))
        return [('the index after the last mandatory argument', first_optional(g, sc.result, g.n))]


def pairs(sc_or_I):
    T_ = sc_or_I.ent_field('CommandData', 'option_index')
    return T_


class Cnt:
    """a vector of (count, argument)"""

    def __init__(self, c, T_):
        self.c, self.T = c, T_
        self.n = T_.th.len(c)

    def raw(self, k):
        return self.T.th.at(self.c, k)

    def cnt(self, k):
        return self.T.elem.dt.acc(0, 0, self.raw(k))

    def arg(self, k):
        return self.T.elem.dt.acc(0, 1, self.raw(k))


def cnt_type():
    return seq_of(TTuple([TInt(64, False), TAddr('ArgumentData')], pair=True).sort)


class CT_:
    th = None
    elem = TTuple([TInt(64, False), TAddr('ArgumentData')], pair=True)


CT_.th = seq_of(CT_.elem.sort)


def counters(v):
    return Cnt(v, CT_)


def greedy(g, c, k, fo):
    """counters for the first k arguments when the number of values is not needed"""
    j = z3.Int('j!')
    split = A(fo > 0, g.lo(fo - 1) != g.hi(fo - 1))
    d = z3.If(A(k >= fo, split), 1, 0)
    own = lambda j: RA.at(g.a, j)
    i = z3.Int('i!')
    return [('one counter per argument, two for a last mandatory argument of variable count', c.n == k + d),
            ('arguments before it: everything they accept', forall([j], Im(A(0 <= j, j < k, j < fo - 1), A(c.cnt(j) == g.hi(j), c.arg(j) == own(j))), [c.raw(j), RA.at(g.a, j)])),
            ('the last mandatory argument: its minimum first, then the rest',
             Im(A(0 < fo, k >= fo), z3.If(split, A(c.cnt(fo - 1) == g.lo(fo - 1), c.arg(fo - 1) == own(fo - 1), c.cnt(fo) == g.hi(fo - 1) - g.lo(fo - 1), c.arg(fo) == own(fo - 1)),
                                          A(c.cnt(fo - 1) == g.hi(fo - 1), c.arg(fo - 1) == own(fo - 1))))),
            ('arguments after it: everything they accept',
             forall([j], Im(A(fo <= j, j < k), A(c.cnt(j + d) == g.hi(j), c.arg(j + d) == own(j))), [RA.at(g.a, j)]))]


@contract('argos::make_argument_counters', 'C07', nparams=3)
class _(Cmd):
    loops = (Loop(lambda sc: greedy(Args(sc, sc.param(0)), counters(sc.param(1)), sc.i, sc.param(2)) + [('counter', A(0 <= sc.i, sc.i <= Args(sc, sc.param(0)).n))]),)

    def requires(self, sc):
        return Cmd.requires(self, sc) + [('no counters yet', CT_.th.len(sc.arg(1)) == 0)]

    def modifies(self, sc):
        return [('loc', sc.args[1]), ('loc', sc.args[2])]

    def ensures(self, sc):
        g = Args(sc, sc.arg(0))
        fo = sc.arg(2)
        return [('the index after the last mandatory argument', first_optional(g, fo, g.n))] + greedy(g, counters(sc.arg(1)), g.n, fo)


def _dist(g, c, n, k):
    j = z3.Int('j!')
    return [('one counter per argument', c.n == k),
            ('each gets its share', forall([j], Im(A(0 <= j, j < k), A(c.cnt(j) == g.quota(n, j), c.arg(j) == RA.at(g.a, j))), [c.raw(j), RA.at(g.a, j)]))]


@contract('argos::make_argument_counters', 'C07', nparams=2)
class _(Cmd):
    loops = (Loop(lambda sc: _dist(Args(sc, sc.param(0)), counters(var(sc, 'result', 'vector<tup<u64,ptr:ArgumentData>>', 0)), sc.fsc.old(1), sc.i) +
                  [('what is left of the surplus', A(sc.i >= 0, sc.param(1) == Args(sc, sc.param(0)).surplus(sc.fsc.old(1), sc.i)))]),)

    def axioms_at_entry(self, sc):
        g = Args(sc, sc.arg(0))
        return g.facts() + g.defs(sc.arg(1))

    def ensures(self, sc):
        g = Args(sc, sc.arg(0))
        return _dist(g, counters(sc.result), sc.old(1), g.n)


# ------------------------------------------------------------------ handing out
def cshape(I, T_, name, loc):
    fs = {n: I.fresh(ft, f'{name}.{n}', loc.ext('f', n) if loc else None) for n, ft in T_.fields}
    for _, f in cinv(fs['m_counters'], fs['m_index'], fs['m_first_optional'], fs['m_counter']):
        I.assume(f)
    return RecV(T_, fs)


def cinv(c, i, fo, n):
    k = z3.Int('k!')
    cc = counters(c)
    return [('the current counter is inside the list', A(0 <= i, i <= cc.n, 0 <= fo, fo <= cc.n)),
            ('counters before the current one are used up', forall([k], Im(A(0 <= k, k < i), cc.cnt(k) == 0), [cc.raw(k)])),
            ('every counter belongs to an argument', forall([k], Im(A(0 <= k, k < cc.n), A(cc.arg(k) != null, 0 <= cc.cnt(k), cc.cnt(k) <= SIZE_MAX)), [cc.raw(k)]))]


shapes['ArgumentCounter'] = cshape


def state(sc, old=False):
    g = sc.om if old else sc.m
    return counters(g('m_counters')), g('m_index'), g('m_first_optional'), g('m_counter')


def inv_now(sc):
    return cinv(sc.m('m_counters'), sc.m('m_index'), sc.m('m_first_optional'), sc.m('m_counter'))


def _na_inv(sc):
    c = counters(sc.I.load(sc.this).f['m_counters'])
    i0 = sc.fsc.om('m_index')
    i = sc.I.load(sc.this).f['m_index']
    k = z3.Int('k!')
    return [('skipped counters are used up', A(i0 <= i, i <= c.n, forall([k], Im(A(i0 <= k, k < i), c.cnt(k) == 0), [c.raw(k)])))]


@contract(C + 'next_argument', 'C07')
class _:
    loops = (Loop(_na_inv, lambda sc: counters(sc.I.load(sc.this).f['m_counters']).n - sc.I.load(sc.this).f['m_index']),)

    def assumes(self, sc):
        return [('fewer than 2^64 arguments are counted', sc.m('m_counter') < SIZE_MAX)]

    def modifies(self, sc):
        return [('loc', sc.mloc('m_counters')), ('loc', sc.mloc('m_index')), ('loc', sc.mloc('m_counter'))]

    def ensures(self, sc):
        c0, i0, _, n0 = state(sc, True)
        c1, i1, _, n1 = state(sc)
        r = sc.result
        k = z3.Int('k!')
        return [('no argument iff every counter is used up',
                 (r == null) == forall([k], Im(A(i0 <= k, k < c0.n), c0.cnt(k) == 0), [c0.raw(k)])),
                ('used-up counters are not revisited', i0 <= i1),
                ('nothing is counted then', Im(r == null, A(n1 == n0, CT_.th.eqS(c1.c, c0.c)))),
                ('the first argument that still takes values', Im(r != null, A(i0 <= i1, i1 < c0.n, r == c0.arg(i1), c0.cnt(i1) > 0,
                                                                             forall([k], Im(A(i0 <= k, k < i1), c0.cnt(k) == 0), [c0.raw(k)])))),
                ('it takes one value', Im(r != null, A(n1 == n0 + 1, c1.n == c0.n, c1.cnt(i1) == c0.cnt(i1) - 1, c1.arg(i1) == c0.arg(i1),
                                                      forall([k], Im(A(0 <= k, k < c0.n, k != i1), c1.raw(k) == c0.raw(k)), [c1.raw(k)]))))] + inv_now(sc)


@contract(C + 'is_complete', 'C07')
class _:
    def pure(self, sc):
        c, i, fo, _ = state(sc)
        k = z3.Int('k!')
        return forall([k], Im(A(i <= k, k < fo), c.cnt(k) == 0), [c.raw(k)])


@contract(C + 'count', 'C07')
class _:
    def pure(self, sc):
        return sc.m('m_counter')


class Ctor:
    node_is_ctor = True

    def modifies(self, sc):
        return [('loc', sc.this)]


@contract(C + 'ArgumentCounter', 'C07', nparams=0)
class _(Ctor):
    def ensures(self, sc):
        c, i, fo, n = state(sc)
        return [('no counters', A(c.n == 0, i == 0, fo == 0, n == 0))] + inv_now(sc)


@contract(C + 'ArgumentCounter', 'C07', nparams=1)
class _(Cmd, Ctor):
    def ensures(self, sc):
        g = Args(sc, sc.arg(0))
        c, i, fo, n = state(sc)
        return [('nothing handed out yet', A(i == 0, n == 0)), ('complete from the first optional argument on', first_optional(g, fo, g.n))] + \
            greedy(g, c, g.n, fo) + inv_now(sc)


def left(g, n, k, i):
    """what argument k can still take after i values were handed out"""
    b, q = g.before(n, k), g.quota(n, k)
    return z3.If(i <= b, q, z3.If(i >= b + q, 0, b + q - i))


@lemma('the share of an argument lies between the shares of its neighbours', 'C07')
def _():
    g, (k, n) = _lists(), z3.Ints('k n')
    return [f for _, f in g.wf() + g.facts() + g.defs(n)] + [0 <= k, k < g.n, n >= 0, touch(RA.at(g.a, k)), touch(g.slo(k)), touch(g.shi(k))], \
        A(g.before(n, k + 1) == g.before(n, k) + g.quota(n, k), g.before(n, 0) == 0, g.quota(n, k) >= 0, g.quota(n, k) <= UMAX)


@lemma('without variable arguments before the last, every argument but the last gets all it accepts', 'C07')
def _():
    g, (k, n) = _lists(), z3.Ints('k n')
    return [f for _, f in g.wf() + g.facts() + g.defs(n)] + [0 <= k, k < g.n, g.slo(g.n) <= n, g.lo(k) == g.hi(k), touch(RA.at(g.a, k))], g.quota(n, k) == g.hi(k)


def _handed(sc, i):
    g = Args(sc, sc.param(0) if hasattr(sc, 'param') else sc.arg(0))
    n = sc.fsc.old(1) if hasattr(sc, 'fsc') else sc.old(1)
    v = sc.I.load(sc.this)
    c = counters(v.f['m_counters'])
    k = z3.Int('k!')
    return [('one counter per argument', A(c.n == g.n, v.f['m_first_optional'] == g.n)),
            ('earlier arguments are served first', forall([k], Im(A(0 <= k, k < g.n), A(c.cnt(k) == left(g, n, k, i), c.arg(k) == RA.at(g.a, k))),
                                                          [c.raw(k), RA.at(g.a, k)]))] + \
        cinv(v.f['m_counters'], v.f['m_index'], v.f['m_first_optional'], v.f['m_counter'])


def _serving(sc, i):
    g = Args(sc, sc.param(0))
    n = sc.fsc.old(1)
    v = sc.I.load(sc.this)
    c, mi = counters(v.f['m_counters']), v.f['m_index']
    k = z3.Int('k!')
    return [('one counter per argument', A(c.n == g.n, v.f['m_first_optional'] == g.n)),
            ('i values were counted', A(0 <= i, i <= sc.fsc.old(2), v.f['m_counter'] == i)),
            ('counters belong to the arguments in order', forall([k], Im(A(0 <= k, k < g.n), c.arg(k) == RA.at(g.a, k)), [c.raw(k), RA.at(g.a, k)])),
            ('later counters are untouched', forall([k], Im(A(mi < k, k < g.n), c.cnt(k) == g.quota(n, k)), [c.raw(k), RA.at(g.a, k), g.quota(n, k)])),
            ('(terms to consider)', A(mark(mi), mark(mi + 1), mark(g.n))),
            ('the current counter', A(z3.If(mi < g.n, A(i == g.before(n, mi) + g.quota(n, mi) - c.cnt(mi), c.cnt(mi) <= g.quota(n, mi)), i == g.before(n, g.n))))] + \
        cinv(v.f['m_counters'], v.f['m_index'], v.f['m_first_optional'], v.f['m_counter'])


def idle(g, n, a, b):
    k = z3.Int('q!')
    return Im(a <= b, O(g.before(n, a) == g.before(n, b), z3.Exists([k], A(a <= k, k < b, g.quota(n, k) > 0))))


@lemma('arguments without a share take nothing (induction step)', 'C07')
def _():
    g, (a, b, n) = _lists(), z3.Ints('a b n')
    return [f for _, f in g.wf() + g.facts() + g.defs(n)] + [0 <= a, a <= b, b < g.n, n >= 0, idle(g, n, a, b), touch(RA.at(g.a, b)), touch(g.slo(b)), touch(g.shi(b)), touch(g.quota(n, b)), touch(g.before(n, b)), touch(g.before(n, b + 1))], \
        idle(g, n, a, b + 1)


def chain(g, n):
    k, j = z3.Ints('k! j!')
    return [('shares follow each other', forall([k], Im(A(0 <= k, k < g.n), A(g.before(n, k + 1) == g.before(n, k) + g.quota(n, k), g.quota(n, k) >= 0, g.quota(n, k) <= UMAX)), [g.quota(n, k)])),
            ('arguments without a share take nothing', forall([k, j], Im(A(0 <= k, j <= g.n), idle(g, n, k, j)), [(markf(k), markf(j))])),
            ('shares begin at the first value', g.before(n, 0) == 0),
            ('shares are in order', forall([k, j], Im(A(0 <= k, k < j, j <= g.n), g.before(n, k) + g.quota(n, k) <= g.before(n, j)), [(g.quota(n, k), g.before(n, j))]))]


@lemma('shares are in order (induction step)', 'C07')
def _():
    g, (k, j, n) = _lists(), z3.Ints('k j n')
    return [f for _, f in g.wf() + g.facts() + g.defs(n)] + [0 <= k, k < j, j < g.n, n >= 0, g.before(n, k) + g.quota(n, k) <= g.before(n, j), touch(RA.at(g.a, j)), touch(RA.at(g.a, k)),
                                                 touch(g.slo(j)), touch(g.shi(j)), touch(g.slo(k)), touch(g.shi(k))], \
        g.before(n, k) + g.quota(n, k) <= g.before(n, j + 1)


@contract(C + 'ArgumentCounter', 'C07', nparams=3)
class _(Ctor):
    loops = (Loop(lambda sc: _serving(sc, sc.i)),)

    def requires(self, sc):
        return Args(sc, sc.arg(0)).wf()

    def assumes(self, sc):
        return [('fewer than 2^64 arguments are counted', sc.arg(2) < SIZE_MAX)]

    def axioms_at_entry(self, sc):
        g = Args(sc, sc.arg(0))
        return chain(g, sc.arg(1))

    def ensures(self, sc):
        g, n = Args(sc, sc.arg(0)), sc.old(1)
        c, mi, _, i = state(sc)
        k = z3.Int('k!')
        return [('the values of earlier counters were handed out', forall([k], Im(A(mark(mi), mark(k), 0 <= k, k < mi, k < g.n), A(g.before(n, k) + g.quota(n, k) <= i, i <= sc.old(2))), [RA.at(g.a, k)])),
                ('no value of a later counter was', forall([k], Im(A(mark(k), mi < k, k < g.n), A(i <= g.before(n, k), O(c.cnt(k) == 0, i == sc.old(2)))), [RA.at(g.a, k)]))] + \
            _handed(sc, sc.old(2))
