"""C08, C09, C12, C21: ParsedArgumentsImpl.cpp"""
from .core import *
from .strings import A, O, N, Im, Str, L, at, FLESS, FSAME, FDEFS, ORDER

SEL = z3.Select
PI = 'argos::ParsedArgumentsImpl::'


class Store:
    """the values read so far, as a list per value id"""

    def __init__(self, v, T_):
        self.v, self.T, self.th = v, T_, T_.th
        self.f = mmap_fns(T_)
        self.n = self.th.len(v)

    def e(self, i):
        return self.th.at(self.v, i)

    def lb(self, k):
        return self.f.lb(self.v, k)

    def ub(self, k):
        return self.f.ub(self.v, k)

    def count(self, k):
        return self.ub(k) - self.lb(k)

    def of(self, k, j):
        return self.f.of(self.v, k, j)

    def entry(self, k, j):
        return self.T.elem.unpack(self.of(k, j)).second

    def text(self, k, j):
        return self.entry(k, j).first

    def arg(self, k, j):
        return self.entry(k, j).second

    def key(self, i):
        return self.T.elem.unpack(self.e(i)).first

    def sorted(self):
        i, j = z3.Ints('i! j!')
        return forall([i, j], Im(A(0 <= i, i <= j, j < self.n), self.key(i) <= self.key(j)), [(self.e(i), self.e(j))])


def _store_type():
    text = TSeq(TInt(8, True), 'string')
    return TSeq(TTuple([TInt(32, True), TTuple([text, TInt(32, True)], pair=True)], pair=True), 'multimap')


def _lemma_store():
    T_ = _store_type()
    return Store(z3.Const('m', T_.sort), T_)


_q, _k = z3.Ints('q! k!')


def order_facts(T_):
    """the entries of smaller ids come first"""
    v = z3.Const('m!', T_.sort)
    s = Store(v, T_)
    return [('smaller ids come first', forall([v, _q, _k], Im(_q <= _k, A(s.lb(_q) <= s.lb(_k), s.ub(_q) <= s.ub(_k))), [(s.lb(_q), s.lb(_k))])),
            ('smaller ids come before', forall([v, _q, _k], Im(_q < _k, s.ub(_q) <= s.lb(_k)), [(s.ub(_q), s.lb(_k))]))]


for _n, _f in order_facts(_store_type()):
    def _mk_lemma(n, f):
        @lemma(n, 'C08 C09')
        def _():
            s = _lemma_store()
            q, k = z3.Ints('q k')
            body = z3.substitute_vars(f.body(), k, q, s.v)
            ends = [mark(s.key(x)) for p in (q, k) for x in (s.lb(p), s.ub(p), s.lb(p) - 1, s.ub(p) - 1)]
            return [s.sorted()] + ends, body
    _mk_lemma(_n, _f)


def moved(s0, s1, cut, k, d, lo, hi):
    """positions in the new sequence; the parts of the sequences that need a look"""
    q = z3.Int('q!')
    P, U, p, u = s1.lb(q), s1.ub(q), s0.lb(q), s0.ub(q)
    looks = [mark(s1.key(x + y)) for x in (P, U, p, u) for y in (0, -1, d)] + [mark(s0.key(x + y)) for x in (P, U, p, u) for y in (0, -1, -d)]
    return ('positions', forall([q], Im(A(*looks), A(P == lo(q), U == hi(q))), [P, U]))


def stores(sc):
    T_ = sc.T('ParsedArgumentsImpl', 'm_values')
    return Store(sc.om('m_values'), T_), Store(sc.m('m_values'), T_)


def others_kept(s0, s1, k):
    """the values of the ids other than k are the same"""
    q, j = z3.Ints('q! j!')
    return [('the values of other ids are as many', forall([q], Im(q != k, s1.count(q) == s0.count(q)), [s1.lb(q)])),
            ('the values of other ids are the same', forall([q, j], Im(A(q != k, 0 <= j, j < s0.count(q)), s1.of(q, j) == s0.of(q, j)),
                                                            [s1.of(q, j)]))]


def appended(s0, s1, k, text, arg):
    j = z3.Int('j!')
    c = s0.count(k)
    return [('ordered by id', s1.sorted()), ('one value more', s1.count(k) == c + 1),
            ('it comes last', A(s1.text(k, c) == text, s1.arg(k, c) == arg)),
            ('earlier values stay', forall([j], Im(A(0 <= j, j < c), s1.of(k, j) == s0.of(k, j)), [s1.of(k, j)]))] + others_kept(s0, s1, k)


def assigned(s0, s1, k, text, arg):
    return [('ordered by id', s1.sorted()), ('one value', s1.count(k) == 1), ('the new one', A(s1.text(k, 0) == text, s1.arg(k, 0) == arg))] + \
        others_kept(s0, s1, k)


def cleared(s0, s1, k):
    return [('ordered by id', s1.sorted()), ('no values', s1.count(k) == 0)] + others_kept(s0, s1, k)


class Valid:
    def axioms_at_entry(self, sc):
        return order_facts(sc.T('ParsedArgumentsImpl', 'm_values'))

    def requires(self, sc):
        return [('ordered by id', stores(sc)[0].sorted())]


@contract(PI + 'has', 'C08 C09')
class _(Valid):
    def ensures(self, sc):
        return [('true iff there is a value', sc.result == (stores(sc)[0].count(sc.arg(0)) > 0))]


@contract(PI + 'append_value', 'C08 C09')
class _(Valid):
    def modifies(self, sc):
        return [('loc', sc.mloc('m_values'))]

    def ensures(self, sc):
        s0, s1 = stores(sc)
        k = sc.old(0)
        j = z3.Int('j!')
        c = s0.count(k)
        return [('ordered by id', s1.sorted()),
                moved(s0, s1, s0.ub(k), k, 1, lambda q: s0.lb(q) + z3.If(q > k, 1, 0), lambda q: s0.ub(q) + z3.If(q >= k, 1, 0)),
                ('one value more', s1.count(k) == c + 1),
                ('it comes last', A(s1.text(k, c) == sc.old(1), s1.arg(k, c) == sc.old(2))),
                ('earlier values stay', forall([j], Im(A(0 <= j, j < c), s1.of(k, j) == s0.of(k, j)), [s1.of(k, j)]))] + \
            others_kept(s0, s1, k) + [('the text is returned', sc.result == sc.old(1))]


@contract(PI + 'assign_value', 'C08 C09')
class _(Valid):
    def modifies(self, sc):
        return [('loc', sc.mloc('m_values')), ('loc', sc.mloc('m_removed_values'))]

    def ensures(self, sc):
        s0, s1 = stores(sc)
        k = sc.old(0)
        return [('ordered by id', s1.sorted()), ('one value', s1.count(k) == 1), ('the new one', A(s1.text(k, 0) == sc.old(1), s1.arg(k, 0) == sc.old(2)))] + \
            others_kept(s0, s1, k) + [('the text is returned', sc.result == sc.old(1))]


def _clr(sc):
    T_ = sc.T('ParsedArgumentsImpl', 'm_values')
    s0 = Store(sc.fsc.om('m_values'), T_)
    s1 = Store(sc.m('m_values'), T_)
    k = sc.param(0)
    p = var(sc, 'it', '', 0).idx
    i = z3.Int('i!')
    gone = s0.n - s1.n
    return [('position', A(p == s0.lb(k), 0 <= gone, gone <= s0.count(k))),
            ('earlier entries', forall([i], Im(A(0 <= i, i < p), s1.e(i) == s0.e(i)), [s1.e(i), s0.e(i)])),
            ('later entries', forall([i], Im(A(p <= i, i < s1.n), s1.e(i) == s0.e(i + gone)), [s1.e(i)]))]


@contract(PI + 'clear_value', 'C08 C09')
class _(Valid):
    loops = (Loop(_clr, lambda sc: Store(sc.m('m_values'), sc.T('ParsedArgumentsImpl', 'm_values')).n),)

    def modifies(self, sc):
        return [('loc', sc.mloc('m_values')), ('loc', sc.mloc('m_removed_values'))]

    def ensures(self, sc):
        s0, s1 = stores(sc)
        k = sc.old(0)
        c = s0.count(k)
        return [('ordered by id', s1.sorted()),
                moved(s0, s1, s0.ub(k), k, c, lambda q: s0.lb(q) - z3.If(q > k, c, 0), lambda q: s0.ub(q) - z3.If(q >= k, c, 0)),
                ('no values', s1.count(k) == 0)] + others_kept(s0, s1, k)


@contract(PI + 'get_value', 'C08 C09 C10')
class _(Valid):
    def throws(self, sc):
        return stores(sc)[0].count(sc.arg(0)) > 1

    def ensures(self, sc):
        s, k, r = stores(sc)[0], sc.arg(0), sc.result
        return [('a value iff there is one', r.has == (s.count(k) == 1)), ('the value', Im(r.has, A(r.val.first == s.text(k, 0), r.val.second == s.arg(k, 0))))]


def _gv(sc):
    T_ = sc.T('ParsedArgumentsImpl', 'm_values')
    s = Store(sc.m('m_values'), T_)
    k = sc.param(0)
    p = sc.i
    r = var(sc, 'result', 'vector<pair<sv,u32>>', 0)
    j = z3.Int('j!')
    R = lambda j: RS2(r).at(r, j)
    th = RS2(r)
    return [('position', A(s.lb(k) <= p, p <= s.ub(k), th.len(r) == p - s.lb(k))),
            ('values so far', forall([j], Im(A(0 <= j, j < th.len(r)), th.at(r, j) == s.T.elem.dt.acc(0, 1, s.of(k, j))), [th.at(r, j)]))]


def RS2(r):
    from theory import _seqs_by_sort
    return _seqs_by_sort[r.sort().name()]


@contract(PI + 'get_values', 'C08 C09 C10')
class _(Valid):
    loops = (Loop(_gv),)

    def ensures(self, sc):
        s, k, r = stores(sc)[0], sc.arg(0), sc.result
        th, j = RS2(r), z3.Int('j!')
        return [('as many', th.len(r) == s.count(k)),
                ('all values in order', forall([j], Im(A(0 <= j, j < th.len(r)), th.at(r, j) == s.T.elem.dt.acc(0, 1, s.of(k, j))), [th.at(r, j)]))]


@contract(PI + 'set_result_code', 'C12')
class _:
    def modifies(self, sc):
        return [('loc', sc.mloc('m_result_code'))]

    def ensures(self, sc):
        return [('the code is stored', sc.m('m_result_code') == sc.old(0))]


@contract(PI + 'result_code', 'C12')
class _:
    def pure(self, sc):
        return sc.m('m_result_code')


@contract(PI + 'set_breaking_option', 'C12')
class _:
    def modifies(self, sc):
        return [('loc', sc.mloc('m_result_code')), ('loc', sc.mloc('m_stop_option'))]

    def ensures(self, sc):
        return [('stopped', sc.m('m_result_code') == STOP), ('at the option', sc.m('m_stop_option') == sc.old(0))]


NONE, SUCCESS, STOP, ERROR = range(4)


@contract(PI + 'stop_option', 'C12')
class _:
    def pure(self, sc):
        return sc.m('m_stop_option')


@contract(PI + 'add_unprocessed_argument', 'C12 C22')
class _:
    def modifies(self, sc):
        return [('loc', sc.mloc('m_unprocessed_arguments'))]

    def ensures(self, sc):
        return [('added last', sc.m('m_unprocessed_arguments') == seq_of(Str.sort).push(sc.om('m_unprocessed_arguments'), sc.old(0)))]


# ------------------------------------------------------------------ names of values
CS = z3.BoolVal(False)


class Ids:
    def __init__(self, v, T_):
        self.v, self.th, self.T = v, T_.th, T_
        self.n = self.th.len(v)

    def e(self, i):
        return self.th.at(self.v, i)

    def name(self, i):
        return self.T.elem.unpack(self.e(i)).f['0']

    def id(self, i):
        return self.T.elem.unpack(self.e(i)).f['1']

    def sorted(self):
        i, j = z3.Ints('i! j!')
        return forall([i, j], Im(A(0 <= i, i <= j, j < self.n), N(FLESS(self.name(j), self.name(i), CS))), [(self.e(i), self.e(j))])


def ids(sc):
    return Ids(sc.om('m_ids'), sc.T('ParsedArgumentsImpl', 'm_ids'))


def _search(sc):
    b, e, v = sc.param(0), sc.param(1), sc.param(2)
    T_ = sc.I.loc_type(b.cont)
    x = Ids(sc.I.load(b.cont), T_)
    j = z3.Int('j!')
    return [('range', A(0 <= b.idx, b.idx <= e.idx, e.idx <= x.n)),
            ('what is before is less', forall([j], Im(A(0 <= j, j < b.idx), FLESS(x.name(j), v, CS)), [x.e(j)])),
            ('what is after is not', forall([j], Im(A(e.idx <= j, j < x.n), N(FLESS(x.name(j), v, CS))), [x.e(j)]))]


@contract('argos::lower_bound', 'C09', inline=True, verify=False)
class _:
    loops = (Loop(_search, lambda sc: sc.param(1).idx - sc.param(0).idx),)


def IDX(sc, x, name, memo={}):
    """the place of the first name that is not less"""
    if x.T.name not in memo:
        f = z3.Function('place_of_name', x.T.sort, Str.sort, IntS)
        v, t, j = z3.Const('v!x', x.T.sort), z3.Const('t!x', Str.sort), z3.Int('j!x')
        y = Ids(v, x.T)
        p = f(v, t)
        add_group([f.name()], [forall([v, t], A(0 <= p, p <= y.n, Im(p < y.n, N(FLESS(y.name(p), t, CS)))), [p]), forall([v, t, j], Im(A(0 <= j, j < p), FLESS(y.name(j), t, CS)), [(p, y.e(j))])])
        memo[x.T.name] = f
    return memo[x.T.name](x.v, name)


@contract(PI + 'get_value_id', 'C09 C10')
class _:
    def requires(self, sc):
        return [('names are sorted', ids(sc).sorted())]

    def axioms_at_entry(self, sc):
        return FDEFS + ORDER

    def unknown(self, sc):
        x, j = ids(sc), z3.Int('j!')
        return forall([j], Im(A(0 <= j, j < x.n), N(FSAME(x.name(j), sc.arg(0), CS))), [x.e(j)])

    def throws(self, sc):
        return self.unknown(sc)

    def ensures(self, sc):
        x, j = ids(sc), z3.Int('j!')
        p = IDX(sc, x, sc.arg(0))
        return [('the id of the first entry that is not less', sc.result == x.id(p)), ('the id of an entry with that name', N(forall([j], Im(A(0 <= j, j < x.n, FSAME(x.name(j), sc.arg(0), CS)), x.id(j) != sc.result), [x.e(j)])))]


# ------------------------------------------------------------------ the names of a command
# Any relation that holds for every name (text and value id) of a command
ISNAME = z3.Function('is_name_of', Addr, Str.sort, IntS, BoolS)
# Any text and id
NM, VD = z3.Const('any_name', Str.sort), z3.Int('any_id')
RA, RS = seq_of(Addr), seq_of(Str.sort)


class Names:
    def __init__(self, sc, cmd):
        self.sc, self.cmd = sc, cmd
        self.args, self.opts = SEL(sc.H('CommandData', 'arguments'), cmd), SEL(sc.H('CommandData', 'options'), cmd)

    def a(self, f, x):
        return SEL(self.sc.H('ArgumentData', f), x)

    def o(self, f, x):
        return SEL(self.sc.H('OptionData', f), x)

    def real(self):
        i = z3.Int('i!')
        return [('arguments exist', forall([i], Im(A(0 <= i, i < RA.len(self.args)), RA.at(self.args, i) != null), [RA.at(self.args, i)])),
                ('options exist', forall([i], Im(A(0 <= i, i < RA.len(self.opts)), RA.at(self.opts, i) != null), [RA.at(self.opts, i)]))]

    def each(self, f, na=None, no=None):
        """f(name, id) for every name of the first na arguments and no options"""
        i, j = z3.Ints('x! y!')
        na = RA.len(self.args) if na is None else na
        no = RA.len(self.opts) if no is None else no
        x, y = RA.at(self.args, i), RA.at(self.opts, i)
        fl = self.o('flags', y)
        named = self.o('operation', y) != 0
        return [forall([i], Im(A(0 <= i, i < na), A(f(self.a('name', x), self.a('value_id', x)), Im(L(self.a('alias', x)) > 0, f(self.a('alias', x), self.a('value_id', x))))), [x]),
                forall([i, j], Im(A(0 <= i, i < no, named, 0 <= j, j < RS.len(fl)), f(RS.at(fl, j), self.o('value_id', y))), [(y, RS.at(fl, j))]),
                forall([i], Im(A(0 <= i, i < no, named, L(self.o('alias', y)) > 0), f(self.o('alias', y), self.o('value_id', y))), [y])]


def ids_now(sc, old=False):
    return Ids((sc.om if old else sc.m)('m_ids'), sc.T('ParsedArgumentsImpl', 'm_ids'))


def only_names(x, cmd):
    k = z3.Int('k!')
    return ('every entry is a name of the command', forall([k], Im(A(0 <= k, k < x.n), ISNAME(cmd, x.name(k), x.id(k))), [x.e(k)]))


def absent(x):
    k = z3.Int('k!')
    return forall([k], Im(A(0 <= k, k < x.n), N(A(x.name(k) == NM, x.id(k) == VD))), [x.e(k)])


def not_it(name, id_):
    return N(A(name == NM, id_ == VD))


def _na(sc):
    g = Names(sc, sc.m('m_command'))
    x = ids_now(sc)
    return [only_names(x, g.cmd), ('names so far', Im(absent(x), A(*g.each(not_it, sc.i, z3.IntVal(0)))))]


def _no(sc):
    g = Names(sc, sc.m('m_command'))
    x = ids_now(sc)
    return [only_names(x, g.cmd), ('names so far', Im(absent(x), A(*g.each(not_it, None, sc.i))))]


def _nf(sc):
    g = Names(sc, sc.m('m_command'))
    x, x0 = ids_now(sc), ids_now(sc, True)
    k, j = z3.Ints('k! j!')
    fl = sc.range
    o = sc.var('o')
    return [only_names(x, g.cmd), ('as many more', x.n == x0.n + sc.i),
            ('earlier entries', forall([k], Im(A(0 <= k, k < x0.n), x.e(k) == x0.e(k)), [x.e(k), x0.e(k)])),
            ('new entries', forall([k], Im(A(x0.n <= k, k < x.n), A(x.name(k) == RS.at(fl, k - x0.n), x.id(k) == g.o('value_id', o))), [x.e(k)])),
            ('of the flags', forall([j], Im(A(0 <= j, j < sc.i), A(x.name(x0.n + j) == RS.at(fl, j), x.id(x0.n + j) == g.o('value_id', o))), [RS.at(fl, j)]))]


def _nc(sc):
    x, x0 = ids_now(sc), ids_now(sc, True)
    k = z3.Int('k!')
    return [('as many', x.n == x0.n), ('the same names and ids', forall([k], Im(A(0 <= k, k < x.n), A(x.name(k) == x0.name(k), x.id(k) == x0.id(k))), [x.e(k), x0.e(k)])),
            ('every name has an entry', Im(absent(x), A(*Names(sc, sc.m('m_command')).each(not_it)))),
            ("position", A(1 <= sc.i, sc.i <= x.n))]


@contract(PI + 'ParsedArgumentsImpl', 'C08 C09 C12', nparams=2)
class _:
    loops = (Loop(_na), Loop(_no), Loop(_nf), Loop(_nc))
    node_is_ctor = True

    def requires(self, sc):
        return Names(sc, sc.arg(0)).real() + [('there is a command', sc.arg(0) != null), ('there is data', sc.arg(1) != null)]

    def axioms_at_entry(self, sc):
        g = Names(sc, sc.arg(0))
        return FDEFS + ORDER + [('any relation that holds for the names of the command', f) for f in g.each(lambda n, v: ISNAME(g.cmd, n, v))]

    def modifies(self, sc):
        return [('loc', sc.mloc(f)) for f in ('m_command', 'm_data', 'm_ids', 'm_values', 'm_removed_values', 'm_commands', 'm_unprocessed_arguments', 'm_result_code', 'm_stop_option')]

    def ensures(self, sc):
        cmd = sc.old(0)
        g, x = Names(sc, cmd), ids_now(sc)
        s = Store(sc.m('m_values'), sc.T('ParsedArgumentsImpl', 'm_values'))
        return [('its command', sc.m('m_command') == cmd), ('its data', sc.m('m_data') == sc.old(1)),
                ('no values', A(s.n == 0, s.sorted())),
                ('no subcommands', RA.len(sc.m('m_commands')) == 0), ('nothing is left over', RS.len(sc.m('m_unprocessed_arguments')) == 0),
                ('no result yet', A(sc.m('m_result_code') == 0, sc.m('m_stop_option') == null)),
                ('names are sorted', x.sorted()), only_names(x, cmd),
                ('every name has an entry', Im(absent(x), A(*g.each(not_it))))]


@contract(PI + 'add_subcommand', 'C08 C09 C13')
class _:
    allocates = True

    def requires(self, sc):
        return Names(sc, sc.arg(0)).real() + [('there is a command', sc.arg(0) != null), ('there is data', sc.m('m_data') != null)]

    def modifies(self, sc):
        return [('loc', sc.mloc('m_commands'))]

    def result_of(self, sc):
        return sc.mloc('m_commands').ext('i', RA.len(sc.m('m_commands')) - 1)

    def ensures(self, sc):
        c0, c, j = sc.om('m_commands'), sc.m('m_commands'), z3.Int('j!')
        P = 'ParsedArgumentsImpl'
        new = RA.at(c, RA.len(c0))
        f = lambda n: SEL(sc.H(P, n), new)
        s = Store(f('m_values'), sc.T(P, 'm_values'))
        x = Ids(f('m_ids'), sc.T(P, 'm_ids'))
        return [('one result more', RA.len(c) == RA.len(c0) + 1), ('earlier ones stay', forall([j], Im(A(0 <= j, j < RA.len(c0)), RA.at(c, j) == RA.at(c0, j)), [RA.at(c, j)])),
                ('a new one', A(new != null, is_new(new, sc.allocs0), rid(new) >= -sc.allocs1)),
                ('for the command', A(f('m_command') == sc.old(0), f('m_data') == sc.om('m_data'))),
                ('without values or results', A(s.n == 0, s.sorted(), RA.len(f('m_commands')) == 0, RS.len(f('m_unprocessed_arguments')) == 0, f('m_result_code') == 0,
                                                f('m_stop_option') == null)),
                ('its names are sorted', x.sorted())]
