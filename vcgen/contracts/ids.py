"""C09: which definitions share a value id (set_internal_ids)"""
from .core import *
from .strings import A, O, N, Im, Str, L, at
from . import parserdata as PD

SEL, RS, RA = z3.Select, PD.RS, PD.RA
MAKER = 'argos::set_internal_ids(const argos::CommandData &, argos::ValueId, argos::ArgumentId)::InternalIdMaker::'
FIT = 'assumption: a command has fewer than 2^31 names'


class Ids:
    """the ids given to names"""

    def __init__(self, v, T_):
        self.v, self.T = v, T_

    def has(self, k):
        return self.T.opt.dt.is_(1, SEL(self.v, k))

    def id(self, k):
        return self.T.V.unpack(self.T.opt.dt.acc(1, 0, SEL(self.v, k)))


_k, _k2 = z3.Const('k!', Str.sort), z3.Const('k2!', Str.sort)


def given(old, n0, new, n1, names):
    """ids after the names were given one, each the next one in turn"""
    has, val, n = old.has, old.id, n0
    for x in names:
        h = has(x)
        has, val, n = (lambda k, has=has, x=x: O(has(k), k == x)), (lambda k, val=val, x=x, n=n, h=h: z3.If(A(k == x, N(h)), n + 1, val(k))), z3.If(h, n, n + 1)
    return has, val, n


class Maker:
    def ids(self, sc, old=False):
        T_ = dict(sc.I.loc_type(sc.this).fields)['explicit_ids']
        return Ids((sc.om if old else sc.m)('explicit_ids'), T_)


@contract(MAKER + 'get_value_id', 'C09')
class _(Maker):
    counts_fit = FIT

    def modifies(self, sc):
        return [('loc', sc.mloc('explicit_ids')), ('loc', sc.mloc('id'))]

    def ensures(self, sc):
        o, w, x = self.ids(sc, True), self.ids(sc), sc.old(0)
        has, val, n = given(o, sc.om('id'), w, None, [x])
        return [('the id of the name', A(w.has(x), sc.result == w.id(x))),
                ('a name keeps its id', Im(o.has(x), w.id(x) == o.id(x))),
                ('a new name gets the next id', A(sc.m('id') == n, Im(N(o.has(x)), w.id(x) == n))),
                ('other names keep theirs', forall([_k], A(w.has(_k) == has(_k), Im(A(o.has(_k), _k != x), w.id(_k) == o.id(_k))), [SEL(w.v, _k)]))]


@contract(MAKER + 'connect', 'C09')
class _(Maker):
    counts_fit = FIT

    def modifies(self, sc):
        return [('loc', sc.mloc('explicit_ids')), ('loc', sc.mloc('id'))]

    def ensures(self, sc):
        o, w = self.ids(sc, True), self.ids(sc)
        x, y = sc.old(0), sc.old(1)
        has, val, n = given(o, sc.om('id'), w, None, [x, y])
        return [('ids are given in turn', sc.m('id') == n),
                ('no other name gets an id', forall([_k], w.has(_k) == has(_k), [SEL(w.v, _k)])),
                ('the names that shared the second id have the first', forall([_k], Im(has(_k), w.id(_k) == z3.If(val(_k) == val(y), val(x), val(_k))), [SEL(w.v, _k)]))]

    def _inv(L_):
        m0, T_, pos = L_.map0
        o, w = Ids(m0, T_), Ids(L_.m('explicit_ids'), T_)
        x, y = L_.fsc.old(0), L_.fsc.old(1)
        return [('the names are the same', forall([_k], w.has(_k) == o.has(_k), [SEL(w.v, _k)])),
                ('the ids so far', forall([_k], Im(o.has(_k), w.id(_k) == z3.If(A(pos(_k) < L_.i, o.id(_k) == o.id(y)), o.id(x), o.id(_k))), [SEL(w.v, _k)]))]

    loops = [Loop(_inv)]


# any equivalence that holds for every pair of names the command declares to be the same value
LINKED = z3.Function('linked', Str.sort, Str.sort, BoolS)
_x, _y, _z = (z3.Const(n, Str.sort) for n in ('lx!', 'ly!', 'lz!'))
_j, _f, _g, _l = z3.Ints('j! f! g! l!')
NONE = 0


class Decl:
    """what a command declares"""

    def __init__(self, sc, addr):
        self.sc = sc
        self.A, self.O = sc.oh('CommandData', 'arguments', addr), sc.oh('CommandData', 'options', addr)
        self.na, self.no = RA.len(self.A), RA.len(self.O)

    def arg(self, j):
        return RA.at(self.A, j)

    def opt(self, j):
        return RA.at(self.O, j)

    def name(self, j):
        return SEL(self.sc.OH('ArgumentData', 'name'), self.arg(j))

    def alias(self, j):
        return SEL(self.sc.OH('ArgumentData', 'alias'), self.arg(j))

    def flags(self, j):
        return SEL(self.sc.OH('OptionData', 'flags'), self.opt(j))

    def flag(self, j, f):
        return RS.at(self.flags(j), f)

    def oalias(self, j):
        return SEL(self.sc.OH('OptionData', 'alias'), self.opt(j))

    def valued(self, j):
        return SEL(self.sc.OH('OptionData', 'operation'), self.opt(j)) != NONE

    def isarg(self, j, n=None):
        return A(0 <= j, j < (self.na if n is None else n))

    def isopt(self, j, n=None):
        return A(0 <= j, j < (self.no if n is None else n))

    def isflag(self, j, f):
        return A(0 <= f, f < RS.len(self.flags(j)))

    def proper(self):
        return [('arguments and options exist, once each',
                 A(forall([_j], Im(self.isarg(_j), self.arg(_j) != null), [self.arg(_j)]),
                   forall([_j], Im(self.isopt(_j), A(self.opt(_j) != null, RS.len(self.flags(_j)) > 0)), [self.opt(_j)]),
                   forall([_j, _l], Im(A(self.isarg(_j), self.isarg(_l), _j != _l), self.arg(_j) != self.arg(_l)), [(self.arg(_j), self.arg(_l))]),
                   forall([_j, _l], Im(A(self.isopt(_j), self.isopt(_l), _j != _l), self.opt(_j) != self.opt(_l)), [(self.opt(_j), self.opt(_l))])))]

    def linked(self):
        R = LINKED
        return A(forall([_x], R(_x, _x), [R(_x, _x)]), forall([_x, _y], Im(R(_x, _y), R(_y, _x)), [R(_x, _y)]),
                 forall([_x, _y, _z], Im(A(R(_x, _y), R(_y, _z)), R(_x, _z)), [(R(_x, _y), R(_y, _z))]),
                 forall([_j], Im(A(self.isarg(_j), L(self.alias(_j)) > 0), R(self.name(_j), self.alias(_j))), [self.arg(_j)]),
                 forall([_j], Im(A(self.isopt(_j), self.valued(_j), L(self.oalias(_j)) > 0), R(self.flag(_j, 0), self.oalias(_j))), [self.opt(_j)]),
                 forall([_j, _f], Im(A(self.isopt(_j), self.valued(_j), self.isflag(_j, _f)), R(self.flag(_j, 0), self.flag(_j, _f))), [self.flag(_j, _f)]))


def _state(sc):
    """the id maker"""
    v = var(sc, 'id_maker', 'InternalIdMaker', 0)
    T_ = dict(v.T.fields)['explicit_ids']
    return Ids(v.f['explicit_ids'], T_), v.f['id'], v


def same(m, x, y):
    return A(m.has(x), m.has(y), m.id(x) == m.id(y))


def _ids(sc, na, no, d=None):
    """names that were linked have one id"""
    d = d or Decl(sc, sc.param(0).addr)
    m, n, _ = _state(sc)
    start = sc.fsc.old(1)
    out = [('ids so far', A(n >= start, forall([_x], Im(m.has(_x), A(start < m.id(_x), m.id(_x) <= n)), [SEL(m.v, _x)]))),
           ('only linked names share an id', forall([_x, _y], Im(same(m, _x, _y), LINKED(_x, _y)), [(SEL(m.v, _x), SEL(m.v, _y))])),
           ('arguments share the id of their alias', forall([_j], Im(A(d.isarg(_j, na), L(d.alias(_j)) > 0), same(m, d.name(_j), d.alias(_j))), [d.arg(_j)]))]
    if no is not None:
        out += _opt_ids(m, d, no)
    return out


def _opt_ids(m, d, no):
    return [('options share the id of their alias', forall([_j], Im(A(d.isopt(_j, no), d.valued(_j), L(d.oalias(_j)) > 0), same(m, d.flag(_j, 0), d.oalias(_j))), [d.opt(_j)])),
            ('all flags of an option share an id', forall([_j, _f], Im(A(d.isopt(_j, no), d.valued(_j), d.isflag(_j, _f)), same(m, d.flag(_j, 0), d.flag(_j, _f))), [d.flag(_j, _f)]))]


def _inner(sc):
    d = Decl(sc, sc.param(0).addr)
    m, n, v = _state(sc)
    m0 = Ids(var0(sc, 'id_maker', 'InternalIdMaker', 0).f['explicit_ids'], m.T)
    o = var(sc, 'o', 'OptionData*', 0)
    o = o.addr if isinstance(o, Ent) else o
    fl = SEL(sc.OH('OptionData', 'flags'), o)
    return _ids(sc, d.na, None, d) + [
        ('names keep sharing ids', forall([_x, _y], Im(same(m0, _x, _y), same(m, _x, _y)), [(SEL(m.v, _x), SEL(m.v, _y))])),
        ('the flags so far share an id', forall([_f], Im(A(0 <= _f, _f < sc.i), same(m, RS.at(fl, 0), RS.at(fl, _f))), [RS.at(fl, _f)]))]


def others(sc, d):
    """definitions of other commands keep their ids"""
    y = z3.Const('y!o', Addr)
    return [(f'other {t} keep their {f}', forall([y], Im(N(PD.INLIST(l, y)), SEL(sc.H(e, f), y) == SEL(getattr(sc, "fsc", sc).OH(e, f), y)), [SEL(sc.H(e, f), y)]))
            for t, e, l in (('arguments', 'ArgumentData', d.A), ('options', 'OptionData', d.O)) for f in ('value_id', 'argument_id')]


def _numbered(sc, na, no):
    d = Decl(sc, sc.param(0).addr)
    m, n, _ = _state(sc)
    h = lambda e, f: sc.H(e, f)
    off = sc.fsc.old(2)
    out = _ids(sc, d.na, d.no, d) + [
        ('the next argument id', var(sc, 'argument_id', 'int', 0) == off + na + (0 if no is None else no)),
        ('ids of the arguments', forall([_j], Im(d.isarg(_j, na), A(m.has(d.name(_j)), SEL(h('ArgumentData', 'value_id'), d.arg(_j)) == m.id(d.name(_j)),
                                                                    SEL(h('ArgumentData', 'argument_id'), d.arg(_j)) == off + 1 + _j)), [d.arg(_j)]))]
    out += others(sc, d)
    if no is not None:
        out += [('ids of the options', forall([_j], Im(d.isopt(_j, no), A(SEL(h('OptionData', 'argument_id'), d.opt(_j)) == off + d.na + 1 + _j,
                                                                          Im(d.valued(_j), A(m.has(d.flag(_j, 0)), SEL(h('OptionData', 'value_id'), d.opt(_j)) == m.id(d.flag(_j, 0)))))), [d.opt(_j)])),
                ('options without a value keep their id', forall([_j], Im(A(d.isopt(_j), N(d.valued(_j))), SEL(h('OptionData', 'value_id'), d.opt(_j)) == SEL(sc.fsc.OH('OptionData', 'value_id'), d.opt(_j))), [d.opt(_j)]))]
    return out


@contract('argos::set_internal_ids', 'C09')
class _:
    counts_fit = FIT
    loops = (Loop(lambda sc: _ids(sc, sc.i, None)),
             Loop(lambda sc: _ids(sc, Decl(sc, sc.param(0).addr).na, sc.i)),
             Loop(_inner),
             Loop(lambda sc: _numbered(sc, sc.i, None)),
             Loop(lambda sc: _numbered(sc, Decl(sc, sc.param(0).addr).na, sc.i)))

    def requires(self, sc):
        return Decl(sc, sc.arg(0).addr).proper()

    def axioms_at_entry(self, sc):
        # the ensures about `linked` are stated for every relation with these properties (one exists: all names)
        return [('linked', Decl(sc, sc.arg(0).addr).linked())]

    def modifies(self, sc):
        return [('heapfield', e, f) for e in ('ArgumentData', 'OptionData') for f in ('value_id', 'argument_id')]

    def ensures(self, sc):
        d = Decl(sc, sc.old(0).addr)
        av, ov = (lambda j: SEL(sc.H('ArgumentData', 'value_id'), d.arg(j))), (lambda j: SEL(sc.H('OptionData', 'value_id'), d.opt(j)))
        aa, oa = (lambda j: SEL(sc.H('ArgumentData', 'argument_id'), d.arg(j))), (lambda j: SEL(sc.H('OptionData', 'argument_id'), d.opt(j)))
        off, start = sc.old(2), sc.old(1)
        linked = d.linked()
        isv = lambda j: A(d.isopt(j), d.valued(j))
        alias = lambda j: L(d.alias(j)) > 0
        oalias = lambda j: L(d.oalias(j)) > 0
        aj, al = [d.arg(_j), d.arg(_l)], [d.opt(_j), d.opt(_l)]
        r = sc.result
        return [
            ('arguments with one name share a value', forall([_j, _l], Im(A(d.isarg(_j), d.isarg(_l), d.name(_j) == d.name(_l)), av(_j) == av(_l)), [(d.arg(_j), d.arg(_l))])),
            ('an argument shares the value of the argument it is an alias of',
             forall([_j, _l], Im(A(d.isarg(_j), d.isarg(_l), alias(_j), d.alias(_j) == d.name(_l)), av(_j) == av(_l)), [(d.arg(_j), d.arg(_l))])),
            ('arguments with one alias share a value',
             forall([_j, _l], Im(A(d.isarg(_j), d.isarg(_l), alias(_j), alias(_l), d.alias(_j) == d.alias(_l)), av(_j) == av(_l)), [(d.arg(_j), d.arg(_l))])),
            ('an argument shares the value of the option it is an alias of',
             forall([_j, _l, _f], Im(A(d.isarg(_j), isv(_l), d.isflag(_l, _f), O(d.name(_j) == d.flag(_l, _f), A(alias(_j), d.alias(_j) == d.flag(_l, _f)))), av(_j) == ov(_l)),
                    [(d.arg(_j), d.flag(_l, _f))])),
            ('an option shares the value of the argument it is an alias of',
             forall([_j, _l], Im(A(d.isarg(_j), isv(_l), oalias(_l), O(d.oalias(_l) == d.name(_j), A(alias(_j), d.oalias(_l) == d.alias(_j)))), av(_j) == ov(_l)), [(d.arg(_j), d.opt(_l))])),
            ('options with a flag in common share a value',
             forall([_j, _l, _f, _g], Im(A(isv(_j), isv(_l), d.isflag(_j, _f), d.isflag(_l, _g), d.flag(_j, _f) == d.flag(_l, _g)), ov(_j) == ov(_l)), [(d.flag(_j, _f), d.flag(_l, _g))])),
            ('an option shares the value of the option it is an alias of',
             forall([_j, _l, _g], Im(A(isv(_j), isv(_l), oalias(_j), d.isflag(_l, _g), d.oalias(_j) == d.flag(_l, _g)), ov(_j) == ov(_l)), [(d.opt(_j), d.flag(_l, _g))])),
            ('options with one alias share a value',
             forall([_j, _l], Im(A(isv(_j), isv(_l), oalias(_j), oalias(_l), d.oalias(_j) == d.oalias(_l)), ov(_j) == ov(_l)), [(d.opt(_j), d.opt(_l))])),
            ('arguments share a value only if their names are linked', Im(linked, forall([_j, _l], Im(A(d.isarg(_j), d.isarg(_l), av(_j) == av(_l)), LINKED(d.name(_j), d.name(_l))), [(d.arg(_j), d.arg(_l))]))),
            ('options share a value only if their flags are linked', Im(linked, forall([_j, _l], Im(A(isv(_j), isv(_l), ov(_j) == ov(_l)), LINKED(d.flag(_j, 0), d.flag(_l, 0))), [(d.opt(_j), d.opt(_l))]))),
            ('an argument and an option share a value only if they are linked', Im(linked, forall([_j, _l], Im(A(d.isarg(_j), isv(_l), av(_j) == ov(_l)), LINKED(d.name(_j), d.flag(_l, 0))), [(d.arg(_j), d.opt(_l))]))),
            ('value ids are new', A(forall([_j], Im(d.isarg(_j), A(start < av(_j), av(_j) <= r.f['first'])), [d.arg(_j)]), forall([_j], Im(isv(_j), A(start < ov(_j), ov(_j) <= r.f['first'])), [d.opt(_j)]))),
            ('arguments and options are numbered', A(forall([_j], Im(d.isarg(_j), aa(_j) == off + 1 + _j), [d.arg(_j)]), forall([_j], Im(d.isopt(_j), oa(_j) == off + d.na + 1 + _j), [d.opt(_j)]),
                                                     r.f['second'] == off + d.na + d.no)),
            ('options without a value get no id', forall([_j], Im(A(d.isopt(_j), N(d.valued(_j))), ov(_j) == SEL(sc.OH('OptionData', 'value_id'), d.opt(_j))), [d.opt(_j)]))] + others(sc, d)
