"""C03, C04, C05, C06, C09, C13: CommandData.cpp, ParserData.cpp, OptionData.cpp"""
from .core import *
from .strings import A, O, N, Im, Str, L, at, FSAME, FLESS, FPRE, FDEFS, ORDER, PREFIX
import lib

SEL = z3.Select
RA = seq_of(Addr)
RS = seq_of(Str.sort)
CD = 'argos::CommandData::'


class Index:
    """the sorted list of (flag, option) of a command"""

    def __init__(self, v, T_):
        self.v, self.T, self.th = v, T_, T_.th
        self.n = self.th.len(v)

    def e(self, k):
        return self.th.at(self.v, k)

    def flag(self, k):
        return self.T.elem.unpack(self.e(k)).first

    def opt(self, k):
        return self.T.elem.unpack(self.e(k)).second

    def sorted(self, ci):
        i, j = z3.Ints('i! j!')
        return forall([i, j], Im(A(0 <= i, i < j, j < self.n), FLESS(self.flag(i), self.flag(j), ci)), [(self.e(i), self.e(j))])

    def real(self):
        i = z3.Int('i!')
        return forall([i], Im(A(0 <= i, i < self.n), self.opt(i) != null), [self.e(i)])


def index_of_cmd(sc, addr=None, old=True):
    addr = sc.this.addr if addr is None else addr
    return Index((sc.OH if old else sc.H)('CommandData', 'option_index')[addr], sc.T('CommandData', 'option_index'))


def found(x, flag, abbr, ci, res):
    """res is what looking up flag gives"""
    k, j = z3.Ints('k! j!')
    R = lambda k: A(0 <= k, k < x.n)
    m = lambda k: FSAME(x.flag(k), flag, ci)
    p = lambda k: FPRE(x.flag(k), flag, ci)
    none = forall([k], Im(R(k), N(m(k))), [x.e(k)])
    return [('an equal flag is found', forall([k], Im(A(R(k), m(k)), res == x.opt(k)), [x.e(k)])),
            ('without abbreviations only an equal flag is found', Im(A(none, N(abbr)), res == null)),
            ('the only flag that starts with the text is found',
             forall([k], Im(A(none, abbr, R(k), p(k), forall([j], Im(A(R(j), j != k), N(p(j))), [x.e(j)])), res == x.opt(k)), [x.e(k)])),
            ('an ambiguous text is not found',
             forall([k, j], Im(A(none, R(k), R(j), k < j, p(k), p(j)), res == null), [(x.e(k), x.e(j))])),
            ('a text no flag starts with is not found',
             Im(A(none, forall([k], Im(R(k), N(p(k))), [x.e(k)])), res == null))]


# what a lookup gives, as a value: defined by `found` for every sorted index (the lemma shows that it gives one value only)
def FIND(x, flag, abbr, ci):
    f = z3.Function('found_option', x.v.sort(), Str.sort, BoolS, BoolS, Addr)
    return f(x.v, flag, abbr, ci)


class IndexTh:
    """the index type without an interpreter, for lemmas"""
    _t = None

    @classmethod
    def of(cls, sc):
        cls._t = sc.T('CommandData', 'option_index')
        return cls._t


class Lookup:
    def requires(self, sc):
        x = index_of_cmd(sc)
        return [('the flags are sorted and different', x.sorted(sc.arg(2))), ('options exist', x.real())]


@contract(CD + 'find_option_impl', 'C03 C04 C05')
class _(Lookup):
    def axioms_at_entry(self, sc):
        x = index_of_cmd(sc)
        return ORDER + PREFIX + [('result of a lookup.', f) for _, f in found(x, sc.arg(0), sc.arg(1), sc.arg(2), FIND(x, sc.arg(0), sc.arg(1), sc.arg(2)))]

    def ensures(self, sc):
        x = index_of_cmd(sc)
        return found(x, sc.arg(0), sc.arg(1), sc.arg(2), sc.result) + \
            [('the result of the lookup', sc.result == FIND(x, sc.arg(0), sc.arg(1), sc.arg(2)))]


def lookup(sc, x, HA, flag, abbr, ci):
    """the option that a given flag stands for: the flag itself, or without a final = if its option takes an argument"""
    pre = Str.slice(flag, 0, L(flag) - 1)
    r1, r2 = FIND(x, flag, abbr, ci), FIND(x, pre, abbr, ci)
    return z3.If(r1 != null, r1, z3.If(A(L(flag) > 2, at(flag, L(flag) - 1) == 61, r2 != null, L(SEL(HA, r2)) > 0), r2, null))


@contract(CD + 'find_option', 'C03 C04 C05')
class _(Lookup):
    def ensures(self, sc):
        x = index_of_cmd(sc)
        return [('the option of the flag', sc.result == lookup(sc, x, sc.OH('OptionData', 'argument'), sc.old(0), sc.arg(1), sc.arg(2)))]


# ------------------------------------------------------------------ the flags of a command, one after another
HS = z3.ArraySort(Addr, RS.sort)
PAIR = datatype('tup_%s_%s' % (Str.sort, Addr), [('mk', [('0', Str.sort), ('1', Addr)])])
CNT = z3.Function('flag_count', RA.sort, HS, IntS, IntS)
FLAT = z3.Function('flag_entry', RA.sort, HS, IntS, PAIR.sort)
_a, _H, _i, _j, _p = z3.Const('a!ra', RA.sort), z3.Const('H!hs', HS), z3.Int('i!'), z3.Int('j!'), z3.Int('p!')
_fl = SEL(_H, RA.at(_a, _i))
add_group(['flag_count'], [
    forall([_a, _H], CNT(_a, _H, 0) == 0, [CNT(_a, _H, 0)]),
    forall([_a, _H, _i], Im(_i >= 0, CNT(_a, _H, _i) >= 0), [CNT(_a, _H, _i)]),
    forall([_a, _H, _i], Im(_i >= 0, A(CNT(_a, _H, _i + 1) == CNT(_a, _H, _i) + RS.len(_fl), CNT(_a, _H, _i) >= 0)), [(CNT(_a, _H, _i), RA.at(_a, _i))])])
add_group(['flag_entry'], [
    forall([_a, _H, _i, _p], Im(A(_i >= 0, CNT(_a, _H, _i) <= _p, _p < CNT(_a, _H, _i) + RS.len(_fl)),
                                FLAT(_a, _H, _p) == PAIR.mk(0, RS.at(_fl, _p - CNT(_a, _H, _i)), RA.at(_a, _i))),
           [(FLAT(_a, _H, _p), CNT(_a, _H, _i), RA.at(_a, _i))]),
    forall([_a, _H, _i, _j], Im(A(_i >= 0, 0 <= _j, _j < RS.len(_fl)), FLAT(_a, _H, CNT(_a, _H, _i) + _j) == PAIR.mk(0, RS.at(_fl, _j), RA.at(_a, _i))),
           [(CNT(_a, _H, _i), RS.at(_fl, _j))])])


FLAGS_MONO = ('later options have later flags', forall([_a, _H, _i, _j], Im(A(0 <= _i, _i <= _j), CNT(_a, _H, _i) <= CNT(_a, _H, _j)), [(CNT(_a, _H, _i), CNT(_a, _H, _j))]))


@lemma('later options have later flags (induction step)', 'C03 C04 C13')
def _():
    return [0 <= _i, _i <= _j, CNT(_a, _H, _i) <= CNT(_a, _H, _j), touch(RA.at(_a, _j)), RS.len(SEL(_H, RA.at(_a, _j))) >= 0], CNT(_a, _H, _i) <= CNT(_a, _H, _j + 1)


INLIST = z3.Function('is_in_list', RA.sort, Addr, BoolS)
_y = z3.Const('y!a', Addr)
add_group(['is_in_list'], [forall([_a, _y], INLIST(_a, _y) == N(forall([_i], Im(A(0 <= _i, _i < RA.len(_a)), RA.at(_a, _i) != _y), [RA.at(_a, _i)])), [INLIST(_a, _y)])])

# which flags there are, and whether two are the same, said without positions
HASFLAG = z3.Function('an_option_has_flag', RA.sort, HS, Str.sort, BoolS, BoolS)
CLASHES = z3.Function('two_flags_are_equal', RA.sort, HS, BoolS, BoolS)
OPOS = z3.Function('option_of_flag', RA.sort, HS, IntS, IntS)
_k, _l, _ci, _t = z3.Int('k!'), z3.Int('l!'), z3.Bool('ci!'), z3.Const('t!', Str.sort)
_q = z3.Int('q!')


def _flag(i, j, a=_a, H=_H):
    return RS.at(SEL(H, RA.at(a, i)), j)


def _flags_at(i, a=_a, H=_H):
    return RS.len(SEL(H, RA.at(a, i)))


add_group(['an_option_has_flag'], [forall([_a, _H, _t, _ci], HASFLAG(_a, _H, _t, _ci) == N(forall([_i, _j], Im(A(0 <= _i, _i < RA.len(_a), 0 <= _j, _j < _flags_at(_i)), N(FSAME(_flag(_i, _j), _t, _ci))),
                                                                                                   [_flag(_i, _j)])), [HASFLAG(_a, _H, _t, _ci)])])
add_group(['two_flags_are_equal'], [forall([_a, _H, _ci], CLASHES(_a, _H, _ci) == N(forall(
    [_i, _j, _k, _l], Im(A(0 <= _i, _i <= _k, _k < RA.len(_a), 0 <= _j, _j < _flags_at(_i), 0 <= _l, _l < _flags_at(_k), O(_i < _k, _j < _l)), N(FSAME(_flag(_i, _j), _flag(_k, _l), _ci))),
    [(_flag(_i, _j), _flag(_k, _l))])), [CLASHES(_a, _H, _ci)])])
add_group(['option_of_flag'], [forall([_a, _H, _p], Im(A(0 <= _p, _p < CNT(_a, _H, RA.len(_a))), (lambda o: A(0 <= o, o < RA.len(_a), CNT(_a, _H, o) <= _p, _p < CNT(_a, _H, o) + _flags_at(o)))(OPOS(_a, _H, _p))),
                                      [OPOS(_a, _H, _p)])])
_flagp = lambda p: PAIR.acc(0, 0, FLAT(_a, _H, p))
_tot = CNT(_a, _H, RA.len(_a))
_noclash = forall([_p, _q], Im(A(0 <= _p, _p < _q, _q < _tot), N(FSAME(_flagp(_p), _flagp(_q), _ci))), [(FLAT(_a, _H, _p), FLAT(_a, _H, _q))])
_hasnt = forall([_p], Im(A(0 <= _p, _p < _tot), N(FSAME(_flagp(_p), _t, _ci))), [FLAT(_a, _H, _p)])
SAME_CLASH = ('clashes', forall([_a, _H, _ci], CLASHES(_a, _H, _ci) == N(_noclash), [CLASHES(_a, _H, _ci)]))
SAME_HAS = ('flags', forall([_a, _H, _t, _ci], HASFLAG(_a, _H, _t, _ci) == N(_hasnt), [HASFLAG(_a, _H, _t, _ci)]))


@lemma('every position is in the flags of an option (induction step)', 'C03 C04 C06')
def _():
    n = z3.Int('n')
    has = lambda n: N(forall([_i], N(A(0 <= _i, _i < n, CNT(_a, _H, _i) <= _p, _p < CNT(_a, _H, _i) + _flags_at(_i))), [CNT(_a, _H, _i)]))
    return [0 <= n, Im(_p < CNT(_a, _H, n), has(n)), 0 <= _p, _p < CNT(_a, _H, n + 1), touch(RA.at(_a, n))], has(n + 1)


def _at_flags(*ps):
    out = [FLAGS_MONO[1]]
    for p in ps:
        o = OPOS(_a, _H, p)
        out += [touch(RA.at(_a, o)), touch(FLAT(_a, _H, p))]
    return out


@lemma('different positions: different flags', 'C03 C04 C06')
def _():
    return [FLAGS_MONO[1], _noclash, 0 <= _i, _i <= _k, _k < RA.len(_a), 0 <= _j, _j < _flags_at(_i), 0 <= _l, _l < _flags_at(_k), O(_i < _k, _j < _l),
            mark(CNT(_a, _H, _i)), mark(CNT(_a, _H, _k)), touch(_flag(_i, _j)), touch(_flag(_k, _l)), mark(CNT(_a, _H, _i + 1)), mark(_tot), touch(RA.at(_a, _i)), touch(RA.at(_a, _k)), mark(CNT(_a, _H, _k + 1))], \
        N(FSAME(_flag(_i, _j), _flag(_k, _l), _ci))


@lemma('different flags: at different positions', 'C03 C04 C06')
def _():
    o, u = OPOS(_a, _H, _p), OPOS(_a, _H, _q)
    return _at_flags(_p, _q) + [N(CLASHES(_a, _H, _ci)), 0 <= _p, _p < _q, _q < _tot, mark(CNT(_a, _H, o + 1)), mark(CNT(_a, _H, u + 1))], N(FSAME(_flagp(_p), _flagp(_q), _ci))


@lemma('a flag has a position', 'C04 C13')
def _():
    return [FLAGS_MONO[1], _hasnt, 0 <= _i, _i < RA.len(_a), 0 <= _j, _j < _flags_at(_i), mark(CNT(_a, _H, _i)), touch(_flag(_i, _j)), mark(CNT(_a, _H, _i + 1)), mark(_tot), touch(RA.at(_a, _i))], N(FSAME(_flag(_i, _j), _t, _ci))


@lemma('a position has a flag', 'C04 C13')
def _():
    return _at_flags(_p) + [N(HASFLAG(_a, _H, _t, _ci)), 0 <= _p, _p < _tot], N(FSAME(_flagp(_p), _t, _ci))


def AGREE(a, H, G):
    """the options have the same flags in both"""
    return forall([_k], Im(A(0 <= _k, _k < RA.len(a)), SEL(H, RA.at(a, _k)) == SEL(G, RA.at(a, _k))), [RA.at(a, _k)])


_G, _o = z3.Const('G!hs', HS), z3.Const('o!', Addr)


class Complete:
    """the index has all flags, and nothing else"""
    memo = {}

    @classmethod
    def fns(cls, T_):
        if T_.name not in cls.memo:
            cls.memo[T_.name] = cls(T_)
        return cls.memo[T_.name]

    def __init__(self, T_):
        self.x = x = z3.Const('x!ix', T_.sort)
        self.T = T_
        self.has, self.only = [z3.Function(n, T_.sort, RA.sort, HS, BoolS) for n in ('index_has_all_flags', 'index_has_only_flags')]
        e, n = (lambda k: T_.th.at(x, k)), T_.th.len(x)
        entry = lambda i, j: PAIR.mk(0, _flag(i, j), RA.at(_a, i))
        isf = lambda i, j: A(0 <= i, i < RA.len(_a), 0 <= j, j < _flags_at(i))
        self.entry = z3.Function('is_entry', T_.sort, PAIR.sort, BoolS)
        self.flag = z3.Function('is_flag_of', RA.sort, HS, PAIR.sort, BoolS)
        y = z3.Const('y!', PAIR.sort)
        add_group(['is_entry'], [forall([x, y], self.entry(x, y) == N(forall([_k], Im(A(0 <= _k, _k < n), e(_k) != y), [e(_k)])), [self.entry(x, y)])])
        add_group(['is_flag_of'], [forall([_a, _H, y], self.flag(_a, _H, y) == N(forall([_i, _j], Im(isf(_i, _j), y != entry(_i, _j)), [_flag(_i, _j)])), [self.flag(_a, _H, y)])])
        self.has_e = forall([_i, _j], Im(isf(_i, _j), self.entry(x, entry(_i, _j))), [_flag(_i, _j)])
        self.only_e = forall([_k], Im(A(0 <= _k, _k < n), self.flag(_a, _H, e(_k))), [e(_k)])
        f = lambda p: FLAT(_a, _H, p)
        self.has_p = forall([_p], Im(A(0 <= _p, _p < _tot), N(forall([_k], Im(A(0 <= _k, _k < n), e(_k) != f(_p)), [e(_k)]))), [f(_p)])
        self.only_p = forall([_k], Im(A(0 <= _k, _k < n), N(forall([_p], Im(A(0 <= _p, _p < _tot), e(_k) != f(_p)), [f(_p)]))), [e(_k)])
        for g, d in ((self.has, self.has_e), (self.only, self.only_e)):
            add_group([g.name()], [forall([x, _a, _H], g(x, _a, _H) == d, [g(x, _a, _H)])])

    def by_position(self):
        """these are the same (lemmas below)"""
        return [('all flags', forall([self.x, _a, _H], Im(self.has_p, self.has(self.x, _a, _H)), [self.has(self.x, _a, _H)])),
                ('only flags', forall([self.x, _a, _H], Im(self.only_p, self.only(self.x, _a, _H)), [self.only(self.x, _a, _H)]))]

    def kept(self):
        """they depend on the flags of the options only (lemmas below)"""
        return [(n, forall([self.x, _a, _H, _G], Im(AGREE(_a, _H, _G), g(self.x, _a, _H) == g(self.x, _a, _G)), [(g(self.x, _a, _H), g(self.x, _a, _G))])) for n, g in (('all flags stay', self.has), ('only flags stay', self.only))]


def _ixt():
    return Complete.fns(_index_type())


def _index_type():
    return TSeq(TTuple([TSeq(TInt(8, True), 'string'), TAddr('OptionData')], pair=True), 'vector')


def _clashes_kept():
    c = lambda H: CLASHES(_a, H, _ci)
    return ('clashes stay', forall([_a, _H, _G, _ci], Im(AGREE(_a, _H, _G), c(_H) == c(_G)), [(c(_H), c(_G))]))


def _more():
    """an option with new flags is added"""
    b = RA.push(_a, _o)
    fl = SEL(_G, _o)
    new = A(forall([_j], Im(A(0 <= _j, _j < RS.len(fl)), N(HASFLAG(_a, _H, RS.at(fl, _j), _ci))), [RS.at(fl, _j)]),
            forall([_j, _l], Im(A(0 <= _j, _j < _l, _l < RS.len(fl)), N(FSAME(RS.at(fl, _j), RS.at(fl, _l), _ci))), [(RS.at(fl, _j), RS.at(fl, _l))]))
    return ('new flags do not clash', forall([_a, _H, _G, _o, _ci], Im(A(AGREE(_a, _H, _G), new), CLASHES(b, _G, _ci) == CLASHES(_a, _H, _ci)), [(CLASHES(b, _G, _ci), CLASHES(_a, _H, _ci))]))


STAY = [_clashes_kept(), _more()]


def _lemma_of(name, f, swap=False):
    @lemma(name, 'C03 C04 C06 C13')
    def _():
        q = f()[1]
        vs = [z3.Const('c.%d' % i, q.var_sort(i)) for i in range(q.num_vars())]
        body = z3.substitute_vars(q.body(), *reversed(vs))
        h, g = body.children()
        return [h], g
for _nm, _fn in (('flags clash as before', _clashes_kept), ('an option with new flags does not clash', _more), ('an index stays complete', lambda: _ixt().kept()[0]), ('an index stays correct', lambda: _ixt().kept()[1])):
    _lemma_of(_nm, _fn)


@lemma('all positions: all flags', 'C03 C04 C06')
def _():
    c = _ixt()
    e, n = (lambda k: c.T.th.at(c.x, k)), c.T.th.len(c.x)
    return [FLAGS_MONO[1], c.has_p, 0 <= _i, _i < RA.len(_a), 0 <= _j, _j < _flags_at(_i), mark(CNT(_a, _H, _i)), mark(CNT(_a, _H, _i + 1)), mark(_tot), touch(RA.at(_a, _i)), touch(_flag(_i, _j)),
            touch(FLAT(_a, _H, CNT(_a, _H, _i) + _j))], c.entry(c.x, PAIR.mk(0, _flag(_i, _j), RA.at(_a, _i)))


@lemma('only positions: only flags', 'C03 C04 C06')
def _():
    c = _ixt()
    e, n = (lambda k: c.T.th.at(c.x, k)), c.T.th.len(c.x)
    o = OPOS(_a, _H, _p)
    return _at_flags(_p) + [0 <= _p, _p < _tot, e(_k) == FLAT(_a, _H, _p), touch(e(_k)), touch(_flag(o, _p - CNT(_a, _H, o)))], \
        c.flag(_a, _H, e(_k))


class Flags:
    def __init__(self, sc, addr):
        self.a, self.H = sc.oh('CommandData', 'options', addr), sc.OH('OptionData', 'flags')
        self.n = RA.len(self.a)

    def cnt(self, i):
        return CNT(self.a, self.H, i)

    def e(self, p):
        return FLAT(self.a, self.H, p)

    def flag(self, p):
        return PAIR.acc(0, 0, self.e(p))

    @property
    def total(self):
        return self.cnt(self.n)

    def real(self):
        k = z3.Int('k!')
        return ('options exist', forall([k], Im(A(0 <= k, k < self.n), RA.at(self.a, k) != null), [RA.at(self.a, k)]))

    def conflict(self, ci):
        return CLASHES(self.a, self.H, ci)

    def has(self, text, ci):
        return HASFLAG(self.a, self.H, text, ci)


def _ix(sc):
    x = var(sc, 'index', 'vector<pair<sv,OptionData*>>', 0)
    th = sc.I.loc_type(sc.I.env[sc.names['index']]).th if 'index' in sc.names else None
    return x, th


def _built(sc, outer):
    x, th = _ix(sc)
    g = Flags(sc, sc.this.addr)
    p = z3.Int('p!')
    if outer:
        return [('as many entries as flags', A(th.len(x) == g.cnt(sc.i), 0 <= sc.i)),
                ('an entry per flag', forall([p], Im(A(0 <= p, p < g.cnt(sc.i)), th.at(x, p) == g.e(p)), [th.at(x, p), g.e(p)]))]
    x0 = sc.var0('index')
    fl, o = sc.range, sc.var('option')
    n0 = th.len(x0)
    return [('an entry more per flag', A(th.len(x) == n0 + sc.i, 0 <= sc.i)),
            ('earlier entries stay', forall([p], Im(A(0 <= p, p < n0), th.at(x, p) == th.at(x0, p)), [th.at(x, p), th.at(x0, p)])),
            ('the new entries', forall([p], Im(A(n0 <= p, p < n0 + sc.i), th.at(x, p) == PAIR.mk(0, RS.at(fl, p - n0), o)), [th.at(x, p)]))]


@contract(CD + 'build_option_index', 'C03 C04 C05 C06')
class _:
    loops = (Loop(lambda sc: _built(sc, True)), Loop(lambda sc: _built(sc, False)))

    def requires(self, sc):
        return [Flags(sc, sc.this.addr).real()]

    def axioms_at_entry(self, sc):
        return ORDER + [SAME_CLASH] + Complete.fns(sc.T('CommandData', 'option_index')).by_position()

    def throws(self, sc):
        return Flags(sc, sc.this.addr).conflict(sc.arg(0))

    def modifies(self, sc):
        return [('loc', sc.mloc('option_index'))]

    def ensures(self, sc):
        g, x = Flags(sc, sc.this.addr), index_of_cmd(sc, old=False)
        k, p = z3.Ints('k! p!')
        return [('the index is sorted and has no equal flags', x.sorted(sc.arg(0))),
                ('every entry is a flag of an option of the command',
                 forall([k], Im(A(0 <= k, k < x.n), N(forall([p], Im(A(0 <= p, p < g.total), x.e(k) != g.e(p)), [g.e(p)]))), [x.e(k)])),
                ('every flag of every option has an entry',
                 forall([p], Im(A(0 <= p, p < g.total), N(forall([k], Im(A(0 <= k, k < x.n), x.e(k) != g.e(p)), [x.e(k)]))), [g.e(p)])),
                ('as many entries as flags', x.n == g.total),
                ('every flag can be looked up', Complete.fns(x.T).has(x.v, g.a, g.H)),
                ('nothing else can', Complete.fns(x.T).only(x.v, g.a, g.H))]


@contract('argos::has_flag', 'C04 C13', nparams=3)
class _:
    loops = (Loop(lambda sc: [('no such flag so far', _noflag(sc, True)), ('.', A(0 <= sc.i, Flags(sc, sc.param(0).addr).cnt(sc.i) >= 0, Flags(sc, sc.param(0).addr).cnt(sc.i + 1) >= 0))]),
             Loop(lambda sc: [('no such flag so far', _noflag(sc, False)), ('.', 0 <= sc.i)]))

    def requires(self, sc):
        return [Flags(sc, sc.arg(0).addr).real()]

    def axioms_at_entry(self, sc):
        return [FLAGS_MONO, SAME_HAS]

    def ensures(self, sc):
        g = Flags(sc, sc.arg(0).addr)
        return [('true iff an option has the flag', sc.result == g.has(sc.arg(1), sc.oh('ParserSettings', 'case_insensitive', sc.arg(2).addr)))]


def _noflag(sc, outer):
    p = z3.Int('p!')
    ci = sc.h('ParserSettings', 'case_insensitive', sc.param(2).addr)
    if outer:
        g = Flags(sc, sc.param(0).addr)
        return forall([p], Im(A(0 <= p, p < g.cnt(sc.i)), N(FSAME(g.flag(p), sc.param(1), ci))), [g.e(p)])
    fl = sc.range
    return forall([p], Im(A(0 <= p, p < sc.i), N(FSAME(RS.at(fl, p), sc.param(1), ci))), [RS.at(fl, p)])


@contract('argos::has_help_option', 'C13')
class _:
    loops = (Loop(lambda sc: [('none so far', _nohelp(sc, sc.param(0), sc.i)), ('.', 0 <= sc.i)]),)

    def requires(self, sc):
        return [Flags(sc, sc.arg(0).addr).real()]

    def ensures(self, sc):
        a = sc.oh('CommandData', 'options', sc.arg(0).addr)
        return [('true iff an option has type HELP', sc.result == N(_nohelp(sc, sc.arg(0), RA.len(a))))]


HELP = 1


def _nohelp(sc, c, n):
    a, H = sc.oh('CommandData', 'options', c.addr), sc.OH('OptionData', 'type')
    k = z3.Int('k!')
    return forall([k], Im(A(0 <= k, k < n), SEL(H, RA.at(a, k)) != HELP), [RA.at(a, k)])


FINDC = z3.Function('find_command', RA.sort, z3.ArraySort(Addr, Str.sort), Str.sort, BoolS, Addr)


class Cmds:
    def __init__(self, sc, addr):
        self.a, self.H = sc.oh('CommandData', 'commands', addr), sc.OH('CommandData', 'name')
        self.n = RA.len(self.a)

    def c(self, k):
        return RA.at(self.a, k)

    def name(self, k):
        return SEL(self.H, self.c(k))

    def real(self):
        k = z3.Int('k!')
        return ('commands exist', forall([k], Im(A(0 <= k, k < self.n), self.c(k) != null), [self.c(k)]))

    def differ(self, n, name, ci):
        q = z3.Int('q!')
        return forall([q], Im(A(0 <= q, q < n), N(FSAME(self.name(q), name, ci))), [self.c(q)])

    def found(self, name, ci, r):
        """r is the command that the name stands for"""
        k = z3.Int('k!')
        return [('the first command of that name', forall([k], Im(A(0 <= k, k < self.n, FSAME(self.name(k), name, ci), self.differ(k, name, ci)), r == self.c(k)), [self.c(k)])),
                ('no command when none has the name', Im(self.differ(self.n, name, ci), r == null))]

    def find(self, name, ci):
        """as a value: defined by `found`"""
        return FINDC(self.a, self.H, name, ci)


@contract(CD + 'find_command', 'C03 C05')
class _:
    loops = (Loop(lambda sc: [('none so far', Cmds(sc, sc.this.addr).differ(sc.i, sc.param(0), sc.param(1))), ('.', 0 <= sc.i)]),)

    def requires(self, sc):
        return [Cmds(sc, sc.this.addr).real()]

    def axioms_at_entry(self, sc):
        g = Cmds(sc, sc.this.addr)
        return [('the command a name stands for', f) for _, f in g.found(sc.arg(0), sc.arg(1), g.find(sc.arg(0), sc.arg(1)))]

    def ensures(self, sc):
        g, k = Cmds(sc, sc.this.addr), z3.Int('k!')
        return g.found(sc.arg(0), sc.arg(1), sc.result) + \
            [('the command found is one of the commands', Im(sc.result != null, N(forall([k], Im(A(0 <= k, k < g.n), N(A(g.c(k) == sc.result, FSAME(g.name(k), sc.arg(0), sc.arg(1))))), [g.c(k)])))),
             ('the command of the name', sc.result == g.find(sc.arg(0), sc.arg(1)))]


# ------------------------------------------------------------------ C06: definitions
@contract('argos::update_require_command', 'C06')
class _:
    def throws(self, sc):
        r = sc.oh('CommandData', 'require_subcommand', sc.arg(0).addr)
        return A(r.has, r.val, Cmds(sc, sc.arg(0).addr).n == 0)

    def modifies(self, sc):
        return [obj_field('CommandData', 'require_subcommand', sc.arg(0).addr)]

    def ensures(self, sc):
        a = sc.arg(0).addr
        r, q = sc.oh('CommandData', 'require_subcommand', a), sc.h('CommandData', 'require_subcommand', a)
        return [('a command with subcommands requires one unless told otherwise', A(q.has, q.val == z3.If(r.has, r.val, Cmds(sc, a).n > 0)))]


class Add:
    """CommandData::add"""
    ent = list_ = None
    clash = None
    key = None

    def match(self, n, pts):
        return len(pts) == 1 and pts[0]['a'][0]['n'].split('::')[-1] == self.ent

    def modifies(self, sc):
        return [('loc', sc.mloc(self.list_)), obj_field(self.ent, 'section', sc.old(0))]

    def throws(self, sc):
        x = sc.old(0)
        e = sc.T(self.ent, self.key)
        return O(x == null, L(sc.oh(self.ent, self.key, x)) == 0 if self.key == 'name' else RS.len(sc.oh(self.ent, self.key, x)) == 0,
                 RA.len(sc.om(self.clash)) > 0 if self.clash else z3.BoolVal(False))

    def on_throw(self, sc):
        return [('nothing is added', sc.m(self.list_) == sc.om(self.list_))]

    def ensures(self, sc):
        x, s = sc.old(0), sc.oh(self.ent, 'section', sc.old(0))
        return [('the definition is added last', sc.m(self.list_) == RA.push(sc.om(self.list_), x)),
                ('its section is the current one unless it has one', sc.h(self.ent, 'section', x) == z3.If(L(s) == 0, sc.om('current_section'), s))]


for _ent, _lst, _cls, _key in (('ArgumentData', 'arguments', 'commands', 'name'), ('OptionData', 'options', None, 'flags'), ('CommandData', 'commands', 'arguments', 'name')):
    contract(CD + 'add', 'C06 C20')(type('Add_' + _ent, (Add,), dict(ent=_ent, list_=_lst, clash=_cls, key=_key)))


# which flags are valid
WS = z3.Function('has_whitespace', Str.sort, BoolS)
FLAGOK = z3.Function('valid_flag', Str.sort, IntS, BoolS, BoolS)
_s, _st, _b = z3.Const('s!', Str.sort), z3.Int('st!'), z3.Bool('b!')
_sp = lambda c: O(c == 32, c == 9, c == 10, c == 13)
add_group(['has_whitespace'], [forall([_s], WS(_s) == N(forall([_j], Im(A(0 <= _j, _j < L(_s)), N(_sp(at(_s, _j)))), [at(_s, _j)])), [WS(_s)])])
STANDARD, SLASH, DASH = range(3)
NONE, ASSIGN, APPEND, CLEAR = range(4)


def eq_pos(s):
    return lib.index_of(s, 61, 0)


def eq_ok(s, arg):
    """= only at the end, and only for an option with an argument"""
    return O(eq_pos(s) == L(s), A(eq_pos(s) == L(s) - 1, arg))


def shape_ok(s, style):
    return A(L(s) >= 2, N(WS(s)), at(s, 0) == z3.If(style == SLASH, 47, 45),
             Im(style == STANDARD, O(L(s) == 2, at(s, 1) == 45)))


VALID_FLAG = [('valid flags', forall([_s, _st, _b], FLAGOK(_s, _st, _b) == A(_st >= 0, _st <= 2, shape_ok(_s, _st), O(L(_s) == 2, eq_ok(_s, _b))),
                                     [FLAGOK(_s, _st, _b)]))]


def has_arg(sc, o):
    return L(sc.oh('OptionData', 'argument', o.addr)) > 0


@contract('argos::check_flag_with_equal', 'C06')
class _:
    def throws(self, sc):
        return N(eq_ok(sc.arg(0), has_arg(sc, sc.arg(1))))

    def ensures(self, sc):
        return [('accepted', sc.result)]


@contract('argos::check_standard_flag', 'C06')
class _:
    def throws(self, sc):
        s = sc.arg(0)
        return A(shape_ok(s, STANDARD), L(s) > 2, N(eq_ok(s, has_arg(sc, sc.arg(1)))))

    def ensures(self, sc):
        return [('accepts valid flags', sc.result == shape_ok(sc.arg(0), STANDARD))]


@contract('argos::check_flag', 'C06')
class _:
    def requires(self, sc):
        return [('a slash or a dash', O(sc.arg(1) == 47, sc.arg(1) == 45))]

    def throws(self, sc):
        s = sc.arg(0)
        return A(shape_ok(s, z3.If(sc.arg(1) == 47, SLASH, DASH)), L(s) > 2, N(eq_ok(s, has_arg(sc, sc.arg(2)))))

    def ensures(self, sc):
        return [('accepts valid flags', sc.result == shape_ok(sc.arg(0), z3.If(sc.arg(1) == 47, SLASH, DASH)))]


class Opt:
    def __init__(self, sc, o, h):
        self.flags, self.argument, self.constant, self.alias, self.operation, self.optional = \
            [h('OptionData', f, o.addr) for f in ('flags', 'argument', 'constant', 'alias', 'operation', 'optional')]
        self.arg, self.con, self.ali = L(self.argument) > 0, L(self.constant) > 0, L(self.alias) > 0


def flags_ok(fl, n, style, arg):
    k = z3.Int('k!')
    return forall([k], Im(A(0 <= k, k < n), FLAGOK(RS.at(fl, k), style, arg)), [RS.at(fl, k)])


@contract('argos::validate_and_update', 'C06')
class _:
    loops = (Loop(lambda sc: [('flags are valid so far', flags_ok(sc.range, sc.i, sc.param(1), has_arg(sc, sc.param(0)))), ('.', 0 <= sc.i)]),)

    def requires(self, sc):
        return [('a defined style', A(sc.arg(1) >= 0, sc.arg(1) <= 2)), ('a defined operation', A(Opt(sc, sc.arg(0), sc.oh).operation >= 0, Opt(sc, sc.arg(0), sc.oh).operation <= 3))]

    def axioms_at_entry(self, sc):
        return VALID_FLAG

    def throws(self, sc):
        o = Opt(sc, sc.arg(0), sc.oh)
        return O(RS.len(o.flags) == 0, N(flags_ok(o.flags, RS.len(o.flags), sc.arg(1), o.arg)), A(o.arg, o.con),
                 A(o.operation == NONE, O(o.con, o.ali)), A(o.operation == APPEND, N(o.arg), N(o.con)), A(o.operation == CLEAR, N(o.optional)))

    def modifies(self, sc):
        return [obj_field('OptionData', 'constant', sc.arg(0).addr)]

    def ensures(self, sc):
        o, p = Opt(sc, sc.arg(0), sc.oh), Opt(sc, sc.arg(0), sc.h)
        dflt = O(A(o.operation == ASSIGN, N(o.arg), N(o.con)), A(o.operation == CLEAR, O(o.arg, o.con)))
        return [('the default constant', p.constant == z3.If(dflt, strlit(b'1'), o.constant))]
