"""C01, C02: StandardOptionIterator.cpp, OptionIterator.cpp"""
from .core import *
from .strings import *
import lib
NPOS = lib.NPOS
RS = seq_of(Str.sort)
DASH, EQ = z3.IntVal(45), z3.IntVal(61)


# ------------------------------------------------------------------ the class invariants
def view(sc, old=False):
    g = sc.om if old else sc.m
    a = g('m_args')
    return g('m_all_args'), a.off, a.len, g('m_pos')


def tok(all_, off):
    return RS.at(all_, off)


def std_inv(all_, off, ln, pos):
    t = tok(all_, off)
    return [('the pending arguments are a suffix of all arguments', A(off >= 0, ln >= 0, off + ln == RS.len(all_))),
            ('the position is inside the current argument',
             O(pos == 0, A(ln > 0, O(pos == NPOS, A(L(t) > 2, at(t, 0) == DASH,
                                                   z3.If(at(t, 1) == DASH, A(pos <= L(t), pos == first_eq(t) + 1, pos > 2),
                                                         A(2 <= pos, pos < L(t))))))))]


def opt_inv(all_, off, ln, pos, prefix):
    t = tok(all_, off)
    return [('the pending arguments are a suffix of all arguments', A(off >= 0, ln >= 0, off + ln == RS.len(all_))),
            ('the position is inside the current argument',
             O(pos == 0, A(ln > 0, O(pos == NPOS, A(L(t) > 2, at(t, 0) == prefix, pos == first_eq(t) + 1, 0 < pos, pos <= L(t))))))]


def first_eq(t):
    return lib.index_of(t, EQ, z3.IntVal(0))


def shape(inv):
    def f(I, T_, name, loc):
        if loc is None:
            raise OutOfReach('iterator object without a place')
        fs = {}
        for n, ft in T_.fields:
            if n == 'm_args':
                fs[n] = SpanV(loc.ext('f', 'm_all_args'), z3.Const(I.fresh_name(name + '.off'), IntS),
                              z3.Const(I.fresh_name(name + '.len'), IntS))
            else:
                fs[n] = I.fresh(ft, f'{name}.{n}', loc.ext('f', n))
        v = [fs['m_all_args'], fs['m_args'].off, fs['m_args'].len, fs['m_pos']]
        if 'm_prefix' in fs:
            v.append(fs['m_prefix'])
        for _, g in inv(*v):
            I.assume(g)
        return RecV(T_, fs)
    return f


shapes['StandardOptionIterator'] = shape(std_inv)
shapes['OptionIterator'] = shape(opt_inv)


def inv_of(sc):
    v = list(view(sc))
    if 'OptionIterator' == sc.c.q.split('::')[1]:
        return opt_inv(*v, sc.m('m_prefix'))
    return std_inv(*v)


class Std:
    loops = ()
    fields = ()

    def modifies(self, sc):
        return [('loc', sc.mloc(f)) for f in self.fields]

    def post(self, sc):
        return []

    def ensures(self, sc):
        return self.post(sc) + inv_of(sc)


S, P = 'argos::StandardOptionIterator', 'argos::OptionIterator'


def eqs(a, b):
    return Str.eqS(a, b)


def delivered(r, text):
    """the function returns this text"""
    return A(r.has, eqs(r.val, text))


# what next() gives for the next argument t, and the position afterwards
def std_first(r, pos, t):
    e = first_eq(t)
    long_ = A(L(t) > 2, at(t, 0) == DASH)
    return [('an argument of at most two characters, or without a dash, is delivered whole', Im(N(long_), A(delivered(r, t), pos == NPOS))),
            ('the first flag of a cluster is the dash and the first letter',
             Im(A(long_, at(t, 1) != DASH), A(delivered(r, Str.slice(t, 0, 2)), pos == 2))),
            ('a long flag without equal sign is delivered whole', Im(A(long_, at(t, 1) == DASH, e == L(t)), A(delivered(r, t), pos == NPOS))),
            ('a long flag is cut right after its first equal sign',
             Im(A(long_, at(t, 1) == DASH, e < L(t)), A(delivered(r, Str.slice(t, 0, e + 1)), pos == e + 1)))]


def std_next_post(old, new, r):
    all_, off, ln, pos = old
    _, off1, ln1, pos1 = new
    t = tok(all_, off)
    inside = A(pos != 0, pos < L(t), at(t, 1) != DASH)
    o = off + z3.If(pos != 0, 1, 0)
    u = tok(all_, o)
    res = [('inside a cluster: the next letter as a flag',
            Im(inside, A(delivered(r, Str.push(Str.push(Str.emp, DASH), at(t, pos))), off1 == off, ln1 == ln))),
           ('inside a cluster: one letter is consumed', Im(inside, pos1 == z3.If(pos + 1 == L(t), NPOS, pos + 1))),
           ('otherwise: the next argument becomes current', Im(N(inside), A(off1 == o))),
           ('the end of the arguments', Im(A(N(inside), o == RS.len(all_)), A(N(r.has), pos1 == 0))),
           ('otherwise a text is delivered', Im(O(inside, o < RS.len(all_)), r.has))]
    res += [('a new argument: ' + n, Im(A(N(inside), o < RS.len(all_)), f)) for n, f in std_first(r, pos1, u)]
    return res


@contract(S + '::next', 'C01')
class _(Std):
    fields = ('m_args', 'm_pos')

    def post(self, sc):
        return std_next_post(view(sc, True), view(sc), sc.result)


def next_value_post(old, new, r):
    all_, off, ln, pos = old
    _, off1, ln1, pos1 = new
    t = tok(all_, off)
    return [('no arguments: no value', Im(ln == 0, A(N(r.has), off1 == off, pos1 == pos))),
            ('the rest of the current argument is the value',
             Im(A(ln > 0, pos != NPOS), A(delivered(r, Str.slice(t, pos, L(t))), pos1 == NPOS, off1 == off))),
            ('otherwise the whole next argument is the value',
             Im(A(ln > 1, pos == NPOS), A(delivered(r, tok(all_, off + 1)), pos1 == NPOS, off1 == off + 1))),
            ('no next argument: no value', Im(A(ln == 1, pos == NPOS), A(N(r.has), off1 == off + 1, pos1 == 0)))]


for q in (S, P):
    @contract(q + '::next_value', 'C01')
    class _(Std):
        fields = ('m_args', 'm_pos')

        def post(self, sc):
            return next_value_post(view(sc, True), view(sc), sc.result)

    @contract(q + '::current', 'C01 C21')
    class _(Std):
        def throws(self, sc):
            return view(sc, True)[1] == RS.len(view(sc, True)[0])

        def post(self, sc):
            all_, off, ln, pos = view(sc)
            return [('the current argument', sc.result == tok(all_, off))]


def opt_next_post(old, new, prefix, r):
    all_, off, ln, pos = old
    _, off1, ln1, pos1 = new
    o = off + z3.If(pos != 0, 1, 0)
    u = tok(all_, o)
    e = first_eq(u)
    cut = A(L(u) > 2, at(u, 0) == prefix, e < L(u))
    more = o < RS.len(all_)
    return [('the next argument becomes current', off1 == o),
            ('the end of the arguments', Im(N(more), A(N(r.has), pos1 == 0))),
            ('an option is cut right after its first equal sign', Im(A(more, cut), A(delivered(r, Str.slice(u, 0, e + 1)), pos1 == e + 1))),
            ('everything else is delivered whole', Im(A(more, N(cut)), A(delivered(r, u), pos1 == NPOS)))]


@contract(P + '::next', 'C01')
class _(Std):
    fields = ('m_args', 'm_pos')

    def post(self, sc):
        return opt_next_post(view(sc, True), view(sc), sc.om('m_prefix'), sc.result)


# ------------------------------------------------------------------ the pending arguments
def split_view(all_, off, ln, pos):
    """A partly consumed cluster is split into its consumed part and a new argument with the rest:
    returns (condition, consumed part, rest)"""
    t = tok(all_, off)
    c = A(pos != 0, pos < L(t), at(t, 1) != DASH)
    return c, Str.slice(t, 0, pos), Str.cat(Str.push(Str.emp, DASH), Str.slice(t, pos, L(t)))


def split_post_(sc):
    all_, off, ln, pos = view(sc, True)
    all1, off1, ln1, pos1 = view(sc)
    c, head, rest = split_view(all_, off, ln, pos)
    j = z3.Int('j!')
    return [('nothing changes unless a cluster is partly consumed', Im(N(c), A(RS.eqS(all1, all_), off1 == off, ln1 == ln, pos1 == pos))),
            ('a partly consumed cluster: its consumed letters stay current', Im(c, A(eqs(tok(all1, off), head), off1 == off, pos1 == NPOS))),
            ('a partly consumed cluster: the other letters become the next argument',
             Im(c, A(eqs(tok(all1, off + 1), rest), RS.len(all1) == RS.len(all_) + 1))),
            ('earlier arguments stay', Im(c, forall([j], Im(A(0 <= j, j < off), RS.at(all1, j) == RS.at(all_, j)), [RS.at(all1, j)]))),
            ('later arguments keep their order',
             Im(c, forall([j], Im(A(off + 1 < j, j < RS.len(all1)), RS.at(all1, j) == RS.at(all_, j - 1)), [RS.at(all1, j)])))]


@contract(S + '::split_concatenated_flags', 'C02')
class _(Std):
    fields = ('m_all_args', 'm_args', 'm_pos')

    def post(self, sc):
        return split_post_(sc)


def remaining_post(all1, off1, ln1, pos1, r):
    skip = z3.If(pos1 == 0, 0, 1)
    return [('the remaining arguments are those after the current one', A(r.off == off1 + skip, r.len == ln1 - skip, r.len >= 0))]


@contract(S + '::remaining_arguments', 'C02')
class _(Std):
    fields = ('m_all_args', 'm_args', 'm_pos')

    def result_of(self, sc):
        return SpanV(sc.mloc('m_all_args'), z3.Const(sc.I.fresh_name('rem.off'), IntS), z3.Const(sc.I.fresh_name('rem.len'), IntS))

    def post(self, sc):
        return split_post_(sc) + remaining_post(*view(sc), sc.result)


@contract(P + '::remaining_arguments', 'C02')
class _(Std):
    def result_of(self, sc):
        return SpanV(sc.mloc('m_all_args'), z3.Const(sc.I.fresh_name('rem.off'), IntS), z3.Const(sc.I.fresh_name('rem.len'), IntS))

    def post(self, sc):
        return remaining_post(*view(sc), sc.result)


def inserted(all1, off1, ln1, pos1, all0, off0, ln0, pos0, new):
    """new is spliced in right after the current argument (or first, when there is none)"""
    k = off0 + z3.If(pos0 != 0, 1, 0)
    n = RS.len(new)
    j = z3.Int('j!')
    return [('the current argument stays current', A(off1 == off0, pos1 == pos0, RS.len(all1) == RS.len(all0) + n)),
            ('everything up to the current argument stays', forall([j], Im(A(0 <= j, j < k), RS.at(all1, j) == RS.at(all0, j)), [RS.at(all1, j)])),
            ('the inserted texts come next, in order', forall([j], Im(A(k <= j, j < k + n), RS.at(all1, j) == RS.at(new, j - k)), [RS.at(all1, j)])),
            ('then the arguments that were pending', forall([j], Im(A(k + n <= j, j < RS.len(all1)), RS.at(all1, j) == RS.at(all0, j - n)), [RS.at(all1, j)]))]


@contract(P + '::insert', 'C02')
class _(Std):
    fields = ('m_all_args', 'm_args')

    def assumes(self, sc):
        return [('fewer than 2^62 arguments', RS.len(view(sc, True)[0]) + RS.len(sc.arg(0)) < (1 << 62))]

    def post(self, sc):
        return inserted(*view(sc), *view(sc, True), sc.arg(0))


@contract(S + '::insert', 'C02')
class _(Std):
    fields = ('m_all_args', 'm_args', 'm_pos')

    def assumes(self, sc):
        return [('fewer than 2^62 arguments', RS.len(view(sc, True)[0]) + RS.len(sc.arg(0)) < (1 << 62) - 1)]

    def post(self, sc):
        return spliced(*view(sc), *view(sc, True), sc.arg(0))


def spliced(all1, off1, ln1, pos1, all_, off, ln, pos, new):
    c, head, rest = split_view(all_, off, ln, pos)
    n = RS.len(new)
    j = z3.Int('j!')
    res = [('no cluster is cut: ' + k, Im(N(c), f)) for k, f in inserted(all1, off1, ln1, pos1, all_, off, ln, pos, new)]
    res += [('the consumed letters of a cluster stay current', Im(c, A(off1 == off, pos1 == NPOS, eqs(tok(all1, off), head), RS.len(all1) == RS.len(all_) + n + 1))),
            ('the inserted texts come before the other letters of the cluster',
             Im(c, forall([j], Im(A(off < j, j <= off + n), RS.at(all1, j) == RS.at(new, j - off - 1)), [RS.at(all1, j)]))),
            ('then the other letters of the cluster', Im(c, eqs(tok(all1, off + n + 1), rest))),
            ('then the arguments that were pending',
             Im(c, forall([j], Im(A(off + n + 1 < j, j < RS.len(all1)), RS.at(all1, j) == RS.at(all_, j - n - 1)), [RS.at(all1, j)])))]
    return res


# ------------------------------------------------------------------ construction and copying
class Ctor(Std):
    node_is_ctor = True

    def modifies(self, sc):
        return [('loc', sc.this)]


def starts_at_first(sc):
    all_, off, ln, pos = view(sc)
    return [('every argument is pending', A(RS.eqS(all_, sc.arg(0)), off == 0, ln == RS.len(all_), pos == 0))]


@contract(S + '::StandardOptionIterator', 'C01')
class _(Ctor):
    def match(self, n, pts):
        return len(pts) == 1 and type_text(pts[0]) == 'vector'

    def post(self, sc):
        return starts_at_first(sc)


@contract(P + '::OptionIterator', 'C01', nparams=2)
class _(Ctor):
    def post(self, sc):
        return starts_at_first(sc) + [('the flag character', sc.m('m_prefix') == sc.arg(1))]


for q in (S, P):
    @contract(q + '::' + q.split('::')[1], 'C01', nparams=0)
    class _(Ctor):
        def post(self, sc):
            all_, off, ln, pos = view(sc)
            return [('no arguments', A(RS.len(all_) == 0, off == 0, ln == 0, pos == 0))]

    @contract(q + '::' + q.split('::')[1], 'C01')
    class _(Ctor):
        def match(self, n, pts):
            return len(pts) == 1 and type_text(pts[0]) == q.split('::')[1] + '&' if False else \
                len(pts) == 1 and type_text(pts[0]) in ('StandardOptionIterator&', 'OptionIterator&')

        def post(self, sc):
            all_, off, ln, pos = view(sc)
            s = sc.arg(0)
            r = [('the copy is at the same place in its own copy of the arguments',
                  A(RS.eqS(all_, s.m_all_args), off == s.m_args.off, ln == s.m_args.len, pos == s.m_pos)),
                 ('the copy refers to its own arguments', z3.BoolVal(isinstance(sc.m('m_args').cont, Loc) and sc.m('m_args').cont.same(sc.mloc('m_all_args'))))]
            if 'm_prefix' in s.f:
                r.append(('the flag character', sc.m('m_prefix') == s.m_prefix))
            return r


# ------------------------------------------------------------------ the syntax of the parser
W = 'argos::OptionIteratorWrapper'


def tokens(v):
    """of a wrapper: which syntax, and (all arguments, index of the current one, number of pending ones, position) for both"""
    v = v.f['iterator']
    g = lambda r: (r.f['m_all_args'], r.f['m_args'].off, r.f['m_args'].len, r.f['m_pos'])
    return v.tag, g(v.alts[0]), g(v.alts[1])


def prefix(v):
    return v.f['iterator'].alts[0].f['m_prefix']


class Now:
    def __init__(self, sc, old=False):
        self.f = {'iterator': (sc.om if old else sc.m)('iterator')}


class Wrapper:
    changes = True

    def modifies(self, sc):
        return [('loc', sc.mloc('iterator'))] if self.changes else []

    def both(self, sc, opt, std):
        old, new = Now(sc, True), Now(sc)
        t0, a0, b0 = tokens(old)
        t, a, b = tokens(new)
        return [('the same syntax', t == t0), ('the same prefix', Im(t == 0, prefix(new) == prefix(old)))] + \
            [('one prefix: ' + n, Im(t == 0, f)) for n, f in opt(a0, a, prefix(old))] + [('standard: ' + n, Im(t == 1, f)) for n, f in std(b0, b)]


def same_args(old, new):
    return [('the arguments stay', A(RS.eqS(new[0], old[0]) if not new[0].eq(old[0]) else z3.BoolVal(True)))]


@contract(W + '::next', 'C01')
class _(Wrapper):
    def ensures(self, sc):
        r = sc.result
        return self.both(sc, lambda o, n, p: opt_next_post(o, n, p, r) + same_args(o, n), lambda o, n: std_next_post(o, n, r) + same_args(o, n))


@contract(W + '::next_value', 'C01')
class _(Wrapper):
    def ensures(self, sc):
        r = sc.result
        return self.both(sc, lambda o, n, p: next_value_post(o, n, r) + same_args(o, n), lambda o, n: next_value_post(o, n, r) + same_args(o, n))


@contract(W + '::current', 'C01 C21')
class _(Wrapper):
    changes = False

    def throws(self, sc):
        t, a, b = tokens(Now(sc))
        e = lambda v: v[1] == RS.len(v[0])
        return z3.If(t == 0, e(a), e(b))

    def ensures(self, sc):
        t, a, b = tokens(Now(sc))
        return [('the current argument', sc.result == z3.If(t == 0, tok(a[0], a[1]), tok(b[0], b[1])))]


@contract(W + '::insert', 'C02')
class _(Wrapper):
    def assumes(self, sc):
        t, a, b = tokens(Now(sc))
        return [('fewer than 2^62 arguments', A(RS.len(v[0]) + RS.len(sc.arg(0)) < (1 << 62) - 1)) for v in (a, b)]

    def ensures(self, sc):
        new = sc.arg(0)
        return self.both(sc, lambda o, n, p: inserted(*n, *o, new), lambda o, n: spliced(*n, *o, new))
