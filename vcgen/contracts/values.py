"""C08, C10, C11, C21: ArgumentValue.cpp, ArgumentValues.cpp, the values a user retrieves"""
from .core import *
from .strings import A, O, N, Im, Str, L, at, off, idx, part, NPARTS
from . import parse, impl
import lib

SEL = z3.Select
P = 'ParsedArgumentsImpl'
AV, AVS = 'argos::ArgumentValue::', 'argos::ArgumentValues::'
from .parse import ERRNO, number, wanted


def OUT():
    from . import machine
    return machine.OUT


class Result:
    """the result of parsing that a value belongs to"""

    def __init__(self, sc, p, old=False):
        H = sc.OH if old else sc.H
        self.p = p
        self.cmd, self.data = SEL(H(P, 'm_command'), p), SEL(H(P, 'm_data'), p)
        st = sc.I.sub_addr(self.data, 'ParserData', 'parser_settings')
        self.auto_exit, self.code = SEL(H('ParserSettings', 'auto_exit'), st), SEL(H('ParserSettings', 'error_exit_code'), st)

    def valid(self):
        return Im(self.p != null, A(self.cmd != null, self.data != null))


def written(sc, r):
    """an error message was written for the command of the result"""
    from . import machine as M
    return A(M.KIND(M.out(sc)) == M.IS_ERROR, M.PREV(M.out(sc)) == M.out0(sc), M.out(sc) == M.ERR(M.out0(sc), r.cmd, M.MSG(M.out(sc))))


class Reports:
    """A function that may report an error. The error is wrong()."""
    errno = True
    may_lack_result = True          # the value may be without a result, which is always an error

    def this(self, sc, old=False):
        g = sc.om if old else sc.m
        return {f: g(f) for f in ('m_value', 'm_args')}

    def wrong(self, sc):
        return z3.BoolVal(True)

    def res(self, sc, old=True):
        return Result(sc, self.this(sc, old)['m_args'], old)

    def requires(self, sc):
        r = self.res(sc, False)
        return [('a result of a parser', r.valid() if self.may_lack_result else A(r.p != null, r.valid()))]

    def modifies(self, sc):
        return [OUT()] + ([ERRNO] if self.errno else [])

    def lacks(self, sc):
        return self.res(sc).p == null if self.may_lack_result else z3.BoolVal(False)

    def throws(self, sc):
        return A(self.wrong(sc), O(self.lacks(sc), N(self.res(sc).auto_exit)))

    def exits(self, sc):
        r = self.res(sc)
        return A(self.wrong(sc), N(self.lacks(sc)), r.auto_exit), r.code

    def on_exit(self, sc):
        return [('a message is written first', written(sc, self.res(sc)))]

    def on_throw(self, sc):
        return [('a message is written first', Im(N(self.lacks(sc)), written(sc, self.res(sc))))]

    def quiet(self, sc):
        from . import machine as M
        return [('nothing is written', M.out(sc) == M.out0(sc))]

    def ensures(self, sc):
        return self.quiet(sc)


# ------------------------------------------------------------------ errors
@contract(AV + 'error', 'C10 C21', nparams=1)
class _(Reports):
    errno = False


@contract(AV + 'error', 'C10 C21', nparams=0)
class _(Reports):
    errno = False

    def lacks(self, sc):
        return O(Reports.lacks(self, sc), N(self.this(sc, True)['m_value'].has))


# ------------------------------------------------------------------ a single number
class OfValue(Reports):
    """the value is the object, or the first parameter"""
    shift = 0

    def this(self, sc, old=False):
        if self.shift:
            v = sc.old(0) if old else sc.arg(0)
            return v.f
        return Reports.this(self, sc, old)

    def num(self, sc):
        base = sc.old(self.shift + 1) if len(sc.node['params']) > self.shift + 1 else None
        v = self.this(sc, True)['m_value']
        return v, number(wanted(sc), v.val, *([base] if base is not None else []))

    def wrong(self, sc):
        v, (ok, x) = self.num(sc)
        return A(v.has, N(ok))

    def ensures(self, sc):
        v, (ok, x) = self.num(sc)
        d = sc.old(self.shift)
        return [('the default iff there is no value', Im(N(v.has), sc.result == d)), ('otherwise the number', Im(v.has, A(ok, sc.result == x)))] + self.quiet(sc)


for f in ('get_integer', 'get_floating_point'):
    @contract('argos::' + f, 'C10 C21')
    class _(OfValue):
        shift = 1

for f in ('as_int', 'as_uint', 'as_long', 'as_llong', 'as_ulong', 'as_ullong', 'as_float', 'as_double'):
    @contract(AV + f, 'C10 C21')
    class _(OfValue):
        pass


@contract(AV + 'as_bool', 'C10')
class _:
    def ensures(self, sc):
        v = sc.m('m_value')
        is_ = lambda t: Str.eqS(v.val, Str.lit([z3.IntVal(ord(c)) for c in t]))
        return [('the default iff there is no value', Im(N(v.has), sc.result == sc.arg(0))),
                ('false for the empty text, 0 and false', Im(v.has, sc.result == N(O(L(v.val) == 0, is_('0'), is_('false')))))]


@contract(AV + 'as_string', 'C10')
class _:
    def ensures(self, sc):
        v = sc.m('m_value')
        return [('the text, or the default', Str.eqS(sc.result, z3.If(v.has, v.val, sc.arg(0))))]


@contract(AV + 'value', 'C08 C10')
class _:
    def ensures(self, sc):
        v, r = sc.m('m_value'), sc.result
        return [('the text, if there is one', A(r.has == v.has, Im(v.has, r.val == v.val)))]


# ------------------------------------------------------------------ several values
PAIR = []


def pairs(sc, v=None):
    """the values with the ids of their arguments"""
    v = sc.m('m_values') if v is None else v
    return impl.RS2(v), v


def text(sc, th, s, i):
    return sc.T('ArgumentValues', 'm_values').elem.dt.acc(0, 0, th.at(s, i))


def arg_of(sc, th, s, i):
    return sc.T('ArgumentValues', 'm_values').elem.dt.acc(0, 1, th.at(s, i))


class Many(Reports):
    may_lack_result = False

    def vals(self, sc, old=True):
        """the ArgumentValues"""
        return {'m_values': (sc.om if old else sc.m)('m_values'), 'm_args': (sc.om if old else sc.m)('m_args')}

    def this(self, sc, old=False):
        return self.vals(sc, old)


class Given(Many):
    """... is the first parameter"""

    def vals(self, sc, old=True):
        return (sc.old(0) if old else sc.arg(0)).f


def _gid(sc):
    th, v = pairs(sc, sc.param(0))
    j = z3.Int('j!')
    p = sc.local('iter', 0) if False else sc.var('it').idx
    return [('position', A(1 <= p, p <= th.len(v))), ('the same so far', forall([j], Im(A(0 <= j, j < p), arg_of(sc, th, v, j) == arg_of(sc, th, v, 0)), [th.at(v, j)]))]


@contract('argos::get_argument_id', 'C21')
class _:
    loops = (Loop(_gid),)

    def ensures(self, sc):
        th, v = pairs(sc, sc.arg(0))
        j = z3.Int('j!')
        same = forall([j], Im(A(0 <= j, j < th.len(v)), arg_of(sc, th, v, j) == sc.result), [th.at(v, j)])
        return [('the argument of all values, or none', O(sc.result == 0, A(th.len(v) > 0, same)))]


@contract(AVS + 'error', 'C10 C21')
class _(Many):
    errno = False


@contract('argos::error', 'C10 C21', nparams=2)
class _(Given):
    errno = False


@contract(AVS + 'empty', 'C08 C10')
class _:
    def ensures(self, sc):
        th, v = pairs(sc)
        return [('true iff there are no values', sc.result == (th.len(v) == 0))]


@contract(AVS + 'size', 'C08 C10')
class _:
    def ensures(self, sc):
        th, v = pairs(sc)
        return [('the number of values', sc.result == th.len(v))]


RS = seq_of(Str.sort)


def texts_of(sc, v, r, n=None):
    th, v = pairs(sc, v)
    j = z3.Int('j!')
    return A(RS.len(r) == (th.len(v) if n is None else n), forall([j], Im(A(0 <= j, j < RS.len(r)), RS.at(r, j) == text(sc, th, v, j)), [RS.at(r, j), th.at(v, j)]))


@contract(AVS + 'raw_values', 'C08 C10')
class _:
    loops = (Loop(lambda sc: [('texts so far', texts_of(sc, sc.m('m_values'), var(sc, 'result', 'vector<sv>', 0), sc.i))]),)

    def ensures(self, sc):
        return [('the texts, in order', texts_of(sc, sc.m('m_values'), sc.result))]


@contract(AVS + 'as_strings', 'C08 C10')
class _:
    loops = (Loop(lambda sc: [('texts so far', texts_of(sc, sc.m('m_values'), var(sc, 'result', 'vector<string>', 0), sc.i))]),)

    def ensures(self, sc):
        th, v = pairs(sc)
        return [('the default iff there are no values', Im(th.len(v) == 0, RS.eqS(sc.result, sc.arg(0)))), ('the texts, in order', Im(th.len(v) > 0, texts_of(sc, v, sc.result)))]


def elem_type(sc):
    return wanted(sc)


def numbers(sc, t, s, base, r, n):
    """r are the numbers of the first n texts"""
    th = impl.RS2(r)
    j = z3.Int('j!')
    ok, x = number(t, RS.at(s, j), *base)
    return [('as many', th.len(r) == n), ('the numbers of the texts', forall([j], Im(A(0 <= j, j < n), A(ok, th.at(r, j) == x)), [th.at(r, j), RS.at(s, j)]))]


def log(sc, old=False):
    return SEL((sc.OH if old else sc.H)('Ghost', 'out'), null)


def _nums(sc):
    s, o, ln = sc.range_span if not z3.is_expr(sc.range) else (sc.range, 0, 0)
    node = sc.I.fn_nodes[-1]
    base = [sc.param(2)] if len(node['params']) > 2 else []
    return numbers(sc, wanted(sc.fsc), s, base, var(sc, 'result', '', 0), sc.i) + [('nothing is written', log(sc) == log(sc.fsc, True))]


for f in ('parse_integers', 'parse_floats'):
    @contract('argos::' + f, 'C10 C21')
    class _(Given):
        loops = (Loop(_nums),)

        def wrong(self, sc):
            th, v = pairs(sc, self.vals(sc)['m_values'])
            j = z3.Int('j!')
            ok, x = number(wanted(sc), text(sc, th, v, j), *([sc.old(2)] if len(sc.node['params']) > 2 else []))
            return N(forall([j], Im(A(0 <= j, j < th.len(v)), ok), [th.at(v, j)]))

        def ensures(self, sc):
            th, v = pairs(sc, self.vals(sc)['m_values'])
            r = sc.result
            t = impl.RS2(r)
            j = z3.Int('j!')
            ok, x = number(wanted(sc), text(sc, th, v, j), *([sc.old(2)] if len(sc.node['params']) > 2 else []))
            return [('the default iff there are no values', Im(th.len(v) == 0, r == sc.old(1))),
                    ('as many numbers as values', Im(th.len(v) > 0, t.len(r) == th.len(v))),
                    ('every text gives its number', Im(th.len(v) > 0, forall([j], Im(A(0 <= j, j < th.len(v)), A(ok, t.at(r, j) == x)), [t.at(r, j)])))] + self.quiet(sc)


class AsMany(Many):
    shift = 0

    def base(self, sc):
        return [sc.old(1)] if len(sc.node['params']) > 1 else []

    def num(self, sc, j):
        th, v = pairs(sc, self.vals(sc)['m_values'])
        return th, v, number(wanted(sc), text(sc, th, v, j), *self.base(sc))

    def wrong(self, sc):
        j = z3.Int('j!')
        th, v, (ok, x) = self.num(sc, j)
        return N(forall([j], Im(A(0 <= j, j < th.len(v)), ok), [th.at(v, j)]))

    def ensures(self, sc):
        j = z3.Int('j!')
        th, v, (ok, x) = self.num(sc, j)
        r = sc.result
        t = impl.RS2(r)
        return [('the default iff there are no values', Im(th.len(v) == 0, r == sc.old(0))),
                ('as many numbers as values', Im(th.len(v) > 0, t.len(r) == th.len(v))),
                ('every text gives its number', Im(th.len(v) > 0, forall([j], Im(A(0 <= j, j < th.len(v)), A(ok, t.at(r, j) == x)), [t.at(r, j)])))] + self.quiet(sc)


for f in ('as_ints', 'as_uints', 'as_longs', 'as_llongs', 'as_ulongs', 'as_ullongs', 'as_floats', 'as_doubles'):
    @contract(AVS + f, 'C10 C21')
    class _(AsMany):
        pass


# ------------------------------------------------------------------ one of several values
def is_value(v, txt, p, arg):
    """an ArgumentValue with that text (None: without)"""
    f = v.f
    return A(N(f['m_value'].has) if txt is None else A(f['m_value'].has, f['m_value'].val == txt), f['m_args'] == p, f['m_argument_id'] == arg)


for f in ('value', 'operator[]'):
    @contract(AVS + f, 'C08 C10')
    class _:
        def throws(self, sc):
            th, v = pairs(sc)
            return A(th.len(v) > 0, sc.arg(0) >= th.len(v))

        def ensures(self, sc):
            th, v = pairs(sc)
            p, k = sc.m('m_args'), sc.arg(0)
            return [('no values: a value that is absent', Im(th.len(v) == 0, is_value(sc.result, None, p, 0))),
                    ('otherwise that value', Im(th.len(v) > 0, is_value(sc.result, text(sc, th, v, k), p, arg_of(sc, th, v, k))))]


def are_values(sc, r, n):
    th, v = pairs(sc)
    t = impl.RS2(r)
    T_ = sc.I.rtype(sc.node['ret']).elem if hasattr(sc, 'node') else sc.I.rtype(sc.fsc.node['ret']).elem
    j = z3.Int('j!')
    return A(t.len(r) == n, forall([j], Im(A(0 <= j, j < n), is_value(T_.unpack(t.at(r, j)), text(sc, th, v, j), sc.m('m_args'), arg_of(sc, th, v, j))), [t.at(r, j)]))


@contract(AVS + 'values', 'C08 C10')
class _:
    loops = (Loop(lambda sc: [('values so far', are_values(sc, var(sc, 'result', 'vector<ArgumentValue>', 0), sc.i))]),)

    def ensures(self, sc):
        th, v = pairs(sc)
        return [('all values in order', are_values(sc, sc.result, th.len(v)))]


# ------------------------------------------------------------------ splitting
NTH_PART = z3.Function('nth_part', Str.sort, IntS, IntS, IntS, Str.sort)
_ps, _pd, _pn, _pk = z3.Const('s!', Str.sort), *z3.Ints('d! n! k!')
add_group(['nth_part'], [forall([_ps, _pd, _pn, _pk], NTH_PART(_ps, _pd, _pn, _pk) == z3.If(_pk < _pn - 1, part(_ps, _pd, _pk), Str.slice(_ps, off(_ps, _pd, _pk), L(_ps))),
                                [NTH_PART(_ps, _pd, _pn, _pk)])])


def nth_part(s, d, n, k):
    """the k'th of n parts"""
    return NTH_PART(s, d, n, k)


_m = z3.Int('m!')
ONE_LESS = z3.Function('one_less', IntS, IntS)        # as unsigned numbers
add_group(['one_less'], [forall([_m], ONE_LESS(_m) == (_m - 1) % (1 << 64), [ONE_LESS(_m)])])


def limit(sc, i):
    return ONE_LESS(sc.arg(i))


class Splits:
    def ensures(self, sc):
        return self.post(sc) + [('of the same result', sc.result.f['m_args'] == sc.om('m_args'))] + self.quiet(sc)


class OneSplit(Splits, Reports):
    last = 2          # the argument that says how many at most
    errno = False

    def wrong(self, sc):
        v = sc.om('m_value')
        return O(sc.om('m_args') == null, A(v.has, NPARTS(v.val, sc.old(0), limit(sc, self.last)) < sc.old(1)))

    def post(self, sc):
        v, r = sc.om('m_value'), sc.result.f['m_values']
        th = impl.RS2(r)
        k, n = z3.Int('k!'), NPARTS(v.val, sc.old(0), limit(sc, self.last))
        return [('no value: no parts', Im(N(v.has), th.len(r) == 0)), ('as many parts as there are', Im(v.has, th.len(r) == n)),
                ('the parts in order', Im(v.has, forall([k], Im(A(0 <= k, k < n), A(Str.eqS(text(sc, th, r, k), nth_part(v.val, sc.old(0), n, k)), arg_of(sc, th, r, k) == sc.om('m_argument_id'))), [th.at(r, k)])))]


@contract(AV + 'split', 'C11 C21')
class _(OneSplit):
    loops = (Loop(lambda sc: _one_split(sc)),)


@contract(AV + 'split_n', 'C11 C21')
class _(OneSplit):
    last = 1


def _one_split(sc):
    r = var(sc, 'values', 'vector<pair<sv,u32>>', 0)
    parts = var(sc, 'parts', 'vector<sv>', 0)
    th, k = impl.RS2(r), z3.Int('k!')
    return [('as many', th.len(r) == sc.i), ('the parts so far', forall([k], Im(A(0 <= k, k < sc.i), A(text(sc, th, r, k) == RS.at(parts, k), arg_of(sc, th, r, k) == sc.m('m_argument_id'))), [th.at(r, k)]))]


_pre = {}


def pre(sc, v, d, m, j):
    """how many parts the first j texts have"""
    s = v.sort()
    f = _pre.setdefault(s.name(), (z3.Function('parts_before', s, IntS, IntS, IntS, IntS), z3.Function('text_of_part', s, IntS, IntS, IntS, IntS)))
    return f[0](v, d, m, j)


def own(sc, v, d, m, i):
    """to which text the i'th of all parts belongs"""
    pre(sc, v, d, m, i)
    return _pre[v.sort().name()][1](v, d, m, i)


def split_defs(sc, v, d, m):
    """definitions of these: sums, and the one interval an index is in (the intervals are disjoint: see the lemma below)"""
    th = impl.RS2(v)
    j, i = z3.Ints('j! i!')
    np = NPARTS(text(sc, th, v, j), d, m)
    return [('sums', A(pre(sc, v, d, m, 0) == 0, forall([j], Im(j >= 0, A(pre(sc, v, d, m, j + 1) == pre(sc, v, d, m, j) + np, np >= 1)), [pre(sc, v, d, m, j)]))),
            ('intervals', forall([i, j], Im(A(0 <= j, pre(sc, v, d, m, j) <= i, i < pre(sc, v, d, m, j) + np), own(sc, v, d, m, i) == j), [(own(sc, v, d, m, i), pre(sc, v, d, m, j))]))]


@lemma('the parts of different texts are at different places: the sums do not decrease (step)', 'C11')
def _():
    f = z3.Function('sum', IntS, IntS)
    g = z3.Function('count', IntS, IntS)
    a, b, j = z3.Ints('a b j!')
    return ([forall([j], Im(j >= 0, A(f(j + 1) == f(j) + g(j), g(j) >= 1)), [f(j)]), 0 <= a, a <= b, f(a) <= f(b)], f(a) <= f(b + 1))


def all_parts(sc, v, d, m, r, n):
    """r are the parts of the first n texts"""
    th, t = impl.RS2(v), impl.RS2(r)
    i = z3.Int('i!')
    o = own(sc, v, d, m, i)
    s = text(sc, th, v, o)
    k = i - pre(sc, v, d, m, o)
    return [('as many as there are', t.len(r) == pre(sc, v, d, m, n)),
            ('the parts of every text, in order', forall([i], Im(A(0 <= i, i < t.len(r)), A(0 <= o, o < n, 0 <= k, k < NPARTS(s, d, m),
                                                                Str.eqS(text(sc, t, r, i), nth_part(s, d, NPARTS(s, d, m), k)), arg_of(sc, t, r, i) == arg_of(sc, th, v, o))), [t.at(r, i)]))]


class AllSplit(Splits, Many):
    last = 2
    errno = False
    def axioms_at_entry(self, sc):
        return split_defs(sc, sc.m('m_values'), sc.arg(0), limit(sc, self.last))

    def few(self, sc, n=None):
        th, v = pairs(sc, sc.om('m_values'))
        j = z3.Int('j!')
        return forall([j], Im(A(0 <= j, j < (th.len(v) if n is None else n)), NPARTS(text(sc, th, v, j), sc.old(0), ONE_LESS(sc.old(self.last))) >= sc.old(1)), [th.at(v, j)])

    def wrong(self, sc):
        return N(self.few(sc))

    def post(self, sc):
        return all_parts(sc, sc.om('m_values'), sc.old(0), limit(sc, self.last), sc.result.f['m_values'], pairs(sc, sc.om('m_values'))[0].len(sc.om('m_values')))


@contract(AVS + 'split', 'C11 C21')
class _(AllSplit):
    loops = (Loop(lambda sc: _texts(sc)), Loop(lambda sc: _parts(sc)))


@contract(AVS + 'split_n', 'C11 C21')
class _(AllSplit):
    last = 1


def _texts(sc):
    f = sc.fsc
    return all_parts(sc, f.om('m_values'), f.old(0), limit(f, 2), var(sc, 'values', 'vector<pair<sv,u32>>', 0), sc.i) + [
        ('enough parts so far', f.c.few(f, sc.i)), ('nothing is written', log(sc) == log(f, True))]


def _parts(sc):
    r, r0 = var(sc, 'values', 'vector<pair<sv,u32>>', 0), var0(sc, 'values', 'vector<pair<sv,u32>>', 0)
    parts, arg = var(sc, 'parts', 'vector<sv>', 0), sc.var('arg_id')
    t, k = impl.RS2(r), z3.Int('k!')
    n = t.len(r0)
    return [('as many', t.len(r) == n + sc.i), ('those before', forall([k], Im(A(0 <= k, k < n), t.at(r, k) == t.at(r0, k)), [t.at(r, k)])),
            ('these', forall([k], Im(A(n <= k, k < n + sc.i), A(text(sc, t, r, k) == RS.at(parts, k - n), arg_of(sc, t, r, k) == arg)), [t.at(r, k)]))]
