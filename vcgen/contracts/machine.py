"""C12, C13, C21, C22: ArgumentIteratorImpl.cpp, the parser's state machine"""
from .core import *
from .strings import A, O, N, Im, Str, L, at, FSAME, FDEFS, ORDER
import lib
from . import parserdata as PD, impl, iterators as IT, counter as CO, strings
from .impl import Store

SEL, RS, RA = z3.Select, PD.RS, PD.RA
AI = 'argos::ArgumentIteratorImpl::'
OPTIONS, ARGS_ONLY, DONE, ERROR = range(4)
R_ARGUMENT, R_OPTION, R_COMMAND, R_DONE, R_UNKNOWN, R_ERROR = range(6)
P = 'ParsedArgumentsImpl'


_memo = {}
# what `usable` depends on
DEFINITIONS = [('CommandData', f) for f in ('commands', 'options', 'option_index', 'require_subcommand', 'arguments')] + \
    [('OptionData', 'flags'), ('ArgumentData', 'min_count'), ('ArgumentData', 'max_count'), ('ParserSettings', 'case_insensitive')]


class M:
    """The state of the parser, now or before."""

    def __init__(self, sc, old=False):
        g = sc.om if old else sc.m
        H = sc.OH if old else sc.H
        self.sc, self.H = sc, H
        self.data, self.cmd, self.P = g('m_data'), g('m_command'), g('m_parsed_args')
        self.state, self.it, self.counter = g('m_state'), g('m_iterator'), g('m_argument_counter')
        self.n = RA.len(self.P)

    def p(self, i):
        return RA.at(self.P, i)

    @property
    def back(self):
        return self.p(self.n - 1)

    def pf(self, f, i):
        return SEL(self.H(P, f), self.p(i))

    def cmd_of(self, i):
        return self.pf('m_command', i)

    def setting(self, f, ent='ParserSettings', part='parser_settings'):
        return SEL(self.H(ent, f), self.sc.I.sub_addr(self.data, 'ParserData', part))

    def multi(self, c):
        return SEL(self.H('CommandData', 'multi_command'), c)

    def command(self, i, name):
        """the subcommand of that name of the i'th command"""
        c = self.cmd_of(i)
        return PD.FINDC(SEL(self.H('CommandData', 'commands'), c), self.H('CommandData', 'name'), name, self.setting('case_insensitive'))

    def inv(self):
        H = self.H
        key = [self.data, self.cmd, self.P, *syntax_terms(self.it), H(P, 'm_command'), H(P, 'm_data'), H(P, 'm_values')] + [H(e, f) for e, f in DEFINITIONS]
        k = tuple(x.get_id() for x in key)
        if k not in _memo:
            _memo[k] = (key, self.inv_())
        return _memo[k][1]

    def inv_(self):
        i, j, r = z3.Ints('i! j! r!')
        return [('definitions are finished', usable(self.sc, self.setting('case_insensitive'))), ('there is a parser', A(self.data != null, self.cmd != null)),
                ('results exist, once each', A(self.n >= 1, forall([i], Im(A(0 <= i, i < self.n), A(self.p(i) != null, self.cmd_of(i) != null, USABLE(self.cmd_of(i)), self.pf('m_data', i) == self.data)), [self.p(i)]),
                                               forall([i, j], Im(A(0 <= i, i < j, j < self.n), self.p(i) != self.p(j)), [(self.p(i), self.p(j))]))),
                ('the last result is that of the current command', self.cmd == self.cmd_of(self.n - 1)),
                ('the syntax is that of the style', self.syntax()),
                ('the values are ordered', forall([r], Im(A(0 <= r, r < self.n), self.store(r).sorted()), [self.p(r)]))]

    def syntax(self):
        st = self.setting('option_style')
        t = tokens(self)[0]
        return A(t == z3.If(O(st == PD.SLASH, st == PD.DASH), 0, 1), Im(t == 0, IT.prefix(self.it) == z3.If(st == PD.SLASH, 47, 45)))

    def store(self, i):
        return self.store_of(self.p(i))

    def store_of(self, p):
        return impl.Store(SEL(self.H(P, 'm_values'), p), self.sc.T(P, 'm_values'))


def syntax_terms(v):
    v = v.f['iterator']
    return [x for x in (v.tag, v.alts[0].f['m_prefix']) if z3.is_expr(x)]


class Mach:
    fields = ()
    heap = ()

    def requires(self, sc):
        return M(sc).inv()

    def modifies(self, sc):
        return [('loc', sc.mloc(f)) for f in self.fields] + [('heapfield', P, f) for f in self.heap]

    def ensures(self, sc):
        return self.post(sc) + (M(sc).inv() if self.fields or self.heap else [])


@contract('argos::is_option', 'C01 C12 C22')
class _:
    def ensures(self, sc):
        s, st = sc.arg(0), sc.arg(1)
        return [('two characters and the prefix of the style', sc.result == A(L(s) >= 2, at(s, 0) == z3.If(st == PD.SLASH, 47, 45)))]


@contract('argos::get_tail', 'C12 C22')
class _:
    def requires(self, sc):
        return [('the tail is not longer', sc.arg(1) <= L(sc.arg(0)))]

    def ensures(self, sc):
        s, n = sc.arg(0), sc.arg(1)
        return [('the last characters', Str.eqS(sc.result, Str.slice(s, L(s) - n, L(s))))]


def last_multi(m, r, n=None):
    """r is the last parent that allows several subcommands"""
    i = z3.Int('i!')
    return [('the last parent with several subcommands', Im(r.has, A(0 <= r.val, r.val < m.n - 1, m.multi(m.cmd_of(r.val)),
                                                                    forall([i], Im(A(r.val < i, i < m.n - 1), N(m.multi(m.cmd_of(i)))), [m.p(i)])))),
            ('none only if no parent has', Im(N(r.has), forall([i], Im(A(0 <= i, i < m.n - 1), N(m.multi(m.cmd_of(i)))), [m.p(i)])))]


def _fm(sc):
    m = M(sc)
    i = z3.Int('i!')
    k = sc.local('u64', 1)
    return [('none so far', A(0 <= k, k <= m.n - 1, forall([i], Im(A(k <= i, i < m.n - 1), N(m.multi(m.cmd_of(i)))), [m.p(i)])))]


@contract(AI + 'find_first_multi_command_parent', 'C13')
class _(Mach):
    loops = (Loop(_fm),)

    def post(self, sc):
        return last_multi(M(sc), sc.result)


@contract(AI + 'reactivate_multi_command_parent', 'C13')
class _(Mach):
    fields = ('m_parsed_args', 'm_command', 'm_argument_counter', 'm_state')

    def requires(self, sc):
        m = M(sc)
        return m.inv() + [('there is such a parent', A(0 <= sc.arg(0), sc.arg(0) < m.n))]

    def post(self, sc):
        m0, m, i = M(sc, True), M(sc), sc.old(0)
        j = z3.Int('j!')
        c, ix, fo, n = CO.counters(m.counter.f['m_counters']), m.counter.f['m_index'], m.counter.f['m_first_optional'], m.counter.f['m_counter']
        return [('the parent is current again', A(m.n == i + 1, m.cmd == m0.cmd_of(i))),
                ('the results of its parents stay', forall([j], Im(A(0 <= j, j <= i), m.p(j) == m0.p(j)), [m.p(j)])),
                ('only its subcommands are accepted', m.state == ARGS_ONLY),
                ('no arguments are', A(c.n == 0, ix == 0, fo == 0, n == 0))]


# ------------------------------------------------------------------ finished definitions
# An arbitrary set of commands, closed under subcommands, that finish_initialization has prepared
USABLE = z3.Function('is_usable', Addr, BoolS)


class At:
    """an object given by its address"""

    def __init__(self, addr):
        self.addr = addr


def usable(sc, ci):
    c, k = z3.Const('cmd!', Addr), z3.Int('u!')
    H = sc.H
    f = []
    cmds = RA.at(SEL(H('CommandData', 'commands'), c), k)
    opts = RA.at(SEL(H('CommandData', 'options'), c), k)
    index = PD.Index(SEL(H('CommandData', 'option_index'), c), sc.T('CommandData', 'option_index'))
    rs = sc.h('CommandData', 'require_subcommand', c)
    ag = CO.Args(sc, At(c))
    f.append(A(c != null, rs.has, index.sorted(ci), index.real(), *[x for _, x in ag.wf()]))
    f.append(forall([k], Im(A(0 <= k, k < RA.len(SEL(H('CommandData', 'commands'), c))), A(cmds != null, USABLE(cmds))), [cmds]))
    f.append(forall([k], Im(A(0 <= k, k < RA.len(SEL(H('CommandData', 'options'), c))), A(opts != null, RS.len(SEL(H('OptionData', 'flags'), opts)) > 0)), [opts]))
    return forall([c], Im(USABLE(c), A(*f)), [USABLE(c)])


@contract(AI + 'find_command_of_parent', 'C13')
class _(Mach):
    def post(self, sc):
        m, r = M(sc), sc.result
        return [('a command of the last parent with several subcommands', found_by_parent(m, sc.arg(0), r))]


def found_by_parent(m, name, r):
    """r is the subcommand of that name of the last parent with several subcommands, and the position of the parent"""
    i, j = z3.Int('p!'), z3.Int('i!')
    par = lambda i: A(0 <= i, i < m.n - 1, m.multi(m.cmd_of(i)), forall([j], Im(A(i < j, j < m.n - 1), N(m.multi(m.cmd_of(j)))), [m.p(j)]))
    return A(forall([i], Im(par(i), A(r.first == m.command(i, name), r.second == i)), [m.p(i)]),
             Im(forall([i], Im(A(0 <= i, i < m.n - 1), N(m.multi(m.cmd_of(i)))), [m.p(i)]), r.first == null),
             Im(r.first != null, A(par(r.second), r.first == m.command(r.second, name), m.p(r.second) == m.p(r.second), USABLE(r.first))))


@contract(AI + 'find_sibling_command', 'C13')
class _(Mach):
    def post(self, sc):
        m, r = M(sc), sc.result
        full = complete(m)
        return [('only when the arguments of the command are complete', Im(N(full), r.first == null)),
                ('then: a command of the last parent with several subcommands', Im(full, found_by_parent(m, sc.arg(0), r)))]


def complete(m):
    """every counter of an argument that needs values is used up"""
    v = m.counter.f
    c, k = CO.counters(v['m_counters']), z3.Int('k!')
    return forall([k], Im(A(v['m_index'] <= k, k < v['m_first_optional']), c.cnt(k) == 0), [c.raw(k)])


# ------------------------------------------------------------------ what the user sees
LOG = TOpaque('log')
ERR = z3.Function('log_error', LOG.sort, Addr, Str.sort, LOG.sort)   # an error message for a command is written
HELPED = z3.Function('log_help', LOG.sort, Addr, LOG.sort)           # the help text of a command is written
OUT = ('heapfield', 'Ghost', 'out')


def out(sc):
    return SEL(sc.H('Ghost', 'out'), null)


def out0(sc):
    return SEL(sc.OH('Ghost', 'out'), null)


# what the last entry of the log was
KIND = z3.Function('log_kind', LOG.sort, IntS)
PREV = z3.Function('log_previous', LOG.sort, LOG.sort)
MSG = z3.Function('log_message', LOG.sort, Str.sort)
IS_ERROR, IS_HELP, IS_CALL, IS_USER = 1, 2, 3, 4


def error_logged(l, l0, cmd):
    """l is l0 and a message that is not empty"""
    return A(KIND(l) == IS_ERROR, l == ERR(l0, cmd, MSG(l)), L(MSG(l)) > 0, PREV(l) == l0)


class Writes:
    """HelpText.cpp: writes one message to the stream; assumed (what is written: C14, C15, C17)"""
    verify = False

    def modifies(self, sc):
        return [OUT]


@contract('argos::write_error_message', 'C12 C21', nparams=3)
class _(Writes):
    def ensures(self, sc):
        return [('one message', out(sc) == ERR(out0(sc), sc.arg(1).addr, sc.arg(2))), ('an error', A(KIND(out(sc)) == IS_ERROR, MSG(out(sc)) == sc.arg(2), PREV(out(sc)) == out0(sc)))]


@contract('argos::write_help_text', 'C12 C21')
class _(Writes):
    def ensures(self, sc):
        return [('one help text', out(sc) == HELPED(out0(sc), sc.arg(1).addr)), ('a help text', A(KIND(out(sc)) == IS_HELP, PREV(out(sc)) == out0(sc)))]


# ------------------------------------------------------------------ errors
def unproc(sc, m, old=False):
    return SEL((sc.OH if old else sc.H)(P, 'm_unprocessed_arguments'), m.back)


def _cr(sc):
    m = M(sc)
    u0, u = SEL(sc.fsc.OH(P, 'm_unprocessed_arguments'), m.back), unproc(sc, m)
    r = sc.range_span
    j = z3.Int('j!')
    n0 = RS.len(u0)
    return [('as many', A(RS.len(u) == n0 + sc.i)),
            ('what was there', forall([j], Im(A(0 <= j, j < n0), RS.at(u, j) == RS.at(u0, j)), [RS.at(u, j)])),
            ('the pending arguments', forall([j], Im(A(n0 <= j, j < n0 + sc.i), RS.at(u, j) == RS.at(r[0], r[1] + j - n0)), [RS.at(u, j)])),
            ('other results', same_elsewhere(sc.H(P, 'm_unprocessed_arguments'), sc.fsc.OH(P, 'm_unprocessed_arguments'), m.back))]


def same_elsewhere(H, H0, x):
    a = z3.Const('o!', Addr)
    return forall([a], Im(a != x, SEL(H, a) == SEL(H0, a)), [SEL(H, a)])


def tokens(m):
    """(which syntax, then for each: all arguments, index of the current one, number of pending ones, position in the current one)"""
    return IT.tokens(m.it)


def same_iter(m, m0):
    t, a, b = tokens(m)
    t0, a0, b0 = tokens(m0)
    pre = IT.prefix(m.it) == IT.prefix(m0.it)
    return A(t == t0, Im(t == 0, A(pre, *[x == y for x, y in zip(a, a0)])), Im(t == 1, A(*[x == y for x, y in zip(b, b0)])))


def copied_rest(sc, moved=False, m0=None):
    """the arguments that were not looked at are the last unprocessed ones"""
    m0, m = m0 or M(sc, True), M(sc)
    u0, u = unproc(sc, m0, True), unproc(sc, m0)
    tag, a, b = tokens(m)
    n0, j = RS.len(u0), z3.Int('j!')
    out = []
    for k, (all_, off, ln, pos) in enumerate((a, b)):
        skip = z3.If(pos == 0, 0, 1)
        out.append(Im(tag == k, A(RS.len(u) == n0 + ln - skip,
                                  forall([j], Im(A(0 <= j, j < n0), RS.at(u, j) == RS.at(u0, j)), [RS.at(u, j)]),
                                  forall([j], Im(A(n0 <= j, j < RS.len(u)), RS.at(u, j) == RS.at(all_, off + skip + j - n0)), [RS.at(u, j)]))))
    t0, a0, b0 = tokens(m0)
    out.append(A(tag == t0, z3.BoolVal(True) if moved else Im(tag == 0, A(*[x == y for x, y in zip(a, a0)]))))
    return [('the pending arguments are unprocessed', A(*out))]


@contract(AI + 'copy_remaining_arguments_to_parser_result', 'C12 C18 C21')
class _(Mach):
    fields = ('m_iterator',)
    loops = (Loop(_cr),)

    def modifies(self, sc):
        return [('loc', sc.mloc('m_iterator')), obj_field(P, 'm_unprocessed_arguments', M(sc, True).back)]

    def post(self, sc):
        return copied_rest(sc) 


def codes(sc):
    return sc.H(P, 'm_result_code'), sc.OH(P, 'm_result_code')


def _er(sc):
    m = M(sc)
    c, c0 = sc.H(P, 'm_result_code'), sc.fsc.OH(P, 'm_result_code')
    j = z3.Int('j!')
    return [('the results so far have failed', forall([j], Im(A(0 <= j, j < sc.i), SEL(c, m.p(j)) == ERROR_CODE), [m.p(j)])), only_set(c, c0, ERROR_CODE)]


def only_set(c, c0, code):
    a = z3.Const('o!', Addr)
    return ('no other code is given', forall([a], O(SEL(c, a) == SEL(c0, a), SEL(c, a) == code), [SEL(c, a)]))


NO_CODE, SUCCESS, STOPPED, ERROR_CODE = range(4)


def all_codes(sc, code):
    m, j = M(sc), z3.Int('j!')
    return forall([j], Im(A(0 <= j, j < m.n), m.pf('m_result_code', j) == code), [m.p(j)])


class Failing(Mach):
    """a function that may report an error"""
    fields = ('m_iterator', 'm_state')

    def modifies(self, sc):
        return Mach.modifies(self, sc) + [obj_field(P, 'm_unprocessed_arguments', M(sc, True).back), ('heapfield', P, 'm_result_code'), OUT]


def failed(sc, moved=False, m0=None):
    return [('every result says so', all_codes(sc, ERROR_CODE)), ('the parser has stopped', M(sc).state == ERROR)] + copied_rest(sc, moved, m0)


class Err(Failing):
    def exits(self, sc):
        m = M(sc, True)
        return m.setting('auto_exit'), m.setting('error_exit_code')

    def logged(self, sc):
        msg = sc.old(0)
        return A(Im(L(msg) > 0, A(out(sc) == ERR(out0(sc), self.command(sc), msg), error_logged(out(sc), out0(sc), self.command(sc)))), Im(L(msg) == 0, out(sc) == out0(sc)))

    def on_exit(self, sc):
        return [('a message is written first', self.logged(sc))]

    def post(self, sc):
        return failed(sc) + [('a message is written', self.logged(sc)), only_set(*codes(sc), ERROR_CODE)]


@contract(AI + 'error', 'C12 C21', nparams=2)
class _(Err):
    loops = (Loop(_er),)

    def command(self, sc):
        return sc.old(1).addr


@contract(AI + 'error', 'C12 C21', nparams=1)
class _(Err):
    def command(self, sc):
        return M(sc, True).cmd


# ------------------------------------------------------------------ mandatory options
def missing(sc, store, cmd, k):
    """the k'th option of the command is mandatory and has no value"""
    o = RA.at(SEL(sc.H('CommandData', 'options'), cmd), k)
    return A(N(SEL(sc.H('OptionData', 'optional'), o)), store.count(SEL(sc.H('OptionData', 'value_id'), o)) == 0)


def all_given(sc, store, cmd, n=None):
    k = z3.Int('k!')
    opts = SEL(sc.H('CommandData', 'options'), cmd)
    return forall([k], Im(A(0 <= k, k < (RA.len(opts) if n is None else n)), N(missing(sc, store, cmd, k))), [RA.at(opts, k)])


class Checks(Failing):
    """a check that reports an error if it fails"""

    def exits(self, sc):
        m = M(sc, True)
        return A(m.setting('auto_exit'), N(self.ok(sc))), m.setting('error_exit_code')

    def on_exit(self, sc):
        return [('a message is written first', self.logged(sc))]

    def post(self, sc):
        return [('true iff the check holds', sc.result == self.ok(sc))] + \
            [('on failure: ' + n, Im(N(sc.result), f)) for n, f in failed(sc) + [('a message is written', self.logged(sc)), only_set(*codes(sc), ERROR_CODE)]] + \
            [('otherwise nothing changes', Im(sc.result, self.same(sc)))]

    def same(self, sc):
        return untouched(sc)


def untouched(sc):
    """since the function was entered"""
    f = getattr(sc, 'fsc', None) or sc
    m0, m = M(f, True), M(sc)
    return A(m.state == m0.state, same_iter(m, m0), out(sc) == out0(f), sc.H(P, 'm_result_code') == f.OH(P, 'm_result_code'),
             sc.H(P, 'm_unprocessed_arguments') == f.OH(P, 'm_unprocessed_arguments'))


def _hm(sc):
    m = M(sc)
    return [('given so far', all_given(sc, m.store_of(sc.fsc.arg(0).addr), sc.fsc.arg(1).addr, sc.i)), ('nothing changed', untouched(sc))]


@contract(AI + 'has_all_mandatory_options', 'C12', nparams=2)
class _(Checks):
    loops = (Loop(_hm), Loop(lambda sc: []))

    def requires(self, sc):
        return M(sc).inv() + [('a finished command', USABLE(sc.arg(1).addr)), ('ordered by id', M(sc).store_of(sc.arg(0).addr).sorted())]

    def ok(self, sc):
        return all_given(sc, M(sc, True).store_of(sc.old(0).addr), sc.old(1).addr)

    def logged(self, sc):
        return error_logged(out(sc), out0(sc), sc.old(1).addr)


def _hm1(sc):
    m, j = M(sc), z3.Int('j!')
    i = sc.local('u64', 1)
    return [('given from there on', A(0 <= i, i <= m.n, forall([j], Im(A(i <= j, j < m.n), all_given(sc, m.store(j), m.cmd_of(j))), [m.p(j)]))), ('nothing changed', untouched(sc))]


def incomplete(m, sc, j):
    return N(all_given(sc, m.store(j), m.cmd_of(j)))


def all_given_from(sc, m, first):
    j = z3.Int('r!')
    return forall([j], Im(A(first <= j, j < m.n), all_given(sc, m.store(j), m.cmd_of(j))), [m.p(j)])


@contract(AI + 'has_all_mandatory_options', 'C12', nparams=1)
class _(Checks):
    loops = (Loop(_hm1),)

    def ok(self, sc):
        return all_given_from(sc, M(sc, True), sc.old(0))

    def logged(self, sc):
        m, j = M(sc, True), z3.Int('r!')
        return A(KIND(out(sc)) == IS_ERROR, L(MSG(out(sc))) > 0, PREV(out(sc)) == out0(sc),
                 N(forall([j], Im(A(sc.old(0) <= j, j < m.n, incomplete(m, sc, j)), out(sc) != ERR(out0(sc), m.cmd_of(j), MSG(out(sc)))), [m.p(j)])))


# ------------------------------------------------------------------ the end of the command line
def subs(sc, p, old=False):
    return SEL((sc.OH if old else sc.H)(P, 'm_commands'), p)


@contract(AI + 'check_argument_and_option_counts', 'C12')
class _(Failing):
    fields = ('m_iterator', 'm_state')
    loops = (Loop(lambda sc: _set_codes(sc, SUCCESS)),)

    def ok(self, sc):
        """all mandatory options, the subcommand if one is required and the arguments were given"""
        m = M(sc, True)
        req = sc.oh('CommandData', 'require_subcommand', m.cmd)
        return A(all_given_from(sc, m, 0), Im(req.val, RA.len(subs(sc, m.back, True)) > 0), complete(m))

    def exits(self, sc):
        m = M(sc, True)
        return A(m.setting('auto_exit'), N(self.ok(sc))), m.setting('error_exit_code')

    def on_exit(self, sc):
        return [('a message is written first', self.logged(sc))]

    def logged(self, sc):
        m, j = M(sc, True), z3.Int('r!')
        return A(KIND(out(sc)) == IS_ERROR, L(MSG(out(sc))) > 0, PREV(out(sc)) == out0(sc),
                 N(forall([j], Im(A(0 <= j, j < m.n), out(sc) != ERR(out0(sc), m.cmd_of(j), MSG(out(sc)))), [m.p(j)])))

    def post(self, sc):
        m0, m = M(sc, True), M(sc)
        return [('true iff the command line is complete', sc.result == self.ok(sc))] + \
            [('on failure: ' + n, Im(N(sc.result), f)) for n, f in failed(sc) + [('a message is written', self.logged(sc)), only_set(*codes(sc), ERROR_CODE)]] + \
            [('on success: ' + n, Im(sc.result, f)) for n, f in [
                ('every result says so', all_codes(sc, SUCCESS)), ('the parser is done', m.state == DONE), ('nothing is written', out(sc) == out0(sc)),
                ('the arguments stay', A(same_iter(m, m0), sc.H(P, 'm_unprocessed_arguments') == sc.OH(P, 'm_unprocessed_arguments'))), only_set(*codes(sc), SUCCESS)]]


def _set_codes(sc, code):
    m = M(sc)
    c, c0 = sc.H(P, 'm_result_code'), sc.fsc.OH(P, 'm_result_code')
    j = z3.Int('j!')
    return [('the results so far', forall([j], Im(A(0 <= j, j < sc.i), SEL(c, m.p(j)) == code), [m.p(j)])), only_set(c, c0, code)]


# ------------------------------------------------------------------ initial values
SH = z3.ArraySort(Addr, Str.sort)
IH = z3.ArraySort(Addr, IntS)
# the number of options with an initial value and a given value id among the first n
INITS = z3.Function('inits', RA.sort, IH, SH, IntS, IntS, IntS)
_io, _ih, _is, _ik, _in = z3.Const('o', RA.sort), z3.Const('h', IH), z3.Const('s', SH), z3.Int('q'), z3.Int('n')


def gives(o, h, s, k, i):
    x = RA.at(o, i)
    return A(SEL(h, x) == k, L(SEL(s, x)) > 0)


INIT_DEFS = [('none at first', forall([_io, _ih, _is, _ik], INITS(_io, _ih, _is, _ik, 0) == 0, [INITS(_io, _ih, _is, _ik, 0)])),
             ('one more', forall([_io, _ih, _is, _ik, _in], Im(_in >= 0, INITS(_io, _ih, _is, _ik, _in + 1) == INITS(_io, _ih, _is, _ik, _in) +
                                 z3.If(gives(_io, _ih, _is, _ik, _in), 1, 0)), [(INITS(_io, _ih, _is, _ik, _in), RA.at(_io, _in))])),
             ('not negative', forall([_io, _ih, _is, _ik, _in], Im(_in >= 0, INITS(_io, _ih, _is, _ik, _in) >= 0), [INITS(_io, _ih, _is, _ik, _in)]))]


@lemma('numbers of initial values are not negative (induction step)', 'C08')
def _():
    return [_in >= 0, INITS(_io, _ih, _is, _ik, _in) >= 0, INIT_DEFS[1][1], touch(RA.at(_io, _in))], INITS(_io, _ih, _is, _ik, _in + 1) >= 0


def initials(sc, s0, s1, cmd, n):
    """s1 is s0 and the initial values of the first n options of the command"""
    o, h, s = SEL(sc.H('CommandData', 'options'), cmd), sc.H('OptionData', 'value_id'), sc.H('OptionData', 'initial_value')
    aid = sc.H('OptionData', 'argument_id')
    q, i, j = z3.Ints('v! w! x!')
    x = RA.at(o, i)
    k = SEL(h, x)
    p = s0.count(k) + INITS(o, h, s, k, i)
    return [('ordered by id', s1.sorted()),
            ('as many more', forall([q], s1.count(q) == s0.count(q) + INITS(o, h, s, q, n), [s1.lb(q)])),
            ('earlier values stay', forall([q, j], Im(A(0 <= j, j < s0.count(q)), s1.of(q, j) == s0.of(q, j)), [s1.of(q, j)])),
            ('each option that has one gives its initial value', A(forall([i], Im(A(0 <= i, i < n, L(SEL(s, x)) > 0), p < s1.count(k)), [x]),
                forall([i], Im(A(0 <= i, i < n, L(SEL(s, x)) > 0), A(s1.text(k, p) == SEL(s, x), s1.arg(k, p) == SEL(aid, x))), [x])))]


def _iv(sc):
    f = sc.fsc
    m = M(f, True)
    T_ = sc.T(P, 'm_values')
    s1 = impl.Store(SEL(sc.H(P, 'm_values'), m.back), T_)
    return initials(sc, m.store_of(m.back), s1, m.cmd, sc.i) + [('other results stay', same_elsewhere(sc.H(P, 'm_values'), f.OH(P, 'm_values'), m.back))]


@contract(AI + 'append_initial_values', 'C08 C09 C13')
class _(Mach):
    loops = (Loop(_iv),)

    def axioms_at_entry(self, sc):
        return INIT_DEFS + impl.order_facts(sc.T(P, 'm_values'))

    def modifies(self, sc):
        return [obj_field(P, 'm_values', M(sc, True).back)]

    def post(self, sc):
        m0, m = M(sc, True), M(sc)
        return initials(sc, m0.store_of(m0.back), m.store_of(m0.back), m0.cmd, RA.len(SEL(sc.H('CommandData', 'options'), m0.cmd)))


# ------------------------------------------------------------------ looking ahead
@contract(AI + 'count_arguments', 'C07')
class _(Mach):
    """what it counts is checked by bounded runs; proved: it changes nothing, and is safe"""
    loops = (Loop(lambda sc: []), Loop(lambda sc: []))

    def post(self, sc):
        return []


@contract(AI + 'update_arguments', 'C02 C07 C22')
class _(Mach):
    fields = ('m_iterator', 'm_argument_counter')

    def post(self, sc):
        m0, m, new = M(sc, True), M(sc), sc.old(0)
        t0, a0, b0 = tokens(m0)
        t, a, b = tokens(m)
        some = RS.len(new) > 0
        return [('no new arguments: nothing changes', Im(N(some), A(same_iter(m, m0), sc.I.equal(m.counter, m0.counter)))),
                ('the same syntax', t == t0)] + \
            [('options with one prefix: ' + n, Im(A(some, t == 0), f)) for n, f in IT.inserted(*a, *a0, new)] + \
            [('standard options: ' + n, Im(A(some, t == 1), f)) for n, f in IT.spliced(*b, *b0, new)]


# ------------------------------------------------------------------ user callbacks
FN = TOpaque('function')
VALUES = impl._store_type()
CALL = z3.Function('log_call', LOG.sort, FN.sort, Addr, Str.sort, VALUES.sort, LOG.sort)       # function, what for, text, the values at the time
AT_CALL = z3.Function('log_values', LOG.sort, VALUES.sort)
CALLBACKS = 'assumption: user callbacks change the parser only through their argument: the values of results, and new_arguments; and write none of its messages'


TEXTS = 'assumption: a callback that gives a text gives the same one each time, throws nothing and changes nothing'
FTEXT = z3.Function('text_of_callback', FN.sort, Str.sort)


def text_callback(I, f):
    I.assumed.add(TEXTS)
    I.oblige('a callback that is called exists', lib.has_fn(f), 'safety')
    return FTEXT(f)


def user_callback(I, o, args, fn, e):
    """Whatever the user does: the values of the results change, arguments are added, an exception is thrown, the process exits."""
    from engine import CppExit, CppThrow
    if not args:
        return text_callback(I, I.load(o))
    f, v = I.load(o), I.load(args[0])
    view = v.f['view']
    view = next(iter(view.f.values())) if not isinstance(view, Ent) else view.addr
    p = v.f['builder'].f['m_impl']
    I.assumed.add(CALLBACKS)
    I.oblige('a callback that is called exists', lib.has_fn(f), 'safety')
    out = Loc(HeapRoot('Ghost', 'out', null))
    l0, s = I.load(out), I.load(Loc(HeapRoot(P, 'm_values', p)))
    l = CALL(l0, f, view, v.f['value'], s)
    I.assume(A(KIND(l) == IS_CALL, PREV(l) == l0, AT_CALL(l) == s))
    how = I.fork(3)
    for ent, field in ((P, 'm_values'), (P, 'm_removed_values')) + ((('Ghost', 'out'),) if how else ()):
        I.note_heap(ent, field)
        I.heap[(ent, field)] = z3.Const(I.fresh_name('H!' + ent + field), z3.ArraySort(Addr, I.ent_field(ent, field).sort))
    if how:
        I.assume(KIND(I.load(out)) == IS_USER)
        if how == 1:
            raise CppThrow('user callback')
        raise CppExit(z3.Const(I.fresh_name('exit_code'), IntS))
    I.store(out, l)
    x = z3.Const('p!', Addr)
    I.assume(forall([x], impl.Store(SEL(I.heap[(P, 'm_values')], x), VALUES).sorted(), [SEL(I.heap[(P, 'm_values')], x)]))
    new = args[0].ext('f', 'new_arguments')
    I.store(new, I.load(I.fresh(I.loc_type(new), 'new_arguments')))
    return None


USER_CALLBACK[:] = [user_callback]


# ------------------------------------------------------------------ options
NORMAL, HELP, STOP, EXIT, LAST_ARGUMENT, LAST_OPTION = range(6)                  # OptionType
O_NORMAL, O_LAST_ARGUMENT, O_STOP, O_EXIT, O_ERROR = range(5)                    # OptionResult
OP_NONE, OP_ASSIGN, OP_APPEND, OP_CLEAR = range(4)


def ENUMS(sc):
    x = z3.Const('x!e', Addr)
    t, o = sc.H('OptionData', 'type'), sc.H('OptionData', 'operation')
    return [('options have one of the declared types and operations',
             A(forall([x], A(0 <= SEL(t, x), SEL(t, x) <= LAST_OPTION), [SEL(t, x)]), forall([x], A(0 <= SEL(o, x), SEL(o, x) <= OP_CLEAR), [SEL(o, x)])))]


class Opt:
    def __init__(self, sc, addr, old=True):
        self.sc, self.addr = sc, addr

    def __getattr__(self, f):
        return SEL(self.sc.H('OptionData', f), self.addr)

    def takes_value(self):
        return A(O(self.operation == OP_ASSIGN, self.operation == OP_APPEND), L(self.constant) == 0)


def value_available(m):
    t, a, b = tokens(m)
    g = lambda x: O(A(x[2] > 0, x[3] != IT.NPOS), A(x[2] > 1, x[3] == IT.NPOS))
    return z3.If(t == 0, g(a), g(b))


def is_next_value(m, text):
    """the text is the value that next_value delivers"""
    t, a, b = tokens(m)
    g = lambda x: A(Im(x[3] != IT.NPOS, Str.eqS(text, Str.slice(RS.at(x[0], x[1]), x[3], L(RS.at(x[0], x[1]))))),
                    Im(x[3] == IT.NPOS, Str.eqS(text, RS.at(x[0], x[1] + 1))))
    return A(Im(t == 0, g(a)), Im(t == 1, g(b)))


def pick(sc, c, a, b):
    """if c then a else b, without the choice where it is known"""
    c = z3.simplify(c)
    ids = {f.get_id() for f in sc.I.pc}
    if z3.is_true(c) or c.get_id() in ids:
        return a
    if z3.is_false(c) or z3.Not(c).get_id() in ids:
        return b
    if not sc.I.feasible([c]):
        return b
    if not sc.I.feasible([z3.Not(c)]):
        return a
    return z3.If(c, a, b)


def before(sc, l):
    for f in sc.I.pc:               # as in: l is a help text after ...
        if z3.is_eq(f) and f.arg(0).eq(l) and f.arg(1).num_args() and f.arg(1).decl().eq(HELPED):
            return f.arg(1).arg(0)
    l = z3.simplify(l)
    return l.arg(0) if l.num_args() and l.decl().eq(CALL) else PREV(l)


def values_at(l):
    l = z3.simplify(l)
    return l.arg(4) if l.num_args() and l.decl().eq(CALL) else AT_CALL(l)


class MayCall(Failing):
    may_throw = True

    def may_exit(self, sc):
        return z3.BoolVal(True)

    def on_throw(self, sc):
        return [('only user code throws', KIND(out(sc)) == IS_USER)]

    def on_exit(self, sc):
        m = M(sc, True)
        return [('the parser exits on errors if so configured', O(KIND(out(sc)) == IS_USER, A(m.setting('auto_exit'), sc.exit_code == m.setting('error_exit_code'),
                                                                                         KIND(out(sc)) == IS_ERROR, L(MSG(out(sc))) > 0)))]

    def modifies(self, sc):
        return Failing.modifies(self, sc) + [('heapfield', P, 'm_values'), ('heapfield', P, 'm_removed_values')]


def _stop(sc):
    m, opt = M(sc), sc.fsc.arg(0).addr
    j = z3.Int('j!')
    return _set_codes(sc, STOPPED) + [('at the option', forall([j], Im(A(0 <= j, j < sc.i), m.pf('m_stop_option', j) == opt), [m.p(j)]))]


@contract(AI + 'process_option', 'C08 C12 C21 C22', nparams=2)
class _(MayCall):
    fields = ('m_iterator', 'm_state', 'm_argument_counter')
    loops = (Loop(_stop), Loop(_stop))
    heavy = True
    cost = 100

    def assumes(self, sc):
        return ENUMS(sc)

    def modifies(self, sc):
        return MayCall.modifies(self, sc) + [('heapfield', P, 'm_stop_option')]

    def post(self, sc):
        m0, m, o = M(sc, True), M(sc), Opt(sc, sc.old(0).addr)
        res, arg = sc.result.first, sc.result.second
        err = res == O_ERROR
        r = [('an error iff there is no value where one is needed', err == no_value(o, m0)), ('on error: the process goes on', Im(err, N(m0.setting('auto_exit'))))]
        r += [('on error: ' + n, Im(err, f)) for n, f in no_value_error(sc, m0)]
        ok = N(err)
        r += option_effect(sc, m0, o, ok, arg, out(sc))
        t = o.type
        stop = O(t == HELP, t == EXIT, t == STOP)
        r += [('its effect', Im(ok, res == z3.If(O(t == HELP, t == EXIT), O_EXIT, z3.If(t == STOP, O_STOP, z3.If(t == LAST_ARGUMENT, O_LAST_ARGUMENT, O_NORMAL))))),
              ('the next state', Im(ok, m.state == z3.If(t == NORMAL, m0.state, z3.If(t == LAST_OPTION, ARGS_ONLY, DONE)))),
              ('every result is stopped at the option', Im(A(ok, stop), stopped(sc, m0, o))),
              ('otherwise none is', Im(A(ok, N(stop)), no_codes(sc))),
              ('the same syntax', tokens(m)[0] == tokens(m0)[0]),
              ('nothing is left over yet', Im(ok, sc.H(P, 'm_unprocessed_arguments') == sc.OH(P, 'm_unprocessed_arguments')))]
        return r


def no_value(o, m0):
    return A(o.takes_value(), N(value_available(m0)))


def no_value_error(sc, m0):
    return failed(sc, True) + [('a message is written', error_logged(out(sc), out0(sc), m0.cmd)), only_set(*codes(sc), ERROR_CODE),
                               ('values stay', sc.H(P, 'm_values') == sc.OH(P, 'm_values'))]


def no_codes(sc):
    return A(sc.H(P, 'm_result_code') == sc.OH(P, 'm_result_code'), sc.H(P, 'm_stop_option') == sc.OH(P, 'm_stop_option'))


def stopped(sc, m0, o):
    j = z3.Int('j!')
    return forall([j], Im(A(0 <= j, j < m0.n), A(SEL(sc.H(P, 'm_result_code'), m0.p(j)) == STOPPED, SEL(sc.H(P, 'm_stop_option'), m0.p(j)) == o.addr)), [m0.p(j)])


def option_effect(sc, m0, o, ok, arg, l):
    """what is written and called (l: the log after it), and what happens to the values"""
    gcb = m0.setting('option_callback')
    hc, gc = lib.has_fn(o.callback), lib.has_fn(gcb)
    l2 = pick(sc, o.type == HELP, before(sc, l), l)
    l1 = pick(sc, gc, before(sc, l2), l2)
    r = [('help is written last', Im(A(ok, o.type == HELP), A(KIND(l) == IS_HELP, l == HELPED(l2, m0.cmd)))),
         ("then the parser's callback is called", Im(A(ok, gc), l2 == CALL(l1, gcb, o.addr, arg, values_at(l2)))),
         ("first the callback of the option", Im(A(ok, hc), l1 == CALL(out0(sc), o.callback, o.addr, arg, values_at(l1)))),
         ('nothing else', Im(A(ok, N(hc)), l1 == out0(sc)))]
    # the values, when the first callback was called
    vs = pick(sc, hc, values_at(l1), pick(sc, gc, values_at(l2), SEL(sc.H(P, 'm_values'), m0.back)))
    s0, s1 = Store(SEL(sc.OH(P, 'm_values'), m0.back), VALUES), Store(sc.I.named(vs, 'then'), VALUES)
    text = z3.If(o.takes_value(), arg, o.constant)
    k, aid = o.value_id, o.argument_id
    r += [('ASSIGN: ' + n, Im(A(ok, o.operation == OP_ASSIGN), f)) for n, f in impl.assigned(s0, s1, k, text, aid)]
    r += [('APPEND: ' + n, Im(A(ok, o.operation == OP_APPEND), f)) for n, f in impl.appended(s0, s1, k, text, aid)]
    r += [('CLEAR: ' + n, Im(A(ok, o.operation == OP_CLEAR), f)) for n, f in impl.cleared(s0, s1, k)]
    return r + [('NONE: values stay', Im(A(ok, o.operation == OP_NONE), s1.v == s0.v)),
                ('no value: the text is empty', Im(A(ok, N(o.takes_value())), L(arg) == 0)),
                ('the text is the next value', Im(A(ok, o.takes_value()), is_next_value(m0, arg)))]


def sets_codes(sc, *cs):
    """only these codes are given"""
    a = z3.Const('o!', Addr)
    c, c0 = codes(sc)
    return forall([a], O(SEL(c, a) == SEL(c0, a), *[SEL(c, a) == x for x in cs]), [SEL(c, a)])


def current(m):
    t, a, b = tokens(m)
    return z3.If(t == 0, IT.tok(a[0], a[1]), IT.tok(b[0], b[1]))


def is_current(m):
    t, a, b = tokens(m)
    return A(Im(t == 0, a[2] > 0), Im(t == 1, b[2] > 0))


def data(sc, k):
    """the k'th alternative of what an iteration step is about"""
    return sc.result.f['1'].alts[k]


def about(sc, k=0, addr=None):
    v = sc.result.f['1']
    return v.tag == 0 if k == 0 else A(v.tag == k, v.alts[k] == addr)


def result_is(sc, code, k=0, addr=None, text=None):
    f = [sc.result.f['0'] == code, about(sc, k, addr)]
    if text is not None:
        f.append(Str.eqS(sc.result.f['2'], text))
    return A(*f)


def stays(sc, m, m0, fields=()):
    """the parser and its results stay as they were"""
    return A(m.state == m0.state, m.cmd == m0.cmd, RA.eqS(m.P, m0.P), no_codes(sc), sc.H(P, 'm_values') == sc.OH(P, 'm_values'))


def pushed(sc, m0, text):
    """the text is the last unprocessed argument"""
    u0, u = unproc(sc, m0, True), unproc(sc, m0)
    j = z3.Int('j!')
    return A(RS.len(u) == RS.len(u0) + 1, RS.at(u, RS.len(u0)) == text, forall([j], Im(A(0 <= j, j < RS.len(u0)), RS.at(u, j) == RS.at(u0, j)), [RS.at(u, j)]))


def active_parent(m, i):
    """i is the last parent that allows several subcommands"""
    j = z3.Int('i!')
    return A(0 <= i, i < m.n - 1, m.multi(m.cmd_of(i)), forall([j], Im(A(i < j, j < m.n - 1), N(m.multi(m.cmd_of(j)))), [m.p(j)]))


def no_parent(m):
    j = z3.Int('i!')
    return forall([j], Im(A(0 <= j, j < m.n - 1), N(m.multi(m.cmd_of(j)))), [m.p(j)])


class After:
    """The state after a step, with the list of results and the current command as before it."""

    def __init__(self, sc, m0):
        self.m = M(sc)
        self.m0 = m0

    def store(self, i):
        return self.m.store_of(self.m0.p(i))

    def __getattr__(self, f):
        return getattr(self.m0 if f in ('n', 'P', 'p', 'back', 'cmd', 'cmd_of') else self.m, f)


def counts_ok(sc, m0, counter):
    """what check_argument_and_option_counts checks, after a step"""
    x = After(sc, m0)
    req = sc.oh('CommandData', 'require_subcommand', m0.cmd)
    return A(all_given_from(sc, x, 0), Im(req.val, RA.len(subs(sc, m0.back, True)) > 0)), complete(x)


def looked_up(sc, m0, flag):
    x = PD.index_of_cmd(sc, m0.cmd)
    return PD.lookup(sc, x, sc.OH('OptionData', 'argument'), flag, m0.setting('allow_abbreviated_options'), m0.setting('case_insensitive'))


def option_step(sc, m0, flag):
    """the result of a flag"""
    m = M(sc)
    o = Opt(sc, sc.I.named_addr(looked_up(sc, m0, flag), 'option'))
    code, text = sc.result.f['0'], sc.result.f['2']
    t = o.type
    known = o.addr != null
    ignored = A(m0.setting('ignore_undefined_options'), strings.pre_cs(current(m0), flag))
    err = A(known, no_value(o, m0))
    late = A(known, N(err), t == LAST_ARGUMENT, code == R_ERROR)
    ok = A(known, N(err))
    fine = A(ok, N(late))
    given, full = counts_ok(sc, m0, m.counter)
    r = [('an error is not reported by exiting', Im(code == R_ERROR, N(m0.setting('auto_exit')))),
         ('it is in error exactly when it returns one', Im(m0.state != ERROR, (m.state == ERROR) == (code == R_ERROR))),
         ('on error: every result says so', Im(code == R_ERROR, A(all_codes(sc, ERROR_CODE), m.state == ERROR, RA.eqS(m.P, m0.P)))),
         ('on error: a message is the last that is written', Im(code == R_ERROR, A(KIND(out(sc)) == IS_ERROR, L(MSG(out(sc))) > 0)))]
    r += [('an unknown flag is an error or ignored', Im(N(known), code == z3.If(ignored, R_UNKNOWN, R_ERROR)))]
    r += [('unknown: ' + n, Im(A(N(known), code == R_ERROR), f)) for n, f in failed(sc, m0=m0) + [
        ('one message is written', error_logged(out(sc), out0(sc), m0.cmd)), ('nothing else', A(sc.H(P, 'm_values') == sc.OH(P, 'm_values'), about(sc)))]]
    r += [('ignored: ' + n, Im(A(N(known), ignored), f)) for n, f in [
        ('the argument is left over', pushed(sc, m0, current(m0))), ('nothing else changes', A(stays(sc, m, m0), same_iter(m, m0), sc.I.equal(m.counter, m0.counter), out(sc) == out0(sc))),
        ('what is returned', A(about(sc), text == current(m0)))]]
    r += [('an error for a missing value', Im(err, A(code == R_ERROR, about(sc, 2, o.addr))))]
    r += [('no value: ' + n, Im(err, f)) for n, f in no_value_error(sc, m0)]
    l = pick(sc, late, PREV(out(sc)), out(sc))
    arg = pick(sc, late, z3.Const('none!', Str.sort), text)
    r += [('otherwise it is processed', Im(fine, A(code == R_OPTION, about(sc, 2, o.addr))))]
    r += option_effect(sc, m0, o, fine, arg, l)
    r += [('the last argument: an error iff the command line is not complete', Im(A(ok, t == LAST_ARGUMENT),
           A(Im(late, N(A(given, full))), Im(N(late), A(given, Im(no_parent(m0), full)))))),
          ('not complete: the rest is left over', Im(late, A(*[f for _, f in copied_rest(sc, True)])))]
    stop = O(t == HELP, t == EXIT, t == STOP)
    last = A(fine, t == LAST_ARGUMENT)
    r += [('a normal option: the state stays', Im(A(fine, t == NORMAL), A(m.state == m0.state, no_codes(sc)))),
          ('the last option', Im(A(fine, t == LAST_OPTION), A(m.state == ARGS_ONLY, no_codes(sc)))),
          ('it stops: every result says so', Im(A(fine, stop), A(m.state == DONE, stopped(sc, m0, o)))),
          ('it stops: the rest is left over', Im(A(fine, stop), A(*[f for _, f in copied_rest(sc, True)]))),
          ('HELP and EXIT return only without auto_exit', Im(A(fine, O(t == HELP, t == EXIT)), N(m0.setting('auto_exit')))),
          ('the last argument: every result says success', Im(last, forall([_j], Im(A(0 <= _j, _j < m0.n), SEL(sc.H(P, 'm_result_code'), m0.p(_j)) == SUCCESS), [m0.p(_j)]))),
          ('the last argument: the parser is done', Im(A(last, no_parent(m0)), A(m.state == DONE, RA.eqS(m.P, m0.P), *[f for _, f in copied_rest(sc, True)]))),
          ('the last argument: a parent that allows several commands goes on', Im(last, forall([_j], Im(active_parent(m0, _j), A(m.state == ARGS_ONLY, m.n == _j + 1)), [m0.p(_j)])))]
    stay = N(last)
    r += [('the results stay', Im(stay, A(RA.eqS(m.P, m0.P), m.cmd == m0.cmd))),
          ('no results are made', A(m.n <= m0.n, forall([_j], Im(A(0 <= _j, _j < m.n), m.p(_j) == m0.p(_j)), [m.p(_j)])))]
    return r


_j = z3.Int('p!')


@contract(AI + 'process_option', 'C03 C12 C13 C21 C22', nparams=1)
class _(MayCall):
    fields = ('m_iterator', 'm_state', 'm_argument_counter', 'm_parsed_args', 'm_command')
    heavy = True
    cost = 100

    def assumes(self, sc):
        return ENUMS(sc)

    def requires(self, sc):
        return M(sc).inv() + [('there is a current argument', is_current(M(sc)))]

    def modifies(self, sc):
        return MayCall.modifies(self, sc) + [('heapfield', P, 'm_stop_option')]

    def on_exit(self, sc):
        return option_exit(sc, M(sc, True), sc.old(0))

    def post(self, sc):
        return option_step(sc, M(sc, True), sc.old(0))


def option_exit(sc, m0, flag):
    o = Opt(sc, looked_up(sc, m0, flag))
    l = out(sc)
    normal = A(m0.setting('auto_exit'), o.addr != null, O(o.type == HELP, o.type == EXIT), N(no_value(o, m0)), sc.exit_code == m0.setting('normal_exit_code'))
    return [('the process exits as configured', O(KIND(l) == IS_USER, normal, A(m0.setting('auto_exit'), sc.exit_code == m0.setting('error_exit_code'),
                                                                               KIND(l) == IS_ERROR, L(MSG(l)) > 0))),
            ('after the help text', Im(A(KIND(l) != IS_USER, KIND(l) != IS_ERROR, o.type == HELP), A(KIND(l) == IS_HELP, l == HELPED(PREV(l), m0.cmd))))]


# ------------------------------------------------------------------ errors reported by the user
class UserError:
    may_throw = False

    def requires(self, sc):
        return [('there is a command', A(sc.m('m_command') != null, sc.m('m_data') != null))]

    def setting(self, sc, f):
        return SEL(sc.OH('ParserSettings', f), sc.I.sub_addr(sc.om('m_data'), 'ParserData', 'parser_settings'))

    def throws(self, sc):
        return N(self.setting(sc, 'auto_exit'))

    def exits(self, sc):
        return self.setting(sc, 'auto_exit'), self.setting(sc, 'error_exit_code')

    def modifies(self, sc):
        return [OUT]

    def logged(self, sc):
        return [('a message is written first', A(KIND(out(sc)) == IS_ERROR, PREV(out(sc)) == out0(sc), out(sc) == ERR(out0(sc), sc.om('m_command'), MSG(out(sc))), self.message(sc)))]

    on_exit = on_throw = logged


@contract('argos::ParsedArgumentsImpl::error', 'C21', nparams=1)
class _(UserError):
    def message(self, sc):
        return MSG(out(sc)) == sc.old(0)


@contract('argos::ParsedArgumentsImpl::error', 'C21', nparams=2)
class _(UserError):
    def message(self, sc):
        return ends_with(MSG(out(sc)), sc.old(0))


def ends_with(s, t):
    return A(L(s) >= L(t), Str.eqS(Str.slice(s, L(s) - L(t), L(s)), t))


@contract('argos::write_error_message', 'C21 C17', nparams=4)
class _(Writes):
    verify = True
    """HelpText.cpp: the message after the name of the argument"""

    def ensures(self, sc):
        l = out(sc)
        return [('one message', A(KIND(l) == IS_ERROR, l == ERR(out0(sc), sc.arg(1).addr, MSG(l)), PREV(l) == out0(sc), ends_with(MSG(l), sc.arg(2))))]


# ------------------------------------------------------------------ commands and arguments
def old_results(sc, m, allocs):
    j = z3.Int('j!')
    return ('results were made before', forall([j], Im(A(0 <= j, j < m.n), rid(m.p(j)) >= -allocs), [m.p(j)]))


def ends_current(m, value):
    c = m.sc.I.named(current(m), 'current')
    return ends_with(c, value)


def at_end(sc, m, value):
    return [('there is a current argument', is_current(m)), ('the text is the end of it', ends_current(m, value))]


def empty_store():
    return Store(VALUES.th.emp, VALUES)


def entered(sc, m0, n, cmd):
    """a subcommand of the n'th command has become current"""
    m = M(sc)
    j = z3.Int('j!')
    new, par = m.p(n + 1), m0.p(n)
    c0, c = subs(sc, par, True), subs(sc, par)
    f = lambda x: SEL(sc.H(P, x), new)
    cnt, ix, fo, num = CO.counters(m.counter.f['m_counters']), m.counter.f['m_index'], m.counter.f['m_first_optional'], m.counter.f['m_counter']
    g = CO.Args(sc, At(cmd))
    k = z3.Int('k!')
    fixed = forall([k], Im(A(0 <= k, k < g.n - 1), g.lo(k) == g.hi(k)), [RA.at(g.a, k)])
    return [('it is the current command', A(m.n == n + 2, m.cmd == cmd)), ('the results of its parents stay', forall([j], Im(A(0 <= j, j <= n), m.p(j) == m0.p(j)), [m.p(j)])),
            ('it has new results', A(new != null, is_new(new, sc.allocs0), rid(new) >= -sc.allocs1, f('m_command') == cmd, f('m_data') == m0.data, f('m_result_code') == NO_CODE, f('m_stop_option') == null,
                                     RS.len(f('m_unprocessed_arguments')) == 0, RA.len(f('m_commands')) == 0)),
            ('they are the last of those of its parent', A(RA.len(c) == RA.len(c0) + 1, RA.at(c, RA.len(c0)) == new, forall([j], Im(A(0 <= j, j < RA.len(c0)), RA.at(c, j) == RA.at(c0, j)), [RA.at(c, j)]))),
            ('options and arguments are accepted', m.state == OPTIONS)] + \
        [('its initial values: ' + x, y) for x, y in initials(sc, empty_store(), Store(f('m_values'), VALUES), cmd, RA.len(SEL(sc.H('CommandData', 'options'), cmd)))] + \
        [('complete from the first optional argument on', Im(fixed, CO.first_optional(g, fo, g.n)))] + \
        [('its arguments: ' + x, Im(fixed, y)) for x, y in [('nothing handed out yet', A(ix == 0, num == 0))] + CO.greedy(g, cnt, g.n, fo)]


def other_values(sc, m0, but=()):
    """the values of results that existed"""
    a = z3.Const('o!', Addr)
    v, v0 = sc.H(P, 'm_values'), sc.OH(P, 'm_values')
    return forall([a], Im(A(rid(a) >= -sc.allocs0, *[a != x for x in but]), SEL(v, a) == SEL(v0, a)), [SEL(v, a)])


class Enters:
    allocates = True

    def axioms_at_entry(self, sc):
        return INIT_DEFS + impl.order_facts(VALUES)


@contract(AI + 'process_command', 'C07 C08 C13')
class _(Enters, Mach):
    fields = ('m_state', 'm_parsed_args', 'm_command', 'm_argument_counter')

    def requires(self, sc):
        m = M(sc)
        return m.inv() + at_end(sc, m, sc.arg(1)) + [old_results(sc, m, sc.allocs0), ('a finished command', A(sc.arg(0) != null, USABLE(sc.arg(0))))]

    def modifies(self, sc):
        return Mach.modifies(self, sc) + [obj_field(P, 'm_commands', M(sc, True).back)]

    def post(self, sc):
        m0 = M(sc, True)
        return entered(sc, m0, m0.n - 1, sc.old(0)) + [('what is returned', result_is(sc, R_COMMAND, 3, sc.old(0), sc.old(1)))] + [old_results(sc, M(sc), sc.allocs1)]


def named_bool(sc, f, name):
    b = z3.Bool(sc.I.fresh_name(name))
    sc.I.assume(b == f)
    return b


def argument_step(sc, m0, value):
    m = M(sc)
    j = z3.Int('p!')
    code, text = sc.result.f['0'], sc.result.f['2']
    full = complete(m0)
    sib = named_bool(sc, A(full, N(forall([j], Im(active_parent(m0, j), m0.command(j, value) == null), [m0.p(j)]))), 'sibling')
    here = N(sib)
    r = [('an error is not reported by exiting', Im(code == R_ERROR, N(m0.setting('auto_exit')))),
         ('on error: every result says so', Im(code == R_ERROR, A(all_codes(sc, ERROR_CODE), m.state == ERROR, RA.eqS(m.P, m0.P)))),
         ('on error: one message is written', Im(code == R_ERROR, A(KIND(out(sc)) == IS_ERROR, L(MSG(out(sc))) > 0, PREV(out(sc)) == out0(sc)))),
         ('on error: values stay', Im(code == R_ERROR, sc.H(P, 'm_values') == sc.OH(P, 'm_values')))]
    r += [('on error: ' + n, Im(code == R_ERROR, f)) for n, f in copied_rest(sc, m0=m0)]
    # a command of a parent
    r += [('the name of a command of a parent leads to it, if no option is missing', forall([j], Im(A(sib, active_parent(m0, j)), z3.If(all_given_from(sc, m0, j + 1), code == R_COMMAND, code == R_ERROR)), [m0.p(j)]))]
    i = sc.I.named_addr_int(m.n - 2, 'parent')
    r += [('it is the last parent that allows it', Im(A(sib, code == R_COMMAND), A(active_parent(m0, i), result_is(sc, R_COMMAND, 3, m0.command(i, value), value), out(sc) == out0(sc))))]
    r += [('a command of a parent: ' + n, Im(A(sib, code == R_COMMAND), f)) for n, f in entered(sc, m0, i, m0.command(i, value))]
    r += [('a command of a parent: other values stay', Im(A(sib, code == R_COMMAND), other_values(sc, m0)))]
    # an argument
    c, ix = CO.counters(m0.counter.f['m_counters']), m0.counter.f['m_index']
    k = z3.Int('k!')
    room = N(forall([k], Im(A(ix <= k, k < c.n), c.cnt(k) == 0), [c.raw(k)]))
    ign = m0.setting('ignore_undefined_arguments')
    r += [('otherwise it is an argument, ignored, or an error', Im(here, code == z3.If(room, R_ARGUMENT, z3.If(ign, R_UNKNOWN, R_ERROR)))),
          ('the results stay', Im(here, A(RA.eqS(m.P, m0.P), m.cmd == m0.cmd)))]
    got = A(here, code == R_ARGUMENT)
    r += [('the state stays', Im(O(got, code == R_UNKNOWN), A(m.state == m0.state, no_codes(sc), sc.H(P, 'm_unprocessed_arguments') == sc.OH(P, 'm_unprocessed_arguments') if False else z3.BoolVal(True))))]
    a = Arg(sc, sc.result.f['1'].alts[1])
    r += [('the first argument that still takes values', forall([k], Im(A(got, ix <= k, k < c.n, c.cnt(k) > 0, forall([_q], Im(A(ix <= _q, _q < k), c.cnt(_q) == 0), [c.raw(_q)])),
                                                                              a.addr == c.arg(k)), [c.raw(k)])),
          ('what is returned', Im(got, A(sc.result.f['1'].tag == 1, Str.eqS(text, value), a.addr != null)))]
    gcb = m0.setting('argument_callback')
    hc, gc = lib.has_fn(a.callback), lib.has_fn(gcb)
    l2 = out(sc)
    l1 = pick(sc, gc, before(sc, l2), l2)
    r += [("then the parser's callback is called", Im(A(got, gc), l2 == CALL(l1, gcb, a.addr, value, values_at(l2)))),
          ("first the callback of the argument", Im(A(got, hc), l1 == CALL(out0(sc), a.callback, a.addr, value, values_at(l1)))),
          ('nothing else', Im(A(got, N(hc)), l1 == out0(sc)))]
    vs = pick(sc, hc, values_at(l1), pick(sc, gc, values_at(l2), SEL(sc.H(P, 'm_values'), m0.back)))
    s0, s1 = Store(SEL(sc.OH(P, 'm_values'), m0.back), VALUES), Store(sc.I.named(vs, 'then'), VALUES)
    r += [('the value is stored first: ' + n, Im(got, f)) for n, f in impl.appended(s0, s1, a.value_id, value, a.argument_id)]
    r += [('an argument: nothing is left over', Im(got, sc.H(P, 'm_unprocessed_arguments') == sc.OH(P, 'm_unprocessed_arguments')))]
    ig = A(here, code == R_UNKNOWN)
    r += [('ignored: ' + n, Im(ig, f)) for n, f in [
        ('the argument is left over', pushed(sc, m0, value)), ('nothing else changes', A(same_iter(m, m0), out(sc) == out0(sc), sc.H(P, 'm_values') == sc.OH(P, 'm_values'))),
        ('what is returned', A(about(sc), Str.eqS(text, value)))]]
    return r


_q = z3.Int('q!')


class Arg:
    def __init__(self, sc, addr):
        self.sc, self.addr = sc, addr

    def __getattr__(self, f):
        return SEL(self.sc.H('ArgumentData', f), self.addr)


@contract(AI + 'process_argument', 'C07 C08 C12 C13 C21 C22')
class _(Enters, MayCall):
    fields = ('m_iterator', 'm_state', 'm_argument_counter', 'm_parsed_args', 'm_command')
    heavy = True
    cost = 60

    def requires(self, sc):
        m = M(sc)
        return m.inv() + at_end(sc, m, sc.arg(0)) + [old_results(sc, m, sc.allocs0)]

    def assumes(self, sc):
        m = M(sc)
        return [('fewer than 2^64 arguments are counted', m.counter.f['m_counter'] < CO.SIZE_MAX)]

    def modifies(self, sc):
        return MayCall.modifies(self, sc) + [('heapfield', P, 'm_commands')]

    def post(self, sc):
        return argument_step(sc, M(sc, True), sc.old(0)) + [old_results(sc, M(sc), sc.allocs1)]


# ------------------------------------------------------------------ the next step
def std_next(v):
    """(the text, whether there is one, the view afterwards) of next() with the standard syntax"""
    all_, off, ln, pos = v
    t = IT.tok(all_, off)
    inside = A(pos != 0, pos < L(t), at(t, 1) != IT.DASH)
    o = off + z3.If(pos != 0, 1, 0)
    u = IT.tok(all_, o)
    e = IT.first_eq(u)
    long_ = A(L(u) > 2, at(u, 0) == IT.DASH)
    more = O(inside, o < RS.len(all_))
    text = z3.If(inside, Str.push(Str.push(Str.emp, IT.DASH), at(t, pos)),
                 z3.If(N(long_), u, z3.If(at(u, 1) != IT.DASH, Str.slice(u, 0, 2), z3.If(e == L(u), u, Str.slice(u, 0, e + 1)))))
    pos1 = z3.If(inside, z3.If(pos + 1 == L(t), IT.NPOS, pos + 1),
                 z3.If(o >= RS.len(all_), 0, z3.If(N(long_), IT.NPOS, z3.If(at(u, 1) != IT.DASH, 2, z3.If(e == L(u), IT.NPOS, e + 1)))))
    off1 = z3.If(inside, off, o)
    return text, more, (all_, off1, RS.len(all_) - off1, pos1)


def opt_next(v, prefix):
    all_, off, ln, pos = v
    o = off + z3.If(pos != 0, 1, 0)
    u = IT.tok(all_, o)
    e = IT.first_eq(u)
    cut = A(L(u) > 2, at(u, 0) == prefix, e < L(u))
    more = o < RS.len(all_)
    return z3.If(cut, Str.slice(u, 0, e + 1), u), more, (all_, o, RS.len(all_) - o, z3.If(N(more), 0, z3.If(cut, e + 1, IT.NPOS)))


def next_value(v):
    all_, off, ln, pos = v
    t = IT.tok(all_, off)
    same = O(ln == 0, pos != IT.NPOS)
    more = O(A(ln > 0, pos != IT.NPOS), A(ln > 1, pos == IT.NPOS))
    off1 = z3.If(same, off, off + 1)
    return z3.If(pos != IT.NPOS, Str.slice(t, pos, L(t)), IT.tok(all_, off + 1)), more, \
        (all_, off1, RS.len(all_) - off1, z3.If(ln == 0, pos, z3.If(more, IT.NPOS, 0)))


class Iter:
    """An iterator over the command line, in the same syntax as another."""

    def __init__(self, it, a, b):
        self.f = {'iterator': self}
        v = it.f['iterator']
        self.tag, self.of = v.tag, v
        g = lambda r, x: IterRec({'m_all_args': x[0], 'm_args': IterSpan(x[1], x[2]), 'm_pos': x[3], **({'m_prefix': r.f['m_prefix']} if 'm_prefix' in r.f else {})})
        self.alts = [g(v.alts[0], a), g(v.alts[1], b)]


class IterRec:
    def __init__(self, f):
        self.f = f


class IterSpan:
    def __init__(self, off, len_):
        self.off, self.len = off, len_


def name(sc, t, what):
    c = z3.Const(sc.I.fresh_name(what), t.sort())
    sc.I.assume(c == t)
    return c


def fetched(sc, m0):
    """the state of the parser when the next text has been taken from the command line; the text; whether there is one"""
    t, a, b = tokens(m0)
    free = m0.state == OPTIONS
    x, y, z, w = opt_next(a, IT.prefix(m0.it)), std_next(b), next_value(a), next_value(b)
    sel = lambda i: z3.If(t == 0, z3.If(free, x[i], z[i]), z3.If(free, y[i], w[i]))
    both = lambda p, q, k: tuple(name(sc, z3.If(free, u, v), f'{k}.{n}') if not u.eq(v) else u for n, u, v in zip(('all', 'off', 'len', 'pos'), p, q))
    mid = M(sc, True)
    mid.it = Iter(m0.it, both(x[2], z[2], 'one'), both(y[2], w[2], 'std'))
    return mid, name(sc, sel(0), 'text'), sel(1)


def unchanged(sc, m0):
    m = M(sc)
    return A(sc.I.equal(m.counter, m0.counter), stays(sc, m, m0), out(sc) == out0(sc), sc.H(P, 'm_unprocessed_arguments') == sc.OH(P, 'm_unprocessed_arguments'))


@contract(AI + 'next', 'C01 C03 C07 C08 C12 C13 C21 C22')
class _(Enters, MayCall):
    fields = ('m_iterator', 'm_state', 'm_argument_counter', 'm_parsed_args', 'm_command')
    heavy = True
    cost = 100

    def requires(self, sc):
        m = M(sc)
        return m.inv() + [old_results(sc, m, sc.allocs0)]

    def assumes(self, sc):
        m = M(sc)
        return ENUMS(sc) + [('fewer than 2^64 arguments are counted', m.counter.f['m_counter'] < CO.SIZE_MAX)]

    def modifies(self, sc):
        return MayCall.modifies(self, sc) + [('heapfield', P, 'm_commands'), ('heapfield', P, 'm_stop_option')]

    def on_throw(self, sc):
        return [('after an error, or user code throws', O(M(sc, True).state == ERROR, KIND(out(sc)) == IS_USER))]

    def cases(self, sc, m0):
        mid, text, more = fetched(sc, m0)
        free = m0.state == OPTIONS
        go = A(N(m0.state == ERROR), N(m0.state == DONE))
        is_opt = A(free, L(text) >= 2, at(text, 0) == z3.If(m0.setting('option_style') == PD.SLASH, 47, 45))
        none = RA.len(SEL(sc.H('CommandData', 'commands'), m0.cmd)) == 0
        sub = PD.FINDC(SEL(sc.H('CommandData', 'commands'), m0.cmd), sc.H('CommandData', 'name'), text, m0.setting('case_insensitive'))
        return mid, text, sub, (A(go, N(more)), A(go, more, is_opt), A(go, more, N(is_opt), none), A(go, more, N(is_opt), N(none), sub != null), A(go, more, N(is_opt), N(none), sub == null))

    def on_exit(self, sc):
        m0 = M(sc, True)
        mid, text, sub, (end, opt, arg, cmd, unknown) = self.cases(sc, m0)
        err = A(m0.setting('auto_exit'), sc.exit_code == m0.setting('error_exit_code'), KIND(out(sc)) == IS_ERROR, L(MSG(out(sc))) > 0)
        r = [('a subcommand is no reason to exit', N(cmd)), ('nor is the end, after which nothing happens', N(A(m0.state == DONE))),
             ('without an option: errors are reported by exiting', Im(N(opt), O(KIND(out(sc)) == IS_USER, err)))]
        if sc.I.feasible([opt]):
            r += [('an option: ' + n, Im(opt, f)) for n, f in option_exit(sc, mid, text)]
        return r

    def post(self, sc):
        m0, m = M(sc, True), M(sc)
        mid, text, sub, (end, opt, arg, cmd, unknown) = self.cases(sc, m0)
        code = sc.result.f['0']
        r = [('not after an error', m0.state != ERROR), ('it is in error exactly when it returns one', (m.state == ERROR) == (code == R_ERROR))]

        def case(what, c, fs):
            if sc.I.feasible([c]):
                r.extend((what + ': ' + n, Im(c, f)) for n, f in fs())
        case('the end', m0.state == DONE, lambda: [('nothing happens', A(result_is(sc, R_DONE), same_iter(m, m0), unchanged(sc, m0)))])
        x = After(sc, m0)
        req = sc.oh('CommandData', 'require_subcommand', m0.cmd)
        ok = lambda: A(all_given_from(sc, m0, 0), Im(req.val, RA.len(subs(sc, m0.back, True)) > 0), complete(m0))
        case('no more arguments', end, lambda: [
            ('done iff the command line is complete, otherwise an error', A(code == z3.If(ok(), R_DONE, R_ERROR), about(sc))), ('an error is not reported by exiting', Im(code == R_ERROR, N(m0.setting('auto_exit')))),
            ('what it is about stays', A(RA.eqS(m.P, m0.P), m.cmd == m0.cmd, sc.H(P, 'm_values') == sc.OH(P, 'm_values')))] +
            [('done: ' + n, Im(code == R_DONE, f)) for n, f in [('every result says so', all_codes(sc, SUCCESS)), ('the parser is done', m.state == DONE), ('nothing is written', out(sc) == out0(sc))]] +
            [('incomplete: ' + n, Im(code == R_ERROR, f)) for n, f in [('every result says so', all_codes(sc, ERROR_CODE)), ('the parser has stopped', m.state == ERROR),
                                                                       ('a message is written', A(KIND(out(sc)) == IS_ERROR, L(MSG(out(sc))) > 0, PREV(out(sc)) == out0(sc)))]])
        case('an option', opt, lambda: option_step(sc, mid, text))
        case('an argument', arg, lambda: argument_step(sc, mid, text))
        case('a subcommand', cmd, lambda: entered(sc, mid, m0.n - 1, sub) + [('what is returned', result_is(sc, R_COMMAND, 3, sub, text)), ('nothing is written', out(sc) == out0(sc)), ('other values stay', other_values(sc, m0))])
        case('an unknown subcommand', unknown, lambda: [('an error', A(code == R_ERROR, about(sc), N(m0.setting('auto_exit'))))] + failed(sc, m0=mid) + [
            ('a message is written', error_logged(out(sc), out0(sc), m0.cmd)), ('values stay', A(RA.eqS(m.P, m0.P), sc.H(P, 'm_values') == sc.OH(P, 'm_values')))])
        return r + [old_results(sc, m, sc.allocs1)]


# ------------------------------------------------------------------ parsing
@contract('argos::make_option_iterator', 'C01')
class _:
    def requires(self, sc):
        return [('a declared style', A(0 <= sc.arg(0), sc.arg(0) <= 2))]

    def ensures(self, sc):
        return at_start(sc, sc.result, sc.old(0), sc.old(1))


def at_start(sc, v, st, args):
    """the variant of iterators is at the beginning of the arguments"""
    t, (a, b) = v.tag, v.alts
    g = lambda r: A(RS.eqS(r.f['m_all_args'], args), r.f['m_args'].off == 0, r.f['m_args'].len == RS.len(args), r.f['m_pos'] == 0)
    return [('the syntax of the style', t == z3.If(O(st == PD.SLASH, st == PD.DASH), 0, 1)), ('the prefix of the style', Im(t == 0, a.f['m_prefix'] == z3.If(st == PD.SLASH, 47, 45))),
            ('every argument is pending', A(Im(t == 0, g(a)), Im(t == 1, g(b))))]


def data_ok(sc, d):
    """finish_initialization has prepared this data"""
    sub = sc.I.sub_addr(d, 'ParserData', 'parser_settings')
    cmd = sc.I.sub_addr(d, 'ParserData', 'command')
    st = SEL(sc.H('ParserSettings', 'option_style'), sub)
    return [('there is a parser', d != null), ('definitions are finished', A(USABLE(cmd), usable(sc, SEL(sc.H('ParserSettings', 'case_insensitive'), sub)))), ('a declared style', A(0 <= st, st <= 2))]


@contract(AI + 'ArgumentIteratorImpl', 'C01 C07 C08 C13', nparams=2)
class _(Enters):
    node_is_ctor = True

    def requires(self, sc):
        return data_ok(sc, sc.arg(1))

    def modifies(self, sc):
        return [('loc', sc.this)]

    def ensures(self, sc):
        m = M(sc)
        d = sc.old(1)
        cmd = sc.I.sub_addr(d, 'ParserData', 'command')
        st = SEL(sc.H('ParserSettings', 'option_style'), sc.I.sub_addr(d, 'ParserData', 'parser_settings'))
        place = sc.mloc('m_iterator').ext('f', 'iterator')
        own = all(isinstance(a.f['m_args'].cont, Loc) and a.f['m_args'].cont.same(place.ext('alt', i).ext('f', 'm_all_args')) for i, a in enumerate(m.it.f['iterator'].alts))
        return [('it is of that parser', m.data == d), ('the iterator refers to its own arguments', z3.BoolVal(own))] + at_start(sc, m.it.f['iterator'], st, sc.old(0)) + begun(sc, m, cmd) + m.inv() + [old_results(sc, m, sc.allocs1)]


def begun(sc, m, cmd):
    p = m.p(0)
    f = lambda x: SEL(sc.H(P, x), p)
    cnt, ix, fo, num = CO.counters(m.counter.f['m_counters']), m.counter.f['m_index'], m.counter.f['m_first_optional'], m.counter.f['m_counter']
    g = CO.Args(sc, At(cmd))
    k = z3.Int('k!')
    fixed = forall([k], Im(A(0 <= k, k < g.n - 1), g.lo(k) == g.hi(k)), [RA.at(g.a, k)])
    return [('its command is the current one', A(m.n == 1, m.cmd == cmd)), ('options and arguments are accepted', m.state == OPTIONS),
            ('there is one new result', A(p != null, is_new(p, sc.allocs0), f('m_command') == cmd, f('m_data') == m.data, f('m_result_code') == NO_CODE, f('m_stop_option') == null,
                                          RS.len(f('m_unprocessed_arguments')) == 0, RA.len(f('m_commands')) == 0))] + \
        [('its initial values: ' + x, y) for x, y in initials(sc, empty_store(), Store(f('m_values'), VALUES), cmd, RA.len(SEL(sc.H('CommandData', 'options'), cmd)))] + \
        [('complete from the first optional argument on', Im(fixed, CO.first_optional(g, fo, g.n)))] + \
        [('its arguments: ' + x, Im(fixed, y)) for x, y in [('nothing handed out yet', A(ix == 0, num == 0))] + CO.greedy(g, cnt, g.n, fo)]


class OfLocal:
    """The parser that is a local variable."""

    def __init__(self, sc):
        v = [l for l in (sc.I.load(l) for l in sc.I.env.values() if isinstance(l, Loc) and not l.path) if isinstance(l, RecV) and l.T.name == 'ArgumentIteratorImpl']
        if not v:
            raise KeyError('the parser')
        self.__dict__.update(sc.__dict__)
        self.sc, self.v = sc, v[0]

    def m(self, f):
        return self.v.f[f]

    def __getattr__(self, f):
        return getattr(self.sc, f)


def may_go_on(sc, m, d):
    j, c = z3.Int('j!'), SEL(sc.H(P, 'm_result_code'), m.p(0))
    return [('it is of the same parser', m.data == d), ('no error was reported', m.state != ERROR), ('when it is done the result says so', Im(m.state == DONE, O(c == SUCCESS, c == STOPPED))),
            ('the result of the main command comes first', A(is_new(m.p(0), sc.allocs0), m.cmd_of(0) == sc.I.sub_addr(d, 'ParserData', 'command')))]


def _parse(sc):
    m = M(OfLocal(sc))
    return m.inv() + [old_results(sc, m, sc.allocs1)] + may_go_on(sc, m, sc.fsc.old(1))


@contract(AI + 'parse', 'C01 C08 C12 C13 C21')
class _(Enters):
    may_throw = True
    heavy = True
    cost = 30
    loops = (Loop(_parse),)

    def requires(self, sc):
        return data_ok(sc, sc.arg(1))

    def modifies(self, sc):
        return [('heapfield', P, f) for f in ('m_values', 'm_removed_values', 'm_commands', 'm_stop_option', 'm_result_code', 'm_unprocessed_arguments')] + [OUT]

    def setting(self, sc, f):
        return SEL(sc.OH('ParserSettings', f), sc.I.sub_addr(sc.old(1), 'ParserData', 'parser_settings'))

    def may_exit(self, sc):
        return z3.BoolVal(True)

    def on_throw(self, sc):
        return [('only user code throws', KIND(out(sc)) == IS_USER)]

    def on_exit(self, sc):
        return [('only if the parser is configured so, with the configured code',
                 O(KIND(out(sc)) == IS_USER, A(self.setting(sc, 'auto_exit'), O(sc.exit_code == self.setting(sc, 'normal_exit_code'),
                                                                                A(sc.exit_code == self.setting(sc, 'error_exit_code'), KIND(out(sc)) == IS_ERROR, L(MSG(out(sc))) > 0)))))]

    def ensures(self, sc):
        p = sc.result
        f = lambda x: SEL(sc.H(P, x), p)
        c = f('m_result_code')
        return [('the result is that of the main command', A(p != null, is_new(p, sc.allocs0), f('m_command') == sc.I.sub_addr(sc.old(1), 'ParserData', 'command'), f('m_data') == sc.old(1))),
                ('the result says how parsing ended', O(c == SUCCESS, c == STOPPED, c == ERROR_CODE)),
                ('an error is not reported by exiting', Im(c == ERROR_CODE, N(self.setting(sc, 'auto_exit')))),
                ('on error: a message is the last that is written', Im(c == ERROR_CODE, A(KIND(out(sc)) == IS_ERROR, L(MSG(out(sc))) > 0))),
                ('its values are ordered', Store(f('m_values'), VALUES).sorted())]
