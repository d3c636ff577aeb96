"""C17: HelpText.cpp, TextSource.hpp"""
from .core import *
import lib
from .strings import A, O, N, Im, Str, L, at, width, k_, n_, s_, j_
from .text import F, FormatterCtor, Formatter, KEEP, KEEPL, ENDS, NL, P_, SI, SEL, TEXT, RS, LAY, EMPTY, BADRULE, COLUMNS, wrote, token_facts
from . import parserdata as PD

RA = PD.RA
lit = PD.strlit
HIDDEN, IN_USAGE, IN_TEXT = 0, 1, 2
cat = lambda *xs: xs[0] if len(xs) == 1 else Str.cat(cat(*xs[:-1]), xs[-1])


# ------------------------------------------------------------------ names
bracketed = lambda n: cat(lit(b'<'), n, lit(b'>'))
REP = z3.Function('repeated_name', Str.sort, IntS, Str.sort)       # <name> <name> …
add_group([REP.name()], [forall([s_], REP(s_, 0) == Str.emp, [REP(s_, 0)]),
                         forall([s_, k_, n_], Im(A(k_ >= 0, n_ == k_ + 1), REP(s_, n_) == cat(z3.If(k_ == 0, REP(s_, k_), cat(REP(s_, k_), lit(b' '))), bracketed(s_))), [(REP(s_, k_), REP(s_, n_))])])


def argument_name(name, least, most):
    """the name of an argument, repeated and in brackets according to its counts"""
    some = cat(lit(b'['), bracketed(name), lit(b']'))
    given = O(at(name, 0) == ord('<'), at(name, 0) == ord('['))
    r = REP(name, least)
    return z3.If(A(L(name) > 0, given), name,
                 z3.If(least == most, r, cat(z3.If(least > 0, cat(r, lit(b' ')), Str.emp), z3.If(O(most - least == 1, most - least == 1 - (1 << 32)), some, cat(some, lit(b'...'))))))


def field(sc, ent, f, addr):
    return sc.h(ent, f, addr)


def name_of_argument(sc, a):
    return argument_name(*[sc.h('ArgumentData', f, a) for f in ('name', 'min_count', 'max_count')])


@contract('argos::get_argument_name', 'C17')
class _:
    def ensures(self, sc):
        return [('the name with brackets and repetitions', Str.eqS(sc.result, name_of_argument(sc, sc.arg(0).addr)))]

    def loop(sc):
        r = var(sc, 'result', 'string', 0)
        n = sc.fsc.oh('ArgumentData', 'name', sc.fsc.arg(0).addr)
        i = var(sc, 'i', 'u32', 0)
        return [('the repetitions so far', Str.eqS(r, REP(n, i))), ('in the range', A(0 <= i, O(i == 0, i <= sc.fsc.oh('ArgumentData', 'min_count', sc.fsc.arg(0).addr)))), ('empty only at first', (L(r) == 0) == (i == 0))]

    loops = (Loop(loop, lambda sc: sc.fsc.oh('ArgumentData', 'min_count', sc.fsc.arg(0).addr) - var(sc, 'i', 'u32', 0)),)


T_HELP, T_STOP, T_EXIT = 1, 2, 3
is_stop = lambda t: O(t == T_HELP, t == T_STOP, t == T_EXIT)


def with_argument(flag, arg):
    """a flag and its argument"""
    sep = z3.If(at(flag, L(flag) - 1) == ord('='), flag, cat(flag, lit(b' ')))
    return z3.If(L(arg) == 0, flag, cat(sep, z3.If(at(arg, 0) == ord('<'), arg, bracketed(arg))))


class OptionName:
    """an option has flags"""

    def requires(self, sc):
        fl = self.g(sc, 'flags')
        return [('flags that are not empty', A(RS.len(fl) > 0, forall([k_], Im(A(0 <= k_, k_ < RS.len(fl)), L(RS.at(fl, k_)) > 0), [RS.at(fl, k_)])))]

    def g(self, sc, f):
        return sc.oh('OptionData', f, sc.arg(0).addr)


_fl = z3.Const('fl!h', RS.sort)
LF = z3.Function('first_long_flag', RS.sort, IntS)        # the place of the first flag of more than two characters, or 0
_lf, _long = LF(_fl), lambda i: L(RS.at(_fl, i)) > 2
add_group([LF.name()], [forall([_fl], A(0 <= _lf, Im(RS.len(_fl) > 0, _lf < RS.len(_fl)), O(_lf == 0, _long(_lf))), [_lf]),
                        forall([_fl, k_], Im(A(0 <= k_, k_ < RS.len(_fl), _long(k_)), A(_lf <= k_, _long(_lf))), [(_lf, RS.at(_fl, k_))])])


def brief_option(fl, arg, optional, type_, long_):
    """the first flag, or the first long one, and the argument; in brackets if it is optional"""
    r = with_argument(RS.at(fl, z3.If(long_, LF(fl), z3.IntVal(0))), arg)
    return z3.If(A(optional, N(is_stop(type_))), cat(lit(b'['), r, lit(b']')), r)


@contract('argos::get_brief_option_name', 'C17')
class _(OptionName):
    def ensures(self, sc):
        g = [self.g(sc, n) for n in ('flags', 'argument', 'optional', 'type')]
        return [('a flag and its argument', Str.eqS(sc.result, brief_option(*g, sc.arg(1))))]


ALL = z3.Function('flags_and_argument', RS.sort, Str.sort, IntS, Str.sort)
add_group([ALL.name()], [forall([_fl, s_], ALL(_fl, s_, 0) == Str.emp, [ALL(_fl, s_, 0)]),
                         forall([_fl, s_, k_, n_], Im(A(k_ >= 0, n_ == k_ + 1),
                                                      ALL(_fl, s_, n_) == cat(z3.If(k_ == 0, ALL(_fl, s_, k_), cat(ALL(_fl, s_, k_), lit(b', '))), with_argument(RS.at(_fl, k_), s_))),
                                [(ALL(_fl, s_, k_), ALL(_fl, s_, n_))])])


def name_of_option(sc, o):
    fl = sc.h('OptionData', 'flags', o)
    return ALL(fl, sc.h('OptionData', 'argument', o), RS.len(fl))


@contract('argos::get_long_option_name', 'C17')
class _(OptionName):
    def ensures(self, sc):
        return [('all flags, each with the argument', Str.eqS(sc.result, name_of_option(sc, sc.arg(0).addr)))]

    def loop(sc):
        r = var(sc, 'opt_txt', 'string', 0)
        o = sc.fsc.arg(0).addr
        i = sc.i
        return [('the flags so far', Str.eqS(r, ALL(sc.fsc.oh('OptionData', 'flags', o), sc.fsc.oh('OptionData', 'argument', o), i))), ('empty only at first', (L(r) == 0) == (i == 0))]

    loops = (Loop(loop),)


# ------------------------------------------------------------------ texts
from .machine import FTEXT, FN


class Source:
    """a text, or a callback that gives it"""

    def __init__(self, I):
        self.T = I.ent_field('ArgumentData', 'help')
        self.dt = self.T.dt

    def text(self, t):
        return z3.If(self.dt.is_(0, t), self.dt.acc(0, 0, t), FTEXT(self.dt.acc(1, 0, t)))

    def ok(self, t):
        return O(self.dt.is_(0, t), lib.has_fn(self.dt.acc(1, 0, t)))


class Texts:
    """the custom texts of a command"""

    def __init__(self, sc, cmd):
        self.src = Source(sc.I)
        self.m = sc.oh('CommandData', 'texts', cmd)
        self.dt = sc.I.ent_field('CommandData', 'texts').opt.dt

    def has(self, i):
        return self.dt.is_(1, SEL(self.m, i))

    def text(self, i):
        return self.src.text(self.dt.acc(1, 0, SEL(self.m, i)))

    def ok(self):
        return ('texts that are callbacks have one', forall([k_], Im(self.has(k_), self.src.ok(self.dt.acc(1, 0, SEL(self.m, k_)))), [SEL(self.m, k_)]))


def packed(sc, i, old=False):
    v = sc.old(i) if old else sc.arg(i)
    return v if z3.is_expr(v) else v.T.pack(v)


@contract('argos::get_text', 'C17')
class _:
    def requires(self, sc):
        return [('a callback that exists', Source(sc.I).ok(packed(sc, 0)))]

    def ensures(self, sc):
        return [('the text', Str.eqS(sc.result, Source(sc.I).text(packed(sc, 0, True))))]


@contract('argos::get_custom_text', 'C17')
class _:
    def requires(self, sc):
        return [Texts(sc, sc.arg(0).addr).ok()]

    def ensures(self, sc):
        t, i, r = Texts(sc, sc.arg(0).addr), sc.arg(1), sc.result
        return [('a text that was given', r.has == t.has(i)), ('its text', Im(t.has(i), Str.eqS(r.val, t.text(i))))]


# ------------------------------------------------------------------ writing
BLANK = ('a blank is not kept', forall([P_, s_, k_], Im(A(k_ == L(s_), O(k_ == 1, A(k_ == 2, at(s_, 1) == 32)), at(s_, 0) == 32), KEEP(P_, s_, k_) == P_), [KEEP(P_, s_, k_)]))


@lemma('a blank is not kept', 'C17')
def _():
    p, s = z3.Consts('p s', Str.sort)
    return [O(L(s) == 1, A(L(s) == 2, at(s, 1) == 32)), at(s, 0) == 32, touch(at(s, 1)), touch(KEEP(p, s, 0)), touch(KEEP(p, s, 1)), touch(KEEP(p, s, 2))], KEEP(p, s, L(s)) == p


def others(H, H0, stream):
    x = z3.Const('x!', Addr)
    return forall([x], Im(x != stream, SEL(H, x) == SEL(H0, x)), [SEL(H, x)])


def written(f, f0, H, H0, payload):
    """the formatter wrote something, and is as usable as before"""
    return [('what is written', forall([P_], Im(f0.lay(P_), f.lay(payload(P_))), [f0.trigger(P_)]))] + as_usable(f, f0, H, H0)


def as_usable(f, f0, H, H0):
    return [('the alignment ends', N(f.aligned)), ('no indentation is lost', f.depth >= f0.depth),
            ('the stream and the width of the lines', A(f.w.stream == f0.w.stream, f.w.lw == f0.w.lw)), ('other streams are given nothing', others(H, H0, f0.w.stream))] + f.inv()


class Help:
    """writes something with the formatter given as first argument"""

    def requires(self, sc):
        f = F(sc, arg=0)
        return f.inv() + [('no alignment', N(f.aligned))] + self.pre(sc)

    def pre(self, sc):
        return []

    def modifies(self, sc):
        return [('loc', sc.args[0].ext('f', m)) for m in ('m_writer', 'm_indents', 'm_state')] + [('heapfield', 'Ghost', 'text')]

    def axioms_at_entry(self, sc):
        return [BLANK]

    def ensures(self, sc):
        f, f0 = F(sc, arg=0), F(sc, True, arg=0)
        return written(f, f0, sc.H('Ghost', 'text'), sc.OH('Ghost', 'text'), lambda p: self.payload(sc, p))


def wl(sc, payload, here=False):
    """loop invariant: written since the function was called, or since this loop was entered"""
    f, f0, OH = F(sc.fsc, arg=0), F(sc.fsc, True, arg=0), sc.fsc.OH
    if here:
        OH = sc.OH
        f0 = F(sc.fsc, arg=0, v=sc.entry_cells[sc.fsc.node['params'][0]['id']], H=OH)
    return written(f, f0, sc.H('Ghost', 'text'), OH('Ghost', 'text'), payload)


words = lambda p, s: KEEP(p, s, L(s))
line = lambda p: Str.push(p, NL)


def custom(p, has, t, before):
    """a custom text; before: a line break comes first"""
    q = words(z3.If(before, line(p), p), t)
    return z3.If(O(N(has), L(t) == 0), p, z3.If(ENDS(q), q, line(q)))


@contract('argos::write_custom_text', 'C17')
class _(Help):
    def pre(self, sc):
        return [Texts(sc, sc.arg(1).addr).ok()]

    def payload(self, sc, p):
        t, i = Texts(sc, sc.arg(1).addr), sc.old(2)
        return custom(p, t.has(i), t.text(i), sc.old(3))

    def ensures(self, sc):
        t, i, r = Texts(sc, sc.arg(1).addr), sc.old(2), sc.result
        return Help.ensures(self, sc) + [('a text that was given', r.has == t.has(i)), ('its text', Im(t.has(i), Str.eqS(r.val, t.text(i))))]


# ------------------------------------------------------------------ everything written for the elements of a list
def in_usage(v):
    return v % 2 == 1


def in_text(v):
    return (v / 2) % 2 == 1


class Fold:
    """what comes of p after the first k things of a list: step(p, get) is what comes of p after one of them"""

    def __init__(self, name, ent, fields, step, p=P_):
        self.name, self.ent, self.fields, self.step, self.f, self.p = name, ent, fields, step, None, p

    def fn(self, I, extra):
        if self.f is None:
            hs = [z3.Const(f'H!{self.name}{i}', z3.ArraySort(Addr, I.ent_field(self.ent, x).sort)) for i, x in enumerate(self.fields)]
            xs = [z3.Const(f'x!{self.name}{i}', x.sort()) for i, x in enumerate(extra)]
            a, k, n = z3.Const('a!' + self.name, RA.sort), z3.Int('k!' + self.name), z3.Int('n!' + self.name)
            p = self.p
            f = self.f = z3.Function(self.name, p.sort(), RA.sort, *[h.sort() for h in hs], *[x.sort() for x in xs], IntS, p.sort())
            r = lambda i: f(p, a, *hs, *xs, i)
            get = lambda field: SEL(hs[self.fields.index(field)], RA.at(a, k))
            get.I = I
            add_group([self.name], [forall([p, a, *hs, *xs], r(z3.IntVal(0)) == p, [r(z3.IntVal(0))]),
                                    forall([p, a, *hs, *xs, k, n], Im(A(k >= 0, n == k + 1), r(n) == self.step(r(k), get, *xs)), [(r(k), r(n), RA.at(a, k))])])
        return self.f

    def __call__(self, sc, p, a, k, *extra):
        return self.fn(sc.I, extra)(p, a, *[sc.H(self.ent, x) for x in self.fields], *extra, k)


lines = lambda p, s: KEEPL(p, s, L(s))
OPT = ('flags', 'argument', 'optional', 'type', 'visibility')


def brief_of(get, long_):
    return brief_option(*[get(x) for x in OPT[:4]], z3.BoolVal(long_))


STOPS = Fold('usage_of_stop_options', 'OptionData', OPT,
             lambda p, get, full: z3.If(A(in_usage(get('visibility')), is_stop(get('type'))), line(lines(words(p, full), brief_of(get, True))), p))


def options_ok(sc, cmd):
    a = sc.h('CommandData', 'options', cmd)
    fl, v = sc.H('OptionData', 'flags'), sc.H('OptionData', 'visibility')
    x, t = RA.at(a, j_), sc.H('OptionData', 'help')
    good = A(x != null, RS.len(SEL(fl, x)) > 0, 0 <= SEL(v, x), SEL(v, x) <= 3, Source(sc.I).ok(SEL(t, x)))
    return [('the options exist and have flags', A(forall([j_], Im(A(0 <= j_, j_ < RA.len(a)), good), [x]),
                                                   forall([j_, k_], Im(A(0 <= j_, j_ < RA.len(a), 0 <= k_, k_ < RS.len(SEL(fl, x))), L(RS.at(SEL(fl, x), k_)) > 0), [RS.at(SEL(fl, x), k_)])))]


def cmd_of(sc):
    return sc.arg(1).addr


def cfield(sc, f, cmd=None):
    return sc.h('CommandData', f, cmd if cmd is not None else cmd_of(sc))


@contract('argos::write_stop_and_help_usage', 'C17')
class _(Help):
    def pre(self, sc):
        return options_ok(sc, cmd_of(sc))

    def payload(self, sc, p):
        a = cfield(sc, 'options')
        return STOPS(sc, p, a, RA.len(a), cfield(sc, 'full_name'))

    loops = (Loop(lambda sc: wl(sc, lambda p: STOPS(sc, p, cfield(sc.fsc, 'options'), sc.i, cfield(sc.fsc, 'full_name')))),)


BRIEF = Fold('usage_of_options', 'OptionData', OPT,
             lambda p, get: z3.If(A(in_usage(get('visibility')), N(is_stop(get('type')))), lines(p, brief_of(get, False)), p))
BARGS = Fold('usage_of_arguments', 'ArgumentData', ('name', 'min_count', 'max_count', 'visibility'),
             lambda p, get: z3.If(in_usage(get('visibility')), lines(p, argument_name(get('name'), get('min_count'), get('max_count'))), p))


def visible_ok(sc, ent, a, what):
    v, x = sc.H(ent, 'visibility'), RA.at(a, j_)
    return (what + ' exist', forall([j_], Im(A(0 <= j_, j_ < RA.len(a)), A(x != null, 0 <= SEL(v, x), SEL(v, x) <= 3)), [x]))


def arguments_ok(sc, cmd):
    return [visible_ok(sc, 'ArgumentData', cfield(sc, 'arguments', cmd), 'the arguments')]


def commands_ok(sc, cmd):
    return [visible_ok(sc, 'CommandData', cfield(sc, 'commands', cmd), 'the commands')]


@contract('argos::write_brief_regular_options', 'C17')
class _(Help):
    def pre(self, sc):
        return options_ok(sc, cmd_of(sc))

    def payload(self, sc, p):
        a = cfield(sc, 'options')
        return BRIEF(sc, p, a, RA.len(a))

    loops = (Loop(lambda sc: wl(sc, lambda p: BRIEF(sc, p, cfield(sc.fsc, 'options'), sc.i))),)


@contract('argos::write_brief_arguments', 'C17')
class _(Help):
    def pre(self, sc):
        return arguments_ok(sc, cmd_of(sc))

    def payload(self, sc, p):
        a = cfield(sc, 'arguments')
        return BARGS(sc, p, a, RA.len(a))

    loops = (Loop(lambda sc: wl(sc, lambda p: BARGS(sc, p, cfield(sc.fsc, 'arguments'), sc.i))),)


# the commands: a bar between two of them
SHOWN = z3.Function('shown_commands', RA.sort, z3.ArraySort(Addr, IntS), IntS, BoolS)       # one of the first k commands is in the usage
_a, _H = z3.Const('a!h', RA.sort), z3.Const('H!h', z3.ArraySort(Addr, IntS))
add_group([SHOWN.name()], [forall([_a, _H], N(SHOWN(_a, _H, 0)), [SHOWN(_a, _H, 0)]),
                           forall([_a, _H, k_, n_], Im(A(k_ >= 0, n_ == k_ + 1), SHOWN(_a, _H, n_) == O(SHOWN(_a, _H, k_), in_usage(SEL(_H, RA.at(_a, k_))))),
                                  [(SHOWN(_a, _H, k_), SHOWN(_a, _H, n_))])])


class Commands(Fold):
    """the names with bars between them"""

    def fn(self, I, extra):
        if self.f is None:
            HN = z3.Const('HN!h', z3.ArraySort(Addr, Str.sort))
            f = self.f = z3.Function(self.name, Str.sort, RA.sort, HN.sort(), _H.sort(), IntS, Str.sort)
            r = lambda i: f(P_, _a, HN, _H, i)
            x = RA.at(_a, k_)
            add_group([self.name], [forall([P_, _a, HN, _H], r(z3.IntVal(0)) == P_, [r(z3.IntVal(0))]),
                                    forall([P_, _a, HN, _H, k_, n_], Im(A(k_ >= 0, n_ == k_ + 1),
                                                                       r(n_) == z3.If(in_usage(SEL(_H, x)), words(z3.If(SHOWN(_a, _H, k_), words(r(k_), lit(b'|')), r(k_)), SEL(HN, x)), r(k_))),
                                           [(r(k_), r(n_), x)])])
        return self.f


CMDS = Commands('usage_of_commands', 'CommandData', ('name', 'visibility'), None)


def brief_commands(sc, p, cmd):
    a = cfield(sc, 'commands', cmd)
    r = sc.h('CommandData', 'require_subcommand', cmd)
    optional = N(A(r.has, r.val))
    q = CMDS(sc, z3.If(optional, words(p, lit(b'[')), p), a, RA.len(a))
    return z3.If(RA.len(a) == 0, p, z3.If(optional, words(q, lit(b']')), q))


def _cmds(sc):
    cmd = sc.fsc.arg(1).addr
    a = cfield(sc.fsc, 'commands')
    r = sc.fsc.h('CommandData', 'require_subcommand', cmd)
    optional = N(A(r.has, r.val))
    return wl(sc, lambda p: CMDS(sc, z3.If(optional, words(p, lit(b'[')), p), a, sc.i)) + \
        [('a bar comes before all but the first', var(sc, 'first_command', 'bool', 1) == N(SHOWN(a, sc.H('CommandData', 'visibility'), sc.i)))]


@contract('argos::write_brief_commands', 'C17')
class _(Help):
    def pre(self, sc):
        return commands_ok(sc, cmd_of(sc))

    def payload(self, sc, p):
        return brief_commands(sc, p, cmd_of(sc))

    loops = (Loop(_cmds),)


def command_ok(sc, cmd):
    return options_ok(sc, cmd) + arguments_ok(sc, cmd) + commands_ok(sc, cmd)


def brief_usage(sc, p, cmd):
    o, a, full = (cfield(sc, n, cmd) for n in ('options', 'arguments', 'full_name'))
    q = words(STOPS(sc, p, o, RA.len(o), full), full)
    return line(brief_commands(sc, BARGS(sc, BRIEF(sc, q, o, RA.len(o)), a, RA.len(a)), cmd))


@contract('argos::write_brief_usage', 'C17')
class _(Help):
    def pre(self, sc):
        return command_ok(sc, cmd_of(sc))

    def payload(self, sc, p):
        return brief_usage(sc, z3.If(sc.old(2), line(p), p), cmd_of(sc))


INITIAL_TEXT, USAGE_TITLE, USAGE, ABOUT, SUBCOMMANDS_TITLE, ARGUMENTS_TITLE, OPTIONS_TITLE, FINAL_TEXT, ERROR_USAGE, HELP = range(10)


def usage(sc, p, cmd, before):
    """(what is written, whether something is)"""
    t = Texts(sc, cmd)
    title, text = t.text(USAGE_TITLE), t.text(USAGE)
    h1, h2 = t.has(USAGE_TITLE), t.has(USAGE)
    q = z3.If(h1, custom(p, z3.BoolVal(True), title, before), line(words(z3.If(before, line(p), p), lit(b'USAGE'))))
    b = A(before, h1, L(title) == 0)
    return z3.If(A(h2, L(text) == 0), p, z3.If(h2, custom(q, z3.BoolVal(True), text, b), brief_usage(sc, z3.If(b, line(q), q), cmd))), N(A(h2, L(text) == 0))


@contract('argos::write_usage', 'C17')
class _(Help):
    def pre(self, sc):
        return command_ok(sc, cmd_of(sc)) + [Texts(sc, cmd_of(sc)).ok()]

    def payload(self, sc, p):
        return usage(sc, p, cmd_of(sc), sc.old(2))[0]

    def ensures(self, sc):
        return Help.ensures(self, sc) + [('whether something is written', sc.result == usage(sc, P_, cmd_of(sc), sc.old(2))[1])]


# ------------------------------------------------------------------ the list of arguments, commands and options
STRING, SV = TSeq(TInt(8, True), 'string'), TSeq(TInt(8, True), 'sv')
ENTRY = TTuple([STRING, STRING], True)
ENTRIES = TSeq(ENTRY)
SECTION = TTuple([SV, ENTRIES], True)
SECTIONS = TSeq(SECTION)
ES, SS = ENTRIES.th, SECTIONS.th
title_of, entries_of = (lambda x: SECTION.dt.acc(0, 0, x)), (lambda x: SECTION.dt.acc(0, 1, x))
_S, _t, _n, _x = z3.Const('S!h', SS.sort), z3.Const('t!h', Str.sort), z3.Const('n!h', Str.sort), z3.Const('x!h', Str.sort)
FS = z3.Function('section_with_title', SS.sort, Str.sort, IntS)           # its place, or the number of sections
ADD = z3.Function('add_entry', SS.sort, Str.sort, Str.sort, Str.sort, SS.sort)      # to the section with the title, or to a new one
_fs, _new = FS(_S, _t), ENTRY.dt.mk(0, _n, _x)
_pushed = SS.push(_S, SECTION.dt.mk(0, _t, ES.push(ES.emp, _new)))
_at = SS.at(_S, _fs)
add_group([FS.name()], [forall([_S, _t], A(0 <= _fs, _fs <= SS.len(_S), Im(_fs < SS.len(_S), title_of(SS.at(_S, _fs)) == _t)), [_fs]),
                        forall([_S, _t, k_], Im(A(0 <= k_, k_ < _fs), title_of(SS.at(_S, k_)) != _t), [(_fs, SS.at(_S, k_))])])
add_group([ADD.name()], [forall([_S, _t, _n, _x], ADD(_S, _t, _n, _x) == z3.If(_fs == SS.len(_S), _pushed, SS.upd(_S, _fs, SECTION.dt.mk(0, _t, ES.push(entries_of(_at), _new)))),
                                [ADD(_S, _t, _n, _x)])])


def heading(section, title):
    return z3.If(L(section) == 0, title, section)


def listed(name, ent, fields, label, text):
    """the entries of a list added to the sections, those that are to be listed"""
    return Fold(name, ent, ('visibility', 'section') + fields,
                lambda S, get, title: z3.If(in_text(get('visibility')), ADD(S, heading(get('section'), title), label(get), text(get)), S), _S)


def command_help(get):
    t = SEL(get('texts'), z3.IntVal(HELP))
    dt = get.I.ent_field('CommandData', 'texts').opt.dt
    return z3.If(dt.is_(1, t), Source(get.I).text(dt.acc(1, 0, t)), Str.emp)


LARGS = listed('listed_arguments', 'ArgumentData', ('name', 'min_count', 'max_count', 'help'),
               lambda g: argument_name(g('name'), g('min_count'), g('max_count')), lambda g: Source(g.I).text(g('help')))
LCMDS = listed('listed_commands', 'CommandData', ('name', 'texts'), lambda g: g('name'), command_help)
LOPTS = listed('listed_options', 'OptionData', ('flags', 'argument', 'help'), lambda g: ALL(g('flags'), g('argument'), RS.len(g('flags'))), lambda g: Source(g.I).text(g('help')))


def sections(sc, cmd, part=3, k=None):
    """the sections after the arguments (1), the commands (2) and the options (3); k: after the first k of the last ones"""
    t = Texts(sc, cmd)
    S = SS.emp
    for i, (fold, list_, title, default) in enumerate([(LARGS, 'arguments', ARGUMENTS_TITLE, b'ARGUMENTS'), (LCMDS, 'commands', SUBCOMMANDS_TITLE, b'COMMANDS'),
                                                      (LOPTS, 'options', OPTIONS_TITLE, b'OPTIONS')][:part]):
        a = cfield(sc, list_, cmd)
        S = fold(sc, S, a, k if k is not None and i == part - 1 else RA.len(a), z3.If(t.has(title), t.text(title), lit(default)))
    return S


no_empty = lambda S: forall([k_], Im(A(0 <= k_, k_ < SS.len(S)), ES.len(entries_of(SS.at(S, k_))) > 0), [SS.at(S, k_)])


# the widths of the names (which = 0) or the texts (1) of the entries, after the numbers that are there
u32 = lambda x: x % (1 << 32)
_v, _which = z3.Const('v!h', SI.sort), z3.Int('which!h')
EW = z3.Function('entry_widths', SI.sort, ES.sort, IntS, IntS, SI.sort)
SW = z3.Function('section_widths', SS.sort, IntS, IntS, SI.sort)
MAX = z3.Function('greatest', SI.sort, IntS)
MAXI = z3.Function('index_of_greatest', SI.sort, IntS)
_E = z3.Const('E!h', ES.sort)
_e = ES.at(_E, k_)
_en, _et = ENTRY.dt.acc(0, 0, _e), ENTRY.dt.acc(0, 1, _e)
add_group([EW.name()], [forall([_v, _E, _which], EW(_v, _E, _which, 0) == _v, [EW(_v, _E, _which, 0)]),
                        forall([_v, _E, _which, k_, n_], Im(A(k_ >= 0, n_ == k_ + 1), EW(_v, _E, _which, n_) == SI.push(EW(_v, _E, _which, k_), u32(width(z3.If(_which == 0, _en, _et))))),
                               [(EW(_v, _E, _which, k_), EW(_v, _E, _which, n_), _e)])])
_sk = entries_of(SS.at(_S, k_))
add_group([SW.name()], [forall([_S, _which], SW(_S, _which, 0) == SI.emp, [SW(_S, _which, 0)]),
                        forall([_S, _which, k_, n_], Im(A(k_ >= 0, n_ == k_ + 1), SW(_S, _which, n_) == EW(SW(_S, _which, k_), _sk, _which, ES.len(_sk))),
                               [(SW(_S, _which, k_), SW(_S, _which, n_), SS.at(_S, k_))])])
add_group([MAX.name()], [forall([_v], Im(SI.len(_v) > 0, A(0 <= MAXI(_v), MAXI(_v) < SI.len(_v), MAX(_v) == SI.at(_v, MAXI(_v)))), [MAX(_v)]),
                         forall([_v, k_], Im(A(0 <= k_, k_ < SI.len(_v)), SI.at(_v, k_) <= MAX(_v)), [(MAX(_v), SI.at(_v, k_))])])


def label_width(S, lw):
    """the columns for the names, if they and the texts fit in the lines; else 0"""
    n, t = (MAX(SW(S, z3.IntVal(i), SS.len(S))) for i in (0, 1))
    n = u32(n + 3)
    return z3.If(O(n > 32, u32(n + t) > lw), z3.IntVal(0), n)


@contract('argos::get_help_text_label_width', 'C17 C14')
class _:
    def requires(self, sc):
        S = sc.arg(1)
        return F(sc, arg=0).inv() + [('there are entries', A(SS.len(S) > 0, no_empty(S)))]

    def ensures(self, sc):
        return [('the greatest width of a name', sc.result == label_width(sc.arg(1), F(sc, arg=0).w.lw)), ('at most 32 columns', A(0 <= sc.result, sc.result <= 32))]

    def outer(sc):
        r = []
        for i, n in enumerate(('name_widths', 'text_widths')):
            v = var(sc, n, 'vector<u32>', i)
            r.append((f'the {n} so far', A(SI.eqS(v, SW(sc.fsc.arg(1), z3.IntVal(i), sc.i)), Im(sc.i > 0, SI.len(v) > 0))))
        return r

    def inner(sc):
        r = []
        for i, n in enumerate(('name_widths', 'text_widths')):
            v, v0 = var(sc, n, 'vector<u32>', i), var0(sc, n, 'vector<u32>', i)
            r.append((f'the {n} of the entries', A(SI.eqS(v, EW(v0, sc.range, z3.IntVal(i), sc.i)), SI.len(v) == SI.len(v0) + sc.i)))
        return r

    loops = (Loop(outer), Loop(inner))


# what is written for the entries of a section, and for the sections; z: the texts start on a line of their own
WE = z3.Function('written_entries', Str.sort, ES.sort, BoolS, IntS, Str.sort)
WS_ = z3.Function('written_sections', Str.sort, SS.sort, BoolS, BoolS, IntS, Str.sort)
_z, _b = z3.Bool('z!h'), z3.Bool('b!h')
_we, _ws = WE(P_, _E, _z, k_), WS_(P_, _S, _b, _z, k_)
_q = words(_we, _en)
add_group([WE.name()], [forall([P_, _E, _z], WE(P_, _E, _z, 0) == P_, [WE(P_, _E, _z, 0)]),
                        forall([P_, _E, _z, k_, n_], Im(A(k_ >= 0, n_ == k_ + 1), WE(P_, _E, _z, n_) == line(z3.If(L(_et) == 0, _q, words(z3.If(_z, line(_q), _q), _et)))), [(_we, WE(P_, _E, _z, n_), _e)])])
_s = SS.at(_S, k_)
add_group([WS_.name()], [forall([P_, _S, _b, _z], WS_(P_, _S, _b, _z, 0) == P_, [WS_(P_, _S, _b, _z, 0)]),
                         forall([P_, _S, _b, _z, k_, n_], Im(A(k_ >= 0, n_ == k_ + 1), WS_(P_, _S, _b, _z, n_) == WE(line(words(z3.If(O(_b, k_ > 0), line(_ws), _ws), title_of(_s))), entries_of(_s), _z, ES.len(entries_of(_s)))),
                                [(_ws, WS_(P_, _S, _b, _z, n_), _s)])])


ENDED = [('entries end with a line break', forall([P_, _E, _z, k_], Im(A(ENDS(P_), k_ >= 0), ENDS(WE(P_, _E, _z, k_))), [WE(P_, _E, _z, k_)])),
         ('sections end with a line break', forall([P_, _S, _b, _z, k_], Im(A(ENDS(P_), k_ >= 0), ENDS(WS_(P_, _S, _b, _z, k_))), [WS_(P_, _S, _b, _z, k_)]))]


@lemma('entries end with a line break (induction step)', 'C17')
def _():
    w = lambda k: WE(P_, _E, _z, k)
    return [k_ >= 0, ENDS(P_), w(0) == P_, ENDS(w(k_)), touch(w(k_)), touch(w(k_ + 1)), touch(_e)], A(ENDS(w(0)), ENDS(w(k_ + 1)))


@lemma('sections end with a line break (induction step)', 'C17')
def _():
    w = lambda k: WS_(P_, _S, _b, _z, k)
    return [k_ >= 0, ENDS(P_), w(0) == P_, ENDS(w(k_)), touch(w(k_)), touch(w(k_ + 1)), touch(_s), ENDED[0][1]], A(ENDS(w(0)), ENDS(w(k_ + 1)))


def all_sections(sc, p, cmd, before, lw):
    S = sections(sc, cmd)
    return WS_(p, S, before, label_width(S, lw) == 0, SS.len(S))


def _listing(part):
    def loop(sc):
        S = var(sc, 'sections', SECTIONS.name, 0)
        return [('the entries so far', SS.eqS(S, sections(sc.fsc, sc.fsc.arg(1).addr, part, sc.i))), ('no section is empty', no_empty(S))]
    return Loop(loop)


def _zero(sc):
    return var(sc, 'name_width', 'u32', 0) == 0


def _sections(sc):
    S = var(sc, 'sections', SECTIONS.name, 0)
    return wl(sc, lambda p: WS_(p, S, sc.fsc.old(2), _zero(sc), sc.i)) + [('an empty line comes before all but the first', sc.param(2) == O(sc.fsc.old(2), sc.i > 0))]


def sources_ok(sc, cmd):
    src, a, c = Source(sc.I), cfield(sc, 'arguments', cmd), cfield(sc, 'commands', cmd)
    return [('texts that are callbacks have one', A(
        forall([j_], Im(A(0 <= j_, j_ < RA.len(a)), src.ok(SEL(sc.H('ArgumentData', 'help'), RA.at(a, j_)))), [RA.at(a, j_)]),
        forall([j_], Im(A(0 <= j_, j_ < RA.len(c)), Texts(sc, RA.at(c, j_)).ok()[1]), [RA.at(c, j_)])))]


@contract('argos::write_argument_sections', 'C17')
class _(Help):
    def pre(self, sc):
        cmd = cmd_of(sc)
        return command_ok(sc, cmd) + [Texts(sc, cmd).ok()] + sources_ok(sc, cmd)

    def payload(self, sc, p):
        return all_sections(sc, p, cmd_of(sc), sc.old(2), F(sc, arg=0).w.lw)

    loops = (_listing(1), _listing(2), _listing(3), Loop(_sections), Loop(lambda sc: wl(sc, lambda p: WE(p, sc.range, _zero(sc), sc.i), True)))


# ------------------------------------------------------------------ whole messages
nonempty = lambda t, i: A(t.has(i), L(t.text(i)) > 0)


def help_text(sc, p, cmd, lw):
    t = Texts(sc, cmd)
    put = lambda p, i, before: custom(p, t.has(i), t.text(i), before)
    p, b = put(p, INITIAL_TEXT, z3.BoolVal(False)), nonempty(t, INITIAL_TEXT)
    p, u = usage(sc, p, cmd, b)
    b = O(u, b)
    p = z3.If(nonempty(t, ABOUT), put(p, ABOUT, b), put(p, HELP, b))
    b = O(nonempty(t, ABOUT), nonempty(t, HELP), b)
    return put(all_sections(sc, p, cmd, b, lw), FINAL_TEXT, z3.BoolVal(True))


class Message:
    """writes to the stream of the parser, or to a standard one"""

    def cmd(self, sc):
        return sc.arg(1).addr

    def setting(self, sc, f):
        return sc.oh('HelpSettings', f, sc.I.sub_addr(sc.arg(0).addr, 'ParserData', 'help_settings'))

    def lw(self, sc):
        n = self.setting(sc, 'line_width')
        return z3.If(n != 0, n, COLUMNS)

    def requires(self, sc):
        return command_ok(sc, self.cmd(sc)) + [Texts(sc, self.cmd(sc)).ok()]

    def modifies(self, sc):
        return [('heapfield', 'Ghost', 'text')]

    def throws(self, sc):
        lw, rules = self.setting(sc, 'line_width'), self.setting(sc, 'word_split_rules')
        return O(A(lw != 0, lw <= 2), z3.Exists([n_], A(0 <= n_, n_ < RS.len(rules), BADRULE(RS.at(rules, n_)))))

    def ensures(self, sc):
        lw, out = self.lw(sc), self.setting(sc, 'output_stream')
        out = out if z3.is_expr(out) else out.addr
        x = z3.If(out != null, out, z3.Const('std::' + self.stream, Addr))
        t, t0 = sc.H('Ghost', 'text'), sc.OH('Ghost', 'text')
        lay = lambda t, p: LAY(lw, Str.cat(SEL(t, x), Str.emp), p, 0, EMPTY(Str.emp))
        w = lambda pay: forall([P_], Im(A(lay(t0, P_), ENDS(P_)), A(lay(t, pay(P_)), ENDS(pay(P_)))), [lay(t0, P_)])
        return [('what is written', self.written(sc, w)), ('other streams are given nothing', others(t, t0, x))]


@contract('argos::write_help_text', 'C17 C14')
class _(Message):
    stream = 'cout'

    def requires(self, sc):
        return Message.requires(self, sc) + sources_ok(sc, self.cmd(sc))

    def axioms_at_entry(self, sc):
        return ENDED

    def written(self, sc, w):
        return w(lambda p: help_text(sc, p, self.cmd(sc), self.lw(sc)))


@contract('argos::write_error_message', 'C17 C14', nparams=3)
class _(Message):
    stream = 'cerr'

    def written(self, sc, w):
        cmd = self.cmd(sc)
        t = Texts(sc, cmd)

        def pay(p):
            p = line(words(words(p, cat(cfield(sc, 'full_name', cmd), lit(b': '))), sc.old(2)))
            return z3.If(t.has(ERROR_USAGE), custom(p, z3.BoolVal(True), t.text(ERROR_USAGE), z3.BoolVal(False)), usage(sc, p, cmd, z3.BoolVal(False))[0])
        return w(pay)


# ------------------------------------------------------------------ the name in an error message
JOIN = z3.Function('joined_flags', RS.sort, IntS, Str.sort)
add_group([JOIN.name()], [forall([_fl], JOIN(_fl, 1) == RS.at(_fl, 0), [JOIN(_fl, 1)]),
                          forall([_fl, k_, n_], Im(A(k_ >= 1, n_ == k_ + 1), JOIN(_fl, n_) == cat(JOIN(_fl, k_), cat(lit(b', '), RS.at(_fl, k_)))), [(JOIN(_fl, k_), JOIN(_fl, n_))])])


class NoneSoFar:
    def __init__(self, sc, ent, a, id_):
        self.has = lambda i: SEL(sc.H(ent, 'argument_id'), RA.at(a, i)) == id_
        self.a = a

    def before(self, n):
        return forall([k_], Im(A(0 <= k_, k_ < n), N(self.has(k_))), [RA.at(self.a, k_)])

    def first(self, i):
        return A(0 <= i, i < RA.len(self.a), self.has(i), self.before(i))


def _search(ent, list_, rest=lambda sc: []):
    def inv(sc):
        a = cfield(sc.fsc, list_, sc.fsc.arg(0).addr)
        return [('none so far', NoneSoFar(sc, ent, a, sc.fsc.old(1)).before(sc.i))]
    return Loop(inv)


def _join(sc):
    n, i = var(sc, 'name', 'string', 0), var(sc, 'i', 'u64', 0)
    o = sc.I.load(sc.I.env[sc.names['o']]) if 'o' in sc.names else sc.range
    o = o.addr if hasattr(o, 'addr') else o
    fl = sc.h('OptionData', 'flags', o)
    return [('the flags so far', A(1 <= i, i <= RS.len(fl), Str.eqS(n, JOIN(fl, i))))]


@contract('argos::get_name', 'C17 C21', nparams=2)
class _:
    def requires(self, sc):
        return []

    def assumes(self, sc):
        return [('the options of a command exist and have flags (C04)', options_ok(sc, sc.arg(0).addr)[0][1])] + \
               [('the arguments of a command exist', arguments_ok(sc, sc.arg(0).addr)[0][1])]

    def ensures(self, sc):
        cmd = sc.arg(0).addr
        args, opts = cfield(sc, 'arguments', cmd), cfield(sc, 'options', cmd)
        a, o = NoneSoFar(sc, 'ArgumentData', args, sc.old(1)), NoneSoFar(sc, 'OptionData', opts, sc.old(1))
        name, fl = SEL(sc.H('ArgumentData', 'name'), RA.at(args, n_)), SEL(sc.H('OptionData', 'flags'), RA.at(opts, n_))
        return [('the name of the first argument with the id', forall([n_], Im(a.first(n_), Str.eqS(sc.result, name)), [RA.at(args, n_)])),
                ('or the flags of the first option with it', forall([n_], Im(A(a.before(RA.len(args)), o.first(n_)), Str.eqS(sc.result, JOIN(fl, RS.len(fl)))), [RA.at(opts, n_)])),
                ('or nothing', Im(A(a.before(RA.len(args)), o.before(RA.len(opts))), L(sc.result) == 0))]

    loops = (_search('ArgumentData', 'arguments'), _search('OptionData', 'options'), Loop(_join))


# ------------------------------------------------------------------ what adding an entry means
_i, _j = z3.Ints('i!h j!h')
distinct_titles = lambda S: forall([_i, _j], Im(A(0 <= _i, _i < _j, _j < SS.len(S)), title_of(SS.at(S, _i)) != title_of(SS.at(S, _j))), [(SS.at(S, _i), SS.at(S, _j))])


@lemma('no two sections have the same title (step)', 'C17')
def _():
    return [distinct_titles(_S), touch(ADD(_S, _t, _n, _x)), touch(_fs), touch(SS.at(_S, _fs))], distinct_titles(ADD(_S, _t, _n, _x))


@lemma('an entry is added once, last in the section with its title, and nowhere else', 'C17')
def _():
    S1 = ADD(_S, _t, _n, _x)
    e = entries_of(SS.at(S1, _fs))
    n = ES.len(e)
    old = z3.If(_fs < SS.len(_S), ES.len(entries_of(_at)), z3.IntVal(0))
    return [touch(S1), touch(_fs), touch(SS.at(S1, _fs)), touch(_at), touch(ES.at(e, n - 1)), touch(ES.at(entries_of(_at), _j)), touch(ES.at(e, _j)), touch(SS.at(_S, _i)), touch(SS.at(S1, _i))], \
        A(title_of(SS.at(S1, _fs)) == _t, n == old + 1, ES.at(e, n - 1) == _new, Im(A(_fs < SS.len(_S), 0 <= _j, _j < old), ES.at(e, _j) == ES.at(entries_of(_at), _j)),
          Im(A(0 <= _i, _i < SS.len(_S), _i != _fs), SS.at(S1, _i) == SS.at(_S, _i)), SS.len(S1) == SS.len(_S) + z3.If(_fs < SS.len(_S), z3.IntVal(0), z3.IntVal(1)))
