"""C03 C04 C06 C09 C13: the definitions are checked and completed before parsing (CommandData.cpp, ParserData.cpp: finish_initialization)"""
from .core import *
from .strings import A, O, N, Im, Str, L, at
from . import parserdata as PD
from . import ids

SEL, RS, RA = z3.Select, PD.RS, PD.RA
C, OD, AD = 'CommandData', 'OptionData', 'ArgumentData'

# Commands that own other commands form a tree: they can be numbered, parents first, so that the descendants of the
# command numbered LO have the numbers up to HI. CH is where the numbers of the k'th child begin.
LO, HI, OWNO, OWNA, IXO, IXA = (z3.Function(n, Addr, IntS) for n in ('number_of_command', 'end_of_descendants', 'owner_of_option', 'owner_of_argument', 'index_of_option', 'index_of_argument'))
CH = z3.Function('start_of_child', Addr, IntS, IntS)
AT = z3.Function('command_with_number', IntS, Addr)
_x, _k, _y = z3.Const('x!c', Addr), z3.Int('k!'), z3.Const('y!f', Addr)

VALID = z3.Function('valid_option', RS.sort, *[Str.sort] * 3, IntS, BoolS, IntS, BoolS)
_v = [z3.Const('v%d!' % i, s) for i, s in enumerate([RS.sort, Str.sort, Str.sort, Str.sort, IntS, BoolS, IntS])]


def _valid(fl, arg, con, ali, op, opt, style):
    arg, con, ali = (L(t) > 0 for t in (arg, con, ali))
    return N(O(RS.len(fl) == 0, N(PD.flags_ok(fl, RS.len(fl), style, arg)), A(arg, con), A(op == PD.NONE, O(con, ali)), A(op == PD.APPEND, N(arg), N(con)), A(op == PD.CLEAR, N(opt))))


add_group(['valid_option'], [forall(_v, VALID(*_v) == _valid(*_v), [VALID(*_v)])])


def inside(x, c):
    return A(LO(c) <= LO(x), LO(x) < HI(c))


class Tree:
    """the definitions as they are in a heap"""

    def __init__(self, H):
        self.H = H

    def f(self, e, n, a):
        return SEL(self.H(e, n), a)

    def cmds(self, x):
        return self.f(C, 'commands', x)

    def opts(self, x):
        return self.f(C, 'options', x)

    def args(self, x):
        return self.f(C, 'arguments', x)

    def valid(self, o, style):
        return VALID(*[self.f(OD, n, o) for n in ('flags', 'argument', 'constant', 'alias', 'operation', 'optional')], style)

    def shape(self, c, allocs):
        y, o, a = RA.at(self.cmds(_x), _k), RA.at(self.opts(_x), _k), RA.at(self.args(_x), _k)
        k = lambda l: A(inside(_x, c), 0 <= _k, _k < RA.len(l))
        real = lambda p: A(p != null, rid(p) >= -allocs)
        return [('there is a command', A(c != null, rid(c) >= -allocs, LO(c) < HI(c))),
                ('commands have numbers', forall([_x], Im(inside(_x, c), A(AT(LO(_x)) == _x, LO(_x) < HI(_x), CH(_x, 0) == LO(_x) + 1, CH(_x, RA.len(self.cmds(_x))) == HI(_x))), [LO(_x)])),
                ('children come after their parents', forall([_x, _k], Im(A(inside(_x, c), 0 <= _k, _k <= RA.len(self.cmds(_x))), A(LO(_x) < CH(_x, _k), CH(_x, _k) <= HI(_x))), [CH(_x, _k)])),
                ('in turn', forall([_x, _k], Im(k(self.cmds(_x)), A(real(y), LO(y) == CH(_x, _k), LO(y) < HI(y), HI(y) == CH(_x, _k + 1), HI(y) <= HI(_x))), [y])),
                ('every option has one owner', forall([_x, _k], Im(k(self.opts(_x)), A(real(o), OWNO(o) == LO(_x), IXO(o) == _k, 0 <= self.f(OD, 'operation', o), self.f(OD, 'operation', o) <= 3)), [o])),
                ('every argument has one owner', forall([_x, _k], Im(k(self.args(_x)), A(real(a), OWNA(a) == LO(_x), IXA(a) == _k)), [a]))]

    def owned(self, c, lst, own, y):
        """y is one of the definitions of c or of its descendants"""
        z = AT(own(y))
        return A(inside(z, c), PD.INLIST(lst(z), y))

    def well(self, x, style, ci, upto=None):
        o = RA.at(self.opts(x), _k)
        r = self.T_req.unpack(self.f(C, 'require_subcommand', x))
        return A(forall([_k], Im(A(0 <= _k, _k < RA.len(self.opts(x))), self.valid(o, style)), [o]), N(PD.CLASHES(self.opts(x), self.H(OD, 'flags'), ci)),
                 N(A(r.has, r.val, RA.len(self.cmds(x)) == 0)))


def tree(sc, old=True):
    t = Tree(sc.OH if old else sc.H)
    t.T_req = sc.T(C, 'require_subcommand')
    t.T_index = sc.T(C, 'option_index')
    return t


def sorted_index(ix, ci, memo={}):
    if ix.T.name not in memo:
        f = memo[ix.T.name] = z3.Function('is_sorted_index', ix.T.sort, BoolS, BoolS)
        v, b = z3.Const('x!ix', ix.T.sort), z3.Bool('ci!')
        add_group(['is_sorted_index'], [forall([v, b], f(v, b) == PD.Index(v, ix.T).sorted(b), [f(v, b)])])
    return memo[ix.T.name](ix.v, ci)


T_STOP = 2


def full_name(parent, name):
    return Str.cat(Str.push(parent, z3.IntVal(32)), name)


def ready(sc, t0, t1, x, ci, most=1, names=None):
    """what is known about a command that has been completed"""
    ix = PD.Index(t1.f(C, 'option_index', x), t1.T_index)
    c = PD.Complete.fns(t1.T_index)
    r0, r1 = (t.T_req.unpack(t.f(C, 'require_subcommand', x)) for t in (t0, t1))
    o, a = RA.at(t1.opts(x), _k), RA.at(t0.args(x), _k)
    n0 = RA.len(t0.opts(x))
    num = t1.f(C, 'argument_id', x)
    y = RA.at(t0.cmds(x), _k)
    return [('the full names of its subcommands', forall([_k], Im(A(0 <= _k, _k < (RA.len(t0.cmds(x)) if names is None else names)),
                                                                  A(L(t1.f(C, 'full_name', y)) > 0, Str.eqS(t1.f(C, 'full_name', y), full_name(t1.f(C, 'full_name', x), t0.f(C, 'name', y))))), [y])),
            ('its index is sorted and has no equal flags', sorted_index(ix, ci)), ('every flag can be looked up', c.has(ix.v, t1.opts(x), t1.H(OD, 'flags'))),
            ('nothing else can', c.only(ix.v, t1.opts(x), t1.H(OD, 'flags'))),
            ('its options exist', forall([_k], Im(A(0 <= _k, _k < RA.len(t1.opts(x))), A(o != null, rid(o) >= -sc.allocs1, Im(_k >= n0, A(_k < n0 + most, is_new(o, sc.allocs0), O(t1.f(OD, 'type', o) == PD.HELP, A(most > 1, t1.f(OD, 'type', o) == T_STOP)))), Im(_k < n0, o == RA.at(t0.opts(x), _k)))), [o])),
            ('it has its options', RA.len(t1.opts(x)) >= n0),
            ('a command with subcommands requires one unless told otherwise', A(r1.has, r1.val == z3.If(r0.has, r0.val, RA.len(t0.cmds(x)) > 0))),
            ('its options are numbered', forall([_k], Im(A(0 <= _k, _k < RA.len(t1.opts(x))), t1.f(OD, 'argument_id', o) == num + RA.len(t0.args(x)) + 1 + _k), [o])),
            ('its arguments are numbered', forall([_k], Im(A(0 <= _k, _k < RA.len(t0.args(x))), t1.f(AD, 'argument_id', a) == num + 1 + _k), [a]))]


CHANGED = ('full_name', 'require_subcommand', 'options', 'argument_id', 'option_index')


def frame(sc, t0, t1, c, skip_names=None):
    """other commands, options and arguments are as they were"""
    out = [(f'other commands: {f}', forall([_x], Im(N(inside(_x, c)), t1.f(C, f, _x) == t0.f(C, f, _x)), [t1.f(C, f, _x)])) for f in CHANGED]
    for e, lst, own, fs in ((OD, t0.opts, OWNO, ('constant', 'value_id', 'argument_id')), (AD, t0.args, OWNA, ('value_id', 'argument_id'))):
        for f in fs:
            out.append((f'other {e}: {f}', forall([_y], Im(A(rid(_y) >= -sc.allocs0, N(t0.owned(c, lst, own, _y))), t1.f(e, f, _y) == t0.f(e, f, _y)), [t1.f(e, f, _y)])))
    return out


class Finish:
    counts_fit = ids.FIT
    allocates = True

    def style(self, sc):
        return sc.oh('ParserSettings', 'option_style', self.settings(sc))

    def ci(self, sc):
        return sc.oh('ParserSettings', 'case_insensitive', self.settings(sc))

    def requires(self, sc):
        return tree(sc).shape(self.cmd(sc), sc.allocs0) + [('a defined style', A(0 <= self.style(sc), self.style(sc) <= 2))]

    def axioms_at_entry(self, sc):
        return PD.STAY + PD.VALID_FLAG

    def throws(self, sc):
        t, c = tree(sc), self.cmd(sc)
        return N(forall([_x], Im(inside(_x, c), t.well(_x, self.style(sc), self.ci(sc))), [LO(_x)]))

    def modifies(self, sc):
        return [('heapfield', C, f) for f in CHANGED] + [('heapfield', OD, f) for f in ('constant', 'value_id', 'argument_id')] + [('heapfield', AD, f) for f in ('value_id', 'argument_id')]

    def ensures(self, sc):
        t0, t1, c = tree(sc), tree(sc, False), self.cmd(sc)
        return [('the command: ' + n, f) for n, f in ready(sc, t0, t1, c, self.ci(sc))] + \
            [('its descendants: ' + n, forall([_x], Im(A(LO(c) < LO(_x), LO(_x) < HI(c)), f), [LO(_x)])) for n, f in ready(sc, t0, t1, _x, self.ci(sc))] + frame(sc, t0, t1, c) + \
            [('descendants end before it ends', forall([_x], Im(A(LO(c) < LO(_x), LO(_x) < HI(c)), HI(_x) <= HI(c)), [LO(_x)])),
             ('its full name', t1.f(C, 'full_name', c) == z3.If(L(t0.f(C, 'full_name', c)) == 0, t0.f(C, 'name', c), t0.f(C, 'full_name', c)))]


def _checked(sc):
    f = sc.fsc
    t0, t1, c = tree(f), Tree(sc.H), f.c.cmd(f)
    o = RA.at(t0.opts(c), _k)
    return [('the options so far are valid', forall([_k], Im(A(0 <= _k, _k < sc.i), t0.valid(o, f.c.style(f))), [o])),
            ('the others are as they were', forall([_y], Im(O(N(PD.INLIST(t0.opts(c), _y)), IXO(_y) >= sc.i), t1.f(OD, 'constant', _y) == t0.f(OD, 'constant', _y)), [t1.f(OD, 'constant', _y)]))]


def _children(sc):
    f = sc.fsc
    t0, t1, c = tree(f), Tree(sc.H), f.c.cmd(f)
    t1.T_req, t1.T_index = t0.T_req, t0.T_index
    te = Tree(sc.OH)
    style, ci = f.c.style(f), f.c.ci(f)
    seen = A(LO(c) < LO(_x), LO(_x) < CH(c, sc.i))
    done = lambda x: A(LO(c) < LO(x), LO(x) < CH(c, sc.i))
    out = [('descendants so far were valid', forall([_x], Im(seen, t0.well(_x, style, ci)), [LO(_x)]))]
    out += [('descendants so far: ' + n, forall([_x], Im(seen, g), [LO(_x)])) for n, g in ready(sc, t0, t1, _x, ci)]
    out.append(ready(sc, t0, t1, c, ci, names=sc.i)[0])
    y = RA.at(t0.cmds(c), _k)
    out.append(('children so far come before', forall([_k], Im(A(0 <= _k, _k < sc.i), LO(y) < CH(c, sc.i)), [y])))
    out.append(('descendants so far end', forall([_x], Im(seen, HI(_x) <= CH(c, sc.i)), [LO(_x)])))
    for fl in CHANGED:
        out.append((f'other commands: {fl}', forall([_x], Im(N(done(_x)), t1.f(C, fl, _x) == te.f(C, fl, _x)), [t1.f(C, fl, _x)])))
    for e, lst, own, fs in ((OD, t0.opts, OWNO, ('constant', 'value_id', 'argument_id')), (AD, t0.args, OWNA, ('value_id', 'argument_id'))):
        for fl in fs:
            z = AT(own(_y))
            out.append((f'other {e}: {fl}', forall([_y], Im(A(rid(_y) >= -sc.allocs_before, N(A(done(z), PD.INLIST(lst(z), _y)))), t1.f(e, fl, _y) == te.f(e, fl, _y)), [t1.f(e, fl, _y)])))
    return out


@contract('argos::finish_initialization', 'C03 C04 C06 C09 C13', nparams=4)
class _(Finish):
    loops = (Loop(_checked), Loop(_children))

    def cmd(self, sc):
        return sc.old(0).addr

    def settings(self, sc):
        return sc.I.sub_addr(sc.old(1).addr, 'ParserData', 'parser_settings')


# ------------------------------------------------------------------ the whole parser
@contract('argos::finish_initialization', 'C03 C04 C06 C09 C13', nparams=1)
class _(Finish):
    """The version option is new: nothing is said about it beforehand, so that its owner can be chosen."""

    def data(self, sc):
        return sc.old(0).addr

    def cmd(self, sc):
        return sc.I.sub_addr(self.data(sc), 'ParserData', 'command')

    def settings(self, sc):
        return sc.I.sub_addr(self.data(sc), 'ParserData', 'parser_settings')

    def axioms_at_entry(self, sc):
        y = z3.Const('y!n', Addr)
        return Finish.axioms_at_entry(self, sc) + [('the version option belongs to the main command', forall([y], Im(rid(y) < -sc.allocs0, A(OWNO(y) == LO(self.cmd(sc)), IXO(y) == RA.len(tree(sc).opts(self.cmd(sc))))), [OWNO(y)]))]

    def ensures(self, sc):
        t0, t1, c = tree(sc), tree(sc, False), self.cmd(sc)
        return [('the main command: ' + n, f) for n, f in ready(sc, t0, t1, c, self.ci(sc), 2)] + \
            [('its descendants: ' + n, forall([_x], Im(A(LO(c) < LO(_x), LO(_x) < HI(c)), f), [LO(_x)])) for n, f in ready(sc, t0, t1, _x, self.ci(sc))] + frame(sc, t0, t1, c)
