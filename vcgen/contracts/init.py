"""C04 C06 C09 C13 C20: what happens to the definitions when parsing starts (ParserData.cpp, CommandData.cpp)"""
from .core import *
from .strings import A, O, N, Im, Str, L, at
from . import parserdata as PD

SEL, RS, RA = z3.Select, PD.RS, PD.RA
STANDARD, SLASH, DASH = 0, 1, 2
T_NORMAL, T_HELP, T_STOP = 0, 1, 2
lit = lambda s: PD.strlit(s)


def has(sc, cmd, ci, text):
    """an option of the command has the flag"""
    return PD.Flags(sc, cmd).has(lit(text), ci)


def texts(*xs):
    r = RS.emp
    for x in xs:
        r = RS.push(r, lit(x))
    return r


def added(sc, cmd, flags, type_, before):
    """the command has one option more"""
    o0, o1 = sc.oh('CommandData', 'options', cmd), sc.h('CommandData', 'options', cmd)
    x = RA.at(o1, RA.len(o0))
    f = lambda n: sc.h('OptionData', n, x)
    return [('an option is added last', A(o1 == RA.push(o0, x), is_new(x, before), x != null)),
            ('it has the flags', RS.eqS(f('flags'), flags)),
            ('its type', f('type') == type_),
            ('it is a visible option without argument', A(f('constant') == lit(b'1'), L(f('argument')) == 0, L(f('alias')) == 0, L(f('initial_value')) == 0, f('optional'),
                                                         f('operation') == PD.ASSIGN, f('visibility') == 3)),
            ('in the current section', f('section') == sc.oh('CommandData', 'current_section', cmd))]


def kept(sc, cmd):
    return sc.h('CommandData', 'options', cmd) == sc.oh('CommandData', 'options', cmd)


class Adds:
    allocates = True

    def requires(self, sc):
        return [PD.Flags(sc, self.cmd(sc)).real(), ('a defined style', A(0 <= self.style(sc), self.style(sc) <= 2))]

    def axioms_at_entry(self, sc):
        return [PD.FLAGS_MONO]

    def modifies(self, sc):
        return [obj_field('CommandData', 'options', self.cmd(sc))]

    def style(self, sc):
        return sc.oh('ParserSettings', 'option_style', self.settings(sc))

    def ci(self, sc):
        return sc.oh('ParserSettings', 'case_insensitive', self.settings(sc))

    def ensures(self, sc):
        cmd, out = self.cmd(sc), []
        want, none = self.want(sc, lambda t: has(sc, cmd, self.ci(sc), t))
        on = self.on(sc)
        for title, cond, flags in want:
            out += [(f'{title}: {l}', Im(A(on, cond), f)) for l, f in added(sc, cmd, flags, self.type_, sc.allocs0)]
        o0, o1 = sc.oh('CommandData', 'options', cmd), sc.h('CommandData', 'options', cmd)
        x = RA.at(o1, RA.len(o0))
        out.append(('one option is added at most', O(kept(sc, cmd), A(o1 == RA.push(o0, x), x != null, is_new(x, sc.allocs0), rid(x) >= -sc.allocs1, sc.h('OptionData', 'type', x) == self.type_,
                                                                      sc.h('OptionData', 'operation', x) == PD.ASSIGN, RS.len(sc.h('OptionData', 'flags', x)) > 0))))
        return out + [(f'nothing is added when {t}', Im(c, kept(sc, cmd))) for t, c in [('it is not wanted', N(on))] + [(t, A(on, c)) for t, c in none]]


@contract('argos::add_help_option', 'C04 C13 C17')
class _(Adds):
    type_ = T_HELP

    def cmd(self, sc):
        return sc.arg(0).addr

    def settings(self, sc):
        return sc.arg(1).addr

    def on(self, sc):
        a = sc.oh('CommandData', 'options', self.cmd(sc))
        return A(sc.oh('ParserSettings', 'generate_help_option', self.settings(sc)), PD._nohelp(sc, sc.arg(0), RA.len(a)))

    def want(self, sc, has):
        s = self.style(sc)
        h, hh, q, dh = has(b'-h'), has(b'--help'), has(b'/?'), has(b'-help')
        return [('standard', A(s == STANDARD, N(h), N(hh)), texts(b'-h', b'--help')), ('standard, -h taken', A(s == STANDARD, h, N(hh)), texts(b'--help')),
                ('standard, --help taken', A(s == STANDARD, N(h), hh), texts(b'-h')), ('slash', A(s == SLASH, N(q)), texts(b'/?')),
                ('dash', A(s == DASH, N(h)), texts(b'-h')), ('dash, -h taken', A(s == DASH, h, N(dh)), texts(b'-help'))], \
               [('standard flags are taken', A(s == STANDARD, h, hh)), ('the slash flag is taken', A(s == SLASH, q)), ('dash flags are taken', A(s == DASH, h, dh))]


@contract('argos::add_version_option', 'C04 C13 C17 C19')
class _(Adds):
    type_ = T_STOP

    def data(self, sc):
        return sc.arg(0).addr

    def cmd(self, sc):
        return sc.I.sub_addr(self.data(sc), 'ParserData', 'command')

    def settings(self, sc):
        return sc.I.sub_addr(self.data(sc), 'ParserData', 'parser_settings')

    def on(self, sc):
        return L(sc.oh('ParserData', 'version', self.data(sc))) > 0

    def want(self, sc, has):
        s = self.style(sc)
        fl = [(STANDARD, b'--version'), (SLASH, b'/VERSION'), (DASH, b'-version')]
        return [(f.decode(), A(s == k, N(has(f))), texts(f)) for k, f in fl], [(f.decode() + ' is taken', A(s == k, has(f))) for k, f in fl]
