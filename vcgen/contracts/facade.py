"""C20 (and C06, C19): Argument.cpp, Option.cpp, Command.cpp, ArgumentParser.cpp, ArgumentIterator.cpp"""
import lib
from .core import *
from .strings import A, O, N, Im, Str, L, at
from . import parserdata as PD

RS, RA, SEL = PD.RS, PD.RA, z3.Select


class Facade:
    """A member function of a class that owns its definition through a pointer: throws iff there is none."""
    ptr = ent = None
    sets = {}             # member -> function of (scope, old value) giving the new value
    types = None          # parameter types, where there are overloads
    also = None           # another reason to throw

    def match(self, n, pts):
        return (self.nparams is None or len(pts) == self.nparams) and (self.types is None or [type_text(t) for t in pts] == self.types)

    def p(self, sc):
        return sc.om(self.ptr)

    def part(self, sc, f):
        """entity, member and address of a (nested) member"""
        p, ent = self.p(sc), self.ent
        *way, f = f.split('.')
        for w in way:
            T_ = sc.T(ent, w)
            p, ent = sc.I.sub_addr(p, ent, w), T_.ent
        return ent, f, p

    def now(self, sc, f):
        return sc.h(*self.part(sc, f))

    def was(self, sc, f):
        return sc.oh(*self.part(sc, f))

    def throws(self, sc):
        none = self.p(sc) == null
        return none if self.also is None else O(none, type(self).also(sc))

    def modifies(self, sc):
        return [obj_field(*self.part(sc, f)) for f in self.sets]

    def on_throw(self, sc):
        return [(f'{f} is unchanged', same_value(self.now(sc, f), self.was(sc, f))) for f in self.sets]

    def ensures(self, sc):
        return [(f'{f} is set', same_value(self.now(sc, f), v(sc, self.was(sc, f)))) for f, v in self.sets.items()]

    def result_of(self, sc):
        return sc.this


def same_value(a, b):
    if isinstance(a, RecV):
        return A(*[same_value(a.f[k], b.f[k]) for k in a.f])
    if isinstance(a, OptV):
        return A(a.has == b.has, Im(a.has, same_value(a.val, b.val)))
    if isinstance(a, VarV):
        return A(a.tag == b.tag, *[Im(a.tag == i, same_value(x, y)) for i, (x, y) in enumerate(zip(a.alts, b.alts))])
    return a == b


def first(sc, old):
    return sc.old(0)


def setters(cls, ptr, ent, table, props='C20'):
    for t in table:
        name, sets = t[0], t[1]
        d = dict(ptr=ptr, ent=ent, sets=sets)
        if len(t) > 2:
            d.update(t[2])
            if 'also' in d:
                d['also'] = staticmethod(d['also'])
        contract(f'argos::{cls}::{name}', props, nparams=d.pop('nparams', None))(type(f'{cls}_{name}', (Facade,), d))


TEXT = ['string&']
_n = lambda sc, old: sc.old(0)

setters('Argument', 'm_argument', 'ArgumentData', [
    ('check_argument', {}),
    ('section', {'section': first}), ('alias', {'alias': first}), ('visibility', {'visibility': first}), ('id', {'id': first}), ('name', {'name': first}),
    ('callback', {'callback': first}),
    ('optional', {'min_count': lambda sc, old: z3.If(sc.old(0), 0, z3.If(old == 0, 1, old))}),
    ('mandatory', {'min_count': lambda sc, old: z3.If(N(sc.old(0)), 0, z3.If(old == 0, 1, old))}),
    ('count', {'min_count': first, 'max_count': first}, dict(nparams=1, also=lambda sc: sc.old(0) == 0)),
    ('count', {'min_count': first, 'max_count': lambda sc, old: sc.old(1)}, dict(nparams=2, also=lambda sc: O(sc.old(1) == 0, sc.old(1) < sc.old(0)))),
])
setters('Option', 'm_option', 'OptionData', [
    ('check_option', {}),
    ('section', {'section': first}), ('alias', {'alias': first}), ('operation', {'operation': first}), ('visibility', {'visibility': first}),
    ('id', {'id': first}), ('flag', {'flags': lambda sc, old: RS.push(RS.emp, sc.old(0))}), ('flags', {'flags': first}),
    ('argument', {'argument': first}), ('initial_value', {'initial_value': first}), ('callback', {'callback': first}),
    ('type', {'type': first}), ('optional', {'optional': first}), ('mandatory', {'optional': lambda sc, old: N(sc.old(0))}),
])
setters('Command', 'data_', 'CommandData', [
    ('check_command', {}),
    ('name', {'name': first}), ('section', {'section': first}), ('current_section', {'current_section': first}), ('visibility', {'visibility': first}),
    ('id', {'id': first}), ('allow_multiple_subcommands', {'multi_command': first}),
])


# ------------------------------------------------------------------ ArgumentParser
class Getter(Facade):
    """A const member function that returns a member of the definition."""
    field = None
    result_of = None

    def ensures(self, sc):
        return [('the stored value', same_value(sc.I.load(sc.result), self.was(sc, self.field)))]


AP = dict(ptr='m_data', ent='ParserData')


def getters(table):
    for name, f in table:
        contract('argos::ArgumentParser::' + name, 'C20', nparams=0)(type('get_' + name, (Getter,), dict(AP, field=f)))


def some(sc, old):
    return OptV(old.T, z3.BoolVal(True), sc.old(0))


PS, HS, CM = 'parser_settings.', 'help_settings.', 'command.'
one = dict(nparams=1)
setters('ArgumentParser', 'm_data', 'ParserData', [
    ('check_data', {}),
    ('allow_abbreviated_options', {PS + 'allow_abbreviated_options': first}, one), ('auto_exit', {PS + 'auto_exit': first}, one),
    ('case_insensitive', {PS + 'case_insensitive': first}, one), ('generate_help_option', {PS + 'generate_help_option': first}, one),
    ('ignore_undefined_arguments', {PS + 'ignore_undefined_arguments': first}, one),
    ('ignore_undefined_options', {PS + 'ignore_undefined_options': first}, one),
    ('argument_callback', {PS + 'argument_callback': first}, one), ('option_callback', {PS + 'option_callback': first}, one),
    ('require_subcommand', {CM + 'require_subcommand': some}, one), ('allow_multiple_subcommands', {CM + 'multi_command': first}, one),
    ('stream', {HS + 'output_stream': first}, one), ('program_name', {CM + 'name': first}, one), ('version', {'version': first}, one),
    ('current_section', {CM + 'current_section': first}, one), ('section', {CM + 'current_section': first}, one),
    ('line_width', {HS + 'line_width': first}, one),
    ('add_word_splitting_rule', {HS + 'word_split_rules': lambda sc, old: RS.push(old, sc.old(0))}, one),
    ('set_exit_codes', {PS + 'error_exit_code': first, PS + 'normal_exit_code': lambda sc, old: sc.old(1)}, dict(nparams=2)),
])
setters('Command', 'data_', 'CommandData', [('require_subcommand', {'require_subcommand': some}, one)])
getters([('allow_abbreviated_options', PS + 'allow_abbreviated_options'), ('auto_exit', PS + 'auto_exit'), ('case_insensitive', PS + 'case_insensitive'),
         ('generate_help_option', PS + 'generate_help_option'), ('option_style', PS + 'option_style'),
         ('ignore_undefined_arguments', PS + 'ignore_undefined_arguments'), ('ignore_undefined_options', PS + 'ignore_undefined_options'),
         ('argument_callback', PS + 'argument_callback'), ('option_callback', PS + 'option_callback'), ('require_subcommand', CM + 'require_subcommand'),
         ('allow_multiple_subcommands', CM + 'multi_command'), ('stream', HS + 'output_stream'), ('program_name', CM + 'name'),
         ('current_section', CM + 'current_section')])


@contract('argos::ArgumentParser::option_style', 'C20 C06', nparams=1)
class _(Facade):
    ptr, ent = 'm_data', 'ParserData'
    sets = {PS + 'option_style': first}

    def throws(self, sc):
        return O(self.p(sc) == null, A(sc.old(0) != self.was(sc, PS + 'option_style'), RA.len(self.was(sc, CM + 'options')) > 0))


# ------------------------------------------------------------------ taking the definition out
class Release(Facade):
    result_of = None

    def modifies(self, sc):
        return [('loc', sc.mloc(self.ptr))]

    def on_throw(self, sc):
        return []

    def ensures(self, sc):
        return [('the definition is handed over', sc.result == self.p(sc)), ('and is no longer here', sc.m(self.ptr) == null)]


class Ref(Facade):
    result_of = None

    def ensures(self, sc):
        return [('the definition', sc.result.addr == self.p(sc))]

    def result_of(self, sc):
        return Ent(self.ent, self.p(sc))


for _c, _p, _e, _r in (('Argument', 'm_argument', 'ArgumentData', None), ('Option', 'm_option', 'OptionData', 'data'), ('Command', 'data_', 'CommandData', 'internal_ref')):
    contract(f'argos::{_c}::release', 'C20')(type(_c + '_release', (Release,), dict(ptr=_p, ent=_e)))
    if _r:
        contract(f'argos::{_c}::{_r}', 'C20')(type(_c + '_ref', (Ref,), dict(ptr=_p, ent=_e)))


# ------------------------------------------------------------------ texts: a string or a function
def source(T_, v):
    """a text source from a string or a function"""
    k = 0 if v.sort() == Str.sort else 1
    alts = [a.default() if not isinstance(a, TOpaque) else z3.Const('nofn', a.sort) for a in T_.alts]
    alts[k] = v
    return VarV(T_, z3.IntVal(k), alts)


def is_help(sc, old):
    return source(old.T, sc.old(0))


def put_text(sc, old, tid, v, T_):
    return z3.Store(old, tid, T_.opt.dt.mk(1, T_.V.pack(source(T_.V, v))))


class Texts(Facade):
    """sets the text of an id"""
    field = 'texts'
    tid = None

    @property
    def sets(self):
        def val(sc, old):
            ent, f, p = self.part(sc, self.field)
            tid, v = (sc.old(0), sc.old(1)) if self.tid is None else (z3.IntVal(self.tid), sc.old(0))
            return put_text(sc, old, tid, v, sc.T(ent, f))
        return {self.field: val}


TID = {n: i for i, n in enumerate('INITIAL_TEXT USAGE_TITLE USAGE ABOUT SUBCOMMANDS_TITLE ARGUMENTS_TITLE OPTIONS_TITLE FINAL_TEXT ERROR_USAGE HELP'.split())}
for _c, _p, _e in (('Argument', 'm_argument', 'ArgumentData'), ('Option', 'm_option', 'OptionData')):
    contract(f'argos::{_c}::help', 'C20')(type(_c + '_help', (Facade,), dict(ptr=_p, ent=_e, sets={'help': is_help})))
_cmd = dict(ptr='data_', ent='CommandData')
contract('argos::Command::help', 'C20')(type('Command_help', (Texts,), dict(_cmd, tid=TID['HELP'])))
contract('argos::Command::about', 'C20')(type('Command_about', (Texts,), dict(_cmd, tid=TID['ABOUT'])))
contract('argos::Command::text', 'C20')(type('Command_text', (Texts,), _cmd))
contract('argos::ArgumentParser::about', 'C20')(type('AP_about', (Texts,), dict(AP, field=CM + 'texts', tid=TID['ABOUT'])))
contract('argos::ArgumentParser::text', 'C20')(type('AP_text', (Texts,), dict(AP, field=CM + 'texts')))


# ------------------------------------------------------------------ adding definitions
DEF = {'Argument': ('m_argument', 'ArgumentData', 'arguments', 'commands', 'name'), 'Option': ('m_option', 'OptionData', 'options', None, 'flags'),
       'Command': ('data_', 'CommandData', 'commands', 'arguments', 'name')}


class AddTo(Facade):
    """add(x): the definition of x moves to the end of the list"""
    kind = None
    way = ''

    def match(self, n, pts):
        return len(pts) == 1 and type_text(pts[0]).rstrip('&') == self.kind

    @property
    def d(self):
        return DEF[self.kind]

    def x(self, sc):
        return sc.old(0).f[self.d[0]]

    def xnow(self, sc):
        return sc.arg(0).f[self.d[0]]

    def throws(self, sc):
        ptr, ent, lst, clash, key = self.d
        x = self.x(sc)
        th = Str if key == 'name' else RS
        return O(self.p(sc) == null, x == null, th.len(sc.oh(ent, key, x)) == 0,
                 RA.len(self.was(sc, self.way + clash)) > 0 if clash else z3.BoolVal(False))

    def modifies(self, sc):
        ptr, ent, lst, clash, key = self.d
        return [obj_field(*self.part(sc, self.way + lst)), obj_field(ent, 'section', self.x(sc)), ('loc', sc.args[0].ext('f', ptr))]

    def on_throw(self, sc):
        return [('nothing is added', self.now(sc, self.way + self.d[2]) == self.was(sc, self.way + self.d[2]))]

    def ensures(self, sc):
        ptr, ent, lst, clash, key = self.d
        x = self.x(sc)
        s = sc.oh(ent, 'section', x)
        return [('the definition is added last', self.now(sc, self.way + lst) == RA.push(self.was(sc, self.way + lst), x)),
                ('and is no longer usable through the argument', self.xnow(sc) == null),
                ('its section is the current one unless it has one', sc.h(ent, 'section', x) == z3.If(L(s) == 0, self.was(sc, self.way + 'current_section'), s))]


for _k in DEF:
    contract('argos::Command::add', 'C20 C06')(type('Command_add', (AddTo,), dict(ptr='data_', ent='CommandData', kind=_k)))
    contract('argos::ArgumentParser::add', 'C20 C06')(type('AP_add', (AddTo,), dict(AP, kind=_k, way=CM)))

# ------------------------------------------------------------------ constants (C20 C08)
add_group(["decimal"], [lib.int_to_str(z3.IntVal(i)) == PD.strlit(b"%d" % i) for i in (0, 1)])
setters('Option', 'm_option', 'OptionData', [
    ('constant', {'constant': first}, dict(types=['i8*'])),
    ('constant', {'constant': first}, dict(types=['basic_string&'])),
    ('constant', {'constant': lambda sc, old: z3.If(sc.old(0), PD.strlit(b'1'), PD.strlit(b'0'))}, dict(types=['bool'])),
    ('constant', {'constant': lambda sc, old: lib.int_to_str(sc.old(0))}, dict(types=['i32'])),
    ('constant', {'constant': lambda sc, old: lib.int_to_str(sc.old(0))}, dict(types=['i64'])),
], props='C20 C08')
