"""C08 C09 C18 C21: ParsedArguments.cpp, ParsedArgumentsBuilder.cpp and the views: the values of names, and what the definitions say"""
from .core import *
from .strings import A, O, N, Im, Str, L, at, FLESS, FSAME, FDEFS, ORDER
from . import impl, help
from .impl import Store, Ids, CS, SEL, IDX, RS2

P, ABOUT = 'ParsedArgumentsImpl', help.ABOUT
VIEW_VALUE, VIEW_ARG = (z3.Function(n, Addr, IntS) for n in ('value_id_of_view', 'argument_id_of_view'))

for n, f in (('value_id', VIEW_VALUE), ('argument_id', VIEW_ARG)):
    @contract('argos::IArgumentView::' + n, 'C08')
    class _:
        """an interface: one of the views implements it"""
        verify = False
        fn = f

        def pure(self, sc):
            return type(self).fn(sc.this.addr)


class Reader:
    """on an object that shares the results"""

    def match(self, n, pts):
        return len(pts) >= 1 and type_text(pts[0]).startswith('basic_string') != self.view

    def impl(self, sc):
        p = sc.m('m_impl')
        return p.addr if hasattr(p, 'addr') else p

    def ids(self, sc):
        return Ids(sc.OH(P, 'm_ids')[self.impl(sc)], sc.T(P, 'm_ids'))

    def store(self, sc, old=True):
        return Store((sc.OH if old else sc.H)(P, 'm_values')[self.impl(sc)], sc.T(P, 'm_values'))

    def requires(self, sc):
        return [('there are results', self.impl(sc) != null), ('ordered by id', self.store(sc).sorted())] + ([] if self.view else [('names are sorted', self.ids(sc).sorted())])

    def axioms_at_entry(self, sc):
        return FDEFS + ORDER

    def unknown(self, sc):
        if self.view:
            return z3.BoolVal(False)
        x, j = self.ids(sc), z3.Int('j!')
        return forall([j], Im(A(0 <= j, j < x.n), N(FSAME(x.name(j), sc.old(0), CS))), [x.e(j)])

    def id(self, sc):
        if self.view:
            return VIEW_VALUE(sc.arg(0).addr)
        return self.ids(sc).id(IDX(sc, self.ids(sc), sc.old(0)))

    def throws(self, sc):
        return self.unknown(sc)


def both(cls):
    for c in ('ParsedArguments', 'ParsedArgumentsBuilder'):
        for v in (False, True):
            cls(f'argos::{c}::', v)


def _has(q, v):
    @contract(q + 'has', 'C08 C09')
    class _(Reader):
        view = v

        def ensures(self, sc):
            return [('true iff there is a value', sc.result == (self.store(sc).count(self.id(sc)) > 0))]


def _value(q, v):
    @contract(q + 'value', 'C08 C09 C10')
    class _(Reader):
        view = v

        def throws(self, sc):
            return O(self.unknown(sc), self.store(sc).count(self.id(sc)) > 1)

        def ensures(self, sc):
            s, k, r = self.store(sc), self.id(sc), sc.result.f
            x = r['m_value']
            return [('a value iff there is one', x.has == (s.count(k) == 1)), ('the value', Im(x.has, x.val == s.text(k, 0))), ('of that id', r['m_value_id'] == k)] + \
                ([('the argument of the view', r['m_argument_id'] == VIEW_ARG(sc.arg(0).addr))] if self.view
                 else [('the argument of the value', r['m_argument_id'] == z3.If(x.has, s.arg(k, 0), 0))])


def _values(q, v):
    @contract(q + 'values', 'C08 C09 C10')
    class _(Reader):
        view = v

        def ensures(self, sc):
            s, k, r = self.store(sc), self.id(sc), sc.result.f['m_values']
            th, j = RS2(r), z3.Int('j!')
            return [('as many', th.len(r) == s.count(k)), ('all values in order', forall([j], Im(A(0 <= j, j < th.len(r)), th.at(r, j) == s.T.elem.dt.acc(0, 1, s.of(k, j))), [th.at(r, j)])),
                    ('of that id', sc.result.f['m_value_id'] == k)]


for f in (_has, _value, _values):
    both(f)


# ------------------------------------------------------------------ changing the values of names
def addr_of(x):
    return x.addr if hasattr(x, 'addr') else x


class Writer(Reader):
    def modifies(self, sc):
        return [obj_field(P, f, self.impl(sc)) for f in ('m_values', 'm_removed_values')]

    def stores(self, sc):
        return self.store(sc), self.store(sc, False)

    def arg_id(self, sc):
        return VIEW_ARG(sc.arg(0).addr) if self.view else z3.IntVal(0)


def _append(q, v):
    @contract(q + 'append', 'C08 C09')
    class _(Writer):
        view = v

        def ensures(self, sc):
            return impl.appended(*self.stores(sc), self.id(sc), sc.old(1), self.arg_id(sc))


def _assign(q, v):
    @contract(q + 'assign', 'C08 C09')
    class _(Writer):
        view = v

        def ensures(self, sc):
            return impl.assigned(*self.stores(sc), self.id(sc), sc.old(1), self.arg_id(sc))


def _clear(q, v):
    @contract(q + 'clear', 'C08 C09')
    class _(Writer):
        view = v

        def ensures(self, sc):
            return impl.cleared(*self.stores(sc), self.id(sc))


for f in (_append, _assign, _clear):
    for v in (False, True):
        f('argos::ParsedArgumentsBuilder::', v)


# ------------------------------------------------------------------ what there is to know about the results
class Result:
    """of an object that shares the results"""

    def impl(self, sc):
        return addr_of(sc.m('m_impl'))

    def f(self, sc, field):
        return SEL(sc.OH(P, field), self.impl(sc))

    def requires(self, sc):
        return [('there are results', self.impl(sc) != null), ('of a command', self.f(sc, 'm_command') != null)]


def same(a, b):
    return Str.eqS(a, b) if a.sort() == Str.sort else a == b


def result_is(q, props, value, cls=Result):
    @contract(q, props)
    class _(cls):
        def ensures(self, sc):
            return [('that is the result', same(addr_of(sc.result), value(self, sc)))]


for c in ('ParsedArguments', ):
    q = f'argos::{c}::'
    result_is(q + 'result_code', 'C12', lambda s, sc: s.f(sc, 'm_result_code'))
    result_is(q + 'unprocessed_arguments', 'C22', lambda s, sc: s.f(sc, 'm_unprocessed_arguments'))
    result_is(q + 'name', 'C08', lambda s, sc: SEL(sc.OH('CommandData', 'name'), s.f(sc, 'm_command')))

for f in ('unprocessed_arguments', 'subcommands', 'command', 'parser_data'):
    m = {'unprocessed_arguments': 'm_unprocessed_arguments', 'subcommands': 'm_commands', 'command': 'm_command', 'parser_data': 'm_data'}[f]

    def mk(f, m):
        @contract(f'argos::{P}::{f}', 'C08 C22' if f == 'unprocessed_arguments' else 'C08', inline=True)
        class _:
            def ensures(self, sc):
                return [('that is the result', same(addr_of(sc.result), sc.m(m)))]
    mk(f, m)


@contract('argos::ParsedArguments::command', 'C08')
class _(Result):
    def ensures(self, sc):
        return [('a view of the command', addr_of(sc.result.f['m_command']) == self.f(sc, 'm_command'))]


@contract('argos::ParsedArguments::stop_option', 'C12')
class _(Result):
    def throws(self, sc):
        return self.f(sc, 'm_stop_option') == null

    def ensures(self, sc):
        return [('a view of the option', addr_of(sc.result.f['m_option']) == self.f(sc, 'm_stop_option'))]


@contract('argos::ParsedArgumentsBuilder::program_name', 'C08')
class _(Result):
    def requires(self, sc):
        return [('there are results', self.impl(sc) != null), ('of a parser', self.f(sc, 'm_data') != null)]

    def ensures(self, sc):
        return [('the name of the program', Str.eqS(sc.result, SEL(sc.OH('CommandData', 'name'), sc.I.sub_addr(self.f(sc, 'm_data'), 'ParserData', 'command'))))]


# ------------------------------------------------------------------ views
VIEWS = {
    'OptionView': ('m_option', 'OptionData', ('section', 'alias', 'operation', 'visibility', 'id', 'value_id', 'flags', 'argument', 'initial_value', 'constant', 'type', 'optional', 'argument_id')),
    'ArgumentView': ('m_argument', 'ArgumentData', ('section', 'alias', 'visibility', 'id', 'value_id', 'argument_id', 'name')),
    'CommandView': ('m_command', 'CommandData', ('section', ('alias', 'name'), 'visibility', 'id', 'argument_id', 'name')),
}


class View:
    def data(self, sc):
        return addr_of(sc.m(self.var))

    def f(self, sc, field):
        return SEL(sc.OH(self.ent, field), self.data(sc))

    def requires(self, sc):
        return [('a view of something', self.data(sc) != null)]


def view(cls, f, value, props='C08', more=None):
    @contract(f'argos::{cls}::{f}', props, inline=True)
    class _(View):
        var, ent = VIEWS[cls][:2]

        def requires(self, sc):
            return View.requires(self, sc) + (more(self, sc) if more else [])

        def ensures(self, sc):
            return [('what the definition says', value(self, sc, sc.result))]


for c, (_, ent, fs) in VIEWS.items():
    for f in fs:
        f, d = f if isinstance(f, tuple) else (f, f)
        view(c, f, lambda s, sc, r, d=d: same(addr_of(r), s.f(sc, d)))

view('CommandView', 'value_id', lambda s, sc, r: r == 0)
view('CommandView', 'require_subcommand', lambda s, sc, r: r == (lambda o: A(s_has(sc, o), s_val(sc, o)))(s.f(sc, 'require_subcommand')))
view('ArgumentView', 'optional', lambda s, sc, r: r == (s.f(sc, 'min_count') == 0))
view('ArgumentView', 'count', lambda s, sc, r: A(r.first == s.f(sc, 'min_count'), r.second == s.f(sc, 'max_count')))


def s_dt(sc):
    return sc.I.ent_field('CommandData', 'require_subcommand')


def s_has(sc, o):
    return s_dt(sc).unpack(o).has


def s_val(sc, o):
    return s_dt(sc).unpack(o).val


for c in ('OptionView', 'ArgumentView'):
    view(c, 'help', lambda s, sc, r: Str.eqS(r, help.Source(sc.I).text(s.f(sc, 'help'))), 'C17',
         lambda s, sc: [('a callback that exists', help.Source(sc.I).ok(s.f(sc, 'help')))])

view('CommandView', 'help', lambda s, sc, r: (lambda t: Str.eqS(r, z3.If(t.has(ABOUT), t.text(ABOUT), Str.emp)))(help.Texts(sc, s.data(sc))), 'C17', lambda s, sc: [help.Texts(sc, s.data(sc)).ok()])


@contract('argos::OptionView::OptionView', 'C12', nparams=1)
class _:
    def throws(self, sc):
        return addr_of(sc.arg(0)) == null

    def modifies(self, sc):
        return [('loc', sc.mloc('m_option'))]

    def ensures(self, sc):
        return [('of that option', addr_of(sc.m('m_option')) == addr_of(sc.arg(0)))]
