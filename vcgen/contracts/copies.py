"""C19: copies of definitions"""
import lib
from .core import *
from .strings import A, O, N, Im, Str, L, at
from .facade import Facade, same_value, DEF, AP
from . import parserdata as PD

RS, RA, SEL = PD.RS, PD.RA, z3.Select
ARG = 'name help section alias callback min_count max_count visibility id value_id argument_id'.split()
OPT = 'flags help section alias argument constant initial_value callback operation type visibility optional id argument_id value_id'.split()
CMD = 'current_section name full_name texts visibility require_subcommand multi_command section id argument_id'.split()
FIELDS = {'ArgumentData': ARG, 'OptionData': OPT, 'CommandData': CMD}


def alike(sc, ent, x, y):
    """x (now) has the same contents as y (before)"""
    return A(*[sel_eq(sc.H(ent, f), x, sc.OH(ent, f), y) for f in FIELDS[ent]])


def sel_eq(h, x, g, y):
    return SEL(h, x) == SEL(g, y)


class CopyCtor(Facade):
    """copy constructor of the owner of a definition"""
    allocates = True
    result_of = None

    def match(self, n, pts):
        return len(pts) == 1 and pts[0]['k'] == 'ref' and not pts[0].get('rv') and type_text(pts[0]).startswith(self.cls)

    def requires(self, sc):
        return []

    def throws(self, sc):
        return None

    def modifies(self, sc):
        return [('loc', sc.mloc(self.ptr))]

    def on_throw(self, sc):
        return []

    def ensures(self, sc):
        x, y = sc.m(self.ptr), sc.old(0).f[self.ptr]
        return [('empty iff the other is', (x == null) == (y == null)),
                ('another definition', Im(y != null, is_new(x, sc.allocs0))),
                ('with the same contents', Im(y != null, alike(sc, self.ent, x, y)))]


for _cls in ('Argument', 'Option'):
    _def = DEF[_cls]
    contract(f'argos::{_cls}::{_cls}', 'C19')(type('copy_' + _cls, (CopyCtor,), dict(ptr=_def[0], ent=_def[1], cls=_cls)))


# ------------------------------------------------------------------ commands
# An arbitrary set of definitions that exist when a copy is made, and whose members are definitions of the set:
# every command made with Command::add and CommandData::add (which reject empty definitions) is in one.
DEFD = z3.Function('is_defined', Addr, BoolS)
_c, _d = z3.Const('cmd!', Addr), z3.Int('d!')
LISTS = (('arguments', 'ArgumentData'), ('options', 'OptionData'), ('commands', 'CommandData'))


def all_defined(H, now):
    """the set is closed, and its members exist"""
    out = [forall([_c], Im(DEFD(_c), A(_c != null, rid(_c) >= -now)), [DEFD(_c)])]
    for l, _ in LISTS:
        v = H('CommandData', l)
        e = RA.at(SEL(v, _c), _d)
        out.append(forall([_c, _d], Im(A(DEFD(_c), 0 <= _d, _d < RA.len(SEL(v, _c))), A(DEFD(e))), [z3.MultiPattern(DEFD(_c), e)]))
    return A(*out)


def list_copied(sc, l, ent, x, y, upto=None, d=None):
    """x and y are lists (now, before)"""
    d = d if d is not None else z3.Int('e!')
    n = RA.len(y) if upto is None else upto
    a, b = RA.at(x, d), RA.at(y, d)
    r = A(0 <= d, d < n)
    return [('as many ' + l, RA.len(x) == n),
            (l + ' are new definitions', forall([d], Im(r, A(is_new(a, sc.allocs0), rid(a) >= -sc.allocs1)), [a])),
            (l + ' have the same contents', forall([d], Im(r, alike(sc, ent, a, b)), [a]))]


def lists_copied(sc, x, y, d=None):
    out = []
    for l, ent in LISTS:
        out += list_copied(sc, l, ent, SEL(sc.H('CommandData', l), x), SEL(sc.OH('CommandData', l), y), None, d)
    return out


def nested_copied(sc, x, y, n):
    """so are the lists of the subcommands"""
    d, d2 = z3.Int('s!'), z3.Int('s2!')
    x, y = SEL(sc.H('CommandData', 'commands'), x), SEL(sc.OH('CommandData', 'commands'), y)
    a, b = RA.at(x, d), RA.at(y, d)
    return [('subcommands have ' + lab, forall([d], Im(A(0 <= d, d < n), f), [a])) for lab, f in lists_copied(sc, a, b, d2)]


def command_copied(sc, x, y, d=None):
    """the command at x (now) is a copy of the command at y (before)"""
    n = RA.len(SEL(sc.OH('CommandData', 'commands'), y))
    return [('the same settings', alike(sc, 'CommandData', x, y))] + lists_copied(sc, x, y, d) + nested_copied(sc, x, y, n) + \
        [('the index of the copy is its own', PD.index_of_cmd(sc, x, False).n == 0)]


def copy_loops(get):
    out = []
    for k in range(3):
        def inv(L_, k=k):
            x, y = L_.this.addr, get(L_)
            r = []
            for k2, (l, ent) in enumerate(LISTS[:k + 1]):
                r += list_copied(L_, l, ent, SEL(L_.H('CommandData', l), x), SEL(L_.H('CommandData', l), y), L_.i if k2 == k else None)
            if k == 2:
                r += nested_copied(L_, x, y, L_.i)
            return r
        out.append(Loop(inv))
    return out


@contract('argos::CommandData::CommandData', 'C19')
class copy_CommandData:
    node_is_ctor = True
    allocates = True

    def match(self, n, pts):
        return len(pts) == 1 and pts[0]['k'] == 'ref' and not pts[0].get('rv')

    def requires(self, sc):
        return [('the copied command is made of definitions', A(DEFD(sc.old(0).addr), all_defined(sc.OH, sc.allocs0 - 1)))]

    def ensures(self, sc):
        return command_copied(sc, sc.this.addr, sc.old(0).addr)

    def modifies(self, sc):
        return [obj_field('CommandData', f, sc.this.addr) for f in CMD + ['option_index'] + [l for l, _ in LISTS]]

    loops = copy_loops(lambda L_: L_.param(0).addr)


@contract('argos::CommandData::operator=', 'C19')
class assign_CommandData(copy_CommandData):
    node_is_ctor = False

    def result_of(self, sc):
        return sc.this

    def requires(self, sc):
        y = sc.old(0).addr
        return [('the copied command is made of definitions', A(DEFD(y), all_defined(sc.OH, sc.allocs0))),
                ('the command that is replaced is not part of it', O(sc.this.addr == y, N(DEFD(sc.this.addr))))]

    def modifies(self, sc):
        return [obj_field('CommandData', f, sc.this.addr) for f in CMD + [l for l, _ in LISTS]]

    def ensures(self, sc):
        x, y = sc.this.addr, sc.old(0).addr
        return [('a command assigned to itself is unchanged', Im(x == y, A(*[sel_eq(sc.H('CommandData', f), x, sc.OH('CommandData', f), x) for f in CMD + [l for l, _ in LISTS]])))] + \
            [(n, Im(x != y, f)) for n, f in command_copied(sc, x, y)[:-1]]


class Assign(CopyCtor):
    def requires(self, sc):
        return []


for _cls in ('Argument', 'Option'):
    _def = DEF[_cls]
    contract(f'argos::{_cls}::operator=', 'C19')(type('assign_' + _cls, (Assign,), dict(ptr=_def[0], ent=_def[1], cls=_cls)))


class CopyCommand(CopyCtor):
    ptr, ent, cls = 'data_', 'CommandData', 'Command'

    def requires(self, sc):
        y = sc.old(0).f[self.ptr]
        return [('made of definitions', O(y == null, A(DEFD(y), all_defined(sc.OH, sc.allocs0))))]

    def ensures(self, sc):
        x, y = sc.m(self.ptr), sc.old(0).f[self.ptr]
        return [('empty iff the other is', (x == null) == (y == null)),
                ('another definition', Im(y != null, is_new(x, sc.allocs0)))] + [(n, Im(y != null, f)) for n, f in command_copied(sc, x, y)]


contract('argos::Command::Command', 'C19')(CopyCommand)
contract('argos::Command::operator=', 'C19')(type('assign_Command', (CopyCommand,), {}))


def sub(sc, a, f='command'):
    """the address of a member object of a ParserData"""
    return sc.I.sub_addr(a, 'ParserData', f)


def same_settings(sc, x, y):
    out = [('version', sel_eq(sc.H('ParserData', 'version'), x, sc.OH('ParserData', 'version'), y))]
    for part, ent in (('parser_settings', 'ParserSettings'), ('help_settings', 'HelpSettings')):
        for f in sc.I.ent_fields(ent):
            out.append((f, sel_eq(sc.H(ent, f), sub(sc, x, part), sc.OH(ent, f), sub(sc, y, part))))
    return out


@contract('argos::make_copy', 'C19 C20')
class make_copy:
    allocates = True

    def requires(self, sc):
        y = sub(sc, sc.arg(0).addr)
        return [('made of definitions', A(DEFD(y), all_defined(sc.OH, sc.allocs0)))]

    def ensures(self, sc):
        x, y = sc.result, sc.old(0).addr
        return [('another object', A(x != null, is_new(x, sc.allocs0)))] + \
            [('the same ' + n, f) for n, f in same_settings(sc, x, y)] + \
            command_copied(sc, sub(sc, x), sub(sc, y))


# ------------------------------------------------------------------ copy_from
def appended(sc, l, ent, x, y, old, n):
    """x (now) is old and copies of the first n elements of y (before)"""
    p = z3.Int('e!')
    m = RA.len(old)
    a, b = RA.at(x, p), RA.at(y, p - m)
    r = A(m <= p, p < m + n)
    return [(f'{l}: as many are added', RA.len(x) == m + n),
            (f'{l}: the earlier ones stay', forall([p], Im(A(0 <= p, p < m), a == RA.at(old, p)), [a])),
            (f'{l}: the added ones are new', forall([p], Im(r, A(is_new(a, sc.allocs0), rid(a) >= -sc.allocs1)), [a])),
            (f'{l}: the added ones have the same contents', forall([p], Im(r, alike(sc, ent, a, b)), [a]))]


def nested_appended(sc, x, y, old, n):
    p, d2 = z3.Int('s!'), z3.Int('s2!')
    m = RA.len(old)
    a, b = RA.at(x, p), RA.at(y, p - m)
    return [('added subcommands have ' + lab, forall([p], Im(A(m <= p, p < m + n), f), [a])) for lab, f in lists_copied(sc, a, b, d2)]


def merged(T_, new, old, add, done=None):
    """texts"""
    k = z3.Const('k!', T_.K.sort)
    has = lambda m: T_.opt.dt.is_(1, SEL(m, k))
    take = has(add) if done is None else A(has(add), done(k))
    return forall([k], SEL(new, k) == z3.If(take, SEL(add, k), SEL(old, k)), [SEL(new, k)])


def _lists(sc, k):
    H, OH = sc.H, sc.fsc.OH
    x, y = sc.this.addr, sc.param(0).addr
    out = []
    for k2, (l, ent) in enumerate(LISTS[:k + 1]):
        ln = RA.len(SEL(OH('CommandData', l), y))
        n = sc.i if k2 == k else ln
        out += appended(sc, l, ent, SEL(H('CommandData', l), x), SEL(OH('CommandData', l), y), SEL(OH('CommandData', l), x), n)
        if k2 == 2:
            out += nested_appended(sc, SEL(H('CommandData', l), x), SEL(OH('CommandData', l), y), SEL(OH('CommandData', l), x), n)
    return out


def _texts(sc):
    m0, T_, pos = sc.map0
    k = z3.Const('k!', T_.K.sort)
    has = lambda m: T_.opt.dt.is_(1, SEL(m, k))
    old = SEL(sc.fsc.OH('CommandData', 'texts'), sc.this.addr)
    return [('no text twice so far', forall([k], Im(A(has(m0), pos(k) < sc.i), N(has(old))), [SEL(m0, k)])),
            ('the texts so far', merged(T_, SEL(sc.H('CommandData', 'texts'), sc.this.addr), old, m0, lambda k: pos(k) < sc.i))]


@contract('argos::CommandData::copy_from', 'C19 C20')
class _:
    allocates = True
    loops = tuple(Loop(lambda sc, k=k: _lists(sc, k)) for k in range(3)) + (Loop(_texts),)

    def requires(self, sc):
        y = sc.arg(0).addr
        return [('the copied command is made of definitions', A(DEFD(y), all_defined(sc.OH, sc.allocs0))),
                ('the command that is extended is not part of it', N(DEFD(sc.this.addr)))]

    def throws(self, sc):
        return clash(sc, sc.this.addr, sc.old(0).addr)

    def modifies(self, sc):
        return extended(sc.this.addr)

    def ensures(self, sc):
        return copied_from(sc, sc.this.addr, sc.old(0).addr)


def clash(sc, x, y):
    T_ = sc.T('CommandData', 'texts')
    k = z3.Const('k!', T_.K.sort)
    o, y = SEL(sc.OH('CommandData', 'texts'), x), SEL(sc.OH('CommandData', 'texts'), y)
    return N(forall([k], Im(T_.opt.dt.is_(1, SEL(y, k)), N(T_.opt.dt.is_(1, SEL(o, k)))), [SEL(y, k)]))


def extended(x):
    return [obj_field('CommandData', f, x) for f in ['texts', 'multi_command'] + [l for l, _ in LISTS]]


def copied_from(sc, x, y):
    out = []
    H, OH = sc.H, sc.OH
    for l, ent in LISTS:
        args = (SEL(H('CommandData', l), x), SEL(OH('CommandData', l), y), SEL(OH('CommandData', l), x), RA.len(SEL(OH('CommandData', l), y)))
        out += appended(sc, l, ent, *args)
        if l == 'commands':
            out += nested_appended(sc, *args)
    m = lambda h, a: SEL(h('CommandData', 'multi_command'), a)
    return out + [('texts are added', merged(sc.T('CommandData', 'texts'), SEL(H('CommandData', 'texts'), x), SEL(OH('CommandData', 'texts'), x), SEL(OH('CommandData', 'texts'), y))),
                  ('several subcommands are allowed if either allowed them', m(H, x) == O(m(OH, x), m(OH, y)))]


class CopyFrom:
    """Command::copy_from and ArgumentParser::copy_from"""
    allocates = True
    ptr, part = 'data_', None

    def x(self, sc):
        p = sc.om(self.ptr)
        return sub(sc, p, self.part) if self.part else p

    def match(self, n, pts):
        return len(pts) == 1

    def result_of(self, sc):
        return sc.this

    def requires(self, sc):
        y = sc.old(0).f['data_']
        return [('definitions', O(y == null, A(DEFD(y), all_defined(sc.OH, sc.allocs0)))),
                ('the command that is extended is not part of the other', O(sc.om(self.ptr) == null, N(DEFD(self.x(sc)))))]

    def throws(self, sc):
        y = sc.old(0).f['data_']
        return O(sc.om(self.ptr) == null, y == null, clash(sc, self.x(sc), y))

    def modifies(self, sc):
        return extended(self.x(sc))

    def ensures(self, sc):
        return copied_from(sc, self.x(sc), sc.old(0).f['data_'])


contract('argos::Command::copy_from', 'C19 C20')(CopyFrom)
contract('argos::ArgumentParser::copy_from', 'C19 C20')(type('CopyFromP', (CopyFrom,), dict(ptr='m_data', part='command')))


# ------------------------------------------------------------------ moves
class Move(Facade):
    """What is moved from is left empty: it can no longer be used (see the other functions of the class)."""
    result_of = None

    def match(self, n, pts):
        return len(pts) == 1 and pts[0]['k'] == 'ref' and bool(pts[0].get('rv')) and type_text(pts[0]).startswith(self.cls)

    def requires(self, sc):
        return []

    def throws(self, sc):
        return None

    def modifies(self, sc):
        return [('loc', sc.mloc(self.ptr)), ('loc', sc.args[0].ext('f', self.ptr))]

    def on_throw(self, sc):
        return []

    def ensures(self, sc):
        return [('takes over the definition', sc.m(self.ptr) == sc.old(0).f[self.ptr]), ('the other becomes empty', sc.arg(0).f[self.ptr] == null)]


for _cls, _ptr in (('Argument', DEF['Argument'][0]), ('Option', DEF['Option'][0]), ('Command', 'data_'), ('ArgumentParser', 'm_data')):
    contract(f'argos::{_cls}::{_cls}', 'C19 C20')(type('move_' + _cls, (Move,), dict(ptr=_ptr, cls=_cls)))
    contract(f'argos::{_cls}::operator=', 'C19 C20')(type('moveassign_' + _cls, (Move,), dict(ptr=_ptr, cls=_cls)))


# ------------------------------------------------------------------ new definitions (C20)
UNSET = {
    'OptionData': dict(section='', alias='', argument='', constant='', initial_value='', operation=PD.ASSIGN, type=0, visibility=3, optional=True, id=0, argument_id=0, value_id=0),
    'ArgumentData': dict(section='', alias='', min_count=1, max_count=1, visibility=3, id=0, argument_id=0, value_id=0),
    'CommandData': dict(current_section='', full_name='', section='', multi_command=False, visibility=3, id=0, argument_id=0),
}


class New:
    """constructors that are given names only"""
    allocates = True
    nargs = 0

    def match(self, n, pts):
        return [type_text(t) for t in pts] == self.types

    def modifies(self, sc):
        return [('loc', sc.mloc(self.ptr))]

    def ensures(self, sc):
        x = sc.m(self.ptr)
        f = lambda n: sc.h(self.ent, n, x)
        out = [('a new definition', A(x != null, is_new(x, sc.allocs0))), ('its names', self.named(sc, f))]
        for n, v in UNSET[self.ent].items():
            out.append((f'{n} is not set', (L(f(n)) == 0) if v == '' else (f(n) == v)))
        if self.ent == 'CommandData':
            out += [('it is empty', A(*[RA.len(f(n)) == 0 for n in ('arguments', 'options', 'commands')])), ('it does not say if it requires a subcommand', N(f('require_subcommand').has))]
        elif True:
            out.append(('no callback', N(lib.has_fn(f('callback')))))
        return out


def new(cls, types, named, **d):
    ptr, ent = DEF[cls][:2] if cls in DEF else ('data_', 'CommandData')
    contract(f'argos::{cls}::{cls}', 'C20', inline=True)(type(f'new_{cls}_{len(types)}', (New,), dict(ptr=ptr, ent=ent, types=types, named=staticmethod(named), **d)))


new('Option', [], lambda sc, f: RS.len(f('flags')) == 0)
new('Option', ['basic_string'], lambda sc, f: A(RS.len(f('flags')) == 1, RS.at(f('flags'), 0) == sc.old(0)))
new('Option', ['basic_string', 'basic_string'], lambda sc, f: A(RS.len(f('flags')) == 2, RS.at(f('flags'), 0) == sc.old(0), RS.at(f('flags'), 1) == sc.old(1)))
new('Argument', [], lambda sc, f: L(f('name')) == 0)
new('Argument', ['basic_string&'], lambda sc, f: f('name') == sc.old(0))
new('Command', [], lambda sc, f: L(f('name')) == 0)
new('Command', ['basic_string'], lambda sc, f: f('name') == sc.old(0))
