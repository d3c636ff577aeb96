"""C++ types as seen by the verifier, and the values they denote."""
from functools import cached_property
import z3
from theory import *


class OutOfReach(Exception):
    """The code uses something the verifier has no meaning for."""


# ------------------------------------------------------------------ run-time values
class Loc:
    """An lvalue: a root (a Cell, or a heap field of an object) and a path."""
    __slots__ = ('root', 'path')

    def __init__(self, root, path=()):
        self.root = root
        self.path = path

    def ext(self, *p):
        return Loc(self.root, self.path + (p,))

    def same(self, o):
        if not isinstance(o, Loc) or len(self.path) != len(o.path):
            return False
        if not same_root(self.root, o.root):
            return False
        return all(_same_step(a, b) for a, b in zip(self.path, o.path))

    def __repr__(self):
        return f'Loc({self.root},{self.path})'


def same_root(a, b):
    if isinstance(a, HeapRoot) and isinstance(b, HeapRoot):
        return a.ent == b.ent and a.field == b.field and a.addr.eq(b.addr)
    return a is b


def _same_step(a, b):
    if a[0] != b[0]:
        return False
    if a[0] == 'f' or a[0] == 'alt':
        return a[1] == b[1]
    if len(a) == 1:
        return True
    return a[1].eq(b[1]) if z3.is_expr(a[1]) and z3.is_expr(b[1]) else a[1] is b[1]


class Cell:
    __slots__ = ('name', 'val', 'T', 'birth')

    def __init__(self, name, val, T, birth):
        self.name, self.val, self.T, self.birth = name, val, T, birth

    def __repr__(self):
        return f'Cell<{self.name}>'


class HeapRoot:
    __slots__ = ('ent', 'field', 'addr')

    def __init__(self, ent, field, addr):
        self.ent, self.field, self.addr = ent, field, addr

    def __repr__(self):
        return f'{self.ent}.{self.field}@{self.addr}'


class Ent:
    """An object that lives in the heap (a definition, parser data, results)."""
    __slots__ = ('ent', 'addr')

    def __init__(self, ent, addr):
        self.ent, self.addr = ent, addr

    def __repr__(self):
        return f'Ent({self.ent},{self.addr})'


class RecV:
    __slots__ = ('T', 'f')

    def __init__(self, T, f):
        self.T, self.f = T, f

    def with_(self, k, v):
        d = dict(self.f)
        d[k] = v
        return RecV(self.T, d)

    def __getattr__(self, k):
        try:
            return self.f[k]
        except KeyError:
            raise AttributeError(k)

    def __repr__(self):
        return f'{self.T}{self.f}'


class OptV:
    __slots__ = ('T', 'has', 'val')

    def __init__(self, T, has, val):
        self.T, self.has, self.val = T, has, val

    def __repr__(self):
        return f'Opt({self.has},{self.val})'


class VarV:
    __slots__ = ('T', 'tag', 'alts')

    def __init__(self, T, tag, alts):
        self.T, self.tag, self.alts = T, tag, alts


class IterV:
    """An iterator: container (an lvalue or an immutable sequence) and index."""
    __slots__ = ('cont', 'idx', 'kind')

    def __init__(self, cont, idx, kind):
        self.cont, self.idx, self.kind = cont, idx, kind

    def __repr__(self):
        return f'Iter({self.cont},{self.idx})'


class MapIterV:
    __slots__ = ('cont', 'key', 'end')

    def __init__(self, cont, key, end):
        self.cont, self.key, self.end = cont, key, end


class SpanV:
    __slots__ = ('cont', 'off', 'len')

    def __init__(self, cont, off, len_):
        self.cont, self.off, self.len = cont, off, len_

    def __repr__(self):
        return f'Span({self.cont},{self.off},{self.len})'


class PtrV:
    """Pointer to an lvalue that is not a heap object."""
    __slots__ = ('loc',)

    def __init__(self, loc):
        self.loc = loc


class LamV:
    __slots__ = ('node', 'env', 'this')

    def __init__(self, node, env, this):
        self.node, self.env, self.this = node, env, this


class FnV:
    __slots__ = ('fn',)

    def __init__(self, fn):
        self.fn = fn


class InitListV:
    __slots__ = ('els',)

    def __init__(self, els):
        self.els = els


# ------------------------------------------------------------------ types
class T:
    packable = True

    def __repr__(self):
        return self.name

    def eq(self, a, b):
        return eqp(self.pack(a), self.pack(b))

    def ite(self, c, a, b):
        return self.unpack(z3.If(c, self.pack(a), self.pack(b)))

    def pack(self, v):
        if not z3.is_expr(v):
            raise OutOfReach(f'cannot store {type(v).__name__} as {self.name}')
        return v

    def unpack(self, t):
        return t

    def inv(self, v):
        """Facts every value of this type satisfies."""
        return []


class TInt(T):
    def __init__(self, w, s, enum=None):
        self.w, self.s, self.enum = w, s, enum
        self.name = enum or f"{'i' if s else 'u'}{w}"
        self.sort = IntS
        self.lo = -(1 << (w - 1)) if s else 0
        self.hi = (1 << (w - 1)) - 1 if s else (1 << w) - 1

    def inv(self, v):
        if z3.is_int_value(v):
            return []
        return [v >= self.lo, v <= self.hi]

    def default(self):
        return z3.IntVal(0)


class TBool(T):
    name = 'bool'
    sort = BoolS

    def default(self):
        return z3.BoolVal(False)


class TOpaque(T):
    def __init__(self, name):
        self.name = name
        self.sort = z3.DeclareSort('O_' + name)

    def default(self):
        return z3.Const('default_' + self.name, self.sort)


class TAddr(T):
    """Raw, unique or shared pointer to a heap object."""

    def __init__(self, ent, kind='ptr'):
        self.ent, self.kind = ent, kind
        self.name = f'{kind}:{ent}'
        self.sort = Addr

    def default(self):
        return null


class TEnt(T):
    def __init__(self, ent):
        self.ent = ent
        self.name = ent
        self.sort = Addr

    def pack(self, v):
        return v.addr

    def unpack(self, t):
        return Ent(self.ent, t)


class TSeq(T):
    def __init__(self, elem, cname='vector'):
        self.elem, self.cname = elem, cname
        self.name = f'{cname}<{elem}>' if cname not in ('string', 'sv') else cname
        if not elem.packable:
            raise OutOfReach('sequence of ' + elem.name)
        self._th = None

    @property
    def th(self):
        if self._th is None:
            self._th = Str if isinstance(self.elem, TInt) and self.elem.w == 8 else seq_of(self.elem.sort)
        return self._th

    @property
    def sort(self):
        return self.th.sort

    def default(self):
        return self.th.emp

    def inv(self, v):
        # allocated containers are smaller than the address space
        if self.cname in ('vector', 'string', 'sv') and z3.is_expr(v) and v.sort() == self.sort:
            return [self.th.len(v) < (1 << 62)]
        return []


class TTuple(T):
    def __init__(self, elems, pair=False):
        self.elems = elems
        self.fields = ['first', 'second'] if pair else [str(i) for i in range(len(elems))]
        self.name = 'tup<' + ','.join(map(str, elems)) + '>'
        self.packable = all(e.packable for e in elems)

    @cached_property
    def dt(self):
        return datatype('tup_' + '_'.join(str(e.sort) for e in self.elems),
                        [('mk', [(str(i), e.sort) for i, e in enumerate(self.elems)])])

    @property
    def sort(self):
        return self.dt.sort

    def pack(self, v):
        return self.dt.mk(0, *[e.pack(v.f[f]) for e, f in zip(self.elems, self.fields)])

    def unpack(self, t):
        return RecV(self, {f: e.unpack(self.dt.acc(0, i, t)) for i, (e, f) in enumerate(zip(self.elems, self.fields))})

    def default(self):
        return RecV(self, {f: e.default() for e, f in zip(self.elems, self.fields)})

    def inv(self, v):
        return [x for e, f in zip(self.elems, self.fields) for x in e.inv(v.f[f])]

    def field(self, f):
        return self.elems[self.fields.index(f)]


class TRec(T):
    """A plain class: a value with named fields."""

    def __init__(self, name, thunk):
        self.name = name
        self._thunk = thunk
        self._fields = None

    @property
    def fields(self):
        if self._fields is None:
            self._fields = self._thunk()
        return self._fields

    @property
    def packable(self):
        return all(t.packable for _, t in self.fields)

    @cached_property
    def dt(self):
        return datatype('rec_' + self.name, [('mk', [(n, t.sort) for n, t in self.fields])])

    @property
    def sort(self):
        return self.dt.sort

    def pack(self, v):
        return self.dt.mk(0, *[t.pack(v.f[n]) for n, t in self.fields])

    def unpack(self, t):
        return RecV(self, {n: ft.unpack(self.dt.acc(0, i, t)) for i, (n, ft) in enumerate(self.fields)})

    def default(self):
        return RecV(self, {n: t.default() for n, t in self.fields})

    def inv(self, v):
        return [x for n, t in self.fields for x in t.inv(v.f[n])]

    def field(self, f):
        for n, t in self.fields:
            if n == f:
                return t
        raise OutOfReach(f'{self.name} has no field {f}')


class TOpt(T):
    def __init__(self, elem):
        self.elem = elem
        self.name = f'opt<{elem}>'
        self.packable = elem.packable

    @cached_property
    def dt(self):
        return datatype('opt_' + str(self.elem.sort), [('none', []), ('some', [('val', self.elem.sort)])])

    @property
    def sort(self):
        return self.dt.sort

    def pack(self, v):
        return z3.If(v.has, self.dt.mk(1, self.elem.pack(v.val)), self.dt.mk(0)) \
            if not (z3.is_true(v.has) or z3.is_false(v.has)) else \
            (self.dt.mk(1, self.elem.pack(v.val)) if z3.is_true(v.has) else self.dt.mk(0))

    def unpack(self, t):
        return OptV(self, self.dt.is_(1, t), self.elem.unpack(self.dt.acc(1, 0, t)))

    def default(self):
        return OptV(self, z3.BoolVal(False), self.elem.default())

    def inv(self, v):
        return [z3.Implies(v.has, x) for x in self.elem.inv(v.val)]

    def none(self):
        return self.default()

    def some(self, v):
        return OptV(self, z3.BoolVal(True), v)


class TVar(T):
    def __init__(self, alts):
        self.alts = alts
        self.name = 'var<' + ','.join(map(str, alts)) + '>'
        self.packable = all(a.packable for a in alts)

    @cached_property
    def dt(self):
        return datatype('var_' + '_'.join(str(e.sort) for e in self.alts),
                        [(f'a{i}', [('v', e.sort)]) for i, e in enumerate(self.alts)])

    @property
    def sort(self):
        return self.dt.sort

    def pack(self, v):
        r = None
        for i in reversed(range(len(self.alts))):
            t = self.dt.mk(i, self.alts[i].pack(v.alts[i]))
            r = t if r is None else z3.If(v.tag == i, t, r)
        return z3.simplify(r) if z3.is_int_value(v.tag) else r

    def unpack(self, t):
        tag = z3.IntVal(len(self.alts) - 1)
        for i in reversed(range(len(self.alts) - 1)):
            tag = z3.If(self.dt.is_(i, t), z3.IntVal(i), tag)
        return VarV(self, tag, [a.unpack(self.dt.acc(i, 0, t)) for i, a in enumerate(self.alts)])

    def default(self):
        return VarV(self, z3.IntVal(0), [a.default() for a in self.alts])

    def inv(self, v):
        return [v.tag >= 0, v.tag < len(self.alts)] + \
            [z3.Implies(v.tag == i, x) for i, a in enumerate(self.alts) for x in a.inv(v.alts[i])]


class TMap(T):
    def __init__(self, K, V):
        self.K, self.V = K, V
        self.opt = TOpt(V)
        self.name = f'map<{K},{V}>'

    @property
    def sort(self):
        return z3.ArraySort(self.K.sort, self.opt.sort)

    def default(self):
        return z3.K(self.K.sort, self.opt.dt.mk(0))


class TSpan(T):
    packable = False

    def __init__(self, elem):
        self.elem = elem
        self.name = f'span<{elem}>'

    def default(self):
        return SpanV(None, z3.IntVal(0), z3.IntVal(0))


class TOther(T):
    """Iterators, plain pointers, closures: values that only live in variables."""
    packable = False

    def __init__(self, name, info=None):
        self.name, self.info = name, info

    def default(self):
        return None


CTEXT = z3.Function('text_of_pointer', Addr, Str.sort)      # of a pointer to a zero-terminated text


class TCStr(TOther):
    """Pointer to a zero-terminated text. As a value it is that text; what is stored is the pointer."""
    packable = True
    sort = Addr

    def __init__(self):
        self.name, self.info = 'cstr', None

    def pack(self, v):
        if z3.is_expr(v) and z3.is_app(v) and v.decl().eq(CTEXT):
            return v.arg(0)
        raise OutOfReach('cannot store a text as a pointer')

    def unpack(self, t):
        return CTEXT(t)


class TArgv(TOther):
    """char**: the place in an array of such pointers"""
    packable = True
    sort = Addr

    def __init__(self):
        self.name, self.info = 'argv', None

    def pack(self, v):
        if isinstance(v, IterV) and isinstance(v.cont, Loc) and isinstance(v.cont.root, HeapRoot) and v.cont.root.ent == 'CharPtrs' \
                and z3.is_int_value(z3.simplify(v.idx)) and z3.simplify(v.idx).as_long() == 0:
            return v.cont.root.addr
        raise OutOfReach('cannot store this pointer')

    def unpack(self, t):
        return IterV(Loc(HeapRoot('CharPtrs', 'items', t)), z3.IntVal(0), 'ptr')


class TVoid(T):
    name = 'void'
    packable = False
