"""Meaning of the C++ library functions the verified code calls (trusted)."""
import z3
from theory import *
from theory import _seqs_by_sort
from ctypes_ import *
import astdb

NPOS = z3.IntVal((1 << 64) - 1)
USED = set()

lazy = {}
METHODS = {}
FUNCS = {}

hasfn = {}


def has_fn(f):
    s = f.sort().name()
    if s not in hasfn:
        hasfn[s] = z3.Function('has_' + s, f.sort(), BoolS)
    return hasfn[s](f)


int_to_str = z3.Function('decimal', IntS, Str.sort)
c_isalnum = z3.Function('c_isalnum', IntS, IntS)
c_isdigit = z3.Function('c_isdigit', IntS, IntS)
c_isspace = z3.Function('c_isspace', IntS, IntS)
_c = z3.Int('c!')
add_group(['c_isdigit'], [forall([_c], (c_isdigit(_c) != 0) == z3.And(48 <= _c, _c <= 57), [c_isdigit(_c)])])
add_group(['c_isalnum'], [forall([_c], (c_isalnum(_c) != 0) == z3.Or(z3.And(48 <= _c, _c <= 57), z3.And(65 <= _c, _c <= 90),
                                                                    z3.And(97 <= _c, _c <= 122)), [c_isalnum(_c)])])


def method(cls, *names):
    def d(f):
        for c in cls.split():
            for n in names:
                METHODS[(c, n)] = f
        return f
    return d


def func(*names):
    def d(f):
        for n in names:
            FUNCS[n] = f
        return f
    return d


def th_of(v):
    return _seqs_by_sort[v.sort().name()]


def clsname(fn):
    return astdb.strip_targs(fn['cls']['n']).split('::')[-1] if fn.get('cls') else None


def call(I, fn, obj, args, e):
    c = clsname(fn)
    n = fn['n']
    if c is not None and not fn.get('static'):
        v = None
        if obj is not None and not isinstance(obj, Ent):
            try:
                v = I.load(obj)
            except OutOfReach:
                v = None
        if isinstance(v, (IterV, MapIterV)) or isinstance(obj, (IterV, MapIterV)):
            h = METHODS.get(('iter', n))
            if h:
                return h(I, obj, args, fn, e)
        h = METHODS.get((c, n))
        if h:
            USED.add(f'std::{c}::{n}')
            return h(I, obj, args, fn, e)
        if n.startswith('operator basic_string_view'):
            return I.load(obj)
        if n.startswith('operator'):
            h = METHODS.get((c, n.split('<')[0]))
            if h:
                return h(I, obj, args, fn, e)
        raise OutOfReach(f'library method {c}::{n}')
    h = FUNCS.get(n)
    if h:
        USED.add(n)
        return h(I, args, fn, e)
    raise OutOfReach(f'library function {fn["q"]}')


# ------------------------------------------------------------------ constructors
def element(I, v, T_, st):
    """An element of a tuple, from a value of the static type st."""
    if isinstance(T_, TVar) and not isinstance(v, VarV) and st is not None:
        at = I.rtype(st) if st['k'] != 'ref' else I.rtype(st['to'])
        for i, a in enumerate(T_.alts):
            if str(a) == str(at):
                return VarV(T_, z3.IntVal(i), [I.coerce(v, b) if k == i else I.undef(b) for k, b in enumerate(T_.alts)])
    return I.coerce(list_or(I, v, T_), T_)


def construct(I, e, CT, cls):
    args = [I.ev(a, None) for a in e['args']]
    fn = e['fn']
    USED.add('ctor ' + astdb.strip_targs(cls['n']))
    vals = None
    if isinstance(CT, TSeq):
        if CT.cname in ('string', 'sv'):
            return ctor_string(I, CT, args, fn)
        if CT.cname == 'multimap':
            return CT.default()
        return ctor_vector(I, CT, args, fn)
    if isinstance(CT, TOpt):
        if not args:
            return CT.none()
        v = I.load(args[0])
        if isinstance(v, RecV) and isinstance(v.T, TRec) and v.T.name == 'nullopt_t':
            return CT.none()
        if z3.is_expr(v) and v.sort().name() == 'O_std_nullopt_t':
            return CT.none()
        return I.coerce(v, CT)
    if isinstance(CT, TAddr):
        if not args:
            return null
        v = I.load(args[0])
        if isinstance(args[0], Loc) and is_rvalue_param(fn):
            I.store(args[0], null)
        return v
    if isinstance(CT, TTuple):
        if not args:
            return CT.default()
        if len(args) == 1 and len(CT.elems) != 1:
            return I.coerce(I.load(args[0]), CT)
        return RecV(CT, {f: element(I, I.load(a), t, st) for f, a, t, st in zip(CT.fields, args, CT.elems, fn['pt'] if len(fn['pt']) == len(args) else [None] * len(args))})
    if isinstance(CT, TVar):
        if not args:
            return CT.default()
        v = args[0]
        t = fn['pt'][0]
        at = I.rtype(t) if t['k'] != 'ref' else I.rtype(t['to'])
        for i, a in enumerate(CT.alts):
            if str(a) == str(at):
                r = CT.default_shell(i) if hasattr(CT, 'default_shell') else None
                # converting construction copies/moves the argument into the alternative
                src = args[0]
                val = I.load(src)
                cell = I.new_cell('tmp', None, CT)
                alts = []
                for k, b in enumerate(CT.alts):
                    if k == i:
                        alts.append(None)
                    else:
                        try:
                            alts.append(I.undef(b))
                        except Exception:
                            alts.append(None)
                cell.val = VarV(CT, z3.IntVal(i), alts)
                dst = Loc(cell, (('alt', i),))
                if isinstance(a, TRec) and has_user_copy(I, a):
                    run_copy_ctor(I, a, dst, src)
                else:
                    vv = list(cell.val.alts)
                    vv[i] = I.coerce(val, a)
                    cell.val = VarV(CT, z3.IntVal(i), vv)
                return Loc(cell)
        raise OutOfReach(f'variant constructor {at} not in {CT.name}')
    if isinstance(CT, TSpan):
        if not args:
            return CT.default()
        if len(args) == 1:
            l = args[0]
            v = I.load(l)
            if isinstance(v, SpanV):
                return v
            return SpanV(l, z3.IntVal(0), th_of(v).len(v))
        a, b = I.load(args[0]), I.load(args[1])
        if isinstance(a, IterV) and isinstance(b, IterV):
            if not (isinstance(a.cont, Loc) and isinstance(b.cont, Loc) and a.cont.same(b.cont)):
                raise OutOfReach('span over two containers')
            I.oblige('span range is valid', z3.And(0 <= a.idx, a.idx <= b.idx, b.idx <= I.cont_len(b.cont)), 'safety')
            return SpanV(a.cont, a.idx, z3.simplify(b.idx - a.idx))
        raise OutOfReach('span constructor')
    if isinstance(CT, TMap):
        if not args:
            return CT.default()
        return I.load(args[0])
    if isinstance(CT, TOther) and CT.name == 'iter':
        return I.load(args[0]) if args else None
    if isinstance(CT, TOpaque):
        n = astdb.strip_targs(cls['n']).split('::')[-1]
        if n == 'function':
            c = z3.Const(I.fresh_name('fn'), CT.sort)
            if not args:
                I.assume(z3.Not(has_fn(c)))
            elif fn.get('ck'):
                return I.load(args[0])
            else:
                I.assume(has_fn(c))
            return c
        if n in ('allocator', '__unspec', 'nullopt_t'):
            return z3.Const(n, CT.sort)
        raise OutOfReach('construction of ' + n)
    raise OutOfReach('construction of ' + str(cls.get('n')))


def list_or(I, v, T_):
    return I.from_list(v, T_) if isinstance(v, InitListV) else v


def is_rvalue_param(fn):
    return bool(fn['pt']) and fn['pt'][0]['k'] == 'ref' and fn['pt'][0].get('rv')


def has_user_copy(I, T_):
    return find_copy_ctor(I, T_) is not None


def find_copy_ctor(I, T_):
    for q, fs in I.db.by_q.items():
        if q.endswith('::' + T_.name + '::' + T_.name):
            for f in fs:
                if len(f['params']) == 1 and f['params'][0]['t']['k'] == 'ref' and f.get('ctor') and not f.get('defaulted') \
                        and f['params'][0]['t']['to'].get('n', '').endswith('::' + T_.name) and not f['params'][0]['t'].get('rv'):
                    return f
    return None


def run_copy_ctor(I, T_, dst, src):
    node = find_copy_ctor(I, T_)
    I.store(dst, I.undef(T_)) if False else None
    root = dst.root
    v = root.val
    alts = list(v.alts)
    alts[dst.path[0][1]] = I.undef(T_)
    root.val = VarV(v.T, v.tag, alts)
    I.extra_cells.append(root)
    c = I.contracts.for_key(node['key'], node)
    if c is not None and not c.inline:
        I.apply_contract(c, {'ret': node['ret'], 'key': node['key'], 'q': node['q'], 'n': node['n'], 'pt': []}, node, dst, [src])
    else:
        I.inline(node, dst, [src])


def ctor_string(I, CT, args, fn):
    if not args:
        return Str.emp
    v = I.load(args[0])
    if isinstance(v, InitListV):
        return I.from_list(v, CT)
    if z3.is_expr(v) and v.sort() == Str.sort:
        if len(args) == 1 or not fn['pt'] or len(args) == 2 and 'O_allocator' == str(I.load(args[1]).sort()):
            return v
        a1 = I.load(args[1])
        if len(args) >= 2 and z3.is_expr(a1) and z3.is_int(a1):
            # (const char*, n)
            I.oblige('string length within the source', z3.And(a1 >= 0, a1 <= Str.len(v)), 'safety')
            return Str.slice(v, 0, a1)
        return v
    if isinstance(v, PtrV) and len(args) >= 2:
        n, x = I.load(args[1]), I.load(v.loc)
        if z3.is_int_value(n) and n.as_long() == 1 and z3.is_expr(x) and z3.is_int(x):
            return Str.push(Str.emp, x)         # a text of the one character that is pointed to
    if isinstance(v, IterV):
        if len(args) >= 2:
            b = I.load(args[1])
            if isinstance(b, IterV):
                return Str.slice(I.load(v.cont), v.idx, b.idx)
            if z3.is_expr(b) and z3.is_int(b):
                s = I.load(v.cont)
                I.oblige('view lies within the source', z3.And(b >= 0, v.idx >= 0, v.idx + b <= Str.len(s)), 'safety')
                return Str.slice(s, v.idx, z3.simplify(v.idx + b))
        raise OutOfReach('string from iterator')
    if z3.is_expr(v) and z3.is_int(v) and len(args) >= 2:
        n, ch = v, I.load(args[1])
        return fill(I, n, ch)
    raise OutOfReach('string constructor')


repeat = z3.Function('repeat', IntS, IntS, Str.sort)
_n, _x, _k = z3.Ints('n! x! k!')
add_group(['repeat'], [forall([_n, _x], z3.Implies(_n >= 0, Str.len(repeat(_n, _x)) == _n), [repeat(_n, _x)]),
                       forall([_n, _x, _k], z3.Implies(z3.And(0 <= _k, _k < _n), Str.at(repeat(_n, _x), _k) == _x),
                              [Str.at(repeat(_n, _x), _k)])])


def fill(I, n, ch):
    return repeat(n, ch)


def ctor_vector(I, CT, args, fn):
    if not args:
        return CT.th.emp
    v = I.load(args[0])
    if isinstance(v, InitListV):
        return I.from_list(v, CT)
    if isinstance(v, IterV):
        b = I.load(args[1])
        s = I.load(v.cont)
        if z3.is_expr(s) and s.sort() == CT.sort:
            I.oblige('iterator range is valid', z3.And(0 <= v.idx, v.idx <= b.idx, b.idx <= th_of(s).len(s)), 'safety')
            return CT.th.slice(s, v.idx, b.idx) if not (z3.is_int_value(v.idx) and v.idx.as_long() == 0 and b.idx.eq(CT.th.len(s))) else s
        if v.kind == 'ptr' and CT.elem.name == 'sv' and s.sort() == seq_of(Addr).sort:
            I.oblige('iterator range is valid', z3.And(0 <= v.idx, v.idx <= b.idx, b.idx <= th_of(s).len(s)), 'safety')
            r = I.fresh(CT, 'texts')
            j = z3.Int('j!')
            I.assume(CT.th.len(r) == b.idx - v.idx)
            I.assume(forall([j], z3.Implies(z3.And(0 <= j, j < CT.th.len(r)), CT.th.at(r, j) == CTEXT(th_of(s).at(s, v.idx + j))), [CT.th.at(r, j)]))
            return r
        raise OutOfReach('vector from iterators')
    if z3.is_expr(v) and v.sort() == CT.sort:
        return v
    raise OutOfReach('vector constructor')


# ------------------------------------------------------------------ sequences
SEQ = 'basic_string basic_string_view vector list'


@method(SEQ + ' span', 'size', 'length')
def m_size(I, o, a, fn, e):
    v = I.load(o)
    if isinstance(v, SpanV):
        return v.len
    return th_of(v).len(v)


@method(SEQ + ' span', 'empty')
def m_empty(I, o, a, fn, e):
    v = I.load(o)
    if isinstance(v, SpanV):
        return v.len == 0
    return th_of(v).len(v) == 0


def elem(I, o, i, what):
    v = I.load(o)
    if isinstance(v, SpanV):
        I.oblige(f'{what}: index is inside the span', z3.And(0 <= i, i < v.len), 'safety')
        if v.cont is None:
            raise OutOfReach('element of a default span')
        return v.cont.ext('i', z3.simplify(v.off + i))
    th = th_of(v)
    n = th.len(v)
    I.oblige(f'{what}: index is inside the container', z3.And(0 <= i, i < n), 'safety')
    if isinstance(o, Loc):
        r = o.ext('i', i)
        T_ = I.loc_type(r)
        if isinstance(T_, TEnt):
            return I.load(r)
        return r
    x = th.at(v, i)
    if th is Str:
        I.read_facts(x, TInt(8, True))
    return x


@method(SEQ + ' span', 'operator[]')
def m_index(I, o, a, fn, e):
    i = I.load(a[0])
    v = I.load(o)
    # std::string permits s[s.size()], the terminating zero
    if z3.is_expr(v) and v.sort() == Str.sort and fn['cls']['n'].endswith('basic_string'):
        n = Str.len(v)
        if I.decide(i == n):
            return z3.IntVal(0)
    return elem(I, o, i, 'operator[]')


@method(SEQ, 'at')
def m_at(I, o, a, fn, e):
    i = I.load(a[0])
    v = I.load(o)
    if not I.decide(i < th_of(v).len(v)):
        from engine import CppThrow
        raise CppThrow('std::out_of_range')
    return elem(I, o, i, 'at')


@method(SEQ + ' span', 'front')
def m_front(I, o, a, fn, e):
    return elem(I, o, z3.IntVal(0), 'front()')


@method(SEQ + ' span', 'back')
def m_back(I, o, a, fn, e):
    v = I.load(o)
    n = v.len if isinstance(v, SpanV) else th_of(v).len(v)
    return elem(I, o, z3.simplify(n - 1), 'back()')


def cont_id(I, o, fn):
    """Iterators of a string_view refer to the viewed characters, others to the object."""
    c = clsname(fn)
    v = I.load(o)
    if c == 'basic_string_view':
        return v
    if isinstance(v, SpanV):
        return None
    return o if isinstance(o, Loc) else v


@method(SEQ + ' span multimap', 'begin', 'cbegin')
def m_begin(I, o, a, fn, e):
    v = I.load(o)
    if isinstance(v, SpanV):
        return IterV(v.cont, v.off, 'rand')
    return IterV(cont_id(I, o, fn), z3.IntVal(0), 'node' if clsname(fn) == 'multimap' else 'rand')


@method(SEQ + ' span multimap', 'end', 'cend')
def m_end(I, o, a, fn, e):
    v = I.load(o)
    if isinstance(v, SpanV):
        return IterV(v.cont, z3.simplify(v.off + v.len), 'rand')
    return IterV(cont_id(I, o, fn), th_of(v).len(v), 'node' if clsname(fn) == 'multimap' else 'rand')


def construct_record(I, T_, a):
    q = [n for n in I.db.by_q if n.split('::')[-1] == T_.name and n.split('::')[-2:-1] == [T_.name]]
    c = [n for k in q for n in I.db.by_q[k] if n.get('ctor') and len(n['params']) == len(a) and n.get('body') is not None]
    if len(c) != 1:
        raise OutOfReach('which constructor of ' + T_.name)
    cell = I.new_cell('tmp', I.undef(T_), T_)
    I.inline(c[0], Loc(cell), a)
    return Loc(cell)


@method(SEQ, 'push_back', 'emplace_back')
def m_push(I, o, a, fn, e):
    v = I.load(o)
    T_ = I.loc_type(o)
    ET = T_.elem
    if len(a) == 1:
        x = I.load(a[0])
        if isinstance(ET, TAddr) and isinstance(a[0], Loc) and ET.kind == 'unique_ptr':
            I.store(a[0], null)
            v = I.load(o)
        x = list_or(I, x, ET)
        x = I.coerce(x, ET)
    elif isinstance(ET, TTuple):
        x = RecV(ET, {f: I.coerce(I.load(y), t) for f, y, t in zip(ET.fields, a, ET.elems)})
    elif isinstance(ET, TRec):
        return m_push(I, o, [construct_record(I, ET, a)], fn, e)
    elif isinstance(ET, TSeq) and ET.cname in ('string', 'sv'):
        x = ctor_string(I, ET, a, {'pt': [1]})
    else:
        raise OutOfReach('emplace_back')
    I.store(o, T_.th.push(v, ET.pack(x)))
    if fn['n'] == 'emplace_back':
        return o.ext('i', T_.th.len(v))


def OutOfReach_(m):
    raise OutOfReach(m)


@method(SEQ, 'pop_back')
def m_pop(I, o, a, fn, e):
    v = I.load(o)
    th = th_of(v)
    I.oblige('pop_back() of a non-empty container', th.len(v) > 0, 'safety')
    I.store(o, th.slice(v, 0, z3.simplify(th.len(v) - 1)))


@method(SEQ, 'clear')
def m_clear(I, o, a, fn, e):
    I.store(o, th_of(I.load(o)).emp)


@method(SEQ, 'reserve', 'shrink_to_fit')
def m_reserve(I, o, a, fn, e):
    return None


@method(SEQ, 'resize')
def m_resize(I, o, a, fn, e):
    v = I.load(o)
    th = th_of(v)
    n = I.load(a[0])
    if I.decide(n <= th.len(v)):
        I.store(o, th.slice(v, 0, n))
    else:
        raise OutOfReach('growing resize') if not cannot(I) else None


def cannot(I):
    I.oblige('resize() does not grow the container', z3.BoolVal(False), 'safety')
    return True


@method('vector basic_string', 'insert')
def m_insert(I, o, a, fn, e):
    v = I.load(o)
    T_ = I.loc_type(o)
    th = T_.th
    it = I.load(a[0])
    if not isinstance(it, IterV):
        raise OutOfReach('insert')
    i = it.idx
    I.oblige('insert position is valid', z3.And(0 <= i, i <= th.len(v)), 'safety')
    if len(a) == 3:
        f, l = I.load(a[1]), I.load(a[2])
        s = I.load(f.cont)
        I.oblige('inserted range is valid', z3.And(0 <= f.idx, f.idx <= l.idx, l.idx <= th.len(s)), 'safety')
        full = z3.is_int_value(f.idx) and f.idx.as_long() == 0 and l.idx.eq(th.len(s))
        mid = s if full else th.slice(s, f.idx, l.idx)
    else:
        x = I.load(a[1])
        mid = th.push(th.emp, T_.elem.pack(I.coerce(x, T_.elem)))
    I.store(o, th.cat(th.slice(v, 0, i), th.cat(mid, th.slice(v, i, th.len(v)))))
    return IterV(o, i, 'rand')


@method('vector basic_string', 'erase')
def m_erase(I, o, a, fn, e):
    v = I.load(o)
    th = th_of(v)
    f = I.load(a[0])
    if isinstance(f, IterV):
        l = I.load(a[1]) if len(a) > 1 else IterV(f.cont, f.idx + 1, f.kind)
        I.oblige('erased range is valid', z3.And(0 <= f.idx, f.idx <= l.idx, l.idx <= th.len(v)), 'safety')
        r = th.cat(th.slice(v, 0, f.idx), th.slice(v, l.idx, th.len(v)))
        I.assume(z3.Implies(l.idx == th.len(v), r == th.slice(v, 0, f.idx)))        # by extensionality
        I.store(o, r)
        return IterV(o, f.idx, 'rand')
    raise OutOfReach('erase by position')


@method(SEQ + ' optional unique_ptr shared_ptr pair tuple variant function span map multimap __normal_iterator _Rb_tree_iterator _Rb_tree_const_iterator',
        'operator=')
def m_assign(I, o, a, fn, e):
    T_ = I.loc_type(o)
    src = a[0]
    v = I.load(src)
    if isinstance(v, InitListV):
        v = I.from_list(v, T_)
    c = clsname(fn)
    if isinstance(T_, TOpaque) and T_.name == 'function' and not (z3.is_expr(v) and v.sort() == T_.sort):
        c_ = z3.Const(I.fresh_name('fn'), T_.sort)
        I.assume(has_fn(c_))
        v = c_
    if isinstance(T_, TVar) and not isinstance(v, VarV):
        for i, al in enumerate(T_.alts):
            if isinstance(al, TSeq) and z3.is_expr(v) and v.sort() == al.sort or al.packable and z3.is_expr(v) and v.sort() == al.sort:
                alts = [x.default() for x in T_.alts]
                alts[i] = v
                v = VarV(T_, z3.IntVal(i), alts)
                break
        else:
            raise OutOfReach('variant assignment')
    if isinstance(v, RecV) and isinstance(T_, TTuple) and getattr(v, '_tie', None) is None and isinstance(T_, TTuple):
        v = I.coerce(v, T_)
    if isinstance(T_, TAddr) and T_.kind == 'unique_ptr' and isinstance(src, Loc):
        I.store(src, null)
    elif is_rvalue_param(fn) and isinstance(src, Loc) and isinstance(T_, TSeq) and not src.same(o) and I.is_xvalue(e['args'][0]):
        I.store(o, v)
        I.moved_from(src, T_)
        return o
    cur = I.load(o)
    if isinstance(cur, TieV):
        fs = v.T.fields
        for l, f in zip(cur.locs, fs):
            I.store(l, v.f[f])
        return o
    if T_ is None:
        T_ = v.T if hasattr(v, 'T') else None
    I.store(o, I.coerce(v, T_))
    return o


class TieV:
    def __init__(self, locs):
        self.locs = locs


@func('tie')
def f_tie(I, a, fn, e):
    return I.temp(TieV(a), None)


@method('basic_string', 'operator+=', 'append')
def m_append(I, o, a, fn, e):
    v = I.load(o)
    x = I.load(a[0])
    if len(a) == 2:
        c = I.load(a[1])
        if z3.is_int(x) and z3.is_int(c):
            I.store(o, Str.cat(v, repeat(x, c)))
            return o
        raise OutOfReach('append')
    if z3.is_expr(x) and z3.is_int(x):
        I.store(o, Str.push(v, x))
    else:
        I.store(o, Str.cat(v, x))
    return o


@method('basic_string', 'push_back')
def m_spush(I, o, a, fn, e):
    I.store(o, Str.push(I.load(o), I.load(a[0])))


@method('basic_string basic_string_view', 'c_str', 'data')
def m_cstr(I, o, a, fn, e):
    if fn['n'] == 'data' and clsname(fn) == 'basic_string_view':
        return IterV(I.load(o), z3.IntVal(0), 'rand')
    if fn['n'] == 'data':
        return IterV(I.load(o), z3.IntVal(0), 'rand')
    return I.load(o)


@method('basic_string basic_string_view', 'substr')
def m_substr(I, o, a, fn, e):
    v = I.load(o)
    n = Str.len(v)
    pos = I.load(a[0]) if a else z3.IntVal(0)
    cnt = I.load(a[1]) if len(a) > 1 else NPOS
    if not I.decide(pos <= n):
        from engine import CppThrow
        raise CppThrow('std::out_of_range')
    end = z3.simplify(z3.If(cnt < n - pos, pos + cnt, n))
    if cnt.eq(NPOS):
        end = n
    elif not z3.is_int_value(end):
        # let the path condition decide, to keep terms small
        if I.decide(cnt < n - pos):
            end = z3.simplify(pos + cnt)
        else:
            end = n
    return Str.slice(v, pos, end)


@method('span', 'subspan')
def m_subspan(I, o, a, fn, e):
    v = I.load(o)
    off = I.load(a[0])
    I.oblige('subspan offset is inside the span', z3.And(0 <= off, off <= v.len), 'safety')
    if len(a) > 1:
        c = I.load(a[1])
        ln = z3.If(c == NPOS, v.len - off, c)
        ln = z3.simplify(ln)
        I.oblige('subspan count is inside the span', ln <= v.len - off, 'safety')
    else:
        ln = v.len - off
    return SpanV(v.cont, z3.simplify(v.off + off), z3.simplify(ln))


@method('basic_string basic_string_view', 'operator basic_string_view')
def m_tosv(I, o, a, fn, e):
    return I.load(o)


LITS = {}


def charset(I, x):
    """Bytes of a literal argument."""
    x = I.load(x)
    if z3.is_expr(x) and z3.is_int(x):
        return [x]
    out = []
    t = x
    if t.eq(Str.emp):
        return []
    if t.num_args() == 0:
        nm = t.decl().name()
        if nm.startswith('lit:'):
            return [z3.IntVal(c if c < 128 else c - 256) for c in nm[4:].encode('latin1')]
        return None
    while not t.eq(Str.emp):
        if t.decl().name() != Str.push.name():
            return None
        out.append(t.arg(1))
        t = t.arg(0)
    return out[::-1]


def in_set(c, cs):
    return z3.Or(*[c == x for x in cs]) if cs else z3.BoolVal(False)


def search(I, v, pos, pred, forward=True, name='find'):
    """First (last) index >= pos whose character satisfies pred, or npos."""
    r = z3.Const(I.fresh_name(name), IntS)
    n = Str.len(v)
    j = z3.Int('j!')
    if forward:
        I.assume(z3.Or(r == NPOS, z3.And(pos <= r, r < n, pred(Str.at(v, r)))))
        hi = z3.If(r == NPOS, n, r)
        I.assume(forall([j], z3.Implies(z3.And(pos <= j, j < hi), z3.Not(pred(Str.at(v, j)))), [Str.at(v, j)]))
    else:
        I.assume(z3.Or(r == NPOS, z3.And(0 <= r, r < n, pred(Str.at(v, r)))))
        lo = z3.If(r == NPOS, -1, r)
        I.assume(forall([j], z3.Implies(z3.And(lo < j, j < n), z3.Not(pred(Str.at(v, j)))), [Str.at(v, j)]))
    return r


# position of the first c at or after p, the length if there is none
index_of = z3.Function('index_of', Str.sort, IntS, IntS, IntS)
_s = z3.Const('s!io', Str.sort)
_p, _q = z3.Ints('p! q!')
_io = index_of(_s, _c, _p)
add_group(['index_of'], [
    forall([_s, _c, _p], z3.Implies(z3.And(0 <= _p, _p <= Str.len(_s)), z3.And(_p <= _io, _io <= Str.len(_s))), [_io]),
    forall([_s, _c, _p], z3.Implies(z3.And(0 <= _p, _p <= Str.len(_s), _io < Str.len(_s)), Str.at(_s, _io) == _c), [_io]),
    forall([_s, _c, _p, _q], z3.Implies(z3.And(0 <= _p, _p <= _q, _q < _io, _p <= Str.len(_s)), Str.at(_s, _q) != _c), [(_io, Str.at(_s, _q))])])


@method('basic_string basic_string_view', 'find')
def m_find(I, o, a, fn, e):
    v = I.load(o)
    x = I.load(a[0])
    pos = I.load(a[1]) if len(a) > 1 else z3.IntVal(0)
    if z3.is_int(x):
        r = index_of(v, x, pos)
        return z3.If(z3.And(pos <= Str.len(v), r < Str.len(v)), r, NPOS)
    raise OutOfReach('substring search')


@method('basic_string basic_string_view', 'find_first_of', 'find_first_not_of', 'find_last_of', 'find_last_not_of')
def m_find_set(I, o, a, fn, e):
    v = I.load(o)
    cs = charset(I, a[0])
    if cs is None:
        raise OutOfReach('search for a computed character set')
    n = fn['n']
    if 'last' in n:
        if len(a) > 1 and not I.load(a[1]).eq(NPOS):
            raise OutOfReach(n)
        pos = z3.IntVal(0)
    else:
        pos = I.load(a[1]) if len(a) > 1 else z3.IntVal(0)
    if n == 'find_first_of' and len(cs) == 1:
        return m_find(I, o, [cs[0], pos], fn, e)
    pred = (lambda c: z3.Not(in_set(c, cs))) if 'not' in n else (lambda c: in_set(c, cs))
    return search(I, v, pos, pred, 'first' in n, n)


@method('basic_string basic_string_view', 'starts_with')
def m_sw(I, o, a, fn, e):
    v, x = I.load(o), I.load(a[0])
    if z3.is_int(x):
        return z3.And(Str.len(v) > 0, Str.at(v, 0) == x)
    return z3.And(Str.len(x) <= Str.len(v), Str.eqS(Str.slice(v, 0, Str.len(x)), x))


@method('basic_string basic_string_view', 'ends_with')
def m_ew(I, o, a, fn, e):
    v, x = I.load(o), I.load(a[0])
    n = Str.len(v)
    if z3.is_int(x):
        return z3.And(n > 0, Str.at(v, n - 1) == x)
    return z3.And(Str.len(x) <= n, Str.eqS(Str.slice(v, n - Str.len(x), n), x))


@method('basic_string_view', 'remove_prefix')
def m_rp(I, o, a, fn, e):
    v, x = I.load(o), I.load(a[0])
    I.oblige('remove_prefix within the view', x <= Str.len(v), 'safety')
    I.store(o, Str.slice(v, x, Str.len(v)))


@method('basic_string_view', 'remove_suffix')
def m_rs(I, o, a, fn, e):
    v, x = I.load(o), I.load(a[0])
    I.oblige('remove_suffix within the view', x <= Str.len(v), 'safety')
    I.store(o, Str.slice(v, 0, z3.simplify(Str.len(v) - x)))


# ------------------------------------------------------------------ iterators
@method('iter', 'operator*')
def i_deref(I, o, a, fn, e):
    return I.iter_deref(I.load(o))


@method('iter', 'operator->')
def i_arrow(I, o, a, fn, e):
    it = I.load(o)
    if isinstance(it, MapIterV):
        I.oblige('map iterator is dereferenceable', z3.Not(it.end), 'safety')
        T_ = I.loc_type(it.cont)
        return PtrV(I.temp_rec_map(it) if hasattr(I, 'temp_rec_map') else map_entry(I, it, T_))
    l = I.iter_deref(it)
    if not isinstance(l, Loc):
        l = I.temp(l)
    return PtrV(l)


def map_entry(I, it, T_):
    from ctypes_ import TTuple
    v = T_.V.unpack(T_.opt.dt.acc(1, 0, z3.Select(I.load(it.cont), it.key)))
    tt = TTuple([T_.K, T_.V], pair=True)
    return I.temp(RecV(tt, {'first': T_.K.unpack(it.key), 'second': v}), tt)


@method('iter', 'operator++', 'operator--')
def i_inc(I, o, a, fn, e):
    it = I.load(o)
    d = 1 if fn['n'] == 'operator++' else -1
    nv = IterV(it.cont, z3.simplify(it.idx + d), it.kind)
    if it.kind == 'node':
        n = I.cont_len(it.cont)
        I.oblige('iterator stays inside its container', z3.And(0 <= nv.idx, nv.idx <= n), 'safety')
    I.store(o, nv)
    return it if a else o


@method('iter', 'operator+', 'operator-', 'operator+=', 'operator-=')
def i_add(I, o, a, fn, e):
    it = I.load(o)
    x = I.load(a[0])
    if isinstance(x, IterV):
        return z3.simplify(it.idx - x.idx)
    op = fn['n'][8]
    idx = z3.simplify(it.idx + x if op == '+' else it.idx - x)
    n = I.cont_len(it.cont)
    # unsigned offsets wrap around: the sum is what counts
    M = 1 << 64
    xt = I.rtype(e['args'][0]['t']) if e and e['args'] and e['args'][0].get('t') else None
    I.oblige('iterator stays inside its container', z3.And(0 <= idx, idx <= n), 'safety')
    nv = IterV(it.cont, idx, it.kind)
    if fn['n'].endswith('='):
        I.store(o, nv)
        return o
    return nv


@method('iter', 'operator[]')
def i_idx(I, o, a, fn, e):
    it = I.load(o)
    return I.iter_deref(IterV(it.cont, z3.simplify(it.idx + I.load(a[0])), it.kind))


@method('iter', 'base')
def i_base(I, o, a, fn, e):
    return I.load(o)


@func('operator-')
def f_minus(I, a, fn, e):
    x, y = I.load(a[0]), I.load(a[1])
    return z3.simplify(x.idx - y.idx)


@func('operator==', 'operator!=', 'operator<', 'operator>', 'operator<=', 'operator>=')
def f_cmp(I, a, fn, e):
    x, y = I.load(a[0]), I.load(a[1])
    op = fn['n'][8:]
    if z3.is_expr(x) and z3.is_int(x) and not (z3.is_expr(y) and z3.is_int(y)):
        y = z3.IntVal(0)        # std::strong_ordering compared with literal 0
    if z3.is_expr(y) and z3.is_int(y) and not (z3.is_expr(x) and z3.is_int(x)):
        x = z3.IntVal(0)
    if z3.is_expr(x) and x.sort() == Addr and z3.is_expr(y) and y.sort() == Addr:
        r = x == y
        return r if op == '==' else z3.Not(r)
    if z3.is_expr(x) and z3.is_expr(y) and x.sort() == Str.sort and op in ('<', '>', '<=', '>='):
        import contracts
        return contracts.str_less(op, x, y)
    return I.compare(op, x, y)


@method('iter', 'operator==', 'operator!=')
def i_cmp(I, o, a, fn, e):
    return I.compare(fn['n'][8:], I.load(o), I.load(a[0]))


@func('operator<=>', '__synth3way')
def f_3way(I, a, fn, e):
    x, y = I.load(a[0]), I.load(a[1])
    if isinstance(x, IterV):
        return z3.simplify(x.idx - y.idx)
    import contracts
    if z3.is_expr(x) and z3.is_expr(y) and x.sort() == y.sort() and (z3.is_int(x) or x.sort() == Str.sort):
        return z3.If(contracts.less(I, None, x, y), z3.IntVal(-1), z3.If(contracts.less(I, None, y, x), z3.IntVal(1), z3.IntVal(0)))
    raise OutOfReach('operator<=>')


@func('next')
def f_next(I, a, fn, e):
    it = I.load(a[0])
    d = I.load(a[1]) if len(a) > 1 else z3.IntVal(1)
    idx = z3.simplify(it.idx + d)
    I.oblige('iterator stays inside its container', z3.And(0 <= idx, idx <= I.cont_len(it.cont)), 'safety')
    return IterV(it.cont, idx, it.kind)


@func('prev')
def f_prev(I, a, fn, e):
    it = I.load(a[0])
    d = I.load(a[1]) if len(a) > 1 else z3.IntVal(1)
    idx = z3.simplify(it.idx - d)
    I.oblige('iterator stays inside its container', z3.And(0 <= idx, idx <= I.cont_len(it.cont)), 'safety')
    return IterV(it.cont, idx, it.kind)


@func('distance')
def f_dist(I, a, fn, e):
    x, y = I.load(a[0]), I.load(a[1])
    return z3.simplify(y.idx - x.idx)


@func('size')
def f_size(I, a, fn, e):
    return m_size(I, a[0], [], fn, e)


# ------------------------------------------------------------------ utilities
@func('move', 'forward', 'as_const')
def f_move(I, a, fn, e):
    return a[0]


@func('min')
def f_min(I, a, fn, e):
    x, y = I.load(a[0]), I.load(a[1])
    return z3.If(y < x, y, x)


@func('max')
def f_max(I, a, fn, e):
    x, y = I.load(a[0]), I.load(a[1])
    return z3.If(x < y, y, x)


@func('to_string')
def f_tostr(I, a, fn, e):
    return int_to_str(I.load(a[0]))


@func('swap')
def f_swap(I, a, fn, e):
    x, y = I.load(a[0]), I.load(a[1])
    I.store(a[0], y)
    I.store(a[1], x)


@func('isdigit')
def f_isdigit(I, a, fn, e):
    return c_isdigit(I.load(a[0]))


@func('isalnum')
def f_isalnum(I, a, fn, e):
    x = I.load(a[0])
    I.oblige('isalnum argument is an unsigned char or EOF', z3.And(x >= -128, x <= 255), 'safety')
    return c_isalnum(x)


@func('exit', '_exit')
def f_exit(I, a, fn, e):
    from engine import CppExit
    raise CppExit(I.load(a[0]))


@func('__assert_fail')
def f_assert(I, a, fn, e):
    from engine import PathEnd
    I.oblige('assertion holds', z3.BoolVal(False), 'safety')
    raise PathEnd()


@func('operator+')
def f_plus(I, a, fn, e):
    x, y = I.load(a[0]), I.load(a[1])
    if isinstance(x, IterV):
        return i_add(I, a[0], [a[1]], fn, None)
    if z3.is_expr(x) and z3.is_int(x):
        x = Str.push(Str.emp, x)
    if z3.is_expr(y) and z3.is_int(y):
        return Str.push(x, y)
    return Str.cat(x, y)


@func('make_pair')
def f_mkpair(I, a, fn, e):
    T_ = I.rtype(fn['ret'])
    return RecV(T_, {f: I.coerce(I.load(x), t) for f, x, t in zip(T_.fields, a, T_.elems)})


@func('get')
def f_get(I, a, fn, e):
    o = a[0]
    v = I.load(o)
    ta = fn['ta'][0]
    if isinstance(v, VarV):
        i = int(ta['v']) if ta['k'] == 'val' else alt_index(I, v.T, ta)
        if not I.decide(v.tag == i):
            from engine import CppThrow
            raise CppThrow('std::bad_variant_access')
        if isinstance(o, Loc):
            return o.ext('alt', i)
        return v.alts[i]
    f = v.T.fields[int(ta['v'])]
    return o.ext('f', f) if isinstance(o, Loc) else v.f[f]


def alt_index(I, T_, ta):
    t = I.rtype(ta)
    for i, a in enumerate(T_.alts):
        if str(a) == str(t):
            return i
    raise OutOfReach('variant alternative')


@func('holds_alternative')
def f_holds(I, a, fn, e):
    v = I.load(a[0])
    return v.tag == alt_index(I, v.T, fn['ta'][0])


@func('get_if')
def f_getif(I, a, fn, e):
    p = I.load(a[0])
    v = I.load(p.loc)
    ta = fn['ta'][0]
    i = int(ta['v']) if ta['k'] == 'val' else alt_index(I, v.T, ta)
    if I.decide(v.tag == i):
        return PtrV(p.loc.ext('alt', i))
    return null


# ------------------------------------------------------------------ optional
@method('optional', 'operator bool', 'has_value')
def o_has(I, o, a, fn, e):
    return I.load(o).has


@method('optional', 'operator*', 'value')
def o_val(I, o, a, fn, e):
    v = I.load(o)
    if fn['n'] == 'value':
        if not I.decide(v.has):
            from engine import CppThrow
            raise CppThrow('std::bad_optional_access')
    else:
        I.oblige('optional has a value', v.has, 'safety')
    return o.ext('opt') if isinstance(o, Loc) else v.val


@method('optional', 'operator->')
def o_arrow(I, o, a, fn, e):
    v = I.load(o)
    I.oblige('optional has a value', v.has, 'safety')
    return PtrV(o.ext('opt') if isinstance(o, Loc) else I.temp(v.val, v.T.elem))


@method('optional', 'value_or')
def o_or(I, o, a, fn, e):
    v = I.load(o)
    d = I.load(a[0])
    if z3.is_expr(v.val) and z3.is_expr(d):
        return z3.If(v.has, v.val, d)
    return v.val if I.decide(v.has) else d


@method('optional', 'reset')
def o_reset(I, o, a, fn, e):
    v = I.load(o)
    I.store(o, OptV(v.T, z3.BoolVal(False), v.val))


# ------------------------------------------------------------------ smart pointers
PTR = 'unique_ptr shared_ptr __shared_ptr __shared_ptr_access'


def ptr_ent(I, o, fn):
    T_ = I.loc_type(o) if isinstance(o, Loc) else None
    if isinstance(T_, TAddr):
        return T_.ent
    a = fn['cls'].get('a')
    return a[0]['n'].split('::')[-1]


@method(PTR, 'operator*', 'operator->')
def p_deref(I, o, a, fn, e):
    p = I.load(o)
    if not (z3.is_expr(p) and p.sort() == Addr):
        raise OutOfReach('smart pointer')
    I.oblige('smart pointer is not null when dereferenced', p != null, 'safety')
    return Ent(ptr_ent(I, o, fn), p)


@method(PTR, 'get')
def p_get(I, o, a, fn, e):
    return I.load(o)


@method(PTR, 'operator bool')
def p_bool(I, o, a, fn, e):
    return I.load(o) != null


@method(PTR, 'reset')
def p_reset(I, o, a, fn, e):
    I.store(o, null)


@method('unique_ptr', 'release')
def p_release(I, o, a, fn, e):
    v = I.load(o)
    I.store(o, null)
    return v


@func('make_unique', 'make_shared')
def f_make(I, a, fn, e):
    ent = fn['ta'][0]['n'].split('::')[-1]
    return I.contracts.allocate(I, ent, a, fn, e)


# ------------------------------------------------------------------ function objects
@method('function', 'operator bool')
def fn_bool(I, o, a, fn, e):
    return has_fn(I.load(o))


@method('function', 'operator()')
def fn_call(I, o, a, fn, e):
    return I.contracts.callback(I, o, a, fn, e)


# ------------------------------------------------------------------ maps
@method('map', 'find')
def mp_find(I, o, a, fn, e):
    T_ = I.loc_type(o)
    k = I.load(a[0])
    has = T_.opt.dt.is_(1, z3.Select(I.load(o), k))
    return MapIterV(o, k, z3.Not(has))


@method('map', 'end')
def mp_end(I, o, a, fn, e):
    return MapIterV(o, None, z3.BoolVal(True))


@method('map', 'contains', 'count')
def mp_contains(I, o, a, fn, e):
    T_ = I.loc_type(o)
    return T_.opt.dt.is_(1, z3.Select(I.load(o), I.load(a[0])))


@method('map', 'emplace', 'insert', 'try_emplace')
def mp_emplace(I, o, a, fn, e):
    T_ = I.loc_type(o)
    if len(a) == 1:
        p = I.load(a[0])
        if not isinstance(p, RecV) or set(p.f) != {'first', 'second'}:
            raise OutOfReach('map insert')
        k, v = p.f['first'], p.f['second']
    elif len(a) != 2:
        raise OutOfReach('map insert')
    else:
        k, v = I.load(a[0]), I.load(a[1])
    m = I.load(o)
    old = z3.Select(m, k)
    nv = z3.If(T_.opt.dt.is_(1, old), old, T_.opt.dt.mk(1, T_.V.pack(I.coerce(v, T_.V))))
    I.store(o, z3.Store(m, k, nv))
    return None


@method('map', 'operator[]')
def mp_index(I, o, a, fn, e):
    T_ = I.loc_type(o)
    k = I.load(a[0])
    m = I.load(o)
    old = z3.Select(m, k)
    I.store(o, z3.Store(m, k, z3.If(T_.opt.dt.is_(1, old), old, T_.opt.dt.mk(1, T_.V.pack(T_.V.default())))))
    return o.ext('key', k)


# multimap: the sequence of its entries, ordered by key
def mm_sorted(I, o):
    """Entries of a multimap are ordered by key (class invariant of std::multimap)."""
    v = I.load(o)
    T_ = I.loc_type(o)
    i, j = z3.Ints('i! j!')
    f = forall([i, j], z3.Implies(z3.And(0 <= i, i <= j, j < T_.th.len(v)),
                                  T_.elem.dt.acc(0, 0, T_.th.at(v, i)) <= T_.elem.dt.acc(0, 0, T_.th.at(v, j))),
               [(T_.th.at(v, i), T_.th.at(v, j))])
    if f.get_id() not in I.fact_ids:
        I.fact_ids[f.get_id()] = f
        I.pc.append(f)


def mm_lower(I, o, k, strict=False, name='lower'):
    v = I.load(o)
    T_ = I.loc_type(o)
    mm_sorted(I, o)
    th = T_.th
    fns = I.contracts.mmap_fns(T_)
    r = (fns.ub if strict else fns.lb)(v, k)
    return r


@method('multimap', 'lower_bound')
def mm_lb(I, o, a, fn, e):
    return IterV(o, mm_lower(I, o, I.load(a[0])), 'node')


@method('multimap', 'upper_bound')
def mm_ub(I, o, a, fn, e):
    return IterV(o, mm_lower(I, o, I.load(a[0]), True), 'node')


@method('multimap', 'find')
def mm_find(I, o, a, fn, e):
    v = I.load(o)
    T_ = I.loc_type(o)
    k = I.load(a[0])
    r = mm_lower(I, o, k)
    u = mm_lower(I, o, k, True)
    # any element with the key may be returned
    x = z3.Const(I.fresh_name('find'), IntS)
    I.assume(z3.If(r < u, z3.And(r <= x, x < u), x == T_.th.len(v)))
    return IterV(o, x, 'node')


@method('multimap', 'count')
def mm_count(I, o, a, fn, e):
    k = I.load(a[0])
    return mm_lower(I, o, k, True) - mm_lower(I, o, k)


@method('multimap', 'equal_range')
def mm_eqr(I, o, a, fn, e):
    k = I.load(a[0])
    T_ = TTuple([TOther('iter'), TOther('iter')], pair=True)
    return I.temp(RecV(T_, {'first': IterV(o, mm_lower(I, o, k), 'node'), 'second': IterV(o, mm_lower(I, o, k, True), 'node')}), T_)


def shift_iters(I, o, at, delta):
    """Iterators of node based containers stay with their element."""
    for l in list(I.env.values()):
        if isinstance(l, Loc) and isinstance(l.root, Cell) and not l.path and isinstance(l.root.val, IterV):
            it = l.root.val
            if isinstance(it.cont, Loc) and it.cont.same(o):
                I.store(l, IterV(it.cont, z3.simplify(z3.If(it.idx >= at, it.idx + delta, it.idx)), it.kind))


@method('multimap', 'insert')
def mm_insert(I, o, a, fn, e):
    v = I.load(o)
    T_ = I.loc_type(o)
    x = I.load(a[0])
    if isinstance(x, InitListV):
        x = I.from_list(x, T_.elem)
    x = I.coerce(x, T_.elem)
    p = mm_lower(I, o, x.f['first'], True)
    th = T_.th
    I.store(o, th.cat(th.slice(v, 0, p), th.cat(th.push(th.emp, T_.elem.pack(x)), th.slice(v, p, th.len(v)))))
    shift_iters(I, o, p, 1)
    mm_sorted(I, o)
    return IterV(o, p, 'node')


@method('multimap', 'emplace')
def mm_emplace(I, o, a, fn, e):
    T_ = I.loc_type(o)
    x = RecV(T_.elem, {'first': I.load(a[0]), 'second': I.coerce(list_or(I, I.load(a[1]), T_.elem.elems[1]), T_.elem.elems[1])})
    return mm_insert(I, o, [x], fn, e)


@method('multimap', 'erase')
def mm_erase(I, o, a, fn, e):
    v = I.load(o)
    T_ = I.loc_type(o)
    th = T_.th
    it = I.load(a[0])
    if isinstance(it, IterV):
        if len(a) > 1:
            l = I.load(a[1])
            I.oblige('erased range is valid', z3.And(0 <= it.idx, it.idx <= l.idx, l.idx <= th.len(v)), 'safety')
            lo, hi = it.idx, l.idx
        else:
            I.oblige('erased iterator is valid', z3.And(0 <= it.idx, it.idx < th.len(v)), 'safety')
            lo, hi = it.idx, z3.simplify(it.idx + 1)
    else:
        lo, hi = mm_lower(I, o, it), mm_lower(I, o, it, True)
    I.store(o, th.cat(th.slice(v, 0, lo), th.slice(v, hi, th.len(v))))
    shift_iters(I, o, hi, z3.simplify(lo - hi))
    mm_sorted(I, o)
    return IterV(o, lo, 'node')


@method('multimap', 'extract')
def mm_extract(I, o, a, fn, e):
    it = I.load(a[0])
    if not isinstance(it, IterV):
        raise OutOfReach('extract by key')
    mm_erase(I, o, [it], fn, e)
    # the node holds the entry; it is only kept alive, its value is not used
    return I.load(I.fresh(I.rtype(e['t']), 'node'))


# ------------------------------------------------------------------ algorithms
def rng(I, a, b):
    a, b = I.load(a), I.load(b)
    if not (isinstance(a, IterV) and isinstance(b, IterV)):
        raise OutOfReach('algorithm over other iterators')
    n = I.cont_len(a.cont)
    I.oblige('iterator range is valid', z3.And(0 <= a.idx, a.idx <= b.idx, b.idx <= n), 'safety')
    return a, b


def at(I, it, idx):
    """Element value (for predicates)."""
    return I.load(at_loc(I, it, idx))


def at_loc(I, it, idx):
    if isinstance(it.cont, Loc):
        return it.cont.ext('i', idx)
    return th_of(it.cont).at(it.cont, idx)


def pat(I, it, idx):
    s = I.load(it.cont)
    return th_of(s).at(s, idx)


def pred_at(I, p, *xs):
    """Truth of predicate p on symbolic elements, as a formula."""
    def run():
        r = I.call_value(I.load(p), list(xs))
        r = I.truth(I.load(r))
        # give every path its own value
        return z3.BoolVal(I.decide(r))
    return I.pure_merge(run)


@func('equal')
def f_equal(I, a, fn, e):
    x, xe = rng(I, a[0], a[1])
    y = I.load(a[2])
    n = z3.simplify(xe.idx - x.idx)
    rest = a[3:]
    if rest and isinstance(I.load(rest[0]), IterV):
        ye = I.load(rest[0])
        rest = rest[1:]
        same = n == ye.idx - y.idx
    else:
        same = None
        I.oblige('second range of std::equal is long enough', y.idx + n <= I.cont_len(y.cont), 'safety')
    if not rest:
        sx, sy = I.load(x.cont), I.load(y.cont)
        th = th_of(sx)
        r = th.eqS(th.slice(sx, x.idx, xe.idx), th.slice(sy, y.idx, z3.simplify(y.idx + n)))
        if z3.is_int_value(y.idx) and y.idx.as_long() == 0:
            pass
    else:
        J = z3.Const(I.fresh_name('J'), IntS)
        q = I.quiet
        I.quiet = True
        try:
            f = pred_at(I, rest[0], at_loc(I, x, z3.simplify(x.idx + J)), at_loc(I, y, z3.simplify(y.idx + J)))
        finally:
            I.quiet = q
        j = z3.Int('j!')
        b = z3.Const(I.fresh_name('equal'), BoolS)
        w = z3.Const(I.fresh_name('differ'), IntS)
        fj = z3.substitute(f, (J, j))
        pats = [pat(I, x, z3.simplify(x.idx + j)), pat(I, y, z3.simplify(y.idx + j))]
        if x.idx.eq(y.idx) or True:
            I.assume(z3.Implies(b, forall([j], z3.Implies(z3.And(0 <= j, j < n), fj), pats)))
        I.assume(z3.Implies(z3.Not(b), z3.And(0 <= w, w < n, z3.Not(z3.substitute(f, (J, w))))))
        r = b
    return z3.And(same, r) if same is not None else r


def quant_algo(I, a, want, name):
    """first index in range where pred == want, else end"""
    x, xe = rng(I, a[0], a[1])
    J = z3.Const(I.fresh_name('J'), IntS)
    q = I.quiet
    I.quiet = True
    try:
        f = pred_at(I, a[2], at_loc(I, x, J))
    finally:
        I.quiet = q
    if not want:
        f = z3.Not(f)
    r = z3.Const(I.fresh_name(name), IntS)
    j = z3.Int('j!')
    fj = z3.substitute(f, (J, j))
    I.assume(z3.And(x.idx <= r, r <= xe.idx))
    I.assume(forall([j], z3.Implies(z3.And(x.idx <= j, j < r), z3.Not(fj)), [pat(I, x, j)]))
    I.assume(z3.Implies(r < xe.idx, z3.substitute(f, (J, r))))
    return x, xe, r


@func('find_if')
def f_find_if(I, a, fn, e):
    x, xe, r = quant_algo(I, a, True, 'find_if')
    return IterV(x.cont, r, x.kind)


@func('find_if_not')
def f_find_ifn(I, a, fn, e):
    x, xe, r = quant_algo(I, a, False, 'find_if_not')
    return IterV(x.cont, r, x.kind)


@func('all_of')
def f_all(I, a, fn, e):
    x, xe, r = quant_algo(I, a, False, 'all_of')
    return r == xe.idx


@func('any_of')
def f_any(I, a, fn, e):
    x, xe, r = quant_algo(I, a, True, 'any_of')
    return r != xe.idx


@func('none_of')
def f_none(I, a, fn, e):
    x, xe, r = quant_algo(I, a, True, 'none_of')
    return r == xe.idx


@func('adjacent_find')
def f_adj(I, a, fn, e):
    x, xe = rng(I, a[0], a[1])
    J = z3.Const(I.fresh_name('J'), IntS)
    q = I.quiet
    I.quiet = True
    try:
        if len(a) > 2:
            f = pred_at(I, a[2], at_loc(I, x, J), at_loc(I, x, J + 1))
        else:
            f = I.equal(at(I, x, J), at(I, x, J + 1))
    finally:
        I.quiet = q
    r = z3.Const(I.fresh_name('adjacent'), IntS)
    j = z3.Int('j!')
    fj = z3.substitute(f, (J, j))
    I.assume(z3.And(x.idx <= r, r <= xe.idx))
    I.assume(forall([j], z3.Implies(z3.And(x.idx <= j, j < r, j + 1 < xe.idx), z3.Not(fj)), [pat(I, x, j)]))
    I.assume(z3.Implies(r < xe.idx, z3.And(r + 1 < xe.idx, z3.substitute(f, (J, r)))))
    return IterV(x.cont, r, x.kind)


@func('lower_bound')
def f_lower(I, a, fn, e):
    """For a range sorted by the comparison: the first element not less than the value."""
    x, xe = rng(I, a[0], a[1])
    J = z3.Const(I.fresh_name('J'), IntS)
    q = I.quiet
    I.quiet = True
    try:
        f = pred_at(I, a[3], at_loc(I, x, J), a[2])
    finally:
        I.quiet = q
    i, j = z3.Ints('i! j!')
    # requires: partitioned by (elem < value)
    fi, fj = z3.substitute(f, (J, i)), z3.substitute(f, (J, j))
    sk_i, sk_j = z3.Const(I.fresh_name('sk'), IntS), z3.Const(I.fresh_name('sk'), IntS)
    I.oblige('lower_bound: range is partitioned by the value',
             z3.Implies(z3.And(x.idx <= sk_i, sk_i <= sk_j, sk_j < xe.idx, z3.substitute(f, (J, sk_j))),
                        z3.substitute(f, (J, sk_i))), 'pre')
    r = z3.Const(I.fresh_name('lower_bound'), IntS)
    I.assume(z3.And(x.idx <= r, r <= xe.idx))
    I.assume(forall([j], z3.Implies(z3.And(x.idx <= j, j < r), fj), [pat(I, x, j)]))
    I.assume(forall([j], z3.Implies(z3.And(r <= j, j < xe.idx), z3.Not(fj)), [pat(I, x, j)]))
    return IterV(x.cont, r, x.kind)


@func('unique')
def f_unique(I, a, fn, e):
    """One element of each run of equal ones stays; what is after the returned end is unspecified."""
    x, xe = rng(I, a[0], a[1])
    o = x.cont
    if not isinstance(o, Loc) or len(a) > 2:
        raise OutOfReach('unique')
    v = I.load(o)
    T_ = I.loc_type(o)
    th = T_.th
    n = th.len(v)
    if not (z3.is_int_value(x.idx) and x.idx.as_long() == 0 and xe.idx.eq(n)):
        raise OutOfReach('unique of part of a container')
    new = z3.Const(I.fresh_name('unique'), T_.sort)
    src, dst = z3.Function(I.fresh_name('src'), IntS, IntS), z3.Function(I.fresh_name('dst'), IntS, IntS)
    r = z3.Const(I.fresh_name('unique_end'), IntS)
    i, j = z3.Ints('i! j!')
    I.assume(z3.And(th.len(new) == n, 0 <= r, r <= n, (n == 0) == (r == 0)))
    I.assume(forall([i], z3.Implies(z3.And(0 <= i, i < r), z3.And(0 <= src(i), src(i) < n, th.at(new, i) == th.at(v, src(i)), dst(src(i)) == i)), [th.at(new, i), src(i)]))
    I.assume(forall([i], z3.Implies(z3.And(0 <= i, i < n), z3.And(0 <= dst(i), dst(i) < r, th.at(new, dst(i)) == th.at(v, i))), [th.at(v, i), dst(i)]))
    I.assume(forall([i, j], z3.Implies(z3.And(0 <= i, i < j, j < r), src(i) < src(j)), [(src(i), src(j))]))
    I.assume(forall([i, j], z3.Implies(z3.And(0 <= i, i + 1 == j, j < r), th.at(new, i) != th.at(new, j)), [(th.at(new, i), th.at(new, j))]))
    I.store(o, new)
    return IterV(o, r, x.kind)


@func('sort', 'stable_sort')
def f_sort(I, a, fn, e):
    x, xe = rng(I, a[0], a[1])
    o = x.cont
    if not isinstance(o, Loc):
        raise OutOfReach('sort')
    v = I.load(o)
    T_ = I.loc_type(o)
    th = T_.th
    n = th.len(v)
    if not (z3.is_int_value(x.idx) and x.idx.as_long() == 0 and xe.idx.eq(n)):
        raise OutOfReach('sort of part of a container')
    new = z3.Const(I.fresh_name('sorted'), T_.sort)
    perm = z3.Function(I.fresh_name('perm'), IntS, IntS)
    inv = z3.Function(I.fresh_name('perminv'), IntS, IntS)
    i, j = z3.Ints('i! j!')
    R = lambda k: z3.And(0 <= k, k < n)
    I.assume(th.len(new) == n)
    I.assume(forall([i], z3.Implies(R(i), z3.And(R(perm(i)), th.at(new, i) == th.at(v, perm(i)), inv(perm(i)) == i)),
                    [th.at(new, i), perm(i)]))
    I.assume(forall([i], z3.Implies(R(i), z3.And(R(inv(i)), th.at(new, inv(i)) == th.at(v, i), perm(inv(i)) == i)),
                    [th.at(v, i), inv(i)]))
    # order: later elements are not less than earlier ones
    cell = I.new_cell('tmp', new, T_)
    A, B = z3.Const(I.fresh_name('J'), IntS), z3.Const(I.fresh_name('J'), IntS)
    q = I.quiet
    I.quiet = True
    try:
        if len(a) > 2:
            f = pred_at(I, a[2], Loc(cell).ext('i', A), Loc(cell).ext('i', B))
        else:
            f = I.contracts.less(I, T_.elem, I.load(Loc(cell).ext('i', A)), I.load(Loc(cell).ext('i', B)))
    finally:
        I.quiet = q
    fij = z3.substitute(f, (A, j), (B, i))
    I.contracts.check_weak_order(I, a[2] if len(a) > 2 else None, f, A, B)
    I.assume(forall([i, j], z3.Implies(z3.And(0 <= i, i < j, j < n), z3.Not(fij)), [(th.at(new, i), th.at(new, j))]))
    I.store(o, new)
    I.last_sort = (v, new, perm, inv)
    return None


# ------------------------------------------------------------------ numbers (C library)
# What the C library makes of a text: the number, where it stopped, and the error code (0: none). Uninterpreted, apart from
# where it can stop and the range of the type.
FL = {'strtof': 'float32', 'strtod': 'float64'}
RANGE = {'strtol': (-(1 << 63), (1 << 63) - 1), 'strtoll': (-(1 << 63), (1 << 63) - 1), 'strtoul': (0, (1 << 64) - 1), 'strtoull': (0, (1 << 64) - 1)}
_fl = {n: TOpaque(n) for n in FL.values()}


def c_number(n, s, base=None):
    """(value, end, error) of strtol and the like"""
    if base is None:
        f = [z3.Function(f'{n}_{k}', Str.sort, t) for k, t in (('value', _fl[FL[n]].sort), ('end', IntS), ('errno', IntS))]
        return [x(s) for x in f]
    f = [z3.Function(f'{n}_{k}', Str.sort, IntS, IntS) for k in ('value', 'end', 'errno')]
    return [x(s, base) for x in f]


@func('strtol', 'strtoll', 'strtoul', 'strtoull', 'strtof', 'strtod')
def f_strto(I, a, fn, e):
    n = fn['n']
    s = I.load(a[0])
    v, end, err = c_number(n, s, *[I.load(x) for x in a[2:]])
    I.assume(z3.And(0 <= end, end <= Str.len(s)))
    if n in RANGE:
        I.assume(z3.And(RANGE[n][0] <= v, v <= RANGE[n][1]))
    out = I.load(a[1])
    if isinstance(out, PtrV):
        I.store(out.loc, IterV(s, end, 'cstr'))
    else:
        raise OutOfReach('end pointer')
    no = Loc(HeapRoot('Ghost', 'errno', null))
    I.store(no, z3.If(err != 0, err, I.load(no)))
    return v


@func('__errno_location')
def f_errno(I, a, fn, e):
    return PtrV(Loc(HeapRoot('Ghost', 'errno', null)))


# ------------------------------------------------------------------ streams
# Only what a stream is given is modelled; the state of the stream (errors, formatting flags) is not.
@method('basic_ostream', 'write')
def os_write(I, o, a, fn, e):
    x, n = I.load(a[0]), I.load(a[1])
    if not isinstance(x, IterV):
        raise OutOfReach('text of a stream')
    s = I.load(x.cont)
    st = o.addr if isinstance(o, Ent) else I.load(o)
    I.oblige('a stream that is written to exists', st != null, 'safety')
    I.oblige('a text that is written lies within its source', z3.And(x.idx >= 0, n >= 0, x.idx + n <= Str.len(s)), 'safety')
    l = Loc(HeapRoot('Ghost', 'text', st))
    I.store(l, Str.cat(I.load(l), s if z3.is_int_value(x.idx) and x.idx.as_long() == 0 and n.eq(Str.len(s)) else Str.slice(s, x.idx, x.idx + n)))
    return o


# the characters of a text that are not c, and how many of the first n are
without = z3.Function('without', Str.sort, IntS, Str.sort)
count_of = z3.Function('count_of', Str.sort, IntS, IntS, IntS)
_ws, _wc, _wi, _wj = z3.Const('s!w', Str.sort), z3.Int('c!w'), z3.Int('i!w'), z3.Int('j!w')
_wo, _cn = without(_ws, _wc), count_of(_ws, _wc, _wi)
add_group(['count_of'], [
    forall([_ws, _wc], count_of(_ws, _wc, 0) == 0, [count_of(_ws, _wc, Str.len(_ws))]),
    forall([_ws, _wc, _wi], z3.Implies(z3.And(0 <= _wi, _wi < Str.len(_ws)), count_of(_ws, _wc, _wi + 1) == _cn + z3.If(Str.at(_ws, _wi) == _wc, 1, 0)), [(_cn, Str.at(_ws, _wi))]),
    forall([_ws, _wc, _wi], z3.Implies(z3.And(0 <= _wi, _wi <= Str.len(_ws)), z3.And(0 <= _cn, _cn <= _wi)), [_cn])])
add_group(['without'], [
    forall([_ws, _wc], Str.len(_wo) == Str.len(_ws) - count_of(_ws, _wc, Str.len(_ws)), [_wo]),
    forall([_ws, _wc, _wi], z3.Implies(z3.And(0 <= _wi, _wi < Str.len(_ws), Str.at(_ws, _wi) != _wc), Str.at(_wo, _wi - _cn) == Str.at(_ws, _wi)), [(_wo, _cn)])])


@func('remove')
def f_remove(I, a, fn, e):
    x, y, c = I.load(a[0]), I.load(a[1]), I.load(a[2])
    if not (isinstance(x, IterV) and isinstance(y, IterV) and isinstance(x.cont, Loc)):
        raise OutOfReach('remove')
    s = I.load(x.cont)
    if not (z3.is_expr(s) and s.sort() == Str.sort and x.idx.eq(z3.IntVal(0)) and y.idx.eq(Str.len(s))):
        raise OutOfReach('remove')
    w = without(s, c)
    rest = z3.Const(I.fresh_name('rest'), Str.sort)          # what is left behind is unspecified
    I.assume(Str.len(rest) == Str.len(s) - Str.len(w))
    I.assume(Str.len(w) >= 0)
    r = Str.cat(w, rest)
    I.assume(Str.slice(r, 0, Str.len(w)) == w)          # by extensionality
    I.store(x.cont, r)
    return IterV(x.cont, Str.len(w), x.kind)
