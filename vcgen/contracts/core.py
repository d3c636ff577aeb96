import z3, importlib
from theory import *
from theory import _seqs_by_sort
from ctypes_ import *
import astdb

shapes = {}
REG = {}          # stripped qualified name -> [Contract]
LEMMAS = []


class Contract:
    q = None
    nparams = None
    inline = False
    loops = ()
    may_throw = False
    throw_contract = False
    noreturn = False
    allocates = False
    counts_fit = None      # an assumption: counters of definitions, names and values do not overflow
    node_is_ctor = False
    verify = True
    result_of = None
    props = ()
    cover = True

    @property
    def short(self):
        return self.q.split('argos::', 1)[-1]

    def match(self, node_or_fn, pts):
        return self.nparams is None or len(pts) == self.nparams

    def requires(self, sc):
        return []

    def ensures(self, sc):
        return []

    def throws(self, sc):
        return None

    def assumes(self, sc):
        """Taken for granted where the function is verified and where it is called; recorded as an assumption."""
        return []

    def exits(self, sc):
        return None

    def exit_events(self, sc):
        return []

    def on_throw(self, sc):
        return []

    def may_exit(self, sc):
        return None

    def on_exit(self, sc):
        return []

    def pure(self, sc):
        return None

    def modifies(self, sc):
        return []

    def events(self, sc):
        return []

    def events_spec(self, sc):
        return None

    def make_arg(self, I, p, T_):
        return None

    def axioms_at_entry(self, sc):
        return []


class Loop:
    """Annotation of one loop: inv(sc) -> [(name, formula)]."""

    def __init__(self, inv, decreases=None):
        self.inv = inv
        self.decreases = decreases


def contract(q, props='', nparams=None, **kw):
    def d(cls):
        c = type(cls.__name__, (cls, Contract) if not issubclass(cls, Contract) else (cls,), {})()
        c.q = q
        c.nparams = nparams
        c.props = props.split()
        for k, v in kw.items():
            setattr(c, k, v)
        REG.setdefault(q, []).append(c)
        return cls
    return d


class Lemma:
    def __init__(self, name, props, thunk):
        self.name, self.props, self.thunk = name, props.split(), thunk
        LEMMAS.append(self)


def lemma(name, props):
    def d(f):
        Lemma(name, props, f)
        return f
    return d


def type_text(t):
    k = t.get('k')
    if k == 'ref':
        return type_text(t['to']) + ('&&' if t.get('rv') else '&')
    if k == 'ptr':
        return type_text(t['to']) + '*'
    if k == 'rec':
        return astdb.strip_targs(t['n']).split('::')[-1]
    if k == 'int':
        return ('i' if t['s'] else 'u') + str(t['w'])
    if k == 'enum':
        return t['n'].split('::')[-1]
    return k or '?'


def find(q, node_or_fn, pts):
    for c in REG.get(astdb.strip_targs(q), ()):
        if c.match(node_or_fn, pts):
            return c
    return None


# ------------------------------------------------------------------ scopes
class Scope:
    def __init__(self, I, c, node, this, args):
        self.I, self.c, self.node, self.this, self.args = I, c, node, this, args
        self.pre_heap = None
        self.pre_vals = None
        self.pre_this = None
        self.pre_cells = {}
        self.result = None
        self.result_loc = None
        self.thrown = None
        self.allocs0 = I.allocs       # how many objects were made before the call, and after it
        self.allocs1 = I.allocs

    def freeze(self):
        I = self.I
        self.pre_heap = dict(I.heap)
        self.pre_vals = [I.load(a) for a in self.args]
        self.pre_this = I.load(self.this) if isinstance(self.this, Loc) else None
        for a in list(self.args) + [self.this]:
            if isinstance(a, Loc) and isinstance(a.root, Cell):
                self.pre_cells[id(a.root)] = a.root.val

    def pre_scope(self):
        return self

    # current values
    def arg(self, i):
        return self.I.load(self.args[i])

    def nargs(self):
        return len(self.args)

    def old(self, i):
        return self.pre_vals[i] if self.pre_vals is not None else self.arg(i)

    def m(self, f):
        """member f of *this, now"""
        if isinstance(self.this, Ent):
            return self.h(self.this.ent, f, self.this.addr)
        return self.I.load(self.this).f[f]

    def om(self, f):
        if self.pre_heap is None:
            return self.m(f)
        if isinstance(self.this, Ent):
            return self.oh(self.this.ent, f, self.this.addr)
        return self.pre_this.f[f]

    def mloc(self, f):
        if isinstance(self.this, Ent):
            return Loc(HeapRoot(self.this.ent, f, self.this.addr))
        return self.this.ext('f', f)

    def H(self, ent, f):
        return self.I.heap_arr(ent, f)

    def OH(self, ent, f):
        if self.pre_heap is None:
            return self.H(ent, f)
        a = self.pre_heap.get((ent, f))
        if a is None:
            return z3.Array(f'H!{ent}.{f}', Addr, self.I.ent_field(ent, f).sort)
        return a

    def h(self, ent, f, addr):
        return self.I.ent_field(ent, f).unpack(z3.Select(self.H(ent, f), addr))

    def oh(self, ent, f, addr):
        return self.I.ent_field(ent, f).unpack(z3.Select(self.OH(ent, f), addr))

    def T(self, ent, f):
        return self.I.ent_field(ent, f)


class CallScope(Scope):
    def __init__(self, I, c, fn, node, this, args):
        Scope.__init__(self, I, c, node or fn, this, args)


class BodyScope(Scope):
    pass


class LoopScope(Scope):
    """What a loop invariant can refer to."""

    def __init__(self, I, entry, names, counter, entry_cells):
        self.I = I
        self.entry, self.names, self.counter, self.entry_cells = entry, names, counter, entry_cells
        self.n = None
        self.this = I.this
        self.pre_heap = entry
        self.pre_this = None
        self.fsc = getattr(I, 'fn_scope', None)
        self.allocs0 = self.fsc.allocs0 if self.fsc else I.allocs
        self.allocs1 = I.allocs

    @property
    def i(self):
        """The position of a counted loop."""
        v = self.I.load(self.I.env[self.counter])
        return v.idx if isinstance(v, IterV) else v

    def var(self, name):
        if name not in self.names:
            raise KeyError(name)
        k = self.names[name]
        v = self.I.env[k]
        return self.I.named(self.I.load(v), name)

    def var0(self, name):
        if name not in self.names:
            raise KeyError(name)
        return self.entry_cells[self.names[name]]

    def local(self, T_name, nth=0, at_entry=False):
        """A local variable found by its type (robust against renaming)."""
        c = []
        for k, l in self.I.env.items():
            if isinstance(l, Loc) and isinstance(l.root, Cell) and not l.path and l.root.T is not None \
                    and str(l.root.T) == T_name and l.root.name.startswith('v') and k in self.entry_cells:
                c.append((l.root.birth, k))
        c.sort()
        if nth >= len(c):
            raise KeyError(T_name)
        if at_entry:
            return self.entry_cells[c[nth][1]]
        return self.I.load(self.I.env[c[nth][1]])

    def param(self, i):
        """Parameter of the function, by position."""
        node = self.I.fn_nodes[-1]
        return self.I.load(self.I.env[node['params'][i]['id']])

    @property
    def map0(self):
        """Of a loop over a map: the map it iterates over, and the position of each key."""
        m0, T_ = self.I.map_of[self.loop_id]
        from engine import map_keys
        return m0, T_, lambda k: map_keys(T_)[2](m0, k)

    @property
    def range_span(self):
        """(sequence, offset, length) of a span that is iterated over"""
        v = self.I.load(self.I.range_cont)
        return self.I.load(v.cont), v.off, v.len

    @property
    def range(self):
        return self.I.load(self.I.range_cont)


class Contracts:
    def __init__(self):
        self.shapes = shapes
        self.used = set()
        self.CallScope, self.BodyScope, self.LoopScope = CallScope, BodyScope, LoopScope

    def for_key(self, key, node):
        if node is None:
            return None
        return find(node['q'], node, [p['t'] for p in node['params']])

    def for_callee(self, fn, node):
        return find(fn['q'], fn, fn['pt'])

    def qshort(self, key):
        return astdb.strip_targs(key.split('(')[0]).replace('argos::', '')

    def is_new(self, a, before=0):
        return is_new(a, before)

    def init_fields(self, I, obj, rec, done):
        init_fields(I, obj, rec, done)

    def allocate(self, I, ent, args, fn, e):
        return allocate(I, ent, args, fn, e)

    def callback(self, I, o, args, fn, e):
        return callback(I, o, args, fn, e)

    def mmap_fns(self, T_):
        return mmap_fns(T_)

    def less(self, I, T_, a, b):
        return less(I, T_, a, b)

    def check_weak_order(self, I, pred, f, A, B):
        return check_weak_order(I, pred, f, A, B)


# ------------------------------------------------------------------ allocation
def is_new(a, before=0):
    """made after `before` objects had been made"""
    return rid(a) < -before


def allocate(I, ent, args, fn, e):
    """A new object: an address that no existing reference holds."""
    I.allocs = z3.simplify(I.allocs + 1)
    a = Addr.obj(z3.simplify(-I.allocs))
    I.note_new(a)
    obj = Ent(ent, a)
    from engine import ENTS
    if ent not in ENTS:
        raise OutOfReach('allocation of ' + ent)
    new_entity(I, obj, args, fn, e)
    return a


def new_entity(I, obj, args, fn, e):
    """Runs the constructor of a heap object: member initialisers, then the constructor found in the source."""
    ent = obj.ent
    q = f'argos::{ent}::{ent}'
    cands = [f for f in I.db.by_q.get(q, []) if f.get('ctor') and len(f['params']) == len(args)]
    rec = None
    for n, r in I.db.records.items():
        if n.split('::')[-1] == ent:
            rec = r
    vals = [I.load(a) for a in args]
    if len(args) == 1 and isinstance(vals[0], Ent):
        cands = [f for f in cands if f['params'][0]['t']['k'] == 'ref']
        want_rv = bool(e and e['args'] and I.is_xvalue(e['args'][0]))
        c2 = [f for f in cands if bool(f['params'][0]['t'].get('rv')) == want_rv]
        cands = c2 or cands
    if cands and not cands[0].get('defaulted'):
        node = cands[0]
        c = find(q, node, [p['t'] for p in node['params']])
        if c is not None and c.node_is_ctor:
            I.apply_contract(c, dict(q=q, n=ent, pt=[p['t'] for p in node['params']], ret={'k': 'void'}, ctor=True), node, obj, args)
            return
        done = {i.get('f') for i in node['inits']}
        init_fields(I, obj, rec, done)
        I.inline(node, obj, args)
        return
    if not args:
        init_fields(I, obj, rec, set())
        return
    if len(args) == 1 and isinstance(vals[0], Ent):
        for f in rec['fields']:
            FT = I.ent_field(ent, f['n'])
            if isinstance(FT, TEnt):
                raise OutOfReach('copy of nested heap object')
            I.store(Loc(HeapRoot(ent, f['n'], obj.addr)), I.load(Loc(HeapRoot(ent, f['n'], vals[0].addr))))
        return
    raise OutOfReach('constructor of ' + ent)


def init_fields(I, obj, rec, done):
    for f in rec['fields']:
        if f['n'] in done:
            continue
        FT = I.ent_field(obj.ent, f['n'])
        dst = Loc(HeapRoot(obj.ent, f['n'], obj.addr))
        if isinstance(FT, TEnt):
            sub = Ent(FT.ent, I.sub_addr(obj.addr, obj.ent, f['n']))
            r2 = [r for n, r in I.db.records.items() if n.split('::')[-1] == FT.ent][0]
            init_fields(I, sub, r2, set())
            continue
        if f.get('init') is not None:
            saved = I.this
            I.this = obj
            try:
                v = I.load(I.ev(f['init'], FT))
            finally:
                I.this = saved
            if isinstance(v, InitListV):
                v = I.from_list(v, FT)
            v = I.coerce(v, FT)
        elif isinstance(FT, TRec):
            v = I.default_rec(FT)
        elif isinstance(FT, TOpaque) and FT.name == 'function':
            import lib
            v = z3.Const(I.fresh_name('fn'), FT.sort)
            I.assume(z3.Not(lib.has_fn(v)))
        elif isinstance(FT, (TInt, TBool)):
            v = I.load(I.fresh(FT, 'uninit.' + f['n']))
        elif isinstance(FT, TOther):
            continue
        else:
            v = FT.default()
        I.store(dst, v)


USER_CALLBACK = []


def callback(I, o, args, fn, e):
    """A user callback: see machine.py"""
    return USER_CALLBACK[0](I, o, args, fn, e)


class _MM:
    pass


_mm = {}


def mmap_fns(T_):
    """lower/upper bound positions in a key-sorted sequence of entries."""
    n = T_.th.name
    if n in _mm:
        return _mm[n]
    th = T_.th
    r = _MM()
    r.lb = z3.Function('lb_' + n, th.sort, IntS, IntS)
    r.ub = z3.Function('ub_' + n, th.sort, IntS, IntS)
    s = z3.Const('s!' + n, th.sort)
    k, i = z3.Ints('k! i!')
    key = lambda x: T_.elem.dt.acc(0, 0, x)
    # the j'th value of a key (a function of its own, as sums do not work in triggers)
    r.of = z3.Function('value_' + n, th.sort, IntS, IntS, th.es if hasattr(th, 'es') else T_.elem.sort)
    add_group([r.of.name()], [forall([s, k, i], r.of(s, k, i) == th.at(s, r.lb(s, k) + i), [r.of(s, k, i)])])
    # consequences of the definitions below
    add_group([r.lb.name()], [forall([s, k], z3.And(r.lb(s, k) <= r.ub(s, k), r.ub(s, k) <= th.len(s)), [r.lb(s, k)])])
    for f, lt in ((r.lb, lambda x: key(x) < k), (r.ub, lambda x: key(x) <= k)):
        add_group([f.name()], [
            forall([s, k], z3.And(0 <= f(s, k), f(s, k) <= th.len(s)), [f(s, k)]),
            forall([s, k, i], z3.Implies(z3.And(0 <= i, i < f(s, k)), lt(th.at(s, i))), [(f(s, k), th.at(s, i))]),
            forall([s, k, i], z3.Implies(z3.And(f(s, k) <= i, i < th.len(s)), z3.Not(lt(th.at(s, i)))),
                   [(f(s, k), th.at(s, i))])])
    _mm[n] = r
    return r


# ------------------------------------------------------------------ string order
mism = z3.Function('mismatch', Str.sort, Str.sort, IntS)
_a, _b, _c = z3.Consts('a!s b!s c!s', Str.sort)
_j = z3.Int('j!')
add_group([mism.name()], [
    forall([_a, _b], z3.And(0 <= mism(_a, _b), mism(_a, _b) <= Str.len(_a), mism(_a, _b) <= Str.len(_b)), [mism(_a, _b)]),
    forall([_a, _b, _j], z3.Implies(z3.And(0 <= _j, _j < mism(_a, _b)), Str.at(_a, _j) == Str.at(_b, _j)),
           [(mism(_a, _b), Str.at(_a, _j)), (mism(_a, _b), Str.at(_b, _j))]),
    forall([_a, _b], z3.Implies(z3.And(mism(_a, _b) < Str.len(_a), mism(_a, _b) < Str.len(_b)),
                                Str.at(_a, mism(_a, _b)) != Str.at(_b, mism(_a, _b))), [mism(_a, _b)])])


def uc(c):
    """a char as unsigned char"""
    return z3.If(c < 0, c + 256, c)


def str_lt(a, b):
    m = mism(a, b)
    return z3.If(z3.And(m < Str.len(a), m < Str.len(b)), uc(Str.at(a, m)) < uc(Str.at(b, m)), Str.len(a) < Str.len(b))


def str_less(op, x, y):
    return {'<': str_lt(x, y), '>': str_lt(y, x), '<=': z3.Not(str_lt(y, x)), '>=': z3.Not(str_lt(x, y))}[op]


def less(I, T_, a, b):
    if z3.is_expr(a) and z3.is_int(a):
        return a < b
    if z3.is_expr(a) and a.sort() == Str.sort:
        return str_lt(a, b)
    if isinstance(a, RecV):
        r = z3.BoolVal(False)
        for (k, x), y in reversed(list(zip(a.f.items(), b.f.values()))):
            l = less(I, None, x, y)
            g = less(I, None, y, x)
            r = z3.Or(l, z3.And(z3.Not(g), r))
        return r
    raise OutOfReach('operator<')


def check_weak_order(I, pred, f, A, B):
    """The comparison given to std::sort: irreflexive and asymmetric (obligation); transitivity is left to lemmas."""
    I.oblige('sort: comparison is irreflexive', z3.Not(z3.substitute(f, (B, A))), 'pre')
    I.oblige('sort: comparison is asymmetric', z3.Not(z3.And(f, z3.substitute(f, (A, B), (B, A)))), 'pre')


def obj_field(ent, f, addr):
    """in `modifies`: a member of one object"""
    return ('loc', Loc(HeapRoot(ent, f, addr)))


_mk = z3.Int('k!')
markf = z3.Function('mark', IntS, IntS)       # the identity; marks terms for quantifier instantiation
add_group(['mark'], [forall([_mk], markf(_mk) == _mk, [markf(_mk)])])


def mark(x):
    return markf(x) == x


def var0(sc, name, typ, nth):
    """its value when the loop was entered"""
    try:
        return sc.var0(name)
    except KeyError:
        return sc.local(typ, nth, True)


def var(sc, name, typ, nth):
    """A local variable by name, or by type and order of declaration when it was renamed."""
    try:
        return sc.var(name)
    except KeyError:
        return sc.local(typ, nth)
