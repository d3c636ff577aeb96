"""Logical theory used by the verification conditions.

Everything here is the meaning that contracts and code share: mathematical
integers, finite sequences, options, tuples, records, object addresses.
Axioms are grouped by the symbol that makes them relevant; an obligation only
carries the groups whose symbols occur in it."""
import z3

IntS = z3.IntSort()
BoolS = z3.BoolSort()

_A = z3.Datatype('Addr')
_A.declare('null')
_A.declare('obj', ('oid', IntS))
_A.declare('sub', ('owner', _A), ('fid', IntS))
Addr = _A.create()
null = Addr.null

GROUPS = []          # (set of symbol names, [formula])
_groups_by_sym = {}
TRUSTED = []         # names of axioms that are assumed, not proved as lemmas


def add_group(symbols, formulas):
    g = (frozenset(symbols), list(formulas))
    GROUPS.append(g)
    for s in symbols:
        _groups_by_sym.setdefault(s, []).append(g)


_symcache = {}


def symbols(e):
    """Names of the uninterpreted functions and sorts' functions in e."""
    key = e.get_id()
    r = _symcache.get(key)
    if r is not None and r[0].eq(e):
        return r[1]
    out = set()
    seen = set()
    st = [e]
    while st:
        x = st.pop()
        i = x.get_id()
        if i in seen:
            continue
        seen.add(i)
        if z3.is_quantifier(x):
            st.append(x.body())
            continue
        if z3.is_app(x):
            if x.decl().kind() == z3.Z3_OP_UNINTERPRETED:
                out.add(x.decl().name())
            st.extend(x.children())
    _symcache[key] = (e, out)
    return out


def relevant_axioms(formulas):
    syms = set()
    for f in formulas:
        syms |= symbols(f)
    todo = sorted(syms)
    used = set()
    res = []
    while todo:
        s = todo.pop()
        for g in _groups_by_sym.get(s, ()):
            if id(g) in used:
                continue
            used.add(id(g))
            for f in g[1]:
                res.append(f)
                for t in sorted(symbols(f)):
                    if t not in syms:
                        syms.add(t)
                        todo.append(t)
    return res


_ite_memo = {}


def _has_ite(p):
    if isinstance(p, (list, tuple)):
        return any(_has_ite(x) for x in p)
    k = p.get_id()
    m = _ite_memo.get(k)
    if m is None:
        m = _ite_memo[k] = (_find_ite(p), p)
    return m[0]


def _find_ite(p):
    st = [p]
    seen = set()
    while st:
        x = st.pop()
        if x.get_id() in seen or z3.is_var(x):
            continue
        seen.add(x.get_id())
        k = x.decl().kind()
        if k == z3.Z3_OP_ITE or z3.is_bool(x) and k != z3.Z3_OP_UNINTERPRETED:
            return True
        st.extend(x.children())
    return False


def touch(x):
    """A true statement that mentions x, so that x can instantiate quantified facts."""
    return z3.Function('touch_' + str(x.sort()), x.sort(), BoolS)(x)


def forall(vs, body, pats=()):
    if any(_has_ite(p) for p in pats):
        pats = [p for p in pats if not _has_ite(p)]
    pats = [p if not isinstance(p, (list, tuple)) else z3.MultiPattern(*p) for p in pats]
    if pats:
        return z3.ForAll(vs, body, patterns=pats)
    return z3.ForAll(vs, body)


# ---------------------------------------------------------------- structural equality
def eqp(a, b):
    """Equality of two terms, with extensionality for sequences in it."""
    s = a.sort()
    q = _seqs_by_sort.get(s.name())
    if q is not None:
        return q.eqS(a, b)
    if isinstance(s, z3.DatatypeSortRef) and s.name() != 'Addr':
        d = _datatypes.get(s.name())
        if d is not None:
            return d.eq(a, b)
    return a == b


_seqs_by_sort = {}
_datatypes = {}


class SeqTh:
    def __init__(self, name, elem):
        self.name = name
        self.elem = elem
        S = self.sort = z3.DeclareSort('Seq_' + name)
        F = lambda n, *sig: z3.Function(n + '_' + name, *sig)
        self.len = F('len', S, IntS)
        self.at = F('at', S, IntS, elem)
        self.emp = z3.Const('emp_' + name, S)
        self.push = F('push', S, elem, S)
        self.cat = F('cat', S, S, S)
        self.slice = F('slice', S, IntS, IntS, S)
        self.upd = F('upd', S, IntS, elem, S)
        self.eqS = F('eqS', S, S, BoolS)
        self.diff = F('diff', S, S, IntS)
        _seqs_by_sort[S.name()] = self
        self._axioms()

    def _axioms(self):
        S, n = self.sort, self.name
        s, t, u = z3.Consts(f's!{n} t!{n} u!{n}', S)
        i, j, k = z3.Ints('i! j! k!')
        x = z3.Const(f'x!{n}', self.elem)
        L, at, push, cat, sl, upd, eqS, diff, emp = (self.len, self.at, self.push, self.cat, self.slice,
                                                     self.upd, self.eqS, self.diff, self.emp)
        A = z3.And
        # Every group is keyed by the operation it defines.
        add_group([L.name()], [forall([s], L(s) >= 0, [L(s)]),
                               forall([s], (L(s) == 0) == (s == emp), [L(s)])])
        add_group([emp.decl().name()], [L(emp) == 0])
        add_group([push.name()], [
            forall([s, x], L(push(s, x)) == L(s) + 1, [push(s, x)]),
            forall([s, x], at(push(s, x), L(s)) == x, [push(s, x)]),
            forall([s, x, i], z3.Implies(z3.And(0 <= i, i < L(s)), at(push(s, x), i) == at(s, i)),
                   [at(push(s, x), i), (push(s, x), at(s, i))])])
        add_group([cat.name()], [
            forall([s, t], L(cat(s, t)) == L(s) + L(t), [cat(s, t)]),
            forall([s, t, i], z3.Implies(A(0 <= i, i < L(s)), at(cat(s, t), i) == at(s, i)),
                   [at(cat(s, t), i), (cat(s, t), at(s, i))]),
            forall([s, t, i], z3.Implies(i >= L(s), at(cat(s, t), i) == at(t, i - L(s))),
                   [at(cat(s, t), i)]),
            forall([s, t, i], z3.Implies(A(0 <= i, i < L(t)), at(cat(s, t), i + L(s)) == at(t, i)),
                   [(cat(s, t), at(t, i))])])
        add_group([sl.name()], [
            forall([s, i, j], z3.Implies(A(0 <= i, i <= j, j <= L(s)), L(sl(s, i, j)) == j - i), [sl(s, i, j)]),
            forall([s, i, j, k], z3.Implies(A(0 <= i, i <= j, j <= L(s), 0 <= k, k < j - i),
                                            at(sl(s, i, j), k) == at(s, i + k)), [at(sl(s, i, j), k)]),
            forall([s, i, j, k], z3.Implies(A(0 <= i, i <= k, k < j, j <= L(s)),
                                            at(sl(s, i, j), k - i) == at(s, k)), [(sl(s, i, j), at(s, k))]),
            forall([s, j], z3.Implies(j == L(s), sl(s, 0, j) == s), [sl(s, 0, j)])])
        add_group([upd.name()], [
            forall([s, i, x], L(upd(s, i, x)) == L(s), [upd(s, i, x)]),
            forall([s, i, x], z3.Implies(A(0 <= i, i < L(s)), at(upd(s, i, x), i) == x), [upd(s, i, x)]),
            forall([s, i, x, k], z3.Implies(k != i, at(upd(s, i, x), k) == at(s, k)),
                   [at(upd(s, i, x), k), (upd(s, i, x), at(s, k))])])
        d = diff(s, t)
        add_group([eqS.name()], [
            forall([s, t], eqS(s, t) == (s == t), [eqS(s, t)]),
            forall([s, t], z3.Or(eqS(s, t), L(s) != L(t),
                                 A(0 <= d, d < L(s), z3.Not(_late_eq(self.elem, at(s, d), at(t, d))))), [eqS(s, t)])])

    def lit(self, elems):
        r = self.emp
        for e in elems:
            r = self.push(r, e)
        return r


def _late_eq(sort, a, b):
    return eqp(a, b)


_seqcache = {}


def seq_of(elem_sort, tag=None):
    n = tag or str(elem_sort)
    if n not in _seqcache:
        _seqcache[n] = SeqTh(n, elem_sort)
    return _seqcache[n]


class DT:
    """A record/tuple (one constructor) or a tagged union."""

    def __init__(self, name, ctors):
        self.name = name
        d = z3.Datatype(name)
        for cn, fs in ctors:
            d.declare(cn, *[(f'{name}.{cn}.{fn}', fs_) for fn, fs_ in fs])
        self.sort = d.create()
        self.ctors = ctors
        _datatypes[name] = self
        self.cons = [self.sort.constructor(k) for k in range(self.sort.num_constructors())]      # kept: ids are unique while they live
        self.con_ids = [c.get_id() for c in self.cons]
        self.accs = {}

    def mk(self, ci, *args):
        c = self.sort.constructor(ci)
        return c(*args) if c.arity() else c()

    def acc(self, ci, fi, term):
        # accessor applied to constructor: simplify on the spot
        if z3.is_app(term) and term.decl().get_id() == self.con_ids[ci]:
            return term.arg(fi)
        k = (ci, fi)
        f = self.accs.get(k)
        if f is None:
            f = self.accs[k] = self.sort.accessor(ci, fi)
        return f(term)

    def is_(self, ci, term):
        if z3.is_app(term):
            for k in range(self.sort.num_constructors()):
                if term.decl().get_id() == self.con_ids[k]:
                    return z3.BoolVal(k == ci)
        return self.sort.recognizer(ci)(term)

    def eq(self, a, b):
        alts = []
        for ci, (cn, fs) in enumerate(self.ctors):
            cs = [eqp(self.acc(ci, fi, a), self.acc(ci, fi, b)) for fi in range(len(fs))]
            if len(self.ctors) > 1:
                cs = [self.is_(ci, a), self.is_(ci, b)] + cs
            alts.append(z3.And(*cs) if cs else z3.BoolVal(True))
        return z3.Or(*alts) if len(alts) > 1 else alts[0]


_dtcache = {}


def datatype(name, ctors):
    if name not in _dtcache:
        _dtcache[name] = DT(name, ctors)
    return _dtcache[name]


Str = seq_of(IntS, 'char')


def strlit(s):
    if isinstance(s, str):
        s = s.encode('utf-8')
    s = list(s)
    s = [c - 256 if c > 127 else c for c in s]
    if len(s) <= 6:
        return Str.lit([z3.IntVal(c) for c in s])
    nm = 'lit:' + bytes([c & 255 for c in s]).decode('latin1')
    if nm not in _lits:
        c = z3.Const(nm, Str.sort)
        ax = [Str.len(c) == len(s)]
        for i, ch in enumerate(s[:2]):
            ax.append(Str.at(c, i) == ch)
        if len(s) <= 40:
            for i, ch in enumerate(s[2:], 2):
                ax.append(Str.at(c, i) == ch)
        add_group([nm], ax)
        _lits[nm] = c
    return _lits[nm]


_lits = {}


# the allocation number of an object: negative for the objects made during the verified call, in order of their creation
rid = z3.Function('rid', Addr, IntS)
_ra, _ri = z3.Const('a!rid', Addr), z3.Int('i!rid')
add_group(['rid'], [
    rid(null) == 0,
    forall([_ra], z3.Implies(Addr.is_obj(_ra), rid(_ra) == Addr.oid(_ra)), [rid(_ra)]),
    forall([_ra], z3.Implies(Addr.is_sub(_ra), rid(_ra) == rid(Addr.owner(_ra))), [rid(_ra)])])
