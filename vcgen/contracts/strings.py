"""C05, C11, C16: StringUtilities.cpp"""
from .core import *
import lib
NPOS = lib.NPOS

A, O, N, Im = z3.And, z3.Or, z3.Not, z3.Implies
L, at = Str.len, Str.at
B = z3.BoolVal


def low(c):
    """ASCII lower case of a byte"""
    return z3.If(A(65 <= c, c <= 90), c + 32, c)


# eq_ci(a, b): same length and equal byte by byte after mapping A-Z to a-z
eq_ci = z3.Function('eq_ci', Str.sort, Str.sort, BoolS)
ci_diff = z3.Function('ci_diff', Str.sort, Str.sort, IntS)
a_, b_, c_ = z3.Consts('a!s b!s c!s', Str.sort)
j_, k_, n_ = z3.Ints('j! k! n!')
d_ = ci_diff(a_, b_)
add_group([eq_ci.name()], [
    forall([a_, b_], Im(eq_ci(a_, b_), L(a_) == L(b_)), [eq_ci(a_, b_)]),
    forall([a_, b_, j_], Im(A(eq_ci(a_, b_), 0 <= j_, j_ < L(a_)), low(at(a_, j_)) == low(at(b_, j_))),
           [(eq_ci(a_, b_), at(a_, j_)), (eq_ci(a_, b_), at(b_, j_))]),
    forall([a_, b_], O(eq_ci(a_, b_), L(a_) != L(b_), A(0 <= d_, d_ < L(a_), low(at(a_, d_)) != low(at(b_, d_)))),
           [eq_ci(a_, b_)])])

# the first position where two texts differ modulo case
ci_mism = z3.Function('ci_mismatch', Str.sort, Str.sort, IntS)
m_ = ci_mism(a_, b_)
add_group([ci_mism.name()], [
    forall([a_, b_], A(0 <= m_, m_ <= L(a_), m_ <= L(b_)), [m_]),
    forall([a_, b_, j_], Im(A(0 <= j_, j_ < m_), low(at(a_, j_)) == low(at(b_, j_))),
           [(m_, at(a_, j_)), (m_, at(b_, j_))]),
    forall([a_, b_], Im(A(m_ < L(a_), m_ < L(b_)), low(at(a_, m_)) != low(at(b_, m_))), [m_])])


def less_ci(a, b):
    m = ci_mism(a, b)
    return z3.If(A(m < L(a), m < L(b)), low(at(a, m)) < low(at(b, m)), L(a) < L(b))


def same(a, b, ci):
    """flag and command names denote the same thing"""
    return z3.If(ci, eq_ci(a, b), Str.eqS(a, b))


pre_ci = z3.Function('is_prefix_ci', Str.sort, Str.sort, BoolS)     # (text, prefix)
pc_diff = z3.Function('pc_diff', Str.sort, Str.sort, IntS)
e_ = pc_diff(a_, b_)
add_group([pre_ci.name()], [
    forall([a_, b_], Im(pre_ci(a_, b_), L(b_) <= L(a_)), [pre_ci(a_, b_)]),
    forall([a_, b_, j_], Im(A(pre_ci(a_, b_), 0 <= j_, j_ < L(b_)), low(at(a_, j_)) == low(at(b_, j_))),
           [(pre_ci(a_, b_), at(b_, j_)), (pre_ci(a_, b_), at(a_, j_))]),
    forall([a_, b_], O(pre_ci(a_, b_), L(b_) > L(a_), A(0 <= e_, e_ < L(b_), low(at(a_, e_)) != low(at(b_, e_)))),
           [pre_ci(a_, b_)])])


def pre_cs(a, b):
    return A(L(b) <= L(a), Str.eqS(Str.slice(a, 0, L(b)), b))


def has_prefix(a, b, ci):
    return z3.If(ci, pre_ci(a, b), pre_cs(a, b))


# the same notions with the case mode as a parameter. Their definitions are only given to the proofs that need them (FDEFS);
# the users of names rely on the order facts below, each of which is a lemma
FSAME = z3.Function('same_name', Str.sort, Str.sort, BoolS, BoolS)
FLESS = z3.Function('less_name', Str.sort, Str.sort, BoolS, BoolS)
FPRE = z3.Function('prefix_name', Str.sort, Str.sort, BoolS, BoolS)
_q = z3.Bool('q!ci')
add_group(['same_name'], [forall([a_, b_, _q], FSAME(a_, b_, _q) == z3.If(_q, eq_ci(a_, b_), Str.eqS(a_, b_)), [FSAME(a_, b_, _q)])])
FDEFS = [('the order of names', forall([a_, b_, _q], FLESS(a_, b_, _q) == z3.If(_q, less_ci(a_, b_), str_lt(a_, b_)), [FLESS(a_, b_, _q)])),
         ('prefixes of names', forall([a_, b_, _q], FPRE(a_, b_, _q) == has_prefix(a_, b_, _q), [FPRE(a_, b_, _q)]))]
ORDER = [('no name is less than itself', forall([a_, b_, _q], Im(FSAME(a_, b_, _q), A(N(FLESS(a_, b_, _q)), N(FLESS(b_, a_, _q)))), [FSAME(a_, b_, _q)])),
         ('names are ordered', forall([a_, b_, _q], O(FLESS(a_, b_, _q), FLESS(b_, a_, _q), FSAME(a_, b_, _q)), [FLESS(a_, b_, _q)])),
         ('the order is asymmetric', forall([a_, b_, _q], N(A(FLESS(a_, b_, _q), FLESS(b_, a_, _q))), [(FLESS(a_, b_, _q), FLESS(b_, a_, _q))])),
         ('the order is transitive', forall([a_, b_, c_, _q], Im(A(FLESS(a_, b_, _q), FLESS(b_, c_, _q)), FLESS(a_, c_, _q)),
                                            [(FLESS(a_, b_, _q), FLESS(b_, c_, _q))])),
         ('equal names are interchangeable', forall([a_, b_, c_, _q], Im(FSAME(a_, b_, _q), A(FLESS(a_, c_, _q) == FLESS(b_, c_, _q),
                                                                                             FLESS(c_, a_, _q) == FLESS(c_, b_, _q))),
                                                    [(FSAME(a_, b_, _q), FLESS(a_, c_, _q)), (FSAME(a_, b_, _q), FLESS(c_, b_, _q))])),
         ('equality of names is symmetric and transitive', forall([a_, b_, c_, _q], Im(A(FSAME(a_, b_, _q), FSAME(c_, b_, _q)), FSAME(a_, c_, _q)),
                                                   [(FSAME(a_, b_, _q), FSAME(c_, b_, _q))])),
         ('equality of names is symmetric', forall([a_, b_, _q], Im(FSAME(a_, b_, _q), FSAME(b_, a_, _q)), [FSAME(a_, b_, _q)]))]
PREFIX = [('a text is not less than its prefixes', forall([a_, b_, _q], Im(FPRE(a_, b_, _q), N(FLESS(a_, b_, _q))), [FPRE(a_, b_, _q)])),
          ('texts between a prefix and a text that has it have it too',
           forall([a_, b_, c_, _q], Im(A(FPRE(c_, b_, _q), N(FLESS(a_, b_, _q)), FLESS(a_, c_, _q)), FPRE(a_, b_, _q)), [(FPRE(c_, b_, _q), FLESS(a_, c_, _q))]))]


def fact_lemma(name, formula, props, extra=()):
    """a fact used by clients, proved from the definitions"""
    @lemma(name, props)
    def _():
        n = formula.num_vars()
        vs = [z3.Const('%s.%d' % (formula.var_name(i), i), formula.var_sort(i)) for i in range(n)]
        body = z3.substitute_vars(formula.body(), *reversed(vs))
        j = z3.Int('j!')
        bytes_ = [forall([j], A(-128 <= at(x, j), at(x, j) <= 127), [at(x, j)]) for x in vs if x.sort() == Str.sort]
        return [f for _, f in FDEFS] + bytes_ + list(extra), body


for _n, _f in ORDER + PREFIX:
    fact_lemma(_n, _f, 'C03 C04 C05')


@contract('argos::are_equal_chars_ci', 'C05')
class _:
    def pure(self, sc):
        return low(sc.arg(0)) == low(sc.arg(1))


@contract('argos::are_equal_ci', 'C05')
class _:
    def pure(self, sc):
        return eq_ci(sc.arg(0), sc.arg(1))


@contract('argos::are_equal', 'C05')
class _:
    def pure(self, sc):
        return FSAME(sc.arg(0), sc.arg(1), sc.arg(2))


@contract('argos::starts_with_ci', 'C05')
class _:
    def pure(self, sc):
        return pre_ci(sc.arg(0), sc.arg(1))


@contract('argos::starts_with', 'C05', nparams=2)
class _:
    def pure(self, sc):
        return pre_cs(sc.arg(0), sc.arg(1))


@contract('argos::starts_with', 'C05', nparams=3)
class _:
    def axioms_at_entry(self, sc):
        return FDEFS

    def pure(self, sc):
        return FPRE(sc.arg(0), sc.arg(1), sc.arg(2))


@contract('argos::is_less_ci', 'C05')
class _:
    def pure(self, sc):
        return less_ci(sc.arg(0), sc.arg(1))


@contract('argos::is_less', 'C05')
class _:
    def pure(self, sc):
        return FLESS(sc.arg(0), sc.arg(1), sc.arg(2))

    def axioms_at_entry(self, sc):
        return FDEFS


@contract('argos::to_lower', 'C05', nparams=1)
class _:
    def match(self, n, pts):
        return type_text(pts[0]) == 'i8'

    def pure(self, sc):
        return low(sc.arg(0))


# LOWER(s): the text in lower case
LOWER = z3.Function('lower', Str.sort, Str.sort)
_lo = LOWER(a_)
add_group(['lower'], [forall([a_], L(_lo) == L(a_), [_lo]),
                      forall([a_, j_], Im(A(0 <= j_, j_ < L(a_)), at(_lo, j_) == low(at(a_, j_))), [at(_lo, j_), (_lo, at(a_, j_))])])


@contract('argos::to_lower', 'C05', nparams=1)
class _:
    loops = (Loop(lambda sc: [('lower case so far', A(L(sc.param(0)) == L(sc.fsc.old(0)), forall([j_], Im(A(0 <= j_, j_ < L(sc.param(0))),
                              at(sc.param(0), j_) == z3.If(j_ < sc.i, low(at(sc.fsc.old(0), j_)), at(sc.fsc.old(0), j_))), [at(sc.param(0), j_)])))]),)

    def match(self, n, pts):
        return type_text(pts[0]) == 'basic_string&'

    def modifies(self, sc):
        return [('loc', sc.args[0])]

    def ensures(self, sc):
        return [('in lower case', Str.eqS(sc.arg(0), LOWER(sc.old(0))))]


@contract('argos::to_lower', 'C05', nparams=1)
class _:
    def match(self, n, pts):
        return type_text(pts[0]) == 'basic_string_view'

    def pure(self, sc):
        return LOWER(sc.arg(0))


@contract('argos::is_lower', 'C05')
class _:
    def ensures(self, sc):
        s = sc.arg(0)
        return [('it says whether it is in lower case', sc.result == Str.eqS(s, LOWER(s)))]


@contract('argos::compare_ci', 'C05')
class _:
    def pure(self, sc):
        return low(sc.arg(0)) - low(sc.arg(1))


def order_lemmas(tag, lt, eqv):
    a, b, c = z3.Consts('a b c', Str.sort)

    @lemma(f'the {tag} order is irreflexive', 'C05 C03 C04')
    def _():
        return [], N(lt(a, a))

    @lemma(f'the {tag} order is transitive', 'C05 C03 C04')
    def _():
        return [lt(a, b), lt(b, c)], lt(a, c)

    @lemma(f'the {tag} order: incomparable iff equal', 'C05 C03 C04')
    def _():
        j = z3.Int('j!')
        bytes_ = [forall([j], A(-128 <= at(x, j), at(x, j) <= 127), [at(x, j)]) for x in (a, b)]
        return bytes_, A(N(lt(a, b)), N(lt(b, a))) == eqv(a, b)


order_lemmas('case-insensitive', less_ci, eq_ci)
order_lemmas('case-sensitive', str_lt, lambda a, b: Str.eqS(a, b))

# ------------------------------------------------------------------ C11: splitting
# off(s, d, k): start of the k-th part
off = z3.Function('part_start', Str.sort, IntS, IntS, IntS)
s_ = z3.Const('s!s', Str.sort)
idx = lib.index_of
add_group([off.name()], [
    forall([s_, c_ := z3.Int('c!')], off(s_, c_, 0) == 0, [off(s_, c_, 0)]),
    forall([s_, c_, k_], Im(k_ >= 0, off(s_, c_, k_ + 1) == idx(s_, c_, off(s_, c_, k_)) + 1),
           [(off(s_, c_, k_), idx(s_, c_, off(s_, c_, k_)))])])


NPARTS = z3.Function('parts', Str.sort, IntS, IntS, IntS)      # how many parts: text, delimiter, most splits
_d, _m, _k = z3.Ints('d! m! k!')
_n = NPARTS(s_, _d, _m)
add_group([NPARTS.name()], [
    forall([s_, _d, _m], Im(_m >= 0, A(_n >= 1, _n <= _m + 1, O(_n == _m + 1, idx(s_, _d, off(s_, _d, _n - 1)) == L(s_)), 0 <= off(s_, _d, _n - 1), off(s_, _d, _n - 1) <= L(s_))), [_n]),
    forall([s_, _d, _m, _k], Im(A(_m >= 0, 0 <= _k, _k < _n - 1), idx(s_, _d, off(s_, _d, _k)) < L(s_)), [(_n, idx(s_, _d, off(s_, _d, _k)))])])


def part(s, d, k):
    return Str.slice(s, off(s, d, k), idx(s, d, off(s, d, k)))


def split_post(r, s, d, m):
    """r is what splitting s at d, at most m times, gives"""
    R = seq_of(Str.sort)
    n = R.len(r)
    last = off(s, d, n - 1)
    k = z3.Int('k!')
    return [
        ('at least one part', n >= 1),
        ('at most max_split + 1 parts', n <= m + 1),
        ('every part but the last ends at the next delimiter',
         forall([k], Im(A(0 <= k, k < n - 1), A(R.at(r, k) == part(s, d, k), 0 <= off(s, d, k), off(s, d, k) <= L(s), idx(s, d, off(s, d, k)) < L(s))), [R.at(r, k)])),
        ('the last part starts after a delimiter', A(0 <= last, last <= L(s))),
        ('fewer parts only when no delimiter is left', Im(n < m + 1, idx(s, d, last) == L(s))),
        ('the last part is the untouched rest', R.at(r, n - 1) == Str.slice(s, last, L(s)))]


def n_parts(r, s, d, m):
    R, p = seq_of(Str.sort), NPARTS(s, d, m)
    return [('the number of parts', Im(mark(L(R.at(r, p - 1))), R.len(r) == p))]


def _split_inv(sc):
    R = seq_of(Str.sort)
    r = var(sc, 'result', 'vector<sv>', 0)
    pos = var(sc, 'pos', 'u64', 0)
    s, d, m = sc.param(0), sc.param(1), sc.param(2)
    k = z3.Int('k!')
    n = R.len(r)
    return [('position is the start of the next part', A(pos == off(s, d, n), pos >= 0, pos <= L(s))),
            ('parts so far', forall([k], Im(A(0 <= k, k < n), A(R.at(r, k) == part(s, d, k), off(s, d, k) <= L(s), off(s, d, k) >= 0, idx(s, d, off(s, d, k)) < L(s))),
                                    [R.at(r, k)])),
            ('not yet at the limit', A(n < m, 0 <= n, n <= pos))]


@contract('argos::split_string', 'C11')
class _:
    loops = (Loop(_split_inv, lambda sc: L(sc.param(0)) - var(sc, 'pos', 'u64', 0)),)

    def ensures(self, sc):
        a = sc.result, sc.arg(0), sc.arg(1), sc.arg(2)
        return split_post(*a) + n_parts(*a)


@lemma('joining the parts gives back the text: parts and delimiters tile it', 'C11')
def _():
    s = z3.Const('s', Str.sort)
    d, m, k = z3.Ints('d m k')
    R = seq_of(Str.sort)
    r = z3.Const('r', R.sort)
    n = R.len(r)
    o = off(s, d, k)
    return ([f for _, f in split_post(r, s, d, m)] + [0 <= k, k < n - 1, m >= 0, touch(R.at(r, k))],
            A(R.at(r, k) == Str.slice(s, o, off(s, d, k + 1) - 1), off(s, d, k + 1) - 1 == idx(s, d, o), at(s, idx(s, d, o)) == d))


# ------------------------------------------------------------------ C16: UTF-8
def cplen(c):
    """length announced by a lead byte, 0 for none"""
    u = z3.If(c < 0, c + 256, c)
    return z3.If(u < 0x80, z3.IntVal(1), z3.If(u < 0xC0, z3.IntVal(0), z3.If(u < 0xE0, z3.IntVal(2),
           z3.If(u < 0xF0, z3.IntVal(3), z3.If(u <= 0xF7, z3.IntVal(4), z3.IntVal(0))))))


def iscont(c):
    return A(-128 <= c, c < -64)


# ust(s, i): continuation bytes missing after i bytes, -1 if malformed; ucnt(s, i): code points begun in i bytes
ust = z3.Function('utf8_state', Str.sort, IntS, IntS)
ucnt = z3.Function('utf8_count', Str.sort, IntS, IntS)
_u = ust(s_, k_ - 1)
_ch = at(s_, k_ - 1)
_nx = lambda u, ch: z3.If(u < 0, z3.IntVal(-1), z3.If(u == 0, cplen(ch) - 1, z3.If(iscont(ch), u - 1, z3.IntVal(-1))))
add_group([ust.name()], [
    forall([s_], ust(s_, 0) == 0, [L(s_)]),
    forall([s_, k_], Im(k_ >= 0, ust(s_, k_ + 1) == _nx(ust(s_, k_), at(s_, k_))), [(ust(s_, k_), at(s_, k_))])])
add_group([ucnt.name()], [
    forall([s_], ucnt(s_, 0) == 0, [L(s_)]),
    forall([s_, k_], Im(k_ >= 0, ucnt(s_, k_ + 1) == ucnt(s_, k_) + z3.If(ust(s_, k_) == 0, 1, 0)),
           [(ucnt(s_, k_), ust(s_, k_))]),
    forall([s_, k_], Im(k_ >= 0, ucnt(s_, k_) <= k_), [ucnt(s_, k_)])])     # lemma by induction below


# malformed stays malformed (proved as lemma by induction, used as fact)
bad_stays = forall([s_, k_, j_], Im(A(0 <= k_, k_ <= j_, ust(s_, k_) < 0), ust(s_, j_) < 0), [(ust(s_, k_), ust(s_, j_))])


@lemma('a malformed text stays malformed (induction step)', 'C16')
def _():
    s = z3.Const('s', Str.sort)
    k, j = z3.Ints('k j')
    return [0 <= k, k <= j, ust(s, k) < 0, ust(s, j) < 0, at(s, j) >= -128], ust(s, j + 1) < 0


@lemma('the number of code points never decreases (induction step)', 'C16')
def _():
    s = z3.Const('s', Str.sort)
    j = z3.Int('j')
    return [0 <= j, at(s, j) >= -128, touch(ust(s, j))], A(ucnt(s, j) <= ucnt(s, j + 1), ucnt(s, j + 1) <= ucnt(s, j) + 1)


@lemma('no more code points than bytes (induction step)', 'C16')
def _():
    s = z3.Const('s', Str.sort)
    j = z3.Int('j')
    return [0 <= j, at(s, j) >= -128, ucnt(s, j) <= j, touch(ucnt(s, j)), touch(ust(s, j))], ucnt(s, j + 1) <= j + 1


def wf8(s):
    return ust(s, L(s)) == 0


def width(s):
    return z3.If(wf8(s), ucnt(s, L(s)), L(s))


@contract('argos::get_code_point_length', 'C16')
class _:
    def pure(self, sc):
        return cplen(sc.arg(0))


def _ccp_inv(sc):
    s = sc.param(0)
    n, cl, i = var(sc, 'count', 'u64', 0), var(sc, 'char_len', 'u64', 1), sc.i
    return [('state', A(cl == ust(s, i), cl >= 0)), ('count', A(n == ucnt(s, i), 0 <= n, n <= i))]


@contract('argos::count_code_points', 'C16 C14')
class _:
    loops = (Loop(_ccp_inv),)

    def axioms_at_entry(self, sc):
        return [('malformed stays malformed', bad_stays)]

    def pure(self, sc):
        return width(sc.arg(0))


mono = forall([s_, k_, j_], Im(A(0 <= k_, k_ <= j_), ucnt(s_, k_) <= ucnt(s_, j_)), [(ucnt(s_, k_), ucnt(s_, j_))])


@contract('argos::find_nth_code_point', 'C16')
class _:
    loops = (Loop(lambda sc: [
        ('state', A(var(sc, 'char_len', 'u64', 1) == ust(sc.param(0), sc.i), var(sc, 'char_len', 'u64', 1) >= 0)),
        ('count', A(var(sc, 'count', 'u64', 0) == ucnt(sc.param(0), sc.i), 0 <= var(sc, 'count', 'u64', 0),
                    var(sc, 'count', 'u64', 0) <= sc.i, sc.i <= L(sc.param(0)))),
        ('not yet passed', var(sc, 'count', 'u64', 0) <= sc.param(1))]),)

    def axioms_at_entry(self, sc):
        return [('malformed stays malformed', bad_stays), ('count is monotonic', mono)]

    def ensures(self, sc):
        s, n, r = sc.arg(0), sc.arg(1), sc.result
        return [('no position iff there are not that many code points', Im(wf8(s), (r == NPOS) == (ucnt(s, L(s)) <= n))),
                ('the position starts code point n', Im(A(wf8(s), r != NPOS), A(0 <= r, r < L(s), ust(s, r) == 0, ucnt(s, r) == n))),
                ('of a malformed text: byte n, or the start of code point n', Im(r != NPOS, A(0 <= r, r < L(s), n < L(s), O(r == n, A(ust(s, r) == 0, ucnt(s, r) == n))))),
                ('no position in a malformed text', Im(r == NPOS, O(L(s) <= n, wf8(s))))]


@contract('argos::get_base_name', 'C12')
class _:
    def ensures(self, sc):
        s, r = sc.arg(0), sc.result
        j = z3.Int('j!')
        sep = lambda c: O(c == 47, c == 92)
        k = L(s) - L(r)
        return [('a suffix', A(k >= 0, r == Str.slice(s, k, L(s)))),
                ('without separators', forall([j], Im(A(k <= j, j < L(s)), N(sep(at(s, j)))), [at(s, j)])),
                ('after the last separator', O(k == 0, sep(at(s, k - 1))))]
