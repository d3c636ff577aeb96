"""C14, C15: TextWriter.cpp, TextFormatter.cpp, WordSplitter.cpp"""
from .core import *
from .strings import LOWER, off, idx, A, O, N, Im, Str, L, at, width, wf8, ust, ucnt, bad_stays, mono, cplen, iscont, low, a_, b_, c_, j_, k_, n_, s_
import lib

SEL = z3.Select
RS = seq_of(Str.sort)
TW, TF, WS = 'argos::TextWriter::', 'argos::TextFormatter::', 'argos::WordSplitter::'
rep = lib.repeat
SP, NL, HYPH = z3.IntVal(32), z3.IntVal(10), z3.IntVal(45)
TEXT = 'a text, its indentation and its blanks take less than 2^32 columns'


positive = forall([s_, k_], Im(k_ >= 0, ucnt(s_, k_) >= 0), [ucnt(s_, k_)])       # lemma by induction: strings.py


def mx(a, b):
    return z3.If(a < b, b, a)


class W:
    """The state of a writer. f gives a member, H the text of the streams."""

    def __init__(self, f, H):
        self.stream, self.line, self.lw, self.cw, self.tabs, self.indent, self.spaces = (
            f(x) for x in ('m_stream', 'm_line', 'm_line_width', 'm_current_line_width', 'm_tab_size', 'm_indent', 'm_spaces'))
        self.given = SEL(H('Ghost', 'text'), self.stream)
        self.total = Str.cat(self.given, self.line)       # what was written so far
        self.at = mx(self.cw, self.indent) + self.spaces  # where the next word goes
        self.left = z3.If(self.at < self.lw, self.lw - self.at, 0)

    def same(self, w, *but):
        return A(*[getattr(self, n) == getattr(w, n) for n in ('stream', 'line', 'lw', 'cw', 'tabs', 'indent', 'spaces', 'given') if n not in but])

    def ok(self):
        return A(self.stream != null, self.tabs == 4, L(self.line) < 1 << 62, *[A(0 <= x, x < 1 << 32) for x in (self.lw, self.cw, self.indent, self.spaces)])


def writer(sc, old=False):
    return W(sc.om if old else sc.m, sc.OH if old else sc.H)


class Writer:
    """a member function of TextWriter"""
    mods = ()
    gives = False

    def requires(self, sc):
        return [('a writer with a stream', writer(sc).ok())]

    def modifies(self, sc):
        return [('loc', sc.mloc(m)) for m in self.mods] + ([('heapfield', 'Ghost', 'text')] if self.gives else [])

    def frame_text(self, sc):
        """no other stream is given anything"""
        x = z3.Const('x!', Addr)
        t, t0 = sc.H('Ghost', 'text'), sc.OH('Ghost', 'text')
        return forall([x], Im(x != writer(sc, True).stream, SEL(t, x) == SEL(t0, x)), [SEL(t, x)])


class Getter(Writer):
    def pure(self, sc):
        return self.value(writer(sc))


for n, f in (('indentation', lambda w: w.indent), ('spaces', lambda w: w.spaces), ('current_width', lambda w: w.at), ('remaining_width', lambda w: w.left),
             ('is_current_line_empty', lambda w: L(w.line) == 0), ('line_width', lambda w: w.lw), ('stream', lambda w: w.stream), ('currentLine', lambda w: w.line)):
    @contract(TW + n, 'C14')
    class _(Getter):
        value = staticmethod(f)

        def assumes(self, sc):
            return [(TEXT, writer(sc).at < 1 << 32)]


@contract(TW + 'set_spaces', 'C14')
class _(Writer):
    mods = ('m_spaces',)

    def ensures(self, sc):
        w, w0 = writer(sc), writer(sc, True)
        return [('the number of blanks', w.spaces == sc.old(0)), ('nothing else', w.same(w0, 'spaces'))]


@contract(TW + 'set_stream', 'C14')
class _(Writer):
    mods = ('m_stream',)

    def requires(self, sc):
        return []

    def ensures(self, sc):
        w, w0 = writer(sc), writer(sc, True)
        return [('the stream', w.stream == sc.old(0)), ('nothing else', w.same(w0, 'stream', 'given'))]


@contract(TW + 'set_line_width', 'C14')
class _(Writer):
    mods = ('m_line_width',)

    def ensures(self, sc):
        w, w0 = writer(sc), writer(sc, True)
        return [('the line width', w.lw == sc.old(0)), ('nothing else', w.same(w0, 'lw'))]


@contract(TW + 'set_indentation', 'C14')
class _(Writer):
    mods = ('m_indent',)

    def ensures(self, sc):
        w, w0 = writer(sc), writer(sc, True)
        fits = sc.old(0) < w0.lw
        return [('an indentation is accepted iff it leaves a column', sc.result == fits), ('the indentation', w.indent == z3.If(fits, sc.old(0), w0.indent)),
                ('nothing else', w.same(w0, 'indent'))]


@contract(TW + 'tab', 'C14')
class _(Writer):
    mods = ('m_spaces',)

    def assumes(self, sc):
        return [(TEXT, writer(sc, True).at + 4 < 1 << 32)]

    def ensures(self, sc):
        w, w0 = writer(sc), writer(sc, True)
        return [('the next tab stop', A(w.at % 4 == 0, w0.at < w.at, w.at <= w0.at + 4)), ('nothing else', w.same(w0, 'spaces'))]


@contract(TW + 'write', 'C14 C15')
class _(Writer):
    mods = ('m_line', 'm_current_line_width', 'm_spaces')

    def axioms_at_entry(self, sc):
        s = sc.old(0)
        return [('the number of code points is not negative', positive)]

    def assumes(self, sc):
        w0 = writer(sc, True)
        return [(TEXT, w0.at + L(sc.old(0)) < 1 << 32), (TEXT, L(w0.line) + w0.at + L(sc.old(0)) < 1 << 62)]

    def ensures(self, sc):
        w, w0, s, r = writer(sc), writer(sc, True), sc.old(0), sc.result
        return [('a text that fits is written, one that does not only when forced', r == O(sc.old(1), width(s) <= mx(w0.at, w0.lw) - w0.at)),
                ('a text that is not written changes nothing', Im(N(r), w.same(w0))),
                ('blanks and the text are added to what was written', Im(r, Str.eqS(w.total, Str.cat(Str.cat(w0.total, rep(w0.at - w0.cw, SP)), s)))),
                ('the line is not empty afterwards', Im(A(r, L(s) > 0), L(w.line) > 0)),
                ('the columns of the line', Im(r, w.cw == w0.at + width(s))), ('the blanks are used', Im(r, w.spaces == 0)),
                ('nothing else', w.same(w0, 'line', 'cw', 'spaces'))]


@contract(TW + 'newline', 'C14 C15')
class _(Writer):
    mods = ('m_line', 'm_current_line_width')
    gives = True

    def assumes(self, sc):
        return [(TEXT, L(writer(sc, True).line) + 1 < 1 << 62)]

    def ensures(self, sc):
        w, w0 = writer(sc), writer(sc, True)
        return [('a line break is added to what was written', Str.eqS(w.total, Str.push(w0.total, NL))), ('everything is given to the stream', w.line == Str.emp),
                ('a new line has no columns', w.cw == 0), ('other streams', self.frame_text(sc)), ('nothing else', w.same(w0, 'line', 'cw', 'given'))]


@contract(TW + 'flush', 'C15')
class _(Writer):
    mods = ('m_line',)
    gives = True

    def ensures(self, sc):
        w, w0 = writer(sc), writer(sc, True)
        return [('nothing is added to what was written', Str.eqS(w.total, w0.total)), ('everything is given to the stream', w.line == Str.emp),
                ('other streams', self.frame_text(sc)), ('nothing else', w.same(w0, 'line', 'given'))]


# ------------------------------------------------------------------ WordSplitter
# prefixes and parts of a text, each by induction from the step lemmas below
n1, n2 = z3.Ints('n1! n2!')
_pre = Str.slice(s_, 0, n1)
prefix8 = forall([s_, n1, k_], Im(A(0 <= k_, k_ <= n1, n1 <= L(s_)), A(ust(_pre, k_) == ust(s_, k_), ucnt(_pre, k_) == ucnt(s_, k_))), [ust(_pre, k_), ucnt(_pre, k_)])
slow = forall([s_, k_, j_], Im(A(0 <= k_, k_ <= j_), ucnt(s_, j_) <= ucnt(s_, k_) + (j_ - k_)), [(ucnt(s_, k_), ucnt(s_, j_))])
single = forall([s_, k_, j_], Im(A(0 <= j_, j_ < k_, ucnt(s_, k_) == k_), ust(s_, j_) == 0), [(ucnt(s_, k_), ust(s_, j_))])


visible = forall([s_], Im(L(s_) > 0, width(s_) > 0), [ust(s_, L(s_))])


@lemma('a text that is not empty has columns', 'C14 C15')
def _():
    s = z3.Const('s', Str.sort)
    return [mono, bad_stays, L(s) > 0, touch(at(s, 0)), at(s, 0) >= -128, touch(ucnt(s, 1)), touch(ust(s, 1)), touch(ust(s, 0)), touch(ucnt(s, 0)), touch(ucnt(s, L(s)))], width(s) > 0


@lemma('a prefix has the code points of the text (induction step)', 'C14 C15 C16')
def _():
    s = z3.Const('s', Str.sort)
    n, k = z3.Ints('n k')
    p = Str.slice(s, 0, n)
    return ([0 <= k, k < n, n <= L(s), ust(p, k) == ust(s, k), ucnt(p, k) == ucnt(s, k), at(p, k) == at(s, k), touch(at(s, k))],
            A(ust(p, k + 1) == ust(s, k + 1), ucnt(p, k + 1) == ucnt(s, k + 1)))


@lemma('n bytes begin at most n code points (induction step)', 'C14 C15 C16')
def _():
    s = z3.Const('s', Str.sort)
    k, j = z3.Ints('k j')
    return [0 <= k, k <= j, ucnt(s, j) <= ucnt(s, k) + (j - k), touch(ust(s, j)), at(s, j) >= -128], ucnt(s, j + 1) <= ucnt(s, k) + (j + 1 - k)


@lemma('n code points in n bytes are n characters of one byte', 'C14 C15 C16')
def _():
    s = z3.Const('s', Str.sort)
    k, j = z3.Ints('k j')
    return [slow, positive, 0 <= j, j < k, ucnt(s, k) == k, touch(ust(s, j)), touch(ucnt(s, j)), touch(ucnt(s, j + 1)), at(s, j) >= -128], ust(s, j) == 0


def isblank_free(s, j):
    return A(at(s, j) != 32, at(s, j) != 9, at(s, j) != 10, at(s, j) != 13)


def piece(s, start, r):
    """(w, s, r): a piece of s from start on, what is put at its end, the rest of s"""
    w, c, rest = (r.f[k] for k in '012')
    n = L(w)
    return w, c, rest, [('a piece and the rest are the text', Im(n > 0, A(start + n <= L(s), Str.eqS(w, Str.slice(s, start, start + n)), Str.eqS(rest, Str.slice(s, start + n, L(s)))))),
                        ('only a hyphen is added', O(c == 0, A(c == HYPH, n > 0)))]


@contract(WS + 'default_rule', 'C14 C15')
class _:
    def requires(self, sc):
        return [('a text', A(L(sc.arg(0)) > 0, 0 <= sc.arg(1), sc.arg(1) < 1 << 62))]

    def axioms_at_entry(self, sc):
        return [('malformed stays malformed', bad_stays), ('count is monotonic', mono), ('code points of a prefix', prefix8), ('code points and bytes', slow),
                ('characters of one byte', single)]

    def ensures(self, sc):
        s, m = sc.old(0), sc.old(1)
        w, c, rest, p = piece(s, z3.IntVal(0), sc.result)
        return p + [('the piece fits', Im(L(w) > 0, width(w) + z3.If(c != 0, 1, 0) <= m)), ('a piece if at least three columns are left', O(L(w) > 0, m <= 2)),
                    ('no character is divided', Im(A(wf8(s), L(w) > 0), ust(s, L(w)) == 0))]

    loops = (Loop(lambda sc: [('inside the last character', A(0 <= PP(sc), PP(sc) < L(sc.param(0)), ucnt(sc.param(0), PP(sc) + 1) == sc.param(1), ust(sc.param(0), PP(sc) + 1) >= 0))],
                  lambda sc: PP(sc)),
             Loop(lambda sc: [('at the start of a character', z3.If(IGN(sc), IX(sc) == CNT(sc), A(ust(sc.param(0), IX(sc)) == 0, ucnt(sc.param(0), IX(sc)) == CNT(sc)))),
                              ('inside the text', A(0 <= IX(sc), IX(sc) <= PP(sc), CNT(sc) < sc.param(1), MIN(sc) <= CNT(sc)))], lambda sc: CNT(sc)),
             Loop(lambda sc: [('inside a character', A(0 <= IX(sc), IX(sc) < PP(sc), ucnt(sc.param(0), IX(sc) + 1) == CNT(sc) + 1, ust(sc.param(0), IX(sc) + 1) >= 0))],
                  lambda sc: IX(sc)))


def PP(sc):
    return var(sc, 'max_pos', 'u64', 0)


def MIN(sc):
    return var(sc, 'min_pos', 'u64', 1)


def IX(sc):
    return var(sc, 'index', 'u64', 2)


def CNT(sc):
    return var(sc, 'count', 'u64', 3)


def IGN(sc):
    return var(sc, 'ignore_utf8', 'bool', 0)


@contract('argos::is_utf8_continuation', 'C15')
class _:
    def pure(self, sc):
        return iscont(sc.arg(0))


# the length of a text without the punctuation at its end
PUNCT = z3.Function('length_without_punctuation', Str.sort, IntS)
_pl = PUNCT(s_)


def ispunct(c):
    return O(*[c == ord(x) for x in ".,;:!?()[]{}<>\"'`"])


add_group([PUNCT.name()], [forall([s_], A(0 <= _pl, _pl <= L(s_), O(_pl == 0, N(ispunct(at(s_, _pl - 1))))), [_pl]),
                           forall([s_, j_], Im(A(_pl <= j_, j_ < L(s_)), ispunct(at(s_, j_))), [(_pl, at(s_, j_))])])


@contract('argos::remove_punctuation', 'C14 C15')
class _:
    def ensures(self, sc):
        s, r = sc.old(0), sc.result
        return [('the length', Im(A(mark(PUNCT(s)), touch(at(s, PUNCT(s) - 1)), touch(at(s, L(r)))), L(r) == PUNCT(s))), ('a prefix', Str.eqS(r, Str.slice(s, 0, PUNCT(s))))]


class Rules:
    """the splitting rules: lower-case words, and where they may be broken"""

    def __init__(self, sc, m, T_):
        self.m, self.T = m, T_

    @classmethod
    def of(cls, sc, old=False):
        return cls(sc, (sc.om if old else sc.m)('m_splits'), sc.I.loc_type(sc.mloc('m_splits')))

    def has(self, k):
        return self.T.opt.dt.is_(1, SEL(self.m, k))

    def get(self, k):
        return self.T.opt.dt.acc(1, 0, SEL(self.m, k))

    def at(self, k, i):
        """(position, separator) of place i"""
        th = self.T.V.th
        x = self.T.V.elem.unpack(th.at(self.get(k), i))
        return x.f['index'], x.f['separator'], th.at(self.get(k), i)

    def n(self, k):
        return self.T.V.th.len(self.get(k))

    def ok(self):
        k, i = z3.Const('k!r', Str.sort), z3.Int('i!r')
        ix, c, t = self.at(k, i)
        return [('the places of the rules are inside the words',
                 forall([k, i], Im(A(self.has(k), 0 <= i, i < self.n(k)), A(0 <= ix, ix <= L(k), O(c == 0, c == HYPH))), [t]))]

    def utf8(self):
        """the rules break words between characters"""
        return rule_preds(self.T)[0](self.m)

    def allow(self, word, place, c):
        """a rule breaks the word there"""
        return rule_preds(self.T)[1](self.m, word, place, c)


def rule_preds(T_, memo={}):
    if T_.name not in memo:
        m, k, i, s, p, c = z3.Const('m!r', T_.sort), z3.Const('k!r', Str.sort), z3.Int('i!r'), z3.Const('s!r', Str.sort), z3.Int('p!r'), z3.Int('c!r')
        u = z3.Function('rules_utf8', T_.sort, BoolS)
        r = z3.Function('rule_allows', T_.sort, Str.sort, IntS, IntS, BoolS)
        uk, ui = z3.Function('rules_utf8_word', T_.sort, Str.sort), z3.Function('rules_utf8_place', T_.sort, IntS)
        ri = z3.Function('rule_index', T_.sort, Str.sort, IntS, IntS, IntS)
        R = Rules(None, m, T_)
        good = lambda k, i: Im(A(R.has(k), 0 <= i, i < R.n(k), wf8(k)), ust(k, R.at(k, i)[0]) == 0)
        hit = lambda i: A(R.has(k_), 0 <= i, i < R.n(k_), R.at(k_, i)[0] == p, R.at(k_, i)[1] == c)
        k_ = LOWER(Str.slice(s, 0, PUNCT(s)))
        add_group(['rules_utf8'], [forall([m, k, i], Im(u(m), good(k, i)), [(u(m), R.at(k, i)[2])]), forall([m], O(u(m), N(good(uk(m), ui(m)))), [u(m)])])
        add_group(['rule_allows'], [forall([m, s, i, p, c], Im(hit(i), r(m, s, p, c)), [(r(m, s, p, c), R.at(k_, i)[2])]),
                                    forall([m, s, p, c], Im(r(m, s, p, c), hit(ri(m, s, p, c))), [r(m, s, p, c)])])
        memo[T_.name] = u, r
    return memo[T_.name]


lower8 = forall([s_, k_], Im(A(0 <= k_, k_ <= L(s_)), ust(LOWER(s_), k_) == ust(s_, k_)), [ust(LOWER(s_), k_)])


_suf = Str.slice(s_, n1, L(s_))
suffix8 = forall([s_, n1, k_], Im(A(0 <= n1, n1 <= L(s_), ust(s_, n1) == 0, 0 <= k_, k_ <= L(s_) - n1), ust(_suf, k_) == ust(s_, n1 + k_)), [ust(_suf, k_)])


@lemma('the characters of the rest of a text (induction step)', 'C15')
def _():
    s = z3.Const('s', Str.sort)
    n, k = z3.Ints('n k')
    x = Str.slice(s, n, L(s))
    return [0 <= n, n <= L(s), 0 <= k, k < L(s) - n, ust(x, k) == ust(s, n + k), at(x, k) == at(s, n + k)], ust(x, k + 1) == ust(s, n + k + 1)


@lemma('lower case has the characters of the text (induction step)', 'C15')
def _():
    s = z3.Const('s', Str.sort)
    k = z3.Int('k')
    return [0 <= k, k < L(s), ust(LOWER(s), k) == ust(s, k), touch(at(s, k)), -128 <= at(s, k), at(s, k) <= 127, touch(at(LOWER(s), k))], ust(LOWER(s), k + 1) == ust(s, k + 1)


@contract(WS + 'split', 'C14 C15')
class _:
    def requires(self, sc):
        return [('a place in the text', A(0 <= sc.arg(1), sc.arg(1) < L(sc.arg(0)), L(sc.arg(0)) < 1 << 32, 0 <= sc.arg(2), sc.arg(2) < 1 << 32))] + Rules.of(sc).ok()

    def axioms_at_entry(self, sc):
        return [('code points of a prefix', prefix8), ('lower case and characters', lower8), ('code points of the rest', suffix8), ('malformed stays malformed', bad_stays)]

    def ensures(self, sc):
        s, start, m, must = (sc.old(i) for i in range(4))
        w, c, rest, p = piece(s, start, sc.result)
        return p + [('the piece fits', Im(L(w) > 0, width(w) + z3.If(c != 0, 1, 0) <= m)),
                    ('a piece if there has to be one and at least three columns are left', O(L(w) > 0, N(must), m <= 2)),
                    ('a rule allows it, or there has to be a piece', O(L(w) == 0, must, Rules.of(sc).allow(s, start + L(w), c))),
                    ('no character is divided', Im(A(Rules.of(sc).utf8(), wf8(s), ust(s, start) == 0, L(w) > 0), ust(s, start + L(w)) == 0))]

    loops = (Loop(lambda sc: split_inv(sc)),)


def split_inv(sc):
    prev = var(sc, 'prev', 'Split', 0)
    s, start, m = (sc.fsc.old(i) for i in range(3))
    ix, c = prev.f['index'], prev.f['separator']
    key = var(sc, 'key', 'sv', 0)
    rules = Rules.of(sc.fsc)
    return [('the last place is of the rule', O(A(ix == start, c == 0), rules.allow(s, ix, c))),
            ('characters', Im(A(rules.utf8(), wf8(s), ust(s, start) == 0), ust(s, ix) == 0)),
            ('the last place that fits', O(A(ix == start, c == 0),
                                           A(start < ix, ix <= L(key), O(c == 0, c == HYPH), width(Str.slice(s, start, ix)) + z3.If(c != 0, 1, 0) <= m)))]





# adding a rule
cnt, wout = lib.count_of, lib.without
_wo = wout(s_, SP)
blanks_up = forall([s_, k_, j_], Im(A(0 <= k_, k_ <= j_, j_ <= L(s_)), A(cnt(s_, SP, k_) <= cnt(s_, SP, j_), cnt(s_, SP, j_) - cnt(s_, SP, k_) <= j_ - k_)),
                   [(cnt(s_, SP, k_), cnt(s_, SP, j_))])
without8 = forall([s_, k_], Im(A(wf8(s_), 0 <= k_, k_ <= L(s_)), ust(_wo, k_ - cnt(s_, SP, k_)) == ust(s_, k_)), [(_wo, cnt(s_, SP, k_))])
no_blank = forall([s_, k_, j_], Im(A(0 <= k_, k_ <= j_, j_ <= L(s_), j_ <= idx(s_, SP, k_)), cnt(s_, SP, j_) == cnt(s_, SP, k_)), [(cnt(s_, SP, k_), cnt(s_, SP, j_), idx(s_, SP, k_))])


@lemma('the number of blanks grows with the text (induction step)', 'C14 C15')
def _():
    s = z3.Const('s', Str.sort)
    k, j = z3.Ints('k j')
    f = lambda j: A(cnt(s, SP, k) <= cnt(s, SP, j), cnt(s, SP, j) - cnt(s, SP, k) <= j - k)
    return [0 <= k, k <= j, j < L(s), f(j), touch(at(s, j))], f(j + 1)


@lemma('where there is no blank none is counted (induction step)', 'C14 C15')
def _():
    s = z3.Const('s', Str.sort)
    k, j = z3.Ints('k j')
    return [0 <= k, k <= j, j < L(s), j + 1 <= idx(s, SP, k), cnt(s, SP, j) == cnt(s, SP, k), touch(at(s, j))], cnt(s, SP, j + 1) == cnt(s, SP, k)


@lemma('taking blanks out of a text keeps its characters (induction step)', 'C15')
def _():
    s = z3.Const('s', Str.sort)
    k = z3.Int('k')
    w, c = wout(s, SP), cnt(s, SP, k)
    return [bad_stays, wf8(s), 0 <= k, k < L(s), ust(w, k - c) == ust(s, k), touch(at(s, k)), touch(ust(s, k + 1)), at(s, k) >= -128, touch(at(w, k - c)),
            0 <= k - c], ust(w, k + 1 - cnt(s, SP, k + 1)) == ust(s, k + 1)


def place(s, k):
    """position of the k-th blank"""
    return idx(s, SP, off(s, SP, k))


def places_ok(T_, v, s, n):
    """the first n places of the rule s"""
    x = T_.elem.unpack(T_.th.at(v, n1))
    b = place(s, n1)
    return forall([n1], Im(A(0 <= n1, n1 < n), A(0 < b, b < L(s), at(s, b) == SP, cnt(s, SP, b) == n1, x.f['index'] == b - n1,
                                                x.f['separator'] == z3.If(at(s, b - 1) == HYPH, z3.IntVal(0), HYPH))), [T_.th.at(v, n1)])


@contract(WS + 'add_word', 'C14 C15')
class _:
    def axioms_at_entry(self, sc):
        return [('blanks', blanks_up), ('characters without blanks', without8), ('no blanks between', no_blank), ('lower case and characters', lower8), ('malformed stays malformed', bad_stays),
                ('the number of blanks at the end', touch(cnt(sc.old(0), SP, L(sc.old(0)))))]

    def requires(self, sc):
        return [('a short rule', L(sc.arg(0)) < 1 << 32)] + Rules.of(sc).ok()

    def modifies(self, sc):
        return [('loc', sc.mloc('m_splits')), ('loc', sc.mloc('m_strings'))]

    def throws(self, sc):
        return BADRULE(sc.old(0))

    def ensures(self, sc):
        s, R, R0 = sc.old(0), Rules.of(sc), Rules.of(sc, True)
        k, w = LOWER(wout(s, SP)), z3.Const('w!', Str.sort)
        V = R.T.V
        n = R.n(k)
        return [('the word has places', R.has(k)), ('other words keep theirs', forall([w], Im(O(w != k, R0.has(w)), SEL(R.m, w) == SEL(R0.m, w)), [SEL(R.m, w)])),
                ('a place for every blank and one for the end', Im(N(R0.has(k)), n == cnt(s, SP, L(s)) + 1)),
                ('the places of the blanks', Im(N(R0.has(k)), places_ok(V, R.get(k), s, n - 1))),
                ('the place of the end', Im(N(R0.has(k)), A(R.at(k, n - 1)[0] == L(k), R.at(k, n - 1)[1] == 0))),
                ('the rules still break words between characters', Im(A(wf8(s), R0.utf8()), R.utf8()))] + R.ok()

    loops = (Loop(lambda sc: add_inv(sc), lambda sc: z3.If(var(sc, 'pos', 'u64', 1) == lib.NPOS, z3.IntVal(0), L(sc.fsc.old(0)) + 1 - var(sc, 'pos', 'u64', 1))),)


def add_inv(sc):
    s = sc.fsc.old(0)
    v, o, p = var(sc, 'splits', 'vector<Split>', 0), var(sc, 'offset', 'u64', 0), var(sc, 'pos', 'u64', 1)
    V = Rules.of(sc.fsc).T.V
    n = V.th.len(v)
    q = off(s, SP, n)
    b = idx(s, SP, q)
    return [('the number of blanks', Im(mark(cnt(s, SP, place(s, n - 1))), A(o == n, n >= 0, n <= q, q <= L(s), cnt(s, SP, q) == n))), ('the next blank', p == z3.If(b < L(s), b, lib.NPOS)),
            ('the places so far', places_ok(V, v, s, n)),
            ('no blank at the start or after a blank', forall([j_], Im(A(0 <= j_, j_ < q, at(s, j_) == SP), A(j_ > 0, at(s, j_ - 1) != SP)), [at(s, j_)]))]


BADRULE = z3.Function('misplaced_blank', Str.sort, BoolS)
_bj = z3.Function('misplaced_at', Str.sort, IntS)
_mis = lambda s, j: A(0 <= j, j < L(s), at(s, j) == SP, O(j == 0, at(s, j - 1) == SP))
add_group(['misplaced_blank'], [forall([s_, j_], Im(_mis(s_, j_), BADRULE(s_)), [(BADRULE(s_), at(s_, j_))]), forall([s_], Im(BADRULE(s_), _mis(s_, _bj(s_))), [BADRULE(s_)])])


@contract(WS + 'add_words', 'C14 C15')
class _:
    def assumes(self, sc):
        v = sc.old(0)
        return [('rules have less than 2^32 bytes', forall([n1], Im(A(0 <= n1, n1 < RS.len(v)), L(RS.at(v, n1)) < 1 << 32), [RS.at(v, n1)]))]

    def requires(self, sc):
        return Rules.of(sc).ok()

    def modifies(self, sc):
        return [('loc', sc.mloc('m_splits')), ('loc', sc.mloc('m_strings'))]

    def throws(self, sc):
        v = sc.old(0)
        return z3.Exists([n1], A(0 <= n1, n1 < RS.len(v), BADRULE(RS.at(v, n1))))

    def ensures(self, sc):
        v = sc.old(0)
        return Rules.of(sc).ok() + [('the rules still break words between characters',
                                     Im(A(Rules.of(sc, True).utf8(), forall([n1], Im(A(0 <= n1, n1 < RS.len(v)), wf8(RS.at(v, n1))), [RS.at(v, n1)])), Rules.of(sc).utf8()))]

    def loop(sc):
        v, v0 = sc.range, sc.fsc.old(0)
        R, R0 = Rules.of(sc.fsc), Rules.of(sc.fsc, True)
        return [('the rules to come', A(RS.len(v) == RS.len(v0), forall([n1], Im(A(sc.i <= n1, n1 < RS.len(v)), RS.at(v, n1) == RS.at(v0, n1)), [RS.at(v, n1)]))),
                ('the rules so far are good', forall([n1], Im(A(0 <= n1, n1 < sc.i), N(BADRULE(RS.at(v0, n1)))), [RS.at(v0, n1)])),
                ('words are broken between characters',
                 Im(A(R0.utf8(), forall([n1], Im(A(0 <= n1, n1 < sc.i), wf8(RS.at(v0, n1))), [RS.at(v0, n1)])), R.utf8()))] + R.ok()

    loops = (Loop(loop),)


# ------------------------------------------------------------------ what a formatter writes
# LAY(lw, b, p, c, e): b is a correct layout of p in lines of at most lw columns; its last line has c columns, and no words if e.
# PART(lw, R, b, p, c, e, word, k): the same for p and the first k bytes of a word that is being written.
# Both are the least relations with these rules (R: the splitting rules):
LAY = z3.Function('layout', IntS, Str.sort, Str.sort, IntS, BoolS, BoolS)


def part_rel(T_, memo={}):
    if T_.name in memo:
        return memo[T_.name]
    PART = z3.Function('partial_layout', IntS, T_.sort, Str.sort, Str.sort, IntS, BoolS, Str.sort, IntS, BoolS)
    lw, c, k, n, k2, sep, c2 = z3.Ints('lw!l c!l k!l n!l k2!l sep!l c2!l')
    R = z3.Const('R!l', T_.sort)
    b, p, x, y, z, word = z3.Consts('b!l p!l x!l y!l z!l word!l', Str.sort)
    e, e2 = z3.Bools('e!l e2!l')
    utf8, allows = rule_preds(T_)
    rest = Str.slice(word, k, L(word))
    piece_ = lambda x, k2: A(k < k2, k2 < L(word), x == Str.slice(word, k, k2))
    out = Str.cat(Str.cat(b, rep(n, SP)), x)
    full = A(n >= 0, c + n + width(rest) > lw)                          # the rest of the word does not fit
    between = O(N(utf8(R)), N(wf8(word)), ust(word, k) != 0, ust(word, k2) == 0)
    cut = lambda s: A(piece_(x, k2), n >= 0, c + n + width(x) + z3.If(s == 0, 0, 1) <= lw, between, O(e, allows(R, word, k2, s)))
    add_group(['partial_layout'], [
        # nothing of the word is written yet
        forall([lw, R, b, p, c, e, word, k], Im(A(LAY(lw, b, p, c, e), k == 0), PART(lw, R, b, p, c, e, word, k)), [PART(lw, R, b, p, c, e, word, k)]),
        # the line ends before the rest of the word, which does not fit
        forall([lw, R, b, p, c, word, k], Im(PART(lw, R, b, p, c, False, word, k), PART(lw, R, Str.push(b, NL), p, 0, True, word, k)),
               [(PART(lw, R, b, p, c, False, word, k), Str.push(b, NL))]),
        # a piece of the word that fits ends the line: the line has no other word, or a rule breaks the word there
        forall([lw, R, b, p, c, e, word, k, n, x, k2], Im(A(PART(lw, R, b, p, c, e, word, k), cut(z3.IntVal(0))), PART(lw, R, Str.push(out, NL), p, 0, True, word, k2)),
               [(PART(lw, R, b, p, c, e, word, k), Str.push(out, NL), Str.slice(word, k, k2))]),
        forall([lw, R, b, p, c, e, word, k, n, x, k2, y, z], Im(A(PART(lw, R, b, p, c, e, word, k), cut(HYPH), L(y) == 0, z == Str.push(Str.emp, HYPH)),
                                                              PART(lw, R, Str.push(Str.cat(Str.cat(out, y), z), NL), p, 0, True, word, k2)),
               [(PART(lw, R, b, p, c, e, word, k), Str.push(Str.cat(Str.cat(out, y), z), NL), Str.slice(word, k, k2))]),
        # the rest of the word fits, or fewer than three columns are left on the empty line
        forall([lw, R, b, p, c, e, word, k, n, x], Im(A(PART(lw, R, b, p, c, e, word, k), x == rest, n >= 0, O(c + n + width(x) <= lw, A(e, c + n > lw - 3))),
                                                      LAY(lw, out, Str.cat(p, word), c + n + width(x), L(x) == 0)),
               [(PART(lw, R, b, p, c, e, word, k), out)])])
    memo[T_.name] = PART
    return PART


# an explicit line break
_lw, _c, _b, _p, _e = z3.Int('lw!l'), z3.Int('c!l'), z3.Const('b!l', Str.sort), z3.Const('p!l', Str.sort), z3.Bool('e!l')
add_group(['layout'], [forall([_lw, _b, _p, _c, _e], Im(LAY(_lw, _b, _p, _c, _e), LAY(_lw, Str.push(_b, NL), Str.push(_p, NL), 0, True)),
                              [(LAY(_lw, _b, _p, _c, _e), Str.push(_b, NL), Str.push(_p, NL))])])


# everything before the first word is not laid out
add_group(['layout'], [forall([_lw, _b, _p], Im(_p == Str.emp, LAY(_lw, _b, _p, 0, True)), [LAY(_lw, _b, _p, 0, True)])])


class F:
    """The state of a formatter."""

    def __init__(self, sc, old=False, arg=None, v=None, H=None):
        """of *this, or of an argument, or the given value of it"""
        g, mloc = sc.om if old else sc.m, sc.mloc
        if arg is not None:
            v = v or (sc.old(arg) if old else sc.arg(arg))
            g, mloc = lambda n: v.f[n], lambda n: sc.args[arg].ext('f', n)
        wf = g('m_writer').f
        self.w = W(lambda n: wf[n], H or (sc.OH if old else sc.H))
        self.indents, self.state = g('m_indents'), g('m_state')
        self.T = sc.I.loc_type(mloc('m_word_splitter').ext('f', 'm_splits'))
        self.rules = Rules(sc, g('m_word_splitter').f['m_splits'], self.T)
        self.empty = EMPTY(self.w.line)
        self.aligned = O(self.state == 1, self.state == 3)

    def lay(self, p):
        """what was written is a layout of p, and the line is empty exactly at the start of a line of p"""
        return A(self.trigger(p), self.empty == ENDS(p))

    def trigger(self, p):
        w = self.w
        return LAY(w.lw, w.total, p, w.cw, self.empty)

    def part(self, p, word, k):
        w = self.w
        return part_rel(self.T)(w.lw, self.rules.m, w.total, p, w.cw, self.empty, word, k)

    def inv(self):
        w = self.w
        return [('a writer with a stream', w.ok()), ('lines have at least three columns', w.lw > 2), ('an empty line has no columns', Im(self.empty, w.cw == 0)),
                ('there is an indentation', A(SI.len(self.indents) > 0, 0 <= self.state, self.state <= 3,
                                              forall([n1], Im(A(0 <= n1, n1 < SI.len(self.indents)), A(0 <= SI.at(self.indents, n1), SI.at(self.indents, n1) < 1 << 32)), [SI.at(self.indents, n1)])))] + self.rules.ok()

    def alignment(self):
        return [('the indentation of an alignment', Im(self.aligned, SI.len(self.indents) > 1))]

    @property
    def depth(self):
        """the number of indentations but that of the alignment"""
        return SI.len(self.indents) - z3.If(self.aligned, 1, 0)


EMPTY = z3.Function('no_characters', Str.sort, BoolS)
add_group([EMPTY.name()], [forall([_p], EMPTY(_p) == (L(_p) == 0), [EMPTY(_p)])])


# a text is empty or ends with a line break
ENDS = z3.Function('at_the_start_of_a_line', Str.sort, BoolS)
add_group([ENDS.name()], [forall([_p], ENDS(_p) == O(L(_p) == 0, at(_p, L(_p) - 1) == NL), [ENDS(_p)])])


SI = seq_of(IntS)
P_ = z3.Const('p!f', Str.sort)


def wrote(sc, payload, f=None, f0=None):
    """what was laid out before is laid out now, followed by something"""
    f, f0 = f or F(sc), f0 or F(sc, True)
    return forall([P_], Im(f0.lay(P_), f.lay(payload(P_))), [f0.trigger(P_)])


class Formatter:
    mods = ('m_writer', 'm_indents', 'm_state')
    gives = True

    def requires(self, sc):
        return F(sc).inv()

    def modifies(self, sc):
        return [('loc', sc.mloc(m)) for m in self.mods] + ([('heapfield', 'Ghost', 'text')] if self.gives else [])

    def kept(self, sc, *but):
        f, f0 = F(sc), F(sc, True)
        r = [('the stream and the width of the lines', A(f.w.stream == f0.w.stream, f.w.lw == f0.w.lw))]
        if self.gives:
            x = z3.Const('x!', Addr)
            t, t0 = sc.H('Ghost', 'text'), sc.OH('Ghost', 'text')
            r.append(('other streams are given nothing', forall([x], Im(x != f0.w.stream, SEL(t, x) == SEL(t0, x)), [SEL(t, x)])))
        return r + f.inv()


@contract(TF + 'newline', 'C14 C15')
class _(Formatter):
    mods = ('m_writer',)

    def assumes(self, sc):
        return [(TEXT, L(F(sc, True).w.line) + 1 < 1 << 62)]

    def ensures(self, sc):
        f, f0 = F(sc), F(sc, True)
        return [('a line break is written', Str.eqS(f.w.total, Str.push(f0.w.total, NL))), ('the line is empty', A(f.w.line == Str.emp, f.w.cw == 0, f.w.spaces == 0)),
                ('the line break is laid out', Im(mark(L(Str.push(f0.w.total, NL))), wrote(sc, lambda p: Str.push(p, NL)))),
                ('nothing else', f.w.same(f0.w, 'line', 'cw', 'spaces', 'given'))] + self.kept(sc)


@contract(TF + 'append_word', 'C14 C15')
class _(Formatter):
    mods = ('m_writer',)

    def requires(self, sc):
        s = sc.arg(0)
        return [('a word', A(L(s) > 0, L(s) < 1 << 32, at(s, L(s) - 1) != NL))] + F(sc).inv()

    def axioms_at_entry(self, sc):
        return [('texts have columns', visible)]

    def assumes(self, sc):
        return [(TEXT, A(F(sc, True).w.at + L(sc.old(0)) < 1 << 31, F(sc, True).w.lw < 1 << 32, L(F(sc, True).w.line) < 1 << 61))]

    def ensures(self, sc):
        f, f0, s = F(sc), F(sc, True), sc.old(0)
        return [('the word is laid out', wrote(sc, lambda p: Str.cat(p, s))), ('the line is not empty', L(f.w.line) > 0), ('the blanks are used', f.w.spaces == 0),
                ('the indentation', f.w.indent == f0.w.indent)] + self.kept(sc)

    def loop(sc):
        f, f0, s = F(sc), F(sc.fsc, True), sc.param(0)
        r = var(sc, 'remainder', 'sv', 0)
        k = L(s) - L(r)
        x = z3.Const('x!', Addr)
        t, t0 = sc.H('Ghost', 'text'), sc.fsc.OH('Ghost', 'text')
        return [('the rest of the word', A(0 <= k, k < L(s), r == Str.slice(s, k, L(s)))), ('what was laid out', forall([P_], Im(f0.lay(P_), f.part(P_, s, k)), [f0.trigger(P_)])),
                ('the formatter', A(f.w.stream == f0.w.stream, f.w.lw == f0.w.lw, f.w.indent == f0.w.indent, O(f.w.at == f0.w.at, f.w.at == f.w.indent))),
                ('other streams are given nothing', forall([x], Im(x != f0.w.stream, SEL(t, x) == SEL(t0, x)), [SEL(t, x)]))] + f.inv()

    loops = (Loop(loop, lambda sc: 4 * L(var(sc, 'remainder', 'sv', 0)) + z3.If(F(sc).empty, 0, 2) + z3.If(F(sc).w.spaces == 0, 0, 1)),)


@contract(TF + 'push_indentation', 'C14')
class _(Formatter):
    mods = ('m_writer', 'm_indents')
    gives = False

    def assumes(self, sc):
        return [(TEXT, F(sc, True).w.at < 1 << 32)]

    def ensures(self, sc):
        f, f0, n = F(sc), F(sc, True), sc.old(0)
        cur = n == (1 << 32) - 1
        m = z3.If(cur, f0.w.at, n)
        return [('one more indentation', Str_eq(f.indents, SI.push(f0.indents, m))), ('it is used if it leaves a column', f.w.indent == z3.If(m < f0.w.lw, m, f0.w.indent)),
                ('the blanks become indentation', f.w.spaces == z3.If(cur, 0, f0.w.spaces)), ('nothing else', f.w.same(f0.w, 'indent', 'spaces'))] + self.kept(sc)


def Str_eq(a, b):
    return eqp(a, b)


@contract(TF + 'pop_indentation', 'C14')
class _(Formatter):
    mods = ('m_writer', 'm_indents')
    gives = False

    def requires(self, sc):
        return F(sc).inv()

    def throws(self, sc):
        return SI.len(F(sc, True).indents) == 1

    def ensures(self, sc):
        f, f0 = F(sc), F(sc, True)
        n = SI.len(f0.indents)
        m = SI.at(f0.indents, n - 2)
        return [('one indentation less', Str_eq(f.indents, SI.slice(f0.indents, 0, n - 1))), ('the previous indentation', f.w.indent == z3.If(m < f0.w.lw, m, f0.w.indent)),
                ('nothing else', f.w.same(f0.w, 'indent')), ('there is an indentation', SI.len(f.indents) >= 1)] + [x for x in self.kept(sc) if x[0] != 'there is an indentation'] + \
            [('the indentations', forall([n1], Im(A(0 <= n1, n1 < SI.len(f.indents)), A(0 <= SI.at(f.indents, n1), SI.at(f.indents, n1) < 1 << 32)), [SI.at(f.indents, n1)]))]


# the text without its blanks, with one character for each line break, after p; all: blanks are kept
def keeps(name, all_):
    K = z3.Function(name, Str.sort, Str.sort, IntS, Str.sort)
    k, ch = K(P_, s_, k_), at(s_, k_)
    crlf = A(ch == 13, k_ + 1 < L(s_), at(s_, k_ + 1) == 10)
    add_group([name], [
        forall([P_, s_], K(P_, s_, 0) == P_, [K(P_, s_, 0)]),
        forall([P_, s_, k_], Im(k_ == 0, k == P_), [k]),
        forall([P_, s_, k_, j_], Im(A(0 <= k_, k_ < L(s_), j_ == k_ + 1),
                                    K(P_, s_, j_) == z3.If(crlf if all_ else O(crlf, ch == 32, ch == 9), k, Str.push(k, z3.If(ch == 13, NL, ch)))), [(k, K(P_, s_, j_), ch)])])
    return K


KEEP = keeps('without_blanks', False)
KEEPL = keeps('lines', True)


_a, _b2 = z3.Ints('a!t b!t')
_ss = Str.slice(Str.slice(s_, k_, j_), _a, _b2)
subslice = forall([s_, k_, j_, _a, _b2], Im(A(0 <= k_, k_ <= j_, j_ <= L(s_), 0 <= _a, _a <= _b2, _b2 <= j_ - k_), _ss == Str.slice(s_, k_ + _a, k_ + _b2)), [_ss])


@lemma('a part of a part is a part', 'C15')
def _():
    s = z3.Const('s', Str.sort)
    k, j, a, b = z3.Ints('k j a b')
    return [0 <= k, k <= j, j <= L(s), 0 <= a, a <= b, b <= j - k], Str.eqS(Str.slice(Str.slice(s, k, j), a, b), Str.slice(s, k + a, k + b))


def line_break(K):
    m = z3.Int('m!t')
    return forall([P_, s_, k_, j_, m], Im(A(0 <= k_, k_ <= j_, j_ < L(s_), forall([n1], Im(A(k_ <= n1, n1 < j_), A(at(s_, n1) != 13, at(s_, n1) != 10)), [at(s_, n1)]),
                                            O(at(s_, j_) == 13, at(s_, j_) == 10), m == j_ + z3.If(A(at(s_, j_) == 13, j_ + 1 < L(s_), at(s_, j_ + 1) == 10), 2, 1)),
                                          K(P_, s_, m) == Str.push(Str.cat(K(P_, s_, k_), Str.slice(s_, k_, j_)), NL)), [(K(P_, s_, k_), K(P_, s_, m), Str.slice(s_, k_, j_))])


@lemma('a line and its line break are kept', 'C15')
def _():
    K, (p, s), (i, j, m) = KEEPL, z3.Consts('p s', Str.sort), z3.Ints('i j m')
    f = line_break(K)
    vs = [p, s, i, j, m]
    b = z3.substitute_vars(f.body(), *reversed(vs))
    return [x for n, x in token_facts(K, True) if n != 'a line and its line break are kept'] + [touch(K(p, s, j)), touch(K(p, s, j + 1)), touch(at(s, j)), touch(at(s, j + 1))], b


def token_facts(K, all_):
    plain = lambda c: A(c != 13, c != 10) if all_ else A(c != 13, c != 10, c != 32, c != 9)
    i, j = k_, j_
    fs = [('a part of a part is a part', subslice), ('a word is kept', forall([P_, s_, i, j], Im(A(0 <= i, i <= j, j <= L(s_), forall([n1], Im(A(i <= n1, n1 < j), plain(at(s_, n1))), [at(s_, n1)])),
                                                       K(P_, s_, j) == Str.cat(K(P_, s_, i), Str.slice(s_, i, j))), [(K(P_, s_, i), K(P_, s_, j), Str.slice(s_, i, j))])),
          ('a line break of two characters is one', forall([P_, s_, i, j], Im(A(0 <= i, j == i + 2, j <= L(s_), at(s_, i) == 13, at(s_, i + 1) == 10),
                                                                              K(P_, s_, j) == Str.push(K(P_, s_, i), NL)), [(K(P_, s_, i), K(P_, s_, j))]))]
    if all_:
        fs.append(('a line and its line break are kept', line_break(K)))
    if not all_:
        fs.append(('blanks are not kept', forall([P_, s_, i, j], Im(A(0 <= i, i <= j, j <= L(s_), forall([n1], Im(A(i <= n1, n1 < j), at(s_, n1) == 32), [at(s_, n1)])),
                                                                   K(P_, s_, j) == K(P_, s_, i)), [(K(P_, s_, i), K(P_, s_, j))])))
    return fs


def _token_lemmas():
    p, s = z3.Consts('p s', Str.sort)
    i, j = z3.Ints('i j')
    for K, all_, what in ((KEEP, False, 'words'), (KEEPL, True, 'lines')):
        plain = lambda c, all_=all_: A(c != 13, c != 10) if all_ else A(c != 13, c != 10, c != 32, c != 9)

        def word(K=K, plain=plain):
            k = Str.cat(K(p, s, i), Str.slice(s, i, j))
            return [0 <= i, i <= j, j < L(s), plain(at(s, j)), K(p, s, j) == k, touch(K(p, s, j + 1)), touch(at(s, j))], K(p, s, j + 1) == Str.push(k, at(s, j))

        def blank(K=K):
            return [0 <= i, i <= j, j < L(s), at(s, j) == 32, K(p, s, j) == K(p, s, i), touch(K(p, s, j + 1))], K(p, s, j + 1) == K(p, s, i)

        def crlf(K=K):
            return [0 <= i, i + 2 <= L(s), at(s, i) == 13, at(s, i + 1) == 10, touch(K(p, s, i)), touch(K(p, s, i + 1)), touch(K(p, s, i + 2))], K(p, s, i + 2) == Str.push(K(p, s, i), NL)
        Lemma(what + ': a word is kept (induction step)', 'C15', word)
        Lemma(what + ': a line break of two characters is one', 'C15', crlf)
        if not all_:
            Lemma(what + ': blanks are not kept (induction step)', 'C15', blank)


_token_lemmas()


@lemma('a text and the next character', 'C15')
def _():
    p, s = z3.Consts('p s', Str.sort)
    i, j = z3.Ints('i j')
    return [0 <= i, i <= j, j < L(s)], A(Str.eqS(Str.push(Str.cat(p, Str.slice(s, i, j)), at(s, j)), Str.cat(p, Str.slice(s, i, j + 1))), Str.eqS(p, Str.cat(p, Str.slice(s, i, i))))


def chars(s, i, j, ok):
    return forall([n1], Im(A(i <= n1, n1 < j), ok(at(s, n1))), [at(s, n1)])


@contract('argos::next_token', 'C15')
class _:
    def ensures(self, sc):
        s, (t, tok, rest) = sc.old(0), (sc.result.f[k] for k in '012')
        n = L(tok)
        crlf = A(at(s, 0) == 13, L(s) > 1, at(s, 1) == 10)
        return [('a token and the rest are the text', Im(L(s) > 0, A(n > 0, n <= L(s), Str.eqS(tok, Str.slice(s, 0, n)), Str.eqS(rest, Str.slice(s, n, L(s)))))),
                ('a tab', Im(t == 9, A(n == 1, at(s, 0) == 9))), ('a line break', Im(t == 10, A(O(at(s, 0) == 10, at(s, 0) == 13), n == z3.If(crlf, 2, 1)))),
                ('blanks', Im(t == 32, chars(s, 0, n, lambda c: c == 32))), ('a word', Im(t == 65, chars(s, 0, n, lambda c: A(c != 32, c != 9, c != 10, c != 13)))),
                ('one of these', Im(L(s) > 0, O(t == 9, t == 10, t == 32, t == 65)))]


@contract('argos::next_line', 'C15')
class _:
    def ensures(self, sc):
        s, (line, rest) = sc.old(0), (sc.result.f[k] for k in sorted(sc.result.f))
        n, m = L(line), L(s) - L(rest)
        crlf = A(at(s, n) == 13, n + 1 < L(s), at(s, n + 1) == 10)
        return [('a line and the rest are of the text', A(n <= m, m <= L(s), Str.eqS(line, Str.slice(s, 0, n)), Im(m < L(s), Str.eqS(rest, Str.slice(s, m, L(s)))))),
                ('no line break in the line', chars(s, 0, n, lambda c: A(c != 10, c != 13))),
                ('a line break between them', O(A(n == L(s), m == L(s)), A(n < L(s), O(at(s, n) == 10, at(s, n) == 13), m == n + z3.If(crlf, 2, 1))))]


@contract('argos::is_list_marker', 'C14')
class _:
    def ensures(self, sc):
        s, r = sc.old(0), sc.result
        return [('a bullet, or digits and a full stop', r == O(A(L(s) == 1, O(at(s, 0) == ord('-'), at(s, 0) == ord('*'))),
                                                              A(L(s) > 1, at(s, L(s) - 1) == ord('.'), chars(s, 0, L(s) - 1, lambda c: A(48 <= c, c <= 57)))))]


@contract(TF + 'write_words', 'C14 C15')
class _(Formatter):
    def axioms_at_entry(self, sc):
        return token_facts(KEEP, False)

    def assumes(self, sc):
        return [(TEXT, L(sc.old(0)) < 1 << 32)]

    def requires(self, sc):
        return F(sc).inv() + F(sc).alignment()

    def ensures(self, sc):
        s = sc.old(0)
        return [('the words and line breaks are laid out', wrote(sc, lambda p: KEEP(p, s, L(s)))), ('the alignment ends', N(F(sc).aligned)), ('no indentation is lost', F(sc).depth >= F(sc, True).depth)] + \
            self.kept(sc) + F(sc).alignment()

    def loop(sc):
        f, f0, s = F(sc), F(sc.fsc, True), sc.fsc.old(0)
        t_ = sc.param(0)
        k = L(s) - L(t_)
        x = z3.Const('x!', Addr)
        t, t0 = sc.H('Ghost', 'text'), sc.fsc.OH('Ghost', 'text')
        return [('the rest of the text', A(0 <= k, k <= L(s), Str.eqS(t_, Str.slice(s, k, L(s))))), ('what was laid out', forall([P_], Im(f0.lay(P_), f.lay(KEEP(P_, s, k))), [f0.trigger(P_)])),
                ('the stream and the width of the lines', A(f.w.stream == f0.w.stream, f.w.lw == f0.w.lw)), ('no indentation is lost', f.depth >= f0.depth),
                ('other streams are given nothing', forall([x], Im(x != f0.w.stream, SEL(t, x) == SEL(t0, x)), [SEL(t, x)]))] + f.inv() + f.alignment()

    loops = (Loop(loop, lambda sc: L(sc.param(0))),)


@contract(TF + 'write_lines', 'C14 C15')
class _(Formatter):
    mods = ('m_writer',)

    def axioms_at_entry(self, sc):
        return token_facts(KEEPL, True)

    def assumes(self, sc):
        return [(TEXT, L(sc.old(0)) < 1 << 32)]

    def ensures(self, sc):
        s = sc.old(0)
        return [('the lines are laid out', wrote(sc, lambda p: KEEPL(p, s, L(s))))] + self.kept(sc)

    def loop(sc):
        f, f0, s = F(sc), F(sc.fsc, True), sc.fsc.old(0)
        t_ = var(sc, 'remainder', 'sv', 0)
        n = L(s)
        k = n - L(t_)
        last = O(at(s, n - 1) == 10, at(s, n - 1) == 13)
        d = z3.If(A(k == n, n > 0, last), z3.If(A(n > 1, at(s, n - 2) == 13, at(s, n - 1) == 10), z3.IntVal(2), z3.IntVal(1)), z3.IntVal(0))     # the line break at the end is written last
        x = z3.Const('x!', Addr)
        t, t0 = sc.H('Ghost', 'text'), sc.fsc.OH('Ghost', 'text')
        return [('the rest of the text', A(0 <= k, k <= n, Str.eqS(t_, Str.slice(s, k, n)))), ('the rest does not start inside a line break', N(A(k > 0, k < n, at(s, k - 1) == 13, at(s, k) == 10))),
                ('what was laid out', forall([P_], Im(f0.lay(P_), f.lay(KEEPL(P_, s, k - d))), [f0.trigger(P_)])),
                ('the stream and the width of the lines', A(f.w.stream == f0.w.stream, f.w.lw == f0.w.lw)),
                ('other streams are given nothing', forall([x], Im(x != f0.w.stream, SEL(t, x) == SEL(t0, x)), [SEL(t, x)]))] + f.inv()

    loops = (Loop(loop, lambda sc: L(var(sc, 'remainder', 'sv', 0))),)


CONSOLE = z3.Int('console_width')         # of the terminal, or 0
COLUMNS = z3.If(CONSOLE == 0, 80, mx(CONSOLE, z3.IntVal(32)))


@contract('argos::get_console_width', 'C14', nparams=0)
class _:
    """asks the operating system"""
    verify = False

    def ensures(self, sc):
        return [('a number of columns', A(0 <= sc.result, sc.result < 1 << 16, sc.result == CONSOLE))]


@contract('argos::get_console_width', 'C14', nparams=2)
class _:
    def ensures(self, sc):
        a, b, r = sc.old(0), sc.old(1), sc.result
        return [('the width of the console, but at least the least, or the default', r == z3.If(CONSOLE == 0, b, mx(CONSOLE, a)))]


@contract(TW + 'TextWriter', 'C14')
class _(Writer):
    node_is_ctor = True

    def requires(self, sc):
        return []

    def modifies(self, sc):
        return [('loc', sc.this)]

    def ensures(self, sc):
        w = writer(sc)
        return [('an empty line of the given width', A(w.lw == sc.old(0), w.line == Str.emp, w.cw == 0, w.indent == 0, w.spaces == 0, w.tabs == 4)), ('it has a stream', w.ok())]


class FormatterCtor(Formatter):
    node_is_ctor = True
    stream = width = None

    def requires(self, sc):
        return [('a stream', sc.arg(0) != null)] if len(sc.node['params']) else []

    def modifies(self, sc):
        return [('loc', sc.this)]

    def throws(self, sc):
        return A(sc.old(1) != 0, sc.old(1) <= 2) if len(sc.node['params']) == 2 else None

    def ensures(self, sc):
        f, n = F(sc), len(sc.node['params'])
        k = z3.Const('k!r', Str.sort)
        return ([('nothing is laid out yet', A(f.w.line == Str.emp, f.w.cw == 0, f.w.spaces == 0, f.w.indent == 0, f.lay(Str.emp))), ('no alignment', N(f.aligned)),
                 ('no splitting rules', A(forall([k], N(f.rules.has(k)), [SEL(f.rules.m, k)]), f.rules.utf8()))] + f.inv()
                + ([('the stream', f.w.stream == sc.old(0))] if n else []) + [('the width of the lines', f.w.lw == (z3.If(sc.old(1) != 0, sc.old(1), COLUMNS) if n == 2 else COLUMNS))]
                + ([] if n else [('the standard output', f.w.stream == z3.Const('std::cout', Addr))]))


for n in (0, 1, 2):
    @contract(TF + 'TextFormatter', 'C14 C15', nparams=n)
    class _(FormatterCtor):
        pass


@contract(TF + 'set_line_width', 'C14')
class _(Formatter):
    mods = ('m_writer',)
    gives = False

    def throws(self, sc):
        return sc.old(0) <= 2

    def ensures(self, sc):
        f, f0 = F(sc), F(sc, True)
        return [('the width of the lines', f.w.lw == sc.old(0)), ('nothing else', f.w.same(f0.w, 'lw'))] + f.inv()


@contract(TF + 'set_stream', 'C14')
class _(Formatter):
    mods = ('m_writer',)
    gives = False

    def requires(self, sc):
        return [('a stream', sc.arg(0) != null)] + F(sc).inv()

    def ensures(self, sc):
        f, f0 = F(sc), F(sc, True)
        return [('the stream', f.w.stream == sc.old(0)), ('nothing else', f.w.same(f0.w, 'stream', 'given'))] + f.inv()


@contract(TF + 'flush', 'C15')
class _(Formatter):
    mods = ('m_writer',)

    def requires(self, sc):
        return [x for x in F(sc).inv() if x[0] != 'an empty line has no columns']

    def ensures(self, sc):
        f, f0 = F(sc), F(sc, True)
        return [('nothing is added to what was written', Str.eqS(f.w.total, f0.w.total)), ('everything is given to the stream', f.w.line == Str.emp), ('nothing else', f.w.same(f0.w, 'line', 'given'))]


for n, g in (('stream', lambda f: f.w.stream), ('line_width', lambda f: f.w.lw), ('current_line_width', lambda f: f.w.at), ('is_current_line_empty', lambda f: f.empty)):
    @contract(TF + n, 'C14')
    class _(Formatter):
        value = staticmethod(g)
        mods, gives = (), False

        def assumes(self, sc):
            return [(TEXT, F(sc).w.at < 1 << 32)]

        def pure(self, sc):
            return self.value(F(sc))
