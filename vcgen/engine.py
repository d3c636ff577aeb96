"""Symbolic execution of the exported AST that generates verification conditions.

A function is executed path by path (re-execution along a prefix of decisions);
loops are cut by invariants; calls of functions under contract use the contract,
other repository functions are executed in place, library functions have the
meaning given in lib.py."""
import os, random, time, zlib, z3
from theory import *
from ctypes_ import *
import astdb


class Ret(Exception):
    def __init__(self, v):
        self.v = v


class Brk(Exception):
    pass


class Cont(Exception):
    pass


class CppThrow(Exception):
    def __init__(self, what, msg=None):
        self.what, self.msg = what, msg


SHARE_AT = 8          # exploration is divided among processes after this many choices
SAMPLE = int(os.environ.get('VCGEN_SAMPLE', '0'))


class CppExit(Exception):
    def __init__(self, code):
        self.code = code


class PathEnd(Exception):
    pass


class Restart(Exception):
    pass


_MAPKEYS = {}


def map_keys(T_):
    """Size of a map, its n'th key and the position of a key."""
    k = (T_.K.sort, T_.sort)
    n = f'{T_.K.sort}.{T_.opt.dt.sort if hasattr(T_.opt.dt, "sort") else T_.V.name}'
    if k not in _MAPKEYS:
        _MAPKEYS[k] = (z3.Function('map_size.' + n, T_.sort, z3.IntSort()), z3.Function('map_key.' + n, T_.sort, z3.IntSort(), T_.K.sort),
                       z3.Function('map_pos.' + n, T_.sort, T_.K.sort, z3.IntSort()))
    return _MAPKEYS[k]


ENTS = {'ArgumentData', 'OptionData', 'CommandData', 'ParserData', 'ParserSettings', 'HelpSettings',
        'ParsedArgumentsImpl', 'IArgumentView'}


def short(n):
    return n.split('::')[-1]


class Obligation:
    __slots__ = ('fn', 'label', 'kind', 'hyps', 'goal', 'line', 'path', 'status', 'time', 'solver', 'model')

    def __init__(self, fn, label, kind, hyps, goal, line, path):
        self.fn, self.label, self.kind, self.hyps, self.goal, self.line, self.path = fn, label, kind, hyps, goal, line, path
        self.status = None
        self.time = 0
        self.solver = None
        self.model = None


class Interp:
    MAXPATHS = 1500
    FEAS_MS = 120

    def __init__(self, db, contracts, lib):
        self.db, self.contracts, self.lib = db, contracts, lib
        self.types = {}
        self.modsets = {}
        self.modsets0 = {}
        self.share = None
        self.sub_ids = {}
        self.rec_types = {}
        self.shapes = contracts.shapes
        self.obls = []
        self.assumed = set()       # names of contracts/library models relied on
        self.deadline = None

    # ------------------------------------------------------------ types
    def rtype(self, t):
        k = t['k']
        if k == 'int':
            return self._t(('i', t['w'], t['s']), lambda: TInt(t['w'], t['s']))
        if k == 'bool':
            return self._t('bool', TBool)
        if k == 'enum':
            return self._t(('e', t['n']), lambda: TInt(t.get('w', 32), t.get('s', True), t['n']))
        if k == 'ref':
            return self.rtype(t['to'])
        if k == 'float':
            return self._t(('fl', t['w']), lambda: TOpaque('float%d' % t['w']))
        if k == 'void':
            return self._t('void', TVoid)
        if k == 'ptr':
            to = t['to']
            if to['k'] == 'rec':
                n = short(to['n'])
                if n in ENTS or not to['n'].startswith('std::') and '__gnu' not in to['n']:
                    return self._t(('p', n), lambda: TAddr(n))
                if n == 'basic_ostream':
                    return self._t(('p', n), lambda: TAddr(n))
                return self._t(('po', n), lambda: TOpaque('ptr_' + n))
            if to['k'] == 'int' and to['w'] == 8:
                return self._t('cstr', TCStr)
            if to['k'] == 'ptr' and to['to']['k'] == 'int' and to['to']['w'] == 8:
                return self._t('argv', TArgv)
            if to['k'] == 'func':
                return self._t('fnptr', lambda: TOther('fnptr'))
            return TOther('ptr', self.rtype(to))
        if k == 'rec':
            return self.rec(t)
        if k in ('arr',):
            e = self.rtype(t['to'])
            return TSeq(e, 'array') if e.packable else TOther('array')
        if k == 'func':
            return self._t('fnptr', lambda: TOther('fnptr'))
        if k == 'builtin':
            return self._t('nullptr', lambda: TAddr('null'))
        raise OutOfReach('type ' + str(t)[:80])

    def _t(self, key, mk):
        if key not in self.types:
            self.types[key] = mk()
        return self.types[key]

    def rec(self, t):
        n = t['n']
        base = short(astdb.strip_targs(n))
        a = [x for x in t.get('a', [])]
        key = ('rec', str(t.get('n')), str([self.tkey(x) for x in a]))
        if key in self.types:
            return self.types[key]
        r = self._rec(t, n, base, a)
        self.types[key] = r
        return r

    def tkey(self, t):
        k = t.get('k')
        if k in ('ptr', 'ref', 'arr'):
            return k + '(' + self.tkey(t['to']) + ')'
        if k == 'rec':
            return t['n'] + '<' + ','.join(self.tkey(x) for x in t.get('a', [])) + '>' + str(t.get('lam', ''))
        if k == 'int':
            return f"{k}{t['w']}{t['s']}"
        return str(t.get('n') or t.get('v') or k)

    def _rec(self, t, n, base, a):
        if n.startswith('std::') or n.startswith('__gnu'):
            R = self.rtype
            if base == 'basic_string':
                return TSeq(R(a[0]), 'string')
            if base == 'basic_string_view':
                return TSeq(R(a[0]), 'sv')
            if base in ('vector', 'list', 'initializer_list'):
                return TSeq(R(a[0]), base)
            if base == 'span':
                return TSpan(R(a[0]))
            if base == 'optional':
                return TOpt(R(a[0]))
            if base == 'pair':
                return TTuple([R(a[0]), R(a[1])], pair=True)
            if base == 'tuple':
                return TTuple([R(x) for x in a])
            if base == 'variant':
                return TVar([R(x) for x in a])
            if base == 'monostate':
                return TTuple([])
            if base in ('unique_ptr', 'shared_ptr'):
                if a[0]['k'] == 'rec':
                    return TAddr(short(a[0]['n']), base)
                return TOpaque(base)
            if base == 'map':
                return TMap(R(a[0]), R(a[1]))
            if base == 'multimap':
                return TSeq(TTuple([R(a[0]), R(a[1])], pair=True), 'multimap')
            if base == 'function':
                return TOpaque('function')
            if base in ('__normal_iterator', '_Rb_tree_iterator', '_Rb_tree_const_iterator', 'back_insert_iterator',
                        '_List_iterator', '_List_const_iterator', 'reverse_iterator'):
                return TOther('iter')
            return TOpaque('std_' + base)
        if n.startswith('lambda#'):
            return TOther('lambda')
        if base in ENTS:
            return TEnt(base)
        rec = self.db.records.get(n)
        if rec is None or t.get('a'):
            for rn, r in self.db.records.items():
                if r.get('tn') == n and [self.tkey(x) for x in r.get('a', [])] == [self.tkey(x) for x in a]:
                    rec = r
        if rec is None:
            for rn, r in self.db.records.items():
                if short(rn) == base:
                    rec = r
        if rec is None:
            return TOpaque(base)
        name = base if not a else base + '_' + '_'.join(short(x.get('n', '')) for x in a)

        def thunk():
            fs = []
            for b in rec['bases']:
                bt = self.rtype(b)
                if isinstance(bt, TRec):
                    fs += bt.fields
            return fs + [(f['n'], self.rtype(f['t'])) for f in rec['fields']]
        T_ = TRec(name, thunk)
        T_.rec = rec
        return T_

    def ent_field(self, ent, f):
        key = (ent, f)
        if key in self.rec_types:
            return self.rec_types[key]
        if ent == 'Ghost' and f == 'errno':
            return self._t(('ghost', f), lambda: TInt(32, True))
        if ent == 'CharPtrs':
            return self._t(('ghost', ent), lambda: TSeq(self._t('cstr', TCStr), 'array'))
        if ent == 'Ghost' and f == 'text':         # what each stream was given
            return self._t(('ghost', f), lambda: TSeq(TInt(8, True), 'string'))
        if ent == 'Ghost':         # specification state: what was done to the outside world
            self.rec_types[key] = self._t(('ghost', f), lambda: TOpaque('log'))
            return self.rec_types[key]
        for n, r in self.db.records.items():
            if short(n) == ent:
                for fd in r['fields']:
                    if fd['n'] == f:
                        self.rec_types[key] = self.rtype(fd['t'])
                        return self.rec_types[key]
        raise OutOfReach(f'no field {ent}.{f}')

    def ent_fields(self, ent):
        for n, r in self.db.records.items():
            if short(n) == ent:
                return [fd['n'] for fd in r['fields']]
        raise OutOfReach('no entity ' + ent)

    def sub_addr(self, addr, ent, f):
        k = self.sub_ids.setdefault((ent, f), len(self.sub_ids))
        return Addr.sub(addr, z3.IntVal(k))

    # ------------------------------------------------------------ path state
    def fresh_name(self, n):
        self.ctr += 1
        return f'{n}~{self.ctr}'

    def assume(self, f):
        if z3.is_true(f):
            return
        self.pc.append(f)

    def heap_arr(self, ent, field):
        k = (ent, field)
        if k not in self.heap:
            T_ = self.ent_field(ent, field)
            self.heap[k] = z3.Array(f'H!{ent}.{field}', Addr, T_.sort)
        return self.heap[k]

    def feasible(self, extra):
        if self.no_feas:
            return True
        fs = self.pc + extra
        key = tuple(f.get_id() for f in fs)
        if key in self.feas_cache:
            return self.feas_cache[key]
        s = z3.Solver()
        s.set('timeout', self.FEAS_MS)
        s.set('auto_config', False)
        s.set('smt.mbqi', False)
        s.add(*fs)
        s.add(*relevant_axioms(fs))
        r = s.check() != z3.unsat
        self.feas_cache[key] = r
        self.feas_keep.append(fs)
        return r

    def decide(self, c):
        if isinstance(c, bool):
            return c
        c = z3.simplify(c)
        if z3.is_true(c):
            return True
        if z3.is_false(c):
            return False
        d = self._choose(lambda: ((True, [c]), (False, [z3.Not(c)])))
        self.pc.append(c if d else z3.Not(c))
        return d

    def fork(self, n):
        """n-way nondeterministic choice without a condition."""
        return self._choose(lambda: tuple((i, None) for i in range(n)))

    def _choose(self, alts):
        fr = self.frame
        i = fr['pos']
        fr['pos'] += 1
        if i < len(fr['prefix']):
            return fr['prefix'][i]
        if self.share and len(self.frames) == 1 and i == SHARE_AT and not self.mine(fr['prefix']):
            raise PathEnd()
        if self.deadline and time.time() > self.deadline:
            raise OutOfReach('path exploration time budget exceeded')
        opts = [v for v, ex in alts() if ex is None or self.feasible(ex)]
        if not opts:
            raise PathEnd()
        for o in opts[1:]:
            fr['work'].append(fr['prefix'] + [o])
        fr['prefix'].append(opts[0])
        return opts[0]

    def mine(self, prefix):
        """Whether this process is the one that explores what starts with these choices."""
        return zlib.crc32(repr(list(prefix)).encode()) % self.share[1] == self.share[0]

    def recording(self):
        if self.share and self.frames[0]['pos'] <= SHARE_AT and not self.mine(self.frames[0]['prefix'][:self.frames[0]['pos']]):
            return False
        return all(f['pos'] >= len(f['prefix']) for f in self.frames)

    def oblige(self, label, goal, kind='assert'):
        if isinstance(goal, bool):
            goal = z3.BoolVal(goal)
        g = z3.simplify(goal)
        if z3.is_true(g):
            if self.recording() and kind != 'safety':
                self.trivial += 1
                self.trivial_labels.append(label)
            return
        if self.recording() and not self.quiet:
            self.obls.append(Obligation(self.cur_fn, label, kind, list(self.pc), goal, self.line, None))
        self.pc.append(goal)

    def explore(self, run):
        """Runs `run` along every feasible path."""
        work = [[]]
        outer = self.frames
        fr = {'prefix': [], 'pos': 0, 'work': work}
        self.frames = outer + [fr]
        saved = getattr(self, 'frame', None)
        self.frame = fr
        try:
            while work:
                self.npaths += 1
                if self.npaths > self.MAXPATHS:
                    raise OutOfReach('too many paths')
                if SAMPLE:          # for development: some paths only
                    if self.npaths > SAMPLE:
                        return
                    random.shuffle(work)
                fr['prefix'] = work.pop()
                fr['pos'] = 0
                try:
                    run()
                except PathEnd:
                    pass
        finally:
            self.frames = outer
            self.frame = saved

    # ------------------------------------------------------------ lvalues
    def new_cell(self, name, val, T_):
        self.cellctr += 1
        return Cell(name, val, T_, self.cellctr)

    def temp(self, val, T_=None):
        return Loc(self.new_cell('tmp', val, T_))

    def root_val(self, root):
        if isinstance(root, HeapRoot):
            T_ = self.ent_field(root.ent, root.field)
            return T_.unpack(z3.Select(self.heap_arr(root.ent, root.field), root.addr))
        return root.val

    def loc_type(self, loc):
        r = loc.root
        T_ = self.ent_field(r.ent, r.field) if isinstance(r, HeapRoot) else r.T
        for p in loc.path:
            if T_ is None:
                return None
            if p[0] == 'f':
                T_ = T_.field(p[1])
            elif p[0] == 'i':
                T_ = T_.elem
            elif p[0] == 'opt':
                T_ = T_.elem
            elif p[0] == 'alt':
                T_ = T_.alts[p[1]]
            elif p[0] == 'key':
                T_ = T_.V
        return T_

    def load(self, x):
        if isinstance(x, Loc):
            if not x.path and not isinstance(x.root, HeapRoot):
                return x.root.val
            T_ = self.ent_field(x.root.ent, x.root.field) if isinstance(x.root, HeapRoot) else x.root.T
            v = self.root_val(x.root)
            for p in x.path:
                v, T_ = self.proj(v, T_, p)
            if T_ is not None and (x.path or isinstance(x.root, HeapRoot)):
                self.read_facts(v, T_)
            return v
        return x

    def read_facts(self, v, T_):
        if self.track_new and isinstance(T_, TAddr) and z3.is_expr(v) and v.sort() == Addr:
            f = rid(v) >= -self.allocs          # an object that exists
            k = f.get_id()
            if k not in self.fact_ids:
                self.fact_ids[k] = f
                self.fact_objs[k] = f
                self.pc.append(f)
            return
        try:
            for f in T_.inv(v):
                k = f.get_id()
                if k not in self.fact_ids:
                    self.fact_ids[k] = f
                    self.fact_objs[k] = f
                    self.pc.append(f)
        except AttributeError:
            pass

    def proj(self, v, T_, p):
        k = p[0]
        if k == 'f':
            if isinstance(v, RecV):
                return v.f[p[1]], v.T.field(p[1]) if v.T else None
            raise OutOfReach(f'field {p[1]} of {type(v).__name__}')
        if k == 'i':
            if T_ is None or not isinstance(T_, TSeq):
                raise OutOfReach('index into unknown type')
            return T_.elem.unpack(T_.th.at(v, p[1])), T_.elem
        if k == 'opt':
            return v.val, v.T.elem if v.T else None
        if k == 'alt':
            return v.alts[p[1]], v.T.alts[p[1]]
        if k == 'key':
            return T_.V.unpack(T_.opt.dt.acc(1, 0, z3.Select(v, p[1]))), T_.V
        raise OutOfReach('path ' + str(p))

    def store(self, loc, val):
        if not isinstance(loc, Loc):
            raise OutOfReach('assignment to a non-lvalue')
        self.note_write(loc)
        root = loc.root
        if isinstance(root, HeapRoot):
            T_ = self.ent_field(root.ent, root.field)
            if loc.path:
                val = self.updated(self.root_val(root), T_, loc.path, val)
            arr = self.heap_arr(root.ent, root.field)
            self.heap[(root.ent, root.field)] = z3.Store(arr, root.addr, T_.pack(val))
        else:
            if loc.path:
                val = self.updated(root.val, root.T, loc.path, val)
            root.val = val

    def updated(self, v, T_, path, val):
        if not path:
            return val
        p, rest = path[0], path[1:]
        sub, subT = self.proj(v, T_, p)
        nv = self.updated(sub, subT, rest, val)
        if p[0] == 'f':
            return v.with_(p[1], nv)
        if p[0] == 'i':
            return T_.th.upd(v, p[1], T_.elem.pack(nv))
        if p[0] == 'opt':
            return OptV(v.T, v.has, nv)
        if p[0] == 'alt':
            a = list(v.alts)
            a[p[1]] = nv
            return VarV(v.T, v.tag, a)
        if p[0] == 'key':
            return z3.Store(v, p[1], T_.opt.pack(T_.opt.some(nv)))
        raise OutOfReach('store path')

    def loc_key(self, loc):
        """What a loop must forget when its body writes here."""
        r = loc.root
        if isinstance(r, HeapRoot):
            return ('heap', r.ent, r.field)
        ps = []
        for p in loc.path:
            if p[0] == 'f' or p[0] == 'alt':
                ps.append(p[:2])
            else:
                break
        return ('cell', r.name, tuple(ps))

    def note_write(self, loc):
        self.writes += 1
        r = loc.root
        for lp in self.loops:
            if not isinstance(r, HeapRoot):
                if r.birth > lp['birth']:
                    continue
            k = self.loc_key(loc)
            self.loop_write(lp, k, loc)

    def loop_write(self, lp, k, loc):
        if lp.get('collect') is not None:
            lp['collect'].append((k, loc))
            return
        ms = lp['mod']
        if k[0] == 'heap':
            # the addresses of objects that were bound before the loop stay the same in every iteration
            a = loc.root.addr
            cur = ms.get(k, ())
            if cur is not True and any(x.eq(a) or self.part_of(a, x) for x in lp['new']):
                a = 'new'
                if a in [x for x in cur if isinstance(x, str)]:
                    return
                ms[k] = cur + ('new',)
                raise Restart()
            cur_a = [] if cur is True else [x for x in cur if not isinstance(x, str)]
            if cur is True or any(x.eq(a) for x in cur_a):
                return
            ms[k] = cur + (a,) if any(x.eq(a) for x in lp['entry']) else True
            raise Restart()
        for m in ms:
            if m[0] != 'alloc' and m[0] == k[0] and m[1] == k[1] and (m[0] == 'heap' and m[2] == k[2] or
                                                  m[0] == 'cell' and k[2][:len(m[2])] == m[2]):
                return
        # wider location replaces narrower ones
        for m in list(ms):
            if m[0] == k[0] == 'cell' and m[1] == k[1] and m[2][:len(k[2])] == k[2]:
                del ms[m]
        ms[k] = True
        raise Restart()

    def part_of(self, a, x):
        while z3.is_app(a) and a.decl().eq(Addr.sub):
            a = a.arg(0)
            if a.eq(x):
                return True
        return False

    def note_new(self, a):
        """An object was made."""
        for lp in self.loops:
            lp.setdefault('new', []).append(a)
            if lp.get('collect') is None and ('alloc',) not in lp['mod']:
                lp['mod'][('alloc',)] = True
                raise Restart()

    # ------------------------------------------------------------ values
    def fresh(self, T_, name, loc=None):
        if isinstance(T_, TRec):
            sh = self.shapes.get(T_.name)
            if sh:
                return sh(self, T_, name, loc)
            fs = {}
            for n, ft in T_.fields:
                fs[n] = self.fresh(ft, f'{name}.{n}', loc.ext('f', n) if loc else None)
            return RecV(T_, fs)
        if isinstance(T_, TTuple):
            return RecV(T_, {f: self.fresh(e, f'{name}.{f}', loc.ext('f', f) if loc else None)
                             for f, e in zip(T_.fields, T_.elems)})
        if isinstance(T_, TOpt):
            return OptV(T_, z3.Const(self.fresh_name(name + '.has'), BoolS),
                        self.fresh(T_.elem, name + '.val', loc.ext('opt') if loc else None))
        if isinstance(T_, TVar):
            tag = z3.Const(self.fresh_name(name + '.tag'), IntS)
            self.assume(z3.And(tag >= 0, tag < len(T_.alts)))
            return VarV(T_, tag, [self.fresh(a, f'{name}.alt{i}', loc.ext('alt', i) if loc else None)
                                  for i, a in enumerate(T_.alts)])
        if isinstance(T_, TEnt):
            a = z3.Const(self.fresh_name(name), Addr)
            self.assume(a != null)
            return Ent(T_.ent, a)
        if isinstance(T_, TArgv):
            a = z3.Const(self.fresh_name(name), Addr)
            self.assume(a != null)
            return T_.unpack(a)
        if isinstance(T_, TOther) and T_.name == 'cstr':
            c = z3.Const(self.fresh_name(name), Str.sort)
            return c
        if isinstance(T_, TVoid):
            return None
        if not T_.packable:
            raise OutOfReach(f'unknown value of type {T_.name}')
        c = z3.Const(self.fresh_name(name), T_.sort)
        for f in T_.inv(c):
            self.assume(f)
        return c

    def named(self, v, name):
        """The same value with a constant for every sequence term (so that it can occur in triggers)."""
        if isinstance(v, RecV):
            return RecV(v.T, {k: self.named(x, f'{name}.{k}') for k, x in v.f.items()})
        if isinstance(v, OptV):
            return OptV(v.T, v.has, self.named(v.val, name))
        if z3.is_expr(v) and v.sort().name() in _seqs_by_sort and v.num_args() and _has_ite(v):
            c = z3.Const(self.fresh_name(name), v.sort())
            self.assume(c == v)
            return c
        return v

    def named_addr_int(self, v, name):
        c = z3.Const(self.fresh_name(name), v.sort())
        self.assume(c == v)
        return c

    def named_addr(self, v, name):
        """The same address as a constant."""
        if v.num_args() == 0:
            return v
        c = z3.Const(self.fresh_name(name), v.sort())
        self.assume(c == v)
        return c

    def havoc_like(self, v, T_, name, loc):
        if isinstance(v, IterV):
            i = z3.Const(self.fresh_name(name + '.idx'), IntS)
            return IterV(v.cont, i, v.kind)
        if isinstance(v, SpanV):
            o = z3.Const(self.fresh_name(name + '.off'), IntS)
            l = z3.Const(self.fresh_name(name + '.len'), IntS)
            self.assume(z3.And(o >= 0, l >= 0))
            return SpanV(v.cont, o, l)
        if T_ is None:
            if isinstance(v, (RecV, OptV, VarV)):
                T_ = v.T
            elif z3.is_expr(v):
                c = z3.Const(self.fresh_name(name), v.sort())
                return c
        if T_ is None:
            raise OutOfReach('cannot forget ' + type(v).__name__)
        if isinstance(T_, TOther) and z3.is_expr(v):
            return z3.Const(self.fresh_name(name), v.sort())
        return self.fresh(T_, name, loc)

    def rebase(self, v, frm, to):
        """Internal references of an object constructed in `frm` and materialised in `to`."""
        def fix(l):
            if isinstance(l, Loc) and l.root is frm.root and len(l.path) >= len(frm.path) \
                    and all(_eqstep(a, b) for a, b in zip(l.path, frm.path)):
                return Loc(to.root, to.path + l.path[len(frm.path):])
            return l

        def go(v):
            if isinstance(v, SpanV):
                return SpanV(fix(v.cont), v.off, v.len)
            if isinstance(v, IterV):
                return IterV(fix(v.cont), v.idx, v.kind)
            if isinstance(v, RecV):
                return RecV(v.T, {k: go(x) for k, x in v.f.items()})
            if isinstance(v, OptV):
                return OptV(v.T, v.has, go(v.val))
            if isinstance(v, VarV):
                return VarV(v.T, v.tag, [go(x) for x in v.alts])
            return v
        return go(v)

    def coerce(self, v, T_):
        """Value of some type as a value of T_ (implicit conversions that keep the meaning)."""
        if T_ is None:
            return v
        if isinstance(v, Ent) and isinstance(T_, TEnt):
            return v
        if isinstance(T_, TOpt):
            if isinstance(v, OptV):
                if v.T is T_ or v.T is None:
                    return v
                return OptV(T_, v.has, self.coerce(v.val, T_.elem))
            return T_.some(self.coerce(v, T_.elem))
        if isinstance(T_, TVar):
            if isinstance(v, VarV):
                return v
            raise OutOfReach('variant from value')
        if isinstance(T_, TTuple):
            if isinstance(v, RecV) and isinstance(v.T, TTuple) and v.T is not T_:
                return RecV(T_, {f: self.coerce(v.f[g], e) for f, g, e in zip(T_.fields, v.T.fields, T_.elems)})
            return v
        return v

    def seqth(self, v):
        return _seqs_by_sort_get(v)

    # ------------------------------------------------------------ statements
    def exec(self, s):
        if s is None:
            return
        if 'l' in s:
            self.line = s['l']
        getattr(self, 's_' + s['k'])(s)

    def s_block(self, s):
        for x in s['s']:
            self.exec(x)

    def s_null(self, s):
        pass

    def s_expr(self, s):
        self.ev(s['e'])

    def s_unsupported(self, s):
        raise OutOfReach('statement ' + s['c'])

    def s_decl(self, s):
        for v in s['vars']:
            self.declare(v)

    def bind(self, var, target):
        self.env[var['id']] = target
        if var['n']:
            self.names[var['n']] = var['id']

    def declare(self, v):
        t = v['t']
        if v.get('static'):
            raise OutOfReach('static local')
        if t['k'] == 'ref':
            x = self.ev(v['init'])
            tgt = x
            if not isinstance(x, (Loc, Ent)):
                tgt = self.temp(x, self.safe_type(t))
            if v.get('bindings'):
                self.bind_parts(v, tgt)
            else:
                self.bind(v, tgt)
            return
        T_ = self.safe_type(t)
        cell = self.new_cell(f"v{v['id']}@{self.depth}", None, T_)
        loc = Loc(cell)
        if isinstance(T_, TEnt):
            raise OutOfReach('local object of heap class')
        if v.get('init') is not None:
            x = self.init_value(v['init'], T_, loc)
            cell.val = x
        else:
            cell.val = T_.default() if T_ else None
        if v.get('bindings'):
            self.bind_parts(v, loc)
        else:
            self.bind(v, loc)

    def init_value(self, e, T_, loc):
        x = self.ev(e, T_)
        if isinstance(x, Loc):
            val = self.load(x)
            if e['k'] in ('ctor', 'call', 'ilist', 'cond', 'cast'):
                val = self.rebase(val, x, loc)
        else:
            val = x
        if isinstance(val, InitListV):
            val = self.from_list(val, T_)
        return self.coerce(val, T_)

    def safe_type(self, t):
        try:
            return self.rtype(t)
        except OutOfReach:
            return None

    def bind_parts(self, v, tgt):
        T_ = self.loc_type(tgt) if isinstance(tgt, Loc) else None
        val = self.load(tgt)
        if isinstance(val, RecV):
            fs = val.T.fields if isinstance(val.T, TTuple) else [n for n, _ in val.T.fields]
            for b, f in zip(v['bindings'], fs):
                self.bind(b, tgt.ext('f', f))
            return
        raise OutOfReach('structured binding of ' + type(val).__name__)

    def s_return(self, s):
        if s.get('e') is None:
            raise Ret(None)
        x = self.ev(s['e'], self.ret_T)
        if self.ret_ref:
            raise Ret(x)
        if isinstance(x, Loc):
            v = self.load(x)
            if self.ret_T is not None and isinstance(v, (RecV, VarV, OptV)):
                # keep the location: the result object is constructed there
                raise Ret(x)
            x = v
        if isinstance(x, InitListV):
            x = self.from_list(x, self.ret_T)
        raise Ret(self.coerce(x, self.ret_T))

    def cond(self, e):
        return self.decide(self.truth(self.load(self.ev(e))))

    def truth(self, v):
        if isinstance(v, OptV):
            return v.has
        if isinstance(v, bool):
            return z3.BoolVal(v)
        if isinstance(v, PtrV):
            return z3.BoolVal(True)
        if z3.is_expr(v):
            if z3.is_bool(v):
                return v
            if v.sort() == Addr:
                return v != null
            if z3.is_int(v):
                return v != 0
        raise OutOfReach('truth value of ' + type(v).__name__)

    def s_if(self, s):
        self.exec(s.get('init'))
        if s.get('cv'):
            self.declare(s['cv'])
        if self.cond(s['c']):
            self.exec(s['t'])
        else:
            self.exec(s.get('e'))

    def s_switch(self, s):
        self.exec(s.get('init'))
        v = self.load(self.ev(s['c']))
        items = []
        for x in (s['b']['s'] if s['b']['k'] == 'block' else [s['b']]):
            labels = []
            while x['k'] in ('case', 'default'):
                labels.append(None if x['k'] == 'default' else x['v'])
                if x.get('hi'):
                    raise OutOfReach('case range')
                x = x['s']
            items.append((labels, x))
        start = None
        default = None
        for i, (ls, x) in enumerate(items):
            for l in ls:
                if l is None:
                    default = i
                elif start is None:
                    if self.decide(v == self.load(self.ev(l))):
                        start = i
            if start is not None:
                break
        if start is None:
            start = default
        if start is None:
            return
        try:
            for ls, x in items[start:]:
                self.exec(x)
        except Brk:
            pass

    def s_break(self, s):
        raise Brk()

    def s_continue(self, s):
        raise Cont()

    def s_try(self, s):
        raise OutOfReach('try block')

    # ------------------------------------------------------------ loops
    def s_while(self, s):
        def cond():
            if s.get('cv'):
                self.declare(s['cv'])
            return self.cond(s['c'])
        self.loop(s, cond, None, lambda: self.exec(s['b']))

    def s_do(self, s):
        raise OutOfReach('do loop')

    def s_for(self, s):
        self.exec(s.get('init'))

        def cond():
            return self.cond(s['c']) if s.get('c') else True
        inc = (lambda: self.ev(s['inc'])) if s.get('inc') else None
        auto = self.for_counter(s)
        self.loop(s, cond, inc, lambda: self.exec(s['b']), auto)

    def for_counter(self, s):
        """for (T i = a; i <cmp> ...; ++i) -> id of i."""
        i = s.get('init')
        if not i or i['k'] != 'decl' or len(i['vars']) != 1 or not s.get('inc'):
            return None
        v = i['vars'][0]
        inc = s['inc']
        tgt = None
        if inc['k'] == 'un' and inc['op'] == '++':
            tgt = inc['e']
        elif inc['k'] == 'call' and inc['fn']['n'] == 'operator++' and not inc['args']:
            tgt = inc['obj']
        elif inc['k'] == 'call' and inc['fn']['n'] == 'operator++':
            tgt = inc['obj']
        if not tgt or tgt['k'] != 'ref' or tgt['d'] != v['id']:
            return None
        return v['id']

    def s_range(self, s):
        self.exec(s.get('init'))
        x = self.ev(s['r'])
        if isinstance(x, (Ent,)):
            raise OutOfReach('range over object')
        if not isinstance(x, Loc):
            T_ = None
            x = self.temp(x, self.safe_type(s['r'].get('t', {'k': 'none'})))
        v = self.load(x)
        T_ = self.loc_type(x)
        if isinstance(v, SpanV):
            n = v.len
            elem = lambda k: v.cont.ext('i', z3.simplify(v.off + k))
            if v.cont is None:
                return
        elif isinstance(T_, TSeq):
            n = T_.th.len(v)
            elem = lambda k: x.ext('i', k)
        elif isinstance(T_, TMap):
            n, elem = self.map_range(x, v, T_, s)
        elif isinstance(v, InitListV):
            for e in v.els:
                self.bind_loop_var(s['v'], e if isinstance(e, Loc) else self.temp(e))
                try:
                    self.exec(s['b'])
                except Brk:
                    break
                except Cont:
                    pass
            return
        else:
            raise OutOfReach('range over ' + type(v).__name__)
        idx = self.new_cell(f"range{s['l']}@{self.depth}", z3.IntVal(0), TInt(64, False))
        rid = ('range', id(s))
        self.env[rid] = Loc(idx)
        self.names['#idx'] = rid
        self.range_cont = x

        def body():
            k = idx.val
            if isinstance(T_, TMap):
                self.bind_map_entry(s['v'], *elem(k))
            else:
                self.bind_loop_var(s['v'], elem(k))
            self.exec(s['b'])

        def cond():
            return self.decide(idx.val < n)

        def inc():
            self.store(Loc(idx), idx.val + 1)
        self.loop(s, cond, inc, body, rid, bound=n)

    def map_range(self, x, v, T_, s):
        """The keys of a map, each one once (in an order that is not used)."""
        m0 = v
        if not z3.is_const(m0):
            m0 = z3.Const(self.fresh_name('map'), T_.sort)
            self.assume(m0 == v)
        size, key_at, pos = map_keys(T_)
        i, k = z3.Int('mi!'), z3.Const('mk!', T_.K.sort)
        has = lambda k: T_.opt.dt.is_(1, z3.Select(m0, k))
        n = size(m0)
        self.assume(n >= 0)
        self.assume(forall([i], z3.Implies(z3.And(0 <= i, i < n), z3.And(has(key_at(m0, i)), pos(m0, key_at(m0, i)) == i)), [key_at(m0, i)]))
        self.assume(forall([k], z3.Implies(has(k), z3.And(0 <= pos(m0, k), pos(m0, k) < n, key_at(m0, pos(m0, k)) == k)), [pos(m0, k)]))
        self.assume(forall([k], z3.Implies(has(k), z3.And(0 <= pos(m0, k), pos(m0, k) < n, key_at(m0, pos(m0, k)) == k)), [z3.Select(m0, k)]))
        self.map_of[id(s)] = (m0, T_)

        def elem(j):
            kk = key_at(m0, j)
            cur = self.load(x)
            if cur is not m0 and not cur.eq(m0):
                # the loop may change values, not add or remove keys
                self.oblige('the map keeps its keys while it is iterated over', T_.opt.dt.is_(1, z3.Select(cur, kk)), 'safety')
            return kk, x.ext('key', kk)
        return n, elem

    def bind_map_entry(self, var, k, loc):
        if not var.get('bindings') or len(var['bindings']) != 2:
            raise OutOfReach('map entry without a structured binding')
        self.bind(var['bindings'][0], self.temp(k, self.loc_type(Loc(loc.root, loc.path[:-1])).K))
        self.bind(var['bindings'][1], loc)

    def bind_loop_var(self, var, loc):
        if var['t']['k'] == 'ref':
            val = self.load(loc)
            tgt = val if isinstance(val, Ent) else loc
            if var.get('bindings'):
                self.bind_parts(var, tgt)
            else:
                self.bind(var, tgt)
        else:
            T_ = self.safe_type(var['t'])
            c = self.new_cell(f"v{var['id']}@{self.depth}", self.coerce(self.load(loc), T_), T_)
            if var.get('bindings'):
                self.bind_parts(var, Loc(c))
            else:
                self.bind(var, Loc(c))

    def loop_key(self, s):
        return (self.fn_stack[-1], id(s))

    def loop_ordinal(self, s):
        fn = self.fn_nodes[-1]
        ls = []
        collect_loops(fn.get('body'), ls)
        for i, x in enumerate(ls):
            if x is s:
                return i, len(ls)
        return None, len(ls)

    def find_loop_spec(self, s):
        c = self.contracts.for_key(self.fn_stack[-1], self.fn_nodes[-1])
        if not c or not c.loops:
            return None
        i, n = self.loop_ordinal(s)
        if i is None or i >= len(c.loops) or n != len(c.loops):
            if i is not None and c.loops and n != len(c.loops):
                self.unattached.add(f'{c.q}: {n} loops, {len(c.loops)} loop annotations')
            return None
        return c.loops[i]

    def loop(self, s, cond, inc, body, counter=None, bound=None):
        spec = self.find_loop_spec(s)
        if spec is None:
            return self.auto_loop(s, cond, inc, body, counter, bound)
        mod = self.modsets.setdefault(self.loop_key(s), {})
        names = dict(self.names)
        pre_env = dict(self.env)
        entry = self.snapshot()
        entry_cells = {}
        for k, l in self.env.items():
            if isinstance(l, Loc):
                try:
                    entry_cells[k] = self.load(l)
                except OutOfReach:
                    pass

        allocs_before = self.allocs

        def invs():
            sc = self.contracts.LoopScope(self, entry, names, counter, entry_cells)
            sc.allocs_before = allocs_before
            sc.loop_id = id(s)
            if bound is not None:
                sc.n = bound
            return sc, spec.inv(sc)
        # the counter of a counted loop changes in every loop
        if counter is not None and counter in self.env:
            l = self.env[counter]
            if isinstance(l, Loc) and not isinstance(l.root, HeapRoot):
                mod.setdefault(('cell', l.root.name, ()), True)
        name = self.contracts.qshort(self.fn_stack[-1])
        try:
            _, fs = invs()
        except KeyError as e:
            self.unattached.add(f'{name}: loop annotation refers to missing variable {e}')
            return self.auto_loop(s, cond, inc, body, counter, bound)
        if counter is not None and bound is not None:
            pass
        for n, f in fs:
            self.oblige(f'{name}: loop invariant "{n}" holds on entry', f, 'loop')
        # forget what the body changes
        entry_addrs = [x.addr for x in [self.this] + list(pre_env.values()) if isinstance(x, Ent)]
        cells = {}
        for loc in self.reachable_cells():
            cells.setdefault(loc.name, loc)
        allocs0 = self.allocs
        if ('alloc',) in mod:
            self.allocs = z3.Const(self.fresh_name('made'), IntS)
            self.assume(self.allocs >= allocs0)
        for k in list(mod):
            if k != ('alloc',):
                self.forget(k, cells, mod[k], allocs0)
        if counter is not None and bound is not None:
            i = self.load(self.env[counter])
            self.assume(z3.And(0 <= i, i <= bound))
        sc, fs = invs()
        for n, f in fs:
            self.assume(f)
        var0 = spec.decreases(sc) if spec.decreases else None
        lp = {'birth': self.cellctr, 'mod': mod, 'entry': entry_addrs, 'new': []}
        branch = self.fork(2)
        if branch == 1:
            saved = self.loops
            self.loops = saved + [lp]
            try:
                c = cond()
            finally:
                self.loops = saved
            if c:
                raise PathEnd()
            return
        saved = self.loops
        self.loops = saved + [lp]
        try:
            if not cond():
                raise PathEnd()
            try:
                body()
            except Cont:
                pass
            except Brk:
                self.loops = saved
                return
            if inc:
                inc()
        except (Ret, CppThrow, CppExit):
            self.loops = saved
            raise
        finally:
            self.loops = saved
        sc, fs = invs()
        for n, f in fs:
            self.oblige(f'{name}: loop invariant "{n}" is preserved', f, 'loop')
        if var0 is not None:
            v1 = spec.decreases(sc)
            self.oblige(f'{name}: loop terminates', z3.And(v1 < var0, var0 >= 0), 'loop')
        raise PathEnd()

    def reachable_cells(self):
        out = []
        for l in self.env.values():
            if isinstance(l, Loc) and not isinstance(l.root, HeapRoot):
                out.append(l.root)
        for env in self.env_stack:
            for l in env.values():
                if isinstance(l, Loc) and not isinstance(l.root, HeapRoot):
                    out.append(l.root)
        if isinstance(self.this, Loc) and not isinstance(self.this.root, HeapRoot):
            out.append(self.this.root)
        for t in self.this_stack:
            if isinstance(t, Loc) and not isinstance(t.root, HeapRoot):
                out.append(t.root)
        out += self.extra_cells
        return out

    def forget(self, k, cells, how=True, allocs0=None):
        if k[0] == 'heap':
            T_ = self.ent_field(k[1], k[2])
            if how is not True:
                arr = self.heap_arr(k[1], k[2])
                if 'new' in [x for x in how if isinstance(x, str)]:
                    # only objects made in the loop
                    new = z3.Const(self.fresh_name(f'H!{k[1]}.{k[2]}'), z3.ArraySort(Addr, T_.sort))
                    x = z3.Const('a!frame', Addr)
                    self.assume(forall([x], z3.Implies(rid(x) >= -allocs0, z3.Select(new, x) == z3.Select(arr, x)), [z3.Select(new, x)]))
                    arr = new
                for a in how:
                    if isinstance(a, str):
                        continue
                    loc = Loc(HeapRoot(k[1], k[2], a))
                    v = self.load(self.havoc_like(self.load(loc), T_, f'H!{k[1]}.{k[2]}', loc))
                    arr = z3.Store(arr, a, T_.pack(v))
                self.heap[(k[1], k[2])] = arr
                return
            self.heap[(k[1], k[2])] = z3.Const(self.fresh_name(f'H!{k[1]}.{k[2]}'), z3.ArraySort(Addr, T_.sort))
            return
        c = cells.get(k[1])
        if c is None:
            return          # not live at this loop
        loc = Loc(c, tuple(k[2]))
        old = self.load(loc)
        v = self.havoc_like(old, self.loc_type(loc), k[1].split('@')[0] + '.'.join(str(x[1]) for x in k[2]), loc)
        if k[2]:
            c.val = self.updated(c.val, c.T, loc.path, v)
        else:
            c.val = v

    def auto_loop(self, s, cond, inc, body, counter, bound):
        """A loop without annotation: it must be a counted loop whose body either
        leaves the loop or changes nothing; then the invariant is that no earlier
        iteration left it."""
        if counter is None or counter not in self.env:
            raise OutOfReach(f'{self.fn_stack[-1]}: loop needs an invariant')
        iloc = self.env[counter]
        start = self.load(iloc)
        isiter = isinstance(start, IterV)
        start_i = start.idx if isiter else start
        if not z3.is_int(start_i):
            raise OutOfReach('loop counter')
        J = z3.Const(self.fresh_name('J'), IntS)
        normal = []
        clean = True

        def setidx(k):
            iloc.root.val = IterV(start.cont, k, start.kind) if isiter else k

        def one():
            nonlocal clean
            snap = self.save()
            npc = len(self.pc)
            facts = dict(self.fact_ids)
            lp = {'birth': self.cellctr, 'mod': {}, 'collect': [], 'new': []}
            ctr0 = self.ctr
            self.loops = self.loops + [lp]
            try:
                self.pc.append(J >= start_i)
                setidx(J)
                if not cond():
                    return
                k = len(self.pc)
                try:
                    body()
                except Cont:
                    pass
                except (Brk, Ret, CppThrow, CppExit):
                    return
                bad = [x for x in lp['collect'] if not (isinstance(x[1].root, Cell) and x[1].root is iloc.root)]
                if bad:
                    raise OutOfReach(f'{self.fn_stack[-1]}: loop at line {s["l"]} needs an invariant (it changes {bad[0][0]})')
                normal.append((list(self.pc[npc:]), ctr0))
            finally:
                self.pc = self.pc[:npc]
                self.fact_ids = facts
                self.restore(snap)
        q = self.quiet
        self.quiet = True
        ev0 = len(self.events)
        ctr_before = self.ctr
        try:
            self.explore(one)
        finally:
            self.quiet = q
        ctr_after = self.ctr
        del self.events[ev0:]
        # normal-completion condition as a predicate of J
        ne = []
        for conds, c0 in normal:
            cs = [c for c in conds if not has_fresh_after(c, ctr_before, J)]
            if len(cs) != len(conds):
                # a condition mentions values created in the iteration: weaken (drop it)
                pass
            ne.append(z3.And(*cs) if cs else z3.BoolVal(True))
        NE = z3.Or(*ne) if ne else z3.BoolVal(False)

        def none_before(k):
            j = z3.Const('j!', IntS)
            b = z3.substitute(NE, (J, j))
            pats = find_patterns(b, j)
            return forall([j], z3.Implies(z3.And(start_i <= j, j < k), b), pats)
        K = z3.Const(self.fresh_name('k'), IntS)
        if self.fork(2) == 0:
            setidx(K)
            self.pc.append(K >= start_i)
            self.pc += [x for x in TInt(64, False).inv(K)]
            self.pc.append(none_before(K))
            lp = {'birth': self.cellctr, 'mod': {}, 'collect': [], 'new': []}
            saved = self.loops
            if not cond():
                raise PathEnd()
            try:
                body()
            except Cont:
                pass
            except Brk:
                return
            raise PathEnd()
        setidx(K)
        self.pc.append(K >= start_i)
        self.pc += [x for x in TInt(64, False).inv(K)]
        self.pc.append(none_before(K))
        if bound is not None:
            self.pc.append(z3.Or(K <= bound))
        elif isiter:
            self.pc.append(K <= self.cont_len(start.cont))
        else:
            # the counter stops as soon as the condition fails
            self.pc.append(z3.BoolVal(True))
        if cond():
            raise PathEnd()

    # ------------------------------------------------------------ snapshots
    def save(self):
        cells = {}
        for c in self.reachable_cells():
            cells[id(c)] = (c, c.val)
        return (cells, dict(self.heap), dict(self.env), dict(self.names), self.this, self.cellctr,
                list(self.fn_stack), list(self.fn_nodes), self.depth, list(self.env_stack), list(self.this_stack),
                self.ret_T, self.ret_ref, self.loops, self.line)

    def restore(self, sn):
        cells, self.heap, self.env, self.names, self.this = sn[0], dict(sn[1]), dict(sn[2]), dict(sn[3]), sn[4]
        self.fn_stack, self.fn_nodes, self.depth = list(sn[6]), list(sn[7]), sn[8]
        self.env_stack, self.this_stack, self.ret_T, self.ret_ref, self.loops, self.line = \
            list(sn[9]), list(sn[10]), sn[11], sn[12], sn[13], sn[14]
        for c, v in cells.values():
            c.val = v

    def snapshot(self):
        return dict(self.heap)

    # ------------------------------------------------------------ pure evaluation
    def pure(self, run):
        """Evaluates run() on all paths without side effects; returns [(conds, value)]."""
        res = []

        def one():
            snap = self.save()
            npc = len(self.pc)
            facts = dict(self.fact_ids)
            ev0 = len(self.events)
            w0 = self.writes
            try:
                try:
                    v = self.load(run())
                except (CppThrow, CppExit):
                    raise OutOfReach('predicate throws')
                res.append((self.pc[npc:], v))
            finally:
                self.pc = self.pc[:npc]
                self.fact_ids = facts
                del self.events[ev0:]
                self.restore(snap)
        self.explore(one)
        return res

    def pure_merge(self, run):
        rs = self.pure(run)
        if not rs:
            raise PathEnd()
        out = None
        for conds, v in reversed(rs):
            if not z3.is_expr(v):
                if isinstance(v, bool):
                    v = z3.BoolVal(v)
                else:
                    raise OutOfReach('pure value ' + type(v).__name__)
            # what holds of every value of a type does not decide anything
            conds = [c for c in conds if c.get_id() not in self.fact_objs]
            out = v if out is None else z3.If(z3.And(*conds) if conds else True, v, out)
        return z3.simplify(out)

    # ------------------------------------------------------------ expressions
    def ev(self, e, T_=None):
        k = e['k']
        return getattr(self, 'e_' + k)(e, T_)

    def val(self, e, T_=None):
        return self.load(self.ev(e, T_))

    def e_int(self, e, T_):
        if e['t']['k'] == 'bool':
            return z3.BoolVal(e['v'] not in ('0', 'false'))
        return z3.IntVal(int(e['v']))

    def e_str(self, e, T_):
        if e.get('predef'):
            return strlit('?')
        return strlit(bytes(e['v']))

    def e_null(self, e, T_):
        return null

    def e_float(self, e, T_):
        T2 = self.rtype(e['t'])
        return z3.Const('flt:' + str(e['v']), T2.sort)

    def e_zero(self, e, T_):
        return self.rtype(e['t']).default()

    def e_this(self, e, T_):
        if isinstance(self.this, Ent):
            return self.this.addr
        return PtrV(self.this)

    def e_ref(self, e, T_):
        dk = e.get('dk')
        if dk == 'func':
            return FnV(e['fn'])
        if e['d'] in self.env:
            return self.env[e['d']]
        if dk == 'global':
            if e['n'] in ('npos', 'dynamic_extent'):
                return self.lib.NPOS
            if e.get('init') is not None:
                v = self.ev(e['init'])
                return v
            if e['n'] in ('cout', 'cerr') and e.get('q') in (None, 'std::cout', 'std::cerr'):
                a = z3.Const('std::' + e['n'], Addr)
                self.assume(a != null)
                return Ent('basic_ostream', a)
            raise OutOfReach('global ' + str(e.get('q')))
        raise OutOfReach('unbound variable ' + e['n'])

    def member(self, b, f, arrow):
        if arrow:
            p = self.load(b)
            b = self.deref(p)
        if isinstance(b, Ent):
            T_ = self.ent_field(b.ent, f)
            if isinstance(T_, TEnt):
                return Ent(T_.ent, self.sub_addr(b.addr, b.ent, f))
            return Loc(HeapRoot(b.ent, f, b.addr))
        if isinstance(b, Loc):
            T_ = self.loc_type(b)
            if T_ is None:
                v = self.load(b)
                if isinstance(v, Ent):
                    return self.member(v, f, False)
            r = b.ext('f', f)
            v = self.load(r)
            return v if isinstance(v, Ent) else r
        if isinstance(b, RecV):
            return b.f[f]
        raise OutOfReach(f'member {f} of {type(b).__name__}')

    def e_mem(self, e, T_):
        if e['arrow'] and e['b'].get('k') == 'this':
            return self.member(self.this, e['f'], False)
        b = self.ev(e['b'])
        if e['arrow']:
            b = self.deref_typed(self.load(b), e['b'])
        return self.member(b, e['f'], False)

    def deref(self, p, ent=None):
        if isinstance(p, PtrV):
            return p.loc
        if isinstance(p, IterV):
            return self.iter_deref(p)
        if isinstance(p, Ent) or isinstance(p, Loc):
            return p
        if z3.is_expr(p) and p.sort() == Addr:
            self.oblige('null pointer is not dereferenced', p != null, 'safety')
            if ent is None:
                raise OutOfReach('dereference of untyped address')
            return Ent(ent, p)
        raise OutOfReach('dereference of ' + type(p).__name__)

    def iter_deref(self, it):
        n = self.cont_len(it.cont)
        if it.kind == 'cstr':
            self.oblige('pointer is inside the text', z3.And(0 <= it.idx, it.idx <= n), 'safety')
            return z3.If(it.idx < n, Str.at(it.cont, it.idx), 0)
        self.oblige('iterator is dereferenceable', z3.And(0 <= it.idx, it.idx < n), 'safety')
        if isinstance(it.cont, Loc):
            T_ = self.loc_type(it.cont)
            if isinstance(T_, TSpan):
                sp = self.load(it.cont)
                return sp.cont.ext('i', z3.simplify(sp.off + it.idx))
            return it.cont.ext('i', it.idx)
        th = _seqs_by_sort[it.cont.sort().name()]
        v = th.at(it.cont, it.idx)
        if th is Str:
            self.read_facts(v, TInt(8, True))
        return v

    def cont_len(self, cont):
        v = self.load(cont)
        if isinstance(v, SpanV):
            return v.len
        return _seqs_by_sort[v.sort().name()].len(v)

    def e_un(self, e, T_):
        op = e['op']
        if op == '!':
            return z3.Not(self.truth(self.val(e['e'])))
        if op == '&':
            x = self.ev(e['e'])
            if isinstance(x, Ent):
                return x.addr
            if isinstance(x, Loc):
                return PtrV(x)
            raise OutOfReach('address of temporary')
        if op == '*':
            p = self.val(e['e'])
            ent = None
            t = e['e'].get('t')
            return self.deref_typed(p, e['e'])
        if op in ('++', '--'):
            l = self.ev(e['e'])
            v = self.load(l)
            d = 1 if op == '++' else -1
            if isinstance(v, IterV):
                nv = IterV(v.cont, z3.simplify(v.idx + d), v.kind)
            else:
                nv = self.arith('+' if d == 1 else '-', v, z3.IntVal(1), self.rtype(e['t']))
            self.store(l, nv)
            return v if e['post'] else l
        if op == '-':
            return self.arith('-', z3.IntVal(0), self.val(e['e']), self.rtype(e['t']))
        if op in ('__extension__', '+'):
            return self.ev(e['e'])
        raise OutOfReach('operator ' + op)

    def deref_typed(self, p, e):
        ent = None
        t = e.get('t')
        if t:
            if t['k'] == 'ptr' and t['to']['k'] == 'rec':
                ent = short(t['to']['n'])
            elif t['k'] == 'rec' and t.get('a') and t['a'][0].get('k') == 'rec':
                ent = short(t['a'][0]['n'])
        return self.deref(p, ent)

    def arith(self, op, a, b, T_):
        if op == '+' and z3.is_expr(a) and a.sort() == Str.sort and z3.is_expr(b) and z3.is_int(b):
            self.oblige('pointer stays inside the text', z3.And(0 <= b, b <= Str.len(a)), 'safety')
            return IterV(a, b, 'rand')
        if isinstance(a, IterV):
            if op in '+-' and z3.is_int(b):
                return IterV(a.cont, z3.simplify(a.idx + b if op == '+' else a.idx - b), a.kind)
            if op == '-' and isinstance(b, IterV):
                return z3.simplify(a.idx - b.idx)
        if z3.is_bool(a):
            a = z3.If(a, z3.IntVal(1), z3.IntVal(0))
        if z3.is_bool(b):
            b = z3.If(b, z3.IntVal(1), z3.IntVal(0))
        if not (z3.is_expr(a) and z3.is_int(a) and z3.is_expr(b) and z3.is_int(b)):
            raise OutOfReach(f'arithmetic {op} on {a if not z3.is_expr(a) else a.sort()}')
        if op in ('&', '|', '^', '>>', '<<'):
            r = self.bitop(op, a, b, T_)
        elif op == '+':
            r = a + b
        elif op == '-':
            r = a - b
        elif op == '*':
            r = a * b
        elif op in ('/', '%'):
            self.oblige('divisor is not zero', b != 0, 'safety')
            if T_.s:
                # C++ truncates towards zero
                q = z3.If(a >= 0, z3.If(b > 0, a / b, -(a / (-b))), z3.If(b > 0, -((-a) / b), (-a) / (-b)))
                r = q if op == '/' else a - b * q
            else:
                r = a / b if op == '/' else a % b
        else:
            raise OutOfReach('operator ' + op)
        return self.wrap(r, T_, op)

    def wrap(self, r, T_, op):
        r = z3.simplify(r)
        if z3.is_int_value(r):
            v = r.as_long()
            if T_.lo <= v <= T_.hi:
                return r
            if not T_.s:
                return z3.IntVal(v % (T_.hi + 1))
        if op in ('&', '|', '^', '>>', '/', '%'):
            return r
        if T_.s:
            if self.counts_fit:
                self.assumed.add(self.counts_fit)
                self.assume(z3.And(T_.lo <= r, r <= T_.hi))
                return r
            self.oblige('signed arithmetic does not overflow', z3.And(T_.lo <= r, r <= T_.hi), 'safety')
            return r
        M = T_.hi + 1
        if op == '*' or op == '<<':
            return r % M
        if op == '+':
            return z3.If(r >= M, r - M, r)
        if op == '-':
            return z3.If(r < 0, r + M, r)
        return r

    def bits(self, a, lo, n):
        """bits lo..lo+n-1 of the non-negative integer a, as an integer"""
        return z3.simplify((a / z3.IntVal(1 << lo)) % z3.IntVal(1 << n))

    def bitop(self, op, a, b, T_):
        ca, cb = z3.is_int_value(a), z3.is_int_value(b)
        if ca and cb:
            x, y = a.as_long(), b.as_long()
            if x >= 0 and y >= 0:
                return z3.IntVal({'&': x & y, '|': x | y, '^': x ^ y, '>>': x >> y, '<<': x << y}[op])
        if op in ('>>', '<<'):
            if not cb:
                raise OutOfReach('variable shift')
            n = b.as_long()
            if T_.s and op == '>>':
                return a / z3.IntVal(1 << n)     # arithmetic shift (z3 div floors for positive divisor)
            return a / z3.IntVal(1 << n) if op == '>>' else a * z3.IntVal(1 << n)
        if ca and not cb:
            a, b, ca, cb = b, a, cb, ca
        if op == '&' and cb and b.as_long() >= 0:
            m = b.as_long()
            self.oblige('bit mask applied to a non-negative number', a >= 0, 'safety') if T_.s else None
            r = z3.IntVal(0)
            i = 0
            while m >> i:
                if (m >> i) & 1:
                    j = i
                    while (m >> j) & 1:
                        j += 1
                    r = r + self.bits(a, i, j - i) * (1 << i)
                    i = j
                else:
                    i += 1
            return z3.simplify(r)
        # general case on bytes
        if T_.s:
            self.oblige('bitwise operands are bytes', z3.And(a >= 0, a < 256, b >= 0, b < 256), 'bitop')
        else:
            self.oblige('bitwise operands are bytes', z3.And(a < 256, b < 256), 'bitop')
        r = z3.IntVal(0)
        for i in range(8):
            x, y = self.bits(a, i, 1), self.bits(b, i, 1)
            bit = {'&': z3.And(x == 1, y == 1), '|': z3.Or(x == 1, y == 1), '^': x != y}[op]
            r = r + z3.If(bit, 1 << i, 0)
        return r

    def e_bin(self, e, T_):
        op = e['op']
        if op == '&&':
            if self.decide(self.truth(self.val(e['l']))):
                return self.truth(self.val(e['r']))
            return z3.BoolVal(False)
        if op == '||':
            if self.decide(self.truth(self.val(e['l']))):
                return z3.BoolVal(True)
            return self.truth(self.val(e['r']))
        if op == ',':
            self.ev(e['l'])
            return self.ev(e['r'])
        a = self.val(e['l'])
        b = self.val(e['r'])
        if op in ('==', '!=', '<', '<=', '>', '>='):
            return self.compare(op, a, b)
        return self.arith(op, a, b, self.rtype(e['t']))

    def compare(self, op, a, b):
        if isinstance(a, PtrV) and isinstance(b, PtrV):
            r = z3.BoolVal(a.loc.same(b.loc))
            if op == '==':
                return r
            if op == '!=':
                return z3.Not(r)
        if isinstance(a, PtrV) or isinstance(b, PtrV):
            o = b if isinstance(a, PtrV) else a
            if z3.is_expr(o) and o.eq(null):
                return z3.BoolVal(op == '!=')
            # two distinct lvalue kinds: cannot alias, but be careful
            raise OutOfReach('pointer comparison')
        if isinstance(a, IterV) and isinstance(b, IterV):
            x, y = a.idx, b.idx
            ca, cb = a.cont, b.cont
            if ca is not cb and not (isinstance(ca, Loc) and isinstance(cb, Loc) and ca.same(cb)) \
                    and not (z3.is_expr(ca) and z3.is_expr(cb) and ca.eq(cb)):
                if z3.is_expr(ca) and z3.is_expr(cb) and ca.sort() == cb.sort():
                    self.oblige('iterators are of the same container', ca == cb, 'safety')
                else:
                    raise OutOfReach('iterators of different containers')
            return {'==': x == y, '!=': x != y, '<': x < y, '<=': x <= y, '>': x > y, '>=': x >= y}[op]
        if isinstance(a, MapIterV) and isinstance(b, MapIterV):
            if b.key is None:
                r = a.end
            elif a.key is None:
                r = b.end
            else:
                raise OutOfReach('map iterator comparison')
            return r if op == '==' else z3.Not(r)
        if z3.is_expr(a) and z3.is_bool(a) and z3.is_expr(b) and z3.is_int(b):
            a = z3.If(a, z3.IntVal(1), z3.IntVal(0))
        if z3.is_expr(b) and z3.is_bool(b) and z3.is_expr(a) and z3.is_int(a):
            b = z3.If(b, z3.IntVal(1), z3.IntVal(0))
        if op in ('==', '!='):
            r = self.equal(a, b)
            return r if op == '==' else z3.Not(r)
        if z3.is_expr(a) and z3.is_int(a):
            return {'<': a < b, '<=': a <= b, '>': a > b, '>=': a >= b}[op]
        raise OutOfReach('comparison')

    def equal(self, a, b):
        if z3.is_expr(a) and z3.is_expr(b):
            if a.sort() != b.sort():
                raise OutOfReach('comparison of different sorts')
            return eqp(a, b)
        if isinstance(a, RecV) and isinstance(b, RecV):
            return z3.And(*[self.equal(a.f[k], b.f[k2]) for k, k2 in zip(a.f, b.f)])
        if isinstance(a, OptV) and isinstance(b, OptV):
            return z3.And(a.has == b.has, z3.Implies(a.has, self.equal(a.val, b.val)))
        if isinstance(a, VarV) and isinstance(b, VarV):
            return a.T.eq(a, b)
        if isinstance(a, OptV) and isinstance(b, OptV) is False:
            return z3.And(a.has, self.equal(a.val, b))
        if isinstance(b, OptV):
            return z3.And(b.has, self.equal(a, b.val))
        raise OutOfReach(f'equality of {type(a).__name__} and {type(b).__name__}')

    def e_assign(self, e, T_):
        r = self.ev(e['r'])
        l = self.ev(e['l'])
        if isinstance(l, Ent):
            raise OutOfReach('assignment of heap object')
        v = self.load(r)
        LT = self.loc_type(l)
        if isinstance(v, InitListV):
            v = self.from_list(v, LT)
        self.store(l, self.coerce(v, LT))
        return l

    def e_cassign(self, e, T_):
        l = self.ev(e['l'])
        a = self.load(l)
        b = self.val(e['r'])
        LT = self.rtype(e['l']['t']) if e['l'].get('t') else self.loc_type(l)
        CT = self.rtype(e['ct'])
        if isinstance(a, IterV):
            v = self.arith(e['op'], a, b, CT)
        else:
            v = self.conv(self.arith(e['op'], self.conv(a, CT), b, CT), LT)
        self.store(l, v)
        return l

    def conv(self, v, T_):
        """integral conversion"""
        if isinstance(T_, TBool):
            return self.truth(v)
        if z3.is_bool(v):
            return z3.If(v, z3.IntVal(1), z3.IntVal(0))
        if z3.is_int_value(v):
            x = v.as_long()
            M = 1 << T_.w
            x %= M
            if T_.s and x > T_.hi:
                x -= M
            return z3.IntVal(x)
        src = self.range_of(v)
        if src and T_.lo <= src[0] and src[1] <= T_.hi:
            return v
        M = 1 << T_.w
        if T_.s:
            r = v % M
            return z3.If(z3.And(v >= T_.lo, v <= T_.hi), v, z3.If(r > T_.hi, r - M, r))
        if T_.w == 64 and src and src[0] >= -(1 << 63):
            return z3.If(v < 0, v + M, v)
        return z3.If(z3.And(v >= 0, v <= T_.hi), v, v % M)

    def range_of(self, v):
        return getattr(self, '_rng', {}).get(v.get_id())

    def e_cast(self, e, T_):
        ck = e['ck']
        if ck == 'IntegralCast':
            v = self.val(e['e'])
            ST = self.safe_type(e['e']['t']) if e['e'].get('t') else None
            DT_ = self.rtype(e['t'])
            if isinstance(v, InitListV):
                v = v.els[0] if v.els else z3.IntVal(0)
            if isinstance(ST, TInt) and isinstance(DT_, TInt):
                if DT_.lo <= ST.lo and ST.hi <= DT_.hi:
                    return v
                if z3.is_int_value(v):
                    return self.conv(v, DT_)
                M = 1 << DT_.w
                if not DT_.s and ST.s and ST.w <= DT_.w:
                    return z3.If(v < 0, v + M, v)
                if DT_.s and not ST.s and ST.w == DT_.w:
                    return z3.If(v > DT_.hi, v - M, v)
            return self.conv(v, DT_)
        if ck in ('ArrayToPointerDecay', 'NoOp', 'ConstructorConversion', 'FunctionToPointerDecay', 'LValueToRValue',
                  'UserDefinedConversion'):
            return self.ev(e['e'], T_)
        if ck in ('PointerToBoolean', 'IntegralToBoolean'):
            return self.truth(self.val(e['e']))
        if ck == 'NullToPointer':
            return null
        if ck == 'ToVoid':
            self.ev(e['e'])
            return None
        raise OutOfReach('cast ' + ck)

    def e_cond(self, e, T_):
        if self.cond(e['c']):
            return self.ev(e['a'], T_)
        return self.ev(e['b'], T_)

    def e_lambda(self, e, T_):
        env = {}
        for c in e['caps']:
            if 'id' in c and c['id'] in self.env:
                l = self.env[c['id']]
                if c.get('byref') or isinstance(l, Ent):
                    env[c['id']] = l
                else:
                    env[c['id']] = self.temp(self.load(l), self.loc_type(l))
        return LamV(e, env, self.this)

    def e_throw(self, e, T_):
        raise CppThrow('exception')

    def e_index(self, e, T_):
        b, i = self.val(e['b']), self.val(e['i'])
        if isinstance(b, IterV) and b.kind == 'ptr':
            return self.iter_deref(IterV(b.cont, z3.simplify(b.idx + i), 'ptr'))
        raise OutOfReach('array index')

    def e_new(self, e, T_):
        raise OutOfReach('new')

    def e_unsupported(self, e, T_):
        raise OutOfReach('expression')

    def e_inhctor(self, e, T_):
        raise OutOfReach('inherited constructor')

    def e_icall(self, e, T_):
        f = self.val(e['f'])
        return self.call_value(f, [self.ev(a) for a in e['args']])

    def e_ilist(self, e, T_):
        ET = self.safe_type(e['t'])
        if isinstance(ET, TRec):
            # aggregate initialisation
            fs = {}
            recf = ET.rec['fields']
            place = Loc(self.new_cell('tmp', None, ET)) if any(self.needs_place(ft) for _, ft in ET.fields) else None
            for i, (n, ft) in enumerate(ET.fields):
                if i < len(e['els']):
                    at = self.ev(e['els'][i], ft)
                    x = self.load(at)
                    if place and isinstance(at, Loc) and e['els'][i]['k'] in ('ctor', 'call', 'ilist', 'cond', 'cast'):
                        x = self.rebase(x, at, place.ext('f', n))
                    if isinstance(x, InitListV):
                        x = self.from_list(x, ft)
                    fs[n] = self.coerce(x, ft)
                else:
                    ini = recf[i].get('init') if i < len(recf) else None
                    fs[n] = self.coerce(self.load(self.ev(ini, ft)), ft) if ini else ft.default()
            if place:
                place.root.val = RecV(ET, fs)
                return place
            return RecV(ET, fs)
        els = [self.ev(x) for x in e['els']]
        if isinstance(ET, (TInt, TBool, TAddr)):
            return els[0] if els else ET.default()
        return InitListV(els)

    def e_stdilist(self, e, T_):
        x = self.ev(e['e'])
        if isinstance(x, InitListV):
            return x
        return x

    def from_list(self, lst, T_):
        if isinstance(T_, TSeq):
            s = T_.th.emp
            for x in lst.els:
                v = self.coerce(self.load(x), T_.elem)
                s = T_.th.push(s, T_.elem.pack(v))
            return s
        if isinstance(T_, TTuple):
            if not lst.els:
                return T_.default()
            return RecV(T_, {f: self.coerce(self.load(x), t) for f, x, t in zip(T_.fields, lst.els, T_.elems)})
        if not lst.els and T_ is not None:
            return T_.default()
        if isinstance(T_, TOpt) and len(lst.els) == 1:
            return self.coerce(self.load(lst.els[0]), T_)
        raise OutOfReach('initializer list')

    # ------------------------------------------------------------ calls
    def call_value(self, f, args):
        if isinstance(f, LamV):
            for op in f.node['ops']:
                if len(op['params']) == len(args):
                    best = op
                    if self.ops_match(op, args):
                        break
            saved_env, saved_names, saved_this = self.env, self.names, self.this
            env = dict(saved_env)
            env.update(f.env)
            self.env = env
            self.this = f.this
            self.names = dict(saved_names)
            try:
                return self.run_body(best, args, 'lambda')
            finally:
                self.env, self.names, self.this = saved_env, saved_names, saved_this
        if isinstance(f, FnV):
            return self.call_fn(f.fn, None, args)
        raise OutOfReach('call of ' + type(f).__name__)

    def ops_match(self, op, args):
        for p, a in zip(op['params'], args):
            pt = self.safe_type(p['t'])
            v = self.load(a)
            if isinstance(pt, TTuple) and isinstance(v, RecV):
                if [str(x) for x in pt.elems] != [str(x) for x in v.T.elems]:
                    return False
        return True

    def run_body(self, fn, args, name):
        """Binds parameters, executes the body, returns the result."""
        for p, a in zip(fn['params'], args):
            self.bind_param(p, a)
        saved = (self.ret_T, self.ret_ref)
        ret = fn['ret']
        self.ret_ref = ret['k'] == 'ref'
        self.ret_T = self.safe_type(ret) if ret['k'] != 'ref' else None
        try:
            self.exec(fn['body'])
            return None
        except Ret as r:
            return r.v
        finally:
            self.ret_T, self.ret_ref = saved

    def bind_param(self, p, a):
        t = p['t']
        if t['k'] == 'ref':
            if isinstance(a, (Loc, Ent)):
                v = a
                if isinstance(a, Loc):
                    vv = self.load(a)
                    if isinstance(vv, Ent):
                        v = vv
                    else:
                        PT = self.safe_type(t)
                        LT = self.loc_type(a)
                        if isinstance(PT, TTuple) and LT is not PT and isinstance(vv, RecV):
                            v = self.temp(self.coerce(vv, PT), PT)
                self.bind(p, v)
            else:
                T_ = self.safe_type(t)
                if isinstance(a, InitListV):
                    a = self.from_list(a, T_)
                self.bind(p, self.temp(self.coerce(a, T_), T_))
        else:
            T_ = self.safe_type(t)
            cell = self.new_cell(f"v{p['id']}@{self.depth}", None, T_)
            v = self.load(a)
            if isinstance(a, Loc):
                v = self.rebase(v, a, Loc(cell)) if isinstance(a.root, Cell) and a.root.name == 'tmp' else v
            if isinstance(v, InitListV):
                v = self.from_list(v, T_)
            cell.val = self.coerce(v, T_)
            self.bind(p, Loc(cell))

    def inline(self, fn, this, args):
        if self.depth > 12 or self.fn_stack.count(fn['key']) > 0:
            raise OutOfReach('recursion in ' + fn['key'])
        self.env_stack.append(self.env)
        self.this_stack.append(self.this)
        saved = (self.env, self.names, self.this)
        self.env, self.names = {}, {}
        self.this = this
        self.depth += 1
        self.fn_stack.append(fn['key'])
        self.fn_nodes.append(fn)
        self.inlined.add(fn['key'])
        try:
            if fn.get('ctor'):
                return self.run_ctor(fn, this, args)
            return self.run_body(fn, args, fn['n'])
        finally:
            self.env, self.names, self.this = saved
            self.env_stack.pop()
            self.this_stack.pop()
            self.depth -= 1
            self.fn_stack.pop()
            self.fn_nodes.pop()

    def run_ctor(self, fn, this, args):
        for p, a in zip(fn['params'], args):
            self.bind_param(p, a)
        if isinstance(this, Loc):
            T_ = self.loc_type(this)
        for i in fn['inits']:
            if i.get('deleg'):
                x = self.ev(i['e'])
                v = self.load(x)
                self.store(this, self.rebase(v, x, this) if isinstance(x, Loc) else v)
                continue
            if i.get('base'):
                continue
            f = i['f']
            if isinstance(this, Ent):
                FT = self.ent_field(this.ent, f)
                if isinstance(FT, TEnt):
                    continue
                dst = Loc(HeapRoot(this.ent, f, this.addr))
            else:
                dst = this.ext('f', f)
                FT = T_.field(f)
            x = self.ev(i['e'], FT)
            v = self.load(x)
            if isinstance(x, Loc):
                v = self.rebase(v, x, dst)
            if isinstance(v, InitListV):
                v = self.from_list(v, FT)
            self.store(dst, self.coerce(v, FT))
        saved = (self.ret_T, self.ret_ref)
        self.ret_T, self.ret_ref = None, False
        try:
            self.exec(fn['body'])
        except Ret:
            pass
        finally:
            self.ret_T, self.ret_ref = saved
        return this

    def fn_node(self, fn):
        n = self.db.find(fn['key'])
        if n is None:
            c = self.db.by_q.get(astdb.strip_targs(fn['q']), [])
            c = [x for x in c if len(x['params']) == len(fn['pt']) and
                 [self.tkey(p['t']) for p in x['params']] == [self.tkey(p) for p in fn['pt']]]
            if len(c) == 1:
                return c[0]
        return n

    def e_ctor(self, e, T_):
        fn = e['fn']
        cls = fn['cls']
        CT = self.safe_type(cls)
        args = None
        if fn.get('ck') in ('copy', 'move') and not fn['repo'] or fn.get('ck') in ('copy', 'move') and fn.get('defaulted'):
            x = self.ev(e['args'][0], CT)
            v = self.load(x)
            if isinstance(v, Ent):
                return self.copy_entity(v, fn)
            if isinstance(v, InitListV):
                v = self.from_list(v, CT)
            if fn['ck'] == 'move' and isinstance(CT, TAddr) and isinstance(x, Loc) and CT.kind in ('unique_ptr', 'shared_ptr') \
                    and self.is_xvalue(e['args'][0]):
                self.store(x, null)
            elif fn['ck'] == 'move' and isinstance(x, Loc) and self.is_xvalue(e['args'][0]):
                self.moved_from(x, CT)
            if isinstance(x, Loc) and isinstance(v, (RecV, VarV)) and e['args'][0]['k'] in ('ctor', 'call', 'cast', 'ilist'):
                return x
            return v
        if fn['repo'] and not fn.get('defaulted'):
            node = self.fn_node(fn)
            c = self.contracts.for_callee(fn, node)
            args = [self.ev(a) for a in e['args']]
            if isinstance(CT, TEnt):
                raise OutOfReach('construction of heap object by value')
            cell = self.new_cell('tmp', self.undef(CT), CT)
            this = Loc(cell)
            if node is None and c is None:
                raise OutOfReach('constructor ' + fn['key'])
            if c and not self.inlining(c):
                self.extra_cells.append(cell)
                self.apply_contract(c, fn, node, this, args)
            else:
                self.extra_cells.append(cell)
                self.inline(node, this, args)
            return this
        if isinstance(CT, TRec) and fn.get('defaulted'):
            return self.temp(self.default_rec(CT), CT)
        return self.lib.construct(self, e, CT, cls)

    def default_rec(self, T_):
        fs = {}
        cell = None
        for (n, ft), f in zip(T_.fields, T_.rec['fields']):
            if f.get('init') is not None:
                v = self.load(self.ev(f['init'], ft))
                if isinstance(v, InitListV):
                    v = self.from_list(v, ft)
                fs[n] = self.coerce(v, ft)
            elif isinstance(ft, TRec):
                fs[n] = self.default_rec(ft)
            else:
                fs[n] = ft.default()
        return RecV(T_, fs)

    def undef(self, T_):
        if isinstance(T_, TRec):
            fs = {}
            for n, ft in T_.fields:
                try:
                    fs[n] = self.undef(ft)
                except Exception:
                    fs[n] = None
            return RecV(T_, fs)
        try:
            return T_.default()
        except Exception:
            return None

    def is_xvalue(self, e):
        if e['k'] == 'call' and e['fn']['n'] == 'move' and e['fn']['q'].startswith('std::move'):
            return True
        return e['k'] in ('call', 'ctor') and e.get('t', {}).get('k') != 'ref' and e['k'] == 'ctor'

    def moved_from(self, x, T_):
        """The source of a move: empty containers, otherwise unspecified."""
        if isinstance(T_, TSeq):
            if T_.cname == 'vector':
                self.store(x, T_.th.emp)
            elif T_.cname == 'string':
                self.store(x, self.fresh(T_, 'moved'))

    def copy_entity(self, v, fn):
        raise OutOfReach('copy of heap object')

    def e_call(self, e, T_):
        fn = e['fn']
        obj = None
        h = self.lib.lazy.get(fn['n'])
        if h is not None and not fn['repo']:
            return h(self, e, T_)
        # operator= evaluates its right operand first
        if fn['n'] == 'operator=' and e.get('obj') is not None:
            args = [self.ev(a) for a in e['args']]
            obj = self.ev(e['obj'])
        else:
            if e.get('obj') is not None:
                obj = self.ev(e['obj'])
                if e.get('arrow') and fn['n'] != 'operator->':
                    p = self.load(obj)
                    obj = self.deref_typed(p, e['obj'])
            args = [self.ev(a) for a in e['args']]
        return self.call_fn(fn, obj, args, e)

    def inlining(self, c):
        return c.inline

    def call_fn(self, fn, obj, args, e=None):
        if 'line' in fn:
            pass
        if e is not None and 'ln' in e:
            self.line = e['ln']
        if isinstance(obj, Loc):
            v = self.load(obj) if not obj.path else None
            if isinstance(v, LamV):
                return self.call_value(v, args)
        if isinstance(obj, LamV):
            return self.call_value(obj, args)
        if fn['repo']:
            node = self.fn_node(fn)
            c = self.contracts.for_callee(fn, node)
            this = obj
            if obj is not None and not isinstance(obj, (Loc, Ent)):
                this = self.temp(obj, self.safe_type(fn['cls']) if fn.get('cls') else None)
            if isinstance(this, Loc):
                vv = self.load(this)
                if isinstance(vv, Ent):
                    this = vv
            if c is not None and not c.inline:
                return self.apply_contract(c, fn, node, this, args)
            if node is not None and not node.get('defaulted'):
                return self.inline(node, this, args)
            if fn['n'] == 'operator=' and fn.get('defaulted'):
                return self.default_assign(this, args[0], fn)
            raise OutOfReach('call of ' + fn['key'])
        return self.lib.call(self, fn, obj, args, e)

    def default_assign(self, this, a, fn):
        v = self.load(a)
        if isinstance(this, Ent) and isinstance(v, Ent):
            # memberwise
            for f in self.ent_fields(this.ent):
                if isinstance(self.ent_field(this.ent, f), TEnt):
                    raise OutOfReach('assignment of a nested object')
                x = self.load(Loc(HeapRoot(v.ent, f, v.addr)))
                self.store(Loc(HeapRoot(this.ent, f, this.addr)), x)
            return this
        self.store(this, v)
        return this

    # ------------------------------------------------------------ contracts at call sites
    def apply_contract(self, c, fn, node, this, args):
        sc = self.contracts.CallScope(self, c, fn, node, this, args)
        name = c.short
        self.assumed.add(c.q)
        for n, f in c.requires(sc):
            self.oblige(f'precondition "{n}" of {name}', f, 'pre')
        for n, f in c.assumes(sc):
            self.assumed.add('assumption: ' + n)
            self.assume(f)
        tc = c.throws(sc)
        def thrown():
            # what the callee may change before it throws
            ms = c.modifies(sc)
            sc.freeze()
            havoc(ms)
            for n, f in c.on_throw(sc):
                self.assume(f)
            raise CppThrow('contract:' + name)

        def exited(code):
            ms = c.modifies(sc)
            sc.freeze()
            havoc(ms)
            sc.exit_code = code
            for n, f in c.on_exit(sc):
                self.assume(f)
            raise CppExit(code)

        def havoc(ms):
            for m in ms:
                if m[0] == 'heapfield':       # whole field, all objects
                    self.note_heap(m[1], m[2])
                    T_ = self.ent_field(m[1], m[2])
                    self.heap[(m[1], m[2])] = z3.Const(self.fresh_name(f'H!{m[1]}.{m[2]}'), z3.ArraySort(Addr, T_.sort))
                else:
                    l = m[1]
                    T_ = self.loc_type(l)
                    old = self.load(l)
                    self.store(l, self.havoc_like(old, T_, name + '.' + (l.root.name if isinstance(l.root, Cell) else l.root.field), l))
        if tc is not None:
            if self.decide(tc):
                thrown()
        if c.may_throw:
            if self.fork(2) == 1:
                thrown()
        ec = c.exits(sc)
        if ec is not None:
            if self.decide(ec[0]):
                exited(ec[1])
        me = c.may_exit(sc)
        if me is not None:
            if self.fork(2) == 1:
                self.assume(me)
                exited(z3.Const(self.fresh_name('exit_code'), IntS))
        RT = self.safe_type(fn['ret']) if fn['ret']['k'] != 'void' else None
        p = c.pure(sc)
        mods = c.modifies(sc)
        sc.freeze()
        if c.allocates:
            new = z3.Const(self.fresh_name('made'), IntS)
            self.assume(new >= self.allocs)
            self.allocs = new
            sc.allocs1 = new
            for lp in self.loops:
                if lp.get('collect') is None and ('alloc',) not in lp['mod']:
                    lp['mod'][('alloc',)] = True
                    raise Restart()
        havoc(mods)
        if p is not None:
            sc.result = p
        elif fn['ret']['k'] == 'ref' or c.result_of is not None:
            sc.result = c.result_of(sc) if c.result_of else None
        elif RT is not None and not isinstance(RT, TVoid):
            place = None
            if self.needs_place(RT):
                place = Loc(self.new_cell('tmp', None, RT))
                place.root.val = self.fresh(RT, name + '.res', place)
                sc.result = place.root.val
            else:
                sc.result = self.load(self.fresh(RT, name + '.res'))
        for n, f in c.ensures(sc):
            self.assume(f)
        for ev in c.events(sc):
            self.events.append(ev)
        if fn.get('noreturn') or c.noreturn:
            raise PathEnd()
        r = sc.result
        if fn['ret']['k'] == 'ref' and r is not None and not isinstance(r, (Loc, Ent)):
            r = self.temp(r, RT)
        elif isinstance(r, (RecV, VarV)) and self.needs_place(RT):
            return place
        return r

    def needs_place(self, T_):
        if isinstance(T_, TRec):
            return T_.name in self.shapes
        return isinstance(T_, TVar) and any(self.needs_place(a) for a in T_.alts)

    def note_heap(self, ent, f):
        for lp in self.loops:
            self.loop_write(lp, ('heap', ent, f), Loc(HeapRoot(ent, f, null)))

    # ------------------------------------------------------------ verification of one function
    def verify(self, c, node):
        """Generates all obligations for the body of `node` against contract c."""
        self.cur_fn = c.q
        self.obls = []
        self.inlined = set()
        self.assumed = set()
        self.unattached = set()
        self.modsets = {k: dict(v) for k, v in self.modsets0.items()}
        self.feas_cache = {}
        self.feas_keep = []
        self.trivial = 0
        self.trivial_labels = []
        self.npaths = 0
        self.outcomes = {'return': 0, 'throw': 0, 'exit': 0}
        self.no_feas = False
        self.quiet = False
        restarts = 0
        while True:
            self.obls = []
            self.trivial = 0
            self.trivial_labels = []
            self.npaths = 0
            self.outcomes = {'return': 0, 'throw': 0, 'exit': 0}
            self.frames = []
            try:
                self.explore(lambda: self.verify_path(c, node))
                break
            except Restart:
                restarts += 1
                if restarts > 200:
                    raise OutOfReach('modification sets do not stabilise')
        return self.obls

    def init_path(self):
        self.pc = []
        self.ctr = 0
        self.cellctr = 0
        self.heap = {}
        self.env, self.names = {}, {}
        self.env_stack, self.this_stack = [], []
        self.this = None
        self.depth = 0
        self.fn_stack, self.fn_nodes = [], []
        self.ret_T, self.ret_ref = None, False
        self.loops = []
        self.line = 0
        self.events = []
        self.writes = 0
        self.fact_ids = {}
        self.fact_objs = {}
        self.track_new = False
        self.map_of = {}
        self.extra_cells = []
        self.allocs = z3.IntVal(0)

    def verify_path(self, c, node):
        self.init_path()
        self.counts_fit = c.counts_fit
        self.track_new = c.allocates
        this = None
        if node.get('cls') and not node.get('static'):
            CT = self.rtype(node['cls'])
            if isinstance(CT, TEnt):
                if node.get('ctor'):
                    # an object under construction is new
                    self.allocs = z3.IntVal(1)
                    this = Ent(CT.ent, Addr.obj(z3.IntVal(-1)))
                else:
                    a = z3.Const('this', Addr)
                    self.assume(a != null)
                    this = Ent(CT.ent, a)
                    if c.allocates:
                        self.assume(rid(a) >= 0)
            else:
                cell = self.new_cell('this', None, CT)
                this = Loc(cell)
                if node.get('ctor'):
                    cell.val = self.undef(CT)
                else:
                    cell.val = self.fresh(CT, 'this', this)
        args = []
        for p in node['params']:
            t = p['t']
            T_ = self.rtype(t)
            if t['k'] == 'ref':
                if isinstance(T_, TEnt):
                    a = z3.Const('p_' + p['n'], Addr)
                    self.assume(a != null)
                    if c.allocates:
                        self.assume(rid(a) >= 0)
                    args.append(Ent(T_.ent, a))
                else:
                    cell = self.new_cell('arg_' + p['n'], None, T_)
                    cell.val = self.fresh(T_, 'p_' + p['n'], Loc(cell))
                    self.extra_cells.append(cell)
                    args.append(Loc(cell))
            else:
                cell = self.new_cell('argv_' + p['n'], None, T_)
                cell.val = c.make_arg(self, p, T_) or self.fresh(T_, 'p_' + p['n'], Loc(cell))
                args.append(Loc(cell))
        sc = self.contracts.BodyScope(self, c, node, this, args)
        for n, f in c.requires(sc):
            self.assume(f)
        for n, f in c.axioms_at_entry(sc):
            self.assume(f)
        for n, f in c.assumes(sc):
            self.assumed.add('assumption: ' + n)
            self.assume(f)
        if self.recording() and not getattr(self, 'vacuity', None):
            self.obls.append(Obligation(self.cur_fn, f'{c.short}: preconditions are satisfiable', 'cover', list(self.pc),
                                        z3.BoolVal(False), node['l'], None))
        sc.freeze()
        self.fn_scope = sc
        tc = c.throws(sc)
        ec = c.exits(sc)
        me = c.may_exit(sc)
        name = c.short
        saved_pre = dict(self.heap)
        self.this = this
        try:
            self.fn_stack.append(node['key'])
            self.fn_nodes.append(node)
            self.depth = 1
            if node.get('ctor'):
                if isinstance(this, Ent):
                    rec = [x for n, x in self.db.records.items() if n.split('::')[-1] == this.ent][0]
                    self.contracts.init_fields(self, this, rec, {i.get('f') for i in node['inits']})
                r = self.run_ctor(node, this, args)
                r = None
            else:
                r = self.run_body(node, args, node['n'])
            T_ = self.rtype(node['ret'])
            if r is None and not isinstance(T_, TVoid) and not node.get('ctor') and node['n'] != 'main':
                self.oblige(f'{name}: control does not reach the end without a result', z3.BoolVal(False), 'safety')
                raise PathEnd()
        except CppThrow as t:
            self.fn_stack, self.fn_nodes = [], []
            self.this = this
            sc.thrown = t
            self.outcomes['throw'] += 1
            if c.may_throw or (c.throw_contract and t.what.startswith('contract:')):
                pass
            elif tc is not None:
                self.oblige(f'{name}: throws only when specified', tc, 'post')
            else:
                self.oblige(f'{name}: does not throw', z3.BoolVal(False), 'post')
            for n, f in c.on_throw(sc):
                self.oblige(f'{name}: on throw: {n}', f, 'post')
            if not node.get('ctor'):
                self.check_frame(c, sc, this, args, saved_pre)
            raise PathEnd()
        except CppExit as x:
            self.fn_stack, self.fn_nodes = [], []
            self.this = this
            self.outcomes['exit'] += 1
            sc.exit_code = x.code
            if ec is None and me is None:
                self.oblige(f'{name}: does not exit the process', z3.BoolVal(False), 'post')
            elif ec is not None:
                self.oblige(f'{name}: exits only when specified', ec[0], 'post')
                self.oblige(f'{name}: exit code', ec[1] == x.code, 'post')
            else:
                self.oblige(f'{name}: exits only when specified', me, 'post')
            for n, f in c.on_exit(sc):
                self.oblige(f'{name}: on exit: {n}', f, 'post')
            self.check_frame(c, sc, this, args, saved_pre)
            raise PathEnd()
        self.outcomes['return'] += 1
        self.fn_stack, self.fn_nodes = [], []
        self.this = this
        sc.result_loc = r
        sc.allocs1 = self.allocs
        sc.result = self.named(self.load(r), 'result') if r is not None else None
        if c.noreturn:
            self.oblige(f'{name}: does not return', z3.BoolVal(False), 'post')
        p = c.pure(sc)
        if p is not None:
            RT = self.rtype(node['ret'])
            self.oblige(f'{name}: result equals its specification', self.equal(self.coerce(sc.result, RT) if not isinstance(sc.result, Ent) else sc.result.addr, p), 'post')
        for n, f in c.ensures(sc):
            self.oblige(f'{name}: ensures {n}', f, 'post')
        if tc is not None:
            self.oblige(f'{name}: returns only when it need not throw', z3.Not(tc), 'post')
        if ec is not None:
            self.oblige(f'{name}: returns only when it need not exit', z3.Not(ec[0]), 'post')
        self.check_frame(c, sc, this, args, saved_pre)
        want = c.events_spec(sc)
        if want is not None:
            ok = self.match_events(want, self.events)
            self.oblige(f'{name}: events in the specified order', ok, 'post')

    def match_events(self, want, got):
        if len(want) != len(got):
            return z3.BoolVal(False)
        cs = []
        for a, b in zip(want, got):
            if a[0] != b[0] or len(a) != len(b):
                return z3.BoolVal(False)
            for x, y in zip(a[1:], b[1:]):
                if x is None or y is None:
                    continue
                cs.append(self.equal(x, y))
        return z3.And(*cs) if cs else z3.BoolVal(True)

    def check_frame(self, c, sc, this, args, pre_heap):
        """Everything not listed in modifies is unchanged."""
        name = c.short
        mods = c.modifies(sc.pre_scope())
        heapmods = {}
        for m in mods:
            if m[0] == 'heapfield':
                heapmods[(m[1], m[2])] = None
            elif isinstance(m[1].root, HeapRoot):
                r = m[1].root
                heapmods.setdefault((r.ent, r.field), [])
                if heapmods[(r.ent, r.field)] is not None:
                    heapmods[(r.ent, r.field)].append(r.addr)
        for k, arr in self.heap.items():
            old = pre_heap.get(k)
            if old is None:
                T_ = self.ent_field(*k)
                old = z3.Array(f'H!{k[0]}.{k[1]}', Addr, T_.sort)
            if arr.eq(old):
                continue
            if k in heapmods and heapmods[k] is None:
                continue
            a = z3.Const('frame!a', Addr)
            ex = [a != x for x in heapmods.get(k, [])]
            if c.allocates:
                ex.append(z3.Not(self.contracts.is_new(a, sc.allocs0)) if not (isinstance(this, Ent) and sc.node.get('ctor')) else rid(a) >= 0)
            # a is an arbitrary address (skolem constant of the goal)
            g = z3.Implies(z3.And(*ex) if ex else True, eqp(z3.Select(arr, a), z3.Select(old, a)))
            self.oblige(f'{name}: changes {k[0]}.{k[1]} only where its contract allows', g, 'frame')
        # members of *this and reference parameters
        roots = []
        if isinstance(this, Loc) and not c.node_is_ctor:
            roots.append((this.root, sc.pre_cells[id(this.root)]))
        for a, p in zip(args, sc.node['params']):
            if isinstance(a, Loc) and isinstance(a.root, Cell) and p['t']['k'] == 'ref':
                roots.append((a.root, sc.pre_cells[id(a.root)]))
        for root, old in roots:
            allowed = [m[1].path for m in mods if m[0] == 'loc' and m[1].root is root]
            self.frame_val(name, root.name, root.val, old, root.T, (), allowed)

    def frame_val(self, name, what, new, old, T_, path, allowed):
        if new is old:
            return
        for al in allowed:
            if len(al) <= len(path) and all(_same_step(x, y) for x, y in zip(al, path)):
                return
        if isinstance(new, RecV) and isinstance(old, RecV):
            for k in new.f:
                self.frame_val(name, what + '.' + k, new.f[k], old.f[k], None, path + (('f', k),), allowed)
            return
        if isinstance(new, VarV) and isinstance(old, VarV):
            for i in range(len(new.alts)):
                self.frame_val(name, what, new.alts[i], old.alts[i], None, path + (('alt', i),), allowed)
            if not new.tag.eq(old.tag):
                self.oblige(f'{name}: leaves {what} unchanged', new.tag == old.tag, 'frame')
            return
        if isinstance(new, SpanV) and isinstance(old, SpanV):
            self.oblige(f'{name}: leaves {what} unchanged', z3.And(new.off == old.off, new.len == old.len), 'frame')
            return
        if isinstance(new, IterV):
            self.oblige(f'{name}: leaves {what} unchanged', new.idx == old.idx, 'frame')
            return
        self.oblige(f'{name}: leaves {what} unchanged', self.equal(new, old), 'frame')


def _eqstep(a, b):
    from ctypes_ import _same_step
    return _same_step(a, b)


from ctypes_ import _same_step
from theory import _seqs_by_sort, _has_ite


def collect_loops(s, out):
    """Loops of a function body in source order, not descending into lambdas."""
    if isinstance(s, dict):
        k = s.get('k')
        if k == 'lambda':
            return
        if k in ('while', 'for', 'range', 'do') and 'b' in s:
            out.append(s)
        for key in ('init', 's', 't', 'e', 'b', 'c', 'h'):
            if key in s and isinstance(s[key], (dict, list)) and key in s:
                if key in ('t',) and k != 'if':
                    continue
                collect_loops(s[key], out)
    elif isinstance(s, list):
        for x in s:
            collect_loops(x, out)


def has_fresh_after(e, ctr, J):
    """Does e mention a constant created after counter ctr, other than J?"""
    st = [e]
    seen = set()
    jn = J.decl().name()
    while st:
        x = st.pop()
        if x.get_id() in seen:
            continue
        seen.add(x.get_id())
        if z3.is_quantifier(x):
            st.append(x.body())
        elif z3.is_app(x):
            if x.num_args() == 0 and x.decl().kind() == z3.Z3_OP_UNINTERPRETED:
                n = x.decl().name()
                if '~' in n and n != jn:
                    try:
                        if int(n.rsplit('~', 1)[1]) > ctr:
                            return True
                    except ValueError:
                        pass
            st.extend(x.children())
    return False


def find_patterns(body, j):
    """Triggers: terms f(.., j, ..) with j a direct argument."""
    pats = []
    seen = set()
    st = [body]
    while st:
        x = st.pop()
        if x.get_id() in seen:
            continue
        seen.add(x.get_id())
        if z3.is_quantifier(x):
            continue
        if z3.is_app(x):
            if x.decl().kind() == z3.Z3_OP_UNINTERPRETED and any(a.eq(j) for a in x.children()):
                pats.append(x)
                continue
            st.extend(x.children())
    uniq = []
    for p in pats:
        if not any(p.eq(q) for q in uniq):
            uniq.append(p)
    # one alternative trigger per term, shortest first
    return uniq[:4]
