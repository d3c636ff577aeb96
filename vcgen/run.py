"""Verifies functions under contract (developer entry: run.py PATTERN...)."""
import sys, os, time, traceback
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
sys.setrecursionlimit(20000)
import z3
import astdb, engine, lib, contracts, solve
from ctypes_ import OutOfReach


class FnResult:
    """What is reported about one function (picklable)."""

    def __init__(self, q):
        self.q = q
        self.error = None          # why the function could not be verified
        self.obls = []             # (label, kind, status, time, solver, line, model)
        self.trivial = 0
        self.inlined = []
        self.assumed = []
        self.library = []
        self.unattached = []
        self.outcomes = {}
        self.paths = 0
        self.wall = 0

    def failed(self):
        return [o for o in self.obls if o[2] != 'proved']


def nodes_for(db, c):
    return [n for n in db.by_q.get(c.q, []) if c.match(n, [p['t'] for p in n['params']]) and n.get('body') is not None
            and not n.get('defaulted')]


def verify_fn(db, c, node, nproc=1, budget=float(os.environ.get('BUDGET', '60')), quick=False):
    if getattr(c, 'heavy', False):
        return verify_shared(db, c, node, budget, quick)
    return verify_part(db, c, node, nproc, budget, quick)[0]


def verify_shared(db, c, node, budget, quick, K=8):
    """Like verify_part, with the paths divided among K processes. The parts only make a whole if all processes agree
    on what the loops change; if they do not, what any of them found is given to all."""
    t = time.time()
    mods = {}
    for _ in range(20):
        parts = solve.parallel(K, lambda k: verify_part(db, c, node, 1, budget, quick, (k, K), mods), list(range(K)))
        bad = [p for p in parts if not isinstance(p, tuple)]
        if bad:
            r = FnResult(c.q)
            r.error = 'a process failed: ' + str(bad[0])
            return r
        r = parts[0][0]
        err = [p[0] for p in parts if p[0].error]
        if err:
            return err[0]
        all_ = [p[1] for p in parts]
        # a part that met a loop knows what the loop changes; one that did not has nothing to say
        keys = {k for m in all_ for k in m}
        differ = False
        for k in keys:
            ms = [m[k] for m in all_ if k in m]
            if any(m != ms[0] for m in ms):
                differ = True
                for m in ms:
                    for x, v in m.items():
                        mods.setdefault(k, {})[x] = True
        if differ:
            continue
        for p in parts[1:]:
            q = p[0]
            r.obls += q.obls
            r.paths += q.paths
            r.trivial += q.trivial
            for f in ('unattached', 'inlined', 'assumed', 'library'):
                setattr(r, f, sorted(set(getattr(r, f)) | set(getattr(q, f))))
            r.outcomes = {k: r.outcomes[k] + q.outcomes[k] for k in r.outcomes}
        r.wall = time.time() - t
        return r
    r = FnResult(c.q)
    r.error = 'what the loops change does not stabilise'
    return r


def verify_part(db, c, node, nproc, budget, quick, share=None, mods=None):
    t = time.time()
    r = FnResult(c.q)
    I = engine.Interp(db, contracts.Contracts(), lib)
    I.deadline = time.time() + budget
    I.share, I.modsets0 = share, mods or {}
    lib.USED.clear()
    try:
        obls = I.verify(c, node)
    except OutOfReach as e:
        r.error = 'out of reach: ' + str(e)
        r.where = I.line
    except RecursionError:
        r.error = 'out of reach: recursion depth'
    except Exception as e:
        r.error = f'generator failed: {e.__class__.__name__}: {e}'
        r.tb = traceback.format_exc()
    r.unattached = sorted(I.unattached)
    r.inlined = sorted(I.inlined - {node['key']})
    r.assumed = sorted(I.assumed)
    r.library = sorted(lib.USED)
    r.outcomes = I.outcomes
    r.paths = I.npaths
    r.gen = time.time() - t
    if r.error is None:
        def one(k):
            o = solve.discharge(obls[k], quick)
            return (o.label, o.kind, o.status, o.time, o.solver, o.line, o.model)
        out = solve.parallel(nproc, one, list(range(len(obls))))
        r.obls = [x if isinstance(x, tuple) else (obls[i].label, obls[i].kind, 'timeout', 0, None, obls[i].line, str(x))
                  for i, x in enumerate(out)]
        r.trivial = I.trivial
    r.wall = time.time() - t
    return r, {k: {x: str(v) for x, v in m.items()} for k, m in I.modsets.items()}


def verify_lemma(l, quick=False):
    r = FnResult('lemma: ' + l.name)
    hyps, goal = l.thunk()
    o = engine.Obligation(r.q, l.name, 'lemma', hyps, goal, 0, None)
    solve.discharge(o, quick)
    r.obls = [(o.label, o.kind, o.status, o.time, o.solver, 0, o.model)]
    return r


if __name__ == '__main__':
    db = astdb.load()
    pats = sys.argv[1:]
    jobs = []
    for q, cs in contracts.REG.items():
        for c in cs:
            if not c.verify:
                continue
            if os.environ.get("NPAR") and str(c.nparams) != os.environ["NPAR"]:
                continue
            if pats and not any(p in q or p in c.props for p in pats):
                continue
            ns = nodes_for(db, c)
            if not ns:
                print('MISSING', q)
            for n in ns:
                jobs.append((c, n))
    for l in contracts.LEMMAS:
        if not pats or any(p in l.name or p in l.props for p in pats):
            jobs.append((l, None))
    def go(j):
        c, n = j
        return verify_lemma(c) if n is None else verify_fn(db, c, n, int(os.environ.get('NP', '1' if len(jobs) > 4 else '8')))
    for r in solve.parallel(8 if len(jobs) > 4 else 1, go, jobs):
        if isinstance(r, str) or r is None:
            print('CRASH', r)
            continue
        bad = r.failed()
        print(f"{'ok  ' if not bad and not r.error and not r.unattached else 'FAIL'} {r.q}: {len(r.obls)} obligations (+{r.trivial} by evaluation), "
              f"{len(bad)} open, {r.paths} paths, {r.outcomes}, {r.wall:.1f}s" + (f' ERROR {r.error} line {getattr(r,"where","")}' if r.error else ''))
        if r.error and hasattr(r, 'tb') and os.environ.get('TB'):
            print(r.tb)
        for o in r.obls:
            if os.environ.get('CV') and o[4] == 'cvc5':
                print('  CVC5', o[0], '| %.1fs' % o[3])
        for u in r.unattached:
            print('    unattached', u)
        for o in bad:
            print('   ', o[2], o[1], '|', o[0], '| line', o[5], '%.1fs' % o[3], (o[6] or '')[:200].replace('\n', ' ') if os.environ.get('V') else '')
