"""Discharges obligations with z3 (and cvc5 as a second opinion)."""
import os, sys, time, pickle, signal, subprocess, tempfile, traceback
import z3
from theory import relevant_axioms

RL = 30_000_000
CVC5 = None


def check_z3(hyps, goal, rlimit=RL, seed=0, ms=20000, mbqi=False):
    # A context of its own makes the search independent of what was done before.
    ctx = z3.Context()
    fs = list(hyps) + [z3.Not(goal)]
    fs += relevant_axioms(fs)
    s = z3.Solver(ctx=ctx)
    s.set('auto_config', False)
    s.set('smt.mbqi', mbqi)
    s.set('timeout', ms)
    s.set('rlimit', rlimit)
    s.set('smt.random_seed', seed)
    for f in fs:
        s.add(f.translate(ctx))
    r = s.check()
    return r, (s.reason_unknown() if r == z3.unknown else ''), s


def smt2(hyps, goal):
    s = z3.Solver()
    fs = list(hyps) + [z3.Not(goal)]
    s.add(*fs)
    s.add(*relevant_axioms(fs))
    return '(set-logic ALL)\n' + '\n'.join(l for l in s.to_smt2().split('\n') if not l.startswith('(set-info'))


def check_cvc5(hyps, goal, secs=10):
    txt = smt2(hyps, goal)
    with tempfile.NamedTemporaryFile('w', suffix='.smt2', delete=False) as f:
        f.write(txt)
    try:
        r = subprocess.run(['cvc5', '--tlimit=%d' % (secs * 1000), f.name], capture_output=True, text=True, timeout=secs + 5)
        return r.stdout.strip().split('\n')[0]
    except subprocess.TimeoutExpired:
        return 'unknown'
    finally:
        os.unlink(f.name)


PATIENCE = [8]


def second_opinion(st, quick):
    """Seconds for cvc5. What z3 calls refuted may be a proof it did not find: that is worth waiting for, a few times."""
    if st == 'refuted' and PATIENCE[0] > 0:
        PATIENCE[0] -= 1
        return 30
    return 3 if quick else 20


def discharge(o, quick=False):
    """Sets o.status: proved / refuted (the solver is saturated without a proof) / timeout."""
    t = time.time()
    if o.kind == 'cover':
        r, why, s = check_z3(o.hyps, z3.BoolVal(False), 3_000_000, ms=5000)
        o.status = 'vacuous' if r == z3.unsat else 'proved'
        o.solver = 'z3'
        o.time = time.time() - t
        return o
    o.status = 'proved'
    o.solver = 'z3'
    for g in conjuncts(o.goal):
        bad = None
        for extra, part in split(g):
            st = attempt(o, o.hyps + extra, part, quick, z3.is_quantifier(g) or z3.is_implies(g))
            if st:
                bad = st
                break
        if bad and bad[3]:      # as a whole
            bad = attempt(o, o.hyps, g, quick, False)
        if bad:
            st, why, s, _ = bad
            o.status = st
            try:
                o.model = str(s.model())[:3000] if st == 'refuted' else why
            except Exception:
                o.model = why
            break
    o.time = time.time() - t
    return o


def attempt(o, hyps, g, quick, again):
    """None if it is proved; otherwise what the solver said. With `again` there is another way to put the question, so that the
    slower ways to find an answer can wait."""
    r, why, s = check_z3(hyps, g)
    if r == z3.unsat:
        return None
    st = 'refuted' if r == z3.sat or 'incomplete' in why else 'timeout'
    for seed in () if again and st == 'refuted' else (7, 23, 91, 1234) if st == 'refuted' else (7,):
        if check_z3(hyps, g, seed=seed)[0] == z3.unsat:
            return None
    if not again and check_cvc5(hyps, g, second_opinion(st, quick)) == 'unsat':
        o.solver = 'cvc5'
        return None
    return st, why, s, again


def conjuncts(g):
    if z3.is_and(g):
        return [y for x in g.children() for y in conjuncts(x)]
    if z3.is_implies(g):
        return [z3.Implies(g.arg(0), y) for y in conjuncts(g.arg(1))]
    return [g]


_seen = [0]


def seen(t):
    """A true statement that mentions a term."""
    return z3.Function('seen_' + t.sort().name(), t.sort(), z3.BoolSort())(t)


def split(g):
    """Conjuncts of the goal are separate queries; what it says of all things is shown for new constants. The terms of the triggers
    of such a statement are mentioned in the query, so that what is known of them is found whatever part of the goal is looked at."""
    if z3.is_and(g):
        return [y for x in g.children() for y in split(x)]
    if z3.is_implies(g):
        return [(h, z3.Implies(g.arg(0), y)) for h, y in split(g.arg(1))]
    if z3.is_quantifier(g) and g.is_forall():
        vs = []
        for i in range(g.num_vars()):
            _seen[0] += 1
            vs.append(z3.Const(f'{g.var_name(i)}any{_seen[0]}', g.var_sort(i)))
        inst = lambda e: z3.substitute_vars(e, *reversed(vs))
        pats = [inst(c) for i in range(g.num_patterns()) for c in g.pattern(i).children()]
        return [(h + [seen(p) for p in pats], y) for h, y in split(inst(g.body()))]
    return [([], g)]


def parallel(n, f, items, deadline=None):
    """f(item) in n forked children; results (picklable) in order. A child that dies loses its items (None)."""
    res = [None] * len(items)
    if deadline is None and (n <= 1 or len(items) <= 1):
        return [f(x) for x in items]
    kids = []
    for w in range(min(n, len(items))):
        r, wr = os.pipe()
        pid = os.fork()
        if pid == 0:
            os.close(r)
            if deadline is not None:
                os.setpgid(0, 0)
            out = []
            try:
                with os.fdopen(wr, 'wb') as fh:
                    for i in range(w, len(items), n):
                        try:
                            pickle.dump((i, f(items[i])), fh)
                        except Exception as ex:
                            pickle.dump((i, ex.__class__.__name__ + ': ' + str(ex)[:300]), fh)
                        fh.flush()
            finally:
                os._exit(0)
        os.close(wr)
        kids.append((pid, r))
    import threading

    def rd(fd):
        with os.fdopen(fd, 'rb') as fh:
            while True:
                try:
                    i, v = pickle.load(fh)
                    res[i] = v
                except EOFError:
                    return
                except Exception:
                    return
    ths = [threading.Thread(target=rd, args=(r,)) for _, r in kids]
    for t in ths:
        t.start()
    for t in ths:
        t.join(None if deadline is None else max(0, deadline - time.time()))
    if deadline is not None:
        for pid, _ in kids:
            try:
                os.killpg(pid, signal.SIGKILL)
            except OSError:
                pass
        for t in ths:
            t.join(5)
    for pid, _ in kids:
        try:
            os.waitpid(pid, 0)
        except ChildProcessError:
            pass
    return res
