#!/usr/bin/env python3-vt
"""Decides one property on /repo's current tree.

  check.py ID [--thorough]      exit 0: held on everything explored; exit 1 + VIOLATION line: broken
  check.py ID --replay FILE     runs a recorded failing input again
  check.py --build              builds what the checks share (exporter, harness)

1. The contracts and lemmas that carry the property are verified against the current source (vcgen/).
2. The property's generators (native/) run against the current build: they look for a failing input when an obligation
   fails, and they are the bounded stand-in for what no contract reaches. They never count as proved.
"""
import hashlib, json, os, re, shutil, subprocess, sys, tempfile, threading, time
from concurrent.futures import ThreadPoolExecutor

VERIF = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, os.path.join(VERIF, 'vcgen'))
REPO = os.environ.get('VERIF_REPO', '/repo')
BUILD = os.environ.get('VERIF_BUILD', os.path.join(VERIF, 'build'))
NPROC = min(8, os.cpu_count() or 1)

MODES = {'C06': ['C06parse', 'C06add'], 'C19': ['C19parse', 'C19copy', 'C19const']}
FLAGS = ['-std=c++20', '-O1', '-g1', '-w', '-fsanitize=address,undefined', '-fno-sanitize-recover=all']

RULES = {
    'parse': 'random parser definitions (styles, flags, counts, sub-commands, callbacks, settings) and command lines biased towards the '
             'definition and towards the mechanism of the property; each is parsed by the real library and by an independent reference '
             'model of the documented behaviour and everything observable is compared; trivial: empty command line or a definition '
             'without any element',
    'C04': 'random flag sets with small alphabets; acceptance is compared with pairwise comparison; trivial: fewer than two flags',
    'C05': 'pairs and triples of strings through lookups of options and commands; compared with a fold to lower case',
    'C10': 'random number texts near the limits of each type; compared with the C library on the whole text',
    'C11': 'random values and separators; compared with a direct definition of splitting',
    'texts': 'random texts, widths, indentations, tabs and rules; the output is compared with the rules of the property',
    'C06add': 'random sequences of good and bad elements added to a parser or command; trivial: no bad element',
    'C19copy': 'random definitions; elements are copied in random ways and the originals changed afterwards; every property, help text, '
               'parse result and callback is compared with elements that were never copied',
    'C19const': 'random definitions; a const parser is used several times and compared with a fresh non-const parser each time',
    'C20': 'every public member function on objects that lost their content in random ways, and on fresh ones',
    'C18': 'random values and filters given to ParsedArguments::filter',
}


def rule_of(mode):
    if mode in RULES:
        return RULES[mode]
    return RULES['texts' if mode in ('C14', 'C15', 'C16', 'C17') else 'parse']


def read(p):
    with open(p, 'rb') as f:
        return f.read()


def files_below(d, exts):
    r = []
    for root, _, names in os.walk(d):
        r += [os.path.join(root, n) for n in names if n.endswith(exts)]
    return sorted(r)


def build_harness():
    """Compiles the library's sources and the harness; objects are kept under the hash of everything they depend on."""
    obj = os.path.join(BUILD, 'obj')
    os.makedirs(obj, exist_ok=True)
    src = os.path.join(REPO, 'src/Argos')
    lib = files_below(src, ('.cpp',))
    nat = sorted(f for f in files_below(os.path.join(VERIF, 'native'), ('.cpp',)))
    h = hashlib.sha256(' '.join(FLAGS).encode())
    for f in files_below(os.path.join(REPO, 'include'), ('.hpp', '.h')) + files_below(src, ('.hpp', '.h', '.ipp')):
        h.update(f.encode() + b'\0' + read(f))
    lib_base = h.copy()
    for f in files_below(os.path.join(VERIF, 'native'), ('.hpp',)):
        h.update(f.encode() + b'\0' + read(f))
    jobs = []
    for f in lib + nat:
        k = (lib_base if f in lib else h).copy()
        k.update(f.encode() + b'\0' + read(f))
        jobs.append((f, os.path.join(obj, k.hexdigest()[:32] + '.o')))

    def comp(j):
        f, o = j
        if not os.path.exists(o):
            tmp = o + '.%d' % os.getpid()
            r = subprocess.run(['clang++-18', *FLAGS, '-I' + REPO + '/include', '-I' + REPO + '/src', '-I' + src,
                                '-I' + VERIF + '/native', '-c', f, '-o', tmp], capture_output=True, text=True)
            if r.returncode:
                return f + ': ' + r.stderr[-1500:]
            os.rename(tmp, o)
        return ''
    with ThreadPoolExecutor(NPROC) as ex:
        errs = [e for e in ex.map(comp, sorted(jobs, key=lambda j: -os.path.getsize(j[0]))) if e]
    if errs:
        return None, errs[0]
    k = hashlib.sha256('\n'.join(sorted(o for _, o in jobs)).encode()).hexdigest()[:32]
    exe = os.path.join(BUILD, 'harness.' + k)
    if not os.path.exists(exe):
        tmp = exe + '.%d' % os.getpid()
        r = subprocess.run(['clang++-18', *FLAGS, *[o for _, o in jobs], '-o', tmp], capture_output=True, text=True)
        if r.returncode:
            return None, r.stderr[-1500:]
        os.rename(tmp, exe)
    return exe, ''


# ---------------------------------------------------------------------------------------------------- the proofs

class Proof:
    def __init__(self):
        self.results = []       # (FnResult, contract-or-lemma doc)
        self.extraction_error = None
        self.missing = []
        self.axiom_check = ''


def run_proofs(pid, tmp, thorough, out):
    import traceback
    try:
        import astdb, contracts, run, solve
        try:
            db = astdb.load(os.path.join(tmp, 'ast'))
        except Exception as e:
            out.extraction_error = str(e)[-800:]
            return
        jobs = []
        for q, cs in contracts.REG.items():
            for c in cs:
                if not c.verify or pid not in c.props:
                    continue
                ns = run.nodes_for(db, c)
                if not ns:
                    out.missing.append(q)
                for n in ns:
                    jobs.append((c, n))
        for l in contracts.LEMMAS:
            if pid in l.props:
                jobs.append((l, None))
        if not jobs:
            return
        jobs.sort(key=lambda j: -getattr(j[0], 'cost', 1))
        each = max(1, min(NPROC, (2 * NPROC + len(jobs) - 1) // len(jobs)))

        def go(j):
            c, n = j
            return run.verify_lemma(c, not thorough) if n is None else run.verify_fn(db, c, n, each, 900 if thorough else 150, not thorough)
        for j, r in zip(jobs, solve.parallel(NPROC, go, jobs, deadline=time.time() + (3000 if thorough else 420))):
            if not isinstance(r, run.FnResult):
                x = run.FnResult(getattr(j[0], 'q', None) or 'lemma: ' + j[0].name)
                x.error = 'no result: ' + str(r)
                r = x
            out.results.append(r)
    except Exception as e:
        out.extraction_error = 'generator failed: ' + ''.join(traceback.format_exception(e))[-1500:]


SOFT = ('invariant', 'decreases', 'loop', 'cover')


def soft(o):
    """Obligations that only serve the proof: that one fails shows that the proof no longer fits, not that the property is broken."""
    return any(s in o[1] for s in SOFT)


# ---------------------------------------------------------------------------------------------------- the exploration

def run_mode(exe, mode, seed, seconds, tmp, extra=()):
    d = os.path.join(tmp, 'run')
    os.makedirs(d, exist_ok=True)
    env = dict(os.environ, ASAN_OPTIONS='detect_leaks=0:abort_on_error=0:handle_abort=1:print_summary=1', UBSAN_OPTIONS='print_stacktrace=0')
    try:
        r = subprocess.run([exe, mode, '--seed', str(seed), '--seconds', str(seconds), '--shards', str(NPROC), '--dir', d, *extra],
                           capture_output=True, cwd=d, env=env, timeout=seconds * 2 + 120)
    except subprocess.TimeoutExpired:
        return dict(mode=mode, fails=[], evals=0, trivial=0, distinct=0, samples=[], dead='the harness did not end')
    text = r.stdout.decode('utf-8', 'replace')
    res = dict(mode=mode, fails=[], evals=0, trivial=0, distinct=0, samples=[], dead='', stderr=r.stderr.decode('utf-8', 'replace')[-4000:])
    for m in re.finditer(r'^FAIL (\S+) (\d+) (\d+)\n(.*?)^ENDFAIL$', text, re.M | re.S):
        res['fails'].append(dict(mode=m[1], seed=int(m[2]), index=int(m[3]), text=m[4][:20000]))
    for k, n in (('EVALUATIONS', 'evals'), ('TRIVIAL', 'trivial'), ('DISTINCT', 'distinct')):
        m = re.search('^%s (\\d+)$' % k, text, re.M)
        if m:
            res[n] = int(m[1])
        elif not res['fails']:
            res['dead'] = 'the harness ended early: ' + res['stderr'][-300:]
    res['samples'] = [l[7:] for l in text.split('\n') if l.startswith('SAMPLE ')][:3]
    return res


def known_findings():
    """Lines 'finding: property=ID mode=MODE match=REGEX what' suppress a failing input; 'fixed:' lines suppress nothing."""
    r = []
    p = os.path.join(VERIF, 'known_findings.txt')
    if os.path.exists(p):
        for l in open(p):
            m = re.match(r'finding: property=(\S+) match=/(.*)/ (.*)', l.strip())
            if m:
                r.append((m[1], re.compile(m[2], re.S), m[3]))
    return r


# ---------------------------------------------------------------------------------------------------- the decision

def level_of(pid):
    try:
        for c in json.load(open(os.path.join(VERIF, 'MANIFEST.json')))['checks']:
            if c['property'] == pid:
                return c['level']
    except Exception:
        pass
    return 'other'


def main():
    args = sys.argv[1:]
    if args and args[0] == '--build':
        import astdb
        astdb.build_exporter()
        exe, err = build_harness()
        print(exe or err)
        return 0
    pid = args[0]
    thorough = '--thorough' in args or os.environ.get('VERIF_TIER') == 'thorough'
    seed = int(os.environ.get('VERIF_SEED', '1') or 1)
    t0 = time.time()
    tmp = tempfile.mkdtemp(prefix='argos-check.')
    try:
        if '--replay' in args:
            return replay(args[args.index('--replay') + 1], tmp)
        return check(pid, thorough, seed, t0, tmp)
    finally:
        shutil.rmtree(tmp, ignore_errors=True)


def replay(path, tmp):
    d = json.load(open(path))
    if 'index' not in d:
        print(d.get('text', ''))
        return 1
    exe, err = build_harness()
    if not exe:
        print(err)
        return 2
    r = run_mode(exe, d['mode'], d['seed'], 60, tmp, ['--only', str(d['index']), '--cases', '1'])
    for f in r['fails']:
        print(f['text'])
    print('FAILS' if r['fails'] else 'PASSES')
    return 1 if r['fails'] else 0


def check(pid, thorough, seed, t0, tmp):
    tier = 'thorough' if thorough else 'quick'
    modes = MODES.get(pid, [pid])
    proof = Proof()
    built = [None, '']

    def b():
        built[0], built[1] = build_harness()
    import astdb
    th = threading.Thread(target=b)
    th.start()
    astdb.build_exporter()
    th.join()
    run_proofs(pid, tmp, thorough, proof)
    exe, err = built
    refuted, undecided, soft_failed = [], [], []
    for r in proof.results:
        if r.error:
            undecided.append((r.q, r.error))
        for u in r.unattached:
            undecided.append((r.q, 'annotation without a place: %s' % (u,)))
        for o in r.failed():
            if o[2] == 'refuted' and not soft(o) and not r.error and not r.unattached:
                refuted.append((r, o))
            elif soft(o):
                soft_failed.append((r, o))
            else:
                undecided.append((r.q, '%s: %s (%s)' % (o[2], o[0], o[1])))
    # A failed invariant makes what is proved from it meaningless, the function is then left to the exploration.
    broken = {r.q for r, _ in soft_failed}
    for r, o in soft_failed:
        undecided.append((r.q, 'proof no longer fits: %s (%s, %s)' % (o[0], o[1], o[2])))
    undecided += [(r.q, 'refuted, in a function whose invariants do not hold: ' + o[0]) for r, o in refuted if r.q in broken]
    refuted = [x for x in refuted if x[0].q not in broken]
    for q in proof.missing:
        undecided.append((q, 'the function is not there'))
    if proof.extraction_error:
        undecided.append(('extraction', proof.extraction_error))
    # The exploration: longer where a proof is missing, since it then decides alone.
    runs = []
    seconds = (240 if thorough else 16) / len(modes)
    if not thorough and (refuted or undecided):
        seconds = 60 / len(modes)
    if exe:
        for m in modes:
            runs.append(run_mode(exe, m, seed, seconds, tmp))
    dead = [r['dead'] for r in runs if r['dead']] or ([] if exe else ['the harness does not build: ' + err])
    fails = [f for r in runs for f in r['fails']]
    listed, unlisted = [], []
    kf = known_findings()
    for f in fails:
        for p, rx, what in kf:
            if p == pid and rx.search(f['text']):
                listed.append(what)
                break
        else:
            unlisted.append(f)
    for w in sorted(set(listed)):
        print('KNOWN-FINDING: property=%s %s' % (pid, w))
    # evidence
    obls = sum(len(r.obls) + r.trivial for r in proof.results)
    done = sum(sum(o[2] == 'proved' for o in r.obls) + r.trivial for r in proof.results)
    solvers = {}
    for r in proof.results:
        for o in r.obls:
            if o[2] == 'proved':
                solvers[o[4]] = solvers.get(o[4], 0) + 1
    ok_fn = [r for r in proof.results if not r.error and not r.unattached and not r.failed()]
    assumed = sorted({a for r in proof.results for a in r.assumed})
    library = sorted({a for r in proof.results for a in r.library})
    try:
        import contracts
        verified = {q for q, cs in contracts.REG.items() for c in cs if c.verify}
    except Exception:
        verified = set()
    unverified = [a for a in assumed if a not in verified]
    violations = 0
    lines = []
    rp = os.path.join(BUILD, 'replay')
    os.makedirs(rp, exist_ok=True)
    if unlisted:
        f = unlisted[0]
        path = os.path.join(rp, '%s.json' % pid)
        f = dict(f, property=pid, how='check.py %s --replay %s' % (pid, path),
                 failed_obligations=[r.q + ': ' + o[0] for r, o in refuted])
        json.dump(f, open(path, 'w'), indent=1)
        print(f['text'][:3000])
        lines.append('VIOLATION property=%s replay=%s' % (pid, path))
        violations = len(unlisted)
    elif refuted:
        path = os.path.join(rp, '%s.json' % pid)
        text = '\n'.join('%s: obligation "%s" (%s, line %s of the function\'s file) is not valid; solver: %s\n%s'
                         % (r.q, o[0], o[1], o[5], o[4], (o[6] or '')[:2000]) for r, o in refuted)
        json.dump(dict(property=pid, text=text), open(path, 'w'), indent=1)
        print(text[:3000])
        lines.append('VIOLATION property=%s replay=%s no-failing-input-found' % (pid, path))
        violations = len(refuted)
    bounded = ['%s: %s' % u for u in undecided]
    ev = dict(
        property=pid, tier=tier, seed=seed, level=level_of(pid),
        coverage=dict(
            explanation='Contracts on the real functions, verified for all inputs (obligations/discharged, by function below), and a bounded '
                        'exploration of the property as a whole on the real library (evaluations), which also searches a failing input '
                        'when an obligation fails. Only the former is proof.',
            obligations=obls, discharged=done,
            checker_cmd='python3-vt check.py ' + pid,
            functions_under_contract=[dict(function=r.q, obligations=len(r.obls) + r.trivial, discharged=sum(o[2] == 'proved' for o in r.obls) + r.trivial,
                                           by_evaluation=r.trivial, paths=r.paths, seconds=round(r.wall, 2), inlined=r.inlined,
                                           callee_contracts=r.assumed) for r in proof.results if not r.q.startswith('lemma')],
            lemmas=[r.q for r in ok_fn if r.q.startswith('lemma')],
            back_ends=dict(solvers, evaluation=sum(r.trivial for r in proof.results)),
            solver_seconds=round(sum(o[3] for r in proof.results for o in r.obls), 2),
            undischarged=bounded,
            trusted_base=['clang 18 front end', 'vcgen (exporter, engine, theory)', 'z3', 'cvc5']
                         + ['library model: ' + l for l in library] + ['contract of unverified function: ' + a for a in unverified],
            bounded='the exploration covers random cases only, within the sizes its generators produce; seconds per mode: %.0f' % seconds,
            evaluations=sum(r['evals'] for r in runs),
            distinct_nontrivial=sum(r['distinct'] for r in runs),
            trivial=sum(r['trivial'] for r in runs),
            rule='; '.join(m + ': ' + rule_of(m) for m in modes),
            samples=[s for r in runs for s in r['samples']] or ['none'],
        ),
        assumptions=['machine integers: size_t and int arithmetic is checked for wrap-around by the engine only where the contract says so; '
                     'containers hold fewer than 2^62 elements',
                     'memory allocation does not fail; callbacks do not re-enter the parser'],
        wall_s=round(time.time() - t0, 2), violations=violations)
    os.makedirs(os.path.join(VERIF, 'evidence'), exist_ok=True)
    json.dump(ev, open(os.path.join(VERIF, 'evidence', pid + '.json'), 'w'), indent=1)
    for u in bounded[:20]:
        print('UNDECIDED (bounded exploration stands in): ' + u[:300])
    print('%s %s: %d functions/lemmas verified of %d, %d of %d obligations; %d cases explored; %.0f s'
          % (pid, tier, len(ok_fn), len(proof.results), done, obls, ev['coverage']['evaluations'], time.time() - t0))
    for l in lines:
        print(l)
    if lines:
        return 1
    if dead:
        print('NO ANSWER: ' + dead[0])
        return 2
    return 0


if __name__ == '__main__':
    if os.environ.get('PYTHONHASHSEED') != '0':
        os.environ['PYTHONHASHSEED'] = '0'
        os.execv(sys.executable, [sys.executable] + sys.argv)
    sys.stdout.reconfigure(line_buffering=True)
    sys.exit(main())
