"""Loads the exported AST of /repo's current sources."""
import glob, json, os, re, subprocess, sys
from concurrent.futures import ThreadPoolExecutor

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
BUILD = os.environ.get('VERIF_BUILD', os.path.join(VERIF, 'build'))
REPO = os.environ.get('VERIF_REPO', '/repo')


class ExtractionError(Exception):
    pass


def build_exporter():
    so = os.path.join(BUILD, 'export.so')
    src = os.path.join(VERIF, 'vcgen/exporter/export.cpp')
    if os.path.exists(so) and os.path.getmtime(so) >= os.path.getmtime(src):
        return so
    os.makedirs(BUILD, exist_ok=True)
    flags = subprocess.check_output(['llvm-config-18', '--cxxflags'], text=True).split()
    flags = [f for f in flags if not f.startswith('-std=')]
    tmp = so + f'.{os.getpid()}'
    subprocess.check_call(['clang++-18', '-shared', '-fPIC', '-O1', '-fno-rtti', '-std=c++17', *flags, src, '-o', tmp])
    os.rename(tmp, so)
    return so


def export(outdir):
    """Exports every translation unit of the library; returns the JSON files."""
    so = build_exporter()
    os.makedirs(outdir, exist_ok=True)
    src = os.path.join(REPO, 'src/Argos')
    gen = os.path.join(outdir, 'gen')
    cpps = sorted(glob.glob(src + '/**/*.cpp', recursive=True))
    if not cpps:
        raise ExtractionError('no sources')

    def one(f):
        out = os.path.join(outdir, os.path.relpath(f, src).replace('/', '_') + '.json')
        P = ['-Xclang', '-plugin-arg-argos-export', '-Xclang']
        cmd = ['clang++-18', '-std=c++20', '-I' + REPO + '/include', '-I' + REPO + '/src/Argos', '-I' + gen, '-w',
               '-fsyntax-only', '-Xclang', '-load', '-Xclang', so, '-Xclang', '-plugin', '-Xclang', 'argos-export',
               *P, 'out=' + out, *P, 'root=' + REPO + '/src/', *P, 'root=' + REPO + '/include/', f]
        r = subprocess.run(cmd, capture_output=True, text=True)
        if r.returncode:
            raise ExtractionError(f'{f}: {r.stderr[-800:]}')
        return out
    with ThreadPoolExecutor(8) as ex:
        return list(ex.map(one, cpps))


def strip_targs(q):
    r = []
    d = 0
    i = 0
    while i < len(q):
        if q.startswith('operator', i) and d == 0:
            m = re.match(r'operator(<=>|->\*|->|<<=?|>>=?|<=|>=|<|>)', q[i:])
            if m:
                r.append(m.group(0))
                i += len(m.group(0))
                continue
        c = q[i]
        if c == '<':
            d += 1
        elif c == '>':
            d -= 1
        elif d == 0:
            r.append(c)
        i += 1
    return ''.join(r)


class DB:
    def __init__(self, files):
        self.fns = {}
        self.by_q = {}
        self.records = {}
        self.enums = {}
        self.unsupported = set()
        for f in files:
            d = json.load(open(f))
            self.records.update(d['records'])
            self.enums.update(d['enums'])
            self.unsupported |= set(d['unsupported'])
            for x in d['functions']:
                k = x['key']
                if x.get('internal'):
                    x['tu'] = os.path.basename(f)
                if k in self.fns and self.fns[k]['file'] != x['file']:
                    k = k + '@' + os.path.basename(x['file'])
                self.fns[k] = x
        for k, x in self.fns.items():
            self.by_q.setdefault(strip_targs(x['q']), []).append(x)

    def find(self, key):
        return self.fns.get(key)

    def lookup(self, q, nparams=None, pred=None):
        c = self.by_q.get(q, [])
        if nparams is not None:
            c = [x for x in c if len(x['params']) == nparams]
        if pred:
            c = [x for x in c if pred(x)]
        return c


_re = None


def load(outdir=None):
    outdir = outdir or os.path.join(BUILD, 'ast')
    return DB(export(outdir))
