"""Run-time of the checks: sandboxed import of the code under test, counting of
what was explored, parallel exploration, evidence, known findings, replay."""
import contextlib
import hashlib
import io
import itertools
import json
import os
import signal
import sys
import time
import traceback
import warnings

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('VERIF_REPO', '/repo')
EVID = os.path.join(VERIF, 'evidence')
FINDINGS = os.path.join(VERIF, 'known_findings.json')


class Violation(Exception):
    """The property is broken; args[0] says how."""


class Hang(BaseException):
    """The code under test does not come back."""


class HarnessError(Exception):
    """The machinery (not the code under test) failed."""


# --------------------------------------------------------------------------
# exploration context: one per worker chunk, merged by the parent
# --------------------------------------------------------------------------
def canon(x):
    """Canonical, order independent for dicts, 10 significant digits."""
    import numpy as np
    if isinstance(x, (bool, int, str, type(None))):
        return repr(x)
    if isinstance(x, (float, np.floating)):
        return '%.10g' % x
    if isinstance(x, np.ndarray):
        return 'a' + canon(x.tolist())
    if isinstance(x, (list, tuple)):
        return '[' + ','.join(canon(i) for i in x) + ']'
    if isinstance(x, (set, frozenset)):
        return '{' + ','.join(sorted(canon(i) for i in x)) + '}'
    if isinstance(x, dict):
        return '{' + ','.join(sorted(canon(k) + ':' + canon(v)
                                     for k, v in x.items())) + '}'
    if isinstance(x, np.integer):
        return repr(int(x))
    return repr(x)


def digest(x):
    return hashlib.blake2b(canon(x).encode(), digest_size=8).digest()


class Ctx:
    def __init__(self, tier):
        self.tier = tier
        self.thorough = tier == 'thorough'
        self.states = set()
        self.nontrivial = set()
        self.transitions = 0
        self.traces = 0
        self.evaluations = 0
        self.samples = []
        self.extra = {}

    # counting ---------------------------------------------------------
    def state(self, *obj):
        """A canonical state (of the code under test or of the model)."""
        h = digest(obj)
        new = h not in self.states
        self.states.add(h)
        return new

    def step(self, n=1):
        """An operation executed on the real code / an environment answer."""
        self.transitions += n

    def trace(self, n=1):
        """A complete execution of the real code compared with the oracle."""
        self.traces += n

    def evaluation(self, *key):
        """An execution on an enumerated input; key identifies it when it is
        non-trivial (None otherwise)."""
        self.evaluations += 1
        if key:
            self.nontrivial.add(digest(key))

    def count(self, name, n=1):
        self.extra[name] = self.extra.get(name, 0) + n

    def sample(self, s, limit=4):
        if len(self.samples) < limit:
            self.samples.append(s)

    # judging ----------------------------------------------------------
    def check(self, cond, msg, *detail):
        if not cond:
            raise Violation(msg + (' ' + ' '.join(_short(d) for d in detail)
                                   if detail else ''))

    def close(self, a, b, msg, rel=1e-9, abs_=1e-9):
        import numpy as np
        a = np.asarray(a, dtype=float)
        b = np.asarray(b, dtype=float)
        ok = a.shape == b.shape and bool(
            np.all(np.abs(a - b) <= abs_ + rel * np.maximum(np.abs(a), np.abs(b))))
        if not ok:
            raise Violation('%s: got %s expected %s' % (msg, _short(a.tolist()), _short(b.tolist())))


def _short(x, n=400):
    s = x if isinstance(x, str) else repr(x)
    return s if len(s) <= n else s[:n] + '...'


# --------------------------------------------------------------------------
# the code under test
# --------------------------------------------------------------------------
_LIB = {}


def load():
    """Import ghedt from the working tree; returns a namespace of fixtures."""
    if _LIB:
        return _LIB['ns']
    if REPO in sys.path:
        sys.path.remove(REPO)
    sys.path.insert(0, REPO)
    warnings.simplefilter('ignore')
    # the dependencies first (from their byte code caches), then the code under
    # test from its source, whatever byte code lies beside it
    import cv2, numpy, pandas, pygfunction  # noqa
    import matplotlib.pyplot, scipy.interpolate, scipy.optimize  # noqa
    import scipy.linalg.lapack  # noqa
    prefix = sys.pycache_prefix
    sys.pycache_prefix = '/nonexistent/pycache'
    sys.dont_write_bytecode = True
    try:
        warnings.simplefilter('ignore')
        import ghedt
        import ghedt.peak_load_analysis_tool  # noqa
    finally:
        sys.pycache_prefix = prefix
    f = os.path.realpath(ghedt.__file__)
    if not f.startswith(os.path.realpath(REPO) + os.sep):
        raise HarnessError('ghedt imported from %s, not from %s' % (f, REPO))
    from . import fixtures
    ns = fixtures.Fixtures()
    _LIB['ns'] = ns
    return ns


@contextlib.contextmanager
def quiet():
    """Swallow what the code prints and warns."""
    with contextlib.redirect_stdout(io.StringIO()), \
            contextlib.redirect_stderr(io.StringIO()), \
            warnings.catch_warnings():
        warnings.simplefilter('ignore')
        yield


# --------------------------------------------------------------------------
# environment choices: stateless exploration by re-execution
# --------------------------------------------------------------------------
class Chooser:
    """Replays a prefix of choices, then takes the first alternative."""

    def __init__(self, prefix=()):
        self.prefix = list(prefix)
        self.taken = []
        self.arity = []

    def choose(self, n):
        k = len(self.taken)
        c = self.prefix[k] if k < len(self.prefix) else 0
        if c >= n:
            raise HarnessError('choice out of range: the execution is not '
                               'deterministic')
        self.taken.append(c)
        self.arity.append(n)
        return c


def explore(run, max_executions=None, first=()):
    """Depth first over every choice sequence of `run(chooser)`.  `first` fixes
    a prefix (used to split the tree over workers)."""
    prefix = list(first)
    n = 0
    while True:
        ch = Chooser(prefix)
        run(ch)
        n += 1
        if max_executions is not None and n >= max_executions:
            raise HarnessError('bound on executions reached')
        # next sequence in lexicographic order
        i = len(ch.taken) - 1
        while i >= len(first) and ch.taken[i] + 1 >= ch.arity[i]:
            i -= 1
        if i < len(first):
            return n
        prefix = ch.taken[:i] + [ch.taken[i] + 1]


def isolated(fn, *args):
    """fn(*args) in a child process: what it leaves behind in the code under
    test (caches, class attributes) does not reach the caller."""
    import pickle
    r, w = os.pipe()
    pid = os.fork()
    if pid == 0:
        code = 1
        try:
            os.close(r)
            try:
                out = (True, fn(*args))
            except Exception as e:
                out = (False, (type(e).__name__, str(e)))
            with os.fdopen(w, 'wb') as f:
                pickle.dump(out, f)
            code = 0
        finally:
            os._exit(code)
    os.close(w)
    try:
        with os.fdopen(r, 'rb') as f:
            data = f.read()
    finally:
        os.waitpid(pid, 0)
    if not data:
        raise HarnessError('the isolated process gave no answer')
    ok, val = pickle.loads(data)
    if not ok:
        raise Failed('%s: %s' % val)
    return val


class Failed(Exception):
    """The code under test raised in an isolated process."""


# --------------------------------------------------------------------------
# running a check
# --------------------------------------------------------------------------
def _work(args):
    modname, chunk, tier = args
    import importlib
    mod = importlib.import_module('checks.' + modname)
    lib = load()
    ctx = Ctx(tier)
    bad = []
    err = None
    hang = False

    def expired(*a):
        raise Hang()
    signal.signal(signal.SIGALRM, expired)
    limit = 240 if tier == 'quick' else 3600
    for case in chunk:
        try:
            signal.alarm(limit)
            lib.mat = case.get('mat', 0)
            try:
                with quiet():
                    mod.run_case(case, ctx, lib)
            finally:
                lib.mat = 0
                signal.alarm(0)
        except Hang:
            bad.append((case, 'no result within %d s' % limit))
            hang = True
            break
        except Violation as e:
            bad.append((case, str(e)))
            if len(bad) >= 50:
                break
        except HarnessError:
            err = (case, traceback.format_exc())
            break
        except Exception:
            # the code under test failed where the property says it works
            bad.append((case, 'unexpected exception: '
                        + _short(traceback.format_exc()[-900:], 900)))
            if len(bad) >= 50:
                break
    return dict(states=ctx.states, nontrivial=ctx.nontrivial,
                transitions=ctx.transitions, traces=ctx.traces,
                evaluations=ctx.evaluations, samples=ctx.samples,
                extra=ctx.extra, bad=bad, err=err, hang=hang)


def _findings(prop):
    try:
        with open(FINDINGS) as f:
            d = json.load(f)
    except FileNotFoundError:
        return []
    return [e for e in d.get('findings', []) if e['property'] == prop]


def _matches(entry, case, msg):
    """A known finding names the failing case and a piece of the message."""
    sel = entry.get('case', {})
    if not isinstance(case, dict):
        return False
    if not all(case.get(k) == v for k, v in sel.items()):
        return False
    return entry.get('message', '') in msg


def _pin_threads():
    for v in ('OMP_NUM_THREADS', 'OPENBLAS_NUM_THREADS', 'MKL_NUM_THREADS'):
        os.environ[v] = '1'
    os.environ['MPLBACKEND'] = 'Agg'
    sys.dont_write_bytecode = True


def main(modname, argv=None):
    argv = list(sys.argv[2:] if argv is None else argv)
    _pin_threads()
    import importlib
    import multiprocessing as mp
    t0 = time.time()
    tier = os.environ.get('VERIF_TIER', 'quick')
    if '--thorough' in argv:
        tier = 'thorough'
    if tier not in ('quick', 'thorough'):
        tier = 'quick'
    try:
        seed = int(os.environ.get('VERIF_SEED', '1'))
    except ValueError:
        seed = 1
    # before the check, which imports the code under test through its fixtures
    load()
    mod = importlib.import_module('checks.' + modname)
    prop = mod.PROPERTY

    if '--replay' in argv:
        with open(argv[argv.index('--replay') + 1]) as f:
            case = json.load(f)['case']
        r = _work((modname, [case], tier))
        if r['err']:
            print(r['err'][1])
            return 2
        for _, m in r['bad']:
            print('REPRODUCED property=%s %s' % (prop, m))
        return 1 if r['bad'] else 0

    cases = list(mod.cases(tier, seed))
    # the same case twice would only inflate the counts
    nproc = int(os.environ.get('VERIF_JOBS', '8'))
    nproc = max(1, min(nproc, os.cpu_count() or 1, len(cases)))
    nch = max(1, min(len(cases), nproc * getattr(mod, 'CHUNKS_PER_WORKER', 12)))
    chunks = [cases[i::nch] for i in range(nch)]
    tot = Ctx(tier)
    bad, errs = [], []
    work = [(modname, c, tier) for c in chunks]
    if nproc == 1:
        it = map(_work, work)
        pool = None
    else:
        # every chunk starts from a process in which the code under test was
        # imported but not yet used
        pool = mp.get_context('fork').Pool(nproc, maxtasksperchild=1)
        it = pool.imap_unordered(_work, work)
    for r in it:
        tot.states |= r['states']
        tot.nontrivial |= r['nontrivial']
        tot.transitions += r['transitions']
        tot.traces += r['traces']
        tot.evaluations += r['evaluations']
        for s in r['samples']:
            tot.sample(s)
        for k, v in r['extra'].items():
            tot.extra[k] = tot.extra.get(k, 0) + v
        bad += r['bad']
        if r['hang']:
            if pool:
                pool.terminate()
            break
        if r['err']:
            errs.append(r['err'])
    if pool:
        pool.close()
        pool.join()

    known = _findings(prop)
    hit = {}
    new = []
    for case, msg in bad:
        for n, e in enumerate(known):
            if _matches(e, case, msg):
                hit.setdefault(n, (case, msg))
                break
        else:
            new.append((case, msg))

    level = mod.LEVEL
    cov = {}
    if level == 'model_checking':
        cov = dict(states=len(tot.states), transitions=tot.transitions,
                   traces_validated_against_impl=tot.traces)
    else:
        cov = dict(evaluations=tot.evaluations,
                   distinct_nontrivial=len(tot.nontrivial), rule=mod.RULE)
    cov['samples'] = tot.samples or [repr(cases[0])[:300]]
    cov['cases'] = len(cases)
    cov['exhaustive'] = True
    cov['bounds'] = mod.BOUNDS[tier] if isinstance(mod.BOUNDS, dict) else mod.BOUNDS
    for k, v in sorted(tot.extra.items()):
        cov[k] = v
    ev = dict(property=prop, tier=tier, seed=seed, level=level, coverage=cov,
              assumptions=list(getattr(mod, 'ASSUMPTIONS', [])),
              wall_s=round(time.time() - t0, 3), violations=len(new))
    os.makedirs(EVID, exist_ok=True)
    tmp = os.path.join(EVID, '.%s.%d.tmp' % (prop, os.getpid()))
    with open(tmp, 'w') as f:
        json.dump(ev, f, indent=1, sort_keys=True, default=str)
    os.replace(tmp, os.path.join(EVID, prop + '.json'))

    for n, e in enumerate(known):
        if n in hit:
            print('KNOWN-FINDING: property=%s %s' % (prop, e['what']))
    if errs:
        print('ERROR in the machinery of %s' % prop)
        print(errs[0][0])
        print(errs[0][1])
    if new:
        rdir = os.path.join(EVID, 'replay')
        os.makedirs(rdir, exist_ok=True)
        for k, (case, msg) in enumerate(new[:5]):
            p = os.path.join(rdir, '%s-%d.json' % (prop, k))
            with open(p, 'w') as f:
                json.dump(dict(property=prop, case=case, message=msg), f,
                          indent=1, default=str)
            print(msg[:1500])
            print('VIOLATION property=%s replay=%s' % (prop, p))
        print('%d failing case(s)' % len(new))
        return 1
    if errs:
        return 2
    # vacuity: a check that explored nothing has decided nothing
    floor = getattr(mod, 'FLOOR', 1)
    n = tot.traces if level == 'model_checking' else tot.evaluations
    if n < floor:
        print('ERROR: only %d executions explored (floor %d)' % (n, floor))
        return 2
    print('OK property=%s %s wall=%.1fs' % (
        prop, ' '.join('%s=%s' % (k, v) for k, v in cov.items()
                       if isinstance(v, int)), time.time() - t0))
    return 0
