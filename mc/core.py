"""Core of the explorer: closed environment, controlled randomness, stateless exploration, counters.

A check module defines
    cases(tier)        -> iterable of JSON-able dicts, simplest first: each is one complete bounded history /
                          configuration of the finite space the check enumerates
    run(case, ctx)     -> executes the case on the real code, compares with the reference model after every
                          step, raises Violation (or lets the library raise) when the property is broken
The runner executes *every* case.  Inside a case, ctx.explore(body) enumerates every sequence of environment
answers (random draws) that body meets, by depth first search over recorded choice prefixes.
"""
import os
import sys

for _v in ('OPENBLAS_NUM_THREADS', 'OMP_NUM_THREADS', 'MKL_NUM_THREADS', 'NUMBA_NUM_THREADS'):
    os.environ.setdefault(_v, '1')
os.environ.setdefault('MPLBACKEND', 'Agg')
if 'MPLCONFIGDIR' not in os.environ or not os.access(os.environ['MPLCONFIGDIR'], os.W_OK):
    import tempfile as _t
    os.environ['MPLCONFIGDIR'] = _t.mkdtemp(prefix='mcmpl')
    import atexit as _a, shutil as _s
    _mplpid = os.getpid()
    _a.register(lambda d=os.environ['MPLCONFIGDIR']: _s.rmtree(d, ignore_errors=True) if os.getpid() == _mplpid else None)
sys.dont_write_bytecode = True

SRC = os.environ.get('LOP_SRC', '/repo/src')       # LOP_SRC is only for trying the checks on scratch copies
sys.path[:] = [q for q in sys.path if not q.endswith('/repo/src')]
sys.path.insert(0, SRC)

import hashlib
import itertools
import random as _pyrandom
import signal
import warnings
warnings.filterwarnings('ignore')

import numpy as np
np.seterr(all='ignore')
import pdb


class Violation(Exception):
    """The property is broken on this execution.  key identifies the specific failing input / call site."""

    def __init__(self, msg, key=None):
        super().__init__(msg)
        self.key = key


class Hang(BaseException):
    """A case used up its CPU time allowance."""


class PdbTrap(Exception):
    """The library stopped in its debugger (it treats this as an internal error)."""


def _trap(*a, **k):
    raise PdbTrap('the library entered its debugger')


pdb.set_trace = _trap
pdb.Pdb.set_trace = _trap
sys.breakpointhook = _trap

# the rating acquisition integrates with a process pool (workers=-1); the integrand is pure, so the number of
# workers is not observable - run it in this process
import scipy.integrate as _si
_orig_quad_vec = _si.quad_vec


def _quad_vec(f, a, b, *args, **kw):
    if 'workers' in kw:
        kw['workers'] = 1
    return _orig_quad_vec(f, a, b, *args, **kw)


_si.quad_vec = _quad_vec


class _Null:
    def write(self, s):
        return len(s)

    def flush(self):
        pass


REAL_STDOUT = sys.stdout


def quiet():
    sys.stdout = _Null()


def loud():
    sys.stdout = REAL_STDOUT


quiet()
import types as _types
if os.environ.get('MC_STUB_APPROXCDF', '1') == '1':
    try:
        import approxcdf                                             # noqa
    except Exception:
        # not installed here: the optional dependency is replaced by the definition (scipy's exact mvn cdf)
        from scipy.stats import multivariate_normal as _mvn
        _m = _types.ModuleType('approxcdf')

        def _mvn_cdf(x, cov, mean=None, *a, **k):
            x = np.asarray(x, dtype=float)
            m = np.zeros(len(x)) if mean is None else np.asarray(mean, dtype=float)
            st = np.random.get_state()
            np.random.seed(0)
            try:
                return float(_mvn(mean=m, cov=np.asarray(cov, dtype=float), allow_singular=True, seed=0).cdf(x))
            finally:
                np.random.set_state(st)
        _m.mvn_cdf = _mvn_cdf
        sys.modules['approxcdf'] = _m
import lop                                                           # noqa
assert os.path.realpath(lop.__file__).startswith(os.path.realpath(SRC)), lop.__file__
loud()


# ----------------------------------------------------------------------------------------------- randomness
class Divergence(Exception):
    pass


class Chooser:
    """One execution's environment answers: replays prefix, then takes answer 0."""

    def __init__(self, prefix, fair_after=None):
        self.prefix = list(prefix)
        self.points = []            # (number of answers, taken, label)
        self.fair_after = fair_after
        self.tail = 12345

    def pick(self, n, label=''):
        i = len(self.points)
        if self.fair_after is not None and i >= self.fair_after:
            # fairness: a loop that redraws until it is content must not see the same answer for ever, so past
            # this many draws the answers rotate (a fixed pseudo random sequence, not explored)
            self.tail = (self.tail * 1103515245 + 12345) % (1 << 31)
            return (self.tail >> 12) % n
        c = self.prefix[i] if i < len(self.prefix) else 0
        if c >= n:
            raise Divergence('replayed answer %d of %d at point %d (%s)' % (c, n, i, label))
        self.points.append((n, c, label))
        return c

    @property
    def choices(self):
        return [c for _, c, _ in self.points]


DEFAULT_U = (0.02, 0.5, 0.97)


def _vec(pattern, shape):
    n = int(np.prod(shape)) if shape != () else 1
    if pattern == 'mid':
        v = 0.25 + 0.5 * ((np.arange(n) * 0.6180339887) % 1.0)
    elif pattern == 'low':
        v = 0.01 + 0.02 * ((np.arange(n) * 0.6180339887) % 1.0)
    elif pattern == 'high':
        v = 0.97 + 0.02 * ((np.arange(n) * 0.6180339887) % 1.0)
    elif pattern == 'up':
        v = (np.arange(n) + 0.5) / n
    elif pattern == 'down':
        v = 1.0 - (np.arange(n) + 0.5) / n
    else:
        raise KeyError(pattern)
    return v.reshape(shape)


class Env:
    """Replaces the module level random functions numpy.random.* / random.* by controlled choice points."""

    NP = ('random', 'rand', 'random_sample', 'ranf', 'sample', 'uniform', 'randint', 'choice', 'shuffle',
          'permutation', 'normal', 'randn', 'standard_normal', 'gamma', 'exponential', 'multivariate_normal')
    PY = ('random', 'shuffle', 'randint', 'randrange', 'choice', 'sample', 'uniform')

    def __init__(self, chooser, u=DEFAULT_U, vec=('mid',), z=(-1.0, 0.0, 1.0), max_enum=24, orders=False):
        self.c = chooser
        self.orders = orders        # vectors of at most four uniform draws come in every order
        self.u = u
        self.vec = vec
        self.z = z
        self.max_enum = max_enum
        self.log = []

    # -- answers
    def _u(self, size=None):
        if size is None or size == ():
            return float(self.u[self.c.pick(len(self.u), 'u')])
        if np.isscalar(size):
            size = (int(size),)
        size = tuple(int(s) for s in size)
        if self.orders and len(size) == 1 and 1 < size[0] <= 4:
            perms = list(itertools.permutations(range(size[0])))
            return (np.array(perms[self.c.pick(len(perms), 'uorder')]) + 0.5) / size[0]
        return _vec(self.vec[self.c.pick(len(self.vec), 'uvec')], size)

    def random(self, size=None):
        return self._u(size)

    def rand(self, *shape):
        return self._u(shape if shape else None)

    def uniform(self, low=0.0, high=1.0, size=None):
        return low + (np.asarray(high) - low) * self._u(size) if size is not None else low + (high - low) * self._u()

    def randint(self, low, high=None, size=None, dtype=int):
        if high is None:
            low, high = 0, low
        if high <= low:
            raise ValueError('low >= high')
        if size is None:
            return int(low + self.c.pick(int(high - low), 'randint'))
        n = int(np.prod(size))
        k = self.c.pick(min(int(high - low), self.max_enum), 'randintvec')
        return (low + (np.arange(n) + k) % int(high - low)).reshape(size)

    def _perms(self, n, k):
        """menu of ordered selections of k out of n: all of them when few, else rotations and reversals"""
        total = 1
        for i in range(k):
            total *= (n - i)
        if total <= self.max_enum:
            return list(itertools.permutations(range(n), k))
        menu = []
        for s in range(min(n, self.max_enum // 2)):
            rot = [(s + i) % n for i in range(n)]
            menu.append(tuple(rot[:k]))
            menu.append(tuple(rot[::-1][:k]))
        return list(dict.fromkeys(menu))

    def choice(self, a, size=None, replace=True, p=None):
        arr = np.arange(int(a)) if np.ndim(a) == 0 else np.asarray(a)
        if len(arr) == 0:
            raise ValueError("'a' cannot be empty")
        if p is not None:
            p = np.asarray(p, dtype=float)
            if p.shape != (len(arr),):
                raise ValueError("'a' and 'p' must have same size")
            if np.isnan(p).any() or (p < 0).any() or abs(p.sum() - 1) > 1e-6:
                raise ValueError('probabilities are not a distribution: %r' % (p,))
            self.log.append(('choice_p', [x.item() if hasattr(x, 'item') else x for x in arr], p.copy()))
            idx = [i for i in range(len(arr)) if p[i] > 0]
        else:
            idx = list(range(len(arr)))
        if size is None:
            return arr[idx[self.c.pick(len(idx), 'choice')]]
        n = int(np.prod(size))
        if replace:
            menu = [tuple((k + i) % len(idx) for i in range(n)) for k in range(min(len(idx), self.max_enum))]
            if n > 1:                   # draws with replacement repeat: everything when few, else pairs and constant draws
                if len(idx) ** n <= self.max_enum:
                    menu += itertools.product(range(len(idx)), repeat=n)
                else:
                    menu += [tuple(i // 2 % len(idx) for i in range(n))] + [(k,) * n for k in range(min(len(idx), 3))]
                menu = list(dict.fromkeys(menu))
            return arr[[idx[i] for i in menu[self.c.pick(len(menu), 'choicevec')]]].reshape(size)
        if n > len(idx):
            raise ValueError('Cannot take a larger sample than population when replace is False')
        menu = self._perms(len(idx), n)
        sel = menu[self.c.pick(len(menu), 'choiceperm')]
        return arr[[idx[i] for i in sel]].reshape(size)

    def shuffle(self, x):
        menu = self._perms(len(x), len(x))
        sel = menu[self.c.pick(len(menu), 'shuffle')]
        y = [x[i] for i in sel]
        for i, v in enumerate(y):
            x[i] = v

    def permutation(self, x):
        arr = np.arange(x) if np.ndim(x) == 0 else np.array(x)
        menu = self._perms(len(arr), len(arr))
        return arr[list(menu[self.c.pick(len(menu), 'permutation')])]

    def normal(self, loc=0.0, scale=1.0, size=None):
        shape = np.broadcast(np.asarray(loc), np.asarray(scale)).shape if size is None else size
        z = self.z[self.c.pick(len(self.z), 'normal')]
        n = int(np.prod(shape))
        zz = z if shape == () else (z * np.where(np.arange(n) % 2 == 0, 1.0, -0.5)).reshape(shape)
        self.log.append(('normal', np.array(loc, dtype=float), np.array(scale, dtype=float), z, np.ravel(zz)))
        if shape == ():
            return float(loc + scale * z)
        return np.asarray(loc) + np.asarray(scale) * zz

    def randn(self, *shape):
        return self.normal(size=shape) if shape else self.normal()

    def standard_normal(self, size=None):
        return self.normal(size=size)

    def gamma(self, shape, scale=1.0, size=None):
        if np.ndim(shape) or np.ndim(scale):
            sh, sc = np.broadcast_arrays(np.asarray(shape, dtype=float), np.asarray(scale, dtype=float))
            return np.array([self.gamma(float(a), float(b)) for a, b in zip(sh.ravel(), sc.ravel())]).reshape(sh.shape)
        g = (0.6, 1.3)[self.c.pick(2, 'gamma')]
        self.log.append(('gamma', float(shape), float(scale), g))
        v = shape * scale * g
        return v if size is None else np.full(size, v)

    def exponential(self, scale=1.0, size=None):
        v = scale * (0.4, 1.5)[self.c.pick(2, 'exponential')]
        return v if size is None else v * (0.5 + _vec('mid', size if not np.isscalar(size) else (size,)))

    def multivariate_normal(self, mean, cov, size=None, *a, **k):
        raise NotImplementedError('multivariate_normal must be provided by the check')

    # -- python's random module
    def py_random(self):
        return self._u()

    def py_randint(self, a, b):
        return self.randint(a, b + 1)

    def py_randrange(self, a, b=None):
        return self.randint(a, b)

    def py_choice(self, seq):
        return seq[self.c.pick(len(seq), 'pychoice')]

    def py_sample(self, seq, k):
        menu = self._perms(len(seq), k)
        return [list(seq)[i] for i in menu[self.c.pick(len(menu), 'pysample')]]

    def __enter__(self):
        self._np = {n: getattr(np.random, n) for n in self.NP}
        self._py = {n: getattr(_pyrandom, n) for n in self.PY}
        for n in self.NP:
            f = {'random_sample': 'random', 'ranf': 'random', 'sample': 'random'}.get(n, n)
            setattr(np.random, n, getattr(self, f))
        for n in self.PY:
            f = {'random': 'py_random', 'shuffle': 'shuffle', 'randint': 'py_randint', 'randrange': 'py_randrange',
                 'choice': 'py_choice', 'sample': 'py_sample', 'uniform': 'uniform'}[n]
            setattr(_pyrandom, n, getattr(self, f))
        return self

    def __exit__(self, *exc):
        for n, f in self._np.items():
            setattr(np.random, n, f)
        for n, f in self._py.items():
            setattr(_pyrandom, n, f)
        return False


# ------------------------------------------------------------------------------------------------- context
def canon(x):
    """hashable canonical form"""
    if isinstance(x, np.ndarray):
        return ('a', x.shape, tuple(np.round(np.asarray(x, dtype=float).ravel(), 6).tolist()))
    if isinstance(x, (list, tuple)):
        return tuple(canon(v) for v in x)
    if isinstance(x, (set, frozenset)):
        return ('s',) + tuple(sorted(repr(canon(v)) for v in x))
    if isinstance(x, dict):
        return tuple(sorted((str(k), repr(canon(v))) for k, v in x.items()))
    if isinstance(x, (float, np.floating)):
        return round(float(x), 6)
    if isinstance(x, (bool, np.bool_)):
        return bool(x)
    if isinstance(x, (int, np.integer)):
        return int(x)
    return x


def h64(x):
    return int.from_bytes(hashlib.blake2b(repr(canon(x)).encode(), digest_size=8).digest(), 'big')


class Ctx:
    def __init__(self, seed=1, tier='quick'):
        self.seed = seed
        self.tier = tier
        self.states = set()
        self.outcomes = set()
        self.transitions = 0
        self.traces = 0
        self.max_dev = 0
        self.capped = 0
        self.forced = None       # choices to replay
        self.last_choices = None
        self.known = []          # violations that a known finding explains (filled by the runner)
        self.tolerated = set()   # keys of known findings
        self._steps_in_case = 0

    def state(self, key):
        self.states.add(h64(key))

    def outcome(self, key):
        self.outcomes.add(h64(key))

    def step(self, n=1):
        self.transitions += n

    def fail(self, msg, key=None):
        """report a violation unless it is a listed known finding"""
        if key is not None and key in self.tolerated:
            self.known.append((key, msg))
            return
        raise Violation(msg, key)

    def check(self, cond, msg, key=None):
        if not cond:
            self.fail(msg() if callable(msg) else msg, key)

    def close(self, got, want, tol, what, rel=False):
        got = np.asarray(got, dtype=float)
        want = np.asarray(want, dtype=float)
        if got.shape != want.shape:
            self.fail('%s: shape %s, expected %s' % (what, got.shape, want.shape))
            return
        if got.size == 0:
            return
        d = np.abs(got - want)
        lim = tol * (1 + np.abs(want)) if rel else tol
        bad = ~(d <= lim)
        same_inf = np.isinf(got) & np.isinf(want) & (np.sign(got) == np.sign(want))
        bad &= ~same_inf
        if bad.any():
            self.fail('%s: got %s, expected %s (max deviation %g, tolerance %g)' %
                      (what, _short(got), _short(want), np.nanmax(np.where(bad, d, 0)), tol))

    def explore(self, body, max_paths=200000, max_dev=None, fair_after=None):
        """run body(chooser) for every sequence of environment answers (bounded by max_dev non-default answers)"""
        if self.forced is not None:
            ch = Chooser(self.forced, fair_after)
            self.last_choices = self.forced
            body(ch)
            self.last_choices = None
            self.traces += 1
            return 1
        stack = [[]]
        n = 0
        while stack:
            prefix = stack.pop()
            ch = Chooser(prefix, fair_after)
            try:
                body(ch)
            except BaseException:
                self.last_choices = ch.choices
                raise
            n += 1
            self.traces += 1
            choices = ch.choices
            dev = sum(1 for c in choices if c)
            self.max_dev = max(self.max_dev, dev)
            if n >= max_paths:
                self.capped += 1
                break
            for i in range(len(ch.points) - 1, len(prefix) - 1, -1):
                if max_dev is not None and sum(1 for c in choices[:i] if c) + 1 > max_dev:
                    continue
                for alt in range(ch.points[i][0] - 1, 0, -1):
                    stack.append(choices[:i] + [alt])
        return n


def _short(a):
    s = np.array2string(np.asarray(a), precision=6, threshold=24)
    return s.replace('\n', ' ')


def seeded(seed):
    np.random.seed(seed % (2 ** 32 - 1))
    _pyrandom.seed(seed)


def raises(fn, *a, **k):
    """(raised?, exception or value)"""
    try:
        return False, fn(*a, **k)
    except (Violation, Divergence):
        raise
    except Exception as e:
        return True, e
