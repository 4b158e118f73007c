"""P27: model, learner, kernel and user instances are independent."""
import itertools
import os
import pickle
import signal
import sys

import numpy as np

import lop
from mc import ref, hist, learn
from mc.core import Chooser, Hang, Violation, canon, seeded
from mc.checks import p11, p14

TECHNIQUE = "exhaustive exploration of all interleavings of two instances' operation sequences (construction included) on the real classes, every history started from a pristine process, against each sequence run alone"
LEVEL_NOTE = 'all interleavings within the depth bound for every class of the alphabet with itself and for a covering set of class pairs; the reference is the same real code running one instance alone in a fresh process'
RULE = ('class x every pair of operation sequences of the two instances x every interleaving of them (constructing, using, changing, resetting) x (different data | the very same argument objects), plus class pairs; the answers of '
        'every operation, and of final observations of both instances, must be those of the sequence run alone')
BOUNDS = {'quick': '51 classes/configurations; all pairs of sequences of length 1, a third of those of length 2 for the cheap classes and 1 in 2 to 4 sequences with one partner for models and learners (all interleavings, construction included); 83 class pairs with sequences of length 2',
          'thorough': '51 classes/configurations; all pairs of sequences of length 1, of length 2 (1 in 3 for models and learners) and 1 in 3 pairs of length 3 for the cheap classes (all interleavings); all 2550 ordered class pairs with two pairs of sequences of length 2'}
ASSUMPTIONS = ['the two instances are constructed separately and share no mutable component (kernel, likelihood or learner object)', 'random draws are a fixed answer per operation, so that a draw consumed by one instance does not shift those of the other']


def env(salt=0):
    return learn.LEnv(Chooser([salt % 2], fair_after=1), u=(0.31, 0.72), vec=('mid', 'up'), z=(-0.8, 0.6), patterns=(0, 1), max_enum=12)


class Args:
    """argument objects; in a shared history both instances get the very same objects"""

    def __init__(self, shared):
        self.shared = shared
        self.d = {}
        self.space = None      # instances of a different kind take different arguments

    def get(self, key, v, make):
        if not self.shared:
            return make(v)
        key = (self.space, key)
        if key not in self.d:
            self.d[key] = make(0)
        return self.d[key]


# --------------------------------------------------------------------------------------------------------- actors
class Actor:
    ops = ''
    grade = 0       # how expensive

    def obs(self, o, v, A):
        return None


class Gp(Actor):
    ops = 'apsR'

    def __init__(self, mean=False, noise=False):
        self.mean, self.noise = mean, noise

    def make(self, v, A):
        k = lop.RBF_kern(0.8 + 0.2 * v, 0.6)
        return lop.GP(k, mean_func=A.get('mean', v, lambda v: (lambda X: 0.3 * np.asarray(X)[:, 0] + v))) if self.mean else lop.GP(k)

    def do(self, o, op, pos, v, A):
        if op == 'a':
            X = A.get(('X', pos), v, lambda v: hist.xs(2, [3 * pos + v, 3 * pos + 1 + v]))
            y = A.get(('y', pos), v, lambda v: np.array([0.2 + v, -0.4 * (pos + 1)]))
            if self.noise:
                o.add(X, y, training_sigma=A.get(('s', pos), v, lambda v: [0.1, 0.3 + 0.1 * v]))
            else:
                o.add(X, y)
        elif op == 'p':
            return o.predict(hist.xs(2, [20, 21]))
        elif op == 's':
            o.cov_func.set_param(A.get(('p', pos), v, lambda v: np.array([0.5 + 0.1 * pos + v, 0.9])))
        elif op == 'R':
            o.reset()

    def obs(self, o, v, A):
        return [o.predict(hist.xs(2, [22, 0, 4])), o.cov_func.get_param()]


class Pref(Actor):
    grade = 1
    ops = 'PAOhX'

    def __init__(self, kind):
        self.kind = kind
        if kind == 'lin':
            self.ops = 'PAOhR'
        if kind == 'pareto':
            self.ops = 'PAYX'
        if kind == 'normal':
            self.ops = 'PAp'

    def make(self, v, A):
        if self.kind == 'lin':
            return lop.PreferenceLinear()
        kw = {}
        if self.kind == 'pareto':
            kw = {'pareto_pairs': True}
        if self.kind == 'normal':
            kw = {'normalize_gp': True, 'normalize_positive': True}
        if self.kind == 'probit':
            kw = {'other_probits': {'abs': lop.AbsBoundProbit(sigma=0.8 + 0.2 * v, v=30.0)}}
        if self.kind == 'all':
            kw = {'hyperparam_only_probit': False}
        return lop.PreferenceGP(lop.RBF_kern(0.7 + 0.2 * v, 0.6), **kw)

    def do(self, o, op, pos, v, A):
        X = lambda: A.get(('X', pos), v, lambda v: hist.xs(2, [4 * pos + i + v for i in range(3)]))
        if op == 'P':
            o.add(X(), A.get(('y', pos), v, lambda v: [(-1, 0, 1), (1 - 2 * v, 1, 2)]))
        elif op == 'A':
            o.add(X(), A.get(('v', pos), v, lambda v: np.array([0.2 + 0.3 * v, 0.6, 0.5])), type='abs')
        elif op == 'O':
            o.add(X(), A.get(('o', pos), v, lambda v: [1 + v, 4, 3]), type='ordinal')
        elif op == 'Y':
            o.add_prior(pts=A.get(('pr', pos), v, lambda v: hist.xs(2, [9 + v, 10, 11, 12])), method='exact') 
        elif op == 'p':
            return self.obs(o, v, A)
        elif op == 'h':
            h = o.get_hyper()
            o.set_hyper(h * 1.2 + 0.05 * v)
            o.optimized = False
        elif op == 'X' and o.X_train is not None:
            o.remove_without_reference()
        elif op == 'R':
            o.reset()

    def obs(self, o, v, A):
        d = hist.rec_key(hist.held(o))
        hy = o.get_hyper()
        if o.X_train is None or (self.kind == 'normal' and not d[1] and not d[3]) or self.kind == 'lin' and o.X_train is None:
            return [d, hy]
        with env():
            return [d, hy, list(o.predict(hist.xs(2, [22, 25])))]


class Kern(Actor):
    ops = 'scgr'

    def __init__(self, spec):
        self.spec = spec

    def par(self, v, pos):
        return [0.6 + 0.2 * i + 0.15 * pos + 0.3 * v for i in range(ref.npar(self.spec))]

    def make(self, v, A):
        return ref.build_kernel(ref.with_par(self.spec, self.par(v, 3)))

    def do(self, o, op, pos, v, A):
        if op == 's':
            o.set_param(A.get(('kp', pos), v, lambda v: np.array(self.par(v, pos))))
        elif op == 'c':
            X = A.get(('Xc', pos), v, lambda v: hist.xs(1 + v, [0, 1, 2]))
            return o.cov(X, X), o.cov(X, X[:2] + 0.1)
        elif op == 'g':
            X = A.get(('Xg', pos), v, lambda v: hist.xs(2, [3 * v, 1]))
            return [np.asarray(g) for g in o.cov_gradient(X, X)]
        elif op == 'r':
            return o.randomize_hyper()

    def obs(self, o, v, A):
        X = hist.xs(2, [5, 6, 7]) if self.spec[0] != 'rbf0' else hist.xs(1 + (0 if A.shared else v), [5, 6, 7])
        return [o.get_param(), o.cov(X, X) if self.spec[0] != 'rbf0' else None]


class Lik(Actor):
    ops = 'hldr'

    def __init__(self, t):
        self.t = t
        if t == 1:
            self.ops = 'hldb'

    def make(self, v, A):
        return [lambda: lop.PreferenceProbit(sigma=0.5 + 0.2 * v), lambda: lop.OrdinalProbit(sigma=0.7, b=1.0 + v), lambda: lop.AbsBoundProbit(sigma=0.8, v=30.0 + 20 * v, optimize_v_only=False)][self.t]()

    def y(self, v):
        return [np.array([[-1, 0, 1], [1 - 2 * v, 1, 2]]), (np.array([1 + v, 4, 5]), np.array([0, 1, 2])), (np.array([0.2, 0.6 + 0.2 * v, 0.45]), np.array([2, 1, 0]))][self.t]

    def do(self, o, op, pos, v, A):
        F = A.get(('F', pos), v, lambda v: np.array([0.2, -0.3 + 0.1 * pos, 0.5 * v]))
        y = A.get(('y', pos), v, self.y)
        if op == 'h':
            o.set_hyper(A.get(('h', pos), v, lambda v: np.array([0.6 + 0.1 * pos + 0.2 * v, 1.5 + v])))
        elif op == 'l':
            return o.log_likelihood(y, F)
        elif op == 'd':
            return o.derivatives(y, F)
        elif op == 'r':
            return o.randomize_hyper()
        elif op == 'b':
            o.set_b(1.2 + 0.3 * pos + v)

    def obs(self, o, v, A):
        return [o.get_hyper(), o.derivatives(self.y(0), np.array([0.3, -0.2, 0.1]))]


class Util(Actor):
    ops = 'reb'

    def __init__(self, name, dim=2):
        self.name, self.dim = name, dim

    def make(self, v, A):
        with env(v):
            return getattr(lop, self.name)(self.dim)

    def do(self, o, op, pos, v, A):
        R = A.get('R', v, lambda v: np.array([[0.2, 0.7], [0.9, 0.4 + v], [0.5, 0.5]]))
        if op == 'r':
            o.randomize()
        elif op == 'e':
            return o(R[pos])
        elif op == 'b':
            return o(R)

    def obs(self, o, v, A):
        return [o(np.array([[0.2, 0.7], [0.9, 0.3], [1.5, 0.5]]))]


class User(Actor):
    ops = 'crps'

    def __init__(self, name):
        self.name = name

    def make(self, v, A):
        with env(v):
            f = lop.FakeLinear(2)
        return lop.PerfectUser(f) if self.name == 'PerfectUser' else getattr(lop, self.name)(f, beta=2.0 + v, sigma=0.5)

    def do(self, o, op, pos, v, A):
        R = A.get('R', v, lambda v: np.array([[0.2, 0.7], [0.9, 0.4 + v], [0.5, 0.5]]))
        if op == 'c':
            return o.choose(R)
        if op == 'r':
            return o.rate(R[pos])
        if op == 'p':
            return [tuple(p) for p in o.choose_pairs(R)]
        if op == 's' and self.name != 'PerfectUser':
            o.beta, o.sigma = 3.0 + pos + v, 0.2

    def obs(self, o, v, A):
        R = np.array([[0.2, 0.7], [0.9, 0.3], [0.5, 0.6]])
        with env() as e:
            out = [o.choose(R), o.rate(R), o.rate(R[0])]
        return [out, [(g[0], np.asarray(g[2])) for g in e.log if g[0] in ('choice_p', 'normal')]]


REP = {'num_pts': 4, 'num_Q': 3}


def acq(cls, **kw):
    return getattr(lop, cls)(M=5, rep_Q_data=dict(REP), **kw)


MIX = {
    'RateChooseLearner': lambda v: lop.RateChooseLearner(acq('AcquisitionSelection'), acq('AbsAcquisition')),
    'MixedComparision': lambda v: lop.MixedComparision(acq('AcquisitionSelection'), lop.UCBLearner(1.0), acq('AbsAcquisition'), alpha=0.3 + 0.3 * v),
    'EqualChecking': lambda v: lop.MixedComparisionEqualChecking(acq('AcquisitionSelection'), lop.UCBLearner(1.0), acq('AbsAcquisition')),
    'SetFixed': lambda v: lop.MixedComparisionSetFixed(lop.UCBLearner(0.5), lop.BestLearner()),
    'Alternating': lambda v: lop.MixedAlternating(lop.UCBLearner(0.5), lop.BestLearner()),
    'Strategy': lambda v: lop.MixedStrategy(lop.UCBLearner(0.5), lop.BestLearner(), 0.5),
    'Peak': lambda v: lop.MixedStrategyPeak(lop.UCBLearner(0.5), lop.WorstLearner(), 0.5),
    'Peak2': lambda v: lop.MixedStrategyPeak2(lop.UCBLearner(0.5), lop.WorstLearner(), 0.5),
    'Peak3': lambda v: lop.MixedStrategyPeak3(lop.UCBLearner(0.5), lop.WorstLearner(), 0.3 + 0.2 * v),
    'RevPeak': lambda v: lop.MixedStrategyRevPeak(lop.UCBLearner(0.5), lop.WorstLearner(), 0.4),
    'Decision': lambda v: lop.MixedDecision(acq('AcquisitionSelection'), lop.UCBLearner(1.0), acq('AbsAcquisition'), 0.3),
    'Decision2': lambda v: lop.MixedDecision2(acq('AcquisitionSelection'), lop.UCBLearner(1.0), acq('AbsAcquisition'), 0.3),
    'AlignmentDecision': lambda v: lop.AlignmentDecision(lop.UCBLearner(0.5), lop.WorstLearner(), 12),
}

class Learner(Actor):
    """a learner with its own model"""
    ops = 'stam'

    def __init__(self, name):
        self.name = name
        self.grade = 2
        if name in MIX:
            self.ops = 'sta'

    def make(self, v, A):
        m = lop.PreferenceGP(lop.RBF_kern(0.7, 0.6 + 0.1 * v))
        m.add(hist.xs(2, [v, 1 + v, 2 + v]), [(-1, 0, 1), (1, 1, 2)])
        m.add(hist.xs(2, [4]), np.array([0.6]), type='abs')
        L = MIX[self.name](v) if self.name in MIX else p11.build(self.name)
        L.set_model(m)
        return [L, m]

    def do(self, o, op, pos, v, A):
        L, m = o
        X = A.get('X', v, lambda v: hist.xs(2, [10 + v, 11 + v, 12 + v, 13 + v]))
        out = lambda s: [int(i) for i in np.ravel(s[0] if isinstance(s, tuple) else s)]
        if op == 's':
            return out(L.select(X, 2))
        if op == 't':
            return out(L.select(X[:3], 1, A.get('prev', v, lambda v: [1 + v])))
        if op == 'a':
            m.add(A.get(('D', pos), v, lambda v: hist.xs(2, [15 + pos + v, 17 + v])), A.get('pp', v, lambda v: [(-1 + 2 * v, 0, 1)]))
        if op == 'm':
            L.set_model(m)

    def obs(self, o, v, A):
        L, m = o
        X = hist.xs(2, [20, 21, 22])
        s = L.select(X, 2)
        return [[int(i) for i in np.ravel(s[0] if isinstance(s, tuple) else s)], m.predict(X)[0]]


ACT = {'gp': Gp(), 'gpmean': Gp(mean=True), 'gpnoise': Gp(noise=True)}
for _k in ('plain', 'lin', 'pareto', 'normal', 'probit', 'all'):
    ACT['pref_' + _k] = Pref(_k)
for _i, _s in enumerate((['rbf', 1, 1, 0.05], ['per', 1, 1, 3], ['lin', 1, 1, 0], ['rbf0', 1, 1, None, 0.01], ['+', ['rbf', 1, 1, 0], ['lin', 1, 1, 1]], ['*', ['rbf', 1, 1, 0.1], ['per', 1, 1, 2]])):
    ACT['kern%d' % _i] = Kern(_s)
for _t in range(3):
    ACT['lik%d' % _t] = Lik(_t)
for _n in ('FakeLinear', 'FakeSquared', 'FakeLogistic', 'FakeWeightedMax', 'FakeSinExp', 'FakeMixtureGaussian', 'FakeMinLog'):
    ACT[_n] = Util(_n)
for _n in ('PerfectUser', 'HumanChoiceUser', 'HumanChoiceUser2'):
    ACT[_n] = User(_n)
for _n in p11.LEARNERS + list(MIX):
    ACT['learn_' + _n] = Learner(_n)


def seqs(a, d):
    return [''.join(s) for s in itertools.product(ACT[a].ops, repeat=d)]


def cases(tier):
    t = tier == 'thorough'
    names = list(ACT)
    k = 0
    for a in names:
        g = ACT[a].grade
        for d in (1, 2, 3) if t and g == 0 else (1, 2):
            Q = seqs(a, d)
            for i, s in enumerate(Q):
                S = Q[i:]
                if d == 3:
                    S = S[i % 3::3]
                elif d == 2 and not t:
                    S = S[::3] if g == 0 else [Q[(i * 5 + 3) % len(Q)]] if i % (2 if g == 1 else 4) == 1 else []
                elif d == 2 and g:
                    S = S[i % 3::3]
                elif d == 1 and not t and g == 2:
                    S = S[:2]
                for j in range(0, len(S), 4):
                    k += 1
                    yield {'a': a, 'b': a, 'sa': s, 'sb': S[j:j + 4], 'shared': k % 2}
    for i, a in enumerate(names):
        for j, b in enumerate(names):
            if a == b or (i * 7 + j * 3) % (1 if t else 31):
                continue
            A, B = seqs(a, 2), seqs(b, 2)
            yield {'a': a, 'b': b, 'sa': A[(i * 5 + j) % len(A)], 'sb': [B[(i + j * 5) % len(B)], B[(i * 3 + j) % len(B)]][:2 if t else 1], 'shared': (i + j) % 2}


def iso(fn, *args):
    """run in a pristine copy of this process"""
    r, w = os.pipe()
    pid = os.fork()
    if pid == 0:
        try:
            os.close(r)
            try:
                out = ('ok', fn(*args))
            except Violation as e:
                out = ('violation', str(e))
            except BaseException as e:
                out = ('error', '%s: %s' % (type(e).__name__, e))
            with os.fdopen(w, 'wb') as f:
                f.write(pickle.dumps(out))
        finally:
            os._exit(0)
    os.close(w)
    with os.fdopen(r, 'rb') as f:
        data = f.read()
    os.waitpid(pid, 0)
    if not data:
        raise Violation('the process running the library died')
    return pickle.loads(data)


def flat(x):
    """plain picklable answer"""
    if x is None or isinstance(x, (str, bool)):
        return x
    if isinstance(x, (list, tuple)):
        return [flat(v) for v in x]
    if isinstance(x, np.ndarray) and x.dtype == object:
        return [flat(v) for v in x]
    return np.asarray(x, dtype=float).tolist()


def equal(a, b):
    if isinstance(a, list) and isinstance(b, list):
        return len(a) == len(b) and all(equal(x, y) for x, y in zip(a, b))
    if isinstance(a, float) and isinstance(b, float):
        return a == b or abs(a - b) <= 1e-7 * (1 + abs(a)) or (a != a and b != b)
    return a == b


def step(actor, o, op, pos, v, A):
    A.space = (type(actor).__name__, getattr(actor, 'kind', None), getattr(actor, 't', None), str(getattr(actor, 'spec', None)), getattr(actor, 'noise', None))
    with env(pos):
        if op == '+':
            seeded(5 + v)
            return actor.make(v, A), None
        if op == '=':
            return o, flat(actor.obs(o, v, A))
        try:
            return o, flat(actor.do(o, op, pos, v, A))
        except (NotImplementedError, ValueError, IndexError, KeyError, TypeError) as e:      # a refused operation is an answer too
            return o, 'refused ' + type(e).__name__


def alone(name, s, v, shared):
    signal.setitimer(signal.ITIMER_PROF, 60)
    A, o, out = Args(shared), None, []
    for pos, op in enumerate('+' + s + '='):
        o, r = step(ACT[name], o, op, pos, v, A)
        out.append(r)
    return out


def interleavings(n, m):
    for where in itertools.combinations(range(n + m), n):
        w = set(where)
        yield ''.join('A' if i in w else 'B' for i in range(n + m))


def together(a, b, sa, sb, shared, ra, rb):
    signal.setitimer(signal.ITIMER_PROF, 100)
    pa, pb = '+' + sa, '+' + sb
    hist_n = 0
    for _ in range(1):
        for il in interleavings(len(pa), len(pb)):
            A = Args(shared)
            o, i, log = {'A': None, 'B': None}, {'A': 0, 'B': 0}, []
            v = {'A': 0, 'B': 0 if shared else 1}
            for who in il + 'AB':
                seq, name, want = (pa + '=', a, ra) if who == 'A' else (pb + '=', b, rb)
                p = i[who]
                log.append(who + seq[p])
                o[who], r = step(ACT[name], o[who], seq[p], p, v[who], A)
                if not equal(r, want[p]):
                    raise Violation('%s (A) and %s (B)%s, history %s: the last operation answers %s, alone it answers %s' %
                                    (a, b, ', same argument objects' if shared else '', ' '.join(log), str(r)[:300], str(want[p])[:300]))
                i[who] += 1
            hist_n += 1
    return hist_n


def run(case, ctx):
    a, b, shared = case['a'], case['b'], bool(case['shared'])

    def ok(res):
        if res[0] != 'ok':
            raise Violation('%s / %s: %s' % (a, b, res[1]))
        return res[1]
    ra = ok(iso(alone, a, case['sa'], 0, shared))
    for sb in case['sb']:
        rb = ok(iso(alone, b, sb, 0 if shared else 1, shared))
        n = ok(iso(together, a, b, case['sa'], sb, shared, ra, rb))
        ctx.traces += n
        ctx.step(n * (len(case['sa']) + len(sb) + 4))
        for k in range(n):
            ctx.state((a, b, case['sa'], sb, shared, k))
        ctx.outcome((a, str(ra)[:2000]))
        ctx.outcome((b, str(rb)[:2000]))


def dispatchers():
    """compiled functions of the library"""
    from numba.core.dispatcher import Dispatcher
    for n, m in list(sys.modules.items()):
        if n == 'lop' or n.startswith('lop.'):
            for owner in [m] + [c for c in vars(m).values() if isinstance(c, type)]:
                for k, v in list(vars(owner).items()):
                    v = getattr(v, '__func__', v)
                    if isinstance(v, Dispatcher):
                        yield (n, getattr(owner, '__qualname__', ''), k), v


def signatures():
    seq = {n: ACT[n].ops[:3] for n in ('lik0', 'lik1', 'lik2', 'pref_plain', 'pref_all', 'learn_Best', 'learn_Acq', 'learn_AcqLL', 'learn_Abs', 'learn_MixedComparision', 'learn_AlignmentDecision')}
    for n, s in seq.items():
        try:
            alone(n, s, 0, False)
        except Exception:
            pass
    return [(k, d.signatures) for k, d in dispatchers()]


def warmup():
    """compile in the parent what the isolated processes need, without using any instance here"""
    res = iso(signatures)
    d = dict(dispatchers())
    for k, sigs in res[1] if res[0] == 'ok' else []:
        for s in sigs:
            if k in d:
                d[k].compile(s)
