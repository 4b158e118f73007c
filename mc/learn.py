"""Models and learners with scripted answers, used to close the environment of the selection code."""
import numpy as np

import lop
from mc.core import Env
from mc import hist

GRID = [(0.10, 0.90), (0.35, 0.60), (0.55, 0.75), (0.80, 0.20), (0.70, 0.65), (0.20, 0.30), (0.95, 0.05), (0.45, 0.40),
        (0.60, 0.10), (0.05, 0.50)]


def cands(n, dim=2):
    """n candidates; dim 0 gives flat samples"""
    a = np.array([(GRID[i % 10] + (0.3 + 0.17 * i,))[:max(dim, 1)] for i in range(n)], dtype=float)
    a = a + 0.013 * (np.arange(n) // 10)[:, None]
    return a[:, 0] if dim == 0 else a


class Table:
    """mean / covariance by position or by coordinates of the sample"""

    def __init__(self, X, mu, cov):
        self.rows = [hist.row(x) for x in X]
        self.mu = np.array(mu, dtype=float)
        self.C = np.array(cov, dtype=float)

    def at(self, X):
        idx = [self.rows.index(hist.row(x)) for x in X]
        return self.mu[idx].copy(), self.C[np.ix_(idx, idx)].copy()


class TabGP(lop.GP):
    """regression GP whose predictions come from a table"""

    def __init__(self, table, **kw):
        super().__init__(lop.RBF_kern(0.5, 0.7), **kw)
        self.table = table
        self.queries = []

    def predict(self, X):
        mu, self.cov = self.table.at(X)
        self.queries.append([hist.row(x) for x in X])
        return mu, np.diagonal(self.cov).copy()

    predict_large = predict


class TabPref(lop.PreferenceGP):
    """preference GP whose predictions come from a table; it holds real judgements"""

    def __init__(self, table, **kw):
        super().__init__(lop.RBF_kern(0.5, 0.7), **kw)
        self.table = table
        self.queries = []

    def predict(self, X):
        mu, self.cov = self.table.at(X)
        self.queries.append([hist.row(x) for x in X])
        return mu, np.diagonal(self.cov).copy()

    predict_large = predict


class Scripted(lop.active_learning.ActiveLearner):
    """greedy picks answered by the explorer: any of the offered candidates"""

    def __init__(self, chooser=None, **kw):
        super().__init__(**kw)
        self.c = chooser
        self.calls = []

    def select_greedy(self, candidate_pts, mu, data, indicies, prev_selection):
        ids = sorted(indicies)
        if not ids:
            raise AssertionError('a greedy pick was asked for among no candidates')
        i = ids[self.c.pick(len(ids), 'greedy')]
        self.calls.append(('greedy', tuple(ids), tuple(sorted(prev_selection)), i))
        return i


class ScriptedPair(Scripted):
    """also offers pairs"""

    def select_pair(self, candidate_pts, mu, data, indicies, prev_selection):
        ids = sorted(indicies)
        menu = [(a, b) for a in ids for b in ids if a != b]
        p = menu[self.c.pick(len(menu), 'pair')]
        self.calls.append(('pair', tuple(ids), tuple(sorted(prev_selection)), p))
        return p


def zmat(M, n, pattern):
    """M deterministic standard-normal-like vectors of length n"""
    i, j = np.meshgrid(np.arange(M), np.arange(n), indexing='ij')
    a, b = ((1.7, 2.9), (0.9, 4.1), (2.3, 1.3), (3.7, 0.6))[pattern % 4]
    return 1.3 * np.sin(a * (i + 1) + b * j * (1 + 0.21 * i) + 0.5 * pattern)


class LEnv(Env):
    """random draws of the learners; Gaussian vectors come from a menu of patterns"""

    def __init__(self, chooser, patterns=(0,), **kw):
        super().__init__(chooser, **kw)
        self.patterns = patterns
        self.draws = []

    def multivariate_normal(self, mean, cov, size=None, *a, **k):
        mean, cov = np.array(mean, dtype=float), np.array(cov, dtype=float)
        p = self.patterns[self.c.pick(len(self.patterns), 'mvn')]
        w, v = np.linalg.eigh((cov + cov.T) / 2)
        L = v * np.sqrt(np.maximum(w, 0))
        M = 1 if size is None else int(size)
        out = mean + zmat(M, len(mean), p) @ L.T
        self.draws.append((mean, cov, out.copy()))
        return out[0] if size is None else out


# ------------------------------------------------------------------------------------------- reference definitions
def phi(x):
    from scipy.special import ndtr
    return ndtr(x)


def pair_probs(F, sigma=0.5):
    """P(i preferred to j) for every pair"""
    F = np.asarray(F, dtype=float)
    n = len(F)
    return np.array([[phi((F[i] - F[j]) / (np.sqrt(2) * sigma)) for j in range(n)] for i in range(n)])


def choice_probs(B, Q):
    """P(each member of the query is chosen), from pairwise probabilities"""
    p = np.array([np.prod([B[q, r] for r in Q if r != q]) for q in Q])
    return p / p.sum()


def _rank(v):
    return np.array([sum(1.0 for b in v if b < a) + (sum(1.0 for b in v if b == a) + 1) / 2 for a in v])


def _corr(a, b):
    a, b = a - a.mean(), b - b.mean()
    return float(a @ b / np.sqrt((a @ a) * (b @ b)))


def similarity(kind, a, b, Q=None, sigma=0.5):
    """the named similarity of two reward assignments over the representative points / queries"""
    a, b = np.asarray(a, dtype=float), np.asarray(b, dtype=float)
    if kind == 'rho':
        ra, rb = np.exp(a - a.max()), np.exp(b - b.max())
        return -float(np.sqrt(np.sum((ra / ra.sum() - rb / rb.sum()) ** 2)))
    if kind == 'epic':
        return -np.sqrt(max(1 - _corr(a, b), 0)) / np.sqrt(2)
    if kind == 'spearman':
        return _corr(_rank(a), _rank(b))
    if kind == 'one':
        return 1.0
    if kind == 'loglikelihood':
        s = 0.0
        for x, y in ((a, b), (b, a)):
            B = pair_probs(x, sigma)
            for q in Q:
                s += np.log(choice_probs(B, list(q))[int(np.argmax(y[list(q)]))])
        return s
    raise KeyError(kind)


def sim_matrix(kind, R, Q=None, sigma=0.5):
    return np.array([[similarity(kind, a, b, Q, sigma) for b in R] for a in R])


def expected_alignment(f, P):
    """sum over the answers q of  E_{w,w'}[f(w,w') p(q|w) p(q|w')] / E_w[p(q|w)];  P[w][q]"""
    P = np.asarray(P, dtype=float)
    M = len(P)
    return float(sum(sum(f[i, j] * P[i, q] * P[j, q] for i in range(M) for j in range(M)) / M ** 2 / P[:, q].mean() for q in range(P.shape[1])))


def mutual_info(P):
    P = np.asarray(P, dtype=float)
    M = len(P)
    m = P.mean(axis=0)
    return float(sum(P[i, q] * np.log2(P[i, q] / m[q]) for i in range(M) for q in range(P.shape[1]) if P[i, q] > 0)) / M


def outcomes(n, k, prev, P, mu, best_first, setaside, setval, pairval, tol):
    """every (selection, set aside, last value) the step-wise rule allows; pairval None: the learner has no pair step.
    setval(i, chosen) -> value or None (any candidate may be taken), pairval(i, j) -> value"""
    out = set()
    left0 = [i for i in range(n) if i not in prev]

    def top(ids, chosen):
        vals = [setval(i, chosen) for i in ids]
        if any(v is None for v in vals):
            return [(i, 0.0) for i in ids]
        m = max(vals)
        return [(i, v) for i, v in zip(ids, vals) if v >= m - tol * (1 + abs(m))]

    def toppairs(ids):
        vals = {(a, b): pairval(a, b) for a in ids for b in ids if a != b}
        m = max(vals.values())
        return [(p, v) for p, v in vals.items() if v >= m - tol * (1 + abs(m))]

    def go(sel, aside, last):
        if len(sel) >= k:
            out.add((tuple(sel), tuple(aside), last))
            return
        used = set(sel)
        pl = [i for i in left0 if i in P and i not in used]
        rest = [i for i in left0 if i not in used and i not in aside]
        chosen = frozenset(set(prev) | used)
        if not setaside:
            ids = pl or rest
            if pairval is not None and not sel and k > 1 and len(ids) > 1:
                for (a, b), v in toppairs(ids):
                    go([a, b], aside, v)
            else:
                for i, v in top(ids, chosen):
                    go(sel + [i], aside, v)
        elif not pl and aside:
            go(sel + [aside[0]], aside[1:], last)
        elif pairval is not None and not prev and not best_first and k - len(sel) > 1 and len(pl) > 1:
            for (a, b), v in toppairs(pl):
                go(sel + [b, a], aside, v)
        elif rest:
            for i, v in top(rest, chosen):
                if i in P or not pl:
                    go(sel + [i], aside, v)
                else:
                    go(sel, aside + [i], v)
    if best_first and not prev:
        pool = [i for i in left0 if i in P] or left0
        m = max(mu[i] for i in pool)
        for i in pool:
            if mu[i] >= m:
                go([i], [], None)
    else:
        go([], [], None)
    return out
