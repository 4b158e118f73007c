"""P05: regression GP is exact Gaussian conditioning."""
import itertools

import numpy as np

import lop
from mc import ref, hist

TECHNIQUE = 'explicit-state exploration of addition/reset/query histories on the real regression GP, against exact Gaussian conditioning on a plain record after every step'
LEVEL_NOTE = 'all histories up to the depth bound over the batch alphabet, executed on the real code'
RULE = ('every history over the batch alphabet (1, 2, 3, 5 samples; default / scalar / list / array noise; repeated samples; whole numbers; an empty batch), reset '
        'and query up to the depth bound, with kernel, mean function, sample shape and parameter-setting history in rotation (full product at depth 2); after every '
        'step mean, variance and covariance at four query sets (new points, one point, the held points, a mixture) are compared with the definition, the arguments '
        'being overwritten after each call')
BOUNDS = {'quick': 'alphabet 11: depth 3 in full, depth 2 x 7 kernels x 4 mean functions x 4 shapes, depth 6 over 3 operations, batches up to 33 samples',
          'thorough': 'alphabet 11: depth 4 in full, depth 2 x 7 kernels x 4 mean functions x 4 shapes, depth 8 over 3 operations, batches up to 33 samples'}
ASSUMPTIONS = ['covariance matrices with condition number below 1e9 (others skipped)', 'noise values are non-negative; mean functions are vectorised']
KERN = [['rbf', 0.7, 0.6, 0.0], ['rbf', 1.2, 0.45, 0.05], ['+', ['rbf', 0.6, 0.5, 0.01], ['lin', 0.5, 0.3, 0.1]],
        ['*', ['rbf', 0.9, 0.9, 0.02], ['lin', 0.6, 0.8, 0.0]], ['rbf0', 0.8, 0.6, None, 0.01],
        ['+', ['per', 0.5, 1.0, 3.3], ['rbf', 0.5, 0.6, 0.02]], ['+', ['rbf', 0.5, 0.5, 0.01], ['*', ['rbf', 0.4, 1.2, 0.0], ['lin', 0.5, 0.5, 0.2]]]]
FULL = '12n35vlariRQ'
SHORT = '2vR'


def col(X):
    return X if X.ndim > 1 else X[:, None]


MEANS = [None, lambda X: np.full(len(X), 1.5), lambda X: 0.7 * np.sum(col(np.asarray(X, dtype=float)), axis=1) - 0.3, lambda X: np.sin(2 * col(np.asarray(X, dtype=float))[:, 0])]


def batch(ch, k, dim):
    """X, y, noise argument (None: default), noise values"""
    n = {'1': 1, '2': 2, 'n': 2, '3': 3, '5': 5, 'v': 2, 'l': 3, 'a': 2, 'r': 2, 'i': 2, 'b': 17, 'B': 33}[ch]
    ids = [(k + j) % 32 for j in range(n)] if ch != 'r' else [0, 1]
    X = hist.xs(dim, ids)
    if ch == 'B':
        X = X + np.arange(n).reshape((n,) + (1,) * (X.ndim - 1)) * 0.003
    y = np.cos(1.3 * (k + np.arange(n))) + 0.2 * np.arange(n)
    if ch in '1235bB':
        return X, y, None, [0.0005] * n
    if ch == 'n':
        return X, y, 0.02, [0.02] * n
    if ch == 'v':
        return X, y, [0.3, 0.05], [0.3, 0.05]
    if ch == 'l':
        return X, y, [0.1, 0.0, 0.7], [0.1, 0.0, 0.7]
    if ch == 'a':
        return X, y, np.array([0.04, 0.6]), [0.04, 0.6]
    if ch == 'r':
        return X, y, 0.1, [0.1] * n
    if ch == 'i':
        return X, np.array([2, -1]), 0.25, [0.25] * n


def cases(tier):
    t = tier == 'thorough'
    k = 0
    for h in itertools.product(FULL, repeat=2):
        for ker in range(len(KERN)):
            for mean in range(4):
                dim = (ker + mean + k) % 4
                k += 1
                yield {'h': ''.join(h), 'ker': ker, 'mean': mean, 'dim': dim, 'late': k % 2}
    for d in ((3, 4) if t else (3,)):
        for h in itertools.product(FULL, repeat=d):
            k += 1
            yield {'h': ''.join(h), 'ker': k % 7, 'mean': (k // 7) % 4, 'dim': (0, 2, 1, 3)[k % 4], 'late': (k // 3) % 2}
    for h in itertools.product(SHORT, repeat=8 if t else 6):
        k += 1
        yield {'h': ''.join(h), 'ker': k % 7, 'mean': (k // 7) % 4, 'dim': (0, 2, 1, 3)[k % 4], 'late': (k // 3) % 2}
    for h in ('B', 'bB', 'BR2', '2B', 'Bv', 'vb', 'bRb', 'aBl', 'b1', '1b', 'bb'):
        for ker in (1, 2, 6):
            for dim in (1, 2, 3):
                k += 1
                yield {'h': h, 'ker': ker, 'mean': k % 4, 'dim': dim, 'late': k % 2}


def run(case, ctx):
    spec, dim, mean = KERN[case['ker']], case['dim'], MEANS[case['mean']]
    mf = mean if mean is not None else (lambda X: np.zeros(len(X)))
    if case['late']:
        kern = ref.build_kernel(ref.with_par(spec, [v * 1.6 + 0.1 for v in ref.get_par(spec)]))
    else:
        kern = ref.build_kernel(spec)
    m = lop.GP(kern) if mean is None else lop.GP(kern, mean_func=mean)
    if case['late'] == 1:
        m.cov_func.set_param(np.array(ref.get_par(spec)))
    X, y, s, k = None, None, None, 0
    for pos, ch in enumerate(case['h']):
        what = 'after %s (kernel %s, mean function %d, dimension %s)' % (case['h'][:pos + 1], spec, case['mean'], dim or 'flat')
        if ch == 'R':
            m.reset()
            X, y, s = None, None, None
        elif ch == 'Q':
            m.predict(hist.xs(dim, [9, 3]))
        else:
            Xb, yb, arg, sv = batch(ch, k, dim)
            k += len(Xb)
            X = Xb.copy() if X is None else np.concatenate([X, Xb])
            y = np.array(yb, dtype=float) if y is None else np.concatenate([y, yb])
            s = list(sv) if s is None else s + list(sv)
            args = [Xb, yb] + ([arg] if arg is not None else [])
            keep = hist.deep(args)
            if arg is None:
                m.add(Xb, yb)
            else:
                m.add(Xb, yb, training_sigma=arg)
            ctx.check(hist.same(args, keep), what + ': the addition changed its arguments')
            for a in args:
                hist.scribble(a)
        ctx.step()
        if X is not None:
            K = ref.kcov(spec, col(X), col(X)) + np.diag(s)
            if np.linalg.cond(K) > 1e9:
                return
        new = hist.xs(dim, [11, 4, 20]) + 0.021
        qs = [new, new[:1]]
        if X is not None:
            qs += [X.copy(), np.concatenate([new[:1], X[-1:], X[:1]])]
        for Q in qs:
            Q0 = Q.copy()
            mu, var = m.predict(Q)
            cov = np.array(m.cov)
            Xr = None if X is None else col(X)
            rmu, rcov = ref.gp_predict(spec, Xr, y, s, col(Q), mean=lambda Z: mf(Z if dim else Z[:, 0]))
            ctx.close(mu, rmu, 1e-5, what + ': mean', rel=True)
            ctx.close(var, np.maximum(np.diag(rcov), 0), 1e-5, what + ': variance', rel=True)
            ctx.close(cov, rcov, 1e-5, what + ': covariance', rel=True)
            mu2, var2 = m.predict_large(Q)
            ctx.close(mu2, rmu, 1e-5, what + ': mean of predict_large', rel=True)
            ctx.close(var2, np.maximum(np.diag(rcov), 0), 1e-5, what + ': variance of predict_large', rel=True)
            ctx.close(m(Q), rmu, 1e-5, what + ': value of calling the model', rel=True)
            ctx.check(np.array_equal(Q, Q0), what + ': predicting changed the query points')
        ctx.state((spec, case['mean'], dim, None if X is None else X.tolist(), s))
        ctx.outcome(np.round(mu, 4))
