"""P03: predictions are never stale."""
import itertools

import numpy as np

import lop
from mc import ref, hist
from mc.core import Env, seeded

TECHNIQUE = 'explicit-state exploration of all interleavings of submissions, resets, pruning, fits and queries on the real models, compared with a brand new model after every query'
LEVEL_NOTE = 'all interleavings up to the depth bound on the real code; initialisations from a menu'
RULE = ('every interleaving of {comparisons, bounded ratings, category ratings, unreferenced samples, ratings of samples held already (no new samples), prune, reset, explicit fit, predict, chunked predict, '
        'calling the model at its own samples, select} ending in a query, up to the depth bound, for the preference GP (flat and 2-d samples), the linear '
        'model and the regression GP; every query is compared with a brand new model holding the same data; the caller reuses one array per kind of query, rewritten in place; the random initial rewards of '
        'every fit of the short histories run through a menu')
BOUNDS = {'quick': 'preference GP depth 4 over 11 operations and 5 over 6 (also 5 with ratings of held samples); linear model depth 4 over 8; regression GP depth 6 over 6; initialisation menu of 4 patterns with one deviation for depth <= 3',
          'thorough': 'preference GP depth 5 over 11 operations and 6 over 6 (also 6 with ratings of held samples); linear depth 5; regression GP depth 8; initialisation menu for depth <= 4'}
ASSUMPTIONS = ['data with a unique posterior mode (log-concave likelihoods plus bounded ratings in the interior)',
               'tolerance 5e-3 for the mode search of the preference GP (stops at 2e-4), 2e-2 for the linear weights (stop at 2e-3)']

TOL = 5e-3
OPS = {
    'P': lambda k: ['P', [k, k + 1, k + 2], [[-1, 0, 1], [1, 2, 0], [-1, 0, 1]]],
    'A': lambda k: ['A', [k, k + 1], [0.35, 0.7]],
    'O': lambda k: ['O', [k, k + 1], [2, 4]],
    'U': lambda k: ['P', [k, k + 1, k + 2], [[-1, 0, 2]]],        # middle sample unreferenced
}
LOPS = {
    'P': lambda k: ['P', [k, k + 1, k + 2], [[-1, 0, 1], [-1, 0, 1], [1, 0, 1], [-1, 1, 2], [-1, 1, 2], [1, 1, 2]]],
    'A': lambda k: ['A', [k, k + 1, k + 2], [0.6, 0.75, 0.5]],
    'U': lambda k: ['P', [k, k + 1, k + 2, k + 3], [[-1, 0, 2], [1, 0, 2], [1, 0, 2], [-1, 3, 2], [-1, 3, 2], [1, 3, 2]]],
}
QUERY = 'qlcs'
KERN = ['rbf', 0.8, 0.6, 0.02]
_memo = {}


def make(kind):
    if kind == 'gp':
        return lop.PreferenceGP(ref.build_kernel(KERN), active_learner=lop.UCBLearner(1.0))
    if kind == 'lin':
        return lop.PreferenceLinear(active_learner=lop.BestLearner())
    return lop.GP(ref.build_kernel(KERN), active_learner=lop.UCBLearner(1.0))


LAST = {                       # ratings of samples held already: no new samples come with them
    'I': lambda n: ['Ai', [], [[0.3, 0], [0.75, n - 1]]],
    'J': lambda n: ['Oi', [], [[4, 0], [2, n - 1]]],
}


def _hist(alpha, query, d):
    for h in itertools.product(alpha, repeat=d - 1):
        for q in query:
            yield ''.join(h) + q


def cases(tier):
    t = tier == 'thorough'
    for d in range(1, (5 if t else 4) + 1):
        for i, h in enumerate(_hist('PAOUXRfqlcs', QUERY, d)):
            if d >= 4 and (h[0] in 'XRfqlcs' or h[-1] in 's' or any(a == b and a in 'XRfqlcs' for a, b in zip(h, h[1:]))):
                continue               # covered by the shorter histories (nothing happens / the same query twice)
            yield {'model': 'gp', 'h': h, 'dim': (0, 2, 2, 3)[i % 4] if d > 2 else 2, 'menu': d <= (4 if t else 3) and 'f' not in h}
    for d in range(2, (6 if t else 5) + 1):                # ratings of samples held already
        for i, h in enumerate(_hist('PAIJq', 'qc', d)):
            if h[0] in 'PA' and ('I' in h or 'J' in h) and 'qq' not in h:
                yield {'model': 'gp', 'h': h, 'dim': (2, 0, 3)[i % 3], 'menu': False}
                if 'J' not in h and 'P' not in h and h[-1] == 'q':
                    yield {'model': 'lin', 'h': h, 'dim': 2, 'menu': False}
    for d in (5, 6) if t else (5,):
        for i, h in enumerate(_hist('PAXRql', 'ql', d)):
            if h[0] in 'PA':
                yield {'model': 'gp', 'h': h, 'dim': (0, 2)[i % 2], 'menu': False}
    for d in range(1, (5 if t else 4) + 1):
        for h in _hist('PAUXRfqs', 'qs', d):
            yield {'model': 'lin', 'h': h, 'dim': 3 if 'A' in h and 'P' in h and 'R' not in h and 'q' not in h[:-1] and 's' not in h[:-1] else 2, 'menu': d <= 3}
    for d in range(1, (8 if t else 6) + 1):
        for i, h in enumerate(_hist('GHRqs', 'qs', d)):
            yield {'model': 'reg', 'h': h, 'dim': (0, 1, 2)[i % 3], 'menu': False}


def qset(dim, which, alt=False):
    if which == 'l':
        return hist.xs(dim, list(range(5, 25)) if not alt else list(range(3, 23)))           # 20 points: two chunks
    return hist.xs(dim, [3, 17, 8, 29] if not alt else [14, 6, 21, 9])


class Queries:
    """the caller keeps one array per kind of query and writes the points of the next query into it"""

    def __init__(self, dim):
        self.dim, self.buf = dim, {}

    def get(self, which, t):
        Q = qset(self.dim, which, t % 2 == 0)
        if which not in self.buf:
            self.buf[which] = Q
        self.buf[which][...] = Q
        return self.buf[which]


def expected(kind, dim, data, Q):
    k = (kind, dim, data.key(), Q.tobytes())
    if k not in _memo:
        m = hist.fresh(lambda: make(kind), data, dim)
        seeded(123)
        if len(_memo) > 20000:
            _memo.clear()
        mu, var = m.predict(Q)
        _memo[k] = (np.array(mu), None if var is None else np.array(var))
    return _memo[k]


class Reg:
    """record of the regression GP"""

    def __init__(self):
        self.X, self.y, self.s = [], [], []


def run(case, ctx):
    if case['model'] == 'reg':
        return run_reg(case, ctx)
    body = lambda ch: run_one(case, ctx, ch)
    if case['menu']:
        ctx.explore(body, max_dev=1)
    else:
        body(None)


def run_one(case, ctx, ch):
    if ch is None:
        seeded(77)
        return play(case, ctx)
    with Env(ch, u=(0.4,), vec=('mid', 'low', 'up', 'down')):
        # the reference predictions are computed with the same controlled environment left in place: they are memoised
        return play(case, ctx)


def play(case, ctx):
    kind, dim = case['model'], case['dim']
    ops = LOPS if kind == 'lin' else OPS
    m = make(kind)
    data = ref.Data()
    queries = Queries(dim)
    k = 0
    tol = TOL if kind == 'gp' else 2e-2
    for t, ch in enumerate(case['h']):
        what = '%s history %s, operation %d (%s)' % (kind, case['h'], t + 1, ch)
        if ch in ops or ch in LAST:
            op = ops[ch](k) if ch in ops else LAST[ch](len(data.X))
            k += len(op[1])
            X, y, typ = hist.call_args(dim, op)
            m.add(X, y, type=typ)
            hist.expect_add(data, dim, op)
        elif ch == 'X':
            if data.X:
                m.remove_without_reference()
                data, _ = hist.prune(data)
        elif ch == 'R':
            m.reset()
            data = ref.Data()
        elif ch == 'f':
            if data.X:
                m.optimize()
        else:
            if kind == 'lin' and not data.X:
                continue                     # nothing is promised before the first data
            Q = np.array(data.X)[:, 0] if ch == 'c' and data.X and dim == 0 else np.array(data.X) if ch == 'c' and data.X else queries.get(ch, t)
            st = np.random.get_state()
            mu, var = expected(kind, dim, data, Q)
            np.random.set_state(st)
            if ch == 'c':
                ctx.close(m(Q), mu, tol, what + ': mean at its own samples vs a new model with the same data', rel=True)
            elif ch == 's':
                sel = m.select(Q, 2)
                score = mu if kind == 'lin' else mu + np.sqrt(var)
                order = sorted(score, reverse=True)
                ctx.check(len(sel) == 2 and len(set(int(i) for i in sel)) == 2, what + ': selected %s' % (sel,))
                for r, i in enumerate(sel):
                    ctx.check(score[int(i)] >= order[r] - 4 * tol * (1 + abs(order[r])), lambda: '%s: selected %s, a new model with the same data scores %s' % (what, [int(j) for j in sel], score))
            else:
                g, gv = m.predict(Q) if ch == 'q' else m.predict_large(Q)
                ctx.close(g, mu, tol, what + ': mean vs a new model with the same data', rel=True)
                if var is not None:
                    ctx.close(gv, var, tol, what + ': variance vs a new model with the same data', rel=True)
                ctx.outcome((kind, dim, np.round(g, 2)))
        ctx.step()
        ctx.state((kind, dim, data.key(), ch in QUERY or ch == 'f'))


def run_reg(case, ctx):
    dim = case['dim']
    m = make('reg')
    X, y, s = [], [], []
    queries = Queries(dim)
    k = 0
    for t, ch in enumerate(case['h']):
        what = 'regression GP history %s, operation %d (%s)' % (case['h'], t + 1, ch)
        if ch == 'R':
            m.reset()
            X, y, s = [], [], []
        elif ch in 'GH':
            n = 2 if ch == 'G' else 3
            Xn = hist.xs(dim, range(k, k + n))
            yn = np.array([0.3 + 0.4 * ((3 * (k + i)) % 5) for i in range(n)])
            k += n
            m.add(Xn, yn) if ch == 'G' else m.add(Xn, yn, training_sigma=0.1)
            X += [hist.row(x) for x in Xn]
            y += list(yn)
            s += [0.0005 if ch == 'G' else 0.1] * n
        else:
            Q = queries.get('q', t)
            XA = np.array(X).reshape(len(X), max(dim, 1))
            mu, cov = ref.gp_predict(KERN, XA, y, s, Q if dim else Q[:, None])
            if ch == 'q':
                g, gv = m.predict(Q)
                ctx.close(g, mu, 1e-6, what + ': mean', rel=True)
                ctx.close(gv, np.diag(cov), 1e-6, what + ': variance', rel=True)
                ctx.outcome(np.round(g, 3))
            else:
                sel = m.select(Q, 2)
                sc = mu + np.sqrt(np.maximum(np.diag(cov), 0))
                order = sorted(sc, reverse=True)
                for r, i in enumerate(sel):
                    ctx.check(sc[int(i)] >= order[r] - 1e-5, lambda: '%s: selected %s of scores %s' % (what, sel, sc))
        ctx.step()
        ctx.state(('reg', dim, tuple(X), tuple(y), tuple(s), ch))
