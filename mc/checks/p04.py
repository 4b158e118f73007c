"""P04: preference GP predictions are the Laplace posterior at the MAP rewards."""
import itertools

import numpy as np

import lop
from mc import ref, hist
from mc.core import Env, seeded

TECHNIQUE = 'exhaustive enumeration of small label graphs, kernels, options and initialisations on the real model against an independently computed optimum and Laplace posterior'
LEVEL_NOTE = 'all label graphs of the alphabet within the bounds, executed on the real code; initial rewards from a menu'
RULE = ('every label graph over 2 and 3 samples (per pair: none / either direction / contradictory / repeated; per sample: unrated / rated / '
        'categorised / both) with kernels, shapes, option sets and initial-reward patterns assigned in rotation (full product for the small ones), '
        'plus structured graphs on 4..31 samples, normalised models, duplicated samples, query sets of 1..33 points and the model without data')
BOUNDS = {'quick': '2-3 samples in full (about 3500 graphs), 4-5 samples structured, 16 and 31 samples; 8 kernels; 5 initialisations',
          'thorough': '2-3 samples in full x 3 kernel rotations, 4 samples with all tournament graphs and rating patterns, up to 31 samples; 8 kernels; 5 initialisations'}
ASSUMPTIONS = ['kernel matrices with condition number below 1e7', 'label sets whose log posterior has a single maximum (others: any local maximum is accepted)',
               'mode accurate to 5e-3 (the solver stops at 2e-4); mean and covariance exact given the fitted rewards (1e-5, 2e-3)']
KERN = [['rbf', 0.5, 0.7, 0.0], ['rbf', 1.0, 0.5, 0.05], ['+', ['rbf', 0.6, 0.8, 0.01], ['lin', 0.5, 0.3, 0.1]],
        ['*', ['rbf', 0.9, 0.9, 0.02], ['lin', 0.6, 0.8, 0.0]], ['rbf0', 0.8, 0.6, None, 0.01],
        ['+', ['rbf', 0.5, 0.5, 0.0], ['rbf', 0.4, 1.2, 0.02]], ['rbf', 1.3, 1.0, 0.1], ['+', ['per', 0.5, 1.0, 3.3], ['rbf', 0.5, 0.6, 0.02]]]
PAIR = [[], [[-1, 0, 1]], [[1, 0, 1]], [[-1, 0, 1], [1, 0, 1]], [[-1, 0, 1], [-1, 0, 1]]]
RATE = ['', 'a', 'o', 'ao']
# likelihood parameters given by the user: comparison spread, rating spread and precision, category spread
LIK = [{}, {'sig': 0.9, 'asig': 0.7, 'v': 25.0, 'osig': 0.8}, {'sig': 0.3, 'asig': 1.5, 'v': 250.0, 'osig': 1.4}, {'sig': 1.6, 'asig': 1.0, 'v': 8.0, 'osig': 1.0}]
STRONG = [['rbf', 4.0, 0.7, 0.05], ['rbf', 2.5, 0.3, 0.0], ['+', ['rbf', 3.0, 1.5, 0.1], ['lin', 1.0, 0.5, 0.2]]]
KERN += STRONG
NK = len(KERN) - len(STRONG)
AV = [0.3, 0.8, 0.55, 0.1, 0.95, 0.0, 1.0, 0.62]
OV = [2, 5, 3, 1, 4]


def graph(n, pair_states, rates, shift=0):
    ops_p, i = [], 0
    for u, v in itertools.combinations(range(n), 2):
        for d, a, b in PAIR[pair_states[i]]:
            ops_p.append([d, (u, v)[a], (u, v)[b]])
        i += 1
    A = [[AV[(i + shift) % len(AV)], i] for i in range(n) if 'a' in rates[i]]
    O = [[OV[(i + shift) % len(OV)], i] for i in range(n) if 'o' in rates[i]]
    return ops_p, O, A


def cases(tier):
    t = tier == 'thorough'
    yield {'kind': 'prior'}
    k = 0
    for n in (1, 2, 3):
        for ps in itertools.product(range(5), repeat=n * (n - 1) // 2):
            for rates in itertools.product(RATE if n < 3 else RATE[:3], repeat=n):
                if not any(ps) and not any(rates):
                    continue
                k += 1
                p, O, A = graph(n, ps, rates, k)
                for rot in range(NK if n < 3 else (3 if t else 1)):
                    ker = (k + rot * 3) % NK
                    dim = (2, 0, 3, 1)[(k // 3 + rot) % 4]
                    yield {'kind': 'fit', 'n': n, 'off': (k * 5) % 23, 'p': p, 'o': O, 'a': A, 'ker': ker, 'dim': dim,
                           'lik': (k + 2 * rot) // 2 % 4 if n > 1 else rot % 4, 'inv': 'inv' if (k + rot) % 5 == 0 else 'pinv', 'menu': n == 2 and rot < 3 or k % 9 == 0, 'late': k % 4 == 0}
    # larger structured graphs: chains, stars, cycles, mixtures; all orientations of a chain on 4 (and 5)
    for n in ((4, 5) if not t else (4, 5, 6)):
        for dirs in itertools.product((-1, 1), repeat=n - 1):
            for r in range(4):
                k += 1
                p = [[d, i, i + 1] for i, d in enumerate(dirs)] + ([[1, n - 1, 0]] if r % 2 else [])
                A = [[AV[(i + k) % 8], i] for i in range(0, n, 2)] if r >= 2 else []
                O = [[OV[(i + k) % 5], i] for i in range(1, n, 2)] if r == 3 else []
                yield {'kind': 'fit', 'lik': k % 4, 'n': n, 'off': (k * 3) % 20, 'p': p, 'o': O, 'a': A, 'ker': k % NK, 'dim': (2, 3)[k % 2], 'inv': 'pinv',
                       'menu': k % 7 == 0, 'late': k % 3 == 0}
    for n in (16, 31):
        for r in range(6 if not t else 24):
            k += 1
            p = [[(-1) ** (i * (r + 1) // 2), i, (i * 7 + 3 + r) % n] for i in range(n) if i != (i * 7 + 3 + r) % n]
            A = [[AV[(i + r) % 5], i] for i in range(0, n, 3)] if r % 2 else []
            O = [[OV[(i + r) % 5], i] for i in range(1, n, 4)] if r % 3 else []
            yield {'kind': 'fit', 'n': n, 'off': 0, 'p': p, 'o': O, 'a': A, 'ker': (1, 2, 6)[r % 3], 'dim': (2, 3)[r % 2], 'inv': 'pinv', 'menu': False, 'late': r % 2 == 0}
    # ratings at the ends of the range, against strong kernels and comparisons that contradict them
    for n, vals in ((2, (None, 0.0, 0.05, 0.5, 1.0)), (1, (0.0, 0.05, 0.5, 0.95, 1.0)), (3, (None, 0.0, 1.0))):
        for rv in itertools.product(vals, repeat=n):
            for ps in (itertools.product(range(5), repeat=1) if n == 2 else [()] if n == 1 else [(1, 2, 0), (0, 1, 3), (2, 2, 4)]):
                if all(v is None for v in rv):
                    continue
                for lik in range(len(LIK)):
                    for kk in range(len(STRONG)):
                        k += 1
                        if n == 3 and k % 3 and not t:
                            continue
                        p = graph(n, ps, [''] * n)[0]
                        yield {'kind': 'fit', 'lik': lik, 'n': n, 'off': (k * 7) % 23, 'p': p, 'o': [], 'a': [[v, i] for i, v in enumerate(rv) if v is not None], 'ker': NK + kk,
                               'dim': (2, 0)[k % 2], 'inv': 'pinv', 'menu': t or k % 4 == 0, 'late': False}
    # duplicated samples
    for r in range(8):
        yield {'kind': 'fit', 'n': 4, 'off': r, 'dup': True, 'p': [[-1, 0, 1], [1, 2, 3], [-1, 3, 1]], 'o': [[2, 0]] if r % 2 else [], 'a': [[0.4, 2], [0.7, 2]] if r % 3 else [],
               'ker': (1, 6, 2, 7)[r % 4], 'dim': 2, 'inv': 'pinv', 'menu': r < 4, 'late': False}
    # query sets
    for q in (1, 2, 7, 14, 15, 16, 29, 30, 31, 32) + ((33,) if t else ()):
        for dim in (0, 1, 2, 3):
            for dat in (0, 1, 2):
                k += 1
                p, O, A = [([], [], []), ([[-1, 0, 1], [1, 2, 1]], [], [[0.3, 2]]), ([[1, 0, 2]], [[4, 1]], [[0.9, 0]])][dat]
                yield {'kind': 'large', 'q': q, 'n': 3 if dat else 0, 'off': 0, 'p': p, 'o': O, 'a': A, 'ker': k % NK, 'dim': dim}
    # normalised models
    for pos in (False, True):
        for n in (2, 3):
            for ps in itertools.product(range(5), repeat=n * (n - 1) // 2):
                for rates in ([''] * n, ['a'] + [''] * (n - 1), ['o'] * n, ['ao'] + ['a'] * (n - 1)):
                    if not any(ps) and not any(rates):
                        continue
                    k += 1
                    p, O, A = graph(n, ps, rates, k)
                    yield {'kind': 'norm', 'pos': pos, 'n': n, 'off': (k * 5) % 23, 'p': p, 'o': O, 'a': A, 'ker': k % NK, 'dim': (2, 0, 3)[k % 3], 'menu': k % 5 == 0}


def xset(case):
    ids = [(case['off'] + i) % 31 for i in range(case['n'])]
    if case.get('dup'):
        ids[3] = ids[0]
        ids[2] = ids[1]
    return hist.xs(case['dim'], ids)


def col(X):
    return X if X.ndim > 1 else X[:, None]


def build(case, spec, **kw):
    if case.get('late'):
        # parameters set after construction
        kern = ref.build_kernel(ref.with_par(spec, [v * 1.7 + 0.1 for v in ref.get_par(spec)]))
        kern.set_param(np.array(ref.get_par(spec)))
    else:
        kern = ref.build_kernel(spec)
    m = lop.PreferenceGP(kern, **kw)
    data = ref.Data()
    if case['n']:
        X = xset(case)
        m.add(X, [tuple(q) for q in case['p']])
        data.X = [hist.row(x) for x in X]
        data.pairs = [tuple(q) for q in case['p']]
        if case['o']:
            m.add(X[:0], np.array(case['o'], dtype=int), type='ordinal')
            data.ords = [tuple(q) for q in case['o']]
        if case['a']:
            m.add(X[:0], (np.array([v for v, _ in case['a']]), np.array([i for _, i in case['a']])), type='abs')
            data.abss = [(ref.clamp(v), i) for v, i in case['a']]
    return m, data


def probits(case, ctx=None):
    l = LIK[case.get('lik', 0)]
    if not l:
        return {}
    return {'relative_discrete': lop.PreferenceProbit(l['sig']), 'abs': lop.AbsBoundProbit(sigma=l['asig'], v=l['v']), 'ordinal': lop.OrdinalProbit(sigma=l['osig'])}


def queries(case):
    return hist.xs(case['dim'], [(case['off'] + 40 + 3 * i) % 32 for i in range(5)]) + 0.013


def run(case, ctx):
    if case['kind'] == 'prior':
        for spec in KERN:
            for dim in (0, 1, 2, 3):
                for q in (1, 2, 17):
                    m = lop.PreferenceGP(ref.build_kernel(spec))
                    Q = hist.xs(dim, range(q))
                    for f in (m.predict, m.predict_large):
                        mu, var = f(Q)
                        C = ref.kcov(spec, col(Q), col(Q))
                        ctx.close(mu, np.zeros(q), 1e-12, 'mean before any data, %s' % spec)
                        ctx.close(var, np.diag(C), 1e-9, 'variance before any data, %s' % spec)
                        ctx.step()
                    ctx.close(m(Q), np.zeros(q), 1e-12, 'call before any data')
                    ctx.state((str(spec), dim, q))
        return
    spec = KERN[case['ker']]
    if case['kind'] == 'large':
        m, data = build(case, spec)
        seeded(3)
        Q = hist.xs(case['dim'], range(case['q'])) + 0.017
        mu, var = m.predict_large(Q)
        mu2, var2 = m.predict(Q)
        ctx.close(mu, mu2, 1e-8, 'chunked mean of %d points vs the mean at once' % case['q'])
        ctx.close(var, var2, 1e-8, 'chunked variance of %d points vs the variance at once' % case['q'])
        ctx.close(m(Q), mu2, 1e-8, 'calling the model vs predict')
        ctx.step(3)
        ctx.state((case['q'], case['dim'], data.key(), str(spec)))
        return
    if case['menu']:
        def body(ch):
            with Env(ch, vec=('mid', 'low', 'up', 'down', 'high')):
                one(case, ctx, spec)
        ctx.explore(body)
    else:
        one(case, ctx, spec)


def one(case, ctx, spec):
    kw = {}
    if case.get('inv') == 'inv':
        kw['mat_inv'] = np.linalg.inv
    if case['kind'] == 'norm':
        kw = {'normalize_gp': True, 'normalize_positive': case['pos']}
    X = xset(case)
    K = ref.kcov(spec, col(X), col(X))
    if np.linalg.cond(K) > 1e7:
        return
    lik = LIK[case.get('lik', 0)]
    if lik:
        kw['other_probits'] = probits(case)
    m, data = build(case, spec, **kw)
    what = 'labels %s %s %s on %d samples, kernel %s, likelihood %s' % (case['p'], case['o'], case['a'], case['n'], spec, lik or 'default')
    if case['kind'] == 'norm':
        # the normalised reward is only defined when the rewards differ
        F0 = ref.map_fit(K, data, **lik)[0][1]
        if F0.max() - F0.min() < 0.05 or np.abs(F0).max() < 0.05:
            return
    Q = queries(case)
    mu, var = m.predict(Q)
    cov = np.array(m.cov)
    F = np.array(m(X))
    if case['kind'] == 'norm':
        ctx.check(np.all(np.isfinite(F)), what + ': normalised rewards %s' % F)
        if case['pos']:
            ctx.check(abs(F.min()) < 1e-6 and abs(F.max() - 1) < 1e-6, lambda: what + ': rewards normalised to [0,1] are %s' % F)
        else:
            ctx.check(abs(np.abs(F).max() - 1) < 1e-6, lambda: what + ': rewards normalised to maximum 1 are %s' % F)
    else:
        sols = ref.map_fit(K, data, **lik)
        err = min(float(np.max(np.abs(F - s[1]))) for s in sols)
        ctx.check(err < 5e-3, lambda: '%s: fitted rewards %s, the maximum of the log posterior is at %s' % (what, F, sols[0][1]))
    W = -data.ll(F, **lik)[2]
    rmu, rcov = ref.laplace_predict(spec, col(X), F, W, col(Q))
    ctx.close(mu, rmu, 1e-5, what + ': mean given the fitted rewards', rel=True)
    ctx.close(cov, rcov, 2e-3, what + ': covariance of the Laplace posterior', rel=True)
    ctx.close(var, np.maximum(np.diag(rcov), 0), 2e-3, what + ': variance of the Laplace posterior', rel=True)
    ctx.step()
    ctx.state((data.key(), str(spec), case['kind'], case.get('pos')))
    ctx.outcome(np.round(F, 3))
