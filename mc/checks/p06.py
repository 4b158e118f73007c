"""P06: linear preference model is the maximum likelihood linear reward."""
import itertools

import numpy as np

import lop
from mc import ref, hist
from mc.core import Env, seeded, raises

TECHNIQUE = 'exhaustive enumeration of small label multisets, batchings and initialisations on the real model, against an independently computed maximum of the likelihood'
LEVEL_NOTE = 'all label multisets of the alphabet within the bounds, executed on the real code; initial weights from a menu'
RULE = ('every label graph over 3 samples (per pair: none / either direction / contradictory / repeated; per sample: unrated / rated / categorised) and structured graphs over '
        '4..33 samples in 2 and 3 dimensions, in one batch or every split into two batches with a fit in between; weights are read off the predictions; likelihood at the '
        'fitted weights is compared with the maximum over all weights, predictions with the inner product; menu of initial weights on a subset; a matrix inversion that refuses (at its first, second or third call, or on every singular matrix)')
BOUNDS = {'quick': '3 samples in full (3374 graphs, 2 dimensions), 4 samples structured in 3 dimensions, 16 and 33 samples; all two-batch splits on a subset; 5 initialisations',
          'thorough': '3 samples in full in 2 and 3 dimensions and with both kinds of rating on a sample, 4-6 samples structured, 16 and 33 samples; splits and 5 initialisations on a larger subset'}
ASSUMPTIONS = ['plain matrix inversion (an option) used on determined weights only', 'bounded ratings moderate (0.2 to 0.85), where the likelihood has one maximum (otherwise a local maximum is accepted)',
               'likelihood at the solution within 2e-3 of the maximum (the solver stops at weight changes below 2e-3)']
PAIR = [[], [[-1, 0, 1]], [[1, 0, 1]], [[-1, 0, 1], [1, 0, 1]], [[-1, 0, 1], [-1, 0, 1]]]
AV = [0.3, 0.8, 0.55, 0.2, 0.85, 0.45, 0.62]
OV = [2, 5, 3, 1, 4]


def graph(n, ps, rates, k):
    P = []
    for (u, v), s in zip(itertools.combinations(range(n), 2), ps):
        P += [[d, (u, v)[a], (u, v)[b]] for d, a, b in PAIR[s]]
    return P, [[OV[(i + k) % 5], i] for i in range(n) if 'o' in rates[i]], [[AV[(i + k) % 7], i] for i in range(n) if 'a' in rates[i]]


def cases(tier):
    t = tier == 'thorough'
    k = 0
    for dim in ((2, 3) if t else (2,)):
        for ps in itertools.product(range(5), repeat=3):
            for rates in itertools.product(['', 'a', 'o'] + (['ao'] if t else []), repeat=3):
                if not any(ps) and not any(rates):
                    continue
                k += 1
                P, O, A = graph(3, ps, rates, k)
                yield {'n': 3, 'off': (k * 5) % 29, 'dim': dim, 'p': P, 'o': O, 'a': A, 'split': 'fit' if k % 3 == 0 else 'one', 'menu': k % 29 == 0, 'inv': k % 5 == 0 and len(O) + len(A) > 1}
    for n in (4, 5) + ((6,) if t else ()):
        for dirs in itertools.product((-1, 1), repeat=n - 1):
            for r in range(4):
                k += 1
                P = [[d, i, i + 1] for i, d in enumerate(dirs)] + ([[1, n - 1, 0], [-1, n - 1, 0]] if r % 2 else [])
                A = [[AV[(i + k) % 7], i] for i in range(0, n, 2)] if r >= 2 else []
                O = [[OV[(i + k) % 5], i] for i in range(1, n, 2)] if r == 3 else []
                for sp in ('one', 'fit', 'each'):
                    yield {'n': n, 'off': (k * 3) % 20, 'dim': 2 + k % 2, 'p': P, 'o': O, 'a': A, 'split': sp, 'menu': k % 9 == 0, 'inv': False}
    for n in (16, 33):
        for r in range(8 if not t else 32):
            k += 1
            P = [[(-1) ** (i * (r + 1) // 2), i, (i * 7 + 3 + r) % n] for i in range(n) if i != (i * 7 + 3 + r) % n]
            A = [[AV[(i + r) % 7], i] for i in range(0, n, 3)] if r % 2 else []
            O = [[OV[(i + r) % 5], i] for i in range(1, n, 4)] if r % 3 else []
            yield {'n': n, 'off': 0, 'dim': 2 + r % 2, 'p': P, 'o': O, 'a': A, 'split': ('one', 'fit', 'each')[r % 3], 'menu': r < 2, 'inv': r % 4 == 0}
    # a matrix inversion that refuses: at one of its calls, or whenever the matrix is singular (samples on a line)
    for n in (3, 4):
        for ps in itertools.product(range(4), repeat=3):
            k += 1
            P, O, A = graph(3, ps, [['', '', ''], ['a', '', 'o'], ['o', 'a', ''], ['a', 'a', 'o']][k % 4], k)
            if not P and not O and not A:
                continue
            for at in ((0, 1, 2) if n == 3 else ('line',)):
                yield {'n': 3, 'off': (k * 5) % 29, 'dim': 2, 'p': P, 'o': O, 'a': A, 'split': 'one', 'menu': False, 'inv': False, 'fail': at}
    # separable comparisons: ordered by a hidden weight
    for w in ([1, 0.3], [0.2, -1], [-0.7, 0.7], [-0.4, -1], [1, 0.5, -0.8], [-0.3, 1, 0.4]):
        for n in (2, 3, 5, 9, 16):
            for sp in ('one', 'fit', 'each'):
                k += 1
                X = hist.xs(len(w), [(k + 3 * i) % 32 for i in range(n)])
                f = X @ np.array(w)
                P = [[-1 if f[i] > f[j] else 1, i, j] if (i + j) % 2 else [1 if f[i] > f[j] else -1, j, i] for i, j in itertools.combinations(range(n), 2) if abs(f[i] - f[j]) > 0.05]
                if P:
                    yield {'n': n, 'off': k % 32, 'step': 3, 'dim': len(w), 'p': P, 'o': [], 'a': [], 'split': sp, 'menu': k % 2 == 0, 'inv': False}
    for sp in range(4):
        yield {'n': 3, 'off': sp, 'dim': 0, 'p': [[-1, 0, 1]] if sp % 2 else [], 'o': [], 'a': [[0.3, 2]] if sp > 1 else [], 'split': 'one', 'menu': False, 'inv': False}


def add(m, X, P, O, A):
    m.add(X, [tuple(q) for q in P])
    if O:
        m.add(X[:0], np.array(O, dtype=int), type='ordinal')
    if A:
        m.add(X[:0], (np.array([v for v, _ in A]), np.array([i for _, i in A])), type='abs')


def maximum(d, X, starts):
    """maximiser of the likelihood over the weights: (log likelihood, weights, bounded)"""
    out = []
    dim = X.shape[1]
    for w in starts:
        w = np.array(w, dtype=float)
        o, g, H = d.ll(X @ w)
        for it in range(200):
            gw, Hw = X.T @ g, X.T @ H @ X
            ev, V = np.linalg.eigh(-Hw)
            stp = V @ ((V.T @ gw) / np.maximum(np.abs(ev), 1e-9))
            if np.linalg.norm(stp) > 10:
                stp *= 10 / np.linalg.norm(stp)
            t = 1.0
            while t > 1e-10:
                o2, g2, H2 = d.ll(X @ (w + t * stp))
                if np.isfinite(o2) and o2 >= o + 1e-4 * t * (gw @ stp):
                    break
                t *= 0.5
            else:
                break
            w, o, g, H = w + t * stp, o2, g2, H2
            if np.linalg.norm(t * stp) < 1e-11 or np.linalg.norm(w) > 60 or o > -1e-7:
                break
        out.append((o, w))
    out.sort(key=lambda s: -s[0])
    return out


def refusing(at):
    calls = [0]

    def inv(M):
        calls[0] += 1
        if calls[0] - 1 == at:
            raise np.linalg.LinAlgError('Singular matrix')
        return np.linalg.pinv(M)
    return inv


def one(case, ctx):
    n, dim = case['n'], case['dim']
    X = hist.xs(dim, [(case['off'] + case.get('step', 1) * i) % 32 for i in range(n)])
    if n > 32:
        X = X + 0.003 * np.arange(n)[:, None]
    P, O, A = case['p'], case['o'], case['a']
    m = lop.PreferenceLinear(mat_inv=np.linalg.inv) if case['inv'] else lop.PreferenceLinear()
    if case.get('fail') == 'line':
        X = np.array([[0.25, 0.25], [0.75, 0.75], [1.5, 1.5]])[:n]
        m = lop.PreferenceLinear(mat_inv=np.linalg.inv)
    elif 'fail' in case:
        m = lop.PreferenceLinear(mat_inv=refusing(case['fail']))
    if dim == 0:
        ok, e = raises(lambda: (add(m, X, P, O, A), m.predict(X)))
        ctx.check(ok, 'one dimensional samples are accepted by the linear model')
        ctx.state(('flat', P, A))
        return
    if case['split'] == 'one':
        add(m, X, P, O, A)
    elif case['split'] == 'fit':
        h = n // 2
        add(m, X[:h], [q for q in P if q[1] < h and q[2] < h], [q for q in O if q[1] < h], [q for q in A if q[1] < h])
        m.predict(X)
        # comparisons are numbered within their own batch: bring the earlier samples again where needed
        rest = [q for q in P if not (q[1] < h and q[2] < h)]
        m.add(X[h:], [])
        if rest:
            ids = sorted(set(i for q in rest for i in q[1:]))
            m.add(X[ids], [(q[0], ids.index(q[1]), ids.index(q[2])) for q in rest])
        add(m, X[:0], [], [q for q in O if q[1] >= h], [q for q in A if q[1] >= h])
    else:
        m.add(X, [])
        for q in P:
            m.add(X[[q[1], q[2]]], [(q[0], 0, 1)])
        for q in O:
            m.add(X[q[1]:q[1] + 1], [q[0]], type='ordinal')
        for q in A:
            m.add(X[q[1]:q[1] + 1], np.array([q[0]]), type='abs')
    d = ref.Data()
    d.X, d.pairs, d.ords, d.abss = [hist.row(x) for x in X], [tuple(q) for q in P], [tuple(q) for q in O], [(float(v), i) for v, i in A]
    what = 'comparisons %s categories %s ratings %s of %d samples (offset %d, %d features, %s%s)' % (P[:8], O[:8], A[:8], n, case['off'], dim, case['split'], ', refused inversion %s' % case['fail'] if 'fail' in case else '')
    w = np.array(m(np.eye(dim)))
    ctx.check(np.all(np.isfinite(w)), lambda: what + ': weights %s' % w)
    Q = hist.xs(dim, [(case['off'] + 7 * i) % 32 for i in range(5)]) * 1.3 - 0.2
    for f in (lambda Z: m.predict(Z)[0], m, lambda Z: m.predict_large(Z)[0]):
        ctx.close(f(Q), Q @ w, 1e-9, what + ': prediction vs inner product with the weights', rel=True)
    got = d.ll(X @ w)[0]
    sols = maximum(d, X, [np.zeros(dim), np.full(dim, 0.5)])
    best, wb = sols[0]
    HB = -X.T @ d.ll(X @ wb)[2] @ X
    if np.linalg.norm(wb) < 50 and np.linalg.eigvalsh(HB)[0] > 1e-2:
        near = min(abs(got - o) for o, v in sols)
        ctx.check(got > best - 2e-3 * (1 + abs(best)) or near < 2e-3 * (1 + abs(best)), lambda: '%s: log likelihood %g at the weights %s, the maximum is %g at %s' % (what, got, w, best, wb))
        if np.linalg.eigvalsh(HB)[0] > 0.3 and len(sols) and abs(sols[0][0] - sols[-1][0]) < 1e-9:
            ctx.check(np.max(np.abs(w - wb)) < 5e-2 * (1 + np.max(np.abs(wb))), lambda: '%s: weights %s, the likelihood is maximal at %s' % (what, w, wb))
    else:
        ctx.check(got > best - 5e-2, lambda: '%s: log likelihood %g at the weights %s, %g is reachable' % (what, got, w, best))
    F = X @ w
    if not O and not A:
        # consistent with some linear reward: all reproduced
        if best > -1e-3:
            for c, u, v in P:
                ctx.check((F[u] > F[v]) == (c == -1), lambda: '%s: the comparison %s is not reproduced by the rewards %s' % (what, [c, u, v], F))
    ctx.step()
    ctx.state((d.key(), case['split']))
    ctx.outcome(np.round(w, 2))


def run(case, ctx):
    if case['menu']:
        def body(ch):
            with Env(ch, vec=('mid', 'low', 'up', 'down', 'high')):
                one(case, ctx)
        ctx.explore(body)
    else:
        one(case, ctx)
