"""P29: reward alignment measures are what they claim."""
import itertools

import numpy as np

import lop
from mc import learn
from mc.core import raises

TECHNIQUE = 'exhaustive enumeration of all small sets of reward assignments (every weak order of the representative points, structured magnitudes) and query sets, comparing the real measures with an independent entrywise computation'
LEVEL_NOTE = 'all assignments and query sets of the alphabet; each matrix is checked entrywise, for symmetry, diagonal, reordering and agreement between within-set and between-set measures'
RULE = ('measure x every set of 2-3 assignments among all weak orders of 3 points (pairs for 4 points) x magnitude (tiny, unit, large, shifted) x every set of up to 2 queries of 2 or 3 alternatives in any orientation; every division of the assignments into two equal sets')
BOUNDS = {'quick': 'all 12^2 pairs and 1 in 2 of the 12^3 triples of weak orders of 3 points, 1 in 5 of the 74^2 pairs for 4 points, 5 magnitudes; log likelihood: 1 in 18 of the triples, all query sets of up to 2 queries in turn',
          'thorough': 'all triples of weak orders of 3 points, all pairs for 4 points, sets of 4 of 3 points (1 in 5), all 1- and 2-element query sets'}
ASSUMPTIONS = ['assignments are not constant over the representative points for the correlation measures (the correlation is undefined there)', 'rewards up to magnitude 1000 (the log likelihood: up to 100, its entries are compared exactly while no choice is less likely than 29 sigma)']


def weak(n):
    """every assignment of ranks to n points, ties allowed, not all tied"""
    out = []
    for r in itertools.product(range(n), repeat=n):
        if set(r) == set(range(max(r) + 1)) and max(r) > 0:
            out.append(r)
    return out


MAGS = [('unit', lambda r, i: np.array(r) * 0.7 - 0.4), ('tiny', lambda r, i: np.array(r) * 0.01 + 0.02 * i), ('wide', lambda r, i: np.array(r) ** 2 * (1.5 + i) - 3.0),
        ('shift', lambda r, i: np.array(r) * 1.1 + 5.0 * i - 40.0), ('huge', lambda r, i: np.array(r) * 450.0 * (1 if i % 2 else 0.4) - 100.0)]
KINDS = ('rho', 'epic', 'spearman', 'one', 'loglikelihood')


def queries(n, every=False):
    if n == 2:
        return [np.array([[0, 1]]), np.array([[1, 0]])]
    one2 = [[a, b] for a in range(n) for b in range(n) if a != b]
    one3 = [list(p) for p in itertools.permutations(range(n), 3)]
    if every:
        return [np.array([q]) for q in one2 + one3] + [np.array(q) for q in itertools.combinations(one2, 2)] + [np.array(q) for q in itertools.combinations(one3, 2)]
    return [np.array([[0, 1]]), np.array([[2, 0]]), np.array([[1, 2], [0, 1]]), np.array([[0, 1, 2]]), np.array([[2, 0, 1], [0, 2, 1]]), np.array([[0, 2], [2, 1], [0, 1]])]


def cases(tier):
    t = tier == 'thorough'
    for kind in KINDS:
        for mag in range(len(MAGS) - (kind == 'loglikelihood')):
            for a in range(12):
                yield {'kind': kind, 'mag': mag, 'n': 3, 'M': 3, 'a': a, 'step': 1 if t else 2, 'every': t}
                yield {'kind': kind, 'mag': mag, 'n': 3, 'M': 2, 'a': a, 'step': 1, 'every': True}
            for a in range(74):
                yield {'kind': kind, 'mag': mag, 'n': 4, 'M': 2, 'a': a, 'step': 1 if t else 5, 'every': False}
            if t:
                for a in range(12):
                    yield {'kind': kind, 'mag': mag, 'n': 3, 'M': 4, 'a': a, 'step': 5, 'every': False}
    for mag in range(len(MAGS)):
        for i in range(8 if t else 3):
            yield {'kind': 'many', 'mag': mag, 'i': i}


class Lazy:
    pass


def learner(kind, M, sigma=None):
    L = lop.AcquisitionSelection(M=M, alignment_f=kind, rep_Q_data={'num_pts': 3, 'num_Q': 2})
    m = lop.PreferenceGP(lop.RBF_kern(0.5, 0.7))
    if sigma:
        m.probits[0].set_sigma(sigma)
    L.set_model(m)
    return L


def one(ctx, kind, R, Q, where, sigma=None):
    """check everything about the alignment of the assignments R"""
    M = len(R)
    L = learner(kind, M, sigma)
    sg = sigma or 0.5
    Rc, Qc = R.copy(), Q.copy()
    f = np.asarray(L.alignment(Rc, Qc), dtype=float)
    ctx.check(np.array_equal(Rc, R) and np.array_equal(Qc, Q), lambda: where + ': the rewards or queries passed are modified')
    ctx.check(f.shape == (M, M), lambda: '%s: shape %s for %d assignments' % (where, f.shape, M))
    want = learn.sim_matrix(kind, R, Q, sg)
    tol = 1e-6 if kind != 'loglikelihood' else 1e-5
    ctx.check(np.all(np.isfinite(f)), lambda: '%s: not finite %s' % (where, f))
    if kind == 'loglikelihood':
        # the library treats choices with a log probability below about -450 as that (its normal cdf is cut at 30 sigma)
        z = np.array([(r.max() - r.min()) / (np.sqrt(2) * sg) for r in R])
        sat = (z[:, np.newaxis] > 29) | (z[np.newaxis, :] > 29)
        ctx.check(np.all(f[sat & (want > -300)] >= -320) and np.all(f[sat & (want < -460)] <= -440), lambda: '%s: %s, expected %s' % (where, f, want))
        want = np.where(sat, f, want)
    ctx.close(f, want, tol, where, rel=True)
    ctx.check(np.allclose(f, f.T, rtol=1e-7, atol=1e-6), lambda: where + ': not symmetric')
    if kind != 'loglikelihood':
        ctx.check(np.all(np.diagonal(f)[:, np.newaxis] >= f - 1e-6), lambda: where + ': two different assignments align better than one with itself')
    perm = list(range(M))[1:] + [0]
    g = np.asarray(L.alignment(R[perm].copy(), Q.copy()))
    ctx.check(np.allclose(g, f[np.ix_(perm, perm)], rtol=1e-6, atol=1e-6), lambda: where + ': reordering the assignments does not reorder the matrix')
    ctx.step(2)
    return f


def between(ctx, kind, R1, R2, where, f=None):
    L = learner(kind, len(R1))
    a, b = R1.copy(), R2.copy()
    refused, h = raises(L.alignment_between, a, b)
    if refused:
        ctx.check(isinstance(h, NotImplementedError), lambda: '%s between: %s: %s' % (where, type(h).__name__, h))
        ctx.check(kind in ('rho', 'loglikelihood'), lambda: '%s between: refused' % where)
        return
    ctx.check(np.array_equal(a, R1) and np.array_equal(b, R2), lambda: where + ': the rewards passed are modified')
    h = np.asarray(h, dtype=float)
    ctx.check(h.shape == (len(R1), len(R2)), lambda: '%s between: shape %s' % (where, h.shape))
    want = np.array([[learn.similarity(kind, x, y) for y in R2] for x in R1])
    ctx.close(h, want, 1e-6, where + ' between ' + str(R2.tolist()), rel=True)
    ctx.step()


def run(case, ctx):
    kind = case['kind']
    name, mk = MAGS[case['mag']]
    if kind == 'many':
        # larger sets take compiled or vectorised paths
        M, n = 6 + 7 * case['i'], 5
        W = weak(4)
        R = np.array([np.append(r, r[0] + 0.3 * (i % 3)) for i, r in enumerate(mk(W[(7 * i + case['i'] * 5) % len(W)], i) for i in range(M))])
        Q = np.array([[0, 1, 2], [3, 4, 0], [1, 3, 2], [2, 4, 1]])[:, :2 + case['i'] % 2]
        for k in KINDS[:4 if name in ('huge', 'wide') else 5]:
            where = '%s, %d assignments (%s)' % (k, M, name)
            one(ctx, k, R, Q, where)
            ctx.state((k, M, name))
            if M % 2 == 0:
                between(ctx, k, R[:M // 2], R[M // 2:], where)
            elif k != 'one':
                between(ctx, k, R[:M // 2], R[M // 2:-1], where)
        ctx.traces += 1
        return
    n, M = case['n'], case['M']
    W = weak(n)
    combos = itertools.product(range(len(W)), repeat=M - 1)
    Qs = queries(n, case['every'] and kind == 'loglikelihood')
    for j, rest in enumerate(combos):
        j += case['a']
        if j % case['step'] != case['a'] % case['step']:
            continue
        if kind == 'loglikelihood' and M == 3 and j % 18 != case['a'] % 18 or kind == 'one' and j % 9:
            continue
        R = np.array([mk(W[w], i) for i, w in enumerate((case['a'],) + rest)], dtype=float)
        for q, Q in enumerate(Qs if kind == 'loglikelihood' else [Qs[j % len(Qs)]]):
            if kind == 'loglikelihood' and len(Qs) > 12 and (q + j) % 4:
                continue
            where = '%s, assignments %s%s' % (kind, R.round(3).tolist(), ', queries %s' % Q.tolist() if kind == 'loglikelihood' else '')
            f = one(ctx, kind, R, Q, where, 0.25 + 0.75 * (j % 2) if kind == 'loglikelihood' and name in ('unit', 'tiny') else None)
            ctx.state((kind, name, n, case['a'], rest, q))
            ctx.outcome(np.round(f, 6).tobytes())
        if M == 2:
            between(ctx, kind, R[:1], R[1:], where)
            between(ctx, kind, R, R[::-1].copy() * 1.0, where)
        elif M == 4:
            between(ctx, kind, R[:2], R[2:], where)
        elif M == 3:
            between(ctx, kind, R, R[[2, 0, 1]], where)
        ctx.traces += 1
