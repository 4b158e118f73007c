"""P07: judgement likelihoods are proper probabilities with the documented orientation."""
import itertools
import math

import numpy as np
from scipy import special as sp

import lop
from mc import ref

TECHNIQUE = 'exhaustive enumeration of rewards, labels, index patterns and parameter-setting histories on the real likelihoods, against their defining formulas'
LEVEL_NOTE = 'every combination of the bounded grids is executed on the real code'
RULE = ('comparisons: every list of up to 3 comparisons over 3 samples x reward grids x parameter-setting histories, and all-pairs matrices; category ratings: every category count '
        '2..7 x break points x noise x reward grid x setting histories, all categories, repeated samples; bounded ratings: value grid x reward grid x slopes x precisions x setting '
        'histories: values against the definition, totals over all outcomes, monotonicity in the reward, logarithms, joint likelihood of several judgements')
BOUNDS = {'quick': 'rewards in [-3,3] on 7-13 point grids; 258 comparison lists; 6 parameter histories; 6 category counts; 7 slopes x precisions',
          'thorough': 'rewards in [-5,5] on 13-41 point grids; 1554 comparison lists; 6 parameter histories; 6 category counts; 30 slopes x precisions'}
ASSUMPTIONS = ['|z| below the clipping at 30', 'break points given as a vector are increasing', 'values of bounded ratings strictly inside (0,1)']


def set_hist(p, hist, par, setters):
    """parameter-setting histories: '' constructor only, 's' setters, 'h' set_hyper, 'xs'/'xh' other values first"""
    for ch in hist:
        if ch == 'x':
            p.set_hyper([v * 1.7 + 0.3 for v in par])
        elif ch == 'h':
            p.set_hyper(list(par))
        elif ch == 'a':
            p.set_hyper(np.array(par))
        elif ch == 's':
            for f, v in zip(setters, par):
                getattr(p, f)(v)
        elif ch == 'r':
            p.randomize_hyper()


HIST = ['', 's', 'h', 'xs', 'xa', 'r']


def cases(tier):
    t = tier == 'thorough'
    for sigma in (0.5, 1.0, 0.2, 2.5) + ((0.35, 7.0) if t else ()):
        for h in HIST:
            yield {'kind': 'pref', 'sigma': sigma, 'h': h, 'len': 4 if t else 3, 'shard': None}
    for n in range(2, 8):
        for b in (1.0, 0.5, 2.0, -0.8, 'v', 'w'):
            for sigma in (1.0, 0.3, 2.0):
                for h in HIST + (['n', 'm'] if b in (1.0, 2.0) and n != 5 else []):
                    yield {'kind': 'ord', 'n': n, 'b': b, 'sigma': sigma, 'h': h, 'fine': t}
    for sigma in (1.0, 0.4, 2.0) + ((0.7, 3.0) if t else ()):
        for v in (80.0, 10.0, 2.5, 300.0) + ((25.0, 150.0) if t else ()):
            for h in HIST:
                yield {'kind': 'abs', 'sigma': sigma, 'v': v, 'h': h, 'fine': t}


def run(case, ctx):
    {'pref': pref, 'ord': ordi, 'abs': absb}[case['kind']](case, ctx)


FAR = [-1e6, -300.0, -40.0, -12.0, -8.0, -5.0, 0.0, 5.0, 8.0, 12.0, 40.0, 300.0, 1e6]


def far(ctx, like, what):
    """rewards far outside the usual range: probabilities stay probabilities (like: reward -> outcomes' probabilities, worst outcome first)"""
    prev = None
    for f in FAR:
        P = np.asarray(like(f), dtype=float)
        ctx.check(np.all(np.isfinite(P)) and np.all(P >= 0) and abs(P.sum() - 1) < 1e-9, lambda: '%s, reward %g: probabilities of the outcomes %s' % (what, f, P))
        cum = np.cumsum(P)
        ctx.check(prev is None or np.all(cum <= prev + 1e-9), lambda: '%s, reward %g: a better reward makes better outcomes less likely' % (what, f))
        prev = cum
        ctx.step()


def pref(case, ctx):
    s = case['sigma']
    p = lop.PreferenceProbit(sigma=s if case['h'] in ('', 'r') else 1.9 * s)
    set_hist(p, case['h'], [s], ['set_sigma'])
    c = 1 / (math.sqrt(2) * s)
    grid = [-1.5, -0.4, 0.0, 0.3, 1.1]
    comps = [[d, u, v] for u, v in itertools.combinations(range(3), 2) for d in (-1, 1)]
    Fs = [np.array(F) for F in itertools.product(grid, repeat=3)]
    # the values of single comparisons, both ways of writing them, totals and monotonicity
    for F in Fs:
        F0 = F.copy()
        P = p.likelihood_all_pairs(F)
        want = sp.ndtr(c * (F[:, None] - F[None, :]))
        what = 'comparison likelihood, sigma %g, rewards %s' % (s, F)
        ctx.close(P, want, 1e-9, what + ': all pairs')
        ctx.close(P + P.T, np.ones((3, 3)), 1e-9, what + ': both outcomes of every pair')
        for u, v in itertools.permutations(range(3), 2):
            a = float(np.squeeze(p.likelihood(np.array([[-1, u, v]]), F)))
            b = float(np.squeeze(p.likelihood(np.array([[1, u, v]]), F)))
            ctx.check(abs(a + b - 1) < 1e-9, lambda: what + ': outcomes of the comparison of %d and %d add up to %g' % (u, v, a + b))
            ctx.check(abs(a - want[u, v]) < 1e-9, lambda: what + ': P(%d better than %d) = %g, expected %g' % (u, v, a, want[u, v]))
            ctx.check(F[u] == F[v] or (a > 0.5) == (F[u] > F[v]), lambda: what + ': -1 does not mean that the first sample is better')
            la = p.log_likelihood(np.array([[-1, u, v]]), F)
            ctx.check(abs(float(la) - float(sp.log_ndtr(c * (F[u] - F[v])))) < 1e-7, lambda: what + ': log likelihood %r' % la)
        ctx.check(np.array_equal(F, F0), what + ': rewards changed')
        ctx.step(7)
        ctx.state((s, case['h'], F.tolist()))
    for F in ([-3.0, 4.0], [6.0, -6.0], [0.0, 8.0], [12.0, 0.0]):
        F = np.array(F)
        if abs(c * (F[0] - F[1])) < 29:
            for d in (-1, 1):
                la = float(p.log_likelihood(np.array([[d, 0, 1]]), F))
                w = float(sp.log_ndtr(c * d * (F[1] - F[0])))
                ctx.check(abs(la - w) < 1e-7 * (1 + abs(w)), 'log likelihood of (%d,0,1) with rewards %s: %g, expected %g' % (d, F, la, w))
    at = lambda d, f: float(np.squeeze(p.likelihood(np.array([[d, 0, 1]]), np.array([0.3, f]))))
    far(ctx, lambda f: [at(-1, f), at(1, f)], 'comparison likelihood, sigma %g' % s)
    far(ctx, lambda f: [p.likelihood_all_pairs(np.array([0.3, f]))[i] for i in ((0, 1), (1, 0))], 'likelihood of all pairs, sigma %g' % s)
    for f in FAR:
        l = [float(p.log_likelihood(np.array([[d, 0, 1]]), np.array([0.3, f]))) for d in (-1, 1)]
        ctx.check(np.all(np.isfinite(l)) and max(l) <= 1e-12 and (f == 0.0 or (l[1] > l[0]) == (f > 0.3)), lambda: 'log likelihood of comparisons, sigma %g, rewards 0.3 and %g: %s' % (s, f, l))
    # lists of comparisons
    sel = Fs[::9]
    for n in range(1, case['len'] + 1):
        for y in itertools.product(comps, repeat=n):
            F = sel[(hash_(y) + n) % len(sel)]
            y = np.array(y)
            l = np.asarray(p.likelihood(y, F), dtype=float)
            ll = float(p.log_likelihood(y, F))
            want = ref.pref_ll(y, F, s)[0]
            ctx.check(abs(ll - want) < 1e-7 * (1 + abs(want)), lambda: 'log likelihood of %s with rewards %s: %g, expected %g' % (y.tolist(), F, ll, want))
            ctx.check(abs(float(np.sum(np.log(l))) - want) < 1e-6 * (1 + abs(want)), lambda: 'likelihood of %s with rewards %s: %s' % (y.tolist(), F, l))
            ctx.step()
            ctx.state((s, case['h'], y.tolist()))


def hash_(y):
    return sum((i + 1) * (7 * d + 3 * u + 5 * v + 20) for i, (d, u, v) in enumerate(y))


def ordi(case, ctx):
    n, s = case['n'], case['sigma']
    b = case['b']
    if b == 'v':
        b = np.array([0.1 + 0.4 * i + 0.1 * (i % 2) for i in range(n - 1)])
        br = np.concatenate([[-np.inf], b, [np.inf]])
    elif b == 'w':
        br = np.concatenate([[-np.inf], [-0.6 + 0.5 * i for i in range(n - 1)], [np.inf]])
        b = br.copy()
    else:
        br = ref.ord_breaks(b, n)
    if case['h'] in ('', 'r'):
        p = lop.OrdinalProbit(sigma=s, b=b, n_ordinals=n)
    elif case['h'] in 'nm':
        # the number of categories is chosen through the model
        m = (lop.PreferenceGP(lop.RBF_kern(0.5, 0.7)) if case['h'] == 'n' else lop.PreferenceLinear())
        if case['h'] == 'm':
            m.set_num_ordinals(n + 2)
        m.probits[m.probit_idxs['ordinal']].set_hyper([s, b])
        m.set_num_ordinals(n)
        p = m.probits[m.probit_idxs['ordinal']]
    else:
        p = lop.OrdinalProbit(sigma=1.3 * s, b=0.37, n_ordinals=n)
        for ch in case['h']:
            if ch == 'x':
                p.set_hyper([0.8, 1.9])
            elif ch == 's':
                p.set_sigma(s)
                p.set_b(b)
            else:
                p.set_hyper([s, b])
    if case['h'] == 'r':
        p.randomize_hyper()
    grid = np.linspace(-3, 3, 25 if case['fine'] else 13)
    cats = np.arange(1, n + 1)
    prev = None
    for f in grid:
        F = np.array([0.7, f])
        what = 'category likelihood, %d categories, b %s, sigma %g, reward %g' % (n, case['b'], s, f)
        y = (cats, np.full(n, 1))
        P = np.asarray(p.likelihood_each(y, F), dtype=float)
        want = np.array([sp.ndtr((br[k] - f) / s) - sp.ndtr((br[k - 1] - f) / s) for k in cats])
        ctx.close(P, want, 1e-9, what + ': probabilities of the categories')
        ctx.check(abs(P.sum() - 1) < 1e-9, lambda: what + ': probabilities add up to %g' % P.sum())
        surv = 1 - np.cumsum(P)
        if prev is not None:
            ctx.check(np.all(surv >= prev - 1e-12), what + ': a better reward makes better categories less likely')
        prev = surv
        for k in cats:
            yk = (np.array([k]), np.array([1]))
            lk, llk = float(p.likelihood(yk, F)), float(p.log_likelihood(yk, F))
            ctx.check(abs(lk - want[k - 1]) < 1e-9, lambda: what + ': likelihood of category %d is %g' % (k, lk))
            if want[k - 1] > 1e-8:
                ctx.check(abs(llk - math.log(want[k - 1])) < 1e-6, lambda: what + ': log likelihood of category %d is %g' % (k, llk))
        ctx.step(len(cats) + 1)
        ctx.state((n, case['b'], s, case['h'], round(f, 6)))
    far(ctx, lambda f: p.likelihood_each((cats, np.full(n, 1)), np.array([0.7, f])), 'category likelihood, %d categories, b %s, sigma %g' % (n, case['b'], s))
    F = np.array([-0.3, 0.5, 1.2])
    for idx in itertools.product(range(3), repeat=3):
        for sh in range(n):
            lab = [(sh + 2 * j) % n + 1 for j in range(3)]
            y = (np.array(lab), np.array(idx))
            want = ref.ord_ll(lab, idx, F, s, br)[0]
            if want < -18:
                continue
            ll, l = float(p.log_likelihood(y, F)), float(p.likelihood(y, F))
            ctx.check(abs(ll - want) < 1e-6 * (1 + abs(want)), lambda: 'log likelihood of categories %s of samples %s is %g, expected %g (b %s, sigma %g)' % (lab, idx, ll, want, case['b'], s))
            ctx.check(abs(l - math.exp(want)) < 1e-9, lambda: 'likelihood of categories %s of samples %s is %g' % (lab, idx, l))
            ctx.step()
    for bad in (0, -1):
        try:
            p.likelihood((np.array([bad, 1]), np.array([0, 1])), F)
        except Exception:
            continue
        ctx.fail('category %d has a likelihood' % bad)


def absb(case, ctx):
    s, v = case['sigma'], case['v']
    if case['h'] in ('', 'r'):
        p = lop.AbsBoundProbit(sigma=s, v=v, optimize_v_only=False)
    else:
        p = lop.AbsBoundProbit(sigma=2.1 * s, v=0.6 * v, optimize_v_only=False)
    set_hist(p, case['h'], [s, v], ['set_sigma', 'set_v'])
    ys = np.linspace(0.02, 0.98, 13 if case['fine'] else 9)
    fs = np.linspace(-3, 3, 25 if case['fine'] else 13) * min(s, 1.0)
    # quadrature nodes: tanh-sinh like substitution y = ndtr(u)
    u = np.linspace(-9, 9, 4001)
    yu = sp.ndtr(u)
    wu = np.exp(-u * u / 2) / math.sqrt(2 * math.pi) * (u[1] - u[0])
    ok = (yu > 1e-15) & (yu < 1 - 1e-15)
    prev = None
    for f in fs:
        F = np.array([0.2, f])
        what = 'bounded rating likelihood, sigma %g, v %g, reward %g' % (s, v, f)
        dens = np.array([math.exp(float(p.log_likelihood((np.array([y]), np.array([1])), F))) for y in ys])
        want = np.array([math.exp(ref.abs_ll([y], [1], F, s, v)[0]) for y in ys])
        ctx.close(dens, want, 1e-7, what + ': density', rel=True)
        l = np.array([float(p.likelihood((np.array([y]), np.array([1])), F)) for y in ys])
        ctx.close(l, want, 1e-7, what + ': likelihood', rel=True)
        m = float(sp.ndtr(f / (math.sqrt(2) * s)))
        if v * min(m, 1 - m) > 1:
            aa, bb = p.get_alpha_beta(np.array([f]))
            d = np.exp((aa - 1) * np.log(yu[ok]) + (bb - 1) * np.log1p(-yu[ok]) - sp.betaln(aa, bb))
            ctx.check(abs(float(np.sum(d * wu[ok])) - 1) < 1e-4, what + ': density does not integrate to one')
            ctx.check(abs(float(np.sum(d * yu[ok] * wu[ok])) - m) < 1e-4, what + ': mean rating is not the link of the reward')
        cdf = np.array([float(np.squeeze(p.cdf(y, np.array([f])))) for y in ys])
        ctx.close(cdf, sp.betainc(v * m, v - v * m, ys), 1e-8, what + ': distribution function')
        if prev is not None:
            ctx.check(np.all(cdf <= prev + 1e-9), what + ': a better reward makes better ratings less likely')
        prev = cdf
        ctx.step(len(ys))
        ctx.state((s, v, case['h'], round(f, 6)))
    edges = np.array([0.001, 0.3, 0.7, 0.999])
    far(ctx, lambda f: np.diff(np.concatenate([[0.0], [float(np.squeeze(p.cdf(y, np.array([f])))) for y in edges], [1.0]])), 'bounded rating distribution, sigma %g, v %g' % (s, v))
    for f in FAR:
        F = np.array([0.2, f])
        for y in edges:
            j = (np.array([y]), np.array([1]))
            ll, l = float(p.log_likelihood(j, F)), float(p.likelihood(j, F))
            ctx.check(np.isfinite(ll) and np.isfinite(l) and l >= 0 and (abs(l - math.exp(ll)) <= 1e-6 * (1 + l)), lambda: 'bounded rating %g of reward %g, sigma %g, v %g: likelihood %g, log %g' % (y, f, s, v, l, ll))
            ctx.step()
    F = np.array([-0.3, 0.5, 1.2])
    for idx in itertools.product(range(3), repeat=3):
        for sh in range(3):
            val = [ys[(sh + 3 * j) % len(ys)] for j in range(3)]
            for cont in (np.array, list):
                y = (np.array(val), cont(idx))
                want = ref.abs_ll(val, idx, F, s, v)[0]
                ll = float(p.log_likelihood(y, F))
                ctx.check(abs(ll - want) < 1e-7 * (1 + abs(want)), lambda: 'log likelihood of ratings %s of samples %s is %g, expected %g (sigma %g v %g)' % (val, idx, ll, want, s, v))
                ctx.step()
