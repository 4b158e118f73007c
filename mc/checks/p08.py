"""P08: likelihood derivatives are the derivatives of the likelihood."""
import itertools

import numpy as np

import lop
from mc import ref, hist

TECHNIQUE = 'exhaustive enumeration of rewards, label lists, index patterns and parameter-setting histories on the real likelihoods, against analytic derivatives of the definition and high-order differences'
LEVEL_NOTE = 'every combination of the bounded grids is executed on the real code'
RULE = ('for each judgement type: every list of up to the bound judgements over 3 samples (repeats and contradictions included) x reward vectors x parameters x parameter-setting '
        'histories: gradient, negative Hessian and value used for fitting; derivatives of the Hessian by rewards and parameters; gradient by parameters; the same sums through '
        'both preference models on all mixtures of the types, incl. the chain rule through the features and the gradient of the hyperparameter search objective')
BOUNDS = {'quick': 'comparison lists of length <= 3 (258), rating lists of length <= 3, 6 reward vectors (|reward| <= 3, ties included), 5 parameter histories, up to 33 samples',
          'thorough': 'comparison lists of length <= 4 (1554), rating lists of length <= 3, 14 reward vectors, 8 parameter settings, 5 histories, up to 33 samples'}
ASSUMPTIONS = ['|z| below the clipping at 30; category probabilities below 1e-6 are compared at 1e-3, and at 10% of the slope and curvature below 1e-10 (documented tail formulas)', 'derivatives of the Hessian compared with 4th order differences (1e-4 relative)']
FS = [[0.0, 0.0, 0.0], [-0.3, 0.5, 1.2], [1.1, -0.9, 0.2], [3.0, -2.5, 0.4], [0.4, 0.4, -0.6], [-1.6, -0.2, 2.2],
      [2.5, 2.5, -3.0], [0.05, -0.05, 0.01], [-0.7, 1.9, 0.0], [0.9, 0.8, 0.7], [-2.2, -2.2, -2.2], [0.3, -1.4, 2.8], [1.7, 0.1, -0.1], [-0.4, 0.6, 0.6]]
HIST = ['', 's', 'xh', 'xr', 'exs']
COMPS = [[d, u, v] for u, v in itertools.combinations(range(3), 2) for d in (-1, 1)]
AY = [0.001, 0.15, 0.5, 0.8, 0.999]
OY = [1, 2, 3, 4, 5]


def lists(alpha, upto):
    for n in range(1, upto + 1):
        yield from itertools.product(range(len(alpha)), repeat=n)


def cases(tier):
    t = tier == 'thorough'
    nf = 14 if t else 6
    k = 0
    for sig in (0.5, 1.0, 0.25, 2.0) + ((0.8, 4.0) if t else ()):
        for h in HIST:
            for f in range(nf):
                yield {'kind': 'pref', 'sigma': sig, 'h': h, 'F': f, 'upto': 4 if t and h in ('', 'xh') else 3 if sig < 1.5 else 2}
    for sig, b in ((1.0, 1.0), (0.4, 1.0), (1.0, 2.5), (2.0, -0.7), (0.7, 'v'), (0.15, 1.0)):
        for h in HIST:
            for f in range(nf):
                yield {'kind': 'ord', 'sigma': sig, 'b': b, 'h': h, 'F': f}
    for sig, v in ((1.0, 80.0), (0.5, 80.0), (1.0, 10.0), (2.0, 3.0)) + (((0.7, 200.0), (1.5, 25.0)) if t else ()):
        for h in HIST:
            for f in range(nf):
                for only in (True, False):
                    yield {'kind': 'abs', 'sigma': sig, 'v': v, 'h': h, 'F': f, 'only': only}
    # mixtures through the models
    for m in ('gp', 'lin'):
        for p in range(8):
            for o in range(5):
                for a in range(5):
                    if p or o or a:
                        yield {'kind': 'mix', 'm': m, 'p': p, 'o': o, 'a': a, 'n': 4}
    for n in (9, 16, 17, 33):
        for k in range(6):
            for m in ('gp', 'lin'):
                yield {'kind': 'mix', 'm': m, 'p': 10 + k, 'o': 10 + k, 'a': 10 + k, 'n': n}


def d4(f, h):
    return (8 * (f(h) - f(-h)) - (f(2 * h) - f(-2 * h))) / (12 * h)


def setup(cl, names, par, h, **kw):
    """probit holding par after the history"""
    if h == '':
        return cl(*par, **kw)
    p = cl(*[1.6 * abs(v) + 0.1 if not hasattr(v, '__len__') else v for v in par], **kw)
    for ch in h:
        if ch == 'x':
            for n, v in zip(names, par):
                getattr(p, n)(0.7 * abs(v) + 0.2 if not hasattr(v, '__len__') else v)
        elif ch == 'e':
            F = np.array([0.3, -0.2, 0.6])
            y = np.array([[1, 0, 1]]) if cl is lop.PreferenceProbit else (np.array([2]) if cl is lop.OrdinalProbit else np.array([0.4]), np.array([1]))
            p.derivatives(y, F)
        elif ch == 'h' and not kw.get('optimize_v_only'):
            p.set_hyper(list(par))
        else:
            if ch == 'r':
                p.randomize_hyper()
            for n, v in zip(names, par):
                getattr(p, n)(v)
    return p


def compare(ctx, p, y, F, want, what, ll_tol=1e-7):
    F0 = F.copy()
    y0 = hist.deep(y)
    W, g, ll = p.derivatives(y, F)
    rl, rg, rH = want
    ctx.check(abs(float(ll) - rl) <= ll_tol * (1 + abs(rl)), lambda: what + ': log likelihood %g, expected %g' % (ll, rl))
    ctx.close(g, rg, 1e-6, what + ': gradient', rel=True)
    ctx.close(W, -rH, 1e-6, what + ': negative Hessian', rel=True)
    ctx.check(np.array_equal(F, F0) and hist.same(y, y0), what + ': arguments changed')
    ctx.step()


def third(ctx, p, y, F, H, what):
    """derivative of W by the rewards, from the reference Hessian"""
    n = len(F)
    dW = np.asarray(p.calc_W_dF(y, F), dtype=float)
    want = np.zeros((n, n, n))
    for k in range(n):
        e = np.zeros(n)
        e[k] = 1.0
        want[:, :, k] = -d4(lambda h: H(F + h * e), 2e-3)
    # the tensor is symmetric in its three indices
    ctx.close(dW, want, 2e-4, what + ': derivative of the negative Hessian by the rewards', rel=True)
    ctx.step()


def pref(case, ctx):
    s = case['sigma']
    F = np.array(FS[case['F']])
    p = setup(lop.PreferenceProbit, ['set_sigma'], [s], case['h'])
    for c, idx in enumerate(lists(COMPS, case['upto'])):
        y = np.array([COMPS[i] for i in idx])
        what = 'comparisons %s, rewards %s, sigma %g (history "%s")' % (y.tolist(), F, s, case['h'])
        compare(ctx, p, y, F, ref.pref_ll(y, F, s), what)
        ctx.state((s, case['h'], case['F'], y.tolist()))
        if len(idx) <= 2 or c % 5 == 0:
            third(ctx, p, y, F, lambda G: ref.pref_ll(y, G, s)[2], what)
            dH = np.asarray(p.calc_W_dHyper(y, F), dtype=float)
            want = -d4(lambda h: ref.pref_ll(y, F, s + h)[2], 1e-3 * s)
            ctx.close(dH, want[None], 2e-4, what + ': derivative of the negative Hessian by sigma', rel=True)
            ctx.close(p.grad_hyper(y, F), [d4(lambda h: ref.pref_ll(y, F, s + h)[0], 1e-3 * s)], 1e-5, what + ': derivative of the log likelihood by sigma', rel=True)


def ordi(case, ctx):
    s, b = case['sigma'], case['b']
    if b == 'v':
        b = np.array([0.1, 0.5, 0.8, 1.6])
        br = np.concatenate([[-np.inf], b, [np.inf]])
    else:
        br = ref.ord_breaks(b, 5)
    F = np.array(FS[case['F']])
    p = setup(lop.OrdinalProbit, ['set_sigma', 'set_b'], [s, b], case['h'])
    for n in (1, 2, 3):
        for c, idx in enumerate(itertools.product(range(3), repeat=n)):
            for lab in itertools.product(OY, repeat=n) if n < 3 else [[OY[(c + j * st) % 5] for j in range(3)] for st in range(5)]:
                probs = [ref.ord_ll([l], [i], F, s, br)[0] for l, i in zip(lab, idx)]
                y = (np.array(lab), np.array(idx))
                if min(probs) < -13.8:
                    if n < 3:
                        far(ctx, p, y, F, ref.ord_ll(lab, idx, F, s, br), s, min(probs), 'categories %s of samples %s, rewards %s, sigma %g b %s (history "%s")' % (list(lab), list(idx), F, s, case['b'], case['h']))
                    continue
                compare(ctx, p, y, F, ref.ord_ll(lab, idx, F, s, br), 'categories %s of samples %s, rewards %s, sigma %g b %s (history "%s")' % (list(lab), list(idx), F, s, case['b'], case['h']))
                ctx.state((s, case['b'], case['h'], case['F'], lab, idx))


def far(ctx, p, y, F, want, s, lp, what):
    """ratings that are very unlikely at the reward: the documented tail formulas are used there"""
    if lp < -430:
        return
    F0, y0 = F.copy(), hist.deep(y)
    W, g, ll = p.derivatives(y, F)
    rl, rg, rH = want
    tol = 1e-3 if lp > np.log(2e-10) else 0.1
    ctx.check(abs(float(ll) - rl) <= 1e-5 * (1 + abs(rl)), lambda: what + ': log likelihood %g, expected %g' % (ll, rl))
    ctx.check(np.all(np.abs(g - rg) <= tol * (1 / s + np.abs(rg))), lambda: what + ': gradient %s, expected %s' % (g, rg))
    ctx.check(np.all(np.abs(W + rH) <= tol * (1 / s ** 2 + np.abs(rH))), lambda: what + ': negative Hessian %s, expected %s' % (W, -rH))
    ctx.check(np.array_equal(F, F0) and hist.same(y, y0), what + ': arguments changed')
    ctx.step()


def absb(case, ctx):
    s, v, only = case['sigma'], case['v'], case['only']
    F = np.array(FS[case['F']]) * min(1.0, s)
    p = setup(lop.AbsBoundProbit, ['set_sigma', 'set_v'], [s, v], case['h'], optimize_v_only=only)
    for n in (1, 2, 3):
        for c, idx in enumerate(itertools.product(range(3), repeat=n)):
            for lab in itertools.product(AY, repeat=n) if n == 1 else [[AY[(c + k + j * st) % 5] for j in range(n)] for st in (0, 1, 2) for k in range(2)]:
                y = (np.array(lab), np.array(idx) if c % 2 else list(idx))
                what = 'ratings %s of samples %s, rewards %s, sigma %g v %g (history "%s")' % (list(lab), list(idx), F, s, v, case['h'])
                compare(ctx, p, y, F, ref.abs_ll(lab, idx, F, s, v), what)
                ctx.state((s, v, only, case['h'], case['F'], list(lab), idx))
                if n == 1 or c % 4 == 0:
                    third(ctx, p, y, F, lambda G: ref.abs_ll(lab, idx, G, s, v)[2], what)
                    dH = np.asarray(p.calc_W_dHyper(y, F), dtype=float)
                    wv = -d4(lambda h: ref.abs_ll(lab, idx, F, s, v + h)[2], 1e-3 * v)
                    ws = -d4(lambda h: ref.abs_ll(lab, idx, F, s + h, v)[2], 1e-3 * s)
                    gv = d4(lambda h: ref.abs_ll(lab, idx, F, s, v + h)[0], 1e-3 * v)
                    gs = d4(lambda h: ref.abs_ll(lab, idx, F, s + h, v)[0], 1e-3 * s)
                    ctx.close(dH, wv[None] if only else np.array([ws, wv]), 2e-4, what + ': derivative of the negative Hessian by the parameters', rel=True)
                    ctx.close(p.grad_hyper(y, F), [gv] if only else [gs, gv], 1e-5, what + ': derivative of the log likelihood by the parameters', rel=True)


def mixdata(case):
    n = case['n']
    P, O, A = [], [], []
    if n == 4:
        p, o, a = case['p'], case['o'], case['a']
        P = [[], [[-1, 0, 1]], [[1, 0, 1], [1, 1, 2]], [[-1, 3, 0], [1, 0, 3]], [[-1, 2, 3]] * 3, [[1, 1, 3], [-1, 3, 1], [-1, 0, 2]], [[-1, i, j] for i in range(4) for j in range(i)],
             [[1, 3, 2], [-1, 3, 2]]][p]
        O = [[], [[3, 0]], [[1, 3], [5, 1]], [[2, 2], [2, 2], [4, 2]], [[4, 3], [1, 0], [3, 3]]][o]
        A = [[], [[0.3, 1]], [[0.9, 3], [0.1, 0]], [[0.4, 2], [0.6, 2], [0.4, 2]], [[0.7, 1], [0.2, 2], [0.75, 1]]][a]
    else:
        k = case['p'] - 10
        if k != 1:
            P = [[(-1) ** (i + k), i, (i * 5 + 1 + k) % n] for i in range(n) if i != (i * 5 + 1 + k) % n]
        if k != 2:
            O = [[(i + k) % 5 + 1, (i * 3 + k) % n] for i in range(0, n, 2)]
        if k != 3:
            A = [[0.1 + 0.8 * ((i * 7 + k) % n) / n, (i * 2 + k) % n] for i in range(0, n, 2)]
    return P, O, A


def mix(case, ctx):
    n = case['n']
    P, O, A = mixdata(case)
    X = hist.xs(2, [(i * 3 + case['p']) % 32 for i in range(n)]) + (0.003 * np.arange(n)[:, None] if n > 31 else 0)
    m = lop.PreferenceGP(lop.RBF_kern(0.5, 0.7, 0.05)) if case['m'] == 'gp' else lop.PreferenceLinear()
    m.add(X, [tuple(q) for q in P])
    if O:
        m.add(X[:0], np.array(O), type='ordinal')
    if A:
        m.add(X[:0], (np.array([v for v, _ in A]), np.array([i for _, i in A])), type='abs')
    d = hist.held(m)
    what = '%s model, comparisons %s, categories %s, ratings %s' % (case['m'], P[:6], O[:6], A[:6])
    if case['m'] == 'gp':
        for F in hist.patterns(n):
            W, g, ll = m.derivatives(m.y_train, F)
            rl, rg, rH = d.ll(F)
            ctx.check(abs(ll - rl) < 1e-7 * (1 + abs(rl)), lambda: what + ': log likelihood %g, expected %g' % (ll, rl))
            ctx.close(g, rg, 1e-6, what + ': gradient', rel=True)
            ctx.close(W, -rH, 1e-6, what + ': negative Hessian', rel=True)
            ctx.step()
        if not O and n <= 17:
            # the gradient the hyperparameter search follows
            m.debug_print = False
            F = hist.patterns(n)[0]
            x0 = np.array(m.get_hyper(), dtype=float)
            g = np.asarray(m.grad_likli_f_hyper(F, X, m.y_train), dtype=float)
            want = []
            for i in range(len(x0)):
                def f(h):
                    q = x0.copy()
                    q[i] += h
                    m.set_hyper(q)
                    return float(m.likli_f_hyper(F, X, m.y_train))
                want.append(d4(f, 1e-3 * x0[i]))
            m.set_hyper(x0)
            ctx.close(g, want, 1e-4, what + ': gradient of the hyperparameter search objective', rel=True)
            ctx.step()
    else:
        for w in (np.array([0.7, -0.4]), np.array([-0.2, 0.9]), np.array([0.0, 0.0])):
            W, g, ll = m.derivatives(m.X_train, m.y_train, w)
            rl, rg, rH = d.ll(X @ w)
            ctx.check(abs(ll - rl) < 1e-7 * (1 + abs(rl)), lambda: what + ': log likelihood %g, expected %g' % (ll, rl))
            ctx.close(g, X.T @ rg, 1e-6, what + ': gradient by the weights', rel=True)
            ctx.close(W, -X.T @ rH @ X, 1e-6, what + ': negative Hessian by the weights', rel=True)
            ctx.check(abs(m.loss_func(w) - rl) < 1e-7 * (1 + abs(rl)), lambda: what + ': objective %g, expected %g' % (m.loss_func(w), rl))
            ctx.step()
    ctx.state((case['m'], P, O, A))


def run(case, ctx):
    {'pref': pref, 'ord': ordi, 'abs': absb, 'mix': mix}[case['kind']](case, ctx)
