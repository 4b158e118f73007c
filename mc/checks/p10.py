"""P10: kernel and hyperparameter gradients match what they differentiate."""
import numpy as np

import lop
from mc import ref, kern, hist

TECHNIQUE = 'exhaustive enumeration of kernels, compositions, parameter-setting histories and sample-set relations on the real kernels, against high-order differences of the defining formulas'
LEVEL_NOTE = 'every configuration of the bounded space is executed on the real code'
RULE = ('every kernel composition up to the depth bound x parameter-setting histories x sample-set relations and shapes: the gradient at every pair and every gradient matrix '
        'are compared with differences of the definition in the order of the reported parameters, and the prior gradient with differences of the prior at the set parameters '
        'and at a grid of other parameters; the kernel part of the evidence gradient of fitted preference models with differences of the evidence after refitting; arguments and parameters must not change')
BOUNDS = {'quick': '8 leaf kernels, 128 one-operator compositions, every 16th two-operator composition, 8 parameter histories, 8 set relations, shapes flat/1/2/3; likelihood priors on 60 parameter values',
          'thorough': '8 leaf kernels, 128 one-operator and 4096 two-operator compositions, 8 parameter histories, 8 set relations, shapes flat/1/2/3; likelihood priors on 400 parameter values'}
ASSUMPTIONS = ['positive parameters away from the clipping of the priors at 1e-6']
RELS = [('same', 3, 3), ('other', 2, 3), ('perm', 2, 2), ('sub', 3, 1), ('other', 1, 1), ('dup', 2, 2), ('int', 2, 2), ('near', 2, 2)]


def cases(tier):
    t = tier == 'thorough'
    k = 0
    for s in kern.specs(0):
        for h in kern.HISTORIES:
            for r in range(len(RELS)):
                yield {'spec': s, 'h': h, 'rels': [list(RELS[r])], 'dims': [0, 1, 2, 3]}
        yield {'spec': s, 'h': 'eSe', 'rels': [['same', 17, 17], ['other', 5, 33]], 'dims': [0, 2]}
    for s in kern.specs(1):
        for h in kern.HISTORIES:
            k += 1
            yield {'spec': s, 'h': h, 'rels': [list(RELS[(k + i * 3) % len(RELS)]) for i in range(2)], 'dims': [(0, 1, 2, 3)[(k // 11) % 4]]}
    for i, s in enumerate(kern.specs(2)):
        if not t and i % 16 != 5:
            continue
        k += 1
        yield {'spec': s, 'h': kern.HISTORIES[k % 8], 'rels': [list(RELS[(k + j * 4) % len(RELS)]) for j in range(2)], 'dims': [(0, 1, 2, 3)[k // 3 % 4]]}
    for cl, kw in (('PreferenceProbit', {}), ('AbsBoundProbit', {}), ('AbsBoundProbit', {'optimize_v_only': False}),
                   ('PreferenceProbit', {'optimize_parameters': False}), ('AbsBoundProbit', {'optimize_parameters': False})):
        yield {'probit': cl, 'kw': kw, 'n': 20 if t else 8}
    for i in range(len(EVK)):
        for j in range(len(EVD)):
            for n in (4, 5, 7, 17) if t else (4, 5):
                yield {'evidence': i, 'data': j, 'n': n}


# kernels and judgements of the model evidence
EVK = [['rbf', 0.8, 0.6, 0.1], ['rbf', 1.7, 0.35, 0.02], ['rbf0', 0.9, 0.7, None, 0.1], ['*', ['lin', 0.6, 0.9, 0.2], ['rbf', 0.8, 0.9, 0.1]], ['+', ['rbf', 0.9, 0.5, 0.1], ['lin', 0.5, 0.4, 0.1]],
       ['*', ['rbf', 0.9, 1.1, 0.1], ['rbf', 1.2, 0.8, 0.1]], ['+', ['per', 0.4, 1.1, 0.9], ['rbf', 0.6, 0.7, 0.05]]]
EVD = [([(-1, 0, 1), (-1, 1, 2), (1, 3, 2)], []), ([], [(0.8, 0), (0.35, 2)]), ([(-1, 0, 1), (1, 0, 3), (-1, 0, 1)], [(0.7, 3), (0.2, 1)]), ([(1, 0, 2)], [(0.55, 3), (0.6, 3), (0.9, 0)])]


def diff(f, x, h):
    return (8 * (f(x + h) - f(x - h)) - (f(x + 2 * h) - f(x - 2 * h))) / (12 * h)


def dcov(spec, X, Y, same):
    """differences of the defining covariance with respect to each parameter"""
    p0 = ref.get_par(spec)
    out = []
    for i in range(len(p0)):
        def f(v):
            q = list(p0)
            q[i] = v
            return ref.kcov(ref.with_par(spec, q), X, Y, same)
        out.append(diff(f, p0[i], 1e-3 * max(abs(p0[i]), 0.3)))
    return np.array(out)


def prior(ctx, k, par, what):
    """param_likli / grad_param_likli of the kernel with these parameters"""
    k.set_param(np.array(par))
    g = np.array(k.grad_param_likli(), dtype=float)
    want = []
    for i in range(len(par)):
        def f(v):
            q = list(par)
            q[i] = v
            k.set_param(np.array(q))
            return float(k.param_likli())
        want.append(diff(f, par[i], 1e-4 * max(abs(par[i]), 0.05)))
    k.set_param(np.array(par))
    ctx.close(g, want, 1e-5, what + ': gradient of the parameter prior at %s' % list(np.round(par, 4)), rel=True)


def run(case, ctx):
    if 'probit' in case:
        return probit(case, ctx)
    if 'evidence' in case:
        return evidence(case, ctx)
    for dim in case['dims']:
        spec = kern.place(case['spec'], dim)
        for rel, n, m in case['rels']:
            X, Y = kern.sets(dim, n, m, rel)
            k = kern.make(spec, case['h'], X, Y)
            what = 'kernel %s (history "%s"), %s sets of %d and %d samples of shape %s' % (spec, case['h'], rel, len(X), len(Y), dim or 'flat')
            X0, Y0 = X.copy(), Y.copy()
            G = k.cov_gradient(X, Y)
            np_ = ref.npar(spec)
            ctx.check(len(G) == np_, lambda: what + ': %d gradient matrices for %d parameters' % (len(G), np_))
            G = np.array([np.array(g, dtype=float) for g in G])
            same = rel in ('same', 'dup')
            P = np.moveaxis(np.array([[np.array(k.gradient(x, y), dtype=float) for y in Y] for x in X]), 2, 0)
            ctx.close(P, dcov(spec, X, Y, False), 1e-6, what + ': gradients at the pairs', rel=True)
            ctx.close(G, dcov(spec, X, Y, same), 1e-6, what + ': gradient matrices', rel=True)
            if not same:
                ctx.close(G, P, 1e-9, what + ': gradient matrices vs gradients at the pairs', rel=True)
            ctx.check(np.array_equal(X, X0) and np.array_equal(Y, Y0), what + ': the evaluation changed its arguments')
            ctx.close(k.get_param(), ref.get_par(spec), 1e-12, what + ': parameters after evaluating gradients')
            ctx.close(np.array([np.array(g, dtype=float) for g in k.cov_gradient(X, Y)]), G, 1e-12, what + ': gradient matrices evaluated again', rel=True)
            ctx.step(2)
            ctx.state((spec, case['h'], rel, n, m, dim))
            ctx.outcome(np.round(P, 4))
        par = [max(abs(v), 0.05) for v in ref.get_par(spec)]
        prior(ctx, k, par, 'kernel %s' % (spec,))
        prior(ctx, k, [0.4 + 0.35 * i for i in range(len(par))], 'kernel %s' % (spec,))


def probit(case, ctx):
    import lop
    cl = getattr(lop, case['probit'])
    vals = [0.05 + 0.31 * i for i in range(case['n'])]
    n = len(cl(**case['kw']).get_hyper())
    ctx.state((case['probit'], case['kw']))
    if n == 0:
        ctx.check(len(cl(**case['kw']).grad_param_likli()) == 0, 'gradient of the prior of no parameters')
        return
    for a in vals:
        for b in ([10 * v for v in vals] if n == 2 else [None]):
            p = cl(**case['kw'])
            par = [a] if b is None else [a, b]
            p.set_hyper(np.array(par))
            g = np.array(p.grad_param_likli(), dtype=float).ravel()
            want = []
            for i in range(len(par)):
                def f(v):
                    q = list(par)
                    q[i] = v
                    p.set_hyper(np.array(q))
                    return float(np.sum(p.param_likli()))
                want.append(diff(f, par[i], 1e-4 * max(par[i], 0.05)))
            ctx.close(g, want, 1e-5, '%s %s: gradient of the parameter prior at %s' % (case['probit'], case['kw'], par), rel=True)
            ctx.step()
            ctx.state((case['probit'], case['kw'], a, b))


def evidence(case, ctx):
    """the kernel part of the evidence gradient at the fitted rewards is the derivative of the Laplace evidence"""
    spec, (pairs, absr), n = EVK[case['evidence']], EVD[case['data']], case['n']
    data = ref.Data()
    data.X = [hist.row(x) for x in hist.xs(2, list(range(n)))]
    data.pairs, data.abss = list(pairs), list(absr)
    if n > 7:
        data.pairs = data.pairs + [(-1, i, i - 1) for i in range(4, n)]
    X = np.array(data.X)

    def fit(sp, start):
        K = ref.kcov(sp, X, X)
        return ref.map_fit(K, data, [start] if start is not None else None)[0][1], K

    F, _ = fit(spec, None)

    def ev(sp):
        G, K = fit(sp, F)
        l = data.ll(G)
        return l[0] - 0.5 * G @ np.linalg.solve(K, G) - 0.5 * np.linalg.slogdet(np.eye(n) - K @ l[2])[1]

    p0 = ref.get_par(spec)
    want = []
    for i in range(len(p0)):
        def f(v):
            q = list(p0)
            q[i] = v
            return ev(ref.with_par(spec, q))
        want.append(diff(f, p0[i], 2e-3 * p0[i]))
    what = 'kernel %s, %d samples, comparisons %s, ratings %s: kernel part of the evidence gradient at the fitted rewards' % (spec, n, pairs, absr)
    for order in (0, 1):
        m = lop.PreferenceGP(ref.build_kernel(spec), hyperparam_only_probit=False)
        m.debug_print = False
        parts = [lambda: m.add(X, [tuple(p) for p in data.pairs]), lambda: m.add(X[:0] if data.pairs and not order else X, (np.array([a for a, _ in absr]), np.array([j for _, j in absr])), type='abs')]
        if not data.pairs:
            parts = parts[1:]
        elif not absr:
            parts = parts[:1]
        elif order:
            parts = [parts[1], lambda: m.add(X[:0], [(d, u - n, v - n) for d, u, v in data.pairs])]
        for p in parts:
            p()
        g = np.asarray(m.grad_likli_f_hyper(F.copy(), X, m.y_train), dtype=float)
        nk = len(p0)
        ctx.check(len(g) == len(m.get_hyper()), lambda: what + ': %d entries for the %d hyperparameters' % (len(g), len(m.get_hyper())))
        ctx.close(g[len(g) - nk:], want, 2e-3, what, rel=True)
        ctx.step()
        ctx.state((case, order))
