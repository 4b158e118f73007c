"""P24: hyperparameter vectors round-trip; hyperparameter search ends fitted."""
import itertools

import numpy as np

import lop
from mc import ref, hist, kern
from mc.core import Env, Chooser, seeded

TECHNIQUE = 'explicit-state exploration of get / set / randomise / add / fit sequences over all subsets of judgement types and configurations on the real models, against a plain record of named parameters; exploration of the draws of the hyperparameter search'
LEVEL_NOTE = 'all sequences up to the depth bound over the alphabet, executed on the real code and compared with a named-parameter record and freshly built components; searches: the first draws explored, the rest a fixed fair sequence'
RULE = ('(a) every kernel up to the composition depth x vectors x sequences of set/evaluate/get/randomise; (b) likelihood configurations x vectors; (c) subset of judgement types x order of arrival x likelihood configuration x kernel x '
        'kernel parameters in the vector or not x every sequence over {write back, write one entry, write all, randomise (every answer of the draws), add another type, fit}, compared after every step with a named record and at the '
        'end with the predictions of a new model; (d) fits with hyperparameter search over datasets x configurations x draws')
BOUNDS = {'quick': 'kernels of up to 1 operator; 12 likelihood configurations; sequences of length 3 over 6 operations on 7 subsets x 4 kernels x 5 likelihood configurations; 32 searches x 2 draw sequences',
          'thorough': 'kernels of up to 2 operators; sequences of length 4; 220 searches x 6 draw sequences'}
ASSUMPTIONS = ['parameters are positive', 'the search is used with the judgement types that support it (comparisons and bounded ratings) and a positive definite kernel']
PRIOR = {'rbf': [(10, .1), (3, .4)], 'rbf0': [(10, .1), (3, .4)], 'per': [(4, .25), (3, .2), (2, .5)], 'lin': [(4, .25), (3, .2), (2, .5)]}
TYPES = ['relative_discrete', 'ordinal', 'abs']
# likelihood configurations: preference (sigma, in vector?), ordinal (sigma, b), bounded (sigma, v, in vector?, v only?)
LIK = [dict(), dict(pref=(0.8, True), abs=(0.7, 40.0, True, False)), dict(pref=(0.3, False), ord=(0.6, 1.7)), dict(abs=(1.3, 60.0, False, True), ord=(1.4, 0.8)),
       dict(pref=(0.45, False), abs=(0.9, 30.0, True, True)), dict(pref=(1.1, True), ord=(0.9, 2.2), abs=(0.8, 55.0, False, False))]
KER = [['rbf', 0.8, 0.6, 0.02], ['per', 0.7, 1.2, 3.3], ['+', ['rbf', 0.7, 0.5, 0.05], ['lin', 0.5, 0.4, 0.1]], ['*', ['lin', 0.6, 0.7, -0.2], ['rbf', 1.2, 0.9, 0.02]]]
TOL = 5e-3
SEQ = 'wWeRFA'


def cases(tier):
    t = tier == 'thorough'
    for d in range(0, 3 if t else 2):
        for s in kern.specs(d):
            yield {'kind': 'kern', 'spec': s}
    for c in range(12):
        yield {'kind': 'lik', 'c': c}
    i = 0
    for order in [o for r in (1, 2, 3) for o in itertools.permutations(range(3), r)]:
        for d in range(1, (4 if t else 3) + 1):
            for h in itertools.product(SEQ, repeat=d):
                i += 1
                h = ''.join(h)
                if d >= 3 and (len(order) == 3 and i % 2 and not t):
                    continue
                if h.count('A') > 3 - len(order):
                    continue
                yield {'kind': 'model', 'order': order, 'h': h, 'lik': i % 6, 'ker': (i // 6) % 4, 'only': (i // 3) % 2, 'lin': i % 7 == 0, 'late': (i // 5) % 2}
    k = 0
    for kinds in ('p', 'a', 'pa'):
        for n in ((2, 3) if kinds == 'pa' else (2, 4, 5)) if not t else (2, 3, 4, 5, 6, 7):
            for only in (True, False):
                for ker in (0, 2, 3) if t else (0, 2):
                    for lk in ((k % 6, (k + 3) % 6) if t else ((k * 5 + 1) % 6,)):
                        k += 1
                        yield {'kind': 'search', 'kinds': kinds, 'n': n, 'only': only, 'ker': ker, 'lik': lk, 'via': k % 3}


def run(case, ctx):
    {'kern': run_kern, 'lik': run_lik, 'model': run_model, 'search': run_search}[case['kind']](case, ctx)


def priors(spec):
    return PRIOR[spec[0]] if spec[0] in PRIOR else priors(spec[1]) + priors(spec[2])


def judge_draw(ctx, vec, pri, log, what):
    """each entry is a draw from the prior of its parameter"""
    vec = np.ravel(vec)
    ctx.check(len(vec) == len(pri), lambda: '%s: %d entries for %d parameters' % (what, len(vec), len(pri)))
    for i, (v, (k, th)) in enumerate(zip(vec, pri)):
        ctx.check(any(abs(v / (k * th) - g) < 1e-9 for g in (0.6, 1.3)), lambda: '%s: entry %d is %r, no draw from Gamma(%g, %g)' % (what, i, v, k, th))
    g = [(e[1], e[2]) for e in log if e[0] == 'gamma']
    if len(g) == len(pri):
        got = [(round(a, 9), round(b, 9)) for a, b in g]
        ctx.check(sorted(got) == sorted((round(float(a), 9), round(float(b), 9)) for a, b in pri), lambda: '%s: draws from %s instead of %s' % (what, g, pri))


def run_kern(case, ctx):
    spec = kern.place(case['spec'], 2)
    X, Y = hist.xs(2, [0, 3, 5]), hist.xs(2, [1, 4])
    n = ref.npar(spec)
    for k in range(3):
        par = kern.other(ref.get_par(spec), k)
        for h in ('s', 'sg', 'es', 'sw', 'rs', 'sr', 'ses', 'swew'):
            K = ref.build_kernel(spec)
            cur = list(ref.get_par(spec))

            def body(ch):
                for op in h:
                    if op == 's':
                        v = np.array(par, dtype=float)
                        K.set_param(v)
                        v *= 0
                        cur[:] = par
                    elif op == 'w':
                        K.set_param(K.get_param())
                    elif op == 'e':
                        K.cov(X, Y)
                        K.cov_gradient(X, X)
                    elif op == 'r':
                        with Env(ch) as env:
                            v = K.randomize_hyper()
                        judge_draw(ctx, v, priors(spec), env.log, 'random parameters of %s' % (spec,))
                    what = 'kernel %s after %s with %s' % (case['spec'], h, par)
                    ctx.close(K.get_param(), cur, 1e-12, what + ': parameters')
                    s = ref.with_par(spec, cur)
                    ctx.close(K.cov(X, Y), ref.kcov(s, X, Y), 1e-9, what + ': covariance', rel=True)
                    ctx.step()
            if 'r' in h:
                ctx.explore(body, max_dev=None if n <= 4 else 2)
            else:
                body(Chooser([]))
            ctx.state((spec, par, h))


def probits(l):
    """fresh likelihoods of a configuration"""
    out = {}
    if 'pref' in l:
        out['relative_discrete'] = lop.PreferenceProbit(sigma=l['pref'][0], optimize_parameters=l['pref'][1])
    if 'ord' in l:
        out['ordinal'] = lop.OrdinalProbit(sigma=l['ord'][0], b=l['ord'][1])
    if 'abs' in l:
        s, v, o, vo = l['abs']
        out['abs'] = lop.AbsBoundProbit(sigma=s, v=v, optimize_parameters=o, optimize_v_only=vo)
    return out


class Rec:
    """named parameters of a model"""

    def __init__(self, l, spec, only, lin):
        self.spec, self.only, self.lin = spec, only, lin
        p, o, a = l.get('pref', (0.5, True)), l.get('ord', (1.0, 1.0)), l.get('abs', (1.0, 80.0, True, True))
        self.pref, self.ord, self.abs = [p[0]], list(o), [a[0], a[1]]
        self.pref_in, self.abs_in, self.v_only = p[1], a[2], a[3]
        self.types = []
        self.kpar = list(ref.get_par(spec))

    def slots(self):
        """(container, index) of every entry of the vector"""
        s = []
        if 0 in self.types and self.pref_in:
            s.append((self.pref, 0))
        if 1 in self.types:
            s += [(self.ord, 0), (self.ord, 1)]
        if 2 in self.types and self.abs_in:
            s += [(self.abs, 1)] if self.v_only else [(self.abs, 0), (self.abs, 1)]
        if not self.only and not self.lin:
            s += [(self.kpar, i) for i in range(len(self.kpar))]
        return s

    def priors(self):
        """prior of each slot; None: keeps its value (no prior)"""
        s = []
        if 0 in self.types and self.pref_in:
            s.append((2, .1))
        if 1 in self.types:
            s += [None, None]
        if 2 in self.types and self.abs_in:
            s += [(2, 25.)] if self.v_only else [(1, 1), (2, 25.)]
        if not self.only and not self.lin:
            s += priors(self.spec)
        return s

    def vec(self):
        return [c[i] for c, i in self.slots()]

    def lik(self):
        pr = {'relative_discrete': lop.PreferenceProbit(sigma=self.pref[0]), 'ordinal': lop.OrdinalProbit(sigma=self.ord[0], b=self.ord[1]), 'abs': lop.AbsBoundProbit(sigma=self.abs[0], v=self.abs[1])}
        return pr

    def make(self):
        if self.lin:
            return lop.PreferenceLinear(other_probits=self.lik())
        return lop.PreferenceGP(ref.build_kernel(ref.with_par(self.spec, self.kpar)), other_probits=self.lik())


F5 = np.array([0.1, -0.4, 0.55, 0.3, -0.2])
Y_OF = {0: np.array([[-1, 0, 1], [1, 2, 3], [-1, 4, 1]]), 1: (np.array([1, 3, 5, 2]), np.array([0, 1, 2, 3])), 2: (np.array([0.2, 0.7, 0.55]), np.array([4, 2, 0]))}


def check_parts(ctx, m, rec, what):
    """likelihoods behave like new ones holding the recorded parameters"""
    want = rec.lik()
    for t, name in enumerate(TYPES):
        pb = m.probits[m.probit_idxs[name]]
        a, b = float(pb.log_likelihood(Y_OF[t], F5)), float(want[name].log_likelihood(Y_OF[t], F5))
        ctx.check(abs(a - b) <= 1e-7 * (1 + abs(b)), lambda: '%s: the %s likelihood gives %r, a new one with parameters %s gives %r' % (what, name, a, (rec.pref, rec.ord, rec.abs)[t], b))
        ga, gb = pb.derivatives(Y_OF[t], F5), want[name].derivatives(Y_OF[t], F5)
        ctx.close(ga[1], gb[1], 1e-7, '%s: gradient of the %s likelihood' % (what, name), rel=True)
    if not rec.lin:
        ctx.close(m.cov_func.get_param(), rec.kpar, 1e-12, what + ': kernel parameters')
        X, Y = hist.xs(1, [0, 3, 5]), hist.xs(1, [1, 4])
        ctx.close(m.cov_func.cov(X, Y), ref.kcov(ref.with_par(rec.spec, rec.kpar), X, Y), 1e-9, what + ': covariance', rel=True)


def run_lik(case, ctx):
    c = case['c']
    l = LIK[c % 6]
    rec = Rec(l, KER[0], True, True)
    m = lop.PreferenceLinear(other_probits=probits(l))
    for t, name in enumerate(TYPES):
        pb = m.probits[m.probit_idxs[name]]
        rec.types = [t]
        sl = rec.slots()
        if not sl:
            ctx.check(len(pb.get_hyper()) == 0, 'a likelihood whose parameters are fixed reports a vector')
        for k in range(4):
            pb.set_hyper(pb.get_hyper())
            what = 'likelihood %s of configuration %s' % (name, l)
            ctx.close(pb.get_hyper(), rec.vec(), 1e-12, what + ': vector')
            check_parts(ctx, m, rec, what)

            def body(ch):
                with Env(ch) as env:
                    v = pb.randomize_hyper()
                p = rec.priors()
                ctx.check(len(np.ravel(v)) == len(p), what + ': length of the random vector')
                for i, q in enumerate(p):
                    if q is None:
                        ctx.check(abs(np.ravel(v)[i] - rec.vec()[i]) < 1e-12, what + ': a parameter without prior was redrawn')
                judge_draw(ctx, [x for x, q in zip(np.ravel(v), p) if q is not None], [q for q in p if q is not None], env.log, what)
            ctx.explore(body)
            new = [0.35 + 0.3 * i + 0.4 * k + (20 * k if len(sl) == 1 and t == 2 else 0) for i in range(len(sl))]
            for (cc, i), v in zip(sl, new):
                cc[i] = v
            pb.set_hyper(np.array(new) if k % 2 else list(new))
            check_parts(ctx, m, rec, what + ' after writing %s' % new)
            ctx.state((c, t, k))
            ctx.step()
    # breakpoints that are not equally spaced
    for b in ([0.0, 0.3, 1.0, 1.4], [-0.5, 0.1, 0.2, 2.0]):
        pb = lop.OrdinalProbit(sigma=0.7 + 0.1 * c, b=b)
        full = np.array([-np.inf] + b + [np.inf])
        pb.set_hyper(pb.get_hyper())
        want, got = ref.ord_ll([1, 3, 5, 2], [0, 1, 2, 3], F5, sigma=0.7 + 0.1 * c, breaks=full), pb.log_likelihood(Y_OF[1], F5)
        w = want[0] if isinstance(want, tuple) else want
        ctx.check(abs(float(got) - w) <= 1e-6 * (1 + abs(w)), lambda: 'category likelihood with breakpoints %s after writing back its vector: %r instead of %r' % (b, float(got), w))


def add_op(t, k):
    return {0: ['P', [k, k + 1, k + 2], [[-1, 0, 1], [1, 2, 0], [-1, 2, 1]]], 1: ['O', [k, k + 1, k + 2], [2, 4, 1]], 2: ['A', [k, k + 1, k + 2], [0.3, 0.65, 0.5]]}[t]


def run_model(case, ctx):
    l, spec, lin = LIK[case['lik']], KER[case['ker']], case['lin']
    only = bool(case['only'])
    dim = 2 if lin else 1
    cur = [None]

    def body(ch):
        rec = Rec(l, spec, only, lin)
        if lin:
            m = lop.PreferenceLinear(other_probits=probits(l))
        else:
            m = lop.PreferenceGP(ref.build_kernel(spec), other_probits=probits(l), hyperparam_only_probit=only)
        data, k = ref.Data(), 0

        def add(t):
            nonlocal k
            op = add_op(t, k)
            hist.expect_add(data, dim, op)
            X, y, ty = hist.call_args(dim, op)
            m.add(X, y, type=ty)
            k += 3
            if t not in rec.types:
                rec.types.append(t)
        for t in case['order']:
            add(t)
        for pos, op in enumerate(case['h']):
            sl = rec.slots()
            if op == 'w':
                m.set_hyper(m.get_hyper())
            elif op == 'W':
                new = [0.4 + 0.23 * i + 0.31 * pos for i in range(len(sl))]
                for (c, i), v in zip(sl, new):
                    c[i] = v
                arg = np.array(new)
                m.set_hyper(arg)
                arg *= 0
            elif op == 'e' and sl:
                j = (pos * 3 + case['lik']) % len(sl)
                v = m.get_hyper()
                v[j] = 0.77 + 0.1 * pos
                sl[j][0][sl[j][1]] = 0.77 + 0.1 * pos
                m.set_hyper(v)
            elif op == 'R' and not lin:
                with Env(ch) as env:
                    m.randomize_hyper()
                got = m.get_hyper()
                p = rec.priors()
                ctx.check(len(got) == len(p), lambda: 'vector of length %d for %d parameters' % (len(got), len(p)))
                for (c, i), q, v in zip(sl, p, got):
                    if q is not None:
                        c[i] = float(v)
                judge_draw(ctx, [v for v, q in zip(got, p) if q is not None], [q for q in p if q is not None], env.log, 'randomised hyperparameters')
            elif op == 'F':
                with Env(Chooser([])):
                    m.optimize()
            elif op == 'A':
                add([t for t in range(3) if t not in rec.types][0])
            what = 'data %s, likelihoods %s, kernel %s%s: after %s' % ([TYPES[t] for t in case['order']], l, spec, '' if only else ' (in the vector)', case['h'][:pos + 1])
            ctx.close(m.get_hyper(), rec.vec(), 1e-12, what + ': hyperparameter vector')
            check_parts(ctx, m, rec, what)
            hist.check_held(ctx, m, data, what)
            g = np.ravel(m.grad_hyper_liklihood()) if 1 not in rec.types else None
            if g is not None:
                ctx.check(len(g) == len(rec.vec()), lambda: '%s: the gradient of the prior has %d entries for %d hyperparameters' % (what, len(g), len(rec.vec())))
            ctx.step()
        ctx.state((case['order'], case['h'], case['lik'], case['ker'], only, lin))
        # predictions are those of a new model with the recorded parameters
        Q = hist.xs(dim, [25, 27, 1])
        new = rec.make()
        hist_f = hist.fresh(lambda: new, data, dim)
        with Env(Chooser([])):
            m.optimize()
            hist_f.optimize()
            a, b = m.predict(Q), hist_f.predict(Q)
        if rec.abs[1] > 1.5 or 2 not in rec.types:      # a nearly flat bounded likelihood may have several maxima
            if not lin:
                ctx.close(a[0], b[0], TOL, 'predictions after %s' % case['h'])
                ctx.close(a[1], b[1], TOL, 'variances after %s' % case['h'])
            else:
                ctx.close(a[0], b[0], 3e-2, 'predictions after %s' % case['h'], rel=True)
        ctx.outcome((np.round(a[0], 2), case['lik']))
    ctx.explore(body, max_dev=1)


def run_search(case, ctx):
    l, spec, n = LIK[case['lik']], KER[case['ker']], case['n']
    X = hist.xs(1, range(n))
    P = [(-1 if i % 2 else 1, i, i + 1) for i in range(n - 1)] + [(-1, 0, n - 1)]
    A = 0.25 + 0.5 * ((np.arange(n) * 0.618) % 1)

    def body(ch):
        use = case['via'] == 1
        m = lop.PreferenceGP(ref.build_kernel(spec), other_probits=probits(l), hyperparam_only_probit=case['only'], use_hyper_optimization=use)
        data = ref.Data()
        if 'p' in case['kinds']:
            data.X = [hist.row(x) for x in X]
            data.pairs = list(P)
            m.add(X, P)
        if 'a' in case['kinds']:
            b = len(data.X)
            data.X = data.X + [hist.row(x) for x in X + 0.05]
            data.abss = [(float(v), b + i) for i, v in enumerate(A)]
            m.add(X + 0.05, A, type='abs')
        with Env(ch, vec=('mid', 'up'), max_enum=4):
            if use:
                m.predict(X[:1])
            else:
                m.optimize(optimize_hyperparameter=True)
            if case['via'] == 2:
                m.optimize(optimize_hyperparameter=True)
        what = 'search on %d samples with %s (kernel %s, likelihoods %s, %s)' % (len(data.X), case['kinds'], spec, l, 'likelihood parameters only' if case['only'] else 'all parameters')
        hist.check_held(ctx, m, data, what)
        v = np.ravel(m.get_hyper())
        rec = Rec(l, spec, case['only'], False)
        rec.types = ([0] if 'p' in case['kinds'] else []) + ([2] if 'a' in case['kinds'] else [])
        sl = rec.slots()
        ctx.check(len(v) == len(sl) and np.isfinite(v).all(), lambda: '%s: hyperparameters %s' % (what, v))
        for (c, i), x in zip(sl, v):
            c[i] = float(x)
        check_parts(ctx, m, rec, what)
        if np.linalg.cond(ref.kcov(ref.with_par(spec, rec.kpar), X, X)) > 1e7:
            ctx.outcome('singular')
            return
        Q = np.concatenate([hist.xs(1, [25, 27]), X[:2]])
        f = hist.fresh(rec.make, data, 1)
        with Env(Chooser([])):
            a, b = m.predict(Q), f.predict(Q)
        ctx.close(a[0], b[0], TOL, what + ': predictions against a new model with hyperparameters %s' % np.round(v, 4))
        ctx.close(a[1], b[1], TOL, what + ': variances')
        ctx.state((case['kinds'], n, case['only'], case['ker'], case['lik'], np.round(v, 3)))
        ctx.outcome(np.round(a[0], 2))
        ctx.step()
    ctx.explore(body, max_dev=1, fair_after=3, max_paths=6 if ctx.tier == 'thorough' else 2)
