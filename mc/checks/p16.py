"""P16: selecting, predicting and inspecting never change what the model knows."""
import itertools

import numpy as np

import lop
from mc import ref, hist, learn
from mc.core import Chooser, seeded
from mc.checks.p11 import build, arg

TECHNIQUE = 'explicit-state exploration of all short sequences of read-only operations (selections by every learner, predictions, likelihood evaluations, plots) between submissions on the real models, with every observation of the model and of the arguments compared before and after each step'
LEVEL_NOTE = 'all sequences of read-only operations up to the depth bound on the real models and learners'
RULE = ('model x data x all sequences of read-only operations of the menu (depth 2; depth 3 in a smaller menu) and model x learner x option tuple with a prediction / plot / submission before and after the selection; '
        'after every operation: samples, judgements, kernel and likelihood parameters are as before, the caller\'s candidate array, previous selection (list or set), preference collection and learner options are as before, and predictions agree with a '
        'brand new model; overwriting the returned arrays must not change later answers either')
BOUNDS = {'quick': '5 models x 3 datasets; all pairs of 13 read-only operations, triples of 6; 21 learners x 6 option tuples x 4 contexts',
          'thorough': '5 models x 4 datasets; all triples of 13 read-only operations, 4-tuples of 6; 21 learners x 9 option tuples x 6 contexts'}
ASSUMPTIONS = ['random draws of the learners follow one fixed script', 'prediction tolerance 5e-3 (mode search stops at 2e-4), 2e-2 for linear weights']
SPEC = ['rbf', 0.8, 0.6, 0.02]
PROD = ['*', ['rbf', 0.9, 0.7, 0.02], ['+', ['rbf', 0.6, 0.9, 0.01], ['lin', 0.3, 0.5, 0.1]]]
MODELS = ['gp', 'gpn', 'gpk', 'lin', 'reg']

DATA = {
    'pref': [['P', [0, 1, 2], [[-1, 0, 1], [1, 2, 0], [-1, 0, 1]]]],
    'both': [['P', [0, 1, 2, 3], [[-1, 0, 1], [1, 2, 3], [-1, 1, 2]]], ['A', [4, 5], [0.35, 0.8]]],
    'all': [['A', [4, 5], [0.4, 0.7]], ['P', [0, 1, 2], [[-1, 0, 1], [1, 1, 0], [1, 2, 0]]], ['O', [6, 7], [2, 4]]],
    'none': [],
}
LDATA = {
    'pref': [['P', [0, 1, 2], [[-1, 0, 1], [-1, 0, 1], [1, 0, 1], [-1, 1, 2], [-1, 1, 2], [1, 1, 2]]]],
    'both': [['P', [0, 1, 2], [[-1, 0, 1], [-1, 0, 1], [1, 0, 1], [-1, 1, 2], [-1, 1, 2], [1, 1, 2]]], ['A', [3, 4, 5], [0.6, 0.75, 0.5]]],
}
READ = ['predict', 'large', 'call', 'll', 'loss', 'plot', 'plotF', 'hyper', 'hyperlik', 'best', 'deriv', 'selB', 'selU']
SMALL = ['predict', 'large', 'plot', 'deriv', 'selU', 'hyperlik']
LEARN = ['Best', 'Worst', 'Random', 'UCB', 'GV', 'Mutual', 'Bayes', 'Acq', 'AcqLL', 'Abs', 'UCBbest', 'Acqbest', 'GVpar', 'Rate', 'MixComp', 'Equal', 'Fixed', 'Alt', 'Strat', 'Dec', 'Align']
OPT = [dict(k=2, prev=[], pref=['none']), dict(k=2, prev=[2], pref=['list', [3, 0]]), dict(k=2, prev=[0, 3], pref=['set', [1]]), dict(k=3, prev=[], pref=['set', [4, 1]]),
       dict(k=2, prev=[], pref=['pareto']), dict(k=2, prev=[4, 1], pref=['int', 2]), dict(k=3, prev=[1], pref=['none']), dict(k=2, prev=[], pref=['list', []]), dict(k=2, prev=[0], pref=['list', [4, 3, 2, 1]])]
CTX = [('',), ('predict',), ('large',), ('add',), ('plot',), ('selU',)]
PAIRED = ('Rate', 'MixComp', 'Equal', 'Fixed', 'Alt', 'Strat', 'Dec', 'Align')


def cases(tier):
    t = tier == 'thorough'
    for model in MODELS:
        for d in (('none', 'pref', 'both', 'all') if model == 'gp' or t and model not in ('lin', 'reg') else ('none', 'both') if model in ('gpn', 'gpk') else ('pref', 'both') if t or model == 'reg' else ('both',)):
            for n, menu in ((3 if t else 2, READ), (4 if t else 3, SMALL)):
                for h in itertools.product(menu, repeat=n):
                    yield {'kind': 'ops', 'model': model, 'data': d, 'h': list(h)}
    for model in MODELS:
        for d in (('both', 'all', 'none') if model not in ('lin', 'reg') else ('both',)):
            for L in LEARN:
                if not usable(L, model, d):
                    continue
                for oi in range(len(OPT) if t else 6):
                    for ci in range(len(CTX) if t else 4):
                        if not t and model == 'lin' and (oi + ci) % 3:
                            continue
                        yield {'kind': 'sel', 'model': model, 'data': d, 'L': L, 'opt': oi, 'ctx': ci}


def usable(L, model, d):
    if model == 'reg':
        return L in ('Best', 'Worst', 'Random', 'UCB', 'GV', 'Mutual', 'UCBbest', 'GVpar')
    if d == 'none':
        return L in ('Best', 'Random', 'UCB', 'GV', 'Mutual', 'Acq', 'Abs', 'Rate', 'UCBbest')
    if model == 'lin':
        return L not in ('Align', 'AcqLL')
    if L == 'Align':
        return d in ('both', 'all')
    return True


class Draws(learn.LEnv):
    def multivariate_normal(self, mean, cov, size=None, *a, **k):
        return super().multivariate_normal(mean, cov, size if size is None or size < 50 else 5, *a, **k)


def mk(model):
    if model == 'gp':
        return lop.PreferenceGP(ref.build_kernel(SPEC))
    if model == 'gpn':
        return lop.PreferenceGP(ref.build_kernel(SPEC), normalize_gp=True, normalize_positive=True)
    if model == 'gpk':
        return lop.PreferenceGP(ref.build_kernel(PROD), other_probits={})
    if model == 'lin':
        return lop.PreferenceLinear()
    return lop.GP(ref.build_kernel(PROD))


_rep = [None]


def learner(L):
    rep = _rep[0] = {'num_pts': 4, 'num_Q': 3}
    acq = lambda: lop.AcquisitionSelection(M=5, rep_Q_data=rep, alignment_f='spearman')
    ab = lambda: lop.AbsAcquisition(M=4, rep_Q_data=rep)
    if L == 'UCBbest':
        return lop.UCBLearner(1.0, always_select_best=True)
    if L == 'GVpar':
        return lop.GV_UCBLearner(1.0, default_to_pareto=True, always_select_best=True)
    if L == 'Acqbest':
        return lop.AcquisitionSelection(M=5, rep_Q_data=rep, alignment_f='spearman', always_select_best=True)
    if L == 'Rate':
        return lop.RateChooseLearner(acq(), ab())
    if L == 'MixComp':
        return lop.MixedComparision(acq(), lop.UCBLearner(1.0), ab())
    if L == 'Equal':
        return lop.MixedComparisionEqualChecking(acq(), lop.UCBLearner(1.0), ab())
    if L == 'Fixed':
        return lop.MixedComparisionSetFixed(acq(), lop.UCBLearner(1.0))
    if L == 'Alt':
        return lop.MixedAlternating(acq(), lop.UCBLearner(1.0))
    if L == 'Strat':
        return lop.MixedStrategyPeak(acq(), lop.UCBLearner(1.0), 0.3)
    if L == 'Dec':
        l = lop.MixedDecision(acq(), lop.UCBLearner(1.0), ab(), 0.3)
        return l
    if L == 'Align':
        return lop.AlignmentDecision(acq(), lop.UCBLearner(1.0), 0)
    return build(L)


class Rec:
    """model plus what it should hold"""

    def __init__(self, model, data, form=0):
        self.kind = model
        self.m = mk(model)
        self.n = 10
        self.data = ref.Data()
        self.reg = ([], [])
        for op in (LDATA if model == 'lin' else DATA)[data]:
            self.add(op)

    def add(self, op):
        if self.kind == 'reg':
            y = [0.2 * i - 0.3 for i in range(len(op[1]))]
            self.m.add(hist.xs(2, op[1]), np.array(y))
            self.reg = (self.reg[0] + [hist.row(hist.pool(2, i)) for i in op[1]], self.reg[1] + y)
            return
        X, y, typ = hist.call_args(2, op)
        self.m.add(X, y, type=typ)
        hist.expect_add(self.data, 2, op)

    def more(self):
        op = ['A', [self.n, self.n + 1], [0.55, 0.65]] if self.kind == 'lin' else ['P', [self.n, self.n + 1], [[-1, 0, 1]]]
        self.n += 2
        self.add(op)

    def params(self):
        out = [np.array(self.m.cov_func.get_param(), dtype=float)] if hasattr(self.m, 'cov_func') else []
        if hasattr(self.m, 'cov_func'):
            P = hist.xs(2, [0, 5])
            out.append(np.array(self.m.cov_func.cov(P, hist.xs(2, [3, 4, 9])), dtype=float))
        for p in getattr(self.m, 'probits', []):
            out.append(np.array(p.get_hyper(), dtype=float))
        return out

    def expected(self, Q):
        key = (self.kind, self.data.key(), str(self.reg), Q.tobytes())
        if key not in _memo:
            if len(_memo) > 4000:
                _memo.clear()
            seeded(123)
            if self.kind == 'reg':
                f = mk('reg')
                if self.reg[0]:
                    f.add(np.array(self.reg[0]), np.array(self.reg[1]))
            else:
                f = hist.fresh(lambda: mk(self.kind), self.data, 2)
            mu, var = f.predict(Q)
            _memo[key] = np.array(mu), None if var is None else np.array(var)
        return _memo[key]


_memo = {}
PROBE = hist.xs(2, [0, 4, 20, 21])
BIG = hist.xs(2, list(range(8, 28)))


def observe(ctx, r, par, what, final):
    if r.kind == 'reg':
        X = r.m.X_train
        ctx.check((X is None or len(X) == 0) if not r.reg[0] else np.array_equal(X, np.array(r.reg[0])) and np.array_equal(np.ravel(r.m.y_train), r.reg[1]), what + ': the samples or values held are changed')
    else:
        hist.check_held(ctx, r.m, r.data, what)
    now = r.params()
    ctx.check(len(now) == len(par) and all(np.array_equal(a, b) for a, b in zip(now, par)), lambda: '%s: the hyperparameters changed from %s to %s' % (what, par, now))
    if final and not (r.kind == 'lin' and not r.data.X):
        mu, var = r.m.predict(PROBE.copy())
        w = r.expected(PROBE)
        tol = 2e-2 if r.kind == 'lin' else 5e-3
        ctx.close(mu, w[0], tol, what + ': prediction afterwards')
        if w[1] is not None:
            ctx.close(var, w[1], tol, what + ': variance afterwards')


_ax = []


def axes():
    import matplotlib.pyplot as plt
    if not _ax:
        _ax.append(plt.figure().add_subplot())
    _ax[0].cla()
    return _ax[0]


def read(ctx, r, name, what):
    """one read-only operation; its arguments stay as they are and its answers can be overwritten"""
    m = r.m
    if r.kind == 'lin' and not r.data.X:
        return
    n = len(r.data.X)
    F = hist.patterns(max(n, 1))[0]
    args = {'X': PROBE.copy(), 'B': BIG.copy(), 'F': F.copy()}
    keep = {k: v.copy() for k, v in args.items()}
    out = None
    pref = r.kind != 'reg'
    if name == 'predict':
        out = m.predict(args['X'])
    elif name == 'large':
        out = m.predict_large(args['B'])
    elif name == 'call':
        out = m(args['X'])
    elif name == 'best':
        m.select_best(args['B'])
    elif name in ('selB', 'selU'):
        l = lop.BestLearner() if name == 'selB' else lop.UCBLearner(0.8)
        l.set_model(m)
        prev = [3]
        out = l.select(args['X'], 2, prev, None, False)
        ctx.check(prev == [3], lambda: '%s: the list of previous selections was changed to %s' % (what, prev))
    elif name == 'hyper' and pref:
        out = m.get_hyper()
    elif name in ('plot', 'plotF') and pref and n:
        m.plot_preference(ax=axes(), **({'F': args['F']} if name == 'plotF' else {}))
    elif pref and n:
        if name == 'll':
            m.log_likelyhood_training(args['F'])
        elif name == 'loss' and r.kind == 'lin':
            m.loss_func(args['F'][:2])
        elif name == 'hyperlik' and r.kind != 'lin' and not r.data.ords:
            m.hyper_liklihood()
            out = m.grad_hyper_liklihood()
        elif name == 'deriv' and r.kind != 'lin':
            m.predict(PROBE)
            m.derivatives(m.y_train, args['F'])
    ctx.check(all(np.array_equal(args[k], keep[k]) for k in args), what + ': an argument was changed')
    for o in (out if isinstance(out, tuple) else (out,)):
        if isinstance(o, np.ndarray) and o.flags.writeable and o.dtype.kind == 'f':
            o += 3.25
    ctx.step()


def run(case, ctx):
    return run_ops(case, ctx) if case['kind'] == 'ops' else run_sel(case, ctx)


def run_ops(case, ctx):
    seeded(31)
    r = Rec(case['model'], case['data'])
    par = r.params()
    for t, name in enumerate(case['h']):
        what = '%s model with %s data, read-only operations %s, step %d' % (case['model'], case['data'], case['h'], t + 1)
        read(ctx, r, name, what)
        observe(ctx, r, par, what, t == len(case['h']) - 1)
        ctx.state((case['model'], case['data'], case['h'][:t + 1]))
    if case['data'] != 'none':
        r.more()
        observe(ctx, r, par, '%s model with %s data, a submission after the read-only operations %s' % (case['model'], case['data'], case['h']), True)


def run_sel(case, ctx):
    o, L = OPT[case['opt']], case['L']
    if L == 'Equal':
        o = dict(o, k=2)
    seeded(17)
    r = Rec(case['model'], case['data'])
    par = r.params()
    l = learner(L)
    l.set_model(r.m)
    if L == 'Dec':
        l.num_calls = 5                       # the checkpoint, which fits and shares samples
    what = '%s learner on %s model with %s data, options %s, context %s' % (L, case['model'], case['data'], o, CTX[case['ctx']])
    env = lambda: Draws(Chooser([], fair_after=2 if case['model'] == 'lin' else 8), u=(0.3, 0.02, 0.8), patterns=(0, 1), max_enum=6)

    def context():
        c = CTX[case['ctx']][0]
        if c == 'add':
            r.more()
        elif c:
            read(ctx, r, c, what + ', before the selection')
    context()
    for k in range(2):
        X = hist.xs(2, [10, 11, 12, 13, 14])
        # a list or a set of indices
        prev = list(o['prev']) if (k + case['ctx'] + case['opt']) % 2 else set(o['prev'])
        pref = arg(o['pref'])
        keep = (X.copy(), type(prev)(prev), hist.deep(pref) if not isinstance(pref, set) else set(pref))
        with env():
            out = l.select(X, o['k'], prev, pref, L not in PAIRED and k == 1)
        ctx.step()
        w = '%s, selection %d' % (what, k + 1)
        ctx.check(np.array_equal(X, keep[0]), w + ': the candidates were changed')
        ctx.check(prev == keep[1], lambda: '%s: the previous selections were changed from %s to %s' % (w, keep[1], prev))
        ctx.check(type(pref) is type(keep[2]) and pref == keep[2], lambda: '%s: the preference collection was changed from %s to %s' % (w, keep[2], pref))
        observe(ctx, r, par, w, k == 1 or case['ctx'] == 0)
        # the caller may reuse its arrays
        X += 4.5
        prev.append(99) if isinstance(prev, list) else prev.add(99)
        if isinstance(pref, list):
            pref.append(77)
        if isinstance(out, list):
            out.append(55)
        observe(ctx, r, par, w + ', after the caller reused its arrays', False)
        ctx.state((case, k))
        if k == 0:
            context()
    observe(ctx, r, par, what + ', at the end', True)
    # again with default arguments: nothing left over from the first calls
    with env():
        out = l.select(hist.xs(2, [10, 11, 12, 13, 14]), 2)
    sel = out[0] if L == 'Align' else out
    sel = [int(i) for i in sel]
    ctx.check(_rep[0] in (None, {'num_pts': 4, 'num_Q': 3}), lambda: '%s: the options given to the learner were changed to %s' % (what, _rep[0]))
    ctx.check(len(sel) in (1, 2) and len(set(sel)) == len(sel) and all(0 <= i < 5 for i in sel), lambda: '%s: a later selection without options returned %s' % (what, out))
    observe(ctx, r, par, what + ', after a later selection', True)
