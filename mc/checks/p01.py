"""P01: every accepted judgement is kept exactly once, about the right sample."""
import itertools

import numpy as np

import lop
from mc import ref, hist

TECHNIQUE = 'explicit-state exploration of submission/reset histories on the real models, against a plain record after every step'
LEVEL_NOTE = 'all histories up to the depth bound over the alphabet of submission forms, executed on the real code'
RULE = ('every history over the operation alphabet (comparisons, category ratings, bounded ratings, explicit positions, '
        'empty lists, single-sample and 12-sample batches, reset) up to the depth bound, for each model class, sample shape and '
        'argument container form; after every step the held samples and judgements and the data fit of 3 reward assignments '
        'are compared with the record; the arguments are overwritten after each call; batches of 300 to 70000 samples followed by judgements about the last of them')
BOUNDS = {'quick': 'alphabet of 14 operations: depth 3 in full, plus depth 5 over 5 operations and depth 7 over 3; 5 model configurations (two with the probits of the user); sample dimensions flat,1,2,3',
          'thorough': 'alphabet of 14 operations: depth 4 in full, plus depth 6 over 5 operations and depth 9 over 3; 5 model configurations (two with the probits of the user); dimensions flat,1,2,3'}
ASSUMPTIONS = ['rewards of the probing assignments stay in [-1,1] (no clipping of the likelihoods)',
               'samples of a batch have the dimension of the model; comparison labels are +-1']

# operation letters; sample ids are filled in by position so that every batch brings new samples (r: repeated samples)
OPS = {
    'p': lambda k: ['P', [k, k + 1], [[-1, 0, 1]]],
    'q': lambda k: ['P', [k, k + 1, k + 2], [[1, 0, 2], [1, 2, 1], [-1, 0, 2], [1, 0, 2]]],
    'o': lambda k: ['O', [k, k + 1], [2, 5]],
    'a': lambda k: ['A', [k, k + 1], [0.25, 0.7]],
    'c': lambda k: ['A', [k, k + 1, k + 2], [0.0, 1.0, 0.9995]],        # clamped values
    'e': lambda k: ['P', [k, k + 1], []],
    'f': lambda k: ['O', [k], []],
    'g': lambda k: ['A', [k], []],
    's': lambda k: ['O', [k], [1]],
    'r': lambda k: ['P', [0, 1, 0], [[-1, 0, 1], [1, 0, 2]]],            # samples held already, again
    'b': lambda k: ['P', list(range(k, k + 12)), [[(-1) ** i, i, (5 * i + 3) % 12] for i in range(12) if i != (5 * i + 3) % 12]],
    'i': None,       # explicit positions, category ratings about held samples
    'j': None,       # explicit positions, bounded ratings about held samples
    'R': None,
}


def op_of(ch, k, held_n):
    if ch == 'i':
        n = held_n + 1
        return ['Oi', [k], [[3, n - 1], [1, 0], [4, held_n // 2], [3, 0], [3, n - 1]]]
    if ch == 'j':
        n = held_n + 1
        return ['Ai', [k], [[0.3, n - 1], [0.8, 0], [0.45, held_n // 2], [0.3, n - 1]]]
    return OPS[ch](k)


MODELS = {
    'gp': lambda: lop.PreferenceGP(lop.RBF_kern(0.5, 0.7)),
    'lin': lambda: lop.PreferenceLinear(),
    'base': lambda: lop.PreferenceModel(),
    # the user's own likelihood parameters, and a probit under a name of its own
    'cfg': lambda: lop.PreferenceGP(lop.RBF_kern(0.5, 0.7), other_probits={
        'mine': lop.PreferenceProbit(2.0), 'abs': lop.AbsBoundProbit(sigma=0.8, v=30.0), 'relative_discrete': lop.PreferenceProbit(0.9)}),
    'cfl': lambda: lop.PreferenceLinear(other_probits={'relative_discrete': lop.PreferenceProbit(0.9), 'abs': lop.AbsBoundProbit(sigma=0.8, v=30.0)}),
}
LIK = {'cfg': {'sig': 0.9, 'asig': 0.8, 'v': 30.0}, 'cfl': {'sig': 0.9, 'asig': 0.8, 'v': 30.0}}


def _hists(tier):
    a, d3, d5, d7 = 'pqoaceijrsbfgR', 3, 5, 7
    if tier == 'thorough':
        d3, d5, d7 = 4, 6, 9
    for d in range(1, d3 + 1):
        for h in itertools.product(a, repeat=d):
            yield ''.join(h)
    for h in itertools.product('paoiR', repeat=d5):
        yield ''.join(h)
    for h in itertools.product('poa', repeat=d7):
        yield ''.join(h)


def cases(tier):
    n = 0
    for m in MODELS:                           # long records: positions far beyond the small integer types
        for size in (300, 40000, 70000) if tier == 'thorough' else (300, 40000):
            for t in 'POAX':
                for dim in (2,) if m in ('lin', 'cfl') else (0, 2):
                    yield {'big': t, 'n': size, 'model': m, 'dim': dim}
    combos = [(m, dim, form) for m in MODELS for dim in (0, 1, 2, 3) for form in (0, 1, 2)]
    for h in _hists(tier):
        if len(h) <= 2:
            for m, dim, form in combos:
                if m in ('lin', 'cfl') and dim < 2:
                    continue
                yield {'h': h, 'model': m, 'dim': dim, 'form': form}
        else:
            n += 1
            m = ('gp', 'lin', 'base', 'cfg', 'cfl')[n % 5]
            dim = (2, 3) if m in ('lin', 'cfl') else (2, 0, 1, 3)
            yield {'h': h, 'model': m, 'dim': dim[(n // 5) % len(dim)], 'form': (n // 7) % 3}


def big(case, ctx):
    """a first large batch, then judgements about its last samples and about new ones"""
    model, n, dim = MODELS[case['model']](), case['n'], case['dim']
    X = (np.arange(n * max(dim, 1)) * 0.6180339887 % 1.0).reshape((n,) if dim == 0 else (n, dim))
    extra = X[:5] + 1.25
    data = ref.Data()
    t = case['big']
    lab = {'P': [(-1, n - 1, 0), (1, n // 2, n - 2), (-1, n - 1, 0)], 'O': [1 + i % 5 for i in range(n)],
           'A': [round(0.05 + 0.9 * (i % 11) / 11, 6) for i in range(n)], 'X': []}[t]
    typ = {'P': 'relative_discrete', 'O': 'ordinal', 'A': 'abs', 'X': 'relative_discrete'}[t]
    model.add(X.copy(), np.array(lab) if t in 'OA' else lab, type=typ)
    data.X = [hist.row(x) for x in X]
    if t in 'PX':
        data.pairs = [tuple(p) for p in lab]
    elif t == 'O':
        data.ords = [(y, i) for i, y in enumerate(lab)]
    else:
        data.abss = [(ref.clamp(y), i) for i, y in enumerate(lab)]
    what = 'a batch of %d samples (%s), shape %s' % (n, typ, dim or 'flat')
    for step in range(4):
        if step == 1:
            what += ', then comparisons'
            model.add(extra[:2], [(-1, 0, 1), (1, 0, 1)], type='relative_discrete')
            data.pairs = data.pairs + [(-1, n, n + 1), (1, n, n + 1)]
            data.X = data.X + [hist.row(x) for x in extra[:2]]
        elif step == 2:
            what += ', then category ratings'
            model.add(extra[2:4], [2, 5], type='ordinal')
            data.ords = data.ords + [(2, n + 2), (5, n + 3)]
            data.X = data.X + [hist.row(x) for x in extra[2:4]]
        elif step == 3:
            what += ', then bounded ratings'
            idx = [n + 4, n - 1, n // 2, 0, n - 1]
            val = [0.2, 0.4, 0.6, 0.8, 0.4]
            model.add(extra[4:], (np.array(val), idx), type='abs')
            data.abss = data.abss + list(zip(val, idx))
            data.X = data.X + [hist.row(extra[4])]
        hist.check_held(ctx, model, data, what)
        if n <= 1000:                          # the data fit of longer records needs a matrix over all samples
            hist.check_fit(ctx, model, data, what, **LIK.get(case['model'], {}))
        ctx.step()
        ctx.state((case['model'], dim, n, t, step))
    ctx.outcome((n, t, len(data.pairs), len(data.ords), len(data.abss)))


def run(case, ctx):
    if 'big' in case:
        return big(case, ctx)
    model = MODELS[case['model']]()
    dim, form = case['dim'], case['form']
    data = ref.Data()
    k = 0
    keep = []
    for t, ch in enumerate(case['h']):
        what = 'history %s after operation %d (%s)' % (case['h'], t + 1, ch)
        if ch == 'R':
            model.reset()
            data = ref.Data()
        else:
            op = op_of(ch, k, len(data.X))
            k += len(op[1])
            X, y, typ = hist.call_args(dim, op, form)
            X0, y0 = hist.deep(X), hist.deep(y)
            model.add(X, y, type=typ)
            ctx.check(hist.same(X, X0) and hist.same(y, y0), what + ': the caller\'s arguments were changed')
            hist.expect_add(data, dim, op)
            hist.scribble(X)
            hist.scribble(y)
            keep.append((X, hist.deep(X), y, hist.deep(y)))
        ctx.step()
        hist.check_held(ctx, model, data, what)
        hist.check_fit(ctx, model, data, what, **LIK.get(case['model'], {}))
        for X, X1, y, y1 in keep:
            ctx.check(hist.same(X, X1) and hist.same(y, y1), what + ': arguments of an earlier call were changed')
        ctx.state((case['model'], dim, data.key()))
    ctx.outcome(data.key())
