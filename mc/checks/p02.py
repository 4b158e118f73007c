"""P02: a refused submission leaves the model untouched."""
import itertools

import numpy as np

import lop
from mc import ref, hist
from mc.core import seeded, raises

TECHNIQUE = 'fault-sequence exploration on the real models: every placement of up to two refused submissions in all short histories, compared with a twin that never saw them'
LEVEL_NOTE = 'all placements of one or two refused submissions in all histories up to the depth bound, executed on the real code'
RULE = ('every history of accepted operations (comparisons, category ratings, bounded ratings, prior points, reset, fit) up to the depth bound with every '
        'placement of one or two refused submissions; the twin runs the same history without them (same random draws); held data, data fit '
        'and predictions of the two are compared after every step / at the end (predictions in all histories of depth <= 2 and a fixed fraction of the deeper ones)')
BOUNDS = {'quick': '13 kinds of refused submission; one refusal in all histories of depth <=3 over 6 operations; two refusals in depth <=2; 3 models; refused prior points in all histories of depth <=3 with prior points',
          'thorough': '13 kinds of refused submission; one refusal in depth <=4, two in depth <=3; 3 models; refused prior points in all histories of depth <=4 with prior points'}
ASSUMPTIONS = ['a refusal is an exception or, for an unsupported label container, a return without accepting']

OK = {
    'P': lambda k: ['P', [k, k + 1, k + 2], [[-1, 0, 1], [1, 2, 0]]],
    'O': lambda k: ['O', [k, k + 1], [2, 4]],
    'A': lambda k: ['A', [k, k + 1], [0.3, 0.7]],
    'I': None,
}
_RANGE = ('hi', 'lo', 'nan_no')


def bad_call(name, dim, k, n_held):
    """(X, y, type) of a submission that must be refused in any state holding samples (n_held > 0) or any state"""
    X2 = hist.xs(dim, [k, k + 1])
    X3 = hist.xs(dim, [k, k + 1, k + 2])
    other = hist.xs(3 if dim != 3 else 2, [k, k + 1])
    if name == 'abs_hi':
        return X2, np.array([0.4, 1.2]), 'abs'
    if name == 'abs_lo':
        return X3, np.array([-0.1, 0.5, 0.6]), 'abs'
    if name == 'abs_tuple_hi':
        return X2, (np.array([0.4, 1.001]), np.array([n_held, n_held + 1])), 'abs'
    if name == 'abs_tuple_list':
        return X2, (np.array([-0.001, 0.3]), [n_held, n_held + 1]), 'abs'
    if name == 'abs_old':          # an out of range rating about samples already held, bringing a new sample
        return X2, (np.array([0.4, 7.0]), np.array([0, n_held])), 'abs'
    if name == 'ord_0':
        return X2, [3, 0], 'ordinal'
    if name == 'ord_neg':
        return X3, np.array([-1, 2, 3]), 'ordinal'
    if name == 'ord_tuple':
        return X2, np.array([[0, 0], [2, n_held]]), 'ordinal'
    if name == 'dim_P':
        return other, [(-1, 0, 1)], 'relative_discrete'
    if name == 'dim_O':
        return other, [1, 2], 'ordinal'
    if name == 'dim_A':
        return other, np.array([0.2, 0.4]), 'abs'
    if name == 'prior_dim':        # prior points with another number of features
        return other, None, 'prior'
    if name == 'prior_1d':
        return np.array([0.2, 0.7]), None, 'prior'
    if name == 'prior_random':     # prior points drawn from bounds with another number of features
        return np.array([[0.0, 1.0]] * 4), None, 'prior_random'
    if name == 'abs_list':
        return X2, [0.2, 0.4], 'abs'
    if name == 'abs_str':
        return X2, 'ab', 'abs'
    raise KeyError(name)


BAD = ['abs_hi', 'abs_lo', 'abs_tuple_hi', 'abs_tuple_list', 'abs_old', 'ord_0', 'ord_neg', 'ord_tuple', 'dim_P', 'dim_O', 'dim_A',
       'abs_list', 'abs_str']
BAD_PRIOR = ['prior_dim', 'prior_1d', 'prior_random']
NEEDS_HELD = {'dim_P', 'dim_O', 'dim_A', 'abs_old'} | set(BAD_PRIOR)
MODELS = {
    'gp': lambda: lop.PreferenceGP(lop.RBF_kern(0.5, 0.7, sigma_noise=0.05)),
    'lin': lambda: lop.PreferenceLinear(),
    'par': lambda: lop.PreferenceGP(lop.RBF_kern(0.5, 0.7, sigma_noise=0.05), pareto_pairs=True),
}


def cases(tier):
    d1, d2 = (3, 2) if tier == 'quick' else (4, 3)
    n = 0
    for d in range(1, d1 + 1):
        for h in itertools.product('POAIRF', repeat=d):
            h = ''.join(h)
            if h[0] in 'IRF':
                continue
            for b in BAD:
                for pos in range(d + 1):
                    for m in MODELS:
                        n += 1
                        if d == d1 and d > 2 and n % 3:        # deepest level: one model per placement in turn
                            continue
                        yield {'h': h, 'bad': [[pos, b]], 'model': m, 'dim': 2 if m != 'gp' or n % 2 else 0,
                               'predict': d <= 2 or n % 8 == 0 or ('F' in h and n % 2 == 0)}
    for d in range(1, d1 + 1):                                # prior points, accepted (E) and refused
        for h in itertools.product('PAEFR', repeat=d):
            h = ''.join(h)
            if h[0] in 'RF':
                continue
            for b in BAD_PRIOR + (['dim_P', 'abs_hi', 'ord_0'] if 'E' in h else []):
                for pos in range(1, d + 1):
                    n += 1
                    yield {'h': h, 'bad': [[pos, b]], 'model': 'par', 'dim': 2, 'predict': d <= 2 or n % 8 == 0}
    for d in range(1, d2 + 1):
        for h in itertools.product('POAR', repeat=d):
            h = ''.join(h)
            for b1, b2 in itertools.product(BAD, repeat=2):
                for p1 in range(d + 1):
                    for p2 in range(p1, d + 1):
                        n += 1
                        yield {'h': h, 'bad': [[p1, b1], [p2, b2]], 'model': ('gp', 'lin', 'par')[n % 3], 'dim': 2, 'predict': n % 6 == 0}


def snapshot(model):
    pts = model.get_prior_pts()
    return hist.rec_key(hist.held(model)), None if pts is None else tuple(map(tuple, np.asarray(pts).tolist()))


def submit(model, X, y, typ):
    if typ == 'prior':
        model.add_prior(method='exact', pts=X)
    elif typ == 'prior_random':
        model.add_prior(bounds=X, num_pts=3)
    else:
        model.add(X, y, type=typ)


def run(case, ctx):
    make, dim = MODELS[case['model']], case['dim']
    a, b = make(), make()                       # a sees the refused submissions, b does not
    k = 0
    Q = hist.xs(dim, [3, 17, 8])
    for t in range(len(case['h']) + 1):
        for pos, name in case['bad']:
            if pos != t:
                continue
            n_held = 0 if a.X_train is None else len(a.X_train)
            if n_held == 0 and name in NEEDS_HELD:
                continue
            X, y, typ = bad_call(name, dim, k, n_held)
            X0, y0 = hist.deep(X), hist.deep(y)
            before = snapshot(a)
            raised, r = raises(submit, a, X, y, typ)
            what = 'history %s: refused submission %s before operation %d' % (case['h'], name, t)
            ctx.check(raised or typ == 'abs', what + ' was not refused')
            if name not in ('abs_list', 'abs_str'):
                ctx.check(raised, what + ' was not refused')
            ctx.check(hist.same(X, X0) and hist.same(y, y0), what + ' changed the arguments')
            ctx.check(snapshot(a) == before, lambda: '%s changed the held data from %s to %s' % (what, before, snapshot(a)))
            ctx.step()
        if t == len(case['h']):
            break
        ch = case['h'][t]
        if ch == 'R':
            a.reset()
            b.reset()
        elif ch == 'F':
            if b.X_train is not None:
                seeded(5)
                a.predict(Q)
                seeded(5)
                b.predict(Q)
        elif ch == 'E':
            for m in (a, b):
                m.add_prior(method='exact', pts=hist.xs(dim, [k, k + 1, k + 2]))
            k += 3
        else:
            n_held = 0 if b.X_train is None else len(b.X_train)
            op = OK[ch](k) if ch != 'I' else ['Ai', [k], [[0.6, n_held], [0.35, n_held // 2]]]
            k += len(op[1])
            for m in (a, b):
                X, y, typ = hist.call_args(dim, op)
                m.add(X, y, type=typ)
        ctx.step()
        ka, kb = snapshot(a), snapshot(b)
        ctx.check(ka == kb, lambda: 'history %s with refusals %s, after operation %d: held %s, without the refusals %s' %
                  (case['h'], case['bad'], t + 1, ka, kb))
        ctx.state((case['model'], dim, ka, tuple(n for p, n in case['bad'] if p <= t)))
    if b.X_train is None:
        if case['model'] == 'lin':
            ctx.check(a.X_train is None, 'samples held after refusals only')
            return
    n = 0 if b.X_train is None else len(b.X_train)
    for F in hist.patterns(n)[:2] if n else []:
        la, lb = float(a.log_likelyhood_training(F)), float(b.log_likelyhood_training(F))
        ctx.check(abs(la - lb) <= 1e-9 * (1 + abs(lb)), 'history %s with refusals %s: data fit %r, without them %r' % (case['h'], case['bad'], la, lb))
    ctx.outcome(snapshot(a))
    if not case['predict']:
        return
    seeded(11)
    ra = a.predict(Q)
    seeded(11)
    rb = b.predict(Q)
    tol = 5e-3
    ctx.close(ra[0], rb[0], tol if case['model'] != 'lin' else 5e-2, 'history %s with refusals %s: prediction vs prediction without them' % (case['h'], case['bad']), rel=True)
    if rb[1] is not None:
        ctx.close(ra[1], rb[1], tol, 'history %s with refusals %s: variance vs variance without them' % (case['h'], case['bad']), rel=True)
    ctx.outcome((snapshot(a), ra[0]))
