"""P28: preference plots show every judgement pointing to the better sample."""
import itertools

import numpy as np
import matplotlib
matplotlib.use('Agg')
import matplotlib.pyplot as plt

import lop
from mc import hist, learn
from mc.core import Chooser, raises

TECHNIQUE = 'exhaustive exploration of all submission histories of the alphabet (submit comparisons / ratings of each type, optimise, prune, draw) on the real model, reading back the drawn lines, arrows and markers from the axes'
LEVEL_NOTE = 'all histories up to the depth bound; the drawing is checked against the judgements the history submitted, not against the held labels'
RULE = 'model kind x sample dimension (1 flat, 1 column, 2, 3) x every operation history up to the depth bound, drawn at every step, plus explicit samples / labels / rewards x orientation of every pair'
BOUNDS = {'quick': '3 model kinds x 3 dimensions, histories up to length 3 over 7 operations (about 6 500 drawings), all sets of up to 3 comparisons over 3 samples passed explicitly',
          'thorough': 'histories up to length 4 (5 for the linear model), all sets of up to 4 comparisons over 4 samples passed explicitly'}
ASSUMPTIONS = ['the samples of an explicitly passed drawing are those the labels index']

OPS = 'pqarOXo'     # comparisons, one comparison, ratings, rating of an earlier sample, ordinal ratings, prune, optimise


def pts(dim, pos, n=3):
    base = np.array([0.1, 1.4, 0.7, 2.2])[:n] + 2.5 * pos
    if dim == 1:
        return base
    if dim == 'c':
        return base[:, np.newaxis]
    return np.stack([base] + [0.3 * np.cos(3 * base + k) - 0.2 * k for k in range(1, dim)], axis=1)


PAIRS = {'p': [(-1, 0, 1), (1, 1, 2)], 'q': [(1, 0, 2)]}


def build(kind):
    if kind == 'lin':
        return lop.PreferenceLinear()
    if kind == 'norm':
        return lop.PreferenceGP(lop.RBF_kern(0.8, 0.7), normalize_gp=True)
    return lop.PreferenceGP(lop.RBF_kern(0.8, 0.7))


def cases(tier):
    t = tier == 'thorough'
    for kind in ('gp', 'norm', 'lin'):
        for dim in (1, 'c', 2):
            if kind == 'lin' and dim != 2:
                continue
            for d in range(1, (5 if dim == 2 and kind == 'lin' else 4) + 1 if t else 4):
                for first in OPS:
                    if d > 1:
                        for second in OPS:
                            yield {'k': 'hist', 'kind': kind, 'dim': dim, 'd': d, 'pre': first + second}
                    else:
                        yield {'k': 'hist', 'kind': kind, 'dim': dim, 'd': d, 'pre': first}
    for kind in ('gp', 'lin'):
        for dim in (1, 'c', 2):
            yield {'k': 'explicit', 'kind': kind, 'dim': dim, 'n': 3, 'upto': 3}
            if t:
                for i in range(12):
                    yield {'k': 'explicit', 'kind': kind, 'dim': dim, 'n': 4, 'upto': 4, 'part': i}
        for dim in (3, 4):
            for op in 'pqarO':
                yield {'k': 'refuse', 'kind': kind, 'dim': dim, 'op': op}
    yield {'k': 'empty'}


def read(ax):
    """the drawn segments, arrows and markers"""
    lines = [np.asarray(l.get_xydata(), dtype=float) for l in ax.lines]
    arrows = [(np.asarray(t.xyann, dtype=float), np.asarray(t.xy, dtype=float)) for t in ax.texts] + \
             [(np.asarray(p.xyann), np.asarray(p.xy)) for p in ax.patches if hasattr(p, 'xyann')]
    marks = [np.asarray(c.get_offsets(), dtype=float) for c in ax.collections]
    return lines, arrows, marks


def verify(ctx, ax, want_pairs, want_marks, where):
    """want_pairs: [(worse point, better point)]; want_marks: [point]"""
    lines, arrows, marks = read(ax)
    ctx.check(len(lines) == len(want_pairs), lambda: '%s: %d lines for %d comparisons' % (where, len(lines), len(want_pairs)))
    ctx.check(len(arrows) == len(want_pairs), lambda: '%s: %d arrows for %d comparisons' % (where, len(arrows), len(want_pairs)))
    left = list(range(len(lines)))
    leftA = list(range(len(arrows)))
    for worse, better in want_pairs:
        hit = [i for i in left if lines[i].shape == (2, 2) and (np.allclose(lines[i], [worse, better], atol=2e-3) or np.allclose(lines[i], [better, worse], atol=2e-3))]
        ctx.check(hit, lambda: '%s: no line between the worse sample at %s and the better one at %s; lines %s' % (where, worse, better, [l.tolist() for l in lines]))
        left.remove(hit[0])
        d = np.asarray(better) - worse
        ok = []
        for i in leftA:
            tail, head = arrows[i]
            if abs(np.cross(tail - worse, d)) > 4e-3 * (1 + np.linalg.norm(d)) or abs(np.cross(head - worse, d)) > 4e-3 * (1 + np.linalg.norm(d)):
                continue                                  # off the line
            s, e = np.dot(tail - worse, d) / np.dot(d, d), np.dot(head - worse, d) / np.dot(d, d)
            if -0.01 <= s < e <= 1.01:
                ok.append(i)
        ctx.check(ok, lambda: '%s: no arrow along the line pointing from the worse sample at %s to the better one at %s; arrows (tail, head) %s' % (where, worse, better, [(a.tolist(), b.tolist()) for a, b in arrows]))
        leftA.remove(ok[0])
    M = np.concatenate(marks) if marks else np.empty((0, 2))
    ctx.check(len(M) == len(want_marks), lambda: '%s: %d markers for %d ratings' % (where, len(M), len(want_marks)))
    free = list(range(len(M)))
    for m in want_marks:
        hit = [i for i in free if np.allclose(M[i], m, atol=1e-9)]
        ctx.check(hit, lambda: '%s: no marker at %s; markers %s' % (where, list(m), M.tolist()))
        free.remove(hit[0])


def flat(X, F):
    X = np.asarray(X, dtype=float)
    if X.ndim == 1 or X.shape[1] == 1:
        return np.stack([X.reshape(-1), np.asarray(F)], axis=1)
    return X


def history(ctx, case, word, ax):
    kind, dim = case['kind'], case['dim']
    m = build(kind)
    X, pairs, rates = [], [], []            # samples; (better, worse) sample indices; (index, value)
    with learn.LEnv(Chooser([], fair_after=0), u=(0.31,), vec=('mid',), z=(0.4,), max_enum=3):
        for pos, op in enumerate(word):
            n0 = len(X)
            if op in PAIRS:
                P = pts(dim, pos)
                m.add(P, list(PAIRS[op]))
                X += list(P)
                for d, u, v in PAIRS[op]:
                    pairs.append((n0 + u, n0 + v) if d == -1 else (n0 + v, n0 + u))
            elif op == 'a':
                P = pts(dim, pos, 2)
                m.add(P, np.array([0.25, 0.6]), type='abs')
                X += list(P)
                rates += [(n0, 0.25), (n0 + 1, 0.6)]
            elif op == 'r':                              # rate an earlier sample
                if not n0:
                    continue
                m.add(np.empty((0,) + np.asarray(X).shape[1:]), (np.array([0.45]), [n0 - 1]), type='abs')
                rates.append((n0 - 1, 0.45))
            elif op == 'O':
                P = pts(dim, pos, 2)
                m.add(P, [4, 2], type='ordinal')
                X += list(P)
            elif op == 'X':
                if m.X_train is None or kind == 'norm':
                    continue
                m.remove_without_reference()
                held = np.asarray(m.X_train)
                keep = [i for i in range(n0) if any(np.array_equal(np.asarray(X[i]), h) for h in held)]
                used = set(i for p in pairs for i in p) | set(i for i, _ in rates)
                ctx.check(used <= set(keep), 'pruning dropped a judged sample (P21)')
                new = {}
                for i in keep:
                    new[i] = [np.array_equal(np.asarray(X[i]), h) for h in held].index(True)
                pairs = [(new[a], new[b]) for a, b in pairs]
                rates = [(new[i], v) for i, v in rates]
                X = list(held)
            elif op == 'o':
                if m.X_train is None:
                    continue
                m.optimize()
            if m.X_train is None:
                continue
            ax.clear()
            m.plot_preference(ax=ax)
            where = '%s, %s-D samples, history %s' % (kind, dim, word[:pos + 1])
            XA = np.asarray(m.X_train)
            oned = XA.ndim == 1 or XA.shape[1] == 1
            F = m.predict(np.asarray(X))[0] if oned else None
            P = flat(np.asarray(X), F)
            base = np.asarray(X, dtype=float).reshape(len(X), -1)
            marks = [(base[i, 0], v) if oned else tuple(base[i]) for i, v in rates]
            verify(ctx, ax, [(P[b], P[a]) for a, b in pairs], marks, where)
            ctx.step()
            ctx.state((kind, str(dim), word[:pos + 1]))
            ctx.outcome((len(pairs), len(rates), np.round(P, 3).tobytes()))
    ctx.traces += 1


def explicit(ctx, case, ax):
    """samples, labels and rewards passed explicitly, independent of the model's own"""
    kind, dim, n = case['kind'], case['dim'], case['n']
    X = pts(dim, 0, n)
    F = np.array([0.4, -0.7, 1.1, 0.05])[:n]
    m = build(kind)
    if dim == 2:
        m.add(pts(2, 3, 2), [(-1, 0, 1)])
    elif kind == 'gp':
        m.add(pts(dim, 3, 2), [(-1, 0, 1)])
    P = flat(X, F)
    allp = [(d, u, v) for u in range(n) for v in range(n) if u != v for d in (-1, 1)]
    for k in range(1, case['upto'] + 1):
        for j, ys in enumerate(itertools.combinations(allp, k)):
            if 'part' in case and j % 48 != case['part']:
                continue
            if k == 3 and 'part' not in case and j % 4:
                continue
            ax.clear()
            abs_ = (np.array([0.3, 0.8]), np.array([n - 1, 0])) if j % 2 else None
            m.plot_preference(ax=ax, X_train=X.copy(), y_train=[np.array(ys), None, abs_], F=F if dim != 2 or j % 3 else None)
            b = X.reshape(n, -1)
            marks = [] if abs_ is None else [(b[i, 0], v) if dim != 2 else tuple(b[i]) for v, i in zip(*abs_)]
            verify(ctx, ax, [(P[v], P[u]) if d == -1 else (P[u], P[v]) for d, u, v in ys], marks, '%s, explicit %s-D samples, labels %s' % (kind, dim, ys))
            ctx.step()
            ctx.state((kind, str(dim), ys))
    ctx.traces += 1


def run(case, ctx):
    fig, ax = plt.subplots()
    try:
        if case['k'] == 'hist':
            rest = case['d'] - len(case['pre'])
            for w in itertools.product(OPS, repeat=rest):
                history(ctx, case, case['pre'] + ''.join(w), ax)
        elif case['k'] == 'explicit':
            explicit(ctx, case, ax)
        elif case['k'] == 'refuse':
            m = build(case['kind'])
            P = pts(case['dim'], 0)
            if case['op'] in PAIRS:
                m.add(P, list(PAIRS[case['op']]))
            elif case['op'] == 'a':
                m.add(P, np.array([0.2, 0.3, 0.4]), type='abs')
            elif case['op'] == 'O':
                m.add(P, [1, 2, 3], type='ordinal')
            else:
                m.add(P, [(1, 0, 1), (-1, 2, 0)])
            with learn.LEnv(Chooser([], fair_after=0), u=(0.31,), vec=('mid',), z=(0.4,), max_enum=3):
                refused, _ = raises(m.plot_preference, ax=ax)
            ctx.check(refused, lambda: '%d-D samples are drawn instead of refused' % case['dim'])
            lines, arrows, marks = read(ax)
            ctx.check(not lines and not arrows and not marks, 'a refused drawing leaves marks on the axes')
            ctx.step()
            ctx.state(str(case))
            ctx.traces += 1
        else:
            for kind in ('gp', 'lin'):
                m = build(kind)
                m.plot_preference(ax=ax)
                verify(ctx, ax, [], [], 'model without judgements')
                ctx.step()
                ctx.state(('empty', kind))
    finally:
        plt.close(fig)
