"""P09: covariances are symmetric, positive semi-definite and pointwise consistent."""
import numpy as np

from mc import ref, kern

TECHNIQUE = 'exhaustive enumeration of kernels, compositions, parameter-setting histories and sample-set relations on the real kernels, against the pointwise definition'
LEVEL_NOTE = 'every configuration of the bounded space is executed on the real code'
RULE = ('every kernel composition up to the depth bound x parameter-setting histories (construct, set, evaluate before setting, random draws) x relations of the two sample '
        'sets (same, equal copy, copy moved by 1e-9, permuted, subset, equal up to some samples, repeated samples, integers, column-major, unrelated; 1 to 33 samples) x sample shapes; the matrix is compared with the '
        'definition and with the kernel called pointwise, transposed, factorised, evaluated again; arguments and parameters must not change')
BOUNDS = {'quick': '8 leaf kernels, 128 compositions with one operator (2 compositions of 2 operators per leaf), 8 parameter histories, 12 set relations, shapes flat/1/2/3',
          'thorough': '8 leaf kernels, 128 one-operator and 4096 two-operator compositions, 8 parameter histories, 12 set relations, shapes flat/1/2/3'}
ASSUMPTIONS = ['positive parameters; positive semi-definiteness of periodic kernels asserted in one dimension only',
               'a set compared with an equal copy of itself is a set compared with itself']
RELS = [('same', 4, 4), ('copy', 3, 3), ('other', 3, 5), ('perm', 3, 3), ('sub', 5, 2), ('dup', 3, 3), ('int', 3, 3), ('fort', 4, 2), ('same', 1, 1), ('other', 1, 1), ('other', 2, 17), ('head', 3, 3), ('tail', 3, 3), ('most', 4, 4), ('near', 3, 3), ('near', 1, 1)]


def cases(tier):
    t = tier == 'thorough'
    k = 0
    for s in kern.specs(0):
        for h in kern.HISTORIES:
            for r in range(len(RELS)):
                yield {'spec': s, 'h': h, 'rels': [list(RELS[r])], 'dims': [0, 1, 2, 3]}
        yield {'spec': s, 'h': 'eSe', 'rels': [['same', 33, 33], ['other', 16, 33], ['sub', 33, 32]], 'dims': [0, 1, 2, 3]}
    for s in kern.specs(1):
        for h in kern.HISTORIES:
            k += 1
            yield {'spec': s, 'h': h, 'rels': [list(RELS[(k + i * 3) % len(RELS)]) for i in range(3)], 'dims': [(0, 1, 2, 3)[(k // 11 + i) % 4] for i in range(2)]}
    two = kern.specs(2)
    for i, s in enumerate(two):
        if not t and i % 16 != 5:
            continue
        k += 1
        yield {'spec': s, 'h': kern.HISTORIES[k % 8], 'rels': [list(RELS[(k + j * 4) % len(RELS)]) for j in range(2)], 'dims': [(0, 1, 2, 3)[k // 3 % 4]]}
    yield {'spec': None, 'h': '', 'rels': [list(r) for r in RELS], 'dims': [0, 1, 2, 3]}


def check(ctx, k, spec, X, Y, same, what):
    X0, Y0 = X.copy(), Y.copy()
    p0 = None if spec is None else np.array(k.get_param())
    C = np.array(k.cov(X, Y))
    ctx.close(C, ref.kcov(spec, X, Y, same), 1e-9, what + ': covariance matrix', rel=True)
    noise = np.eye(len(X)) * noise_of(spec, X, Y) if same else 0.0
    P = np.array([[float(k(x, y)) for y in Y] for x in X])
    ctx.close(C, P + noise, 1e-9, what + ': covariance matrix vs kernel values at the pairs', rel=True)
    ctx.close(np.array(k.cov(Y, X)), C.T, 1e-9, what + ': covariance of the exchanged sets', rel=True)
    ctx.close(np.array(k.cov(X, Y)), C, 1e-12, what + ': covariance evaluated again', rel=True)
    ctx.check(np.array_equal(X, X0) and np.array_equal(Y, Y0), what + ': the evaluation changed its arguments')
    ctx.check(np.array_equal(np.array(k.get_param()), p0), what + ': the evaluation changed the parameters')
    ctx.check(len(k.get_param()) == len(k) == ref.npar(spec), what + ': number of parameters')
    ctx.close(k.get_param(), ref.get_par(spec), 1e-12, what + ': parameters read back')
    ctx.step(3)
    return C


def noise_of(spec, X, Y):
    """diagonal the composition adds: difference of the definition with and without the own-set noise"""
    D = ref.kcov(spec, X, Y, True) - ref.kcov(spec, X, Y, False)
    return np.diag(D)


def run(case, ctx):
    for dim in case['dims']:
        for rel, n, m in case['rels']:
            X, Y = kern.sets(dim, n, m, rel)
            same = rel in ('same', 'copy', 'dup') or (rel == 'perm' and n == 1)
            if case['spec'] is None:
                custom(ctx, X, Y, dim)
                continue
            spec = kern.place(case['spec'], dim)
            k = kern.make(spec, case['h'], X, Y)
            what = 'kernel %s (history "%s"), %s sets of %d and %d samples of shape %s' % (spec, case['h'], rel, len(X), len(Y), dim or 'flat')
            C = check(ctx, k, spec, X, Y, same, what)
            if same:
                ctx.check(np.array_equal(C, C.T) or np.allclose(C, C.T, atol=1e-12), what + ': not symmetric')
                if kern.psd_ok(spec, dim):
                    w = np.linalg.eigvalsh(C)
                    ctx.check(w[0] > -1e-8 * max(1.0, w[-1]), lambda: what + ': smallest eigenvalue %g' % w[0])
            if dim == 0:
                k2 = kern.make(spec, case['h'], X[:, None], Y[:, None])
                ctx.close(np.array(k2.cov(X[:, None], Y[:, None])), C, 1e-12, what + ': column shaped vs flat samples')
            ctx.state((spec, case['h'], rel, n, m, dim))
            ctx.outcome(np.round(C, 4))


def custom(ctx, X, Y, dim):
    """a kernel of the user's own built on the library's base class"""
    from lop.kernels import KernelFunc
    import lop

    class Mine(KernelFunc):
        def __call__(self, u, v):
            return 0.3 + 0.8 * float(np.exp(-np.sum(np.abs(np.atleast_1d(u) - np.atleast_1d(v)))))
    want = np.array([[Mine()(x, y) for y in Y] for x in X])
    what = 'own kernel on %d and %d samples' % (len(X), len(Y))
    ctx.close(Mine().cov(X, Y), want, 1e-12, what)
    r = ['rbf', 0.7, 0.6, 0.0]
    R = ref.kcov(r, X, Y, False)
    ctx.close((Mine() + lop.RBF_kern(0.7, 0.6, 0.0)).cov(X, Y), want + R, 1e-12, what + ', sum with an RBF kernel')
    ctx.close((lop.RBF_kern(0.7, 0.6, 0.0) * Mine()).cov(X, Y), want * R, 1e-12, what + ', product with an RBF kernel')
    for bad in (1.0, None, 'x'):
        for op in ('__add__', '__mul__'):
            try:
                getattr(Mine(), op)(bad)
            except TypeError:
                continue
            ctx.fail('combining a kernel with %r is accepted' % (bad,))
    ctx.step(3)
    ctx.state(('own', X.tolist(), Y.tolist()))
