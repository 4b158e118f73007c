"""Boring reference models.  Nothing here imports lop's numerics (only build_kernel constructs lop objects)."""
import itertools
import math

import numpy as np
from scipy import special as sp
from scipy.linalg import cho_factor, cho_solve

import lop


# --------------------------------------------------------------------------------------------------- kernels
# spec: ['rbf', sigma, l, noise] ['per', sigma, l, p] ['lin', sigma, sigma_b, c] ['rbf0', sigma, l, zero|None, noise]
#       ['+', a, b] ['*', a, b]
def build_kernel(s):
    t = s[0]
    if t == 'rbf':
        return lop.RBF_kern(s[1], s[2], sigma_noise=s[3])
    if t == 'per':
        return lop.PeriodicKern(s[1], s[2], s[3])
    if t == 'lin':
        return lop.LinearKern(s[1], s[2], s[3])
    if t == 'rbf0':
        from lop.kernels import RBF_kern_zeroed
        z = None if s[3] is None else np.array(s[3], dtype=float)
        return RBF_kern_zeroed(s[1], s[2], zero_pt=z, sigma_noise=s[4])
    a, b = build_kernel(s[1]), build_kernel(s[2])
    return a + b if t == '+' else a * b


NPAR = {'rbf': 2, 'per': 3, 'lin': 3, 'rbf0': 2}


def npar(s):
    return NPAR[s[0]] if s[0] in NPAR else npar(s[1]) + npar(s[2])


def get_par(s):
    t = s[0]
    if t in ('rbf', 'rbf0'):
        return [s[1], s[2]]
    if t in ('per', 'lin'):
        return [s[1], s[2], s[3]]
    return get_par(s[1]) + get_par(s[2])


def with_par(s, p):
    p = list(p)
    t = s[0]
    if t == 'rbf':
        return ['rbf', p[0], p[1], s[3]]
    if t == 'rbf0':
        return ['rbf0', p[0], p[1], s[3], s[4]]
    if t in ('per', 'lin'):
        return [t] + p
    na = npar(s[1])
    return [t, with_par(s[1], p[:na]), with_par(s[2], p[na:])]


def kval(s, u, v):
    u = np.atleast_1d(np.asarray(u, dtype=float))
    v = np.atleast_1d(np.asarray(v, dtype=float))
    t = s[0]
    if t == 'rbf':
        return s[1] ** 2 * math.exp(-float(np.sum((u - v) ** 2)) / (2 * s[2] ** 2))
    if t == 'per':
        d = float(np.sum(np.abs(u - v)))
        return s[1] ** 2 * math.exp(-2 * math.sin(math.pi * d / s[3]) ** 2 / s[2] ** 2)
    if t == 'lin':
        return s[2] ** 2 + s[1] ** 2 * float(np.sum((u - s[3]) * (v - s[3])))
    if t == 'rbf0':
        z = np.zeros(len(u)) if s[3] is None else np.array(s[3], dtype=float)
        r = ['rbf', s[1], s[2], 0]
        return kval(r, u, v) - kval(r, u, z) * kval(r, v, z) / s[1] ** 2
    a, b = kval(s[1], u, v), kval(s[2], u, v)
    return a + b if t == '+' else a * b


def same_set(X, Y):
    return np.array_equal(np.asarray(X, dtype=float), np.asarray(Y, dtype=float))


def kcov(s, X, Y, same=None):
    if same is None:
        same = same_set(X, Y)
    t = s[0]
    if t in ('+', '*'):
        a, b = kcov(s[1], X, Y, same), kcov(s[2], X, Y, same)
        return a + b if t == '+' else a * b
    X2 = np.asarray(X, dtype=float)
    Y2 = np.asarray(Y, dtype=float)
    if X2.ndim == 1:
        X2 = X2[:, None]
    if Y2.ndim == 1:
        Y2 = Y2[:, None]
    if t == 'rbf':
        d = np.sum((X2[:, None, :] - Y2[None, :, :]) ** 2, axis=2)
        C = s[1] ** 2 * np.exp(-d / (2 * s[2] ** 2))
    elif t == 'per':
        d = np.sum(np.abs(X2[:, None, :] - Y2[None, :, :]), axis=2)
        C = s[1] ** 2 * np.exp(-2 * np.sin(np.pi * d / s[3]) ** 2 / s[2] ** 2)
    elif t == 'lin':
        C = s[2] ** 2 + s[1] ** 2 * ((X2 - s[3]) @ (Y2 - s[3]).T)
    else:
        C = np.array([[kval(s, x, y) for y in Y2] for x in X2]).reshape(len(X2), len(Y2))
    noise = {'rbf': lambda: s[3], 'rbf0': lambda: s[4]}.get(t, lambda: 0.0)()
    if same:
        C = C + noise * np.eye(len(X2))
    return C


def kgrad(s, u, v, eps=1e-5):
    """central differences (4th order) of the reference value with respect to the parameters"""
    p0 = get_par(s)
    out = []
    for i in range(len(p0)):
        def f(d):
            q = list(p0)
            q[i] += d
            return kval(with_par(s, q), u, v)
        h = eps * max(1.0, abs(p0[i])) * 10
        out.append((8 * (f(h) - f(-h)) - (f(2 * h) - f(-2 * h))) / (12 * h))
    return np.array(out)


# ----------------------------------------------------------------------------------------------- likelihoods
def pref_ll(pairs, F, sigma=0.5):
    """log likelihood and first/second derivatives of comparisons (d, u, v): d=-1 -> u better, d=1 -> v better"""
    F = np.asarray(F, dtype=float)
    n = len(F)
    ll, g, H = 0.0, np.zeros(n), np.zeros((n, n))
    c = 1.0 / (math.sqrt(2) * sigma)
    for d, u, v in pairs:
        d, u, v = int(d), int(u), int(v)
        z = c * d * (F[v] - F[u])
        lc = float(sp.log_ndtr(z))
        ll += lc
        r = math.exp(-0.5 * z * z - 0.5 * math.log(2 * math.pi) - lc)
        dz = np.zeros(n)
        dz[v] += c * d
        dz[u] -= c * d
        g += r * dz
        H += -(z * r + r * r) * np.outer(dz, dz)
    return ll, g, H


def ord_breaks(b, n):
    return np.concatenate([[-np.inf], np.linspace(0, abs(b), n - 1), [np.inf]])


def ord_ll(labels, idx, F, sigma=1.0, breaks=None):
    if breaks is None:
        breaks = ord_breaks(1.0, 5)
    F = np.asarray(F, dtype=float)
    n = len(F)
    ll, g, H = 0.0, np.zeros(n), np.zeros((n, n))

    def pdf(z):
        return 0.0 if np.isinf(z) else math.exp(-0.5 * z * z) / math.sqrt(2 * math.pi)

    def zpdf(z):
        return 0.0 if np.isinf(z) else z * pdf(z)
    for y, i in zip(labels, idx):
        y, i = int(y), int(i)
        z1 = (breaks[y] - F[i]) / sigma
        z0 = (breaks[y - 1] - F[i]) / sigma
        L = float(sp.ndtr(z1) - sp.ndtr(z0)) if z1 < 0 else float(sp.ndtr(-z0) - sp.ndtr(-z1))
        ll += math.log(L) if L > 0 else -math.inf
        if L > 0:
            d1 = -(pdf(z1) - pdf(z0)) / (sigma * L)
            d2 = -(zpdf(z1) - zpdf(z0)) / (sigma ** 2 * L) - d1 ** 2
            g[i] += d1
            H[i, i] += d2
    return ll, g, H


def abs_ll(vals, idx, F, sigma=1.0, v=80.0, eps=1e-10):
    F = np.asarray(F, dtype=float)
    n = len(F)
    ll, g, H = 0.0, np.zeros(n), np.zeros((n, n))
    c = 1.0 / (math.sqrt(2) * sigma)
    for y, i in zip(vals, idx):
        y, i = float(y), int(i)
        f = F[i]
        m = min(max(float(sp.ndtr(c * f)), eps), 1 - eps)
        a, b = v * m, v - v * m
        ll += (a - 1) * math.log(y) + (b - 1) * math.log1p(-y) - (sp.gammaln(a) + sp.gammaln(b) - sp.gammaln(a + b))
        dm = c * math.exp(-0.5 * (c * f) ** 2) / math.sqrt(2 * math.pi)
        d2m = -c * c * f * dm
        t = math.log(y) - math.log1p(-y) - sp.digamma(a) + sp.digamma(b)
        g[i] += v * dm * t
        H[i, i] += v * d2m * t - (v * dm) ** 2 * (sp.polygamma(1, a) + sp.polygamma(1, b))
    return float(ll), g, H


class Data:
    """A plain record of what a preference model should hold."""

    def __init__(self, dim=None):
        self.X = []            # list of 1-d tuples
        self.pairs = []        # (d, u, v)
        self.ords = []         # (label, idx)
        self.abss = []         # (value, idx)

    def copy(self):
        d = Data()
        d.X, d.pairs, d.ords, d.abss = list(self.X), list(self.pairs), list(self.ords), list(self.abss)
        return d

    def ll(self, F, sig=0.5, osig=1.0, obreaks=None, asig=1.0, v=80.0):
        n = len(F)
        ll, g, H = 0.0, np.zeros(n), np.zeros((n, n))
        for r in (pref_ll(self.pairs, F, sig),
                  ord_ll([a for a, _ in self.ords], [i for _, i in self.ords], F, osig, obreaks),
                  abs_ll([a for a, _ in self.abss], [i for _, i in self.abss], F, asig, v)):
            ll += r[0]
            g = g + r[1]
            H = H + r[2]
        return ll, g, H

    def key(self):
        return (tuple(self.X), tuple(sorted(self.pairs)), tuple(sorted(self.ords)), tuple(sorted(self.abss)))


def clamp(v):
    return min(max(float(v), 0.001), 0.999)


# --------------------------------------------------------------------------------------------- GP posterior
def map_fit(K, data, starts=None, **lik):
    """maximiser(s) of ll(F) - 0.5 F'K^-1F.  Returns the list of distinct local maxima (best first)."""
    n = len(K)
    Kc = cho_factor(K, lower=True)
    Ki = cho_solve(Kc, np.eye(n))
    sols = []

    def obj(F):
        l = data.ll(F, **lik)
        return l[0] - 0.5 * F @ Ki @ F, l[1] - Ki @ F, l[2] - Ki
    if starts is None:
        starts = [np.zeros(n), np.full(n, 0.5), np.full(n, 0.9)]
    for F in starts:
        F = np.array(F, dtype=float)
        o, g, H = obj(F)
        for it in range(400):
            # make the step an ascent direction
            w, V = np.linalg.eigh(-H)
            w = np.maximum(np.abs(w), 1e-8)
            stp = V @ ((V.T @ g) / w)
            t = 1.0
            while t > 1e-12:
                o2, g2, H2 = obj(F + t * stp)
                if o2 >= o + 1e-4 * t * (g @ stp) and np.isfinite(o2):
                    break
                t *= 0.5
            else:
                break
            F, o, g, H = F + t * stp, o2, g2, H2
            if np.max(np.abs(t * stp)) < 1e-12:
                break
        if not any(np.max(np.abs(F - s[1])) < 1e-6 for s in sols):
            sols.append((o, F))
    sols.sort(key=lambda s: -s[0])
    return sols


def laplace_predict(spec, X, F, W, Xs):
    """mean and covariance of the Laplace approximation at Xs"""
    K = kcov(spec, X, X)
    Ks = kcov(spec, Xs, X)
    Kss = kcov(spec, Xs, Xs)
    mu = Ks @ np.linalg.solve(K, F)
    B = np.eye(len(K)) + W @ K
    cov = Kss - Ks @ np.linalg.solve(B.T, np.eye(len(K))).T @ W @ Ks.T
    return mu, cov


def gp_predict(spec, X, y, noise, Xs, mean=lambda x: 0.0):
    if X is None or len(X) == 0:
        C = kcov(spec, Xs, Xs)
        return np.zeros(len(Xs)) + mean(Xs), C
    K = kcov(spec, X, X) + np.diag(noise)
    Ks = kcov(spec, Xs, X)
    Kss = kcov(spec, Xs, Xs)
    r = np.asarray(y, dtype=float) - mean(X)
    mu = Ks @ np.linalg.solve(K, r) + mean(Xs)
    return mu, Kss - Ks @ np.linalg.solve(K, Ks.T)


# ---------------------------------------------------------------------------------------------------- pareto
def dominates(a, b):
    """a at least as good everywhere and better somewhere"""
    return all(x >= y for x, y in zip(a, b)) and any(x > y for x, y in zip(a, b))


def strictly_better(a, b):
    return all(x > y for x, y in zip(a, b))
