"""Building blocks shared by the checks: polynomial fields, noise alphabets, exact Gaussian laws."""
import itertools

import numpy as np

from mc import noise


# ---------------------------------------------------------------- polynomial fields
def monos(d, deg, tdeg=0):
    """Exponents (x_1..x_d, t) with total x-degree <= deg and t-degree <= tdeg, simplest first."""
    out = []
    for e in itertools.product(range(deg + 1), repeat=d):
        if sum(e) <= deg:
            for b in range(tdeg + 1):
                out.append(e + (b,))
    return sorted(out, key=lambda e: (sum(e), e))


def jax_monos(E):
    import jax.numpy as jnp

    def m(x, t):
        vals = []
        for e in E:
            v = jnp.ones((), dtype=jnp.result_type(float))
            for i, k in enumerate(e[:-1]):
                for _ in range(k):
                    v = v * x[i]
            for _ in range(e[-1]):
                v = v * t
            vals.append(v)
        return jnp.stack(vals)

    return m


class Poly:
    """Tensor-valued polynomial: value[...] = sum_k C[..., k] mono_k(x, t), in NumPy with exact derivatives."""

    def __init__(self, C, E):
        self.C, self.E = np.asarray(C, dtype=float), [tuple(e) for e in E]

    def _m(self, x, t, dx=()):
        """d^|dx| / dx_{dx} of all monomials."""
        out = []
        for e in self.E:
            e = list(e)
            c = 1.0
            for i in dx:
                c *= e[i]
                e[i] = max(e[i] - 1, 0) if c else 0
            out.append(0.0 if c == 0 else c * float(np.prod([float(x[i]) ** k for i, k in enumerate(e[:-1])])) * float(t) ** e[-1])
        return np.array(out)

    def __call__(self, x, t=0.0):
        return self.C @ self._m(x, t)

    def jac(self, x, t=0.0):
        return np.stack([self.C @ self._m(x, t, (i,)) for i in range(len(x))], axis=-1)

    def hess(self, x, t=0.0):
        d = len(x)
        return np.stack([np.stack([self.C @ self._m(x, t, (i, j)) for j in range(d)], axis=-1) for i in range(d)], axis=-2)

    def dt(self, x, t=0.0):
        out = []
        for e in self.E:
            b = e[-1]
            out.append(0.0 if b == 0 else b * float(np.prod([float(x[i]) ** k for i, k in enumerate(e[:-1])])) * float(t) ** (b - 1))
        return self.C @ np.array(out)


def jax_poly(C, E):
    m = jax_monos(E)
    return lambda x, t=0.0: C @ m(x, t)


# ---------------------------------------------------------------- trees and vectors
def flat(out, n):
    """Result of noise.run (leading axis n) as a matrix (n, total)."""
    import jax
    ls = jax.tree_util.tree_leaves(out)
    return np.concatenate([np.asarray(l, dtype=np.float64).reshape(n, -1) for l in ls], axis=1)


def tree_ids(out1):
    """For one output (no leading axis): list of (leaf number, index)."""
    import jax
    r = []
    for i, l in enumerate(jax.tree_util.tree_leaves(out1)):
        for idx in np.ndindex(np.shape(l)):
            r.append((i, idx))
    return r


# ---------------------------------------------------------------- noise alphabets
SQ3 = 3.0 ** 0.5
GH3 = (np.array([0.0, SQ3, -SQ3]), np.array([2 / 3, 1 / 6, 1 / 6]))      # exact for moments of degree <= 5
GH2 = (np.array([1.0, -1.0]), np.array([0.5, 0.5]))                     # degree <= 3


def gh(n):
    x, w = np.polynomial.hermite_e.hermegauss(n)
    return x, w / w.sum()


def product_nodes(n_vars, nodes, weights):
    """All assignments of the alphabet to n_vars variables, with product weights."""
    g = np.array(list(itertools.product(range(len(nodes)), repeat=n_vars)), dtype=int).reshape(-1, n_vars)
    return nodes[g], np.prod(weights[g], axis=1) if n_vars else np.ones(1)


def basis_rows(n, pairs=True, base=None):
    """0, e_i, 2 e_i, e_i + e_j (added to base): enough to decide affinity of a quadratic map."""
    b = np.zeros(n) if base is None else np.asarray(base, dtype=float)
    rows = [b]
    I = np.eye(n)
    rows += [b + I[i] for i in range(n)]
    rows += [b - 2 * I[i] for i in range(n)]
    if pairs:
        rows += [b + I[i] + I[j] for i in range(n) for j in range(i)]
    return np.array(rows).reshape(-1, n)


class Law:
    """Exact law of an affine image of independent standard normals."""

    def __init__(self, mean, L):
        self.mean, self.L = mean, L

    @property
    def cov(self):
        return self.L @ self.L.T


def affine(F, n, pairs=True):
    """Fit on basis_rows(n) and return (Law, residual of affinity)."""
    m = F[0]
    L = (F[1:n + 1] - m).T if n else np.zeros((len(m), 0))
    Z = basis_rows(n, pairs)
    pred = m + Z @ L.T
    return Law(m, L), (np.abs(pred - F).max() if F.size else 0.0)


def gaussian_law(fn, ctx, extra=None, in_axes=None, pairs=True, seed=0, label='', tol=1e-7):
    """Exact law of fn(key, *extra) when it is affine in its noise; checks affinity.

    extra is shared (in_axes all None)."""
    extra = () if extra is None else tuple(extra)
    out1, rec = noise.record(lambda k: fn(k, *extra), seed)
    n = rec.n_vars
    Z = basis_rows(n, pairs)
    F = flat(noise.run(fn, rec, Z, seed=seed, extra=extra), len(Z))
    ctx.visit(F, label)
    ctx.trans(len(Z))
    ctx.finite(label + ': finite', F)
    law, res = affine(F, n, pairs)
    sc = 1 + np.abs(F).max() if F.size else 1
    ctx.true(label + ': output is affine in the Gaussian noise', res <= tol * sc, residual=float(res))
    return law, out1, rec


def affine_laws(fn, rec, ctx, params, pairs=True, seed=0, label='', tol=1e-7):
    """Laws of fn(key, *params[i]) for every row i; params: tuple of arrays with leading axis P.

    All P x basis executions are one compiled run."""
    P = len(params[0])
    Z = basis_rows(rec.n_vars, pairs)
    B = len(Z)
    ZZ = np.tile(Z, (P, 1))
    pp = tuple(np.repeat(np.asarray(p), B, axis=0) for p in params)
    F = flat(noise.run(fn, rec, ZZ, seed=seed, extra=pp, in_axes=(0,) * len(pp), sequential=True), len(ZZ))
    ctx.visit(F, label)
    ctx.trans(len(ZZ))
    ctx.finite(label + ': finite', F)
    F = F.reshape(P, B, -1)
    laws = []
    for i in range(P):
        law, res = affine(F[i], rec.n_vars, pairs)
        ctx.true(label + ': output is affine in the Gaussian noise', res <= tol * (1 + np.abs(F[i]).max()), residual=float(res), param=i)
        laws.append(law)
    return laws


def owners(F0, Fe, order):
    """First output position (according to order) affected by each variable; -1 if none."""
    out = []
    for f in Fe:
        d = np.abs(f - F0) > 1e-12 * (1 + np.abs(F0))
        w = [order[i] for i in np.flatnonzero(d)]
        out.append(min(w) if w else -1)
    return np.array(out)


def vm(fn, *arrays, in_axes=0):
    """jit(vmap(fn)) over arrays, results as NumPy."""
    import jax
    out = jax.jit(jax.vmap(lambda *a: fn(*a), in_axes=in_axes))(*arrays)
    return jax.tree_util.tree_map(np.asarray, out)


def coefs(shape, salt=0, lo=-1.0, hi=1.0):
    """A fixed, generic (no accidental zeros or equalities) coefficient array."""
    n = int(np.prod(shape))
    i = np.arange(1, n + 1)
    v = np.modf(i * 0.6180339887498949 + (salt + 1) * 0.41421356237309515 + 0.07 * np.sqrt(i))[0]
    return (lo + (hi - lo) * v).reshape(shape)


def assign(own, rec, N):
    """Variables which showed no effect share the owner of the draw they belong to, when that is unique."""
    own = own.copy()
    for d in rec.draws:
        sl = slice(d.offset, d.offset + d.n)
        w = {int(o) for o in own[sl] if o < N}
        if len(w) == 1:
            own[sl] = w.pop()
    return own


def cov_eq(ctx, label, got, want, rtol=2e-6, floor=1e-13, mag=1.0):
    """Covariances agree relative to the standard deviations (floor * mag^2: variances below are rounding)."""
    got, want = np.asarray(got), np.asarray(want)
    sd = np.sqrt(np.maximum(np.diag(want), 0.0) + floor / rtol * mag ** 2)
    return ctx.eq(label, got / np.outer(sd, sd), want / np.outer(sd, sd), atol=rtol, rtol=0.0)
