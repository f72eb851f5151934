"""Configurations of the Gaussian ODE filters: priors, noises, polynomial fields; parallel NumPy/JAX forms."""
import numpy as np
import scipy.linalg as sl

from mc import ref
from mc.lib import Poly, coefs, jax_poly, monos

DEG, TDEG = 2, 1


def dense_prior(n, salt, xi=True):
    A = np.eye(n) + 0.3 * coefs((n, n), salt)
    L = np.tril(coefs((n, n), salt + 1))
    np.fill_diagonal(L, 0.6)
    return (0.4 * coefs((n,), salt + 2) if xi else np.zeros(n)), 0.2 * L @ L.T, A


def prior(name, h, d):
    """(xi, Q, A) by the reference formulas; None for the default."""
    if name == 'default':
        return None
    if name.startswith('ibm'):                      # ibm<q>[s]
        q = int(name[3])
        return ref.ibm(q, 0.7 if name.endswith('s') else 1.0, h, d)
    if name.startswith('mat'):                      # mat<k>
        return ref.matern(int(name[3]), 1.3, 0.8, h, d)
    if name.startswith('iou'):                      # iou<q>: matrix of the OU process, leading-order covariance
        q = int(name[3])
        xi, Q, A = ref.ibm(q, 1.0, h, 1)
        A = sl.expm(ref.iou_F(q, 0.9) * h)
        return np.tile(xi, d), np.kron(np.eye(d), Q), np.kron(np.eye(d), A)
    if name == 'xi':                                # nonzero increment
        xi, Q, A = ref.ibm(1, 1.0, h, d)
        return 0.5 * coefs((2 * d,), 40), Q, A
    if name.startswith('pad'):                      # pad<q>: order one padded to order q
        q = int(name[3])
        one = ref.ibm(1, 1.0, h, 1)
        xi, Q, A = np.zeros(q + 1), np.zeros((q + 1, q + 1)), np.zeros((q + 1, q + 1))
        Q[:2, :2], A[:2, :2] = one[1], one[2]
        return np.tile(xi, d), np.kron(np.eye(d), Q), np.kron(np.eye(d), A)
    if name.startswith('fac'):                      # different prior per component (fac1: order 1, fac2: orders mixed by padding)
        parts = []
        for i in range(d):
            if name == 'fac1':
                parts.append([ref.ibm(1, 0.5, h), ref.matern(1, 1.3, 0.8, h), ref.ibm(1, 2.0, h)][i % 3])
            else:
                one = ref.ibm(1, 0.5, h)
                xi, Q, A = np.zeros(3), np.zeros((3, 3)), np.zeros((3, 3))
                Q[:2, :2], A[:2, :2] = one[1], one[2]
                parts.append([(xi, Q, A), ref.ibm(2, 1.1, h), ref.matern(2, 1.3, 0.8, h)][(i + 1) % 3])
        return np.concatenate([p[0] for p in parts]), sl.block_diag(*[p[1] for p in parts]), sl.block_diag(*[p[2] for p in parts])
    if name.startswith('dense'):                    # coupling between components
        q = int(name[5])
        return dense_prior((q + 1) * d, 50 + q)
    raise KeyError(name)


def noise_matrix(name, d):
    if name == 'none':
        return None
    if name == 'zero':
        return np.zeros((d, d))
    if name == 'diag':
        return np.diag(0.3 + 0.2 * np.arange(d))
    if name == 'dense':
        L = np.tril(coefs((d, d), 60))
        np.fill_diagonal(L, 0.4)
        return L @ L.T
    if name == 'partial':                           # noise on the last component only
        R = np.zeros((d, d))
        R[-1, -1] = 0.5
        return R
    raise KeyError(name)


def field_batch(d, size, salt=0, deg=DEG, tdeg=TDEG, generic=False):
    """Coefficients of vector fields: every single monomial entry, then generic ones."""
    E = monos(d, deg, tdeg)
    K = len(E)
    C = []
    for i in range(0 if generic else d):
        for k in range(K):
            c = np.zeros((d, K))
            c[i, k] = 0.8
            C.append(c)
    for s in range(size):
        C.append(coefs((d, K), salt + s, -0.6, 0.6) / (max(1, d - 1) if generic else 1))
    return np.array(C), E


def x0_batch(d, n, salt=70):
    return np.array([coefs((d,), salt + i) for i in range(n)])


def product(C, X):
    """Pairs (field, state)."""
    ci, xi = np.repeat(np.arange(len(C)), len(X)), np.tile(np.arange(len(X)), len(C))
    return C[ci], X[xi]


def stable_alg2(f, x0, h, N, order1, pr, R):
    d = len(x0)
    n = 2 if pr is None else pr[2].shape[0] // d
    xi, Q, A = ref.ibm(1, 1.0, h, d) if pr is None else pr
    m, P = ref.filter_init(f, x0, n)
    return ref.well_posed(m, P, A, xi, Q, np.zeros((d, d)) if R is None else R, h * np.arange(1, N + 1), ref.ivp_obs(f, n, order1))


def jpr(pr):
    import jax.numpy as jnp
    return None if pr is None else tuple(jnp.asarray(z) for z in pr)


def solver(name):
    import bayesian_sde_solver.ode_solvers as o
    return getattr(o, name)
