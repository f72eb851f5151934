"""Reference models in NumPy: Gaussian conditioning, extended Kalman filter, priors, ODE filters."""
from math import comb, factorial

import numpy as np
import scipy.linalg as sl


# ------------------------------------------------------------------ Gaussians
def condition(m, P, H, c, R, with_S=False):
    """Posterior of x ~ N(m, P) given 0 = c + H (x - m) + N(0, R)."""
    S = H @ P @ H.T + R
    K = np.linalg.solve(S, H @ P).T
    m2 = m - K @ c
    I_KH = np.eye(len(m)) - K @ H
    P2 = I_KH @ P @ I_KH.T + K @ R @ K.T
    return (m2, P2, S) if with_S else (m2, P2)


def joint_condition(m0, P0, A, xi, Q, Hs, cs, R):
    """Law of x_N given y_1 = .. = y_N = 0, y_k = H_k x_k + c_k + r_k, by one conditioning of the joint Gaussian."""
    N, nx = len(Hs), len(m0)
    ny = Hs[0].shape[0]
    mean, ms = m0, []
    Fs = np.zeros((N, nx, nx + N * nx))                     # x_k as a linear map of (x_0, w_1..w_N)
    F = np.concatenate([np.eye(nx), np.zeros((nx, N * nx))], axis=1)
    for k in range(N):
        F = A @ F
        F[:, nx + k * nx:nx + (k + 1) * nx] += np.eye(nx)
        mean = A @ mean + xi
        Fs[k] = F
        ms.append(mean)
    B = sl.block_diag(P0, *[Q] * N)
    G = np.concatenate([Hs[k] @ Fs[k] for k in range(N)])   # y as a map
    my = np.concatenate([Hs[k] @ ms[k] + cs[k] for k in range(N)])
    Syy = G @ B @ G.T + np.kron(np.eye(N), R)
    Sxy = Fs[-1] @ B @ G.T
    Sxx = Fs[-1] @ B @ Fs[-1].T
    K = np.linalg.solve(Syy, Sxy.T).T
    return ms[-1] - K @ my, Sxx - K @ Sxy.T, Syy


def ekf(m, P, A, xi, Q, R, ts, obs):
    """Extended Kalman filter; obs(m, t) -> (value, Jacobian).  Returns m, P, last S, last residual, all states."""
    hist, S, c = [], None, None
    for t in ts:
        m = A @ m + xi
        P = A @ P @ A.T + Q
        c, H = obs(m, t)
        m, P, S = condition(m, P, H, c, R, True)
        hist.append((m, P))
    return m, P, S, c, hist


def min_innovation(m, P, A, xi, Q, R, ts, obs):
    """Smallest eigenvalue of the innovation covariances along the run: 0 means the update is not defined."""
    lo, cond = np.inf, 0.0
    for t in ts:
        m = A @ m + xi
        P = A @ P @ A.T + Q
        c, H = obs(m, t)
        S = H @ P @ H.T + R
        w = np.linalg.eigvalsh(S)
        lo = min(lo, w[0])
        cond = max(cond, w[-1] / max(w[0], 1e-300))
        if w[0] < 1e-12:
            return 0.0, np.inf
        m, P = condition(m, P, H, c, R)
    return lo, cond


# ------------------------------------------------------------------ linear SDEs
def van_loan(F, L, h):
    """A = exp(F h), Q = int_0^h exp(F s) L L^T exp(F s)^T ds."""
    n = len(F)
    M = np.block([[-F, L @ L.T], [np.zeros((n, n)), F.T]]) * h
    E = sl.expm(M)
    A = E[n:, n:].T
    Q = A @ E[:n, n:]
    return A, (Q + Q.T) / 2


def increment(F, u, h):
    """int_0^h exp(F s) u ds."""
    n = len(F)
    M = np.zeros((n + 1, n + 1))
    M[:n, :n], M[:n, n] = F * h, np.asarray(u) * h
    return sl.expm(M)[:n, n]


def graded(F, L, h):
    """van_loan for a companion form, accurate relative to the scale of every entry also for small h."""
    D = float(h) ** np.arange(len(F) - 1, -1, -1)
    A, Q = van_loan(F * D[None, :] / D[:, None] * h, L * np.sqrt(h), 1.0)
    return A * D[:, None] / D[None, :], Q * np.outer(D, D)


def ibm(q, sigma, h, dim=1):
    F = np.diag(np.ones(q), 1)
    L = np.zeros((q + 1, 1))
    L[-1] = sigma
    A, Q = graded(F, L, h)
    return np.zeros(dim * (q + 1)), np.kron(np.eye(dim), Q), np.kron(np.eye(dim), A)


def iou_F(q, theta):
    F = np.diag(np.ones(q), 1) if q else np.zeros((1, 1))
    F = F.copy()
    F[-1, -1] = -theta
    return F


def matern_FL(k, magnitude, length):
    lam = np.sqrt(2 * (k + 0.5)) / length
    F = np.diag(np.ones(k), 1) if k else np.zeros((1, 1))
    F = F.copy()
    F[-1] = [-comb(k + 1, i) * lam ** (k + 1 - i) for i in range(k + 1)]
    L = np.zeros((k + 1, 1))
    L[-1] = magnitude
    return F, L


def matern(k, magnitude, length, h, dim=1):
    F, L = matern_FL(k, magnitude, length)
    A, Q = graded(F, L, h)
    return np.zeros(dim * (k + 1)), np.kron(np.eye(dim), Q), np.kron(np.eye(dim), A)


# ------------------------------------------------------------------ Gaussian ODE filters
def ivp_obs(f, n_states, order1):
    """x' - f(x, t) on the interlaced state; f has .jac."""

    def obs(m, t):
        d = len(m) // n_states
        x = m[::n_states]
        c = m[1::n_states] - f(x, t)
        H = np.zeros((d, len(m)))
        H[np.arange(d), np.arange(d) * n_states + 1] = 1.0
        if order1:
            H[:, ::n_states] -= f.jac(x, t)
        return c, H

    return obs


def filter_init(f, x0, n_states):
    """Exact value, first and second derivative; unit variance on the rest."""
    d = len(x0)
    v = f(x0, 0.0)
    rows = [np.asarray(x0, dtype=float), v]
    if n_states >= 3:
        rows.append(f.jac(x0, 0.0) @ v + f.dt(x0, 0.0))
    while len(rows) < n_states:
        rows.append(np.zeros(d))
    m = np.stack(rows, axis=1).reshape(-1)
    blk = np.zeros((n_states, n_states))
    if n_states > 3:
        blk[3:, 3:] = np.eye(n_states - 3)
    return m, np.kron(np.eye(d), blk)


def alg2(f, x0, h, N, order1, prior=None, noise=None):
    d = len(x0)
    n = 2 if prior is None else prior[2].shape[0] // d
    xi, Q, A = ibm(1, 1.0, h, d) if prior is None else prior
    R = np.zeros((d, d)) if noise is None else noise
    m, P = filter_init(f, x0, n)
    ts = h * np.arange(1, N + 1)
    return ekf(m, P, A, xi, Q, R, ts, ivp_obs(f, n, order1)), n


def alg3(f, m0, P0, h, N, order1, prior=None, noise=None):
    d = len(m0)
    xi, Q, A = ibm(1, 1.0, h, d) if prior is None else prior
    R = np.zeros((d, d)) if noise is None else noise
    J = f.jac(m0, 0.0) if order1 else np.zeros((d, d))
    m = np.stack([m0, f(m0, 0.0)], axis=1).reshape(-1)
    P = np.zeros((2 * d, 2 * d))
    P[::2, ::2], P[1::2, ::2], P[::2, 1::2], P[1::2, 1::2] = P0, J @ P0, P0 @ J.T, J @ P0 @ J.T
    ts = h * np.arange(1, N + 1)
    return ekf(m, P, A, xi, Q, R, ts, ivp_obs(f, 2, order1))


def alg4(drift, sig, x0, delta, h, N, order1, prior=None, noise=None):
    """Filter on (x, x', increment, area) per component, square diffusion; fields have .jac, sig is (d, d)-valued."""
    d = len(x0)
    xi1, Q1, A1 = ibm(1, 1.0, h, 1) if prior is None else prior
    R = np.zeros((d, d)) if noise is None else noise
    s0 = sig(x0, 0.0)
    # x'(0) = drift + s0 @ (w + sqrt6 a) / delta,  w ~ N(0, delta I), a ~ N(0, delta/2 I)
    n = 4 * d
    M = np.zeros((n, 2 * d))                                 # state as a map of (w, a)
    M[1::4, :d] = s0 / delta
    M[1::4, d:] = np.sqrt(6) * s0 / delta
    M[2::4, :d] = np.eye(d)
    M[3::4, d:] = np.eye(d)
    P = M @ np.diag(np.concatenate([np.full(d, delta), np.full(d, delta / 2)])) @ M.T
    m = np.zeros(n)
    m[::4], m[1::4] = x0, drift(x0, 0.0)
    A = np.kron(np.eye(d), sl.block_diag(A1, np.eye(2)))
    Q = np.kron(np.eye(d), sl.block_diag(Q1, np.zeros((2, 2))))
    xi = np.tile(np.concatenate([xi1, np.zeros(2)]), d)

    def obs(m, t):
        x, w, a = m[::4], m[2::4], m[3::4]
        r = w / delta + np.sqrt(6) * a * (1 - 2 * t / delta) / delta
        c = m[1::4] - drift(x, t) - sig(x, t) @ r
        H = np.zeros((d, n))
        H[np.arange(d), 4 * np.arange(d) + 1] = 1.0
        H[:, 2::4] -= sig(x, t) / delta
        H[:, 3::4] -= sig(x, t) * np.sqrt(6) * (1 - 2 * t / delta) / delta
        if order1:
            H[:, ::4] -= drift.jac(x, t) + np.einsum('ikj,k->ij', sig.jac(x, t), r)
        return c, H

    ts = h * np.arange(1, N + 1)
    return ekf(m, P, A, xi, Q, R, ts, obs)


def well_posed(m, P, A, xi, Q, R, ts, obs, tol=1e-8, big=50.0):
    """The run is defined and numerically stable: innovations regular, states moderate, and perturbing the model by
    1e-12 (relative) moves no state by more than tol."""
    lo, cond = min_innovation(m, P, A, xi, Q, R, ts, obs)
    if not (lo > 1e-4 and cond < 1e5):
        return False
    a = ekf(m, P, A, xi, Q, R, ts, obs)
    e = 1e-12
    wig = lambda M: M * (1 + e * np.cos(np.arange(M.size)).reshape(M.shape))
    b = ekf(m + e, P, wig(A), xi, Q + e * np.eye(len(m)), R + e * np.eye(len(R)), ts, obs)
    for (m1, P1), (m2, P2) in zip(a[4], b[4]):
        s = 1 + max(np.abs(m1).max(), np.abs(P1).max())
        if s > big or np.abs(m1 - m2).max() > tol or np.abs(P1 - P2).max() > tol:
            return False
    return True
