"""C19: exact first and second moments of the numerical solution under refinement, against the moments of the SDE.

additive: the whole N-step run is affine in its noise, its law is determined exactly from a basis of the noise space.
mult:     the one-step maps x -> M(z) x + v(z) of the real driver, run at every time of the grid and at every node of a
          product quadrature over z, give the exact transition of the moments; two-step runs of the driver with every pair
          of nodes bind the composition to the code."""
import itertools

import numpy as np
from scipy.integrate import solve_ivp

from mc import noise
from mc.lib import affine, coefs, flat, gh

BOUNDS = dict(quick='additive: 14 schemes, d <= 2, time-dependent, N in {4, 8, 16}; multiplicative: 9 schemes, d = 1 (affine noise) and d = 2 (non-commuting; diagonal for the diagonal scheme), N in {8, 16, 32}',
              thorough='additive N up to 64; multiplicative N up to 128')
ASSUMPTIONS = ['multiplicative noise: the ODE integrators take N sub-steps per interval of length 1/N (sub-steps refined along with the interval)',
               'quadrature in the noise: 7 nodes per variable (exact up to degree 13; the one-step maps are low-degree polynomials or close to)']
ADD = ['em', 'em_pathwise', 'hypo', 'diag', 'euler', 'ekf0', 'ekf0s', 'ekf1', 'ekf1s', 'ekf0_key', 'ekf1s_key', 'ekf0_2', 'ekf1_2s', 'ekf0_2_key', 'marg0', 'marg1s',
       'fine_ekf0', 'brownian_ekf1']
MULT = ['em', 'diag', 'euler', 'ekf0', 'ekf1', 'ekf1s', 'ito_as_strat']


def cases(tier):
    q = tier == 'quick'
    Ns = [4, 8, 16] if q else [4, 8, 16, 32, 64]
    out = [dict(kind='additive', scheme=s, d=d, Ns=Ns) for s in ADD for d in (1, 2) if not (s == 'hypo' and d == 1)]
    for s in MULT:
        for d in (1, 2):
            if s == 'ito_as_strat' and d == 2:
                continue
            out.append(dict(kind='mult', scheme=s, d=d, Ns=[8, 16, 32] if q else ([8, 16, 32, 64, 128] if d == 1 else [8, 16, 32, 64])))
    return out


def run(case, ctx):
    (additive if case['kind'] == 'additive' else mult)(case, ctx)


T = 1.0


def true_moments(d, drift, diffs, x0):
    """Moments of dX = (A X + a) dt + sum_j (B_j X + b_j) dW_j; drift(t) -> (A, a), diffs(t) -> list of (B, b)."""
    def rhs(t, y):
        m, S = y[:d], y[d:].reshape(d, d)
        A, a = drift(t)
        dm = A @ m + a
        dS = A @ S + S @ A.T + np.outer(a, m) + np.outer(m, a)
        for B, b in diffs(t):
            dS = dS + B @ S @ B.T + np.outer(B @ m, b) + np.outer(b, B @ m) + np.outer(b, b)
        return np.r_[dm, dS.ravel()]
    y = solve_ivp(rhs, (0, T), np.r_[x0, np.outer(x0, x0).ravel()], rtol=1e-10, atol=1e-12, method='DOP853').y[:, -1]
    return y[:d], y[d:].reshape(d, d)


def converge(case, ctx, got, want):
    """got: {N: (mean, second moment)}.

    A first order scheme has error c / N + O(1 / N^2): the error itself and its signed extrapolation 2 e(2N) - e(N) are
    bounded (ratios of consecutive errors are not used: the error may cross zero)."""
    Ns = case['Ns']
    for nm, i in (('mean', 0), ('second moment', 1)):
        e = {N: got[N][i] - want[i] for N in Ns}
        sc = 1 + np.abs(want[i]).max()
        for N in Ns:
            ctx.true(f'{nm}: error of first order', np.abs(e[N]).max() <= 1.5 * sc / N, N=N, err=float(np.abs(e[N]).max()), scale=float(sc))
        for a, b in zip(Ns, Ns[1:]):
            r = np.abs(2 * e[b] - e[a]).max()
            ctx.true(f'{nm}: extrapolated error of second order', r <= 1.8 * sc / b ** 2, N=b, err=float(r), scale=float(sc))
    ctx.sample(errors=[float(np.abs(got[N][1] - want[1]).max()) for N in Ns])


def additive(case, ctx):
    import jax
    import jax.numpy as jnp
    import bayesian_sde_solver.foster_polynomial as fp
    import bayesian_sde_solver.ode_solvers as o
    import bayesian_sde_solver.sde_solvers as s
    import bayesian_sde_solver.ssm_parabola as sp
    from bayesian_sde_solver.ito_stratonovich import to_stratonovich
    from bayesian_sde_solver.sde_solver import sde_solver
    d, name = case['d'], case['scheme']
    auto = name in ('hypo', 'diag')
    x0 = np.array([0.8, -0.5])[:d]
    if d == 1:
        A0, A1, a0, a1 = np.array([[-0.6]]), np.array([[0.9]]), np.array([0.4]), np.array([-0.7])
    else:
        A0, A1 = np.array([[0.1, 1.0], [-0.8, -0.5]]), np.array([[0.3, -0.2], [0.4, 0.1]])
        a0, a1 = np.array([0.3, -0.2]), np.array([0.5, 0.6])
    G0, G1 = np.array([[0.7]]), np.array([[0.5]])
    if d == 2:
        if name == 'hypo':
            G0 = np.array([[0.0, 0.0], [0.4, 0.6]])
        elif name == 'diag':
            G0 = np.diag([0.5, 0.8])
        elif name.startswith('marg'):
            G0 = np.array([[0.5, 0.0], [0.3, 0.6]])
        else:
            G0 = np.array([[0.2, 0.5, -0.3], [0.6, 0.0, 0.4]])
        G1 = 0.5 * np.ones_like(G0) if not auto else 0 * G0
    if auto:
        A1, a1, G1 = 0 * A1, 0 * a1, 0 * G1
    m = G0.shape[1]
    jA = [jnp.asarray(z) for z in (A0, A1, a0, a1, G0, G1)]
    drift = lambda x, t: (jA[0] + t * jA[1]) @ x + jA[2] + t * jA[3]
    sigma = lambda x, t: jA[4] + t * jA[5]
    want = true_moments(d, lambda t: (A0 + t * A1, a0 + t * a1),
                        lambda t: [(np.zeros((d, d)), c) for c in (G0 + t * G1).T], x0)
    # Ito and Stratonovich drift coincide here: the converted one must do as well as the original
    sdrift, ssigma = to_stratonovich(drift, sigma)
    j0 = jnp.asarray(x0)

    def fn(N):
        h = T / N
        if name == 'em':
            return lambda k: s.euler_maruyama(k, j0, drift, sigma, h, N)[1][-1]
        if name == 'em_pathwise':
            return lambda k: s.euler_maruyama_pathwise(jax.random.normal(k, (N, m)), j0, drift, sigma, h, N, standard=True)[1][-1]
        if name == 'hypo':
            return lambda k: s.hypoelliptic_diffusion_15_scheme(k, j0, lambda x: drift(x, 0.), lambda x: sigma(x, 0.), h, N)[1][-1]
        if name == 'diag':
            return lambda k: s.diag_15_scheme(k, j0, lambda x: drift(x, 0.), lambda x: sigma(x, 0.), h, N)[1][-1]
        if name.startswith('marg'):
            S = sp.ekf1_marginal_parabola if '1' in name else sp.ekf0_marginal_parabola
            solver = lambda key, init, drift, diffusion, T: S(key, init, delta=T, drift=drift, diffusion=diffusion, h=T, N=1, sqrt=name.endswith('s'))
            return lambda k: sp.ssm_parabola_ode_solver(k, drift, sigma, j0, h, N, solver)[1][-1]
        bm = lambda: fp.get_approx(dim=m)
        nm = name
        if nm.startswith('fine_'):
            bm, nm = lambda: fp.get_approx_fine(dim=m, N=2), nm[5:]
        if nm.startswith('brownian_'):
            bm, nm = lambda: fp.get_approx_and_brownian(dim=m, N=3), nm[9:]
        keyed = nm.endswith('_key')
        nm = nm.replace('_key', '')
        sq = nm.endswith('s')
        nm = nm.rstrip('s')
        if nm == 'euler':
            M = 4 * N
            ode = lambda key, init, vector_field, T: o.euler(init=init, vector_field=vector_field, h=T / M, N=M)
            init = j0
        elif nm.endswith('_2'):
            S = getattr(o, nm)
            ode = lambda key, init, vector_field, T: S(key if keyed else None, init=init, vector_field=vector_field, h=T, N=1, sqrt=sq)
            init = (j0, j0, jnp.zeros((d, d)))
        else:
            S = getattr(o, nm)
            ode = lambda key, init, vector_field, T: S(key if keyed else None, init=init, vector_field=vector_field, h=T, N=1, sqrt=sq)
            init = j0

        def f(k):
            ts, traj, *_ = sde_solver(key=k, drift=sdrift, sigma=ssigma, x0=init, bm=bm, delta=h, N=N, ode_int=ode)
            return traj[0][-1] if isinstance(traj, tuple) else traj[-1]
        return f

    got = {}
    for N in case['Ns']:
        f = fn(N)
        _, rec = noise.record(f, case['seed'])
        n = rec.n_vars
        Z = np.concatenate([np.zeros((1, n)), np.eye(n), -2 * np.eye(n), np.ones((1, n))])
        F = flat(noise.run(f, rec, Z, seed=case['seed'], sequential=name.endswith('s')), len(Z))
        L = (F[1:n + 1] - F[0]).T
        ctx.eq('affine in the noise', F, F[0] + Z @ L.T, atol=1e-7)
        got[N] = (F[0], L @ L.T + np.outer(F[0], F[0]))
        ctx.visit(F, f'{N}')
        ctx.trans(len(Z) * N)
        ctx.trace(len(Z))
    converge(case, ctx, got, want)


def mult(case, ctx):
    import jax.numpy as jnp
    import bayesian_sde_solver.foster_polynomial as fp
    import bayesian_sde_solver.ode_solvers as o
    import bayesian_sde_solver.sde_solvers as s
    from bayesian_sde_solver.ito_stratonovich import to_ito, to_stratonovich
    from bayesian_sde_solver.sde_solver import sde_solver
    d, name = case['d'], case['scheme']
    auto = name == 'diag'
    tdep = 0.0 if auto else 1.0
    x0 = np.array([0.8, -0.5])[:d]
    if d == 1:
        A0, A1, a0 = np.array([[-0.5]]), tdep * np.array([[0.6]]), np.array([0.3])
        Bs = [(np.array([[0.4]]), tdep * np.array([[0.3]]), np.array([0.2]))]       # (B0 + t B1) x + b
    else:
        A0, A1, a0 = np.array([[-0.3, 0.5], [-0.4, 0.1]]), np.zeros((2, 2)), np.array([0.2, 0.1])
        Bs = [(np.array([[0.3, 0.0], [0.2, 0.1]]), np.zeros((2, 2)), np.array([0.1, 0.0])),
              (np.array([[0.0, 0.35], [0.1, -0.2]]), np.zeros((2, 2)), np.array([0.0, 0.2]))]
        if name == 'diag':      # each component driven by its own Brownian motion
            Bs = [(np.diag([0.4, 0.0]), np.zeros((2, 2)), np.array([0.2, 0.0])), (np.diag([0.0, -0.5]), np.zeros((2, 2)), np.array([0.0, 0.3]))]
    m = len(Bs)
    drift = lambda x, t: (jnp.asarray(A0) + t * jnp.asarray(A1)) @ x + jnp.asarray(a0)
    sigma = lambda x, t: jnp.stack([(jnp.asarray(B0) + t * jnp.asarray(B1)) @ x + jnp.asarray(b) for B0, B1, b in Bs], axis=1)
    diffs = lambda t: [(B0 + t * B1, b) for B0, B1, b in Bs]
    fd = lambda t: (A0 + t * A1, a0)
    if name == 'ito_as_strat':
        # the drift is meant in the Stratonovich sense: the solver takes it as it is, Euler-Maruyama needs the Ito drift (checked with em)
        def fd(t):
            A, a = A0 + t * A1, a0
            for B, b in diffs(t):
                A, a = A + 0.5 * B @ B, a + 0.5 * B @ b
            return A, a
    want = true_moments(d, fd, diffs, x0)
    sdrift, ssigma = (drift, sigma) if name == 'ito_as_strat' else to_stratonovich(drift, sigma)

    def solve(k, x, t0, h, N, M):
        dr, sg = (lambda y, t: drift(y, t + t0)), (lambda y, t: sigma(y, t + t0))
        if name == 'em':
            return s.euler_maruyama(k, x, dr, sg, h, N)[1]
        if name == 'diag':
            return s.diag_15_scheme(k, x, lambda y: drift(y, 0.), lambda y: sigma(y, 0.), h, N)[1]
        sd, ss = (lambda y, t: sdrift(y, t + t0)), (lambda y, t: ssigma(y, t + t0))
        if name in ('euler', 'ito_as_strat'):
            ode = lambda key, init, vector_field, T: o.euler(init=init, vector_field=vector_field, h=T / M, N=M)
        else:
            S = o.ekf1 if name.startswith('ekf1') else o.ekf0
            ode = lambda key, init, vector_field, T: S(None, init=init, vector_field=vector_field, h=T / M, N=M, sqrt=name.endswith('s'))
        return sde_solver(key=k, drift=sd, sigma=ss, x0=x, bm=lambda: fp.get_approx(dim=m), delta=h, N=N, ode_int=ode)[1]

    n_nodes = 7 if d == 1 else 5
    x1, w1 = gh(n_nodes)
    X = np.concatenate([np.zeros((1, d)), np.eye(d), np.array([[1.0] * d]), 2 * np.eye(d)[:1]])
    got = {}

    def transition(N, h, t_grid, M):
        """Moment transition of every step: list over times of (E[M(x)M], E[M(x)v], E[v v], E M, E v)."""
        f = lambda k, x, t0: solve(k, x, t0, h, 1, M)[1]
        _, rec = noise.record(lambda k: f(k, jnp.asarray(x0), 0.0), case['seed'])
        n = rec.n_vars
        g = np.array(list(itertools.product(range(n_nodes), repeat=n)))
        Z, W = x1[g], np.prod(w1[g], axis=1)
        nt, nz, nx = len(t_grid), len(Z), len(X)
        zi = np.tile(np.repeat(np.arange(nz), nx), nt)
        xi = np.tile(np.arange(nx), nt * nz)
        ti = np.repeat(np.arange(nt), nz * nx)
        out = noise.run(f, rec, Z[zi], seed=case['seed'], extra=(X[xi], np.asarray(t_grid)[ti]), in_axes=(0, 0))
        out = out.reshape(nt, nz, nx, d)
        v = out[:, :, 0]
        Mx = np.stack([out[:, :, 1 + i] - v for i in range(d)], axis=-1)                  # (nt, nz, d, d)
        pred = v[:, :, None] + np.einsum('tzij,xj->tzxi', Mx, X)
        ctx.eq('one-step map is affine in the state', out, pred, atol=1e-7)
        ctx.visit(out.reshape(-1, d), f'{N}')
        ctx.trans(out.shape[0] * nz * nx)
        ctx.trace(nz)
        return Mx, v, W

    def push(mu, S, Mx, v, W):
        m1 = np.einsum('z,zij,j->i', W, Mx, mu) + W @ v
        c = np.einsum('z,zij,j,zk->ik', W, Mx, mu, v)
        S1 = np.einsum('z,zij,jk,zlk->il', W, Mx, S, Mx) + c + c.T + np.einsum('z,zi,zj->ij', W, v, v)
        return m1, S1

    for N in case['Ns']:
        h = T / N
        grid = np.arange(N) * h if not (auto or d == 2) else np.zeros(1)
        Mx, v, W = transition(N, h, grid, N)
        mu, S = x0.copy(), np.outer(x0, x0)
        for k in range(N):
            i = k if len(grid) > 1 else 0
            mu, S = push(mu, S, Mx[i], v[i], W)
        got[N] = (mu, S)
    converge(case, ctx, got, want)
    # composition: all pairs of nodes in a two-step run of the real solver
    n_nodes = 5 if d == 1 else 3
    x1, w1 = gh(n_nodes)
    h, M = 0.25, 3
    Mx, v, W = transition(2, h, np.array([0.0, h]) if not auto else np.zeros(2), M)
    mu, S = x0.copy(), np.outer(x0, x0)
    for k in range(2):
        mu, S = push(mu, S, Mx[k], v[k], W)
    f = lambda k: solve(k, jnp.asarray(x0), 0.0, h, 2, M)[-1]
    _, rec = noise.record(f, case['seed'])
    n = rec.n_vars
    g = np.array(list(itertools.product(range(n_nodes), repeat=n)))
    Z, W = x1[g], np.prod(w1[g], axis=1)
    Y = noise.run(f, rec, Z, seed=case['seed'])
    ctx.eq('two-step run: mean', W @ Y, mu, rtol=1e-8)
    ctx.eq('two-step run: second moment', np.einsum('z,zi,zj->ij', W, Y, Y), S, rtol=1e-8)
    ctx.visit(Y, 'two')
    ctx.trace(len(Z))
    ctx.trans(2 * len(Z))
