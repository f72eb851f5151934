"""C26: mean-square distance to the SDE solution along the same Brownian path, under refinement.

additive: solver and SDE solution are affine in the noise; the solution is projected exactly on the path functionals which the
          generator returned (coarse or fine increments and areas), the rest of the path is independent of them, so that the
          mean-square error is an exact finite sum over a basis of the noise space.
mult:     scalar noise, the solution is x0 exp(alpha t + beta W_t): one-step maps of the real driver at every node of a
          quadrature over (increment, area) give E m^2, E m e, E e^2, whose powers are the N-step error; a two-step run over
          all pairs of nodes binds the composition."""
import itertools

import numpy as np
from scipy.integrate import solve_ivp

from mc import noise
from mc.lib import flat, gh

BOUNDS = dict(quick='additive: 3 generators x 12 integrators, d = 1, 2 (2 and 3 noise channels), time-dependent coefficients, N in {2, 4, 8}; multiplicative: 6 integrators, N in {4, 8, 16}',
              thorough='additive N up to 64, multiplicative N up to 128')
ASSUMPTIONS = ['Euler takes at least 4 N sub-steps per interval; multiplicative noise: all integrators refine their sub-steps with the interval',
               'quadrature of the multiplicative case: 9 x 7 nodes']
T = 1.0
INT = ['euler', 'ekf0', 'ekf0s', 'ekf1', 'ekf1s', 'ekf0_2', 'ekf1_2s', 'ekf0q2', 'ekf1q2', 'euler16', 'ekf0r', 'ekf1r']
SHARP = ('ekf0q2', 'ekf1q2', 'euler16', 'ekf0r', 'ekf1r')             # integrators fine enough to profit from the area


def cases(tier):
    q = tier == 'quick'
    Ns = [2, 4, 8] if q else [2, 4, 8, 16, 32, 64]
    out = [dict(kind='additive', ode=o, gen='coarse', d=d, Ns=Ns) for o in INT for d in (1, 2)]
    out += [dict(kind='additive', ode=o, gen=g, d=d, Ns=Ns if q else Ns[:-2]) for o in ('euler', 'ekf0', 'ekf1s', 'ekf1r') for g in ('fine', 'brownian') for d in (1, 2)]
    out += [dict(kind='mult', ode=o, Ns=[4, 8, 16] if q else [4, 8, 16, 32, 64, 128], alpha=a, beta=b)
            for o in ('euler', 'ekf0', 'ekf0s', 'ekf1', 'ekf1s', 'ekf0q2') for a, b in ((-0.4, 0.5), (0.3, 0.3)) if a < 0 or o in ('euler', 'ekf0')]
    return out


def run(case, ctx):
    (additive if case['kind'] == 'additive' else mult)(case, ctx)


def integrator(name, N, refine=False):
    import bayesian_sde_solver.ode_solvers as o
    import bayesian_sde_solver.ode_solvers.probnum as pn
    if name.startswith('euler'):
        M = (16 if '16' in name else 4) * N
        return lambda key, init, vector_field, T: o.euler(init=init, vector_field=vector_field, h=T / M, N=M)
    M = N if refine else (4 if name.endswith('r') else 1)
    nm = name.rstrip('sr').replace('q2', '')
    kw = dict(sqrt=name.endswith('s'))

    def ode(key, init, vector_field, T):
        k = dict(kw)
        if 'q2' in name:
            d = (init[0] if isinstance(init, tuple) else init).shape[0]
            k['prior'] = pn.IOUP_transition_function(theta=0.0, sigma=1.0, q=2, dt=T / M, dim=d)
        return getattr(o, nm)(None, init=init, vector_field=vector_field, h=T / M, N=M, **k)
    return ode


def rates(case, ctx, err, sc, C, what):
    Ns = case['Ns']
    for N in Ns:
        ctx.true(f'{what}: at most {C} / N', err[N] <= C * sc / N, N=N, err=float(err[N]), scale=float(sc))
    for a, b in zip(Ns[1:], Ns[2:]):
        ctx.true(f'{what}: decreases at first order', err[b] <= 0.62 * err[a] or err[b] < 0.05 * C * sc / b, N=b, err=float(err[b]), previous=float(err[a]))


def additive(case, ctx):
    import jax.numpy as jnp
    import bayesian_sde_solver.foster_polynomial as fp
    from bayesian_sde_solver.sde_solver import sde_solver
    d, name = case['d'], case['ode']
    x0 = np.array([0.8, -0.5])[:d]
    if d == 1:
        A0, A1, a0, G0, G1 = np.array([[-0.6]]), np.array([[0.9]]), np.array([0.4]), np.array([[0.7, 0.3]]), np.array([[0.5, -0.2]])
    else:
        A0, A1, a0 = np.array([[0.1, 1.0], [-0.8, -0.5]]), np.array([[0.3, -0.2], [0.4, 0.1]]), np.array([0.3, -0.2])
        G0, G1 = np.array([[0.2, 0.5, -0.3], [0.6, 0.0, 0.4]]), np.array([[0.5, 0.1, 0.2], [0.0, 0.4, -0.3]])
    m = G0.shape[1]
    A, G = (lambda t: A0 + t * A1), (lambda t: G0 + t * G1)
    jA0, jA1, ja, jG0, jG1 = map(jnp.asarray, (A0, A1, a0, G0, G1))
    drift, sigma = (lambda x, t: (jA0 + t * jA1) @ x + ja), (lambda x, t: jG0 + t * jG1)
    # Phi(T, s), backwards in s:  d/ds Phi(T, s) = -Phi(T, s) A(s)
    sol = solve_ivp(lambda r, y: (y.reshape(d, d) @ A(T - r)).ravel(), (0, T), np.eye(d).ravel(), dense_output=True, rtol=1e-11, atol=1e-12, method='DOP853')
    K = lambda s: sol.sol(T - s).reshape(d, d) @ G(s)
    u, w = np.polynomial.legendre.leggauss(10)
    nodes = (u + 1) / 2
    mean = sol.sol(T).reshape(d, d) @ x0
    for k in range(8):
        s = (k + nodes) / 8
        mean = mean + sum(wi / 16 * sol.sol(T - si).reshape(d, d) @ a0 for wi, si in zip(w, s))
    n_sub = 3
    x_init = jnp.asarray(x0)
    init = (x_init, x_init, jnp.zeros((d, d))) if '_2' in name else x_init
    err, gain = {}, {}
    for N in case['Ns']:
        h = T / N
        bm = dict(coarse=lambda: fp.get_approx(dim=m), fine=lambda: fp.get_approx_fine(dim=m, N=n_sub), brownian=lambda: fp.get_approx_and_brownian(dim=m, N=n_sub))[case['gen']]
        ode = integrator(name, N)

        def f(k):
            ts, traj, *co = sde_solver(key=k, drift=drift, sigma=sigma, x0=init, bm=bm, delta=h, N=N, ode_int=ode)
            traj = traj[0] if isinstance(traj, tuple) else traj
            return (traj[-1], *co)
        _, rec = noise.record(f, case['seed'])
        n = rec.n_vars
        Z = np.concatenate([np.zeros((1, n)), np.eye(n), -2 * np.eye(n), np.ones((1, n))])
        out = noise.run(f, rec, Z, seed=case['seed'])
        F = flat(out[0], len(Z))
        L = (F[1:n + 1] - F[0]).T
        ctx.eq('affine in the noise', F, F[0] + Z @ L.T, atol=1e-7)
        co = [np.asarray(c)[1:n + 1] for c in out[1:]]                    # (n, N, [n_sub,] m): images of the basis
        if case['gen'] == 'coarse':
            a, b = co[0][:, :, None], co[1][:, :, None]
        elif case['gen'] == 'fine':
            a, b = co[2], co[3] * np.sqrt(6)
        else:
            a, b = co[2] * np.sqrt(h / n_sub), None
        s_n = a.shape[2]
        hh = h / s_n
        E = L.T.copy()                                                    # (n, d): solver minus projected solution
        rest = gain[N] = 0.0
        for k in range(N):
            ks = np.array([K(k * h + h * c) for c in nodes])
            gain[N] += h * np.einsum('q,qij,qij->', w / 2, ks, ks) - h * np.sum(np.einsum('q,qij->ij', w / 2, ks) ** 2)
            for j in range(s_n):
                t0 = k * h + j * hh
                ks = np.array([K(t0 + hh * c) for c in nodes])
                Ka = np.einsum('q,qij->ij', w / 2, ks)
                Kb = np.einsum('q,qij,q->ij', w / 2 * hh, ks, np.sqrt(6) / hh * (hh / 2 - hh * nodes)) / (hh / 2)
                full = hh * np.einsum('q,qij,qij->', w / 2, ks, ks)
                E -= a[:, k, j] @ Ka.T
                rest += full - hh * np.sum(Ka ** 2)
                if b is not None:
                    E -= b[:, k, j] @ Kb.T
                    rest -= hh / 2 * np.sum(Kb ** 2)
        err[N] = np.sqrt(np.sum(E ** 2) + max(rest, 0) + np.sum((F[0] - mean) ** 2))
        ctx.visit(F, f'{N}')
        ctx.trans(len(Z) * N)
        ctx.trace(len(Z))
        gain[N] = np.sqrt(gain[N])                                        # best possible with the coarse increments alone
    if case.get('debug'):
        print(case, {N: (round(err[N] * N, 4), round(gain[N] * N, 4)) for N in err})
    rates(case, ctx, err, 1.0, 0.8, 'mean-square error')
    if name in SHARP and case['gen'] != 'brownian':
        for N in case['Ns'][1:]:
            ctx.true('the area reduces the error', err[N] <= 0.8 * gain[N], N=N, err=float(err[N]), increments_alone=float(gain[N]))
    ctx.sample(error=[float(err[N]) for N in case['Ns']])


def mult(case, ctx):
    import jax.numpy as jnp
    import bayesian_sde_solver.foster_polynomial as fp
    from bayesian_sde_solver.sde_solver import sde_solver
    al, be, name = case['alpha'], case['beta'], case['ode']
    drift, sigma = (lambda x, t: al * x), (lambda x, t: be * x[:, None])
    bm = lambda: fp.get_approx(dim=1)

    def table(N, h, M, na, nb):
        """Final state, increments and areas of N steps over all node words."""
        f = lambda k: sde_solver(key=k, drift=drift, sigma=sigma, x0=jnp.ones(1), bm=bm, delta=h, N=N, ode_int=integrator(name, M, True))[1:4]
        _, rec = noise.record(f, case['seed'])
        n = rec.n_vars
        nodes, Wt = zip(gh(na), gh(nb))
        # which variable is an increment: determined on the basis
        B = noise.run(f, rec, np.eye(n), seed=case['seed'])[1].reshape(n, -1)
        isa = np.abs(B).max(axis=1) > 1e-9
        g = np.array(list(itertools.product(*[range(na) if i else range(nb) for i in isa])))
        Z = np.stack([nodes[0 if i else 1][g[:, c]] for c, i in enumerate(isa)], axis=1)
        W = np.prod([Wt[0 if i else 1][g[:, c]] for c, i in enumerate(isa)], axis=0)
        X, a, b = noise.run(f, rec, Z, seed=case['seed'])
        ctx.visit(X.reshape(len(Z), -1), f'{N}{h}')
        ctx.trans(len(Z) * N)
        ctx.trace(len(Z))
        return X[:, -1, 0], a[:, :, 0].sum(axis=1), W

    err, bias = {}, {}
    for N in case['Ns']:
        h = T / N
        mm, a, W = table(1, h, N, 9, 7)
        e = np.exp(al * h + be * a)
        ctx.eq('quadrature', W @ e ** 2, np.exp(2 * al * h + 2 * be ** 2 * h), rtol=1e-9)
        err[N] = np.sqrt(max((W @ mm ** 2) ** N - 2 * (W @ (mm * e)) ** N + (W @ e ** 2) ** N, 0))
        bias[N] = abs(W @ (mm - e)) / h ** 2
    if case.get('debug'):
        print(case, {N: (round(err[N] * N, 4), round(bias[N], 4)) for N in err})
    rates(case, ctx, err, 1.0, 0.3 if name == 'euler' else 0.1, 'mean-square error')
    ctx.true('mean of the one-step error is of second order', max(bias.values()) <= 1.0, bias=str(bias))
    h, M = 0.25, 4
    m1, a1, W1 = table(1, h, M, 5, 3)
    m2, a2, W2 = table(2, h, M, 5, 3)
    e1, e2 = np.exp(al * h + be * a1), np.exp(2 * al * h + be * a2)
    for nm, x, y in (('mm', m1 * m1, m2 * m2), ('me', m1 * e1, m2 * e2)):
        ctx.eq('two-step run: ' + nm, W2 @ y, (W1 @ x) ** 2, rtol=1e-8)
    ctx.sample(error=[float(err[N]) for N in case['Ns']])
