"""C05: the driver, step by step, with a probing integrator that reports what it was given."""
import numpy as np

from mc import noise
from mc.lib import GH2, Poly, basis_rows, coefs, jax_poly, monos, product_nodes

BOUNDS = dict(quick='N <= 5 steps, (d, m) in 5 shapes, all generators and a custom one, delta in {.123456789, .5, 1}; N <= 40, d <= 5, m <= 4, 1/3000 <= delta <= 12.3456789 for nine more; '
                    'noise: basis, doubles, pairs (all sign histories when <= 8 variables), 2 states x 4 times probed per step',
              thorough='N <= 8 steps, 8 shapes, delta in {1e-3, .123456789, 2/7, .5, 1, 2}')


def cases(tier):
    q = tier == 'quick'
    out = []
    shapes = [(1, 1), (2, 1), (1, 2), (2, 2), (3, 2)] + ([] if q else [(2, 3), (3, 1), (3, 3)])
    for d, m in shapes:
        for N in ([1, 2, 3, 5] if q else [1, 2, 3, 4, 5, 8]):
            for g in ('approx', 'custom', 'brownian', 'fine'):
                if q and g in ('brownian', 'fine') and (N == 5 or (d, m) in ((1, 1), (2, 2))):
                    continue
                if q and g == 'custom' and (d, m) not in ((2, 1), (2, 2)):
                    continue
                deltas = [0.5, 0.123456789, 1.0] if q else [0.5, 0.123456789, 1.0, 1e-3, 2.0, 2 / 7]
                for delta in ([deltas[(d + m + N) % 3]] if q else deltas):
                    out.append(dict(d=d, m=m, N=N, gen=g, delta=delta, tuple=(d + N + m) % 3 != 0))
    for d, m, N, g, delta, tup in ((4, 3, 2, 'approx', 0.5, True), (5, 1, 3, 'fine', 0.25, False), (1, 4, 4, 'brownian', 3.0, True),
                                   (2, 1, 13, 'approx', 0.125, True), (1, 1, 40, 'approx', 0.05, False), (1, 2, 9, 'custom', 0.01, True),
                                   (1, 1, 30, 'approx', 1 / 3000, True), (2, 2, 5, 'custom', 0.0123456789, True), (1, 1, 7, 'brownian', 12.3456789, False)):
        out.append(dict(d=d, m=m, N=N, gen=g, delta=delta, tuple=tup))
    return out


def bm_of(g, m):
    import jax
    import jax.numpy as jnp
    import bayesian_sde_solver.foster_polynomial as fp
    if g == 'approx':
        return lambda: fp.get_approx(dim=m)
    if g == 'brownian':
        return lambda: fp.get_approx_and_brownian(dim=m, N=3)
    if g == 'fine':
        return lambda: fp.get_approx_fine(dim=m, N=2)

    def custom():
        def get(key, dt):
            z = jax.random.normal(key, (3, m))
            return z[0] * dt, z[1], z[2] + dt

        def ev(t, dt, a, b, c):
            return a * t ** 3 + b * jnp.sin(t / dt) + c * t
        return get, ev
    return custom


def dpoly(g, s, dt, cs):
    """Derivative of the polynomial with coefficients cs at time s (reference)."""
    if g == 'custom':
        return 3 * cs[0] * s ** 2 + cs[1] * np.cos(s / dt) / dt + cs[2]
    return (cs[0] + np.sqrt(6) * cs[1] * (1 - 2 * s / dt)) / dt


def run(case, ctx):
    import jax.numpy as jnp
    from bayesian_sde_solver.sde_solver import sde_solver
    d, m, N, g, delta = (case[k] for k in ('d', 'm', 'N', 'gen', 'delta'))
    E = monos(d, 2, 1)
    Cd, Cs = coefs((d, len(E)), 5), coefs((d, m, len(E)), 11)
    drift, sigma = jax_poly(jnp.asarray(Cd), E), jax_poly(jnp.asarray(Cs), E)
    rdrift, rsigma = Poly(Cd, E), Poly(Cs, E)
    x0 = coefs((d,), 2)
    probe_z = np.stack([coefs((d,), 7), coefs((d,), 8)])
    probe_s = np.array([0.0, 0.25, 0.7, 1.0]) * delta
    nq = len(probe_z) * len(probe_s)
    wq = coefs((nq,), 4) * 0.1

    def probes(vf, x):
        zs = [jnp.asarray(z) + 0.5 * x for z in probe_z]
        return jnp.stack([vf(z, s) for z in zs for s in probe_s])

    def integ_tuple(key, init, vector_field, T):
        x, hist, _, _ = init
        p = probes(vector_field, x)
        nx = 0.5 * x + jnp.asarray(wq) @ p
        return nx, x, p, jnp.asarray(T, dtype=x.dtype) * jnp.ones(1)

    def integ_plain(key, init, vector_field, T):
        p = probes(vector_field, init)
        return 0.5 * init + T * (jnp.asarray(wq) @ p)

    if case['tuple']:
        init = (jnp.asarray(x0), jnp.full((d,), 9.0), jnp.full((nq, d), 8.0), jnp.full((1,), 7.0))
        ode = integ_tuple
    else:
        init, ode = jnp.asarray(x0), integ_plain
    fn = lambda k: sde_solver(key=k, drift=drift, sigma=sigma, x0=init, bm=bm_of(g, m), delta=delta, N=N, ode_int=ode)
    out1, rec = noise.record(fn, case['seed'])
    n = rec.n_vars
    Z = product_nodes(n, *GH2)[0] if n <= 8 else basis_rows(n, pairs=n <= 40)
    Z = np.concatenate([Z, basis_rows(n, pairs=False)])
    ts, traj, *co = noise.run(fn, rec, Z, seed=case['seed'])
    R = len(Z)
    nc = dict(approx=2, custom=3, brownian=3, fine=4)[g]
    ctx.true('number of recorded coefficients', len(co) == nc, got=len(co))
    ctx.true('recorded coefficients have N entries', all(c.shape[:2] == (R, N) for c in co), got=[c.shape for c in co])
    tk = np.arange(N + 1) * delta
    ctx.eq('time grid', ts, np.tile(tk, (R, 1)))
    X = traj[0] if case['tuple'] else traj
    ctx.eq('initial state', X[:, 0], np.tile(x0, (R, 1)))
    wantX, wantP = np.zeros((R, N, d)), np.zeros((R, N, nq, d))
    T0 = np.arange(N) * delta
    for r in range(R):
        for k in range(N):
            x = X[r, k]
            p = []
            for z in probe_z:
                z = z + 0.5 * x
                for s in probe_s:
                    dp = dpoly(g, s, delta, [c[r, k] for c in co])
                    p.append(rdrift(z, s + T0[k]) + rsigma(z, s + T0[k]) @ dp)
            p = np.array(p)
            wantP[r, k] = p
            wantX[r, k] = 0.5 * x + (1 if case['tuple'] else delta) * (wq @ p)
    ctx.eq('state after each step', X[:, 1:], wantX)
    if case['tuple']:
        ctx.eq('field handed to the integrator', traj[2][:, 1:], wantP)
        ctx.eq('state handed to the integrator', traj[1][:, 1:], X[:, :-1])
        ctx.eq('interval handed to the integrator', traj[3][:, 1:], np.full((R, N, 1), delta))
        for a, b in zip(traj, init):
            ctx.eq('initial entry of each member', a[:, 0], np.tile(np.asarray(b), (R,) + (1,) * np.ndim(b)))
    # each step's recorded coefficients are its own: they vary with its own noise only, and do vary
    F = [c.reshape(R, N, -1) for c in co]
    F = np.concatenate(F, axis=2)
    aff = np.abs(F[-2 * n - 1:][1:n + 1] - F[-2 * n - 1]).max(axis=2) > 1e-9       # (var, step)
    ctx.true('coefficients of different steps depend on different noise', (aff.sum(axis=1) <= 1).all() and (aff.sum(axis=0) > 0).all(),
             affected=aff.astype(int).tolist())
    ctx.visit(np.concatenate([np.repeat(tk[None, :-1], R, 0).reshape(-1, 1), X[:, :-1].reshape(-1, d)], axis=1))
    ctx.trans(R * N)
    ctx.trace(R)
    ctx.sample(path=X[-1])
