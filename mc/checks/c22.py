"""C22: the calibrated diffusion on all residual sequences over an alphabet and all combinations of covariances, against the
log-likelihood it must maximise (value and maximality on a grid) and its algebraic laws."""
import itertools

import numpy as np

from mc.lib import coefs, vm

BOUNDS = dict(quick='(N, d) with N, d <= 3 and (5, 2), (2, 4), (12, 1), (30, 1), (40, 2), (3, 6); residuals in {0, 1, -2}^(N d) (all, up to 6 entries; else all with <= 3 nonzero entries), all combinations of 3 covariances per step',
              thorough='N, d <= 4, residuals in {0, 1, -2, .5} (all, up to 7 entries), 4 covariances per step')


def cases(tier):
    q = tier == 'quick'
    shapes = [(N, d) for N in (1, 2, 3) for d in (1, 2, 3)] + [(5, 2), (2, 4), (12, 1), (30, 1), (40, 2), (3, 6)]
    if not q:
        shapes += [(4, d) for d in (1, 2, 3, 4)] + [(3, 4), (1, 6), (100, 2)]
    out = [dict(kind='filter', N=4, d=d, order=o) for d in (1, 2) for o in (0, 1)]
    return out + [dict(N=N, d=d, vals=[0.0, 1.0, -2.0] if q else [0.0, 1.0, -2.0, 0.5], full=6 if q else 7, menu=3 if q else 4) for N, d in shapes]


def filter_case(case, ctx):
    """Calibrating on the filter's own residuals: rescaling the prior by the estimate makes the estimate one."""
    import jax.numpy as jnp
    from bayesian_sde_solver.ode_solvers import ekf0_2, ekf1_2
    from bayesian_sde_solver.ode_solvers.probnum import IOUP_transition_function
    from bayesian_sde_solver.ode_solvers.probnum.calibration import mle_diffusion
    from mc.odef import field_batch
    from mc.lib import jax_poly
    d, K, h = case['d'], case['N'], 0.1
    C, E = field_batch(d, 6)
    S = ekf1_2 if case['order'] else ekf0_2

    def both(c):
        f = jax_poly(c, E)

        def est(s):
            x = (jnp.asarray(coefs((d,), 70)), jnp.asarray(coefs((d,), 70)), jnp.zeros((d, d)))
            prior = IOUP_transition_function(theta=0.0, sigma=s, q=1, dt=h, dim=d)
            zs, Ss = [], []
            for k in range(K):
                x, (_, _, _, Sk, zk) = S(None, init=x, vector_field=lambda y, t: f(y, t + k * h), h=h, N=1, prior=prior, return_all=True)
                zs.append(zk)
                Ss.append(Sk)
            return jnp.stack(zs), jnp.stack(Ss)
        z1, S1 = est(1.0)
        c1 = mle_diffusion(z1, S1)
        z2, S2 = est(jnp.sqrt(c1))
        return z1, S1, c1, mle_diffusion(z2, S2), mle_diffusion(*est(2.0))
    z, Sm, c1, one, four = vm(both, C)
    keep = c1 > 1e-8                        # fields the filter follows exactly have no residual to calibrate on
    ctx.true('some fields leave residuals', keep.sum() > 3)
    want = np.array([sum(a @ np.linalg.solve(B, a) for a, B in zip(zz, SS)) / (K * d) for zz, SS in zip(z, Sm)])
    ctx.eq('estimate from the residuals of the filter', c1[keep], want[keep], rtol=1e-8)
    if not case['order']:
        ctx.eq('calibrated filter is calibrated', one[keep], np.ones(keep.sum()), rtol=1e-6)
        ctx.eq('estimate scales with the prior', four[keep] * 4, c1[keep], rtol=1e-6)
    ctx.visit(np.column_stack([c1, one, four]))
    ctx.trans(3 * K * len(C))
    ctx.trace(len(C))


def spd(d, k):
    if k == 0:
        return np.eye(d)
    L = np.tril(coefs((d, d), 10 + k)) * (0.5 if k != 2 else 0.05)
    np.fill_diagonal(L, [0.7, 0.1, 2.0][k - 1])
    return L @ L.T


def run(case, ctx):
    import jax
    import jax.numpy as jnp
    from bayesian_sde_solver.ode_solvers.probnum.calibration import mle_diffusion
    N, d = case['N'], case['d']
    if case.get('kind') == 'filter':
        return filter_case(case, ctx)
    n = N * d
    v = np.array(case['vals'])
    if n <= case['full']:
        Z = v[np.array(list(itertools.product(range(len(v)), repeat=n)))]
    else:
        rows = []
        for k in (1, 2, 3):
            for pos in itertools.combinations(range(n), k):
                if k == 3 and (n > 12 or sum(pos) % 3):
                    continue
                for z in itertools.product([1.0, -2.0], repeat=k):
                    r = np.zeros(n)
                    r[list(pos)] = z
                    rows.append(r)
        Z = np.array(rows[:4000] + [coefs((n,), 1, -2, 2)])
    Z = Z.reshape(-1, N, d)
    combos = list(itertools.product(range(case['menu']), repeat=N)) if N <= 3 else [tuple((i + j * s) % case['menu'] for j in range(N)) for i in range(case['menu']) for s in range(3)]
    S = np.array([[spd(d, k) for k in c] for c in combos])
    Si = np.linalg.inv(S)
    scales = np.geomspace(0.25, 4, 9)
    for ci in range(len(combos)):
        SS = np.broadcast_to(S[ci], (len(Z),) + S[ci].shape)
        got = vm(mle_diffusion, Z, SS)
        want = np.einsum('bni,nij,bnj->b', Z, Si[ci], Z) / (N * d)
        if not ctx.eq('value', got, want, rtol=1e-8, scaled=False, atol=1e-12):
            return
        # likelihood at the returned coefficient against a grid around it
        pos = got > 0
        quad = want * N * d
        ll = lambda c: -0.5 * (N * d * np.log(c) + quad[pos] / c)
        best = ll(got[pos])
        for s in scales:
            ctx.true('likelihood is maximal', (ll(got[pos] * s) <= best + 1e-9).all())
        ctx.visit(np.concatenate([Z.reshape(len(Z), -1), np.full((len(Z), 1), ci), got[:, None]], axis=1))
        ctx.trans(len(Z))
    ctx.trace(len(Z) * len(combos))
    z, s = Z[-1] + 0.3, S[-1]
    base = float(mle_diffusion(jnp.asarray(z), jnp.asarray(s)))
    ctx.eq('uncompiled value', base, np.einsum('ni,nij,nj->', z, Si[-1], z) / (N * d))
    for perm in itertools.islice(itertools.permutations(range(N)), 24):
        ctx.eq('invariant under reordering', float(mle_diffusion(jnp.asarray(z[list(perm)]), jnp.asarray(s[list(perm)]))), base)
    for a, b in itertools.product((0.1, 3.0), repeat=2):
        ctx.eq('scaling', float(mle_diffusion(jnp.asarray(a * z), jnp.asarray(b * s))), base * a * a / b)
    for k in range(1, N):
        p, q = [float(mle_diffusion(jnp.asarray(z[sl]), jnp.asarray(s[sl]))) for sl in (slice(0, k), slice(k, N))]
        ctx.eq('averages over batches', (k * p + (N - k) * q) / N, base)
    before = z.copy(), s.copy()
    mle_diffusion(z, s)
    ctx.true('arguments unchanged', (z == before[0]).all() and (s == before[1]).all())
    ctx.sample(value=base)
