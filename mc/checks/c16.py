"""C16: the marginalised filters (law of solution, increment and area) and their driver."""
import numpy as np

from mc import noise, odef, ref
from mc.lib import GH2, Poly, affine_laws, assign, basis_rows, coefs, cov_eq, jax_poly, monos, product_nodes, vm

BOUNDS = dict(quick='d <= 2 (3 once), 5 priors, 3 noises, N <= 3 and delta != N h, both orders and forms; fields and square diffusions: monomial entries and generic ones; '
                    'generic ones up to d = 4, N = 12; driver: N <= 4 steps (30 with the probing solver), probing solver and real filters, conditional law of every step at every reached state',
              thorough='d <= 3, full product, N <= 4, driver N <= 6')
PRIORS = ['default', 'ibm1s', 'mat1', 'iou1', 'xi']


def cases(tier):
    q = tier == 'quick'
    out = []
    for d in ((1, 2) if q else (1, 2, 3)):
        for i, p in enumerate(PRIORS):
            for j, nz in enumerate(['none', 'dense', 'diag']):
                for N in ((1, 2, 3) if q else (1, 2, 3, 4)):
                    if q and N != 1 + (i + j + d) % 3:
                        continue
                    for order in (0, 1):
                        for sqrt in (False, True):
                            if q and (i + j + order + sqrt) % 2 and d > 1:
                                continue
                            if not q and d == 3 and (i + j + N + order + sqrt) % 2:
                                continue
                            out.append(dict(kind='filter', d=d, prior=p, noise=nz, N=N, order=order, sqrt=bool(sqrt), h=0.3 if (i + j) % 2 else 0.123456789,
                                            ratio=1.0 if (i + N) % 2 else 1.5))
    if q:
        out.append(dict(kind='filter', d=3, prior='default', noise='none', N=2, order=1, sqrt=True, h=0.1, ratio=1.0))
    for d, p, nz, N, order, sqrt, h, ratio in ((3, 'default', 'dense', 2, 0, False, 0.2, 1.0), (4, 'mat1', 'none', 1, 1, False, 0.25, 1.0), (4, 'xi', 'diag', 1, 0, True, 0.2, 2.0),
                                               (1, 'default', 'none', 12, 1, True, 0.05, 1.0), (2, 'default', 'none', 9, 0, False, 0.1, 1.0)):
        out.append(dict(kind='filter', d=d, prior=p, noise=nz, N=N, order=order, sqrt=sqrt, h=h, ratio=ratio, generic=True))
    out += [dict(kind='probe', d=d, N=N, delta=delta) for d, N, delta in ((4, 3, 0.25), (1, 30, 1 / 30), (2, 11, 1.23456789))]
    for d in (1, 2) if q else (1, 2, 3):
        for N in ((1, 2, 4) if q else (1, 2, 3, 4, 6)):
            out.append(dict(kind='probe', d=d, N=N, delta=[0.5, 0.123456789, 1.0][(d + N) % 3]))
            if N <= 3:
                for order in (0, 1):
                    out.append(dict(kind='driver', d=d, N=N, delta=0.25, order=order, sqrt=bool((N + order) % 2), sub=2))
    return out


def diffusion_batch(d, size):
    E = monos(d, 1, 1)
    D = np.array([coefs((d, d, len(E)), 100 + s, -0.7, 0.7) for s in range(size)])
    return D, E


def run(case, ctx):
    return dict(filter=filter_, probe=probe, driver=driver)[case['kind']](case, ctx)


def split(m, V, d):
    ii = np.concatenate([np.arange(d) * 4, np.arange(d) * 4 + 2, np.arange(d) * 4 + 3])
    return m[ii], V[np.ix_(ii, ii)]


def models(d, generic=False):
    """(drift, diffusion) pairs: each monomial entry of either next to a generic other, plus generic pairs."""
    C, E = odef.field_batch(d, 3, deg=2, tdeg=1, generic=generic)
    G, ED = diffusion_batch(d, 4)
    out = [(c, G[0] * 0.5) for c in C]
    for i in range(0 if generic else d):
        for j in range(d):
            for k in range(len(ED)):
                s = np.zeros((d, d, len(ED)))
                s[i, j, k] = 0.9
                out.append((C[-1], s))
    out += [(C[-1], g) for g in G] + [(0 * C[0], G[1]), (C[-2], 0 * G[0])]
    return np.array([o[0] for o in out]), np.array([o[1] for o in out]), E, ED


def filter_(case, ctx):
    import jax.numpy as jnp
    import bayesian_sde_solver.ssm_parabola as sp
    d, N, h, sqrt, order = (case[k] for k in ('d', 'N', 'h', 'sqrt', 'order'))
    delta = N * h * case['ratio']
    S = sp.ekf1_marginal_parabola if order else sp.ekf0_marginal_parabola
    pr, R = odef.prior(case['prior'], h, 1), odef.noise_matrix(case['noise'], d)
    pj, Rj = odef.jpr(pr), None if R is None else jnp.asarray(R)
    C, D, E, ED = models(d, case.get('generic', False))
    X = np.array([coefs((d,), 70 + i % 3) for i in range(len(C))])
    want, keep = [], []
    for c, s, x in zip(C, D, X):
        a = ref.alg4(Poly(c, E), Poly(s, ED), x, delta, h, N, order, pr, R)
        b = ref.alg4(Poly(c, E), Poly(s, ED), x + 1e-11, delta, h, N, order, pr, R)
        ok = np.linalg.eigvalsh(a[2])[0] > 1e-7 and max(np.abs(np.r_[u[0], u[1].ravel()]).max() for u in a[4]) < 100 \
            and max(np.abs(a[0] - b[0]).max(), np.abs(a[1] - b[1]).max()) < 1e-8
        keep.append(ok)
        if ok:
            want.append(split(a[0], a[1], d))
            for m, P in a[4]:
                ctx.visit(np.r_[m, P.ravel()][None], 'alg4')
    keep = np.array(keep)
    ctx.counts['unstable_models_skipped'] = int((~keep).sum())
    C, D, X = C[keep], D[keep], X[keep]
    call = lambda k, c, s, x: S(k, x, delta, jax_poly(c, E), jax_poly(s, ED), h, N, sqrt=sqrt, prior=pj, noise=Rj)
    got = vm(lambda c, s, x: call(None, c, s, x), C, D, X)
    ctx.true('three results', len(got) == 3)
    ctx.eq('mean (solution, increment, area)', np.concatenate(got, axis=1), np.array([w[0] for w in want]), atol=1e-7)
    _, rec = noise.record(lambda k: call(k, C[0], D[0], X[0]), case['seed'])
    laws = affine_laws(call, rec, ctx, (C, D, X), seed=case['seed'], label='law', pairs=d == 1)
    for i, (law, (m, V)) in enumerate(zip(laws, want)):
        ctx.eq('mean of the law', law.mean, m, atol=1e-7)
        cov_eq(ctx, 'covariance of (solution, increment, area)', law.cov, V, rtol=3e-6, mag=1 + np.abs(m).max())
        ctx.trace(1)
    ctx.sample(mean=laws[-1].mean, cov=laws[-1].cov)


def probe(case, ctx):
    """The driver with a solver that reports the fields, state and interval it was given."""
    import jax
    import jax.numpy as jnp
    from bayesian_sde_solver.ssm_parabola import ssm_parabola_ode_solver
    d, N, delta = case['d'], case['N'], case['delta']
    E = monos(d, 2, 1)
    Cd, Cs = coefs((d, len(E)), 5), coefs((d, d, len(E)), 11)
    zs, ss = np.stack([coefs((d,), 7), coefs((d,), 8)]), np.array([0.0, 0.3, 1.0]) * delta
    w = 0.1 * coefs((len(zs) * len(ss) * 2,), 9)

    def solver(key, init, drift, diffusion, T):
        z = jax.random.normal(key, (d,))
        r = []
        for z_ in zs:
            for s in ss:
                r += [drift(jnp.asarray(z_) + 0.5 * init, s), diffusion(jnp.asarray(z_) + 0.5 * init, s) @ jnp.ones(d)]
        return 0.5 * init + T * (jnp.asarray(w) @ jnp.stack(r)) + z, z, 3.0 * z

    fn = lambda k: ssm_parabola_ode_solver(key=k, drift=jax_poly(jnp.asarray(Cd), E), sigma=jax_poly(jnp.asarray(Cs), E),
                                           x0=jnp.asarray(x0), delta=delta, N=N, solver=solver)
    x0 = coefs((d,), 2)
    out, rec = noise.record(fn, case['seed'])
    ctx.true('one draw per step', rec.n_vars == N * d, got=rec.n_vars)
    n = rec.n_vars
    Z = np.concatenate([basis_rows(n, pairs=False), product_nodes(n, *GH2)[0] if n <= 8 else basis_rows(n)])
    ts, X = noise.run(fn, rec, Z, seed=case['seed'])
    R = len(Z)
    ctx.eq('time grid', ts, np.tile(np.arange(N + 1) * delta, (R, 1)))
    ctx.eq('initial state', X[:, 0], np.tile(x0, (R, 1)))
    f, s_ = Poly(Cd, E), Poly(Cs, E)
    want = np.zeros((R, N, d))
    for r in range(R):
        for k in range(N):
            x, v = X[r, k], []
            for z_ in zs:
                for s in ss:
                    v += [f(z_ + 0.5 * x, s + k * delta), s_(z_ + 0.5 * x, s + k * delta) @ np.ones(d)]
            want[r, k] = 0.5 * x + delta * (w @ np.array(v))
    res = X[:, 1:] - want                                        # the noise added in each step
    L = (res[1:n + 1] - res[0]).reshape(n, N * d)
    ctx.eq('residual without noise', res[0], np.zeros((N, d)))
    ctx.eq('every step adds its own noise', L.T @ L, np.eye(N * d))
    ctx.eq('residuals are linear in the noise', res.reshape(R, -1), Z @ L)
    ctx.visit(np.concatenate([np.tile(ts[0][:-1, None], (R, 1)), X[:, :-1].reshape(-1, d)], axis=1), 'probe')
    ctx.trans(R * N)
    ctx.trace(R)


def driver(case, ctx):
    """The driver with the real filters: conditional law of every step given the reached state."""
    import jax.numpy as jnp
    import bayesian_sde_solver.ssm_parabola as sp
    d, N, delta, order, sqrt, M = (case[k] for k in ('d', 'N', 'delta', 'order', 'sqrt', 'sub'))
    S = sp.ekf1_marginal_parabola if order else sp.ekf0_marginal_parabola
    E = monos(d, 2, 1)
    Cd, Cs = coefs((d, len(E)), 5, -0.5, 0.5), coefs((d, d, len(E)), 11, -0.5, 0.5)
    x0 = coefs((d,), 2)

    def solver(key, init, drift, diffusion, T):
        return S(key, init, delta=T, drift=drift, diffusion=diffusion, h=T / M, N=M, sqrt=sqrt)

    fn = lambda k: sp.ssm_parabola_ode_solver(key=k, drift=jax_poly(jnp.asarray(Cd), E), sigma=jax_poly(jnp.asarray(Cs), E),
                                              x0=jnp.asarray(x0), delta=delta, N=N, solver=solver)
    _, rec = noise.record(fn, case['seed'])
    conditional_kernel(fn, rec, ctx, case, x0, N, d, lambda x, k: kernel(Cd, Cs, E, x, k * delta, delta, M, order), 1e-6)


def kernel(Cd, Cs, E, x, t, delta, M, order):
    f, s = Shift(Poly(Cd, E), t), Shift(Poly(Cs, E), t)
    m, V, *_ = ref.alg4(f, s, x, delta, delta / M, M, order)
    return m[::4], V[::4, ::4]


class Shift:
    def __init__(self, p, t0):
        self.p, self.t0 = p, t0

    def __call__(self, x, t):
        return self.p(x, t + self.t0)

    def jac(self, x, t):
        return self.p.jac(x, t + self.t0)


def conditional_kernel(fn, rec, ctx, case, x0, N, d, kern, tol, path=lambda o: o[1], per=None, prefixes=None):
    """Every step is Gaussian given the state reached, with the mean and covariance of the reference kernel.

    History of the first k steps ranges over an alphabet of noise histories, the noise of step k over a basis."""
    n = rec.n_vars
    seed = case['seed']
    B = np.concatenate([np.zeros((1, n)), np.eye(n)])
    base = 0.37 * np.ones((1, n))
    X = path(noise.run(fn, rec, np.concatenate([B, B + base]), seed=seed, sequential=True))
    own = np.full(n, N)
    for F in (X[:n + 1], X[n + 1:]):
        for i in range(n):
            w = np.flatnonzero((np.abs(F[1 + i] - F[0]) > 1e-12 * (1 + np.abs(F[0]))).any(axis=1))
            if len(w):
                own[i] = min(own[i], w[0] - 1)
    own = assign(own, rec, N)
    for k in range(N):
        ctx.true(f'step {k} has noise of its own', (own == k).any())
    nodes = np.array([0.0, 1.0, -1.5])
    for k in range(N):
        mine = np.flatnonzero(own == k)
        past = np.flatnonzero(own < k)
        hists = [np.zeros(n)]
        for v in nodes[1:]:
            h = np.zeros(n)
            h[past] = v
            hists.append(h)
            for s in range(2):                                    # mixed signs
                h = np.zeros(n)
                h[past] = v * np.where((np.arange(len(past)) + s) % 2, 1, -0.6)
                hists.append(h)
        if k == 0:
            hists = hists[:1]
        rows = []
        for h in hists:
            rows.append(h)
            for i in mine:
                for a in (1.0, -2.0):
                    r = h.copy()
                    r[i] = a
                    rows.append(r)
            for i in mine:
                for j in mine:
                    if j < i:
                        r = h.copy()
                        r[i] = r[j] = 1.0
                        rows.append(r)
        rows = np.array(rows)
        # the noise of later steps must not matter
        noisy = rows.copy()
        noisy[:, own > k] = 1.3
        X = path(noise.run(fn, rec, np.concatenate([rows, noisy]), seed=seed, sequential=True))
        X, Y = X[:len(rows)], X[len(rows):]
        ctx.eq(f'step {k} does not anticipate', Y[:, :k + 2], X[:, :k + 2])
        nb = len(rows) // len(hists)
        q = len(mine)
        for a in range(len(hists)):
            F = X[a * nb:(a + 1) * nb]
            x = F[0, k]
            if np.abs(x).max() > 1e3:
                continue
            L = np.stack([F[1 + 2 * i, k + 1] - F[0, k + 1] for i in range(q)], axis=1) if q else np.zeros((d, 0))
            Zl = rows[a * nb:(a + 1) * nb][:, mine] if q else np.zeros((nb, 0))
            ctx.eq(f'step {k} is affine in its noise', F[:, k + 1], F[0, k + 1] + Zl @ L.T - Zl[0] @ L.T, atol=1e-7)
            mean, cov = kern(x, k)
            ctx.eq(f'conditional mean of step {k}', F[0, k + 1], mean, atol=tol)
            cov_eq(ctx, f'conditional covariance of step {k}', L @ L.T, cov, rtol=10 * tol, mag=1 + np.abs(x).max())
            ctx.visit(np.r_[k, x][None], 'kernel')
            ctx.trace(1)
        ctx.trans(len(rows))
    ctx.sample(path=X[-1])
