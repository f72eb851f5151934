"""C27: single precision (the default of JAX) against double precision, on the same choices of the noise, down to small steps.

path: every execution of a bounded set of noise assignments, run in both precisions; started at zero, so that the solution is of
      the size of the increments and errors are relative to it.
law:  Gaussian ODE filters: exact law from the image of a basis of the noise space, relative to the standard deviations.
form: filter, priors, conversions, moments, calibration on graded (badly scaled) inputs."""
import contextlib

import numpy as np

from mc import noise, odef
from mc.checks import c14
from mc.checks.c06 import make
from mc.checks.c16 import diffusion_batch
from mc.lib import affine, basis_rows, coefs, flat, jax_poly, monos

BOUNDS = dict(quick='11 SDE solvers x h in {.2, .01, 1e-3, 1e-4}, 6 ODE filters x priors x forms x h down to 1e-4 (square-root form; covariance form: 1e-2, with ibm2 and ibm3: 0.1), N <= 3, d = 2; '
                    'noise: 0, basis, doubles, generic; filter on states of scales 1 to 1e-4; generators down to dt = 1e-8; all closed-form moments',
              thorough='d <= 3, N <= 6, all priors, h down to 1e-5')
ASSUMPTIONS = ['covariance-form filters subtract covariances: steps at which the differences are below single precision are outside the bound']
SDES = ['em', 'diag', 'hypo', 'bm-approx-euler', 'bm-brownian-euler', 'bm-fine-euler', 'bm-approx-ekf0', 'bm-approx-ekf1', 'bm-approx-ekf0s', 'bm-approx-ekf1s',
        'bm-approx-ekf1_2s']
P2 = ['default', 'mat1', 'ibm2', 'ibm3', 'pad2', 'fac2', 'dense1', 'xi']
P1 = ['default', 'mat1', 'fac1', 'dense1', 'xi']


def cases(tier):
    q = tier == 'quick'
    out = []
    for i, s in enumerate(SDES):
        for j, h in enumerate((0.2, 0.01, 1e-3, 1e-4) + (() if q else (0.05, 1e-5))):
            for d in ((2,) if q else (1, 2, 3)):
                if s == 'hypo' and d == 1:
                    continue
                out.append(dict(kind='path', solver=s, h=h, d=d, N=(2 + (i + j) % 2) if q else 5, start=0.0 if (i + j) % 3 else 1.0))
    for s in ('ekf0', 'ekf1', 'ekf0_2', 'ekf1_2', 'ekf0_marginal_parabola', 'ekf1_marginal_parabola'):
        ps = ['default', 'mat1'] if s.endswith('parabola') else P1 if s.endswith('_2') else P2
        for i, p in enumerate(ps):
            for sq in (False, True):
                for j, h in enumerate((0.3, 1e-2, 1e-3, 1e-4)):
                    # covariance form: down to steps at which the subtracted variances are within single precision of the result
                    if not sq and h < (1e-2 if s.endswith('parabola') else {'2': 1e-1, '3': 1e-1}.get(p[-1], 1e-2)):
                        continue
                    if p == 'ibm3' and h < 1e-2:
                        continue
                    for N in ((1, 3) if not q else ([1, 3][(i + j + sq) % 2],)):
                        if q and (i + j + sq + len(s)) % 2 and not s.endswith('parabola'):
                            continue
                        out.append(dict(kind='law', solver=s, prior=p, sqrt=sq, h=h, N=N, d=2))
    for k in ('generators', 'filter', 'moments', 'conversion', 'calibration', 'pieces'):
        out.append(dict(kind='form', part=k, many=not q))
    return out


@contextlib.contextmanager
def precision(bits):
    from jax.experimental import disable_x64
    with (disable_x64() if bits == 32 else contextlib.nullcontext()):
        yield np.float32 if bits == 32 else np.float64


def run(case, ctx):
    dict(path=path, law=law, form=form)[case['kind']](case, ctx)


def leaves(x):
    import jax
    return [np.asarray(y) for y in jax.tree_util.tree_leaves(x)]


def close(ctx, label, a32, a64, tol, scale=None, axis=None):
    """|a32 - a64| <= tol * scale, the scale being the largest |a64| of the array (or of each slice along axis)."""
    a32, a64 = np.asarray(a32), np.asarray(a64)
    if not ctx.true(label + ': shape', a32.shape == a64.shape, got=a32.shape, want=a64.shape):
        return
    ctx.true(label + ': precision', a32.dtype == np.float32 or a32.dtype.kind in 'iub', got=str(a32.dtype))
    a = a32.astype(float)
    if scale is None:
        scale = np.abs(a64).max(axis=axis, keepdims=axis is not None) if a64.size else 1.0
    err = np.abs(a - a64) / np.maximum(scale, 1e-300)
    ctx.true(label, bool(np.all(err <= tol)), err=float(np.nanmax(err)) if err.size and np.isfinite(err).any() else 'nan', tol=tol, got=a.reshape(-1)[:6].tolist(),
             want=a64.reshape(-1)[:6].tolist())


def sde(name, d):
    import jax.numpy as jnp
    A, B = jnp.asarray(coefs((d, d), 31)), jnp.asarray(coefs((d, d), 32))
    b = jnp.asarray(coefs((d,), 33))
    drift = lambda x, t: jnp.sin(A @ x) - (0.5 + t) * x + b
    sigma = lambda x, t: 0.5 * jnp.eye(d) + 0.2 * jnp.sin(B @ x)[:, None] * jnp.ones((1, d)) * (1 + t)
    if name == 'hypo':
        drift = lambda x, t: jnp.concatenate([jnp.array([x[1] + 0.3 * jnp.sin(x[0])]), jnp.tanh(A @ x)[1:] + b[1:]])
        sigma = lambda x, t: jnp.diag(jnp.array([0.0] + [0.5] * (d - 1))) * (1 + 0.1 * jnp.sin(x[0]))
    elif name == 'diag':
        sigma = lambda x, t: jnp.diag(0.5 + 0.2 * jnp.sin(x))
    return drift, sigma


def path(case, ctx):
    d, N, h, name = (case[k] for k in ('d', 'N', 'h', 'solver'))
    res = {}
    for bits in (64, 32):
        with precision(bits) as ft:
            drift, sigma = sde(name, d)
            fn = make(name, d, N, h, drift, sigma, d)
            x0 = (case['start'] * coefs((d,), 41)).astype(ft)
            _, rec = noise.record(lambda k: fn(k, x0), case['seed'])
            Z = np.concatenate([basis_rows(rec.n_vars, False), coefs((4, rec.n_vars), case['seed'], -2, 2)])
            res[bits] = leaves(noise.run(fn, rec, Z, seed=case['seed'], extra=(x0,), sequential=True)), rec
    ctx.true('the same draws', [(a.n, a.shapes) for a in res[32][1].draws] == [(a.n, a.shapes) for a in res[64][1].draws])
    samples = 'ekf' in name or 'marg' in name
    ctx.true('same number of results', len(res[32][0]) == len(res[64][0]))
    for i, (a, b) in enumerate(zip(res[32][0], res[64][0])):
        # component by component: slow (hypoelliptic) components are small
        close(ctx, f'result {i}', a, b, 4e-3 if samples else 2e-4, axis=tuple(range(b.ndim - 1)))
        ctx.visit(np.asarray(b).reshape(len(b), -1), name)
    ctx.trans(2 * len(Z) * N)
    ctx.trace(len(Z))
    ctx.sample(last=res[32][0][0][-1])


def law(case, ctx):
    import jax.numpy as jnp
    import bayesian_sde_solver.ssm_parabola as sp
    d, N, h, name, sq = (case[k] for k in ('d', 'N', 'h', 'solver', 'sqrt'))
    marg = name.endswith('parabola')
    E = monos(d, 2, 1)
    D, ED = diffusion_batch(d, 3)
    pr = odef.prior(case['prior'], h, 1 if marg else d)
    if case['prior'] == 'dense1':
        # graded like the other priors
        s = np.tile([h ** 1.5, h ** 0.5], d)
        pr = (pr[0] * s, pr[1] * np.outer(s, s), np.eye(2 * d) + np.kron(np.eye(d), [[0, h], [0, 0]]))
    elif case['prior'] == 'xi':
        pr = (pr[0] * np.tile([h ** 1.5, h ** 0.5], d), pr[1], pr[2])
    for i in range(2):
        args = (coefs((d, len(E)), 3 + i, -.6, .6), 0.1 * i * coefs((d,), 70 + i), c14.covs(d)[1 + i] * h, D[i])
        laws = {}
        for bits in (64, 32):
            with precision(bits) as ft:
                pj = None if pr is None else tuple(jnp.asarray(z.astype(ft)) for z in pr)
                if marg:
                    fn = lambda k, c, x, P, s: getattr(sp, name)(k, x, N * h, jax_poly(c, E), jax_poly(s, ED), h, N, sqrt=sq, prior=pj)
                elif name.endswith('_2'):
                    def fn(k, c, x, P, s):
                        r = odef.solver(name)(k, (x, x, P), jax_poly(c, E), h, N, sqrt=sq, prior=pj)
                        return (r[0],) if k is not None else (r[1], r[2])
                else:
                    fn = lambda k, c, x, P, s: (odef.solver(name)(k, x, jax_poly(c, E), h, N, sqrt=sq, prior=pj),)
                a = tuple(z.astype(ft) for z in args)
                import jax
                plain = leaves(jax.jit(lambda *a: fn(None, *a))(*a))
                _, rec = noise.record(lambda k: fn(k, *a), case['seed'])
                Z = basis_rows(rec.n_vars, False)
                F = flat(noise.run(fn, rec, Z, seed=case['seed'], extra=a, sequential=True), len(Z))
                laws[bits] = affine(F, rec.n_vars, False)[0], plain
                ctx.true(f'finite, {bits} bits', np.isfinite(F).all() and all(np.isfinite(y).all() for y in plain))
                ctx.visit(F, f'{bits}')
                ctx.trans(len(Z))
        a, b = laws[32][0], laws[64][0]
        sd = np.sqrt(np.diag(b.cov))
        mag = np.abs(b.mean).max()
        # rounding of values of size mag is unavoidable when adding the sample to the mean
        sn = sd + 1e-4 * mag + 1e-30
        e = np.abs(a.cov - b.cov) / np.outer(sn, sn)
        ctx.true('covariance of the law', bool((e <= (1e-2 if sq else 5e-2)).all()), err=float(e.max()), sd=sd.tolist())
        em = np.abs(a.mean - b.mean)
        # the gain is exact up to rounding: errors of the mean are far below the size of the step
        ctx.true('mean of the law', bool((em <= 3e-5 * mag + 3e-5 * sd.max() + 1e-30).all()), err=float(em.max()), mean=b.mean.tolist())
        if name.endswith('_2'):
            P, Q = laws[32][1][1], laws[64][1][1]
            s = np.sqrt(np.diag(Q)) + 1e-30
            close(ctx, 'returned covariance', P, Q, 1e-2, scale=np.outer(s, s))
        ctx.trace(len(Z))


def form(case, ctx):
    globals()['form_' + case['part']](case, ctx)


def both(f):
    out = {}
    for bits in (64, 32):
        with precision(bits) as ft:
            out[bits] = leaves(f(ft))
    return out[32], out[64]


def compare(ctx, label, f, tol=1e-5, **kw):
    a, b = both(f)
    ctx.true(label + ': number of results', len(a) == len(b))
    for x, y in zip(a, b):
        close(ctx, label, x, y, tol, **kw)
    if b:
        ctx.visit(np.concatenate([np.asarray(y, float).ravel() for y in b])[None], label)
    ctx.trans(2)
    ctx.trace(1)


def form_generators(case, ctx):
    from mc.checks.c02 import generator
    for gen, N in (('approx', 1), ('brownian', 1), ('brownian', 64), ('fine', 1), ('fine', 16)):
        for dt in (1.0, 0.01, 1e-4, 1e-8, 50.0):
            res = {}
            for bits in (64, 32):
                with precision(bits):
                    par, ev = generator(dict(gen=gen, dim=2, N=N))

                    def fn(k):
                        c = par(k, dt)
                        return c, ev(0.3 * dt, dt, *c), ev(dt, dt, *c)
                    _, rec = noise.record(fn, case['seed'])
                    Z = np.concatenate([basis_rows(rec.n_vars, False)[:200], coefs((4, rec.n_vars), case['seed'], -2, 2)])
                    res[bits] = leaves(noise.run(fn, rec, Z, seed=case['seed']))
            for a, b in zip(res[32], res[64]):
                close(ctx, f'{gen}-{N} dt={dt}', a, b, 3e-5)
                ctx.visit(b.reshape(len(b), -1), gen)
            ctx.trans(2 * len(Z))
            ctx.trace(len(Z))


def form_filter(case, ctx):
    """One and several steps of the filter on graded states: scales of the components from 1 to 1e-4 (square-root form)."""
    import jax.numpy as jnp
    import bayesian_sde_solver.ode_solvers.probnum as pn
    for nx, ny in ((2, 1), (3, 1), (4, 2)):
        for top in (0.1, 1e-2, 1e-3, 1e-4):
            for r in (0.0, 0.3):
                D = np.geomspace(top, 1.0, nx)
                A = np.eye(nx) + 0.5 * np.triu(coefs((nx, nx), 5), 1) * D[:, None] / D[None, :]
                LQ = D[:, None] * (np.tril(coefs((nx, nx), 6)) + np.eye(nx))
                L0 = D[:, None] * (np.tril(coefs((nx, nx), 7)) + np.eye(nx))
                H = coefs((ny, nx), 8) / D[None, :]
                R = r * np.eye(ny)
                m0, y, xi = D * coefs((nx,), 9), coefs((3, ny), 10), D * coefs((nx,), 11)

                def f(ft, sq=True):
                    c = lambda z: jnp.asarray(np.asarray(z).astype(ft))
                    h, ys = c(H), c(y)
                    m, L = pn.ekf((c(m0), c(L0)), lambda x, v: h @ x - v, c(A), c(LQ), c(xi), c(R), params=(ys,), lower_sqrt=True)
                    (m, L), S, z = pn.ekf((c(m0), c(L0)), lambda x, v: h @ x - v, c(A), c(LQ), c(xi), c(R), params=(ys,), lower_sqrt=True, return_UC=True)
                    return m / c(D), (L @ L.T) / c(np.outer(D, D)), S, z
                compare(ctx, f'graded filter nx={nx} scale={top} noise={r}', f, 2e-3)


def form_moments(case, ctx):
    """Closed-form moments at small and large times, component by component; vector fields on a grid."""
    from mc.checks.c20 import EXPANSIONS, problem
    for name in EXPANSIONS:
        for t in (1.0, 0.1, 1e-2, 1e-3, 2.0):
            def f(ft):
                import jax.numpy as jnp
                x0, dr, sg, forms = problem(name)
                x = jnp.asarray(x0.astype(ft))
                out = [dr(x, ft(0.2)), sg(x, ft(0.2)), dr(x + 0.1, ft(0.2)), sg(x + 0.1, ft(0.2))]
                return out + [g(ft(t)) for g in forms]
            a, b = both(f)
            for i, (x, y) in enumerate(zip(a, b)):
                if i < 4:
                    close(ctx, f'{name}: vector field {i}', x, y, 2e-5)
                else:
                    # exact variances 1 - exp(-2t) etc. lose at most the digits of t
                    close(ctx, f'{name}: moment {i - 4} at {t}', x, y, 1e-4 if t >= 0.1 else 1e-4 / t * 0.1 if t >= 0.01 else 0.1)
            ctx.visit(np.concatenate([np.asarray(y, float).ravel() for y in b])[None], name)
            ctx.trans(2)
            ctx.trace(1)


def form_conversion(case, ctx):
    import bayesian_sde_solver.ito_stratonovich as its
    for d in (1, 2, 3):
        for tr in ('to_ito', 'to_stratonovich'):
            for i, s in enumerate((0.0, 1.0, 1e-3)):
                def f(ft):
                    import jax.numpy as jnp
                    dr, sg = sde('em', d)
                    a, b = getattr(its, tr)(dr, sg)
                    x = jnp.asarray((s * coefs((d,), 50 + i)).astype(ft))
                    base, _ = dr, sg
                    return a(x, ft(0.3)), b(x, ft(0.3)), (a(x, ft(0.3)) - base(x, ft(0.3)))
                compare(ctx, f'{tr} d={d} scale={s}', f, 2e-5)


def form_calibration(case, ctx):
    from bayesian_sde_solver.ode_solvers.probnum.calibration import mle_diffusion
    for n, d in ((1, 1), (3, 2), (40, 2)):
        for s in (1.0, 1e-3, 1e-6, 1e3):
            z = s * coefs((n, d), 61)
            L = np.tril(coefs((n, d, d), 62)) + np.eye(d)
            S = s * np.einsum('nij,nkj->nik', L, L)

            def f(ft):
                import jax.numpy as jnp
                return mle_diffusion(jnp.asarray(z.astype(ft)), jnp.asarray(S.astype(ft)))
            compare(ctx, f'calibration n={n} d={d} scale={s}', f, 2e-4)


def form_pieces(case, ctx):
    import bayesian_sde_solver.ode_solvers as o
    import bayesian_sde_solver.ode_solvers.probnum as pn
    import bayesian_sde_solver.utils.insert as ins
    from bayesian_sde_solver.sde_solvers import euler_maruyama_pathwise
    for d in (1, 2, 3):
        for h, N in ((0.1, 3), (1e-3, 5), (1e-5, 4), (1e-3, 1000)):
            def f(ft):
                import jax.numpy as jnp
                dr, sg = sde('em', d)
                x = jnp.zeros((d,), ft)
                inc = jnp.asarray(coefs((N, d), 63).astype(ft))
                a = o.euler(init=x, vector_field=dr, h=h, N=N)
                t, b = euler_maruyama_pathwise(inc, x, dr, sg, h, N, standard=True)
                return a, t, b
            # additions are compensated by nothing: N roundings
            compare(ctx, f'Euler d={d} h={h} N={N}', f, 3e-5 + 2e-7 * N)

        def g(ft):
            import jax.numpy as jnp
            a = [jnp.asarray((10.0 ** (-3 * i) * coefs((d,), 64 + i)).astype(ft)) for i in range(3)]
            M = [jnp.asarray((10.0 ** (-3 * i) * coefs((d, d), 64 + i)).astype(ft)) for i in range(4)]
            return pn.interlace(a), pn.interlace_matrix(*M)
        a, b = both(g)
        for x, y in zip(a, b):
            close(ctx, 'interlacing copies', x, y, 1e-6, scale=np.abs(y))
