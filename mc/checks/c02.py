"""C02: exact joint law of the polynomial coefficients, from the image of a basis of the noise space."""
import numpy as np

from mc.lib import gaussian_law, tree_ids

BOUNDS = dict(quick='dim <= 3, N in 1..8 and the defaults, dt in {1e-3, .25, 1, 3}; dim <= 7, N <= 64, dt in {1e-6, .1, 40}; noise: basis, doubles and all pairs',
              thorough='dim <= 4, N in 1..24, 50, 100, 257, 1000; dt in {1e-4, 1e-3, .1, .25, 1, 3, 10}')
ASSUMPTIONS = ['jax.random.normal turns independent uniform bits into independent standard normals']


def cases(tier):
    q = tier == 'quick'
    out = []
    dts = [1.0, 0.25, 1e-3, 3.0] if q else [1.0, 0.25, 1e-3, 3.0, 1e-4, 0.1, 10.0]
    for dim in ([1, 2, 3] if q else [1, 2, 3, 4]):
        out.append(dict(gen='approx', dim=dim, N=0, dts=dts))
        for N in ([1, 2, 3, 5, 8] if q else list(range(1, 25)) + [50]):
            if dim * N > (16 if q else 64):
                continue
            out.append(dict(gen='brownian', dim=dim, N=N, dts=dts))
            out.append(dict(gen='fine', dim=dim, N=N, dts=dts))
    out += [dict(gen='fine_default', dim=1, N=100, dts=dts[:2]), dict(gen='brownian_default', dim=1, N=1000, dts=dts[:2]),
            dict(gen='approx_default', dim=1, N=0, dts=dts)]
    wide = [1e-6, 0.1, 40.0]
    out += [dict(gen='approx', dim=d, N=0, dts=wide) for d in (1, 2, 4, 7)]
    out += [dict(gen='brownian', dim=d, N=n, dts=wide) for d, n in ((1, 16), (1, 64), (4, 3), (6, 2))]
    out += [dict(gen='fine', dim=d, N=n, dts=wide) for d, n in ((1, 16), (1, 40), (4, 3), (6, 2))]
    if not q:
        out += [dict(gen='brownian', dim=2, N=257, dts=dts[:3]), dict(gen='fine', dim=2, N=100, dts=dts[:3])]
    return out


def generator(case):
    import bayesian_sde_solver.foster_polynomial as fp
    g, dim, N = case['gen'], case['dim'], case['N']
    return {'approx': lambda: fp.get_approx(dim), 'approx_default': lambda: fp.get_approx(),
            'brownian': lambda: fp.get_approx_and_brownian(dim, N), 'brownian_default': lambda: fp.get_approx_and_brownian(),
            'fine': lambda: fp.get_approx_fine(dim=dim, N=N), 'fine_default': lambda: fp.get_approx_fine()}[g]()


def run(case, ctx):
    dim, N = case['dim'], case['N']
    par, _ = generator(case)
    kind = case['gen'].split('_')[0]
    for dt in case['dts']:
        law, out, rec = gaussian_law(lambda k: par(k, dt), ctx, pairs=dim * N <= 60, seed=case['seed'], label=f'dt={dt}')
        ids = tree_ids(out)
        n_out = dict(approx=2, brownian=3, fine=4)[kind]
        ctx.true('number of coefficients', len(out) == n_out, got=len(out))
        ctx.true('shape of the coefficients', all(np.shape(o) == (dim,) for o in out[:2]), got=[np.shape(o) for o in out])
        ctx.true('shape of the fine coefficients', all(np.shape(o) == (N, dim) for o in out[2:]), got=[np.shape(o) for o in out])
        k = 2 * dim
        C = law.cov
        area = dt / 2 * (1 - 1 / N ** 2 if kind == 'brownian' else 1)
        ctx.eq(f'mean dt={dt}', law.mean, np.zeros_like(law.mean))
        s = np.sqrt(np.concatenate([np.full(dim, dt), np.full(dim, dt / 2)]))
        want = np.diag(np.concatenate([np.full(dim, dt), np.full(dim, area)]))
        ctx.eq(f'covariance of (increment, area) dt={dt}', C[:k, :k] / np.outer(s, s), want / np.outer(s, s))
        if kind == 'brownian':
            ctx.eq(f'law of the fine increments dt={dt}', C[k:, k:], np.eye(N * dim))
        if kind == 'fine':
            h = dt / N
            v = np.concatenate([np.full(N * dim, h), np.full(N * dim, h / 12)])
            ctx.eq(f'law of the fine coefficients dt={dt}', C[k:, k:] / np.sqrt(np.outer(v, v)), np.eye(2 * N * dim))
        ctx.trace(1)
        ctx.sample(cov=C[:k, :k], n_vars=rec.n_vars)
