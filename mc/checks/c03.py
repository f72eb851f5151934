"""C03: coarse coefficients against the fine path returned with them, for every noise history of the alphabet."""
import numpy as np

from mc import noise
from mc.lib import GH3, basis_rows, product_nodes
from mc.checks.c02 import generator

BOUNDS = dict(quick='all 3^n noise histories for n <= 6 variables; basis, doubles and pairs up to N = 12 (N = 33, dim = 5 at dt = 1e-6, 40) and at the defaults',
              thorough='all 3^n noise histories for n <= 9 variables; basis, doubles and pairs up to N = 40, defaults')


def cases(tier):
    q = tier == 'quick'
    out = []
    dts = [1.0, 0.25, 3.0] if q else [1.0, 0.25, 3.0, 1e-3, 10.0]
    for dim in (1, 2, 3):
        for N in ([1, 2, 3, 4, 7, 12] if q else list(range(1, 17)) + [25, 40]):
            if dim * N > (24 if q else 80):
                continue
            for g in ('brownian', 'fine'):
                nv = dim * N * (1 if g == 'brownian' else 2)
                out.append(dict(gen=g, dim=dim, N=N, dts=dts, full=nv <= (6 if q else 9)))
    out += [dict(gen=g, dim=d, N=n, dts=[1e-6, 40.0], full=False) for g in ('brownian', 'fine') for d, n in ((5, 3), (1, 33), (2, 20))]
    out += [dict(gen='brownian_default', dim=1, N=1000, dts=dts[:2], full=False),
            dict(gen='fine_default', dim=1, N=100, dts=dts[:2], full=False)]
    return out


def model(kind, dt, N, fine):
    """Coarse coefficients from the fine path, by integrating the path piece by piece."""
    h = dt / N
    if kind == 'brownian':
        incs = fine[0] * np.sqrt(h)
        W = np.concatenate([np.zeros((1, incs.shape[1])), np.cumsum(incs, axis=0)])
        integral = h * (W[:-1] + W[1:]).sum(axis=0) / 2
    else:
        incs, H = fine
        W = np.zeros(incs.shape[1])
        integral = 0.0
        for k in range(N):
            # integral over the piece of W + parabola with increment incs[k] and area H[k] (Foster's H = area / sqrt 6)
            integral = integral + h * (W + incs[k] / 2 + H[k])
            W = W + incs[k]
    inc = incs.sum(axis=0)
    return inc, np.sqrt(6) * (integral / dt - inc / 2)


def run(case, ctx):
    dim, N = case['dim'], case['N']
    par, _ = generator(case)
    kind = case['gen'].split('_')[0]
    for dt in case['dts']:
        fn = lambda k: par(k, dt)
        _, rec = noise.record(fn, case['seed'])
        if rec.n_vars <= 9 and case['full']:
            Z, _ = product_nodes(rec.n_vars, *GH3)
        else:
            Z = basis_rows(rec.n_vars, pairs=rec.n_vars <= 60)
        a, b, *fine = noise.run(fn, rec, Z, seed=case['seed'])
        want = [model(kind, dt, N, [f[i] for f in fine]) for i in range(len(Z))]
        ctx.eq(f'coarse increment dt={dt}', a, np.array([w[0] for w in want]))
        ctx.eq(f'coarse area dt={dt}', b, np.array([w[1] for w in want]))
        ctx.visit(np.concatenate([a, b], axis=1), f'{dt}')
        ctx.trans(len(Z) * N)
        ctx.trace(len(Z))
        ctx.sample(increment=a[-1], area=b[-1])
