"""C04: the Brownian polynomial, on the full product of coefficient basis, interval lengths, times and generators."""
import numpy as np

from mc.lib import vm
from mc.checks.c02 import generator

BOUNDS = dict(quick='dim <= 3, dt in {1e-3, .25, 1, 3} (dim = 6: {1e-6, .1, 40}), 9 times per interval including both ends, coefficients in {0, 1, -2}^2 per component',
              thorough='dim <= 4, 7 interval lengths, 33 times, coefficients in {0, 1, -2, .5}^2')


def cases(tier):
    q = tier == 'quick'
    dts = [1.0, 0.25, 1e-3, 3.0] if q else [1.0, 0.25, 1e-3, 3.0, 1e-5, 0.1, 20.0]
    return [dict(gen=g, dim=d, N=4, dts=dts, nt=8 if q else 32, vals=[0.0, 1.0, -2.0] if q else [0.0, 1.0, -2.0, 0.5])
            for g in ('approx', 'brownian', 'fine') for d in ((1, 2, 3) if q else (1, 2, 3, 4))] + [
            dict(gen=g, dim=d, N=n, dts=[1e-6, 0.1, 40.0], nt=8, vals=[0.0, 3.0, -1e-3]) for g in ('approx', 'brownian', 'fine') for d, n in ((6, 1), (1, 9))]


def run(case, ctx):
    import jax
    import jax.numpy as jnp
    dim, N = case['dim'], case['N']
    _, ev = generator(case)
    kind = case['gen']
    extra = {'approx': (), 'brownian': (np.ones((N, dim)) * 7.0,), 'fine': (np.ones((N, dim)) * 5.0, np.ones((N, dim)) * 3.0)}[kind]
    v = case['vals']
    ab = np.array([(a, b) for a in v for b in v])
    # component c of row r takes pair r + c: every pair occurs in every component next to different neighbours
    A = np.stack([np.roll(ab[:, 0], c) for c in range(dim)], axis=1)
    B = np.stack([np.roll(ab[:, 1], c) for c in range(dim)], axis=1)
    R = len(ab)
    for dt in case['dts']:
        u = np.linspace(0, 1, case['nt'] + 1)
        T = u * dt
        f = lambda a, b: (lambda t: ev(t, dt, a, b, *extra))
        TT, ri = np.tile(T, R), np.repeat(np.arange(R), len(T))
        val, der = vm(lambda a, b, t: (f(a, b)(t), jax.jacfwd(f(a, b))(t)), A[ri], B[ri], TT)
        U = np.tile(u, R)[:, None]
        want = A[ri] * U + np.sqrt(6) * B[ri] * U * (1 - U)
        wder = (A[ri] + np.sqrt(6) * B[ri] * (1 - 2 * U)) / dt
        ctx.eq(f'value dt={dt}', val, want)
        ctx.eq(f'derivative dt={dt}', der, wder)
        val = val.reshape(R, len(T), dim)
        ctx.eq(f'start dt={dt}', val[:, 0], np.zeros((R, dim)))
        ctx.eq(f'end dt={dt}', val[:, -1], A)
        h = dt / case['nt']
        w = np.ones(len(T)); w[1:-1:2] = 4; w[2:-1:2] = 2
        ctx.eq(f'time integral dt={dt}', np.einsum('rtd,t->rd', val, w * h / 3), dt * (A / 2 + B / np.sqrt(6)))
        # array of times at once, uncompiled
        got = np.asarray(ev(jnp.asarray(T)[:, None], dt, A[1][None], B[1][None], *extra))
        ctx.eq(f'array of times dt={dt}', got, val[1])
        got = np.asarray(ev(float(T[1]), dt, A[1], B[1], *extra))
        ctx.eq(f'scalar time, uncompiled dt={dt}', got, val[1][1])
        ctx.visit(np.concatenate([np.full((len(TT), 1), dt), TT[:, None], A[ri], B[ri], val.reshape(-1, dim)], axis=1))
        ctx.trans(len(TT))
        ctx.trace(R)
    ctx.sample(values=val[4, :, 0])
