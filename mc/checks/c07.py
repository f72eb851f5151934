"""C07: the Euler integrator against the recursion, over a product of fields, states, steps and lengths."""
import numpy as np

from mc.lib import Poly, coefs, jax_poly, monos, vm

BOUNDS = dict(quick='d <= 3, all single monomial fields of degree <= 2 in x, 1 in t and their pairs (d = 1, 2), N <= 8 and 20, h in 3 values; N = 300 (d = 1), d = 5 (N = 7, generic fields)',
              thorough='degree <= 3 in x, 2 in t, N <= 20 and 100, h in 5 values')


def cases(tier):
    q = tier == 'quick'
    out = []
    for d in (1, 2, 3):
        for N in ([1, 2, 3, 4, 5, 8, 20] if q else list(range(1, 21)) + [100]):
            if q and d == 3 and N > 3:
                continue
            out.append(dict(d=d, N=N, hs=[0.5, 0.123456789, 1.0] if q else [0.5, 0.123456789, 1.0, 1e-3, 2 / 7], deg=2 if q else 3, tdeg=1 if q else 2))
    out.append(dict(d=1, N=300, hs=[1 / 300], deg=2, tdeg=1))
    out.append(dict(d=5, N=7, hs=[0.05, 1e-5], deg=2, tdeg=1, generic=True))
    out.append(dict(d=0, N=3, hs=[0.5], deg=1, tdeg=1))
    return out


def run(case, ctx):
    import jax
    import jax.numpy as jnp
    from bayesian_sde_solver.ode_solvers import euler
    N = case['N']
    if case['d'] == 0:
        return shapes(case, ctx)
    d = case['d']
    E = monos(d, case['deg'], case['tdeg'])
    K = len(E)
    nb = d * K
    idx = [] if case.get('generic') else [(i,) for i in range(nb)] + ([(i, j) for i in range(nb) for j in range(i)] if d < 3 else [])
    C = np.zeros((len(idx), nb))
    for r, ij in enumerate(idx):
        C[r, list(ij)] = [0.5, -0.3][:len(ij)]
    C = np.concatenate([C.reshape(-1, d, K), coefs((3, d, K), N, -0.3, 0.3)])
    X0 = coefs((2, d), 1)
    for h in case['hs']:
        for x0 in X0:
            got = vm(lambda c: euler(init=jnp.asarray(x0), vector_field=jax_poly(c, E), h=h, N=N), C)
            want = np.tile(x0, (len(C), 1))
            steps = [want]
            Em = np.array(E)
            with np.errstate(all='ignore'):
                for k in range(N):
                    mv = np.prod(want[:, None, :] ** Em[None, :, :-1], axis=2) * float(k * h) ** Em[:, -1]
                    want = want + h * np.einsum('nik,nk->ni', C, mv)
                    steps.append(want)
            ok = np.abs(np.array(steps)).max(axis=(0, 2)) < 1e4
            ctx.eq(f'state after N steps h={h}', got[ok], want[ok], scaled=False, rtol=1e-8)
            for s in steps:
                ctx.visit(np.concatenate([C.reshape(len(C), -1), s], axis=1)[ok], f'{h}')
            ctx.trans(int(ok.sum()) * N)
            ctx.trace(int(ok.sum()))
    ctx.sample(end=got[ok][-1])


def shapes(case, ctx):
    """States of any shape, positional and keyword calls, uncompiled and compiled."""
    import jax
    import jax.numpy as jnp
    from bayesian_sde_solver.ode_solvers import euler
    for shape in [(), (1,), (4,), (2, 2), (2, 1, 3)]:
        x0 = coefs(shape, 3) if shape else np.float64(0.3)
        f = lambda x, t: jnp.sin(x) * (1 + t) + t
        for h in (0.5, 0.25):
            for N in (1, 2, 3, 6):
                w = np.array(x0, dtype=float)
                for k in range(N):
                    w = w + h * (np.sin(w) * (1 + k * h) + k * h)
                for how, got in (('kw', euler(init=jnp.asarray(x0), vector_field=f, h=h, N=N)), ('pos', euler(jnp.asarray(x0), f, h, N)),
                                 ('jit', jax.jit(lambda x: euler(x, f, h, N))(jnp.asarray(x0))),
                                 ('traced h', jax.jit(lambda x, h: euler(x, f, h, N))(jnp.asarray(x0), h))):
                    ctx.eq(f'{how} {shape}', np.asarray(got), w)
                    ctx.visit(np.asarray(got).reshape(1, -1), str(shape))
                    ctx.trans(N)
                    ctx.trace(1)
