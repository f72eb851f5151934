"""C08: Euler-Maruyama.  The increments a key produces are read off a run with drift 0 and diffusion I; their law is
checked exactly, and every other run with that key must be the recursion on those increments."""
import itertools

import numpy as np

from mc import noise
from mc.lib import GH3, Poly, basis_rows, coefs, gaussian_law, jax_poly, monos, product_nodes, vm

BOUNDS = dict(quick='N <= 5, (d, m) in 6 shapes, h in {.0123456789, .25, 1} (N <= 1100, d, m <= 6 for five more), noise: all 3^n (n <= 6), else basis, doubles and pairs; '
                    'pathwise: all increment histories over {0, 1, -1.5} (n <= 6), increments of five numeric types',
              thorough='N <= 8 and 50, 9 shapes, 6 step sizes, noise 3^n (n <= 9)')


def cases(tier):
    q = tier == 'quick'
    shapes = [(1, 1), (2, 1), (1, 2), (2, 2), (3, 2), (2, 3)] + ([] if q else [(3, 1), (1, 3), (3, 3)])
    out = []
    for d, m in shapes:
        for N in ([1, 2, 3, 5] if q else [1, 2, 3, 4, 5, 8, 50]):
            hs = [0.25, 0.0123456789, 1.0] if q else [0.25, 0.0123456789, 1.0, 1e-4, 3.0, 1 / 7]
            for h in ([hs[(d + m + N) % 3]] if q else hs):
                out.append(dict(kind='keyed', d=d, m=m, N=N, h=h, full=6 if q else 9))
                out.append(dict(kind='pathwise', d=d, m=m, N=N, h=h, full=6 if q else 9))
    for d, m, N, h in ((2, 3, 150, 0.01), (1, 1, 1100, 0.001), (6, 1, 12, 0.05), (1, 6, 9, 1e-5), (4, 4, 6, 0.3)):
        out += [dict(kind=k, d=d, m=m, N=N if k == 'pathwise' else min(N, 200), h=h, full=0, long=True) for k in ('keyed', 'pathwise')]
    out.append(dict(kind='mutation', d=2, m=2, N=3, h=0.25, full=0))
    out += [dict(kind='dtype', d=d, m=m, N=N, h=h, full=0) for d, m, N, h in ((1, 1, 3, 0.3), (2, 2, 3, 0.3), (2, 1, 5, 1 / 7))]
    return out


def em_ref(x0, dW, h, f, s):
    x = [np.array(x0, dtype=float)]
    for k, w in enumerate(dW):
        x.append(x[-1] + h * f(x[-1], k * h) + s(x[-1], k * h) @ w)
    return np.array(x)


def fields(d, m, salt, deg=2):
    import jax.numpy as jnp
    E = monos(d, deg, 1)
    Cd, Cs = coefs((d, len(E)), salt, -0.5, 0.5), coefs((d, m, len(E)), salt + 1, -0.5, 0.5)
    return (jax_poly(jnp.asarray(Cd), E), jax_poly(jnp.asarray(Cs), E)), (Poly(Cd, E), Poly(Cs, E))


def run(case, ctx):
    import jax.numpy as jnp
    from bayesian_sde_solver.sde_solvers import euler_maruyama, euler_maruyama_pathwise
    d, m, N, h = (case[k] for k in ('d', 'm', 'N', 'h'))
    if case['kind'] == 'mutation':
        return mutation(case, ctx)
    if case['kind'] == 'dtype':
        return dtypes(case, ctx)
    x0 = coefs((d,), 3)
    long = case.get('long', False)
    (jf, js), (rf, rs) = fields(d, m, N, 1 if long else 2)
    tk = np.arange(N + 1) * h
    if case['kind'] == 'keyed':
        probe = lambda k: euler_maruyama(k, jnp.zeros(m), lambda x, t: jnp.zeros(m), lambda x, t: jnp.eye(m), h, N)
        law, out, rec = gaussian_law(probe, ctx, pairs=N * m <= 40, seed=case['seed'], label='increments')
        L = law.L[N + 1:].reshape(N + 1, m, -1)
        inc = np.diff(L, axis=0).reshape(N * m, -1)
        ctx.eq('law of the increments: covariance', inc @ inc.T / h, np.eye(N * m))
        ctx.eq('law of the increments: mean', law.mean[N + 1:], np.zeros((N + 1) * m))
        fn = lambda k: euler_maruyama(k, jnp.asarray(x0), jf, js, h, N)
        _, rec2 = noise.record(fn, case['seed'])
        same = sorted((a.node, a.n) for a in rec.draws) == sorted((a.node, a.n) for a in rec2.draws)
        ctx.true('the noise drawn does not depend on the problem', same)
        if not same:
            return
        n = rec.n_vars
        Z = product_nodes(n, *GH3)[0] if n <= case['full'] else basis_rows(n, pairs=n <= 20)
        if long:
            Z = np.array([coefs((n,), s, -2, 2) for s in range(4)])
        ts, X = noise.run(fn, rec, Z, seed=case['seed'])
        _, W = noise.run(probe, rec, Z, seed=case['seed'])
        dW = np.diff(W, axis=1)
        _, XP = vm(lambda w: euler_maruyama_pathwise(w, jnp.asarray(x0), jf, js, h, N), dW)
    else:
        vals = np.array([0.0, 1.0, -1.5])
        n = N * m
        Z = product_nodes(n, vals, np.ones(3))[0] if n <= case['full'] else basis_rows(n, pairs=n <= 30)
        if long:
            Z = np.array([coefs((n,), s, -2, 2) for s in range(4)])
        incs = Z.reshape(-1, N, m)
        ts, X = vm(lambda w: euler_maruyama_pathwise(w, jnp.asarray(x0), jf, js, h, N), incs)
        tS, XS = vm(lambda w: euler_maruyama_pathwise(w, jnp.asarray(x0), jf, js, h, N, standard=True), incs)
        _, XF = vm(lambda w: euler_maruyama_pathwise(incs=w, init=jnp.asarray(x0), drift=jf, sigma=js, h=h, N=N, standard=False), incs)
        want = np.array([em_ref(x0, w * h ** 0.5, h, rf, rs) for w in incs])
        ctx.eq('path with standard increments', XS, want)
        ctx.eq('grid with standard increments', tS, np.tile(tk, (len(Z), 1)))
        ctx.eq('standard=False is the default', XF, X, rtol=1e-13, atol=1e-13)
        dW, XP = incs, None
    want = np.array([em_ref(x0, w, h, rf, rs) for w in dW])
    ctx.eq('path', X, want)
    ctx.eq('grid', ts, np.tile(tk, (len(Z), 1)))
    if XP is not None:
        ctx.eq('keyed and pathwise versions agree', XP, X)
    ctx.visit(np.concatenate([np.tile(tk[:, None], (len(Z), 1)), X.reshape(-1, d)], axis=1))
    ctx.trans(len(Z) * N)
    ctx.trace(len(Z))
    ctx.sample(path=X[-1])


def mutation(case, ctx):
    import jax
    import jax.numpy as jnp
    from bayesian_sde_solver.sde_solvers import euler_maruyama_pathwise
    d, m, N, h = (case[k] for k in ('d', 'm', 'N', 'h'))
    x0 = coefs((d,), 3)
    (jf, js), (rf, rs) = fields(d, m, N)
    for std in (False, True):
        for mk in (np.array, jnp.asarray, lambda a: np.asfortranarray(a), lambda a: np.array(a, dtype=np.float64)):
            inc = mk(coefs((N, m), 9))
            before = np.array(inc)
            first = None
            for rep in range(3):
                ts, X = euler_maruyama_pathwise(inc, x0, jf, js, h, N, standard=std)
                ctx.eq(f'increments unchanged standard={std}', np.asarray(inc), before, rtol=0, atol=0)
                want = em_ref(x0, before * (h ** 0.5 if std else 1), h, rf, rs)
                ctx.eq(f'call {rep} standard={std}', np.asarray(X), want)
                ctx.visit(np.asarray(X), 'm')
                ctx.trans(N)
                ctx.trace(1)


def dtypes(case, ctx):
    """Increments given in any numeric type (signs of a random walk, single precision): all histories over {0, 1, -1}."""
    import jax.numpy as jnp
    from bayesian_sde_solver.sde_solvers import euler_maruyama_pathwise
    d, m, N, h = (case[k] for k in ('d', 'm', 'N', 'h'))
    x0 = coefs((d,), 3)
    (jf, js), (rf, rs) = fields(d, m, N)
    n = N * m
    Z = product_nodes(n, np.array([0.0, 1.0, -1.0]), np.ones(3))[0] if n <= 3 else np.concatenate([basis_rows(n, pairs=True), -np.ones((1, n))])
    incs = np.sign(Z).reshape(-1, N, m)
    for std in (False, True):
        want = np.array([em_ref(x0, w * (h ** 0.5 if std else 1), h, rf, rs) for w in incs])
        for dt in (np.int64, np.int32, np.int8, np.float32, np.float64):
            for mk in (np.asarray, jnp.asarray) if dt in (np.int64, np.float32) else (jnp.asarray,):
                if mk is jnp.asarray:
                    ts, X = vm(lambda w: euler_maruyama_pathwise(w, jnp.asarray(x0), jf, js, h, N, standard=std), mk(incs.astype(dt)))
                else:
                    sub = slice(-3, None)
                    ts, X = zip(*[euler_maruyama_pathwise(w, jnp.asarray(x0), jf, js, h, N, standard=std) for w in incs[sub].astype(dt)])
                    ts, X = np.array(ts), np.array(X)
                tol = 1e-9 if dt != np.float32 else 1e-5
                ctx.eq(f'path, {dt.__name__} {mk.__name__} standard={std}', X, want[-len(X):], rtol=tol, atol=tol)
                ctx.eq(f'grid, {dt.__name__} {mk.__name__} standard={std}', ts, np.tile(np.arange(N + 1) * h, (len(X), 1)), rtol=tol, atol=tol)
                ctx.visit(X.reshape(-1, d), 'd')
                ctx.trans(len(X) * N)
                ctx.trace(len(X))
