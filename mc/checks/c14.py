"""C14: the mixture filters as maps on (mean, covariance), over chains of steps, priors, noises, forms and fields."""
import numpy as np

from mc import odef, ref
from mc.lib import Poly, coefs, jax_poly, vm

BOUNDS = dict(quick='d <= 2, 7 priors of order one, 3 noises, N <= 3, chains of 3 steps, 3 initial covariances (zero, rank one, regular), '
                    'fields: monomial entries and generic ones; with and without key, full output on and off; generic fields up to d = 4, N = 10, chains of 12 steps',
              thorough='d <= 3, priors x noises x N <= 4 x h in {.3, .05}, chains of 5 steps')
PRIORS = ['default', 'ibm1s', 'mat1', 'iou1', 'xi', 'fac1', 'dense1']


def cases(tier):
    q = tier == 'quick'
    out = []
    for d in ((1, 2) if q else (1, 2, 3)):
        for i, p in enumerate(PRIORS):
            for j, nz in enumerate(['none', 'dense', 'diag']):
                for N in ((1, 2, 3) if q else (1, 2, 4)):
                    if q and N != 1 + (i + j) % 3:
                        continue
                    if not q and d == 3 and (i + j + N) % 2:
                        continue
                    for h in ((0.3 if (i + j) % 2 else 0.1,) if q else (0.3, 0.05)):
                        for name in ('ekf0_2', 'ekf1_2'):
                            if q and (i + j + d + (name == 'ekf1_2')) % 2 and i > 1:
                                continue
                            out.append(dict(solver=name, d=d, prior=p, noise=nz, N=N, h=h, chain=3 if q else 5, gen=2))
    for d, p, nz, N, h, K in ((4, 'default', 'dense', 2, 0.1, 3), (1, 'default', 'none', 10, 0.05, 5), (2, 'mat1', 'diag', 3, 0.02, 12), (3, 'fac1', 'none', 2, 0.05, 6)):
        out += [dict(solver=s, d=d, prior=p, noise=nz, N=N, h=h, chain=K, gen=8, generic=True) for s in ('ekf0_2', 'ekf1_2')]
    return out


def covs(d):
    L = np.tril(coefs((d, d), 80))
    np.fill_diagonal(L, 0.5)
    r = coefs((d, 1), 81)
    return [np.zeros((d, d)), L @ L.T, r @ r.T]


def scale(k):
    return 1.0 - 0.4 * k if k < 2 else 0.5


def chain_ref(c, E, m, P, case, order1, pr, R):
    out = []
    for k in range(case['chain']):
        f = Poly(c * scale(k), E)
        M, V, S, z, hist = ref.alg3(f, m, P, case['h'], case['N'], order1, pr, R)
        out.append((M, V, S, z))
        if np.abs(M).max() > 20 or np.abs(V).max() > 20 or np.linalg.eigvalsh(S)[0] < 1e-6:
            return None
        m, P = M[::2], V[::2, ::2]
    return out


def run(case, ctx):
    import jax
    import jax.numpy as jnp
    d, N, h, name, K = case['d'], case['N'], case['h'], case['solver'], case['chain']
    order1 = name == 'ekf1_2'
    pr, R = odef.prior(case['prior'], h, d), odef.noise_matrix(case['noise'], d)
    pj, Rj = odef.jpr(pr), None if R is None else jnp.asarray(R)
    C, E = odef.field_batch(d, case['gen'], generic=case.get('generic', False))
    C, X = odef.product(C, odef.x0_batch(d, 1))
    Ps = np.array(covs(d))
    ci, pi = np.repeat(np.arange(len(C)), len(Ps)), np.tile(np.arange(len(Ps)), len(C))
    C, X, P0 = C[ci], X[ci], Ps[pi]
    refs = [chain_ref(c, E, x, P, case, order1, pr, R) for c, x, P in zip(C, X, P0)]
    pert = [chain_ref(c, E, x + 1e-11, P + 1e-12 * np.eye(d), case, order1, pr, R) for c, x, P in zip(C, X, P0)]
    keep = np.array([a is not None and b is not None and max(np.abs(u - v).max() for s, t in zip(a, b) for u, v in zip(s[:2], t[:2])) < 1e-8
                     for a, b in zip(refs, pert)])
    ctx.counts['unstable_models_skipped'] = int((~keep).sum())
    C, X, P0 = C[keep], X[keep], P0[keep]
    refs = [r for r, k in zip(refs, keep) if k]
    if not len(C):
        return
    solve = odef.solver(name)
    key0 = jax.random.PRNGKey(case['seed'])

    def chain(c, x, P, samp, with_key, sqrt, full):
        def step(st, inp):
            k, sc = inp
            o = solve(jax.random.fold_in(key0, k) if with_key else None, init=st, vector_field=jax_poly(c * sc, E), h=h, N=N, sqrt=sqrt,
                      prior=pj, noise=Rj, return_all=full)
            return (o[0] if full else o), o
        return jax.lax.scan(step, (samp, x, P), (jnp.arange(K), jnp.array([scale(k) for k in range(K)])))[1]

    want = [[np.array([r[k][j] for r in refs]) for j in range(4)] for k in range(K)]
    S0 = np.tile(coefs((d,), 90) * 3, (len(C), 1))
    runs = [(False, False, True, X), (False, True, True, S0), (True, False, False, S0), (True, True, True, X), (True, False, True, X * 0 + 5.0)]
    for with_key, sqrt, full, samp in runs:
        got = vm(lambda c, x, P, s: chain(c, x, P, s, with_key, sqrt, full), C, X, P0, samp)
        for k in range(K):
            at = jax.tree_util.tree_map(lambda a: a[:, k], got)
            lab = f'step {k} key={with_key} sqrt={sqrt} full={full}: '
            M, V, S, z = want[k]
            if full:
                (s, m, P), (sa, mm, PP, SS, zz) = at
                ctx.eq(lab + 'joint mean', mm, M, atol=1e-7)
                ctx.eq(lab + 'joint covariance', PP, V, atol=1e-7)
                ctx.eq(lab + 'innovation covariance', SS, S, atol=1e-7)
                ctx.eq(lab + 'residual', zz, z, atol=1e-7)
                ctx.eq(lab + 'the sample is that of the joint sample', s, sa[:, ::2], atol=1e-12)
                if not with_key:
                    ctx.eq(lab + 'joint sample without key', sa, M, atol=1e-7)
            else:
                s, m, P = at
            ctx.eq(lab + 'mean', m, M[:, ::2], atol=1e-7)
            ctx.eq(lab + 'covariance', P, V[:, ::2, ::2], atol=1e-7)
            if not with_key:
                ctx.eq(lab + 'sample without key is the mean', s, m, atol=1e-7)
            ctx.visit(np.concatenate([m, P.reshape(len(m), -1)], axis=1))
        ctx.trans(len(C) * K * N)
        ctx.trace(len(C))
    ctx.sample(mean=want[-1][0][-1], cov=want[-1][1][-1])
