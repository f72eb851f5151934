"""C10: square-root and covariance forms of every probabilistic solver, with emphasis on degenerate inputs."""
import contextlib

import numpy as np

from mc import noise, odef
from mc.checks import c14
from mc.checks.c16 import diffusion_batch
from mc.lib import Poly, affine_laws, coefs, cov_eq, jax_poly, monos, vm

BOUNDS = dict(quick='6 solvers x 12 priors x 5 noises (thinned) x h in {.3, .01} x d <= 2; fields: zero, constant, singular and regular Jacobians, generic; '
                    'initial covariances: zero, rank one, regular; diffusions: zero, one channel, regular; float64 and float32',
              thorough='full product, d <= 3, N <= 3')
ASSUMPTIONS = ['observation noise is zero, regular, or zero on some components']
ALG2 = ['default', 'ibm1s', 'ibm2', 'ibm3', 'mat1', 'mat2', 'xi', 'pad2', 'pad3', 'fac1', 'fac2', 'dense1']
ALG3 = ['default', 'ibm1s', 'mat1', 'xi', 'fac1', 'dense1']
ALG4 = ['default', 'ibm1s', 'mat1', 'xi']
NOISES = ['none', 'zero', 'partial', 'diag', 'dense']


def cases(tier):
    q = tier == 'quick'
    out = []
    n = 0
    for d in ((1, 2) if q else (1, 2, 3)):
        for s, ps in (('ekf0', ALG2), ('ekf1', ALG2), ('ekf0_2', ALG3), ('ekf1_2', ALG3), ('ekf0_marginal_parabola', ALG4), ('ekf1_marginal_parabola', ALG4)):
            for i, p in enumerate(ps):
                for j, nz in enumerate(NOISES):
                    n += 1
                    if q and (i + j + d + (s[3] == '1') * 2 + 2 * (i // 5)) % 5 and not (nz == 'none' and p in ('default', 'pad2') and d == 2):
                        continue
                    for N in ([1 + n % 3] if q else [1, 2, 3]):
                        for h in ([0.3 if n % 2 else 0.01] if q or d == 3 else [0.3, 0.01]):
                            out.append(dict(solver=s, d=d, prior=p, noise=nz, N=N, h=h, x32=False))
    for s, ps in (('ekf0', ALG2), ('ekf1', ALG2), ('ekf0_2', ALG3), ('ekf1_2', ALG3), ('ekf0_marginal_parabola', ALG4), ('ekf1_marginal_parabola', ALG4)):
        for i, p in enumerate(ps):
            for j, nz in enumerate(NOISES):
                if q and (i + j) % 6:
                    continue
                out.append(dict(solver=s, d=2, prior=p, noise=nz, N=2, h=0.3, x32=True))
    return out


def fields(d):
    E = monos(d, 2, 1)
    K = len(E)
    out = [np.zeros((d, K))]
    c = np.zeros((d, K)); c[:, 0] = 0.7; out.append(c)                       # constant
    c = np.zeros((d, K))
    for i in range(d):
        c[i, E.index(tuple(int(a == d - 1) for a in range(d)) + (0,))] = 0.6  # singular Jacobian: all components read the last one
    out.append(c)
    out += [coefs((d, K), 3, -0.6, 0.6), coefs((d, K), 4, -0.6, 0.6)]
    return np.array(out), E


def diffusions(d):
    D, E = diffusion_batch(d, 1)
    K = len(E)
    one = np.zeros((d, d, K)); one[-1, 0, 0] = 0.5
    return np.array([np.zeros((d, d, K)), one, D[0], one, D[0]]), E


def run(case, ctx):
    from jax.experimental import disable_x64
    with (disable_x64() if case['x32'] else contextlib.nullcontext()):
        body(case, ctx)


def body(case, ctx):
    import jax.numpy as jnp
    d, N, h, name = (case[k] for k in ('d', 'N', 'h', 'solver'))
    marg, alg3 = name.endswith('parabola'), name.endswith('_2')
    x32 = case['x32']
    pr, R = odef.prior(case['prior'], h, 1 if marg else d), odef.noise_matrix(case['noise'], d)
    ft = np.float32 if x32 else np.float64
    cast = lambda a: None if a is None else jnp.asarray(np.asarray(a), dtype=ft)
    pj, Rj = None if pr is None else tuple(cast(z) for z in pr), cast(R)
    C, E = fields(d)
    D, ED = diffusions(d)
    Ps = c14.covs(d)
    ext = []
    for i, c in enumerate(C):
        for P in (Ps if alg3 else Ps[:1]):
            ext.append((c, coefs((d,), 70 + i), P, D[i]))
    ext = tuple(np.array(z).astype(ft) for z in zip(*ext))
    delta = N * h
    if marg:
        import bayesian_sde_solver.ssm_parabola as sp
        S = getattr(sp, name)
        call = lambda sq: lambda k, c, x, P, s: S(k, x, delta, jax_poly(c, E), jax_poly(s, ED), h, N, sqrt=sq, prior=pj, noise=Rj)
    elif alg3:
        S = odef.solver(name)
        call = lambda sq: lambda k, c, x, P, s: S(k, (x, x, P), jax_poly(c, E), h, N, sqrt=sq, prior=pj, noise=Rj, return_all=True)
    else:
        S = odef.solver(name)
        call = lambda sq: lambda k, c, x, P, s: S(k, x, jax_poly(c, E), h, N, sqrt=sq, prior=pj, noise=Rj)
    tol = dict(rtol=1e-6, atol=1e-8) if not x32 else dict(rtol=5e-3, atol=5e-3)
    res = {}
    for sq in (False, True):
        out = vm(lambda *a: call(sq)(None, *a), *ext)
        import jax
        ctx.finite(f'finite, sqrt={sq}', out)
        res[sq] = [np.asarray(z, dtype=np.float64) for z in jax.tree_util.tree_leaves(out)]
        ctx.visit(np.concatenate([z.reshape(len(ext[0]), -1) for z in res[sq]], axis=1), f'{sq}{x32}')
        ctx.trans(len(ext[0]) * N)
        ctx.trace(len(ext[0]))
    ctx.true('same structure', [z.shape for z in res[False]] == [z.shape for z in res[True]])
    if alg3:
        names = ['sample', 'mean', 'covariance', 'joint sample', 'joint mean', 'joint covariance', 'innovation covariance', 'residual']
        ctx.true('eight results', len(res[True]) == 8)
    else:
        names = [f'result {i}' for i in range(len(res[True]))]
    for nm, a, b in zip(names, res[False], res[True]):
        if 'covariance' not in nm:
            ctx.eq(f'{nm}: sqrt and covariance forms agree', b, a, **tol)
            continue
        for P, Q in zip(a, b):
            mag = 1.0
            if not x32:
                cov_eq(ctx, f'{nm}: sqrt and covariance forms agree', Q, P, rtol=5e-6, floor=1e-14)
            else:
                ctx.eq(f'{nm}: sqrt and covariance forms agree', Q, P, **tol)
            for V in (P, Q):
                s = np.abs(V).max() + 1e-12
                e = 1e-9 if not x32 else 1e-4
                ctx.true(f'{nm} is symmetric', np.abs(V - V.T).max() <= e * s, got=V)
                ctx.true(f'{nm} is positive semi-definite', np.linalg.eigvalsh((V + V.T) / 2)[0] >= -e * s - (0 if not x32 else 1e-6), got=V)
    # sampling laws
    laws = {}
    smp = (lambda sq: lambda *a: call(sq)(*a)[1][0]) if alg3 else call
    for sq in (False, True):
        first = tuple(e[0] for e in ext)
        _, rec = noise.record(lambda k: smp(sq)(k, *first), case['seed'])
        laws[sq] = affine_laws(smp(sq), rec, ctx, ext, seed=case['seed'], label=f'sample, sqrt={sq}', pairs=False, tol=1e-7 if not x32 else 1e-3)
    for a, b in zip(laws[False], laws[True]):
        if x32:
            ctx.eq('sampling laws agree: mean', b.mean, a.mean, **tol)
            ctx.eq('sampling laws agree: covariance', b.cov, a.cov, **tol)
        else:
            ctx.eq('sampling laws agree: mean', b.mean, a.mean, **tol)
            cov_eq(ctx, 'sampling laws agree: covariance', b.cov, a.cov, rtol=5e-6, floor=1e-13, mag=1 + np.abs(a.mean).max())
    ctx.sample(sqrt=res[True][0][-1], cov=res[False][0][-1])
