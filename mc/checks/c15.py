"""C15: the law of posterior samples, exactly, from the image of a basis of the noise space."""
import numpy as np

from mc import noise, odef, ref
from mc.checks import c14
from mc.lib import Poly, affine_laws, coefs, cov_eq, jax_poly, vm

BOUNDS = dict(quick='4 ODE filters and 2 marginalised filters, d <= 2, priors x noises x N <= 3 (thinned), both forms (generic: d <= 4, N <= 15); noise: basis, doubles, all pairs',
              thorough='d <= 3, full product of priors, noises, N <= 3, two step sizes')
ASSUMPTIONS = ['jax.random.normal turns independent uniform bits into independent standard normals']
ALG2 = ['default', 'ibm1s', 'ibm2', 'ibm3', 'mat2', 'xi', 'pad2', 'fac2', 'dense1', 'dense2']
ALG3 = ['default', 'ibm1s', 'mat1', 'xi', 'fac1', 'dense1']
ALG4 = ['default', 'ibm1s', 'mat1', 'xi']


def cases(tier):
    q = tier == 'quick'
    out = []
    for d in ((1, 2) if q else (1, 2, 3)):
        for s, ps in (('ekf0', ALG2), ('ekf1', ALG2), ('ekf0_2', ALG3), ('ekf1_2', ALG3), ('ekf0_marginal_parabola', ALG4), ('ekf1_marginal_parabola', ALG4)):
            for i, p in enumerate(ps):
                for j, nz in enumerate(['none', 'dense', 'diag']):
                    for N in (1, 2, 3):
                        for sqrt in (False, True):
                            t = i + j + N + int(sqrt) + d
                            if q and not (t % 6 == (0 if s[3] == '0' else 3)):
                                continue
                            if not q and d == 3 and t % 2:
                                continue
                            for h in ((0.3,) if q else (0.3, 0.05)):
                                out.append(dict(solver=s, d=d, prior=p, noise=nz, N=N, sqrt=sqrt, h=h))
    for d, p, nz, N, h in ((4, 'default', 'dense', 2, 0.2), (1, 'mat1', 'none', 15, 0.05), (3, 'default', 'none', 1, 0.3)):
        for i, s in enumerate(('ekf0', 'ekf1', 'ekf0_2', 'ekf1_2', 'ekf0_marginal_parabola', 'ekf1_marginal_parabola')):
            out.append(dict(solver=s, d=d, prior=p, noise=nz, N=N, sqrt=bool((i + i // 2 + d) % 2), h=h, generic=True))
    return out


def run(case, ctx):
    import jax.numpy as jnp
    d, N, h, sqrt, name = (case[k] for k in ('d', 'N', 'h', 'sqrt', 'solver'))
    order1 = name.startswith('ekf1')
    marg = name.endswith('parabola')
    pr = odef.prior(case['prior'], h, 1 if marg else d)
    R = odef.noise_matrix(case['noise'], d)
    pj, Rj = odef.jpr(pr), None if R is None else jnp.asarray(R)
    C, E = odef.field_batch(d, 5 if case.get('generic') else 3, generic=case.get('generic', False))
    C = C[-5:]
    X = odef.x0_batch(d, len(C))
    delta = N * h
    alg3 = name.endswith('_2')
    Ps = np.array([c14.covs(d)[i % 3] for i in range(len(C))])
    from mc.checks.c16 import diffusion_batch
    D, ED = diffusion_batch(d, len(C))
    extra = (C, X, Ps, D)
    if marg:
        import bayesian_sde_solver.ssm_parabola as sp
        S = getattr(sp, name)
        call = lambda k, c, x, P, s: S(k, x, delta, jax_poly(c, E), jax_poly(s, ED), h, N, sqrt=sqrt, prior=pj, noise=Rj)
    elif alg3:
        S = odef.solver(name)
        call = lambda k, c, x, P, s: S(k, (x, x, P), jax_poly(c, E), h, N, sqrt=sqrt, prior=pj, noise=Rj, return_all=True)[1][0]
    else:
        S = odef.solver(name)
        call = lambda k, c, x, P, s: S(k, x, jax_poly(c, E), h, N, sqrt=sqrt, prior=pj, noise=Rj)
    want, keep = [], []
    for c, x, P, s in zip(*extra):
        f = Poly(c, E)
        if marg:
            m, V, S_, _, hist = ref.alg4(f, Poly(s, ED), x, delta, h, N, order1, pr, R)
            ii = np.concatenate([np.arange(d) * 4, np.arange(d) * 4 + 2, np.arange(d) * 4 + 3])
            m, V = m[ii], V[np.ix_(ii, ii)]
        elif alg3:
            m, V, S_, _, hist = ref.alg3(f, x, P, h, N, order1, pr, R)
        else:
            (m, V, S_, _, hist), n = ref.alg2(f, x, h, N, order1, pr, R)
            m, V = m[::n], V[::n, ::n]
        want.append((m, V))
        keep.append(np.abs(np.concatenate([a[0] for a in hist])).max() < 50 and np.linalg.eigvalsh(S_)[0] > 1e-7)
    keep = np.array(keep)
    ctx.counts['unstable_models_skipped'] = int((~keep).sum())
    extra = tuple(e[keep] for e in extra)
    want = [w for w, k in zip(want, keep) if k]
    if not want:
        return
    first = tuple(e[0] for e in extra)
    _, rec = noise.record(lambda k: call(k, *first), case['seed'])
    laws = affine_laws(call, rec, ctx, extra, seed=case['seed'], label=name)
    nokey = vm(lambda *a: call(None, *a), *extra)
    nokey = np.concatenate([np.asarray(z) for z in nokey], axis=1) if marg else nokey
    for i, (law, (m, V)) in enumerate(zip(laws, want)):
        ctx.eq('mean of the law', law.mean, m, atol=1e-7)
        ctx.eq('mean of the law = result without a key', law.mean, nokey[i], atol=1e-8)
        cov_eq(ctx, 'covariance of the law', law.cov, V, mag=1 + np.abs(m).max())
        ctx.trace(1)
    ctx.sample(mean=laws[-1].mean, cov=laws[-1].cov)
