"""C13: ekf0 / ekf1 without a key against the documented filtering problem, over priors x noises x forms x fields."""
import numpy as np

from mc import odef, ref
from mc.lib import Poly, jax_poly, vm

BOUNDS = dict(quick='d <= 2 (3 once), 15 priors, 4 noises, N <= 3, h in {.3, .1}; fields: every monomial entry of degree <= 2 (time degree <= 1) '
                    'and generic ones, 2 states, both covariance forms; generic fields up to d = 5, N = 40',
              thorough='d <= 3, all priors x noises x N <= 5 x h in {.5, .3, .1, .02}, more fields and states')
ASSUMPTIONS = ['the solver reads a vector field only through value, Jacobian and time derivative, which polynomials of degree 2 realise freely']

PRIORS = ['default', 'ibm1', 'ibm1s', 'ibm2', 'ibm3', 'mat1', 'mat2', 'mat3', 'iou1', 'iou2', 'xi', 'pad2', 'pad3', 'fac1', 'fac2', 'dense1', 'dense2']


def cases(tier):
    q = tier == 'quick'
    out = []
    for d in ((1, 2) if q else (1, 2, 3)):
        for i, p in enumerate(PRIORS):
            for j, nz in enumerate(['none', 'diag', 'dense', 'zero']):
                for N in ((1, 2, 3) if q else (1, 2, 3, 5)):
                    if q and not ((N == 1 + (i + j) % 3 and (nz in ('none', 'dense') or i < 3))):
                        continue
                    if not q and d == 3 and N in (2, 5):
                        continue
                    for h in ([0.3 if (i + N) % 2 else 0.1] if q else [0.5, 0.3, 0.1, 0.02][(i + N) % 2::2]):
                        out.append(dict(d=d, prior=p, noise=nz, N=N, h=h, gen=2 if q else 4, nx=2 if q else 3))
    for d, p, nz, N, h in ((4, 'default', 'dense', 2, 0.1), (5, 'fac1', 'none', 1, 0.3), (1, 'mat2', 'none', 12, 0.05), (2, 'ibm2', 'diag', 25, 0.02),
                           (2, 'default', 'none', 40, 0.02), (3, 'ibm1s', 'dense', 9, 0.05), (1, 'iou2', 'zero', 6, 1e-3)):
        out.append(dict(d=d, prior=p, noise=nz, N=N, h=h, gen=8, nx=2, generic=True))
    if q:
        out.append(dict(d=3, prior='default', noise='none', N=2, h=0.3, gen=1, nx=1))
        out.append(dict(d=3, prior='fac2', noise='dense', N=1, h=0.3, gen=1, nx=1))
    return out


def run(case, ctx):
    import jax.numpy as jnp
    d, N, h = case['d'], case['N'], case['h']
    C, E = odef.field_batch(d, case['gen'], generic=case.get('generic', False))
    C, X = odef.product(C, odef.x0_batch(d, case['nx']))
    pr, R = odef.prior(case['prior'], h, d), odef.noise_matrix(case['noise'], d)
    pj, Rj = odef.jpr(pr), None if R is None else jnp.asarray(R)
    fs = [Poly(c, E) for c in C]
    for order1, name in ((False, 'ekf0'), (True, 'ekf1')):
        S = odef.solver(name)
        keep = np.array([odef.stable_alg2(f, x, h, N, order1, pr, R) for f, x in zip(fs, X)])
        ctx.counts['unstable_models_skipped'] = ctx.counts.get('unstable_models_skipped', 0) + int((~keep).sum())
        if not keep.any():
            continue
        want = []
        for f, x, k in zip(fs, X, keep):
            if k:
                (m, P, _, _, hist), n = ref.alg2(f, x, h, N, order1, pr, R)
                want.append(m[::n])
                for mm, PP in hist:
                    ctx.visit(np.r_[mm, PP.ravel()][None], name)
        for sqrt in (False, True):
            got = vm(lambda c, x: S(None, x, jax_poly(c, E), h, N, sqrt=sqrt, prior=pj, noise=Rj), C[keep], X[keep])
            ctx.eq(f'{name} sqrt={sqrt}', got, np.array(want), atol=1e-8, rtol=1e-6)
        ctx.trans(int(keep.sum()) * N * 2)
        ctx.trace(int(keep.sum()) * 2)
        ctx.sample(mean=got[-1])
    if case['prior'] == 'default' and case['noise'] == 'none':   # default arguments, keyword form
        for order1, name in ((False, 'ekf0'), (True, 'ekf1')):
            S = odef.solver(name)
            got = np.asarray(S(key=None, init=jnp.asarray(X[-1]), vector_field=jax_poly(jnp.asarray(C[-1]), E), h=h, N=N))
            (m, *_), n = ref.alg2(fs[-1], X[-1], h, N, order1)
            ctx.eq(f'{name} with default arguments', got, m[::n], atol=1e-8, rtol=1e-6)
