"""C28: the ODE integrators, and the SDE solvers without noise, along refinement sequences, against the exact ODE solution.

ode:     one call with N steps of size 1/N, all fields of an alphabet, all priors: error of order q + 1.
restart: N calls with one step each (as in the SDE drivers with one sub-step): error of order two.
spread:  standard deviation returned by the mixture filters started at a point: order q = 1.
zero:    SDE solvers with vanishing diffusion: the path is the ODE solution, of the order of the scheme, whatever the noise."""
import numpy as np
from scipy.integrate import solve_ivp

from mc import noise, odef
from mc.checks.c06 import make
from mc.lib import Poly, coefs, jax_poly, vm

BOUNDS = dict(quick='d <= 2 (3 once): fields = all monomial entries of degree <= 2 (time degree <= 1) and generic ones, 2 states, T = 1; 5 integrators, 11 priors, both forms, '
                    'N in {32, 64, 128} (Euler: up to 256); 12 SDE solvers without noise',
              thorough='d <= 3, N up to 512')
ASSUMPTIONS = ['no observation noise and priors whose increment is zero (otherwise the filter does not target the ODE)',
               'fields whose solution stays below 3 in [0, 1]']
PRI = ['default', 'ibm1s', 'mat1', 'iou1', 'ibm2', 'ibm2s', 'mat2', 'pad2', 'ibm3', 'fac1', 'fac2']
ONE = ['default', 'ibm1s', 'mat1', 'iou1', 'fac1']
ORDER = dict(default=1, ibm1s=1, mat1=1, iou1=1, ibm2=2, ibm2s=2, mat2=2, pad2=1, ibm3=3, fac1=1, fac2=1)
SDES = ['em', 'diag', 'bm-approx-euler', 'bm-brownian-euler', 'bm-fine-euler', 'bm-approx-ekf0', 'bm-approx-ekf1', 'bm-fine-ekf1', 'bm-approx-ekf0_2', 'bm-approx-ekf1_2',
        'bm-approx-ekf0s', 'bm-approx-ekf1s']


def cases(tier):
    q = tier == 'quick'
    out = []
    for d in ((1, 2) if q else (1, 2, 3)):
        Ns = [32, 64, 128] if q else [32, 64, 128, 256, 512]
        out.append(dict(kind='ode', solver='euler', prior='default', sqrt=False, d=d, Ns=[64, 128, 256], gen=4))
        out.append(dict(kind='restart', solver='euler', prior='default', sqrt=False, d=d, Ns=[64, 128, 256], gen=4))
        for name in ('ekf0', 'ekf1', 'ekf0_2', 'ekf1_2'):
            for i, p in enumerate(ONE if name.endswith('_2') else PRI):
                for sq in (False, True):
                    if q and (i + d + sq) % 2 and p not in ('default', 'ibm2'):
                        continue
                    out.append(dict(kind='ode', solver=name, prior=p, sqrt=sq, d=d, Ns=Ns if p != 'ibm3' else [16, 32, 64], gen=4))
                if not name.endswith('_2'):
                    out.append(dict(kind='restart', solver=name, prior=p, sqrt=bool((i + d) % 2), d=d, Ns=Ns, gen=4))
    for name in ('ekf0', 'ekf1'):
        out.append(dict(kind='ode', solver=name, prior='default', sqrt=True, d=3, Ns=[32, 64, 128], gen=4))
    for s in SDES:
        for d in ((2,) if q else (1, 2, 3)):
            out.append(dict(kind='zero', solver=s, d=d, Ns=[16, 32, 64] if q else [16, 32, 64, 128, 256]))
    return out


def run(case, ctx):
    (zero if case['kind'] == 'zero' else ode)(case, ctx)


def problems(d, gen, auto=False):
    """Fields (coefficients), states, solutions at time 1; the same for all integrators."""
    C, E = odef.field_batch(d, gen)
    if auto:
        C = C * np.array([e[-1] == 0 for e in E])
    C, X = odef.product(C, odef.x0_batch(d, 2))
    sol, keep = [], []
    for c, x in zip(C, X):
        f = Poly(c, E)
        s = solve_ivp(lambda t, y: f(y, t), (0, 1), x, rtol=1e-11, atol=1e-12, method='DOP853')
        keep.append(s.success and np.abs(s.y).max() < 3)
        sol.append(s.y[:, -1])
    keep = np.array(keep)
    return C[keep], X[keep], np.array(sol)[keep], E


def judge(ctx, label, errs, Ns, p, const, floor=1e-9):
    """errs: {N: errors per problem}; order p: e <= const / N^p for each, and the largest error decreases with order p."""
    for N in Ns:
        ctx.true(f'{label}: within {const} / N^{p}', bool(np.all(errs[N] <= const / N ** p + floor)), N=N, err=float(np.max(errs[N])), bound=const / N ** p,
                 problem=int(np.argmax(errs[N])))
    a, b = (float(np.max(errs[N])) for N in Ns[-2:])
    ctx.true(f'{label}: order {p}', b <= a * 2 ** -(p - 0.4) or b <= 10 * floor, errs=[float(np.max(errs[N])) for N in Ns])


def ode(case, ctx):
    import jax
    import jax.numpy as jnp
    d, name, p = case['d'], case['solver'], case['prior']
    C, X, want, E = problems(d, case['gen'])
    S = odef.solver(name)
    q = ORDER[p]
    errs, sds = {}, {}
    for N in case['Ns']:
        h = 1.0 / N
        pj = odef.jpr(odef.prior(p, h, d))

        def one(f, x, n):
            if name == 'euler':
                return S(init=x, vector_field=f, h=h, N=n), jnp.zeros((d, d))
            if name.endswith('_2'):
                return S(None, init=(x, x, jnp.zeros((d, d))), vector_field=f, h=h, N=n, sqrt=case['sqrt'], prior=pj)[1:]
            return S(None, init=x, vector_field=f, h=h, N=n, sqrt=case['sqrt'], prior=pj), jnp.zeros((d, d))

        def whole(c, x):
            f = jax_poly(c, E)
            if case['kind'] == 'ode':
                return one(f, x, N)
            return jax.lax.scan(lambda y, t: (one(lambda z, s: f(z, s + t), y, 1)[0], None), x, jnp.arange(N) * h)[0], jnp.zeros((d, d))
        y, P = vm(whole, C, X)
        errs[N] = np.abs(y - want).max(axis=1)
        sds[N] = np.sqrt(np.abs(np.array([np.diag(z) for z in P])).max(axis=1))
        ctx.finite('finite', y)
        ctx.visit(y, str(N))
        ctx.trans(N * len(C))
        ctx.trace(len(C))
    if name == 'euler':
        o, const = 1, 10
    elif case['kind'] == 'ode':
        o, const = q + 1, {2: 700 if 'mat' in p or p == 'fac1' else 60, 3: 300 if p == 'mat2' else 40, 4: 150}[q + 1]
    else:
        o, const = (3, 20) if q >= 3 else (2, 100 if 'mat' in p or 'fac' in p else 20)
    judge(ctx, f'{name} {p}', errs, case['Ns'], o, const)
    if name.endswith('_2'):
        judge(ctx, f'{name} {p}: standard deviation', sds, case['Ns'], 1, 4)
    ctx.sample(errs=[float(errs[N].max()) for N in case['Ns']])


def zero(case, ctx):
    import jax.numpy as jnp
    d, name = case['d'], case['solver']
    C, X, want, E = problems(d, 3, auto=name == 'diag')
    pick = np.unique(np.linspace(0, len(C) - 1, 40).astype(int)) if len(C) > 40 else np.arange(len(C))
    sampled = 'ekf' in name
    errs = {}
    for N in case['Ns']:
        sigma = lambda x, t: jnp.zeros((d, d))

        def fn(key, c, x):
            return make(name, d, N, 1.0 / N, jax_poly(c, E), sigma, d)(key, x)[0][-1]
        _, rec = noise.record(lambda key: fn(key, jnp.asarray(C[0]), jnp.asarray(X[0])), case['seed'])
        # posterior samples depend on the sampling noise: at its origin they are the mean
        Z = np.zeros((1, rec.n_vars)) if sampled else np.concatenate([np.zeros((1, rec.n_vars)), coefs((3, rec.n_vars), 5, -2, 2)])
        y = noise.run(fn, rec, np.tile(Z, (len(pick), 1)), seed=case['seed'], extra=(np.repeat(C[pick], len(Z), 0), np.repeat(X[pick], len(Z), 0)), in_axes=(0, 0))
        y = np.asarray(y).reshape(len(pick), len(Z), d)
        ctx.eq('no diffusion: independent of the noise', y, np.repeat(y[:, :1], len(Z), 1), atol=1e-12)
        ctx.visit(y.reshape(-1, d), str(N))
        ctx.trans(N * len(pick) * len(Z))
        ctx.trace(len(pick) * len(Z))
        errs[N] = np.abs(y[:, 0] - want[pick]).max(axis=1)
    o = 1 if name == 'em' or 'euler' in name else 2
    judge(ctx, name, errs, case['Ns'], o, 10 if o == 1 else 60)
    ctx.sample(errs=[float(errs[N].max()) for N in case['Ns']])
