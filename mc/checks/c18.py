"""C18: the hypoelliptic 1.5 scheme, as a Gaussian kernel: one-step laws for many fields, and the conditional law of every
later step at every reached state."""
import numpy as np

from mc import noise
from mc.checks.c16 import conditional_kernel
from mc.lib import Poly, affine_laws, coefs, cov_eq, jax_poly, monos

BOUNDS = dict(quick='d = 2, 3; h in {.1, .5, .01}; fields: every monomial of degree <= 2-3 added to a hypoelliptic base, diffusions: every entry of degree <= 1; '
                    'generic ones up to d = 6; N <= 3 (9 once) with 7 noise histories per step, basis, doubles and pairs within a step',
              thorough='d <= 4, N <= 5, 5 step sizes')
ASSUMPTIONS = ['hypoelliptic problems: the gradient of the first drift component does not vanish and the noise block is regular']


def cases(tier):
    q = tier == 'quick'
    out = []
    for d in ((2, 3) if q else (2, 3, 4)):
        for h in ((0.1, 0.5, 0.01) if q else (0.1, 0.5, 0.01, 1.0, 1e-3)):
            out.append(dict(kind='one', d=d, h=h, N=1))
    for d in ((2, 3) if q else (2, 3, 4)):
        for N in ((2, 3) if q else (2, 3, 5)):
            for s in ((0, 1) if q else (0, 1, 2, 3)):
                out.append(dict(kind='kernel', d=d, h=[0.25, 0.123456789][s % 2], N=N, salt=s))
    out += [dict(kind='one', d=d, h=0.2, N=1, generic=True) for d in (4, 6)]
    out += [dict(kind='kernel', d=2, h=0.05, N=9, salt=1), dict(kind='kernel', d=5, h=0.1, N=2, salt=0)]
    return out


def model(x, a, s, h):
    A, J, H, G = a(x), a.jac(x), a.hess(x), s(x)
    SS = G @ G.T
    mean = x + h * A + h ** 2 / 2 * J @ A + h ** 2 / 4 * np.einsum('kij,ij->k', H, SS)
    g, GG = J[0, 1:], SS[1:, 1:]
    cov = np.zeros((len(x), len(x)))
    cov[0, 0] = h ** 3 / 3 * g @ GG @ g
    cov[0, 1:] = cov[1:, 0] = h ** 2 / 2 * GG @ g
    cov[1:, 1:] = h * GG
    return mean, cov


def base(d, Ea, Es, salt):
    """A hypoelliptic problem: gradient of the first component and noise block bounded away from degeneracy."""
    c = 0.3 * coefs((d, len(Ea)), salt)
    for i in range(1, d):
        e = [0] * (d + 1)
        e[i] = 1
        c[0, Ea.index(tuple(e))] = 1.5 - 0.4 * i
    s = 0.1 * coefs((d, d, len(Es)), salt + 5)
    s[0] = 0
    k0 = Es.index((0,) * (d + 1))
    for i in range(1, d):
        s[i, i, k0] += 0.8 + 0.1 * i
    return c, s


def run(case, ctx):
    import jax.numpy as jnp
    from bayesian_sde_solver.sde_solvers import hypoelliptic_diffusion_15_scheme as S
    d, h, N = case['d'], case['h'], case['N']
    Ea, Es = monos(d, 3 if d == 2 else 2), monos(d, 1)
    if case['kind'] == 'kernel':
        c, s = base(d, Ea, Es, 30 + 7 * case['salt'])
        x0 = 0.5 * coefs((d,), 3 + case['salt'])
        fn = lambda k: S(k, jnp.asarray(x0), lambda x: jax_poly(jnp.asarray(c), Ea)(x, 0.0), lambda x: jax_poly(jnp.asarray(s), Es)(x, 0.0), h, N)
        (ts, _), rec = noise.record(fn, case['seed'])
        ctx.eq('time grid', ts, np.arange(N + 1) * h)
        a, b = Poly(c, Ea), Poly(s, Es)
        return conditional_kernel(fn, rec, ctx, case, x0, N, d, lambda x, k: model(x, a, b, h), 1e-7)
    prob = []
    c0, s0 = base(d, Ea, Es, 30)
    generic = case.get('generic', False)
    for i in range(0 if generic else d):
        for k in range(len(Ea)):
            c = c0.copy()
            c[i, k] += 0.5
            prob.append((c, s0))
    for i in range(1, 1 if generic else d):
        for j in range(d):
            for k in range(len(Es)):
                s = s0.copy()
                s[i, j, k] += 0.3
                prob.append((c0, s))
    prob += [base(d, Ea, Es, 40 + i) for i in range(6)]
    X = np.array([0.7 * coefs((d,), 50 + i % 3) for i in range(len(prob))])
    keep = []
    for (c, s), x in zip(prob, X):
        m, V = model(x, Poly(c, Ea), Poly(s, Es), h)
        D = np.r_[h ** 1.5, np.full(d - 1, h ** 0.5)]
        keep.append(np.linalg.eigvalsh(V / np.outer(D, D))[0] > 1e-3)
    keep = np.array(keep)
    ctx.counts['degenerate_problems_skipped'] = int((~keep).sum())
    Ca = np.array([p[0] for p in prob])[keep]
    Cs = np.array([p[1] for p in prob])[keep]
    X = X[keep]
    fn = lambda k, c, s, x: S(k, x, lambda y: jax_poly(c, Ea)(y, 0.0), lambda y: jax_poly(s, Es)(y, 0.0), h, 1)[1]
    _, rec = noise.record(lambda k: fn(k, Ca[0], Cs[0], X[0]), case['seed'])
    laws = affine_laws(fn, rec, ctx, (Ca, Cs, X), seed=case['seed'], label='step')
    for law, c, s, x in zip(laws, Ca, Cs, X):
        m, V = model(x, Poly(c, Ea), Poly(s, Es), h)
        ctx.eq('initial state', law.mean[:d], x)
        ctx.eq('conditional mean', law.mean[d:], m)
        cov_eq(ctx, 'conditional covariance', law.cov[d:, d:], V, rtol=1e-6, floor=1e-15)
        ctx.trace(1)
    ctx.sample(mean=laws[-1].mean, cov=laws[-1].cov)
