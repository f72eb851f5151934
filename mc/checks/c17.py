"""C17: the diagonal 1.5 scheme.  The pair (eta, zeta) of every step is read off two runs with trivial fields, its law is
checked exactly, and every other run with that noise must be the Ito-Taylor scheme driven by those pairs."""
import numpy as np

from mc import noise
from mc.lib import GH3, Poly, affine, basis_rows, coefs, flat, jax_poly, monos, product_nodes

BOUNDS = dict(quick='d <= 3, N <= 3, h in {.1, .5, 1}; drifts: every monomial entry of degree <= 3 (d <= 2), diffusions: every monomial of degree <= 3 '
                    'of the own component, with generic partners; generic fields up to d = 6, N = 25; noise: 3^n (n <= 4), basis, doubles and pairs',
              thorough='N <= 5, 4 step sizes, more generic fields, 3^n (n <= 6)')
ASSUMPTIONS = ['diagonal noise in the sense of Kloeden and Platen: sigma_kk depends on x_k only']


def cases(tier):
    q = tier == 'quick'
    out = []
    for d in (1, 2, 3):
        for N in ((1, 2, 3) if q else (1, 2, 3, 5)):
            for h in ([[0.1, 0.5, 1.0][(d + N) % 3]] if q else [0.1, 0.5, 1.0, 0.01]):
                if d == 3 and N > 2:
                    continue
                out.append(dict(d=d, N=N, h=h, full=4 if q else 6, gen=3 if q else 8))
    for d, N, h in ((4, 1, 0.2), (6, 1, 0.1), (2, 12, 0.05), (1, 25, 0.02)):
        out.append(dict(d=d, N=N, h=h, full=0, gen=6, generic=True))
    return out


def ito_taylor(x, a, b, h, eta, zeta):
    """One step of the strong order 1.5 Ito-Taylor scheme for diagonal noise; a: Poly (d,), b: list of 1-d Polys."""
    d = len(x)
    A, Ja, Ha = a(x), a.jac(x), a.hess(x)
    B = np.array([b[k]([x[k]]) for k in range(d)])
    B1 = np.array([b[k].jac([x[k]])[0] for k in range(d)])
    B2 = np.array([b[k].hess([x[k]])[0, 0] for k in range(d)])
    out = np.empty(d)
    for k in range(d):
        L0a = sum(A[i] * Ja[k, i] + 0.5 * B[i] ** 2 * Ha[k, i, i] for i in range(d))
        L0b = A[k] * B1[k] + 0.5 * B[k] ** 2 * B2[k]
        Lb = B[k] * B1[k]
        LLb = B[k] * (B1[k] ** 2 + B[k] * B2[k])
        La = [B[j] * Ja[k, j] for j in range(d)]
        out[k] = (x[k] + A[k] * h + B[k] * eta[k] + 0.5 * Lb * (eta[k] ** 2 - h) + sum(La[j] * zeta[j] for j in range(d))
                  + L0b * (eta[k] * h - zeta[k]) + 0.5 * L0a * h ** 2 + 0.5 * LLb * (eta[k] ** 2 / 3 - h) * eta[k])
    return out


def run(case, ctx):
    import jax.numpy as jnp
    from bayesian_sde_solver.sde_solvers import diag_15_scheme
    d, N, h = case['d'], case['N'], case['h']
    S = diag_15_scheme
    zero = lambda x: jnp.zeros(d)
    ident = lambda x: x
    eye = lambda x: jnp.eye(d)
    A = lambda k: S(k, jnp.zeros(d), zero, eye, h, N)
    B = lambda k: S(k, jnp.zeros(d), ident, eye, h, N)
    out, rec = noise.record(A, case['seed'])
    _, recB = noise.record(B, case['seed'])
    same = sorted((x.node, x.n) for x in rec.draws) == sorted((x.node, x.n) for x in recB.draws)
    if not ctx.true('the noise drawn does not depend on the problem', same):
        return
    n = rec.n_vars

    def pairs(Z):
        tA, XA = noise.run(A, rec, Z, seed=case['seed'])
        _, XB = noise.run(B, rec, Z, seed=case['seed'])
        eta = np.diff(XA, axis=1)
        zeta = XB[:, 1:] - (1 + h + h ** 2 / 2) * XB[:, :-1] - eta
        return eta, zeta, tA

    Zb = basis_rows(n, pairs=n <= 24)
    eta, zeta, ts = pairs(Zb)
    F = np.concatenate([eta.reshape(len(Zb), -1) / h ** 0.5, zeta.reshape(len(Zb), -1) / h ** 1.5], axis=1)
    law, r = affine(F, n, pairs=n <= 24)
    ctx.true('(eta, zeta) is affine in the Gaussian noise', r < 1e-8, residual=float(r))
    I = np.eye(N * d)
    ctx.eq('law of (eta, zeta): mean', law.mean, np.zeros(2 * N * d))
    ctx.eq('law of (eta, zeta): covariance', law.cov, np.block([[I, I / 2], [I / 2, I / 3]]), atol=1e-8)
    ctx.eq('time grid', ts, np.tile(np.arange(N + 1) * h, (len(Zb), 1)))
    # fields
    Ea, Eb = monos(d, 3 if d < 3 else 2), monos(1, 3)
    Ka, Kb = len(Ea), len(Eb)
    prob = []
    ga, gb = coefs((d, Ka), 1, -0.4, 0.4), coefs((d, Kb), 2, -0.5, 0.5)
    generic = case.get('generic', False)
    for i in range(0 if generic else d):
        for k in range(Ka):
            c = np.zeros((d, Ka))
            c[i, k] = 0.7
            prob.append((c, gb))
    for i in range(0 if generic else d):
        for k in range(Kb):
            c = np.zeros((d, Kb))
            c[:, 0] = 0.3
            c[i] = 0
            c[i, k] = 0.6
            prob.append((ga, c))
    prob += [(ga, 0 * gb), (0 * ga, gb)]
    prob += [(coefs((d, Ka), 10 + s, -0.4, 0.4), coefs((d, Kb), 20 + s, -0.5, 0.5)) for s in range(case['gen'])]
    Ca, Cb = np.array([p[0] for p in prob]), np.array([p[1] for p in prob])
    x0 = coefs((d,), 3)
    Z = product_nodes(n, *GH3)[0] if n <= case['full'] else basis_rows(n, pairs=n <= 8)
    eta, zeta, _ = pairs(Z)
    mb = [jax_poly(jnp.eye(Kb), Eb)] * d
    P, R = len(prob), len(Z)

    def fn(key, ca, cb):
        drift = lambda x: jax_poly(ca, Ea)(x, 0.0)
        sigma = lambda x: jnp.diag(jnp.stack([jax_poly(cb[k], Eb)(x[k:k + 1], 0.0) for k in range(d)]))
        return S(key, jnp.asarray(x0), drift, sigma, h, N)

    pi, ri = np.repeat(np.arange(P), R), np.tile(np.arange(R), P)
    ts, X = noise.run(fn, rec, Z[ri], seed=case['seed'], extra=(Ca[pi], Cb[pi]), in_axes=(0, 0))
    ctx.eq('initial state', X[:, 0], np.tile(x0, (len(pi), 1)))
    want, ok = np.zeros((len(pi), N, d)), np.ones((len(pi), N), dtype=bool)
    for q in range(len(pi)):
        a = Poly(Ca[pi[q]], Ea)
        b = [Poly(Cb[pi[q], k], Eb) for k in range(d)]
        for k in range(N):
            x = X[q, k]
            if np.abs(x).max() > 30 or not np.isfinite(x).all():
                ok[q, k:] = False
                break
            want[q, k] = ito_taylor(x, a, b, h, eta[ri[q], k], zeta[ri[q], k])
    got = X[:, 1:]
    ctx.true('states are finite', np.isfinite(got[ok]).all())
    ctx.eq('step', np.where(ok[..., None], got, 0), np.where(ok[..., None], want, 0), atol=1e-10, rtol=1e-7)
    ctx.visit(np.concatenate([X[:, :-1].reshape(-1, d)[ok.reshape(-1)], np.repeat(pi, N)[ok.reshape(-1)][:, None]], axis=1))
    ctx.trans(int(ok.sum()))
    ctx.trace(len(pi))
    ctx.sample(path=X[-1])
