"""C01: Ito/Stratonovich conversion.  The correction is a quadratic form in the diffusion: it is decided on
the diffusions spanned by all pairs of monomial entries, for all conversion words up to a bounded length."""
import itertools

import numpy as np

from mc.lib import jax_poly, monos, vm, coefs

BOUNDS = dict(quick='d, m <= 3 (d*m <= 6), entries of degree <= 2 in x and <= 1 in t, words of length <= 3, 3 points; generic fields up to d = m = 7, |x| <= 1000, t <= 250',
              thorough='d, m <= 3, degree <= 3 in x and <= 2 in t, words of length <= 4, 5 points')
ASSUMPTIONS = ['diffusions outside the polynomial span enter the correction only through value and Jacobian at a point']


def cases(tier):
    dm = [(1, 1), (1, 2), (2, 1), (2, 2), (1, 3), (3, 1), (2, 3), (3, 2)]
    if tier == 'thorough':
        dm.append((3, 3))
    out = []
    for d, m in dm:
        big = d * m >= 6
        out.append(dict(kind='pairs', d=d, m=m, deg=2 if tier == 'thorough' or not big else 2,
                        tdeg=1, words=3 if tier == 'quick' else 4, points=3 if tier == 'quick' else 5))
        if tier == 'thorough' and not big:
            out.append(dict(kind='pairs', d=d, m=m, deg=3, tdeg=2, words=3, points=4))
    out += [dict(kind='forms', d=d, m=m) for d, m in [(1, 1), (2, 2), (2, 1), (1, 2)]]
    out += [dict(kind='large', d=d, m=m) for d, m in [(4, 4), (6, 2), (2, 6), (5, 1), (7, 7)]]
    return out


def words(n):
    return [''.join(w) for k in range(1, n + 1) for w in itertools.product('SI', repeat=k)]


POINTS = np.array([[0.7, -1.3, 0.45, 0.3], [0.0, 0.0, 0.0, 0.0], [-0.6, 0.9, 1.7, 2.0], [1.0, 1.0, 1.0, 1.0], [-1.1, 0.2, -0.4, 0.25]])


def build(word, drift, sigma):
    from bayesian_sde_solver.ito_stratonovich import to_ito, to_stratonovich
    for c in word:
        drift, sigma = (to_stratonovich if c == 'S' else to_ito)(drift, sigma)
    return drift, sigma


def run(case, ctx):
    import jax.numpy as jnp
    d, m = case['d'], case['m']
    if case['kind'] == 'forms':
        return forms(case, ctx, d, m)
    if case['kind'] == 'large':
        return large(case, ctx, d, m)
    E = monos(d, case['deg'], case['tdeg'])
    K = len(E)
    W = words(case['words'])
    nb = d * m * K
    idx = [(i,) for i in range(nb)] + [(i, j) for i in range(nb) for j in range(i)]
    limit = 20000
    blocks = [idx[s:s + limit] for s in range(0, len(idx), limit)]
    dE = monos(d, 1, 1)
    for pt in POINTS[:case['points']]:
        x, t = pt[:d], pt[3]
        # monomials and derivatives at the point, in NumPy
        from mc.lib import Poly
        P = Poly(np.eye(K), E)
        mv, dm_ = P(x, t), P.jac(x, t)                     # (K,), (K, d)
        for blk in blocks:
            n = len(blk)
            S = np.zeros((n, nb))
            for r, ij in enumerate(blk):
                S[r, list(ij)] = 1.0
            S = S.reshape(n, d, m, K)
            D = np.tile(coefs((d, len(dE)), 3), (n, 1, 1)) * (1 + (np.arange(n) % 7)[:, None, None])

            def fn(S, D):
                sigma = jax_poly(S, E)
                drift = jax_poly(D, dE)
                res, sig = [], []
                for w in W:
                    nd, ns = build(w, drift, sigma)
                    res.append(nd(jnp.asarray(x), t))
                    sig.append(ns(jnp.asarray(x), t))
                return jnp.stack(res), jnp.stack(sig)

            got, gsig = vm(fn, S, D)
            val = S @ mv                                   # (n, d, m)
            jac = np.einsum('nikK,Kj->nikj', S, dm_)       # d sigma_ik / d x_j
            corr = np.einsum('njk,nikj->ni', val, jac)
            dv = D @ Poly(np.eye(len(dE)), dE)(x, t)
            for a, w in enumerate(W):
                net = w.count('I') - w.count('S')
                ctx.eq(f'drift after {w}', got[:, a], dv + 0.5 * net * corr)
                ctx.eq(f'diffusion after {w}', gsig[:, a], val)
            ctx.visit(np.concatenate([got.reshape(n, -1), val.reshape(n, -1)], axis=1), f'{d}{m}{pt[3]}')
            ctx.trans(n * len(W))
            ctx.trace(n)
            ctx.sample(correction=corr[-1], drift=got[-1, 0])


def large(case, ctx, d, m):
    """Higher dimensions, generic quadratic fields, states and times of all sizes and signs, longer words."""
    import jax.numpy as jnp
    A, B, Q, D = coefs((d, m), 21), coefs((d, m, d), 22), coefs((d, m, d, d), 23), coefs((d, d), 24)
    s = lambda x, t: A + (B @ x) * (1 + t) + Q @ x @ x
    f = lambda x, t: D @ x * jnp.cos(t) + x * x
    rs, rf = lambda x, t: np.asarray(s(x, t)), lambda x, t: D @ x * np.cos(t) + x * x
    rjac = lambda x, t: B * (1 + t) + np.einsum('ikab,b->ika', Q, x) + np.einsum('ikab,a->ikb', Q, x)
    X = np.array([c * coefs((d,), 23 + i) for i, c in enumerate((0.01, 1.0, 30.0, 1000.0, -5.0))])
    T = np.array([0.0, -0.7, 12.0, 0.3, 250.0])
    W = words(2) + ['SSS', 'IIII', 'SISISI', 'SSII']
    fn = lambda x, t: tuple((lambda p: (p[0](x, t), p[1](x, t)))(build(w, f, s)) for w in W)
    got = vm(fn, X, T)
    for r, (x, t) in enumerate(zip(X, T)):
        v = rs(x, t)
        corr = np.einsum('jk,ikj->i', v, rjac(x, t))
        for (g, gs), w in zip(got, W):
            net = w.count('I') - w.count('S')
            want = rf(x, t) + 0.5 * net * corr
            ctx.eq(f'drift after {w}', g[r], want, rtol=1e-9, atol=1e-9 * (1 + np.abs(corr).max() / (1 + np.abs(want).max())))
            ctx.eq(f'diffusion after {w}', gs[r], v, rtol=1e-10)
    ctx.visit(np.concatenate([X, T[:, None]], axis=1), 'large')
    ctx.trans(len(X) * len(W))
    ctx.trace(len(X))


def forms(case, ctx, d, m):
    """Non-polynomial and constant diffusions, uncompiled calls, NumPy arguments."""
    import jax.numpy as jnp
    A, B = coefs((d, m), 1), coefs((d, m, d), 2)
    lib = {
        'constant': (lambda x, t: jnp.asarray(A), lambda x, t: (A, np.zeros((d, m, d)))),
        'time': (lambda x, t: jnp.asarray(A) * (1 + t), lambda x, t: (A * (1 + t), np.zeros((d, m, d)))),
        'sin': (lambda x, t: jnp.sin(jnp.asarray(B) @ x + t),
                lambda x, t: (np.sin(B @ x + t), np.cos(B @ x + t)[..., None] * B)),
        'exp': (lambda x, t: jnp.exp(jnp.asarray(B) @ x * t),
                lambda x, t: (np.exp(B @ x * t), np.exp(B @ x * t)[..., None] * B * t)),
    }
    for name, (sig, ref) in lib.items():
        drift = lambda x, t: jnp.cos(x) * (t + 2.0)
        for pt in POINTS:
            x, t = pt[:d], float(pt[3])
            v, J = ref(x, t)
            corr = np.einsum('jk,ikj->i', v, J)
            for w in words(3):
                nd, ns = build(w, drift, sig)
                net = w.count('I') - w.count('S')
                g = np.asarray(nd(x, t))
                ctx.eq(f'{name}: drift after {w}', g, np.cos(x) * (t + 2.0) + 0.5 * net * corr)
                ctx.eq(f'{name}: diffusion after {w}', np.asarray(ns(x, t)), v)
                ctx.visit(g[None], name)
                ctx.trans(1)
                ctx.trace(1)
