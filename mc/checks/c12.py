"""C12: block structure of priors and states, on unit bases and menus of priors, and on uncoupled systems."""
import itertools

import numpy as np
import scipy.linalg as sl

from mc import odef, ref
from mc.lib import coefs, jax_poly, monos, vm

BOUNDS = dict(quick='all unit vectors/matrices up to dimension 4 and 4 vectors; all tuples of <= 3 priors from a menu of 5; all uncoupled systems of 2 components over 4 priors x 4 fields, both filters and forms',
              thorough='dimension 6; tuples of <= 4 priors; uncoupled systems of 3 components')


def cases(tier):
    q = tier == 'quick'
    out = [dict(kind='interlace', dims=4 if q else 6, k=4 if q else 5), dict(kind='matrix', dims=3 if q else 5), dict(kind='pad', top=4 if q else 6),
           dict(kind='factor', n=3 if q else 4)]
    for order in (0, 1):
        for sqrt in (False, True):
            for i in range(4):
                out.append(dict(kind='uncoupled', d=2, order=order, sqrt=sqrt, first=i, N=1 + (i + order) % 2, noise=bool((i + sqrt) % 2)))
                if not q:
                    out.append(dict(kind='uncoupled', d=3, order=order, sqrt=sqrt, first=i, N=2, noise=bool((i + sqrt) % 2)))
    return out


def run(case, ctx):
    return globals()[case['kind']](case, ctx)


def interlace(case, ctx):
    import jax
    import jax.numpy as jnp
    from bayesian_sde_solver.ode_solvers.probnum import interlace as il
    for d in range(1, case['dims'] + 1):
        for k in range(1, case['k'] + 1):
            for vals in list(np.eye(k * d)) + [np.arange(1.0, k * d + 1), coefs((k * d,), 1)]:
                v = vals.reshape(k, d)
                for mk in (tuple, list):
                    got = np.asarray(il(mk(jnp.asarray(x) for x in v)))
                    want = np.array([v[j, i] for i in range(d) for j in range(k)])
                    ctx.eq(f'interlace {k} vectors of length {d}', got, want, rtol=0, atol=0)
                    ctx.visit(got[None], f'{d}')
                    ctx.trans(1)
                ctx.trace(1)


def matrix(case, ctx):
    from bayesian_sde_solver.ode_solvers.probnum import interlace as il, interlace_matrix as im
    import jax.numpy as jnp
    for d in range(1, case['dims'] + 1):
        mats = list(np.eye(4 * d * d)) + [np.arange(1.0, 4 * d * d + 1), coefs((4 * d * d,), 2)]
        for vals in mats:
            v, w, x, y = vals.reshape(4, d, d)
            got = np.asarray(im(*(jnp.asarray(z) for z in (v, w, x, y))))
            want = np.zeros((2 * d, 2 * d))
            for i in range(d):
                for j in range(d):
                    want[2 * i, 2 * j], want[2 * i, 2 * j + 1] = v[i, j], w[i, j]
                    want[2 * i + 1, 2 * j], want[2 * i + 1, 2 * j + 1] = x[i, j], y[i, j]
            ctx.eq(f'interlaced blocks d={d}', got, want, rtol=0, atol=0)
            ctx.visit(got[None], f'{d}')
            ctx.trans(1)
            ctx.trace(1)
        # consistent with interlacing the vectors: cov of (a, b)
        L = coefs((2 * d, 2 * d), 5)
        V = L @ L.T
        P = np.asarray(im(V[:d, :d], V[:d, d:], V[d:, :d], V[d:, d:]))
        rows = np.array([np.asarray(il((jnp.asarray(c[:d]), jnp.asarray(c[d:])))) for c in L.T])
        ctx.eq('covariance of the interlaced vector', P, rows.T @ rows)


def menu(h):
    return [ref.ibm(1, 0.7, h), ref.matern(1, 1.3, 0.8, h), odef.dense_prior(2, 3), odef.dense_prior(3, 4), ref.ibm(2, 1.0, h), odef.dense_prior(1, 9)]


def pad(case, ctx):
    import jax.numpy as jnp
    from bayesian_sde_solver.ode_solvers.probnum import pad_prior
    for pr in menu(0.3):
        n = len(pr[0])
        basis = [pr] + [(e, np.zeros((n, n)), np.zeros((n, n))) for e in np.eye(n)]
        for i, j in itertools.product(range(n), repeat=2):
            E = np.zeros((n, n))
            E[i, j] = 1.0
            basis += [(np.zeros(n), E, np.zeros((n, n))), (np.zeros(n), np.zeros((n, n)), E)]
        for b in basis:
            for q in range(n, case['top'] + 1):           # order q has q + 1 states
                xi, Q, A = [np.asarray(z) for z in pad_prior(tuple(jnp.asarray(z) for z in b), q)]
                wx, wQ, wA = np.zeros(q + 1), np.zeros((q + 1, q + 1)), np.zeros((q + 1, q + 1))
                wx[:n], wQ[:n, :n], wA[:n, :n] = b
                for nm, g, w in (('increment', xi, wx), ('covariance', Q, wQ), ('matrix', A, wA)):
                    ctx.eq(f'padded {nm} {n}->{q + 1}', g, w, rtol=0, atol=0)
                ctx.visit(np.r_[xi, Q.ravel(), A.ravel()][None], 'pad')
                ctx.trans(1)
            ctx.trace(1)


def factor(case, ctx):
    import jax.numpy as jnp
    from bayesian_sde_solver.ode_solvers.probnum import get_independently_factorized_prior as gf
    M = menu(0.3)
    for n in range(1, case['n'] + 1):
        for tup in itertools.product(range(len(M)), repeat=n):
            ps = [M[i] for i in tup]
            for mk in (tuple, list):
                xi, Q, A = [np.asarray(z) for z in gf(mk(tuple(jnp.asarray(z) for z in p) for p in ps))]
                ctx.eq('increment', xi, np.concatenate([p[0] for p in ps]), rtol=0, atol=0)
                ctx.eq('covariance', Q, sl.block_diag(*[p[1] for p in ps]), rtol=0, atol=0)
                ctx.eq('matrix', A, sl.block_diag(*[p[2] for p in ps]), rtol=0, atol=0)
                ctx.trans(1)
                if n == 3:
                    break
            ctx.visit(np.r_[xi, Q.ravel(), A.ravel()][None], 'factor')
            ctx.trace(1)


def uncoupled(case, ctx):
    """Solving an uncoupled system with the combined prior = solving the components with their own priors."""
    import jax.numpy as jnp
    from bayesian_sde_solver.ode_solvers import ekf0, ekf1
    from bayesian_sde_solver.ode_solvers.probnum import get_independently_factorized_prior as gf, pad_prior
    d, N, h, sqrt = case['d'], case['N'], 0.3, case['sqrt']
    S = ekf1 if case['order'] else ekf0
    E = monos(1, 2, 1)
    fields = [coefs((1, len(E)), 20 + i, -0.7, 0.7) for i in range(4)]
    two = [ref.ibm(1, 0.7, h), ref.matern(1, 1.3, 0.8, h)]
    jp = lambda p: tuple(jnp.asarray(z) for z in p)
    three = [jp(ref.ibm(2, 1.1, h)), jp(ref.matern(2, 0.9, 1.2, h)), pad_prior(jp(two[0]), 2), pad_prior(jp(two[1]), 2)]
    R1 = [0.3, 0.05, 0.6]
    x0 = coefs((d,), 31)
    for tup in itertools.product(range(4), repeat=d - 1):
        tup = (case['first'],) + tup
        ps = [three[i] for i in tup]
        big = gf(tuple(ps))
        fset = np.array([[fields[(a + i) % 4] for i in range(d)] for a in range(4)])           # (4, d, 1, K)

        def joint(c):
            fs = [jax_poly(c[i], E) for i in range(d)]
            f = lambda x, t: jnp.concatenate([fs[i](x[i:i + 1], t) for i in range(d)])
            noise = jnp.diag(jnp.asarray(R1[:d])) if case['noise'] else None
            return S(None, jnp.asarray(x0), f, h, N, sqrt=sqrt, prior=big, noise=noise)

        def alone(c):
            out = []
            for i in range(d):
                noise = jnp.full((1, 1), R1[i]) if case['noise'] else None
                out.append(S(None, jnp.asarray(x0[i:i + 1]), jax_poly(c[i], E), h, N, sqrt=sqrt, prior=ps[i], noise=noise))
            return jnp.concatenate(out)

        a, b = vm(joint, fset), vm(alone, fset)
        ctx.eq(f'priors {tup}', a, b, atol=1e-8)
        ctx.finite('finite', a)
        ctx.visit(a, 'uncoupled')
        ctx.trans(len(a) * N * d)
        ctx.trace(len(a))
