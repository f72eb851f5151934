"""C11: prior transitions against independent closed forms (block exponentials), composition, scaling, replication."""
import itertools

import numpy as np
import scipy.linalg as sl

from mc import ref
from mc.lib import coefs, vm

BOUNDS = dict(quick='general: all F in {-1,0,1}^{1x1, 2x2} and 12 3x3 matrices, 3 u, 3 L (1-2 columns), 3 times, 2 resolutions; IBM q <= 4, IOU q <= 3, '
                    'Matern k <= 3 (both modes), grids of magnitude, length/rate, time, dim <= 3',
              thorough='3x3 matrices over all {-1,0,1} companion and triangular forms, 6 times, 4 resolutions')
ASSUMPTIONS = ['integrals computed by the library with a trapezoidal rule of n points are compared up to its rigorous error O(n^-2)']


def cases(tier):
    q = tier == 'quick'
    out = []
    for n in (1, 2, 3):
        for u in (0, 1, 2):
            for l in (0, 1, 2):
                out.append(dict(kind='general', n=n, u=u, l=l, many=not q))
    for qq in (0, 1, 2, 3, 4):
        for dim in (1, 2, 3):
            out.append(dict(kind='ibm', q=qq, dim=dim))
    for qq in (0, 1, 2, 3):
        for dim in (1, 2):
            out.append(dict(kind='iou', q=qq, dim=dim))
    for k in (0, 1, 2, 3):
        for mc in (False, True):
            for dim in (1, 2, 3):
                if q and k != 1 and dim == 3:
                    continue
                out.append(dict(kind='matern', k=k, mc=mc, dim=dim, many=not q))
    for prec in (64, 32):
        for fam in ('ibm', 'iou', 'matern', 'matern-mc', 'general'):
            for k in (0, 1, 2, 3):
                out.append(dict(kind='small', family=fam, k=k, prec=prec, many=not q))
    return out


def run(case, ctx):
    return dict(general=general, ibm=ibm, iou=iou, matern=matern, small=small)[case['kind']](case, ctx)


def small(case, ctx):
    """Small steps: every entry relative to its own scale h^(k-i+1/2) (the last component has variance of order h)."""
    import contextlib
    from jax.experimental import disable_x64
    import bayesian_sde_solver.ode_solvers.probnum as pn
    k, fam = case['k'], case['family']
    x32 = case['prec'] == 32
    for mag, le in ((1.3, 0.8), (0.5, 3.0)):
        for h in (1e-1, 1e-2, 1e-3, 1e-4) + ((1e-5, 1e-6, 1e-8) if not x32 else ()) + ((3e-2, 1e-5) if case['many'] else ()):
            if x32 and h ** (2 * k + 1) < 1e-34:       # below the range of single precision
                continue
            L = np.zeros((k + 1, 1))
            L[-1] = mag
            F = ref.matern_FL(k, mag, le)[0] if fam in ('matern', 'matern-mc', 'general') else ref.iou_F(k, 0.7 if fam == 'iou' else 0.0)
            ft = np.float32 if x32 else np.float64
            with (disable_x64() if x32 else contextlib.nullcontext()):
                if fam in ('ibm', 'iou'):
                    got = pn.IOUP_transition_function(0.7 if fam == 'iou' else 0.0, mag, k, h, 1)
                elif fam == 'general':
                    got = pn.transition_function(F.astype(ft), np.zeros(k + 1, ft), L.astype(ft), h, n_linspace=2000)
                else:
                    got = pn.matern_transition_function(k, mag, le, h, 1, mc=fam != 'matern')
                got = [np.asarray(z) for z in got]
            D = h ** (np.arange(k, -1, -1) + 0.5)
            A, Q = ref.van_loan(F * D[None, :] / D[:, None] * h, L, 1.0)
            tol = (1e-3 if x32 else 3e-6) if fam not in ('ibm', 'iou') and not (fam == 'matern' and k == 1) else (2e-5 if x32 else 1e-9)
            ctx.true('precision', all(z.dtype == ft for z in got), got=[str(z.dtype) for z in got])
            m, Qg, Ag = [z.astype(float) for z in got]
            ctx.eq(f'small steps: covariance h={h}', Qg / D[:, None] / D[None, :], Q, rtol=0, atol=tol if fam != 'iou' else tol + 2.2 * h)
            # powers of F h in the matrix are accurate relative to the largest one
            ctx.eq(f'small steps: matrix h={h}', Ag, A * D[:, None] / D[None, :], rtol=2e-5 if x32 else 1e-9, atol=1e-6 if x32 else 1e-14)
            ctx.eq(f'small steps: increment h={h}', m, np.zeros(k + 1), atol=1e-7)
            if fam != 'general' or k < 3:
                ev = np.linalg.eigvalsh(Qg / D[:, None] / D[None, :])[0]
                w = np.linalg.eigvalsh(Q)[0]
                if w > 20 * tol:
                    ctx.true(f'small steps: the covariance is positive h={h}', ev > 0.5 * w - (2.2 * h if fam == 'iou' else 0), got=ev, want=w)
            ctx.visit(np.r_[Qg.ravel() / np.outer(D, D).ravel(), Ag.ravel()][None], f'small{h}')
            ctx.trans(1)
            ctx.trace(1)


def check(ctx, label, got, want, rtol=1e-8, atol=1e-11):
    for nm, g, w in zip(('increment', 'covariance', 'matrix'), got, want):
        ctx.eq(f'{label}: {nm}', g, w, rtol=rtol, atol=atol)
    ctx.eq(f'{label}: covariance is symmetric', got[1], np.swapaxes(np.asarray(got[1]), -1, -2), rtol=rtol)
    ctx.visit(np.concatenate([np.asarray(g).ravel() for g in got])[None], label)
    ctx.trace(1)


def Fs(n, many):
    if n < 3:
        return [np.array(f, dtype=float).reshape(n, n) for f in itertools.product((-1, 0, 1), repeat=n * n)]
    out = [np.diag(np.ones(2), 1), np.zeros((3, 3)), -np.eye(3), coefs((3, 3), 1), coefs((3, 3), 2),
           np.array([[0., 1, 0], [0, 0, 1], [-1, -2, -3]]), np.array([[0., 1, 0], [-1, 0, 0], [0, 0, 1]])]
    for c in itertools.product((-1, 0, 1), repeat=3):
        if many or sum(map(abs, c)) == 1 or c == (-1, -1, -1):
            F = np.diag(np.ones(2), 1)
            F[2] = c
            out.append(F)
    if many:
        for c in itertools.product((-1, 0, 1), repeat=3):
            F = np.triu(np.ones((3, 3)), 1)
            np.fill_diagonal(F, c)
            out.append(F)
    return out


def general(case, ctx):
    from bayesian_sde_solver.ode_solvers.probnum import transition_function
    n = case['n']
    F = np.array(Fs(n, case['many']))
    u = [np.zeros(n), np.ones(n), coefs((n,), 5)][case['u']]
    L = [np.eye(n)[:, -1:], coefs((n, 1), 6), coefs((n, 2), 7)][case['l']]
    hs = [0.5, 1.0, 0.05] + ([2.0, 0.01, 1e-3] if case['many'] else [])
    for h in hs:
        for pts in ([200, 1000] + ([2000, 41] if case['many'] else [])):
            got = vm(lambda F: transition_function(F, u, L, h, n_linspace=pts), F)
            # trapezoidal error <= h^3 / (12 (n-1)^2) max |integrand''|
            for i, f in enumerate(F):
                A, Q = ref.van_loan(f, L, h)
                xi = ref.increment(f, u, h)
                nf = np.linalg.norm(f, 2)
                g = np.exp(nf * h)
                e_xi = h ** 3 / (12 * (pts - 1) ** 2) * nf ** 2 * g * np.linalg.norm(u) * 1.5 + 1e-10
                e_Q = h ** 3 / (12 * (pts - 1) ** 2) * 4 * nf ** 2 * g ** 2 * np.linalg.norm(L, 2) ** 2 * 1.5 + 1e-10
                ctx.eq(f'matrix h={h}', got[2][i], A, rtol=1e-9, atol=1e-11)
                ctx.true(f'increment h={h}', got[0][i].shape == xi.shape and np.abs(got[0][i] - xi).max() <= e_xi, got=got[0][i], want=xi, F=f, bound=e_xi)
                ctx.true(f'covariance h={h}', got[1][i].shape == Q.shape and np.abs(got[1][i] - Q).max() <= e_Q, got=got[1][i], want=Q, F=f, bound=e_Q)
            ctx.visit(np.concatenate([g.reshape(len(F), -1) for g in got], axis=1), f'{h}')
            ctx.trans(len(F))
            ctx.trace(len(F))
    # composition (Chapman-Kolmogorov) with the default resolution
    f = F[-1]
    a, b, c = [[np.asarray(z) for z in transition_function(f, u, L, t)] for t in (0.3, 0.7, 1.0)]
    check(ctx, 'composition', (b[2] @ a[0] + b[0], b[2] @ a[1] @ b[2].T + b[1], b[2] @ a[2]), c, rtol=1e-6, atol=1e-7)
    check(ctx, 'default resolution', c, (ref.increment(f, u, 1.0), *ref.van_loan(f, L, 1.0)[::-1]), rtol=1e-6, atol=1e-7)


HS = [0.5, 1.0, 0.1, 2.0]


def ibm(case, ctx):
    from bayesian_sde_solver.ode_solvers.probnum import IOUP_transition_function
    q, dim = case['q'], case['dim']
    for s in (1.0, 0.5, 3.0):
        res = {}
        for h in HS + [0.25, 0.75]:
            got = [np.asarray(z) for z in IOUP_transition_function(theta=0.0, sigma=s, q=q, dt=h, dim=dim)]
            check(ctx, f'IBM h={h} sigma={s}', got, ref.ibm(q, s, h, dim))
            res[h] = got
            ctx.trans(1)
        for h1, h2, h in ((0.5, 0.5, 1.0), (1.0, 1.0, 2.0), (0.25, 0.75, 1.0), (0.75, 0.25, 1.0)):
            a, b, c = res[h1], res[h2], res[h]
            check(ctx, f'composition {h1}+{h2}', (b[2] @ a[0] + b[0], b[2] @ a[1] @ b[2].T + b[1], b[2] @ a[2]), c)
    g1 = [np.asarray(z) for z in IOUP_transition_function(0.0, 2.0, q, 0.3, dim)]
    g2 = [np.asarray(z) for z in IOUP_transition_function(0.0, 1.0, q, 0.3, dim)]
    check(ctx, 'scaling, positional call', g1, (g2[0], 4 * g2[1], g2[2]))
    ctx.sample(covariance=g1[1], matrix=g1[2])


def iou(case, ctx):
    from bayesian_sde_solver.ode_solvers.probnum import IOUP_transition_function
    q, dim = case['q'], case['dim']
    for th in (0.7, -0.4, 2.0):
        for s in (1.0, 2.0):
            for h in (0.5, 0.1, 1.0):
                m, Q, A = [np.asarray(z) for z in IOUP_transition_function(theta=th, sigma=s, q=q, dt=h, dim=dim)]
                F = ref.iou_F(q, th)
                ctx.eq(f'matrix theta={th} h={h}', A, np.kron(np.eye(dim), sl.expm(F * h)), rtol=1e-9, atol=1e-11)
                ctx.eq('increment', m, np.zeros(dim * (q + 1)))
                ctx.visit(np.r_[m, Q.ravel(), A.ravel()][None], 'iou')
                ctx.trans(1)
            # the covariance is the leading-order one or better: relative error <= 3 |theta| h in every entry, vanishing with h
            for h in (0.1, 0.05, 0.01, 1e-3):
                Q = np.asarray(IOUP_transition_function(theta=th, sigma=s, q=q, dt=h, dim=dim)[1])
                L = np.zeros((q + 1, 1))
                L[-1] = s
                W = ref.van_loan(ref.iou_F(q, th), L, h)[1]
                b = Q[:q + 1, :q + 1]
                ctx.true(f'covariance to leading order theta={th} h={h}', (np.abs(b - W) <= (3 * abs(th) * h + 1e-9) * np.abs(W) + 1e-18).all(), got=b, want=W)
                ctx.eq('replicated over dimensions', Q, np.kron(np.eye(dim), b), rtol=1e-12, atol=0)
                ctx.trace(1)
                ctx.trans(1)


def matern(case, ctx):
    from bayesian_sde_solver.ode_solvers.probnum import matern_transition_function
    k, mc, dim = case['k'], case['mc'], case['dim']
    exact = k == 1 and not mc
    tol = dict(rtol=1e-8, atol=1e-11) if exact else dict(rtol=2e-6, atol=1e-8)
    mags, lens, hs = [1.0, 2.0], [1.0, 0.5], [0.5, 0.1]
    if case['many'] or exact:
        mags, lens, hs = [1.0, 2.0, 0.3], [1.0, 0.5, 3.0], [0.5, 0.1, 1.0, 0.02]
    for mag in mags:
        for le in lens:
            for h in hs:
                got = [np.asarray(z) for z in matern_transition_function(k, mag, le, h, dim, mc)]
                want = ref.matern(k, mag, le, h, dim)
                if exact:
                    # closed form: cancellation for small rate * time
                    D = 1e-13 / np.maximum(np.abs(want[1]).max(), 1e-30)
                    check(ctx, f'Matern h={h} l={le} mag={mag}', got, want, rtol=1e-8 + D, atol=1e-13)
                else:
                    check(ctx, f'Matern h={h} l={le} mag={mag}', got, want, **tol)
                ctx.trans(1)
    a, b, c = [[np.asarray(z) for z in matern_transition_function(k=k, magnitude=1.5, length=0.8, dt=t, dim=dim, mc=mc)] for t in (0.3, 0.5, 0.8)]
    check(ctx, 'composition', (b[2] @ a[0] + b[0], b[2] @ a[1] @ b[2].T + b[1], b[2] @ a[2]), c, **tol)
    a = [np.asarray(z) for z in matern_transition_function(k, 3.0, 0.8, 0.3, dim, mc)]
    b = [np.asarray(z) for z in matern_transition_function(k, 1.5, 0.8, 0.3, dim, mc)]
    check(ctx, 'scaling', a, (b[0], 4 * b[1], b[2]))
    # the stationary law is preserved: variance of the Matern process with spectral density mag^2 / ...
    F, L = ref.matern_FL(k, 1.5, 0.8)
    S = np.kron(np.eye(dim), sl.solve_continuous_lyapunov(F, -L @ L.T))
    ctx.eq('stationary covariance is preserved', b[2] @ S @ b[2].T + b[1], S, rtol=1e-6, atol=1e-6)
    ctx.sample(covariance=b[1], matrix=b[2])
