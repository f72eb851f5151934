"""C09: the Kalman filter against conditioning of the joint Gaussian, over products of small model alphabets."""
import itertools

import numpy as np

from mc import ref
from mc.lib import Poly, coefs, jax_poly, monos, vm

BOUNDS = dict(quick='nx <= 3, ny <= 2, horizon <= 3 (thinned: nx <= 6, ny <= 4, horizon <= 60); every combination of the menus for A, xi, Q, H, R, m0, P0 with a defined update',
              thorough='nx <= 4, ny <= 3, horizon <= 6, larger menus')
ASSUMPTIONS = ['models whose update is undefined (singular innovation covariance) or numerically unstable (condition > 1e5, states > 50, sensitivity > 1e4) are skipped and counted']


def cases(tier):
    q = tier == 'quick'
    out = []
    for nx, ny in [(1, 1), (2, 1), (2, 2), (3, 1), (3, 2)] + ([] if q else [(4, 2), (3, 3), (4, 3)]):
        for N in ([1, 2, 3] if q else [1, 2, 3, 4, 6]):
            for sqrt in (False, True):
                out.append(dict(kind='linear', nx=nx, ny=ny, N=N, sqrt=sqrt, small=q))
                out.append(dict(kind='nonlinear', nx=nx, ny=ny, N=N, sqrt=sqrt, small=q))
    for nx, ny, N in ((6, 3, 4), (5, 1, 9), (2, 1, 30), (4, 4, 5), (1, 1, 60)):
        for sqrt in (False, True):
            for kind in ('linear', 'nonlinear'):
                out.append(dict(kind=kind, nx=nx, ny=ny, N=N, sqrt=sqrt, small=True, thin=29))
    for nx, ny in [(1, 1), (2, 1), (2, 2), (3, 2), (1, 2)]:
        for sqrt in (False, True):
            out.append(dict(kind='steps', nx=nx, ny=ny, sqrt=sqrt, N=1, small=q))
    return out


def psd_menu(n, salt, small):
    """Zero, rank one, regular, ill-scaled: factors L with P = L L^T (lower triangular)."""
    L = np.tril(coefs((n, n), salt))
    np.fill_diagonal(L, 0.5 + np.abs(np.diag(L)))
    r1 = np.zeros((n, n))
    r1[:, 0] = coefs((n,), salt + 1)
    menu = [np.zeros((n, n)), L, r1]
    if not small:
        menu += [np.diag(10.0 ** -np.arange(n)), np.diag(np.arange(n) * 1.0)]
    return menu


def models(case):
    nx, ny, small = case['nx'], case['ny'], case['small']
    if nx == 1:
        As = [np.array([[a]]) for a in (1.0, 0.5, -1.2, 0.0)]
    else:
        As = [np.eye(nx) + np.diag(np.full(nx - 1, 0.5), 1), coefs((nx, nx), 1), np.diag(np.r_[0.0, np.ones(nx - 1)])]
    xis = [np.zeros(nx), coefs((nx,), 2)]
    Hs = [np.eye(ny, nx), coefs((ny, nx), 3)]
    if nx == 1 and ny == 1:
        Hs += [np.zeros((1, 1)), np.array([[-2.0]])]
    Rs = [np.zeros((ny, ny)), psd_menu(ny, 4, True)[1], 0.05 * np.eye(ny)]
    if ny > 1:
        Rs.append(psd_menu(ny, 6, True)[2])
    m0s = [np.zeros(nx), coefs((nx,), 7)]
    out = []
    for A, xi, LQ, H, LR, m0, LP in itertools.product(As, xis, psd_menu(nx, 8, small), Hs, Rs, m0s, psd_menu(nx, 10, small)):
        out.append((A, xi, LQ, H, LR, m0, LP))
    return [np.array(z) for z in zip(*out)]


def run(case, ctx):
    import jax.numpy as jnp
    from bayesian_sde_solver.ode_solvers.probnum import ekf
    nx, ny, N, sqrt = case['nx'], case['ny'], case['N'], case['sqrt']
    A, xi, LQ, H, LR, m0, LP = models(case)
    B = len(A)
    ts = 0.3 * np.arange(1, N + 1)
    H1, c0, c1 = 0.4 * coefs((ny, nx), 21), coefs((ny,), 22), coefs((ny,), 23)
    sq = lambda L: L @ np.swapaxes(L, -1, -2)
    if case['kind'] == 'steps':
        return steps(case, ctx, A, xi, LQ, H, LR, m0, LP)
    E = monos(nx, 2, 1)
    W = 0.2 * coefs((ny, len(E)), 24)
    P = Poly(W, E)
    nl = case['kind'] == 'nonlinear'

    def robs(H):
        def obs(m, t):
            c, J = (H + t * H1) @ m + c0 + t * c1, H + t * H1
            if nl:
                c, J = c + P(m, t), J + P.jac(m, t)
            return c, J
        return obs

    if nl:   # a thinner product: the linear case has already covered the combinations
        sel = np.arange(B)[::5]
        A, xi, LQ, H, LR, m0, LP = (z[sel] for z in (A, xi, LQ, H, LR, m0, LP))
        B = len(A)
    if 'thin' in case:   # long horizons and large states
        A, xi, LQ, H, LR, m0, LP = (z[::case['thin']] for z in (A, xi, LQ, H, LR, m0, LP))
        B = len(A)
    keep = []
    for i in range(B):
        keep.append(ref.well_posed(m0[i], sq(LP[i]), A[i], xi[i], sq(LQ[i]), sq(LR[i]), ts, robs(H[i])))
    keep = np.array(keep)
    ctx.counts['undefined_models_skipped'] = int((~keep).sum())
    A, xi, LQ, H, LR, m0, LP = (z[keep] for z in (A, xi, LQ, H, LR, m0, LP))
    B = len(A)
    if not B:
        return
    pj = jax_poly(jnp.asarray(W), E)

    def fn(A, xi, LQ, H, LR, m0, LP, uc):
        def obs(x, t):
            r = (H + t * jnp.asarray(H1)) @ x + jnp.asarray(c0) + t * jnp.asarray(c1)
            return r + pj(x, t) if nl else r
        f = (lambda L: L) if sqrt else (lambda L: L @ L.T)
        return ekf(init=(m0, f(LP)), observation_function=obs, A=A, Q_or_cholQ=f(LQ), xi=xi, R_or_cholR=f(LR),
                   params=(jnp.asarray(ts),), lower_sqrt=sqrt, return_UC=uc)

    args = (A, xi, LQ, H, LR, m0, LP)
    gm, gP = vm(lambda *a: fn(*a, False), *args)
    (um, uP), uS, uc = vm(lambda *a: fn(*a, True), *args)
    if sqrt:
        ctx.true('the factor is lower triangular', np.abs(np.triu(gP, 1)).max() < 1e-12)
        gP, uP = sq(gP), sq(uP)
    wm, wP, wS, wc = [], [], [], []
    for i in range(B):
        a = (m0[i], sq(LP[i]), A[i], xi[i], sq(LQ[i]), sq(LR[i]), ts, robs(H[i]))
        m, Pm, S, c, hist = ref.ekf(*a)
        if not nl:
            jm, jP, Syy = ref.joint_condition(m0[i], sq(LP[i]), A[i], xi[i], sq(LQ[i]),
                                              [H[i] + t * H1 for t in ts], [c0 + t * c1 for t in ts], sq(LR[i]))
            if np.linalg.cond(Syy) < 1e6:
                ctx.eq('reference recursion = joint conditioning', np.r_[m, Pm.ravel()], np.r_[jm, jP.ravel()], rtol=1e-6, atol=1e-7)
        wm.append(m), wP.append(Pm), wS.append(S), wc.append(c)
        for mm, PP in hist:
            ctx.visit(np.r_[mm, PP.ravel()][None], case['kind'])
    ctx.eq('posterior mean', gm, np.array(wm), atol=1e-7)
    ctx.eq('posterior covariance', gP, np.array(wP), atol=1e-7)
    ctx.eq('posterior mean with calibration data', um, np.array(wm), atol=1e-7)
    ctx.eq('posterior covariance with calibration data', uP, np.array(wP), atol=1e-7)
    ctx.eq('innovation covariance of the last update', uS, np.array(wS), atol=1e-7)
    ctx.eq('residual of the last update', uc, np.array(wc), atol=1e-7)
    ctx.trans(B * N)
    ctx.trace(B)
    if B:
        ctx.sample(mean=gm[-1], cov=gP[-1])


def steps(case, ctx, A, xi, LQ, H, LR, m0, LP):
    import jax.numpy as jnp
    from bayesian_sde_solver.ode_solvers.probnum.ekf import predict, update
    nx, ny, sqrt = case['nx'], case['ny'], case['sqrt']
    sq = lambda L: L @ np.swapaxes(L, -1, -2)
    f = (lambda L: L) if sqrt else (lambda L: L @ L.T)
    g = sq if sqrt else (lambda P: P)
    c = np.tile(coefs((ny,), 30), (len(A), 1))
    pm, pP = vm(lambda A, xi, LQ, m0, LP: predict((m0, f(LP)), A, f(LQ), xi, lower_sqrt=sqrt), A, xi, LQ, m0, LP)
    qm, qP = vm(lambda A, LQ, m0, LP: predict((m0, f(LP)), A, f(LQ), lower_sqrt=sqrt), A, LQ, m0, LP)
    wm = np.einsum('bij,bj->bi', A, m0)
    wP = A @ sq(LP) @ np.swapaxes(A, 1, 2) + sq(LQ)
    ctx.eq('predicted mean', pm, wm + xi)
    ctx.eq('predicted mean without increment', qm, wm)
    ctx.eq('predicted covariance', g(pP), wP)
    ctx.eq('predicted covariance without increment', g(qP), wP)
    S = H @ sq(LP) @ np.swapaxes(H, 1, 2) + sq(LR)
    w = np.linalg.eigvalsh(S)
    ok = (w[:, 0] > 1e-4) & (w[:, -1] / np.maximum(w[:, 0], 1e-300) < 1e5)
    ctx.counts['undefined_models_skipped'] = int((~ok).sum())
    H, LR, m0, LP, c = (z[ok] for z in (H, LR, m0, LP, c))
    um, uP = vm(lambda m0, LP, c, H, LR: update((m0, f(LP)), c, H, f(LR), lower_sqrt=sqrt), m0, LP, c, H, LR)
    (vm_, vP), vS = vm(lambda m0, LP, c, H, LR: update((m0, f(LP)), c, H, f(LR), lower_sqrt=sqrt, return_S=True), m0, LP, c, H, LR)
    W = [ref.condition(m0[i], sq(LP[i]), H[i], c[i], sq(LR[i]), True) for i in range(len(c))]
    for nm, m_, P_ in (('updated', um, uP), ('updated (with S)', vm_, vP)):
        ctx.eq(nm + ' mean', m_, np.array([w[0] for w in W]), atol=1e-7)
        ctx.eq(nm + ' covariance', g(P_), np.array([w[1] for w in W]), atol=1e-7)
    ctx.eq('innovation covariance', g(vS), np.array([w[2] for w in W]), atol=1e-7)
    ctx.visit(np.concatenate([um, uP.reshape(len(um), -1)], axis=1), 'steps')
    ctx.trans(3 * len(A))
    ctx.trace(len(A))
