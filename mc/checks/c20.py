"""C20: benchmark problems against the closed forms shipped with them.

expansion: the moments of the solution have Taylor coefficients L^k phi(x0) / k! with the generator L of the problem's own
           drift and diffusion; the formulas' coefficients in t must be these up to the declared order, component by component.
exact:     formulas declared exact, on a grid of times, against the moment equations of the (linear) problem.
model:     vector fields against the named models on a grid of states and times; square variants against the originals.
random:    the exact law of the matrices of the random linear problem."""
import inspect
import itertools

import numpy as np

from mc import ref
from mc.lib import coefs, gaussian_law, vm

BOUNDS = dict(quick='all 11 problems, all components; expansion orders 2 (means) and 3 (variances); 13 times for exact formulas; 5^d states; random problem: dim <= 3, 4 scale pairs',
              thorough='33 times; 9^d states; random problem: dim <= 5')

EXPANSIONS = {'fhn': [('mean', 2), ('var', 3)], 'square_matrix_fhn': [('mean', 2), ('var', 3)], 'synaptic_conductance_reduced': [('mean', 2)],
              'harmonic_oscillator_square': [('mean', 3), ('var~', 3), ('var', 3)], 'harmonic_oscillator': [('mean', 3), ('var~', 3)],
              'synaptic_conductance': [('mean', 2), ('var0', 3)], 'ibm': [('var', 3)], 'square_matrix_ibm': [('var', 3)], 'double_ibm': [('var', 3)],
              'gbm': [('mean', 3), ('var', 3)]}
EXACT = {'ibm': ['var'], 'square_matrix_ibm': ['var'], 'double_ibm': ['var'], 'gbm': ['mean', 'var'], 'harmonic_oscillator': ['mean', 'var~'],
         'harmonic_oscillator_square': ['mean', 'var~']}
SQUARE = {'square_matrix_fhn': 'fhn', 'square_matrix_ibm': 'ibm'}


def cases(tier):
    q = tier == 'quick'
    out = [dict(kind='expansion', problem=p) for p in EXPANSIONS]
    out += [dict(kind='exact', problem=p, nt=13 if q else 33) for p in EXACT]
    out += [dict(kind='model', problem=p, n=5 if q else 9) for p in EXPANSIONS]
    out += [dict(kind='random', d=d) for d in ((1, 2, 3) if q else (1, 2, 3, 4, 5))]
    return out


def problem(name):
    from bayesian_sde_solver.utils import ivp
    p = getattr(ivp, name)()
    x0, f, s = p[:3]
    tdep = len(inspect.signature(f).parameters) > 1
    ft = f if tdep else (lambda x, t: f(x))
    st = s if tdep else (lambda x, t: s(x))
    return np.asarray(x0, dtype=float), ft, st, list(p[3:])


def run(case, ctx):
    globals()[case['kind']](case, ctx)


def expansion(case, ctx):
    import jax
    import jax.numpy as jnp
    x0, ft, st, forms = problem(case['problem'])
    d, K = len(x0), 3

    def L(phi):
        def g(x):
            S = st(x, 0.0)
            return jax.grad(phi)(x) @ ft(x, 0.0) + 0.5 * jnp.sum((S @ S.T) * jax.hessian(phi)(x))
        return g

    def series(phi):
        out, c = [], 1.0
        for k in range(K + 1):
            out.append(float(phi(jnp.asarray(x0))) / c)
            phi, c = L(phi), c * (k + 1)
        return np.array(out)

    y = jnp.asarray(x0)
    mean = np.array([series(lambda x, i=i: x[i]) for i in range(d)])                       # (d, K + 1)
    cov = np.zeros((d, d, K + 1))
    for i, j in itertools.product(range(d), repeat=2):
        # centred at x0, so that no cancellation occurs
        mm = series(lambda x: (x[i] - y[i]) * (x[j] - y[j]))
        ci, cj = mean[i].copy(), mean[j].copy()
        ci[0] -= x0[i]
        cj[0] -= x0[j]
        cov[i, j] = [mm[k] - sum(ci[a] * cj[k - a] for a in range(k + 1)) for k in range(K + 1)]
    ctx.true('number of formulas', len(forms) == len(EXPANSIONS[case['problem']]), got=len(forms))
    for form, (what, order) in zip(forms, EXPANSIONS[case['problem']]):
        want = mean if what == 'mean' else cov[0, 0] if what == 'var0' else cov
        g, c, co = form, 1.0, []
        for k in range(order + 1):
            co.append(np.asarray(g(0.0)) / c)
            g, c = jax.jacfwd(g), c * (k + 1)
        co = np.stack(co, axis=-1)
        tol = 1e-5 if what.endswith('~') else 1e-9
        if d == 1:
            co = co.reshape(want[..., :order + 1].shape)
        ctx.eq(f'{what}: shape', co.shape, want[..., :order + 1].shape)
        for k in range(order + 1):
            ctx.eq(f'{what}: coefficient of t^{k}', co[..., k], want[..., k], rtol=tol, atol=tol)
        ctx.visit(np.concatenate([np.atleast_1d(co).reshape(-1, order + 1)], axis=0), what)
        ctx.trans(co.size)
        ctx.trace(1)
        ctx.sample(coefficients=co)


def exact(case, ctx):
    import jax.numpy as jnp
    from scipy.integrate import solve_ivp
    x0, ft, st, forms = problem(case['problem'])
    d = len(x0)
    z = jnp.zeros(d)
    a = np.asarray(ft(z, 0.0))
    A = np.stack([np.asarray(ft(jnp.eye(d)[i], 0.0)) - a for i in range(d)], axis=1)
    C = np.asarray(st(z, 0.0))
    B = np.stack([np.asarray(st(jnp.eye(d)[i], 0.0)) - C for i in range(d)], axis=-1)     # (d, m, d)
    for i, x in enumerate(np.array([coefs((d,), k) for k in range(6)])):
        t = 0.3 * i
        ctx.eq('drift is affine and autonomous', ft(jnp.asarray(x), t), A @ x + a)
        ctx.eq('diffusion is affine and autonomous', st(jnp.asarray(x), t), C + B @ x)

    def rhs(t, y):
        m, S = y[:d], y[d:].reshape(d, d)
        D = np.einsum('ijk,kl,njl->in', B, S, B) + np.einsum('ijk,k,nj->in', B, m, C)
        D = D + np.einsum('ij,njk,k->in', C, B, m) + C @ C.T
        dS = A @ S + S @ A.T + np.outer(a, m) + np.outer(m, a) + D
        return np.r_[A @ m + a, dS.ravel()]
    T = np.concatenate([[1e-3, 0.01, 0.1], np.linspace(0, 3, case['nt'])[1:-2]])
    T = np.sort(T)
    y = solve_ivp(rhs, (0, T[-1]), np.r_[x0, np.outer(x0, x0).ravel()], t_eval=T, rtol=1e-11, atol=1e-13, method='DOP853').y.T
    for t, row in zip(T, y):
        m, S = row[:d], row[d:].reshape(d, d)
        V = S - np.outer(m, m)
        for form, what in zip(forms, EXACT[case['problem']]):
            got = np.asarray(form(t))
            if what == 'mean':
                ctx.eq(f'{what} t={t:.4g}', got, m, rtol=1e-7, atol=1e-8)
            else:
                V = V if d > 1 or got.ndim == 2 else V.reshape(got.shape)
                tol = 2e-5 if what.endswith('~') else 1e-7
                ctx.eq(f'{what} t={t:.4g}', got, V, rtol=tol, atol=1e-9)
                sd = np.sqrt(np.maximum(np.diag(np.atleast_2d(V)), 1e-5))
                ctx.eq(f'{what} relative t={t:.4g}', np.atleast_2d(got) / np.outer(sd, sd), np.atleast_2d(V) / np.outer(sd, sd), rtol=tol, atol=tol)
        ctx.trans(1)
    ctx.visit(np.column_stack([T, y]))
    ctx.trace(len(T))
    ctx.sample(moments=y[-1])


def models():
    """Drift and sigma sigma^T of the named models."""
    def fhn(x):
        return np.array([(x[0] - x[0] ** 3 - x[1]) / 0.1, 1.5 * x[0] - x[1] + 0.8]), np.diag([0.0, 0.09]), [0.0, 0.0]

    def ibm(x):
        return np.array([x[1], 0.0]), np.diag([0.0, 1.0]), [1.0, 1.0]

    def dibm(x):
        return np.array([x[1], x[2], 0.0]), np.diag([0.0, 0.0, 1.0]), [0.0, 0.0, 1.0]

    def ho(D, g, s):
        return lambda x: (np.array([x[1], -D * x[0] - g * x[1]]), np.diag([0.0, s ** 2]), [1.0, 1.0])

    def gbm(x):
        return x, np.diag(x ** 2), [1.0]

    def cond(x):
        return np.array([-(x[0] - 17.8) / 0.5, -(x[1] - 9.4) / 1.0]), np.diag([0.01 * x[0], 0.01 * x[1]]), [10.0, 10.0]

    def syn(x):
        f, q, _ = cond(x[1:])
        v = (-50.0 * (x[0] + 70.0) - x[1] * (x[0] - 0.0) - x[2] * (x[0] + 80.0) - 0.6) / 20.0
        Q = np.zeros((3, 3))
        Q[1:, 1:] = q
        return np.r_[v, f], Q, [-60.0, 10.0, 10.0]
    return {'fhn': fhn, 'square_matrix_fhn': fhn, 'ibm': ibm, 'square_matrix_ibm': ibm, 'double_ibm': dibm, 'gbm': gbm,
            'harmonic_oscillator': ho(0.1, 0.1, 1.0), 'harmonic_oscillator_square': ho(1.0, 1.0, 2.0),
            'synaptic_conductance_reduced': cond, 'synaptic_conductance': syn}


def model(case, ctx):
    import jax.numpy as jnp
    name = case['problem']
    x0, ft, st, forms = problem(name)
    d = len(x0)
    ref_ = models()[name]
    ctx.eq('initial state', x0, np.array(ref_(np.ones(d))[2]))
    g = np.linspace(-2, 2, case['n'])
    pts = np.array(list(itertools.product(g, repeat=d)))
    if name.startswith('synaptic'):
        pts = np.concatenate([pts * 20 - 40 if d == 3 else pts[:0], pts])
        pts[:, -2:] = 12 + 2.5 * (pts[:, -2:] - pts[:, -2:].mean(axis=0))/ pts[:, -2:].std(axis=0)
    for t in (0.0, 0.7):
        f, s = vm(lambda x: (ft(x, t), st(x, t)), pts)
        want = [ref_(x) for x in pts]
        ctx.eq('drift of the named model', f, np.array([w[0] for w in want]))
        ctx.eq('diffusion of the named model', np.einsum('nij,nkj->nik', s, s), np.array([w[1] for w in want]))
        if 'square' in name or name.startswith('synaptic') or name == 'gbm':
            ctx.true('square diffusion', s.shape[1] == s.shape[2])
        ctx.visit(np.concatenate([f, s.reshape(len(s), -1)], axis=1), f'{t}')
        ctx.trans(len(pts))
    ctx.trace(len(pts))
    if name in SQUARE:
        y0, gt, ut, forms2 = problem(SQUARE[name])
        ctx.eq('square variant: initial state', x0, y0)
        f2, s2 = vm(lambda x: (gt(x, 0.3), ut(x, 0.3)), pts)
        ctx.eq('square variant: drift', f, f2)
        ctx.eq('square variant: diffusion', np.einsum('nij,nkj->nik', s, s), np.einsum('nij,nkj->nik', s2, s2))
        for a, b in zip(forms, forms2):
            for t in (0.1, 0.5, 2.0):
                ctx.eq('square variant: formulas', np.asarray(a(t)), np.asarray(b(t)))


def random(case, ctx):
    import jax
    import jax.numpy as jnp
    from bayesian_sde_solver.utils.ivp import random_linear_sde
    d = case['d']
    scales = [None, 0.5 * np.eye(d), np.diag(1.0 + np.arange(d)), coefs((d, d), 3)]
    for i, (s1, s2) in enumerate(itertools.product(scales, scales)):
        if i and i % 5 not in (1, 2, 3):
            continue
        kw = {}
        if s1 is not None:
            kw['std1'] = jnp.asarray(s1)
        if s2 is not None:
            kw['std2'] = jnp.asarray(s2)

        def f(k):
            x0, dr, sg = random_linear_sde(key=k, dim=d, **kw)
            return jax.vmap(lambda e: dr(e, 0.0))(jnp.eye(d)).T, sg(x0, 0.0), x0, dr(jnp.ones(d), 2.0), sg(3 * x0, 1.0)
        law, out, rec = gaussian_law(f, ctx, seed=case['seed'], label=f'scales {i}', pairs=d < 3)
        n = d * d
        F1 = np.kron(np.eye(d) if s1 is None else s1, np.eye(d))
        F2 = np.kron(np.eye(d) if s2 is None else s2, np.eye(d))
        F = np.block([[F1, np.zeros((n, n))], [np.zeros((n, n)), F2]])
        C = law.cov
        ctx.eq('law of the two matrices', C[:2 * n, :2 * n], F @ F.T)
        ctx.eq('centred', law.mean[:2 * n], np.zeros(2 * n))
        ctx.eq('initial state', law.mean[2 * n:2 * n + d], np.ones(d))
        ctx.eq('drift is linear and autonomous', law.L[2 * n + d:2 * n + 2 * d], law.L[:n].reshape(d, d, -1).sum(axis=1))
        ctx.eq('diffusion is constant', law.L[2 * n + 2 * d:], law.L[n:2 * n])
        ctx.trace(1)
    # defaults
    from bayesian_sde_solver.utils.ivp import random_linear_sde
    a, b = random_linear_sde(), random_linear_sde(jax.random.PRNGKey(1337), 1, jnp.eye(1), jnp.eye(1))
    ctx.eq('default arguments', [np.asarray(a[1](a[0], 0.)), np.asarray(a[2](a[0], 0.))[0]], [np.asarray(b[1](b[0], 0.)), np.asarray(b[2](b[0], 0.))[0]])
