"""C24: every public function under every way of evaluating it (uncompiled, jit, vmap, jit of vmap, vmap of jit, nested vmap,
map, batching one argument only, partial application and keywords), with genuine keys: entry by entry the same values."""
import functools
import itertools

import numpy as np

BOUNDS = dict(quick='49 functions x 7 (SDE solvers) or 14 evaluation modes, batch sizes 1, 2, 3; float64, and float32 for 12 of them; step size (and each parameter of the priors) as Python, NumPy, array, traced and batched number',
              thorough='all modes; N up to 5, d <= 3, float32 for all')
ASSUMPTIONS = ['agreement up to rounding (1e-9 relative in double precision, 1e-6 where a square root of a singular covariance enters; 5e-3 in single precision)']

SDE = ['em', 'pathwise', 'diag', 'hypo', 'marg0', 'marg1', 'marg0s', 'marg1s', 'bm-approx-euler', 'bm-brownian-euler', 'bm-fine-euler']
SDE += [f'bm-approx-{o}' for o in ('ekf0', 'ekf1', 'ekf0s', 'ekf1s', 'ekf0_2', 'ekf1_2', 'ekf0_2s', 'ekf1_2s')]
ODE = ['euler'] + [f'{o}{s}{k}' for o in ('ekf0', 'ekf1', 'ekf0_2', 'ekf1_2') for s in ('', 's') for k in ('', '+')]
OTHER = ['gen-approx', 'gen-brownian', 'gen-fine', 'poly', 'ito', 'strat', 'ioup', 'matern', 'interlace', 'filter', 'filters', 'mle', 'linear']


def cases(tier):
    q = tier == 'quick'
    out = [dict(fn=f, d=2, N=2 if q else 3, prec=64, all=not q or f not in SDE) for f in SDE + ODE + OTHER]
    small = ['em', 'diag', 'hypo', 'marg1', 'marg1s', 'bm-approx-euler', 'bm-fine-euler', 'bm-approx-ekf0', 'bm-approx-ekf1s', 'ekf1_2s+', 'ekf0+', 'gen-fine']
    out += [dict(fn=f, d=2, N=2 if q else 3, prec=32, all=not q) for f in (small if q else SDE + ODE + OTHER)]
    if not q:
        out += [dict(fn=f, d=d, N=5, prec=64, all=True) for f in SDE + ODE + OTHER for d in (1, 2, 3) if not (f == 'hypo' and d == 1)]
    out += [dict(fn=f, kind='step', d=d, N=N, prec=64, all=not q) for f in SDE + ODE for d, N in (((2, 4),) if q else ((2, 4), (1, 7), (3, 3))) if f != 'hypo' or d > 1]
    out += [dict(fn=f, kind='prior', d=d, N=1, prec=64, all=True) for f in ('ioup', 'matern') for d in (1, 2)]
    return out


def function(name, d, N, H=None):
    """fn(key, x) for a key and a point x of dimension d; of step size H (default: fixed) if given."""
    import jax
    import jax.numpy as jnp
    import bayesian_sde_solver.foster_polynomial as fp
    import bayesian_sde_solver.ito_stratonovich as its
    import bayesian_sde_solver.ode_solvers as o
    import bayesian_sde_solver.ode_solvers.probnum as pn
    from mc.checks.c06 import make
    from mc.lib import coefs
    A, B = jnp.asarray(coefs((d, d), 31)), jnp.asarray(coefs((d, d), 32))
    drift = lambda x, t: jnp.sin(A @ x) - (0.5 + t) * x
    sigma = lambda x, t: 0.5 * jnp.eye(d) + 0.2 * jnp.sin(B @ x)[:, None] * jnp.ones((1, d)) * (1 + t)
    field = lambda x, t: jnp.sin(A @ x) - (0.5 + t) * x
    if name in SDE:
        if name == 'hypo':
            drift = lambda x, t: jnp.concatenate([jnp.array([x[1] + 0.3 * jnp.sin(x[0])]), jnp.tanh(A @ x)[1:]])
            sigma = lambda x, t: jnp.diag(jnp.array([0.0] + [0.5] * (d - 1))) * (1 + 0.1 * jnp.sin(x[0]))
        elif name == 'diag':
            sigma = lambda x, t: jnp.diag(0.5 + 0.2 * jnp.sin(x))
        if name == 'pathwise':
            from bayesian_sde_solver.sde_solvers import euler_maruyama_pathwise
            return lambda k, x: euler_maruyama_pathwise(jax.random.normal(k, (N, d)), x, drift, sigma, 0.2 if H is None else H, N, standard=True)
        return make(name, d, N, 0.2 if H is None else H, drift, sigma, d, grid=True)
    if name in ODE:
        hh = 0.1 if H is None else H
        if name == 'euler':
            return lambda k, x: o.euler(init=x, vector_field=field, h=hh, N=N)
        keyed, nm = name.endswith('+'), name.rstrip('+')
        sq, nm = nm.endswith('s'), nm.rstrip('s')
        S = getattr(o, nm)
        if nm.endswith('_2'):
            P = jnp.asarray(0.1 * np.eye(d) + 0.05)
            return lambda k, x: S(k if keyed else None, init=(x, x, P), vector_field=field, h=hh, N=N, sqrt=sq)
        return lambda k, x: S(k if keyed else None, init=x, vector_field=field, h=hh, N=N, sqrt=sq)
    if name.startswith('gen'):
        from mc.checks.c02 import generator
        par, _ = generator(dict(gen=name[4:], dim=d, N=4))
        return lambda k, x: par(k, jnp.abs(x[0]) + 0.1)
    if name == 'poly':
        _, ev = fp.get_approx(dim=d)
        return lambda k, x: (ev(0.3, 0.5, x, 2 * x), jax.jacfwd(lambda t: ev(t, 0.5, x, 2 * x))(0.3))
    if name in ('ito', 'strat'):
        f = its.to_ito if name == 'ito' else its.to_stratonovich

        def g(k, x):
            dr, sg = f(drift, sigma)
            return dr(x, 0.3), sg(x, 0.3)
        return g
    if name == 'ioup':
        return lambda k, x: pn.IOUP_transition_function(theta=0.4, sigma=0.5, q=2, dt=jnp.abs(x[0]) + 0.1, dim=d)
    if name == 'matern':
        # uncompiled, the prior is computed eagerly; in the other modes inside the transformation, for a traced step size
        return lambda k, x: pn.matern_transition_function(1, 1.5, 0.8, jnp.abs(x[0]) + 0.1, d)
    if name == 'interlace':
        return lambda k, x: (pn.interlace((x, 2 * x, -x)), pn.interlace_matrix(A, jnp.outer(x, x), B, A @ B))
    if name.startswith('filter'):
        sq = name.endswith('s')
        H = jnp.asarray(coefs((1, 2 * d), 33))

        def g(k, x):
            m = jnp.concatenate([x, x])
            L = jnp.eye(2 * d) + 0.1 * jnp.tril(jnp.outer(m, m))
            return pn.ekf(init=(m, L if sq else L @ L.T), observation_function=lambda y, t: jnp.sin(H @ y) + t, A=jnp.eye(2 * d) * 0.9,
                          Q_or_cholQ=0.1 * jnp.eye(2 * d), xi=jnp.zeros(2 * d), R_or_cholR=0.3 * jnp.eye(1), params=(jnp.arange(N) * 1.0,), lower_sqrt=sq)
        if sq:
            h = lambda k, x: (lambda r: (r[0], r[1] @ r[1].T))(g(k, x))
            return h
        return g
    if name == 'mle':
        from bayesian_sde_solver.ode_solvers.probnum.calibration import mle_diffusion
        return lambda k, x: mle_diffusion(jnp.stack([x, 2 * x, -x]), jnp.stack([jnp.eye(d) + jnp.outer(x, x)] * 3))
    if name == 'linear':
        from bayesian_sde_solver.utils.ivp import random_linear_sde

        def g(k, x):
            x0, dr, sg = random_linear_sde(key=k, dim=d)
            return dr(x, 0.), sg(x, 0.)
        return g
    raise KeyError(name)


def run(case, ctx):
    import contextlib
    import jax
    with (jax.experimental.disable_x64() if case['prec'] == 32 else contextlib.nullcontext()):
        explore(case, ctx)


STEPS = [0.123456789, 1 / 7, 0.04]


def explore(case, ctx):
    if case.get('kind') == 'step':
        return steps(case, ctx)
    if case.get('kind') == 'prior':
        return prior(case, ctx)
    import jax
    import jax.numpy as jnp
    tm = jax.tree_util.tree_map
    f = function(case['fn'], case['d'], case['N'])
    name = case['fn']
    B = 3
    ft = np.float64 if case['prec'] == 64 else np.float32
    keys = jax.random.split(jax.random.PRNGKey(case['seed']), B)
    from mc.lib import coefs
    X = jnp.asarray(np.stack([coefs((case['d'],), 40 + i) for i in range(B)]).astype(ft))
    # a square root of a singular covariance amplifies rounding to its square root
    loose = ('ekf' in name and (name.endswith('+') or name in SDE)) or name.startswith('marg')
    tol = (2e-6 if loose else 1e-9) if case['prec'] == 64 else 5e-3
    alone = [tm(np.asarray, f(keys[i], X[i])) for i in range(B)]
    base = tm(lambda *a: np.stack(a), *alone)
    for y in jax.tree_util.tree_leaves(base):
        ctx.true('precision of the results', y.dtype == ft or y.dtype.kind not in 'f', got=str(y.dtype))
        ctx.finite('finite', y)
    ctx.visit(np.concatenate([np.asarray(y, dtype=float).reshape(B, -1) for y in jax.tree_util.tree_leaves(base)], axis=1), name)

    def check(label, got, sl=slice(None), want=None):
        want = tm(lambda y: y[sl], base) if want is None else want
        a, b = jax.tree_util.tree_flatten(got), jax.tree_util.tree_flatten(want)
        ctx.true(label + ': structure', a[1] == b[1], got=a[1], want=b[1])
        for x, y in zip(a[0], b[0]):
            ctx.eq(label, np.asarray(x), y, rtol=tol, atol=tol)
            ctx.true(label + ': dtype', np.asarray(x).dtype == y.dtype, got=str(np.asarray(x).dtype), want=str(y.dtype))
        ctx.trans(1)
        ctx.trace(1)

    jf = jax.jit(f)
    for i in range(B):
        check('jit', jf(keys[i], X[i]), want=alone[i])
        check('uncompiled again', f(keys[i], X[i]), want=alone[i]) if i == 0 else None
    check('jit of vmap of 3', jax.jit(jax.vmap(f))(keys, X))
    check('jit of vmap of 1', jax.jit(jax.vmap(f))(keys[2:], X[2:]), slice(2, 3))
    check('vmap of jit', jax.vmap(jf)(keys, X))
    k2, x2 = keys[jnp.array([[0, 1], [2, 0]])], X[jnp.array([[0, 1], [2, 0]])]
    check('nested vmap', jax.jit(jax.vmap(jax.vmap(f)))(k2, x2), want=tm(lambda y: y[np.array([[0, 1], [2, 0]])], base))
    check('one state, batch of keys', jax.jit(jax.vmap(f, in_axes=(0, None)))(keys[1:2], X[1]), slice(1, 2))
    if case['all']:
        check('vmap', jax.vmap(f)(keys, X))
        check('vmap of 1', jax.vmap(f)(keys[:1], X[:1]), slice(0, 1))
        check('jit of vmap of 2', jax.jit(jax.vmap(f))(keys[1:], X[1:]), slice(1, 3))
        check('map', jax.lax.map(lambda a: f(*a), (keys, X)))
        check('one key, batch of states', jax.jit(jax.vmap(f, in_axes=(None, 0)))(keys[0], X[:1]), slice(0, 1))
        check('states closed over', jax.jit(lambda k: f(k, X[2]))(keys[2]), want=alone[2])
        check('batched along the last axis', jax.jit(jax.vmap(f, in_axes=(0, 1)))(keys, X.T))
    if name.startswith('gen'):
        from mc.checks.c02 import generator
        par, _ = generator(dict(gen=name[4:], dim=case['d'], N=4))
        dts = jnp.abs(X[:, 0]) + 0.1
        i2 = jnp.array([[0, 1], [2, 0]])
        check('called on a batch', par(keys, dts))
        check('called on a batch of one', par(keys[1:2], dts[1:2]), slice(1, 2))
        check('called on a matrix of keys and steps', par(keys[i2], dts[i2]), np.asarray(i2))
        one = [tm(np.asarray, par(keys[i], dts[0])) for i in range(B)]
        check('called on a batch of keys', par(keys, dts[0]), want=tm(lambda *a: np.stack(a), *one))
        check('called on a batch of keys, jit', jax.jit(par)(keys, dts[0]), want=tm(lambda *a: np.stack(a), *one))
        one = [tm(np.asarray, par(keys[0], t)) for t in dts]
        check('called on a batch of steps', par(keys[0], dts), want=tm(lambda *a: np.stack(a), *one))
        one = [[tm(np.asarray, par(k, t)) for t in dts] for k in keys]
        check('keys by steps', par(keys[:, None], dts[None, :2]), want=tm(lambda *a: np.stack(a).reshape((3, 3) + a[0].shape)[:, :2], *sum(one, [])))
    if name == 'poly':
        from bayesian_sde_solver.foster_polynomial import get_approx
        _, ev = get_approx(dim=case['d'])
        ts = jnp.asarray(np.array([0.1, 0.25, 0.4], ft))
        each = np.array([[[ev(t, 0.5, X[i, j], X[i, j] * 2) for j in range(case['d'])] for i in range(B)] for t in ts])
        check('times by paths by components', ev(ts[:, None, None], 0.5, X, 2 * X), want=each)
        check('times by components', ev(ts[:, None], 0.5, X[1], 2 * X[1]), want=each[:, 1])
        check('one time per path', ev(ts[:, None], 0.5, X, 2 * X), want=each[np.arange(3), np.arange(3)])
        check('component', ev(ts[1], 0.5, X[2, 0], 2 * X[2, 0]), want=each[1, 2, 0])
        dd = jnp.asarray(np.array([0.5, 0.75, 1.0], ft))
        check('steps', ev(ts[0], dd[:, None], X[1], 2 * X[1]), want=np.array([[ev(ts[0], t, X[1, j], X[1, j] * 2) for j in range(case['d'])] for t in dd]))
    ctx.sample(value=np.asarray(jax.tree_util.tree_leaves(base)[0])[0])


def leaves_equal(ctx, label, got, want, tol):
    import jax
    a, b = jax.tree_util.tree_flatten(got), jax.tree_util.tree_flatten(want)
    ctx.true(label + ': structure', a[1] == b[1], got=a[1], want=b[1])
    for x, y in zip(a[0], b[0]):
        x, y = np.asarray(x), np.asarray(y)
        ctx.eq(label, x, y, rtol=tol, atol=tol)
        ctx.true(label + ': dtype', x.dtype == y.dtype, got=str(x.dtype), want=str(y.dtype))
    ctx.trans(1)
    ctx.trace(1)


def steps(case, ctx):
    """The step size as a Python number, a NumPy scalar, an array of rank 0, a traced value, a batched one."""
    import jax
    import jax.numpy as jnp
    from mc.lib import coefs
    tm = jax.tree_util.tree_map
    name, d, N = case['fn'], case['d'], case['N']
    key, x = jax.random.PRNGKey(case['seed'] + 5), jnp.asarray(coefs((d,), 41))
    f = lambda h: function(name, d, N, h)(key, x)
    loose = ('ekf' in name and (name.endswith('+') or name in SDE)) or name.startswith('marg')
    tol = 2e-6 if loose else 1e-9
    want = [tm(np.asarray, f(h)) for h in STEPS]
    if name in SDE and name != 'pathwise':
        for h, w in zip(STEPS, want):
            ctx.eq('grid', w[-1], np.arange(N + 1) * h, rtol=1e-12, atol=1e-12)
    jf = jax.jit(f)
    for h, w in zip(STEPS, want):
        leaves_equal(ctx, 'traced step', jf(h), w, tol)
    leaves_equal(ctx, 'NumPy step', f(np.float64(STEPS[0])), want[0], tol)
    leaves_equal(ctx, 'array step', f(jnp.asarray(STEPS[1])), want[1], tol)
    stacked = tm(lambda *a: np.stack(a), *want)
    leaves_equal(ctx, 'batch of steps', jax.jit(jax.vmap(f))(jnp.asarray(STEPS)), stacked, tol)
    leaves_equal(ctx, 'integer step', f(1), f(1.0), tol)
    if case['all']:
        leaves_equal(ctx, 'NumPy array of rank 0', f(np.array(STEPS[0])), want[0], tol)
        leaves_equal(ctx, 'NumPy integer step', f(np.int64(1)), f(1.0), tol)
        leaves_equal(ctx, 'batch of steps, uncompiled', jax.vmap(f)(jnp.asarray(STEPS)), stacked, tol)
        leaves_equal(ctx, 'map over steps', jax.lax.map(f, jnp.asarray(STEPS)), stacked, tol)
        # sequential composition under a scan
        _, s = jax.lax.scan(lambda c, h: (c, f(h)), 0, jnp.asarray(STEPS))
        leaves_equal(ctx, 'scan over steps', s, stacked, tol)
    ctx.visit(np.concatenate([np.asarray(y, float).reshape(3, -1) for y in jax.tree_util.tree_leaves(stacked)], axis=1), name)
    ctx.sample(value=jax.tree_util.tree_leaves(want[0])[0])


def prior(case, ctx):
    """Every real parameter of a prior traced, one at a time and together."""
    import jax
    import jax.numpy as jnp
    import bayesian_sde_solver.ode_solvers.probnum as pn
    tm = jax.tree_util.tree_map
    d = case['d']
    for q in (1, 2) if case['fn'] == 'matern' else (1, 2, 3):
        if case['fn'] == 'ioup':
            f = lambda a, b, dt: pn.IOUP_transition_function(theta=a, sigma=b, q=q, dt=dt, dim=d)
            pts = [(0.4, 0.5, 0.123456789), (-0.3, 1.7, 1.0), (1.3, 0.2, 0.01), (0.0, 1.0, 0.3)]
        else:
            f = lambda a, b, dt: pn.matern_transition_function(q, a, b, dt, d)
            pts = [(0.4, 0.5, 0.123456789), (2.3, 1.7, 1.0), (1.3, 0.2, 0.01)]
        want = [tm(np.asarray, f(*p)) for p in pts]
        jf = jax.jit(f)
        for p, w in zip(pts, want):
            leaves_equal(ctx, 'all traced', jf(*p), w, 1e-9)
            for i in range(3):
                one = jax.jit(lambda v: f(*(p[:i] + (v,) + p[i + 1:])))
                leaves_equal(ctx, f'parameter {i} traced', one(p[i]), w, 1e-9)
            leaves_equal(ctx, 'NumPy numbers', f(*map(np.float64, p)), w, 1e-9)
            leaves_equal(ctx, 'arrays of rank 0', f(*map(jnp.asarray, p)), w, 1e-9)
        leaves_equal(ctx, 'batch', jax.vmap(f)(*jnp.asarray(pts).T), tm(lambda *a: np.stack(a), *want), 1e-9)
        leaves_equal(ctx, 'integers', f(1, 2, 1), tm(np.asarray, f(1.0, 2.0, 1.0)), 1e-9)
        ctx.visit(np.concatenate([np.stack([w[i].ravel() for w in want]) for i in range(len(want[0]))], axis=1), str(q))
    ctx.sample(value=np.asarray(want[0][0]))
