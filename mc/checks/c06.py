"""C06: independence of the random numbers by step, component and role; adaptedness; the key decides everything.

chain:   for an affine problem the joint law of everything an N-step run returns (states and coefficients of all steps),
         read off a basis of its noise space, must be the law of the Markov chain whose kernel is the one-step run:
         any reuse of a key between steps, anticipation or unused step noise shows as a wrong covariance.
decoupled: independent components and roles: the components of a decoupled problem are independent, increment and area
         are independent, and the posterior sampling noise is not a function of the path noise.
effect:  non-linear multiplicative problem; every variable of the execution is varied alone, at two base points.
keys:    the keys consumed under different keys (all pairs) are disjoint; the genuine generator reproduces."""
import itertools

import numpy as np

from mc import noise
from mc.lib import Law, basis_rows, coefs, flat, gaussian_law

BOUNDS = dict(quick='24 solver configurations, d <= 2, N <= 4 (N = 6 for three of them); 3 generators, dim <= 3; 6 keys (all pairs); runs of 1100 steps (d = 2) and d = 12: all pairs of random numbers',
              thorough='d <= 3, N <= 8; 20 keys')

GENS = ('approx', 'brownian', 'fine')
ODES = ('euler', 'ekf0', 'ekf1s', 'ekf0_2', 'ekf1_2s')


def cases(tier):
    q = tier == 'quick'
    out = []
    conf = [f'bm-{g}-{o}' for g in GENS for o in (ODES if g == 'approx' or not q else ('euler', 'ekf1'))]
    conf += ['bm-approx-ekf1', 'bm-approx-ekf0s', 'bm-approx-ekf1_2', 'bm-approx-ekf0_2s', 'em', 'diag', 'hypo', 'marg0', 'marg1', 'marg0s', 'marg1s']
    for s in conf:
        for d in ((1, 2) if q else (1, 2, 3)):
            if s == 'hypo' and d == 1:
                continue
            if q and d == 1 and s not in ('em', 'diag', 'bm-approx-ekf1', 'bm-approx-ekf0_2', 'bm-fine-euler'):
                continue
            for N in ((4,) if q else (2, 4, 8)):
                out.append(dict(kind='chain', solver=s, d=d, N=N))
            if s != 'hypo':
                out.append(dict(kind='decoupled', solver=s, d=d, N=1 if q else 2))
        out.append(dict(kind='effect', solver=s, d=2, N=3 if q else 5))
    for s in ('em', 'bm-approx-euler', 'marg1'):
        out.append(dict(kind='chain', solver=s, d=1, N=6 if q else 16))
    names = ['em', 'diag', 'hypo', 'marg0', 'marg1s', 'linear'] + [f'bm-{g}-{o}' for g in GENS for o in ('euler', 'ekf0', 'ekf1_2')] + [f'gen-{g}' for g in GENS]
    for i in range(0, len(names), 3):
        out.append(dict(kind='keys', names=names[i:i + 3], roots=6 if q else 20))
    for dim in ((1, 2, 3) if q else (1, 2, 3, 4, 5)):
        out.append(dict(kind='linear', d=dim))
    for s in conf:
        out.append(dict(kind='long', solver=s, d=2, N=1100 if q else 5000))
        if s in ('em', 'diag', 'hypo', 'bm-approx-euler', 'bm-fine-euler', 'marg0', 'bm-approx-ekf0'):
            out.append(dict(kind='long', solver=s, d=12, N=40 if q else 300))
    return out


def make(name, d, N, h, drift, sigma, m, grid=False):
    """fn(key, x0) -> list of per-step arrays [(N, ...), ...], the first being the states after each step (the last one the grid)."""
    import jax.numpy as jnp
    import bayesian_sde_solver.foster_polynomial as fp
    import bayesian_sde_solver.ode_solvers as o
    import bayesian_sde_solver.sde_solvers as s
    import bayesian_sde_solver.ssm_parabola as sp
    from bayesian_sde_solver.sde_solver import sde_solver

    def out(ts, traj, *co):
        states = [z[1:] for z in traj[:2]] if isinstance(traj, tuple) else [traj[1:]]
        return states + list(co) + ([ts] if grid else [])
    if name == 'em':
        return lambda k, x: out(*s.euler_maruyama(k, x, drift, sigma, h, N))
    if name == 'diag':
        return lambda k, x: out(*s.diag_15_scheme(k, x, lambda y: drift(y, 0.), lambda y: sigma(y, 0.), h, N))
    if name == 'hypo':
        return lambda k, x: out(*s.hypoelliptic_diffusion_15_scheme(k, x, lambda y: drift(y, 0.), lambda y: sigma(y, 0.), h, N))
    if name.startswith('marg'):
        S = sp.ekf1_marginal_parabola if '1' in name else sp.ekf0_marginal_parabola
        sol = lambda key, init, drift, diffusion, T: S(key, init, delta=T, drift=drift, diffusion=diffusion, h=T / 2, N=2, sqrt=name.endswith('s'))
        return lambda k, x: out(*sp.ssm_parabola_ode_solver(k, drift, sigma, x, h, N, sol))
    _, g, ode = name.split('-')
    bm = dict(approx=lambda: fp.get_approx(dim=m), brownian=lambda: fp.get_approx_and_brownian(dim=m, N=3),
              fine=lambda: fp.get_approx_fine(dim=m, N=2))[g]
    sq = ode.endswith('s')
    base = ode.rstrip('s')
    if base == 'euler':
        ode_int = lambda key, init, vector_field, T: o.euler(init=init, vector_field=vector_field, h=T / 4, N=4)
    else:
        S = getattr(o, base)
        ode_int = lambda key, init, vector_field, T: S(key, init=init, vector_field=vector_field, h=T / 2, N=2, sqrt=sq)

    def f(k, x):
        init = (x, x, jnp.zeros((d, d))) if base.endswith('_2') else x
        return out(*sde_solver(key=k, drift=drift, sigma=sigma, x0=init, bm=bm, delta=h, N=N, ode_int=ode_int))
    return f


def affine_problem(name, d):
    import jax.numpy as jnp
    A = np.diag([-0.6, 0.3, -0.2][:d]) + 0.4 * (coefs((d, d), 5) if d > 1 else 0)
    a = coefs((d,), 6)
    if name == 'hypo':
        G = np.vstack([np.zeros((1, d)), 0.5 * np.eye(d)[1:] + 0.2 * coefs((d - 1, d), 8)])
        A[0, 1] = 0.9
    elif name == 'diag':
        G = np.diag([0.5, 0.8, 0.3][:d])
    elif name.startswith('marg'):
        G = 0.5 * np.eye(d) + 0.2 * np.tril(coefs((d, d), 8), -1)
    else:
        G = np.concatenate([0.5 * np.eye(d), 0.3 * coefs((d, 1), 8)], axis=1)
    jA, ja, jG = jnp.asarray(A), jnp.asarray(a), jnp.asarray(G)
    return (lambda x, t: jA @ x + ja), (lambda x, t: jG), G.shape[1], coefs((d,), 9)


def run(case, ctx):
    dict(chain=chain, decoupled=decoupled, effect=effect, keys=keys, linear=linear, long=long)[case['kind']](case, ctx)


def exact(fn, ctx, case, extra, label):
    """Mean and basis image of an affine run, sequential so that the square-root factors are reproducible."""
    out1, rec = noise.record(lambda k: fn(k, *extra), case['seed'])
    Z = basis_rows(rec.n_vars, pairs=rec.n_vars <= 24)
    F = flat(noise.run(fn, rec, Z, seed=case['seed'], extra=extra, sequential=True), len(Z))
    n = rec.n_vars
    L = (F[1:n + 1] - F[0]).T
    ctx.finite(label + ': finite', F)
    ctx.eq(label + ': affine in the noise', F, F[0] + Z @ L.T, atol=1e-6)
    ctx.visit(F, label)
    ctx.trans(len(Z))
    ctx.trace(len(Z))
    return Law(F[0], L), out1, rec


def states_laws(fn, rec, ctx, case, X):
    """Laws of the affine run from every state of X, one compiled run."""
    n = rec.n_vars
    Z = basis_rows(n, pairs=False)[:n + 1]
    F = flat(noise.run(fn, rec, np.tile(Z, (len(X), 1)), seed=case['seed'], extra=(np.repeat(X, len(Z), axis=0),), in_axes=(0,), sequential=True),
             len(X) * len(Z)).reshape(len(X), len(Z), -1)
    ctx.visit(F.reshape(len(X) * len(Z), -1), 'states')
    ctx.trans(len(X) * len(Z))
    return [Law(f[0], (f[1:] - f[0]).T) for f in F]


def chain(case, ctx):
    name, d, N, h = case['solver'], case['d'], case['N'], 0.3
    drift, sigma, m, x0 = affine_problem(name, d)
    mix = '_2' in name
    one = make(name, d, 1, h, drift, sigma, m)
    many = make(name, d, N, h, drift, sigma, m)
    law1, out1, rec1 = exact(one, ctx, case, (x0,), 'one step')
    sizes = [int(np.size(o)) for o in out1]
    offs = np.r_[0, np.cumsum(sizes)]
    p = offs[-1]
    # dependence of the one-step law on the state
    X = np.concatenate([x0 + np.eye(d), x0 - 2 * np.eye(d)])
    means = states_laws(one, rec1, ctx, case, X)
    Fx = np.stack([means[i].mean - law1.mean for i in range(d)], axis=1)                # (p, d)
    for i, x in enumerate(X):
        ctx.eq('one-step mean is affine in the state', means[i].mean, law1.mean + Fx @ (x - x0), atol=1e-6)
        ctx.eq('one-step covariance does not depend on the state', means[i].cov, law1.cov, atol=1e-6)
    Q, c = law1.cov, law1.mean - Fx @ x0
    lawN, outN, recN = exact(many, ctx, case, (x0,), 'run')
    for o, o1 in zip(outN, out1):
        ctx.true('entries per step', np.shape(o) == (N,) + np.shape(o1)[1:], got=np.shape(o), want=(N,) + np.shape(o1)[1:])
    # order of the run's flat output: leaf-major; rearrange to step-major
    idx, o0 = [], 0
    for sz in sizes:
        idx.append(o0 + np.arange(N * sz).reshape(N, sz))
        o0 += N * sz
    idx = np.concatenate(idx, axis=1)                                                    # (N, p)
    # law of the chain
    mean, B = [], np.zeros((0, 0))
    full = np.zeros((N * p, N * p))                                                      # image of the innovations
    x = x0
    R = np.zeros((d, N * p))
    for k in range(N):
        y = c + Fx @ x
        row = Fx @ R
        row[:, k * p:(k + 1) * p] += np.eye(p)
        full[k * p:(k + 1) * p] = row
        mean.append(y)
        x, R = y[:d], row[:d]
    want_cov = full @ np.kron(np.eye(N), Q) @ full.T
    got = lawN.cov[np.ix_(idx.ravel(), idx.ravel())]
    if mix:
        # the mixture filters carry mean and covariance: the next step starts from the mean, not from the sample, and with
        # the propagated covariance, which the one-step run from a point does not know; only the coefficients and the
        # dependence pattern are compared
        return mixture(case, ctx, lawN, idx, sizes, d, N, Q, offs)
    sd = np.sqrt(np.maximum(np.diag(want_cov), 1e-7))
    ctx.eq('law of the run: mean', lawN.mean[idx], np.array(mean), atol=1e-6)
    ctx.eq('law of the run: covariance (steps are independent given the state)', got / np.outer(sd, sd), want_cov / np.outer(sd, sd), atol=2e-6)
    # every step's noise matters: the state innovation has full rank
    ctx.true('every component of the state is driven at every step', np.linalg.eigvalsh(Q[:d, :d])[0] > 1e-9, eig=float(np.linalg.eigvalsh(Q[:d, :d])[0]))
    ctx.sample(covariance=got[:4, :4], n_vars=recN.n_vars)


def mixture(case, ctx, lawN, idx, sizes, d, N, Q, offs):
    """Mixture filters: (sample, mean, coefficients...): coefficients of different steps independent with the one-step law;
    means are functions of the path noise; the samples' own noise is independent between steps and of everything else."""
    got = lawN.cov[np.ix_(idx.ravel(), idx.ravel())]
    p = idx.shape[1]
    co = np.concatenate([k * p + np.arange(offs[2], p) for k in range(N)])
    ctx.eq('coefficients of different steps are independent', got[np.ix_(co, co)], np.kron(np.eye(N), Q[offs[2]:, offs[2]:]), atol=1e-6)
    L = lawN.L[idx]                                                                       # (N, p, n)
    S, M, C = L[:, :d], L[:, d:2 * d], L[:, offs[2]:]
    # residual sample - mean is independent of the path and of the other steps
    E = S - M
    e = E.reshape(N * d, -1)
    path = np.concatenate([M, C], axis=1).reshape(-1, L.shape[-1])
    ctx.eq('sampling noise is independent of the path', e @ path.T, np.zeros((len(e), len(path))), atol=1e-7)
    G = (e @ e.T).reshape(N, d, N, d)
    for i in range(N):
        for j in range(i):
            ctx.eq('sampling noise of different steps is independent', G[i, :, j], np.zeros((d, d)), atol=1e-8)
        ctx.true('sampling noise in every step', np.linalg.eigvalsh(G[i, :, i])[0] > 1e-10)
    # means never depend on later coefficients
    flatC = C.reshape(N, -1, L.shape[-1])
    for i in range(N):
        for j in range(i + 1, N):
            ctx.eq('mean after step i is independent of the path after it', M[i] @ flatC[j].T, np.zeros((d, flatC.shape[1])), atol=1e-8)


def decoupled(case, ctx):
    import jax.numpy as jnp
    name, d, N, h = case['solver'], case['d'], case['N'], 0.3
    a = jnp.asarray([-0.6, 0.3, -0.2][:d])
    sg = jnp.asarray(np.diag([0.5, 0.8, 1.2][:d]))
    fn = make(name, d, N, h, lambda x, t: a * x, lambda x, t: sg, d)
    law, out1, rec = exact(fn, ctx, case, (coefs((d,), 9),), 'decoupled')
    comp, off = [], 0
    for o in out1:
        shp = np.shape(o)
        comp.append(np.tile(np.arange(d), int(np.size(o)) // d))
    comp = np.concatenate(comp)
    C = law.cov
    sd = np.sqrt(np.maximum(np.diag(C), 1e-12))
    K = C / np.outer(sd, sd)
    cross = comp[:, None] != comp[None, :]
    ctx.eq('components of a decoupled problem are independent', np.where(cross, K, 0), np.zeros_like(K), atol=1e-6)
    sampled = 'ekf' in name
    if name.startswith('bm') and N == 1:
        sizes = [int(np.size(o)) for o in out1]
        offs = np.r_[0, np.cumsum(sizes)]
        n_state = 2 if '_2' in name else 1
        for i in range(d):
            r = [0 * d + i, offs[n_state] + i, offs[n_state + 1] + i]           # state, increment, area
            ctx.eq('increment and area are independent', K[r[1], r[2]], 0.0, atol=1e-7)
            path = np.array([j for j in range(offs[n_state], p_end(offs)) if comp[j] == i])
            # residual of the state given the complete path information
            B = np.linalg.lstsq(C[np.ix_(path, path)], C[path, r[0]], rcond=1e-10)[0]
            res = C[r[0], r[0]] - C[path, r[0]] @ B
            if sampled:
                ctx.true('posterior sampling noise is not a function of the path', res > 1e-9, residual=float(res))
            else:
                ctx.true('without posterior sampling the state is a function of the path', abs(res) < 1e-9, residual=float(res))
    ctx.sample(correlation=K[:3, :3])


def p_end(offs):
    return int(offs[-1])


def effect(case, ctx):
    """Each step's random numbers reach its state and nothing before it, also in non-linear problems."""
    import jax.numpy as jnp
    name, d, N, h = case['solver'], case['d'], case['N'], 0.3
    a, b = jnp.asarray(coefs((d, d), 11)), jnp.asarray(coefs((d, d), 12))
    drift = lambda x, t: jnp.tanh(a @ x) - 0.2 * x
    if name == 'hypo':
        sigma = lambda x, t: jnp.array([[0.0, 0.0], [0.3, 0.5 + 0.1 * jnp.sin(x[0])]])
        drift = lambda x, t: jnp.array([x[1] + 0.3 * jnp.sin(x[0]), jnp.tanh(x[0]) - x[1]])
    elif name == 'diag':
        sigma = lambda x, t: jnp.diag(0.5 + 0.2 * jnp.sin(x))
    else:
        sigma = lambda x, t: 0.5 * jnp.eye(d) + 0.2 * jnp.sin(b @ x)[:, None] * jnp.ones((1, d))
    x0 = coefs((d,), 9)
    fn = make(name, d, N, h, drift, sigma, d)
    f = lambda k: fn(k, jnp.asarray(x0))[0]
    out1, rec = noise.record(f, case['seed'])
    n = rec.n_vars
    marg = name.startswith('marg')
    for bi, base in enumerate((0.3 * coefs((n,), 20), 0.8 * coefs((n,), 21))):
        Z = np.concatenate([base[None], base + 0.7 * np.eye(n), base - 1.1 * np.eye(n)])
        X = noise.run(f, rec, Z, seed=case['seed'], sequential=True)
        dev = np.abs(X[1:] - X[:1]).max(axis=2).reshape(2, n, N).max(axis=0) > 1e-9            # (n, N)
        first = np.where(dev.any(axis=1), dev.argmax(axis=1), N)
        per = np.bincount(first, minlength=N + 1)
        ctx.true('every step uses its own random numbers', (per[:N] > 0).all(), per_step=per.tolist())
        # (a posterior sample may ignore some of its numbers: the number of effective ones is not a property)
        for k in range(N):
            v = np.flatnonzero(first == k)
            D = np.concatenate([X[1 + v, k] - X[0, k], X[1 + n + v, k] - X[0, k]])
            sv = np.linalg.svd(D, compute_uv=False) if len(v) else np.zeros(d)
            ctx.true('the noise of a step reaches all components', sv[d - 1] > 1e-4 * sv[0], step=k, sv=sv.tolist())
        # the state after step k is a function of the state before it and of that step's noise:
        # with the noise of the earlier steps changed jointly, the state after step k must change (it is used)
        for k in range(N - 1):
            v = first == k
            if '_2' in name:
                continue
            ctx.true('later states remember earlier noise', dev[v][:, k:].any(axis=0).all(), step=k)
        ctx.visit(np.concatenate([x for x in X]), name)
        ctx.trans(len(Z) * N)
        ctx.trace(len(Z))
    ctx.sample(per_step=per)


def keys(case, ctx):
    """Different keys share no randomness (all pairs), the same key reproduces; decided on consumed keys and on values."""
    import jax
    import jax.numpy as jnp
    d, N, h = 2, 3, 0.3
    for name in case['names']:
        if name == 'linear':
            from bayesian_sde_solver.utils.ivp import random_linear_sde

            def f(k):
                x0, dr, sg = random_linear_sde(key=k, dim=3)
                return dr(jnp.arange(3.0), 0.0), sg(x0, 0.0)
        elif name.startswith('gen'):
            from mc.checks.c02 import generator
            par, _ = generator(dict(gen=name[4:], dim=2, N=4))
            f = lambda k: par(k, 0.5)
        else:
            drift, sigma, m, x0 = affine_problem(name, d)
            g = make(name, d, N, h, drift, sigma, m)
            f = lambda k: g(k, jnp.asarray(x0))
        roots = [case['seed'] * 1000 + i for i in range(case['roots'])]
        used = []
        for rec in noise.record_many(f, roots):
            used.append({x.node for x in rec.draws})
            ctx.true(f'{name}: randomness is consumed', len(used[-1]) > 0)
            ctx.trans(len(rec.draws))
        for i, j in itertools.combinations(range(len(roots)), 2):
            ctx.true(f'{name}: different keys share no randomness', not used[i] & used[j], keys=[roots[i], roots[j]])
        ctx.visit(np.array([[hash(x) % 2 ** 40 for x in sorted(u)][:1] for u in used], dtype=float), name)
        # genuine generator
        jf = jax.jit(f)
        ks = [jax.random.PRNGKey(r) for r in roots] + list(jax.random.split(jax.random.PRNGKey(roots[0]), 3)[1:])
        vals = [flat([np.asarray(x)[None] for x in jax.tree_util.tree_leaves(jf(k))], 1)[0] for k in ks]
        again = [flat([np.asarray(x)[None] for x in jax.tree_util.tree_leaves(jf(k))], 1)[0] for k in ks]
        for i in range(len(ks)):
            ctx.eq(f'{name}: the same key reproduces', again[i], vals[i], rtol=0, atol=0)
            for j in range(i):
                ctx.true(f'{name}: different keys differ', np.abs(vals[i] - vals[j]).max() > 1e-6)
        ctx.trace(len(roots) + 2 * len(ks))


def distinct(ctx, label, *seqs):
    """No number occurs twice (up to sign and the known scales of the sequences)."""
    v, w = [], []
    for i, s in enumerate(seqs):
        s = np.asarray(s, dtype=float)
        v.append(np.abs(s).ravel() / np.sqrt(np.mean(s ** 2)))
        w += [(i,) + ix for ix in np.ndindex(s.shape)]
    v = np.concatenate(v)
    o = np.argsort(v)
    g = np.diff(v[o])
    k = int(np.argmin(g))
    ctx.true(label, g[k] > 1e-10, gap=float(g[k]), entries=[str(w[o[k]]), str(w[o[k + 1]])])


def long(case, ctx):
    """Runs over many steps: the noise of all pairs of (step, component, role) is different."""
    import jax
    import jax.numpy as jnp
    name, d, N, h = case['solver'], case['d'], case['N'], 0.05
    sig = jnp.eye(d)
    drift = lambda x, t: 0.0 * x
    if name == 'hypo':
        sig = sig.at[0, 0].set(0.0)
        drift = lambda x, t: (0.0 * x).at[0].set(jnp.arange(d) @ x)
    fn = make(name, d, N, h, drift, lambda x, t: sig, d)
    out = [np.asarray(o) for o in jax.jit(lambda k: fn(k, jnp.zeros(d)))(jax.random.PRNGKey(case['seed']))]
    ctx.visit(out[0], name)
    ctx.trans(N)
    inc = np.diff(out[0], axis=0, prepend=0.0)
    if name == 'hypo':
        prev = np.concatenate([np.zeros((1, d)), out[0][:-1]])
        inc[:, 0] -= h * prev @ np.arange(d)
        distinct(ctx, f'{name}: first component of different steps', inc[:, 0])
        inc = inc[:, 1:]
    if name.startswith('bm') and 'ekf' in name:
        if '_2' in name:
            inc = out[0] - out[1]                                   # sample - mean
        else:
            B = np.stack([o.reshape(N * d) for o in out[1:3]], axis=1)
            y = inc.reshape(-1)
            inc = (y - B @ np.linalg.lstsq(B, y, rcond=None)[0]).reshape(N, d)
        scale = np.sqrt(np.mean(inc ** 2)) / np.sqrt(h)
        ctx.true(f'{name}: posterior sampling noise is there', scale > 1e-6, scale=float(scale))
    distinct(ctx, f'{name}: noise of different steps and components', inc)
    if name.startswith('bm'):
        co = out[2:] if '_2' in name else out[1:]
        if 'fine' in name or 'brownian' in name:
            distinct(ctx, f'{name}: fine path of different steps and sub-intervals', *co[2:])
        distinct(ctx, f'{name}: increments and areas of different steps', *co[:2])
    ctx.trace(1)


def linear(case, ctx):
    """random_linear_sde: all entries of both matrices are independent standard normals."""
    import jax
    import jax.numpy as jnp
    from bayesian_sde_solver.utils.ivp import random_linear_sde
    d = case['d']

    def f(k):
        x0, dr, sg = random_linear_sde(key=k, dim=d)
        return jax.vmap(lambda e: dr(e, 0.0))(jnp.eye(d)).T, sg(x0, 0.0)
    law, _, rec = gaussian_law(f, ctx, seed=case['seed'], label='linear')
    ctx.eq('drift and diffusion matrices are independent', law.cov, np.eye(2 * d * d))
    ctx.trace(1)
