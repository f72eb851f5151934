"""C23: the grid contract of every solver on the product of step counts, step sizes, dimensions and state structures, on
dynamics whose states are known in closed form (counters), so that a missing, repeated or misplaced entry shows; insert on all
positions, axes and shapes up to rank 3."""
import itertools

import numpy as np

BOUNDS = dict(quick='15 solver configurations x N in {1..6, 17, 100} (filters {1, 2, 3, 6, 17}) x h in {.01, .25, 1} x d <= 2 (d = 5: N in {1, 3}; N in {1001, 1537}: h = .003); insert: shapes up to rank 3 with extents <= 3, all positions and axes, arrays and tuples up to 3 members',
              thorough='N in {1..16, 50, 100, 1000, 2500} x 5 step sizes x d <= 3')
CONF = ['em', 'pathwise', 'diag', 'hypo', 'marg0', 'marg1s', 'euler-approx', 'euler-brownian', 'euler-fine', 'ekf0', 'ekf1s', 'ekf0_2', 'ekf1_2s', 'tuple', 'nested']


def cases(tier):
    q = tier == 'quick'
    out = []
    for s in CONF:
        for d in ((1, 2) if q else (1, 2, 3)):
            if s == 'hypo' and d == 1 or q and d == 1 and s[:3] in ('ekf', 'mar') and s != 'ekf0_2':
                continue
            out.append(dict(kind='grid', solver=s, d=d, Ns=([1, 2, 3, 6, 17] if s[:3] in ('ekf', 'mar') else [1, 2, 3, 4, 5, 6, 17, 100]) if q else list(range(1, 17)) + [50, 100, 1000, 2500],
                            hs=[0.25, 0.0123456789, 1.0] if q else [0.25, 0.0123456789, 1.0, 1e-4, 1 / 3]))
        out.append(dict(kind='grid', solver=s, d=5, Ns=[1, 3], hs=[0.2, 7.0]))
        if s != 'tuple':
            out.append(dict(kind='grid', solver=s, d=2, Ns=[1001, 1537], hs=[0.003]))
    for r in (1, 2, 3):
        out.append(dict(kind='insert', rank=r, ext=3 if q else 4))
    return out


def run(case, ctx):
    grid(case, ctx) if case['kind'] == 'grid' else insertion(case, ctx)


def solve(name, d, N):
    """fn(x0, h) -> (ts, [trajectories with their step map], coefficients)."""
    import jax
    import jax.numpy as jnp
    import bayesian_sde_solver.foster_polynomial as fp
    import bayesian_sde_solver.ode_solvers as o
    import bayesian_sde_solver.sde_solvers as s
    import bayesian_sde_solver.ssm_parabola as sp
    from bayesian_sde_solver.sde_solver import sde_solver
    c = jnp.arange(1.0, d + 1)
    drift = lambda x, t: c
    zero = lambda x, t: jnp.zeros((d, d))
    key = jax.random.PRNGKey(5)
    if name == 'em':
        return lambda x, h: s.euler_maruyama(key, x, drift, zero, h, N) + ([],)
    if name == 'pathwise':
        return lambda x, h: s.euler_maruyama_pathwise(jnp.ones((N, d)), x, drift, zero, h, N) + ([],)
    if name == 'diag':
        return lambda x, h: s.diag_15_scheme(key, x, lambda y: c, lambda y: jnp.eye(d) * 1e-18, h, N) + ([],)
    if name == 'hypo':
        G = 1e-12 * jnp.eye(d).at[0, 0].set(0.0)                # x_1' = x_2, x_2' = 2, ...: the scheme is exact
        return lambda x, h: s.hypoelliptic_diffusion_15_scheme(key, x, lambda y: c.at[0].set(y[1]), lambda y: G, h, N) + ([],)
    if name.startswith('marg'):
        S = sp.ekf1_marginal_parabola if '1' in name else sp.ekf0_marginal_parabola
        sol = lambda key, init, drift, diffusion, T: S(None, init, delta=T, drift=drift, diffusion=diffusion, h=T, N=1, sqrt=name.endswith('s'))
        return lambda x, h: sp.ssm_parabola_ode_solver(key, drift, lambda x, t: 1e-9 * jnp.eye(d), x, h, N, sol) + ([],)
    g = name.split('-')[1] if '-' in name else 'approx'
    bm = dict(approx=lambda: fp.get_approx(dim=d), brownian=lambda: fp.get_approx_and_brownian(dim=d, N=3), fine=lambda: fp.get_approx_fine(dim=d, N=2))[g]
    if name == 'tuple':
        def ode(key, init, vector_field, T):
            a, b, n = init
            return a + T * c, b * 2.0, n + 1
        mk = lambda x: (x, jnp.outer(x, x), jnp.asarray(3, dtype=jnp.int32))
    elif name == 'nested':
        def ode(key, init, vector_field, T):
            return init[0] + T * c, init[1] + jnp.ones((2, 2, 1))
        mk = lambda x: (x, jnp.zeros((2, 2, 1)))
    elif name.startswith('euler'):
        ode = lambda key, init, vector_field, T: o.euler(init=init, vector_field=vector_field, h=T / 2, N=2)
        mk = lambda x: x
    else:
        S = getattr(o, name.rstrip('s'))
        ode = lambda key, init, vector_field, T: S(None, init=init, vector_field=vector_field, h=T, N=1, sqrt=name.endswith('s'))
        mk = (lambda x: (x, x, jnp.zeros((d, d)))) if '_2' in name else (lambda x: x)

    def f(x, h):
        ts, traj, *co = sde_solver(key=key, drift=drift, sigma=zero, x0=mk(x), bm=bm, delta=h, N=N, ode_int=ode)
        return ts, traj, co
    return f


def grid(case, ctx):
    import jax
    name, d = case['solver'], case['d']
    x0 = np.array([0.3, -1.7, 0.9, 2.4, -0.2])[:d]
    c = np.arange(1.0, d + 1)
    for N in case['Ns']:
        f = solve(name, d, N)
        jf = jax.jit(f)
        for hi, h in enumerate(case['hs']):
            for lab, run_ in ((('jit', jf), ('plain', lambda x, h: f(x, h))) if hi == 0 and N < 4 else (('jit', jf),)):
                ts, traj, co = run_(jax.numpy.asarray(x0), h)
                k = np.arange(N + 1)
                ctx.true('number of times', np.shape(ts) == (N + 1,), got=np.shape(ts), N=N)
                ctx.eq('times', ts, k * h, rtol=1e-12, atol=1e-14)
                ctx.true('first time', float(ts[0]) == 0.0)
                want = x0 + k[:, None] * h * c
                if name == 'hypo':
                    want[:, 0] = x0[0] + k * h * x0[1] + (k * h) ** 2 / 2 * c[1]
                if name == 'tuple':
                    ctx.true('structure', isinstance(traj, tuple) and len(traj) == 3)
                    ctx.eq('member 0', traj[0], want)
                    ctx.eq('member 1', traj[1], np.outer(x0, x0) * (2.0 ** k)[:, None, None], rtol=1e-12)
                    ctx.eq('member 2', traj[2], 3 + k)
                elif name == 'nested':
                    ctx.true('structure', isinstance(traj, tuple) and len(traj) == 2)
                    ctx.eq('member 0', traj[0], want)
                    ctx.eq('member 1', traj[1], k[:, None, None, None] * np.ones((1, 2, 2, 1)))
                elif '_2' in name:
                    ctx.true('structure', isinstance(traj, tuple) and len(traj) == 3)
                    ctx.eq('samples', traj[0], want)
                    ctx.eq('means', traj[1], want)
                    ctx.true('covariances', np.shape(traj[2]) == (N + 1, d, d) and not np.asarray(traj[2][0]).any())
                    ctx.true('initial sample exactly', (np.asarray(traj[0][0]) == x0).all())
                else:
                    ctx.eq('states', traj, want, atol=1e-7 if name.startswith('marg') else 1e-9)
                    ctx.true('initial state exactly', (np.asarray(traj[0]) == x0).all(), got=traj[0])
                if name.split('-')[0] in ('em', 'pathwise', 'diag', 'hypo', 'marg0', 'marg1s'):
                    pass
                else:
                    ctx.true('coefficients are recorded', len(co) >= 2)
                    for z in co:
                        ctx.true('entries of the coefficients', np.shape(z)[0] == N, got=np.shape(z))
                ctx.visit(np.column_stack([np.asarray(ts), np.asarray(traj[0] if isinstance(traj, tuple) else traj)]), f'{name}{N}')
                ctx.trans(N)
                ctx.trace(1)
        jax.clear_caches()
    ctx.sample(ts=ts)


def insertion(case, ctx):
    import jax
    import jax.numpy as jnp
    from bayesian_sde_solver.utils.insert import insert
    r, e = case['rank'], case['ext']
    shapes = list(itertools.product(range(1, e + 1), repeat=r))
    states = []
    for shp in shapes:
        x = np.arange(1.0, 1 + np.prod(shp)).reshape(shp)
        x2 = -10 * x
        x3 = x + 0.5
        for ax in range(r):
            rest = shp[:ax] + shp[ax + 1:]
            y = 100 + np.arange(1.0, 1 + np.prod(rest)).reshape(rest)
            for pos in range(-shp[ax], shp[ax] + 1):
                p = pos if pos >= 0 else pos + shp[ax]
                def ref(a, b):
                    a = np.moveaxis(a, ax, 0)
                    return np.moveaxis(np.concatenate([a[:p], b[None], a[p:]]), 0, ax)
                before = x.copy()
                got = insert(jnp.asarray(x), pos, jnp.asarray(y), axis=ax)
                ctx.eq('insert into an array', got, ref(x, y), rtol=0, atol=0)
                t = (jnp.asarray(x), jnp.asarray(x2), jnp.asarray(x3))
                u = (jnp.asarray(y), jnp.asarray(-y), jnp.asarray(2 * y))
                for n in (1, 2, 3):
                    out = insert(t[:n], pos, u[:n], ax)
                    ctx.true('insert into a tuple: structure', isinstance(out, tuple) and len(out) == n)
                    for a, b, o_ in zip((x, x2, x3), (y, -y, 2 * y), out):
                        ctx.eq('insert into a tuple', o_, ref(a, b), rtol=0, atol=0)
                out = insert(x, pos, y, ax)
                ctx.eq('insert into a NumPy array', out, ref(x, y), rtol=0, atol=0)
                ctx.true('array unchanged', (x == before).all())
                ctx.trans(5)
                states.append(shp + (0,) * (3 - r) + (ax, pos))
        if r == 3 and sum(shp) % 2 and e > 3:
            jax.clear_caches()
    ctx.visit(np.array(states, dtype=float))
    ctx.trace(len(states))
    # members of different rank, a scalar member included
    out = insert((jnp.arange(3.0), jnp.ones((3, 2)), jnp.zeros((3, 2, 2))), 0, (jnp.asarray(9.0), jnp.array([4.0, 5.0]), jnp.eye(2)), axis=0)
    ctx.eq('members of different rank', out[0], np.array([9.0, 0, 1, 2]))
    ctx.eq('members of different rank', out[1][0], np.array([4.0, 5.0]))
    ctx.eq('members of different rank', out[2][0], np.eye(2))
    ctx.sample(position=states[-1])
