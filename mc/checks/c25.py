"""C25: histories.  The state of the explored system is the state of the process; the events are public calls which differ
pairwise in single arguments, around one or two base calls of each function.  All words of length two (thorough: three within families) over the alphabet of each family, and
of length two across families, are executed on walks that contain every word as a factor; every call must return what it
returns as the first call of a fresh process, leave its NumPy arguments as they were, and keep its result when the caller
overwrites the arguments afterwards."""
import itertools
import os
import pickle
import subprocess
import sys

import numpy as np

from mc.lib import coefs

BOUNDS = dict(quick='13 families, 216 operations: all ordered pairs within a family (in the families sde, ssm, marg and schemes: all ordered pairs with the base operation of the function and all pairs of base operations), all ordered pairs of representatives across families',
              thorough='all ordered triples within a family; all ordered pairs of operations of different families')


# ------------------------------------------------------------------------------------------------ the alphabet
class Arg:
    pass


def alphabet(family):
    """name -> thunk building (callable, args, kwargs) with fresh NumPy arguments."""
    import jax
    import jax.numpy as jnp
    C = lambda n, s: np.array(coefs((n,), s))
    key = lambda s=1: np.array([0, s], dtype=np.uint32)
    A2 = coefs((2, 2), 31)

    def field(a=1.0):                          # same code, different closure
        A = jnp.asarray(A2)
        return lambda x, t: a * jnp.sin(A @ x) - (0.5 + t) * x

    def drift1(a=1.0):
        return lambda x: a * jnp.sin(jnp.asarray(A2) @ x) - 0.5 * x

    def diffusion(b=1.0):
        B = jnp.asarray(coefs((2, 2), 32))
        return lambda x, t: 0.5 * b * jnp.eye(2) + 0.2 * jnp.sin(B @ x)[:, None] * (1 + t)

    def variations(fn, base, alts, other=None, both=False):
        """base arguments and one change at a time; every value is built anew for each call."""
        ops = {'base': lambda: (fn, (), {k: v() for k, v in base.items()})}
        for name, ch in alts.items():
            ops[name] = (lambda ch=ch: (fn, (), {k: (ch[k] if k in ch else v)() for k, v in {**base, **{k: ch[k] for k in ch if k not in base}}.items()}))
        if other:               # the same changes around a second base, which differs from the first one in several arguments
            ops.update({'2' + k: v for k, v in variations(fn, {**base, **other}, {k: v for k, v in alts.items() if both or not set(v) & set(other)}).items()})
        return ops

    K = lambda v: (lambda: v)
    if family == 'gens':
        import bayesian_sde_solver.foster_polynomial as fp
        ops = {}
        for g, kws in dict(get_approx=[{}, dict(dim=2), dict(dim=3)], get_approx_and_brownian=[dict(N=3), dict(dim=2, N=3), dict(dim=2, N=4)],
                           get_approx_fine=[dict(N=2), dict(dim=2, N=2), dict(dim=2, N=3)]).items():
            for kw in kws:
                def fn(key, dt, g=g, kw=kw):
                    par, ev = getattr(fp, g)(**kw)
                    co = par(key, dt)
                    return co, ev(0.1, dt, *co)
                nm = g + str(sorted(kw.items()))
                ops[nm] = lambda fn=fn: (fn, (key(), 0.5), {})
                if kw == kws[-1]:
                    ops[nm + 'dt'] = lambda fn=fn: (fn, (key(), 0.8), {})
                    ops[nm + 'key'] = lambda fn=fn: (fn, (key(2), 0.5), {})
        return ops
    if family == 'sde':
        import bayesian_sde_solver.foster_polynomial as fp
        import bayesian_sde_solver.ode_solvers as o
        from bayesian_sde_solver.sde_solver import sde_solver
        eul = lambda M=2: (lambda key, init, vector_field, T: o.euler(init=init, vector_field=vector_field, h=T / M, N=M))
        ek = lambda key, init, vector_field, T: o.ekf0(key, init=init, vector_field=vector_field, h=T, N=1)
        base = dict(key=key, drift=lambda: field(), sigma=lambda: diffusion(), x0=lambda: C(2, 1), bm=K(lambda: fp.get_approx(dim=2)), delta=K(0.2), N=K(3), ode_int=lambda: eul())
        return variations(sde_solver, base, dict(
            key=dict(key=lambda: key(2)), drift=dict(drift=lambda: field(2.0)), sigma=dict(sigma=lambda: diffusion(2.0)), x0=dict(x0=lambda: C(2, 2)),
            fine=dict(bm=K(lambda: fp.get_approx_fine(dim=2, N=2))), delta=dict(delta=K(0.3)), N=dict(N=K(4)), ode=dict(ode_int=lambda: eul(3)), filt=dict(ode_int=K(ek)),
            chan=dict(sigma=lambda: (lambda x, t: jnp.ones((2, 1)) * (1 + t)), bm=K(lambda: fp.get_approx()))))
    if family == 'ssm':
        import bayesian_sde_solver.ssm_parabola as sp
        S = lambda f, sq=False: (lambda key, init, drift, diffusion, T: f(key, init, delta=T, drift=drift, diffusion=diffusion, h=T, N=1, sqrt=sq))
        base = dict(key=key, drift=lambda: field(), sigma=lambda: diffusion(), x0=lambda: C(2, 1), delta=K(0.2), N=K(2), solver=lambda: S(sp.ekf0_marginal_parabola))
        return variations(sp.ssm_parabola_ode_solver, base, dict(
            key=dict(key=lambda: key(2)), drift=dict(drift=lambda: field(2.0)), sigma=dict(sigma=lambda: diffusion(2.0)), x0=dict(x0=lambda: C(2, 2)), delta=dict(delta=K(0.3)),
            N=dict(N=K(3)), one=dict(solver=lambda: S(sp.ekf1_marginal_parabola)), sqrt=dict(solver=lambda: S(sp.ekf0_marginal_parabola, True))))
    if family == 'marg':
        import bayesian_sde_solver.ssm_parabola as sp
        base = dict(key=key, init=lambda: C(2, 1), delta=K(0.2), drift=lambda: field(), diffusion=lambda: diffusion(), h=K(0.2), N=K(1))
        return variations(sp.ekf1_marginal_parabola, base, dict(
            key=dict(key=lambda: key(2)), nokey=dict(key=K(None)), init=dict(init=lambda: C(2, 2)), delta=dict(delta=K(0.4)), h=dict(h=K(0.1)), N=dict(N=K(2)),
            sqrt=dict(sqrt=K(True)), noise=dict(noise=lambda: 0.2 * np.eye(2)), diffusion=dict(diffusion=lambda: diffusion(2.0))),
            dict(sqrt=K(True), noise=lambda: 0.2 * np.eye(2), N=K(2)))
    if family in ('ekf0', 'ekf1', 'ekf0_2', 'ekf1_2', 'euler'):
        import bayesian_sde_solver.ode_solvers as o
        import bayesian_sde_solver.ode_solvers.probnum as pn
        two = family.endswith('_2')
        init = (lambda s=1, p=0.1: (C(2, s), C(2, s), p * np.eye(2))) if two else (lambda s=1, p=0: C(2, s))
        base = dict(init=init, vector_field=lambda: field(), h=K(0.1), N=K(2))
        other = None
        alts = dict(init=dict(init=lambda: init(2)), field=dict(vector_field=lambda: field(2.0)), h=dict(h=K(0.2)), N=dict(N=K(3)))
        if family != 'euler':
            base['key'] = key
            pr = lambda s=1.0, q=1: tuple(np.array(z) for z in pn.IOUP_transition_function(theta=0.0, sigma=s, q=q, dt=0.1, dim=2))
            alts.update(key=dict(key=lambda: key(2)), nokey=dict(key=K(None)), sqrt=dict(sqrt=K(True)), prior=dict(prior=lambda: pr(2.0)), noise=dict(noise=lambda: 0.2 * np.eye(2)))
            if two:
                other = dict(sqrt=K(True), prior=lambda: pr(1.5), return_all=K(True))
                alts.update(cov=dict(init=lambda: init(1, 0.3)), full=dict(return_all=K(True)))
            else:
                alts.update(order=dict(prior=lambda: pr(1.0, 2)))
                other = dict(sqrt=K(True), prior=lambda: pr(1.5, 2), noise=lambda: 0.1 * np.eye(2))
        else:
            alts.update(dim=dict(init=lambda: C(3, 1), vector_field=lambda: (lambda x, t: -x)))
        return variations(getattr(o, family), base, alts, other)
    if family == 'schemes':
        import bayesian_sde_solver.sde_solvers as s
        dg = lambda b=1.0: (lambda x: jnp.diag(0.5 + 0.2 * b * jnp.sin(x)))
        ops = {}
        em = dict(key=key, init=lambda: C(2, 1), drift=lambda: field(), sigma=lambda: diffusion(), h=K(0.1), N=K(2))
        for k, v in variations(s.euler_maruyama, em, dict(key=dict(key=lambda: key(2)), N=dict(N=K(3)), h=dict(h=K(0.2)), sigma=dict(sigma=lambda: diffusion(2.)))).items():
            ops['em' + k] = v
        pw = dict(incs=lambda: np.array(coefs((2, 2), 3)), init=lambda: C(2, 1), drift=lambda: field(), sigma=lambda: diffusion(), h=K(0.1), N=K(2))
        for k, v in variations(s.euler_maruyama_pathwise, pw, dict(std=dict(standard=K(True)), incs=dict(incs=lambda: np.array(coefs((2, 2), 4))))).items():
            ops['pathwise' + k] = v
        di = dict(key=key, init=lambda: C(2, 1), drift=lambda: drift1(), sigma=lambda: dg(), h=K(0.1), N=K(2))
        for k, v in variations(s.diag_15_scheme, di, dict(key=dict(key=lambda: key(2)), sigma=dict(sigma=lambda: dg(2.)))).items():
            ops['diag' + k] = v
        hy = dict(key=key, init=lambda: C(2, 1), drift=lambda: drift1(), sigma=lambda: (lambda x: jnp.diag(jnp.array([0., .5]))), h=K(0.1), N=K(2))
        for k, v in variations(s.hypoelliptic_diffusion_15_scheme, hy, dict(key=dict(key=lambda: key(2)), h=dict(h=K(0.2)))).items():
            ops['hypo' + k] = v
        return ops
    if family == 'priors':
        import bayesian_sde_solver.ode_solvers.probnum as pn
        ops = {}
        for k, v in variations(pn.IOUP_transition_function, dict(theta=K(0.0), sigma=K(1.0), q=K(1), dt=K(0.1), dim=K(2)),
                               dict(theta=dict(theta=K(0.5)), sigma=dict(sigma=K(2.0)), q=dict(q=K(2)), dt=dict(dt=K(0.2)), dim=dict(dim=K(1)), both=dict(dt=K(0.2), dim=K(1))),
                               dict(theta=K(0.7), sigma=K(1.3)), True).items():
            ops['ioup ' + k] = v
        for k, v in variations(pn.matern_transition_function, dict(k=K(1), magnitude=K(1.0), length=K(0.8), dt=K(0.1), dim=K(2)),
                               dict(k=dict(k=K(2)), mag=dict(magnitude=K(2.0)), length=dict(length=K(1.1)), dt=dict(dt=K(0.2)), dim=dict(dim=K(1))),
                               dict(k=K(3), magnitude=K(1.5)), True).items():
            ops['matern ' + k] = v
        F, L = (lambda s=1.0: np.array([[0.0, 1.0], [-s, -1.0]])), (lambda s=1.0: np.array([[0.0], [s]]))
        one = lambda s=1.0, q=1: tuple(np.array(z) for z in pn.IOUP_transition_function(theta=0.0, sigma=s, q=q, dt=0.1, dim=1))
        ops['pad'] = lambda: (pn.pad_prior, (one(), 3), {})
        ops['pad again'] = lambda: (pn.pad_prior, (one(2.0), 3), {})
        ops['pad more'] = lambda: (pn.pad_prior, (one(), 4), {})
        ops['factorized'] = lambda: (pn.get_independently_factorized_prior, ([one(), one(2.0)],), {})
        ops['factorized swapped'] = lambda: (pn.get_independently_factorized_prior, ([one(2.0), one()],), {})
        return ops
    if family == 'filter':
        import bayesian_sde_solver.ode_solvers.probnum as pn
        from bayesian_sde_solver.ode_solvers.probnum.calibration import mle_diffusion
        H = lambda a=1.0: (lambda x, t: a * jnp.sin(x[:1]) + t)
        base = dict(init=lambda: (C(2, 1), 0.3 * np.eye(2)), observation_function=lambda: H(), A=lambda: 0.9 * np.eye(2), Q_or_cholQ=lambda: 0.1 * np.eye(2),
                    xi=lambda: np.zeros(2), R_or_cholR=lambda: 0.2 * np.eye(1), params=lambda: (np.arange(2.0),))
        ops = {'ekf ' + k: v for k, v in variations(pn.ekf, base, dict(
            sqrt=dict(lower_sqrt=K(True)), obs=dict(observation_function=lambda: H(2.0)), A=dict(A=lambda: np.eye(2)), R=dict(R_or_cholR=lambda: 0.4 * np.eye(1)),
            xi=dict(xi=lambda: np.ones(2)), UC=dict(return_UC=K(True)), params=dict(params=lambda: (np.arange(3.0),))),
            dict(lower_sqrt=K(True), xi=lambda: np.array([0.3, -0.2]))).items()}
        ops['mle'] = lambda: (mle_diffusion, (coefs((3, 2), 1), np.stack([np.eye(2)] * 3)), {})
        ops['mle other'] = lambda: (mle_diffusion, (coefs((3, 2), 2), np.stack([2 * np.eye(2)] * 3)), {})
        ops['interlace'] = lambda: (pn.interlace, ((C(2, 1), C(2, 2)),), {})
        ops['interlace matrix'] = lambda: (pn.interlace_matrix, tuple(np.array(coefs((2, 2), i)) for i in range(4)), {})
        return ops
    if family == 'misc':
        import bayesian_sde_solver.ito_stratonovich as its
        from bayesian_sde_solver.utils import ivp
        from bayesian_sde_solver.utils.insert import insert
        ops = {}
        for nm, f in (('ito', its.to_ito), ('strat', its.to_stratonovich)):
            for a, b in ((1., 1.), (2., 1.), (1., 2.)):
                def fn(x, t, f=f, a=a, b=b):
                    d, s = f(field(a), diffusion(b))
                    return d(x, t), s(x, t)
                ops[f'{nm}{a}{b}'] = lambda fn=fn: (fn, (C(2, 1), 0.3), {})
        ops['insert'] = lambda: (insert, (C(3, 1), 0, 5.0, 0), {})
        ops['insert tuple'] = lambda: (insert, ((C(3, 1), np.eye(3)), 0, (5.0, C(3, 2)), 0), {})
        for nm in ('fhn', 'ibm', 'gbm', 'harmonic_oscillator', 'square_matrix_fhn'):
            def fn(x, nm=nm):
                p = getattr(ivp, nm)()
                return p[0], p[1](x, 0.1), p[2](x, 0.1), [g(0.2) for g in p[3:]]
            ops[nm] = lambda fn=fn, nm=nm: (fn, (C(1 if nm == 'gbm' else 2, 1),), {})
        for nm, kw in (('linear', {}), ('linear2', dict(dim=2)), ('linear key', dict(seed=3)), ('linear std', dict(std=2.0))):
            def fn(x, kw=kw):
                kw = dict(kw)
                if 'seed' in kw:
                    kw['key'] = jax.random.PRNGKey(kw.pop('seed'))
                if 'std' in kw:
                    kw['std1'] = kw.pop('std') * jnp.eye(1)
                x0, d, s = ivp.random_linear_sde(**kw)
                return d(x0, 0.), s(x0, 0.)
            ops[nm] = lambda fn=fn: (fn, (C(1, 1),), {})
        return ops
    raise KeyError(family)


FAMILIES = ['gens', 'sde', 'ssm', 'marg', 'ekf0', 'ekf1', 'ekf0_2', 'ekf1_2', 'euler', 'schemes', 'priors', 'filter', 'misc']
HEAVY = ['sde', 'ssm', 'marg', 'schemes']


# ------------------------------------------------------------------------------------------------ executing an operation
def np_leaves(x):
    import jax
    return [y for y in jax.tree_util.tree_leaves(x) if isinstance(y, np.ndarray)]


def execute(thunk):
    """(results, arguments unchanged, results stable when the arguments are overwritten)."""
    import jax
    fn, args, kw = thunk()
    arrs = np_leaves((args, {k: v for k, v in kw.items() if not callable(v)}))
    before = [a.copy() for a in arrs]
    out = jax.block_until_ready(fn(*args, **kw))
    ls = jax.tree_util.tree_leaves(out)
    res = [np.array(y) for y in ls]
    same = all(np.array_equal(a, b) for a, b in zip(arrs, before))
    for a in arrs:
        a[...] = 7
    later = all(np.array_equal(np.asarray(y), z, equal_nan=True) for y, z in zip(ls, res))
    return res, same, later


def baselines(families):
    """Results of every operation as the first call of a process: a process which has not run anything forks one child per
    operation."""
    env = dict(os.environ)
    env['PYTHONPATH'] = os.pathsep.join([os.path.dirname(os.path.dirname(os.path.dirname(os.path.abspath(__file__)))), os.environ.get('MC_REPO', '/repo')])
    out = {}
    for f in families:
        p = subprocess.run([sys.executable, '-B', '-W', 'ignore', '-m', 'mc.checks.c25', f], env=env, stdout=subprocess.PIPE, stderr=subprocess.PIPE)
        if p.returncode:
            raise RuntimeError(p.stderr.decode()[-2000:])
        out.update(pickle.loads(p.stdout))
    return out


def _child_main(family):
    import jax  # noqa: F401  (no backend yet)
    names = None
    out, todo = {}, [None]
    r, w = os.pipe()
    pid = os.fork()
    if pid == 0:                                 # names of the operations, found out in a child
        os.close(r)
        with os.fdopen(w, 'wb') as f:
            pickle.dump(list(alphabet(family)), f)
        os._exit(0)
    os.close(w)
    with os.fdopen(r, 'rb') as f:
        names = pickle.load(f)
    os.waitpid(pid, 0)
    kids = []
    for n in names:
        r, w = os.pipe()
        pid = os.fork()
        if pid == 0:
            os.close(r)
            try:
                res = execute(alphabet(family)[n])
            except Exception as e:
                res = repr(e)
            with os.fdopen(w, 'wb') as f:
                pickle.dump(res, f)
            os._exit(0)
        os.close(w)
        with os.fdopen(r, 'rb') as f:
            out[family, n] = pickle.load(f)
        os.waitpid(pid, 0)
    sys.stdout.buffer.write(pickle.dumps(out))


# ------------------------------------------------------------------------------------------------ the walks
def debruijn(n, k):
    """A cyclic word over n letters containing every word of length k, opened up so that all are factors."""
    a, seq = [0] * n * k, []

    def db(t, p):
        if t > k:
            if k % p == 0:
                seq.extend(a[1:p + 1])
        else:
            a[t] = a[t - p]
            db(t + 1, p)
            for j in range(a[t - p] + 1, n):
                a[t] = j
                db(t + 1, t)
    db(1, 1)
    return seq + seq[:k - 1]


def cases(tier):
    q = tier == 'quick'
    out = [dict(kind='family', family=f, length=('star' if f in HEAVY else 2) if q else 3) for f in sorted(FAMILIES, key=lambda f: f not in HEAVY)]
    if q:
        out = [dict(kind='across', first=f) for f in FAMILIES if f not in ('misc',)] + out
    else:
        out += [dict(kind='cross', a=a, b=b) for a, b in itertools.combinations(FAMILIES, 2)]
    return out


def run(case, ctx):
    if case['kind'] == 'family':
        base = baselines([case['family']])
        ops = [(case['family'], n) for n in alphabet(case['family'])]
        if case['length'] == 'star':
            f = case['family']
            centres = ['embase', 'pathwisebase', 'diagbase', 'hypobase'] if f == 'schemes' else ['base'] + ['2base'] * (f == 'marg')
            walk = []
            for c in centres:
                mine = [o for o in ops if (o[1].startswith(c[:-4]) and (c != 'base' or o[1][0] != '2')) or o[1] in centres]
                walk += [w for o in mine for w in ((f, c), o)] + [(f, c)]
        else:
            walk = [ops[i] for i in debruijn(len(ops), case['length'])]
    elif case['kind'] == 'across':
        fams = FAMILIES[FAMILIES.index(case['first']):]
        base = baselines_some([(f, representative(f)) for f in fams])
        me = (case['first'], representative(case['first']))
        walk = [me]
        for f in fams[1:]:
            walk += [(f, representative(f)), me]
    else:
        base = baselines([case['a'], case['b']])
        A, B = [[(f, n) for n in alphabet(f)] for f in (case['a'], case['b'])]
        walk = []
        for a in A:
            for b in B:
                walk += [a, b]
            walk.append(a)
    tables = {f: alphabet(f) for f in {f for f, _ in walk}}
    prev = ()
    states = set()
    for step, (f, n) in enumerate(walk):
        b = base[f, n]
        if isinstance(b, str):
            ctx.true('fresh call', False, op=[f, n], got=b)
            return
        res, same, later = execute(tables[f][n])
        ctx.true('arguments unchanged', same and b[1], op=[f, n], after=str(prev))
        ctx.true('results keep their values', later and b[2], op=[f, n])
        ok = len(res) == len(b[0]) and all(x.shape == y.shape and x.dtype == y.dtype for x, y in zip(res, b[0]))
        ctx.true('structure as in a fresh process', ok, op=[f, n], after=str(prev))
        if ok:
            for x, y in zip(res, b[0]):
                ctx.eq(f'{f} {n}: as in a fresh process', x, y, rtol=1e-12, atol=1e-12)
        states.add(hash((prev[-1:] + ((f, n),)).__repr__()) % 2 ** 50)
        prev = (prev + ((f, n),))[-2:]
        if len(ctx.violations) >= 3:
            ctx.violations[-1]['history'] = str(walk[max(0, step - 5):step + 1])
            return
    ctx.visit(np.array(sorted(states), dtype=float)[:, None])
    ctx.trans(len(walk))
    ctx.trace(len(walk))
    ctx.counts['operations'] = ctx.counts.get('operations', 0) + (len(tables[f]) if case['kind'] == 'family' else 0)
    ctx.sample(history=str(walk[:4]))


def representative(f):
    return {'gens': "get_approx_fine[('N', 2)]", 'schemes': 'embase', 'priors': 'matern base', 'filter': 'ekf base', 'misc': 'strat1.01.0', 'sde': 'filt'}.get(f, 'base')


def baselines_some(pairs):
    out = {}
    env = dict(os.environ)
    env['PYTHONPATH'] = os.pathsep.join([os.path.dirname(os.path.dirname(os.path.dirname(os.path.abspath(__file__)))), os.environ.get('MC_REPO', '/repo')])
    p = subprocess.run([sys.executable, '-B', '-W', 'ignore', '-m', 'mc.checks.c25', '--some', repr(pairs)], env=env, stdout=subprocess.PIPE, stderr=subprocess.PIPE)
    if p.returncode:
        raise RuntimeError(p.stderr.decode()[-2000:])
    return pickle.loads(p.stdout)


def _some_main(pairs):
    import jax  # noqa: F401
    out = {}
    for f, n in pairs:
        r, w = os.pipe()
        pid = os.fork()
        if pid == 0:
            os.close(r)
            try:
                res = execute(alphabet(f)[n])
            except Exception as e:
                res = repr(e)
            with os.fdopen(w, 'wb') as g:
                pickle.dump(res, g)
            os._exit(0)
        os.close(w)
        with os.fdopen(r, 'rb') as g:
            out[f, n] = pickle.load(g)
        os.waitpid(pid, 0)
    sys.stdout.buffer.write(pickle.dumps(out))


if __name__ == '__main__':
    if sys.argv[1] == '--some':
        import ast
        _some_main(ast.literal_eval(sys.argv[2]))
    else:
        _child_main(sys.argv[1])
