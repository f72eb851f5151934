"""C21: the progress bar as an automaton.  Every execution of a wrapped loop produces a trace of bar events (open, update,
close); the trace of every iteration count, loop form and run history must be accepted by

    idle --open(total = N)--> (0) --update(k > 0)--> (n + k <= N) ... (N) --close--> idle

and the loop's results must be those of the unwrapped loop."""
import io

import numpy as np

BOUNDS = dict(quick='N in 1..128, 255..257, 500, 750, 998..1003, 1999..2003, 2500, 2999..3003, 3500, 4999..5001, 10001; 8 loop forms; run histories: all words of length <= 3 over two loops; both solvers',
              thorough='N in 1..1100, k * 1000 + [-6, 6] for k <= 20, every 13th N in 1000..6000, 50000; 8 loop forms; words of length <= 4 over three loops')


def counts(q):
    if q:
        return list(range(1, 129)) + [255, 256, 257, 500, 750] + list(range(998, 1004)) + list(range(1999, 2004)) + [2500] + list(range(2999, 3004)) + [3500, 4999, 5000, 5001, 10001]
    out = set(range(1, 1101)) | {50000} | set(range(1000, 6000, 13))
    for k in range(1, 21):
        out |= set(range(1000 * k - 6, 1000 * k + 7))
    return sorted(out)


FORMS = ['scan', 'tuple', 'eager', 'vmap', 'jitvmap', 'carry', 'none', 'twice']


def cases(tier):
    q = tier == 'quick'
    N = counts(q)
    chunk = 8 if q else 40
    out = [dict(kind='loop', form='scan' if i % 2 else 'tuple', Ns=N[i * chunk:(i + 1) * chunk]) for i in range((len(N) + chunk - 1) // chunk)]
    out += [dict(kind='loop', form=f, Ns=[1, 2, 3, 7, 1000, 1001, 2001, 3002] if f != 'eager' else [1, 2, 3, 7, 12]) for f in FORMS]
    out.append(dict(kind='history', length=3 if q else 4, Ns=[3, 1] if q else [3, 1, 5]))
    out.append(dict(kind='solver', Ns=[1, 2, 5] if q else [1, 2, 3, 4, 5, 50, 1001]))
    return out


class Log:
    """Records the events of every tqdm bar; strong references keep a forgotten bar from closing itself."""

    def __init__(self):
        self.events, self.bars = [], []

    def __enter__(self):
        from tqdm.std import tqdm as T
        self.T, self.orig = T, (T.__init__, T.update, T.close)
        init, update, close = self.orig
        log = self

        def _init(bar, *a, **kw):
            kw['disable'] = False
            kw['file'] = io.StringIO()
            kw['mininterval'] = 1e9
            init(bar, *a, **kw)
            log.bars.append(bar)
            log.events.append(('open', len(log.bars) - 1, bar.total, 0))

        def _id(bar):
            return next((i for i in range(len(log.bars) - 1, -1, -1) if log.bars[i] is bar), None)

        def _update(bar, n=1):
            i = _id(bar)
            before = bar.n
            r = update(bar, n)
            if i is not None:
                log.events.append(('update', i, float(bar.n - before), float(bar.n)))
            return r

        def _close(bar):
            i = _id(bar)
            if i is not None:
                log.events.append(('close' if not bar.disable else 'close again', i, float(bar.n), 0))
            return close(bar)
        T.__init__, T.update, T.close = _init, _update, _close
        return self

    def __exit__(self, *a):
        self.T.__init__, self.T.update, self.T.close = self.orig
        for b in self.bars:
            try:
                b.disable = True
            except Exception:
                pass

    def take(self):
        import jax
        from jax.experimental import host_callback
        jax.effects_barrier()
        host_callback.barrier_wait()
        e, self.events = self.events, []
        return e


def accept(ctx, events, N, runs, label):
    """Automaton over the events of `runs` consecutive runs of N iterations."""
    state, bar, n, done, why = 'idle', None, 0.0, 0, ''
    states = []
    for ev, i, a, b in events:
        if ev == 'open':
            if state != 'idle':
                why = 'opened while another bar is open'
            if a != N:
                why = f'opened with total {a}'
            state, bar, n = 'open', i, 0.0
        elif ev == 'update':
            if state != 'open' or i != bar:
                why = 'update of a bar that is not open'
            if a < 0:
                why = 'went backwards'
            n = b
            if n > N:
                why = f'advanced to {n} of {N}'
        elif ev == 'close':
            if state != 'open' or i != bar:
                why = 'closed a bar that is not open'
            if n != N:
                why = f'closed at {n} of {N}'
            state, done = 'idle', done + 1
        elif state == 'open' and i == bar:
            why = 'closed twice'
        states.append((N, {'idle': 0, 'open': 1}[state], n, done))
        if why:
            break
    if not why and (state != 'idle' or done != runs):
        why = f'{done} complete bars after {runs} runs, last one {state} at {n}'
    ctx.true(label, not why, why=why, N=N, events=str(events[:3] + events[-3:]), number=len(events))
    if states:
        ctx.visit(np.array(states, dtype=float))
    ctx.trans(len(events))
    ctx.trace(runs)


def loop(form, N):
    """(wrapped runner, unwrapped runner, runs): thunks."""
    import jax
    import jax.numpy as jnp
    from jax import lax
    from bayesian_sde_solver.utils.progress_bar import progress_bar
    xs = jnp.arange(N)
    data = jnp.sin(jnp.arange(N) + 1.0)
    if form in ('tuple', 'none'):
        body = lambda c, x: (0.9 * c + x[1], None if form == 'none' else (c * x[1], x[0] + 1))
        inp, init = (xs, data), jnp.float64(0.3)
    elif form == 'carry':
        body = lambda c, x: ((c[0] + c[1]['a'], {'a': c[1]['a'] * 0.5 + x}), (c[0], c[1]))
        inp, init = xs, (jnp.ones(2), {'a': jnp.zeros(2)})
    else:
        body = lambda c, x: (0.9 * c + jnp.sin(x + 1.0), c * x)
        inp, init = xs, jnp.float64(0.3)

    def runner(b):
        if form == 'eager':
            def go():
                c, ys = init, []
                for i in range(N):
                    c, y = b(c, xs[i])
                    ys.append(y)
                return c, jnp.stack(ys)
            return go
        f = lambda c: lax.scan(b, c, inp)
        if form == 'vmap':
            return lambda: jax.vmap(f)(init + jnp.arange(3.0))
        if form == 'jitvmap':
            g = jax.jit(jax.vmap(f))
            return lambda: g(init + jnp.arange(3.0))
        if form == 'twice':
            g = jax.jit(f)
            return lambda: (g(init), g(init + 1))
        return lambda: f(init)
    msg = {'tuple': 'some message'}.get(form)
    wrapped = progress_bar(N, msg)(body) if form != 'carry' else progress_bar(num_samples=N, message='m')(body)
    return runner(wrapped), runner(body), 2 if form == 'twice' else 1


def run(case, ctx):
    globals()[case['kind'] + '_'](case, ctx)


def same(ctx, label, got, want):
    import jax
    a, b = jax.tree_util.tree_flatten(got), jax.tree_util.tree_flatten(want)
    ctx.true(label + ': structure', a[1] == b[1])
    for x, y in zip(a[0], b[0]):
        ctx.true(label + ': dtype', x.dtype == y.dtype, got=str(x.dtype), want=str(y.dtype))
        ctx.eq(label, np.asarray(x), np.asarray(y), rtol=1e-13, atol=1e-13)


def loop_(case, ctx):
    import jax
    for N in case['Ns']:
        w, u, runs = loop(case['form'], N)
        with Log() as log:
            got = jax.block_until_ready(w())
            ev = log.take()
            accept(ctx, ev, N, runs, f'{case["form"]}: bar events')
            if N <= 16:                      # the same wrapped loop again
                got2 = jax.block_until_ready(w())
                accept(ctx, log.take(), N, runs, f'{case["form"]}: bar events of a second run')
                same(ctx, f'{case["form"]}: results of a second run', got2, got)
        same(ctx, f'{case["form"]}: results', got, jax.block_until_ready(u()))
        jax.clear_caches()
    ctx.sample(N=case['Ns'][-1], events=len(ev))


def history_(case, ctx):
    """All interleavings of runs of several wrapped loops, one after the other, in one process."""
    import itertools
    import jax
    loops = [loop('scan' if i % 2 else 'jitvmap', N) for i, N in enumerate(case['Ns'])]
    base = [jax.block_until_ready(u()) for _, u, _ in loops]
    for n in range(1, case['length'] + 1):
        for word in itertools.product(range(len(loops)), repeat=n):
            with Log() as log:
                for k in word:
                    got = jax.block_until_ready(loops[k][0]())
                    accept(ctx, log.take(), case['Ns'][k], 1, f'events of run {k} in history')
                    same(ctx, 'results in history', got, base[k])
    ctx.sample(words=len(loops) ** case['length'])


def solver_(case, ctx):
    import jax
    import jax.numpy as jnp
    import bayesian_sde_solver.foster_polynomial as fp
    import bayesian_sde_solver.ode_solvers as o
    import bayesian_sde_solver.ssm_parabola as sp
    from bayesian_sde_solver.sde_solver import sde_solver
    drift, sigma = (lambda x, t: -x), (lambda x, t: jnp.eye(1))
    for N in case['Ns']:
        ode = lambda key, init, vector_field, T: o.euler(init=init, vector_field=vector_field, h=T / 2, N=2)
        f = lambda k: sde_solver(key=k, drift=drift, sigma=sigma, x0=jnp.ones(1), bm=fp.get_approx, delta=0.1, N=N, ode_int=ode)
        s = lambda key, init, drift, diffusion, T: sp.ekf0_marginal_parabola(key, init, delta=T, drift=drift, diffusion=diffusion, h=T, N=1)
        g = lambda k: sp.ssm_parabola_ode_solver(k, drift, sigma, jnp.ones(1), 0.1, N, s)
        for nm, q in (('sde_solver', f), ('ssm', g)):
            for lab, r in (('plain', q), ('jit', jax.jit(q)), ('vmap', lambda k: jax.vmap(q)(jax.random.split(k, 2)))):
                with Log() as log:
                    jax.block_until_ready(r(jax.random.PRNGKey(case['seed'])))
                    accept(ctx, log.take(), N, 1, f'{nm} {lab}: bar events')
