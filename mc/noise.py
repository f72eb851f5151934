"""Controlled randomness for the code under test.

The library draws all its randomness from JAX keys.  Here a key is three words
``[id, t0, t1]``: ``(t0, t1)`` is the node of the key-derivation tree (derived by the
genuine threefry split / fold_in, so two derivations share a node iff they would share a
key in production) and ``id`` selects the execution.  ``random_bits`` on a node returns the
bits which the genuine ``uniform -> erf_inv`` pipeline maps to the standard normal values
the explorer chose for that node in execution ``id``.  Thus

* every random choice of an execution is decided by the explorer (nothing is sampled),
* all executions of a configuration run in one ``vmap`` over ``id``,
* a key used twice gives the same values twice, a key derived differently gives different
  variables: correlations in the real code are correlations here.

Nothing in the library is modified: the PRNG registry entry used for raw keys is swapped.
"""
import contextlib
import itertools
import math

import numpy as np
import jax
import jax.numpy as jnp
from jax._src import prng as _prng

_BASE = _prng.threefry_prng_impl


def _seed(seed):
    k = _BASE.seed(seed)
    return jnp.concatenate([jnp.zeros((1,), jnp.uint32), k])


def _split(key, shape):
    kids = _BASE.split(key[1:], shape)
    ids = jnp.broadcast_to(key[0], kids.shape[:-1] + (1,)).astype(jnp.uint32)
    return jnp.concatenate([ids, kids], axis=-1)


def _fold_in(key, data):
    kid = _BASE.fold_in(key[1:], data)
    return jnp.concatenate([key[:1], kid])


_counter = itertools.count()


def _make_impl(random_bits):
    n = next(_counter)
    return _prng.PRNGImpl(key_shape=(3,), seed=_seed, split=_split, random_bits=random_bits,
                          fold_in=_fold_in, name=f'mc{n}', tag=f'mc{n}')


@contextlib.contextmanager
def _use(impl):
    old = _prng.prngs['threefry2x32']
    _prng.prngs['threefry2x32'] = impl
    try:
        yield
    finally:
        _prng.prngs['threefry2x32'] = old


def root_key(seed=0):
    """A raw key of the controlled generator for execution 0."""
    k = np.asarray(_BASE.seed(jnp.uint32(seed)))
    return np.concatenate([[0], k]).astype(np.uint32)


def keys_for(ids, seed=0):
    ids = np.asarray(ids, dtype=np.uint32)
    k = root_key(seed)
    out = np.tile(k, (len(ids), 1))
    out[:, 0] = ids
    return out


class Draw:
    __slots__ = ('node', 'n', 'shapes', 'count', 'offset', 'first')

    def __init__(self, node):
        self.node, self.n, self.shapes, self.count, self.offset = node, 0, [], 0, None


class Recording:
    """The draws one execution makes, in order of occurrence."""

    def __init__(self):
        self.by_node = {}
        self.splits = []

    def add(self, k, bw, shape):
        node = (int(k[1]), int(k[2]))
        d = self.by_node.get(node)
        if d is None:
            d = self.by_node[node] = Draw(node)
        d.count += 1
        d.shapes.append(tuple(shape))
        d.n = max(d.n, int(math.prod(shape)))

    def finish(self):
        off = 0
        self.draws = list(self.by_node.values())
        for d in self.draws:
            d.offset = off
            off += d.n
        self.n_vars = off
        return self

    @property
    def reused(self):
        return [d for d in self.draws if d.count > 1]


def record(fn, seed=0, jit=True):
    """Run fn(key) once, returning its result and the draws it made."""
    rec = Recording()

    def random_bits(key, bit_width, shape):
        jax.debug.callback(lambda k: rec.add(np.asarray(k), bit_width, shape), key)
        return _BASE.random_bits(key[1:], bit_width, shape)

    jax.clear_caches()
    with _use(_make_impl(random_bits)):
        g = lambda k: fn(k)
        f = jax.jit(g) if jit else g
        out = f(jnp.asarray(root_key(seed)))
        jax.block_until_ready(out)
        jax.effects_barrier()
    jax.clear_caches()
    return jax.tree_util.tree_map(np.asarray, out), rec.finish()


def record_many(fn, seeds):
    """Draws of fn(key) for several keys, compiled once."""
    cur = []

    def random_bits(key, bit_width, shape):
        jax.debug.callback(lambda k: cur[-1].add(np.asarray(k), bit_width, shape), key)
        return _BASE.random_bits(key[1:], bit_width, shape)

    jax.clear_caches()
    with _use(_make_impl(random_bits)):
        f = jax.jit(lambda k: fn(k))
        for s in seeds:
            cur.append(Recording())
            jax.block_until_ready(f(jnp.asarray(root_key(s))))
            jax.effects_barrier()
    jax.clear_caches()
    return [r.finish() for r in cur]


def _encode(z, bits):
    """Unsigned integers which jax.random.normal maps to z (up to rounding)."""
    from scipy.special import erf
    z = np.asarray(z, dtype=np.float64)
    if bits == 64:
        dt, nm, un = np.float64, 52, np.uint64
    else:
        dt, nm, un = np.float32, 23, np.uint32
    lo = np.nextafter(dt(-1), dt(0))
    u = erf(z / np.sqrt(2))
    f = (u - np.float64(lo)) / (1 - np.float64(lo))
    m = np.rint(f * 2.0 ** nm)
    m = np.clip(m, 0, 2 ** nm - 1).astype(np.uint64)
    return (m << np.uint64(bits - nm)).astype(un)


def run(fn, rec, Z, seed=0, extra=None, in_axes=None, jit=True, sequential=False):
    """Execute fn(key, *extra) for every row of Z (n_exec, n_vars); results stacked on axis 0.

    extra: tuple of arrays; in_axes for them (default None = shared by all executions).
    sequential: run the executions one after the other in the same compiled code, so that equal inputs give equal bits
    (vectorised lanes may round differently, which QR factors of singular matrices amplify)."""
    Z = np.asarray(Z, dtype=np.float64)
    assert Z.ndim == 2 and Z.shape[1] == rec.n_vars, (Z.shape, rec.n_vars)
    extra = () if extra is None else tuple(extra)
    axes = tuple(in_axes) if in_axes is not None else (None,) * len(extra)
    nodes = np.array([d.node for d in rec.draws], dtype=np.uint32).reshape(-1, 2)
    offs = np.array([d.offset for d in rec.draws], dtype=np.int64)
    tabs = {64: _encode(Z, 64), 32: _encode(Z, 32)}

    def random_bits(key, bit_width, shape):
        n = int(math.prod(shape))
        if bit_width not in tabs or not len(nodes):
            return _BASE.random_bits(key[1:], bit_width, shape)
        hit = (jnp.asarray(nodes) == key[1:]).all(axis=-1)
        idx = jnp.argmax(hit)
        cols = jnp.asarray(offs)[idx] + jnp.arange(n)
        vals = jnp.asarray(tabs[bit_width])[key[0], cols]
        vals = jnp.where(hit.any(), vals, jnp.array(np.iinfo(tabs[bit_width].dtype).max, tabs[bit_width].dtype))
        return vals.reshape(shape)

    jax.clear_caches()
    with _use(_make_impl(random_bits)):
        g = lambda k, *e: fn(k, *e)
        if sequential:
            def f(keys, *e):
                def one(inp):
                    it = iter(inp[1:])
                    return g(inp[0], *[next(it) if a == 0 else x for a, x in zip(axes, e)])
                return jax.lax.map(one, (keys,) + tuple(jnp.asarray(x) for a, x in zip(axes, e) if a == 0))
        else:
            f = jax.vmap(g, in_axes=(0,) + axes)
        if jit:
            f = jax.jit(f)
        keys = jnp.asarray(keys_for(np.arange(len(Z)), seed))
        out = f(keys, *extra)
        out = jax.tree_util.tree_map(np.asarray, out)
        jax.effects_barrier()
    jax.clear_caches()
    return out
