"""Random draws of jax code as harness inputs: jax.random.* hands out given arrays, in order."""
import contextlib
import jax
import jax.numpy as jnp

from .sym import Unsupported


class Draws:
    """ u: uniforms in (0,1); g: Gumbel variates; n: standard normals; c: indices for choice """

    def __init__(self, **kinds):
        self.keys = []
        self.q = {k: list(v) if isinstance(v, (list, tuple)) else [v] for k, v in kinds.items()}

    def _next(self, kind, shape):
        q = self.q.get(kind)
        if not q:
            return None
        if tuple(q[0].shape) != tuple(shape):
            raise Unsupported(f'random draw of shape {shape}, expected {q[0].shape}')
        return jnp.asarray(q.pop(0))

    def fresh(self):
        """ whether no two draws came from the same key """
        def conc(k):
            return not isinstance(k, jax.core.Tracer)
        for i, a in enumerate(self.keys):
            for b in self.keys[:i]:
                if a is b or (conc(a) and conc(b) and bool((jnp.asarray(a) == jnp.asarray(b)).all())):
                    return False
        return True

    def need(self, v, what):
        if v is None:
            raise Unsupported(f'unexpected random draw: {what}')
        return v

    def uniform(self, key, shape=(), dtype=None, minval=0., maxval=1.):
        self.keys.append(key)
        u = self._next('u', shape)
        if u is None:
            g = self._next('g', shape)
            u = None if g is None else jnp.exp(-jnp.exp(-g))
        u = self.need(u, 'uniform')
        if isinstance(minval, (int, float)) and isinstance(maxval, (int, float)) \
                and minval <= 1e-6 and minval >= 0 and maxval == 1:
            return u
        return minval + u * (maxval - minval)

    def gumbel(self, key, shape=(), dtype=None, **k):
        self.keys.append(key)
        g = self._next('g', shape)
        if g is None:
            u = self._next('u', shape)
            g = None if u is None else -jnp.log(-jnp.log(u))
        return self.need(g, 'gumbel')

    def normal(self, key, shape=(), dtype=None):
        self.keys.append(key)
        return self.need(self._next('n', shape), 'normal')

    def categorical(self, key, logits, axis=-1, shape=None):
        if shape is not None:
            raise Unsupported('categorical with a shape')
        return jnp.argmax(logits + self.gumbel(key, logits.shape), axis=axis)

    def bernoulli(self, key, p=0.5, shape=None):
        p = jnp.asarray(p)
        return self.uniform(key, p.shape if shape is None else shape) < p

    def choice(self, key, a, shape=(), replace=True, p=None, axis=0):
        c = self.need(self._next('c', shape), 'choice')
        return c if jnp.ndim(a) == 0 else jnp.take(a, c, axis=axis)

    def _no(self, *a, **k):
        raise Unsupported('random draw')
    randint = permutation = exponential = truncated_normal = beta = gamma = laplace = _no


NAMES = ('uniform', 'gumbel', 'normal', 'categorical', 'bernoulli', 'choice', 'randint',
         'permutation', 'exponential', 'truncated_normal', 'beta', 'gamma', 'laplace')


@contextlib.contextmanager
def stub(**kinds):
    d = Draws(**kinds)
    old = {n: getattr(jax.random, n) for n in NAMES if hasattr(jax.random, n)}
    try:
        for n in old:
            setattr(jax.random, n, getattr(d, n))
        with jax.disable_jit():       # no draw may end up in the cache of a jitted function
            yield d
    finally:
        for n, f in old.items():
            setattr(jax.random, n, f)


def with_draws(fn, fresh=None):
    """ fn(*args) -> f(draws, *args); list fresh: did all draws come from different keys """
    def f(draws, *args):
        with stub(**draws) as d:
            r = fn(*args)
            if fresh is not None:
                fresh.append(d.fresh())
            return r
    return f
