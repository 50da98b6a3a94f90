"""Function approximators whose outputs are arbitrary reals: tables over a few states.

Every approximator has haiku parameters (the table, and an offset that is added in training mode
only) and a haiku state (an offset that each training pass increases by one), so that it shows in
the result which parameters, which state and which mode a value was computed with.
"""
from collections import namedtuple

import numpy as onp

Env = namedtuple('Env', ('observation_space', 'action_space'))
NS = 3


def env(na=2, ns=NS, box=None):
    import gymnasium
    obs = gymnasium.spaces.Discrete(ns)
    if box is None:
        return Env(obs, gymnasium.spaces.Discrete(na))
    return Env(obs, gymnasium.spaces.Box(low=-onp.ones(box, 'float32'),
                                         high=onp.ones(box, 'float32')))


def _par(name, shape):
    import haiku as hk
    import jax.numpy as jnp
    return hk.get_parameter(name, shape, init=jnp.zeros)


def _extra(is_training):
    import haiku as hk
    import jax.numpy as jnp
    b = hk.get_state('b', (), init=jnp.zeros)
    d = _par('d', ())
    if is_training:
        hk.set_state('b', b + 1)
        return b + d
    hk.set_state('b', b + 100)
    return b


def q2(e, cls=None, **kw):
    import coax
    na = e.action_space.n

    def f(S, is_training):
        return S @ _par('w', (S.shape[-1], na)) + _extra(is_training)
    return (cls or coax.Q)(f, e, random_seed=1, **kw)


def q1(e, cls=None, **kw):
    """ discrete actions: table; Box actions of size k: w0 + sum_i w1_i a_i + w2_i a_i^2 """
    import coax
    import jax.numpy as jnp

    def f(S, A, is_training):
        k = A.shape[-1]
        if hasattr(e.action_space, 'n'):
            v = jnp.sum((S @ _par('w', (S.shape[-1], k))) * A, axis=-1)
        else:
            ns = S.shape[-1]
            v = (S @ _par('w', (ns, 1)))[:, 0] + jnp.sum(
                (S @ _par('w1', (ns, k))) * A + (S @ _par('w2', (ns, k))) * A * A, axis=-1)
        return v + _extra(is_training)
    return (cls or coax.Q)(f, e, random_seed=1, **kw)


def v(e, **kw):
    import coax

    def f(S, is_training):
        return (S @ _par('w', (S.shape[-1], 1)))[:, 0] + _extra(is_training)
    return coax.V(f, e, random_seed=1, **kw)


def pi(e, **kw):
    import coax

    def f(S, is_training):
        x = _extra(is_training)
        ns = S.shape[-1]
        if hasattr(e.action_space, 'n'):
            na = e.action_space.n
            # the offset only enters the first logit: a common shift would not be seen
            return {'logits': (S @ _par('w', (ns, na))).at[:, 0].add(x)}
        k = int(onp.prod(e.action_space.shape))
        sh = (-1,) + e.action_space.shape
        return {'mu': (S @ _par('w', (ns, k)) + x).reshape(sh),
                'logvar': (S @ _par('l', (ns, k))).reshape(sh)}
    return coax.Policy(f, e, random_seed=1, **kw)


def sfunc(e, kind, nb=3, what='logits', nout=None):
    """ distributional tables: kind 'q1', 'q2', 'v' or 'pi'; nb outcomes per state(-action) """
    import jax.numpy as jnp

    def out(t, is_training):
        x = _extra(is_training)
        if what == 'logits':
            return {'logits': t.at[..., 0].add(x)}
        f = (jnp.arange(nb, dtype='float32') + 0.5) / nb
        return {'values': t.at[..., 0].add(x),
                'quantile_fractions': jnp.broadcast_to(f, t.shape)}

    def q1(S, A, is_training):
        w = _par('w', (S.shape[-1], A.shape[-1], nb))
        return out(jnp.einsum('bs,ba,sak->bk', S, A, w), is_training)

    def q2(S, is_training):
        w = _par('w', (S.shape[-1], e.action_space.n, nb))
        return out(jnp.einsum('bs,sak->bak', S, w), is_training)

    def v(S, is_training):
        return out(S @ _par('w', (S.shape[-1], nb)), is_training)
    return {'q1': q1, 'q2': q2, 'v': v}[kind]


class Sym:
    """ symbolic parameters and state of one approximator """

    def __init__(self, h, name, f, lo=-9, hi=9, scale=None, fixed=None):
        import jax
        self.f = f
        fs, td = jax.tree_util.tree_flatten(f.params)
        names = [p[-1].key for p, _ in jax.tree_util.tree_flatten_with_path(f.params)[0]]
        vals = [h.reals(f'{name}.{n}', x.shape, *((scale or {}).get(n, (lo, hi)))) if x.shape else
                h.real(f'{name}.{n}', *((scale or {}).get(n, (lo, hi))))
                for n, x in zip(names, fs)]
        for i, n in enumerate(names):
            if n in (scale or {}) and scale[n][0] == scale[n][1]:
                vals[i] = onp.full(fs[i].shape, scale[n][0], 'float32') if fs[i].shape \
                    else onp.float32(scale[n][0])
            if fixed and n in fixed:
                vals[i] = onp.asarray(fixed[n], 'float32') if fs[i].shape \
                    else onp.float32(fixed[n])
        self.params = jax.tree_util.tree_unflatten(td, vals)
        self.p = dict(zip(names, vals))
        ss, sd = jax.tree_util.tree_flatten(f.function_state)
        assert len(ss) == 1
        self.b = h.real(f'{name}.b', lo, hi) if 'b' not in (fixed or {}) \
            else onp.float32(fixed['b'])
        self.state = jax.tree_util.tree_unflatten(sd, [self.b])

    def off(self, training):
        return self.b + self.p['d'] if training else self.b

    def q(self, s, a, training=False):
        """ value for state index s and action index a (or Box action: list of components) """
        if 'w1' in self.p:
            t = self.p['w'][s, 0]
            for i, c in enumerate(a):
                t = t + self.p['w1'][s, i] * c + self.p['w2'][s, i] * c * c
            return t + self.off(training)
        return self.p['w'][s, a] + self.off(training)

    def v(self, s, training=False):
        return self.p['w'][s, 0] + self.off(training)

    def logits(self, s, training=False):
        r = [self.p['w'][s, a] for a in range(self.p['w'].shape[1])]
        return [r[0] + self.off(training)] + r[1:]

    def dist(self, s, a=None, training=False):
        """ logits or quantile values of a distributional table """
        r = [self.p['w'][s, k] if a is None else self.p['w'][s, a, k]
             for k in range(self.p['w'].shape[-1])]
        return [r[0] + self.off(training)] + r[1:]

    def mu(self, s, training=False):
        return [self.p['w'][s, a] + self.off(training) for a in range(self.p['w'].shape[1])]

    def logvar(self, s):
        return [self.p['l'][s, a] for a in range(self.p['l'].shape[1])]


def grad_of(grads):
    """ flat dict name -> gradient, for one approximator """
    import jax
    return {p[-1].key: x for p, x in jax.tree_util.tree_flatten_with_path(grads)[0]}


def state_of(state):
    import jax
    return jax.tree_util.tree_leaves(state)[0]


def call(h, syms, fn, *args):
    """ run fn(*args) with the symbolic parameters in place """
    def go(ps, ss, *a):
        old = [(s.f, s.f._params, s.f._function_state, s.f._random_key) for s in syms]
        try:
            for s, p, st in zip(syms, ps, ss):
                s.f.params = p
                s.f.function_state = st
            return fn(*a)
        finally:
            for f, p, st, k in old:
                f._params, f._function_state, f._random_key = p, st, k
    return h.jax(go, [s.params for s in syms], [s.state for s in syms], *args)


def fields(h, B, In=None, W=True, R=20):
    """ numeric fields of a batch """
    d = {'logP': h.reals('logP', (B,), -5, 0), 'Rn': h.reals('Rn', (B,), -R, R),
         'In': h.reals('In', (B,), 0, 1) if In is None else onp.array(In, 'float32'), 'logP_next': h.reals('logPn', (B,), -5, 0)}
    if W:
        d['W'] = h.reals('W', (B,), 0, 20)
    return d


def batch(d, S, A, S_next, A_next=None, extra_info=None):
    from coax.reward_tracing import TransitionBatch
    return TransitionBatch(S=S, A=A, S_next=S_next, A_next=A_next, extra_info=extra_info, **d)


def hub(h, e, d=1):
    a = h.abs(e)
    return h.ite(a <= d, e * e / 2, d * a - d * d / h.num(2))


def dhub(h, e, d=1):
    return h.min(h.max(e, -d), d)


def hmax(h, xs):
    m = xs[0]
    for x in xs[1:]:
        m = h.max(m, x)
    return m


def hmin(h, xs):
    m = xs[0]
    for x in xs[1:]:
        m = h.min(m, x)
    return m


def clipw(h, w):
    return h.min(h.max(w, h.num(0.1)), 10)


class no_nan:
    """ real arithmetic has no NaN: lets update() be traced past its check for NaN gradients """

    def __enter__(self):
        import jax.numpy as jnp
        self.old = jnp.isnan, jnp.any
        jnp.isnan = lambda x, *a, **k: onp.zeros(onp.shape(x), bool)
        jnp.any = lambda x, *a, **k: bool(onp.any(x)) if isinstance(x, (onp.ndarray, onp.bool_)) \
            else self.old[1](x, *a, **k)

    def __exit__(self, *a):
        import jax.numpy as jnp
        jnp.isnan, jnp.any = self.old


def maybe_no_nan(h):
    import contextlib
    return no_nan() if h.symbolic else contextlib.nullcontext()


class _Meta(type):
    def __instancecheck__(cls, x):
        return isinstance(x, cls.base)

    def __subclasscheck__(cls, c):
        return issubclass(c, cls.base)


def _scalar(t):
    import jax

    class T(t, metaclass=_Meta):
        base = t

        def __new__(cls, *a):
            return a[0] if a and isinstance(a[0], jax.core.Tracer) else t(*a)
    T.__name__ = t.__name__
    return T


class _Onp:
    """ numpy, except that traced arrays stay traced """

    def __getattr__(self, name):
        import jax
        import jax.numpy as jnp
        f = getattr(onp, name)
        if not callable(f) or isinstance(f, type) or not hasattr(jnp, name.replace('asany', 'as')):
            return f
        g = getattr(jnp, name.replace('asany', 'as'))

        def go(*a, **k):
            leaves = jax.tree_util.tree_leaves((a, k))
            return (g if any(isinstance(x, jax.core.Tracer) for x in leaves) else f)(*a, **k)
        return go


class traceable:
    """ lets the methods that return plain numpy or Python numbers be traced by jax """

    def __enter__(self):
        import sys
        self.undo = []
        repl = {'int': _scalar(int), 'float': _scalar(float)}
        for n, m in list(sys.modules.items()):
            if not (n == 'coax' or n.startswith('coax.')) or m is None:
                continue
            for k, v in repl.items():
                self.undo.append((m, k, m.__dict__.get(k)))
                m.__dict__[k] = v
            for k, v in list(m.__dict__.items()):
                if v is onp:
                    self.undo.append((m, k, v))
                    m.__dict__[k] = _Onp()

    def __exit__(self, *a):
        for m, k, v in self.undo:
            if v is None:
                m.__dict__.pop(k, None)
            else:
                m.__dict__[k] = v


def ask(h, syms, fn, *args):
    """ like call, for methods that return numpy arrays or numbers; draws: see engine.jaxrng """
    def go(*a):
        with traceable():
            return fn(*a)
    return call(h, syms, go, *args)
