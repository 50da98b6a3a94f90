"""P18: a composite distribution is the product of independent distributions over its leaves."""
import numpy as onp

from engine.harness import Check
from engine.jaxrng import with_draws
from . import fa

LO, HI = [-1., 0.], [1., 4.]


def space(name):
    from gymnasium import spaces as G
    b1 = lambda: G.Box(onp.float32(-2), onp.float32(2), (1,))                   # noqa: E731
    b2 = lambda: G.Box(onp.array(LO, 'float32'), onp.array(HI, 'float32'))      # noqa: E731
    return {
        'discrete': lambda: G.Discrete(3),
        'box': b2,
        'multidiscrete': lambda: G.MultiDiscrete([2, 3]),
        'multibinary': lambda: G.MultiBinary(2),
        'tuple': lambda: G.Tuple((G.Discrete(2), b2())),
        'dict': lambda: G.Dict({'b': b1(), 'a': G.Discrete(2), 'c': G.Discrete(2)}),
        'nested': lambda: G.Tuple((G.Dict({'y': b1(), 'x': G.Discrete(2)}),
                                   G.MultiDiscrete([2, 2]), b1())),
        'dictnested': lambda: G.Dict({'p': G.Tuple((b1(), G.Discrete(2))), 'm': G.MultiBinary(2),
                                      'a': b2()}),
        'boxes': lambda: G.Tuple((b1(), G.Dict({'u': b2(), 'v': b1()}))),
        'boxdict': lambda: G.Dict({'u': b2(), 'v': G.Tuple((b1(), b1()))}),
    }[name]()


def leaves(sp, path=()):
    """ [(path, leaf space)] in the order of the variates """
    from gymnasium import spaces as G
    if isinstance(sp, (G.Discrete, G.Box)):
        return [(path, sp)]
    if isinstance(sp, G.MultiDiscrete):
        return [(path + (i,), G.Discrete(n)) for i, n in enumerate(sp.nvec)]
    if isinstance(sp, G.MultiBinary):
        return [(path + (i,), G.Discrete(2)) for i in range(sp.n)]
    items = enumerate(sp.spaces) if isinstance(sp, G.Tuple) else sp.spaces.items()
    return [x for k, s in items for x in leaves(s, path + (k,))]


def build_tree(sp, vals, path=()):
    """ nested structure with vals[path] at the leaves (tuples, dicts) """
    from gymnasium import spaces as G
    if isinstance(sp, (G.Discrete, G.Box)):
        return vals[path]
    if isinstance(sp, G.MultiDiscrete):
        return tuple(vals[path + (i,)] for i in range(len(sp.nvec)))
    if isinstance(sp, G.MultiBinary):
        return tuple(vals[path + (i,)] for i in range(sp.n))
    if isinstance(sp, G.Tuple):
        return tuple(build_tree(s, vals, path + (i,)) for i, s in enumerate(sp.spaces))
    return {k: build_tree(s, vals, path + (k,)) for k, s in sp.spaces.items()}


def get(t, path):
    for k in path:
        t = t[k]
    return t


def leaf(sp):
    from gymnasium import spaces as G
    from coax.proba_dists import CategoricalDist, NormalDist
    return (CategoricalDist if isinstance(sp, G.Discrete) else NormalDist)(sp)


def params(h, name, B, ls):
    from gymnasium import spaces as G
    r = {}
    for i, (p, sp) in enumerate(ls):
        n = f'{name}{i}'
        r[p] = {'logits': h.reals(n, (B, int(sp.n)), -2, 2)} if isinstance(sp, G.Discrete) else \
            {'mu': h.reals(f'{n}m', (B,) + sp.shape, -2, 2),
             'logvar': h.reals(f'{n}v', (B,) + sp.shape, -1, 1)}
        if 'logits' in r[p]:
            for z in r[p]['logits']:
                m = 0
                for j in range(1, len(z)):
                    if not bool(z[m] >= z[j]):
                        m = j
    return r


def h_sums(name, B, what):
    """ log_proba, entropy, cross entropy, divergence: sums over the leaves """
    def fn(h):
        from coax.proba_dists import ProbaDist
        sp = space(name)
        ls = leaves(sp)
        d = ProbaDist(sp)
        P = params(h, 'p', B, ls)
        args = [P]
        if what == 'log_proba':
            X = {p: h.reals(f'x{i}', (B, int(s.n)) if hasattr(s, 'n') else (B,) + s.shape, -1, 1)
                 for i, (p, s) in enumerate(ls)}
            args.append(X)
        elif what != 'entropy':
            args.append(params(h, 'q', B, ls))
        got = h.jax(getattr(d, what), *[build_tree(sp, a) for a in args])
        h.check(got.shape == (B,), 'one number per row')
        want = [0] * B
        for p, s in ls:
            w = h.jax(getattr(leaf(s), what), *[a[p] for a in args])
            want = [x + y for x, y in zip(want, w)]
        for b in range(B):
            h.check_eq(got[b], want[b], f'{what} is the sum over all leaves')
    return fn


def h_each(name, B, what):
    """ mean, mode, sample: leaf by leaf, samples from independent draws """
    def fn(h):
        from coax.proba_dists import ProbaDist
        sp = space(name)
        ls = leaves(sp)
        d = ProbaDist(sp)
        P = params(h, 'p', B, ls)
        if what != 'sample':
            got = h.jax(getattr(d, what), build_tree(sp, P))
            for p, s in ls:
                w = h.jax(getattr(leaf(s), what), P[p])
                h.check_eq(get(got, p), w, f'{what} of every leaf')
            return
        draws, dr = {}, {}
        for i, (p, s) in enumerate(ls):
            k = 'g' if hasattr(s, 'n') else 'n'
            dr[p] = k, h.reals(f'draw{i}', (B, int(s.n)) if k == 'g' else (B,) + s.shape, -1, 1)
            draws.setdefault(k, []).append(dr[p][1])
        fresh = []
        got = h.jax(with_draws(lambda P: d.sample(P, h.key()), fresh), draws, build_tree(sp, P))
        h.check(bool(fresh[-1]), 'every leaf is drawn with its own random key')
        for p, s in ls:
            k, x = dr[p]
            w = h.jax(with_draws(lambda P: leaf(s).sample(P, h.key())), {k: [x]}, P[p])
            h.check_eq(get(got, p), w, 'sample of every leaf')
    return fn


def h_variates(name, B):
    """ actions -> raw variates -> actions, for the whole batch and for every row """
    def fn(h):
        from gymnasium import spaces as G
        from coax.proba_dists import ProbaDist
        sp = space(name)
        ls = leaves(sp)
        d = ProbaDist(sp)
        X, us = {}, []
        for i, (p, s) in enumerate(ls):
            if hasattr(s, 'n'):
                X[p] = onp.array([h.choice(f'a{i}', 0, int(s.n) - 1)] +
                                 [(i + b) % int(s.n) for b in range(1, B)])
                us.append(onp.full((B, int(s.n)), 0.5, 'float32'))
            else:
                lo, hi = s.low, s.high
                X[p] = h.arr([[h.real(f'x{i}_{b}_{j}', float(lo[j]) + 0.125, float(hi[j]) - 0.125)
                               for j in range(s.shape[0])] for b in range(B)])

        def tree(sp, path=()):
            """ actions in the format of the space """
            if isinstance(sp, (G.Discrete, G.Box)):
                return X[path]
            if isinstance(sp, (G.MultiDiscrete, G.MultiBinary)):
                n = len(sp.nvec) if hasattr(sp, 'nvec') else sp.n
                return onp.stack([X[path + (i,)] for i in range(n)], axis=-1)
            if isinstance(sp, G.Tuple):
                return tuple(tree(s, path + (i,)) for i, s in enumerate(sp.spaces))
            return {k: tree(s, path + (k,)) for k, s in sp.spaces.items()}

        def part(t, p):
            """ leaf of a returned action """
            for k in p:
                if isinstance(t, (dict, tuple, list)):
                    t = t[k]
                else:
                    t = t[..., k]
            return t
        index = h.choice('index', 0, B - 1)

        def go(t):
            with fa.traceable():
                raw = d.preprocess_variate(h.key(), t)
                return (raw, d.postprocess_variate(h.key(), raw, batch_mode=True),
                        d.postprocess_variate(h.key(), raw, index=index),
                        d.postprocess_variate(h.key(), raw))
        raw, back, one, first = h.jax(with_draws(go), {'u': us * 3}, tree(sp))
        for p, s in ls:
            r = get(raw, p)
            w = h.jax(lambda x: leaf(s).preprocess_variate(h.key(), x), X[p])
            h.check(r.shape == w.shape, 'shape of the raw variates')
            h.check_eq(r, w, 'raw variates, leaf by leaf')
            for b in range(B):
                h.check_near(part(back, p)[b] if hasattr(s, 'n') else part(back, p)[b, 0],
                             X[p][b] if hasattr(s, 'n') else X[p][b, 0], 'round trip of a batch')
            for got, b in ((one, index), (first, 0)):
                g, w = part(got, p), X[p][b]
                if hasattr(s, 'n'):
                    h.check_near(g, w, f'round trip of row {b}')
                else:
                    h.check(onp.shape(g) == onp.shape(w), 'shape of a single action')
                    for j in range(s.shape[0]):
                        h.check_near(g[j], w[j], f'round trip of row {b}')
    return fn


def h_affine(name, B, vt):
    """ scale, shift and value transforms go to their own leaf """
    def fn(h):
        from coax.proba_dists import ProbaDist
        from coax.value_transforms import ValueTransform
        sp = space(name)
        ls = leaves(sp)
        d = ProbaDist(sp)
        P = params(h, 'p', B, ls)
        c = {p: h.real(f'c{i}', 0.25, 2) for i, (p, s) in enumerate(ls)}
        s = {p: h.real(f's{i}', -2, 2) for i, (p, _) in enumerate(ls)}
        T = {p: ValueTransform(lambda x, i=i: x / 4 + i, lambda y, i=i: (y - i) * 4)
             if vt and i % 2 == 0 else None for i, (p, _) in enumerate(ls)}

        def go(P, c, s):
            if not vt:
                return d.affine_transform(P, c, s)
            return d.affine_transform(P, c, s, build_tree(sp, T))
        got = h.jax(go, build_tree(sp, P), build_tree(sp, c), build_tree(sp, s))
        for p, x in ls:
            w = h.jax(lambda P, c, s: leaf(x).affine_transform(P, c, s, T[p]), P[p], c[p], s[p])
            for k in ('mu', 'logvar')[:1 if vt else 2]:
                h.check_eq(get(got, p)[k], w[k], f'affine transform of a leaf: {k}')
    return fn


def h_priors(name):
    """ default priors: those of the leaves, in the structure of the space """
    def fn(h):
        from coax.proba_dists import ProbaDist
        sp = space(name)
        d = ProbaDist(sp)
        pr = d.default_priors
        for p, s in leaves(sp):
            want = leaf(s).default_priors
            for k in want:
                h.check(onp.array_equal(onp.asarray(get(pr, p)[k]), onp.asarray(want[k])),
                        'default priors of the leaves')
        z = h.reals('z', (1,), -1, 1)
        h.check_eq(h.jax(lambda z: z + d.entropy(pr), z)[0] - z[0], sum(
            h.jax(lambda z: z + leaf(s).entropy(leaf(s).default_priors), z)[0] - z[0]
            for _, s in leaves(sp)), 'entropy of the priors')
    return fn


def build(tier):
    th = tier == 'thorough'
    c = Check('P18', bounds={
        'spaces': 'Discrete, Box, MultiDiscrete, MultiBinary, Tuple, Dict and nested ones, up to '
        '5 leaves', 'batch': '1-2', 'parameters': 'all reals within +-2'},
        assumptions=['the leaves are judged by P15 and P16'])
    J = dict(numpy=False, prune=True, cases=True, conc=4, budget_s=300)
    for name in ('multidiscrete', 'multibinary', 'tuple', 'dict', 'nested', 'dictnested',
                 'discrete', 'box'):
        small = name in ('nested', 'dictnested')
        B = 2 if th and not small or name in ('tuple', 'box') else 1
        for what in ('log_proba', 'entropy') + (('cross_entropy', 'kl_divergence')
                                                if th or not small else ()):
            two = what in ('cross_entropy', 'kl_divergence')
            c.harness(f'{name}-{what}', h_sums(name, 1 if two else B, what), **J)
        for what in ('mean', 'mode', 'sample'):
            c.harness(f'{name}-{what}', h_each(name, 1, what), **J)
        c.harness(f'{name}-variates', h_variates(name, 2), **J)
        c.harness(f'{name}-priors', h_priors(name), **J)
    for name in ('boxes', 'boxdict', 'box'):
        for vt in (0, 1):
            c.harness(f'{name}-affine{vt}', h_affine(name, 2, vt), **J)
    return c
