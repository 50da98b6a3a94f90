"""P25: helpers on arrays, spaces and pytrees keep every entry where it belongs."""
import numpy as onp

from engine.harness import Check
from engine.jaxrng import with_draws

JX = dict(numpy=False, prune=True, cases=True, conc=4)


def h_argmax(shape, axis, neg=False):
    """ some maximiser (minimiser), whatever the draws; among ties the one with the largest draw """
    def fn(h):
        from coax.utils import argmax, argmin
        n = int(onp.prod(shape))
        v = [h.real(f'x{i}', -8, 8) for i in range(n)]
        for i in range(1, n):                   # ties are the interesting case
            if h.choice(f'tie{i}', 0, 1):
                v[i] = v[i - 1 if i % 2 else 0]
        x = onp.reshape(h.arr(v), shape)
        y = onp.moveaxis(x, axis, -1)
        # jax draws -log(-log(u)) with u in [1.2e-38, 1-2**-24]
        g = h.reals('g', y.shape, -4.5, 17)
        f = argmin if neg else argmax
        got = h.jax(with_draws(lambda x: f(h.key(), x, axis=axis)), {'g': [g]}, x)
        rows = y.reshape(-1, y.shape[-1])
        h.check(got.shape == y.shape[:-1], 'one index per row')
        for r, d, i in zip(rows, g.reshape(rows.shape), onp.reshape(got, (-1,))):
            n = len(r)

            def best(j):
                return h.and_(*[(r[j] <= r[k]) if neg else (r[j] >= r[k]) for k in range(n)])
            for j in range(n):
                h.check(h.implies(h.eq(i, j), best(j)), 'selects an extremal entry only')
                for k in range(n):
                    h.check(h.implies(h.and_(h.eq(i, j), best(k)), d[j] >= d[k]),
                            'ties are broken by the random draw')
            h.check(h.or_(*[h.eq(i, j) for j in range(n)]), 'index in range')
    return fn


def h_batch(h):
    """ single_to_batch, batch_to_single, unvectorize """
    from coax.utils import batch_to_single, single_to_batch, unvectorize
    t = {'a': h.reals('a', (3, 2), -5, 5), 'b': (h.reals('b', (3,), -5, 5), [h.reals('c', (3, 2, 2), -5, 5)])}
    i = h.choice('i', -3, 2)
    got = h.jax(lambda t: batch_to_single(t, i), t)
    h.check_eq(got['a'], t['a'][i], 'row of the batch')
    h.check_eq(got['b'][0], t['b'][0][i], 'row of the batch')
    h.check_eq(got['b'][1][0], t['b'][1][0][i], 'row of the batch')
    got = h.jax(lambda t: batch_to_single(t), t)
    h.check_eq(got['a'], t['a'][0], 'first row')
    up = h.jax(single_to_batch, got)
    h.check(up['a'].shape == (1, 2) and up['b'][1][0].shape == (1, 2, 2) and up['b'][0].shape == (1,),
            'batch of one')
    h.check_eq(up['b'][1][0][0], t['b'][1][0][0], 'entries of the batch of one')
    h.check_eq(up['b'][0][0], t['b'][0][0], 'entries of the batch of one')

    def f(w, x):
        return x['u'] * w, {'v': x['v'] + w, 's': x['u'].sum(axis=1),
                             'k': x['u'].sum(axis=1, keepdims=True)}
    x = {'u': h.reals('u', (2, 3), -3, 3), 'v': h.reals('v', (2,), -3, 3)}
    w = h.real('w', -3, 3)
    full = h.jax(lambda x, w: f(w, x), x, w)
    for r in range(2):
        one = {k: v[r] for k, v in x.items()}
        got = h.jax(lambda x, w: unvectorize(f, in_axes=(None, 0))(w, x), one, w)
        h.check_eq(got[0], full[0][r], 'unvectorized function: first output')
        h.check_eq(got[1]['v'], full[1]['v'][r], 'unvectorized function: nested output')
        h.check_eq(got[1]['s'], full[1]['s'][r], 'unvectorized function: nested output')
        h.check(got[1]['k'].shape == (1,), 'only the batch axis is dropped')
        h.check_eq(got[1]['k'][0], full[1]['s'][r], 'unvectorized function: nested output')
    y = h.reals('y', (2, 3), -3, 3)             # batch in axis 1
    got = h.jax(lambda a: unvectorize(lambda v: v * v, in_axes=1, out_axes=1)(a), y)
    h.check_eq(got, y * y, 'other axes')
    got = h.jax(lambda a: unvectorize(lambda v: (v, v[:, 0]), in_axes=0, out_axes=(0, None))(a), y)
    h.check_eq(got[0], y, 'one axis per output')
    h.check_eq(got[1], y[0:1], 'an output without batch axis is left alone')
    for bad in ((0,), (0, 0, 0)):
        try:
            unvectorize(f, in_axes=bad)(1., {'u': onp.ones(3), 'v': onp.ones(())})
            h.check(False, 'wrong number of axes refused')
        except ValueError:
            pass


def h_chunks(B, opt):
    """ chunks of distinct powers of two, in order, together the batch """
    def fn(h):
        from coax.reward_tracing import TransitionBatch
        from coax.utils import chunks_pow2
        d = dict(S={'x': h.reals('s', (B, 2), -5, 5), 'y': (h.reals('sy', (B,), -5, 5),)},
                 A=h.reals('a', (B,), -5, 5), logP=h.reals('l', (B,), -5, 0),
                 Rn=h.reals('r', (B,), -5, 5), In=h.reals('i', (B,), 0, 1),
                 S_next={'x': h.reals('n', (B, 2), -5, 5), 'y': (h.reals('ny', (B,), -5, 5),)},
                 A_next=None if opt else h.reals('an', (B,), -5, 5),
                 logP_next=None if opt else h.reals('ln', (B,), -5, 0), W=h.reals('w', (B,), 0.1, 5))
        got = list(chunks_pow2(TransitionBatch(**d)))
        sizes = [c.batch_size for c in got]
        h.check(sum(sizes) == B, 'sizes add up')
        h.check(all(s & (s - 1) == 0 and s > 0 for s in sizes), 'sizes are powers of two')
        h.check(len(set(sizes)) == len(sizes), 'as few chunks as possible')
        for k, v in d.items():
            xs = [getattr(c, k) for c in got]
            if v is None:
                h.check(all(x is None for x in xs), 'a missing field stays missing')
                continue
            for get in ((lambda v: v['x']), (lambda v: v['y'][0])) if isinstance(v, dict) else ((lambda v: v),):
                cat = onp.concatenate([onp.asanyarray(get(x)) for x in xs])
                h.check(len(cat) == B, f'{k}: all rows')
                h.check_eq(cat, get(v), f'{k}: rows in order')
        h.check_eq(onp.concatenate([c.idx for c in got]), onp.arange(B), 'identifiers in order')
    return fn


def pre_spaces():
    from gymnasium import spaces as G
    b = lambda: G.Box(onp.array([-1., 0.], 'float32'), onp.array([1., 3.], 'float32'))  # noqa: E731
    return {
        'discrete': lambda: G.Discrete(4), 'box': b,
        'box2': lambda: G.Box(-2., 2., (2, 2)), 'box0': lambda: G.Box(-2., 2., ()),
        'halfopen': lambda: G.Box(onp.array([-onp.inf, 0.], 'float32'), onp.array([1., onp.inf], 'float32')),
        'multidiscrete': lambda: G.MultiDiscrete([2, 3, 4]), 'multibinary': lambda: G.MultiBinary(3),
        'tuple': lambda: G.Tuple((G.Discrete(3), b(), G.MultiDiscrete([2, 2]))),
        'dict': lambda: G.Dict({'z': b(), 'a': G.Discrete(2), 'm': G.MultiBinary(2)}),
        'nested': lambda: G.Dict({'z': G.Tuple((G.Discrete(2), G.Dict({'q': b(), 'p': G.Discrete(3)}))),
                                  'a': b()}),
    }


def element(h, sp, B, tag):
    """ B elements (None: a single one), Box entries may lie outside """
    from gymnasium import spaces as G
    lead = () if B is None else (B,)
    if isinstance(sp, G.Discrete):
        return h.ints(tag, lead, 0, int(sp.n) - 1)
    if isinstance(sp, G.Box):
        return h.reals(tag, lead + sp.shape, -5, 5)
    if isinstance(sp, G.MultiDiscrete):
        x = [h.ints(f'{tag}.{i}', lead, 0, int(n) - 1) for i, n in enumerate(sp.nvec)]
        return onp.stack(x, axis=-1)
    if isinstance(sp, G.MultiBinary):
        return h.ints(tag, lead + (int(sp.n),), 0, 1)
    if isinstance(sp, G.Tuple):
        return tuple(element(h, s, B, f'{tag}.{i}') for i, s in enumerate(sp.spaces))
    return {k: element(h, s, B, f'{tag}.{k}') for k, s in sp.spaces.items()}


def check_pre(h, sp, x, y, B, what):
    from gymnasium import spaces as G
    n = 1 if B is None else B
    if isinstance(sp, G.Discrete):
        h.check(onp.shape(y) == (n, int(sp.n)), f'{what}: shape of the one-hot encoding')
        xs = onp.reshape(x, (n,))
        for r in range(n):
            for j in range(int(sp.n)):
                h.check_eq(y[r, j], h.ite(h.eq(xs[r], j), 1, 0), f'{what}: one-hot encoding')
    elif isinstance(sp, G.Box):
        h.check(onp.shape(y) == (n,) + sp.shape, f'{what}: shape')
        xs = onp.reshape(x, (n,) + sp.shape)
        for r in range(n):
            for i in onp.ndindex(*sp.shape):
                w = xs[(r,) + i]
                if onp.isfinite(sp.low[i]):
                    w = h.max(w, h.num(float(sp.low[i])))
                if onp.isfinite(sp.high[i]):
                    w = h.min(w, h.num(float(sp.high[i])))
                h.check_eq(y[(r,) + i], w, f'{what}: clipped to the Box')
    elif isinstance(sp, G.MultiDiscrete):
        xs = onp.reshape(x, (n, len(sp.nvec)))
        h.check(len(y) == len(sp.nvec), f'{what}: one encoding per component')
        for i, m in enumerate(sp.nvec):
            check_pre(h, G.Discrete(int(m)), xs[:, i], y[i], n, f'{what}[{i}]')
    elif isinstance(sp, G.MultiBinary):
        h.check(onp.shape(y) == (n, int(sp.n)), f'{what}: shape')
        h.check_eq(y, onp.reshape(x, (n, int(sp.n))), f'{what}: bits')
    elif isinstance(sp, G.Tuple):
        h.check(isinstance(y, tuple) and len(y) == len(sp.spaces), f'{what}: tuple')
        for i, s in enumerate(sp.spaces):
            check_pre(h, s, x[i], y[i], B, f'{what}[{i}]')
    else:
        h.check(set(y) == set(sp.spaces), f'{what}: keys')
        for k, s in sp.spaces.items():
            check_pre(h, s, x[k], y[k], B, f'{what}[{k}]')


def h_pre(name, B):
    def fn(h):
        from coax.utils import default_preprocessor
        sp = pre_spaces()[name]()
        x = element(h, sp, B, 'x')
        y = h.jax(lambda x: default_preprocessor(sp)(h.key(), x), x)
        check_pre(h, sp, x, y, B, 'space')
    return fn


def h_logit(h):
    """ log x - log(1-x), finite at the ends, inverse of the sigmoid """
    import jax
    import jax.numpy as jnp
    from coax.utils import clipped_logit
    eps = 0.0625
    x = h.reals('x', (3,), 0, 1)
    got = h.jax(lambda x: clipped_logit(x, eps), x)
    want = h.jax(lambda a, b: jnp.log(a) - jnp.log(b), h.arr([h.max(v, h.num(eps)) for v in x]),
                 h.arr([h.max(1 - v, h.num(eps)) for v in x]))
    for i in range(3):
        h.check_eq(got[i], want[i], 'logit with the arguments of the logarithms clipped from below')
    z = h.reals('z', (2,), -3, 3)
    back = h.jax(lambda z: clipped_logit(jax.nn.sigmoid(z)), z)
    for i in range(2):
        h.check_near(back[i], z[i], 'inverse of the sigmoid', tol=1e-4)


def h_diff(n, lead):
    """ column n-1-k is the k-th backward difference of the frames """
    def fn(h):
        from coax.utils import diff_transform, diff_transform_matrix
        x = h.reals('x', lead + (n,), -5, 5)
        got = h.jax(diff_transform, x)
        h.check(onp.shape(got) == onp.shape(x), 'shape is preserved')
        M = onp.asarray(diff_transform_matrix(n))
        h.check(M.shape == (n, n) and M.dtype == onp.float32, 'square matrix')
        for i in onp.ndindex(*lead):
            d = list(x[i])
            for k in range(n):
                h.check_eq(got[i + (n - 1 - k,)], d[-1], f'difference of order {k}')
                w = 0
                for j in range(n):
                    w = w + x[i + (j,)] * float(M[j, n - 1 - k])
                h.check_eq(w, d[-1], f'column of the matrix for order {k}')
                d = [b - a for a, b in zip(d, d[1:])]
    return fn


def h_relu(shape):
    def fn(h):
        from coax.utils import double_relu
        x = h.reals('x', shape, -5, 5)
        got = h.jax(double_relu, x)
        n = shape[-1]
        h.check(onp.shape(got) == shape[:-1] + (2 * n,), 'last axis is doubled')
        for i in onp.ndindex(*shape):
            h.check_eq(got[i], h.min(x[i], h.num(0)), 'negative part first')
            h.check_eq(got[i[:-1] + (i[-1] + n,)], h.max(x[i], h.num(0)), 'then the positive part')
    return fn


def tree(h, tag=''):
    return {'w': h.reals(f'{tag}w', (2,), -5, 5), 'b': {'c': h.reals(f'{tag}c', (1, 2), -5, 5)}}


def h_grads(h):
    """ largest magnitude and euclidean norm, over all leaves or leaf by leaf """
    from coax.utils import get_grads_diagnostics, tree_ravel
    t = tree(h)
    flat = h.jax(tree_ravel, t)
    h.check_eq(flat, onp.concatenate([t['b']['c'].reshape(-1), t['w']]), 'all leaves, flat')

    def judge(got, xs):
        h.check(set(got) == {'g_max', 'g_norm'}, 'names')
        for x in xs:
            h.check_le(x, got['g_max'], 'no magnitude is larger')
            h.check_le(-x, got['g_max'], 'no magnitude is larger')
        e = h.num(1e-5)
        h.check(h.or_(*[h.or_(got['g_max'] <= x + e, got['g_max'] <= -x + e) for x in xs]),
                'the largest magnitude is that of an entry')
        n = got['g_norm']
        s = xs[0] * xs[0]
        for x in xs[1:]:
            s = s + x * x
        h.check_eq(n * n, s, 'square of the norm')
        h.check(n >= 0, 'norm is not negative')
    judge(h.jax(lambda t: get_grads_diagnostics(t, 'g_'), t), list(t['w']) + list(t['b']['c'][0]))
    got = h.jax(lambda t: get_grads_diagnostics(t, 'g_', keep_tree_structure=True), t)
    judge(got['w'], list(t['w']))
    judge(got['b']['c'], list(t['b']['c'][0]))


def h_quantiles(nth):
    """ quantiles of the magnitudes of five entries are their order statistics """
    def fn(h):
        import itertools
        from coax.utils import get_magnitude_quantiles
        perms = list(itertools.permutations(range(5)))[::nth]
        p = h.choice('perm', 0, len(perms) - 1)
        m = [h.real('m0', 0, 2)]
        for i in range(1, 5):
            m.append(m[-1] + h.real(f'm{i}', 0, 2))
        x = [m[j] if (p * 7 + j) % 3 else -m[j] for j in perms[p]]
        t = {'a': h.arr(x[:2]), 'b': (h.arr([x[2:]]),)}
        got = h.jax(lambda t: get_magnitude_quantiles(t, 'm_'), t)
        h.check(set(got) == {'m_min', 'm_p25', 'm_p50', 'm_p75', 'm_max'}, 'names')
        for k, w in zip(('min', 'p25', 'p50', 'p75', 'max'), m):
            h.check_eq(got[f'm_{k}'], w, f'quantile {k}')
    return fn


KEYS = [({'x', 'y'}, {'x', 'z'}), ({'x', 'y'}, {'x', 'y'}), ({'x', 'y'}, {'y', 'z'}, {'x', 'y', 'z'}),
        ({'x'}, {'y'}), ({'x'}, {'y', 'x'}, {'x'}, {'y'})]


def h_sync(case, weighted):
    """ shared modules become their weighted average, everything else and the inputs stay """
    def fn(h):
        from coax.utils import sync_shared_params
        keys = KEYS[case]
        n = len(keys)
        P = [{k: {'w': h.reals(f'{i}{k}w', (2,), -5, 5), 'b': h.reals(f'{i}{k}b', (1,), -5, 5)}
              for k in sorted(ks)} for i, ks in enumerate(keys)]
        # weights are Python floats
        W = [1.] * n
        if weighted:
            W = [0.5, 1.5, 4., 2.][:n] if h.choice('up', 0, 1) else [3., 0.25, 1., 0.5][:n]
        keep = []

        def f(P):
            out = sync_shared_params(*P, weights=W if weighted else None)
            keep.append((type(out) is tuple, [sorted(p) for p in P]))
            return [dict(p) for p in out], P
        got, after = h.jax(f, P)
        h.check(keep[-1][0], 'returns a tuple')
        h.check(len(got) == n, 'as many as given')
        for i in range(n):
            h.check(set(got[i]) == keys[i], 'modules of each function')
            for k in keys[i]:
                who = [j for j in range(n) if k in keys[j]]
                tot = W[who[0]]
                for j in who[1:]:
                    tot = tot + W[j]
                for leaf in ('w', 'b'):
                    h.check_eq(after[i][k][leaf], P[i][k][leaf], 'the given parameters are left alone')
                    for e in range(2 if leaf == 'w' else 1):
                        s = h.num(W[who[0]]) * P[who[0]][k][leaf][e]
                        for j in who[1:]:
                            s = s + h.num(W[j]) * P[j][k][leaf][e]
                        h.check_near(got[i][k][leaf][e],
                                     P[i][k][leaf][e] if len(who) == 1 else s / h.num(tot),
                                     'weighted average over those that share the module')
    return fn


def h_sync_args(h):
    from coax.utils import sync_shared_params
    p = {'x': {'w': onp.zeros(2)}}
    for w in ((1.,), (1., 1., 1.)):
        try:
            sync_shared_params(p, p, weights=w)
            h.check(False, 'wrong number of weights refused')
        except ValueError:
            pass
    h.check(len(sync_shared_params(p)) == 1, 'a single function has nothing to share')


def h_stack(h):
    """ lists of parameters and states -> stacked parameters, stacked states """
    from coax.utils import stack_trees
    P, S = [tree(h, f'p{i}') for i in range(3)], [h.reals(f's{i}', (2,), -5, 5) for i in range(3)]
    got = h.jax(lambda P, S: stack_trees(P, S), P, S)
    h.check(len(got) == 2, 'parameters and states')
    for i in range(3):
        h.check_eq(got[0]['w'][i], P[i]['w'], 'stacked in order')
        h.check_eq(got[0]['b']['c'][i], P[i]['b']['c'], 'stacked in order')
        h.check_eq(got[1][i], S[i], 'stacked in order')


def h_merge(h):
    import warnings
    from coax.utils import isscalar, merge_dicts
    a, b, c = (h.real(k, -5, 5) for k in 'abc')
    with warnings.catch_warnings(record=True) as w:
        warnings.simplefilter('always')
        m = merge_dicts({'x': a}, {'y': b}, {})
        h.check(len(w) == 0, 'no warning without overlap')
    h.check(set(m) == {'x', 'y'}, 'keys of all')
    h.check_eq(m['x'], a, 'values')
    h.check_eq(m['y'], b, 'values')
    x, y = {'x': a, 'y': b}, {'x': c}
    with warnings.catch_warnings(record=True) as w:
        warnings.simplefilter('always')
        m = merge_dicts(x, y)
        h.check(len(w) == 1, 'overlapping keys are announced')
    h.check_eq(m['x'], c, 'the last one wins')
    h.check_eq(m['y'], b, 'values')
    h.check(set(x) == {'x', 'y'} and set(y) == {'x'}, 'the given dicts are left alone')
    h.check_eq(x['x'], a, 'the given dicts are left alone')
    for shape in ((), (1,), (1, 1), (2,), (1, 2), (0,)):
        h.check(isscalar(onp.zeros(shape)) == (int(onp.prod(shape)) == 1), 'single-item arrays are scalars')
    h.check(isscalar(1.5) and isscalar(3) and not isscalar([1]) and not isscalar(None), 'scalars')


def h_safe_box(shape, kind):
    """ samples lie in the Box, whatever its bounds """
    def fn(h):
        import gymnasium
        from coax.utils import safe_sample
        lo, hi = h.reals('lo', shape, -20, 20), h.reals('d', shape, 0.125, 30)
        hi = lo + hi
        sp = gymnasium.spaces.Box(onp.float32(-1), onp.float32(1), shape)
        if kind in ('low', 'none'):
            lo = onp.full(shape, -onp.inf)
        if kind in ('high', 'none'):
            hi = onp.full(shape, onp.inf)
        sp.low, sp.high = lo, hi
        if not h.symbolic:
            sp.low, sp.high = onp.asarray(lo, 'float32'), onp.asarray(hi, 'float32')
        x = safe_sample(sp, 13)
        h.check(onp.shape(x) == shape, 'shape of the space')
        xx, lo, hi = (onp.reshape(v, (-1,)) for v in (x, sp.low, sp.high))
        for i in range(len(xx)):
            if kind not in ('low', 'none'):
                h.check(xx[i] >= lo[i], 'not below the lower bound')
            if kind not in ('high', 'none'):
                h.check(xx[i] <= hi[i], 'not above the upper bound')
    return fn


def h_safe_tree(h):
    """ the structure of the space, every component an element of its space """
    from gymnasium import spaces as G
    from coax.utils import safe_sample
    sp = G.Dict({'d': G.Discrete(4), 't': G.Tuple((G.MultiDiscrete([2, 5]), G.MultiBinary(2))),
                 'a': G.Discrete(2)})
    x = safe_sample(sp, 13)
    h.check(set(x) == {'d', 't', 'a'} and len(x['t']) == 2, 'structure')

    def within(v, n):
        h.check(h.and_(v >= 0, v < n), 'element of the space')
    within(x['d'], 4)
    within(x['a'], 2)
    within(x['t'][0][0], 2)
    within(x['t'][0][1], 5)
    h.check(len(x['t'][0]) == 2 and len(x['t'][1]) == 2, 'number of components')
    for v in x['t'][1]:
        within(v, 2)
    if h.symbolic:
        h.check(len(h.draws) >= 5, 'every component has its own draw')


def build(tier):
    th = tier == 'thorough'
    c = Check('P25', bounds={
        'argmax': 'rows of 2-4 entries, all patterns of ties with the first entry',
        'chunks': 'batch sizes 1 to %d' % (33 if th else 17), 'frames': '1 to %d' % (7 if th else 5),
        'spaces': 'ten, nested up to depth 3', 'shared parameters': 'up to 4 functions',
        'values': 'all reals within +-5 to 20'}, assumptions=[])
    J = dict(JX, budget_s=200)
    for neg in (False, True):
        for shape, ax in (((3,), -1), ((2, 2), -1), ((2, 2), 0)) + ((((4,), 0), ((2, 3), 1)) if th else ()):
            c.harness(f'arg{"min" if neg else "max"}-{shape}-{ax}', h_argmax(shape, ax, neg), **J)
    c.harness('batch', h_batch, **J)
    for B in range(1, 34 if th else 18):
        c.harness(f'chunks-{B}', h_chunks(B, B % 2), budget_s=100)
    for name in pre_spaces():
        for B in (None, 2):
            c.harness(f'pre-{name}-{B}', h_pre(name, B), **J)
    c.harness('logit', h_logit, **J)
    for n in range(1, 8 if th else 6):
        c.harness(f'diff-{n}', h_diff(n, (2,) if n % 2 else (1, 2)), **J)
    for shape in ((2,), (2, 2)):
        c.harness(f'double-relu-{shape}', h_relu(shape), **J)
    c.harness('grads', h_grads, **J)
    c.harness('quantiles', h_quantiles(1 if th else 7), **J)
    for i in range(len(KEYS)):
        for w in (False, True):
            c.harness(f'sync-{i}-{w}', h_sync(i, w), **J)
    c.harness('sync-args', h_sync_args, **J)
    c.harness('stack', h_stack, **J)
    c.harness('merge', h_merge)
    for kind in ('both', 'low', 'high', 'none'):
        c.harness(f'safe-box-{kind}', h_safe_box((2,) if kind == 'both' else (1,), kind), rng=True)
    c.harness('safe-tree', h_safe_tree, rng=True)
    return c
