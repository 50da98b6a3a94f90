"""P03: transition batches are lossless containers."""
import numpy as onp

from engine.harness import Check

FIELDS = ('S', 'A', 'logP', 'Rn', 'In', 'S_next', 'A_next', 'logP_next', 'W', 'idx')


def mk(h, B, tag='', extra=False):
    """ batch with a nested state """
    def v(name, lo=-5, hi=5, shape=()):
        return h.reals(f'{tag}{name}', (B,) + shape, lo, hi)
    from coax.reward_tracing import TransitionBatch
    d = dict(S={'x': v('sx', shape=(2,)), 'y': (v('sy'),)}, A=v('a'), logP=v('l', -5, 0),
             Rn=v('r'), In=v('i', 0, 1), S_next={'x': v('nx', shape=(2,)), 'y': (v('ny'),)},
             A_next=v('an'), logP_next=v('ln', -5, 0), W=v('w', 0.1, 5))
    if extra:
        d['extra_info'] = {'states': (v('e0'), v('e1', shape=(2,))), 'dones': (v('e2'),)}
    return TransitionBatch(**d), d


def leaf_eq(h, a, b, msg):
    import jax
    la, ta = jax.tree_util.tree_flatten(a)
    lb, tb = jax.tree_util.tree_flatten(b)
    h.check(ta == tb, f'{msg}: structure')
    for x, y in zip(la, lb):
        h.check_eq(x, y, msg)


def h_roundtrip(B, extra=False):
    def f(h):
        import jax
        from coax.reward_tracing import TransitionBatch
        tb, d = mk(h, B, extra=extra)
        h.check(tb.batch_size == B, 'batch size')
        h.check_eq(tb.idx, onp.arange(B), 'default identifiers')
        for k, v in d.items():
            leaf_eq(h, getattr(tb, k), v, f'field {k}')
        singles = list(tb.to_singles())
        h.check(len(singles) == B, 'number of singles')
        for i, s in enumerate(singles):
            h.check(type(s) is TransitionBatch and s.batch_size == 1, 'singles have batch size 1')
            for k, v in d.items():
                leaf_eq(h, getattr(s, k), jax.tree_util.tree_map(lambda x: x[i:i + 1], v),
                        f'single: {k}')
            h.check_eq(s.idx, onp.array([i]), 'single: idx')
            h.check(extra or s.extra_info is None, 'single: no extra info')
        # pytree round trip and dict/tuple views
        leaves, tree = jax.tree_util.tree_flatten(tb)
        tb2 = jax.tree_util.tree_unflatten(tree, leaves)
        for k in FIELDS + ('extra_info',):
            leaf_eq(h, getattr(tb2, k), getattr(tb, k), f'pytree round trip: {k}')
        twice = jax.tree_util.tree_map(lambda x: x + 1, tb)
        for k in FIELDS + ('extra_info',):
            leaf_eq(h, getattr(twice, k), jax.tree_util.tree_map(lambda x: x + 1, getattr(tb, k)),
                    f'mapped over all fields: {k}')
        dd = tb._asdict()
        for k, v in zip(FIELDS + ('extra_info',), tuple(tb)):
            leaf_eq(h, v, getattr(tb, k), f'tuple view: {k}')
            leaf_eq(h, dd[k], getattr(tb, k), f'dict view: {k}')
        h.witness(f'roundtrip-{B}')
    return f


def h_defaults(B):
    def f(h):
        from coax.reward_tracing import TransitionBatch
        r = h.reals('r', (B,), -5, 5)
        tb = TransitionBatch(S=h.reals('s', (B,)), A=h.reals('a', (B,)), logP=None, Rn=r,
                             In=h.reals('i', (B,), 0, 1), S_next=None)
        h.check_eq(tb.W, onp.ones(B), 'weights default to one')
        h.check_eq(tb.idx, onp.arange(B), 'identifiers default to positions')
        h.check(tb.A_next is None and tb.logP_next is None and tb.extra_info is None,
                'optional fields default to nothing')
        for i, s in enumerate(tb.to_singles()):
            h.check_eq(s.Rn, r[i:i + 1], 'single: Rn')
            h.check(s.A_next is None and s.S_next is None, 'single: optional fields')
    return f


def h_single(mode):
    """ from_single: fields, bootstrap factor and validation """
    def f(h):
        from coax.reward_tracing import TransitionBatch
        gamma = h.real('gamma', -1, 2)
        logp = h.real('logp', -2, 2)
        w = h.real('w', -2, 2)
        r = h.real('r', -5, 5)
        done = h.flag('done')
        ln = h.real('ln', -2, 2)
        kw = {}
        if mode == 'full':
            kw = dict(s_next=h.real('sn'), a_next=h.real('an'), logp_next=ln, idx=7,
                      extra_info={'states': (h.real('e0'), h.real('e1'))})
        valid = h.and_(0 <= gamma, gamma <= 1, logp <= 0, w > 0,
                       ln <= 0 if mode == 'full' else True)
        s, a = h.real('s'), h.real('a')
        try:
            tb = TransitionBatch.from_single(s=s, a=a, logp=logp, r=r, done=done, gamma=gamma,
                                             w=w, **kw)
        except TypeError:
            tb = None
        h.check(valid if tb is not None else h.not_(valid),
                'a transition is accepted exactly when its ingredients are valid')
        if tb is None:
            return
        h.check(tb.batch_size == 1, 'batch size')
        for k, v in (('S', s), ('A', a), ('logP', logp), ('Rn', r), ('W', w)):
            h.check_eq(getattr(tb, k), h.arr([v]), f'from_single: {k}')
        h.check_eq(tb.In, h.arr([0 if done else gamma]), 'bootstrap factor is discount unless done')
        if mode == 'full':
            h.check_eq(tb.S_next, h.arr([kw['s_next']]), 'from_single: S_next')
            h.check_eq(tb.A_next, h.arr([kw['a_next']]), 'from_single: A_next')
            h.check_eq(tb.logP_next, h.arr([ln]), 'from_single: logP_next')
            h.check_eq(tb.idx, onp.array([7]), 'from_single: idx')
            for x, y in zip(tb.extra_info['states'], kw['extra_info']['states']):
                h.check_eq(x, h.arr([y]), 'from_single: extra_info')
        else:
            h.check(tb.S_next is None and tb.A_next is None and tb.logP_next is None,
                    'from_single: optional fields')
            h.check_eq(tb.idx, onp.array([0]), 'from_single: default idx')
        h.witness(f'single-{mode}')
    return f


def h_eq(B):
    """ equality tells batches apart """
    def f(h):
        from coax.reward_tracing import TransitionBatch
        tb, d = mk(h, B)
        h.check(bool(tb == TransitionBatch(**d)), 'a batch equals an identical batch')
        which = h.choice('which', 0, 5)
        k = ('A', 'logP', 'Rn', 'In', 'A_next', 'W')[which]
        pos = h.choice('pos', 0, B - 1)
        d2 = dict(d)
        alt = d[k].copy()
        alt[pos] = alt[pos] + 1
        d2[k] = alt
        h.check(not bool(tb == TransitionBatch(**d2)), 'a batch differs from a changed batch')
    return f


def h_concat(B1, B2, extra=False):
    """ flushing concatenates in order """
    def f(h):
        import jax
        from coax.experience_replay._prioritized import onp as np_
        a, da = mk(h, B1, 'p', extra)
        b, db = mk(h, B2, 'q', extra)
        cat = jax.tree_util.tree_map(lambda *ls: np_.concatenate(ls, axis=0), a, b)
        parts = list(cat.to_singles())
        orig = list(a.to_singles()) + list(b.to_singles())
        h.check(len(parts) == len(orig), 'concatenation keeps every transition')
        for x, y in zip(parts, orig):
            for k in FIELDS + ('extra_info',):
                leaf_eq(h, getattr(x, k), getattr(y, k), f'concatenation: {k}')
    return f


def h_copy(B, deep):
    """ changes of a copy do not reach the original (deep: not even changes of its arrays) """
    def f(h):
        tb, d = mk(h, B)
        old = {k: getattr(tb, k) for k in FIELDS}
        vals = {k: v.copy() for k, v in old.items() if not isinstance(v, dict)}
        vx, vy = old['S']['x'].copy(), old['S']['y'][0].copy()
        c = tb.copy(deep=deep)
        for k in FIELDS + ('extra_info',):
            leaf_eq(h, getattr(c, k), getattr(tb, k), f'copy: {k}')
        if deep:
            k = ('A', 'logP', 'Rn', 'In', 'A_next', 'logP_next', 'W')[h.choice('which', 0, 6)]
            pos = h.choice('pos', 0, B - 1)
            new = h.real('new')
            a = getattr(c, k)
            a[pos] = new
            h.check_eq(getattr(c, k)[pos], new, 'changed entry of the copy')
            c.S['x'][pos] = new
            c.S['y'][0][pos] = new
        c.idx = c.idx + 5
        c.W = c.W * 2
        c.S = None
        for k, v in vals.items():
            h.check_eq(getattr(tb, k), v, f'original after changes of the copy: {k}')
        h.check_eq(tb.S['x'], vx, 'original after changes of the copy: S')
        h.check_eq(tb.S['y'][0], vy, 'original after changes of the copy: S')
    return f


def build(tier):
    c = Check('P03', bounds={'batch size': '1..4', 'state': 'nested dict/tuple of arrays, any reals',
                             'from_single': 'any real discount in [-1,2], log-propensity and '
                                            'weight in [-2,2]'})
    for B in (1, 2, 3, 4):
        c.harness(f'roundtrip-{B}', h_roundtrip(B))
        c.harness(f'extra-{B}', h_roundtrip(B, True))
        c.harness(f'defaults-{B}', h_defaults(B), conc=5)
    c.harness('single-min', h_single('min'))
    c.harness('single-full', h_single('full'))
    c.harness('eq-1', h_eq(1))
    c.harness('eq-2', h_eq(2))
    c.harness('concat-12', h_concat(1, 2))
    c.harness('concat-22', h_concat(2, 2))
    c.harness('concat-extra', h_concat(2, 1, True))
    for B in (1, 3):
        c.harness(f'copy-{B}', h_copy(B, False))
        c.harness(f'deepcopy-{B}', h_copy(B, True))
    return c
