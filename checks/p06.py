"""P06: segment trees agree with a flat array (Sum/Min/Max and custom reducers)."""
from functools import reduce

import numpy as onp

from engine.harness import Check

RED = {
    'sum': (lambda h, a, b: a + b, 0.0),
    'min': (lambda h, a, b: h.min(a, b), float('inf')),
    'max': (lambda h, a, b: h.max(a, b), -float('inf')),
    'mul': (lambda h, a, b: a * b, 1.0),
}


def make(kind, cap):
    import coax
    from coax.utils import _segment_tree as m
    if kind == 'sum':
        return coax.utils.SumTree(cap)
    if kind == 'min':
        return coax.utils.MinTree(cap)
    if kind == 'max':
        return coax.utils.MaxTree(cap)
    return coax.utils.SegmentTree(cap, reducer=m.onp.multiply, init_value=1)


def spec_reduce(h, kind, vals):
    f, unit = RED[kind]
    vals = list(vals)
    return reduce(lambda a, b: f(h, a, b), vals) if vals else unit


def check_tree(h, kind, tree, vals, where):
    """ every public view of the tree agrees with the flat array vals """
    cap = len(vals)
    h.check_eq(tree.values, h.arr(vals), f'{where}: values')
    h.check_eq(tree.root_value, spec_reduce(h, kind, vals), f'{where}: root_value')
    height = tree.height
    h.check(2 ** (height - 1) >= cap and (cap == 1 or 2 ** (height - 2) < cap),
            f'{where}: height')
    for level in range(height):
        row = tree[level]
        span = 2 ** (height - 1 - level)
        for i in range(len(row)):
            seg = vals[i * span:(i + 1) * span]
            h.check_eq(row[i], spec_reduce(h, kind, seg) if seg else RED[kind][1],
                       f'{where}: node')


def start_tree(h, kind, cap, name='v'):
    """ arbitrary valid tree (a valid tree is determined by its leaves) """
    t = make(kind, cap)
    vals = [h.real(f'{name}{i}', 0 if kind == 'sum' else -10, 10) for i in range(cap)]
    t.set_values(..., h.arr(vals))
    return t, vals


def h_init(kind, cap):
    def f(h):
        t = make(kind, cap)
        h.check_eq(t.root_value, RED[kind][1], 'fresh tree: root_value')
        h.check_eq(t.values, onp.full(cap, RED[kind][1]), 'fresh tree: values')
        t, vals = start_tree(h, kind, cap)
        check_tree(h, kind, t, vals, 'set all values')
        h.witness(f'init-{kind}-{cap}')
    return f


def h_update(kind, cap, k, form):
    """ one arbitrary batched update from an arbitrary valid tree """
    def f(h):
        t, vals = start_tree(h, kind, cap)
        idx = [h.choice(f'i{j}', -cap, cap - 1) for j in range(k)]
        new = [h.real(f'n{j}', 0 if kind == 'sum' else -10, 10) for j in range(k)]
        pos = [i % cap for i in idx]
        if form == 'int':
            t.set_values(idx[0], new[0])
        elif form == 'list':
            t.set_values(list(idx), h.arr(new))
        else:
            t.set_values(onp.array(idx, dtype='int32'), h.arr(new))
        if len(set(pos)) == k:
            for p, n in zip(pos, new):
                vals[p] = n
            check_tree(h, kind, t, vals, f'update({form})')
        else:
            # repeated indices: any one of the given values may win; the tree must stay consistent
            got = [t.values[i] for i in range(cap)]
            for p in range(cap):
                cands = [n for q, n in zip(pos, new) if q == p] or [vals[p]]
                h.check(h.or_(*[h.eq(got[p], c) for c in cands]), 'repeated index: value')
            check_tree(h, kind, t, got, f'update({form}, repeated)')
        h.witness(f'update-{kind}-{cap}-{form}')
    return f


def h_range(kind, cap, batch, form):
    def f(h):
        t, vals = start_tree(h, kind, cap)
        st, sp = [], []
        for b in range(batch):
            a = h.choice(f'start{b}', 0, cap - 1)
            z = h.choice(f'stop{b}', a + 1, cap) if form != 'open' else cap
            st.append(a)
            sp.append(z)
        exp = [spec_reduce(h, kind, vals[a:z]) for a, z in zip(st, sp)]
        if form == 'int':
            got = t.partial_reduce(st[0], sp[0])
        elif form == 'open':
            got = t.partial_reduce(onp.array(st))
            exp = [spec_reduce(h, kind, vals[a:]) for a in st]
        else:
            got = t.partial_reduce(onp.array(st), onp.array(sp))
        h.check_eq(got, h.arr(exp), f'range reduction ({form}, batch {batch})')
        h.witness(f'range-{kind}-{cap}-{form}')
    return f


def h_cdf(cap, batch, form):
    def f(h):
        t, vals = start_tree(h, 'sum', cap)
        total = sum(vals)
        h.assume(total > 0)
        us = [h.real(f'u{j}', 0, 1) for j in range(batch)]
        if form == 'scalar':
            got = [t.inverse_cdf(us[0])]
        elif form == 'list':
            got = list(t.inverse_cdf(list(us)))
        else:
            got = list(t.inverse_cdf(h.arr(us)))
        h.check(len(got) == batch, 'one index per u')
        for u, g in zip(us, got):
            i = int(g)
            h.check(0 <= i < cap, 'index in range')
            if not 0 <= i < cap:
                continue
            lo = sum(vals[:i]) if i else 0
            hi = lo + vals[i]
            h.check(vals[i] > 0, 'an entry of weight zero is never selected')
            x = u * total
            eps = 0 if h.symbolic else 1e-6
            h.check(h.or_(h.and_(lo <= x + eps, x < hi + eps),
                          h.and_(u >= 1, hi >= total - eps)),
                    'u falls in the interval of the selected entry')
        h.witness(f'cdf-{cap}')
    return f


def h_sample(cap, n):
    """ sample(n) = inverse_cdf of n uniforms """
    def f(h):
        t, vals = start_tree(h, 'sum', cap)
        total = sum(vals)
        h.assume(total > 0)
        us = [h.real(f'u{j}', 0, 0.9375) for j in range(n)]

        class Rnd:
            calls = 0

            def __getattr__(self, name):
                def draw(*shape, **kw):
                    Rnd.calls += 1
                    return h.arr(us)
                return draw
        t._rnd = Rnd()
        got = t.sample(n)
        h.check(len(got) == n, 'sample size')
        if Rnd.calls != 1:
            return
        for u, g in zip(us, list(got)):
            i = int(g)
            lo = sum(vals[:i]) if i else 0
            eps = 0 if h.symbolic else 1e-6
            h.check(h.and_(lo <= u * total + eps, u * total < lo + vals[i] + eps, vals[i] > 0),
                    'sample: probability proportional to value')
    return f


def h_rejects(cap):
    """ a tree with no mass, and u outside [0, 1], are rejected rather than answered """
    def f(h):
        t = make('sum', cap)
        try:
            t.inverse_cdf(0.5)
            ok = False
        except RuntimeError:
            ok = True
        h.check(ok, 'an empty distribution is rejected')
        t, vals = start_tree(h, 'sum', cap)
        h.assume(sum(vals) > 0)
        u = h.real('u', -3, 3)
        h.assume(h.or_(u < 0, u > 1))
        try:
            t.inverse_cdf(u)
            ok = False
        except ValueError:
            ok = True
        h.check(ok, 'u outside the unit interval is rejected')
        i = h.choice('i', -cap - 3, cap + 2)
        h.assume(not -cap <= i < cap)
        try:
            t.set_values(onp.array([i]), h.arr([1.0]))
            ok = False
        except IndexError:
            ok = True
        h.check(ok, 'an out-of-range index is rejected')
    return f


def build(tier):
    th = tier == 'thorough'
    caps = [1, 2, 3, 4, 5, 6, 7, 8, 9] + ([12, 16, 17] if th else [])
    c = Check('P06', bounds={
        'capacity': caps, 'leaf values': '[0,10] (sum), [-10,10] otherwise, any real',
        'update batch': '<=2 (3 thorough), any indices incl. negative and repeated',
        'range batch': '<=2, every 0<=start<stop<=capacity', 'u': 'any real in [0,1], batch <=2',
        'history': 'one operation from an arbitrary valid tree (inductive step: a valid tree is '
                   'determined by its leaves)'})
    for kind in RED:
        for cap in caps:
            if kind == 'mul' and cap > 4:
                continue
            c.harness(f'init-{kind}-{cap}', h_init(kind, cap), conc=4)
            if cap <= 5 or (kind == 'sum' and cap <= 9) or th:
                c.harness(f'update1-{kind}-{cap}', h_update(kind, cap, 1, 'int'), conc=8)
                if cap <= 4 or (kind == 'sum' and cap <= 6):
                    c.harness(f'update2-{kind}-{cap}', h_update(kind, cap, 2, 'array'), conc=8)
                    c.harness(f'updatel-{kind}-{cap}', h_update(kind, cap, min(2, cap), 'list'),
                              conc=8)
            c.harness(f'range1-{kind}-{cap}', h_range(kind, cap, 1, 'int'), conc=10)
            if cap <= 5 or (kind == 'sum' and cap <= 9):
                c.harness(f'range2-{kind}-{cap}', h_range(kind, cap, 2, 'array'), conc=10)
                c.harness(f'rangeo-{kind}-{cap}', h_range(kind, cap, 2, 'open'), conc=10)
    for cap in caps:
        c.harness(f'cdf-{cap}', h_cdf(cap, 1, 'scalar'), conc=20)
        if cap <= 5:
            c.harness(f'cdf2-{cap}', h_cdf(cap, 2, 'array'), conc=10)
    c.harness('cdfl', h_cdf(3, 2, 'list'))
    c.harness('sample', h_sample(3, 2))
    c.harness('rejects', h_rejects(3))
    return c
