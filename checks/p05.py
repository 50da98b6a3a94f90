"""P05: prioritized replay = proportional sampling over the most recent transitions."""
import numpy as onp

from engine.harness import Check
from .p04 import mk, same


class U:
    """ the uniform draws behind sample(): arbitrary numbers in [0, 1) """

    def __init__(self, us):
        self.us = us

    def _get(self, *a, **k):
        return self.us
    rand = random_sample = random = uniform = _get


def prio(h, adv, eps, alpha):
    return h.pow(h.abs(adv) + h.num(eps), h.num(alpha))


def check_state(h, buf, cap, state, count, where):
    """ state: id -> (row, priority) of the live transitions """
    live = sorted(state)
    h.check(len(buf) == min(cap, count), f'{where}: size')
    got = {int(t.idx[0]): t for t in buf}
    h.check(sorted(got) == live, f'{where}: exactly the most recent transitions are kept')
    for i in live:
        if i in got:
            same(h, got[i], 0, state[i][0], i, f'{where}: stored transition')
    tree = getattr(buf, '_sumtree', None)
    if tree is not None:
        vals = tree.values
        for i in live:
            h.check_eq(vals[i % cap], state[i][1], f'{where}: priority')
        tot = 0
        for i in live:
            tot = tot + state[i][1]
        h.check_eq(tree.root_value, tot, f'{where}: total priority')


def check_sample(h, buf, cap, state, count, n, beta, eps_tag=''):
    us = h.reals(f'u{eps_tag}', (n,), 0, 0.9375)
    tree = getattr(buf, '_sumtree', None)
    old = None
    if h.symbolic and tree is not None and hasattr(tree, '_rnd'):
        old = tree._rnd
        tree._rnd = U(us)
    b = buf.sample(n)
    if old is not None:
        tree._rnd = old
    h.check(b.batch_size == n, 'sample: size')
    ids = [int(i) for i in b.idx]
    h.check(all(i in state for i in ids), 'sample: only live transitions')
    if not all(i in state for i in ids):
        return b
    tot = 0
    for i in state:
        tot = tot + state[i][1]
    N = min(cap, count)
    raw = []
    for i in ids:
        p = state[i][1] / tot
        raw.append(h.pow(N * p, -h.num(beta)))
    m = raw[0]
    for x in raw[1:]:
        m = h.max(m, x)
    for k, i in enumerate(ids):
        row = dict(state[i][0])
        w0 = row.pop('W')
        same(h, b, k, row, i, 'sample: rows are stored rows')
        h.check_eq(b.W[k], w0 * raw[k] / m, 'sample: importance weight')
        if old is not None:
            # slot order is the order in which the cumulative distribution is laid out
            order = sorted(state, key=lambda j: j % cap)
            lo = 0
            for j in order:
                if j == i:
                    break
                lo = lo + state[j][1]
            x = us[k] * tot
            h.check(h.and_(lo <= x, x < lo + state[i][1]),
                    'sample: selection probability proportional to priority')
    return b


def h_ops(cap, sizes, alpha, eps, upd=2, sample=0, beta=1.0, permute=False):
    def f(h):
        import coax
        from coax.experience_replay import PrioritizedReplayBuffer
        buf = PrioritizedReplayBuffer(cap, alpha=alpha, beta=beta, epsilon=eps, random_seed=7)
        h.check(buf.capacity == cap and len(buf) == 0 and not buf, 'a new buffer is empty')
        state, count = {}, 0
        for t, mx in enumerate(sizes):
            B = h.choice(f'B{t}', 1, mx)
            tb, rows = mk(h, B, t)
            adv = h.reals(f'adv{t}', (B,), -5, 5)
            buf.add(tb, adv)
            for k, r in enumerate(rows):
                state[count] = (r, prio(h, adv[k], eps, alpha))
                state.pop(count - cap, None)
                count += 1
        check_state(h, buf, cap, state, count, 'add')
        if upd:
            ids = [h.choice(f'id{k}', 0, count - 1) for k in range(upd)]
            adv = h.reals('nadv', (upd,), -5, 5)
            buf.update(onp.array(ids), adv)
            if len(set(ids)) == upd:
                for k, i in enumerate(ids):
                    if i in state:
                        state[i] = (state[i][0], prio(h, adv[k], eps, alpha))
                check_state(h, buf, cap, state, count, 'update')
        if sample:
            check_sample(h, buf, cap, state, count, sample, beta)
            check_state(h, buf, cap, state, count, 'sample leaves the buffer unchanged')
        h.witness(f'ops-{cap}-{alpha}-{upd}-{sample}')
    return f


def h_alpha(cap, n, a0, a1, eps):
    """ changing the temperature re-expresses every priority at the new temperature """
    def f(h):
        from coax.experience_replay import PrioritizedReplayBuffer
        buf = PrioritizedReplayBuffer(cap, alpha=a0, beta=1.0, epsilon=eps, random_seed=7)
        state = {}
        for t in range(n):
            tb, rows = mk(h, 1, t)
            adv = h.reals(f'adv{t}', (1,), -5, 5)
            buf.add(tb, adv)
            state[t] = (rows[0], prio(h, adv[0], eps, a1))
            state.pop(t - cap, None)
        buf.alpha = a1
        h.check(buf.alpha == a1, 'alpha is updated')
        check_state(h, buf, cap, state, n, 'alpha changed')
        tb, rows = mk(h, 1, 90)
        adv = h.reals('adv90', (1,), -5, 5)
        buf.add(tb, adv)
        state[n] = (rows[0], prio(h, adv[0], eps, a1))
        state.pop(n - cap, None)
        check_state(h, buf, cap, state, n + 1, 'add after alpha changed')
        h.witness(f'alpha-{cap}-{a0}-{a1}')
    return f


def h_hyper(cap):
    """ epsilon and beta setters take effect; clear starts over """
    def f(h):
        from coax.experience_replay import PrioritizedReplayBuffer
        buf = PrioritizedReplayBuffer(cap, alpha=1.0, beta=1.0, epsilon=0.5, random_seed=7)
        state = {}
        for t in range(2):
            tb, rows = mk(h, 1, t)
            adv = h.reals(f'adv{t}', (1,), -5, 5)
            buf.add(tb, adv)
        buf.epsilon, buf.beta = 0.25, 2.0
        h.check(buf.epsilon == 0.25 and buf.beta == 2.0, 'setters')
        buf.clear()
        h.check(len(buf) == 0 and not buf and list(buf) == [], 'clear empties the buffer')
        for t in range(2, 5):
            tb, rows = mk(h, 1, t)
            adv = h.reals(f'adv{t}', (1,), -5, 5)
            buf.add(tb, adv)
            state[t - 2] = (rows[0], prio(h, adv[0], 0.25, 1.0))
            state.pop(t - 2 - cap, None)
        check_state(h, buf, cap, state, 3, 'after clear')
        check_sample(h, buf, cap, state, 3, 2, 2.0)
    return f


def build(tier):
    th = tier == 'thorough'
    c = Check('P05', bounds={
        'capacity': '1..4 (5 thorough)', 'adds': '2-3 batches of 1..3 rows (wrap-around included)',
        'update batch': '2 identifiers, live or stale, any order', 'sample batch': '<=2',
        'advantages': 'any real in [-5,5]', 'draws': 'any real in [0,0.9375]',
        'alpha': '1, 2, 1/2 (symbolic powers of the advantage)', 'beta': '1, 2',
        'epsilon': '1/2, 1/4'},
        assumptions=['each add receives a batch object of its own',
                     'updates refer to identifiers that were handed out'])
    for cap in (1, 2, 3, 4) + ((5,) if th else ()):
        c.harness(f'ops-{cap}', h_ops(cap, (3, 3) if cap < 4 else (3, 2, 2), 1.0, 0.5),
                  budget_s=150, conc=20)
        if cap <= 3:
            c.harness(f'sample-{cap}', h_ops(cap, (2, 2), 1.0, 0.5, upd=0, sample=2),
                      budget_s=150, query_ms=20000)
    c.harness('ops-a2', h_ops(2, (2, 2), 2.0, 0.5, upd=2))
    c.harness('ops-ahalf', h_ops(2, (2, 2), 0.5, 0.5, upd=2))
    c.harness('sample-b2', h_ops(2, (3,), 1.0, 0.5, upd=1, sample=2, beta=2.0))
    c.harness('alpha-12', h_alpha(2, 3, 1.0, 2.0, 0.5), prune=True)
    c.harness('alpha-21', h_alpha(3, 2, 2.0, 1.0, 0.5), prune=True)
    c.harness('alpha-near', h_alpha(2, 2, 0.6, 0.63, 0.5), prune=True)
    c.harness('alpha-63', h_alpha(3, 3, 0.6, 0.3, 0.5), prune=True)
    c.harness('hyper', h_hyper(2))
    return c
