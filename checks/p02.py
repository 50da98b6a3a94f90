"""P02: Monte Carlo tracer yields the discounted return of every step of a finished episode."""
from engine.harness import Check
from .p01 import steps


def ret(pend, gamma):
    g = 0
    for d in reversed(pend):
        g = d['r'] + gamma * g
    return g


def expect(h, tr, pend, at, gamma):
    d = pend[at]
    h.check(tr.batch_size == 1, 'batch size')
    exp, g = 0, 1
    for i in range(at, len(pend)):
        exp = exp + g * pend[i]['r']
        g = g * gamma
    h.check_eq(tr.Rn, h.arr([exp]), 'discounted return to the end of the episode')
    h.check_eq(tr.In, h.arr([0]), 'Monte Carlo transitions do not bootstrap')
    h.check_eq(tr.S, h.arr([d['s']]), 'state')
    h.check_eq(tr.A, h.arr([d['a']]), 'action')
    h.check_eq(tr.logP, h.arr([d['logp']]), 'log-propensity')
    h.check_eq(tr.W, h.arr([d['w']]), 'sample weight')
    h.check(tr.S_next is not None and tr.A_next is not None and tr.logP_next is not None,
            'dummy next values are present')


def h_ops(T):
    def f(h):
        from coax.reward_tracing import MonteCarlo
        from coax._base.errors import InsufficientCacheError, EpisodeDoneError
        gamma = h.real('gamma', 0, 1)
        tr = MonteCarlo(gamma)
        data = steps(h, T)
        ep, left, done = [], 0, False
        for t in range(T):
            op = h.choice(f'op{t}', 0, 2)
            if op < 2:
                d = data[t]
                try:
                    tr.add(d['s'], d['a'], d['r'], op == 1, d['logp'], d['w'])
                    ok = True
                except EpisodeDoneError:
                    ok = False
                h.check(ok == (not (done and left)), 'add is refused exactly while a finished '
                                                     'episode is still cached')
                if ok:
                    if left == 0:
                        ep = []
                    ep.append(d)
                    left += 1
                    done = op == 1
            else:
                ready = done and left > 0
                h.check(bool(tr) == ready, 'truth value says whether pop is possible')
                try:
                    got = tr.pop()
                except InsufficientCacheError:
                    got = None
                h.check((got is not None) == ready, 'pop succeeds exactly after the episode ended')
                if got is not None and ready:
                    expect(h, got, ep, left - 1, gamma)
                    left -= 1
            h.check(len(tr) == left, 'number of cached steps')
        h.witness(f'ops-{T}')
    return f


def h_flush(T):
    def f(h):
        from coax.reward_tracing import MonteCarlo
        from coax._base.errors import InsufficientCacheError
        gamma = h.real('gamma', 0, 1)
        tr = MonteCarlo(gamma)
        data = steps(h, T)
        for rnd in range(2):
            L = h.choice(f'L{rnd}', 1, T)
            pops = h.choice(f'pops{rnd}', 0, 1)
            for t in range(L):
                d = data[t]
                if t:
                    try:
                        tr.flush()
                        ok = False
                    except InsufficientCacheError:
                        ok = True
                    h.check(ok, 'flush refuses before the episode ends')
                tr.add(d['s'], d['a'], d['r'], t == L - 1, d['logp'], d['w'])
            at = L - 1
            for _ in range(pops):
                if at >= 0:
                    expect(h, tr.pop(), data[:L], at, gamma)
                    at -= 1
            if at < 0:
                continue
            b = tr.flush()
            h.check(b.batch_size == at + 1, 'flush yields every remaining step once')
            for s in list(b.to_singles())[:at + 1]:
                expect(h, s, data[:L], at, gamma)
                at -= 1
            h.check(len(tr) == 0, 'flush empties the cache')
        h.witness(f'flush-{T}')
    return f


def h_reset():
    def f(h):
        from coax.reward_tracing import MonteCarlo
        gamma = h.real('gamma', 0, 1)
        tr = MonteCarlo(gamma)
        data = steps(h, 6)
        k = h.choice('k', 1, 3)
        fin = h.flag('fin')
        for t in range(k):
            d = data[t]
            tr.add(d['s'], d['a'], d['r'], fin and t == k - 1, d['logp'], d['w'])
        if fin and h.flag('popfirst'):
            tr.pop()
        tr.reset()
        h.check(len(tr) == 0 and not tr, 'reset empties the cache')
        for t in range(3, 6):
            d = data[t]
            tr.add(d['s'], d['a'], d['r'], t == 5, d['logp'], d['w'])
        for at in (2, 1, 0):
            expect(h, tr.pop(), data[3:6], at, gamma)
    return f


def h_equal(n, L):
    """ with an episode no longer than n, n-step and Monte Carlo tracing agree """
    def f(h):
        from coax.reward_tracing import MonteCarlo, NStep
        gamma = h.real('gamma', 0, 1)
        mc, ns = MonteCarlo(gamma), NStep(n, gamma)
        data = steps(h, L)
        for t, d in enumerate(data):
            for tr in (mc, ns):
                tr.add(d['s'], d['a'], d['r'], t == L - 1, d['logp'], d['w'])
        a = list(mc.flush().to_singles())[::-1]
        b = list(ns.flush().to_singles())
        h.check(len(a) == len(b), 'same number of transitions')
        for x, y in zip(a, b):
            h.check_eq(x.Rn, y.Rn, 'same returns')
            h.check_eq(x.In, y.In, 'same bootstrap factors')
            h.check_eq(x.S, y.S, 'same states')
    return f


def build(tier):
    th = tier == 'thorough'
    c = Check('P02', bounds={'calls': '6 (7 thorough) arbitrary add/add-terminal/pop calls',
                             'episode length': '1..5', 'rewards, discount': 'any real in range'})
    c.harness('ops', h_ops(7 if th else 6), budget_s=200)
    c.harness('flush', h_flush(6 if th else 4))
    c.harness('reset', h_reset())
    c.harness('equal', h_equal(4, 4))
    c.harness('equal-short', h_equal(5, 3))
    return c
