"""P01: n-step tracer turns every episode into exactly the right n-step transitions."""
from engine.harness import Check


def steps(h, T):
    return [dict(s=h.real(f's{t}', -5, 5), a=h.real(f'a{t}', -5, 5), r=h.real(f'r{t}', -5, 5),
                 logp=h.real(f'l{t}', -5, 0), w=h.real(f'w{t}', 0.1, 5)) for t in range(T)]


def expect(h, tr, pend, done, n, gamma, extra):
    """ compare one popped transition with the definition """
    k = len(pend)
    h.check(tr.batch_size == 1, 'batch size of a popped transition')
    head = pend[0]
    rn, g = 0, 1
    for i in range(min(n, k)):
        rn = rn + g * pend[i]['r']
        g = g * gamma
    h.check_eq(tr.Rn, h.arr([rn]), 'partial return')
    h.check_eq(tr.S, h.arr([head['s']]), 'state')
    h.check_eq(tr.A, h.arr([head['a']]), 'action')
    h.check_eq(tr.logP, h.arr([head['logp']]), 'log-propensity')
    h.check_eq(tr.W, h.arr([head['w']]), 'sample weight')
    gn = 1
    for _ in range(n):
        gn = gn * gamma
    if k > n:
        nx = pend[n]
        h.check_eq(tr.In, h.arr([gn]), 'bootstrap factor')
        h.check_eq(tr.S_next, h.arr([nx['s']]), 'next state')
        h.check_eq(tr.A_next, h.arr([nx['a']]), 'next action')
        h.check_eq(tr.logP_next, h.arr([nx['logp']]), 'next log-propensity')
    else:
        h.check_eq(tr.In, h.arr([0]), 'no bootstrapping past the end of an episode')
        h.check(tr.S_next is not None and tr.A_next is not None and tr.logP_next is not None,
                'dummy next values are present')
    if extra:
        x = tr.extra_info
        for i in range(n + 1):
            j = min(i, k - 1)
            for key, f in (('states', 's'), ('actions', 'a'), ('rewards', 'r'),
                           ('log_props', 'logp'), ('weights', 'w')):
                h.check(len(x[key]) == n + 1, f'extra info: length of {key}')
                h.check_eq(x[key][i], h.arr([pend[j][f]]), f'extra info: {key}')
            fin = bool(done) and i >= k - 1
            h.check(bool(x['dones'][i][0]) == fin, 'extra info: dones')
    else:
        h.check(tr.extra_info is None, 'no extra info unless asked for')


def h_ops(n, T, extra=False):
    """ arbitrary interleaving of add / add-terminal / pop """
    def f(h):
        from coax.reward_tracing import NStep
        from coax._base.errors import InsufficientCacheError, EpisodeDoneError
        gamma = h.real('gamma', 0, 1)
        tr = NStep(n, gamma, record_extra_info=extra)
        data = steps(h, T)
        pend, done = [], False
        for t in range(T):
            op = h.choice(f'op{t}', 0, 2)
            if op < 2:
                d = data[t]
                try:
                    tr.add(d['s'], d['a'], d['r'], op == 1, d['logp'], d['w'])
                    ok = True
                except EpisodeDoneError:
                    ok = False
                h.check(ok == (not (done and pend)), 'add is refused exactly while a finished '
                                                     'episode is still cached')
                if ok:
                    pend.append(d)
                    done = op == 1
            else:
                ready = bool(pend) and (done or len(pend) > n)
                h.check(bool(tr) == ready, 'truth value says whether pop is possible')
                try:
                    got = tr.pop()
                except InsufficientCacheError:
                    got = None
                h.check((got is not None) == ready, 'pop succeeds exactly when determined')
                if got is not None and ready:
                    expect(h, got, pend, done, n, gamma, extra)
                    pend.pop(0)
            h.check(len(tr) == len(pend), 'number of cached steps')
        h.witness(f'ops-{n}-{T}-{extra}')
    return f


def h_flush(n, T):
    """ run steps (episode ends symbolic), then flush: every step exactly once, in order """
    def f(h):
        from coax.reward_tracing import NStep
        from coax._base.errors import InsufficientCacheError
        gamma = h.real('gamma', 0, 1)
        tr = NStep(n, gamma)
        data = steps(h, T)
        L = h.choice('L', 1, T)
        popped = h.choice('popped', 0, 2)
        for t in range(L - 1):
            d = data[t]
            tr.add(d['s'], d['a'], d['r'], False, d['logp'], d['w'])
        pend = list(data[:L])
        d = data[L - 1]
        fin = h.flag('fin')
        tr.add(d['s'], d['a'], d['r'], fin, d['logp'], d['w'])
        for _ in range(popped):
            if tr:
                expect(h, tr.pop(), pend, fin, n, gamma, False)
                pend.pop(0)
        k = len(pend) if fin else max(0, len(pend) - n)
        if k == 0:
            try:
                tr.flush()
                ok = False
            except InsufficientCacheError:
                ok = True
            h.check(ok, 'flush refuses when nothing is determined')
            return
        b = tr.flush()
        h.check(b.batch_size == k, 'flush yields one transition per step')
        singles = list(b.to_singles())
        h.check(len(singles) == k, 'flush: number of transitions')
        for s in singles[:k]:
            expect(h, s, pend, fin, n, gamma, False)
            pend.pop(0)
        h.check(len(tr) == len(pend), 'flush: steps left in the cache')
        # a fresh episode after the flush is unaffected by the previous one
        if fin:
            for t in range(n + 1):
                d = data[t % T]
                tr.add(d['s'], d['a'], d['r'], False, d['logp'], d['w'])
            pend = [data[t % T] for t in range(n + 1)]
            expect(h, tr.pop(), pend, False, n, gamma, False)
        h.witness(f'flush-{n}-{T}')
    return f


def h_reset(n):
    def f(h):
        from coax.reward_tracing import NStep
        gamma = h.real('gamma', 0, 1)
        tr = NStep(n, gamma)
        data = steps(h, 6)
        k = h.choice('k', 1, 3)
        fin = h.flag('fin')
        for t in range(k):
            d = data[t]
            tr.add(d['s'], d['a'], d['r'], fin and t == k - 1, d['logp'], d['w'])
        tr.reset()
        h.check(len(tr) == 0 and not tr, 'reset empties the cache')
        pend = []
        for t in range(3, 6):
            d = data[t]
            tr.add(d['s'], d['a'], d['r'], t == 5, d['logp'], d['w'])
            pend.append(d)
        for _ in range(3):
            expect(h, tr.pop(), pend, True, n, gamma, False)
            pend.pop(0)
    return f


def h_defaults(n):
    """ default log-propensity and weight """
    def f(h):
        from coax.reward_tracing import NStep
        gamma = h.real('gamma', 0, 1)
        tr = NStep(n, gamma)
        r = [h.real(f'r{t}', -5, 5) for t in range(n + 1)]
        for t in range(n + 1):
            tr.add(t, t + 10, r[t], False)
        got = tr.pop()
        h.check_eq(got.logP, h.arr([0]), 'default log-propensity')
        h.check_eq(got.logP_next, h.arr([0]), 'default next log-propensity')
        h.check_eq(got.W, h.arr([1]), 'default weight')
        h.check_eq(got.S_next, h.arr([n]), 'next state')
        h.check_eq(got.A_next, h.arr([n + 10]), 'next action')
    return f


def build(tier):
    th = tier == 'thorough'
    c = Check('P01', bounds={
        'n': '1..4', 'calls': '6 (7 thorough) arbitrary add/add-terminal/pop calls; '
        'episodes of 1..7 steps for flush',
        'rewards, states, actions, log-propensities, weights, discount': 'any real in range'},
        assumptions=['states and actions are scalars; the tracer only stores and forwards them',
                     'histories longer than the bound are outside the claim'])
    for n in (1, 2, 3):
        c.harness(f'ops-{n}', h_ops(n, 7 if th else 6), budget_s=200)
        c.harness(f'opsx-{n}', h_ops(n, 5, True), budget_s=100)
    for n in (1, 2, 3, 4):
        c.harness(f'flush-{n}', h_flush(n, 7))
        c.harness(f'reset-{n}', h_reset(n))
        c.harness(f'defaults-{n}', h_defaults(n), conc=4)
    return c
