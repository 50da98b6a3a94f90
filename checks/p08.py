"""P08: the training monitor accounts for every step, episode and metric exactly."""
import os
import tempfile

from engine.harness import Check
from .envs import Scripted


class Model:
    def __init__(self, smoothing):
        self.smoothing = smoothing
        self.T = self.ep = self.t = 0
        self.G, self.avg, self.n = 0, 0, 0

    def reset(self):
        self.T += 1
        self.ep += 1
        self.t = 0
        self.G = 0

    def step(self, r, over):
        self.t += 1
        self.T += 1
        self.G = self.G + r
        if over:
            self.n = min(self.smoothing, self.n + 1)
            self.avg = self.avg + (self.G - self.avg) / self.n

    def compare(self, h, env, where):
        h.check_eq(env.T, self.T, f'{where}: global step counter')
        h.check_eq(env.ep, self.ep, f'{where}: episode counter')
        h.check_eq(env.t, self.t, f'{where}: step counter of the episode')
        h.check_eq(env.G, self.G, f'{where}: return of the episode')
        h.check_eq(env.avg_G, self.avg, f'{where}: smoothed average return')
        if self.t > 0:
            h.check_eq(env.avg_r, self.G / self.t, f'{where}: average reward')


def mon(smoothing, **kw):
    import logging
    from coax.wrappers import TrainMonitor
    base = Scripted()
    return base, TrainMonitor(base, smoothing=smoothing, level=logging.CRITICAL, **kw)


def do(h, base, env, m, op, k, tag=''):
    if op == 3:
        base.next_reset = (f'obs{k}', {'k': k})
        out = env.reset()
        h.check(out == (f'obs{k}', {'k': k}), 'reset passes the observation on')
        m.reset()
        return
    r = h.real(f'r{tag}{k}', -5, 5)
    info = None if k % 3 == 1 else {'mine': k}
    T, ep = m.T, m.ep
    base.next = (f'obs{k}', r, op == 1, op == 2, info)
    s, rr, d, tr, inf = env.step(k)
    m.step(r, op in (1, 2))
    h.check(base.actions[-1] == k, 'the action reaches the environment unchanged')
    h.check(s == f'obs{k}' and d == (op == 1) and tr == (op == 2), 'step passes results on')
    h.check_eq(rr, r, 'reward passed on')
    h.check(inf['monitor'] == {'T': T, 'ep': ep}, 'info carries the counters of this step')
    h.check(info is None or inf['mine'] == k, 'info of the environment is kept')


def h_ops(smoothing, K):
    def f(h):
        base, env = mon(smoothing)
        m = Model(smoothing)
        m.compare(h, env, 'new')
        for k in range(K):
            do(h, base, env, m, h.choice(f'op{k}', 0, 3) if k else 3, k)
            m.compare(h, env, 'op')
        env.reset_global()
        Model(smoothing).compare(h, env, 'reset_global')
        h.check(env.get_metrics() == {}, 'reset_global drops the metrics')
        h.witness(f'ops{smoothing}')
    return f


def h_episodes(smoothing, E):
    """ whole episodes: many smoothing updates """
    def f(h):
        base, env = mon(smoothing)
        m = Model(smoothing)
        k = 0
        for e in range(E):
            do(h, base, env, m, 3, k)
            for j in range(1 + e % 2):
                k += 1
                do(h, base, env, m, (1 + (e % 2)) if j == e % 2 else 0, k)
            k += 1
            m.compare(h, env, 'episode')
    return f


def h_metrics(K):
    def f(h):
        base, env = mon(2)
        m = Model(2)
        acc = {}
        for k in range(K):
            op = h.choice(f'op{k}', 0, 3)
            if op < 3:
                names = [('a',), ('b',), ('a', 'b')][op]
                vals = {n: h.real(f'm{k}{n}', -5, 5) for n in names}
                env.record_metrics(vals)
                for n in names:
                    acc.setdefault(n, []).append(vals[n])
            else:
                do(h, base, env, m, 3, k)
                acc = {}
            got = env.get_metrics()
            h.check(set(got) == set(acc), 'names of the metrics')
            for n, xs in acc.items():
                if n in got:
                    tot = 0
                    for x in xs:
                        tot = tot + x
                    h.check_eq(got[n], tot / len(xs), 'metrics are averaged over the episode')
        m.compare(h, env, 'metrics')
        h.witness('metrics')
    return f


def h_period(K, both=False):
    def f(h):
        base, env = mon(2)
        P = h.choice('P', 1, 4)
        Q = h.choice('Q', 1, 3)
        T = ep = 0
        n = {'x': 1, 'y': 1}
        ne = {'x': 1, 'z': 1}
        for k in range(K):
            if both:
                T, ep = T + h.choice(f'dT{k}', 0, 2), ep + h.choice(f'dE{k}', 0, 1)
                env.T, env.ep = T, ep
                due = T >= n['x'] * P
                due_e = ep >= ne['x'] * Q
                got = env.period('x', T_period=P, ep_period=Q)
                h.check(bool(got) == (due or due_e), 'both periods: due when either is')
                if due:
                    n['x'] += 1
                elif due_e:
                    ne['x'] += 1
                continue
            T, ep = T + h.int(f'dT{k}', 0, 9), ep + h.int(f'dE{k}', 0, 4)
            env.T, env.ep = T, ep
            which = h.choice(f'w{k}', 0, 3)
            if which < 2:
                nm = 'xy'[which]
                due = bool(T >= n[nm] * P)
                got = env.period(nm, T_period=P)
                if due:
                    n[nm] += 1
            else:
                nm = 'xz'[which - 2]
                due = bool(ep >= ne[nm] * Q)
                got = env.period(nm, ep_period=Q)
                if due:
                    ne[nm] += 1
            h.check(bool(got) == due, 'fires once per completed period')
        h.check(env.period('q') is False, 'no period given: never due')
        h.witness(f'period{both}')
    return f


class FakePickle:
    """ symbolic stand-in for pickle: a byte string names a deep copy """
    store = {}

    @classmethod
    def dumps(cls, o):
        import copy
        k = str(len(cls.store)).encode()
        cls.store[k] = copy.deepcopy(o)
        return k

    @classmethod
    def loads(cls, b):
        import copy
        return copy.deepcopy(cls.store[bytes(b)])


def h_counters(K, L, file=False):
    """ snapshot, carry on, restore: everything continues as if from the snapshot """
    def f(h):
        base, env = mon(2)
        m = Model(2)
        do(h, base, env, m, 3, 0)
        for k in range(1, K):
            do(h, base, env, m, h.choice(f'op{k}', 0, 3), k)
        v0 = h.real('v0', -5, 5)
        env.record_metrics({'a': v0})
        env.period('p', T_period=1)
        T, ep, t, G, avg, n = m.T, m.ep, m.t, m.G, m.avg, m.n
        with tempfile.TemporaryDirectory(prefix='vp_') as d:
            path = os.path.join(d, 'sub', 'c.lz4')
            if file:
                env.save_counters(path)
            else:
                snap = env.get_counters()
            for k in range(L):
                do(h, base, env, m, h.choice(f'oq{k}', 0, 3), 20 + k)
            env.record_metrics({'a': h.real('v1', -5, 5), 'c': 1.})
            env.period('p', T_period=1)
            for rep in range(2):
                b2, e2 = (base, env) if h.flag(f'same{rep}') else mon(2)
                if file:
                    e2.load_counters(path)
                else:
                    e2.set_counters(snap)
                m.T, m.ep, m.t, m.G, m.avg, m.n = T, ep, t, G, avg, n
                m.compare(h, e2, 'restored')
                got = e2.get_metrics()
                h.check(set(got) == {'a'}, 'restored: names of the metrics')
                h.check_eq(got['a'], v0, 'restored: metrics')
                h.check(bool(e2.period('p', T_period=1)) == (T >= 2),
                        'restored: periods already fired are remembered')
                do(h, b2, e2, m, h.choice(f'or{rep}', 0, 3), 40 + rep)
                m.compare(h, e2, 'continued after restoring')
        bad = dict(env.get_counters())
        bad.pop('T')
        try:
            env.set_counters(bad)
            h.check(False, 'incomplete counters are refused')
        except TypeError:
            pass
        h.witness(f'counters{file}')
    return f


def h_sample(maxlen, K):
    """ the sample of actions is a uniform reservoir of bounded size """
    def f(h):
        from coax.wrappers._train_monitor import StreamingSample
        st = StreamingSample(maxlen)
        us, js = h.reals('u', (K,), 0, 0.96875), [h.choice(f'j{k}', 0, maxlen - 1)
                                                 for k in range(K)]
        now = [0]

        class Rnd:
            def rand(self, *a): return us[now[0]]
            random_sample = random = uniform = rand
            def randint(self, lo, hi=None, *a, **k): return js[now[0]]
            integers = randint
        st._rnd = Rnd()
        kept = []
        for k in range(maxlen, K):     # stay clear of the rounding of maxlen/k
            h.assume(h.abs(us[k] * (k + 1) - maxlen) > h.num(0.001))
        for k in range(K):
            now[0] = k
            st.append(k)
            if k < maxlen:
                kept.append(k)
            elif us[k] * (k + 1) < maxlen:
                kept[js[k]] = k
            h.check(len(st) == min(k + 1, maxlen) and bool(st), 'bounded size')
            h.check(list(st.values) == kept, 'k-th action enters with probability maxlen/k')
        st.reset()
        h.check(len(st) == 0 and not st and st.maxlen == maxlen, 'reset')
    return f


def build(tier):
    th = tier == 'thorough'
    c = Check('P08', bounds={
        'operations': 'any sequence of <=5 (6 thorough) steps / terminal steps / truncated steps / '
                      'resets; <=6 whole episodes', 'rewards, metrics': 'any real in [-5,5]',
        'smoothing': '1, 2, 3', 'periods': '1..4 steps, 1..3 episodes, any counter increments',
        'snapshots': 'after <=3 operations, restored after <=2 more, into the same or a new '
                     'monitor, from memory and from file (pickle replaced by a deep copy)'},
        assumptions=['logging and tensorboard output are not part of the claim'])
    for s in (1, 2, 3):
        c.harness(f'ops-{s}', h_ops(s, 6 if th else 5), budget_s=200)
        c.harness(f'episodes-{s}', h_episodes(s, 6))
    c.harness('metrics', h_metrics(5 if th else 4), budget_s=150)
    c.harness('period', h_period(4 if th else 3), budget_s=400 if th else 150)
    c.harness('period-both', h_period(3, both=True), budget_s=150)

    def fake():
        import coax.wrappers._train_monitor as tm
        return [(tm, 'pickle', FakePickle)]
    c.harness('counters-memory', h_counters(2, 1), budget_s=200)
    c.harness('counters-file', h_counters(2, 1, file=True), extra=fake, budget_s=200)
    if th:
        c.harness('counters-memory-3', h_counters(3, 2), budget_s=600)
    c.harness('sample', h_sample(2, 4))
    return c
