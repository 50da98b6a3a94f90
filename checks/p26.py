"""P26: workers hand on every transition, state, metric and sample, once and unchanged."""
import types

from engine.harness import Check
from .envs import Scripted


class Env(Scripted):
    """ plays the scripts of the harness: one list of (s, r, done, truncated) per episode """

    def __init__(self, episodes, limit):
        super().__init__()
        self.episodes, self.spec = episodes, types.SimpleNamespace(
            max_episode_steps=limit, reward_threshold=None, id='Scripted-v0')
        self.ep = -1

    def reset(self, **kwargs):
        self.ep += 1
        self.t = 0
        return f's{self.ep}.0', {}

    def step(self, a):
        self.actions.append(a)
        r, done, trunc = self.episodes(self.ep, self.t)
        self.t += 1
        return f's{self.ep}.{self.t}', r, done, trunc, {'a': a}


class Pi:
    """ records the observations and returns symbolic propensities """

    def __init__(self, h, tag):
        self.h, self.tag, self.seen = h, tag, []

    def __call__(self, s, return_logp=False):
        k = len(self.seen)
        lp = self.h.real(f'{self.tag}lp{k}', -5, 0)
        self.seen.append((s, lp))
        a = f'{self.tag}a{k}'
        return (a, lp) if return_logp else a


def worker_class():
    from coax import Worker

    class W(Worker):
        log = ()

        def get_state(self):
            return {'x': self.x}

        def set_state(self, state):
            self.log += (('set', state['x']),)
            self.x = state['x']

        def trace(self, s, a, r, done, logp=0.0, w=1.0):
            self.log += (('trace', s, a, r, done, logp),)

        def learn(self, batch):
            self.log += (('learn', batch),)
            self.x = self.x * 2 + batch
            return {'loss': self.x}
    return W


class Ref:
    """ what a remote call returns: only ray.get may look inside """

    def __init__(self, v):
        self.v = v


class Handle:
    """ stand-in for the handle of a ray actor: .method.remote(...) is carried out at once """

    def __init__(self, obj):
        self.__dict__['_obj'] = obj

    @property
    def __class__(self):
        import ray.actor
        return ray.actor.ActorHandle

    def __getattr__(self, name):
        m = getattr(self._obj, name)
        if not callable(m):
            raise AttributeError(f'actors have no attribute {name}')
        return types.SimpleNamespace(remote=lambda *a, **k: Ref(m(*a, **k)))


def link(store, ray_):
    """ what the other workers are given as param_store """
    if not ray_:
        return store
    import ray
    ray.get = lambda r: r.v if type(r) is Ref else [x.v for x in r]     # no cluster in this process
    return Handle(store)


def make(h, tag, episodes, limit, store=None, **kw):
    import logging
    from coax.wrappers import TrainMonitor
    env = TrainMonitor(Env(episodes, limit), level=logging.CRITICAL)
    w = worker_class()(env, param_store=store, pi=Pi(h, tag), name=tag, **kw)
    w.x = h.real(f'{tag}x', -5, 5)
    return w


def script(h, tag, limit, free=True):
    """ each episode ends by done, truncated or the limit, at a symbolic step """
    memo, rewards = {}, {}

    def f(ep, t):
        if ep not in memo:
            memo[ep] = (h.choice(f'{tag}len{ep}', 1, limit + 1 if free else limit),
                        h.choice(f'{tag}how{ep}', 0, 2) if free else ep % 2)
        n, how = memo[ep]
        last = t == n - 1
        if (ep, t) not in rewards:
            rewards[ep, t] = h.real(f'{tag}r{ep}.{t}', -5, 5)
        return rewards[ep, t], last and how != 1, last and how != 0

    def length(ep):
        return min(memo[ep][0], limit)
    f.memo, f.length = memo, length
    return f


def expect(h, tag, sc, ep, pi, off, log):
    """ the calls of trace for one episode; returns how many """
    n = sc.length(ep)
    h.check(len(log) == n, 'one trace per step of the episode, none after its end')
    for t, e in enumerate(log):
        _, s, a, r, done, lp = e
        h.check(s == f's{ep}.{t}', 'observation before the action')
        h.check(pi.seen[off + t][0] == s, 'the policy sees the latest observation')
        h.check(a == f'{tag}a{off + t}', 'action taken')
        rr, d, tr = sc(ep, t)
        h.check_eq(r, rr, 'reward of this step')
        h.check(bool(done) == (d or tr), 'the end of the episode, terminated or truncated, is marked')
        h.check_eq(lp, pi.seen[off + t][1], 'propensity of the action')
    return n


def h_rollout(limit, E):
    def fn(h):
        sc = script(h, 'w', limit)
        w = make(h, 'w', sc, limit)
        off = 0
        for ep in range(E):
            n0 = len(w.log)
            w.rollout()
            off += expect(h, 'w', sc, ep, w.pi, off, w.log[n0:])
            h.check(w.env.env.actions == [f'wa{i}' for i in range(off)], 'every action taken once')
    return fn


def h_loop(limit, n, ray_=False):
    """ n rollout workers take turns in an order chosen by the solver """
    def fn(h):
        store = make(h, 'p', None, limit)
        scs = [script(h, f'w{i}', limit, False) for i in range(n)]
        ws = [make(h, f'w{i}', scs[i], limit, link(store, ray_)) for i in range(n)]
        T = 3 * h.choice('T0', 0, 1)
        store.env.T = T
        offs, eps = [0] * n, [0] * n
        for turn in range(2):
            i = h.choice(f'who{turn}', 0, n - 1) if n > 1 else 0
            w, sc, todo = ws[i], scs[i], h.choice(f'todo{turn}', 0, limit + 1)
            y = h.real(f'y{turn}', -5, 5)
            store.x = y
            n0 = len(w.log)
            w.rollout_loop(max_total_steps=T + todo)
            log = list(w.log[n0:])
            stop = T + todo
            while T < stop:
                h.check(len(log) > 0 and log[0][0] == 'set', 'the state is pulled before each episode')
                h.check_eq(log[0][1], y, 'state of the parameter store')
                k = sc.length(eps[i])
                offs[i] += expect(h, f'w{i}', sc, eps[i], w.pi, offs[i], log[1:1 + k])
                log = log[1 + k:]
                eps[i] += 1
                T += k
            h.check(log == [], 'no episode is started when the steps are used up')
            h.check(store.env.T == T, 'shared step counter counts the steps of all workers')
            if eps[i]:
                h.check('episode/T_global' in w.env.get_metrics(), 'metrics of the worker')
    return fn


def h_threshold(h):
    """ stops as soon as the average return reaches the threshold """
    limit = 2
    store = make(h, 'p', None, limit)
    R = [h.real(f'G{e}', -5, 5) for e in range(4)]
    w = make(h, 'w', lambda ep, t: (R[ep], True, False), limit, store)
    th = h.real('threshold', -4, 4)
    how = h.choice('how', 0, 2)     # argument, spec of the environment, none
    if how == 1:
        w.env.env.spec.reward_threshold = th
    w.rollout_loop(4, **({'reward_threshold': th} if how == 0 else {}))
    avg, e = h.num(0), 0
    while e < 4 and (how == 2 or bool(avg < th)):
        avg = avg + (R[e] - avg) / h.num(e + 1)
        e += 1
    h.check(w.env.ep == e, 'number of episodes')


def h_overlap(ray_):
    """ other workers make progress while this one plays """
    def fn(h):
        store = make(h, 'p', None, 2)
        extra = [h.choice(f'extra{k}', 0, 3) for k in range(3)]
        stop = h.choice('stop', 1, 5)

        def play(ep, t):
            store.env.T += extra[min(ep, 2)]
            return h.num(1), ep != 1 or t == 1, False
        w = make(h, 'w', play, 2, link(store, ray_))
        store.env.T = 0
        w.rollout_loop(max_total_steps=stop)
        want, e = 0, 0
        while want < stop:
            want += (extra[e] + 1) * (2 if e == 1 else 1)
            e += 1
            if e == 3:
                break
        h.check(store.env.T == want if want >= stop else store.env.T >= want,
                'shared step counter counts the steps of all workers')
        h.check(want < stop or w.env.env.ep == e - 1, 'number of episodes')
    return fn


def h_learn(K, ray_=False):
    """ pull, sample, learn, push: K times, another learner may push in between """
    def fn(h):
        store = make(h, 'p', None, 2)
        w = make(h, 'w', None, 2, link(store, ray_), buffer_warmup=None)
        want = store.x
        batches = [h.real(f'b{k}', -5, 5) for k in range(K)]
        outside = [h.real(f'o{k}', -5, 5) for k in range(K)]
        cnt = {'n': 0}
        exp = {'x': want, 'loss': []}

        class Buffer:
            def __len__(self):
                return 8

            def sample(self, batch_size):
                h.check(batch_size == 3, 'batch size')
                k = cnt['n']
                cnt['n'] += 1
                if cnt['n'] == K:
                    store.env.T = 7     # the last one
                return batches[k]
        store.buffer = Buffer()
        push = h.choice('push', 0, K - 1)
        old = store.pull_metrics

        def learn(batch, orig=w.learn):
            k = cnt['n'] - 1
            h.check_eq(w.x, exp['x'], 'learns from the current state of the parameter store')
            h.check_eq(batch, batches[k], 'learns from the sampled batch')
            m = orig(batch)
            exp['x'] = exp['x'] * 2 + batches[k]
            exp['loss'].append(exp['x'])
            return m
        w.learn = learn
        setst = store.set_state

        def set_state(s):
            h.check_eq(s['x'], exp['x'], 'pushes the state it has learned')
            setst(s)
            if cnt['n'] - 1 == push:        # somebody else changes the parameters
                store.x = exp['x'] = outside[push]
        store.set_state = set_state
        store.env.T = 0
        w.learn_loop(max_total_steps=7, batch_size=3)
        h.check(cnt['n'] == K, 'learns until the steps are used up')
        h.check_eq(store.x, exp['x'], 'state of the parameter store')
        got = old()
        tot = exp['loss'][0]
        for x in exp['loss'][1:]:
            tot = tot + x
        h.check_eq(got['loss'], tot / h.num(K), 'metrics of all updates reach the parameter store')
    return fn


def h_buffer(remote, ray_=False):
    """ the buffer of the parameter store is the only one """
    def fn(h):
        store = make(h, 'p', None, 2)
        w = make(h, 'w', None, 2, link(store, ray_)) if remote else store
        kind = h.choice('kind', 0, 1)

        class Simple:
            def __init__(self):
                self.log, self.n = [], 0

            def __len__(self):
                return self.n

            def add(self, transition_batch):
                self.log.append(('add', transition_batch, None))
                self.n += 1

            def sample(self, batch_size=32):
                self.log.append(('sample', batch_size, self.n))
                return ('batch', batch_size)

        class Prio(Simple):
            def add(self, transition_batch, Adv):
                self.log.append(('add', transition_batch, Adv))
                self.n += 1

            def update(self, idx, Adv):
                self.log.append(('update', idx, Adv))
        b = store.buffer = (Prio if kind else Simple)()
        x, adv, adv2 = (h.real(k, -5, 5) for k in ('x', 'adv', 'adv2'))
        w.buffer_add(x, adv)
        h.check(len(b.log) == 1 and b.log[0][0] == 'add', 'added once')
        h.check_eq(b.log[0][1], x, 'transitions are added unchanged')
        if kind:
            h.check_eq(b.log[0][2], adv, 'with their advantage')
            w.buffer_update(x, adv2)
            h.check(len(b.log) == 2 and b.log[1][0] == 'update', 'updated once')
            h.check_eq(b.log[1][1], x, 'identifiers')
            h.check_eq(b.log[1][2], adv2, 'new advantage')
        h.check(w.buffer_len() == 1, 'length')
        bs, warm = h.choice('bs', 1, 4), h.choice('warm', 0, 5)
        owner = h.choice('owner', 0, 1)
        (w if owner else store).buffer_warmup = warm or None
        import coax._core.worker as mod
        old = mod.time.sleep
        waits = []

        def sleep(s):
            waits.append(s)
            store.buffer_add(x, adv)
            h.check(len(waits) < 20, 'gives up waiting')
        mod.time.sleep = sleep
        try:
            got = w.buffer_sample(batch_size=bs)
        finally:
            mod.time.sleep = old
        h.check(got == ('batch', bs), 'sample of the requested size')
        need = max(bs, warm)
        h.check(b.log[-1] == ('sample', bs, max(1, need)),
                'samples as soon as warmup and batch size are reached, not earlier')
        h.check(sum(e[0] == 'sample' for e in b.log) == 1, 'sampled once')
    return fn


def h_attr(ray_):
    def fn(h):
        store = make(h, 'p', None, 2)
        w = make(h, 'w', None, 2, link(store, ray_))
        v = [h.real(f'v{i}', -5, 5) for i in range(4)]
        who = w if h.choice('who', 0, 1) else store
        who.push_setattr('foo', v[0])
        who.push_setattr('env.bar', v[1])
        store.holder = types.SimpleNamespace(a=types.SimpleNamespace(b=v[2]))
        h.check_eq(store.foo, v[0], 'attribute of the parameter store')
        h.check_eq(store.env.bar, v[1], 'nested attribute')
        h.check(who is store or (not hasattr(w, 'foo')), 'nothing is set on the worker')
        h.check_eq(who.pull_getattr('foo'), v[0], 'attribute')
        h.check_eq(who.pull_getattr('env.bar'), v[1], 'nested attribute')
        h.check_eq(who.pull_getattr('holder.a.b'), v[2], 'attribute two levels down')
        who.push_setattr('holder.a.b', v[3])
        h.check_eq(store.holder.a.b, v[3], 'attribute two levels down')
        h.check_eq(who.pull_getattr('nope', v[0]), v[0], 'default value')
        h.check_eq(who.pull_getattr('holder.a.nope', v[1]), v[1], 'default value, nested')
        h.check(who.pull_getattr('nope', None) is None, 'None is a default value')
        for n in ('nope', 'holder.nope'):
            try:
                who.pull_getattr(n)
                h.check(False, 'missing attribute refused')
            except AttributeError:
                pass
        # states
        if who is w:
            w.pull_state()
            h.check_eq(w.x, store.x, 'pulled state')
            w.x = v[2]
            w.push_state()
            h.check_eq(store.x, v[2], 'pushed state')
            w.push_metrics({'m': v[0]})
            w.push_metrics({'m': v[1]})
            h.check_eq(store.env.get_metrics()['m'], (v[0] + v[1]) / h.num(2), 'metrics of the store')
            h.check_eq(w.pull_metrics()['m'], (v[0] + v[1]) / h.num(2), 'metrics of the store')
            h.check('m' not in w.env.get_metrics(), 'the metrics of the worker are its own')
    return fn


def build(tier):
    th = tier == 'thorough'
    c = Check('P26', bounds={
        'steps per episode': '1 to 4 (limit of the environment 3)', 'episodes': '3 per worker',
        'workers': '2, taking turns between episodes', 'updates of a learner': '3',
        'communication': 'direct calls, or a stand-in for ray actors that carries out each call at once'},
        assumptions=['ray delivers remote calls as direct calls would'])
    c.harness('rollout-3', h_rollout(3, 2))
    c.harness('rollout-1', h_rollout(1, 2))
    c.harness('loop-1', h_loop(2, 1), budget_s=200)
    c.harness('loop-2', h_loop(3 if th else 2, 2), budget_s=600 if th else 200)
    c.harness('threshold', h_threshold)
    c.harness('overlap', h_overlap(False))
    c.harness('ray-overlap', h_overlap(True))
    c.harness('learn', h_learn(3))
    c.harness('buffer-own', h_buffer(False))
    c.harness('buffer-remote', h_buffer(True))
    c.harness('attr', h_attr(False))
    c.harness('ray-attr', h_attr(True))
    c.harness('ray-buffer', h_buffer(True, True))
    c.harness('ray-learn', h_learn(3, True))
    c.harness('ray-loop', h_loop(2, 1, True), budget_s=200)
    return c
