"""P30: the DeepMind-control adapter hands on observations, rewards, ends and bounds unchanged."""
import numpy as onp

from engine.harness import Check

# shapes of the parts of the observation, in order
LAYOUTS = {'one': [('position', (3,))], 'scalar': [('velocity', ()), ('height', (2,))],
           'matrix': [('up', (2, 2)), ('v', ()), ('pose', (1,))]}


class Step:
    def __init__(self, obs, r, last):
        self.observation, self.reward, self._last = obs, r, last
        self.discount, self.step_type = None, None

    def last(self):
        return self._last

    def first(self):
        return False

    def mid(self):
        return not self._last


class Task:
    """ a control task, played by the harness """
    physics = None

    def __init__(self, obs_spec, act_spec):
        self.obs_spec, self.act_spec, self.actions = obs_spec, act_spec, []
        self.next = None

    def observation_spec(self):
        return self.obs_spec

    def action_spec(self):
        return self.act_spec

    def reset(self):
        return self.next

    def step(self, a):
        self.actions.append(a)
        return self.next


def spec(shape, lo=None, hi=None, dtype='float64'):
    from dm_env import specs
    if lo is None:
        return specs.Array(shape, dtype)
    return specs.BoundedArray(shape, dtype, lo, hi)


def adapter(h, layout, act=None):
    import collections
    from coax.utils import _dmc_gym as m
    loads = []

    def load(domain, task, task_kwargs=None, **kw):
        t = Task(collections.OrderedDict((k, spec(s)) for k, s in LAYOUTS[layout]),
                 act if act is not None else spec((2,), -1, 1))
        loads.append((domain, task, dict(task_kwargs or {}), t))
        return t
    m.suite.load = load         # (in this process only)
    return m, loads, m.DmcGymWrapper('dom', 'tsk', 3, 84, 84, 0)


def obs(h, layout, tag):
    """ -> observation of the task, expected flat entries """
    import collections
    d, flat = collections.OrderedDict(), []
    for k, s in LAYOUTS[layout]:
        if s == ():
            v = h.real(f'{tag}{k}', -9, 9)
            flat.append(v)
        else:
            v = h.reals(f'{tag}{k}', s, -9, 9)
            flat += [v[i] for i in onp.ndindex(*s)]
        d[k] = v
    return d, flat


def same(h, got, flat, what):
    h.check(onp.shape(got) == (len(flat),), f'{what}: flat, nothing missing')
    for i, x in enumerate(flat):
        h.check_eq(got[i], x, f'{what}: entry {i}')


def h_play(layout, K):
    def fn(h):
        m, loads, env = adapter(h, layout)
        h.check(len(loads) == 1 and loads[0][:2] == ('dom', 'tsk'), 'the task asked for')
        h.check(loads[0][2].get('random') == 3, 'seed of the task')
        seed = 3
        for k in range(K):
            task = loads[-1][3]
            d, flat = obs(h, layout, f'o{k}')
            op = h.choice(f'op{k}', 0, 2) if k else 0
            if op < 2:
                n = len(loads)
                kw = {} if op == 0 else {'seed': 10 + k}
                if op:
                    old = task.__class__.reset
                    pending = Step(d, None, False)
                    Task.reset = lambda self: pending
                    try:
                        out, info = env.reset(**kw)
                    finally:
                        Task.reset = old
                    seed = 10 + k
                    h.check(len(loads) == n + 1 and loads[-1][2].get('random') == seed
                            and loads[-1][:2] == ('dom', 'tsk'), 'a seed restarts the task with it')
                else:
                    task.next = Step(d, None, False)
                    out, info = env.reset(**kw)
                    h.check(len(loads) == n, 'without a seed the task goes on')
                h.check(info == {}, 'info')
            else:
                r, last = h.real(f'r{k}', -9, 9), h.flag(f'last{k}')
                task.next = Step(d, r, last)
                a = h.reals(f'a{k}', (2,), -1, 1)
                out, rr, done, trunc, info = env.step(a)
                h.check_eq(task.actions[-1], a, 'action')
                h.check_eq(rr, r, 'reward')
                h.check(bool(h.or_(done, trunc)) == bool(last), 'the episode ends with the last step of the task')
                h.check(info == {}, 'info')
            same(h, out, flat, 'observation')
    return fn


def h_spaces(shape, form):
    """ boxes with the bounds of the specs """
    def fn(h):
        from coax.utils import _dmc_gym as m
        n = int(onp.prod(shape))
        dt = ['float64', 'float32'][h.choice('dt', 0, 1)]
        a, b = -h.real('lo', 0, 9), h.real('hi', 0, 9)
        s = spec(shape, -1, 1, dt)
        low, high = [a] * n, [b] * n
        if form == 'each':
            x, y = h.reals('los', (n,), -9, 0), h.reals('his', (n,), 0, 9)
            low, high = list(x), list(y)
            a, b = x.reshape(shape), y.reshape(shape)
        elif form == 'row':         # one bound per column
            x = h.reals('los', shape[-1:], -9, 0)
            a, low = x, list(x) * (n // shape[-1])
        elif form == 'half':
            b, high = onp.inf, [onp.inf] * n
        if form == 'free':
            s, low, high = spec(shape), [-onp.inf] * n, [onp.inf] * n
        else:                       # (the constructor wants concrete bounds)
            s._minimum, s._maximum = a, b
        first = h.choice('first', 0, 1)
        ss = [s, spec((2,), [-7., -8.], [7., 8.])]
        out = []
        real = m.spaces.Box

        def box(low, high, shape=None, dtype=onp.float32, **kw):
            out.append((low, high, dtype))
            return real(onp.zeros(onp.shape(low), 'float32'), onp.ones(onp.shape(low), 'float32'))
        m.spaces.Box = box
        try:
            m.spec_to_box(*(ss if first else ss[::-1]), dtype=onp.float32)
        finally:
            m.spaces.Box = real
        low = low + [-7., -8.] if first else [-7., -8.] + low
        high = high + [7., 8.] if first else [7., 8.] + high
        h.check(len(out) == 1 and onp.dtype(out[0][2]) == onp.float32, 'one box of 32-bit floats')
        for got, want, what in ((out[0][0], low, 'lower'), (out[0][1], high, 'upper')):
            h.check(onp.shape(got) == (n + 2,), 'one entry per entry of the specs')
            for i, x in enumerate(want):
                if isinstance(x, float) and onp.isinf(x):
                    h.check(got[i] == x, f'{what} bound of the spec')
                else:
                    h.check_eq(got[i], x, f'{what} bound of the spec')
    return fn


def h_env_spaces(layout):
    def fn(h):
        act = h.choice('act', 0, 1)
        m, loads, env = adapter(h, layout, spec((1,), -3, 2) if act else
                                spec((2,), [-1, -2], [1, 2], 'float32'))
        n = sum(int(onp.prod(s)) for _, s in LAYOUTS[layout])
        h.check(env.observation_space.shape == (n,), 'observation space')
        h.check(env.action_space.shape == ((1,) if act else (2,)), 'action space')
        h.check(list(env.action_space.low) == ([-3] if act else [-1, -2])
                and list(env.action_space.high) == ([2] if act else [1, 2]), 'bounds of the actions')
    return fn


def build(tier):
    th = tier == 'thorough'
    c = Check('P30', bounds={
        'calls of reset and step': 4 if th else 3, 'observation': 'up to 3 parts of rank 0, 1, 2, any reals within +-9',
        'specs': 'rank 0..2, bounded, half-bounded and unbounded, float32 and float64'},
        assumptions=['dm_control.suite.load is replaced by a stand-in that plays any task'])
    for k in LAYOUTS:
        c.harness(f'play-{k}', h_play(k, 4 if th else 3))
        c.harness(f'spaces-{k}', h_env_spaces(k))
    for shape in ((), (1,), (3,), (2, 2)):
        for form in ('same', 'each', 'half', 'free') + ('row',) * bool(shape):
            c.harness(f'specs-{shape}-{form}', h_spaces(shape, form))
    return c
