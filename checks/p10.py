"""P10: frame stacking and meta-policies."""
from engine.harness import Check
from .envs import Scripted


def h_frames(n, K):
    def f(h):
        import gymnasium
        from coax.wrappers import FrameStacking
        base = Scripted()
        env = FrameStacking(base, n)
        sp = env.observation_space
        h.check(isinstance(sp, gymnasium.spaces.Tuple) and len(sp.spaces) == n
                and all(x == base.observation_space for x in sp.spaces), 'observation space')
        hist = None
        seen = []
        for k in range(K):
            op = h.choice(f'op{k}', 0, 1) if k else 0
            o = h.real(f'o{k}', -5, 5)
            if op == 0:
                base.next_reset = (o, {'k': k})
                out, info = env.reset(seed=k)
                h.check(base.reset_kwargs[-1] == {'seed': k}, 'reset arguments are passed on')
                h.check(info == {'k': k}, 'info of reset')
                hist = [o] * n
            else:
                r = h.real(f'r{k}', -5, 5)
                d, tr = h.flag(f'd{k}'), k % 2 == 0
                base.next = (o, r, d, tr, {'k': k})
                out, rr, dd, tt, info = env.step(k)
                h.check(base.actions[-1] == k, 'action passed on')
                h.check_eq(rr, r, 'reward passed on')
                h.check(dd == d and tt == tr and info == {'k': k}, 'flags passed on')
                hist = hist[1:] + [o]
            h.check(isinstance(out, tuple) and len(out) == n, 'a tuple of n frames')
            for x, y in zip(out, hist):
                h.check_eq(x, y, 'the n most recent frames of this episode, oldest first')
            seen.append((out, list(hist)))
        for out, want in seen:       # observations are never changed afterwards
            h.check(len(out) == n, 'earlier observations keep their length')
            for x, y in zip(out, want):
                h.check_eq(x, y, 'earlier observations are not modified')
        h.witness(f'frames-{n}')
    return f


def h_bad(h):
    from coax.wrappers import FrameStacking
    for bad in (0, -1, 1.5, None):
        try:
            FrameStacking(Scripted(), bad)
            h.check(False, 'an invalid number of frames is refused')
        except TypeError:
            pass


def h_meta(K):
    def f(h):
        import gymnasium
        from coax.wrappers import MetaPolicyEnv
        calls = []

        def plain(s):
            calls.append(('plain', s))
            return 2 * s

        def withlogp(s, return_logp=False):
            calls.append(('logp', s, return_logp))
            return (s + 1, s - 7) if return_logp else s + 1

        class Arm:
            def __call__(self, s, return_logp=False):
                calls.append(('arm', s, return_logp))
                return (3 * s, 5 * s) if return_logp else 3 * s

            def mode(self, s):
                calls.append(('mode', s))
                return s - 1
        arm = Arm()
        base = Scripted()
        env = MetaPolicyEnv(base, plain, withlogp, arm, arm.mode)
        h.check(isinstance(env.action_space, gymnasium.spaces.Discrete)
                and env.action_space.n == 4, 'one meta-action per arm')
        try:
            env.step(0)
            h.check(False, 'step before reset is refused')
        except AssertionError:
            pass
        s = h.real('s', -5, 5)
        base.next_reset = (s, {'i': 1})
        out = env.reset()
        h.check_eq(out[0], s, 'reset passes the observation on')
        for k in range(K):
            m = h.choice(f'm{k}', 0, 3)
            s2, r = h.real(f's{k}', -5, 5), h.real(f'r{k}', -5, 5)
            base.next = (s2, r, False, k == 1, {'mine': k} if k != 1 else None)
            got = env.step(m)
            a = (2 * s, s + 1, 3 * s, s - 1)[m]
            lp = (0, s - 7, 5 * s, 0)[m]
            h.check_eq(base.actions[-1], a, 'the arm chosen by the meta-action acts on the '
                                            'latest observation')
            h.check_eq(got[0], s2, 'observation passed on')
            h.check_eq(got[1], r, 'reward passed on')
            h.check(got[2] is False and got[3] == (k == 1), 'flags passed on')
            h.check_eq(got[4]['a'], a, 'info: lower-level action')
            h.check_eq(got[4]['logp'], lp, 'info: log-propensity of the lower-level action')
            if k != 1:
                h.check(got[4]['mine'] == k, 'info of the environment is kept')
            h.check(len(calls) == k + 1, 'exactly one arm acts per step')
            s = s2
        n = len(base.actions)
        for bad in (-1, 4):
            try:
                env.step(bad)
                h.check(False, 'invalid meta-actions are refused')
            except AssertionError:
                pass
        h.check(len(base.actions) == n, 'invalid meta-actions do nothing')
        h.witness('meta')
    return f


def build(tier):
    th = tier == 'thorough'
    c = Check('P10', bounds={'frames': '1..4', 'operations': 'any sequence of <=5 (6 thorough) '
                             'steps and resets', 'frames content': 'any real (as opaque values)',
                             'arms': '4 (function, function with log-propensity, callable object, '
                             'bound method)', 'meta steps': '3'})
    for n in (1, 2, 3, 4):
        c.harness(f'frames-{n}', h_frames(n, 6 if th else 5), conc=10)
    c.harness('bad', h_bad, conc=1)
    c.harness('meta', h_meta(3), conc=15)
    return c
