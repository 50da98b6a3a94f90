"""P09: the action wrappers always hand the wrapped environment the right element of its Box."""
import numpy as onp

from engine.harness import Check
from .envs import Scripted

BOXES = {
    'unit1': ((1,), [-1.], [1.]),
    'asym2': ((2,), [-2., 0.5], [1., 3.]),
    'mat22': ((2, 2), [[-1., -2.], [0., 1.]], [[1., 2.], [0.5, 4.]]),
    'row13': ((1, 3), [[-1., 0., 5.]], [[-0.5, 8., 5.25]]),
}


def box(name, h=None):
    import gymnasium
    shape, lo, hi = BOXES[name]
    sp = gymnasium.spaces.Box(low=onp.array(lo, 'float32'), high=onp.array(hi, 'float32'),
                              dtype='float32')
    if h is not None:      # any bounds
        lo, w = h.reals('lo', shape, -5, 5), h.reals('w', shape, 0.125, 5)
        sp.low, sp.high = lo, lo + w
        if not h.symbolic:
            sp.low, sp.high = sp.low.astype('float32'), sp.high.astype('float32')
    return sp


def flatten(h, x):
    x = onp.reshape(x, (-1,))
    return [h.num(float(v)) for v in x] if x.dtype == onp.float32 else list(x)


def passes(h, base, out, k):
    s, r, d, tr, info = out
    h.check(s == f'obs{k}' and d is False and tr is True, 'results are passed on')
    h.check(r == k, 'reward passed on')
    h.check(info['mine'] == k, 'info is kept')


def send(base, k, info):
    base.next = (f'obs{k}', k, False, True, dict(info, mine=k))


def h_reals(name):
    def f(h):
        import gymnasium
        from coax.wrappers import BoxActionsToReals
        sp = box(name, h if len(BOXES[name][0]) == 1 else None)
        base = Scripted(action_space=sp)
        env = BoxActionsToReals(base)
        n = int(onp.prod(sp.shape))
        h.check(isinstance(env.action_space, gymnasium.spaces.Box)
                and env.action_space.shape == (n,), 'flat Box of reals')
        h.check(bool(onp.all(env.action_space.low <= -1e14))
                and bool(onp.all(env.action_space.high >= 1e14)), 'practically unbounded')
        prev = []
        for k in range(2):
            a = h.reals(f'a{k}', (n,), -100, 100)
            if not h.symbolic:
                a = a.astype('float32')
            send(base, k, {'a_orig': ['outer']} if k else {})
            if h.symbolic:
                env.action_space.contains = lambda x: x.shape == (n,)
            out = env.step(a)
            passes(h, base, out, k)
            got = base.actions[-1]
            h.check(onp.shape(got) == sp.shape, 'shape of the original space')
            h.check_eq(out[4]['a_orig'][-1], got, 'the compactified action is reported')
            h.check(len(out[4]['a_orig']) == k + 1, 'reported after what was there')
            flat = onp.reshape(got, (n,))
            lo, hi = flatten(h, sp.low), flatten(h, sp.high)
            for i in range(n):
                l, u = lo[i], hi[i]
                want = l + (u - l) / (1 + h.exp(-a[i]))
                h.check_eq(flat[i], want, 'low + (high - low) * sigmoid', tol=1e-4)
                h.check(h.and_(flat[i] >= l, flat[i] <= u), 'inside the Box')
            if not h.symbolic:
                h.check(sp.contains(got), 'element of the original space')
        h.witness(f'reals-{name}')
    return f


def h_discrete(name, bins):
    def f(h):
        import gymnasium
        from coax.wrappers import BoxActionsToDiscrete
        sp = box(name, h if len(BOXES[name][0]) == 1 else None)
        base = Scripted(action_space=sp)
        env = BoxActionsToDiscrete(base, bins, random_seed=3)
        n = int(onp.prod(sp.shape))
        nvec = [bins] * n if isinstance(bins, int) else list(bins)
        if n == 1:
            h.check(isinstance(env.action_space, gymnasium.spaces.Discrete)
                    and env.action_space.n == nvec[0], 'Discrete space')
        else:
            h.check(isinstance(env.action_space, gymnasium.spaces.MultiDiscrete)
                    and [int(v) for v in env.action_space.nvec] == nvec, 'MultiDiscrete space')
        d0 = len(h.draws)
        for k in range(2):
            ai = [h.choice(f'a{k}_{i}', 0, nvec[i] - 1) if n <= 2 and k == 0
                  else h.int(f'a{k}_{i}', 0, nvec[i] - 1) for i in range(n)]
            a = int(ai[0]) if n == 1 else h.arr(ai)
            send(base, k, {'a_orig': ['outer']} if k else {})
            out = env.step(a)
            passes(h, base, out, k)
            got = base.actions[-1]
            h.check(onp.shape(got) == sp.shape, 'shape of the original space')
            h.check_eq(out[4]['a_orig'][-1], got, 'the continuous action is reported')
            h.check(len(out[4]['a_orig']) == k + 1, 'reported after what was there')
            flat = onp.reshape(got, (n,))
            lo, hi = flatten(h, sp.low), flatten(h, sp.high)
            for i in range(n):
                l, w = lo[i], hi[i] - lo[i]
                h.check_le(l + w * ai[i] / nvec[i], flat[i],
                           'not below the selected bin')
                h.check_le(flat[i], l + w * (ai[i] + 1) / nvec[i],
                           'not above the selected bin')
                h.check_le(flat[i], hi[i], 'inside the Box')
            if not h.symbolic:
                h.check(sp.contains(got), 'element of the original space')
        h.witness(f'discrete-{name}-{bins}')
        del d0
    return f


def h_reject(h):
    import gymnasium
    from coax.wrappers import BoxActionsToDiscrete, BoxActionsToReals
    base = Scripted(action_space=gymnasium.spaces.Discrete(2))
    for mk in (lambda: BoxActionsToReals(base), lambda: BoxActionsToDiscrete(base, 3)):
        try:
            mk()
            h.check(False, 'only Box spaces are accepted')
        except NotImplementedError:
            pass
    base = Scripted(action_space=box('asym2'))
    for bins, err in (((2,), ValueError), ((2, 3, 4), ValueError), ('x', TypeError)):
        try:
            BoxActionsToDiscrete(base, bins)
            h.check(False, 'invalid numbers of bins are refused')
        except err:
            pass
    env = BoxActionsToDiscrete(base, (2, 3))
    base.next = ('o', 0., False, False, {})
    a = h.ints('a', (2,), -1, 3)
    ok = h.and_(a[0] >= 0, a[0] < 2, a[1] >= 0, a[1] < 3)
    try:
        env.step(a)
        refused = False
    except AssertionError:
        refused = True
    h.check(h.eq(refused, h.not_(ok)), 'actions outside of the space never reach the environment')
    h.check(len(base.actions) == (0 if refused else 1), 'refused actions are not executed')


def build(tier):
    c = Check('P09', bounds={
        'original boxes': 'four shapes with 1 to 4 components, any finite bounds in [-5,10] for the flat ones',
        'actions': 'any real in [-100,100] / any bin', 'draws': 'any real in [0, 1 - 2^-12]',
        'steps': '2 consecutive'}, assumptions=['the environment returns a dict as info'])
    for nm in BOXES:
        c.harness(f'reals-{nm}', h_reals(nm), conc=40)
    for nm, bins in (('unit1', 3), ('unit1', (4,)), ('asym2', 3), ('asym2', (2, 3)),
                     ('mat22', (2, 3, 4, 1)), ('row13', (2, 2, 5)), ('row13', 4)):
        c.harness(f'discrete-{nm}-{bins}', h_discrete(nm, bins), rng=True, conc=10, budget_s=100)
    c.harness('reject', h_reject, rng=True)
    return c
