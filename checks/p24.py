"""P24: exploration noise, schedules and running averages follow their documented recursions."""
import numpy as onp

from engine.harness import Check


def h_noise(shape, K, bounds, vec=False, lo=None):
    """ K calls or resets: A + X, X <- X + theta (mu - X) + sigma eps, clipped to the bounds """
    def fn(h):
        from coax.utils import OrnsteinUhlenbeckNoise
        n = int(onp.prod(shape))
        pos = (h.real('theta', 0.125, 1), h.real('sigma', 0.125, 2), h.real('mu', -2, 2))
        if vec:     # one value per component
            pos = (h.reals('theta', shape, 0.125, 1), h.reals('sigma', shape, 0.125, 2),
                   h.reals('mu', shape, -2, 2))
        theta, sigma, mu = pos
        kw = {}
        if bounds in ('both', 'min'):
            kw['min_value'] = h.real('min', -3, -0.5)
        if bounds in ('both', 'max'):
            kw['max_value'] = h.real('max', 0.5, 3)
        x = OrnsteinUhlenbeckNoise(mu=mu, sigma=sigma, theta=theta, random_seed=7, **kw)

        def at(v, i):
            return onp.reshape(v, (-1,))[i] if vec else v
        noise = [at(mu, i) for i in range(n)]
        for k in range(K):
            if k and h.choice(f'reset{k}', 0, 1):
                x.reset()
                noise = [at(mu, i) for i in range(n)]
            a = h.reals(f'a{k}', shape, -3, 3)
            if not h.symbolic:
                a = a.astype('float64')
            keep = a.copy()
            d0 = len(h.draws)
            out = x(a)
            h.check(onp.shape(out) == shape, 'shape of the action')
            h.check(len(h.draws) == d0 + 1, 'one draw of white noise per call')
            eps = onp.reshape(h.draws[-1][1], (-1,))
            o, aa = onp.reshape(out, (-1,)), onp.reshape(keep, (-1,))
            for i in range(n):
                h.check_eq(onp.reshape(a, (-1,))[i], aa[i], 'the given action is left alone')
                noise[i] = noise[i] - at(theta, i) * (noise[i] - at(mu, i)) + at(sigma, i) * eps[i]
                w = aa[i] + noise[i]
                if 'min_value' in kw:
                    w = h.max(w, kw['min_value'])
                if 'max_value' in kw:
                    w = h.min(w, kw['max_value'])
                h.check_eq(o[i], w, f'noisy action of call {k}')
    return fn


STEPS = [(0, 8), (10, 20, 50), (-4, 0, 2, 18), (3, 4, 8, 9, 25)]


def h_schedule(ts):
    """ linear between the given points, flat outside, exact at the points """
    def fn(h):
        from coax.utils import StepwiseLinearFunction
        v = [h.real(f'v{i}', -10, 10) for i in range(len(ts))]
        f = StepwiseLinearFunction(*[(t, x) for t, x in zip(ts, v)])
        t = h.int('t', ts[0] - 5, ts[-1] + 5) if h.choice('whole', 0, 1) \
            else h.real('tr', ts[0] - 5, ts[-1] + 5)
        y = f(t)
        if bool(t <= ts[0]):
            h.check_eq(y, v[0], 'flat before the first point')
        elif bool(t >= ts[-1]):
            h.check_eq(y, v[-1], 'flat after the last point')
        else:
            for i in range(len(ts) - 1):
                if bool(t <= ts[i + 1]):
                    w = h.num(ts[i + 1] - ts[i])
                    h.check_near(y, (v[i] * (ts[i + 1] - t) + v[i + 1] * (t - ts[i])) / w,
                                 'linear interpolation between neighbouring points')
                    break
        h.check(h.or_(*[h.and_(y <= a + h.num(1e-6), y >= b - h.num(1e-6)) for a in v for b in v]),
                'never outside the range of the given values')
        h.check_eq(f(t), y, 'the same answer when asked again')
    return fn


def h_order(h):
    """ points that do not ascend are refused """
    from coax.utils import StepwiseLinearFunction
    t = [h.int(f't{i}', -3, 3) for i in range(3)]
    try:
        StepwiseLinearFunction(*[(x, 1.) for x in t])
        ok = True
    except ValueError:
        ok = False
    asc = bool(t[0] < t[1]) and bool(t[1] < t[2])
    h.check(ok == asc, 'exactly ascending points are accepted')
    for bad in ((), ((0, 1.),), ((0, 1.), (1,)), ((0, 1.), (1.5, 2.)), ((0, 1.), [1, 2.])):
        try:
            StepwiseLinearFunction(*bad)
            h.check(False, f'{bad} refused')
        except TypeError:
            pass


def h_rolling(n, K):
    """ mean over the last n values """
    def fn(h):
        from coax.utils._rolling import ExponentialAverage, RollingAverage
        x = [h.real(f'x{i}', -10, 10) for i in range(K)]
        r, e = RollingAverage(n), ExponentialAverage(n)
        h.check_eq(r.value, 0, 'starts at zero')
        avg = h.num(0)
        for i in range(K):
            y = r.update(x[i])
            last = x[max(0, i + 1 - n):i + 1]
            w = last[0]
            for v in last[1:]:
                w = w + v
            h.check_near(y, w / h.num(len(last)), 'mean of the last n values')
            h.check_eq(r.value, y, 'value after an update')
            y = e.update(x[i])
            avg = avg + (x[i] - avg) / h.num(min(i + 1, n))
            h.check_near(y, avg, 'exponential average with a warm start')
            h.check_eq(e.value, y, 'value after an update')
    return fn


def build(tier):
    th = tier == 'thorough'
    c = Check('P24', bounds={
        'calls of the noise': 6 if th else 4, 'action shapes': '(), (1,), (2,), (2,2)',
        'points of a schedule': '2-5', 'averages': 'windows 1-4, up to 7 values',
        'values': 'all reals within +-10'}, assumptions=[])
    K = 6 if th else 4
    for shape in ((), (1,), (2,), (2, 2)):
        for bounds in ('none', 'both', 'min', 'max'):
            if th or bounds in ('both', 'none') or shape == (1,):
                k = 2 if shape == (2, 2) and not th else K
                c.harness(f'noise-{shape}-{bounds}', h_noise(shape, k, bounds), rng=True,
                          budget_s=200)
    c.harness('noise-vec', h_noise((2,), 2, 'both', True), rng=True, budget_s=200)
    for i, ts in enumerate(STEPS):
        c.harness(f'schedule-{i}', h_schedule(ts))
    c.harness('order', h_order)
    for n in (1, 2, 3, 4):
        c.harness(f'rolling-{n}', h_rolling(n, 7 if th else 6))
    return c
