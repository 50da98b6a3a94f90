"""P16: normal and squashed normal distributions: every function agrees with the density."""
import numpy as onp

from engine.harness import Check
from engine.jaxrng import with_draws

LOG2PI = 1.8378770664093453
LOW = {(): -2., (1,): [-1.5], (2,): [-2., 0.5], (2, 2): [[-1., -2.], [0., 1.]]}
HIGH = {(): 3., (1,): [1.5], (2,): [1., 2.5], (2, 2): [[1., 2.], [0.5, 4.]]}


def space(shape):
    import gymnasium
    return gymnasium.spaces.Box(low=onp.asarray(LOW[shape], 'float32'),
                                high=onp.asarray(HIGH[shape], 'float32'),
                                shape=shape, dtype='float32')


def ndist(shape, **kw):
    from coax.proba_dists import NormalDist
    return NormalDist(space(shape), **kw)


def sdist(shape, **kw):
    from coax.proba_dists import SquashedNormalDist
    return SquashedNormalDist(space(shape), **kw)


def par(h, name, B, shape, lv=3):
    return {'mu': h.reals(name + 'mu', (B,) + shape, -3, 3),
            'logvar': h.reals(name + 'lv', (B,) + shape, -lv, lv)}


def rows(x, b):
    return list(onp.asarray(x[b], dtype=object).reshape(-1))


def clip(h, v, c):
    """ the path decides on which side of the bounds v is """
    if not c:
        return v
    return h.num(c[0]) if bool(v < c[0]) else h.num(c[1]) if bool(v > c[1]) else v


def presplit(h, P, c):
    if c and h.symbolic:
        for v in P['logvar'].reshape(-1):
            clip(h, v, c)


def logpdf(h, x, mu, lv):
    return -(sum(lv) + sum((a - m) * (a - m) * h.exp(-l) for a, m, l in zip(x, mu, lv))) / 2 \
        - h.num(LOG2PI) * len(mu) / 2


def h_single(B, shape, kind='normal', clipped=None):
    def f(h):
        kw = {} if clipped is None else {'clip_logvar': clipped}
        d = ndist(shape, **kw) if kind == 'normal' else sdist(shape, **kw)
        P = par(h, '', B, shape)
        n = int(onp.prod(shape))
        presplit(h, P, clipped)
        H = h.jax(d.entropy, P)
        m, mo = h.jax(d.mean, P), h.jax(d.mode, P)
        eps = h.reals('eps', (B, n), -3, 3)
        x = h.jax(with_draws(lambda P: d.sample(P, h.key())), {'n': [eps]}, P)
        h.check(m.shape == mo.shape == x.shape == (B,) + shape and H.shape == (B,), 'shapes')
        for b in range(B):
            mu, lv = rows(P['mu'], b), [clip(h, v, clipped) for v in rows(P['logvar'], b)]
            h.check_near(H[b], (sum(lv) + n + h.num(LOG2PI) * n) / 2, 'entropy')
            raw = [mu[i] + h.exp(lv[i] / 2) * eps[b, i] for i in range(n)]
            mean = list(mu)
            if kind == 'squashed':
                lo, hi = (onp.asarray(v[shape], 'float64').reshape(-1) for v in (LOW, HIGH))
                sq = lambda v, i: h.tanh(v) * h.num((hi[i] - lo[i]) / 2) + h.num((hi[i] + lo[i]) / 2)
                raw, mean = ([sq(v, i) for i, v in enumerate(w)] for w in (raw, mean))
            for i in range(n):
                h.check_eq(rows(x, b)[i], raw[i], 'sample: location + scale * noise')
                h.check_eq(rows(m, b)[i], mean[i], 'mean')
                h.check_eq(rows(mo, b)[i], mean[i], 'mode')
        h.witness(f'single-{B}-{shape}-{kind}-{clipped}')
    return f


def h_logp(B, shape, clipped=None):
    def f(h):
        d = ndist(shape, **({} if clipped is None else {'clip_logvar': clipped}))
        P = par(h, '', B, shape)
        x = h.reals('x', (B,) + shape, -5, 5)
        presplit(h, P, clipped)
        lp = h.jax(d.log_proba, P, x)
        h.check(lp.shape == (B,), 'shape')
        for b in range(B):
            lv = [clip(h, v, clipped) for v in rows(P['logvar'], b)]
            h.check_near(lp[b], logpdf(h, rows(x, b), rows(P['mu'], b), lv), 'log density')
        h.witness(f'logp-{B}-{shape}-{clipped}')
    return f


def h_slogp(B, shape):
    """ change of variables: log p(x) = log N(y) - sum log |dx/dy| with x = c + s tanh(y) """
    def f(h):
        d = sdist(shape)
        P = par(h, '', B, shape, 2)
        y = h.reals('y', (B,) + shape, -2.5, 2.5)
        n = int(onp.prod(shape))
        lo, hi = (onp.asarray(v[shape], 'float64').reshape(-1) for v in (LOW, HIGH))
        xs = onp.empty((B, n), dtype=object)
        want = []
        for b in range(B):
            yb = rows(y, b)
            det = 0
            for i in range(n):
                s, c = (hi[i] - lo[i]) / 2, (hi[i] + lo[i]) / 2
                t = h.tanh(yb[i])
                xs[b, i] = h.num(c) + h.num(s) * t
                e = h.exp(2 * yb[i])
                # 1 - tanh(y)^2 = 4 e^{2y} / (e^{2y} + 1)^2
                det = det + h.log(h.num(4 * s)) + 2 * yb[i] - 2 * h.log(e + 1)
            want.append(logpdf(h, yb, rows(P['mu'], b), rows(P['logvar'], b)) - det)
        x = h.arr(xs.tolist()).reshape((B,) + shape)
        if not h.symbolic:
            x = x.astype('float32')
        lp = h.jax(d.log_proba, P, x)
        h.check(lp.shape == (B,), 'shape')
        for b in range(B):
            h.check_near(lp[b], want[b], 'log density of the squashed variate', tol=1e-2)
        h.witness(f'slogp-{B}-{shape}')
    return f


def h_pair(B, shape, kind='normal', clipped=None):
    def f(h):
        kw = {} if clipped is None else {'clip_logvar': clipped}
        d = ndist(shape, **kw) if kind == 'normal' else sdist(shape, **kw)
        P, Q = par(h, 'p', B, shape), par(h, 'q', B, shape)
        presplit(h, P, clipped)
        presplit(h, Q, clipped)
        ce, kl = h.jax(d.cross_entropy, P, Q), h.jax(d.kl_divergence, P, Q)
        same = h.jax(d.kl_divergence, P, P)
        h.check(ce.shape == kl.shape == (B,), 'shapes')
        n = int(onp.prod(shape))
        for b in range(B):
            m1, m2 = rows(P['mu'], b), rows(Q['mu'], b)
            l1, l2 = ([clip(h, v, clipped) for v in rows(X['logvar'], b)] for X in (P, Q))
            quad = sum((h.exp(l1[i]) + (m1[i] - m2[i]) * (m1[i] - m2[i])) * h.exp(-l2[i])
                       for i in range(n))
            h.check_near(ce[b], (h.num(LOG2PI) * n + sum(l2) + quad) / 2, 'cross entropy')
            h.check_near(kl[b], (sum(l2) - sum(l1) + quad - n) / 2, 'KL divergence')
            h.check_near(same[b], 0, 'KL of a distribution with itself')
        h.witness(f'pair-{B}-{shape}-{kind}-{clipped}')
    return f


def h_klpos(h):
    d = ndist((1,))
    P, Q = par(h, 'p', 1, (1,), 1), par(h, 'q', 1, (1,), 1)
    kl = h.jax(d.kl_divergence, P, Q)
    a = P['logvar'][0, 0] - Q['logvar'][0, 0]
    h.assume(h.exp(a) >= 1 + a - h.num(1e-9))         # true for every real a
    h.check_le(h.num(-1e-6), kl[0], 'KL divergence is never negative')
    h.witness('klpos')


def h_affine(B, shape, scalar):
    """ X' = X * scale + shift """
    def f(h):
        d = ndist(shape)
        P = par(h, '', B, shape)
        if scalar:
            c, s = h.real('scale', 0.125, 3), h.real('shift', -3, 3)
        else:
            c, s = h.reals('scale', (B,) + shape, 0.125, 3), h.reals('shift', (B,) + shape, -3, 3)
        Q = h.jax(lambda P, c, s: d.affine_transform(P, c, s), P, c, s)
        for b in range(B):
            mu, lv = rows(P['mu'], b), rows(P['logvar'], b)
            for i in range(len(mu)):
                ci, si = (c, s) if scalar else (rows(c, b)[i], rows(s, b)[i])
                h.check_eq(rows(Q['mu'], b)[i], mu[i] * ci + si, 'location')
                h.check_eq(rows(Q['logvar'], b)[i], lv[i] + 2 * h.log(ci), 'log-variance')
        h.witness(f'affine-{B}-{shape}-{scalar}')
    return f


def h_affine_vt(h):
    """ X' = f(f^-1(X) * scale + shift), location """
    from coax.value_transforms import ValueTransform
    d = ndist((2,))
    P = par(h, '', 1, (2,))
    vt = ValueTransform(lambda x: x / 4 + 1, lambda y: (y - 1) * 4)
    c, s = h.real('scale', 0.125, 3), h.real('shift', -3, 3)
    Q = h.jax(lambda P, c, s: d.affine_transform(P, c, s, vt), P, c, s)
    for i in range(2):
        mu = P['mu'][0, i]
        h.check_eq(Q['mu'][0, i], ((mu - 1) * 4 * c + s) / 4 + 1, 'location under a value transform')
    h.witness('affine-vt')


def h_bijection(B, shape):
    """ clean variates <-> reals """
    def f(h):
        d = ndist(shape)
        lo, hi = (onp.asarray(v[shape], 'float64').reshape(-1) for v in (LOW, HIGH))
        n = len(lo)
        t = h.reals('t', (B, n), -6, 6)
        raw = t.reshape((B,) + shape)
        x = h.jax(lambda r: d.postprocess_variate(None, r, batch_mode=True), raw)
        h.check(x.shape == (B,) + shape, 'shape')
        for b in range(B):
            for i in range(n):
                l, u = h.num(lo[i]), h.num(hi[i])
                v = rows(x, b)[i]
                h.check_near(v, l + (u - l) / (1 + h.exp(-t[b, i])), 'sigmoid onto the Box')
                h.check(h.and_(v >= l, v <= u), 'inside the Box')
        back = h.jax(lambda r: d.preprocess_variate(
            None, d.postprocess_variate(None, r, batch_mode=True)), raw)
        h.check(back.shape == (B,) + shape, 'shape of raw variates')
        for b in range(B):
            for i in range(n):
                h.check_near(rows(back, b)[i], t[b, i], 'preprocess undoes postprocess', tol=1e-2)
        h.witness(f'bijection-{B}-{shape}')
    return f


def h_inside(shape, kind):
    """ whatever the raw variate, the clean variate is in the space """
    def f(h):
        d = ndist(shape) if kind == 'normal' else sdist(shape)
        lo, hi = (onp.asarray(v[shape], 'float64').reshape(-1) for v in (LOW, HIGH))
        n = len(lo)
        if kind == 'normal':
            raw = h.reals('raw', (2, n), -100, 100).reshape((2,) + shape)
            pick = lambda r: d.postprocess_variate(None, r, batch_mode=True)
        else:
            raw = h.reals('raw', (2, n), -6, 6).reshape((2,) + shape)
            pick = lambda r: d.postprocess_variate(
                None, d.mean({'mu': r, 'logvar': r}), batch_mode=True)
        x = h.jax(pick, raw)
        for b in range(2):
            for i in range(n):
                v = rows(x, b)[i]
                h.check(h.and_(v >= h.num(lo[i]), v <= h.num(hi[i])), 'inside the Box')
        if not h.symbolic:
            for b in range(2):
                import jax.numpy as jnp
                r = jnp.asarray(raw, 'float32')
                if kind == 'squashed':
                    r = d.mean({'mu': r, 'logvar': r})
                one = d.postprocess_variate(None, r, index=b)
                h.check(d.space.contains(one), 'a single clean variate is in the space')
                h.check_eq(one, x[b], 'index')
        h.witness(f'inside-{shape}-{kind}')
    return f


def h_clipbox(h):
    """ clean variates stay in the clipped Box; anything outside of it is clipped first """
    d = ndist((2,), clip_box=(-1., 1.))
    lo, hi = [-1., 0.5], [1., 1.]
    gap = 0.015625
    x = h.arr([[h.real(f'x{i}', *((-4, lo[i]), (lo[i] + gap, hi[i] - gap), (hi[i], 4))[
                    h.choice(f'where{i}', 0, 2)]) for i in range(2)]])
    out = h.jax(lambda v: d.postprocess_variate(None, d.preprocess_variate(None, v),
                                                batch_mode=True), x)
    for i in range(2):
        l, u = h.num(lo[i]), h.num(hi[i])
        c = h.min(h.max(x[0, i], l), u)
        h.check_near(out[0, i], c, 'round trip is the clipped value', tol=1e-2)
        h.check(h.and_(out[0, i] >= l, out[0, i] <= u), 'inside the clipped Box')
    h.witness('clipbox')


def h_squash_io(shape):
    def f(h):
        d = sdist(shape)
        lo, hi = (onp.asarray(v[shape], 'float64').reshape(-1) for v in (LOW, HIGH))
        x = h.reals('x', (2, len(lo)))
        for b in range(2):
            for i in range(len(lo)):
                h.assume(h.and_(x[b, i] >= h.num(lo[i]), x[b, i] <= h.num(hi[i])))
        h.feasible()
        x = x.reshape((2,) + shape)
        h.check_eq(h.jax(lambda v: d.preprocess_variate(None, v), x), x, 'variates of the space are raw')
        h.check_eq(h.jax(lambda v: d.postprocess_variate(None, v, batch_mode=True), x), x,
                   'raw variates are clean')
        one = h.jax(lambda v: d.preprocess_variate(None, v), x[0])
        h.check_eq(one, x[:1], 'a single variate gets a batch axis')
        h.witness(f'squash-io-{shape}')
    return f


def build(tier):
    T = tier == 'thorough'
    c = Check('P16', bounds={
        'spaces': 'Boxes of shape (), (1,), (2,), (2, 2) with fixed bounds', 'batch': '1 to 2 (3)',
        'parameters': 'locations in [-3, 3], log-variances in [-3, 3] (also clipped to (-1, 1))',
        'raw variates': 'reals in [-6, 6] (bijection), [-100, 100] (range)',
        'noise': 'standard normal draws in [-3, 3]'},
        assumptions=['random draws are arbitrary values of their range, in place of jax.random',
                     'finite Box bounds',
                     'affine_transform: positive scale; with a value transform only the location'])
    J = dict(numpy=False, prune=True)
    shapes = [(), (1,), (2,)] + [(2, 2)]
    for sh in shapes:
        for B in ((1, 2) if len(sh) < 2 else (2,)) + ((3,) if T else ()):
            c.harness(f'single-{B}-{sh}', h_single(B, sh), **J)
            c.harness(f'logp-{B}-{sh}', h_logp(B, sh), **J)
            c.harness(f'pair-{B}-{sh}', h_pair(B, sh), **J)
            c.harness(f'squashed-{B}-{sh}', h_single(B, sh, 'squashed'), **J)
            c.harness(f'slogp-{B}-{sh}', h_slogp(B, sh), **J)
        c.harness(f'affine-{sh}-scalar', h_affine(2, sh, True), **J)
        c.harness(f'affine-{sh}', h_affine(2, sh, False), **J)
        c.harness(f'bijection-{sh}', h_bijection(2 if len(sh) < 2 else 1, sh), **J)
        c.harness(f'inside-{sh}', h_inside(sh, 'normal'), **J)
        c.harness(f'squashed-inside-{sh}', h_inside(sh, 'squashed'), **J)
        c.harness(f'squashed-io-{sh}', h_squash_io(sh), **J)
    c.harness('clip-single', h_single(1, (2,), 'normal', (-1., 1.)), **J)
    c.harness('clip-logp', h_logp(1, (2,), (-1., 1.)), **J)
    c.harness('clip-pair', h_pair(1, (1,), 'normal', (-1., 1.)), **J)
    c.harness('clip-squashed', h_single(1, (2,), 'squashed', (-1., 1.)), **J)
    c.harness('squashed-pair', h_pair(1, (2,), 'squashed'), **J)
    c.harness('klpos', h_klpos, **J)
    c.harness('affine-vt', h_affine_vt, **J)
    c.harness('clip-box', h_clipbox, **J)
    return c
