"""P20: LogTransform is an invertible, odd, increasing transform given by the documented formulas."""
import numpy as onp

from engine.harness import Check


def signs(h, names, lo=-40, hi=40):
    """ one real per name, the path fixes its sign """
    out = []
    for n in names:
        k = h.choice('sign_' + n, -1, 1)
        v = h.real(n, lo, hi)
        if k == 0:
            if h.symbolic:
                h.assume(v == 0)
            else:
                v = 0.0
        elif h.symbolic:
            h.assume(v > 0 if k > 0 else v < 0)
        else:
            h.assume(v * k > 0)
        out.append((v, k))
    return out


def tr(h, v, k, s):
    return 0 if k == 0 else k * s * h.log(1 + k * v / s)


def inv(h, v, k, s):
    return 0 if k == 0 else k * s * (h.exp(k * v / s) - 1)


def h_formula(scale, shape):
    def f(h):
        from coax.value_transforms import LogTransform
        t = LogTransform(scale)
        s = h.num(float(scale))
        n = int(onp.prod(shape))
        vs = signs(h, [f'x{i}' for i in range(n)])
        x = h.arr([v for v, _ in vs]).reshape(shape)
        y = h.jax(t.transform_func, x)
        z = h.jax(t.inverse_func, x)
        h.check(y.shape == shape and z.shape == shape, 'shape is kept')
        y, z = y.reshape(-1), z.reshape(-1)
        for i, (v, k) in enumerate(vs):
            h.check_eq(y[i], tr(h, v, k, s), 'transform', tol=1e-4)
            h.check_eq(z[i], inv(h, v, k, s), 'inverse', tol=1e-4)
        h.witness(f'formula-{scale}-{shape}')
    return f


def h_inverse(scale):
    def f(h):
        from coax.value_transforms import LogTransform
        fwd, bwd = LogTransform(scale)
        (v, k), = signs(h, ['x'], -8 * scale if scale < 1 else -20, 8 * scale if scale < 1 else 20)
        x = h.arr([v])
        h.check_eq(h.jax(lambda a: bwd(fwd(a)), x), x, 'inverse after transform', tol=1e-3)
        h.check_eq(h.jax(lambda a: fwd(bwd(a)), x), x, 'transform after inverse', tol=1e-3)
        h.witness(f'inverse-{scale}')
    return f


def h_order(scale):
    def f(h):
        from coax.value_transforms import LogTransform
        t = LogTransform(scale)
        (a, ka), (b, kb) = signs(h, ['a', 'b'], -30, 30)
        h.assume(a + h.num(0.03125) <= b)
        h.feasible()
        y = h.jax(t.transform_func, h.arr([a, b]))
        h.check(y[0] < y[1], 'strictly increasing')
        # |f(x)| <= |x|: large values are suppressed, small ones kept
        h.check_le(y[1] * kb, b * kb, 'suppresses')
        h.check(h.and_(y[1] * kb >= 0, h.implies(kb != 0, h.not_(h.eq(y[1], 0)))), 'sign is kept')
        h.witness(f'order-{scale}')
    return f


def h_grad(scale):
    """ slope 1 / (1 + |x|/s): identity at the origin """
    def f(h):
        import jax
        from coax.value_transforms import LogTransform
        t = LogTransform(scale)
        s = h.num(float(scale))
        (v, k), = signs(h, ['x'])
        h.assume(k != 0)
        g = h.jax(jax.grad(lambda a: t.transform_func(a).sum()), h.arr([v]))
        h.check_eq(g[0], 1 / (1 + k * v / s), 'slope', tol=1e-3)
        gi = h.jax(jax.grad(lambda a: t.inverse_func(a).sum()), h.arr([v / 8]))
        h.check_eq(gi[0], h.exp(k * v / 8 / s), 'slope of the inverse', tol=1e-3)
        h.witness(f'grad-{scale}')
    return f


def h_pair(h):
    """ any pair of functions: iteration yields (transform, inverse) in this order """
    from coax.value_transforms import ValueTransform
    a, b = h.real('a'), h.real('b')
    vt = ValueTransform(lambda x: x + a, lambda x: x - b)
    f, g = vt
    x = h.real('x')
    h.check_eq(f(x), x + a, 'first is the transform')
    h.check_eq(g(x), x - b, 'second is the inverse')
    h.check_eq(vt.transform_func(x), x + a, 'transform_func')
    h.check_eq(vt.inverse_func(x), x - b, 'inverse_func')


def h_scale(h):
    from coax.value_transforms import LogTransform
    s = h.real('s', -2, 2)
    ok = bool(s > 0)
    try:
        t = LogTransform(s)
        h.check(ok, 'non-positive scales are refused')
        h.check_eq(t.scale, s, 'scale')
    except AssertionError:
        h.check(not ok, 'positive scales are accepted')
    x = h.reals('x', (2,), -4, 4)
    d = h.jax(LogTransform().transform_func, x)
    e = h.jax(LogTransform(1.0).transform_func, x)
    h.check_eq(d, e, 'default scale is 1')


def build(tier):
    c = Check('P20', bounds={
        'values': 'reals in [-40, 40] of either sign and zero (round trips: [-20, 20])',
        'scales': '0.5, 1, 7 (and 0.1, 2.5, 100 in the thorough tier)',
        'shapes': '(1,), (2,), (2, 2)'})
    for sc in (0.5, 1.0, 7.0) + ((0.1, 2.5, 100.0) if tier == 'thorough' else ()):
        for shape in ((1,), (2,)) + (((2, 2),) if tier == 'thorough' else ()):
            c.harness(f'formula-{sc}-{shape}', h_formula(sc, shape), numpy=False, prune=True)
        c.harness(f'inverse-{sc}', h_inverse(sc), numpy=False, prune=True)
        c.harness(f'order-{sc}', h_order(sc), numpy=False, prune=True)
        c.harness(f'grad-{sc}', h_grad(sc), numpy=False, prune=True)
    c.harness('pair', h_pair)
    c.harness('scale', h_scale)
    return c
