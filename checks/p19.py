"""P19: loss functions compute the documented loss, its gradient, and its weighting."""
import numpy as onp

from engine.harness import Check


def hub(h, e, d):
    a = h.abs(e)
    return h.ite(a <= d, e * e / 2, d * a - d * d / 2)


def dhub(h, e, d):
    return h.min(h.max(e, -d), d)


def wmean(h, per, w):
    """ mean over all entries of w[i] * per[i, ...] """
    tot, n = 0, 0
    for i, row in enumerate(per):
        row = onp.asarray(row, dtype=object).reshape(-1)
        for v in row:
            tot = tot + (v if w is None else w[i] * v)
            n += 1
    return tot / n


def flat(x):
    return [x[i] for i in onp.ndindex(*x.shape)]


def emap(f, *xs):
    out = onp.empty(xs[0].shape, dtype=object)
    for i in onp.ndindex(*out.shape):
        out[i] = f(*[x[i] for x in xs])
    return out


def h_reg(kind, shape, weighted):
    def f(h):
        import jax
        from coax import value_losses as L
        y, p = h.reals('y', shape, -50, 50), h.reals('p', shape, -50, 50)
        w = h.reals('w', shape[:1], 0, 10) if weighted else None
        d = h.real('d', 0.0625, 20) if kind == 'huber' else None
        fn = getattr(L, kind)

        def call(y, p, *r):
            r = list(r)
            kw = {}
            if weighted:
                kw['w'] = r.pop(0)
            if d is not None:
                kw['delta'] = r.pop(0)
            return fn(y, p, **kw)
        args = [y, p] + ([w] if weighted else []) + ([d] if d is not None else [])
        got = h.jax(call, *args)
        grad = h.jax(jax.grad(call, argnums=1), *args)
        if kind == 'mse':
            per = emap(lambda a, b: (b - a) * (b - a) / 2, y, p)
            dper = emap(lambda a, b: b - a, y, p)
        else:
            per = emap(lambda a, b: hub(h, b - a, d), y, p)
            dper = emap(lambda a, b: dhub(h, b - a, d), y, p)
        h.check_eq(got, wmean(h, per, w), f'{kind}: loss', tol=1e-3)
        n = per.size
        for i in onp.ndindex(*shape):
            ww = w[i[0]] if weighted else 1
            h.check_eq(grad[i], ww * dper[i] / n, f'{kind}: gradient', tol=1e-3)
        h.witness(f'{kind}-{shape}-{weighted}')
    return f


def h_default_delta(h):
    from coax import value_losses as L
    y, p = h.reals('y', (2,), -5, 5), h.reals('p', (2,), -5, 5)
    got = h.jax(lambda a, b: L.huber(a, b), y, p)
    h.check_eq(got, wmean(h, emap(lambda a, b: hub(h, b - a, 1), y, p), None), 'default delta is 1')
    t = h.reals('t', (2, 2), 0, 1)
    y, p = h.reals('qy', (2, 2), -5, 5), h.reals('qp', (2, 2), -5, 5)
    a = h.jax(lambda y, p, t: L.quantile_huber(y, p, t), y, p, t)
    b = h.jax(lambda y, p, t: L.quantile_huber(y, p, t, None, 1.0), y, p, t)
    h.check_eq(a, b, 'default delta is 1 (quantile)')
    h.witness('default')


def h_log(shape, weighted):
    def f(h):
        from coax import value_losses as L
        y, p = h.reals('y', shape, 0, 1), h.reals('p', shape, 0.0625, 0.9375)
        w = h.reals('w', shape[:1], 0, 10) if weighted else None
        got = h.jax(lambda *a: L.logloss(*a), *([y, p] + ([w] if weighted else [])))
        per = emap(lambda a, b: -(a * h.log(b)) - (1 - a) * h.log(1 - b), y, p)
        h.check_eq(got, wmean(h, per, w), 'logloss')
        h.witness(f'log-{shape}-{weighted}')
    return f


def h_sign(shape, weighted):
    def f(h):
        from coax import value_losses as L
        s, z = h.reals('s', shape), h.reals('z', shape, -8, 8)
        for v in flat(s):
            h.assume(h.or_(v == 1, v == -1))
        if not h.symbolic:
            pass
        w = h.reals('w', shape[:1], 0, 10) if weighted else None
        got = h.jax(lambda *a: L.logloss_sign(*a), *([s, z] + ([w] if weighted else [])))
        per = emap(lambda a, b: h.log(1 + h.exp(-(a * b))), s, z)
        h.check_eq(got, wmean(h, per, w), 'logloss_sign')
        h.witness(f'sign-{shape}-{weighted}')
    return f


def h_sign_vs_log(h):
    """ logloss_sign(2y-1, z) == logloss(y, sigmoid(z)) for y in {0, 1} """
    import jax
    from coax import value_losses as L
    bits = [h.flag('b0'), h.flag('b1')]
    y = h.arr([h.num(1.0) if b else h.num(0.0) for b in bits])
    s = h.arr([h.num(1.0) if b else h.num(-1.0) for b in bits])
    z = h.reals('z', (2,), -6, 6)
    w = h.reals('w', (2,), 0, 5)
    a = h.jax(L.logloss_sign, s, z, w)
    b = h.jax(lambda y, z, w: L.logloss(y, jax.nn.sigmoid(z), w), y, z, w)
    per = [h.log(1 + h.exp(-z[i]) if bits[i] else 1 + h.exp(z[i])) for i in range(2)]
    want = (w[0] * per[0] + w[1] * per[1]) / 2
    h.check_eq(a, want, 'logloss_sign is the logistic loss', tol=1e-3)
    h.check_eq(b, want, 'logloss of the sigmoid is the logistic loss', tol=1e-3)
    h.witness('sign-vs-log')


def h_quant(B, N, M, weighted):
    def f(h):
        from coax import value_losses as L
        y, p = h.reals('y', (B, M), -20, 20), h.reals('p', (B, N), -20, 20)
        t = h.reals('t', (B, N), 0, 1)
        w = h.reals('w', (B,), 0, 10) if weighted else None
        d = h.real('d', 0.0625, 10)
        fn = (lambda y, p, t, d, w: L.quantile_huber(y, p, t, w, d)) if weighted else \
            (lambda y, p, t, d: L.quantile_huber(y, p, t, None, d))
        got = h.jax(fn, *([y, p, t, d] + ([w] if weighted else [])))
        tot = 0
        for b in range(B):
            for i in range(N):
                for j in range(M):
                    e = y[b, j] - p[b, i]
                    c = h.ite(e < 0, 1 - t[b, i], t[b, i])
                    v = c * hub(h, e, d) / d
                    tot = tot + (w[b] * v if weighted else v)
        h.check_eq(got, tot / (B * N), 'quantile_huber', tol=1e-3)
        h.witness(f'quant-{B}-{N}-{M}-{weighted}')
    return f


def build(tier):
    check = Check('P19', bounds={
        'regression losses': 'shapes (3,), (2, 2), (1,); predictions, targets in [-50, 50]; weights in '
                             '[0, 10]; delta in [1/16, 20]; loss and gradient w.r.t. the prediction',
        'logistic losses': 'shapes (3,), (2, 2); probabilities in [1/16, 15/16], logits in [-8, 8]',
        'quantile_huber': 'batch <= 2, <= 3 predicted and <= 3 target quantiles',
    }, assumptions=['weights are a rank-1 array of batch size, as the functions require'])
    for kind in ('mse', 'huber'):
        for shape in ((3,), (2, 2), (1,)):
            for wt in (False, True):
                check.harness(f'{kind}-{shape}-{wt}', h_reg(kind, shape, wt), numpy=False)
    for shape in ((3,), (2, 2)):
        for wt in (False, True):
            check.harness(f'logloss-{shape}-{wt}', h_log(shape, wt), numpy=False)
            check.harness(f'logloss_sign-{shape}-{wt}', h_sign(shape, wt), numpy=False, conc=10)
    check.harness('sign-vs-log', h_sign_vs_log, numpy=False)
    check.harness('defaults', h_default_delta, numpy=False)
    for B, N, M, wt, th in ((1, 2, 2, False, 0), (2, 1, 2, True, 0), (2, 2, 1, True, 0), (1, 3, 2, True, 1), (2, 2, 2, True, 1)):
        check.harness(f'quantile-{B}{N}{M}{wt}', h_quant(B, N, M, wt), numpy=False, thorough=bool(th))
    return check
