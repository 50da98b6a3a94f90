"""P17: distributional value targets: the categorical projection and the quantile shift."""
import numpy as onp

from engine.harness import Check
from engine.jaxrng import with_draws


def ddist(low, high, bins, shape=()):
    import gymnasium
    from coax.proba_dists import DiscretizedIntervalDist
    return DiscretizedIntervalDist(
        gymnasium.spaces.Box(low=onp.float32(low), high=onp.float32(high), shape=shape), bins)


def probs(h, z):
    e = [h.exp(v) for v in z]
    t = sum(e[1:], e[0])
    return [v / t for v in e]


def locate(h, b, n):
    """ position b in [0, n-1] -> [(index, weight)]: the path fixes the neighbouring atoms """
    for k in range(n):
        if bool(b == k) if h.symbolic else abs(float(b) - k) < 1e-9:
            return [(k, 1)]
        if bool(b < k):
            return [(k - 1, k - b), (k, b - (k - 1))]
    return [(n - 1, 1)]


def h_project(low, high, n, B, scalar, vt=None):
    def f(h):
        d = ddist(low, high, n)
        z = h.reals('z', (B, n), -3, 3)
        if scalar:
            c, s = h.real('scale', 0, 1.5), h.real('shift', -3, 3)
            cs = [(c, s)] * B
        else:
            c, s = h.reals('scale', (B,), 0, 1.5), h.reals('shift', (B,), -3, 3)
            cs = [(c[b], s[b]) for b in range(B)]
        width = (h.num(float(high)) - h.num(float(low))) / n
        atoms = [h.num(float(low)) + (2 * k + 1) * width / 2 for k in range(n)]
        h.check_eq(onp.asarray(d.atoms), [float(a) for a in atoms], 'atoms are the bin centres')
        tr = vt() if vt else None
        fwd, bwd = tr if vt else (lambda x: x, lambda x: x)
        want = []
        for b in range(B):
            p, m = probs(h, z[b]), [0] * n
            for k in range(n):
                t = fwd(cs[b][0] * bwd(atoms[k]) + cs[b][1])
                t = atoms[0] if bool(t <= atoms[0]) else atoms[-1] if bool(t >= atoms[-1]) else t
                for j, w in locate(h, (t - atoms[0]) / width, n):
                    m[j] = m[j] + p[k] * w
            want.append(m)
        out = h.jax(lambda z, c, s: jax_exp(d.affine_transform({'logits': z}, c, s, tr)), z, c, s)
        h.check(out.shape == (B, n), 'shape')
        for b in range(B):
            for j in range(n):
                h.check_near(out[b, j], want[b][j], 'projected probability', tol=1e-6)
            h.check_near(sum(out[b]), 1, 'no probability is lost', tol=1e-6)
        h.witness(f'project-{low}-{high}-{n}-{B}-{scalar}')
    return f


def jax_exp(params):
    import jax.numpy as jnp
    return jnp.exp(params['logits'])


def h_identity(low, high, n):
    """ scale 1, shift 0 changes nothing; a terminal target puts everything on the reward """
    def f(h):
        d = ddist(low, high, n)
        z = h.reals('z', (1, n), -3, 3)
        out = h.jax(lambda z: d.mean(d.affine_transform({'logits': z}, onp.float32(1), onp.float32(0))), z)
        p = probs(h, z[0])
        for k in range(n):
            h.check_near(out[0, k], p[k], 'identity', tol=1e-6)
        atoms = onp.asarray(d.atoms)
        for k in (0, n // 2, n - 1):
            r = h.jax(lambda z: d.mean(d.affine_transform(
                {'logits': z}, jnp32([0.]), jnp32([atoms[k]]))), z)
            for j in range(n):
                h.check_near(r[0, j], 1 if j == k else 0, 'terminal target', tol=1e-4)
        h.witness(f'identity-{n}')
    return f


def jnp32(x):
    return onp.asarray(x, 'float32')


def h_mean(low, high, n):
    """ the projection keeps the expected value while nothing is clipped """
    def f(h):
        d = ddist(low, high, n)
        z = h.reals('z', (1, n), -3, 3)
        c, s = h.real('scale', 0.25, 1), h.real('shift', -1, 1)
        width = (h.num(float(high)) - h.num(float(low))) / n
        atoms = [h.num(float(low)) + (2 * k + 1) * width / 2 for k in range(n)]
        for a in (atoms[0], atoms[-1]):
            h.assume(h.and_(c * a + s >= atoms[0], c * a + s <= atoms[-1]))
        h.feasible()
        p = probs(h, z[0])
        for k in range(n):
            locate(h, (c * atoms[k] + s - atoms[0]) / width, n)
        out = h.jax(lambda z, c, s: d.postprocess_variate(
            None, jax_exp(d.affine_transform({'logits': z}, c, s))), z, c, s)
        h.check_near(out, c * sum(p[k] * atoms[k] for k in range(n)) + s, 'expected value', tol=1e-4)
        h.witness(f'mean-{low}-{high}-{n}')
    return f


def h_variates(low, high, n, shape):
    def f(h):
        d = ddist(low, high, n, shape)
        width = (high - low) / n
        x = h.reals('x', (2,), low, high)
        oh = h.jax(lambda v: d.preprocess_variate(None, v), x)
        back = h.jax(lambda v: d.postprocess_variate(
            None, d.preprocess_variate(None, v), batch_mode=True), x)
        h.check(oh.shape == (2, n) and back.shape == (2,), 'shapes')
        for b in range(2):
            h.check_eq(sum(oh[b]), 1, 'exactly one bin')
            for k in range(n):
                l, u = h.num(low + k * width), h.num(low + (k + 1) * width)
                if h.symbolic:
                    inbin = h.and_(x[b] >= l, h.or_(x[b] < u, k == n - 1))
                    h.check(h.implies(inbin, h.eq(oh[b, k], 1)), 'the bin that contains the value')
            h.check(h.and_(back[b] - x[b] <= h.num(width / 2 + 1e-6),
                           x[b] - back[b] <= h.num(width / 2 + 1e-6)),
                    'round trip is off by at most half a bin')
        one = h.jax(lambda v: d.preprocess_variate(None, v), x[0])
        h.check(one.shape == (1, n), 'a single value gets a batch axis')
        X = h.reals('X', (2, n), 0, 1)
        v = h.jax(lambda X: d.postprocess_variate(None, X, batch_mode=True), X)
        w = h.jax(lambda X: d.postprocess_variate(None, X, index=1), X)
        for b in range(2):
            h.check_near(v[b], sum(X[b, k] * h.num(low + (k + 0.5) * width) for k in range(n)),
                         'expected value of the bin centres')
        h.check_eq(w, v[1], 'index')
        h.witness(f'variates-{low}-{high}-{n}-{shape}')
    return f


def h_quantile(B, n, scalar, vt=None):
    def f(h):
        from coax.proba_dists import EmpiricalQuantileDist
        d = EmpiricalQuantileDist(n)
        P = {'values': h.reals('v', (B, n), -5, 5), 'quantile_fractions': h.reals('q', (B, n), 0, 1)}
        if scalar:
            c, s = h.real('scale', 0, 2), h.real('shift', -3, 3)
        else:
            c, s = h.reals('scale', (B,), 0, 2), h.reals('shift', (B,), -3, 3)
        tr = vt() if vt else None
        fwd, bwd = tr if vt else (lambda x: x, lambda x: x)
        Q = h.jax(lambda P, c, s: d.affine_transform(P, c, s, tr), P, c, s)
        m = h.jax(d.mean, P)
        h.check_eq(Q['quantile_fractions'], P['quantile_fractions'], 'fractions are kept')
        h.check(Q['values'].shape == (B, n) and m.shape == (B,), 'shapes')
        for b in range(B):
            cb, sb = (c, s) if scalar else (c[b], s[b])
            for k in range(n):
                h.check_eq(Q['values'][b, k], fwd(cb * bwd(P['values'][b, k]) + sb), 'shifted quantile')
            h.check_eq(m[b], sum(P['values'][b]) / n, 'mean of the quantiles')
        h.witness(f'quantile-{B}-{n}-{scalar}')
    return f


def h_fractions(B, n):
    def f(h):
        from coax.utils import quantiles, quantiles_uniform
        q = onp.asarray(quantiles(B, n))
        h.check(q.shape == (B, n), 'shape')
        for b in range(B):
            for k in range(n):
                h.check_eq(q[b, k], k / n, 'equally spaced')
        u = h.reals('u', (B, n), 0.0625, 1)
        r = h.jax(with_draws(lambda: quantiles_uniform(h.key(), B, n)), {'u': [u]})
        for b in range(B):
            tot = sum(u[b])
            for k in range(n):
                h.check_eq(r[b, k], sum(u[b][:k + 1]) / tot, 'cumulated normalised draws')
                h.check_le(0 if k == 0 else r[b, k - 1], r[b, k], 'increasing')
            h.check_eq(r[b, -1], 1, 'ends at one')
        h.witness(f'fractions-{B}-{n}')
    return f


def lin():
    from coax.value_transforms import ValueTransform
    return ValueTransform(lambda x: x / 2 + 1, lambda y: (y - 1) * 2)


def build(tier):
    T = tier == 'thorough'
    c = Check('P17', bounds={
        'discretized interval': '2 to 4 bins on [0, 3], [-1, 1], [-2, 2], batch <= 2; logits in [-3, 3], '
                                'scale in [0, 1.5], shift in [-3, 3]; identity and terminal targets with 20 bins',
        'quantiles': '1 to 3 quantiles, batch <= 2', 'value transform': 'none or an affine pair'},
        assumptions=['random draws are arbitrary values of their range, in place of jax.random'])
    J = dict(numpy=False, prune=True)
    c.harness('project-2', h_project(0, 2, 2, 1, True), **J)
    c.harness('project-3', h_project(0, 3, 3, 1, False), **J)
    c.harness('project-3b', h_project(-1.5, 1.5, 3, 1, True), **J)
    c.harness('project-vt', h_project(-2, 2, 2, 1, False, lin), **J)
    c.harness('project-2x2', h_project(-1, 1, 2, 2, False), **J)
    if T:
        c.harness('project-4', h_project(-2, 2, 4, 1, True), budget_s=600, **J)
        c.harness('project-3vt', h_project(0, 3, 3, 1, True, lin), budget_s=600, **J)
        c.harness('project-3x2', h_project(-1.5, 1.5, 3, 2, True), budget_s=600, **J)
    c.harness('identity-20', h_identity(-10, 10, 20), **J)
    c.harness('identity-3', h_identity(0, 3, 3), **J)
    c.harness('mean-2', h_mean(-1, 1, 2), **J)
    c.harness('mean-3', h_mean(0, 3, 3), **J)
    for low, high, n, sh in ((0, 2, 2, ()), (-1.5, 1.5, 3, (1,)), (-2., 2., 4, ())):
        c.harness(f'variates-{low}-{high}-{n}', h_variates(low, high, n, sh), numpy=False)
    for B, n, sc in ((1, 2, True), (2, 2, False), (2, 3, True), (1, 1, False), (2, 1, False)):
        c.harness(f'quantile-{B}-{n}-{sc}', h_quantile(B, n, sc), numpy=False)
    c.harness('quantile-vt', h_quantile(2, 2, False, lin), numpy=False)
    for B, n in ((1, 1), (2, 3), (1, 4)):
        c.harness(f'fractions-{B}-{n}', h_fractions(B, n), numpy=False, conc=5)
    return c
