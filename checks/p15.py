"""P15: the categorical distribution is softmax(logits), in every one of its functions."""
import numpy as onp

from engine.harness import Check
from engine.jaxrng import with_draws


def dist(n, tau=None):
    import gymnasium
    from coax.proba_dists import CategoricalDist
    sp = gymnasium.spaces.Discrete(n)
    return CategoricalDist(sp) if tau is None else CategoricalDist(sp, gumbel_softmax_tau=tau)


def E(h, z):
    return [h.exp(v) for v in z]


def probs(h, z):
    e = E(h, z)
    t = sum(e[1:], e[0])
    return [v / t for v in e]


def logps(h, z):
    e = E(h, z)
    t = h.log(sum(e[1:], e[0]))
    return [v - t for v in z]


def logits(h, B, n, name='z', r=6):
    return h.reals(name, (B, n), -r, r)


def h_basic(B, n):
    def f(h):
        d = dist(n)
        z = logits(h, B, n)
        m = h.jax(d.mean, {'logits': z})
        x = h.reals('x', (B, n), 0, 1)
        lp = h.jax(d.log_proba, {'logits': z}, x)
        H = h.jax(d.entropy, {'logits': z})
        h.check(m.shape == (B, n) and lp.shape == (B,) and H.shape == (B,), 'shapes')
        for b in range(B):
            p, q = probs(h, z[b]), logps(h, z[b])
            for k in range(n):
                h.check_eq(m[b, k], p[k], 'mean is the vector of probabilities')
                h.check(h.and_(m[b, k] >= 0, m[b, k] <= 1), 'probability in [0, 1]')
            h.check_eq(sum(m[b]), 1, 'probabilities add up to one')
            h.check_eq(lp[b], sum(x[b, k] * q[k] for k in range(n)), 'log_proba of a soft variate')
            h.check_eq(H[b], -sum(p[k] * q[k] for k in range(n)), 'entropy')
        h.witness(f'basic-{B}-{n}')
    return f


def h_onehot(n, B):
    """ log_proba of preprocessed actions is log p(a); its gradient is onehot(a) - p """
    def f(h):
        import jax
        d = dist(n)
        z = logits(h, B, n)
        a = h.ints('a', (B,), 0, n - 1)
        acts = [int(v) for v in a]
        X = d.preprocess_variate(None, onp.array(acts))
        h.check(X.shape == (B, n), 'one-hot shape')
        for b in range(B):
            for k in range(n):
                h.check_eq(X[b, k], 1 if k == acts[b] else 0, 'one-hot')
        if B == 1:
            h.check_eq(d.preprocess_variate(None, acts[0]), X, 'a single action gets a batch axis')
        X = onp.asarray(X)
        lp = h.jax(lambda z: d.log_proba({'logits': z}, X), z)
        g = h.jax(jax.grad(lambda z: d.log_proba({'logits': z}, X).sum()), z)
        for b in range(B):
            h.check_eq(lp[b], logps(h, z[b])[acts[b]], 'log-probability of the action')
            p = probs(h, z[b])
            for k in range(n):
                h.check_eq(g[b, k], (1 if k == acts[b] else 0) - p[k], 'score function')
        out = d.postprocess_variate(h.key(), X, batch_mode=True)
        h.check([int(v) for v in out] == acts, 'postprocessing undoes preprocessing')
        for b in range(B):
            one = d.postprocess_variate(h.key(), X, index=b)
            h.check(one == acts[b] and d.space.contains(one), 'single variate at an index')
        h.witness(f'onehot-{n}-{B}')
    return f


def h_pair(B, n):
    def f(h):
        d = dist(n)
        zp, zq = logits(h, B, n, 'p'), logits(h, B, n, 'q')
        P, Q = {'logits': zp}, {'logits': zq}
        ce, kl = h.jax(d.cross_entropy, P, Q), h.jax(d.kl_divergence, P, Q)
        H, self_kl = h.jax(d.entropy, P), h.jax(d.kl_divergence, P, P)
        h.check(ce.shape == (B,) and kl.shape == (B,), 'shapes')
        for b in range(B):
            p, lp, lq = probs(h, zp[b]), logps(h, zp[b]), logps(h, zq[b])
            h.check_eq(ce[b], -sum(p[k] * lq[k] for k in range(n)), 'cross entropy')
            h.check_eq(kl[b], sum(p[k] * (lp[k] - lq[k]) for k in range(n)), 'KL divergence')
            h.check_eq(ce[b], H[b] + kl[b], 'cross entropy = entropy + KL')
            h.check_eq(self_kl[b], 0, 'KL of a distribution with itself')
        h.witness(f'pair-{B}-{n}')
    return f


def h_shift(n):
    """ only differences of logits matter """
    def f(h):
        d = dist(n)
        z, c = logits(h, 1, n), h.real('c', -5, 5)
        z2 = h.arr([[v + c for v in z[0]]])
        for nm in ('mean', 'entropy', 'mode'):
            a, b = (h.jax(getattr(d, nm), {'logits': v}) for v in (z, z2))
            h.check_eq(a, b, f'{nm} is invariant under a shift of all logits')
        h.witness(f'shift-{n}')
    return f


def h_mode(n, tau, k):
    """ mode: softmax(log p / tau); k = 1/tau """
    def f(h):
        d = dist(n, tau)
        z = logits(h, 2, n)
        m = h.jax(d.mode, {'logits': z})
        h.check_eq(d.hyperparams['gumbel_softmax_tau'], h.num(tau), 'hyperparams')
        for b in range(2):
            p = probs(h, z[b])
            e = [h.pow(v, k) for v in p]
            for i in range(n):
                h.check_eq(m[b, i], e[i] / sum(e[1:], e[0]), 'mode')
        h.witness(f'mode-{n}-{tau}')
    return f


def h_sample(n, tau, k, B=1):
    def f(h):
        d = dist(n, tau)
        z = logits(h, B, n, r=3)
        g = h.reals('g', (B, n), -1.5, 5)
        x = h.jax(with_draws(lambda z: d.sample({'logits': z}, h.key())), {'g': [g]}, z)
        h.check(x.shape == (B, n), 'shape')
        for b in range(B):
            p = probs(h, z[b])
            e = [h.pow(p[i] * h.exp(g[b, i]), k) for i in range(n)]
            for i in range(n):
                h.check_eq(x[b, i], e[i] / sum(e[1:], e[0]), 'Gumbel-softmax sample', tol=1e-2)
        h.witness(f'sample-{n}-{tau}')
    return f


def h_choose(n, what):
    """ the action that is played: the Gumbel-max choice, resp. a most likely action """
    def f(h):
        d = dist(n, 1.0)
        z = logits(h, 1, n, r=3)
        g = h.reals('g', (1, n), -4, 16)
        if what == 'mode':
            fn = with_draws(lambda z: d.postprocess_variate(
                h.key(), d.mode({'logits': z}), batch_mode=True))
            a = h.jax(fn, {'g': [g]}, z)
            score = h.exp(z[0])
        else:
            v = h.reals('v', (1, n), -1.5, 5)
            fn = with_draws(lambda z: d.postprocess_variate(
                h.key(), d.sample({'logits': z}, h.key()), batch_mode=True))
            a = h.jax(fn, {'g': [v, g]}, z)
            score = [h.exp(z[0, i] + v[0, i]) for i in range(n)]
        a = a[0]
        h.check(h.and_(a >= 0, a < n), 'a member of the space')
        for i in range(n):
            for j in range(n):
                if i != j:
                    lim = score[i] * h.num(1.015625)
                    h.check(h.implies(h.eq(a, i) if h.symbolic else int(a) == i,
                                      score[j] <= lim), f'{what} plays a maximal action')
        h.witness(f'choose-{n}-{what}')
    return f


def h_default(n):
    def f(h):
        d = dist(n)
        h.check_eq(h.num(float(d.gumbel_softmax_tau)), h.num(0.2), 'default temperature')
        pri = d.default_priors
        h.check(pri['logits'].shape == (1, n), 'prior has one row')
        m = onp.asarray(d.mean(pri))
        h.check_eq(m, onp.full((1, n), 1. / n), 'the default prior is uniform')
        try:
            d.affine_transform(pri, 1., 0.)
            h.check(False, 'affine_transform is refused')
        except NotImplementedError:
            pass
    return f


def build(tier):
    c = Check('P15', bounds={
        'classes': '2 to 4', 'batch': '1 to 3', 'logits': 'reals in [-6, 6]',
        'temperatures': '0.2, 0.5 and 1', 'draws': 'Gumbel draws in [-1.5, 5] (sampling) and [-4, 16] (tie-breaking)'},
        assumptions=['random draws are arbitrary values of their range, in place of jax.random',
                     'Discrete spaces start at 0'])
    sizes = [(1, 2), (2, 2), (2, 3), (1, 4)] + ([(3, 3), (2, 4), (1, 5)] if tier == 'thorough' else [])
    for B, n in sizes:
        c.harness(f'basic-{B}-{n}', h_basic(B, n), numpy=False)
        c.harness(f'pair-{B}-{n}', h_pair(B, n), numpy=False)
    for n, B in ((2, 1), (3, 2), (4, 1)):
        c.harness(f'onehot-{n}-{B}', h_onehot(n, B), numpy=False, conc=10)
    for n in (2, 3):
        c.harness(f'shift-{n}', h_shift(n), numpy=False)
        for tau, k in ((0.2, 5), (0.5, 2), (1.0, 1)):
            c.harness(f'mode-{n}-{tau}', h_mode(n, tau, k), numpy=False)
            c.harness(f'sample-{n}-{tau}', h_sample(n, tau, k, 2 if k < 5 else 1), numpy=False)
        c.harness(f'default-{n}', h_default(n), numpy=False, conc=2)
        for what in ('mode', 'sample'):
            c.harness(f'choose-{n}-{what}', h_choose(n, what), numpy=False)
    return c
