"""P28: a model update is one gradient step on the weighted loss of what actually happened."""
import numpy as onp

from engine.harness import Check
from engine.jaxrng import with_draws
from . import fa
from .p13 import logsoftmax, stubs
from .p21 import raw, table, transform

B, NA, LR = 2, 2, 0.5
PAT = [([0, 1], [1, 0], [2, 0]), ([2, 2], [0, 0], [1, 2]), ([2, 2], [0, 1], [1, 1])]
PAT2 = [([0, 1], [1, 0], [1, 0]), ([1, 1], [0, 0], [0, 1]), ([1, 1], [0, 1], [1, 1])]


def fwd(tr, x):
    return {'affine': lambda: 2 * x + 1, 'own': lambda: -4 * x}.get(tr, lambda: x)()


def setup(h, pat, ns=3, w=None):
    S, A, Sn = [onp.array(x) for x in (PAT2 if ns == 2 else PAT)[pat]]
    rg = [(0, 1), (1, 2), (2, 0), (1, 1)][h.choice('wregion', 0, 3) if w is None else w]
    d = {'Rn': h.reals('Rn', (B,), -3, 3), 'In': h.reals('In', (B,), 0, 1),
         'logP': h.reals('logP', (B,), -5, 0),
         'W': h.arr([h.real(f'W{i}', *[(0, 0.1), (0.1, 10), (10, 30)][rg[i]]) for i in range(B)])}
    Wc = [[h.num(0.1), d['W'][i], 10][rg[i]] for i in range(B)]
    return S, A, Sn, d, Wc


def finish(h, sym, u, g, d, S, A, Sn, draws=None, loss=None, bare=None):
    def go(d, S, A, Sn):
        m = u.update(fa.batch(d, S, A, Sn))
        return u.model.params, u.model.function_state, {
            k: m[f'ModelUpdater/{k}'] for k in ('loss', 'loss_bare')}
    with stubs(h):
        if draws:
            p, st, m = fa.call(h, [sym], with_draws(go), draws, d, S, A, Sn)
        else:
            p, st, m = fa.call(h, [sym], go, d, S, A, Sn)
    new = fa.grad_of(p)
    for k, v in sym.p.items():
        for ix in (onp.ndindex(*onp.shape(v)) if onp.shape(v) else [()]):
            got, old, gv = (new[k][ix], v[ix], g[k][ix]) if ix else (new[k], v, g[k])
            h.check_eq(got, old - h.num(LR) * gv, f'one gradient step: parameter {k}{ix}')
    h.check_eq(fa.state_of(st), sym.b + 1, 'function state of one training pass')
    h.check_eq(m['loss_bare'], bare, 'reported loss without regularization')
    h.check_eq(m['loss'], bare if loss is None else loss, 'reported loss')


def lossf(name):
    from coax import value_losses as L
    return {None: None, 'mse': L.mse}[name]


def terms(h, name, y, t):
    """ loss of one entry and its derivative """
    e = y - t
    if name == 'mse':
        return e * e / 2, e
    return fa.hub(h, e), fa.dhub(h, e)


def h_reward(kind, tr, loss=None, pat=0):
    """ deterministic reward function """
    def fn(h):
        import coax
        import optax
        e = fa.env(NA)
        r = (fa.q1 if kind == 1 else fa.q2)(e, cls=coax.RewardFunction,
                                            value_transform=transform(tr))
        sr = fa.Sym(h, 'r', r, -4, 4)
        u = coax.model_updaters.ModelUpdater(r, optimizer=optax.sgd(LR), loss_function=lossf(loss))
        S, A, Sn, d, Wc = setup(h, pat)
        g = {k: onp.zeros(onp.shape(v), dtype=object) if onp.shape(v) else 0
             for k, v in sr.p.items()}
        tot = 0
        for i in range(B):
            l, dl = terms(h, loss, sr.q(S[i], A[i], True), fwd(tr, d['Rn'][i]))
            tot = tot + Wc[i] * l / h.num(B)
            g['w'][S[i], A[i]] = g['w'][S[i], A[i]] + Wc[i] * dl / h.num(B)
            g['d'] = g['d'] + Wc[i] * dl / h.num(B)
        finish(h, sr, u, g, d, S, A, Sn, bare=tot)
    return fn


def h_trans(kind, loss=None, pat=0, ns=4, w=None):
    """ deterministic transition model: rows of the table against the next state (one-hot) """
    def fn(h):
        import coax
        import optax
        e = fa.env(NA, ns)
        p = raw(e, coax.TransitionModel, kind)
        sp = fa.Sym(h, 'p', p, -4, 4)
        u = coax.model_updaters.ModelUpdater(p, optimizer=optax.sgd(LR), loss_function=lossf(loss))
        S, A, Sn, d, Wc = setup(h, pat, ns, w)
        g = {k: onp.zeros(onp.shape(v), dtype=object) if onp.shape(v) else 0
             for k, v in sp.p.items()}
        tot = 0
        for i in range(B):
            z = sp.dist(S[i], A[i], True)
            for k in range(ns):
                l, dl = terms(h, loss, z[k], 1 if k == Sn[i] else 0)
                c = Wc[i] / h.num(ns * B)
                tot = tot + c * l
                g['w'][S[i], A[i], k] = g['w'][S[i], A[i], k] + c * dl
                if k == 0:
                    g['d'] = g['d'] + c * dl
        finish(h, sp, u, g, d, S, A, Sn, bare=tot)
    return fn


def h_stoch(which, kind, reg=None, pat=0, tr=None, w=1):
    """ stochastic model: the Gumbel-softmax sample against what happened """
    def fn(h):
        import coax
        import gymnasium
        import optax
        from coax.proba_dists import CategoricalDist
        ns = 2 if which == 'p' else 3
        e = fa.env(NA, ns)
        k_ = h.num(5)
        if which == 'p':
            k_ = h.num(1)
            p = table(e, coax.StochasticTransitionModel, f'q{kind}', nb=2, proba_dist=CategoricalDist(
                gymnasium.spaces.Discrete(2), gumbel_softmax_tau=1.))
        else:
            p = table(e, coax.StochasticRewardFunction, f'q{kind}', nb=2, num_bins=2,
                      value_range=(-2, 2), value_transform=transform(tr))
        n = 2
        sp = fa.Sym(h, 'p', p, -2, 2)
        R = None
        beta = h.num(0.5)
        if reg == 'entropy':
            R = coax.regularizers.EntropyRegularizer(p, beta=0.5)
        elif reg == 'kl':
            R = coax.regularizers.KLDivRegularizer(p, beta=0.5)
        u = coax.model_updaters.ModelUpdater(p, optimizer=optax.sgd(LR), loss_function=lossf('mse'),
                                             regularizer=R)
        S, A, Sn, d, Wc = setup(h, pat, ns, w)
        if which == 'r':
            # which half of the (transformed) range the reward falls in; beyond: clipped
            b = h.choice('bin', 0, 1)
            bins = [b, 1 - b]
            rn = [h.real(f'R{i}', *[(-3, -0.0625), (0.0625, 3)][bins[i]]) for i in range(B)]
            d['Rn'] = h.arr(rn)
        gum = h.reals('gum', (B, n), -1, 1)
        g = {k: onp.zeros(onp.shape(v), dtype=object) if onp.shape(v) else 0
             for k, v in sp.p.items()}
        tot, rtot = 0, 0
        for i in range(B):
            z = sp.dist(S[i], A[i], True)
            m = 0
            for j in range(1, n):
                if not bool(z[m] >= z[j]):
                    m = j
            y = [k_ * (z[k] + gum[i, k]) for k in range(n)]
            m = 0
            for j in range(1, n):
                if not bool(y[m] >= y[j]):
                    m = j
            x = logsoftmax(h, y)[1]
            t = [1 if k == (Sn[i] if which == 'p' else bins[i]) else 0 for k in range(n)]
            c = Wc[i] / h.num(B * n)
            tot = tot + c * sum((x[k] - t[k]) * (x[k] - t[k]) for k in range(n)) / 2
            s = sum((x[k] - t[k]) * x[k] for k in range(n))
            dz = [c * k_ * x[k] * (x[k] - t[k] - s) for k in range(n)]
            if reg:
                l, pr = logsoftmax(h, z)
                H = -sum(a * b for a, b in zip(l, pr))
                c = Wc[i] / h.num(B)
                rtot = rtot + c * (-beta * H if reg == 'entropy' else beta * (h.log(n) - H))
                dz = [a + c * beta * q * (v + H) for a, q, v in zip(dz, pr, l)]
            for k in range(n):
                g['w'][S[i], A[i], k] = g['w'][S[i], A[i], k] + dz[k]
            g['d'] = g['d'] + dz[0]
        finish(h, sp, u, g, d, S, A, Sn, {'g': [gum]}, tot + rtot, tot)
    return fn


def build(tier):
    th = tier == 'thorough'
    c = Check('P28', bounds={
        'batch': B, 'states': 3, 'actions': 2, 'atoms': '2', 'optimizer': 'sgd',
        'parameters, state, rewards, W, draws': 'all reals within +-4, +-3, [0,30], +-1'},
        assumptions=['models are tables over states and actions',
                     'gradients are not NaN (real arithmetic)'])
    J = dict(numpy=False, prune=True, cases=True, conc=4, budget_s=300)
    for kind in (1, 2):
        for tr in (None, 'affine', 'own'):
            c.harness(f'r{kind}-{tr}', h_reward(kind, tr, pat=kind), **J)
        c.harness(f'r{kind}-mse', h_reward(kind, 'affine', 'mse'), **J)
        c.harness(f'p{kind}', h_trans(kind, 'mse', pat=kind), **J)
        c.harness(f'sp{kind}', h_stoch('p', kind, pat=0), **J)
        c.harness(f'sr{kind}', h_stoch('r', kind, pat=1), **J)
    c.harness('p1-huber', h_trans(1, None, 0, 2, 1), **J)
    c.harness('sr-affine', h_stoch('r', 1, None, 1, 'affine', 2), **J)
    for reg in ('entropy', 'kl'):
        c.harness(f'sr-{reg}', h_stoch('r', 1, reg, 1), **J)
        c.harness(f'sp-{reg}', h_stoch('p', 1, reg, 2), **J)
    if th:
        for pat in (0, 2):
            for w in range(4):
                for which in 'pr':
                    c.harness(f's{which}-pat{pat}-w{w}', h_stoch(which, 1 + w % 2, None, pat, None, w), **dict(J, budget_s=900))
    return c
