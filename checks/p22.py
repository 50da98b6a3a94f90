"""P22: value-based and random policies draw from exactly the documented distribution."""
import math

import numpy as onp

from engine.harness import Check
from engine.jaxrng import with_draws
from . import fa
from .p09 import box
from .p21 import NB, table, transform, untouched

SS = onp.array([2, 0])


def make_q(e, kind, tr=None):
    import coax
    if kind in ('q1', 'q2'):
        return getattr(fa, kind)(e, value_transform=transform(tr))
    if kind in ('s1', 's2'):
        return table(e, coax.StochasticQ, 'q' + kind[1], num_bins=NB, value_range=(-2, 2))
    return table(e, coax.StochasticQ, 'q' + kind[1], 'values', num_bins=NB)


def values(h, q, sq, kind, s, na):
    """ the values q(s, .) the policy is derived from (raw network output) """
    if kind in ('q1', 'q2'):
        return [sq.q(s, a) for a in range(na)]
    if kind in ('u1', 'u2'):
        return [sum(sq.dist(s, a)[1:], sq.dist(s, a)[0]) / NB for a in range(na)]

    def go(z):
        return q.proba_dist.postprocess_variate(h.key(), q.proba_dist.mean(z), batch_mode=True)
    return [h.jax(go, {'logits': h.arr([sq.dist(s, a)])})[0] for a in range(na)]


def greedy(h, v):
    """ fork: the set of greedy actions """
    best = [0]
    for j in range(1, len(v)):
        m = v[best[0]]
        if bool(v[j] > m):
            best = [j]
        elif bool(v[j] >= m):
            best.append(j)
    return best


def h_eps(kind, na=2, tr=None):
    def fn(h):
        import coax
        e = fa.env(na)
        q = make_q(e, kind, tr)
        sq = fa.Sym(h, 'q', q, -2, 2)
        pi = coax.EpsilonGreedy(q, epsilon=0.75)
        eps = h.real('eps', 0, 1)
        v = [values(h, q, sq, kind, s, na) for s in SS]
        best = [greedy(h, x) for x in v]

        def go(eps, S):
            pi.epsilon = eps       # may be changed at any time (e.g. annealed)
            try:
                S = pi.observation_preprocessor(pi.rng, S)
                return pi.function(pi.params, pi.function_state, pi.rng, S, True)[0], \
                    pi.function(pi.params, pi.function_state, pi.rng, S, False)[0]
            finally:
                pi.epsilon = 0.75
        for t, z in enumerate(fa.call(h, [sq], go, eps, SS)):
            z = z['logits']
            h.check(z.shape == (2, na), 'shape')
            for i in range(2):
                k = len(best[i])
                for a in range(na):
                    p = eps / na + ((1 - eps) / k if a in best[i] else 0)
                    h.check_near(h.exp(z[i, a]), p, 'probability of an action')
    return fn


def h_boltz(kind, na=2, tr=None):
    def fn(h):
        import coax
        e = fa.env(na)
        q = make_q(e, kind, tr)
        sq = fa.Sym(h, 'q', q, -2, 2)
        pi = coax.BoltzmannPolicy(q, temperature=0.75)
        tau = h.real('tau', 0.125, 8)
        v = [values(h, q, sq, kind, s, na) for s in SS]

        def go(tau, S):
            pi.temperature = tau
            try:
                S = pi.observation_preprocessor(pi.rng, S)
                return pi.function(pi.params, pi.function_state, pi.rng, S, True)[0], \
                    pi.function(pi.params, pi.function_state, pi.rng, S, False)[0]
            finally:
                pi.temperature = 0.75
        for z in fa.call(h, [sq], go, tau, SS):
            z = z['logits']
            h.check(z.shape == (2, na), 'shape')
            for i in range(2):
                for a in range(1, na):     # only differences of logits count
                    h.check_eq((z[i, a] - z[i, 0]) * tau, v[i][a] - v[i][0], 'logits')
    return fn


def h_use(cls, kind, na=2):
    """ calls, mode, mean and dist_params of the policy are those of its distribution """
    def fn(h):
        import coax
        e = fa.env(na)
        q = make_q(e, kind)
        sq = fa.Sym(h, 'q', q, -2, 2)
        pi = getattr(coax, cls)(q, 0.5)
        s = 1
        v = values(h, q, sq, kind, s, na)
        b = greedy(h, v)
        if len(b) == 1:
            for j in range(na):
                if j != b[0]:
                    h.assume(v[b[0]] - v[j] >= h.num(0.125))
        flags = []

        def go(fn):
            def g():
                r, ok = untouched(q, fn)
                flags.append(ok)
                return r
            return with_draws(g)
        z = fa.ask(h, [sq], go(lambda: pi.dist_params(s)), {})['logits']
        h.check(z.shape == (na,), 'dist_params of a single state')
        for a in range(1, na):
            if cls == 'BoltzmannPolicy':
                h.check_eq(z[a] - z[0], 2 * (v[a] - v[0]), 'logits')
            else:
                for a in range(na):
                    p = h.num(0.5) / na + (h.num(0.5) / len(b) if a in b else 0)
                    h.check_near(h.exp(z[a]), p, 'probability')
        g, t = h.reals('g', (1, na), -1.5, 5), h.reals('t', (1, na), -4, 16)
        D = pi.proba_dist

        def want(m, draws):
            def f(z):
                X = D.sample(z, h.key()) if m == 'sample' else getattr(D, m)(z)
                return D.postprocess_variate(h.key(), X, batch_mode=True)[0], D.log_proba(z, X)[0]
            return h.jax(with_draws(f), draws, {'logits': h.arr([list(z)])})
        for m in ('mean', 'mode'):
            r = fa.ask(h, [sq], go(lambda: getattr(pi, m)(s)), {'g': [t]})
            h.check(onp.shape(r) == (), 'a single action')
            h.check_eq(r, want(m, {'g': [t]})[0], m)
        a, lp = fa.ask(h, [sq], go(lambda: pi(s, return_logp=True)), {'g': [g, t]})
        a2 = fa.ask(h, [sq], go(lambda: pi(s)), {'g': [g, t]})
        wa, wl = want('sample', {'g': [g, t]})
        h.check_eq(a, wa, 'action')
        h.check_eq(lp, wl, 'log-propensity of the variate')
        h.check_eq(a2, a, 'action without log-propensity')
        h.check(all(flags), 'a call leaves parameters and state alone')
    return fn


def same(a, b):
    import jax
    a, b = (jax.tree_util.tree_flatten(x) for x in (a, b))
    return a[1] == b[1] and all(x is y for x, y in zip(a[0], b[0]))


def h_params(cls, kind):
    """ the policy exposes and accepts the parameters it is derived from """
    def fn(h):
        import coax
        e = fa.env(2)
        q = make_q(e, kind)
        q2 = make_q(e, kind)
        pi, other = [getattr(coax, cls)(x, 0.5) for x in (q, q2)]
        name = {'EpsilonGreedy': 'epsilon', 'BoltzmannPolicy': 'temperature'}[cls]
        x = h.real('x', 0.125, 1)
        setattr(other, name, x)
        ps = other.params
        h.check(set(ps) == {name, 'q'} and ps[name] is x and same(ps['q'], q2.params), 'params')
        new = dict(ps)
        pi.params = type(ps)(new) if not isinstance(ps, dict) else new
        h.check(getattr(pi, name) is x and same(q.params, q2.params), 'params are taken over')
        h.check(same(pi.function_state, q.function_state), 'function state')
        pi.function_state = q2.function_state
        h.check(same(q.function_state, q2.function_state), 'function state is taken over')
        for bad in ({'q': q.params}, {name: 0.5}, {name: 0.5, 'q': q.params, 'x': 1.},
                    {name: 0.5, 'q': {}}):
            try:
                pi.params = bad
                h.check(False, 'wrong structure is refused')
            except TypeError:
                pass
        h.check(getattr(pi, name) is x and same(q.params, q2.params), 'refused params change nothing')
    return fn


def h_random(name):
    """ uniform over the space, with the right density """
    def fn(h):
        import coax
        import gymnasium
        if name.startswith('disc'):
            n = int(name[4:])
            sp = gymnasium.spaces.Discrete(n)
            want = h.num(-math.log(n))
        else:
            sp = box(name, h)
            want = 0
            for lo, hi in zip(onp.reshape(sp.low, -1), onp.reshape(sp.high, -1)):
                want = want - h.log(hi - lo if h.symbolic else float(hi) - float(lo))
        calls = []
        sp.seed = lambda seed=None: calls.append(('seed', seed))
        sp.sample = lambda *a, **k: calls.append('sample') or ('action', len(calls))
        e = fa.Env(gymnasium.spaces.Discrete(3), sp)
        pi = coax.RandomPolicy(e, random_seed=13)
        h.check(calls == [('seed', 13)], 'the seed is passed on')
        a = pi(0)
        h.check(a == ('action', 2), 'actions are drawn uniformly from the space')
        a, lp = pi(0, return_logp=True)
        h.check(a == ('action', 3), 'actions are drawn uniformly from the space')
        h.check(onp.shape(lp) == (), 'a single number')
        (h.check_near if name.startswith('disc') else h.check_eq)(
            lp, want, 'log-density of the uniform distribution')
        h.check(pi.mode(0) == ('action', 4), 'any action is a mode')
    return fn


def build(tier):
    th = tier == 'thorough'
    c = Check('P22', bounds={
        'states': 3, 'actions': '2-3 (4)', 'atoms': NB, 'batch': 2, 'epsilon': '[0, 1]',
        'temperature': '[0.125, 8]', 'values': 'all reals within +-4, with all patterns of ties'},
        assumptions=['q-functions are tables over states and actions'])
    J = dict(numpy=False, prune=True, cases=True, conc=4)
    for kind in ('q1', 'q2', 'u1', 'u2', 's1', 's2'):
        if kind[0] != 's':
            c.harness(f'eps-{kind}', h_eps(kind), **J)
        c.harness(f'boltz-{kind}', h_boltz(kind), **J)
    for kind in ('q1', 'q2'):
        c.harness(f'eps3-{kind}', h_eps(kind, 3), **J)
        c.harness(f'boltz3-{kind}', h_boltz(kind, 3), **J)
        c.harness(f'eps-affine-{kind}', h_eps(kind, 2, 'affine'), **J)
        c.harness(f'boltz-affine-{kind}', h_boltz(kind, 2, 'affine'), **J)
        for cls in ('EpsilonGreedy', 'BoltzmannPolicy'):
            c.harness(f'use-{cls}-{kind}', h_use(cls, kind), **J)
            c.harness(f'params-{cls}-{kind}', h_params(cls, kind), numpy=False, conc=2)
    if th:
        c.harness('eps4-q2', h_eps('q2', 4), **J)
        for cls in ('EpsilonGreedy', 'BoltzmannPolicy'):
            c.harness(f'use3-{cls}', h_use(cls, 'q2', 3), **J)
    for name in ('disc2', 'disc5', 'unit1', 'asym2', 'mat22', 'row13'):
        c.harness(f'random-{name}', h_random(name), conc=4)
    return c
