"""P14: regularizers compute the documented term of every transition."""
import numpy as onp

from engine.harness import Check
from . import fa
from .p12 import entropy, kl

B = 2


def make(h, kind, e, nb=3):
    """ -> (function, Sym, row -> logits) """
    import coax
    if kind == 'pi':
        f = fa.pi(e)
        s = fa.Sym(h, 'f', f, -2, 2)
        return f, s, lambda st, a: s.logits(st)
    if kind == 'sv':
        f = coax.StochasticV(fa.sfunc(e, 'v', nb), e, value_range=(-2, 2), num_bins=nb,
                             random_seed=1)
        s = fa.Sym(h, 'f', f, -2, 2)
        return f, s, lambda st, a: s.dist(st)
    f = coax.StochasticQ(fa.sfunc(e, 'q1', nb), e, value_range=(-2, 2), num_bins=nb, random_seed=1)
    s = fa.Sym(h, 'f', f, -2, 2)
    return f, s, lambda st, a: s.dist(st, a)


def order(z):
    """ fork: which of the values is the largest """
    m = 0
    for j in range(1, len(z)):
        if not bool(z[m] >= z[j]):
            m = j
    return m


def h_reg(kind, reg, priors=False, pat=0):
    def fn(h):
        import jax
        import coax
        e = fa.env(2)
        f, s, lg = make(h, kind, e)
        S, A = [onp.array(x) for x in (([0, 2], [1, 0]), ([1, 1], [0, 1]))[pat]]
        zs = [lg(S[i], A[i]) for i in range(B)]
        for z in zs[:1 if S[0] == S[1] and kind != 'sq' else 2]:
            order(z)
        beta = h.real('beta', 0, 4)
        ys = None
        if reg == 'entropy':
            r = coax.regularizers.EntropyRegularizer(f, beta=0.125)
        elif not priors:
            r = coax.regularizers.KLDivRegularizer(f, beta=0.125)
            ys = [[0] * len(zs[0])] * B
        else:
            y = h.reals('prior', (1, len(zs[0])), -2, 2)
            order(list(y[0]))
            r = coax.regularizers.KLDivRegularizer(f, beta=0.125, priors={'logits': y})
            ys = [[y[0, k] for k in range(len(zs[0]))]] * B
        r.beta = 'later'                  # hyperparameters are looked up when they are used
        h.check(r.hyperparams['beta'] == 'later', 'hyperparameters follow the attribute')
        hp = {k: v for k, v in r.hyperparams.items() if k != 'beta'}
        if priors:
            hp['priors'] = {'logits': y}
        d = fa.fields(h, B)

        def go(beta, hp, d, S, A):
            tb = fa.batch(d, S, A, S)
            return r.batch_eval(f.params, dict(hp, beta=beta), f.function_state,
                                jax.random.PRNGKey(0), tb)
        v, m = fa.call(h, [s], go, beta, hp, d, S, A)
        h.check(v.shape == (B,), 'one term per transition')
        vals = [entropy(h, z) if ys is None else kl(h, z, ys[i]) for i, z in enumerate(zs)]
        for i in range(B):
            h.check_eq(v[i], (-beta if ys is None else beta) * vals[i], f'term of row {i}')
        n, q = ('EntropyRegularizer', 'entropy') if ys is None else ('KLDivRegularizer', 'kl_div')
        h.check_eq(m[f'{n}/beta'], beta, 'reported beta')
        h.check_eq(m[f'{n}/{q}'], sum(vals[1:], vals[0]) / h.num(B), 'reported mean')
    return fn


def h_nstep(ns, gamma=0.5, length=3, pat=0):
    def fn(h):
        import jax
        import coax
        e = fa.env(2)
        f = fa.pi(e)
        s = fa.Sym(h, 'f', f, -2, 2, scale={'d': (0, 0)})
        r = coax.regularizers.NStepEntropyRegularizer(f, n=list(ns), beta=0.125, gamma=gamma)
        st = [onp.array(x) for x in ((0, 1), (2, 0), (1, 1), (0, 2))][:length]
        if pat:
            st = [x[::-1].copy() for x in st]
        for k in sorted({int(x) for n in ns for x in st[n]}):
            order(s.logits(k))
        # per row, the step at which the episode ends (or not at all)
        ends = [h.choice(f'end{i}', 0, length) for i in range(B)]
        more = h.flag('more')    # what is recorded after the end is also marked as terminal
        dones = [onp.array([(k == ends[i]) or (more and k > ends[i]) for i in range(B)])
                 for k in range(length)]
        beta = h.real('beta', 0, 4)
        d = fa.fields(h, B)

        def go(beta, d, st, dones):
            tb = fa.batch(d, st[0], onp.array([0, 1]), st[0],
                          extra_info={'states': tuple(st), 'dones': tuple(dones)})
            return r.batch_eval(f.params, {'beta': beta}, f.function_state,
                                jax.random.PRNGKey(0), tb)[0]
        v = fa.call(h, [s], go, beta, d, st, dones)
        h.check(v.shape == (B,), 'one term per transition')
        for i in range(B):
            t = 0
            for n in ns:
                if n <= ends[i]:
                    t = t + h.num(gamma ** n) * entropy(h, s.logits(int(st[n][i])))
            h.check_eq(v[i], -beta * t, f'term of row {i}')
    return fn


def build(tier):
    th = tier == 'thorough'
    c = Check('P14', bounds={
        'batch': B, 'states': 3, 'categories': '2 (policies), 3 (value distributions)',
        'logits, beta': 'all reals within +-2 (+ state), [0,4]', 'steps recorded': '<=3 (4)'},
        assumptions=['stochastic functions are tables over states and actions'])
    J = dict(numpy=False, prune=True, cases=True, conc=4)
    for kind in ('pi', 'sv', 'sq'):
        for pat in (0, 1):
            c.harness(f'entropy-{kind}-{pat}', h_reg(kind, 'entropy', pat=pat), **J)
            c.harness(f'kl-{kind}-{pat}', h_reg(kind, 'kl', pat=pat), **J)
    c.harness('kl-pi-prior', h_reg('pi', 'kl', True), **J)
    c.harness('kl-sv-prior', h_reg('sv', 'kl', True, pat=1), **J)
    for ns in ([0], [1], [0, 1], [0, 1, 2], [2, 0], [1, 2]):
        c.harness(f'nstep-{"".join(map(str, ns))}', h_nstep(ns), **J)
    if th:
        for ns in ([0, 1, 2, 3], [3, 1], [0, 3]):
            for pat in (0, 1):
                c.harness(f'nstep4-{"".join(map(str, ns))}-{pat}', h_nstep(ns, 0.75, 4, pat), **J)
    return c
