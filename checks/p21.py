"""P21: function approximators give the same answer however they are asked."""
import numpy as onp

from engine.harness import Check
from engine.jaxrng import with_draws
from . import fa

NA, NB = 2, 3
SS, AA = onp.array([2, 0]), onp.array([1, 0])


def transform(name):
    """ (value_transform, f, f_inv for the oracle) """
    import coax
    if name == 'affine':
        return (lambda x: 2 * x + 1, lambda y: (y - 1) / 2)
    if name == 'log':
        return coax.value_transforms.LogTransform(2.)
    if name == 'own':
        import jax.numpy as jnp
        return coax.value_transforms.ValueTransform(lambda x: -4 * x, lambda y: jnp.negative(y) / 4)
    return None


def inv(h, name, x):
    if name == 'affine':
        return (x - 1) / 2
    if name == 'own':
        return -x / 4
    if name == 'log':     # sign(y) * 2 * (exp(|y|/2) - 1)
        return h.ite(x >= 0, 2 * (h.exp(x / 2) - 1), 2 * (1 - h.exp(-x / 2)))
    return x


def fwd(h, name, x):
    return {'affine': lambda: 2 * x + 1, 'own': lambda: -4 * x}.get(name, lambda: x)()


def sign(h, x):
    """ the path fixes the sign """
    if not bool(x > 0):
        h.assume(x < 0)


def untouched(f, fn):
    """ fn(), which has to leave parameters and state alone """
    p, s = f.params, f.function_state
    r = fn()
    return r, f.params is p and f.function_state is s


def h_v(tr):
    def fn(h):
        import jax
        e = fa.env(NA)
        v = fa.v(e, value_transform=transform(tr))
        sv = fa.Sym(h, 'v', v, -4, 4)
        flags = []
        for s in range(3):
            if tr == 'log':
                sign(h, sv.v(s))

            def go():
                r, ok = untouched(v, lambda: v(s))
                flags.append(ok)
                return r
            r = fa.ask(h, [sv], go)
            h.check(onp.shape(r) == (), 'a single value')
            h.check_eq(r, inv(h, tr, sv.v(s)), f'v({s})')
        h.check(all(flags), 'a call leaves parameters and state alone')
        for training in (False, True):
            V, st = fa.call(h, [sv], lambda S: v.function(
                v.params, v.function_state, v.rng, v.observation_preprocessor(v.rng, S),
                training), SS)
            h.check(V.shape == (2,), 'shape')
            for i, s in enumerate(SS):
                h.check_eq(V[i], sv.v(s, training), 'batch value')
            h.check_eq(fa.state_of(st), sv.b + (1 if training else 100), 'function state')
    return fn


def h_q(kind, tr, reward=False):
    """ kind: 1, 2 (discrete actions) or 'box' """
    def fn(h):
        import coax
        e = fa.env(NA, box=(2,) if kind == 'box' else None)
        cls = coax.RewardFunction if reward else coax.Q
        q = (fa.q2 if kind == 2 else fa.q1)(e, cls=cls, value_transform=transform(tr))
        sq = fa.Sym(h, 'q', q, -4, 4)
        h.check(q.modeltype == (2 if kind == 2 else 1), 'modeltype')
        if kind == 'box':
            A = h.reals('a', (2, 2), -1, 1)
            one = h.reals('a1', (2,), -1, 1)
            r = fa.ask(h, [sq], lambda a: q(1, a), one)
            h.check_eq(r, inv(h, tr, sq.q(1, list(one))), 'q(s, a)')
            try:
                q(1)
                h.check(False, 'q(s) needs discrete actions')
            except ValueError:
                pass
            aa = [list(a) for a in A]
        else:
            A, aa = AA, AA
            flags = []
            for s in range(3):
                def go():
                    r, ok = untouched(q, lambda: (q(s), [q(s, a) for a in range(NA)], q(s, a=1)))
                    flags.append(ok)
                    return r
                if tr == 'log':
                    [sign(h, sq.q(s, a)) for a in range(NA)]
                r2, r1, kw = fa.ask(h, [sq], go)
                h.check(onp.shape(r2) == (NA,) and onp.shape(r1[0]) == (), 'shapes')
                for a in range(NA):
                    h.check_eq(r2[a], inv(h, tr, sq.q(s, a)), f'q({s}, .)[{a}]')
                    h.check_eq(r1[a], inv(h, tr, sq.q(s, a)), f'q({s}, {a})')
                h.check_eq(kw, r1[1], 'q(s, a=a)')
            h.check(all(flags), 'a call leaves parameters and state alone')
        for training in (False, True):
            def go(S, A):
                S = q.observation_preprocessor(q.rng, S)
                A = q.action_preprocessor(q.rng, A)
                x = q.function_type1(q.params, q.function_state, q.rng, S, A, training)
                return x, (x if kind == 'box' else q.function_type2(
                    q.params, q.function_state, q.rng, S, training))
            (x1, st1), (x2, st2) = fa.call(h, [sq], go, SS, A)
            h.check(x1.shape == (2,) and (kind == 'box' or x2.shape == (2, NA)), 'shapes')
            for i in range(2):
                h.check_eq(x1[i], sq.q(SS[i], aa[i], training), 'type-1 view')
                for a in range(NA) if kind != 'box' else ():
                    h.check_eq(x2[i, a], sq.q(SS[i], a, training), 'type-2 view')
            for st in (st1, st2):
                h.check_eq(fa.state_of(st), sq.b + (1 if training else 100), 'function state')
    return fn


def table(e, cls, kind, what='logits', nb=NB, **kw):
    return cls(fa.sfunc(e, kind, nb, what), e, random_seed=1, **kw)


def order(z):
    m = 0
    for j in range(1, len(z)):
        if not bool(z[m] >= z[j]):
            m = j


def h_stoch(cls, kind, what, tr=None, parts=('mean', 'dist', 'sample', 'mode')):
    """ StochasticV, StochasticQ, StochasticRewardFunction """
    def fn(h):
        import coax
        e = fa.env(NA)
        kw = {} if what == 'values' else {'value_range': (-2, 2)}
        if cls == 'StochasticRewardFunction' and tr is None:
            kw['value_range'] = (-2, 2)
        f = table(e, getattr(coax, cls), kind, what, num_bins=NB, value_transform=transform(tr),
                  **kw)
        sf = fa.Sym(h, 'f', f, -2, 2)
        D = f.proba_dist
        h.check(f.num_bins == NB if what == 'logits' else True, 'number of bins')
        if what == 'logits':
            lo, hi = (fwd(h, tr, -2), fwd(h, tr, 2))
            for k in range(NB):
                h.check_eq(h.num(float(D.atoms[k])), lo + (hi - lo) * h.num(2 * k + 1) / (2 * NB),
                           'atoms divide the transformed range', tol=1e-5)
        s = 2
        acts = [None] if kind == 'v' else [0, 1]
        rows = [sf.dist(s, a) for a in acts]
        if what == 'logits':
            for z in rows:
                order(z)
        fr = [(k + 0.5) / NB for k in range(NB)]

        def pars(z):
            return {'logits': h.arr([z])} if what == 'logits' else \
                {'values': h.arr([z]), 'quantile_fractions': onp.array([fr], 'float32')}

        def want(m, z, draws):
            """ the same method of the distribution (see P15, P17), for this row alone """
            def go(z):
                X = getattr(D, m)(z, h.key()) if m == 'sample' else getattr(D, m)(z)
                return D.postprocess_variate(h.key(), X, batch_mode=True)[0], \
                    D.log_proba(z, X)[0] if m == 'sample' else 0.
            x, lp = h.jax(with_draws(go), draws, pars(z))
            return inv(h, tr, x), lp

        def asked(fn, draws={}):
            """ both ways of asking: all actions at once or one by one """
            if kind == 'v':
                r = fa.ask(h, [sf], with_draws(lambda: fn(f, (s,))), draws)
                return [[r]]
            r = fa.ask(h, [sf], with_draws(lambda: fn(f, (s,))), draws)
            h.check(len(r) == NA if not isinstance(r, tuple) else len(r[0]) == NA, 'one per action')
            if isinstance(r, tuple):
                r = list(zip(*r))
            out = [list(r)]
            out.append([fa.ask(h, [sf], with_draws(lambda: fn(f, (s, a))), {
                k: [v[0][a:a + 1]] for k, v in draws.items()}) for a in acts])
            return out
        if 'dist' in parts:
            for r in asked(lambda f, x: f.dist_params(*x)):
                for i, z in enumerate(rows):
                    k = 'logits' if what == 'logits' else 'values'
                    h.check_eq(r[i][k], h.arr(z), 'dist_params')
        for m in ('mean', 'mode'):
            if m in parts and not (m == 'mode' and what == 'values'):
                for r in asked(lambda f, x: getattr(f, m)(*x)):
                    for i, z in enumerate(rows):
                        h.check(onp.shape(r[i]) == (), 'a single value')
                        h.check_eq(r[i], want(m, z, {})[0], m)
        if 'sample' in parts and what == 'logits':
            g = h.reals('g', (len(acts), NB), -1.5, 5)
            for r in asked(lambda f, x: f(*x, return_logp=True), {'g': [g]}):
                for i, z in enumerate(rows):
                    x, lp = want('sample', z, {'g': [g[i:i + 1]]})
                    h.check_eq(r[i][0], x, 'sample')
                    h.check_eq(r[i][1], lp, 'log-propensity of the sample')
            r = fa.ask(h, [sf], with_draws(lambda: f(s) if kind == 'v' else f(s, 1)),
                       {'g': [g[-1:]]})
            h.check_eq(r, want('sample', rows[-1], {'g': [g[-1:]]})[0], 'sample without logp')
    return fn


def h_stoch_batch(cls, kind):
    """ both views of the underlying function and of mean/mode/sample, for a batch """
    def fn(h):
        import coax
        e = fa.env(NA)
        f = table(e, getattr(coax, cls), kind, num_bins=NB, value_range=(-2, 2))
        sf = fa.Sym(h, 'f', f, -2, 2)
        for training in (False, True):
            def go(S, A):
                S = f.observation_preprocessor(f.rng, S)
                A = f.action_preprocessor(f.rng, A)
                return (f.function_type1(f.params, f.function_state, f.rng, S, A, training),
                        f.function_type2(f.params, f.function_state, f.rng, S, training))
            (x1, st1), (x2, st2) = fa.call(h, [sf], go, SS, AA)
            h.check(x1['logits'].shape == (2, NB) and x2['logits'].shape == (2, NA, NB), 'shapes')
            for i in range(2):
                h.check_eq(x1['logits'][i], h.arr(sf.dist(SS[i], AA[i], training)), 'type-1 view')
                for a in range(NA):
                    h.check_eq(x2['logits'][i, a], h.arr(sf.dist(SS[i], a, training)),
                               'type-2 view')
            for st in (st1, st2):
                h.check_eq(fa.state_of(st), sf.b + (1 if training else 100), 'function state')
        def go(S, A):
            S = f.observation_preprocessor(f.rng, S)
            A = f.action_preprocessor(f.rng, A)
            return (f.mean_func_type1(f.params, f.function_state, f.rng, S, A),
                    f.mean_func_type2(f.params, f.function_state, f.rng, S))
        m1, m2 = fa.call(h, [sf], go, SS, AA)
        h.check(m1.shape == (2, NB) and m2.shape == (2, NA, NB), 'shapes')
        for i in range(2):
            for a in range(NA):
                w = h.jax(f.proba_dist.mean, {'logits': h.arr([sf.dist(SS[i], a)])})[0]
                h.check_eq(m2[i, a], w, 'mean, type 2')
                if a == AA[i]:
                    h.check_eq(m1[i], w, 'mean, type 1')
    return fn


def h_pi(box, parts):
    def fn(h):
        e = fa.env(NA, box=(box,) if box else None)
        p = fa.pi(e)
        sp = fa.Sym(h, 'pi', p, -2, 2)
        D = p.proba_dist
        flags = []
        for s in (0, 2):
            if not box:
                z = sp.logits(s)
                if bool(z[0] >= z[1]):
                    h.assume(z[0] - z[1] >= h.num(0.125))
                else:
                    h.assume(z[1] - z[0] >= h.num(0.125))
                pars = {'logits': h.arr([z])}
                draws = {'g': h.reals(f'g{s}', (1, NA), -1.5, 5)}
                tie = h.reals(f't{s}', (1, NA), -4, 16)
                dr = lambda *k: {'g': [draws['g'][0:1]] * ('s' in k) + [tie] * ('t' in k)}  # noqa
            else:
                pars = {'mu': h.arr([sp.mu(s)]), 'logvar': h.arr([sp.logvar(s)])}
                eps = h.reals(f'n{s}', (1, box), -3, 3)
                dr = lambda *k: {'n': [eps] * ('s' in k)}   # noqa

            def go(fn):
                def g():
                    r, ok = untouched(p, fn)
                    flags.append(ok)
                    return r
                return with_draws(g)

            def want(m):
                def g(z):
                    X = D.sample(z, h.key()) if m == 'sample' else getattr(D, m)(z)
                    return D.postprocess_variate(h.key(), X, batch_mode=True)[0], \
                        D.log_proba(z, X)[0]
                return h.jax(with_draws(g), dr('t') if m != 'sample' else dr('s', 't'), pars)
            if 'dist' in parts:
                r = fa.ask(h, [sp], go(lambda: p.dist_params(s)), {})
                for k, v in pars.items():
                    h.check_eq(r[k], v[0], 'dist_params')
            for m in ('mean', 'mode'):
                if m in parts:
                    r = fa.ask(h, [sp], go(lambda: getattr(p, m)(s)), dr('t'))
                    h.check(onp.shape(r) == ((box,) if box else ()), 'a single action')
                    h.check_eq(r, want(m)[0], m)
            if 'sample' in parts:
                a, lp = fa.ask(h, [sp], go(lambda: p(s, return_logp=True)), dr('s', 't'))
                a2 = fa.ask(h, [sp], go(lambda: p(s)), dr('s', 't'))
                x, l2 = want('sample')
                h.check_eq(a, x, 'action')
                h.check_eq(a2, a, 'action without log-propensity')
                h.check(onp.shape(lp) == (), 'a single log-propensity')
                h.check_eq(lp, l2, 'log-propensity of the variate')
        h.check(all(flags), 'a call leaves parameters and state alone')
    return fn


def raw(e, cls, kind):
    """ transition model whose output rows are the entries of the table """
    import jax.numpy as jnp

    def out(t, is_training):
        return t.at[..., 0].add(fa._extra(is_training))

    def q1(S, A, is_training):
        return out(jnp.einsum('bs,ba,sak->bk', S, A, fa._par('w', (S.shape[-1], NA, S.shape[-1]))), is_training)

    def q2(S, is_training):
        return out(jnp.einsum('bs,sak->bak', S, fa._par('w', (S.shape[-1], NA, S.shape[-1]))), is_training)
    return cls({1: q1, 2: q2}[kind], e, random_seed=1)


def h_trans(kind):
    """ deterministic transition model over 3 states """
    def fn(h):
        import coax
        e = fa.env(NA)
        f = raw(e, coax.TransitionModel, kind)
        sf = fa.Sym(h, 'f', f, -2, 2)
        for training in (False, True):
            def go(S, A):
                S = f.observation_preprocessor(f.rng, S)
                A = f.action_preprocessor(f.rng, A)
                return (f.function_type1(f.params, f.function_state, f.rng, S, A, training),
                        f.function_type2(f.params, f.function_state, f.rng, S, training))
            (x1, st1), (x2, st2) = fa.call(h, [sf], go, SS, AA)
            h.check(x1.shape == (2, 3) and x2.shape == (2, NA, 3), 'shapes')
            for i in range(2):
                h.check_eq(x1[i], h.arr(sf.dist(SS[i], AA[i], training)), 'type-1 view')
                for a in range(NA):
                    h.check_eq(x2[i, a], h.arr(sf.dist(SS[i], a, training)), 'type-2 view')
            for st in (st1, st2):
                h.check_eq(fa.state_of(st), sf.b + (1 if training else 100), 'function state')
        # the successor state is the largest entry of its row (draws: tie-breaking)
        s = 1
        best = []
        for a in range(NA):
            z = sf.dist(s, a)
            m = 0
            for j in (1, 2):
                if not bool(z[m] > z[j]):
                    h.assume(h.not_(h.eq(z[m], z[j])))
                    m = j
            for j in range(3):
                if j != m:
                    h.assume(z[m] > z[j])
            best.append(m)
        g = h.reals('g', (1, 3), -4, 16)
        gn = h.reals('gn', (NA, 3), -4, 16)
        r = fa.ask(h, [sf], with_draws(lambda: f(s)), {'g': [gn] * NA})
        h.check(len(r) == NA, 'one successor state per action')
        for a in range(NA):
            h.check_eq(r[a], best[a], f's, . -> {a}')
            x = fa.ask(h, [sf], with_draws(lambda: f(s, a)), {'g': [g]})
            h.check_eq(x, best[a], f's, {a}')
    return fn


def h_succ(pk, rk, stoch='', trv=None, trr=None, gamma=0.75):
    """ q(s,a) = f(r(s,a) + gamma f_inv(v(s'))) """
    def fn(h):
        import coax
        e = fa.env(NA)
        kw = dict(value_range=(-2, 2), num_bins=NB)
        p = table(e, coax.StochasticTransitionModel, f'q{pk}') if 'p' in stoch else \
            raw(e, coax.TransitionModel, pk)
        r = table(e, coax.StochasticRewardFunction, f'q{rk}', value_transform=transform(trr),
                  **kw) if 'r' in stoch else \
            (fa.q1 if rk == 1 else fa.q2)(e, cls=coax.RewardFunction,
                                          value_transform=transform(trr))
        v = table(e, coax.StochasticV, 'v', value_transform=transform(trv), **kw) \
            if 'v' in stoch else fa.v(e, value_transform=transform(trv))
        sp, sr, sv = [fa.Sym(h, n, f, -2, 2) for n, f in (('p', p), ('r', r), ('v', v))]
        q = coax.SuccessorStateQ(v, p, r, gamma=gamma)

        def mean(D, z, value=True):
            """ mean of one row (P15), as a value (P17) """
            def go(z):
                m = D.mean(z)
                return D.postprocess_variate(h.key(), m, batch_mode=True) if value else m
            return h.jax(go, {'logits': h.arr([z])})[0]

        def want(s, a, training):
            z = sp.dist(s, a, training)
            if 'p' in stoch:
                z = list(mean(p.proba_dist, z, False))
            R = mean(r.proba_dist, sr.dist(s, a, training)) if 'r' in stoch else \
                sr.q(s, a, training)
            if 'v' in stoch:
                w = [sum(z[i] * sv.p['w'][i, k] for i in range(3)) for k in range(NB)]
                V = mean(v.proba_dist, [w[0] + sv.off(training)] + w[1:])
            else:
                V = sum(z[i] * sv.p['w'][i, 0] for i in range(3)) + sv.off(training)
            return inv(h, trr, R) + h.num(gamma) * inv(h, trv, V)
        S = [sp, sr, sv]
        s = 2
        if not stoch:
            one = fa.ask(h, S, lambda: (q(s), [q(s, a) for a in range(NA)]))
            for a in range(NA):
                h.check_eq(one[0][a], want(s, a, False), 'q(s, .)')
                h.check_eq(one[1][a], want(s, a, False), 'q(s, a)')
        for training in (False, True):
            def go(S, A):
                S = q.observation_preprocessor(q.rng, S)
                A = q.action_preprocessor(q.rng, A)
                return (q.function_type1(q.params, q.function_state, q.rng, S, A, training),
                        q.function_type2(q.params, q.function_state, q.rng, S, training))
            (x1, st1), (x2, st2) = fa.call(h, S, go, SS, AA)
            for i in range(len(x1)):
                for a in range(NA):
                    w = fwd(h, trv, want(SS[i], a, training))
                    h.check_eq(x2[i, a], w, 'type-2 view')
                    if a == AA[i]:
                        h.check_eq(x1[i], w, 'type-1 view')
            for st in (st1, st2):
                for k, y in (('p', sp), ('r', sr), ('v', sv)):
                    h.check_eq(fa.state_of(st[k]), y.b + (1 if training else 100), f'state of {k}')
    return fn


def build(tier):
    th = tier == 'thorough'
    c = Check('P21', bounds={
        'states': 3, 'actions': '2, or a Box of size 1-2', 'atoms': NB, 'batch': '1-2',
        'parameters': 'all reals within +-2 or +-4'},
        assumptions=['function approximators are tables over states and actions (any other '
                     'function enters coax in the same way)',
                     'greedy choices are compared without exact ties (ties: P25)'])
    J = dict(numpy=False, prune=True, cases=True, conc=4)
    for tr in (None, 'affine', 'own', 'log'):
        c.harness(f'v-{tr}', h_v(tr), **J)
        for k in (1, 2):
            c.harness(f'q{k}-{tr}', h_q(k, tr), **J)
        if tr != 'log':
            c.harness(f'qbox-{tr}', h_q('box', tr), **J)
    for k in (1, 2):
        c.harness(f'r{k}-affine', h_q(k, 'affine', True), **J)
        c.harness(f'trans-{k}', h_trans(k), **J)
        c.harness(f'sq{k}-batch', h_stoch_batch('StochasticQ', f'q{k}'), **J)
    for cls, kinds in (('StochasticV', ('v',)), ('StochasticQ', ('q1', 'q2')),
                       ('StochasticRewardFunction', ('q1', 'q2'))):
        for kind in kinds:
            for part in ('mean', 'dist', 'mode', 'sample'):
                for tr in (None, 'affine'):
                    if (part == 'dist' and tr) or (cls == 'StochasticRewardFunction' and
                                                   part != 'mean'):
                        continue
                    c.harness(f'{cls}-{kind}-{part}-{tr}',
                              h_stoch(cls, kind, 'logits', tr, (part,)), **J)
    for kind in ('q1', 'q2'):
        for tr in (None, 'affine'):
            c.harness(f'quantile-{kind}-{tr}',
                      h_stoch('StochasticQ', kind, 'values', tr, ('mean', 'dist')), **J)
    for box in (0, 1, 2):
        for part in ('dist', 'mean', 'mode', 'sample'):
            c.harness(f'pi{box}-{part}', h_pi(box, (part,)), **J)
    for pk, rk in ((1, 2), (2, 1)):
        for trv, trr in ((None, None), ('affine', 'own'), ('own', None)):
            c.harness(f'succ-{pk}{rk}-{trv}-{trr}', h_succ(pk, rk, (), trv, trr), **J)
    for st in ('p', 'r', 'v', 'pr'):
        for k in (1, 2):
            c.harness(f'succ-{k}-{st}', h_succ(k, k, st, 'affine', 'own'), **J)
    return c
