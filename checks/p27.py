"""P27: distributional TD updates: gradient step towards the transformed target distribution."""
import numpy as onp

from engine.harness import Check
from . import fa
from .p21 import fwd, inv, transform

B, NA, NQ, LR = 2, 2, 2, 0.5
PATTERNS = [([0, 1], [1, 0], [2, 0], [0, 1]), ([2, 2], [0, 0], [1, 1], [1, 0]),
            ([2, 2], [0, 1], [2, 2], [1, 0])]
# regions of the two atoms -1, 1 after scaling by In = 0.5 and shifting by Rn
SHIFT = [(-0.375, 0.375), (0.625, 1.375), (1.625, 3), (-1.375, -0.625), (-3, -1.625)]
# regions of the differences between target quantile j and predicted quantile k, as [j][k]:
# 0: < -1, 1: -1..0, 2: 0..1, 3: > 1
QREG = [((2, 2), (2, 2)), ((1, 1), (1, 1)), ((3, 3), (3, 3)), ((0, 0), (0, 0)), ((1, 2), (2, 3)),
        ((0, 1), (3, 2)), ((2, 0), (3, 1))]


def make(e, name, kind, what, tr, nq=NQ):
    import coax
    kw = {} if what == 'values' else {'value_range': (-2, 2)}
    return (coax.StochasticV if kind == 'v' else coax.StochasticQ)(
        fa.sfunc(e, kind, nq, what), e, num_bins=nq, value_transform=transform(tr), random_seed=1,
        **kw)


def h_dist(name, kind, what, targ=1, tr=None, pat=0, reg=None, w=0, regs=None):
    """ what: 'logits' (categorical over the interval) or 'values' (quantiles) """
    def fn(h):
        import jax
        import jax.numpy as jnp
        import optax
        import coax
        import coax.td_learning as T
        from coax.value_losses import mse, quantile_huber
        e = fa.env(NA)
        mk = lambda: make(e, name, kind, what, tr)      # noqa: E731
        f = mk()
        D = f.proba_dist
        lim = (-1, 1) if what == 'logits' else (-2, 2)
        fix = {}
        if reg and what == 'logits':    # the projections of the two shifts are what is new here
            fix = dict(fixed={'w': [[0.5, -0.25], [-0.5, 0], [0.25, 0.75]], 'd': 0.25, 'b': 0.})
        sf = fa.Sym(h, 'f', f, *lim, **fix)
        kw = dict(optimizer=optax.sgd(LR), loss_function=mse)
        others = []
        if reg:
            # divergence of a normal policy with unit variance: polynomial
            p = fa.pi(fa.env(box=(1,)))
            sp = fa.Sym(h, 'pi', p, -1, 1, scale={'l': (0, 0)})
            others.append(sp)
            kw['policy_regularizer'] = coax.regularizers.KLDivRegularizer(p, beta=0.5)
        st = sf
        if 'Clipped' in name:
            ts = [mk(), mk()]
            st = [fa.Sym(h, f't{j}', t, *lim) for j, t in enumerate(ts)]
            others += st
            td = getattr(T, name)(f, q_targ_list=ts, **kw)
        elif targ:
            t = mk()
            st = fa.Sym(h, 't', t, *lim, **fix)
            others.append(st)
            td = getattr(T, name)(f, **{'v_targ' if kind == 'v' else 'q_targ': t}, **kw)
        else:
            td = getattr(T, name)(f, **kw)
        syms = [sf] + others
        S, A, Sn, An = [onp.array(x) for x in PATTERNS[pat]]
        rg = [(0, 1), (1, 2), (2, 0)][w]
        wreg = [(0, 0.1), (0.1, 10), (10, 30)]
        d = {'logP': onp.zeros(B, 'float32'), 'logP_next': onp.zeros(B, 'float32'),
             'In': onp.array([0.5, 0.5], 'float32'),
             'W': h.arr([h.real(f'W{i}', *wreg[rg[i]]) for i in range(B)])}
        reg_r = h.choice('shift', 0, (regs or (5 if what == 'logits' else len(QREG))) - 1)
        if what == 'logits':
            d['Rn'] = h.arr([h.real(f'R{i}', *SHIFT[(reg_r + i) % 5]) for i in range(B)])
        else:
            d['Rn'] = h.reals('R', (B,), -8, 8)
        dv = [0] * B
        if reg:     # the reward is given through reward minus divergence
            for i in range(B):
                dv[i] = sp.mu(S[i])[0] * sp.mu(S[i])[0] / 4
                h.assume(h.and_(dv[i] > 0, dv[i] < 1))
        if reg and what == 'values':
            RH = d['Rn']
            d['Rn'] = h.arr([RH[i] + dv[i] for i in range(B)])
        Wc = [[h.num(0.1), d['W'][i], 10][rg[i]] for i in range(B)]
        fr = onp.array([[(j + 0.5) / NQ for j in range(NQ)]], 'float32')

        def pars(z):
            return {'logits': h.arr([z])} if what == 'logits' else \
                {'values': h.arr([z]), 'quantile_fractions': fr}

        def order(z):
            if what == 'logits':
                bool(z[0] >= z[1])

        def mean(z):
            order(z)
            return h.jax(lambda z: D.postprocess_variate(h.key(), D.mean(z), batch_mode=True),
                         pars(z))[0]

        def best(s, sel, ev):
            """ distribution of ev at the greedy action of sel (no ties) """
            v = [mean(sel.dist(s, a)) for a in range(NA)]
            h.assume(v[0] != v[1])
            return ev.dist(s, 0 if bool(v[0] > v[1]) else 1)

        preds, nexts = [], []
        for i in range(B):
            if kind == 'v':
                preds.append(sf.dist(S[i], None, True))
                nexts.append(st.dist(Sn[i]))
            else:
                preds.append(sf.dist(S[i], A[i], True))
                if name == 'Sarsa':
                    nexts.append(st.dist(Sn[i], An[i]))
                elif name == 'QLearning':
                    nexts.append(best(Sn[i], st, st))
                elif name == 'DoubleQLearning':
                    nexts.append(best(Sn[i], st, sf))
                else:
                    c = [best(Sn[i], x, y) for x in st for y in st]
                    v = [mean(z) for z in c]
                    m = 0
                    for j in range(1, len(v)):
                        if bool(v[j] < v[m]):
                            m = j
                    nexts.append(c[m])
            order(preds[-1])
            order(nexts[-1])
            if what == 'values':
                x = (RH if reg else d['Rn'])[i]
                for j in range(NQ):
                    t = fwd(h, tr, inv(h, tr, nexts[-1][j]) / 2 + x)
                    for k in range(NQ):
                        r = t - preds[-1][k]
                        q = QREG[(reg_r + i * (1 + pat)) % len(QREG)][j][k]
                        h.assume([r < -1, h.and_(r > -1, r < 0), h.and_(r > 0, r < 1), r > 1][q])

        def row(z, zn, r, c, extra):
            """ target, loss and gradient of one transition of weight 1 (see P17, P19) """
            t = D.affine_transform(zn, c, r, f.value_transform)
            if reg:
                t = D.affine_transform(t, 1., -extra, f.value_transform)

            def loss(z):
                if what == 'logits':
                    return jnp.mean(D.cross_entropy(t, z))
                return quantile_huber(t['values'], z['values'], z['quantile_fractions'])
            l, g = jax.value_and_grad(loss)(z)
            m = [D.postprocess_variate(h.key(), D.mean(x), batch_mode=True)[0] for x in (t, z)]
            return l, g['logits' if what == 'logits' else 'values'][0], m[0] - m[1]

        g = {k: onp.zeros(onp.shape(v), dtype=object) if onp.shape(v) else 0
             for k, v in sf.p.items()}
        tot, errs = 0, []
        for i in range(B):
            l, gz, err = h.jax(row, pars(preds[i]), pars(nexts[i]), h.arr([d['Rn'][i]]),
                               onp.array([0.5], 'float32'), h.arr([dv[i]]))
            errs.append(err)
            c = Wc[i] / B
            tot = tot + c * l
            for j in range(NQ):
                ix = (S[i], j) if kind == 'v' else (S[i], A[i], j)
                g['w'][ix] = g['w'][ix] + c * gz[j]
            g['d'] = g['d'] + c * gz[0]

        def go(d, S, A, Sn, An):
            m, err = td.update(fa.batch(d, S, A, Sn, An), return_td_error=True)
            n = type(td).__name__
            return ([(s.f.params, s.f.function_state) for s in syms], m[f'{n}/loss'],
                    m[f'{n}/td_error'], err)
        with fa.maybe_no_nan(h):
            out, loss, merr, err = fa.call(h, syms, go, d, S, A, Sn, An)
        new = fa.grad_of(out[0][0])
        for k, v in sf.p.items():
            for ix in (onp.ndindex(*onp.shape(v)) if onp.shape(v) else [()]):
                got, old, gv = (new[k][ix], v[ix], g[k][ix]) if ix else (new[k], v, g[k])
                h.check_eq(got, old - h.num(LR) * gv, f'one gradient step: parameter {k}{ix}')
        h.check_eq(fa.state_of(out[0][1]), sf.b + 1, 'function state of one training pass')
        for s, (p, b) in zip(others, out[1:]):
            p = fa.grad_of(p)
            for k in s.p:
                h.check_eq(p[k], s.p[k], 'targets are left alone')
            h.check_eq(fa.state_of(b), s.b, 'function states of targets are left alone')
        h.check_eq(loss, tot, 'reported loss')
        for i in range(B):
            h.check_eq(err[i], errs[i], 'TD error: difference of the expected values')
        h.check_eq(merr, sum(Wc[i] * errs[i] for i in range(B)) / B, 'reported TD error')
    return fn


def build(tier):
    th = tier == 'thorough'
    c = Check('P27', bounds={
        'batch': B, 'states': 3, 'actions': 2, 'atoms or quantiles': NQ, 'In': '0.5',
        'logits': 'all reals within +-1', 'quantile values': '+-2', 'W': '[0,30]'},
        assumptions=['no ties between greedy actions', 'function approximators are tables',
                     'gradients are not NaN (real arithmetic)'])
    J = dict(numpy=False, prune=True, cases=True, conc=4, budget_s=400)
    c.harness('SimpleTD-logits', h_dist('SimpleTD', 'v', 'logits', 1, pat=1), **J)
    c.harness('SimpleTD-self-logits', h_dist('SimpleTD', 'v', 'logits', 0, None, 2, w=1), **J)
    for what in ('logits', 'values'):
        for kind in ('q1', 'q2'):
            c.harness(f'Sarsa-{kind}-{what}', h_dist('Sarsa', kind, what, 1, pat=1, w=2), **J)
            if what == 'values':
                c.harness(f'QLearning-{kind}', h_dist('QLearning', kind, what, 1, pat=kind == 'q2'),
                          **J)
                c.harness(f'DoubleQLearning-{kind}', h_dist('DoubleQLearning', kind, what, 1, pat=1),
                          **J)
        c.harness(f'Sarsa-self-{what}', h_dist('Sarsa', 'q1', what, 0, None, 2, w=1,
                                               regs=None if th else 3), **J)
    c.harness('Sarsa-reg-values', h_dist('Sarsa', 'q2', 'values', 1, None, 0, True), **J)
    c.harness('SimpleTD-reg-logits', h_dist('SimpleTD', 'v', 'logits', 1, None, 0, True,
                                            regs=None if th else 3), **J)
    c.harness('Sarsa-affine', h_dist('Sarsa', 'q1', 'values', 1, 'affine'), **J)
    for alg in ('ClippedDoubleQLearning', 'SoftClippedDoubleQLearning'):
        c.harness(alg, h_dist(alg, 'q2' if alg[0] == 'C' else 'q1', 'values', 1, pat=1,
                              regs=len(QREG) if th else 2), **J)
    return c
