"""P12: a TD update is exactly one (semi-)gradient step on the weighted loss of its target."""
import numpy as onp

from engine.harness import Check
from . import fa
from .p11 import PATTERNS, greedy

B = 2


def entropy(h, z):
    ex = [h.exp(v) for v in z]
    t = sum(ex[1:], ex[0])
    return sum(-(x / t) * (v - h.log(t)) for x, v in zip(ex, z))


def kl(h, z, y):
    ex, ey = [h.exp(v) for v in z], [h.exp(v) for v in y]
    t, u = sum(ex[1:], ex[0]), sum(ey[1:], ey[0])
    return sum((x / t) * ((a - h.log(t)) - (b - h.log(u))) for x, a, b in zip(ex, z, y))


def reg_of(h, kind, e):
    """ -> (regularizer, Sym of its policy, function s -> value of the regularization term) """
    import coax
    if not kind:
        return None, [], lambda s: 0
    p = fa.pi(e)
    sp = fa.Sym(h, 'pi', p, -2, 2)
    if kind == 'entropy':
        r = coax.regularizers.EntropyRegularizer(p, beta=0.5)
        return r, [sp], lambda s: -h.num(0.5) * entropy(h, sp.logits(s))
    r = coax.regularizers.KLDivRegularizer(p, beta=0.25)
    if 'l' in sp.p:
        return r, [sp], lambda s: h.num(0.25) * sum(
            (h.exp(v) + m * m - 1 - v) / 2 for m, v in zip(sp.mu(s), sp.logvar(s)))
    return r, [sp], lambda s: h.num(0.25) * kl(h, sp.logits(s), [0] * sp.p['w'].shape[1])


# the regions of W (below, inside, above its clip) and of the error (Huber: below, inside, above)
# per row: an orthogonal array (every pair of regions occurs); thorough: all combinations
L9 = [(a, b, (a + b) % 3, (a + 2 * b) % 3) for a in range(3) for b in range(3)]
ALL = [(a, b, c, d) for a in range(3) for b in range(3) for c in range(3) for d in range(3)]


def h_update(alg, loss, targ, reg=None, pat=0, full=False):
    def fn(h):
        import optax
        import coax.td_learning as T
        from coax import value_losses
        lr = 0.5
        boxed = alg.endswith('Box')
        name = alg[:-3] if boxed else alg
        typ = 1 if boxed else 2
        e = fa.env(2, box=(1,) if boxed else None)
        R, pis, rterm = reg_of(h, reg, e)
        kw = dict(optimizer=optax.sgd(lr), loss_function=getattr(value_losses, loss),
                  policy_regularizer=R)
        mk = (lambda: fa.v(e)) if name == 'SimpleTD' else \
            (lambda: fa.q1(e)) if typ == 1 else (lambda: fa.q2(e))
        f = mk()
        sf = fa.Sym(h, 'f', f, -5, 5)
        others = list(pis)
        if 'Clipped' in name:
            ts = [mk(), mk()]
            st = [fa.Sym(h, f't{j}', t, -5, 5) for j, t in enumerate(ts)]
            if targ == 0:
                ts[0], st[0] = f, sf    # the trained function is one of the targets
            others += [s for s in st if s is not sf]
            if boxed:
                tp = fa.pi(e)
                spi = fa.Sym(h, 'tp', tp, -2, 2)
                others.append(spi)
                kw['pi_targ_list'] = [tp]
            td = getattr(T, name)(f, q_targ_list=ts, **kw)
        elif targ:
            t = mk()
            st = fa.Sym(h, 't', t, -5, 5)
            others.append(st)
            td = getattr(T, name)(f, **{'v_targ' if name == 'SimpleTD' else 'q_targ': t}, **kw)
        else:
            st = sf
            td = getattr(T, name)(f, **kw)
        S, A, Sn, An = [onp.array(x) for x in PATTERNS[pat]]
        if boxed:
            A, An = h.reals('A', (B, 1), -1, 1), h.reals('An', (B, 1), -1, 1)
        # concrete bootstrap factors keep the case distinctions linear; P11 has symbolic ones
        d = fa.fields(h, B, In=[0.5, 0.75], W=False)
        rg = (ALL if full else L9)[h.choice('region', 0, (80 if full else 8))]
        d['W'] = h.arr([h.real(f'W{i}', *[(0, 0.1), (0.1, 10), (10, 30)][rg[i]])
                        for i in range(B)])
        syms = [sf] + others

        if reg and not boxed:
            for s in sorted(set(S.tolist())):
                z = pis[0].logits(s)
                bool(z[0] >= z[1])      # fork: which logit is the largest
        pred, G = [], []
        for i in range(B):
            if name == 'SimpleTD':
                pred.append(sf.v(S[i], True))
                nxt = st.v(Sn[i])
            else:
                pred.append(sf.q(S[i], A[i], True))
                if name == 'Sarsa':
                    nxt = st.q(Sn[i], An[i])
                elif name == 'QLearning':
                    nxt = greedy(h, [st.q(Sn[i], a) for a in range(2)])
                elif boxed:
                    a = spi.mu(Sn[i])
                    x, y = st[0].q(Sn[i], a), st[1].q(Sn[i], a)
                    nxt = x if bool(x <= y) else y
                else:
                    vals = [[x.q(Sn[i], a) for a in range(2)] for x in st]
                    nxt = fa.hmin(h, [greedy(h, x, y) for x in vals for y in vals])
            G.append(d['Rn'][i] + h.num(float(d['In'][i])) * nxt - rterm(S[i]))
        err_ = [G[i] - pred[i] for i in range(B)]
        if loss == 'huber':
            for i in range(B):
                x = err_[i]
                h.assume([x <= -1, h.and_(x >= -1, x <= 1), x >= 1][rg[2 + i]])

        def go(d, S, A, Sn, An):
            tb = fa.batch(d, S, A, Sn, An)
            m, err = td.update(tb, return_td_error=True)
            n = type(td).__name__
            m = {k: m[k] for k in (f'{n}/loss', f'{n}/td_error')}
            return ([(s.f.params, s.f.function_state) for s in syms], m, err)
        with fa.maybe_no_nan(h):
            out, m, err = fa.call(h, syms, go, d, S, A, Sn, An)

        W = [[h.num(0.1), d['W'][i], 10][rg[i]] for i in range(B)]
        if loss == 'mse':
            per, delta = [x * x / 2 for x in err_], err_
        else:
            hf = h.num(0.5)
            per = [[-x - hf, x * x / 2, x - hf][rg[2 + i]] for i, x in enumerate(err_)]
            delta = [[-1, x, 1][rg[2 + i]] for i, x in enumerate(err_)]
        h.check(err.shape == (B,), 'one TD error per transition')
        for i in range(B):
            h.check_eq(err[i], delta[i], f'TD error of row {i}: minus the slope of the loss')
        # the step: each row moves the parameters of its own prediction only
        g = {k: onp.zeros(onp.shape(v), dtype=object) for k, v in sf.p.items()}
        for i in range(B):
            c = -W[i] * delta[i] / B
            g['d'] = g['d'] + c
            if boxed:
                g['w'][S[i], 0] = g['w'][S[i], 0] + c
                g['w1'][S[i], 0] = g['w1'][S[i], 0] + c * A[i, 0]
                g['w2'][S[i], 0] = g['w2'][S[i], 0] + c * A[i, 0] * A[i, 0]
            else:
                j = 0 if name == 'SimpleTD' else A[i]
                g['w'][S[i], j] = g['w'][S[i], j] + c
        new = fa.grad_of(out[0][0])
        for k, v in sf.p.items():
            v = onp.asarray(v, dtype=object) if not onp.shape(v) else v
            for ix in onp.ndindex(*onp.shape(v)):
                gv = g[k][ix] if onp.shape(v) else g[k]
                got = new[k][ix] if onp.shape(v) else new[k]
                old = v[ix] if onp.shape(v) else sf.p[k]
                h.check_eq(got, old - h.num(lr) * gv, f'one gradient step: parameter {k}{ix}')
        h.check_eq(fa.state_of(out[0][1]), sf.b + 1, 'function state of one training pass')
        for s, (p, stt) in zip(others, out[1:]):
            p = fa.grad_of(p)
            for k in s.p:
                h.check_eq(p[k], s.p[k], 'targets are left alone')
            h.check_eq(fa.state_of(stt), s.b, 'function states of targets are left alone')
        n = type(td).__name__
        h.check_eq(m[f'{n}/loss'], sum(W[i] * per[i] for i in range(B)) / B, 'reported loss')
        h.check_eq(m[f'{n}/td_error'], sum(W[i] * delta[i] for i in range(B)) / B,
                   'reported TD error')
    return fn


def build(tier):
    th = tier == 'thorough'
    c = Check('P12', bounds={
        'batch': B, 'states': 3, 'actions': '2, or Box of size 1', 'optimizer': 'sgd',
        'loss': 'mse, huber', 'parameters, state, Rn, In, W': 'all reals within +-5, +-20, '
        '[0,1], [0,20]'},
        assumptions=['function approximators are tables over states (quadratic in Box actions)',
                     'gradients are not NaN (real arithmetic)'])
    J = dict(numpy=False, prune=True, cases=True, conc=4, budget_s=400)
    for alg in ('SimpleTD', 'Sarsa', 'QLearning'):
        for loss in ('mse', 'huber'):
            for targ in (0, 1):
                for pat in (range(3) if th else ((targ + 1) % 3,) if targ else (1, 2)):
                    c.harness(f'{alg}-{loss}-{targ}-{pat}', h_update(alg, loss, targ, pat=pat), **J)
    for alg in ('ClippedDoubleQLearning', 'SoftClippedDoubleQLearning'):
        for loss in ('mse', 'huber'):
            for targ in (0, 1):
                if th or (loss == 'mse' and (targ == 0) == ('Soft' in alg)):
                    c.harness(f'{alg}-{loss}-{targ}-2', h_update(alg, loss, targ, pat=2), **J)
    for loss in ('mse', 'huber'):
        c.harness(f'SarsaBox-{loss}', h_update('SarsaBox', loss, 1), **J)
        c.harness(f'ClippedDoubleQLearningBox-{loss}',
                  h_update('ClippedDoubleQLearningBox', loss, 1), **J)
    for reg in ('entropy', 'kl'):
        for alg in ('SimpleTD', 'Sarsa') + ('ClippedDoubleQLearningBox',) * (reg == 'kl'):
            c.harness(f'{alg}-{reg}', h_update(alg, 'mse', 1, reg), **J)
    return c
