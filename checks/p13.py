"""P13: a policy update is exactly one gradient step on the documented objective."""
import numpy as onp

from engine.harness import Check
from engine.jaxrng import with_draws
from . import fa

B = 2
LR = 0.5
PAT = [([0, 1], [1, 0]), ([2, 2], [0, 1]), ([1, 1], [1, 1])]


class Grad:
    """ gradient of sum_i c_i * f_i with respect to the parameters of a table policy """

    def __init__(self, sp):
        self.sp = sp
        self.g = {k: onp.zeros(onp.shape(v), dtype=object) if onp.shape(v) else 0
                  for k, v in sp.p.items()}

    def logits(self, s, dz, training=True):
        for k, x in enumerate(dz):
            self.g['w'][s, k] = self.g['w'][s, k] + x
        if training:
            self.g['d'] = self.g['d'] + dz[0]

    def mu(self, s, dmu, training=True):
        for k, x in enumerate(dmu):
            self.g['w'][s, k] = self.g['w'][s, k] + x
            if training:
                self.g['d'] = self.g['d'] + x

    def logvar(self, s, dl):
        for k, x in enumerate(dl):
            self.g['l'][s, k] = self.g['l'][s, k] + x


def logsoftmax(h, z):
    ex = [h.exp(v) for v in z]
    t = sum(ex[1:], ex[0])
    return [v - h.log(t) for v in z], [x / t for x in ex]


class stubs:
    """ jnp.all(logP == 0) only decides about a warning """

    def __init__(self, h):
        self.h = h

    def __enter__(self):
        import jax.numpy as jnp
        self.nn = fa.maybe_no_nan(self.h)
        self.nn.__enter__()
        self.all = jnp.all
        if self.h.symbolic:
            jnp.all = lambda x, *a, **k: False

    def __exit__(self, *a):
        import jax.numpy as jnp
        jnp.all = self.all
        self.nn.__exit__(None, None, None)


def h_obj(kind, box=0, na=2, reg=None, pat=0, eps=0.25, nq=2):
    def fn(h):
        import coax
        import optax
        import coax.policy_objectives as P
        e = fa.env(na, box=(box,) if box else None)
        p = fa.pi(e)
        sp = fa.Sym(h, 'pi', p, -2, 2)
        R = None
        beta = h.num(0.5)
        if reg == 'entropy':
            R = coax.regularizers.EntropyRegularizer(p, beta=0.5)
        elif reg == 'kl':
            R = coax.regularizers.KLDivRegularizer(p, beta=0.5)
        kw = dict(optimizer=optax.sgd(LR), regularizer=R)
        sq, qs = [], []
        if kind in ('DeterministicPG', 'SoftPG'):
            qs = [fa.q1(e) for _ in range(nq if kind == 'SoftPG' else 1)]
            sq = [fa.Sym(h, f'q{j}', q, -4, 4) for j, q in enumerate(qs)]
        if kind == 'PPOClip':
            obj = P.PPOClip(p, epsilon=eps, **kw)
        elif kind == 'DeterministicPG':
            obj = P.DeterministicPG(p, qs[0], **kw)
        elif kind == 'SoftPG':
            obj = P.SoftPG(p, q_targ_list=qs, **kw)
        else:
            obj = P.VanillaPG(p, **kw)
        S, A = [onp.array(x) for x in PAT[pat]]
        if box:
            A = h.reals('A', (B, box), -1, 1)
        ppo = h.choice('ratio', 0, 5) if kind == 'PPOClip' else 0
        rg = [(0, 1), (1, 2), (2, 0), (1, 1)][
            ppo % 4 if kind == 'PPOClip' else 1 if kind == 'SoftPG' and not box else
            h.choice('wregion', 0, 3)]
        Wc = []
        d = {'Rn': h.reals('Rn', (B,), -1, 1), 'In': h.reals('In', (B,), 0, 1),
             'W': h.arr([h.real(f'W{i}', *[(0, 0.1), (0.1, 10), (10, 30)][rg[i]])
                         for i in range(B)])}
        for i in range(B):
            Wc.append([h.num(0.1), d['W'][i], 10][rg[i]])
        if not box:
            for s in sorted(set(S.tolist())):
                for z in (sp.logits(s, True), sp.logits(s, False))[:1 + bool(reg)]:
                    for x in z[1:]:
                        if not bool(z[0] >= x) and len(z) > 2:
                            bool(z[1] >= z[2])
        lp = [logsoftmax(h, sp.logits(s, True)) for s in S] if not box else None
        draws = {}
        if kind == 'PPOClip':
            # the ratio and the sign of the advantage, region by region
            r0, r1 = [(0, 3), (1, 4), (2, 5), (3, 1), (4, 2), (5, 0)][ppo]
            rho, Adv = [], []
            for i, r in enumerate((r0, r1)):
                lo, hi = [(0.0625, 1 - eps), (1 - eps, 1 + eps), (1 + eps, 8)][r % 3]
                rho.append(h.real(f'rho{i}', lo, hi))
                h.assume(h.and_(rho[i] != h.num(1 - eps), rho[i] != h.num(1 + eps)))
                Adv.append(h.real(f'Adv{i}', *[(0.125, 5), (-5, -0.125)][r // 3]))
            if not box:
                d['logP'] = h.arr([lp[i][0][A[i]] - h.log(rho[i]) for i in range(B)])
            else:
                d['logP'] = h.arr([0, 0])    # set below, inside go
            Adv = h.arr(Adv)
        else:
            Adv = h.reals('Adv', (B,), -5, 5) if kind == 'VanillaPG' else None
            d['logP'] = h.reals('logP', (B,), -5, 0)
        if kind == 'SoftPG':
            draws = {'n': [h.reals('eps', (B, box), -3, 3)]} if box else \
                {'g': [h.reals('gum', (B, na), -2, 2)]}
        syms = [sp] + sq

        # the objective of each row: value, and the gradient of minus (Wc_i / B) * value
        G = Grad(sp)
        val = []
        for i in range(B):
            s = S[i]
            c = -Wc[i] / h.num(B)
            if kind in ('VanillaPG', 'PPOClip') and not box:
                lpi, pr = lp[i]
                dz = [(1 if k == A[i] else 0) - pr[k] for k in range(na)]
                if kind == 'VanillaPG':
                    val.append(Adv[i] * lpi[A[i]])
                    G.logits(s, [c * Adv[i] * x for x in dz])
                else:
                    r = (r0, r1)[i]
                    pos = r // 3 == 0
                    reg_ = r % 3
                    clipped = reg_ == 2 if pos else reg_ == 0
                    if clipped:
                        val.append(Adv[i] * h.num(1 + eps if pos else 1 - eps))
                    else:
                        val.append(Adv[i] * rho[i])
                        G.logits(s, [c * Adv[i] * rho[i] * x for x in dz])
            elif kind == 'VanillaPG':
                pass                                    # below: needs the preprocessed action
            elif box:
                mu, lv = sp.mu(s, True), sp.logvar(s)
                sd = [h.exp(v / 2) for v in lv]
                ep = draws['n'][0][i] if draws else [0] * box
                a = [m + x * y for m, x, y in zip(mu, sd, ep)] if draws else mu
                qv = [x.q(s, a, True) for x in sq]
                best = 0
                for j in range(1, len(qv)):
                    h.assume(qv[best] != qv[j])
                    if not bool(qv[best] < qv[j]):
                        best = j
                val.append(qv[best])
                x = sq[best]
                dq = [x.p['w1'][s, k] + 2 * x.p['w2'][s, k] * a[k] for k in range(box)]
                G.mu(s, [c * v for v in dq])
                if draws:
                    G.logvar(s, [c * v * y * z / 2 for v, y, z in zip(dq, ep, sd)])
            else:
                # the documented differentiable samples and modes of a categorical distribution
                z = sp.logits(s, True)
                tau = h.num(0.2)
                y = [(v + g) / tau for v, g in zip(z, draws['g'][0][i] if draws else [0] * na)]
                for t in y[1:]:
                    bool(y[0] >= t)
                x = logsoftmax(h, y)[1]
                qv = [sum(x[k] * q.p['w'][s, k] for k in range(na)) + q.off(True) for q in sq]
                best = 0
                for j in range(1, len(qv)):
                    h.assume(qv[best] != qv[j])
                    if not bool(qv[best] < qv[j]):
                        best = j
                val.append(qv[best])
                m = sum(x[k] * sq[best].p['w'][s, k] for k in range(na))
                G.logits(s, [c * x[k] * (sq[best].p['w'][s, k] - m) / tau for k in range(na)])

        def go(d, S, A, Adv):
            import jax
            import jax.numpy as jnp
            x = p.proba_dist.preprocess_variate(jax.random.PRNGKey(0), A)
            tb = fa.batch(d, S, A, S)
            m = obj.update(tb, Adv) if Adv is not None else obj.update(tb)
            n = type(obj).__name__
            m = {k: m[k] for k in (f'{n}/loss', f'{n}/loss_bare')}
            return [(s.f.params, s.f.function_state) for s in syms], m, jnp.asarray(x)
        with stubs(h):
            if draws:
                out, m, x = fa.call(h, syms, with_draws(go), draws, d, S, A, Adv)
            else:
                out, m, x = fa.call(h, syms, go, d, S, A, Adv)

        if kind == 'VanillaPG' and box:
            l2p = h.num(float(onp.log(2 * onp.pi)))
            for i in range(B):
                s, c = S[i], -Wc[i] / h.num(B)
                mu, lv = sp.mu(s, True), sp.logvar(s)
                iv = [h.exp(-v) for v in lv]
                dx = [x[i, k] - mu[k] for k in range(box)]
                val.append(Adv[i] * sum(-(l2p + lv[k] + dx[k] * dx[k] * iv[k]) / 2
                                        for k in range(box)))
                G.mu(s, [c * Adv[i] * dx[k] * iv[k] for k in range(box)])
                G.logvar(s, [c * Adv[i] * (dx[k] * dx[k] * iv[k] - 1) / 2 for k in range(box)])
        rval = []
        for i in range(B):
            s, c = S[i], Wc[i] / h.num(B)
            if not reg:
                rval.append(0)
            elif box:
                mu, lv = sp.mu(s), sp.logvar(s)
                if reg == 'entropy':
                    l2p = h.num(float(onp.log(2 * onp.pi)))
                    rval.append(-beta * sum(v + 1 + l2p for v in lv) / 2)
                    G.logvar(s, [-c * beta / 2 for v in lv])
                else:
                    rval.append(beta * sum(h.exp(v) + t * t - 1 - v for t, v in zip(mu, lv)) / 2)
                    G.mu(s, [c * beta * t for t in mu], False)
                    G.logvar(s, [c * beta * (h.exp(v) - 1) / 2 for v in lv])
            else:
                l, pr = logsoftmax(h, sp.logits(s))
                H = -sum(u * v for u, v in zip(l, pr))
                rval.append(-beta * H if reg == 'entropy' else beta * (h.log(na) - H))
                G.logits(s, [c * beta * u * (v + H) for u, v in zip(pr, l)], False)

        new = fa.grad_of(out[0][0])
        for k, v in sp.p.items():
            for ix in (onp.ndindex(*onp.shape(v)) if onp.shape(v) else [()]):
                got, old, gv = (new[k][ix], v[ix], G.g[k][ix]) if ix else (new[k], v, G.g[k])
                h.check_eq(got, old - h.num(LR) * gv, f'one gradient step: parameter {k}{ix}')
        h.check_eq(fa.state_of(out[0][1]), sp.b + 1, 'function state of one training pass')
        for s, (pp, st) in zip(sq, out[1:]):
            pp = fa.grad_of(pp)
            for k in s.p:
                h.check_eq(pp[k], s.p[k], 'value functions are left alone')
            h.check_eq(fa.state_of(st), s.b, 'function states of value functions are left alone')
        n = type(obj).__name__
        bare = -sum(w * v for w, v in zip(Wc, val)) / h.num(B)
        full = bare + sum(w * v for w, v in zip(Wc, rval)) / h.num(B)
        eq = h.check_near if box and (kind == 'VanillaPG' or reg == 'entropy') or reg == 'kl' \
            else h.check_eq
        eq(m[f'{n}/loss_bare'], bare, 'reported loss without regularization')
        eq(m[f'{n}/loss'], full, 'reported loss')
    return fn


def build(tier):
    th = tier == 'thorough'
    c = Check('P13', bounds={
        'batch': B, 'states': 3, 'actions': '2 (3), or Box of size 1-2', 'optimizer': 'sgd',
        'parameters, state, Adv, W, ratio, draws': 'all reals within +-2, +-5, [0,30], [1/16,8], '
        '+-3'},
        assumptions=['policies and value functions are tables over states (value functions '
                     'quadratic in Box actions)', 'gradients are not NaN (real arithmetic)'])
    J = dict(numpy=False, prune=True, cases=True, conc=4, budget_s=300)
    for pat in range(3):
        c.harness(f'VanillaPG-{pat}', h_obj('VanillaPG', pat=pat), **J)
        c.harness(f'PPOClip-{pat}', h_obj('PPOClip', pat=pat), **J)
    c.harness('VanillaPG-3', h_obj('VanillaPG', na=3), **J)
    c.harness('VanillaPG-box', h_obj('VanillaPG', box=1), **J)
    c.harness('VanillaPG-box2', h_obj('VanillaPG', box=2, pat=1), **J)
    c.harness('DeterministicPG-box', h_obj('DeterministicPG', box=1), **J)
    c.harness('DeterministicPG-box2', h_obj('DeterministicPG', box=2, pat=1), **J)
    c.harness('DeterministicPG', h_obj('DeterministicPG'), **J)
    for nq in (1, 2, 3) if th else (1, 2):
        c.harness(f'SoftPG-box-{nq}', h_obj('SoftPG', box=1, nq=nq, pat=nq % 2), **J)
    c.harness('SoftPG-1', h_obj('SoftPG', nq=1), **J)
    if th:
        c.harness('SoftPG-2', h_obj('SoftPG', nq=2, pat=2), **dict(J, budget_s=1500))
    for reg in ('entropy', 'kl'):
        c.harness(f'VanillaPG-{reg}', h_obj('VanillaPG', reg=reg), **J)
        c.harness(f'PPOClip-{reg}', h_obj('PPOClip', reg=reg, pat=1), **J)
        c.harness(f'DeterministicPG-{reg}', h_obj('DeterministicPG', box=1, reg=reg), **J)
        c.harness(f'SoftPG-{reg}', h_obj('SoftPG', box=1, nq=1, reg=reg), **J)
    return c
