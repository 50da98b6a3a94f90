"""P11: every TD-learning algorithm bootstraps from exactly its documented target."""
import numpy as onp

from engine.harness import Check
from engine.jaxrng import with_draws
from . import fa

# S, A, S_next, A_next
PATTERNS = [([0, 1], [1, 0], [2, 0], [0, 1]),
            ([0, 2], [0, 0], [0, 1], [1, 1]),
            ([1, 1], [1, 0], [1, 1], [1, 0])]


def ident():
    return None, (lambda x: x), (lambda x: x)


def lin(a, b):
    """ value transform x -> a x + b """
    def mk():
        return ((lambda x: a * x + b), (lambda x: (x - b) / a)), \
            (lambda x: a * x + b), (lambda x: (x - b) / a)
    return mk


VT = {'id': (ident, ident), 'same': (lin(2, 1), lin(2, 1)), 'diff': (lin(2, 1), lin(4, -3))}


def rows(h, box=0, B=2):
    S, A, Sn, An = PATTERNS[h.choice('pattern', 0, len(PATTERNS) - 1)]
    S, Sn = onp.array(S[:B]), onp.array(Sn[:B])
    if not box:
        return S, onp.array(A[:B]), Sn, onp.array(An[:B])
    return S, h.reals('A', (B, box), -1, 1), Sn, h.reals('An', (B, box), -1, 1)


def run(h, td, syms, d, S, A, Sn, An, draws=None):
    """ -> (td_errors as reported by td_error, those of grads_and_metrics) """
    def fn(d, S, A, Sn, An):
        tb = fa.batch(d, S, A, Sn, An)
        return td.td_error(tb), td.grads_and_metrics(tb)[3]
    if draws is not None:
        g = with_draws(fn)
        return fa.call(h, syms, g, draws, d, S, A, Sn, An)
    return fa.call(h, syms, fn, d, S, A, Sn, An)


def verdict(h, errs, pred, target, msg='td_error == target - prediction'):
    """ with the mse loss, the TD error of each row is the target minus the prediction """
    for k, e in enumerate(errs):
        h.check(e.shape == (len(pred),), 'one TD error per transition')
        for i in range(len(pred)):
            h.check_eq(e[i], target[i] - pred[i], f'{msg} (row {i}, {"td_error grads".split()[k]})')


def setup(vt, targ):
    (t0, f, _), (t1, _, finv) = VT[vt][0](), VT[vt][1 if targ else 0]()
    return t0, t1, f, finv


def h_v(targ, vt):
    def fn(h):
        from coax.td_learning import SimpleTD
        from coax.value_losses import mse
        e = fa.env()
        t0, t1, f, finv = setup(vt, targ)
        v = fa.v(e, value_transform=t0)
        vt_ = fa.v(e, value_transform=t1) if targ else None
        td = SimpleTD(v, v_targ=vt_, loss_function=mse)
        sv = fa.Sym(h, 'v', v)
        st = fa.Sym(h, 'vt', vt_) if targ else sv
        S, A, Sn, An = rows(h)
        d = fa.fields(h, 2)
        errs = run(h, td, [sv] + [st] * targ, d, S, A, Sn, An)
        G = [f(d['Rn'][i] + d['In'][i] * finv(st.v(Sn[i]))) for i in range(2)]
        verdict(h, errs, [sv.v(S[i], True) for i in range(2)], G)
    return fn


def mkq(e, typ, t):
    return (fa.q1 if typ == 1 else fa.q2)(e, value_transform=t)


def softmax(h, z):
    ex = [h.exp(v) for v in z]
    t = sum(ex[1:], ex[0])
    return [v / t for v in ex]


def greedy(h, vals, other=None):
    """ average of `other` over the maximisers of vals """
    other = vals if other is None else other
    m = fa.hmax(h, vals)
    num, den = 0, 0
    for a, b in zip(vals, other):
        num = num + h.ite(a >= m, b, 0)
        den = den + h.ite(a >= m, 1, 0)
    return num / den


def h_q(alg, typ, targ, vt, na=2, box=0):
    def fn(h):
        import coax.td_learning as T
        from coax.value_losses import mse
        e = fa.env(na, box=(box,) if box else None)
        t0, t1, f, finv = setup(vt, targ)
        q = mkq(e, typ, t0)
        qt = mkq(e, typ, t1) if targ else None
        kw, pis = {}, []
        if alg == 'ExpectedSarsa' or (box and alg in ('QLearning', 'DoubleQLearning')):
            p = fa.pi(e)
            kw['pi_targ'] = p
            pis = [fa.Sym(h, 'pi', p, -3, 3)]
        tau = 1
        if alg == 'SoftQLearning':
            tau = h.num(1.0) if vt == 'id' else h.num(0.5)
            kw['temperature'] = float(tau)
        td = getattr(T, alg)(q, q_targ=qt, loss_function=mse, **kw)
        lim = (-3, 3) if alg == 'SoftQLearning' else (-9, 9)
        sq = fa.Sym(h, 'q', q, *lim)
        st = fa.Sym(h, 'qt', qt, *lim) if targ else sq
        S, A, Sn, An = rows(h, box)
        d = fa.fields(h, 2)
        errs = run(h, td, [sq] + [st] * targ + pis, d, S, A, Sn, An)
        G = []
        for i in range(2):
            s = Sn[i]
            if alg == 'Sarsa':
                nxt = st.q(s, An[i])
            elif alg == 'ExpectedSarsa':
                pr = softmax(h, pis[0].logits(s))
                nxt = sum(pr[a] * st.q(s, a) for a in range(na))
            elif box:
                nxt = (st if alg == 'QLearning' else sq).q(s, pis[0].mu(s))
            elif alg == 'QLearning':
                nxt = greedy(h, [st.q(s, a) for a in range(na)])
            elif alg == 'DoubleQLearning':
                nxt = greedy(h, [st.q(s, a) for a in range(na)],
                             [sq.q(s, a) for a in range(na)])
            else:
                ex = [h.exp(st.q(s, a) / tau) for a in range(na)]
                nxt = tau * h.log(sum(ex[1:], ex[0]))
            if alg == 'DoubleQLearning':
                # evaluated by q, in the units of q_targ's transform: only equal ones are claimed
                assert vt != 'diff'
            G.append(f(d['Rn'][i] + d['In'][i] * finv(nxt)))
        verdict(h, errs, [sq.q(S[i], A[i], True) for i in range(2)], G)
    return fn


def h_clipped(alg, typ, nq, npi, vt, na=2, box=0):
    def fn(h):
        import coax.td_learning as T
        from coax.value_losses import mse
        e = fa.env(na, box=(box,) if box else None)
        t0, f, _ = VT[vt][0]()
        tr = [VT[vt][j % 2]() for j in range(nq)]
        q = mkq(e, typ, t0)
        qts = [mkq(e, typ, tr[j][0]) for j in range(nq)]
        ps = [fa.pi(e) for _ in range(npi)]
        td = getattr(T, alg)(q, pi_targ_list=ps or None, q_targ_list=qts, loss_function=mse)
        sq = fa.Sym(h, 'q', q)
        sts = [fa.Sym(h, f'qt{j}', x) for j, x in enumerate(qts)]
        pis = [fa.Sym(h, f'pi{j}', x, -2, 2) for j, x in enumerate(ps)]
        S, A, Sn, An = rows(h, box)
        d = fa.fields(h, 2)
        soft = alg.startswith('Soft') and box
        draws = {'n': [h.reals(f'eps{j}', (2, box), -3, 3) for j in range(npi)] * 2} \
            if soft else None
        errs = run(h, td, [sq] + sts + pis, d, S, A, Sn, An, draws)
        G = []
        for i in range(2):
            s = Sn[i]
            cand = []
            if box:
                for j, p in enumerate(pis):
                    a = p.mu(s)
                    if soft:
                        a = [m + h.exp(lv / 2) * draws['n'][j][i, c]
                             for c, (m, lv) in enumerate(zip(a, p.logvar(s)))]
                    cand += [tr[k][2](x.q(s, a)) for k, x in enumerate(sts)]
            else:
                for x in sts:
                    cand += [tr[k][2](greedy(h, [x.q(s, a) for a in range(na)],
                                             [y.q(s, a) for a in range(na)]))
                             for k, y in enumerate(sts)]
            G.append(f(d['Rn'][i] + d['In'][i] * fa.hmin(h, cand)))
        verdict(h, errs, [sq.q(S[i], A[i], True) for i in range(2)], G)
    return fn


def build(tier):
    th = tier == 'thorough'
    c = Check('P11', bounds={
        'batch': 2, 'states': 3, 'actions': '2-3 discrete, or Box of size 1-2',
        'index patterns of S, A, S_next, A_next': len(PATTERNS),
        'parameters, state, Rn, In, W': 'all reals within +-9, +-20, [0,1], [0,20]'},
        assumptions=['function approximators are tables over states (quadratic in Box actions); '
                     'any approximator gives some such values on a given batch',
                     'value transforms: identity and affine maps'])
    J = dict(numpy=False, prune=True, cases=True, conc=4)
    for targ in (0, 1):
        for vt in ('id', 'same', 'diff'):
            if vt == 'diff' and not targ:
                continue
            c.harness(f'SimpleTD-{targ}-{vt}', h_v(targ, vt), **J)
    for typ in (1, 2):
        for targ in (0, 1):
            for alg in ('Sarsa', 'ExpectedSarsa', 'QLearning', 'DoubleQLearning', 'SoftQLearning'):
                for vt in ('id', 'same', 'diff'):
                    if vt == 'diff' and (not targ or alg == 'DoubleQLearning'):
                        continue
                    if vt == 'same' and targ and not th:
                        if alg != 'DoubleQLearning':
                            continue
                    c.harness(f'{alg}-{typ}-{targ}-{vt}', h_q(alg, typ, targ, vt), **J)
    for alg in ('Sarsa', 'QLearning', 'DoubleQLearning'):
        c.harness(f'{alg}-box', h_q(alg, 1, 1, 'id', box=1), **J)
        c.harness(f'{alg}-box2', h_q(alg, 1, 1, 'same', box=2), **J)
    for alg in ('QLearning', 'DoubleQLearning', 'ExpectedSarsa'):
        c.harness(f'{alg}-3', h_q(alg, 2, 1, 'id', na=3), **J)
    for alg in ('ClippedDoubleQLearning', 'SoftClippedDoubleQLearning'):
        for typ in (1, 2):
            c.harness(f'{alg}-{typ}-2', h_clipped(alg, typ, 2, 0, 'id'), **J)
            c.harness(f'{alg}-{typ}-2-diff', h_clipped(alg, typ, 2, 0, 'diff'), **J)
        for nq, npi in ((2, 1), (1, 2), (2, 2)):
            c.harness(f'{alg}-box-{nq}{npi}', h_clipped(alg, 1, nq, npi, 'id', box=1), **J)
        c.harness(f'{alg}-box-diff', h_clipped(alg, 1, 2, 2, 'diff', box=1), **J)
        if th:
            c.harness(f'{alg}-2-3', h_clipped(alg, 2, 3, 0, 'id'), **J)
            c.harness(f'{alg}-3', h_clipped(alg, 2, 2, 0, 'id', na=3), **J)
    return c
