"""P23: histories of updates, soft updates, copies and restores of parameters and optimizer state."""
import numpy as onp

from engine.harness import Check
from . import fa
from .p13 import stubs

B, NA, LR, MU = 2, 2, 0.5, 0.5
OPS = ('update', 'soft', 'lr', 'save', 'restore')


def optimizer(name, lr):
    import optax
    if name == 'sgd':
        return optax.sgd(lr)
    if name == 'momentum':
        return optax.sgd(lr, momentum=MU)
    return optax.chain(optax.add_decayed_weights(0.25), optax.sgd(lr, momentum=MU))


class Model:
    """ oracle: parameters by name, state, momentum """

    def __init__(self, h, opt, sym):
        self.h, self.opt, self.lr = h, opt, h.num(LR)
        self.p, self.b = dict(sym.p), sym.b
        self.m = {k: 0 * x for k, x in self.p.items()} if opt != 'sgd' else None

    def step(self, g, b):
        h, mu = self.h, self.h.num(MU)
        g = {k: g[k] + h.num(0.25) * x if self.opt == 'decay' else g[k] for k, x in self.p.items()}
        if self.m is not None:
            g = self.m = {k: mu * self.m[k] + g[k] for k in g}
        self.p = {k: x - self.lr * g[k] for k, x in self.p.items()}
        self.b = b

    def soft(self, other, tau):
        self.p = {k: (1 - tau) * x + tau * other.p[k] for k, x in self.p.items()}
        self.b = (1 - tau) * self.b + tau * other.b

    def get(self):
        return self.p, self.b

    def full(self):
        return self.p, self.b, self.m

    def set(self, x):
        self.p, self.b, self.m = x


def same(h, got, want, what):
    p, b = got
    p = fa.grad_of(p)
    for k, v in want[0].items():
        for ix in (onp.ndindex(*onp.shape(v)) if onp.shape(v) else [()]):
            h.check_eq(p[k][ix] if ix else p[k], v[ix] if ix else v, f'{what}: parameter {k}{ix}')
    h.check_eq(fa.state_of(b), want[1], f'{what}: function state')


def make(h, kind, opt):
    """ approximator, its target copy, updater """
    import coax
    import coax.td_learning as T
    import coax.policy_objectives as P
    kw = dict(optimizer=optimizer(opt, LR))
    if kind == 'v':
        f = fa.v(fa.env(NA, 2))
        t = f.copy()
        u = T.SimpleTD(f, t, loss_function=coax.value_losses.mse, **kw)
    elif kind in ('q1', 'q2'):
        f = getattr(fa, kind)(fa.env(NA, 2))
        t = f.copy(deep=True)
        u = {'q1': T.QLearning, 'q2': T.Sarsa}[kind](
            f, q_targ=t, loss_function=coax.value_losses.mse, **kw)
    elif kind == 'sv':
        e = fa.env(NA, 2)
        f = coax.StochasticV(fa.sfunc(e, 'v', 2), e, value_range=(-1, 1), num_bins=2, random_seed=1)
        t = f.copy()
        u = T.SimpleTD(f, t, **kw)
    elif kind == 'pi':
        f = fa.pi(fa.env(NA, 2))
        t = f.copy()
        u = P.VanillaPG(f, **kw)
    elif kind == 'ppo':
        f = fa.pi(fa.env(NA, 2, box=(1,)))
        t = f.copy(deep=True)
        u = P.PPOClip(f, **kw)
    elif kind == 'r':
        f = fa.q1(fa.env(NA, 2), cls=coax.RewardFunction)
        t = f.copy()
        u = coax.model_updaters.ModelUpdater(f, **kw)
    else:
        from .p21 import raw
        f = raw(fa.env(NA, 2), coax.TransitionModel, 2)
        t = f.copy()
        u = coax.model_updaters.ModelUpdater(f, **kw)
    return f, t, u


def h_life(kind, opt, n, first=None, real=False):
    """ n operations on (approximator, target copy, updater) """
    def fn(h):
        import jax
        f, t, u = make(h, kind, opt)
        sf, st = fa.Sym(h, 'f', f, -4, 4), fa.Sym(h, 't', t, -4, 4)
        ops = [OPS[h.choice(f'op{i}', 0, len(OPS) - 1)] if i or first is None else first
               for i in range(n)]
        tau = [h.real(f'tau{i}', 0, 1) if op == 'soft' else 0 for i, op in enumerate(ops)]
        mf, mt = Model(h, opt, sf), Model(h, opt, st)
        args, wants = [], []
        saved, msaved = None, None
        for i, op in enumerate(ops):
            if op == 'update' and real:
                # SimpleTD, mse: two rows, state 0 -> 1 and 1 -> 1
                d = {k: h.reals(f'{k}{i}', (B,), -4, 4) for k in ('Rn', 'In')}
                d['logP'] = onp.zeros(B, 'float32')
                d['W'] = onp.ones(B, 'float32')
                args.append(d)
                g = {'w': 0 * mf.p['w'], 'd': 0}
                for j in range(B):
                    e = (mf.p['w'][j, 0] + mf.p['d'] + mf.b
                         - d['Rn'][j] - d['In'][j] * (mt.p['w'][1, 0] + mt.b)) / 2
                    g['w'][j, 0] = g['w'][j, 0] + e
                    g['d'] = g['d'] + e
                mf.step(g, mf.b + 1)
            elif op == 'update':
                leaves, td = jax.tree_util.tree_flatten(f.params)
                names = [p[-1].key for p, _ in jax.tree_util.tree_flatten_with_path(f.params)[0]]
                g = [h.reals(f'g{i}.{k}', x.shape, -4, 4) if x.shape else h.real(f'g{i}.{k}', -4, 4)
                     for k, x in zip(names, leaves)]
                b = h.real(f'b{i}', -4, 4)
                args.append((jax.tree_util.tree_unflatten(td, g),
                             jax.tree_util.tree_map(lambda _: b, f.function_state)))
                mf.step(dict(zip(names, g)), b)
            elif op == 'soft':
                args.append(tau[i])
                mt.soft(mf, tau[i])
            else:
                args.append(0)
                if op == 'lr':
                    mf.lr = mf.lr / 2
                elif op == 'save':
                    msaved = mf.full()
                elif msaved is not None:
                    mf.set(msaved)
            wants.append((mf.get(), mt.get(), msaved))

        def go(args):
            import coax
            old = u._optimizer_state, u._optimizer
            saved, lr, out = None, LR, []
            try:
                for op, a in zip(ops, args):
                    if op == 'update' and real:
                        u.update(coax.reward_tracing.TransitionBatch(
                            S=onp.array([0, 1]), A=onp.array([0, 0]), S_next=onp.array([1, 1]),
                            A_next=None, logP_next=None, **a))
                    elif op == 'update':
                        u.apply_grads(*a)
                    elif op == 'soft':
                        t.soft_update(f, a)
                    elif op == 'lr':
                        lr = lr / 2
                        u.optimizer = optimizer(opt, lr)
                    elif op == 'save':
                        saved = f.copy(), u.optimizer_state
                    elif saved is not None:
                        f.params, f.function_state = saved[0].params, saved[0].function_state
                        u.optimizer_state = saved[1]
                    out.append([(x.params, x.function_state) for x in
                                (f, t) + ((saved[0],) if saved else ())])
                return out
            finally:
                u._optimizer_state, u._optimizer = old
        with stubs(h):
            out = fa.call(h, [sf, st], go, args)
        for i, (o, w) in enumerate(zip(out, wants)):
            s = f'after {"-".join(ops[:i + 1])}'
            same(h, o[0], w[0], f'{s}: approximator')
            same(h, o[1], w[1], f'{s}: target')
            if len(o) > 2:
                same(h, o[2], w[2][:2], f'{s}: copy')
    return fn


def h_calls(kind):
    """ copies answer with their own parameters, whichever object changed afterwards """
    def fn(h):
        f, t, u = make(h, kind, 'sgd')
        deep = h.choice('deep', 0, 1)
        sf, st = fa.Sym(h, 'f', f, -4, 4), fa.Sym(h, 't', t, -4, 4)
        s = h.choice('s', 0, 1)
        a = h.choice('a', 0, 1) if kind != 'v' else 0
        args = (s,) if kind == 'v' else (s, a)

        def go():
            r = [f(*args), t(*args)]
            if deep:
                c = t
            else:
                c = f.copy()
                c.params, c.function_state = t.params, t.function_state
                r[1] = c(*args)
            p, b = f.params, f.function_state
            f.params, f.function_state = c.params, c.function_state
            c.params, c.function_state = p, b
            return r + [f(*args), c(*args)]
        out = fa.ask(h, [sf, st], go)
        val = [x.v(s) if kind == 'v' else x.q(s, a) for x in (sf, st)]
        for o, i, what in zip(out, (0, 1, 1, 0), ('original', 'copy', 'original after exchange',
                                                  'copy after exchange')):
            h.check_eq(o, val[i], f'value of the {what}')
    return fn


def h_guards(kind):
    """ parameters, states and optimizers of another structure are refused, nothing changes """
    def fn(h):
        import coax
        import optax
        f, t, u = make(h, kind, 'momentum')
        other = fa.v(fa.env(NA, 2)) if kind != 'v' else fa.q1(fa.env(NA, 2))
        sf = fa.Sym(h, 'f', f, -4, 4)
        bad = {'x': onp.zeros(2)}

        def go():
            out = []
            for fn, err in (
                    (lambda: setattr(f, 'params', bad), TypeError),
                    (lambda: setattr(f, 'function_state', bad), TypeError),
                    (lambda: f.soft_update(other, 0.5), TypeError),
                    (lambda: setattr(u, 'optimizer', optax.adam(1.)), AttributeError),
                    (lambda: setattr(u, 'optimizer_state', bad), AttributeError)):
                try:
                    fn()
                    out.append(0.)
                except err:
                    out.append(1.)
            return out, f.params, f.function_state
        out, p, b = fa.call(h, [sf], go)
        for o, what in zip(out, ('params', 'function state', 'soft update from another class',
                                 'optimizer', 'optimizer state')):
            if what == 'optimizer state' and kind in ('pi', 'ppo'):
                continue        # not checked by the policy objectives
            h.check_eq(o, 1, f'{what}: other structure refused')
        same(h, (p, b), (sf.p, sf.b), 'after refused changes')
    return fn


KINDS = ('v', 'q1', 'q2', 'sv', 'pi', 'ppo', 'r', 'p')


def build(tier):
    th = tier == 'thorough'
    n = 5 if th else 3
    c = Check('P23', bounds={
        'operations': n, 'states': 2, 'actions': 2,
        'optimizers': 'sgd, sgd with momentum, momentum with weight decay',
        'parameters, gradients, states': 'all reals within +-4', 'tau': '[0,1]'},
        assumptions=['gradients are not NaN (real arithmetic)'])
    J = dict(numpy=False, prune=True, cases=True, conc=4, budget_s=300)
    for i, kind in enumerate(KINDS):
        opt = ('momentum', 'decay', 'sgd')[i % 3]
        c.harness(f'{kind}-{opt}', h_life(kind, opt, n), **J)
        c.harness(f'{kind}-guards', h_guards(kind), **J)
    for opt in ('momentum', 'sgd', 'decay')[:3 if th else 1]:
        c.harness(f'real-v-{opt}', h_life('v', opt, 4, 'update', real=True), **J)
    for kind in ('v', 'q1', 'q2', 'r'):
        c.harness(f'{kind}-calls', h_calls(kind), **J)
    return c
