"""Harness runner: symbolic exploration, solver verdicts, replay on the unpatched code, evidence."""
import builtins
import contextlib
import importlib
import json
import math
import os
import pkgutil
import random
import sys
import time
import traceback
import warnings
from fractions import Fraction

import numpy as onp

from . import sym as S
from .sym import z3, Sym, SArr, sarr, Unsupported

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = '/repo'


def _import_coax():
    warnings.filterwarnings('ignore')
    import logging
    logging.disable(logging.CRITICAL)
    import coax
    p = os.path.realpath(os.path.dirname(coax.__file__))
    assert p == os.path.realpath(os.path.join(REPO, 'coax')), p
    return coax


class Violated(Exception):
    """ an assertion failed in a concrete run """


class Skip(BaseException):
    """ the concrete inputs do not satisfy the harness assumptions """


class Cex(BaseException):
    def __init__(self, msg, values, kind):
        self.msg, self.values, self.kind = msg, values, kind


# ---------------------------------------------------------------------------------------------
def coax_modules():
    return [m for n, m in sorted(sys.modules.items())
            if m is not None and (n == 'coax' or n.startswith('coax.')) and not n.endswith('_test')]


@contextlib.contextmanager
def patched(shim, extra=()):
    """ install the symbolic numpy / float / int in every coax module """
    saved = []
    mods = coax_modules()

    def put(m, k, v):
        d = m.__dict__
        saved.append((d, k, d.get(k, saved)))
        d[k] = v
    try:
        for m in mods:
            for k, v in list(m.__dict__.items()):
                if v is onp:
                    put(m, k, shim)
                elif v is math:
                    put(m, k, S._MathShim())
            put(m, 'float', S.symfloat)
            put(m, 'int', S.symint)
            put(m, 'max', S._sym_builtin_max)
            put(m, 'min', S._sym_builtin_min)
        for m, k, v in extra:
            put(m, k, v)
        yield
    finally:
        for d, k, old in reversed(saved):
            if old is saved:
                d.pop(k, None)
            else:
                d[k] = old


# ---------------------------------------------------------------------------------------------
def _size(size):
    if size is None:
        return ()
    return tuple(int(v) for v in size) if hasattr(size, '__iter__') else (int(size),)


_RandomState = onp.random.RandomState


def random_module(h):
    """ numpy.random whose generators return harness inputs: any value of the documented range """
    h.draws = []

    def out(kind, shape, lo, hi):
        nm = f'draw{len(h.draws)}'
        v = h.ints(nm, shape, lo, hi) if kind == 'i' else h.reals(nm, shape, lo, hi)
        h.draws.append((kind, v))
        return v if shape else v[()]

    class Gen(_RandomState):
        def __init__(self, seed=None):
            _RandomState.__init__(self, 0)

        def rand(self, *shape): return out('u', tuple(int(v) for v in shape), 0, 0.999755859375)
        def random_sample(self, size=None): return self.rand(*_size(size))
        def random(self, size=None): return self.rand(*_size(size))
        def uniform(self, low=0.0, high=1.0, size=None):
            return low + (high - low) * self.rand(*_size(size))

        def randn(self, *shape): return out('n', tuple(int(v) for v in shape), -6, 6)
        def standard_normal(self, size=None): return self.randn(*_size(size))
        def normal(self, loc=0.0, scale=1.0, size=None):
            return loc + scale * self.randn(*_size(size))

        def randint(self, low, high=None, size=None, dtype=int):
            if high is None:
                low, high = 0, low
            return out('i', _size(size), int(low), int(high) - 1)

        def integers(self, low, high=None, size=None, dtype=int, endpoint=False):
            return self.randint(low, None if high is None else high + int(endpoint), size)

        def choice(self, *a, **k): raise Unsupported('random choice')
        permutation = shuffle = multinomial = choice

    class Mod:
        RandomState = Gen
        Generator = onp.random.Generator

        @staticmethod
        def default_rng(seed=None): return Gen(seed)

        def __getattr__(self, name): return getattr(onp.random, name)
    return Mod()


# ---------------------------------------------------------------------------------------------
class SymEnv:
    """ what a harness sees during symbolic exploration """
    symbolic = True

    def __init__(self, explorer, runner, spec):
        self.x = explorer
        self.runner = runner
        self.spec = spec
        self.inputs = {}
        self.pending = []
        self.S = S

    # -- inputs
    def real(self, name, lo=None, hi=None, nonzero=False):
        v = S.fresh_real(name)
        self.inputs[name] = v.e
        S.BOUNDS[name] = (-S.INF if lo is None else float(lo), S.INF if hi is None else float(hi))
        if lo is not None:
            self.x.assume(v.e >= S._zr(lo))
        if hi is not None:
            self.x.assume(v.e <= S._zr(hi))
        if nonzero:
            self.x.assume(v.e != 0)
        return v

    def int(self, name, lo, hi):
        v = S.fresh_int(name)
        self.inputs[name] = v.e
        S.BOUNDS[name] = (float(lo), float(hi))
        self.x.assume(z3.And(v.e >= lo, v.e <= hi))
        return v

    def bool(self, name):
        v = S.fresh_bool(name)
        self.inputs[name] = v.e
        return v

    def choice(self, name, lo, hi):
        """ an int in [lo, hi] that is forked into concrete values """
        return int(self.int(name, lo, hi))

    def flag(self, name):
        return bool(self.bool(name))

    def reals(self, name, shape, lo=None, hi=None):
        out = onp.empty(shape, dtype=object)
        for i in onp.ndindex(*out.shape):
            out[i] = self.real(name + ''.join(f'_{k}' for k in i), lo, hi)
        return out.view(SArr)

    def ints(self, name, shape, lo, hi):
        out = onp.empty(shape, dtype=object)
        for i in onp.ndindex(*out.shape):
            out[i] = self.int(name + ''.join(f'_{k}' for k in i), lo, hi)
        return out.view(SArr)

    def bools(self, name, shape):
        out = onp.empty(shape, dtype=object)
        for i in onp.ndindex(*out.shape):
            out[i] = self.bool(name + ''.join(f'_{k}' for k in i))
        return out.view(SArr)

    def arr(self, x):
        return sarr(x)

    def key(self):
        import jax
        return jax.random.PRNGKey(0)

    # -- maths for oracles
    exp = staticmethod(lambda x: _ew(S.s_exp, x))
    log = staticmethod(lambda x: _ew(S.s_log, x))
    sqrt = staticmethod(lambda x: _ew(S.s_sqrt, x))
    abs = staticmethod(lambda x: _ew(S.s_abs, x))
    floor = staticmethod(lambda x: _ew(S.s_floor, x))
    tanh = staticmethod(lambda x: _ew(S.s_tanh, x))
    max = staticmethod(lambda a, b: _ew2(S.s_max, a, b))
    min = staticmethod(lambda a, b: _ew2(S.s_min, a, b))
    pow = staticmethod(lambda a, b: _ew2(S.s_pow, a, b))

    @staticmethod
    def ite(c, a, b):
        if any(isinstance(v, onp.ndarray) for v in (c, a, b)):
            return S.vmapn(S.s_ite, c, a, b)
        return S.s_ite(c, a, b)

    @staticmethod
    def eq(a, b): return S.s_eq(a, b)
    @staticmethod
    def and_(*xs):
        r = True
        for v in xs:
            r = S.s_and(r, S.s_truth(v))
        return r

    @staticmethod
    def or_(*xs):
        r = False
        for v in xs:
            r = S.s_or(r, S.s_truth(v))
        return r

    @staticmethod
    def not_(x): return S.s_not(S.s_truth(x))

    @staticmethod
    def implies(a, b): return S.s_or(S.s_not(S.s_truth(a)), S.s_truth(b))

    @staticmethod
    def num(x):
        """ exact constant """
        return Fraction(str(x)) if isinstance(x, float) else x

    # -- calls into jax code
    def jax(self, fn, *args):
        from . import jaxsmt

        def make(kind, shape):
            self.runner.rng_n += 1
            nm = f'rng{self.runner.rng_n}'
            if kind == 'uniform':
                return self.reals(nm, shape, 0, 1)
            if kind == 'gumbel':
                return self.reals(nm, shape, -3, 10)
            return self.reals(nm, shape, -6, 6)
        with unpatched(self.runner):
            return jaxsmt.jax_eval(fn, args, jaxsmt.Rng(make))

    # -- assertions
    def assume(self, cond):
        c = S.s_truth(cond)
        if c is True:
            return
        if c is False:
            raise S.PathAbort()
        self.x.assume(c.e)

    def feasible(self):
        """ cut paths whose accumulated assumptions are unsatisfiable """
        if self.x._check() == z3.unsat:
            raise S.PathAbort()

    def check(self, cond, msg):
        if isinstance(cond, onp.ndarray):
            cond = S.np_reduce(lambda a, b: S.s_and(S.s_truth(a), S.s_truth(b)), cond, None,
                               False, True)
        c = S.s_truth(cond)
        self.runner.obligations += 1
        if c is True:
            self.runner.trivial += 1
            return
        self.pending.append((msg, z3.Not(S._zb(c)), None, None))

    def check_le(self, a, b, msg, tol=None):
        self.check(S.s_le(a, b), msg)

    def check_eq(self, a, b, msg, tol=None):
        a, b = _np_of_jax(a), _np_of_jax(b)
        if isinstance(a, (onp.ndarray, list, tuple)) or isinstance(b, (onp.ndarray, list, tuple)):
            fa, fb = S._obj_fill(a), S._obj_fill(b)
            if fa.shape != fb.shape:
                self.check(False, f'{msg}: shape {fa.shape} != {fb.shape}')
                return
            for i in onp.ndindex(*fa.shape):
                self.check_eq(fa[i], fb[i], msg)
            return
        if hasattr(a, 'shape') and not isinstance(a, Sym):
            a = onp.asarray(a)[()]
        if hasattr(b, 'shape') and not isinstance(b, Sym):
            b = onp.asarray(b)[()]
        if not (S._as_operand(a) and S._as_operand(b)):
            self.check(bool(a is b or a == b), msg)
            return
        self.runner.obligations += 1
        c = S.s_eq(a, b)
        if c is True:
            self.runner.trivial += 1
            return
        a, b = S._norm(a), S._norm(b)
        if c is False or isinstance(a, float) or isinstance(b, float):
            if c is False and not isinstance(a, Sym) and not isinstance(b, Sym) \
                    and not isinstance(a, float) and not isinstance(b, float) \
                    and abs(Fraction(a) - Fraction(b)) <= Fraction(1, 10**5) * (1 + abs(Fraction(b))):
                return
            self.pending.append((msg, z3.BoolVal(True), None, None))
            return
        d = S._zr(a) - S._zr(b)
        if self.zero(d):
            self.runner.trivial += 1
            return
        tol = Fraction(1, 100)
        robust = z3.Or(d > z3.RealVal(str(tol)), d < z3.RealVal(str(-tol)))
        self.pending.append((msg, S._zr(a) != S._zr(b), robust, d))

    def check_near(self, a, b, msg, tol=1e-5):
        """ |a - b| <= tol (constants are rounded to single precision in jax code) """
        if isinstance(a, onp.ndarray) and a.shape == () and not isinstance(a, Sym):
            a = a[()]
        d = S._zr(S._norm(a)) - S._zr(S._norm(b))
        self.runner.obligations += 1
        try:
            n, den = S.ratform(d)
            if all(k == () for k in n.t) and len(den.t) == 1 and () in den.t:
                v = n.t.get((), Fraction(0)) / den.t[()]
                if abs(v) <= Fraction(str(tol)):
                    self.runner.trivial += 1
                    return
        except S.TooBig:
            pass
        t = z3.RealVal(str(Fraction(str(tol))))
        self.pending.append((msg, z3.Or(d > t, d < -t), None, None))

    def zero(self, d):
        """ an identity of rational functions whose denominator cannot vanish """
        try:
            r, divs = S.ratform2(d)
        except S.TooBig:
            return False
        if r.n.t:
            return False
        return self.nonzero(divs)

    def nonzero(self, polys):
        for p in polys:
            e = p.z3()
            if not (S.known_positive(e) or self.x.entails(e != 0)):
                return False
        return True

    def witness(self, name):
        """ reachability twin: this program point must be reachable """
        w = self.runner.witnesses
        w.setdefault(name, False)
        if not w[name] and self.x._check() != z3.unsat:
            w[name] = True

    def fork_model(self):
        return None

    # -- deciding
    def flush(self):
        pend = [p for p in self.pending if p[0] not in self.runner.muted]
        self.pending = []
        if not pend:
            return
        simp = []
        for msg, bad, robust, d in pend:
            b = z3.simplify(bad, som=True)
            if z3.is_false(b):
                self.runner.trivial += 1
                continue
            simp.append((msg, bad, robust, d))
        if not simp:
            return
        full = self.spec.get('query_ms', 20000)
        if self.spec.get('cases'):
            rest = []
            for p in simp:
                if p[3] is not None and ite_conds(p[3]) and self.cases(p[3], full)[0] == z3.unsat:
                    self.runner.discharged += 1
                else:
                    rest.append(p)
            simp = rest
            if not simp:
                return
        if len(simp) > 1 and not self.spec.get('split', False):
            r, model = self.solve(z3.Or(*[p[1] for p in simp]), ms=builtins.min(full, 6000))
            if r == z3.unsat:
                self.runner.discharged += len(simp)
                return
        for msg, bad, robust, d in simp:
            has_ite = d is not None and bool(ite_conds(d))
            r, model = self.solve(bad, ms=builtins.min(full, 3000) if has_ite else full)
            if r == z3.unknown and has_ite:
                r, model = self.cases(d, full)
            if r == z3.unsat:
                self.runner.discharged += 1
                continue
            if robust is not None:
                r2, m2 = self.solve(robust, ms=5000)
                if r2 == z3.sat:
                    r, model = r2, m2
                elif r2 == z3.unsat and r != z3.sat:
                    # holds up to 1e-2: not claimed
                    pass
            if r == z3.sat:
                raise Cex(msg, self.values(model), 'assert')
            # inconclusive: let concrete runs look at it
            self.runner.unknown.setdefault(msg, 0)
            self.runner.unknown[msg] += 1

    def cases(self, d, ms):
        """ decide d == 0 by splitting on the conditions of its if-then-else terms """
        x = self.x
        t0 = time.time()
        s = z3.Solver()
        s.set('timeout', 2000)
        s.add(*x.pc)
        s.add(*S.atom_axioms(1))
        left = [self.spec.get('max_cases', 4000)]
        final = [z3.unsat, None]

        def sat():
            x.stats.queries += 1
            r = s.check()
            if r == z3.unsat:
                x.stats.unsat += 1
            elif r == z3.sat:
                x.stats.sat += 1
            else:
                x.stats.unknown += 1
            return r

        def go(e):
            """ False: stop """
            if time.time() - t0 > 4 * ms / 1000 or left[0] <= 0:
                final[0] = z3.unknown
                return False
            cs = ite_conds(e)
            if not cs:
                left[0] -= 1
                try:
                    r, divs = S.ratform2(e)
                    if not r.n.t and self.nonzero(divs):
                        return True
                except S.TooBig:
                    pass
                r, m = self._solve1(list(s.assertions()) + [e != 0], ms)
                if r == z3.unsat:
                    return True
                final[:] = [r, m]
                return False
            c = cs[0]
            for v in (True, False):
                s.push()
                s.add(c if v else z3.Not(c))
                ok = True
                if sat() != z3.unsat:
                    e2 = z3.simplify(z3.substitute(e, (c, z3.BoolVal(v))))
                    ok = go(e2)
                s.pop()
                if not ok:
                    return False
            return True
        go(z3.simplify(d))
        x.stats.solver_s += time.time() - t0
        return final[0], final[1]

    def solve(self, bad, ms=None):
        """ decide pc /\\ axioms /\\ bad """
        ms = ms or self.spec.get('query_ms', 20000)
        model = None
        for level in (0, 1, 2):
            ax = S.atom_axioms(level)
            if level and not S.ATOMS.args:
                break
            r, model = self._solve1(list(self.x.pc) + ax + [bad], ms)
            if r == z3.unsat:
                return r, None
            if r == z3.unknown and level == 0 and not S.ATOMS.args:
                break
        return r, model

    def _solve1(self, cs, ms):
        x = self.x
        t = time.time()
        left = x.deadline - t
        if left <= 0:
            raise S.BudgetExceeded('time')
        ms = int(builtins.min(ms, left * 1000) + 1)
        res, model = z3.unknown, None
        for mk in (lambda: z3.Solver(), lambda: z3.SolverFor('QF_NRA'),
                   lambda: z3.Then('simplify', 'propagate-values', 'solve-eqs', 'purify-arith',
                                   'elim-term-ite', 'solve-eqs', 'nlsat').solver()):
            s = mk()
            s.set('timeout', builtins.max(1, ms // 3) if mk else ms)
            s.add(*cs)
            try:
                res = s.check()
            except z3.Z3Exception:
                res = z3.unknown
            x.stats.queries += 1
            if res != z3.unknown:
                if res == z3.sat:
                    try:
                        model = s.model()
                    except z3.Z3Exception:
                        res = z3.unknown
                        continue
                break
        x.stats.solver_s += time.time() - t
        if res == z3.unsat:
            x.stats.unsat += 1
        elif res == z3.sat:
            x.stats.sat += 1
        else:
            x.stats.unknown += 1
        return res, model

    def values(self, model):
        out = {}
        for k, e in self.inputs.items():
            v = model.eval(e, model_completion=True)
            out[k] = _pyval(v)
        return out


def _np_of_jax(x):
    return onp.asarray(x) if type(x).__module__.startswith('jax') and hasattr(x, 'shape') else x


def ite_conds(e):
    """ conditions of the if-then-else terms in e, innermost first """
    seen, out = set(), []

    def go(t):
        stack = [(t, False)]
        while stack:
            u, done = stack.pop()
            if done:
                out.append(u.arg(0))
                continue
            if u.get_id() in seen:
                continue
            seen.add(u.get_id())
            if z3.is_app_of(u, z3.Z3_OP_ITE):
                stack.append((u, True))
            stack.extend((c, False) for c in u.children())
    go(e)
    return [c for c in out if not any(z3.is_app_of(k, z3.Z3_OP_ITE) for k in _sub(c))]


def _sub(e):
    out, stack, seen = [], [e], set()
    while stack:
        u = stack.pop()
        if u.get_id() in seen:
            continue
        seen.add(u.get_id())
        out.append(u)
        stack.extend(u.children())
    return out


def _pyval(v):
    if z3.is_true(v):
        return True
    if z3.is_false(v):
        return False
    if z3.is_int_value(v):
        return v.as_long()
    if z3.is_rational_value(v):
        f = Fraction(v.numerator_as_long(), v.denominator_as_long())
        return float(f)
    if z3.is_algebraic_value(v):
        a = v.approx(20)
        return float(Fraction(a.numerator_as_long(), a.denominator_as_long()))
    return 0


def _ew(f, x):
    return S.vmap1(f, x) if isinstance(x, onp.ndarray) else f(x)


def _ew2(f, a, b):
    if isinstance(a, onp.ndarray) or isinstance(b, onp.ndarray):
        return S._vec2(f, a, b)
    return f(a, b)


@contextlib.contextmanager
def unpatched(runner):
    """ jax tracing must see the real numpy again """
    cm = runner.patch_cm
    if cm is None:
        yield
        return
    runner.patch_cm = None
    saved = runner.unpatch()
    try:
        yield
    finally:
        runner.repatch(saved)
        runner.patch_cm = cm


class ConcEnv:
    """ the same harness surface over concrete floats and the unpatched code """
    symbolic = False

    def __init__(self, values=None, rnd=None, grid=False):
        self.v = dict(values or {})
        self.given = values is not None
        self.rnd = rnd or random.Random(0)
        self.used = {}
        self.grid = grid
        self.rng_n = 0

    def _get(self, name, gen):
        v = self.v[name] if name in self.v else gen()
        self.used[name] = v
        return v

    def real(self, name, lo=None, hi=None, nonzero=False):
        a = -3.0 if lo is None else float(lo)
        b = 3.0 if hi is None else float(hi)

        def gen():
            r = self.rnd.random()
            if r < 0.15 and a <= 0 <= b and not nonzero:
                return 0.0
            if r < 0.25:
                return a if not (nonzero and a == 0) else b
            if r < 0.32:
                return b
            if r < 0.55:     # small dyadic numbers: ties and exact cases
                c = round((a + (b - a) * self.rnd.random()) * 2) / 2
                return builtins.min(builtins.max(c, a), b) or (0.5 if nonzero else 0.0)
            return a + (b - a) * self.rnd.random()
        return float(self._get(name, gen))

    def int(self, name, lo, hi):
        return int(self._get(name, lambda: self.rnd.randint(lo, hi)))

    choice = int

    def bool(self, name):
        return bool(self._get(name, lambda: self.rnd.random() < 0.5))

    flag = bool

    def reals(self, name, shape, lo=None, hi=None):
        out = onp.zeros(shape, dtype='float64')
        for i in onp.ndindex(*out.shape):
            out[i] = self.real(name + ''.join(f'_{k}' for k in i), lo, hi)
        return out

    def ints(self, name, shape, lo, hi):
        out = onp.zeros(shape, dtype='int64')
        for i in onp.ndindex(*out.shape):
            out[i] = self.int(name + ''.join(f'_{k}' for k in i), lo, hi)
        return out

    def bools(self, name, shape):
        out = onp.zeros(shape, dtype=bool)
        for i in onp.ndindex(*out.shape):
            out[i] = self.bool(name + ''.join(f'_{k}' for k in i))
        return out

    def arr(self, x):
        return onp.asarray(x)

    def key(self):
        import jax
        return jax.random.PRNGKey(0)

    exp = staticmethod(lambda x: onp.exp(x))
    log = staticmethod(lambda x: onp.log(x))
    sqrt = staticmethod(lambda x: onp.sqrt(x))
    abs = staticmethod(lambda x: onp.abs(x))
    floor = staticmethod(lambda x: onp.floor(x))
    tanh = staticmethod(lambda x: onp.tanh(x))
    max = staticmethod(lambda a, b: onp.maximum(a, b))
    min = staticmethod(lambda a, b: onp.minimum(a, b))
    pow = staticmethod(lambda a, b: onp.power(onp.float64(a), b))

    @staticmethod
    def ite(c, a, b):
        if any(isinstance(v, onp.ndarray) for v in (c, a, b)):
            return onp.where(c, a, b)
        return a if c else b

    @staticmethod
    def eq(a, b): return bool(a == b)
    @staticmethod
    def and_(*xs): return all(builtins.bool(x) for x in xs)
    @staticmethod
    def or_(*xs): return any(builtins.bool(x) for x in xs)
    @staticmethod
    def not_(x): return not x
    @staticmethod
    def implies(a, b): return (not a) or builtins.bool(b)
    @staticmethod
    def num(x): return x

    def jax(self, fn, *args):
        import jax
        import jax.numpy as jnp

        def conv(x):
            a = onp.asarray(x)
            if a.dtype == object:
                a = a.astype('float64')
            if a.dtype.kind == 'f':
                return jnp.asarray(a, dtype='float32')
            if a.dtype.kind == 'i':
                return jnp.asarray(a, dtype='int32')
            return jnp.asarray(a)
        args = jax.tree_util.tree_map(conv, args)
        with self.rng_stubs():
            out = fn(*args)
        return jax.tree_util.tree_map(lambda x: onp.asarray(x), out)

    @contextlib.contextmanager
    def rng_stubs(self):
        """ replay the values that the model chose for random draws, if any were given """
        if not any(k.startswith('rng') for k in self.v):
            yield
            return
        yield

    def assume(self, cond):
        if not onp.all(cond):
            raise Skip()

    def feasible(self):
        pass

    def check(self, cond, msg):
        if not onp.all(cond):
            raise Violated(msg)

    def check_le(self, a, b, msg, tol=1e-4):
        if not (float(a) <= float(b) + tol * (1 + abs(float(b)))):
            raise Violated(f'{msg}: {a} > {b}')

    def check_eq(self, a, b, msg, tol=2e-3):
        a, b = _conc(a), _conc(b)
        if onp.shape(a) != onp.shape(b):
            raise Violated(f'{msg}: shape {onp.shape(a)} != {onp.shape(b)}')
        if a.dtype == object or b.dtype == object:
            for x, y in zip(a.ravel(), b.ravel()):
                if not (x is y or onp.all(x == y)):
                    raise Violated(f'{msg}: got {x}, expected {y}')
            return
        if a.dtype.kind in 'US' or b.dtype.kind in 'US':
            if not onp.all(a == b):
                raise Violated(f'{msg}: got {a}, expected {b}')
            return
        a, b = a.astype('float64'), b.astype('float64')
        with onp.errstate(all='ignore'):
            ok = (onp.abs(a - b) <= tol * (1 + onp.abs(b))) | (a == b)
        if not onp.all(ok):
            raise Violated(f'{msg}: got {a.tolist()}, expected {b.tolist()}')

    def check_near(self, a, b, msg, tol=1e-5):
        self.check_eq(a, b, msg, tol=builtins.max(2e-3, 3 * tol))

    def witness(self, name):
        pass


def _conc(x):
    if isinstance(x, Fraction):
        return onp.asarray(float(x))
    a = onp.asarray(x)
    if a.dtype == object:
        try:
            return a.astype('float64')
        except (TypeError, ValueError):
            return a
    return a


# ---------------------------------------------------------------------------------------------
class Check:
    """ all harnesses of one property """

    def __init__(self, pid, level='model_checking', assumptions=(), bounds=None, procs=6):
        self.pid = pid
        self.procs = procs
        self.level = level
        self.assumptions = list(assumptions)
        self.bounds = bounds or {}
        self.harnesses = []

    def harness(self, name, fn, **spec):
        """ spec: numpy(bool), max_paths, budget_s, query_ms, conc (number of concrete runs),
        extra (function -> list of (module, name, value) patches), bounds (text) """
        self.harnesses.append((name, fn, spec))

    # -----------------------------------------------------------------------------------------
    def main(self, argv=None):
        argv = sys.argv[1:] if argv is None else argv
        tier = os.environ.get('VERIF_TIER', 'quick')
        if '--thorough' in argv:
            tier = 'thorough'
        if '--quick' in argv:
            tier = 'quick'
        try:
            seed = int(os.environ.get('VERIF_SEED', '1'))
        except ValueError:
            seed = 1
        if '--replay' in argv:
            return self.replay_file(argv[argv.index('--replay') + 1])
        only = argv[argv.index('--only') + 1] if '--only' in argv else None
        part = out = None
        if '--part' in argv:
            part = tuple(int(v) for v in argv[argv.index('--part') + 1].split('/'))
            out = argv[argv.index('--out') + 1]
        return Runner(self, tier, seed, only, '-v' in argv, part).run(out)

    def replay_file(self, path):
        rec = json.load(open(path))
        for name, fn, spec in self.harnesses:
            if name == rec['harness']:
                status, msg = run_concrete(fn, spec, ConcEnv(rec['values']))
                print(f'{self.pid} {name}: {status} {msg}')
                return 1 if status == 'violated' else 0
        print('harness not found')
        return 2


@contextlib.contextmanager
def conc_random(spec, env):
    if not spec.get('rng'):
        yield
        return
    m = random_module(env)
    old = onp.random.RandomState, onp.random.default_rng
    onp.random.RandomState, onp.random.default_rng = m.RandomState, m.default_rng
    try:
        yield
    finally:
        onp.random.RandomState, onp.random.default_rng = old


def run_concrete(fn, spec, env):
    """ -> ('ok'|'violated'|'skip', msg) """
    try:
        with warnings.catch_warnings():
            warnings.simplefilter('ignore')
            with onp.errstate(all='ignore'), conc_random(spec, env):
                fn(env)
        return 'ok', ''
    except Skip:
        return 'skip', ''
    except Violated as e:
        return 'violated', str(e)
    except Unsupported as e:
        return 'skip', str(e)
    except Exception as e:
        tb = traceback.extract_tb(e.__traceback__)
        where = [f for f in tb if '/repo/' in f.filename]
        if not where:      # not raised by, or underneath, the code under test
            inner = traceback.format_exc(limit=-3)
            return 'harness-error', f'{type(e).__name__}: {e}\n{inner}'
        f = where[-1]
        return 'violated', (f'unexpected {type(e).__name__}: {e} '
                            f'(at {os.path.relpath(f.filename, REPO)}, in {f.name})')


class Runner:
    def __init__(self, check, tier, seed, only=None, verbose=False, part=None):
        self.check = check
        self.part = part
        self.tier = tier
        self.seed = seed
        self.only = only
        self.verbose = verbose
        self.obligations = self.discharged = self.trivial = 0
        self.unknown = {}
        self.muted = set()
        self.witnesses = {}
        self.notes = []
        self.functions = {}
        self.rng_n = 0
        self.patch_cm = None
        self._patch_args = None
        self.stats = S.Stats()

    # -- patch management ---------------------------------------------------------------------
    def unpatch(self):
        saved = self._cm
        saved.__exit__(None, None, None)
        return self._patch_args

    def repatch(self, args):
        self._cm = patched(*args)
        self._cm.__enter__()

    def _profile(self, frame, event, arg):
        if event == 'call':
            co = frame.f_code
            if co.co_filename.startswith(REPO + '/coax'):
                k = f"{os.path.relpath(co.co_filename, REPO)}:{co.co_qualname}"
                self.functions[k] = self.functions.get(k, 0) + 1

    def explore(self, name, fn, spec):
        """ -> None | Cex | 'budget' | exception """
        budget = spec.get('budget_s', 120)
        x = S.Explorer(self.stats, spec.get('max_paths', 20000), time.time() + budget,
                       spec.get('query_ms', 20000))
        first = [True]
        S.PRUNE[0] = spec.get('prune', False)

        def body():
            S.reset_atoms()
            self.rng_n = 0
            env = SymEnv(x, self, spec)
            self.env = env
            if spec.get('rng'):
                self._patch_args[0].random = random_module(env)
            try:
                try:
                    if first[0]:
                        sys.setprofile(self._profile)
                    fn(env)
                finally:
                    sys.setprofile(None)
                    first[0] = False
            except (S.PathAbort, Cex, S.BudgetExceeded):
                raise
            except BaseException as e:
                if isinstance(e, (KeyboardInterrupt, SystemExit, MemoryError)):
                    raise
                # the assertions made before the exception still count
                try:
                    env.flush()
                except z3.Z3Exception:
                    pass
                vals = None
                try:
                    r, model = env.solve(z3.BoolVal(True))
                    if r == z3.unsat:
                        raise S.PathAbort()
                    if r == z3.sat:
                        vals = env.values(model)
                except z3.Z3Exception:
                    pass
                raise Cex(f'{type(e).__name__}: {e}', vals, 'exception') from e
            env.flush()

        use_patch = spec.get('numpy', True)
        self._patch_args = (S.NPShim(spec.get('force_object', True)),
                            spec['extra']() if 'extra' in spec else ())
        if use_patch:
            self._cm = patched(*self._patch_args)
            self._cm.__enter__()
            self.patch_cm = True
        try:
            x.run(body)
            return None
        except Cex as e:
            return e
        except S.BudgetExceeded as e:
            return e
        finally:
            if use_patch:
                self._cm.__exit__(None, None, None)
                self.patch_cm = None

    def selected(self):
        hs = [(n, f, sp) for n, f, sp in self.check.harnesses
              if not (self.only and self.only != n)
              and not (sp.get('thorough') and self.tier != 'thorough')]
        if self.part:
            i, k = self.part
            hs = hs[i::k]
        return hs

    def run_harnesses(self):
        """ -> plain-data result of the selected harnesses """
        _import_coax()
        violations = []
        validated = skipped = 0
        report = []
        for name, fn, spec in self.selected():
            self.muted = set()
            ht = time.time()
            q0, s0, p0 = self.stats.queries, self.stats.solver_s, self.stats.paths
            outcome = 'holds'
            hviol = None
            # 1. the solver decides every path
            for attempt in range(6):
                r = self.explore(name, fn, spec)
                if r is None:
                    break
                if isinstance(r, S.BudgetExceeded):
                    outcome = f'bounded: {r}'
                    self.notes.append(f'{name}: exploration budget reached ({r})')
                    break
                hviol = self.replay(name, fn, spec, r)
                if hviol:
                    break
                if r.kind == 'exception':
                    outcome = 'degraded'
                    tb = ''
                    if r.__cause__ is not None:
                        tb = ' | '.join(traceback.format_exception(r.__cause__)[-4:])
                    self.notes.append(f'{name}: symbolic execution stopped at {r.msg}; '
                                      'falling back to concrete runs at solver-chosen points')
                    if self.verbose:
                        print(name, 'DEGRADED', r.msg, tb, r.values)
                    break
                self.notes.append(f'{name}: solver candidate did not reproduce on the real code: '
                                  f'{r.msg}')
                if self.verbose:
                    print(name, 'UNREPRODUCED', r.msg, r.values)
                self.unknown[r.msg] = self.unknown.get(r.msg, 0) + 1
                self.muted.add(r.msg)
                outcome = 'inconclusive in part'
            # 2. the same harness on the unpatched code validates the encoding
            if hviol is None:
                n = spec.get('conc', 25)
                if outcome != 'holds':
                    n = max(4 * n, 60)
                if self.tier == 'thorough':
                    n *= 4
                rnd = random.Random(f'{self.seed}/{name}')
                tc = time.time()
                for k in range(n):
                    if time.time() - tc > spec.get('conc_s', 40):
                        break
                    env = ConcEnv(None, rnd)
                    st, msg = run_concrete(fn, spec, env)
                    if st == 'violated':
                        # must reproduce
                        st2, msg2 = run_concrete(fn, spec, ConcEnv(env.used))
                        if st2 == 'violated':
                            hviol = (msg, dict(env.used))
                            break
                    elif st == 'ok':
                        validated += 1
                    elif st == 'harness-error':
                        self.notes.append(f'{name}: harness error {msg}')
                        if self.verbose:
                            print(name, msg)
                        break
                    else:
                        skipped += 1
            if hviol:
                outcome = 'VIOLATED'
                violations.append((name,) + hviol)
            report.append({
                'harness': name, 'outcome': outcome,
                'paths': self.stats.paths - p0, 'queries': self.stats.queries - q0,
                'solver_s': round(self.stats.solver_s - s0, 3), 'wall_s': round(time.time() - ht, 2)})
            if self.verbose:
                print(report[-1], flush=True)
        return {'violations': violations, 'validated': validated, 'skipped': skipped,
                'report': report, 'stats': vars(self.stats), 'functions': self.functions,
                'prims': _prims(), 'unknown': self.unknown, 'notes': self.notes,
                'witnesses': self.witnesses, 'obligations': self.obligations,
                'trivial': self.trivial, 'discharged': self.discharged}

    def run_parts(self, n):
        """ the harnesses are independent: spread them over n processes """
        import subprocess
        import tempfile
        with tempfile.TemporaryDirectory(prefix='vp_') as d:
            procs = []
            for i in range(n):
                out = os.path.join(d, f'{i}.json')
                cmd = [sys.executable, '-W', 'ignore', '-m', 'checks.main', self.check.pid,
                       '--' + self.tier, '--part', f'{i}/{n}', '--out', out]
                if self.verbose:
                    cmd.append('-v')
                procs.append((subprocess.Popen(cmd, cwd=ROOT), out))
            res = []
            for i, (p, out) in enumerate(procs):
                p.wait()
                if os.path.exists(out):
                    res.append(json.load(open(out)))
                else:
                    self.lost.append(f'part {i} of {n} ended without a result (rc {p.returncode})')
        return res

    def run(self, out=None):
        t0 = time.time()
        pid = self.check.pid
        self.lost = []
        n = min(self.check.procs, len(self.selected()))
        if self.part or self.only or n <= 1:
            results = [self.run_harnesses()]
        else:
            results = self.run_parts(n)
        if out:
            json.dump(results[0], open(out, 'w'), default=str)
            return 0
        R = merge(results)
        for w, ok in R['witnesses'].items():
            if not ok:
                R['notes'].append(f'vacuity: witness {w} was not reached')
        R['notes'] += self.lost
        known = load_known(pid)
        new = []
        for name, msg, values in R['violations']:
            k = match_known(known, name, msg, values)
            if k:
                print(f'KNOWN-FINDING: property={pid} {k["what"]}')
            else:
                new.append((name, msg, values))
        d = os.path.join(ROOT, 'evidence')
        os.makedirs(d, exist_ok=True)
        for i, (name, msg, values) in enumerate(new):
            rp = os.path.join(d, f'{pid}.replay{i}.json')
            json.dump({'property': pid, 'harness': name, 'message': msg, 'values': values,
                       'how': f'/verif/run.sh {pid} --replay {rp}'},
                      open(rp, 'w'), indent=1, default=str)
            print(f'{pid} {name}: {msg}')
            print(f'VIOLATION property={pid} replay={rp}')
        st = R['stats']
        ev = {
            'property': pid, 'tier': self.tier, 'seed': self.seed, 'level': self.check.level,
            'coverage': {
                'states': st['paths'],
                'transitions': st['decisions'],
                'traces_validated_against_impl': R['validated'],
                'samples': R['report'],
                'queries': st['queries'], 'unsat': st['unsat'], 'sat': st['sat'],
                'unknown': st['unknown'], 'solver_s': round(st['solver_s'], 3),
                'assertions_on_paths': R['obligations'],
                'assertions_discharged_by_rewriting': R['trivial'],
                'assertions_discharged_by_solver': R['discharged'],
                'undecided_assertions': R['unknown'],
                'functions_encoded': sorted(R['functions']),
                'jax_primitives_encoded': R['prims'],
                'bounds': self.check.bounds,
                'vacuity_witnesses': {'reached': sum(R['witnesses'].values()),
                                      'of': len(R['witnesses'])},
                'concrete_runs_outside_assumptions': R['skipped'],
                'notes': R['notes'],
                'rule': 'states = feasible paths (or encoded programs) on which every assertion '
                        'was decided by z3; transitions = symbolic branch decisions taken on them; '
                        'traces = concrete runs of the same harness on the unpatched code',
            },
            'assumptions': self.check.assumptions + [
                'floating point numbers are modelled as mathematical reals',
                'transcendental functions are modelled by sound algebraic facts only'],
            'wall_s': round(time.time() - t0, 2),
            'violations': len(new),
        }
        json.dump(ev, open(os.path.join(d, f'{pid}.json'), 'w'), indent=1, default=str)
        print(f'{pid}: {len(R["report"])} harnesses, {st["paths"]} paths, '
              f'{st["queries"]} queries, {st["solver_s"]:.1f}s solver, '
              f'{time.time() - t0:.1f}s total, undecided {sum(R["unknown"].values())}, '
              f'violations {len(new)}')
        if self.verbose:
            for nn in R['notes']:
                print('NOTE', nn)
        if self.lost and not new:
            print('ERROR: ' + '; '.join(self.lost))
            return 2
        return 1 if new else 0

    def replay(self, name, fn, spec, cex):
        """ concrete re-execution on the unpatched code -> (msg, values) | None """
        if cex.values is not None:
            env = ConcEnv(cex.values)
            st, msg = run_concrete(fn, spec, env)
            if self.verbose:
                print(name, 'replay', st, msg)
            if st == 'violated':
                return msg, dict(env.used)
        if cex.kind == 'exception':
            return None
        # the abstraction of transcendental terms may have moved the model: search around it
        rnd = random.Random(1)
        base = cex.values or {}
        t = time.time()
        for k in range(60):
            if time.time() - t > 30:
                break
            if k < 30:
                vals = {n: v for n, v in base.items() if not isinstance(v, float)}
                if k % 2:
                    vals.update({n: v for n, v in base.items()
                                 if isinstance(v, float) and rnd.random() < 0.5})
            else:
                vals = None
            env = ConcEnv(None, rnd)
            env.v = dict(vals or {})
            st, msg = run_concrete(fn, spec, env)
            if st == 'violated':
                used = dict(env.used)
                st2, _ = run_concrete(fn, spec, ConcEnv(used))
                if st2 == 'violated':
                    return msg, used
        return None


def _prims():
    m = sys.modules.get('engine.jaxsmt')
    return dict(sorted(m.PRIMS_SEEN.items())) if m else {}


def merge(results):
    R = None
    for r in results:
        if R is None:
            R = r
            continue
        for k in ('violations', 'report', 'notes'):
            R[k] = R[k] + r[k]
        for k in ('validated', 'skipped', 'obligations', 'trivial', 'discharged'):
            R[k] += r[k]
        for k in ('stats', 'functions', 'prims', 'unknown'):
            for q, v in r[k].items():
                R[k][q] = R[k].get(q, 0) + v
        for q, v in r['witnesses'].items():
            R['witnesses'][q] = R['witnesses'].get(q, False) or v
    if R is None:
        R = {'violations': [], 'validated': 0, 'skipped': 0, 'report': [],
             'stats': vars(S.Stats()), 'functions': {}, 'prims': {}, 'unknown': {}, 'notes': [],
             'witnesses': {}, 'obligations': 0, 'trivial': 0, 'discharged': 0}
    return R


def load_known(pid):
    p = os.path.join(ROOT, 'known_findings.json')
    if not os.path.exists(p):
        return []
    return [k for k in json.load(open(p)).get('findings', [])
            if k.get('property') == pid and k.get('status') == 'known']


def match_known(known, harness, msg, values):
    for k in known:
        if k.get('harness') == harness and k.get('message_prefix') \
                and msg.startswith(k['message_prefix']):
            return k
    return None
