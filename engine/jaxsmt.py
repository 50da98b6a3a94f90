"""jaxpr -> SMT: symbolic evaluation of the compiler IR that JAX produces for the real functions.

``trace(fn, args)`` runs the real coax function under jax.make_jaxpr (so it is the current source
that is encoded) and ``evaluate`` interprets the resulting jaxpr over arrays of symbolic scalars.
"""
import math
from fractions import Fraction

import numpy as onp
import jax
import jax.numpy as jnp
from jax import core as jcore
from jax._src.interpreters import partial_eval as pe

from . import sym as S
from .sym import SArr, Sym, Unsupported, sarr, vmap1, vmapn, _vec2, _obj_fill

PRIMS_SEEN = {}
RNG_CALLS = {'_uniform', '_normal', '_normal_real', '_gumbel', '_bernoulli', '_exponential',
             '_truncated_normal', '_randint'}


class Rng:
    """ supplies symbolic values for random draws met while evaluating a jaxpr """

    def __init__(self, make):
        self.make = make          # make(kind, shape) -> SArr
        self.n = 0


def _np(x):
    return x if isinstance(x, onp.ndarray) else _obj_fill(x)


def from_concrete(x):
    """ concrete numpy/jax array -> object array of python numbers """
    x = onp.asarray(x)
    if x.dtype.kind == 'f':
        return vmap1(lambda v: S._norm(onp.float32(v)) if x.dtype != onp.float64 else S._norm(v), x)
    return x.astype(object).view(SArr)


# ---------------------------------------------------------------------------------------------
P = {}


def prim(*names):
    def deco(f):
        for n in names:
            P[n] = f
        return f
    return deco


def _e1(name, f):
    P[name] = lambda a, **k: vmap1(f, a)


def _e2(name, f):
    P[name] = lambda a, b, **k: _vec2(f, a, b)


for _n, _f in dict(neg=S.s_neg, abs=S.s_abs, sign=S.s_sign, exp=S.s_exp, log=S.s_log,
                   log1p=S.s_log1p, expm1=S.s_expm1, tanh=S.s_tanh, logistic=S.s_logistic,
                   sqrt=S.s_sqrt, atanh=S.s_atanh, erf=S.s_erf,
                   floor=lambda a: S.s_add(S.s_floor(a), Fraction(0)),
                   ceil=lambda a: S.s_add(S.s_ceil(a), Fraction(0)),
                   rsqrt=lambda a: S.s_div(Fraction(1), S.s_sqrt(a)),
                   is_finite=lambda a: isinstance(a, Sym) or math.isfinite(a),
                   stop_gradient=lambda a: a, copy=lambda a: a, copy_p=lambda a: a,
                   square=lambda a: S.s_mul(a, a),
                   real=lambda a: a, conj=lambda a: a,
                   exp2=lambda a: S.s_pow(2, a),
                   cos=S.s_generic('cos'), sin=S.s_generic('sin'),
                   erf_inv=S.s_generic('erfinv'), lgamma=S.s_generic('lgamma'),
                   optimization_barrier=lambda a: a).items():
    _e1(_n, _f)

for _n, _f in dict(add=S.s_add, sub=S.s_sub, mul=S.s_mul, max=S.s_max, min=S.s_min, pow=S.s_pow,
                   eq=S.s_eq, ne=S.s_ne, lt=S.s_lt, le=S.s_le, gt=S.s_gt, ge=S.s_ge,
                   add_any=S.s_add, atan2=None).items():
    if _f is not None:
        _e2(_n, _f)
P['and'] = lambda a, b, **k: _vec2(S.s_and, a, b)
P['or'] = lambda a, b, **k: _vec2(S.s_or, a, b)
P['xor'] = lambda a, b, **k: _vec2(S.s_xor, a, b)
P['not'] = lambda a, **k: vmap1(
    lambda v: S.s_not(v) if isinstance(v, (bool, S.SymBool, onp.bool_)) else S.s_sub(-1, v), a)


def _div(a, b):
    if S._is_int_like(a) and S._is_int_like(b):
        q = S.s_floordiv(S.s_abs(a), S.s_abs(b))
        return S.s_mul(S.s_mul(S.s_sign(a), S.s_sign(b)), q)
    return S.s_div(a, b)


def _rem(a, b):
    if S._is_int_like(a) and S._is_int_like(b):
        return S.s_sub(a, S.s_mul(b, _div(a, b)))
    a, b = S._norm(a), S._norm(b)
    q = S.s_trunc(S.s_div(a, b))
    return S.s_sub(a, S.s_mul(b, q))


_e2('div', _div)
_e2('rem', _rem)


@prim('nextafter')
def _nextafter(a, b, **k):
    return a


@prim('square')
def _square(a, **k):
    return vmap1(lambda v: S.s_mul(v, v), a)


@prim('integer_pow')
def _ipow(a, y, **k):
    return vmap1(lambda v: S.s_pow(v, y), a)


@prim('round')
def _round(a, rounding_method=None, **k):
    return vmap1(S.s_round, a)


@prim('clamp')
def _clamp(lo, x, hi, **k):
    return vmapn(lambda l, v, h: S.s_min(S.s_max(v, l), h), lo, x, hi)


@prim('select_n')
def _select_n(which, *cases, **k):
    w = _obj_fill(which)
    if len(cases) == 2:
        return vmapn(lambda c, f, t: S.s_ite(c, t, f), w, *cases)

    def pick(i, *cs):
        r = cs[-1]
        for j in range(len(cs) - 2, -1, -1):
            r = S.s_ite(S.s_eq(i, j), cs[j], r)
        return r
    return vmapn(pick, w, *cases)


@prim('convert_element_type')
def _convert(a, new_dtype, **k):
    return vmap1(lambda v: S.cast_scalar(v, new_dtype), a)


@prim('reduce_precision')
def _reduce_precision(a, **k):
    return a


@prim('broadcast_in_dim')
def _bid(a, *dyn, shape, broadcast_dimensions, **k):
    a = _obj_fill(a)
    new = [1] * len(shape)
    for i, d in enumerate(broadcast_dimensions):
        new[d] = a.shape[i]
    return onp.array(onp.broadcast_to(a.reshape(new), shape)).view(SArr)


@prim('reshape')
def _reshape(a, *dyn, new_sizes, dimensions=None, **k):
    return _obj_fill(a).reshape(new_sizes).view(SArr)


@prim('squeeze')
def _squeeze(a, dimensions, **k):
    return onp.squeeze(_obj_fill(a), axis=tuple(dimensions)).view(SArr)


@prim('expand_dims')
def _expand_dims(a, dimensions, **k):
    return onp.expand_dims(_obj_fill(a), tuple(dimensions)).view(SArr)


@prim('transpose')
def _transpose(a, permutation, **k):
    return onp.transpose(_obj_fill(a), permutation).view(SArr)


@prim('concatenate')
def _concat(*xs, dimension, **k):
    return onp.concatenate([_obj_fill(x) for x in xs], axis=dimension).view(SArr)


@prim('slice')
def _slice(a, start_indices, limit_indices, strides, **k):
    st = strides or [1] * len(start_indices)
    return _obj_fill(a)[tuple(slice(i, j, s) for i, j, s in zip(
        start_indices, limit_indices, st))].view(SArr)


@prim('rev')
def _rev(a, dimensions, **k):
    return onp.flip(_obj_fill(a), axis=tuple(dimensions)).view(SArr)


@prim('pad')
def _pad(a, v, padding_config, **k):
    a = _obj_fill(a)
    v = _obj_fill(v)[()]
    for ax, (lo, hi, it) in enumerate(padding_config):
        a = onp.moveaxis(a, ax, 0)
        n = a.shape[0]
        rows = []
        fillrow = onp.empty(a.shape[1:], dtype=object)
        fillrow[...] = v
        for i in range(n):
            rows.append(a[i])
            if i < n - 1:
                rows += [fillrow] * it
        rows = [fillrow] * max(lo, 0) + rows + [fillrow] * max(hi, 0)
        if lo < 0:
            rows = rows[-lo:]
        if hi < 0:
            rows = rows[:hi]
        out = onp.empty((len(rows),) + a.shape[1:], dtype=object)
        for i, r in enumerate(rows):
            out[i] = r
        a = onp.moveaxis(out, 0, ax)
    return a.view(SArr)


@prim('iota')
def _iota(*dyn, dtype, shape, dimension, **k):
    a = onp.arange(shape[dimension]).reshape(
        [-1 if d == dimension else 1 for d in range(len(shape))])
    a = onp.array(onp.broadcast_to(a, shape)).astype(object).view(SArr)
    return vmap1(lambda v: S.cast_scalar(int(v), dtype), a)


def _reducer(f, unit):
    def g(a, axes, **k):
        return sarr(S.np_reduce(f, a, tuple(axes), False, None, unit))
    return g


P['reduce_sum'] = _reducer(S.s_add, Fraction(0))
P['reduce_prod'] = _reducer(S.s_mul, Fraction(1))
P['reduce_max'] = _reducer(S.s_max, -S.INF)
P['reduce_min'] = _reducer(S.s_min, S.INF)
P['reduce_and'] = _reducer(S.s_and, True)
P['reduce_or'] = _reducer(S.s_or, False)
P['reduce_xor'] = _reducer(S.s_xor, False)


@prim('argmax')
def _argmax(a, axes, index_dtype=None, **k):
    return sarr(S.np_argbest(a, axes[0], S.s_gt))


@prim('argmin')
def _argmin(a, axes, index_dtype=None, **k):
    return sarr(S.np_argbest(a, axes[0], S.s_lt))


def _cum(f):
    def g(a, axis, reverse=False, **k):
        a = _obj_fill(a)
        if reverse:
            a = onp.flip(a, axis)
        r = S.np_accumulate(f, a, axis).view(onp.ndarray)
        if reverse:
            r = onp.flip(r, axis)
        return r.view(SArr)
    return g


P['cumsum'] = _cum(S.s_add)
P['cumprod'] = _cum(S.s_mul)
P['cummax'] = _cum(S.s_max)
P['cummin'] = _cum(S.s_min)
P['cumlogsumexp'] = _cum(lambda a, b: S.s_log(S.s_add(S.s_exp(a), S.s_exp(b))))


@prim('dot_general')
def _dot_general(a, b, dimension_numbers, **k):
    (ca, cb), (ba, bb) = dimension_numbers
    a, b = _obj_fill(a), _obj_fill(b)
    fa = [d for d in range(a.ndim) if d not in ca and d not in ba]
    fb = [d for d in range(b.ndim) if d not in cb and d not in bb]
    at = onp.transpose(a, list(ba) + fa + list(ca))
    bt = onp.transpose(b, list(bb) + fb + list(cb))
    bs = [a.shape[d] for d in ba]
    sa, sb = [a.shape[d] for d in fa], [b.shape[d] for d in fb]
    n = int(onp.prod([a.shape[d] for d in ca])) if ca else 1
    at = at.reshape(bs + [int(onp.prod(sa)), n])
    bt = bt.reshape(bs + [int(onp.prod(sb)), n])
    out = onp.empty(bs + [at.shape[-2], bt.shape[-2]], dtype=object)
    for i in onp.ndindex(*out.shape):
        acc = Fraction(0)
        x, y = at[i[:-2] + (i[-2],)], bt[i[:-2] + (i[-1],)]
        for u, v in zip(x, y):
            acc = S.s_add(acc, S.s_mul(u, v))
        out[i] = acc
    return out.reshape(bs + sa + sb).view(SArr)


def _ites(idx, n, get):
    """ symbolic index lookup as an ite chain """
    idx = S._norm(idx)
    if not isinstance(idx, Sym):
        return get(int(idx))
    r = get(n - 1)
    for j in range(n - 2, -1, -1):
        r = S.s_ite(S.s_eq(idx, j), get(j), r)
    return r


@prim('dynamic_slice')
def _dynamic_slice(a, *idx, slice_sizes, **k):
    a = _obj_fill(a)
    idx = [_obj_fill(i)[()] for i in idx]
    for ax, (i, sz) in enumerate(zip(idx, slice_sizes)):
        n = a.shape[ax] - sz + 1
        i = S.s_min(S.s_max(i, 0), n - 1)
        am = onp.moveaxis(a, ax, 0)
        if not isinstance(i, Sym):
            am = am[int(i):int(i) + sz]
        else:
            r = am[n - 1:n - 1 + sz]
            for j in range(n - 2, -1, -1):
                c = S.s_eq(i, j)
                r = vmapn(lambda t, f, c=c: S.s_ite(c, t, f), am[j:j + sz], r).view(onp.ndarray)
            am = r
        a = onp.moveaxis(am, 0, ax)
    return a.view(SArr)


@prim('dynamic_update_slice')
def _dus(a, upd, *idx, **k):
    a, upd = onp.array(_obj_fill(a)), _obj_fill(upd)
    idx = [_obj_fill(i)[()] for i in idx]
    idx = [S.s_min(S.s_max(i, 0), a.shape[ax] - upd.shape[ax]) for ax, i in enumerate(idx)]
    if not any(isinstance(i, Sym) for i in idx):
        a[tuple(slice(int(i), int(i) + s) for i, s in zip(idx, upd.shape))] = upd
        return a.view(SArr)
    out = onp.array(a)
    for p in onp.ndindex(*a.shape):
        v = a[p]
        for q in onp.ndindex(*upd.shape):
            c = True
            for ax in range(a.ndim):
                c = S.s_and(c, S.s_eq(S.s_add(idx[ax], q[ax]), p[ax]))
            v = S.s_ite(c, upd[q], v)
        out[p] = v
    return out.view(SArr)


@prim('gather')
def _gather(operand, indices, dimension_numbers, slice_sizes, mode=None, fill_value=None, **k):
    operand, indices = _obj_fill(operand), _obj_fill(indices)
    dn = dimension_numbers
    offset_dims, collapsed, sim = dn.offset_dims, dn.collapsed_slice_dims, dn.start_index_map
    batch_shape = indices.shape[:-1]
    off_shape = [s for d, s in enumerate(slice_sizes) if d not in collapsed]
    out_ndim = len(batch_shape) + len(off_shape)
    batch_dims = [d for d in range(out_ndim) if d not in offset_dims]
    out_shape = [0] * out_ndim
    for d, s in zip(batch_dims, batch_shape):
        out_shape[d] = s
    for d, s in zip(offset_dims, off_shape):
        out_shape[d] = s
    out = onp.empty(out_shape, dtype=object)
    op_off_dims = [d for d in range(operand.ndim) if d not in collapsed]
    fill = 'FILL' in str(mode).upper()
    for o in onp.ndindex(*out_shape):
        bidx = tuple(o[d] for d in batch_dims)
        start = [0] * operand.ndim
        oob = False
        for j, d in enumerate(sim):
            v = indices[bidx + (j,)]
            lim = operand.shape[d] - slice_sizes[d]
            if fill:
                oob = S.s_or(oob, S.s_or(S.s_lt(v, 0), S.s_gt(v, lim)))
            start[d] = S.s_min(S.s_max(v, 0), lim)
        off = [0] * operand.ndim
        for od, d in zip(offset_dims, op_off_dims):
            off[d] = o[od]
        pos = [S.s_add(s, f) for s, f in zip(start, off)]
        val = _lookup(operand, pos)
        if oob is not False:
            val = S.s_ite(oob, Fraction(0) if fill_value is None else fill_value, val) \
                if isinstance(oob, Sym) else (float('nan') if oob else val)
        out[o] = val
    return out.view(SArr)


def _lookup(a, pos):
    if not pos:
        return a[()]
    p, rest = pos[0], pos[1:]
    return _ites(p, a.shape[0], lambda j: _lookup(a[j:j + 1].reshape(a.shape[1:]), rest))


def _scatter(combine):
    def g(operand, indices, updates, dimension_numbers, **k):
        operand = onp.array(_obj_fill(operand))
        indices, updates = _obj_fill(indices), _obj_fill(updates)
        dn = dimension_numbers
        uw, iw, sd = (dn.update_window_dims, dn.inserted_window_dims,
                      dn.scatter_dims_to_operand_dims)
        upd_scatter = [d for d in range(updates.ndim) if d not in uw]
        win = [d for d in range(operand.ndim) if d not in iw]
        for u in onp.ndindex(*updates.shape):
            bidx = tuple(u[d] for d in upd_scatter)
            pos = [0] * operand.ndim
            for j, d in enumerate(sd):
                pos[d] = indices[bidx + (j,)]
            for ud, d in zip(uw, win):
                pos[d] = S.s_add(pos[d], u[ud])
            if not any(isinstance(p, Sym) for p in pos):
                p = tuple(int(x) for x in pos)
                if all(0 <= x < n for x, n in zip(p, operand.shape)):
                    operand[p] = combine(operand[p], updates[u])
                continue
            for p in onp.ndindex(*operand.shape):
                c = True
                for x, y in zip(pos, p):
                    c = S.s_and(c, S.s_eq(x, y))
                if c is False:
                    continue
                operand[p] = S.s_ite(c, combine(operand[p], updates[u]), operand[p])
        return operand.view(SArr)
    return g


P['scatter-add'] = P['scatter_add'] = _scatter(S.s_add)
P['scatter'] = _scatter(lambda o, u: u)
P['scatter_mul'] = P['scatter-mul'] = _scatter(S.s_mul)
P['scatter_max'] = P['scatter-max'] = _scatter(S.s_max)
P['scatter_min'] = P['scatter-min'] = _scatter(S.s_min)


@prim('sort')
def _sort(*xs, dimension, num_keys, is_stable=None, **k):
    xs = [onp.moveaxis(onp.array(_obj_fill(x)), dimension, -1) for x in xs]
    out = [onp.array(x) for x in xs]
    for i in onp.ndindex(*xs[0].shape[:-1]):
        rows = [[x[i][j] for x in xs] for j in range(xs[0].shape[-1])]
        n = len(rows)
        for p in range(n):
            for q in range(n - 1 - p):
                a, b = rows[q], rows[q + 1]
                swap = False
                eq = True
                for kk in range(num_keys):
                    swap = S.s_or(swap, S.s_and(eq, S.s_lt(b[kk], a[kk])))
                    eq = S.s_and(eq, S.s_eq(a[kk], b[kk]))
                rows[q] = [S.s_ite(swap, y, x) for x, y in zip(a, b)]
                rows[q + 1] = [S.s_ite(swap, x, y) for x, y in zip(a, b)]
        for t in range(len(xs)):
            for j in range(n):
                out[t][i + (j,)] = rows[j][t]
    res = [onp.moveaxis(o, -1, dimension).view(SArr) for o in out]
    return res


@prim('top_k')
def _topk(a, k, **kw):
    raise Unsupported('top_k')


# -- higher order ---------------------------------------------------------------------------------
def _call(closed, args, rng):
    return eval_jaxpr(closed.jaxpr, closed.consts, args, rng)


def _inner(eqn):
    p = eqn.params
    for key in ('jaxpr', 'call_jaxpr', 'fun_jaxpr'):
        if key in p:
            j = p[key]
            return j if isinstance(j, jcore.ClosedJaxpr) else jcore.ClosedJaxpr(j, ())
    raise Unsupported(eqn.primitive.name)


def _h_call(eqn, args, rng):
    name = eqn.params.get('name')
    if name in RNG_CALLS and rng is not None and not isinstance(eqn.outvars[0], jcore.DropVar):
        shape = eqn.outvars[0].aval.shape
        kind = name.strip('_')
        if kind == 'normal_real':
            kind = 'normal'
        rng.n += 1
        v = rng.make(kind, shape)
        if kind == 'uniform':
            lo, hi = args[1], args[2]
            v = vmapn(lambda u, l, h: S.s_add(l, S.s_mul(u, S.s_sub(h, l))), v, lo, hi)
        return [v]
    return _call(_inner(eqn), args, rng)


def _h_cond(eqn, args, rng):
    branches = eqn.params['branches']
    idx = S._norm(_obj_fill(args[0])[()])
    ops = args[1:]
    if isinstance(idx, bool):
        idx = int(idx)
    if not isinstance(idx, Sym):
        return _call(branches[min(max(int(idx), 0), len(branches) - 1)], ops, rng)
    outs = [_call(b, ops, rng) for b in branches]
    if isinstance(idx, S.SymBool):
        idx = S.s_ite(idx, 1, 0)
    res = []
    for vals in zip(*outs):
        r = vals[-1]
        for j in range(len(vals) - 2, -1, -1):
            c = S.s_le(idx, j) if j == 0 else S.s_eq(idx, j)
            r = vmapn(lambda t, f, c=c: S.s_ite(c, t, f), vals[j], r)
        res.append(r)
    return res


def _h_while(eqn, args, rng):
    p = eqn.params
    cn, bn = p['cond_nconsts'], p['body_nconsts']
    cc, bc, carry = args[:cn], args[cn:cn + bn], list(args[cn + bn:])
    for _ in range(512):
        c = S._norm(_obj_fill(_call(p['cond_jaxpr'], cc + carry, rng)[0])[()])
        if isinstance(c, Sym):
            if S.ctx() is None:
                raise Unsupported('while with symbolic condition')
            c = bool(c)
        if not c:
            return carry
        carry = _call(p['body_jaxpr'], bc + carry, rng)
    raise Unsupported('while loop bound')


def _h_scan(eqn, args, rng):
    p = eqn.params
    nc, nk, length, rev = p['num_consts'], p['num_carry'], p['length'], p['reverse']
    consts, carry, xs = args[:nc], list(args[nc:nc + nk]), args[nc + nk:]
    ys = [None] * length
    order = range(length - 1, -1, -1) if rev else range(length)
    for t in order:
        xt = [_obj_fill(x)[t:t + 1].reshape(x.shape[1:]).view(SArr) for x in xs]
        out = _call(p['jaxpr'], consts + carry + xt, rng)
        carry, ys[t] = list(out[:nk]), out[nk:]
    nys = len(eqn.outvars) - nk
    stacked = []
    for k in range(nys):
        aval = eqn.outvars[nk + k].aval
        o = onp.empty(aval.shape, dtype=object)
        for t in range(length):
            o[t] = _obj_fill(ys[t][k]) if o.ndim > 1 else _obj_fill(ys[t][k])[()]
        stacked.append(o.view(SArr))
    return carry + stacked


HIGHER = {'pjit': _h_call, 'closed_call': _h_call, 'core_call': _h_call, 'remat': _h_call,
          'checkpoint': _h_call, 'xla_call': _h_call, 'remat2': _h_call,
          'custom_jvp_call': _h_call, 'custom_vjp_call': _h_call,
          'custom_vjp_call_jaxpr': _h_call, 'custom_lin': None,
          'cond': _h_cond, 'while': _h_while, 'scan': _h_scan}


def _is_concrete(x):
    return not any(isinstance(v, Sym) for v in _np(x).view(onp.ndarray).ravel())


def _to_concrete(x, aval):
    dt = aval.dtype
    a = _np(x).view(onp.ndarray)
    if dt == onp.dtype(bool):
        return onp.array([bool(v) for v in a.ravel()], dtype=bool).reshape(a.shape)
    flat = [float(v) if onp.dtype(dt).kind == 'f' else int(v) for v in a.ravel()]
    return onp.array(flat, dtype=dt).reshape(a.shape)


class Opaque:
    """ PRNG keys and the like: carried along, never inspected """
    __slots__ = ('shape',)

    def __init__(self, shape=()):
        self.shape = shape


RNG_PRIMS = {'random_wrap', 'random_unwrap', 'random_split', 'random_fold_in', 'random_seed',
             'random_bits', 'threefry2x32', 'random_clone', 'random_gamma'}


def _touches_opaque(args):
    return any(isinstance(a, Opaque) for a in args)


def eval_jaxpr(jaxpr, consts, args, rng=None):
    env = {}

    def read(v):
        if isinstance(v, jcore.Literal):
            return from_concrete(v.val)
        return env[v]

    def write(v, val):
        if not isinstance(v, jcore.DropVar):
            env[v] = val

    for v, c in zip(jaxpr.constvars, consts):
        write(v, c if isinstance(c, (SArr, Opaque)) else from_concrete(c))
    for v, a in zip(jaxpr.invars, args):
        write(v, a)
    for eqn in jaxpr.eqns:
        name = eqn.primitive.name
        PRIMS_SEEN[name] = PRIMS_SEEN.get(name, 0) + 1
        vals = [read(v) for v in eqn.invars]
        if name in HIGHER and not (_touches_opaque(vals) and name == 'pjit'
                                   and eqn.params.get('name') in ('_threefry_split', '_split')):
            outs = HIGHER[name](eqn, vals, rng)
        elif name in RNG_PRIMS or _touches_opaque(vals):
            outs = [Opaque(v.aval.shape) for v in eqn.outvars]
        elif name in P:
            outs = P[name](*vals, **eqn.params)
            if not eqn.primitive.multiple_results:
                outs = [outs]
        elif all(_is_concrete(x) for x in vals):
            conc = [_to_concrete(x, v.aval) for x, v in zip(vals, eqn.invars)]
            outs = eqn.primitive.bind(*conc, **eqn.params)
            outs = outs if eqn.primitive.multiple_results else [outs]
            outs = [from_concrete(o) for o in outs]
        else:
            raise Unsupported(f'jax primitive {name}')
        for v, o in zip(eqn.outvars, outs):
            write(v, o)
    return [read(v) for v in jaxpr.outvars]


_DT = {'f': jnp.float32, 'i': jnp.int32, 'b': jnp.bool_, 'u': jnp.uint32}


def spec_of(leaf):
    """ ShapeDtypeStruct for a symbolic or concrete leaf """
    if isinstance(leaf, Sym):
        return jax.ShapeDtypeStruct((), _DT[leaf.dtype.kind])
    if isinstance(leaf, SArr):
        return jax.ShapeDtypeStruct(leaf.shape, _DT[leaf.dtype.kind])
    a = onp.asarray(leaf)
    if isinstance(leaf, Fraction):
        return jax.ShapeDtypeStruct((), jnp.float32)
    return jax.ShapeDtypeStruct(a.shape, jax.dtypes.canonicalize_dtype(a.dtype))


def is_key(leaf):
    return isinstance(leaf, (onp.ndarray, jax.Array)) and not isinstance(leaf, SArr) \
        and onp.asarray(leaf).dtype == onp.uint32 and onp.shape(leaf) == (2,)


def jax_eval(fn, args, rng=None):
    """ encode fn(*args) from its current jaxpr and evaluate it on symbolic arguments """
    leaves, treedef = jax.tree_util.tree_flatten(args)
    specs = [spec_of(x) for x in leaves]

    def flat(*ls):
        return fn(*jax.tree_util.tree_unflatten(treedef, ls))

    closed, out_shape = jax.make_jaxpr(flat, return_shape=True)(*specs)
    vals = []
    for x, sp in zip(leaves, specs):
        if is_key(x):
            vals.append(Opaque((2,)))
        elif isinstance(x, (Sym, SArr, Fraction)):
            v = sarr(x)
            vals.append(vmap1(lambda e, dt=sp.dtype: S.cast_scalar(e, dt), v))
        else:
            vals.append(from_concrete(x))
    # code that the results do not depend on is left out
    jaxpr, used_consts, used_args = pe.dce_jaxpr_consts(closed.jaxpr, [True] * len(
        closed.jaxpr.outvars), instantiate=False)
    consts = [c for c, u in zip(closed.consts, used_consts) if u]
    vals = [v for v, u in zip(vals, used_args) if u]
    outs = eval_jaxpr(jaxpr, consts, vals, rng)
    out_tree = jax.tree_util.tree_structure(out_shape)
    return jax.tree_util.tree_unflatten(out_tree, outs)
