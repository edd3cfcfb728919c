"""numpy facade for symbolic values: SymArray (object dtype) + `np` shim."""
import builtins
import contextlib
import sys
import types

import numpy as np

from . import engine as E
from .engine import Sym, SymB


def _is_symscalar(x):
    return isinstance(x, (Sym, SymB))


def has_sym(a):
    if _is_symscalar(a):
        return True
    if isinstance(a, np.ndarray):
        return a.dtype == object and any(_is_symscalar(x) for x in a.flat)
    if isinstance(a, (list, tuple)):
        return any(has_sym(x) for x in a)
    return False


def to_sa(x):
    if isinstance(x, SymArray):
        return x
    a = np.array(x, dtype=object) if not isinstance(x, np.ndarray) else x
    if a.dtype != object:
        a = a.astype(object)
    return a.view(SymArray)


def _pyabs(x):
    return abs(x)


def _el(f):
    def g(x):
        return f(x) if isinstance(x, (Sym,)) else getattr(np, f.__name__)(x)
    return g


def e_sqrt(x):
    return x.sqrt() if isinstance(x, Sym) else np.sqrt(float(x))


def e_exp(x):
    return x.exp() if isinstance(x, Sym) else np.exp(float(x))


def e_log(x):
    return x.log() if isinstance(x, Sym) else np.log(float(x))


def e_log10(x):
    return E.CUR.uf('log10', x) if isinstance(x, Sym) else np.log10(float(x))


def e_floor(x):
    return E.floor(x) if isinstance(x, Sym) else np.floor(float(x))


def e_ceil(x):
    return -E.floor(-x) if isinstance(x, Sym) else np.ceil(float(x))


def e_sign(x):
    if isinstance(x, Sym):
        return E.ite(x > 0, 1.0, E.ite(x < 0, -1.0, 0.0))
    return np.sign(x)


def e_max(a, b):
    if _is_symscalar(a) or _is_symscalar(b):
        return E.smax(a, b)
    return np.maximum(a, b)


def e_min(a, b):
    if _is_symscalar(a) or _is_symscalar(b):
        return E.smin(a, b)
    return np.minimum(a, b)


def e_and(a, b):
    return E.and_(_b(a), _b(b))


def e_or(a, b):
    return E.or_(_b(a), _b(b))


def _b(a):
    if isinstance(a, (SymB, bool, np.bool_)):
        return a
    return a != 0


def e_not(a):
    return E.not_(_b(a))


def e_trunc_false(x):
    return False


def e_isfinite(x):
    return True if isinstance(x, Sym) else bool(np.isfinite(x))


def e_isnan(x):
    return False if isinstance(x, Sym) else bool(np.isnan(x))


import operator as op

UF = {
    np.less: op.lt, np.less_equal: op.le, np.greater: op.gt,
    np.greater_equal: op.ge, np.equal: op.eq, np.not_equal: op.ne,
    np.maximum: e_max, np.minimum: e_min, np.fmax: e_max, np.fmin: e_min,
    np.absolute: _pyabs, np.fabs: _pyabs, np.sqrt: e_sqrt, np.exp: e_exp,
    np.log: e_log, np.log10: e_log10, np.floor: e_floor, np.ceil: e_ceil, np.sign: e_sign,
    np.logical_and: e_and, np.logical_or: e_or, np.logical_not: e_not,
    np.bitwise_and: e_and, np.bitwise_or: e_or, np.invert: e_not,
    np.power: op.pow, np.float_power: op.pow, np.square: lambda x: x * x,
    np.true_divide: op.truediv, np.add: op.add, np.subtract: op.sub,
    np.multiply: op.mul, np.negative: op.neg, np.positive: op.pos,
    np.isfinite: e_isfinite, np.isnan: e_isnan, np.isinf: e_trunc_false,
    np.reciprocal: lambda x: 1.0 / x, np.floor_divide: op.floordiv,
    np.remainder: op.mod, np.rint: lambda x: round(x),
}


def safe_truediv(a, b):
    if not _is_symscalar(b) and not _is_symscalar(a):
        if b == 0:
            a = float(a)
            return np.nan if a == 0 else np.inf * np.sign(a)
        return a / b
    if not _is_symscalar(b) and b == 0:
        return E.CUR.uf('divzero', a)
    return a / b


UF[np.true_divide] = safe_truediv


def _msel(arrs):
    for a in arrs:
        if isinstance(a, SymArray) and getattr(a, '_mask', None) is not None:
            return a._mask
    return None


def apply_el(f, *arrs):
    mask = _msel(arrs)
    if mask is not None:
        for a in arrs:
            if isinstance(a, np.ndarray) and a.ndim and getattr(
                    a, '_mask', None) is None and a.size > 1:
                raise E.EngineError('masked selection mixed with full array')
        E.CUR.guarded += 1
        try:
            r = _apply_el(f, *arrs)
        finally:
            E.CUR.guarded -= 1
        r._mask = mask
        return r
    return _apply_el(f, *arrs)


def _apply_el(f, *arrs):
    arrs = [np.asarray(a, dtype=object) if not isinstance(a, np.ndarray)
            else np.asarray(a) for a in arrs]
    b = np.broadcast(*arrs)
    out = np.empty(b.shape, dtype=object)
    bs = np.broadcast_arrays(*arrs)
    for i in np.ndindex(b.shape):
        out[i] = f(*[x[i] for x in bs])
    if out.ndim == 0:
        return out.item()
    return out.view(SymArray)


def reduce_el(f, a, axis=None, keepdims=False, init=None):
    if isinstance(a, SymArray) and getattr(a, '_mask', None) is not None:
        m = conc_mask(a._mask)
        b = np.asarray(a)[m]
        return reduce_el(f, b, axis, keepdims)
    a = np.asarray(a)
    if axis is None:
        it = list(a.flat)
        r = f(it)
        if keepdims:
            o = np.empty((1,) * a.ndim, dtype=object)
            o.flat[0] = r
            return o.view(SymArray)
        return r
    if isinstance(axis, tuple):
        for ax in sorted([x % a.ndim for x in axis], reverse=True):
            a = reduce_el(f, a, ax, keepdims)
        return a
    axis = axis % a.ndim
    m = np.moveaxis(a, axis, -1)
    out = np.empty(m.shape[:-1], dtype=object)
    for i in np.ndindex(out.shape):
        out[i] = f(list(m[i]))
    if keepdims:
        out = np.expand_dims(out, axis)
    return out.view(SymArray) if out.ndim else out.item()


def l_max(xs):
    return E.CUR.extremum(xs, True)


def l_min(xs):
    return E.CUR.extremum(xs, False)


def l_sum(xs):
    r = 0.0
    for x in xs:
        r = r + (x._r() if isinstance(x, SymB) else x)
    return r


def l_prod(xs):
    r = 1.0
    for x in xs:
        r = r * x
    return r


def l_any(xs):
    return E.or_([_b(x) for x in xs])


def l_all(xs):
    return E.and_([_b(x) for x in xs])


def l_mean(xs):
    return l_sum(xs) / len(xs)


def l_argmax(xs):
    bi = 0
    for i in range(1, len(xs)):
        if xs[i] > xs[bi]:
            bi = i
    return bi


def l_argmin(xs):
    bi = 0
    for i in range(1, len(xs)):
        if xs[i] < xs[bi]:
            bi = i
    return bi


REDS = {np.add: l_sum, np.maximum: l_max, np.minimum: l_min,
        np.multiply: l_prod, np.logical_or: l_any, np.logical_and: l_all}


def _mask_like(idx):
    return (isinstance(idx, np.ndarray) and idx.dtype == object and idx.size
            and all(isinstance(x, (SymB, bool, np.bool_)) for x in idx.flat))


def conc_mask(idx):
    out = np.empty(idx.shape, dtype=bool)
    for i in np.ndindex(idx.shape):
        out[i] = bool(idx[i])
    return out


def _conc_idx(idx):
    if isinstance(idx, tuple):
        return tuple(_conc_idx(x) for x in idx)
    if _mask_like(idx):
        return conc_mask(np.asarray(idx))
    if isinstance(idx, np.ndarray) and idx.dtype == object:
        if idx.size == 0:
            return np.asarray(idx).astype(int)
        return np.array([int(x) for x in idx.flat]).reshape(idx.shape)
    if isinstance(idx, SymB):
        return bool(idx)
    if isinstance(idx, (float,)) and idx == int(idx):
        return int(idx)
    return idx


def _single(idx, ndim):
    t = idx if isinstance(idx, tuple) else (idx,)
    return len(t) == ndim and all(
        isinstance(i, (int, np.integer)) and not isinstance(i, bool)
        for i in t)


class SymArray(np.ndarray):
    """object array; element-wise semantics never force a truth value."""

    __array_priority__ = 2000

    _mask = None

    def __array_finalize__(self, obj):
        pass

    def __array_ufunc__(self, ufunc, method, *inputs, out=None, **kw):
        if method == '__call__' and _msel(inputs) is not None:
            f = UF.get(ufunc)
            if f is None:
                raise E.EngineError('unsupported ufunc %s' % ufunc)
            r = apply_el(f, *inputs)
            if out:
                np.ndarray.__setitem__(out[0], Ellipsis, r)
                return out[0]
            return r
        ins = [np.asarray(x).view(np.ndarray) if isinstance(x, np.ndarray)
               else x for x in inputs]
        where = kw.pop('where', True)
        kw.pop('dtype', None)
        kw.pop('casting', None)
        if method == '__call__':
            f = UF.get(ufunc)
            if f is None:
                raise E.EngineError('unsupported ufunc %s' % ufunc)
            r = apply_el(f, *ins)
            if where is not True:
                base = out[0] if out else 0.0
                r = apply_el(lambda c, a, b: E.ite(c, a, b), where, r, base)
        elif method == 'reduce':
            f = REDS.get(ufunc)
            if f is None:
                raise E.EngineError('unsupported reduce %s' % ufunc)
            kw.pop('initial', None)
            ax = kw.pop('axis', 0)
            r = reduce_el(f, ins[0], ax, kw.pop('keepdims', False))
        elif method == 'accumulate' and ufunc is np.add:
            a = ins[0]
            r = np.empty(a.shape, dtype=object)
            ax = kw.get('axis', 0) or 0
            m = np.moveaxis(a, ax, 0)
            o = np.moveaxis(r, ax, 0)
            acc = None
            for i in range(m.shape[0]):
                acc = m[i] if acc is None else acc + m[i]
                o[i] = acc
            r = r.view(SymArray)
        elif method == 'at' and ufunc in (np.add, np.subtract):
            t, idx, v = inputs
            idx = np.atleast_1d(np.asarray(idx))
            v = np.broadcast_to(np.asarray(v, dtype=object), idx.shape)
            for i, x in zip(idx.flat, v.flat):
                t[i] = t[i] + x if ufunc is np.add else t[i] - x
            return None
        else:
            raise E.EngineError('unsupported ufunc method %s.%s' % (
                ufunc, method))
        if out:
            o = out[0]
            np.ndarray.__setitem__(o.view(np.ndarray) if isinstance(
                o, SymArray) else o, Ellipsis, r)
            return o
        return r

    def __array_function__(self, func, types_, args, kwargs):
        name = func.__name__
        impl = FUNCS.get(name)
        if impl is not None:
            return impl(*args, **kwargs)
        return super().__array_function__(func, types_, args, kwargs)

    def __getitem__(self, idx):
        if (_mask_like(idx) and idx.shape == self.shape
                and self._mask is None and has_sym(idx)):
            r = np.array(np.asarray(self), copy=True).view(SymArray)
            r._mask = np.asarray(idx)
            return r
        idx = _conc_idx(idx)
        r = np.ndarray.__getitem__(self, idx)
        return r

    def __setitem__(self, idx, val):
        if _mask_like(idx) and idx.shape == self.shape:
            vm = getattr(val, '_mask', None)
            if vm is not None:
                same = all(E.bexpr(vm[i]).eq(E.bexpr(idx[i]))
                           for i in np.ndindex(self.shape))
                if not same:
                    # different selections: decide both masks (forks)
                    src = [np.asarray(val)[i] for i in np.ndindex(vm.shape)
                           if bool(vm[i])]
                    dst = [i for i in np.ndindex(self.shape)
                           if bool(idx[i])]
                    if len(src) == 1:
                        src = src * len(dst)
                    if len(src) != len(dst):
                        raise ValueError('NumPy boolean array indexing '
                                         'assignment: sizes differ')
                    base = self.view(np.ndarray)
                    for i, v in zip(dst, src):
                        base[i] = v
                    return
                base = self.view(np.ndarray)
                v2 = np.asarray(val)
                for i in np.ndindex(self.shape):
                    base[i] = E.ite(idx[i], v2[i], base[i])
                return
            sc = not isinstance(val, np.ndarray) or val.size == 1
            if sc:
                if isinstance(val, np.ndarray):
                    val = val.flat[0]
                base = self.view(np.ndarray)
                for i in np.ndindex(self.shape):
                    base[i] = E.ite(idx[i], val, base[i])
                return
        idx = _conc_idx(idx)
        if isinstance(val, np.ndarray) and val.size == 1 and _single(
                idx, self.ndim):
            # element <- size-1 array: numpy stores the one element
            while isinstance(val, np.ndarray):
                val = val.flat[0]
        elif isinstance(val, SymArray) and val.ndim == 0:
            val = val.item()
        np.ndarray.__setitem__(self, idx, val)

    # reductions
    def max(self, axis=None, out=None, keepdims=False, **k):
        return reduce_el(l_max, self, axis, keepdims)

    def min(self, axis=None, out=None, keepdims=False, **k):
        return reduce_el(l_min, self, axis, keepdims)

    def sum(self, axis=None, dtype=None, out=None, keepdims=False, **k):
        return reduce_el(l_sum, self, axis, keepdims)

    def mean(self, axis=None, dtype=None, out=None, keepdims=False, **k):
        return reduce_el(l_mean, self, axis, keepdims)

    def any(self, axis=None, out=None, keepdims=False, **k):
        r = reduce_el(l_any, self, axis, keepdims)
        return np.bool_(r) if isinstance(r, bool) else r

    def all(self, axis=None, out=None, keepdims=False, **k):
        r = reduce_el(l_all, self, axis, keepdims)
        return np.bool_(r) if isinstance(r, bool) else r

    def prod(self, axis=None, **k):
        return reduce_el(l_prod, self, axis)

    def argmax(self, axis=None, **k):
        return reduce_el(l_argmax, self, axis)

    def argmin(self, axis=None, **k):
        return reduce_el(l_argmin, self, axis)

    def cumsum(self, axis=None, **k):
        return f_cumsum(self, axis)

    def clip(self, a_min=None, a_max=None, out=None, **k):
        return f_clip(self, a_min, a_max, out)

    def astype(self, dtype, *a, **k):
        if np.dtype(dtype) == object or np.dtype(dtype).kind == 'f':
            return self.copy()
        if np.dtype(dtype).kind == 'b':
            return apply_el(_b, self)
        if np.dtype(dtype).kind in 'iu':
            return np.array([int(x) for x in self.flat],
                            dtype=dtype).reshape(self.shape)
        return np.ndarray.astype(self, dtype, *a, **k)

    def dot(self, o):
        return f_dot(self, o)

    @property
    def size(self):
        if self._mask is not None:
            raise E.EngineError('size of a symbolic selection')
        return int(np.prod(np.ndarray.__getattribute__(self, 'shape')))

    def __bool__(self):
        if self.size == 1:
            return bool(self.flat[0])
        raise ValueError('truth value of an array is ambiguous')

    def __float__(self):
        return float(self.flat[0])

    def round(self, *a, **k):
        return self

    def __iadd__(self, o):
        return self._inpl(np.add, o)

    def __isub__(self, o):
        return self._inpl(np.subtract, o)

    def __imul__(self, o):
        return self._inpl(np.multiply, o)

    def __itruediv__(self, o):
        return self._inpl(np.true_divide, o)

    def __ipow__(self, o):
        return self._inpl(np.power, o)

    def _inpl(self, uf, o):
        r = uf(self, o)
        if self._mask is not None:
            return r
        np.ndarray.__setitem__(self, Ellipsis, r)
        return self


# ------------------------------------------------------------- functions
def f_cumsum(a, axis=None, dtype=None, out=None):
    a = np.asarray(a)
    if axis is None:
        a = a.ravel()
        axis = 0
    r = np.empty(a.shape, dtype=object)
    m = np.moveaxis(a, axis, 0)
    o = np.moveaxis(r, axis, 0)
    acc = None
    for i in range(m.shape[0]):
        acc = m[i] if acc is None else acc + m[i]
        o[i] = acc
    return r.view(SymArray)


def f_clip(a, a_min=None, a_max=None, out=None, **k):
    r = a
    if a_min is not None:
        r = sh_maximum(r, a_min)
    if a_max is not None:
        r = sh_minimum(r, a_max)
    if out is not None:
        out[...] = r
        return out
    return r


def f_where(c, *xy):
    if not xy:
        if isinstance(c, np.ndarray) and _mask_like(c):
            return np.where(conc_mask(np.asarray(c)))
        return np.where(np.asarray(c))
    if not any(has_sym(x) or isinstance(x, SymArray) for x in (c,) + xy):
        return np.where(c, *xy)
    return apply_el(lambda a, b, d: E.ite(a, b, d), c, *xy)


def f_dot(a, b):
    a, b = np.asarray(a), np.asarray(b)
    if a.ndim == 1 and b.ndim == 1:
        return l_sum([x * y for x, y in zip(a, b)])
    if a.ndim == 2 and b.ndim == 1:
        o = np.empty(a.shape[0], dtype=object)
        for i in range(a.shape[0]):
            o[i] = l_sum([x * y for x, y in zip(a[i], b)])
        return o.view(SymArray)
    if a.ndim == 1 and b.ndim == 2:
        return f_dot(b.T, a)
    o = np.empty((a.shape[0], b.shape[1]), dtype=object)
    for i in range(a.shape[0]):
        for j in range(b.shape[1]):
            o[i, j] = l_sum([x * y for x, y in zip(a[i], b[:, j])])
    return o.view(SymArray)


def f_diff(a, n=1, axis=-1, **k):
    a = np.moveaxis(np.asarray(to_sa(a)), axis, 0)
    for _ in range(n):
        a = a[1:] - a[:-1]
    return np.moveaxis(a, 0, axis).view(SymArray)


def f_interp(x, xp, fp, left=None, right=None):
    def one(x):
        if x <= xp[0]:
            return fp[0] if left is None or x == xp[0] else left
        for i in range(1, len(xp)):
            if x <= xp[i]:
                return fp[i - 1] + (fp[i] - fp[i - 1]) * (
                    x - xp[i - 1]) / (xp[i] - xp[i - 1])
        return fp[-1] if right is None else right
    if isinstance(x, np.ndarray) and x.ndim:
        return to_sa([one(v) for v in x])
    return one(x)


def _red(l, npf):
    def f(a, axis=None, out=None, keepdims=False, **k):
        if not has_sym(a):
            if isinstance(a, np.ndarray) and a.dtype == object:
                a = np.asarray(a.tolist())
            kk = dict(axis=axis)
            if keepdims:
                kk['keepdims'] = True
            return npf(a, **kk)
        return reduce_el(l, a, axis, keepdims)
    return f


def _elw(f, npf):
    def g(*a, out=None, **k):
        if not any(has_sym(x) for x in a):
            a = [np.asarray(x.tolist()) if isinstance(x, SymArray) else x
                 for x in a]
            r = npf(*a)
        else:
            r = apply_el(f, *a)
        if out is not None:
            out[...] = r
            return out
        return r
    return g


sh_maximum = _elw(e_max, np.maximum)
sh_minimum = _elw(e_min, np.minimum)


def _mkz(fill):
    def f(shape, dtype=float, **k):
        if dtype is not None and np.dtype(dtype).kind not in 'fO':
            return np.full(shape, fill, dtype=dtype)
        a = np.empty(shape, dtype=object)
        a.fill(float(fill))
        return a.view(SymArray)
    return f


def f_empty(shape, dtype=float, **k):
    if dtype is not None and np.dtype(dtype).kind not in 'fO':
        return np.zeros(shape, dtype=dtype)
    a = np.empty(shape, dtype=object)
    for i in np.ndindex(a.shape):
        a[i] = Sym(E.CUR.fresh('uninit'))
    return a.view(SymArray)


def _shape_of(a):
    return np.shape(a)


def _like(mkf):
    def f(a, dtype=None, **k):
        d = dtype if dtype is not None else getattr(a, 'dtype', float)
        return mkf(_shape_of(a), dtype=d)
    return f


def f_full(shape, fill_value, dtype=None, **k):
    if has_sym(fill_value) or dtype is None or np.dtype(dtype).kind in 'fO':
        a = np.empty(shape, dtype=object)
        a[...] = fill_value
        return a.view(SymArray)
    return np.full(shape, fill_value, dtype=dtype)


def f_array(x, dtype=None, copy=True, **k):
    if has_sym(x) or (isinstance(x, np.ndarray) and x.dtype == object):
        if dtype is not None and np.dtype(dtype).kind == 'b':
            return apply_el(_b, x)
        a = np.array(x, dtype=object)
        return a.view(SymArray)
    return np.array(x, dtype=dtype, copy=copy, **k)


def f_asarray(x, dtype=None, **k):
    if isinstance(x, SymArray):
        return x
    return f_array(x, dtype)


def f_concat(xs, axis=0, **k):
    xs = [np.asarray(x) for x in xs]
    if any(x.dtype == object for x in xs):
        return np.concatenate([x.astype(object) for x in xs],
                              axis=axis).view(SymArray)
    return np.concatenate(xs, axis=axis)


def f_append(a, b, axis=None):
    if axis is None:
        return f_concat([np.ravel(a), np.ravel(b)])
    return f_concat([a, b], axis)


def f_array_equal(a, b, **k):
    a, b = np.asarray(a), np.asarray(b)
    if a.shape != b.shape:
        return False
    return l_all([x == y for x, y in zip(a.flat, b.flat)])


def f_isclose(a, b, rtol=1e-5, atol=1e-8, **k):
    if not any(has_sym(x) or isinstance(x, SymArray) for x in (a, b)):
        return np.isclose(a, b, rtol, atol)
    return apply_el(
        lambda x, y: abs(x - y) <= atol + rtol * abs(y), a, b)


def f_allclose(a, b, rtol=1e-5, atol=1e-8, **k):
    r = f_isclose(a, b, rtol, atol)
    return l_all(list(np.ravel(r)))


def f_copyto(dst, src, where=True, **k):
    if where is True:
        dst[...] = src
    else:
        dst[...] = f_where(where, src, dst)


def f_copy(a, **k):
    return np.array(np.asarray(a), copy=True).view(
        SymArray) if np.asarray(a).dtype == object else np.copy(a)


def f_ravel(a, **k):
    return a.ravel()


def f_std(a, axis=None, **k):
    m = l_mean(list(np.asarray(a).flat))
    return (l_mean([(x - m) * (x - m) for x in np.asarray(a).flat])) ** 0.5


def f_count_nonzero(a, **k):
    return l_sum([E.ite(_b(x), 1.0, 0.0) if isinstance(_b(x), SymB)
                  else float(bool(_b(x))) for x in np.asarray(a).flat])


def f_round(a, decimals=0, out=None, **k):
    def one(x):
        if not isinstance(x, Sym):
            return float(np.round(float(x), decimals))
        half = .5 * 10. ** -decimals
        r = Sym(E.CUR.fresh('rounded'))
        E.CUR.assume((r - x <= half) & (x - r <= half))
        return r
    r = apply_el(one, a)
    if out is not None:
        out[...] = r
        return out
    return r


def f_nan_to_num(a, *x, **k):
    # symbolic values are finite reals
    return apply_el(lambda v: v if isinstance(v, Sym)
                    else float(np.nan_to_num(v, *x, **k)), a)


FUNCS = dict(
    zeros=_mkz(0.0), ones=_mkz(1.0), empty=f_empty,
    zeros_like=_like(_mkz(0.0)), ones_like=_like(_mkz(1.0)),
    empty_like=_like(f_empty), full=f_full,
    full_like=lambda a, v, dtype=None, **k: f_full(_shape_of(a), v),
    array=f_array, asarray=f_asarray, ascontiguousarray=f_asarray,
    asanyarray=f_asarray,
    max=_red(l_max, np.max), amax=_red(l_max, np.max),
    min=_red(l_min, np.min), amin=_red(l_min, np.min),
    nanmax=_red(l_max, np.max), nanmin=_red(l_min, np.min),
    sum=_red(l_sum, np.sum), prod=_red(l_prod, np.prod),
    mean=_red(l_mean, np.mean), average=_red(l_mean, np.mean),
    any=_red(l_any, np.any), all=_red(l_all, np.all),
    nansum=_red(l_sum, np.sum),
    argmax=_red(l_argmax, np.argmax), argmin=_red(l_argmin, np.argmin),
    std=f_std, count_nonzero=f_count_nonzero,
    maximum=sh_maximum, minimum=sh_minimum, fmax=sh_maximum,
    fmin=sh_minimum,
    abs=_elw(_pyabs, np.abs), absolute=_elw(_pyabs, np.abs),
    fabs=_elw(_pyabs, np.abs),
    sqrt=_elw(e_sqrt, np.sqrt), exp=_elw(e_exp, np.exp),
    log=_elw(e_log, np.log), log10=_elw(e_log10, np.log10), floor=_elw(e_floor, np.floor),
    ceil=_elw(e_ceil, np.ceil), sign=_elw(e_sign, np.sign),
    square=_elw(lambda x: x * x, np.square),
    power=_elw(op.pow, np.power),
    add=_elw(op.add, np.add), subtract=_elw(op.sub, np.subtract),
    multiply=_elw(op.mul, np.multiply),
    divide=_elw(safe_truediv, np.divide),
    true_divide=_elw(safe_truediv, np.divide),
    negative=_elw(op.neg, np.negative),
    logical_and=_elw(e_and, np.logical_and),
    logical_or=_elw(e_or, np.logical_or),
    logical_not=_elw(e_not, np.logical_not),
    isfinite=_elw(e_isfinite, np.isfinite), isnan=_elw(e_isnan, np.isnan),
    isinf=_elw(e_trunc_false, np.isinf),
    less=_elw(op.lt, np.less), greater=_elw(op.gt, np.greater),
    less_equal=_elw(op.le, np.less_equal),
    greater_equal=_elw(op.ge, np.greater_equal),
    equal=_elw(op.eq, np.equal), not_equal=_elw(op.ne, np.not_equal),
    where=f_where, cumsum=f_cumsum, clip=f_clip, dot=f_dot, matmul=f_dot,
    diff=f_diff, interp=f_interp, concatenate=f_concat, append=f_append,
    array_equal=f_array_equal, isclose=f_isclose, allclose=f_allclose,
    copyto=f_copyto, copy=f_copy, ravel=f_ravel,
    round=f_round, around=f_round, nan_to_num=f_nan_to_num,
)


def _guard(name, impl):
    """only divert to the symbolic implementation if symbols are involved"""
    creators = {'zeros', 'ones', 'empty', 'zeros_like', 'ones_like',
                'empty_like', 'full', 'full_like'}
    if name in creators:
        return impl
    npf = getattr(np, name)

    def f(*a, **k):
        if any(has_sym(x) or (isinstance(x, np.ndarray) and x.dtype == object)
               for x in a) or any(has_sym(x) for x in k.values()):
            return impl(*a, **k)
        return npf(*a, **k)
    f.__name__ = name
    return f


class NPShim(types.ModuleType):
    def __init__(self):
        super().__init__('np_shim')
        for n, f in FUNCS.items():
            self.__dict__[n] = _guard(n, f)
        self.__dict__['add'] = np.add
        self.__dict__['maximum'] = np.maximum
        self.__dict__['minimum'] = np.minimum
        for n in ('maximum', 'minimum', 'sqrt', 'exp', 'log', 'abs',
                  'absolute'):
            self.__dict__[n] = _guard(n, FUNCS[n])

    def __getattr__(self, name):
        return getattr(np, name)


SHIM = None


def shim():
    global SHIM
    if SHIM is None:
        SHIM = NPShim()
        SHIM.__dict__['float64'] = np.float64
    return SHIM


# shimmed math module
class MathShim(types.ModuleType):
    def __init__(self):
        import math
        super().__init__('math_shim')
        self._m = math
        for n, f in dict(sqrt=e_sqrt, exp=e_exp, log=e_log,
                         floor=lambda x: int(E.floor(x)),
                         ceil=lambda x: -int(E.floor(-x)),
                         fabs=_pyabs, log10=e_log10,
                         pow=lambda a, b: a ** b).items():
            self.__dict__[n] = self._wrap(n, f)
        self.__dict__['isclose'] = lambda a, b, rel_tol=1e-9, abs_tol=0.0: (
            abs(a - b) <= smx(rel_tol * smx(abs(a), abs(b)), abs_tol))
        self.__dict__['isnan'] = lambda x: False if isinstance(
            x, Sym) else math.isnan(x)
        self.__dict__['isfinite'] = lambda x: True if isinstance(
            x, Sym) else math.isfinite(x)
        self.__dict__['isinf'] = lambda x: False if isinstance(
            x, Sym) else math.isinf(x)

    def _wrap(self, n, f):
        o = getattr(self._m, n)
        return lambda x, *a: f(x) if isinstance(x, Sym) else o(x, *a)

    def __getattr__(self, n):
        import math
        return getattr(math, n)


def smx(a, b):
    return e_max(a, b)


class _FMeta(type):
    def __instancecheck__(cls, x):
        return builtins.isinstance(x, (float, Sym))


class FloatShim(float, metaclass=_FMeta):
    """`float` as seen by the code under check: lets symbols through."""
    def __new__(cls, x=0.0):
        if builtins.isinstance(x, np.ndarray) and x.size == 1:
            x = x.flat[0]
        if builtins.isinstance(x, SymB):
            return x._r()
        return x if builtins.isinstance(x, Sym) else float(x)


def sym_isinstance(x, t):
    if builtins.isinstance(x, (Sym, SymB)):
        ts = t if builtins.isinstance(t, tuple) else (t,)
        want = (float, FloatShim, np.floating, np.float64) if \
            builtins.isinstance(x, Sym) else (bool, np.bool_)
        for k in ts:
            if builtins.isinstance(k, tuple):
                if sym_isinstance(x, k):
                    return True
            elif k in want or getattr(k, '__name__', '') in (
                    'Number', 'Real') and builtins.isinstance(x, Sym):
                return True
        return False
    return builtins.isinstance(x, t)


def _bext(is_max):
    bi = builtins.max if is_max else builtins.min

    def f(*a, **k):
        xs = a
        if len(a) == 1 and not k:
            xs = a[0] if builtins.isinstance(a[0], (list, tuple)) else \
                list(a[0])
        if not k and any(builtins.isinstance(x, Sym) for x in xs) and not \
                any(builtins.isinstance(x, np.ndarray) and x.ndim
                    for x in xs):
            return E.CUR.extremum(xs, is_max)
        if len(a) == 1 and not k:
            return bi(xs)
        return bi(*a, **k)
    f.vf_inject = True
    return f


INJECT = {'float': FloatShim, 'isinstance': sym_isinstance,
          'max': _bext(True), 'min': _bext(False)}
_MISSING = object()


@contextlib.contextmanager
def patched(stubs=None):
    """Replace the global `np` (and `math`) of every multisim module."""
    import math
    saved = []
    msh = MathShim()
    for mn, m in list(sys.modules.items()):
        if mn.startswith('multisim') and m is not None:
            for k, v in INJECT.items():
                saved.append((m, k, vars(m).get(k, _MISSING)))
                setattr(m, k, v)
    for mn, m in list(sys.modules.items()):
        if not mn.startswith('multisim') or m is None:
            continue
        for k, v in list(vars(m).items()):
            if v is np:
                saved.append((m, k, v))
                setattr(m, k, shim())
            elif v is math:
                saved.append((m, k, v))
                setattr(m, k, msh)
    if stubs:
        orig = {}
        pf = sys.modules['multisim.precomp_funs']
        for name, st in stubs.items():
            o = getattr(pf, name, None)
            if o is not None:
                orig[name] = o
        for mn, m in list(sys.modules.items()):
            if not mn.startswith('multisim') or m is None:
                continue
            for k, v in list(vars(m).items()):
                for name, o in orig.items():
                    if v is o:
                        saved.append((m, k, v))
                        setattr(m, k, stubs[name])
    try:
        yield
    finally:
        for m, k, v in reversed(saved):
            if v is _MISSING:
                delattr(m, k)
            else:
                setattr(m, k, v)


# ------------------------------------------------- object graph conversion
class Symbolizer:
    """Rewrites every float64 array reachable from the simulation environment
    into an object array, preserving views/aliasing."""

    def __init__(self):
        self.roots = {}
        self.done = {}
        self.keep = []

    def root(self, a):
        while isinstance(a.base, np.ndarray):
            a = a.base
        return a

    def arr(self, a):
        if a.dtype != np.float64 or isinstance(a, SymArray):
            return a
        k = id(a)
        if k in self.done:
            return self.done[k]
        r = self.root(a)
        rk = r.__array_interface__['data'][0], r.nbytes
        if r.dtype != np.float64:
            raise E.EngineError('unexpected base dtype')
        if r.size == 0 or a.size == 0:
            n = np.empty(a.shape, dtype=object).view(SymArray)
            self.done[k] = n
            self.keep.append(a)
            return n
        if rk not in self.roots:
            lo, hi = np.byte_bounds(r)
            flat = np.empty((hi - lo) // 8, dtype=object)
            src = np.lib.stride_tricks.as_strided(
                r if r.flags.c_contiguous else r, shape=r.shape,
                strides=r.strides)
            self.roots[rk] = (flat, lo)
            dst = self._view(flat, (r.__array_interface__['data'][0] - lo),
                             r.shape, r.strides)
            dst[...] = src.astype(object)
            self.keep.append(r)
        flat, lo = self.roots[rk]
        off = a.__array_interface__['data'][0] - lo
        n = self._view(flat, off, a.shape, a.strides).view(SymArray)
        self.done[k] = n
        self.keep.append(a)
        return n

    @staticmethod
    def _view(flat, off, shape, strides):
        assert off % 8 == 0
        return np.lib.stride_tricks.as_strided(
            flat[off // 8:], shape=shape, strides=strides)

    def val(self, v, depth=0):
        if isinstance(v, np.ndarray):
            return self.arr(v)
        if depth > 6:
            return v
        if type(v) is tuple:
            n = tuple(self.val(x, depth + 1) for x in v)
            return n if any(a is not b for a, b in zip(n, v)) else v
        if type(v) is list:
            for i, x in enumerate(v):
                nx = self.val(x, depth + 1)
                if nx is not x:
                    v[i] = nx
            return v
        if type(v) is dict:
            for kk, x in list(v.items()):
                nx = self.val(x, depth + 1)
                if nx is not x:
                    v[kk] = nx
            return v
        if isinstance(v, np.ndarray):
            return self.arr(v)
        if isinstance(v, types.SimpleNamespace):
            self.obj(v)
            return v
        return v

    def obj(self, o):
        if id(o) in self.done:
            return
        self.done[id(o)] = True
        self.keep.append(o)
        d = getattr(o, '__dict__', None)
        if d is None:
            return
        for k, v in list(d.items()):
            nv = self.val(v)
            if nv is not v:
                d[k] = nv


def symbolize(*objs):
    s = Symbolizer()
    for o in objs:
        s.obj(o)
    return s
