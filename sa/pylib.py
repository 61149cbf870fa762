"""Library functions modelled as source in terms of already modelled primitives."""
SRC = '''
import numpy as np

def n_diag(v):
    v = np.asarray(v)
    if v.ndim == 2:
        n = min(v.shape[0], v.shape[1])
        return v[np.arange(n), np.arange(n)]
    return np.eye(len(v)) * v

def n_diagonal(v):
    n = min(v.shape[0], v.shape[1])
    return v[np.arange(n), np.arange(n)]

def n_trace(v):
    return n_diagonal(v).sum()

def n_fill_diagonal(a, val):
    n = min(a.shape[0], a.shape[1])
    a[np.arange(n), np.arange(n)] = val

def n_diag_indices(n, ndim=2):
    return (np.arange(n), np.arange(n))

def n_ptp(a):
    return np.max(a) - np.min(a)

def n_vdot(a, b):
    return np.sum(np.ravel(a) * np.ravel(b))

def n_isclose(a, b, rtol=1e-05, atol=1e-08):
    return np.logical_or(np.equal(a, b), np.logical_and(np.isfinite(b), np.abs(np.subtract(a, b)) <= atol + rtol * np.abs(b)))

def n_allclose(a, b, rtol=1e-05, atol=1e-08):
    return np.all(n_isclose(a, b, rtol, atol))

def n_nan_to_num(a, copy=True, nan=0.0):
    return np.where(np.isnan(a), nan, a)

def n_take(a, idx, axis=None):
    if axis is None:
        return np.ravel(a)[idx]
    if axis == 0:
        return a[idx]
    if axis == 1:
        return a[:, idx]
    return a[..., idx]

def n_linspace(a, b, num=50):
    return a + (b - a) * np.arange(num) / (num - 1)

def n_sum_of_squares(a):
    return (a * a).sum()

def n_roll0(a, shift):
    return a[(np.arange(len(a)) - shift) % len(a)]

def n_repeat1(a, n):
    return a[np.arange(len(a) * n) // n]

def n_delete1(a, k):
    n = len(a)
    kk = k if k >= 0 else k + n
    return np.array([a[i] for i in range(n) if i != kk])

def n_insert1(a, k, v):
    return np.concatenate([a[:k], np.array([v]), a[k:]])

def n_put_along_axis1(a, idx, v):
    a[idx] = v

def n_copyto(dst, src, where=True):
    dst[...] = np.where(where, src, dst)

def n_putmask(a, mask, v):
    a[mask] = v

def n_not_equal(a, b):
    return np.asarray(a) != np.asarray(b)

def n_greater_equal(a, b):
    return np.asarray(a) >= np.asarray(b)

def n_less_equal(a, b):
    return np.asarray(a) <= np.asarray(b)

def n_negative(a):
    return -np.asarray(a)

def n_reciprocal(a):
    return 1.0 / np.asarray(a)

def n_size(a, axis=None):
    return np.asarray(a).size

def n_average(a, axis=None, weights=None):
    if weights is None:
        return np.mean(a, axis=axis)
    return np.sum(a * weights, axis=axis) / np.sum(weights)

def n_invert(a):
    return ~a

def n_isin_not(a, b):
    return ~np.isin(a, b)

def n_setdiff1d_range(n, b):
    return np.arange(n)[~np.isin(np.arange(n), b)]

def n_logical_xor(a, b):
    return np.asarray(a) != np.asarray(b)

def n_identity(n):
    return np.eye(n)

def n_row_stack(x):
    return np.vstack(x)

def n_amax(a, axis=None):
    return np.max(a, axis=axis)

def n_amin(a, axis=None):
    return np.min(a, axis=axis)

def n_nanprod(a):
    return np.prod(np.where(np.isnan(a), 1, a))

def n_float_power(a, b):
    return np.power(a, b)

def n_expm1(a):
    return np.exp(a) - 1

def n_log1p(a):
    return np.log(1 + a)

def n_hypot(a, b):
    return np.sqrt(a * a + b * b)

def n_heaviside(a, b):
    return np.where(a > 0, 1.0, np.where(a == 0, b, 0.0))

def b_map(f, xs):
    return [f(x) for x in xs]

def b_filter(f, xs):
    return [x for x in xs if f(x)]

def b_maxkey(xs, key):
    xs = list(xs)
    return xs[np.argmax(np.array([key(x) for x in xs]))]

def b_minkey(xs, key):
    xs = list(xs)
    return xs[np.argmin(np.array([key(x) for x in xs]))]

def n_mod(a, b):
    return np.asarray(a) % np.asarray(b)

def n_remainder(a, b):
    return np.asarray(a) % np.asarray(b)

def n_floor_divide(a, b):
    return np.asarray(a) // np.asarray(b)

def n_isposinf(a):
    return np.asarray(a) == np.inf

def n_flip(a, axis=None):
    a = np.asarray(a)
    if a.ndim == 1:
        return a[::-1]
    if axis is None:
        return a[::-1, ::-1]
    if axis == 0:
        return a[::-1]
    return a[:, ::-1]

def n_fliplr(a):
    return np.asarray(a)[:, ::-1]

def n_flipud(a):
    return np.asarray(a)[::-1]

def n_diff(a):
    a = np.asarray(a)
    return a[1:] - a[:-1]

def n_union1d(a, b):
    return np.unique(np.concatenate([np.asarray(a), np.asarray(b)]))

def n_intersect1d(a, b):
    u = np.unique(np.asarray(a))
    return u[np.isin(u, b)]

def n_in1d(a, b):
    return np.isin(np.ravel(np.asarray(a)), b)

def n_select(condlist, choicelist, default=0):
    r = default
    for c, x in reversed(list(zip(condlist, choicelist))):
        r = np.where(c, x, r)
    return r

def n_choose(idx, choices):
    r = choices[0]
    for k, c in enumerate(choices):
        if k > 0:
            r = np.where(np.asarray(idx) == k, c, r)
    return r

def n_degrees(a):
    return np.asarray(a) * 180 / np.pi

def n_rad2deg(a):
    return np.asarray(a) * 180 / np.pi

def n_tril(a, k=0):
    return np.where(np.arange(a.shape[0])[:, np.newaxis] + k >= np.arange(a.shape[1])[np.newaxis, :], a, 0)

def n_triu(a, k=0):
    return np.where(np.arange(a.shape[0])[:, np.newaxis] + k <= np.arange(a.shape[1])[np.newaxis, :], a, 0)

def n_add_at(a, idx, v):
    if np.ndim(v) == 0:
        for i in idx:
            a[i] += v
    else:
        for k, i in enumerate(idx):
            a[i] += v[k]

def n_maximum_reduce(a, axis=0):
    return np.max(np.asarray(a), axis=axis)

def n_minimum_reduce(a, axis=0):
    return np.min(np.asarray(a), axis=axis)

def n_add_reduce(a, axis=0):
    return np.sum(np.asarray(a), axis=axis)

def n_multiply_reduce(a, axis=0):
    return np.prod(np.asarray(a), axis=axis)

def n_logical_and_reduce(a, axis=0):
    return np.all(np.asarray(a), axis=axis)

def n_logical_or_reduce(a, axis=0):
    return np.any(np.asarray(a), axis=axis)

def n_subtract_outer(a, b):
    return np.asarray(a)[:, np.newaxis] - np.asarray(b)[np.newaxis, :]

def n_add_outer(a, b):
    return np.asarray(a)[:, np.newaxis] + np.asarray(b)[np.newaxis, :]

def n_multiply_outer(a, b):
    return np.asarray(a)[:, np.newaxis] * np.asarray(b)[np.newaxis, :]

def n_equal_outer(a, b):
    return np.asarray(a)[:, np.newaxis] == np.asarray(b)[np.newaxis, :]

def n_vectorize(f, otypes=None):
    return lambda xs: np.array([f(x) for x in xs])

def n_apply_along_axis(f, axis, a):
    if axis == 0:
        return np.array([f(a[:, j]) for j in range(a.shape[1])])
    return np.array([f(row) for row in a])

def n_fromiter(xs, dtype=None, count=-1):
    return np.array(list(xs), dtype=dtype)

def n_dstack(xs):
    return np.stack(list(xs), axis=-1)

def n_atleast_2d(a):
    a = np.asarray(a)
    return a[np.newaxis, :] if a.ndim == 1 else a

def n_pad(a, width, mode='constant', constant_values=0):
    if mode != 'constant':
        return np.unmodelled_pad(a, width)
    if a.ndim == 1:
        if np.ndim(width) == 0:
            lo, hi = width, width
        elif np.ndim(width) == 1:
            lo, hi = width
        else:
            lo, hi = width[0]
        r = np.full(a.shape[0] + lo + hi, constant_values, dtype=a.dtype)
        r[lo:lo + a.shape[0]] = a
        return r
    if np.ndim(width) == 0:
        (lo, hi), (lo2, hi2) = (width, width), (width, width)
    elif np.ndim(width) == 1:
        (lo, hi), (lo2, hi2) = width, width
    else:
        (lo, hi), (lo2, hi2) = width
    r = np.full((a.shape[0] + lo + hi, a.shape[1] + lo2 + hi2), constant_values, dtype=a.dtype)
    r[lo:lo + a.shape[0], lo2:lo2 + a.shape[1]] = a
    return r

def n_compress(m, a):
    return np.asarray(a)[np.asarray(m).astype(bool)]

def n_extract(m, a):
    return np.ravel(a)[np.ravel(m).astype(bool)]

def n_logaddexp(a, b):
    return np.log(np.exp(a) + np.exp(b))

def n_logaddexp_reduce(a):
    return np.log(np.sum(np.exp(a)))

def x_logsumexp(a, axis=None):
    return np.log(np.sum(np.exp(a), axis=axis))

def x_softmax(a, axis=None):
    return np.exp(a) / np.sum(np.exp(a), axis=axis, keepdims=axis is not None)

def x_reduce(f, xs):
    xs = list(xs)
    r = xs[0]
    for x in xs[1:]:
        r = f(r, x)
    return r

def x_reduce3(f, xs, r):
    for x in xs:
        r = f(r, x)
    return r

def w_sum(a, axis=None, keepdims=False, where=True, initial=0):
    return np.sum(np.where(where, a, 0), axis=axis, keepdims=keepdims) + initial

def w_any(a, axis=None, keepdims=False, where=True):
    return np.any(np.where(where, a, False), axis=axis, keepdims=keepdims)

def w_all(a, axis=None, keepdims=False, where=True):
    return np.all(np.where(where, a, True), axis=axis, keepdims=keepdims)

def w_max(a, axis=None, keepdims=False, where=True, initial=-np.inf):
    return np.maximum(np.max(np.where(where, a, initial), axis=axis, keepdims=keepdims), initial)

def w_min(a, axis=None, keepdims=False, where=True, initial=np.inf):
    return np.minimum(np.min(np.where(where, a, initial), axis=axis, keepdims=keepdims), initial)
'''
