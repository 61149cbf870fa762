"""numpy functions and random generators."""
from . import terms as t
from .terms import T, TRUE, FALSE, ZERO, ONE, NONE, num, lit, mk_ite, band, bor, bnot
from .values import *


def is_scalar(v):
    return isinstance(v, T)


class FuncMixin:
    # ------------------------------------------------------------ dtypes
    def dtype_arg(self, d, default='f'):
        if d is None or d is NONE:
            return default
        if isinstance(d, ExtV):
            n = d.name.split('.')[-1]
            if n in ('int', 'int64', 'int32', 'int16', 'int8', 'intp', 'integer', 'uint8', 'int_', 'i'):
                return 'i'
            if n in ('bool', 'bool_', 'b'):
                return 'b'
            if n in ('float', 'float64', 'float32', 'float_', 'double', 'f'):
                return 'f'
            if n in ('object', 'object_', 'o'):
                return 'o'
        if is_scalar(d) and d.op == 'lit' and isinstance(d.args[0].v, str):
            s = d.args[0].v
            return 'i' if s.startswith('int') or s == 'i' else ('b' if s.startswith('bool') else 'f')
        raise Unsupported('dtype')

    def cast_body(self, b, dt, src='f'):
        if dt == 'i':
            return t.fn1('int', t.to_num(b))
        if dt == 'b':
            return t.truthy(b)
        if dt == 'f':
            return t.to_num(b)
        return b

    def cast(self, x, dt):
        return self.cast_body(x, dt)

    def arg(self, args, kw, k, name, default=None):
        if len(args) > k:
            return args[k]
        return kw.get(name, default)

    def shape_arg(self, st, v):
        if is_scalar(v):
            return [t.to_num(v)]
        k, x = self.I.iterate(st, v)
        if k != 'concrete':
            raise Unsupported('symbolic shape')
        out = []
        for d in x:
            if not is_scalar(d):
                raise Unsupported('shape')
            out.append(t.to_num(d))
        return out

    # ------------------------------------------------------------ creation
    def filled(self, st, args, kw, val, pos=1):
        dims = self.shape_arg(st, self.arg(args, kw, 0, 'shape'))
        for d in dims:
            if d is NONE or d.op == 'lit':
                self.I.do_raise(st, 'TypeError', lit('bad shape'))
        dt = self.dtype_arg(self.arg(args, kw, pos, 'dtype'))
        return self.I.new_arr(st, Arr(dims, self.cast_body(val, dt), dt)) if dims else self.cast_body(val, dt)

    def n_zeros(self, st, args, kw):
        return self.filled(st, args, kw, ZERO)

    def n_ones(self, st, args, kw):
        return self.filled(st, args, kw, ONE)

    def n_empty(self, st, args, kw):
        dims = self.shape_arg(st, args[0])
        dt = self.dtype_arg(self.arg(args, kw, 1, 'dtype'))
        nm = t.fresh('uninit')
        t.ARR[nm] = {'dtype': dt}
        return self.I.new_arr(st, Arr(dims, t.sel(nm, *[t.ix(k) for k in range(len(dims))]), dt))

    def n_full(self, st, args, kw):
        dims = self.shape_arg(st, args[0])
        v = self.arg(args, kw, 1, 'fill_value')
        a = self.arr(st, v)
        dd = self.arg(args, kw, 2, 'dtype')
        dt = self.dtype_arg(dd, a.dtype)
        if a.rank == 0:
            return self.I.new_arr(st, Arr(dims, self.cast_body(a.body, dt) if dd is not None else a.body, dt))
        raise Unsupported('full')

    def like(self, st, args, kw, val):
        a = self.arr(st, args[0])
        dd = self.arg(args, kw, 1, 'dtype')
        dt = self.dtype_arg(dd, a.dtype)
        if isinstance(a, Filt):
            return self.out(st, Filt(a.dims, a.mask, self.cast_body(val, dt), a.tail, dt))
        return self.out(st, Arr(a.dims, self.cast_body(val, dt), dt))

    def n_zeros_like(self, st, args, kw):
        return self.like(st, args, kw, ZERO)

    def n_ones_like(self, st, args, kw):
        return self.like(st, args, kw, ONE)

    n_empty_like = n_zeros_like

    def n_full_like(self, st, args, kw):
        a = self.arr(st, args[0])
        return self.like(st, [args[0]], {'dtype': self.arg(args, kw, 2, 'dtype')} if self.arg(args, kw, 2, 'dtype') is not None else {}, self.arg(args, kw, 1, 'fill_value'))

    def n_eye(self, st, args, kw):
        n = t.to_num(args[0])
        dt = self.dtype_arg(kw.get('dtype'))
        m = self.arg(args, kw, 1, 'M', NONE)
        k = self.arg(args, kw, 2, 'k', ZERO)
        return self.I.new_arr(st, Arr((n, n if m is NONE else t.to_num(m)), mk_ite(t.eq(t.add(t.ix(0), k), t.ix(1)), ONE, ZERO), dt))

    n_identity = n_eye

    def n_arange(self, st, args, kw):
        args = [a for a in args if is_scalar(a)]
        r = self.b_range(st, args[:3], {})
        dt = self.dtype_arg(kw.get('dtype'), 'i' if all(t.isint(l) for a in args for l in t.leaves(a)) else 'f')
        return self.I.new_arr(st, Arr((r.n,), t.add(r.start, t.mul(r.step, t.ix(0))), dt))

    def n_array(self, st, args, kw):
        I = self.I
        v = args[0]
        dd = self.arg(args, kw, 1, 'dtype')
        if is_scalar(v):
            if v is NONE or v.op == 'lit':
                return t.app('array0', v)
            return v
        a = self.arr(st, v)
        if a is None:
            return self.opaque(st, 'np.array')
        dt = self.dtype_arg(dd, a.dtype)
        if dd is not None and dd is not NONE:
            a = self.map1(lambda b: self.cast_body(b, dt), a, dt)
        return self.out(st, a)

    def n_asarray(self, st, args, kw):
        if self.I.is_array(st, args[0]) and (self.arg(args, kw, 1, 'dtype') in (None, NONE) or
                                             self.dtype_arg(self.arg(args, kw, 1, 'dtype')) == self.arr(st, args[0]).dtype):
            return args[0]
        return self.n_array(st, args, kw)

    n_asanyarray = n_asarray
    n_ascontiguousarray = n_asarray

    def n_copy(self, st, args, kw):
        return self.n_array(st, args[:1], {})

    def n_atleast_1d(self, st, args, kw):
        v = args[0]
        if is_scalar(v):
            return self.I.new_arr(st, Arr((ONE,), v, self.arr(st, v).dtype))
        return self.n_asarray(st, args, {})

    # ------------------------------------------------------------ joining
    def seq_arrays(self, st, v):
        I = self.I
        k, x = I.iterate(st, v)
        if k != 'concrete':
            return None, x
        return [self.arr(st, y) for y in x], None

    def n_stack(self, st, args, kw):
        I = self.I
        ax = self.arg(args, kw, 1, 'axis', ZERO)
        k, x = I.iterate(st, args[0])
        if k == 'concrete':
            a = I.stack_vals(st, x)
        else:
            a = I.seg_to_arr(st, x)
        if a is None:
            return self.opaque(st, 'stack')
        if ax is not ZERO:
            n = int(ax.args[0]) % a.rank
            if isinstance(a, Filt):
                raise Unsupported('stack axis')
            r = self.out(st, a)
            perm = list(range(1, a.rank))
            perm.insert(n, 0)
            v = self.transpose(st, r, perm)
            return self.out(st, self.arr(st, v))
        return self.out(st, a)

    def n_concatenate(self, st, args, kw):
        ax = self.arg(args, kw, 1, 'axis', ZERO)
        arrs, seg = self.seq_arrays(st, args[0])
        if arrs is None:
            raise Unsupported('concatenate of symbolic sequence')
        if any(a is None for a in arrs):
            return self.opaque(st, 'concatenate')
        if ax is NONE:
            raise Unsupported('concatenate axis None')
        r = arrs[0]
        for a in arrs[1:]:
            if isinstance(r, Arr) and isinstance(a, Arr):
                if r.rank != a.rank:
                    self.I.do_raise(st, 'ValueError', lit('all the input array dimensions must match'))
                k = int(ax.args[0]) % r.rank
                for q in range(r.rank):
                    if q != k and r.dims[q] is not a.dims[q]:
                        self.I.maybe_raise(st, bnot(t.eq(r.dims[q], a.dims[q])), 'ValueError', 'concatenate shapes')
            else:
                k = 0
            r = self.concat2(r, a, k)
            if r is None:
                return self.opaque(st, 'concatenate')
        return self.out(st, r)

    def n_vstack(self, st, args, kw):
        arrs, seg = self.seq_arrays(st, args[0])
        if arrs is None:
            a = self.I.seg_to_arr(st, seg)
            return self.out(st, a)
        xs = []
        for a in arrs:
            if a is None or isinstance(a, Filt):
                return self.opaque(st, 'vstack')
            xs.append(self.align(a, 2) if a.rank < 2 else a)
        return self.n_concatenate(st, [TupleV([self.I.new_arr(st, x) for x in xs])], {})

    def n_hstack(self, st, args, kw):
        arrs, seg = self.seq_arrays(st, args[0])
        if arrs is None or any(a is None for a in arrs):
            return self.opaque(st, 'hstack')
        if any(a.rank == 0 for a in arrs):
            arrs = [self.align(a, 1) if a.rank == 0 else a for a in arrs]
            return self.n_concatenate(st, [TupleV([self.out(st, a) for a in arrs])], {'axis': ZERO})
        return self.n_concatenate(st, [args[0]], {'axis': ZERO if arrs[0].rank == 1 else ONE})

    def n_column_stack(self, st, args, kw):
        return self.n_stack(st, args, {'axis': ONE})

    def n_append(self, st, args, kw):
        a, b = self.arr(st, args[0]), self.arr(st, args[1])
        ax = self.arg(args, kw, 2, 'axis')
        if ax is None and a.rank == 1 and isinstance(a, Arr) and isinstance(b, Arr) and b.rank <= 1:
            b = self.align(b, 1)
            return self.out(st, self.concat2(a, b, 0))
        if ax is not None:
            return self.n_concatenate(st, [TupleV(args[:2])], {'axis': ax})
        raise Unsupported('np.append')

    def n_split(self, st, args, kw):
        I = self.I
        a = self.arr(st, args[0])
        idx = args[1]
        if is_scalar(idx):
            # equal sections along the first axis
            if isinstance(a, Filt) or a is None:
                raise Unsupported('split of filtered array')
            L = a.dims[0]
            I.maybe_raise(st, bnot(t.eq(t.mod(L, idx), ZERO)), 'ValueError', 'array split does not result in an equal division')
            size = t.div(L, idx)
            if idx.op == 'num':
                n = int(idx.args[0])
                return I.new_list(st, [I.getitem(st, args[0], SliceV(t.mul(num(i), size), t.mul(num(i + 1), size), None)) for i in range(n)])
            if a.rank != 1:
                raise Unsupported('split into a symbolic number of sections')
            return self.n_reshape(st, [args[0], TupleV((idx, size))], {})
        k, cuts = I.iterate(st, idx)
        if k != 'concrete':
            raise Unsupported('split at symbolic points')
        out = []
        prev = None
        for c in cuts:
            out.append(I.getitem(st, args[0], SliceV(prev, c, None)))
            prev = c
        out.append(I.getitem(st, args[0], SliceV(prev, None, None)))
        return I.new_list(st, out)

    # ------------------------------------------------------------ reductions
    def red(self, st, args, kw, op):
        a = self.arr(st, args[0])
        if a is None:
            return self.opaque(st, op)
        ax = self.arg(args, kw, 1, 'axis')
        kd = kw.get('keepdims') is TRUE
        r = self.reduce(st, a, op, ax, kd)
        return self.out(st, r)

    def n_sum(self, st, args, kw):
        return self.red(st, args, kw, 'sum')

    def n_max(self, st, args, kw):
        return self.red(st, args, kw, 'max')

    n_amax = n_max

    def n_min(self, st, args, kw):
        return self.red(st, args, kw, 'min')

    n_amin = n_min

    def n_any(self, st, args, kw):
        return self.red(st, args, kw, 'any')

    def n_all(self, st, args, kw):
        return self.red(st, args, kw, 'all')

    n_sometrue, n_alltrue = n_any, n_all

    def n_prod(self, st, args, kw):
        a = self.arr(st, args[0])
        if a is not None and isinstance(a, Arr) and a.rank == 1 and a.dims[0].op == 'num':
            r = ONE
            for k in range(int(a.dims[0].args[0])):
                r = t.mul(r, ix_map(a.body, {0: num(k)}))
            return r
        return self.red(st, args, kw, 'prod')

    n_product = n_prod

    def n_mean(self, st, args, kw):
        a = self.arr(st, args[0])
        ax = self.arg(args, kw, 1, 'axis')
        r = self.out(st, self.mean(st, a, ax))
        if kw.get('keepdims') is TRUE:
            if ax in (None, NONE):
                raise Unsupported('mean keepdims')
            return self.n_expand_dims(st, [r, ax], {})
        return r

    def n_std(self, st, args, kw):
        a = self.arr(st, args[0])
        if self.arg(args, kw, 1, 'axis') not in (None, NONE) or a is None:
            raise Unsupported('std axis')
        if isinstance(a, Filt):
            n = self.reduce_all_axes(Filt(a.dims, a.mask, ONE, a.tail, 'i'), 'sum')
            mu = t.div(self.reduce_all_axes(a, 'sum'), n)
            z = self.map1(lambda b: t.power(t.sub(t.to_num(b), mu), num(2)), a)
            return t.fn1('sqrt', t.div(self.reduce_all_axes(z, 'sum'), n))
        m = self.mean(st, a, None)
        z = self.map1(lambda b: t.power(t.sub(b, m.body), num(2)), a)
        return t.fn1('sqrt', self.mean(st, z, None).body)

    def n_var(self, st, args, kw):
        return t.power(self.n_std(st, args, kw), num(2))

    def n_argmax(self, st, args, kw):
        return self.arg_red(st, args, kw, 'argmax')

    def n_argmin(self, st, args, kw):
        return self.arg_red(st, args, kw, 'argmin')

    def arg_red(self, st, args, kw, op):
        a = self.arr(st, args[0])
        ax = self.arg(args, kw, 1, 'axis')
        if isinstance(a, Filt):
            # position within the selection of the first maximal element
            if a.tail:
                return self.opaque(st, op)
            some = self.reduce_all_axes(Filt(a.dims, a.mask, a.mask, (), 'b'), 'any')
            self.I.maybe_raise(st, bnot(some), 'ValueError', 'attempt to get %s of an empty sequence' % op)
            n = len(a.dims)
            if n == 1:
                sg = t.NINF if op == 'argmax' else t.INF
                k = t.sym(t.fresh('k'), 'int')
                pts = [t.mk_red(op, k, a.dims[0], mk_ite(ix_map(a.mask, {0: k}), t.to_num(ix_map(a.body, {0: k})), sg))]
            else:
                best = self.reduce_all_axes(Filt(a.dims, a.mask, t.to_num(a.body), (), a.dtype), 'max' if op == 'argmax' else 'min')
                xs = [t.sym(t.fresh('k'), 'int') for _ in range(n)]
                pts = self.pick_point('first', Filt(a.dims, band(a.mask, t.eq(t.to_num(a.body), best)), a.body, (), a.dtype), xs)
            r = self.point_rank(a, pts)
            self.ranked[r] = (a.key(), pts)
            return r
        if a is None or (a.rank > 1 and ax in (None, NONE)):
            return self.opaque(st, op)
        return self.out(st, self.reduce(st, self.map1(t.to_num, a), op, ax))

    def n_count_nonzero(self, st, args, kw):
        a = self.arr(st, args[0])
        return self.out(st, self.reduce(st, self.map1(lambda b: t.to_num(t.truthy(b)), a, 'i'), 'sum', self.arg(args, kw, 1, 'axis')))

    def nanred(self, st, args, kw, op):
        a = self.arr(st, args[0])
        if isinstance(a, Filt):
            if a.tail or op.startswith('arg') or self.arg(args, kw, 1, 'axis') not in (None, NONE, ZERO):
                return self.opaque(st, 'nan' + op)
            # points left out count as missing
            a = Arr(a.dims, mk_ite(a.mask, t.to_num(a.body), t.NAN), 'f')
            return self.out(st, self.nan_red(st, a, op, None))
        return self.out(st, self.nan_red(st, a, op, self.arg(args, kw, 1, 'axis')))

    def n_nanmean(self, st, args, kw):
        return self.nanred(st, args, kw, 'mean')

    def n_nansum(self, st, args, kw):
        return self.nanred(st, args, kw, 'sum')

    def n_nanmax(self, st, args, kw):
        return self.nanred(st, args, kw, 'max')

    def n_nanmin(self, st, args, kw):
        return self.nanred(st, args, kw, 'min')

    def n_nanstd(self, st, args, kw):
        return self.nanred(st, args, kw, 'std')

    def n_nanargmax(self, st, args, kw):
        return self.nanred(st, args, kw, 'argmax')

    def n_cumsum(self, st, args, kw):
        a = self.arr(st, args[0])
        if isinstance(a, Arr) and a.rank == 1:
            k = t.sym(t.fresh('k'), 'int')
            b = ix_map(a.body, {0: k})
            if a.dims[0].op == 'num' and a.dims[0].args[0] <= 12:
                r = ZERO
                body = None
                n = int(a.dims[0].args[0])
                acc = []
                for q in range(n):
                    r = t.add(r, ix_map(a.body, {0: num(q)}))
                    acc.append(r)
                return self.n_array(st, [TupleV(acc)], {})
            return self.out(st, Arr(a.dims, t.mk_sum(k, a.dims[0], mk_ite(t.ge(t.ix(0), k), t.to_num(b), ZERO)), a.dtype))
        return self.opaque(st, 'cumsum')

    # ------------------------------------------------------------ elementwise
    def ew1(self, st, v, f, dtype=None):
        a = self.arr(st, v)
        if a is None:
            return self.opaque(st, 'elementwise')
        return self.out(st, self.map1(f, a, dtype))

    def ew2(self, st, x, y, f, dtype=None):
        a, b = self.arr(st, x), self.arr(st, y)
        if a is None or b is None:
            return self.opaque(st, 'elementwise')
        return self.out(st, self.zip2(st, f, a, b, dtype))

    def n_abs(self, st, args, kw):
        return self.ew1(st, args[0], lambda b: t.fn1('abs', b))

    n_absolute = n_abs
    n_fabs = n_abs

    def n_exp(self, st, args, kw):
        return self.ew1(st, args[0], lambda b: t.fn1('exp', b), 'f')

    def n_log(self, st, args, kw):
        return self.ew1(st, args[0], lambda b: t.fn1('log', b), 'f')

    def n_sqrt(self, st, args, kw):
        return self.ew1(st, args[0], lambda b: t.fn1('sqrt', b), 'f')

    def n_square(self, st, args, kw):
        return self.ew1(st, args[0], lambda b: t.power(b, num(2)))

    def n_floor(self, st, args, kw):
        return self.ew1(st, args[0], lambda b: t.fn1('floor', b))

    def n_ceil(self, st, args, kw):
        return self.ew1(st, args[0], lambda b: t.neg(t.fn1('floor', t.neg(b))))

    def n_radians(self, st, args, kw):
        return self.ew1(st, args[0], lambda b: t.mul(b, t.div(t.sym('pi', 'num'), num(180))))

    n_deg2rad = n_radians

    def n_sin(self, st, args, kw):
        return self.ew1(st, args[0], lambda b: t.fn1('sin', b))

    def n_cos(self, st, args, kw):
        return self.ew1(st, args[0], lambda b: t.fn1('cos', b))

    def n_sign(self, st, args, kw):
        return self.ew1(st, args[0], lambda b: mk_ite(t.gt0(b), ONE, mk_ite(t.gt(ZERO, b), num(-1), ZERO)))

    def n_isnan(self, st, args, kw):
        return self.ew1(st, args[0], lambda b: t.fn1('isnan', b), 'b')

    def n_isinf(self, st, args, kw):
        return self.ew1(st, args[0], lambda b: t.fn1('isinf', b), 'b')

    def n_isneginf(self, st, args, kw):
        return self.ew1(st, args[0], lambda b: t.eq(t.to_num(b), t.NINF), 'b')

    def n_isfinite(self, st, args, kw):
        return self.ew1(st, args[0], lambda b: band(bnot(t.fn1('isnan', b)), bnot(t.fn1('isinf', b))), 'b')

    def n_logical_not(self, st, args, kw):
        return self.ew1(st, args[0], lambda b: bnot(t.truthy(b)), 'b')

    def n_logical_and(self, st, args, kw):
        return self.ew2(st, args[0], args[1], lambda a, b: band(t.truthy(a), t.truthy(b)), 'b')

    def n_logical_or(self, st, args, kw):
        return self.ew2(st, args[0], args[1], lambda a, b: bor(t.truthy(a), t.truthy(b)), 'b')

    def n_bitwise_and(self, st, args, kw):
        return self.I.binop(st, 'BitAnd', args[0], args[1])

    def n_bitwise_or(self, st, args, kw):
        return self.I.binop(st, 'BitOr', args[0], args[1])

    def n_power(self, st, args, kw):
        return self.I.binop(st, 'Pow', args[0], args[1])

    def n_add(self, st, args, kw):
        return self.I.binop(st, 'Add', args[0], args[1])

    def n_subtract(self, st, args, kw):
        return self.I.binop(st, 'Sub', args[0], args[1])

    def n_multiply(self, st, args, kw):
        return self.I.binop(st, 'Mult', args[0], args[1])

    def n_divide(self, st, args, kw):
        return self.I.binop(st, 'Div', args[0], args[1])

    n_true_divide = n_divide

    def n_equal(self, st, args, kw):
        return self.I.compare(st, 'Eq', args[0], args[1])

    def n_greater(self, st, args, kw):
        return self.I.compare(st, 'Gt', args[0], args[1])

    def n_less(self, st, args, kw):
        return self.I.compare(st, 'Lt', args[0], args[1])

    def n_maximum(self, st, args, kw):
        return self.ew2(st, args[0], args[1], lambda a, b: t.max2([a, b], 'max'))

    def n_minimum(self, st, args, kw):
        return self.ew2(st, args[0], args[1], lambda a, b: t.max2([a, b], 'min'))

    def n_clip(self, st, args, kw):
        v = args[0]
        lo, hi = self.arg(args, kw, 1, 'a_min', NONE), self.arg(args, kw, 2, 'a_max', NONE)
        lo, hi = kw.get('min', lo), kw.get('max', hi)
        if lo is not NONE:
            v = self.n_maximum(st, [v, lo], {})
        if hi is not NONE:
            v = self.n_minimum(st, [v, hi], {})
        return v

    def n_isin(self, st, args, kw):
        a, b = self.arr(st, args[0]), self.arr(st, args[1])
        if a is None or b is None:
            return self.opaque(st, 'isin')

        def f(e):
            if isinstance(b, Arr) and b.rank == 1 and b.dims[0].op == 'num':
                r = FALSE
                for k in range(int(b.dims[0].args[0])):
                    r = bor(r, t.eq(e, ix_map(b.body, {0: num(k)})))
                return r
            n = len(b.dims) + (len(b.tail) if isinstance(b, Filt) else 0)
            xs = [t.sym(t.fresh('k'), 'int') for _ in range(n)]
            m = {i: x for i, x in enumerate(xs)}
            c = t.eq(e, ix_map(b.body, m))
            if isinstance(b, Filt):
                c = band(c, ix_map(b.mask, m))
            dims = list(b.dims) + (list(b.tail) if isinstance(b, Filt) else [])
            for x, d in reversed(list(zip(xs, dims))):
                c = t.mk_any(x, ix_map(d, m), c)
            return c
        inv = kw.get('invert') is TRUE
        return self.out(st, self.map1((lambda e: bnot(f(e))) if inv else f, a, 'b'))

    n_in1d = n_isin

    def n_where(self, st, args, kw):
        I = self.I
        a = self.arr(st, args[0])
        if a is None:
            return self.opaque(st, 'where')
        if len(args) == 1:
            return self.n_nonzero(st, args, kw)
        x, y = self.arr(st, args[1]), self.arr(st, args[2])
        if x is None or y is None:
            return self.opaque(st, 'where')
        from .npmodel import join_dtype
        if any(isinstance(z, Filt) for z in (a, x, y)):
            z = self.zip2(st, lambda p, q: t.mk('pair', p, q), x, y)
            if z is None:
                return self.opaque(st, 'where')
            r = self.zip2(st, lambda p, q: mk_ite(t.truthy(p), q.args[0], q.args[1]), a, z, join_dtype(x.dtype, y.dtype))
            return self.out(st, r)
        dims, p, q = self.bcast2(st, x, y)
        z = Arr(dims, t.mk('pair', t.to_num(p) if y.dtype != 'b' else p, t.to_num(q) if x.dtype != 'b' else q), join_dtype(x.dtype, y.dtype))
        dims, c, pq = self.bcast2(st, self.map1(t.truthy, a, 'b'), z)
        return self.out(st, Arr(dims, mk_ite(c, pq.args[0], pq.args[1]), z.dtype))

    def n_nonzero(self, st, args, kw):
        a = self.arr(st, args[0])
        if a is None or isinstance(a, Filt):
            return self.opaque(st, 'nonzero')
        if a.rank == 0:
            a = self.align(a, 1)
        mask = t.truthy(a.body)
        pts = self.constant_points(a.dims, mask)
        if pts is not None:
            return TupleV([self.I.new_arr(st, Arr((num(len(pts)),), self.listed([p[k] for p in pts], t.ix(0)), 'i')) for k in range(a.rank)])
        return TupleV([self.I.new_arr(st, Filt(a.dims, mask, t.ix(k), (), 'i')) for k in range(a.rank)])

    def constant_points(self, dims, mask):
        """the selected points of a mask that is constant at every point of a small literal shape"""
        import itertools
        n = 1
        for d in dims:
            if d.op != 'num':
                return None
            n *= max(int(d.args[0]), 0)
        if n > 64:
            return None
        out = []
        for p in itertools.product(*[range(int(d.args[0])) for d in dims]):
            b = ix_map(mask, {k: num(x) for k, x in enumerate(p)})
            if b is TRUE:
                out.append(p)
            elif b is not FALSE:
                return None
        return out

    def listed(self, xs, i):
        if not xs:
            return ZERO
        r = num(xs[-1])
        for k in range(len(xs) - 2, -1, -1):
            r = mk_ite(t.eq(i, num(k)), num(xs[k]), r)
        return r

    def n_flatnonzero(self, st, args, kw):
        r = self.n_nonzero(st, args, kw)
        a = self.arr(st, args[0])
        if isinstance(r, TupleV) and len(r.items) == 1:
            return r.items[0]
        raise Unsupported('flatnonzero')

    def n_argwhere(self, st, args, kw):
        a = self.arr(st, args[0])
        if a is None or isinstance(a, Filt):
            return self.opaque(st, 'argwhere')
        n = a.rank
        pts = self.constant_points(a.dims, t.truthy(a.body))
        if pts is not None and n:
            body = self.listed([p[n - 1] for p in pts], t.ix(0))
            for k in range(n - 2, -1, -1):
                body = mk_ite(t.eq(t.ix(1), num(k)), self.listed([p[k] for p in pts], t.ix(0)), body)
            return self.I.new_arr(st, Arr((num(len(pts)), num(n)), body, 'i'))
        body = t.ix(n - 1)
        for k in range(n - 2, -1, -1):
            body = mk_ite(t.eq(t.ix(n), num(k)), t.ix(k), body)
        return self.I.new_arr(st, Filt(a.dims, t.truthy(a.body), body, (num(n),), 'i'))

    def n_array_equal(self, st, args, kw):
        a, b = self.arr(st, args[0]), self.arr(st, args[1])
        if a is None or b is None or isinstance(a, Filt) or isinstance(b, Filt):
            return t.app('truthy', self.opaque(st, 'array_equal'))
        if a.rank != b.rank:
            return FALSE
        c = TRUE
        for x, y in zip(a.dims, b.dims):
            c = band(c, t.eq(x, y))
        return band(c, self.reduce_all_axes(Arr(a.dims, t.eq(a.body, b.body), 'b'), 'all'))

    # ------------------------------------------------------------ linear algebra, shapes
    def n_dot(self, st, args, kw):
        return self.dot(st, args[0], args[1])

    n_matmul = n_dot

    def n_inner(self, st, args, kw):
        return self.dot(st, args[0], args[1])

    def n_outer(self, st, args, kw):
        a, b = self.arr(st, args[0]), self.arr(st, args[1])
        return self.out(st, Arr((a.dims[0], b.dims[0]), t.mul(a.body, ix_map(b.body, {0: t.ix(1)})), 'f'))

    def n_linalg_inv(self, st, args, kw):
        a = self.arr(st, args[0])
        if not isinstance(a, Arr) or a.rank != 2:
            return self.opaque(st, 'inv')
        body = t.app('inv2', t.lam(a.dims, a.body), t.ix(0), t.ix(1))
        return self.I.new_arr(st, Arr(a.dims, body, 'f'))

    def n_linalg_norm(self, st, args, kw):
        a = self.arr(st, args[0])
        o = self.arg(args, kw, 1, 'ord', NONE)
        ax = self.arg(args, kw, 2, 'axis', NONE)
        if a is None or kw.get('keepdims') is not None or o is not NONE and not (o.op == 'num' and o.args[0] in (1, 2) and (ax is not NONE or len(a.dims) == 1)):
            raise Unsupported('norm')
        if o is not NONE and o.args[0] == 1:
            return self.out(st, self.reduce(st, self.map1(lambda b: t.fn1('abs', b), a), 'sum', ax))
        z = self.map1(lambda b: t.power(b, num(2)), a)
        if ax is not NONE:
            return self.n_sqrt(st, [self.out(st, self.reduce(st, z, 'sum', ax))], {})
        return t.fn1('sqrt', self.reduce_all_axes(z, 'sum'))

    def n_tensordot(self, st, args, kw):
        ax = self.arg(args, kw, 2, 'axes')
        a = self.arr(st, args[0])
        if isinstance(ax, TupleV) or isinstance(ax, Ref):
            k, xs = self.I.iterate(st, ax)
            ps = []
            for x in xs:
                if is_scalar(x):
                    ps.append([x])
                else:
                    ps.append(self.I.iterate(st, x)[1])
            if [len(p) for p in ps] == [1, 1] and all(p[0].op == 'num' for p in ps) and int(ps[0][0].args[0]) % a.rank == a.rank - 1 and ps[1][0] is ZERO and len(self.arr(st, args[1]).dims) == 1:
                return self.n_dot(st, [args[0], args[1]], {})
        elif ax is ONE and len(self.arr(st, args[1]).dims) <= 2:
            return self.n_dot(st, [args[0], args[1]], {})
        raise Unsupported('tensordot')

    def n_roll(self, st, args, kw):
        ax = self.arg(args, kw, 2, 'axis', NONE)
        if ax is ZERO or ax is NONE and len(self.arr(st, args[0]).dims) == 1:
            return self.I.call(st, self.pylib('n_roll0'), [args[0], args[1]], {})
        raise Unsupported('roll along another axis')

    def n_moveaxis(self, st, args, kw):
        a = self.arr(st, args[0])
        if any(not is_scalar(x) or x.op != 'num' for x in args[1:3]):
            raise Unsupported('moveaxis')
        i, j = int(args[1].args[0]) % a.rank, int(args[2].args[0]) % a.rank
        p = [k for k in range(a.rank) if k != i]
        p.insert(j, i)
        return self.transpose(st, args[0], p)

    def n_cdist(self, st, args, kw):
        a, b = self.arr(st, args[0]), self.arr(st, args[1])
        if a is None or b is None or isinstance(a, Filt) or isinstance(b, Filt):
            return self.opaque(st, 'cdist')
        metric = self.arg(args, kw, 2, 'metric')
        metric = 'euclidean' if metric is None else metric.args[0].v if metric.op == 'lit' else None
        if metric not in ('euclidean', 'cityblock', 'sqeuclidean'):
            raise Unsupported('cdist metric')
        k = t.sym(t.fresh('k'), 'int')
        d = t.sub(ix_map(a.body, {0: t.ix(0), 1: k}), ix_map(b.body, {0: t.ix(1), 1: k}))
        s = t.mk_sum(k, a.dims[1], t.fn1('abs', d) if metric == 'cityblock' else t.power(d, num(2)))
        return self.I.new_arr(st, Arr((a.dims[0], b.dims[0]), t.fn1('sqrt', s) if metric == 'euclidean' else s, 'f'))

    def n_transpose(self, st, args, kw):
        return self.call_method(st, args[0], 'transpose', args[1:], kw)

    def n_swapaxes(self, st, args, kw):
        a = self.arr(st, args[0])
        p = list(range(a.rank))
        i, j = int(args[1].args[0]) % a.rank, int(args[2].args[0]) % a.rank
        p[i], p[j] = p[j], p[i]
        return self.transpose(st, args[0], p)

    def n_squeeze(self, st, args, kw):
        a = self.arr(st, args[0])
        if isinstance(a, Filt):
            if a.tail and all(d is ONE for d in a.tail):
                # (k, 1) -> (k,); a single row would drop to a scalar as well
                return self.n_reshape(st, [args[0], num(-1)], {})
            return args[0]
        comps = []
        ax = self.arg(args, kw, 1, 'axis', NONE)
        ax = None if ax is NONE else self.norm_axis(ax, a.rank)
        if ax is not None and any(a.dims[k] is not ONE for k in ax):
            raise Unsupported('squeeze')
        for k, d in enumerate(a.dims):
            comps.append(ZERO if d is ONE and (ax is None or k in ax) else SliceV(None, None, None))
        return self.I.index(st, args[0], comps)

    def n_expand_dims(self, st, args, kw):
        a = self.arr(st, args[0])
        ax = self.arg(args, kw, 1, 'axis')
        k = int(ax.args[0])
        if k < 0:
            k += a.rank + 1
        comps = [SliceV(None, None, None)] * k + [NONE]
        return self.I.index(st, args[0], comps)

    def n_broadcast_to(self, st, args, kw):
        a = self.arr(st, args[0])
        dims = self.shape_arg(st, args[1])
        a = self.align(a, len(dims))
        return self.out(st, Arr(dims, self.spread(a, dims), a.dtype))

    def n_repeat(self, st, args, kw):
        a = self.arr(st, args[0])
        n = args[1]
        ax = self.arg(args, kw, 2, 'axis')
        if isinstance(a, Arr) and a.rank == 0:
            return self.I.new_arr(st, Arr((n,), a.body, a.dtype))
        if isinstance(a, Arr) and a.dims[0] is ONE and ax is ZERO:
            return self.I.new_arr(st, Arr((n,) + a.dims[1:], ix_map(a.body, {0: ZERO}), a.dtype))
        if isinstance(a, Arr) and a.rank == 1 and is_scalar(n):
            return self.I.call(st, self.pylib('n_repeat1'), [args[0], n], {})
        return self.opaque(st, 'repeat')

    def n_tile(self, st, args, kw):
        a = self.arr(st, args[0])
        reps = args[1]
        if isinstance(reps, TupleV) and isinstance(a, Arr):
            rs = list(reps.items)
            a = self.align(a, len(rs)) if a.rank < len(rs) else a
            dims, m = [], {}
            for k, (d, r) in enumerate(zip(a.dims, rs)):
                if r is ONE:
                    dims.append(d)
                elif d is ONE:
                    dims.append(r)
                    m[k] = ZERO
                else:
                    return self.opaque(st, 'tile')
            return self.I.new_arr(st, Arr(dims, ix_map(a.body, m), a.dtype))
        return self.opaque(st, 'tile')

    def n_ravel(self, st, args, kw):
        a = [args[0], num(-1)] + list(args[1:2])
        return self.n_reshape(st, a, kw)

    n_flatten = n_ravel

    def n_reshape(self, st, args, kw):
        I = self.I
        a = self.arr(st, args[0])
        if a is None or isinstance(a, Filt):
            if isinstance(a, Filt) and a.rank == 1:
                shp = self.shape_arg(st, args[1])
                if len(shp) == 1:
                    return args[0]
            if isinstance(a, Filt) and len(self.shape_arg(st, args[1])) == 1 and all(d is ONE for d in a.tail):
                n = len(a.dims)
                return I.new_arr(st, Filt(a.dims, a.mask, t.subst(a.body, {t.ix(n + k): ZERO for k in range(len(a.tail))}), (), a.dtype))
            return self.opaque(st, 'reshape')
        order = self.arg(args, kw, 2, 'order')
        shp = self.shape_arg(st, args[1])
        if self.fortran(order):
            r = self.n_reshape(st, [self.transpose(st, args[0]), TupleV(list(reversed(shp)))], {})
            return self.transpose(st, r)
        size = ONE
        for d in a.dims:
            size = t.mul(size, d)
        known = ONE
        for d in shp:
            if not (d.op == 'num' and d.args[0] == -1):
                known = t.mul(known, d)
        dims = []
        for d in shp:
            if d.op == 'num' and d.args[0] == -1:
                d = t.div(size, known)
            dims.append(d)
        new = ONE
        for d in dims:
            new = t.mul(new, d)
        if new is not size:
            I.maybe_raise(st, bnot(t.eq(new, size)), 'ValueError', 'cannot reshape array')
        if tuple(dims) == tuple(a.dims):
            return self.view_of(st, args[0], a, dims, {k: t.ix(k) for k in range(a.rank)})
        # common leading axes stay, then split or merge the rest
        p = 0
        while p < len(dims) and p < a.rank and dims[p] is a.dims[p] and p < min(len(dims), a.rank) - 1:
            p += 1
        rest_new, rest_old = dims[p:], a.dims[p:]
        flat = ZERO
        for k, d in enumerate(rest_new):
            flat = t.add(t.mul(flat, d), t.ix(p + k))
        m = {k: t.ix(k) for k in range(p)}
        if len(rest_old) == 1:
            m[p] = flat
        else:
            # unravel the flat position over the old axes
            strides = []
            s = ONE
            for d in reversed(rest_old):
                strides.insert(0, s)
                s = t.mul(s, d)
            for k, (d, sdr) in enumerate(zip(rest_old, strides)):
                q = self.unflat(flat, sdr, d, k == 0)
                m[p + k] = q
        return self.view_of(st, args[0], a, dims, m)

    def view_of(self, st, v, a, dims, m):
        """reshape results are views of contiguous arrays; modelled as views when invertible"""
        inv_ok = all(len([x for x in t.fs(e) if x.op == 'ix']) <= 1 and (e.op in ('ix', 'num')) for e in m.values())
        if isinstance(v, Ref) and inv_ok:
            return AView(v.oid, [m[k] for k in range(a.rank)], dims)
        return self.out(st, Arr(dims, ix_map(a.body, m), a.dtype))

    def unflat(self, flat, stride, dim, first):
        q = t.floordiv(flat, stride) if stride is not ONE else flat
        return q if first else t.mod(q, dim)

    def unfilter(self, a):
        """filtered array whose mask is always true: a total array over the flattened index"""
        n = len(a.dims)
        m, stride = {}, ONE
        size = ONE
        for k in range(n - 1, -1, -1):
            m[t.ix(k)] = self.unflat(t.ix(0), stride, a.dims[k], k == 0)
            stride = t.mul(stride, a.dims[k])
        for j in range(len(a.tail)):
            m[t.ix(n + j)] = t.ix(1 + j)
        return Arr((stride,) + tuple(a.tail), t.subst(a.body, m), a.dtype)

    def fortran(self, order):
        if order is None:
            return False
        if is_scalar(order) and order.op == 'lit' and order.args[0].v in ('C', 'F'):
            return order.args[0].v == 'F'
        raise Unsupported('order=%r' % (order,))

    def n_unravel_index(self, st, args, kw):
        dims = self.shape_arg(st, self.arg(args, kw, 1, 'shape'))
        if self.fortran(self.arg(args, kw, 2, 'order')):
            r = self.n_unravel_index(st, [args[0], TupleV(list(reversed(dims)))], {})
            return TupleV(list(reversed(r.items)))
        strides = []
        s = ONE
        for d in reversed(dims):
            strides.insert(0, s)
            s = t.mul(s, d)
        if is_scalar(args[0]):
            self.I.maybe_raise(st, t.bor(t.gt(ZERO, args[0]), t.ge(args[0], s)), 'ValueError', 'index is out of bounds')
        out = []
        for k, (d, sd) in enumerate(zip(dims, strides)):
            out.append(self.ew1(st, args[0], lambda b, sd=sd, d=d, k=k: self.unflat(b, sd, d, k == 0), 'i'))
        return TupleV(out)

    def n_ravel_multi_index(self, st, args, kw):
        I = self.I
        dims = self.shape_arg(st, self.arg(args, kw, 1, 'dims'))
        k, xs = I.iterate(st, args[0])
        if k != 'concrete':
            raise Unsupported('ravel_multi_index')
        mode = self.arg(args, kw, 2, 'mode')
        mode = 'raise' if mode is None else mode.args[0].v
        if self.fortran(self.arg(args, kw, 3, 'order')):
            xs, dims = list(reversed(xs)), list(reversed(dims))
        if mode == 'wrap':
            xs = [I.binop(st, 'Mod', x, d) for x, d in zip(xs, dims)]
        elif mode == 'clip':
            xs = [self.call_ext(st, 'numpy.clip', [x, ZERO, I.binop(st, 'Sub', d, ONE)], {}) for x, d in zip(xs, dims)]
        if len(xs) != len(dims):
            I.do_raise(st, 'ValueError', lit('parameter multi_index must be a sequence of length %d' % len(dims)))
        else:
            for x, d in zip(xs, dims):
                if is_scalar(x):
                    I.maybe_raise(st, t.bor(t.gt(ZERO, x), t.ge(x, d)), 'ValueError', 'invalid entry in coordinates array')
        r = ZERO
        for x, d in zip(xs, dims):
            r = I.binop(st, 'Add', I.binop(st, 'Mult', r, d), x)
        return r

    def n_meshgrid(self, st, args, kw):
        a, b = self.arr(st, args[0]), self.arr(st, args[1])
        ij = kw.get('indexing') is not None and kw['indexing'].args[0].v == 'ij'
        if ij:
            dims = (a.dims[0], b.dims[0])
            x, y = a.body, ix_map(b.body, {0: t.ix(1)})
        else:
            dims = (b.dims[0], a.dims[0])
            x, y = ix_map(a.body, {0: t.ix(1)}), b.body
        return self.I.new_list(st, [self.I.new_arr(st, Arr(dims, x, a.dtype)), self.I.new_arr(st, Arr(dims, y, b.dtype))])

    def n_indices(self, st, args, kw):
        dims = self.shape_arg(st, args[0])
        n = len(dims)
        body = t.ix(n)
        for k in range(n - 2, -1, -1):
            body = mk_ite(t.eq(t.ix(0), num(k)), t.ix(k + 1), body)
        return self.I.new_arr(st, Arr([num(n)] + dims, body, 'i'))

    def n_searchsorted(self, st, args, kw):
        a = self.arr(st, args[0])
        v = args[1]
        side = self.arg(args, kw, 2, 'side')
        right = side is not None and is_scalar(side) and side.op == 'lit' and side.args[0].v == 'right'
        if isinstance(a, Arr) and a.rank == 1 and is_scalar(v):
            k = t.sym(t.fresh('k'), 'int')
            b = ix_map(a.body, {0: k})
            c = t.ge(v, b) if right else t.gt(v, b)
            return t.mk_sum(k, a.dims[0], t.to_num(c))
        return self.opaque(st, 'searchsorted')

    def n_unique(self, st, args, kw):
        a = self.arr(st, args[0])
        if kw or len(args) > 1 or a is None:
            return self.opaque(st, 'unique')
        if isinstance(a, Filt) and not a.tail:
            if a.body.op == 'ix' and a.body.args[0] < len(a.dims):
                k = a.body.args[0]
                m = a.mask
                for j in range(len(a.dims)):
                    if j != k:
                        x = t.sym(t.fresh('u'), 'int')
                        m = t.mk_any(x, a.dims[j], t.subst(m, {t.ix(j): x}))
                return self.I.new_arr(st, Filt((a.dims[k],), t.subst(m, {t.ix(k): t.ix(0)}), t.ix(0), (), 'i'))
        if isinstance(a, Arr) and a.rank == 1 and a.body is t.ix(0):
            return args[0]
        return self.opaque(st, 'unique')

    def n_delete(self, st, args, kw):
        a = self.arr(st, args[0])
        if isinstance(a, Arr) and a.rank == 1 and is_scalar(args[1]):
            return self.I.call(st, self.pylib('n_delete1'), [args[0], args[1]], {})
        return self.opaque(st, 'delete')

    def n_insert(self, st, args, kw):
        a = self.arr(st, args[0])
        if isinstance(a, Arr) and a.rank == 1 and is_scalar(args[1]) and is_scalar(args[2]) and not kw:
            return self.I.call(st, self.pylib('n_insert1'), list(args), {})
        return self.opaque(st, 'insert')

    def n_setdiff1d(self, st, args, kw):
        a = self.arr(st, args[0])
        if isinstance(a, Arr) and a.rank == 1 and a.body is t.ix(0):
            return self.I.call(st, self.pylib('n_setdiff1d_range'), [a.dims[0], args[1]], {})
        return self.opaque(st, 'setdiff1d')

    def n_einsum(self, st, args, kw):
        spec = args[0]
        if not (is_scalar(spec) and spec.op == 'lit'):
            raise Unsupported('einsum')
        sp = spec.args[0].v.replace(' ', '')
        if '->' not in sp or '.' in sp:
            raise Unsupported('einsum')
        ins, out = sp.split('->')
        ins = ins.split(',')
        ops = [self.arr(st, a) for a in args[1:]]
        if len(ops) != len(ins) or any(not isinstance(a, Arr) or a.rank != len(s) for a, s in zip(ops, ins)):
            raise Unsupported('einsum')
        dims, vs = {}, {}
        for a, s in zip(ops, ins):
            for ch, d in zip(s, a.dims):
                dims.setdefault(ch, d)
        for ch in dims:
            vs[ch] = t.ix(out.index(ch)) if ch in out else t.sym(t.fresh('k'), 'int')
        body = ONE
        for a, s in zip(ops, ins):
            body = t.mul(body, ix_map(t.to_num(a.body), {k: vs[ch] for k, ch in enumerate(s)}))
        for ch in dims:
            if ch not in out:
                body = t.mk_sum(vs[ch], dims[ch], body)
        if not out:
            return body
        return self.I.new_arr(st, Arr([dims[ch] for ch in out], body, 'f'))

    def n_isscalar(self, st, args, kw):
        return TRUE if is_scalar(args[0]) else FALSE

    def n_ndim(self, st, args, kw):
        return num(self.arr(st, args[0]).rank)

    def n_shape(self, st, args, kw):
        return TupleV(self.shape_of(st, args[0])) if self.I.is_array(st, args[0]) else TupleV(self.arr(st, args[0]).dims)

    def n_int64(self, st, args, kw):
        return self.b_int(st, args, kw)

    n_int32 = n_int_ = n_intp = n_int64

    def n_float64(self, st, args, kw):
        return self.b_float(st, args, kw)

    n_float32 = n_float64

    def n_bool_(self, st, args, kw):
        return self.I.truth(st, args[0])

    # ------------------------------------------------------------ random numbers
    def tick(self, st, rng, kind):
        c = st.ctr
        st.ctr = t.add(st.ctr, ONE)
        self.I.event(st, 'draw', (rng, kind, c))
        return c

    def rng_call(self, st, rng, name, args, kw):
        I = self.I
        if name in ('default_rng', 'RandomState', 'Generator', 'SeedSequence'):
            seed = self.arg(args, kw, 0, 'seed', NONE)
            if seed is NONE:
                seed = t.app('entropy', lit(t.fresh('e')))
            return I.alloc(st, ExtObj('rng', t.app('rng', I.term_of(st, seed))))
        if name == 'seed':
            I.event(st, 'reseed', (rng, [I.term_of(st, a) for a in args]))
            return NONE
        size = kw.get('size')
        if name == 'choice':
            opts = self.arg(args, kw, 0, 'a')
            size = self.arg(args, kw, 1, 'size', size)
            p = self.arg(args, kw, 3, 'p')
            if isinstance(opts, IteV):
                raise Unsupported('choice alternatives')
            if is_scalar(opts):
                opts = RangeV(ZERO, opts, ONE)
            a = self.arr(st, opts)
            if size is ONE or isinstance(size, TupleV) and len(size.items) == 1 and size.items[0] is ONE:
                r = self.rng_call(st, rng, 'choice', [opts], {} if p is None else {'p': p})
                return self.n_array(st, [TupleV([r])], {})
            if size is not None and size is not NONE:
                return t.app('uf:choice', rng, self.tick(st, rng, 'choice'), I.term_of(st, opts), I.term_of(st, size))
            if a is None:
                k, xs = I.iterate(st, opts)
                if k != 'concrete':
                    raise Unsupported('choice')
                c = self.tick(st, rng, 'choice')
                idx = t.app('rand_index', rng, c, t.lam((num(len(xs)),), ONE))
                return I.getitem(st, TupleV(xs), idx)
            if isinstance(a, Filt):
                if a.tail:
                    raise Unsupported('choice')
                if len(a.dims) == 2 and (p is None or p is NONE) and not any(x.op == 'ix' for x in t.subterms(a.dims[1])):
                    # selected points of a matrix, drawn by their flat index
                    some = self.reduce_all_axes(Filt(a.dims, a.mask, a.mask, (), 'b'), 'any')
                    I.maybe_raise(st, bnot(some), 'ValueError', 'a cannot be empty')
                    d1 = a.dims[1]
                    f = t.ix(0)
                    flat = {0: t.floordiv(f, d1), 1: t.mod(f, d1)}
                    idx = t.app('rand_index', rng, self.tick(st, rng, 'choice'), t.lam((t.mul(a.dims[0], d1),), t.to_num(ix_map(a.mask, flat))))
                    return ix_map(a.body, {0: t.floordiv(idx, d1), 1: t.mod(idx, d1)})
                if len(a.dims) != 1:
                    raise Unsupported('choice')
                if p is not None and p is not NONE:
                    w = self.arr(st, p)
                    if not isinstance(w, Filt) or w.key() != a.key():
                        if isinstance(w, Arr) and w.rank == 1:
                            return t.app('uf:choice', rng, self.tick(st, rng, 'choice'), I.term_of(st, opts), I.term_of(st, p))
                        raise Unsupported('choice p')
                    wt = mk_ite(a.mask, t.to_num(w.body), ZERO)
                else:
                    wt = t.to_num(a.mask)
                some = self.reduce_all_axes(Filt(a.dims, a.mask, a.mask, (), 'b'), 'any')
                I.maybe_raise(st, bnot(some), 'ValueError', 'a cannot be empty')
            else:
                if a.rank != 1:
                    raise Unsupported('choice')
                if p is not None and p is not NONE:
                    w = self.arr(st, p)
                    if not isinstance(w, Arr):
                        raise Unsupported('choice p')
                    if w.rank != 1 or w.dims[0] is not a.dims[0]:
                        I.maybe_raise(st, TRUE if w.rank != 1 else bnot(t.eq(w.dims[0], a.dims[0])), 'ValueError', 'a and p must have same size')
                    wt = t.to_num(w.body)
                else:
                    wt = ONE
            c = self.tick(st, rng, 'choice')
            idx = t.app('rand_index', rng, c, t.lam(a.dims, wt))
            r = ix_map(a.body, {0: idx})
            # keep list elements that are not numbers
            return r
        if name == 'multinomial' and size is None and len(args) == 2 and args[0] is ONE:
            w = self.arr(st, args[1])
            if isinstance(w, Arr) and w.rank == 1:
                idx = t.app('rand_index', rng, self.tick(st, rng, name), t.lam(w.dims, t.to_num(w.body)))
                return I.new_arr(st, Arr(w.dims, mk_ite(t.eq(t.ix(0), idx), ONE, ZERO), 'i'))
        if name in ('multinomial', 'permutation', 'shuffle'):
            raise Unsupported(name)
        c = self.tick(st, rng, name)
        if size is None and not (name in ('random', 'rand', 'random_sample', 'uniform', 'normal', 'randn', 'standard_normal') and args):
            if name in ('randint', 'integers'):
                lo, hi = (ZERO, args[0]) if len(args) == 1 else (args[0], args[1])
                return t.add(lo, t.app('rand_index', rng, c, t.lam((t.sub(hi, lo),), ONE)))
            return t.app('rand', rng, c, lit(name), *[I.term_of(st, a) for a in args])
        shp = args[0] if name in ('random', 'random_sample') and args else (TupleV(args) if name in ('rand', 'randn') else size)
        if shp is not None and name in ('random', 'rand', 'random_sample', 'randn'):
            dims = self.shape_arg(st, shp)
            return I.new_arr(st, Arr(dims, t.app('rand', rng, c, lit(name), *[t.ix(k) for k in range(len(dims))]), 'f'))
        return t.app('uf:random.' + name, rng, c, *[I.term_of(st, a) for a in args])
