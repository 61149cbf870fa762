"""Transfer functions of the numpy / builtin operations used by the repository.

Every operation maps abstract arrays (generic element terms) to abstract arrays; an
operation without a transfer function yields an uninterpreted term, which makes the
obligations that depend on it undecided instead of wrong.
"""
import re
from . import terms as t
from .terms import T, TRUE, FALSE, ZERO, ONE, NONE, num, lit, mk_ite, band, bor, bnot
from .values import *
from .npindex import IndexMixin
from .npcalls import CallMixin


def is_scalar(v):
    return isinstance(v, T)


def join_dtype(a, b):
    if a == b:
        return a
    order = 'bif'
    if a in order and b in order:
        return max(a, b, key=order.index)
    return 'o'


def dtype_of_term(x):
    if t.is_bool(x):
        return 'b'
    if all(t.isint(l) for l in t.leaves(x)):
        return 'i'
    return 'f'


class NP(IndexMixin, CallMixin):
    def __init__(self, interp):
        self.I = interp
        self.ranked = {}       # position within a selection -> (selection, coordinates)

    # ------------------------------------------------------------ helpers
    def opaque(self, st, why):
        return self.I.opaque(st, why)

    def arr(self, st, v):
        return self.I.get_arr(st, v)

    def out(self, st, a):
        if a is None:
            return self.opaque(st, 'array')
        if isinstance(a, Arr) and a.rank == 0:
            return a.body
        return self.I.new_arr(st, a)

    def length(self, f):
        c = t.to_num(f.mask)
        n = len(f.dims)
        xs = [t.sym(t.fresh('k'), 'int') for _ in range(n)]
        m = {i: xs[i] for i in range(n)}
        c = ix_map(c, m)
        for i in reversed(range(n)):
            c = t.mk_sum(xs[i], ix_map(f.dims[i], m), c)
        return c

    # ------------------------------------------------------------ broadcasting
    def align(self, a, rank):
        """pad a with leading unit axes up to rank"""
        k = rank - a.rank
        if k == 0:
            return a
        return Arr((ONE,) * k + tuple(ix_shift(d, 0, k) for d in a.dims), ix_shift(a.body, 0, k), a.dtype)

    def bdims(self, st, a, b):
        dims = []
        for x, y in zip(a.dims, b.dims):
            if x is y:
                dims.append(x)
            elif x is ONE:
                dims.append(y)
            elif y is ONE:
                dims.append(x)
            else:
                self.I.maybe_raise(st, bnot(t.eq(x, y)), 'ValueError', 'operands could not be broadcast together')
                dims.append(x)
        return dims

    def spread(self, a, dims):
        """body of a read at the broadcast index"""
        m = {}
        for k, (x, y) in enumerate(zip(a.dims, dims)):
            if x is ONE and y is not ONE:
                m[k] = ZERO
        return ix_map(a.body, m) if m else a.body

    def bcast2(self, st, a, b):
        r = max(a.rank, b.rank)
        a, b = self.align(a, r), self.align(b, r)
        dims = self.bdims(st, a, b)
        return dims, self.spread(a, dims), self.spread(b, dims)

    def zip2(self, st, f, a, b, dtype=None):
        """elementwise f over two arrays (Arr or Filt); None when not representable"""
        if a is None or b is None:
            return None
        if isinstance(a, Filt) or isinstance(b, Filt):
            if isinstance(a, Filt) and isinstance(b, Filt):
                if a.key() != b.key() or a.tail != b.tail:
                    return None
                body = f(a.body, b.body)
                return Filt(a.dims, a.mask, body, a.tail, dtype or join_dtype(a.dtype, b.dtype))
            fl, o = (a, b) if isinstance(a, Filt) else (b, a)
            n = len(fl.dims)
            if o.rank == 0:
                ob = o.body
            elif o.rank <= len(fl.tail) and all(x is y or x is ONE for x, y in zip(o.dims, fl.tail[len(fl.tail) - o.rank:])):
                k = n + len(fl.tail) - o.rank
                ob = ix_shift(self.spread(o, fl.tail[len(fl.tail) - o.rank:]), 0, k)
            else:
                return None
            body = f(fl.body, ob) if isinstance(a, Filt) else f(ob, fl.body)
            return Filt(fl.dims, fl.mask, body, fl.tail, dtype or join_dtype(a.dtype, b.dtype))
        dims, x, y = self.bcast2(st, a, b)
        return Arr(dims, f(x, y), dtype or join_dtype(a.dtype, b.dtype))

    def map1(self, f, a, dtype=None):
        if a is None:
            return None
        if isinstance(a, Filt):
            return Filt(a.dims, a.mask, f(a.body), a.tail, dtype or a.dtype)
        return Arr(a.dims, f(a.body), dtype or a.dtype)

    # ------------------------------------------------------------ operators
    def is_num_like(self, st, v):
        return is_scalar(v) and v.op not in ('lit',) and not (v.op == 'sym' and v.args[1] in ('str', 'obj'))

    def unary(self, st, op, x):
        a = self.arr(st, x) if self.I.is_array(st, x) or is_scalar(x) else None
        if a is None:
            if isinstance(x, TupleV) or isinstance(x, Ref):
                self.I.do_raise(st, 'TypeError', lit('bad operand type for unary'))
            return self.opaque(st, 'unary')
        if op == 'USub':
            r = self.map1(t.neg, a, 'i' if a.dtype == 'b' else a.dtype)
        elif op == 'UAdd':
            r = a
        elif op == 'Invert':
            if a.dtype == 'b':
                r = self.map1(bnot, a, 'b')
            else:
                r = self.map1(lambda b: t.sub(t.neg(b), ONE), a)
        else:
            return self.opaque(st, op)
        return self.out(st, r)

    BIN = {
        'Add': t.add, 'Sub': t.sub, 'Mult': t.mul, 'Div': t.div, 'Pow': t.power, 'Mod': t.mod, 'FloorDiv': t.floordiv,
    }

    def scalar_bin(self, op, x, y):
        if op in ('BitAnd', 'BitOr', 'BitXor'):
            if t.is_bool(x) and t.is_bool(y):
                if op == 'BitAnd':
                    return band(x, y)
                if op == 'BitOr':
                    return bor(x, y)
                return bnot(t.eq(x, y))
            x, y = t.to_num(x), t.to_num(y)
            if x.op == 'num' and y.op != 'num':
                x, y = y, x

            def g(p, q):
                if p.op == 'num' and q.op == 'num':
                    a, b = int(p.args[0]), int(q.args[0])
                    return num(a & b if op == 'BitAnd' else a | b if op == 'BitOr' else a ^ b)
                if op == 'BitAnd' and q.op == 'num' and q.args[0] == 1:
                    return t.mod(p, num(2))
                return t.app(op, p, q)
            return t.apply2(g, x, y)
        f = self.BIN.get(op)
        if f is None:
            return t.app(op, x, y)
        return f(x, y)

    def binop(self, st, op, x, y):
        I = self.I
        if is_scalar(x) and is_scalar(y):
            sx = x.op == 'lit' and isinstance(x.args[0].v, str) or x.op == 'app' and x.args[0] == 'fmt'
            sy = y.op == 'lit' and isinstance(y.args[0].v, str) or y.op == 'app' and y.args[0] == 'fmt'
            if sx or sy:
                if op == 'Add':
                    if sx and sy and x.op == 'lit' and y.op == 'lit':
                        return lit(x.args[0].v + y.args[0].v)
                    return t.app('fmt', x, y)
                if op == 'Mod':
                    return self.percent(st, x, [y])
                if op == 'Mult':
                    return t.app('fmt', x, y)
            if x is NONE or y is NONE:
                I.do_raise(st, 'TypeError', lit('unsupported operand NoneType'))
            nx = t.apply1(lambda l: TRUE if l is NONE else FALSE, x) if any(l is NONE for l in t.leaves(x)) else FALSE
            ny = t.apply1(lambda l: TRUE if l is NONE else FALSE, y) if any(l is NONE for l in t.leaves(y)) else FALSE
            bad = bor(nx, ny)
            if bad is not FALSE:
                I.maybe_raise(st, bad, 'TypeError', 'unsupported operand NoneType')
                x, y = t.restrict(x, st.pc), t.restrict(y, st.pc)
            return self.scalar_bin(op, x, y)
        ax = I.is_array(st, x)
        ay = I.is_array(st, y)
        if ax or ay:
            a, b = self.arr(st, x), self.arr(st, y)
            if a is None or b is None:
                return self.opaque(st, 'binop on non numeric array')
            if op in ('BitAnd', 'BitOr', 'BitXor'):
                dt = 'b' if a.dtype == 'b' and b.dtype == 'b' else 'i'
            elif op == 'Div':
                dt = 'f'
            else:
                dt = join_dtype(a.dtype, b.dtype)
                if dt == 'b':
                    dt = 'i'
            if op == 'MatMult':
                return self.dot(st, x, y)
            r = self.zip2(st, lambda p, q: self.scalar_bin(op, p, q), a, b, dt)
            return self.out(st, r)
        if op == 'Mod' and is_scalar(x) and (x.op == 'lit' and isinstance(x.args[0].v, str) or x.op == 'app' and x.args[0] == 'fmt'):
            return self.percent(st, x, list(y.items) if isinstance(y, TupleV) else [y])
        # python sequences
        lx = isinstance(x, TupleV) or (isinstance(x, Ref) and isinstance(I.obj(st, x), ListObj))
        ly = isinstance(y, TupleV) or (isinstance(y, Ref) and isinstance(I.obj(st, y), ListObj))
        if lx and ly and op == 'Add':
            if isinstance(x, TupleV) != isinstance(y, TupleV):
                I.do_raise(st, 'TypeError', lit('can only concatenate like sequences'))
            if isinstance(x, TupleV):
                return TupleV(x.items + y.items)
            return I.alloc(st, ListObj(tuple(I.obj(st, x).segs) + tuple(I.obj(st, y).segs)))
        if op == 'Mult' and (lx or ly):
            s, n = (x, y) if lx else (y, x)
            if is_scalar(n):
                if n.op == 'num':
                    items = list(s.items) * int(n.args[0]) if isinstance(s, TupleV) else None
                    if items is not None:
                        return TupleV(items)
                    segs = list(I.obj(st, s).segs) * int(n.args[0])
                    return I.alloc(st, ListObj(segs))
                o = I.obj(st, s)
                if o is not None and o.concrete and len(o.segs) == 1:
                    i = t.sym(t.fresh('i'), 'int')
                    return I.alloc(st, ListObj([Seg(((i, n),), TRUE, o.segs[0].value)]))
        if isinstance(x, Ref) and isinstance(I.obj(st, x), SetObj) and isinstance(y, Ref):
            return self.set_op(st, op, x, y)
        if isinstance(x, Ref) and isinstance(I.obj(st, x), InstObj):
            nm = {'Add': '__add__', 'Sub': '__sub__', 'Mult': '__mul__'}.get(op)
            m, c = I.obj(st, x).cls.lookup(nm) if nm else (None, None)
            if m is not None:
                return I.call(st, BoundV(m, x), [y], {})
        if lx or ly:
            I.do_raise(st, 'TypeError', lit('unsupported operand types'))
        return self.opaque(st, 'binop')

    def percent(self, st, x, ys):
        """printf-style formatting"""
        ts = [self.I.term_of(st, y) for y in ys]
        if x.op == 'lit':
            n = len(re.findall(r'%[^%]', x.args[0].v.replace('%%', '')))
            if n != len(ts):
                self.I.do_raise(st, 'TypeError', lit('format arguments'))
            if all(q.op == 'lit' and isinstance(q.args[0].v, str) or q.op == 'num' and q.args[0].denominator == 1 for q in ts):
                try:
                    return lit(x.args[0].v % tuple(q.args[0].v if q.op == 'lit' else int(q.args[0]) for q in ts))
                except TypeError:
                    self.I.do_raise(st, 'TypeError', lit('format arguments'))
        return t.app('fmt', x, *ts)

    def set_op(self, st, op, x, y):
        I = self.I
        ox, oy = I.obj(st, x), I.obj(st, y)
        if not (isinstance(oy, ListObj) and ox.concrete and oy.concrete):
            return self.opaque(st, 'set operation')
        segs = []
        for s in ox.segs:
            g = FALSE
            for q in oy.segs:
                g = bor(g, I.key_eq(st, s.value, q.value))
            if op == 'Sub':
                g = bnot(g)
            elif op == 'BitOr':
                g = TRUE
            elif op != 'BitAnd':
                return self.opaque(st, 'set operation')
            if g is not FALSE:
                segs.append(Seg((), band(s.guard, g), s.value))
        if op == 'BitOr':
            for q in oy.segs:
                g = FALSE
                for s in ox.segs:
                    g = bor(g, I.key_eq(st, s.value, q.value))
                if g is not TRUE:
                    segs.append(Seg((), bnot(g), q.value))
        return I.alloc(st, SetObj(segs))

    # ------------------------------------------------------------ comparison
    def scalar_cmp(self, op, x, y):
        if op == 'Eq':
            return t.eq(x, y)
        if op == 'NotEq':
            return bnot(t.eq(x, y))
        if op == 'Gt':
            return t.gt(x, y)
        if op == 'Lt':
            return t.gt(y, x)
        if op == 'GtE':
            return self.ge(x, y)
        if op == 'LtE':
            return self.ge(y, x)
        raise Unsupported(op)

    def ge(self, x, y):
        """x >= y, false on NaN operands"""
        r = t.bnot(t.gt(y, x))
        nn = bor(t.fn1('isnan', x), t.fn1('isnan', y))
        if nn is FALSE:
            return r
        return band(r, bnot(nn))

    def compare(self, st, op, x, y):
        I = self.I
        if op in ('Is', 'IsNot'):
            r = self.identity(st, x, y)
            return bnot(r) if op == 'IsNot' else r
        if op in ('In', 'NotIn'):
            r = self.contains(st, x, y)
            return bnot(r) if op == 'NotIn' else r
        ax, ay = I.is_array(st, x), I.is_array(st, y)
        if ax or ay:
            if x is NONE or y is NONE:
                a = self.arr(st, x if ax else y)
                return self.out(st, self.map1(lambda b: FALSE if op == 'Eq' else TRUE, a, 'b'))
            a, b = self.arr(st, x), self.arr(st, y)
            r = self.zip2(st, lambda p, q: self.scalar_cmp(op, p, q), a, b, 'b') if a is not None and b is not None else None
            return self.out(st, r)
        if is_scalar(x) and is_scalar(y):
            if op in ('Eq', 'NotEq'):
                return self.scalar_cmp(op, x, y)
            for z in (x, y):
                if z is NONE or (z.op == 'lit' and isinstance(z.args[0].v, str)):
                    other = y if z is x else x
                    if not (other.op == 'lit' and isinstance(other.args[0].v, str)):
                        I.do_raise(st, 'TypeError', lit('comparison not supported'))
            return self.scalar_cmp(op, x, y)
        if op in ('Eq', 'NotEq'):
            r = self.struct_eq(st, x, y)
            return bnot(r) if op == 'NotEq' else r
        if isinstance(x, TupleV) and isinstance(y, TupleV) and all(map(is_scalar, x.items + y.items)):
            # lexicographic
            def lex(i):
                if i >= len(x.items) or i >= len(y.items):
                    c = {'Lt': len(x.items) < len(y.items), 'Gt': len(x.items) > len(y.items),
                         'LtE': len(x.items) <= len(y.items), 'GtE': len(x.items) >= len(y.items)}[op]
                    return lit(c)
                return mk_ite(t.eq(x.items[i], y.items[i]), lex(i + 1), self.scalar_cmp(op, x.items[i], y.items[i]))
            return lex(0)
        ox, oy = I.obj(st, x), I.obj(st, y)
        if isinstance(ox, SetObj) and isinstance(oy, SetObj):
            if op in ('LtE', 'Lt'):
                x, y, ox, oy, op = y, x, oy, ox, {'LtE': 'GtE', 'Lt': 'Gt'}[op]
            r = self.list_method(st, x, ox, 'issuperset', [y], {})
            return r if op == 'GtE' else band(r, bnot(self.struct_eq(st, x, y)))
        if isinstance(ox, (ListObj, InstObj)) and isinstance(oy, (ListObj, InstObj)):
            raise Unsupported('ordering of structures')
        if isinstance(x, TupleV) or isinstance(y, TupleV) or isinstance(x, Ref) or isinstance(y, Ref):
            I.do_raise(st, 'TypeError', lit('comparison not supported'))
        return t.app('truthy', self.opaque(st, 'compare'))

    def identity(self, st, x, y):
        I = self.I
        if is_scalar(x) and is_scalar(y):
            if y is NONE or x is NONE:
                o = x if y is NONE else y
                def f(l):
                    if l is NONE:
                        return TRUE
                    if l.op == 'sym' and l.args[1] == 'obj':
                        return t.app('eq', *sorted((l, NONE), key=lambda z: z.id))
                    return FALSE
                return t.apply1(f, o)
            if t.is_bool(x) and t.is_bool(y):
                return t.eq(x, y)
            if t.is_bool(x) != t.is_bool(y) and (x.op == 'bool' or y.op == 'bool'):
                return FALSE
            return t.eq(x, y)
        if isinstance(x, Ref) and isinstance(y, Ref):
            return TRUE if x == y else FALSE
        if is_scalar(x) or is_scalar(y):
            return FALSE
        if isinstance(x, AView) or isinstance(y, AView):
            return TRUE if x == y else FALSE
        if isinstance(x, (ExtV, ClassV, FuncV)):
            return TRUE if x == y else FALSE
        if isinstance(x, TupleV) and isinstance(y, TupleV):
            return TRUE if x is y else FALSE
        return FALSE

    def struct_eq(self, st, x, y):
        I = self.I
        def seq(v):
            if isinstance(v, TupleV):
                return 'tuple', list(v.items)
            o = I.obj(st, v)
            if isinstance(o, ListObj) and o.concrete and not any(isinstance(s.value, PhiList) for s in o.segs):
                return 'list', o.items()
            return None, None
        kx, ix_ = seq(x)
        ky, iy = seq(y)
        if kx and ky:
            if kx != ky or len(ix_) != len(iy):
                return FALSE
            r = TRUE
            for p, q in zip(ix_, iy):
                c = I.truth(st, I.compare(st, 'Eq', p, q))
                r = band(r, c)
            return r
        if kx and not ky or ky and not kx:
            o = y if kx else x
            if is_scalar(o):
                if o.op in ('num', 'lit', 'bool') or t.isint(o) or t.is_bool(o):
                    items = ix_ if kx else iy
                    # a one element shape tuple compared with a numpy integer compares elementwise
                    if kx == 'tuple' or ky == 'tuple':
                        if len(items) == 1 and is_scalar(items[0]) and getattr(self, 'np_scalar', lambda z: False)(o):
                            return t.eq(items[0], o)
                    return FALSE
        if isinstance(x, Ref) and isinstance(y, Ref):
            if x == y:
                return TRUE
            ox, oy = I.obj(st, x), I.obj(st, y)
            if isinstance(ox, InstObj) and isinstance(oy, InstObj):
                m, c = ox.cls.lookup('__eq__')
                if m is not None:
                    return I.truth(st, I.call(st, BoundV(m, x), [y], {}))
                return FALSE
            if isinstance(ox, DictObj) and isinstance(oy, DictObj) and ox.phi is None and oy.phi is None:
                if len(ox.entries) != len(oy.entries):
                    return FALSE
                r = TRUE
                for (k1, v1, g1), (k2, v2, g2) in zip(ox.entries, oy.entries):
                    r = band(r, band(I.key_eq(st, k1, k2), I.truth(st, I.compare(st, 'Eq', v1, v2))))
                return r
        if isinstance(x, (ClassV, ExtV, FuncV)) or isinstance(y, (ClassV, ExtV, FuncV)):
            return TRUE if x is y or x == y else FALSE
        if is_scalar(x) and x is NONE or is_scalar(y) and y is NONE:
            return FALSE
        return t.eq(I.term_of(st, x), I.term_of(st, y))

    def contains(self, st, x, y):
        I = self.I
        if isinstance(y, TupleV):
            r = FALSE
            for q in y.items:
                r = bor(r, I.truth(st, I.compare(st, 'Eq', x, q)) if not (is_scalar(x) and is_scalar(q)) else t.eq(x, q))
            return r
        if isinstance(y, RangeV):
            d = t.sub(x, y.start)
            if y.step is ONE:
                return band(self.ge(d, ZERO), t.gt(y.n, d))
        if isinstance(y, Ref):
            o = I.obj(st, y)
            if isinstance(o, DictObj):
                return I.dict_has(st, o, x)
            if isinstance(o, ListObj):
                r = FALSE
                for s in o.segs:
                    if isinstance(s.value, PhiList):
                        raise NeedUnroll('membership in a growing list')
                    if is_scalar(x) and is_scalar(s.value):
                        c = t.eq(x, s.value)
                    else:
                        c = I.truth(st, I.compare(st, 'Eq', x, s.value))
                    c = band(s.guard, c)
                    for v, d in reversed(s.vars):
                        c = t.mk_any(v, d, c)
                    r = bor(r, c)
                return r
            if isinstance(o, InstObj):
                m, c = o.cls.lookup('__contains__')
                if m is not None:
                    return I.truth(st, I.call(st, BoundV(m, y), [x], {}))
        if I.is_array(st, y):
            b = self.arr(st, y)
            a = self.arr(st, x)
            if a is not None and b is not None and isinstance(a, Arr) and a.rank == 0:
                r = self.map1(lambda e: t.eq(a.body, e), b, 'b')
                return self.reduce_all_axes(r, 'any')
        if isinstance(y, IterV):
            k, items = I.iterate(st, y)
            if k == 'concrete':
                return self.contains(st, x, TupleV(items))
        if is_scalar(y):
            if is_scalar(x) and x.op == 'lit' and y.op == 'lit' and isinstance(y.args[0].v, str):
                return lit(x.args[0].v in y.args[0].v)
            if y.op in ('num', 'bool') or y is NONE:
                I.do_raise(st, 'TypeError', lit('argument is not iterable'))
            return t.app('in', I.term_of(st, x), y)
        return t.app('in', I.term_of(st, x), I.term_of(st, y))

    # ------------------------------------------------------------ reductions
    def reduce_all_axes(self, a, op):
        """any/all/sum/max/min/prod over every axis -> term"""
        if isinstance(a, Filt):
            n = len(a.dims)
            dims = list(a.dims) + list(a.tail)
        else:
            n = None
            dims = list(a.dims)
        xs = [t.sym(t.fresh('k'), 'int') for _ in dims]
        m = {i: x for i, x in enumerate(xs)}
        body = ix_map(a.body, m)
        dims = [ix_map(d, m) for d in dims]
        if isinstance(a, Filt):
            mask = ix_map(a.mask, m)
            if op == 'sum':
                body = mk_ite(mask, t.to_num(body), ZERO)
            elif op == 'prod':
                body = mk_ite(mask, t.to_num(body), ONE)
            elif op == 'any':
                body = band(mask, t.truthy(body))
            elif op == 'all':
                body = bor(bnot(mask), t.truthy(body))
            elif op == 'max':
                body = mk_ite(mask, t.to_num(body), t.NINF)
            elif op == 'min':
                body = mk_ite(mask, t.to_num(body), t.INF)
        elif op in ('any', 'all'):
            body = t.truthy(body)
        for x, d in reversed(list(zip(xs, dims))):
            body = self.red1(op, x, d, body)
        return body

    def red1(self, op, x, d, body):
        if op == 'sum':
            return t.mk_sum(x, d, body)
        if op == 'any':
            return t.mk_any(x, d, body)
        if op == 'all':
            return t.mk_all(x, d, body)
        return t.mk_red(op, x, d, body)

    def norm_axis(self, axis, rank):
        if axis is None or axis is NONE:
            return None
        if isinstance(axis, TupleV):
            return sorted(int(a.args[0]) % rank for a in axis.items)
        if axis.op == 'num':
            k = int(axis.args[0])
            return [k % rank] if rank else []
        raise Unsupported('symbolic axis')

    def reduce(self, st, a, op, axis=None, keepdims=False):
        """returns Arr (rank may be zero)"""
        if a is None:
            return None
        if isinstance(a, TFilt):
            ax = self.norm_axis(axis, 2)
            if keepdims:
                raise Unsupported('transposed filter')
            return self.reduce(st, a.f, op, None if ax is None else num(1 - ax[0]))
        if isinstance(a, Filt):
            ax = self.norm_axis(axis, a.rank)
            if ax is None or (ax == [0] and not a.tail):
                return Arr((), self.reduce_all_axes(a, op), self.red_dtype(op, a.dtype))
            n = len(a.dims)
            if ax == [0]:
                # reduce the filtered axis only
                xs = [t.sym(t.fresh('k'), 'int') for _ in range(n)]
                m = {i: xs[i] for i in range(n)}
                for j in range(len(a.tail)):
                    m[n + j] = t.ix(j)
                body, mask = ix_map(a.body, m), ix_map(a.mask, m)
                ident = {'sum': ZERO, 'prod': ONE, 'max': t.NINF, 'min': t.INF, 'any': FALSE, 'all': TRUE}.get(op)
                if ident is None:
                    return None
                body = mk_ite(mask, t.truthy(body) if op in ('any', 'all') else t.to_num(body), ident)
                for x, d in reversed(list(zip(xs, a.dims))):
                    body = self.red1(op, x, ix_map(d, m), body)
                return Arr([ix_map(d, m) for d in a.tail], body, self.red_dtype(op, a.dtype))
            # reduce tail axes
            tails = [k - 1 for k in ax]
            if any(k < 0 for k in tails):
                return None
            sub = Arr((ONE,) * n + a.tail, a.body, a.dtype)
            r = self.reduce(st, sub, op, TupleV([num(n + k) for k in tails]))
            return Filt(a.dims, a.mask, r.body, [d for k, d in enumerate(a.tail) if k not in tails], r.dtype)
        ax = self.norm_axis(axis, a.rank)
        if ax is None:
            ax = list(range(a.rank))
        if not ax:
            return a
        m, xs = {}, {}
        j = 0
        for k in range(a.rank):
            if k in ax:
                xs[k] = t.sym(t.fresh('k'), 'int')
                m[k] = xs[k]
                if keepdims:
                    j += 1
            else:
                m[k] = t.ix(j)
                j += 1
        body = ix_map(a.body, m)
        if op in ('any', 'all'):
            body = t.truthy(body)
        if op in ('argmax', 'argmin') and len(ax) > 1:
            return None
        for k in reversed(ax):
            if op in ('max', 'min', 'argmax', 'argmin'):
                self.I.maybe_raise(st, t.eq(a.dims[k], ZERO), 'ValueError', 'zero-size array to reduction')
            body = self.red1(op, xs[k], a.dims[k], body)
        dims = [d if k not in ax else ONE for k, d in enumerate(a.dims) if keepdims or k not in ax]
        return Arr(dims, body, self.red_dtype(op, a.dtype))

    def red_dtype(self, op, dt):
        if op in ('any', 'all'):
            return 'b'
        if op in ('argmax', 'argmin'):
            return 'i'
        if op == 'sum' and dt == 'b':
            return 'i'
        return dt

    def count(self, a, axis_dims):
        r = ONE
        for d in axis_dims:
            r = t.mul(r, d)
        return r

    def mean(self, st, a, axis):
        s = self.reduce(st, a, 'sum', axis)
        if s is None:
            return None
        if isinstance(a, Filt):
            if self.norm_axis(axis, a.rank) in (None, [0]):
                n = self.length(a)
                if self.norm_axis(axis, a.rank) is None:
                    n = t.mul(n, self.count(a, a.tail))
            else:
                return None
        else:
            ax = self.norm_axis(axis, a.rank)
            n = self.count(a, [d for k, d in enumerate(a.dims) if ax is None or k in ax])
        return self.map1(lambda b: t.div(b, n), s, 'f')

    def nan_red(self, st, a, op, axis):
        if a is None or isinstance(a, Filt):
            return None
        ok = self.map1(lambda b: bnot(t.fn1('isnan', b)), a, 'b')
        if op in ('mean', 'sum', 'std', 'var'):
            z = self.map1(lambda b: mk_ite(t.fn1('isnan', b), ZERO, t.to_num(b)), a, 'f')
            s = self.reduce(st, z, 'sum', axis)
            if op == 'sum':
                return s
            n = self.reduce(st, self.map1(t.to_num, ok, 'i'), 'sum', axis)
            some = self.reduce(st, ok, 'any', axis)
            mean = Arr(s.dims, mk_ite(some.body, t.div(s.body, n.body), t.NAN), 'f')
            if op == 'mean':
                return mean
            if self.norm_axis(axis, a.rank) is not None and a.rank > 1:
                return None
            mu = mean.body
            z2 = self.map1(lambda b: mk_ite(t.fn1('isnan', b), ZERO, t.power(t.sub(t.to_num(b), t.restrict(mu, some.body)), num(2))), a, 'f')
            s2 = self.reduce(st, z2, 'sum', axis)
            var = t.div(s2.body, n.body)
            return Arr((), mk_ite(some.body, t.fn1('sqrt', var) if op == 'std' else var, t.NAN), 'f')
        ident = t.NINF if op == 'max' else t.INF
        z = self.map1(lambda b: mk_ite(t.fn1('isnan', b), ident, t.to_num(b)), a, 'f')
        if op in ('argmax', 'argmin'):
            z = self.map1(lambda b: mk_ite(t.fn1('isnan', b), t.NINF if op == 'argmax' else t.INF, t.to_num(b)), a, 'f')
            return self.reduce(st, z, op, axis)
        some = self.reduce(st, ok, 'any', axis)
        r = self.reduce(st, z, op, axis)
        return Arr(r.dims, mk_ite(some.body, r.body, t.NAN), 'f')

    # ------------------------------------------------------------ products
    def dot(self, st, x, y):
        a, b = self.arr(st, x), self.arr(st, y)
        if a is None or b is None or isinstance(b, Filt):
            if isinstance(a, Filt) and isinstance(b, Filt) and not a.tail and not b.tail:
                z = self.zip2(st, t.mul, a, b)
                return self.out(st, self.reduce(st, z, 'sum')) if z is not None else self.opaque(st, 'dot')
            return self.opaque(st, 'dot')
        if isinstance(a, Filt):
            return self.opaque(st, 'dot')
        if a.rank == 0 or b.rank == 0:
            return self.out(st, self.zip2(st, t.mul, a, b))
        k = t.sym(t.fresh('k'), 'int')
        da = a.dims[-1]
        db = b.dims[0] if b.rank == 1 else b.dims[-2]
        if da is not db:
            self.I.maybe_raise(st, bnot(t.eq(da, db)), 'ValueError', 'shapes not aligned')
        ra = a.rank - 1
        ma = {ra: k}
        ba = ix_map(a.body, ma)
        mb = {}
        j = ra
        dims = list(a.dims[:-1])
        for q in range(b.rank):
            if q == (0 if b.rank == 1 else b.rank - 2):
                mb[q] = k
            else:
                mb[q] = t.ix(j)
                dims.append(b.dims[q])
                j += 1
        bb = ix_map(b.body, mb)
        return self.out(st, Arr(dims, t.mk_sum(k, da, t.mul(ba, bb)), join_dtype(a.dtype, b.dtype)))

    # ------------------------------------------------------------ concatenation
    def concat2(self, a, b, axis):
        if isinstance(a, Filt) or isinstance(b, Filt):
            return self.filt_concat(a, b) if axis == 0 else None
        if a.rank != b.rank:
            return None
        if isinstance(a.dims[axis], T) and a.dims[axis] is ZERO:
            return b
        if b.dims[axis] is ZERO:
            return a
        n = a.dims[axis]
        c = t.gt(n, t.ix(axis))
        sb = ix_map(b.body, {axis: t.sub(t.ix(axis), n)})
        dims = [t.add(x, y) if k == axis else x for k, (x, y) in enumerate(zip(a.dims, b.dims))]
        return Arr(dims, mk_ite(c, a.body, sb), join_dtype(a.dtype, b.dtype))

    def filt_concat(self, a, b):
        return None
