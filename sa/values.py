"""Abstract values and heap objects of the value-flow interpreter."""
from . import terms as t
from .terms import T


class Dead(Exception):
    """the abstract state became unreachable while evaluating an expression"""


class Unsupported(Exception):
    """construct outside the modelled fragment; the obligation stays undecided"""


class NeedUnroll(Unsupported):
    """the loop carries a value without closed form: only its first rounds can be followed"""


class Ref:
    __slots__ = ('oid',)

    def __init__(self, oid):
        self.oid = oid

    def __eq__(self, o):
        return isinstance(o, Ref) and o.oid == self.oid

    def __hash__(self):
        return hash(('Ref', self.oid))

    def __repr__(self):
        return 'Ref(%s)' % self.oid


class AView:
    """view of array object oid: base index k is maps[k], a term over ix(0..)"""
    __slots__ = ('oid', 'maps', 'dims')

    def __init__(self, oid, maps, dims):
        self.oid, self.maps, self.dims = oid, tuple(maps), tuple(dims)

    def __eq__(self, o):
        return isinstance(o, AView) and (o.oid, o.maps, o.dims) == (self.oid, self.maps, self.dims)

    def __hash__(self):
        return hash(('AView', self.oid, self.maps, self.dims))

    def __repr__(self):
        return 'AView(%s,%s)' % (self.oid, self.maps)


class TupleV:
    __slots__ = ('items', 'names')

    def __init__(self, items, names=None):
        self.items = tuple(items)
        self.names = names

    def __repr__(self):
        return 'Tup%r' % (self.items,)


class Seg:
    """comprehension segment: value for vars in range(dims) with guard"""
    __slots__ = ('vars', 'guard', 'value')

    def __init__(self, vars, guard, value):
        self.vars, self.guard, self.value = tuple(vars), guard, value
        for x, d in self.vars:
            if x.op == 'sym':
                t.BOUND.setdefault(x.args[0], d)

    @property
    def plain(self):
        return not self.vars and self.guard is t.TRUE

    def __repr__(self):
        return 'Seg(%s|%s|%s)' % (self.vars, self.guard, self.value)


class IteV:
    __slots__ = ('c', 'a', 'b')

    def __init__(self, c, a, b):
        self.c, self.a, self.b = c, a, b

    def __repr__(self):
        return 'IteV(%s,%s,%s)' % (self.c, self.a, self.b)


class PoisonV:
    """value the analysis could not represent; any use makes the obligation undecided"""

    def __init__(self, why):
        self.why = why

    def __repr__(self):
        return 'Poison(%s)' % self.why


class FuncV:
    def __init__(self, node, module, cls=None, fid=None, qual=None, defaults=None, kwdefaults=None):
        self.node, self.module, self.cls, self.fid = node, module, cls, fid
        self.qual = qual
        self.defaults, self.kwdefaults = defaults or [], kwdefaults or {}

    def __repr__(self):
        return 'Func(%s)' % self.qual


class ClassV:
    def __init__(self, name, bases, ns, module, node):
        self.name, self.bases, self.ns, self.module, self.node = name, bases, ns, module, node

    def mro(self):
        out = []

        def go(c):
            if isinstance(c, ClassV):
                for b in [c]:
                    if b in out:
                        out.remove(b)
                    out.append(b)
                for b in c.bases:
                    go(b)
        # depth first, keep last occurrence (sufficient for the hierarchies here)
        go(self)
        return out

    def lookup(self, name, after=None):
        m = self.mro()
        if after is not None:
            m = m[m.index(after) + 1:] if after in m else []
        for c in m:
            if name in c.ns:
                return c.ns[name], c
        return None, None

    def subclass_of(self, other):
        return other in self.mro()

    def __repr__(self):
        return 'Class(%s)' % self.name


class PropV:
    def __init__(self, fget, fset=None):
        self.fget, self.fset = fget, fset


class StaticV:
    def __init__(self, f, kind):
        self.f, self.kind = f, kind


class BoundV:
    def __init__(self, func, self_):
        self.func, self.self_ = func, self_

    def __repr__(self):
        return 'Bound(%s,%s)' % (self.func, self.self_)


class MethV:
    """builtin method of a modelled value"""

    def __init__(self, name, recv):
        self.name, self.recv = name, recv

    def __repr__(self):
        return 'Meth(%s,%s)' % (self.name, self.recv)


class SuperV:
    def __init__(self, cls, self_):
        self.cls, self.self_ = cls, self_


class ExtV:
    """external (library) object known by dotted name"""
    __slots__ = ('name',)

    def __init__(self, name):
        self.name = name

    def __eq__(self, o):
        return isinstance(o, ExtV) and o.name == self.name

    def __hash__(self):
        return hash(('ExtV', self.name))

    def __repr__(self):
        return 'Ext(%s)' % self.name


class ModV:
    def __init__(self, mod):
        self.mod = mod


class SliceV:
    def __init__(self, a, b, c):
        self.a, self.b, self.c = a, b, c


class RangeV:
    def __init__(self, start, n, step):
        self.start, self.n, self.step = start, n, step


class IterV:
    """lazy pairing of iterables (zip, enumerate, items, reversed)"""

    def __init__(self, kind, parts, extra=None):
        self.kind, self.parts, self.extra = kind, parts, extra


class PartialV:
    def __init__(self, f, args, kw):
        self.f, self.args, self.kw = f, args, kw


ELLIPSIS = ExtV('Ellipsis')
UNBOUND = ExtV('<unbound>')


# ---------------------------------------------------------------- array values
class Arr:
    """total array value: element at ix(0..r-1) is body"""
    __slots__ = ('dims', 'body', 'dtype')

    def __init__(self, dims, body, dtype='f'):
        self.dims, self.body, self.dtype = tuple(dims), body, dtype

    @property
    def rank(self):
        return len(self.dims)

    def __repr__(self):
        return 'Arr[%s](%s)' % (','.join(map(str, self.dims)), self.body)


class Filt:
    """filtered array: leading axis enumerates (lexicographically) the points of dims
    where mask holds; the remaining axes are tail.  body over ix(0..n-1) and
    ix(n..) for tail."""
    __slots__ = ('dims', 'mask', 'body', 'tail', 'dtype')

    def __init__(self, dims, mask, body, tail=(), dtype='i'):
        self.dims, self.mask, self.body, self.tail, self.dtype = tuple(dims), mask, body, tuple(tail), dtype

    @property
    def rank(self):
        return 1 + len(self.tail)

    def key(self):
        return (self.dims, self.mask)

    def __repr__(self):
        return 'Filt[%s|%s](%s)' % (','.join(map(str, self.dims)), self.mask, self.body)


class TFilt:
    """transpose of a filtered matrix: only reductions are modelled"""
    __slots__ = ('f',)
    rank = 2

    def __init__(self, f):
        self.f = f


# ---------------------------------------------------------------- heap objects
class InstObj:
    def __init__(self, cls, attrs):
        self.cls, self.attrs = cls, attrs

    def with_attr(self, k, v):
        d = dict(self.attrs)
        d[k] = v
        return InstObj(self.cls, d)


class ArrObj:
    def __init__(self, arr, origin=None):
        self.arr, self.origin = arr, origin


class ListObj:
    def __init__(self, segs):
        self.segs = tuple(segs)

    @property
    def concrete(self):
        return all(s.plain for s in self.segs)

    def items(self):
        return [s.value for s in self.segs]

    def __repr__(self):
        return 'List%r' % (self.segs,)


class SetObj(ListObj):
    pass


class PhiList:
    """marker value used while a loop body is analysed: unknown list prefix"""

    def __init__(self, name):
        self.name = name


class DictObj:
    """insertion ordered; entries (key value, value, guard)"""

    def __init__(self, entries, phi=None, default=None):
        self.entries = tuple(entries)
        self.phi = phi
        self.default = default


class AltObj:
    def __init__(self, c, a, b):
        self.c, self.a, self.b = c, a, b


class ExtObj:
    """opaque library object (axes, rng, progress bar)"""

    def __init__(self, kind, term, attrs=None):
        self.kind, self.term, self.attrs = kind, term, attrs or {}


def ix_shift(body, n, by):
    """rename ix(i) for i>=n to ix(i+by)"""
    m = {}
    for x in t.fs(body):
        if x.op == 'ix' and x.args[0] >= n:
            m[x] = t.ix(x.args[0] + by)
    return t.subst(body, m) if m else body


def ix_map(body, m):
    """simultaneous substitution of ix numbers: m int -> term"""
    return t.subst(body, {t.ix(k): v for k, v in m.items()})
