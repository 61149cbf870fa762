"""Builtins, methods of modelled values, external attribute/call dispatch."""
import string
from . import terms as t
from .terms import T, TRUE, FALSE, ZERO, ONE, NONE, num, lit, mk_ite, band, bor, bnot
from .values import *
from .npfuncs import FuncMixin


def is_scalar(v):
    return isinstance(v, T)


BUILTINS = '''len range enumerate zip sum any all list tuple dict set frozenset int float bool str abs max min sorted
isinstance issubclass type print reversed map filter getattr hasattr setattr round iter next object super repr id
callable vars divmod pow open hash'''.split()
EXCEPTIONS = '''Exception BaseException ValueError TypeError AttributeError KeyError IndexError AssertionError
NotImplementedError RuntimeError LookupError ZeroDivisionError StopIteration ArithmeticError NameError
UserWarning Warning DeprecationWarning RuntimeWarning FutureWarning ImportError OSError IOError
FileNotFoundError OverflowError PermissionError RecursionError KeyboardInterrupt'''.split()
REMOVED = {'numpy.int', 'numpy.float', 'numpy.bool', 'numpy.object', 'numpy.str', 'numpy.complex', 'numpy.long'}


OPERATORS = dict([(k, ('bin', v)) for k, v in (('add', 'Add'), ('sub', 'Sub'), ('mul', 'Mult'), ('truediv', 'Div'), ('floordiv', 'FloorDiv'),
                                            ('mod', 'Mod'), ('pow', 'Pow'), ('and_', 'BitAnd'), ('or_', 'BitOr'), ('xor', 'BitXor'), ('matmul', 'MatMult'))] +
                 [(k, ('cmp', v)) for k, v in (('eq', 'Eq'), ('ne', 'NotEq'), ('lt', 'Lt'), ('le', 'LtE'), ('gt', 'Gt'), ('ge', 'GtE'))] + [('getitem', ('get', None))])
MUTATORS = {'numpy.put', 'numpy.place', 'numpy.put_along_axis', 'numpy.copyto', 'numpy.fill_diagonal', 'numpy.putmask'}



# keyword arguments without influence on the values
HARMLESS = ('copy', 'subok', 'casting', 'like', 'stacklevel', 'category')
# calls whose arguments do not influence the values computed
SILENT = ('builtins.print', 'warnings.', 'logging.', 'tqdm.', 'fastprogress.', 'time.', 'typing.', 'object.', 'gc.', 'sys.')


class Kw(dict):
    """keyword arguments of a library call; remembers which of them were looked at"""

    def __init__(self, d):
        dict.__init__(self, d)
        self.used = set()

    def left(self):
        return [k for k in dict.keys(self) if k not in self.used]

    def get(self, k, d=None):
        self.used.add(k)
        return dict.get(self, k, d)

    def __getitem__(self, k):
        self.used.add(k)
        return dict.__getitem__(self, k)

    def __contains__(self, k):
        self.used.add(k)
        return dict.__contains__(self, k)

    def pop(self, k, *d):
        self.used.add(k)
        return dict.pop(self, k, *d)

    def mark(self):
        self.used.update(dict.keys(self))

    def items(self):
        self.mark()
        return dict.items(self)

    def keys(self):
        self.mark()
        return dict.keys(self)

    def values(self):
        self.mark()
        return dict.values(self)

    def __iter__(self):
        self.mark()
        return dict.__iter__(self)

    def copy(self):
        self.mark()
        return dict(self)


class Args(list):
    """positional arguments of a library call; remembers which of them were looked at"""

    def __init__(self, xs):
        list.__init__(self, xs)
        self.used = set()

    def left(self):
        return [k for k in range(len(self)) if k not in self.used]

    def mark(self):
        self.used.update(range(len(self)))

    def __getitem__(self, k):
        self.used.update(range(len(self))[k] if isinstance(k, slice) else [k % len(self) if len(self) else k])
        return list.__getitem__(self, k)

    def __iter__(self):
        self.used.update(range(len(self)))
        return list.__iter__(self)

    def __add__(self, o):
        return list(self) + list(o)

class CallMixin(FuncMixin):
    _pylib = None

    def pylib(self, name):
        if self._pylib is None:
            from .pylib import SRC
            m = self.I.project.modules.get('<pylib>') or self.I.project.add('<pylib>', SRC)
            self._pylib = self.I.project_globals(m)
        f = self._pylib.get(name)
        return f if isinstance(f, FuncV) else None

    def builtin(self, name):
        if name in BUILTINS or name in EXCEPTIONS:
            return ExtV('builtins.' + name)
        if name == 'NotImplemented':
            return ExtV('NotImplemented')
        if name == '__name__':
            return lit('module')
        if name == '__file__':
            return lit('file')
        return None

    # ------------------------------------------------------------ external attributes
    def ext_attr(self, st, v, name):
        full = v.name + '.' + name
        if v.name == 'numpy':
            if full in REMOVED:
                self.I.event(st, 'attrerror', ('numpy', name))
                self.I.do_raise(st, 'AttributeError', lit('module numpy has no attribute ' + name))
            if name == 'inf' or name == 'Inf' or name == 'infty':
                return t.INF
            if name == 'nan' or name == 'NaN':
                return t.NAN
            if name == 'pi':
                return t.sym('pi', 'num')
            if name == 'e':
                return t.fn1('exp', ONE)
            if name == 'newaxis':
                return NONE
            if name == 'NINF':
                return t.NINF
        if v.name == 'math':
            if name == 'inf':
                return t.INF
            if name == 'nan':
                return t.NAN
        if v.name == 'numpy.random' and name == 'random':
            return ExtV('numpy.random.random')
        if v.name == 'numpy.random.random':
            self.I.event(st, 'attrerror', ('numpy.random.random', name))
            self.I.do_raise(st, 'AttributeError', lit(name))
        return ExtV(full)

    def ext_result(self, st, name, terms, kw):
        kws = [t.app('kw', lit(k), self.I.term_of(st, x)) for k, x in sorted(kw.items())]
        self.I.event(st, 'extcall', (name, list(terms), {k: x for k, x in kw.items()}))
        return t.app('ext', lit(name), *(list(terms) + kws))

    def colour_call(self, st, f, args):
        """matplotlib: a normaliser is a linear map clipped to [0, 1]; a colour map gives four unknown channels"""
        if f.op != 'app' or f.args[0] != 'ext' or len(args) != 1 or not self.I.is_array(st, args[0]):
            return None
        n = f.args[1]
        n = n.args[0].v if n.op == 'lit' else None
        if n == 'matplotlib.colors.Normalize':
            lo, hi = (list(f.args[2:]) + [None, None])[:2]
            if lo is None or hi is None or 'kw' in (lo.args[:1] + hi.args[:1]):
                return None
            a = self.I.get_arr(st, args[0])
            if any(x.op == 'app' and x.args[0] == 'kw' and x.args[1] is lit('clip') and x.args[2] is TRUE for x in f.args[2:]):
                b = t.max2([t.max2([t.div(t.sub(a.body, lo), t.sub(hi, lo)), t.ZERO]), ONE], 'min')
            else:
                b = t.div(t.sub(a.body, lo), t.sub(hi, lo))
            return self.I.alloc(st, ArrObj(Arr(a.dims, b, 'f')))
        if n in ('matplotlib.colors.LinearSegmentedColormap.from_list', 'matplotlib.pyplot.get_cmap', 'matplotlib.cm.get_cmap'):
            a = self.I.get_arr(st, args[0])
            k = len(a.dims)
            return self.I.alloc(st, ArrObj(Arr(tuple(a.dims) + (t.num(4),), t.app('ext', f, a.body, t.ix(k)), 'f')))
        return None

    # ------------------------------------------------------------ calls of external names
    def call_ext(self, st, name, args, kw):
        return self.tracked(st, name, lambda a, k: self._call_ext(st, name, a, k), args, kw, lambda s, a, k: self.call_ext(s, name, a, k))

    def call_method(self, st, recv, name, args, kw):
        return self.tracked(st, '.' + name, lambda a, k: self._call_method(st, recv, name, a, k), args, kw, lambda s, a, k: self.call_method(s, recv, name, a, k))

    def tracked(self, st, name, f, args, kw, again):
        """run a library model; an argument which the model never looked at means that the model does not cover this call"""
        for key, v in list(dict.items(kw)):
            if isinstance(v, t.T) and v.op == 'ite' and any(x.op == 'lit' for x in v.args[1:]):
                def g(x):
                    def h(s):
                        d = dict(dict.items(kw))
                        d[key] = x
                        return again(s, list(list.__iter__(args)), d)
                    return h
                if isinstance(args, Args):
                    args.mark()
                if isinstance(kw, Kw):
                    kw.mark()
                return self.I.fork(st, v.args[0], g(v.args[1]), g(v.args[2]))
        if not isinstance(args, Args) or not isinstance(kw, Kw):
            a = args if isinstance(args, Args) else Args(args)
            k = kw if isinstance(kw, Kw) else Kw(kw)
            r = f(a, k)
            left = (a.left() if not isinstance(args, Args) else []) + [x for x in k.left() if x not in HARMLESS and not isinstance(kw, Kw)]
            if left and not (name.startswith(SILENT) or name.startswith('builtins.') and name[9:] in EXCEPTIONS):
                raise Unsupported('%s: argument %s not modelled' % (name, left[0]))
            return r
        return f(args, kw)

    def _call_ext(self, st, name, args, kw):
        I = self.I
        # lift alternatives in the arguments
        for k, a in enumerate(list.__iter__(args)):
            if isinstance(a, IteV) or (isinstance(a, Ref) and isinstance(I.obj(st, a), AltObj)):
                def f(s, x, k=k):
                    aa = list(list.__iter__(args))
                    aa[k] = x
                    return self.call_ext(s, name, aa, dict(dict.items(kw)))
                args.mark()
                kw.mark()
                return I.lift(st, a, f)
        for k, a in dict.items(kw):
            if isinstance(a, IteV):
                def f(s, x, k=k):
                    d = dict(dict.items(kw))
                    d[k] = x
                    return self.call_ext(s, name, list(list.__iter__(args)), d)
                args.mark()
                kw.mark()
                return I.lift(st, a, f)
        if name.startswith('builtins.'):
            b = name[9:]
            if b in EXCEPTIONS:
                return t.app('exc', lit(b))
            m = getattr(self, 'b_' + b, None)
            if m is not None:
                return m(st, args, kw)
            return self.ext_result(st, name, [I.term_of(st, a) for a in args], kw)
        if name.startswith('numpy.random.'):
            return self.rng_call(st, lit('global'), name[13:], args, kw)
        if name.startswith('numpy.'):
            if 'out' in kw and kw['out'] is not NONE and isinstance(kw['out'], (Ref, AView)):
                r = self.call_ext(st, name, args, {k: x for k, x in kw.items() if k != 'out'})
                self.write_all(st, kw['out'], r)
                return kw['out']
            if 'where' in kw or 'initial' in kw:
                f = self.pylib('w_' + name[6:])
                if f is None:
                    raise Unsupported(name + ' with where= or initial=')
                return I.call(st, f, args, kw)
            m = getattr(self, 'n_' + name[6:].replace('.', '_'), None)
            if m is not None:
                return m(st, args, kw)
            f = self.pylib('n_' + name[6:].replace('.', '_'))
            if f is not None:
                return I.call(st, f, args, kw)
            if name in MUTATORS or name.endswith('.at'):
                raise Unsupported(name)
            I.event(st, 'unmodelled', (name,))
            return t.app('uf:' + name, *([I.term_of(st, a) for a in args] + [t.app('kw', lit(k), I.term_of(st, x)) for k, x in sorted(kw.items())]))
        if name.startswith('math.') and getattr(self, 'n_' + name[5:], None) is not None:
            return getattr(self, 'n_' + name[5:])(st, args, kw)
        if name.startswith('object.'):
            return NONE
        short = name.split('.')[-1]
        if name in ('fastprogress.progress_bar', 'fastprogress.fastprogress.progress_bar', 'tqdm.tqdm', 'numba.prange'):
            if short == 'prange':
                return self.b_range(st, args, kw)
            return args[0]
        if name == 'copy.deepcopy':
            return self.deepcopy(st, args[0], {})
        if name == 'copy.copy':
            return self.shallow(st, args[0])
        if name == 'operator.itemgetter':
            if not args:
                I.do_raise(st, 'TypeError', lit('itemgetter expected 1 argument, got 0'))
            return PartialV(ExtV('<itemgetter>'), [TupleV(args)], {})
        if name == '<itemgetter>':
            idx, seq = args[0].items, args[1]
            vals = [I.getitem(st, seq, i) for i in idx]
            return vals[0] if len(vals) == 1 else TupleV(vals)
        if name.startswith('operator.') and short in OPERATORS:
            k, op = OPERATORS[short]
            if k == 'bin':
                return I.binop(st, op, args[0], args[1])
            if k == 'cmp':
                return I.compare(st, op, args[0], args[1])
            return I.getitem(st, args[0], args[1])
        if name == 'functools.reduce':
            f = self.pylib('x_reduce' if len(args) < 3 else 'x_reduce3')
            return I.call(st, f, args, kw)
        if name in ('itertools.chain', 'itertools.chain.from_iterable'):
            if name.endswith('from_iterable'):
                k, args = I.iterate(st, args[0])
                if k != 'concrete':
                    raise Unsupported('chain of a symbolic sequence')
            segs = []
            for a in args:
                segs.extend(I.to_segs(st, a))
            return I.alloc(st, ListObj(segs))
        if name == 'math.isclose':
            raise Unsupported(name)
        if name == 'math.prod':
            return self.n_prod(st, args, kw)
        if name.startswith('scipy.special.') and self.pylib('x_' + short) is not None:
            return I.call(st, self.pylib('x_' + short), args, kw)
        if name == 'functools.partial':
            return PartialV(args[0], args[1:], kw)
        if name in ('scipy.spatial.distance.cdist',):
            return self.n_cdist(st, args, kw)
        if name in ('scipy.spatial.distance.euclidean',):
            a, b = self.arr(st, args[0]), self.arr(st, args[1])
            z = self.zip2(st, lambda p, q: t.power(t.sub(p, q), num(2)), a, b)
            return t.fn1('sqrt', self.reduce(st, z, 'sum').body)
        if name in ('warnings.warn',):
            I.event(st, 'warn', tuple(I.term_of(st, a) for a in args))
            return NONE
        if name.startswith('warnings.') or name.startswith('logging.'):
            return ExtV('ctx')
        if name in ('time.time', 'time.perf_counter', 'time.monotonic'):
            return t.sym(t.fresh('time'), 'num')
        if name.startswith('typing.'):
            return ExtV('typing.x')
        if name == 'matplotlib.patches.RegularPolygon' and args:
            I.event(st, 'extcall', (name, [], kw))
            ks = sorted(k for k in kw if k in ('facecolor', 'alpha', 'edgecolor', 'radius'))
            return TupleV([args[0]] + [kw[k] for k in ks], tuple(['xy'] + ks))
        if name in ('collections.namedtuple',):
            return self.make_namedtuple(st, args)
        if name.startswith('<namedtuple>'):
            fields = self._ntfields[name]
            vals = list(args) + [None] * (len(fields) - len(args))
            for k, x in kw.items():
                vals[fields.index(k)] = x
            return TupleV(vals, fields)
        if name in ('collections.OrderedDict', 'collections.defaultdict'):
            r = self.b_dict(st, args if name.endswith('OrderedDict') else args[1:], kw)
            if name.endswith('defaultdict') and args and args[0] is not NONE:
                o = st.heap[r.oid]
                st.heap[r.oid] = DictObj(o.entries, o.phi, args[0])
            return r
        if name in ('itertools.product',):
            parts = [I.iterate(st, a) for a in args]
            if all(k == 'concrete' for k, _ in parts):
                rows = [[]]
                for _, xs in parts:
                    rows = [r + [x] for r in rows for x in xs]
                return IterV('list', [TupleV(r) for r in rows])
            rows = [((), TRUE, ())]
            for k, x in parts:
                segs = [Seg((), TRUE, y) for y in x] if k == 'concrete' else [x]
                segs = [q if not q.vars else I.freshen(q) for q in segs]
                rows = [(vs + tuple(q.vars), band(g, q.guard), its + (q.value,)) for vs, g, its in rows for q in segs]
            return I.alloc(st, ListObj([Seg(vs, g, TupleV(its)) for vs, g, its in rows]))
        if name == 'json.dump':
            I.event(st, 'jsondump', (args[0],))
            return NONE
        if name == 'json.dumps':
            I.event(st, 'jsondump', (args[0],))
            snap = self.jsoned(st, args[0])
            x = t.app('json', I.term_of(st, args[0]), num(len(self._json)))
            self._json[x] = snap
            return x
        if name == 'json.loads' and args and args[0] in self._json:
            return self.deepcopy(st, self._json[args[0]], {})
        if name in ('json.load', 'json.loads'):
            h = getattr(I, 'json_value', None)
            if h is not None:
                return h(I, st)
            return t.sym(t.fresh('json'), 'obj')
        if name.startswith('<missing>'):
            I.do_raise(st, 'ImportError', lit(name))
        if name.startswith('dtype') or name.endswith('float64'):
            pass
        return self.ext_result(st, name, [I.term_of(st, a) for a in args], kw)

    _ntfields = {}

    def make_namedtuple(self, st, args):
        nm = args[0].args[0].v
        f = args[1]
        if is_scalar(f):
            fields = f.args[0].v.replace(',', ' ').split()
        else:
            fields = [x.args[0].v for x in self.I.iterate(st, f)[1]]
        key = '<namedtuple>' + nm
        self._ntfields[key] = fields
        return ExtV(key)

    # ------------------------------------------------------------ copying
    _json = {}

    def jsoned(self, st, v):
        """what a value comes back as from JSON: tuples as lists, keys as strings; arrays and objects are refused"""
        I = self.I
        if isinstance(v, IteV):
            return IteV(v.c, self.jsoned(st, v.a), self.jsoned(st, v.b))
        if is_scalar(v):
            return v
        if isinstance(v, TupleV):
            return I.alloc(st, ListObj([Seg((), TRUE, self.jsoned(st, x)) for x in v.items]))
        if isinstance(v, Ref):
            o = I.obj(st, v)
            if isinstance(o, DictObj) and o.phi is None:
                if any(not (is_scalar(k) and k.op == 'lit' and isinstance(k.args[0].v, str)) for k, x, g in o.entries):
                    raise Unsupported('JSON keys')
                return I.alloc(st, DictObj([(k, self.jsoned(st, x), g) for k, x, g in o.entries], None))
            if type(o) is ListObj:
                if any(isinstance(s.value, PhiList) for s in o.segs):
                    raise Unsupported('JSON of a growing list')
                return I.alloc(st, ListObj([Seg(s.vars, s.guard, self.jsoned(st, s.value)) for s in o.segs]))
            if isinstance(o, (ArrObj, InstObj)):
                I.do_raise(st, 'TypeError', lit('Object is not JSON serializable'))
        if isinstance(v, (ClassV, FuncV, AView)):
            I.do_raise(st, 'TypeError', lit('Object is not JSON serializable'))
        raise Unsupported('JSON of %s' % type(v).__name__)

    def deepcopy(self, st, v, memo):
        I = self.I
        if isinstance(v, IteV):
            return IteV(v.c, self.deepcopy(st, v.a, memo), self.deepcopy(st, v.b, memo))
        if isinstance(v, TupleV):
            return TupleV([self.deepcopy(st, x, memo) for x in v.items], v.names)
        if isinstance(v, AView):
            return self.out(st, self.arr(st, v))
        if isinstance(v, BoundV):
            return BoundV(v.func, self.deepcopy(st, v.self_, memo))
        if not isinstance(v, Ref):
            return v
        if v.oid in memo:
            return memo[v.oid]
        o = I.obj(st, v)
        if isinstance(o, ExtObj) and o.kind == 'rng':
            r = I.alloc(st, ExtObj('rng', t.app('rngcopy', o.term)))
            memo[v.oid] = r
            return r
        r = I.alloc(st, None)
        memo[v.oid] = r
        st.heap[r.oid] = self.deep_obj(st, o, memo)
        return r

    def deep_obj(self, st, o, memo):
        if isinstance(o, AltObj):
            return AltObj(o.c, self.deep_obj(st, o.a, memo), self.deep_obj(st, o.b, memo))
        if isinstance(o, ArrObj):
            return ArrObj(o.arr)
        if isinstance(o, ListObj):
            return type(o)([Seg(s.vars, s.guard, self.deepcopy(st, s.value, memo)) for s in o.segs])
        if isinstance(o, DictObj):
            return DictObj([(self.deepcopy(st, k, memo), self.deepcopy(st, x, memo), g) for k, x, g in o.entries], o.phi, o.default)
        if isinstance(o, InstObj):
            return InstObj(o.cls, {k: self.deepcopy(st, x, memo) for k, x in o.attrs.items()})
        return o

    def shallow(self, st, v):
        I = self.I
        if isinstance(v, AView):
            return self.out(st, self.arr(st, v))
        if isinstance(v, Ref):
            return I.alloc(st, I.obj(st, v))
        return v

    # ------------------------------------------------------------ builtins
    def b_len(self, st, args, kw):
        I = self.I
        v = args[0]
        def f(st, v):
            if isinstance(v, TupleV):
                return num(len(v.items))
            if isinstance(v, RangeV):
                return v.n
            if isinstance(v, Ref):
                o = I.obj(st, v)
                if isinstance(o, ListObj):
                    return I.list_len(o)
                if isinstance(o, DictObj):
                    n = ZERO
                    for _, _, g in o.entries:
                        n = t.add(n, t.to_num(g))
                    if o.phi is not None:
                        n = t.add(n, t.sym('len:' + o.phi, 'int'))
                    return n
                if isinstance(o, InstObj):
                    m, c = o.cls.lookup('__len__')
                    if m is not None:
                        return I.call(st, BoundV(m, v), [], {})
                    I.do_raise(st, 'TypeError', lit('object has no len()'))
            if I.is_array(st, v):
                return self.shape_of(st, v)[0]
            if is_scalar(v):
                if v.op == 'lit' and isinstance(v.args[0].v, str):
                    return num(len(v.args[0].v))
                if v.op in ('num', 'bool') or v is NONE or t.isint(v) or (v.op == 'sym' and v.args[1] in ('num', 'int', 'bool')):
                    I.do_raise(st, 'TypeError', lit('object has no len()'))
                return t.app('len', v)
            if isinstance(v, IterV):
                k, x = I.iterate(st, v)
                if k == 'concrete':
                    return num(len(x))
                return I.list_len(ListObj([x]))
            raise Unsupported('len')
        return I.lift(st, v, f)

    def b_range(self, st, args, kw):
        a = [t.to_num(x) if is_scalar(x) else x for x in args]
        for x in a:
            if not is_scalar(x) or x is NONE or x.op == 'lit':
                self.I.do_raise(st, 'TypeError', lit('range argument'))
        if len(a) == 1:
            return RangeV(ZERO, a[0] if t.nonneg(a[0]) else self.clip(a[0]), ONE)
        if len(a) == 2:
            d = t.sub(a[1], a[0])
            return RangeV(a[0], d if t.nonneg(d) else self.clip(d), ONE)
        if a[2].op == 'num':
            s = a[2].args[0]
            if s == -1:
                return RangeV(a[0], self.clip(t.sub(a[0], a[1])), a[2])
            if all(x.op == 'num' for x in a):
                n = len(range(int(a[0].args[0]), int(a[1].args[0]), int(s)))
                return RangeV(a[0], num(n), a[2])
            if s > 0:
                d = t.sub(a[1], a[0])
                return RangeV(a[0], self.clip(t.floordiv(t.add(d, num(s - 1)), num(s))), a[2])
        raise Unsupported('range')

    def clip(self, x):
        if x.op == 'num':
            return x if x.args[0] > 0 else ZERO
        if t.nonneg(x):
            return x
        # symbolic extents of shapes and counts are taken to be non-negative
        if x.op in ('sym', 'app', 'sum', 'poly'):
            return self.assume_extent(x)
        return t.apply1(lambda l: l if l.op != 'num' or l.args[0] > 0 else ZERO, x)

    def assume_extent(self, x):
        return x

    def b_enumerate(self, st, args, kw):
        start = args[1] if len(args) > 1 else kw.get('start', ZERO)
        return IterV('enumerate', [args[0]], start)

    def b_zip(self, st, args, kw):
        return IterV('zip', list(args))

    def b_reversed(self, st, args, kw):
        return IterV('reversed', list(args))

    def b_iter(self, st, args, kw):
        return args[0]

    def b_sum(self, st, args, kw):
        I = self.I
        start = args[1] if len(args) > 1 else ZERO
        v = args[0]
        if isinstance(v, IterV) or isinstance(v, TupleV):
            k, x = I.iterate(st, v)
            if k == 'concrete':
                r = start
                for y in x:
                    r = I.binop(st, 'Add', r, y)
                return r
        o = I.obj(st, v)
        if isinstance(o, ListObj) and o.concrete and not any(isinstance(s.value, PhiList) for s in o.segs):
            r = start
            for y in o.items():
                r = I.binop(st, 'Add', r, y)
            return r
        a = self.arr(st, v)
        if a is None:
            raise Unsupported('sum')
        r = self.out(st, self.reduce(st, a, 'sum', ZERO if a.rank > 1 else None))
        return I.binop(st, 'Add', r, start) if start is not ZERO else r

    def anyall(self, st, args, op):
        I = self.I
        v = args[0]
        if isinstance(v, (TupleV, IterV)) or (isinstance(I.obj(st, v), ListObj) and I.obj(st, v).concrete):
            k, x = I.iterate(st, v)
            if k == 'concrete':
                r = FALSE if op == 'any' else TRUE
                for y in x:
                    c = I.truth(st, y)
                    r = bor(r, c) if op == 'any' else band(r, c)
                return r
        a = self.arr(st, v)
        if a is None:
            raise Unsupported(op)
        return self.reduce_all_axes(self.map1(t.truthy, a, 'b'), op)

    def b_any(self, st, args, kw):
        return self.anyall(st, args, 'any')

    def b_all(self, st, args, kw):
        return self.anyall(st, args, 'all')

    def b_list(self, st, args, kw):
        I = self.I
        if not args:
            return I.new_list(st, [])
        v = args[0]
        o = I.obj(st, v)
        if isinstance(o, ListObj):
            return I.alloc(st, ListObj(o.segs))
        k, x = I.iterate(st, v)
        if k == 'concrete':
            return I.new_list(st, x)
        return I.alloc(st, ListObj([x]))

    def b_tuple(self, st, args, kw):
        I = self.I
        if not args:
            return TupleV(())
        k, x = I.iterate(st, args[0])
        if k == 'concrete':
            return TupleV(x)
        return I.alloc(st, ListObj([x]))

    def b_set(self, st, args, kw):
        I = self.I
        if not args:
            return I.alloc(st, SetObj([]))
        k, x = I.iterate(st, args[0])
        if k == 'concrete':
            segs = []
            for y in x:
                g = TRUE
                for s in segs:
                    g = band(g, bnot(band(s.guard, I.key_eq(st, s.value, y))))
                if g is not FALSE:
                    segs.append(Seg((), g, y))
            return I.alloc(st, SetObj(segs))
        return I.alloc(st, SetObj([x]))

    b_frozenset = b_set

    def b_dict(self, st, args, kw):
        I = self.I
        r = I.alloc(st, DictObj([]))
        if args:
            I.dict_update(st, r, args[0])
        for k, x in kw.items():
            I.dict_set(st, r, lit(k), x)
        return r

    def b_int(self, st, args, kw):
        if not args:
            return ZERO
        return self.to_scalar(st, args[0], 'int')

    def b_float(self, st, args, kw):
        if not args:
            return ZERO
        v = args[0]
        if is_scalar(v) and v.op == 'lit' and isinstance(v.args[0].v, str):
            s = v.args[0].v.lower().strip()
            if s in ('inf', '+inf', 'infinity'):
                return t.INF
            if s in ('-inf', '-infinity'):
                return t.NINF
            if s == 'nan':
                return t.NAN
        return self.to_scalar(st, v, 'float')

    def b_bool(self, st, args, kw):
        return self.I.truth(st, args[0]) if args else FALSE

    def to_scalar(self, st, v, kind):
        I = self.I
        if I.is_array(st, v):
            a = self.arr(st, v)
            if isinstance(a, Filt):
                n = self.length(a)
                I.maybe_raise(st, bnot(t.eq(n, ONE)), 'TypeError', 'only size-1 arrays can be converted')
                v = self.filt_read(st, a, [ZERO])
            else:
                bad = FALSE
                for d in a.dims:
                    bad = bor(bad, bnot(t.eq(d, ONE)))
                I.maybe_raise(st, bad, 'TypeError', 'only size-1 arrays can be converted')
                v = ix_map(a.body, {k: ZERO for k in range(a.rank)})
        if not is_scalar(v) or v is NONE:
            I.do_raise(st, 'TypeError', lit('cannot convert to number'))
        if v.op == 'lit':
            if isinstance(v.args[0].v, str):
                try:
                    return num(int(v.args[0].v) if kind == 'int' else float(v.args[0].v))
                except ValueError:
                    I.do_raise(st, 'ValueError', lit('invalid literal'))
        if kind == 'int':
            return t.fn1('int', v)
        return t.to_num(v)

    def b_str(self, st, args, kw):
        if not args:
            return lit('')
        v = args[0]
        if is_scalar(v):
            if v.op == 'lit' and isinstance(v.args[0].v, str):
                return v
            if v.op == 'num' and v.args[0].denominator == 1:
                return lit(str(int(v.args[0])))
        return t.app('fmt', self.I.term_of(st, v))

    b_repr = b_str

    def b_abs(self, st, args, kw):
        return self.n_abs(st, args, kw)

    def minmax(self, st, args, kw, op):
        I = self.I
        if len(args) == 1:
            v = args[0]
            if kw.get('key') is not None and kw['key'] is not NONE:
                if 'default' in kw:
                    raise Unsupported('max with key and default')
                return I.call(st, self.pylib('b_%skey' % op), [v, kw['key']], {})
            o = I.obj(st, v)
            if isinstance(v, (TupleV, IterV)) or (isinstance(o, ListObj) and o.concrete and not any(isinstance(s.value, PhiList) for s in o.segs)) or isinstance(o, DictObj):
                k, x = I.iterate(st, v)
                if k == 'concrete':
                    if not x:
                        if 'default' in kw:
                            return kw['default']
                        I.do_raise(st, 'ValueError', lit('max() of empty sequence'))
                    if all(is_scalar(y) for y in x):
                        return t.max2(x, op)
                    raise Unsupported('max of structures')
            a = self.arr(st, v)
            if a is None:
                raise Unsupported('max')
            return self.out(st, self.reduce(st, a, op))
        if all(is_scalar(a) for a in args):
            for a in args:
                if a is NONE:
                    I.do_raise(st, 'TypeError', lit('comparison with None'))
            return t.max2(list(args), op)
        raise Unsupported('max')

    def b_max(self, st, args, kw):
        return self.minmax(st, args, kw, 'max')

    def b_min(self, st, args, kw):
        return self.minmax(st, args, kw, 'min')

    def b_sorted(self, st, args, kw):
        I = self.I
        k, x = I.iterate(st, args[0])
        if k == 'concrete' and all(is_scalar(y) and y.op == 'lit' and isinstance(y.args[0].v, str) for y in x) and 'key' not in kw:
            return I.new_list(st, [lit(s) for s in sorted((y.args[0].v for y in x), reverse=kw.get('reverse') is TRUE)])
        if k == 'concrete' and all(is_scalar(y) and y.op == 'num' for y in x) and 'key' not in kw:
            return I.new_list(st, sorted(x, key=lambda y: y.args[0], reverse=kw.get('reverse') is TRUE))
        if k == 'concrete' and len(x) <= 1:
            return I.new_list(st, x)
        if k == 'concrete' and len(x) == 2 and all(map(is_scalar, x)) and not kw:
            return I.new_list(st, [t.max2(x, 'min'), t.max2(x, 'max')])
        if k != 'concrete' and not kw:
            a = self.arr(st, args[0])
            if isinstance(a, Filt) and len(a.dims) == 1 and not a.tail and a.body is t.ix(0):
                return I.alloc(st, ListObj([I.arr_seg(st, a)]))
        raise Unsupported('sorted')

    def b_round(self, st, args, kw):
        return t.app('round', *args)

    def n_round(self, st, args, kw):
        d = self.arg(args, kw, 1, 'decimals')
        return self.ew1(st, args[0], lambda b: t.apply1(lambda l: t.app('round', l, d if d is not None else ZERO), t.to_num(b)), 'f')

    n_around = n_round

    def b_print(self, st, args, kw):
        return NONE

    def b_id(self, st, args, kw):
        return t.app('id', self.I.term_of(st, args[0]))

    def b_callable(self, st, args, kw):
        return TRUE if isinstance(args[0], (FuncV, BoundV, ClassV, ExtV, MethV)) else FALSE

    def b_divmod(self, st, args, kw):
        return TupleV([t.floordiv(*args), t.mod(*args)])

    def b_pow(self, st, args, kw):
        return t.power(*args)

    def b_map(self, st, args, kw):
        I = self.I
        k, x = I.iterate(st, IterV('zip', args[1:])) if len(args) > 2 else I.iterate(st, args[1])
        if k != 'concrete':
            if len(args) > 2:
                raise Unsupported('map')
            return I.call(st, self.pylib('b_map'), args, {})
        return I.new_list(st, [I.call(st, args[0], list(y.items) if len(args) > 2 else [y], {}) for y in x])

    def b_filter(self, st, args, kw):
        I = self.I
        k, x = I.iterate(st, args[1])
        if k != 'concrete':
            if args[0] is NONE:
                raise Unsupported('filter')
            return I.call(st, self.pylib('b_filter'), args, {})
        segs = []
        for y in x:
            c = I.truth(st, I.call(st, args[0], [y], {}) if args[0] is not NONE else y)
            if c is not FALSE:
                segs.append(Seg((), c, y))
        return I.alloc(st, ListObj(segs))

    def b_next(self, st, args, kw):
        I = self.I
        k, x = I.iterate(st, args[0])
        if k == 'concrete':
            if x:
                return x[0]
            if len(args) > 1:
                return args[1]
            I.do_raise(st, 'StopIteration', lit('next'))
        if len(x.vars) == 1 and is_scalar(x.value):
            i, d = x.vars[0]
            ex = t.mk_any(i, d, x.guard) if x.guard is not TRUE else t.gt0(d)
            p = t.mk_pick('first', 'i', i, d, x.guard, i) if x.guard is not TRUE else ZERO
            val = t.subst(x.value, {i: p})
            if len(args) > 1:
                return I.merge_val(ex, val, args[1])
            I.maybe_raise(st, bnot(ex), 'StopIteration', 'next')
            return val
        raise Unsupported('next')

    def b_getattr(self, st, args, kw):
        I = self.I
        n = args[1]
        if not (is_scalar(n) and n.op == 'lit'):
            raise Unsupported('getattr')
        if len(args) > 2:
            if self.b_hasattr(st, args[:2], {}) is FALSE:
                return args[2]
        return I.getattr(st, args[0], n.args[0].v)

    def b_setattr(self, st, args, kw):
        n = args[1]
        if not (is_scalar(n) and n.op == 'lit'):
            raise Unsupported('setattr')
        self.I.setattr(st, args[0], n.args[0].v, args[2])
        return NONE

    def b_hasattr(self, st, args, kw):
        I = self.I
        v, n = args[0], args[1].args[0].v
        o = I.obj(st, v)
        if isinstance(o, InstObj):
            x = o.attrs.get(n)
            if x is not None:
                def f(y):
                    if isinstance(y, IteV):
                        return mk_ite(y.c, f(y.a), f(y.b))
                    return FALSE if y is UNBOUND else TRUE
                return f(x)
            m, c = o.cls.lookup(n)
            return TRUE if m is not None else FALSE
        if I.is_array(st, v):
            return TRUE if n in ('shape', 'ndim', 'size', 'dtype', '__len__', '__iter__', 'T', 'copy', 'tolist') else FALSE
        if is_scalar(v):
            if n in ('__len__', '__iter__'):
                return TRUE if v.op == 'lit' and isinstance(v.args[0].v, str) else FALSE
            if v is NONE:
                return FALSE
        if isinstance(v, TupleV) or isinstance(o, (ListObj, DictObj)):
            return TRUE if n in ('__len__', '__iter__', '__getitem__', 'index', 'count') else FALSE
        if isinstance(v, (FuncV, BoundV, ExtV)):
            return TRUE if n in ('__call__', '__name__') else FALSE
        raise Unsupported('hasattr')

    def b_issubclass(self, st, args, kw):
        a, b = args
        if isinstance(a, ClassV) and isinstance(b, ClassV):
            return TRUE if a.subclass_of(b) else FALSE
        raise Unsupported('issubclass')

    def b_type(self, st, args, kw):
        I = self.I
        v = args[0]
        o = I.obj(st, v)
        if isinstance(o, InstObj):
            return o.cls
        if I.is_array(st, v):
            return ExtV('numpy.ndarray')
        if isinstance(v, TupleV):
            return ExtV('builtins.tuple')
        if isinstance(o, SetObj):
            return ExtV('builtins.set')
        if isinstance(o, ListObj):
            return ExtV('builtins.list')
        if isinstance(o, DictObj):
            return ExtV('builtins.dict')
        if is_scalar(v):
            if t.is_bool(v):
                return ExtV('builtins.bool')
            if v.op == 'lit' and isinstance(v.args[0].v, str):
                return ExtV('builtins.str')
            if v is NONE:
                return ExtV('builtins.NoneType')
            return ExtV('builtins.int' if all(t.isint(l) for l in t.leaves(v)) else 'builtins.float')
        return ExtV('type')

    def b_vars(self, st, args, kw):
        return self.I.getattr(st, args[0], '__dict__')

    def b_open(self, st, args, kw):
        return self.ext_result(st, 'open', [self.I.term_of(st, a) for a in args], kw)

    def b_isinstance(self, st, args, kw):
        I = self.I
        def f(st, v):
            c = args[1]
            cs = list(c.items) if isinstance(c, TupleV) else [c]
            r = FALSE
            for x in cs:
                r = bor(r, self.isinst(st, v, x))
            return r
        return I.lift(st, args[0], f)

    def isinst(self, st, v, c):
        I = self.I
        o = I.obj(st, v)
        if isinstance(c, ClassV):
            if isinstance(o, InstObj):
                return TRUE if o.cls.subclass_of(c) else FALSE
            if is_scalar(v) and v.op == 'sym' and v.args[1] == 'obj':
                return t.app('isinstance', v, lit(c.name))
            return FALSE
        if not isinstance(c, ExtV):
            raise Unsupported('isinstance of %r' % (c,))
        n = c.name.split('.')[-1]
        if n == 'ndarray':
            return TRUE if I.is_array(st, v) else FALSE
        if n == 'tuple':
            return TRUE if isinstance(v, TupleV) else FALSE
        if n == 'list':
            return TRUE if isinstance(o, ListObj) and not isinstance(o, SetObj) else FALSE
        if n == 'set':
            return TRUE if isinstance(o, SetObj) else FALSE
        if n in ('dict', 'Mapping'):
            return TRUE if isinstance(o, DictObj) else FALSE
        if n in ('Sequence', 'Iterable', 'Sized', 'Collection'):
            return TRUE if isinstance(v, TupleV) or isinstance(o, ListObj) or (n != 'Sequence' and (I.is_array(st, v) or isinstance(o, DictObj))) else FALSE
        if n == 'range':
            return TRUE if isinstance(v, RangeV) else FALSE
        if n in ('function', 'Callable', 'FunctionType'):
            return TRUE if isinstance(v, (FuncV, BoundV)) else FALSE
        if not is_scalar(v):
            return FALSE
        def leaf(l):
            if l.op == 'bool' or t.is_atom_bool(l):
                return TRUE if n in ('bool', 'int', 'Integral', 'Number') else (FALSE if n != 'bool_' else TRUE)
            if l.op == 'lit':
                x = l.args[0].v
                return TRUE if n == type(x).__name__ else FALSE
            if l.op == 'sym' and l.args[1] == 'str':
                return TRUE if n == 'str' else FALSE
            if l.op == 'sym' and l.args[1] == 'obj' or l.op == 'app' and l.args[0] in ('ext', 'item', 'opaque'):
                return t.app('isinstance', l, lit(n))
            if t.isint(l):
                if n in ('int', 'integer', 'Integral', 'Number', 'int64', 'signedinteger', 'Real'):
                    return TRUE
                return FALSE
            if n in ('float', 'Number', 'floating', 'Real', 'float64'):
                return TRUE
            return FALSE
        return t.apply1(leaf, v)

    # ------------------------------------------------------------ methods
    def _call_method(self, st, recv, name, args, kw):
        I = self.I
        if I.is_array(st, recv):
            return self.arr_method(st, recv, name, args, kw)
        if isinstance(recv, Ref):
            o = I.obj(st, recv)
            if isinstance(o, ListObj):
                return self.list_method(st, recv, o, name, args, kw)
            if isinstance(o, DictObj):
                return self.dict_method(st, recv, o, name, args, kw)
            if isinstance(o, ExtObj):
                if o.kind == 'rng':
                    return self.rng_call(st, o.term, name, args, kw)
                return self.ext_result(st, '.' + name, [o.term] + [I.term_of(st, a) for a in args], kw)
        if isinstance(recv, TupleV):
            if name == 'index':
                for k, x in enumerate(recv.items):
                    if I.key_eq(st, x, args[0]) is TRUE:
                        return num(k)
                raise Unsupported('tuple.index')
            if name == 'count':
                r = ZERO
                for x in recv.items:
                    r = t.add(r, t.to_num(I.key_eq(st, x, args[0])))
                return r
            if name == '_asdict':
                return I.alloc(st, DictObj([(lit(k), x, TRUE) for k, x in zip(recv.names, recv.items)]))
            I.do_raise(st, 'AttributeError', lit(name))
        if is_scalar(recv):
            isstr = recv.op == 'lit' and isinstance(recv.args[0].v, str)
            if isstr and name == 'format':
                return self.str_format(st, recv.args[0].v, args, kw)
            if isstr and all(is_scalar(a) and a.op == 'lit' and isinstance(a.args[0].v, str) for a in args) and name in (
                    'lower', 'upper', 'strip', 'replace', 'startswith', 'endswith', 'title', 'capitalize', 'lstrip', 'rstrip'):
                return lit(getattr(recv.args[0].v, name)(*[a.args[0].v for a in args]))
            if isstr and name in ('split', 'rsplit') and len(args) == 2 and args[1].op == 'num':
                args = [args[0], lit(int(args[1].args[0]))]
            if isstr and name in ('split', 'rsplit') and all(is_scalar(a) and a.op == 'lit' for a in args):
                return I.new_list(st, [lit(s) for s in getattr(recv.args[0].v, name)(*[a.args[0].v for a in args])])
            if isstr and name == 'join':
                k, x = I.iterate(st, args[0])
                if k == 'concrete' and all(is_scalar(y) and y.op == 'lit' for y in x):
                    return lit(recv.args[0].v.join(y.args[0].v for y in x))
                return t.app('fmt', recv, I.term_of(st, args[0]))
            if recv.op in ('app',) and recv.args[0] in ('ext', 'item', 'extattr', 'opaque') or (recv.op == 'sym' and recv.args[1] == 'obj'):
                return self.ext_result(st, '.' + name, [recv] + [I.term_of(st, a) for a in args], kw)
            if name in ('astype',):
                return self.cast(recv, self.dtype_arg(args[0]))
            if name in ('item', 'copy', 'tolist', 'flatten', 'ravel', 'squeeze'):
                return recv
            if name in ('sum', 'max', 'min', 'mean', 'any', 'all', 'prod'):
                return t.truthy(recv) if name in ('any', 'all') else t.to_num(recv)
            if name in ('format', 'lower', 'upper'):
                return t.app('fmt', recv, *[I.term_of(st, a) for a in args])
            if recv.op in ('num', 'bool', 'lit') or t.isint(recv) or recv.op in ('poly', 'sel', 'sym'):
                I.event(st, 'attrerror', ('scalar', name))
                I.do_raise(st, 'AttributeError', lit(name))
        return self.ext_result(st, '.' + name, [I.term_of(st, recv)] + [I.term_of(st, a) for a in args], kw)

    def str_format(self, st, s, args, kw):
        auto = 0
        try:
            fields = list(string.Formatter().parse(s))
        except ValueError:
            self.I.do_raise(st, 'ValueError', lit('bad format'))
        for _, field, spec, conv in fields:
            if field is None:
                continue
            head = field.split('.')[0].split('[')[0]
            if head == '':
                k = auto
                auto += 1
            elif head.isdigit():
                k = int(head)
            else:
                if head not in kw:
                    self.I.do_raise(st, 'KeyError', lit('format'))
                continue
            if k >= len(args):
                self.I.do_raise(st, 'IndexError', lit('Replacement index out of range'))
        ts = [self.I.term_of(st, a) for a in args]
        if not kw and all(x.op == 'lit' and isinstance(x.args[0].v, str) or (x.op == 'num' and x.args[0].denominator == 1) for x in ts):
            vals = [x.args[0].v if x.op == 'lit' else int(x.args[0]) for x in ts]
            try:
                return lit(s.format(*vals))
            except Exception:
                pass
        return t.app('fmt', lit(s), *ts)

    def list_method(self, st, recv, o, name, args, kw):
        I = self.I
        conc = o.concrete and not any(isinstance(s.value, PhiList) for s in o.segs)
        if name == 'append' or name == 'add':
            if isinstance(o, SetObj):
                if not conc:
                    raise Unsupported('set add')
                g = TRUE
                for s in o.segs:
                    g = band(g, bnot(I.key_eq(st, s.value, args[0])))
                if g is not FALSE:
                    st.heap[recv.oid] = SetObj(o.segs + (Seg((), g, args[0]),))
                return NONE
            st.heap[recv.oid] = ListObj(o.segs + (Seg((), TRUE, args[0]),))
            I.event(st, 'listwrite', (recv.oid,))
            return NONE
        if name == 'extend':
            st.heap[recv.oid] = ListObj(o.segs + tuple(I.to_segs(st, args[0])))
            I.event(st, 'listwrite', (recv.oid,))
            return NONE
        if name == 'copy':
            return I.alloc(st, type(o)(o.segs))
        if name == 'clear':
            st.heap[recv.oid] = type(o)([])
            I.event(st, 'listwrite', (recv.oid,))
            return NONE
        if name == 'index' and conc:
            its = o.items()
            def go(s, k):
                if k == len(its):
                    I.do_raise(s, 'ValueError', lit('not in list'))
                return I.fork(s, I.key_eq(s, its[k], args[0]), lambda s1: num(k), lambda s2: go(s2, k + 1))
            return go(st, 0)
        if name == 'count' and conc:
            r = ZERO
            for x in o.items():
                r = t.add(r, t.to_num(I.key_eq(st, x, args[0])))
            return r
        if conc and name in ('pop', 'insert', 'remove', 'reverse'):
            its = o.items()
            I.event(st, 'listwrite', (recv.oid,))
            if name == 'pop':
                k = int(args[0].args[0]) if args else -1
                if not its or not -len(its) <= k < len(its):
                    I.do_raise(st, 'IndexError', lit('pop'))
                r = its.pop(k)
            elif name == 'insert':
                its.insert(int(args[0].args[0]), args[1])
                r = NONE
            elif name == 'reverse':
                its.reverse()
                r = NONE
            else:
                k = [j for j, x in enumerate(its) if I.key_eq(st, x, args[0]) is TRUE]
                if not k:
                    raise Unsupported('list.remove')
                its.pop(k[0])
                r = NONE
            st.heap[recv.oid] = type(o)([Seg((), TRUE, x) for x in its])
            return r
        if isinstance(o, SetObj) and name in ('union', 'intersection', 'difference'):
            other = self.b_set(st, args, {})
            return self.set_op(st, {'union': 'BitOr', 'intersection': 'BitAnd', 'difference': 'Sub'}[name], recv, other)
        if isinstance(o, SetObj) and name in ('issubset', 'issuperset') and conc:
            k, x = I.iterate(st, args[0])
            a, b = (o.items(), x) if name == 'issubset' else (x, o.items())
            r = TRUE
            for p in a:
                r = band(r, self.contains(st, p, TupleV(b)))
            return r
        if name == 'sort' and conc:
            r = self.b_sorted(st, [recv], kw)
            st.heap[recv.oid] = ListObj(st.heap[r.oid].segs)
            I.event(st, 'listwrite', (recv.oid,))
            return NONE
        if isinstance(o, SetObj) and name == 'update':
            for a in args:
                k, x = I.iterate(st, a)
                if k != 'concrete':
                    raise Unsupported('set.update')
                for y in x:
                    self.list_method(st, recv, st.heap[recv.oid], 'add', [y], {})
            return NONE
        if not hasattr(set if isinstance(o, SetObj) else list, name):
            I.event(st, 'attrerror', ('list', name))
            I.do_raise(st, 'AttributeError', lit(name))
        raise Unsupported('list.' + name)

    def dict_method(self, st, recv, o, name, args, kw):
        I = self.I
        if name == 'get':
            return I.dict_get(st, o, args[0], args[1] if len(args) > 1 else NONE)
        if name in ('keys', 'values', 'items'):
            if o.phi is not None:
                raise Unsupported('symbolic dict view')
            if any(g is not TRUE for _, _, g in o.entries):
                sel = {'keys': lambda e: e[0], 'values': lambda e: e[1], 'items': lambda e: TupleV([e[0], e[1]])}[name]
                return I.alloc(st, ListObj([Seg((), e[2], sel(e)) for e in o.entries]))
            sel = {'keys': lambda e: e[0], 'values': lambda e: e[1], 'items': lambda e: TupleV([e[0], e[1]])}[name]
            return IterV('list', [sel(e) for e in o.entries])
        if name == 'update':
            if args:
                I.dict_update(st, recv, args[0])
            for k, x in kw.items():
                I.dict_set(st, recv, lit(k), x)
            return NONE
        if name == 'copy':
            return I.alloc(st, o)
        if name == 'clear':
            st.heap[recv.oid] = DictObj([])
            return NONE
        if name == 'setdefault':
            c = I.dict_has(st, o, args[0])
            d = args[1] if len(args) > 1 else NONE
            def yes(s):
                return I.dict_get(s, I.obj(s, recv), args[0])
            def no(s):
                I.dict_set(s, recv, args[0], d)
                return d
            return I.fork(st, c, yes, no)
        if name == 'pop':
            c = I.dict_has(st, o, args[0])
            if c is TRUE:
                v = I.dict_get(st, o, args[0])
                st.heap[recv.oid] = DictObj([e for e in o.entries if I.key_eq(st, e[0], args[0]) is not TRUE], o.phi, o.default)
                return v
            if c is FALSE and len(args) > 1:
                return args[1]
            if c is FALSE:
                I.do_raise(st, 'KeyError', lit('pop'))
        raise Unsupported('dict.' + name)

    def arr_method(self, st, v, name, args, kw):
        I = self.I
        a = self.arr(st, v)
        if name == 'copy':
            return self.out(st, a)
        if name == 'astype':
            dt = self.dtype_arg(args[0] if args else kw.get('dtype'))
            return self.out(st, self.map1(lambda b: self.cast_body(b, dt, a.dtype), a, dt))
        if name in ('sum', 'max', 'min', 'prod', 'any', 'all', 'mean', 'argmax', 'argmin', 'std', 'var', 'dot', 'cumsum',
                    'nonzero', 'clip', 'repeat', 'round', 'squeeze', 'ravel', 'flatten', 'argsort', 'swapaxes', 'trace', 'take'):
            return self.call_ext(st, 'numpy.' + name, [v] + list(args), kw)
        if name == 'reshape':
            shp = args[0] if len(args) == 1 else TupleV(args)
            return self.n_reshape(st, [v, shp], kw)
        if name == 'tolist':
            if isinstance(a, Arr):
                return self.arr_to_list(st, a)
            seg = I.arr_seg(st, a)
            return I.alloc(st, ListObj([seg]))
        if name == 'fill':
            self.write_all(st, v, args[0])
            return NONE
        if name == 'item':
            if args:
                if len(args) > 1:
                    return I.getitem(st, v, TupleV(args))
                return I.getitem(st, self.n_ravel(st, [v], {}) if len(a.dims) > 1 else v, args[0])
            return self.to_scalar(st, v, 'float')
        if name == 'transpose':
            if not args:
                return self.transpose(st, v)
            p = args[0].items if isinstance(args[0], TupleV) else args
            return self.transpose(st, v, [int(x.args[0]) for x in p])
        if name == 'view':
            return v
        if name in ('sort', 'partition', 'put', 'resize', 'itemset', 'byteswap', 'setflags', 'setfield'):
            raise Unsupported(name)
        if name in ('append', 'extend', 'index', 'keys', 'pop'):
            I.event(st, 'attrerror', ('ndarray', name))
            I.do_raise(st, 'AttributeError', lit(name))
        return t.app('uf:ndarray.' + name, I.term_of(st, v), *([I.term_of(st, x) for x in args] + [t.app('kw', lit(k), I.term_of(st, x)) for k, x in sorted(kw.items())]))

    def arr_to_list(self, st, a):
        I = self.I
        if a.rank == 0:
            return a.body
        d = a.dims[0]
        def row(i):
            m = {0: i}
            for k in range(1, a.rank):
                m[k] = t.ix(k - 1)
            return Arr([ix_map(x, m) for x in a.dims[1:]], ix_map(a.body, m), a.dtype)
        if d.op == 'num' and d.args[0] <= 40:
            return I.new_list(st, [self.arr_to_list(st, row(num(k))) for k in range(int(d.args[0]))])
        i = t.sym(t.fresh('i'), 'int')
        t.NONNEG_SYMS.add(i.args[0])
        if a.rank == 1:
            return I.alloc(st, ListObj([Seg(((i, d),), TRUE, row(i).body)]))
        ref = self.out(st, a)
        return I.alloc(st, ListObj([Seg(((i, d),), TRUE, AView(ref.oid, [i] + [t.ix(k) for k in range(a.rank - 1)], row(i).dims))]))
