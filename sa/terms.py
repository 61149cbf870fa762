"""Hash-consed value terms with a canonical form.

A term is either a *leaf* (number, polynomial over atoms, literal, binder ...) or a
decision node  ite(atom, hi, lo)  of a multi-terminal BDD whose atoms are ordered by
their interning number.  Boolean terms are BDDs over atoms, numeric terms are MTBDDs
with polynomial leaves, array reductions are binder terms named by height, so that
alpha-equivalent and algebraically equal expressions are the *same* Python object.
No solver is involved anywhere: two terms are equal iff they are identical.
"""
from fractions import Fraction
import sys
sys.setrecursionlimit(20000)

_table = {}
_next = [0]


class TooBig(Exception):
    pass


LIMIT = [400000]


class T:
    __slots__ = ('op', 'args', 'id', '_fs', '_h')

    def __repr__(self):
        return show(self)


def mk(op, *args):
    key = (op, args)
    t = _table.get(key)
    if t is None:
        t = T()
        t.op = op
        t.args = args
        t.id = _next[0]
        t._fs = None
        t._h = None
        _next[0] += 1
        if _next[0] > LIMIT[0]:
            raise TooBig('term budget exhausted')
        _table[key] = t
    return t


def reset_table():
    """Forget every interned term except the module level constants."""
    _memo_ite.clear()
    _memo_fs.clear()


# ------------------------------------------------------------------ leaves
TRUE = mk('bool', True)
FALSE = mk('bool', False)


class _K:
    """wrapper so that python literals with equal hashes (1, True, 1.0) stay apart"""
    __slots__ = ('v',)

    def __init__(self, v):
        self.v = v

    def __hash__(self):
        return hash((type(self.v).__name__, self.v))

    def __eq__(self, o):
        return isinstance(o, _K) and type(self.v) is type(o.v) and self.v == o.v

    def __repr__(self):
        return repr(self.v)


def num(v):
    if isinstance(v, bool):
        return TRUE if v else FALSE
    if isinstance(v, float):
        if v != v:
            return NAN
        if v in (float('inf'), float('-inf')):
            return INF if v > 0 else NINF
        v = Fraction(repr(v))
    return mk('num', Fraction(v))


def lit(v):
    if isinstance(v, bool):
        return TRUE if v else FALSE
    if isinstance(v, (int, float, Fraction)):
        return num(v)
    return mk('lit', _K(v))


INF = mk('inf', 1)
NINF = mk('inf', -1)
NAN = mk('nan')
ZERO = num(0)
ONE = num(1)
NONE = lit(None)

_fresh = [0]


def fresh(prefix):
    _fresh[0] += 1
    return '%s#%d' % (prefix, _fresh[0])


def sym(name, ty='num'):
    """free scalar symbol; ty in int num bool str obj"""
    return mk('sym', name, ty)


def ix(n):
    return mk('ix', n)


# registry of symbolic arrays: name -> dict(dtype, nonneg, rank, dims)
ARR = {}


def sel(name, *idx):
    info = ARR.get(name)
    if info and info.get('domain01'):
        return mk_ite(mk('sel', name + '?', *idx), ONE, ZERO)
    return mk('sel', name, *idx)


def app(f, *args):
    return mk('app', f, *args)


BOOL_APPS = {'eq', 'isnan', 'isinf', 'isneginf', 'isinstance', 'in', 'truthy', 'is', 'callable', 'hasattr',
             'isscalar', 'isfinite'}
INT_APPS = {'len', 'floor', 'int', 'mod', 'floordiv', 'randint'}


def is_atom_bool(t):
    o = t.op
    if o in ('gt0', 'eq0', 'any'):
        return True
    if o in ('sym', 'sv'):
        return t.args[1] == 'bool'
    if o == 'sel':
        n = t.args[0]
        if n.endswith('?'):
            return True
        i = ARR.get(n)
        return bool(i and i.get('dtype') == 'b')
    if o == 'app':
        return t.args[0] in BOOL_APPS
    if o in ('first', 'last', 'mu'):
        return t.args[0] == 'b'
    return False


def is_bool(t):
    o = t.op
    if o == 'bool':
        return True
    if o == 'ite':
        return is_bool(t.args[1]) and is_bool(t.args[2])
    return is_atom_bool(t)


# ------------------------------------------------------------------ free symbols, height
_memo_fs = {}


def fs(t):
    r = t._fs
    if r is not None:
        return r
    o = t.op
    if o in ('sym', 'ix', 'bv', 'sv'):
        r = frozenset((t,))
    else:
        acc = set()
        for a in _children(t):
            acc |= fs(a)
        if o in ('sum', 'any', 'red', 'first', 'last'):
            acc -= {mk('bv', t.args[1])}
        elif o == 'lam':
            h, rank = t.args[0], t.args[1]
            for i in range(rank):
                acc.discard(mk('bv', h + i))
        elif o == 'sys':
            h = t.args[0]
            acc.discard(mk('bv', h))
            for i, (kind, ty, rank) in enumerate(t.args[2]):
                if kind == 's':
                    acc.discard(mk('sv', h + 1 + i, ty))
        r = frozenset(acc)
    t._fs = r
    return r


def _flat(a, out):
    if isinstance(a, T):
        out.append(a)
    elif isinstance(a, tuple):
        for x in a:
            _flat(x, out)


def _children(t):
    out = []
    for a in t.args:
        _flat(a, out)
    return out


def height(t):
    r = t._h
    if r is not None:
        return r
    o = t.op
    h = 0
    for a in _children(t):
        h = max(h, height(a))
    if o in ('sum', 'any', 'red', 'first', 'last'):
        h = max(h, t.args[1])
    elif o == 'lam':
        h = max(h, t.args[0] + t.args[1] - 1)
    elif o == 'sys':
        h = max(h, t.args[0] + len(t.args[2]))
    t._h = h
    return h


def names(t, acc=None, seen=None):
    """all sel/phi array names and symbol names occurring in t"""
    if acc is None:
        acc, seen = set(), set()
    if t.id in seen:
        return acc
    seen.add(t.id)
    if t.op == 'sel':
        acc.add(t.args[0])
    elif t.op == 'sym':
        acc.add(t.args[0])
    for c in _children(t):
        names(c, acc, seen)
    return acc


def subterms(t, seen=None):
    if seen is None:
        seen = set()
    if t.id in seen:
        return
    seen.add(t.id)
    yield t
    for c in _children(t):
        for x in subterms(c, seen):
            yield x


# ------------------------------------------------------------------ MTBDD
def top(t):
    if t.op == 'ite':
        return t.args[0]
    if t.op != 'bool' and is_atom_bool(t):
        return t
    return None


def hi(t, a):
    if t.op == 'ite':
        return t.args[1] if t.args[0] is a else t
    if t is a:
        return TRUE
    return t


def lo(t, a):
    if t.op == 'ite':
        return t.args[2] if t.args[0] is a else t
    if t is a:
        return FALSE
    return t


_memo_ite = {}


def mk_node(a, h, l):
    if h is l:
        return h
    if h is TRUE and l is FALSE:
        return a
    if a.op == 'gt0' and h.op != 'ite' and l.op != 'ite' and h.op not in ('bool', 'lit', 'inf', 'nan') and l.op not in ('bool', 'lit', 'inf', 'nan') \
            and not is_atom_bool(h) and not is_atom_bool(l):
        dd = _ladd(h, _lmul(num(-1), l))
        if dd.op not in ('num', 'nan', 'inf') and dd is not ZERO:
            sc = _scale(dd, False)
            if sc is a.args[0]:
                return _max2(h, l, 'max')
            if _lmul(num(-1), sc) is a.args[0]:
                return _max2(h, l, 'min')
    s = solve_eq(a)
    if s is not None:
        x, e = s
        if x in fs(h):
            h2 = subst(h, {x: e})
            if h2 is not h:
                return mk_ite(a, h2, l)
    return mk('ite', a, h, l)


def mk_ite(c, a, b):
    if c is TRUE:
        return a
    if c is FALSE:
        return b
    if a is b:
        return a
    key = (c.id, a.id, b.id)
    r = _memo_ite.get(key)
    if r is not None:
        return r
    v = None
    for t in (c, a, b):
        x = top(t)
        if x is not None and (v is None or x.id < v.id):
            v = x
    if v is None:
        raise ValueError('ite on non boolean condition %r' % (c,))
    r = mk_node(v, mk_ite(hi(c, v), hi(a, v), hi(b, v)), mk_ite(lo(c, v), lo(a, v), lo(b, v)))
    _memo_ite[key] = r
    return r


def bnot(a):
    return mk_ite(a, FALSE, TRUE)


def band(a, b):
    if a is TRUE:
        return b
    if a is FALSE:
        return a
    return mk_ite(a, b, FALSE)


def bor(a, b):
    if a is FALSE:
        return b
    return mk_ite(a, TRUE, b)


def conj(xs):
    r = TRUE
    for x in xs:
        r = band(r, x)
    return r


def disj(xs):
    r = FALSE
    for x in xs:
        r = bor(r, x)
    return r


def apply1(f, t, memo=None):
    if t.op == 'ite':
        if memo is None:
            memo = {}
        r = memo.get(t.id)
        if r is None:
            r = mk_ite(t.args[0], apply1(f, t.args[1], memo), apply1(f, t.args[2], memo))
            memo[t.id] = r
        return r
    return f(t)


def apply2(f, a, b, memo=None):
    ta = a.args[0] if a.op == 'ite' else None
    tb = b.args[0] if b.op == 'ite' else None
    if ta is None and tb is None:
        return f(a, b)
    if memo is None:
        memo = {}
    key = (a.id, b.id)
    r = memo.get(key)
    if r is not None:
        return r
    v = ta if tb is None or (ta is not None and ta.id <= tb.id) else tb
    r = mk_ite(v, apply2(f, hi(a, v), hi(b, v), memo), apply2(f, lo(a, v), lo(b, v), memo))
    memo[key] = r
    return r


def restrict(f, c, memo=None):
    """generalised cofactor: simplify f assuming c"""
    if c is TRUE or c is FALSE:
        return f
    if top(f) is None:
        return f
    if memo is None:
        memo = {}
    key = (f.id, c.id)
    r = memo.get(key)
    if r is not None:
        return r
    tf, tc = top(f), top(c)
    v = tf if tf.id <= tc.id else tc
    ch, cl = hi(c, v), lo(c, v)
    if tc is v:
        if cl is FALSE:
            r = restrict(hi(f, v), ch, memo)
        elif ch is FALSE:
            r = restrict(lo(f, v), cl, memo)
        elif tf is not v:
            # the union can bring the variable back where equations rewrote the branches: then f is left as it is
            nc = bor(ch, cl)
            tn = top(nc)
            r = f if tn is not None and tn.id <= v.id else restrict(f, nc, memo)
        else:
            r = mk_ite(v, restrict(hi(f, v), ch, memo), restrict(lo(f, v), cl, memo))
    else:
        r = mk_ite(v, restrict(hi(f, v), c, memo), restrict(lo(f, v), c, memo))
    memo[key] = r
    return r


def cofactor(t, atom, val):
    """replace atom by a constant in the top MTBDD"""
    return restrict(t, atom if val else bnot(atom))


def atoms_of(t, acc=None, seen=None):
    if acc is None:
        acc, seen = [], set()
    if t.id in seen:
        return acc
    seen.add(t.id)
    a = top(t)
    if a is not None:
        if a not in acc:
            acc.append(a)
        if t.op == 'ite':
            atoms_of(t.args[1], acc, seen)
            atoms_of(t.args[2], acc, seen)
    return acc


def leaves(t):
    out = []
    seen = set()

    def go(x):
        if x.id in seen:
            return
        seen.add(x.id)
        if x.op == 'ite':
            go(x.args[1])
            go(x.args[2])
        else:
            out.append(x)
    go(t)
    return out


def implies(a, b):
    return bor(bnot(a), b) is TRUE


# ------------------------------------------------------------------ polynomials
def to_num(t):
    """bool -> 0/1"""
    o = t.op
    if o == 'bool':
        return ONE if t.args[0] else ZERO
    if o == 'ite':
        if any(top(l) is not None or l.op == 'bool' for l in leaves(t)):
            return mk_ite(t.args[0], to_num(t.args[1]), to_num(t.args[2]))
        return t
    if is_atom_bool(t):
        return mk_ite(t, ONE, ZERO)
    return t


def _pd(t):
    """leaf -> dict mono->coef"""
    if t.op == 'num':
        return {(): t.args[0]} if t.args[0] != 0 else {}
    if t.op == 'poly':
        return dict(t.args[0])
    return {((t, 1),): Fraction(1)}


def _mono_key(m):
    return (len(m), tuple((a.id, e) for a, e in m))


def _from_pd(d):
    d = {m: c for m, c in d.items() if c != 0}
    if not d:
        return ZERO
    if len(d) == 1:
        (m, c), = d.items()
        if m == ():
            return num(c)
        if c == 1 and len(m) == 1 and m[0][1] == 1:
            return m[0][0]
    items = tuple(sorted(d.items(), key=lambda kv: _mono_key(kv[0])))
    return mk('poly', items)


def _special(t):
    return t.op in ('inf', 'nan')


def _ladd(a, b):
    if _special(a) or _special(b):
        if a.op == 'nan' or b.op == 'nan':
            return NAN
        if _special(a) and _special(b):
            return a if a is b else NAN
        return a if _special(a) else b
    if a.op in ('lit',) or b.op in ('lit',):
        return app('add', a, b)
    d = _pd(a)
    for m, c in _pd(b).items():
        d[m] = d.get(m, Fraction(0)) + c
    return _from_pd(d)


def _mmul(m1, m2):
    d = {}
    for a, e in m1 + m2:
        d[a] = d.get(a, 0) + e
    return tuple(sorted(((a, e) for a, e in d.items() if e != 0), key=lambda p: p[0].id))


def _lmul(a, b):
    if _special(a) or _special(b):
        if a.op == 'nan' or b.op == 'nan':
            return NAN
        x, y = (a, b) if _special(a) else (b, a)
        if y.op == 'num':
            if y.args[0] == 0:
                return NAN
            return x if y.args[0] > 0 else mk('inf', -x.args[0])
        if _special(y):
            return mk('inf', x.args[0] * y.args[0])
        return app('mul', x, y)
    if a.op == 'lit' or b.op == 'lit':
        return app('mul', *sorted((a, b), key=lambda t: t.id))
    d = {}
    for m1, c1 in _pd(a).items():
        for m2, c2 in _pd(b).items():
            m = _mmul(m1, m2)
            d[m] = d.get(m, Fraction(0)) + c1 * c2
    return _from_pd(d)


def _lead(t):
    d = _pd(t)
    m = max(d, key=_mono_key)
    return d[m]


def _linv(b):
    if b.op == 'num':
        if b.args[0] == 0:
            return app('div0')
        return num(1 / b.args[0])
    if _special(b):
        return ZERO if b.op == 'inf' else NAN
    if b.op == 'lit':
        return app('inv', b)
    d = _pd(b)
    if len(d) == 1:
        (m, c), = d.items()
        return _from_pd({tuple(sorted(((a, -e) for a, e in m), key=lambda p: p[0].id)): 1 / c})
    l = _lead(b)
    monic = _from_pd({m: c / l for m, c in d.items()})
    return _from_pd({((monic, -1),): 1 / l})


def add(a, b):
    return apply2(_ladd, to_num(a), to_num(b))


def mul(a, b):
    return apply2(_lmul, to_num(a), to_num(b))


def neg(a):
    return mul(num(-1), a)


def sub(a, b):
    return add(a, neg(b))


def div(a, b):
    return mul(a, apply1(_linv, to_num(b)))


def power(a, b):
    a, b = to_num(a), to_num(b)

    def f(x, y):
        if y.op == 'num' and y.args[0].denominator == 1 and abs(y.args[0]) <= 4:
            n = int(y.args[0])
            r = ONE
            for _ in range(abs(n)):
                r = _lmul(r, x)
            return r if n >= 0 else _linv(r)
        if y.op == 'num' and y.args[0] == Fraction(1, 2):
            return fn1('sqrt', x)
        if x is ONE:
            return ONE
        return app('pow', x, y)
    return apply2(f, a, b)


# ------------------------------------------------------------------ sign facts
POSITIVE_APPS = {'exp', 'len', 'abs', 'sqrt', 'dim'}
FACTS = [TRUE]         # what the current client assumes about its inputs
BOUND = {}        # loop index symbol -> number of iterations
NONNEG_SYMS = set()
POS_SYMS = set()


def le1(t):
    if t.op == 'sel':
        i = ARR.get(t.args[0])
        return bool(i and i.get('max1'))
    return False


def maybe_nan(t):
    o = t.op
    if o == 'nan':
        return True
    if o == 'sel':
        i = ARR.get(t.args[0])
        return bool(i and i.get('nan'))
    if o == 'ite':
        return any(maybe_nan(l) for l in leaves(t))
    if o == 'poly':
        return any(e < 0 or maybe_nan(a) for m, c in t.args[0] for a, e in m)
    if o == 'sum':
        mono, phi = t.args[3], t.args[4]
        for l in ([mono] if mono.op != 'poly' else [a for m, c in mono.args[0] for a, e in m]):
            if maybe_nan(l):
                g = app('isnan', l)
                if cofactor(phi, g, True) is not ZERO:
                    return True
        return any(maybe_nan(l) for l in leaves(phi))
    if o == 'red':
        return t.args[0] in ('max', 'min', 'prod') and any(maybe_nan(l) for l in leaves(t.args[3])) and _nan_open(t.args[3])
    if o in ('first', 'last'):
        return maybe_nan(t.args[4])
    if o in ('mu',):
        return False
    if o == 'app':
        return t.args[0] in ('opaque', 'log', 'sqrt', 'div0', 'inv', 'mul') or any(isinstance(a, T) and a.op not in ('lam', 'lit') and maybe_nan(a) for a in t.args[1:])
    return False


def _nan_open(body):
    """some leaf can be NaN on a path that has not excluded it"""
    def go(b, known):
        if b.op == 'ite':
            a = b.args[0]
            k2 = known
            if a.op == 'app' and a.args[0] == 'isnan':
                k2 = known | {a.args[1]}
            return go(b.args[1], known) or go(b.args[2], k2)
        return b not in known and maybe_nan(b)
    return go(body, frozenset())


def maybe_inf(t):
    o = t.op
    if o == 'inf':
        return True
    if o == 'sel':
        i = ARR.get(t.args[0])
        return bool(i and i.get('inf'))
    if o == 'ite':
        return any(maybe_inf(l) for l in leaves(t))
    if o == 'poly':
        return any(e < 0 or maybe_inf(a) for m, c in t.args[0] for a, e in m)
    if o == 'sum':
        return maybe_inf(t.args[3]) or maybe_inf(t.args[4])
    if o == 'red':
        return t.args[0] in ('max', 'min', 'prod') and maybe_inf(t.args[3])
    if o in ('first', 'last'):
        return maybe_inf(t.args[4])
    if o == 'app':
        return t.args[0] in ('opaque', 'log', 'div0', 'inv', 'mul', 'ext', 'item') or t.args[0].startswith('uf:') or (
            t.args[0] in ('max2', 'min2', 'abs') and any(maybe_inf(a) for a in t.args[1:]))
    if o == 'mu':
        return True
    return False


def nonneg(t):
    o = t.op
    if o == 'num':
        return t.args[0] >= 0
    if o == 'inf':
        return t.args[0] > 0
    if o == 'ite':
        return nonneg(t.args[1]) and nonneg(t.args[2])
    if o in ('ix', 'bv'):
        return True
    if o == 'sym':
        return t.args[0] in NONNEG_SYMS or t.args[0] in POS_SYMS
    if o == 'sel':
        i = ARR.get(t.args[0])
        return bool(i and i.get('nonneg'))
    if o == 'app':
        return t.args[0] in POSITIVE_APPS
    if o == 'sum':
        return nonneg(t.args[3]) and nonneg(t.args[4])
    if o == 'red':
        return t.args[0] in ('max', 'min') and nonneg(t.args[3])
    if o == 'poly':
        if len(t.args[0]) == 2:
            d = dict(t.args[0])
            c0 = d.pop((), None)
            if c0 is not None:
                (m, c), = d.items()
                if c < 0 and c0 + c >= 0 and len(m) == 1 and m[0][1] == 1 and le1(m[0][0]):
                    return True
        for m, c in t.args[0]:
            if c < 0:
                return False
            for a, e in m:
                if e % 2 and not nonneg(a):
                    return False
        return True
    return False


def positive(t):
    o = t.op
    if o == 'num':
        return t.args[0] > 0
    if o == 'sym':
        return t.args[0] in POS_SYMS
    if o == 'app':
        return t.args[0] == 'dim' or t.args[0] == 'exp' and not maybe_inf(t.args[1])
    if o == 'poly':
        return nonneg(t) and any(all(positive(a) for a, e in m) for m, c in t.args[0])
    if o == 'sum':
        return positive(t.args[3]) and t.args[4].op == 'num' and t.args[4].args[0] > 0
    return False


# ------------------------------------------------------------------ comparisons
def _scale(p, allow_neg):
    l = _lead(p)
    if allow_neg:
        f = 1 / l
    else:
        f = 1 / abs(l)
    return _lmul(num(f), p)


def _gt0(p):
    if p.op == 'num':
        return TRUE if p.args[0] > 0 else FALSE
    if p.op == 'inf':
        return TRUE if p.args[0] > 0 else FALSE
    if p.op == 'nan':
        return FALSE
    if p.op in ('poly',):
        negp = _lmul(num(-1), p)
        if nonneg(negp):
            return FALSE
        if positive(p):
            return TRUE
        d = _pd(p)
        if len(d) == 1:
            (m, c), = d.items()
            # strip positive factors
            keep = tuple((a, e) for a, e in m if not positive(a))
            if len(keep) != len(m):
                return _gt0(_from_pd({keep: c}))
            if c > 0 and all(nonneg(a) for a, e in m):
                r = TRUE
                for a, e in m:
                    r = band(r, _gt0(a))
                return r
        elif nonneg(p):
            r = FALSE
            for m, c in d.items():
                r = bor(r, _gt0(_from_pd({m: c})))
            return r
        # integer tightening: n - i > 0 handled by caller facts
        return mk('gt0', _scale(p, False))
    if positive(p):
        return TRUE
    if p.op == 'sum' and nonneg(p):
        h, dim, mono, phi = p.args[1:5]
        x = sym(fresh('k'), 'int')
        m2 = subst(mono, {mk('bv', h): x})
        f2 = subst(phi, {mk('bv', h): x})
        return mk_any(x, dim, gt0(mul(m2, f2)))
    if p.op == 'red' and p.args[0] == 'max':
        h, dim, body = p.args[1:4]
        x = sym(fresh('k'), 'int')
        return mk_any(x, dim, gt0(subst(body, {mk('bv', h): x})))
    if p.op == 'red' and p.args[0] == 'min':
        h, dim, body = p.args[1:4]
        x = sym(fresh('k'), 'int')
        return bnot(mk_any(x, dim, bnot(gt0(subst(body, {mk('bv', h): x})))))
    return mk('gt0', p)


def gt0(p):
    return apply1(_gt0, to_num(p))


def gt(a, b):
    # max/min reductions against x: expand so that  max(v) > c  ==  any(v > c)
    return apply2(_gt, to_num(a), to_num(b))


def _gt(a, b):
    if a.op == 'red' and b.op == 'num':
        h, dim, body = a.args[1:4]
        x = sym(fresh('k'), 'int')
        bb = subst(body, {mk('bv', h): x})
        if a.args[0] == 'max':
            return mk_any(x, dim, gt(bb, b))
        if a.args[0] == 'min':
            return bnot(mk_any(x, dim, bnot(gt(bb, b))))
    if b.op == 'red' and a.op == 'num':
        h, dim, body = b.args[1:4]
        x = sym(fresh('k'), 'int')
        bb = subst(body, {mk('bv', h): x})
        if b.args[0] == 'min':
            return mk_any(x, dim, gt(a, bb))
        if b.args[0] == 'max':
            return bnot(mk_any(x, dim, bnot(gt(a, bb))))
    if a.op == 'inf' or b.op == 'inf':
        if a is b:
            return FALSE
        if a is NINF or b is INF:
            return FALSE
        if a is INF and not maybe_inf(b) or b is NINF and not maybe_inf(a):
            return bnot(fn1('isnan', b if a is INF else a))
        if a is INF and b.op != 'inf':
            return band(bnot(fn1('isnan', b)), bnot(app('eq', *sorted((a, b), key=lambda t: t.id))))
        if b is NINF:
            if a.op == 'num' or a.op == 'inf':
                return TRUE
            return band(bnot(fn1('isnan', a)), bnot(eq(a, b)))
    return _gt0(_ladd(a, _lmul(num(-1), b)))


def ge(a, b):
    return bnot(gt(b, a))


def _eq0(p):
    if p.op == 'num':
        return TRUE if p.args[0] == 0 else FALSE
    if p.op in ('inf', 'nan'):
        return FALSE
    if nonneg(p):
        return bnot(_gt0(p))
    if p.op == 'poly':
        n = _lmul(num(-1), p)
        if nonneg(n):
            return bnot(_gt0(n))
        d = _pd(p)
        # difference of integer quantities by a constant
        if len(d) == 1:
            (m, c), = d.items()
            r = FALSE
            for a, e in m:
                if e < 0 or positive(a):
                    continue
                r = bor(r, _eq0(a))
            if len(m) == 1 and m[0][1] == 1:
                return mk('eq0', m[0][0])
            return r
        p = _scale(p, True)
        return mk('eq0', p)
    return mk('eq0', p)


def _nonnum(t):
    return t.op in ('lit',) or (t.op == 'sym' and t.args[1] in ('str', 'obj')) or \
        (t.op == 'app' and t.args[0] in ('tuple', 'obj', 'listterm', 'fmt'))


def _eq(a, b):
    if a is b:
        if a.op == 'nan':
            return FALSE
        if a.op == 'sel' and maybe_nan(a):
            return bnot(fn1('isnan', a))
        return TRUE
    if a.op == 'lit' and b.op == 'lit':
        return FALSE
    if _nonnum(a) or _nonnum(b) or a.op in ('inf', 'nan') or b.op in ('inf', 'nan'):
        if a.op in ('num', 'inf', 'nan', 'lit') and b.op in ('num', 'inf', 'nan', 'lit'):
            return FALSE
        if a.op == 'app' and b.op == 'app' and a.args[0] == b.args[0] == 'tuple' and len(a.args) == len(b.args):
            r = TRUE
            for x, y in zip(a.args[1:], b.args[1:]):
                r = band(r, eq(x, y))
            return r
        if a.op == 'nan' or b.op == 'nan':
            return FALSE
        if a.op == 'inf' and not _nonnum(b) and not maybe_inf(b) or b.op == 'inf' and not _nonnum(a) and not maybe_inf(a):
            return FALSE
        if a.op == 'inf' and b.op == 'red' and b.args[0] in ('max', 'min'):
            a, b = b, a
        if b.op == 'inf' and a.op == 'red' and a.args[0] in ('max', 'min'):
            h, dim, body = a.args[1:4]
            x = sym(fresh('k'), 'int')
            e = eq(subst(body, {mk('bv', h): x}), b)
            if (a.args[0] == 'max') == (b is NINF):
                return mk_all(x, dim, e)
            return mk_any(x, dim, e)
        return app('eq', *sorted((a, b), key=lambda t: t.id))
    d = _ladd(a, _lmul(num(-1), b))
    if d.op in ('nan', 'inf'):
        return app('eq', *sorted((a, b), key=lambda t: t.id))
    return _eq0(d)


def eq(a, b):
    if is_bool(a) and is_bool(b):
        return mk_ite(a, b, bnot(b))
    if is_bool(a) and not _nonnum(b):
        a = to_num(a)
    if is_bool(b) and not _nonnum(a):
        b = to_num(b)
    return apply2(_eq, a, b)


def truthy(t):
    if is_bool(t):
        return t
    def f(l):
        if l.op == 'bool' or is_atom_bool(l):
            return l
        if l.op == 'lit':
            return TRUE if l.args[0].v else FALSE
        if l.op in ('inf', 'nan'):
            return TRUE
        if l.op == 'sym' and l.args[1] in ('str', 'obj'):
            return app('truthy', l)
        return bnot(_eq0(l))
    return apply1(f, t)


def solve_eq(a):
    """eq0(p) linear in a symbol -> (symbol, expr); prefers index placeholders"""
    if a.op != 'eq0':
        return None
    p = a.args[0]
    if p.op in ('ix', 'bv') or (p.op == 'sym' and p.args[1] == 'int'):
        return (p, ZERO)
    if p.op != 'poly':
        return None
    best = None
    d = dict(p.args[0])
    for m, c in d.items():
        if len(m) == 1 and m[0][1] == 1 and abs(c) == 1:
            x = m[0][0]
            if x.op in ('ix', 'bv') or (x.op == 'sym' and x.args[1] == 'int'):
                # must not occur elsewhere
                if any(x in fs(aa) for mm in d if mm != m for aa, _ in mm):
                    continue
                rank = {'ix': 3, 'bv': 2, 'sym': 1}[x.op]
                k = (rank, x.id)
                if best is None or k > best[0]:
                    best = (k, x, c, m)
    if best is None:
        return None
    _, x, c, m = best
    rest = {mm: cc for mm, cc in d.items() if mm != m}
    e = _lmul(num(-1 / c), _from_pd(rest))
    return (x, e)


# ------------------------------------------------------------------ functions
def _sgnnorm(p):
    if p.op == 'poly' or p.op not in ('num', 'inf', 'nan'):
        if p.op == 'poly' and _lead(p) < 0:
            return _lmul(num(-1), p)
    return p


import math


def fn1(name, t):
    t = to_num(t)

    def f(p):
        if name == 'abs':
            if p.op == 'num':
                return num(abs(p.args[0]))
            if p.op == 'inf':
                return INF
            if nonneg(p):
                return p
            return app('abs', _sgnnorm(p))
        if name == 'exp':
            if p is ZERO:
                return ONE
            if p is NINF:
                return ZERO
            if p is INF:
                return INF
        if name == 'log':
            if p is ONE:
                return ZERO
            if p is ZERO:
                return NINF
            if p.op == 'app' and p.args[0] == 'exp':
                return p.args[1]
        if name == 'sqrt':
            if p.op == 'num' and p.args[0] in (0, 1, 4, 9):
                return num(int(math.isqrt(int(p.args[0]))))
            if p.op == 'poly' and len(p.args[0]) == 1:
                (m, c), = p.args[0]
                if c == 1 and len(m) == 1 and m[0][1] == 2:
                    return fn1('abs', m[0][0])
        if name == 'isnan':
            if p.op == 'nan':
                return TRUE
            if p.op in ('num', 'inf'):
                return FALSE
            if not maybe_nan(p):
                return FALSE
        if name in ('isinf', 'isneginf') and not maybe_inf(p):
            return FALSE
        if name in ('isinf', 'isneginf'):
            if p.op == 'inf':
                return TRUE if name == 'isinf' or p.args[0] < 0 else FALSE
            if p.op in ('num', 'nan'):
                return FALSE
            if name == 'isneginf':
                return eq(p, NINF)
        if name == 'int':
            if p.op == 'num':
                return num(int(p.args[0]))
            if isint(p):
                return p
        if name == 'floor':
            if p.op == 'num':
                return num(math.floor(p.args[0]))
            if isint(p):
                return p
        return app(name, p)
    return apply1(f, t)


def isint(p):
    o = p.op
    if o == 'num':
        return p.args[0].denominator == 1
    if o in ('ix', 'bv'):
        return True
    if o in ('sym', 'sv'):
        return p.args[1] == 'int'
    if o == 'sel':
        i = ARR.get(p.args[0])
        return bool(i and i.get('dtype') == 'i')
    if o == 'app':
        return p.args[0] in INT_APPS or p.args[0] in ('dim', 'argmax', 'argmin', 'rand_index')
    if o in ('first', 'last', 'mu'):
        return p.args[0] == 'i'
    if o == 'red':
        return p.args[0] in ('argmax', 'argmin') or isint(p.args[3])
    if o == 'sum':
        return isint(p.args[3]) and all(isint(l) for l in leaves(p.args[4]))
    if o == 'ite':
        return isint(p.args[1]) and isint(p.args[2])
    if o == 'poly':
        return all(c.denominator == 1 and all(e > 0 and isint(a) for a, e in m) for m, c in p.args[0])
    return False


def mod(a, b):
    def f(x, y):
        if y.op == 'num' and y.args[0].denominator == 1 and y.args[0] > 0:
            m = y.args[0]
            if x.op == 'num':
                return num(x.args[0] % m)
            if isint(x):
                d = {mm: c % m for mm, c in _pd(x).items()}
                r = _from_pd(d)
                if r.op == 'num':
                    return num(r.args[0] % m)
                return app('mod', r, y)
        return app('mod', x, y)
    return apply2(f, to_num(a), to_num(b))


def floordiv(a, b):
    def f(x, y):
        if y.op == 'num' and x.op == 'num' and y.args[0] != 0:
            return num(math.floor(x.args[0] / y.args[0]))
        if y is ONE and isint(x):
            return x
        if y.op == 'num' and isint(x) and y.args[0].denominator == 1 and y.args[0] > 0:
            q, r = {}, {}
            for mm, c in _pd(x).items():
                if (c / y.args[0]).denominator == 1:
                    q[mm] = c / y.args[0]
                else:
                    r[mm] = c
            r = _from_pd(r)
            if r.op == 'num':
                return _ladd(_from_pd(q), num(math.floor(r.args[0] / y.args[0])))
        return app('floordiv', x, y)
    return apply2(f, to_num(a), to_num(b))


def max2(xs, op='max'):
    xs = [to_num(x) for x in xs]
    r = xs[0]
    for x in xs[1:]:
        r = apply2(lambda a, b: _max2(a, b, op), r, x)
    return r


def _max2(a, b, op):
    if a is b:
        return a
    if a.op == 'num' and b.op == 'num':
        return num((max if op == 'max' else min)(a.args[0], b.args[0]))
    bot, tp = (NINF, INF) if op == 'max' else (INF, NINF)
    if a is bot:
        return b
    if b is bot:
        return a
    if a is tp or b is tp:
        return tp
    for u, v in ((a, b), (b, a)):
        if u.op == 'num' and v.op != 'num' and u.args[0] <= 1:
            if (u.args[0] <= 0 and nonneg(v)) or (u.args[0] <= 1 and isint(v) and positive(v)):
                return v if op == 'max' else u
    # abs recognition: max(x,-x)
    if _ladd(a, b) is ZERO and op == 'max':
        return fn1('abs', a)
    parts = []
    for t in (a, b):
        if t.op == 'app' and t.args[0] == op + '2':
            parts.extend(t.args[1:])
        else:
            parts.append(t)
    if ZERO in parts and op == 'max':
        if any(nonneg(p) for p in parts if p is not ZERO):
            parts = [p for p in parts if p is not ZERO]
    parts = sorted(set(parts), key=lambda t: t.id)
    if len(parts) == 1:
        return parts[0]
    return app(op + '2', *parts)


# ------------------------------------------------------------------ binders
def _bind(x, body):
    h = height(body) + 1
    bv = mk('bv', h)
    return h, subst(body, {x: bv})


def _pull(x, t, build):
    """pull atoms of the MTBDD t which do not mention x out of the binder"""
    for a in atoms_of(t):
        if x not in fs(a):
            return mk_ite(a, _pull(x, cofactor(t, a, True), build), _pull(x, cofactor(t, a, False), build))
    return build(t)


def mk_sum(x, dim, body):
    body = to_num(body)
    if dim.op == 'num' and dim.args[0] <= 6:
        r = ZERO
        for k in range(int(dim.args[0])):
            r = add(r, subst(body, {x: num(k)}))
        return r
    if x not in fs(body):
        return mul(dim, body)
    return _pull(x, body, lambda t: _sum_build(x, dim, t))


def _coef(body, m):
    def f(l):
        if _special(l):
            return l
        return num(_pd(l).get(m, Fraction(0)))
    return apply1(f, body)


def _sum_build(x, dim, body):
    if body.op != 'ite' and x not in fs(body):
        return mul(dim, body)
    lv = leaves(body)
    if any(_special(l) or l.op == 'lit' for l in lv):
        h, b = _bind(x, mk('pair', ONE, body))
        return mk('sum', 0, h, dim, b.args[0], b.args[1])
    monos = []
    for l in lv:
        for m in _pd(l):
            if m not in monos:
                monos.append(m)
    monos.sort(key=_mono_key)
    res = ZERO
    for m in monos:
        phi = _coef(body, m)
        outer = tuple((a, e) for a, e in m if x not in fs(a))
        inner = tuple((a, e) for a, e in m if x in fs(a))
        mt = _from_pd({inner: Fraction(1)})
        # delta elimination: phi is zero unless x == e
        done = None
        for a in atoms_of(phi):
            if a.op == 'eq0' and x in fs(a) and cofactor(phi, a, False) is ZERO:
                e = _solve_for(a, x)
                if e is not None:
                    done = mul(subst(mt, {x: e}), subst(phi, {x: e}))
                    g = inside(e, dim)
                    if g is not TRUE:
                        done = mk_ite(g, done, ZERO)
                    break
        if done is None:
            nz = [l for l in leaves(phi) if l is not ZERO]
            sc = nz[0].args[0] if nz and nz[0].op == 'num' else Fraction(1)
            phi2 = mul(num(1 / sc), phi)
            if phi2.op != 'ite' and mt is ONE:
                done = mul(dim, phi2)
            else:
                # note: height over both parts so that they share the binder
                h, b = _bind(x, mk('pair', mt, phi2))
                done = mk('sum', 0, h, dim, b.args[0], b.args[1])
            done = mul(num(sc), done)
        res = add(res, mul(_from_pd({outer: Fraction(1)}), done))
    return res


def _solve_for(a, x):
    p = a.args[0]
    if p is x:
        return ZERO
    if p.op != 'poly':
        return None
    d = dict(p.args[0])
    m = ((x, 1),)
    if m not in d:
        return None
    c = d[m]
    rest = {mm: cc for mm, cc in d.items() if mm != m}
    for mm in rest:
        for aa, _ in mm:
            if x in fs(aa):
                return None
    e = _lmul(num(-1 / c), _from_pd(rest))
    if abs(c) != 1 and not isint(e):
        return None
    return e


def inside(e, dim):
    """0 <= e < dim"""
    if e.op == 'sym' and BOUND.get(e.args[0]) is dim or e.op == 'red' and e.args[0] in ('argmax', 'argmin') and e.args[2] is dim:
        return TRUE
    a, b = gt0(add(e, ONE)), gt0(sub(dim, e))
    return band(TRUE if implies(FACTS[0], a) else a, TRUE if implies(FACTS[0], b) else b)




def mk_any(x, dim, body):
    if dim.op == 'num' and dim.args[0] <= 6:
        return disj(subst(body, {x: num(k)}) for k in range(int(dim.args[0])))
    if body is FALSE:
        return FALSE
    if body is TRUE:
        return gt0(dim)
    if x not in fs(body):
        return band(body, TRUE) if True else body
    return _pull(x, body, lambda t: _any_build(x, dim, t))


def _any_build(x, dim, body):
    if body is FALSE:
        return FALSE
    if x not in fs(body):
        return body
    for a in atoms_of(body):
        if a.op == 'eq0' and x in fs(a):
            e = _solve_for(a, x)
            if e is None:
                continue
            l = cofactor(body, a, False)
            h = band(inside(e, dim), subst(cofactor(body, a, True), {x: e}))
            if l is FALSE:
                return h
            # any(x==e & H  |  x!=e & L)
            if implies(l, cofactor(body, a, True)):
                return bor(h, mk_any(x, dim, l))
    h, b = _bind(x, body)
    return mk('any', 0, h, dim, b)


def mk_all(x, dim, body):
    return bnot(mk_any(x, dim, bnot(body)))


def mk_red(op, x, dim, body):
    """max/min/argmax/argmin and other opaque reductions"""
    body = to_num(body)
    if op in ('max', 'min'):
        if dim.op == 'num' and dim.args[0] <= 6 and dim.args[0] > 0:
            return max2([subst(body, {x: num(k)}) for k in range(int(dim.args[0]))], op)
        if x not in fs(body):
            return body

        def build(t):
            if x not in fs(t):
                return t
            h, b = _bind(x, t)
            return mk('red', op, h, dim, b)
        return _pull(x, body, build)
    if x not in fs(body) and op in ('argmax', 'argmin'):
        return ZERO

    def build(t):
        h, b = _bind(x, t)
        return mk('red', op, h, dim, b)
    return _pull(x, body, build)


def mk_pick(op, ty, x, dim, cond, val):
    """first/last value val(x) over x in range(dim) with cond(x)"""
    for a in atoms_of(cond):
        if a.op == 'eq0' and x in fs(a) and cofactor(cond, a, False) is FALSE:
            e = _solve_for(a, x)
            if e is not None:
                return subst(val, {x: e})
    if x not in fs(val) :
        return val
    h, b = _bind(x, mk('pair', cond, val))
    return mk(op, ty, h, dim, b.args[0], b.args[1])


def lam(dims, body):
    """close an array body over ix(0..n-1)"""
    n = len(dims)
    h = height(body) + 1
    b = subst(body, {ix(i): mk('bv', h + i) for i in range(n)})
    return mk('lam', h, n, tuple(dims), b)


# ------------------------------------------------------------------ substitution
def subst(t, m):
    if not m:
        return t
    keys = frozenset(m)
    memo = {}

    def go(t):
        if not (fs(t) & keys):
            return t
        r = memo.get(t.id)
        if r is not None:
            return r
        r = _rebuild(t, go, m)
        memo[t.id] = r
        return r
    return go(t)


def _rebuild(t, go, m=None):
    o = t.op
    if m is not None and t in m:
        return m[t]
    if o == 'ite':
        return mk_ite(go(t.args[0]), go(t.args[1]), go(t.args[2]))
    if o == 'poly':
        r = ZERO
        for mono, c in t.args[0]:
            p = num(c)
            for a, e in mono:
                g = go(a)
                if e < 0:
                    g = apply1(_linv, to_num(g))
                    e = -e
                for _ in range(e):
                    p = mul(p, g)
            r = add(r, p)
        return r
    if o == 'gt0':
        p = t.args[0]
        return gt0(go(p))
    if o == 'eq0':
        return apply1(_eq0, to_num(go(t.args[0])))
    if o == 'sel':
        args = [go(a) for a in t.args[1:]]
        n = t.args[0]
        return _sel_apply(n, args)
    if o == 'app':
        return mk_app(t.args[0], *[go(a) if isinstance(a, T) else a for a in t.args[1:]])
    if o in ('sum', 'any', 'red', 'first', 'last'):
        h = t.args[1]
        x = sym(fresh('b'), 'int')
        bv = mk('bv', h)
        dim = go(t.args[2])
        inner = [go_bound(a, bv, x, go) for a in t.args[3:]]
        if o == 'sum':
            if any(_special(l) for l in leaves(inner[1])):
                hh, b = _bind(x, mk('pair', inner[0], inner[1]))
                return mk('sum', 0, hh, dim, b.args[0], b.args[1])
            return mk_sum(x, dim, mul(inner[0], inner[1]))
        if o == 'any':
            return mk_any(x, dim, inner[0])
        if o == 'red':
            return mk_red(t.args[0], x, dim, inner[0])
        return mk_pick(o, t.args[0], x, dim, inner[0], inner[1])
    if o == 'lam':
        h, n, dims, b = t.args
        xs = [sym(fresh('b'), 'int') for _ in range(n)]
        b2 = subst(b, {mk('bv', h + i): xs[i] for i in range(n)})
        b2 = go(b2)
        hh = height(b2) + 1
        b3 = subst(b2, {xs[i]: mk('bv', hh + i) for i in range(n)})
        return mk('lam', hh, n, tuple(go(d) for d in dims), b3)
    if o == 'pair':
        return mk('pair', go(t.args[0]), go(t.args[1]))
    if o == 'sys':
        return _rebuild_sys(t, go)
    return mk(o, *[_deep(a, go) for a in t.args])


def _rebuild_sys(t, go):
    h, d, kinds, inits, trs, exitc = t.args
    n = len(kinds)
    xs = [sym(fresh('b'), 'int')]
    for kind, ty, rank in kinds:
        xs.append(sym(fresh('b'), ty) if kind == 's' else fresh('b'))
    op, ao = {mk('bv', h): xs[0]}, {}
    for q, (kind, ty, rank) in enumerate(kinds):
        if kind == 's':
            op[mk('sv', h + 1 + q, ty)] = xs[1 + q]
        else:
            ARR[xs[1 + q]] = dict(ARR.get('@%d' % (h + 1 + q), {}))
            ao['@%d' % (h + 1 + q)] = (lambda nm: lambda args: _sel_apply(nm, list(args)))(xs[1 + q])
    def opn(x):
        x = subst(x, op)
        return rename_arrays(x, ao) if ao else x
    trs2 = [go(opn(x)) for x in trs]
    ex2 = go(opn(exitc))
    inits2 = [go(x) for x in inits]
    d2 = go(d)
    hh = max([height(x) for x in trs2 + inits2 + [ex2, d2]]) + 1
    cl, ac = {xs[0]: mk('bv', hh)}, {}
    for q, (kind, ty, rank) in enumerate(kinds):
        if kind == 's':
            cl[xs[1 + q]] = mk('sv', hh + 1 + q, ty)
        else:
            nm = '@%d' % (hh + 1 + q)
            ARR[nm] = dict(ARR.get(xs[1 + q], {}))
            ac[xs[1 + q]] = (lambda nm: lambda args: _sel_apply(nm, list(args)))(nm)
    def cls(x):
        x = subst(x, cl)
        return rename_arrays(x, ac) if ac else x
    return mk('sys', hh, d2, kinds, tuple(inits2), tuple(cls(x) for x in trs2), cls(ex2))


def _deep(a, go):
    if isinstance(a, T):
        return go(a)
    if isinstance(a, tuple):
        return tuple(_deep(x, go) for x in a)
    return a


def go_bound(body, bv, x, go):
    return go(subst(body, {bv: x}))


def _sel_apply(n, args):
    """apply an array symbol to index terms, distributing over ite in the indices"""
    for i, a in enumerate(args):
        if a.op == 'ite':
            return mk_ite(a.args[0], _sel_apply(n, args[:i] + [a.args[1]] + args[i + 1:]),
                          _sel_apply(n, args[:i] + [a.args[2]] + args[i + 1:]))
    if n.endswith('?'):
        return mk('sel', n, *args)
    return sel(n, *args)


NODIST = {'rand', 'eq', 'is', 'in', 'isinstance', 'tuple', 'obj', 'len', 'listterm', 'fmt', 'hasattr'}


def mk_app(f, *args):
    if f in ('abs', 'exp', 'log', 'sqrt', 'isnan', 'isinf', 'isneginf', 'int', 'floor') and len(args) == 1:
        return fn1(f, args[0])
    if f in ('max2', 'min2'):
        return max2(list(args), f[:3])
    if f == 'mod':
        return mod(*args)
    if f == 'floordiv':
        return floordiv(*args)
    if f == 'pow':
        return power(*args)
    if f == 'eq':
        return eq(*args)
    if f == 'add':
        return add(*args)
    if f == 'truthy':
        return truthy(args[0])
    return app(f, *args)


def rename_arrays(t, mp):
    """replace array names (exact match) in sel terms; mp: name -> function(args)->T"""
    memo = {}

    def go(t):
        r = memo.get(t.id)
        if r is not None:
            return r
        if not (names(t) & set(mp)):
            memo[t.id] = t
            return t
        if t.op == 'sel' and t.args[0] in mp:
            r = mp[t.args[0]]([go(a) for a in t.args[1:]])
        else:
            r = _rebuild(t, go)
        memo[t.id] = r
        return r
    return go(t)


# ------------------------------------------------------------------ printing
def show(t, d=0):
    if d > 14:
        return '…'
    o = t.op
    s = lambda x: show(x, d + 1) if isinstance(x, T) else repr(x)
    if o == 'num':
        return str(t.args[0])
    if o == 'bool':
        return str(t.args[0])
    if o == 'lit':
        return repr(t.args[0].v)
    if o == 'inf':
        return 'inf' if t.args[0] > 0 else '-inf'
    if o == 'nan':
        return 'nan'
    if o == 'sym':
        return t.args[0]
    if o == 'ix':
        return 'i%d' % t.args[0]
    if o in ('bv', 'sv'):
        return '%s%d' % (o[0] if o == 'sv' else 'v', t.args[0])
    if o == 'sel':
        return '%s[%s]' % (t.args[0], ','.join(s(a) for a in t.args[1:]))
    if o == 'app':
        return '%s(%s)' % (t.args[0], ','.join(s(a) for a in t.args[1:]))
    if o == 'poly':
        out = []
        for m, c in t.args[0]:
            fs_ = [s(a) + ('' if e == 1 else '^%d' % e) for a, e in m]
            if c == 1 and fs_:
                out.append('*'.join(fs_))
            elif not fs_:
                out.append(str(c))
            else:
                out.append('%s*%s' % (c, '*'.join(fs_)))
        return '(' + ' + '.join(out) + ')'
    if o == 'ite':
        return '{%s ? %s : %s}' % (s(t.args[0]), s(t.args[1]), s(t.args[2]))
    if o == 'gt0':
        return '%s>0' % s(t.args[0])
    if o == 'eq0':
        return '%s==0' % s(t.args[0])
    if o == 'sum':
        return 'Σ_v%d<%s %s·%s' % (t.args[1], s(t.args[2]), s(t.args[3]), s(t.args[4]))
    if o == 'any':
        return '∃v%d<%s.%s' % (t.args[1], s(t.args[2]), s(t.args[3]))
    if o == 'red':
        return '%s_v%d<%s %s' % (t.args[0], t.args[1], s(t.args[2]), s(t.args[3]))
    if o in ('first', 'last'):
        return '%s_v%d<%s[%s | %s]' % (o, t.args[1], s(t.args[2]), s(t.args[4]), s(t.args[3]))
    if o == 'lam':
        return 'λ%d@%d.%s' % (t.args[1], t.args[0], s(t.args[3]))

    def deep(a):
        if isinstance(a, T):
            return s(a)
        if isinstance(a, tuple):
            return '(' + ','.join(deep(x) for x in a) + ')'
        return repr(a)
    return '%s(%s)' % (o, ','.join(deep(a) for a in t.args))
