"""Random interpretation of value graphs (Gulwani & Necula style).

Terms are interpreted over randomly chosen values of their free symbols.  The result is
used in one direction only: two value graphs with different normal forms are reported as
different iff some interpretation that satisfies the path condition separates them.
Nothing of the analysed program is executed; only terms built by the analysis are read.
"""
import hashlib
import itertools
import math
import random
from fractions import Fraction
from . import terms as t
from .terms import T
from .values import *

EPS = 1e-9
MAXIT = 300


class Undef(Exception):
    """the term has no value under this interpretation (divergence, unmodelled operator)"""


def norm(v):
    """hashable, tolerance-rounded form of a value"""
    if isinstance(v, bool):
        return v
    if isinstance(v, (int, Fraction)):
        return float('%.6g' % float(v))
    if isinstance(v, float):
        if v != v:
            return 'nan'
        if v in (math.inf, -math.inf):
            return 'inf' if v > 0 else '-inf'
        return float('%.6g' % v) + 0.0
    if isinstance(v, (tuple, list)):
        return tuple(norm(x) for x in v)
    if isinstance(v, dict):
        return tuple(sorted(((repr(norm(k)), norm(x)) for k, x in v.items())))
    return v


def same(a, b, tol=1e-6):
    if isinstance(a, (tuple, list)) and isinstance(b, (tuple, list)):
        return len(a) == len(b) and all(same(x, y, tol) for x, y in zip(a, b))
    if isinstance(a, dict) and isinstance(b, dict):
        if len(a) != len(b):
            return False
        for k in a:
            if k not in b or not same(a[k], b[k], tol):
                return False
        return True
    na, nb = isinstance(a, (int, float, Fraction)), isinstance(b, (int, float, Fraction))
    if na and nb:
        a, b = float(a), float(b)
        if a != a or b != b:
            return a != a and b != b
        if math.isinf(a) or math.isinf(b):
            return a == b
        return abs(a - b) <= tol * max(1.0, abs(a), abs(b))
    if na != nb:
        return False
    return a == b


class Model:
    """one random interpretation"""

    def __init__(self, seed, doms=None, arrgens=None, maxdim=4):
        self.seed = seed
        self.rng = random.Random('model-%s' % seed)
        self.syms = {}
        self.tables = {}
        self.doms = doms or {}
        self.arrgens = arrgens or {}
        self.maxdim = maxdim
        self.memo = {}
        self.sysmemo = {}
        self.ver = itertools.count()
        self.budget = 1500000
        self.hint = None       # a constant of the analysed source: sizes and values are drawn around it
        self.hinted = False
        self.force = None      # common value of all random draws, to read off the distribution of a draw

    # ---- hashing
    def h(self, *key):
        d = hashlib.blake2b(repr((self.seed,) + tuple(norm(k) for k in key)).encode(), digest_size=8).digest()
        return int.from_bytes(d, 'big')

    def u(self, *key):
        if self.force is not None and key[0] == 'rand':
            return self.force
        return (self.h(*key) % 1000003) / 1000003.0

    def size(self, name, lo, span):
        """a size or count: lo .. lo + span - 1, or around the hinted constant"""
        if isinstance(self.hint, int) and not self.hinted and self.h('hint', name) % 2:
            self.hinted = True
            return max(lo, self.hint - 1 + self.h('hintv', name) % 5)
        return lo + self.h(name) % span

    # ---- symbols
    def sym(self, s):
        name, ty = s.args
        if name in self.syms:
            return self.syms[name]
        if name in self.doms:
            self.syms[name] = None
            v = self.doms[name](self)
        elif ty == 'int':
            if name in t.POS_SYMS:
                v = self.size(name, 2, self.maxdim - 1)
            elif name in t.NONNEG_SYMS:
                v = self.size(name, 0, 4)
            else:
                v = self.h('sym', name) % 9 - 3
        elif ty == 'bool':
            v = bool(self.h('sym', name) & 1)
        elif ty == 'num':
            x = self.u('sym', name)
            if self.hint is not None and self.h('hint', name) % 2:
                v = float(self.hint) * (0.5 + 0.5 * (self.h('hintv', name) % 3))
            elif name in t.POS_SYMS:
                v = 0.1 + 1.7 * x
            elif name in t.NONNEG_SYMS:
                v = 0.0 if self.h('z', name) % 5 == 0 else 2 * x
            else:
                v = 4 * x - 2
        else:
            v = ('sym', name)
        self.syms[name] = v
        return v

    def get(self, name):
        """value of a declared symbol by name (for generators)"""
        for ty in ('int', 'num', 'bool', 'str', 'obj'):
            k = ('sym', (name, ty))
            if ('sym', (name, ty)) in t._table:
                return self.sym(t._table[k])
        raise Undef('no symbol ' + name)

    def elem(self, name, idx):
        """element of symbolic array name"""
        b = name.endswith('?')
        base = name[:-1] if b else name
        g = self.arrgens.get(base)
        if g is not None:
            tab = self.tables.get(base)
            if tab is None:
                tab = self.tables[base] = g(self)
            v = tab.get(idx)
            if v is None:
                v = 0
            return bool(v) if b else v
        info = t.ARR.get(base, {})
        key = ('arr', base) + idx
        if b:
            return self.h(*key) % 3 == 0 if not info.get('dense') else bool(self.h(*key) & 1)
        dt = info.get('dtype', 'f')
        if dt == 'b':
            return bool(self.h(*key) & 1)
        if dt == 'i':
            lo = 0 if info.get('nonneg') or info.get('domain01') else -2
            return lo + self.h(*key) % 4
        k = self.h('kind', *key) % 12
        x = self.u(*key)
        if info.get('nan') and k in (0, 1):
            return math.nan
        if info.get('inf') and k in (2,):
            return -math.inf
        if self.hint is not None and not info.get('max1') and not info.get('domain01') and self.h('hint', *key) % 4 == 0:
            return float(self.hint) + (self.h('hintv', *key) % 3 - 1) * 0.5
        if info.get('max1'):
            return 0.0 if k in (3, 4) else x
        if k in (3, 4, 5):
            # small integers make ties and zeros likely
            v = float(self.h('small', *key) % 3) - (0 if info.get('nonneg') else 1)
        else:
            v = 3 * x if info.get('nonneg') else 4 * x - 2
        return v

    # ---- evaluation
    def ev(self, x, env=None):
        return self.go(x, env or {})

    def go(self, x, env):
        o = x.op
        if o == 'num':
            f = x.args[0]
            return f.numerator if f.denominator == 1 else float(f)
        if o == 'bool':
            return x.args[0]
        if o == 'sym':
            if x in env:
                return env[x]
            return self.sym(x)
        if o in ('ix', 'bv', 'sv'):
            if x not in env:
                raise Undef('unbound %r' % x)
            return env[x]
        if o == 'lit':
            return x.args[0].v
        if o == 'inf':
            return math.inf * x.args[0]
        if o == 'nan':
            return math.nan
        key = (x.id,) + tuple(env.get(v) for v in fsort(x)) + tuple(env['@' + n][0] if ('@' + n) in env else None for n in atnames(x))
        r = self.memo.get(key, self)
        if r is not self:
            return r
        self.budget -= 1
        if self.budget < 0:
            raise Undef('budget')
        r = getattr(self, 'e_' + o)(x, env)
        self.memo[key] = r
        return r

    def n(self, x, env):
        """numeric value"""
        v = self.go(x, env)
        if isinstance(v, bool):
            return int(v)
        if not isinstance(v, (int, float)):
            raise Undef('not a number: %r' % (v,))
        return v

    def i(self, x, env):
        v = self.n(x, env)
        if isinstance(v, float):
            if v == math.inf:
                return v
            if v != v or abs(v - round(v)) > EPS or math.isinf(v):
                raise Undef('not an integer')
            v = round(v)
        return v

    def e_ite(self, x, env):
        return self.go(x.args[1] if self.go(x.args[0], env) else x.args[2], env)

    def e_poly(self, x, env):
        s = 0
        for m, c in x.args[0]:
            p = c.numerator if c.denominator == 1 else float(c)
            for a, e in m:
                v = self.n(a, env)
                p = p * self.ipow(v, e)
            s = s + p
        return s

    def ipow(self, v, e):
        if e == 1:
            return v
        if e < 0:
            if v == 0:
                return math.nan if e < -1 else math.inf
            if isinstance(v, float) and math.isinf(v):
                return 0.0
            return 1.0 / float(v) ** -e
        return v ** e

    def e_gt0(self, x, env):
        v = self.n(x.args[0], env)
        return v > EPS if isinstance(v, float) else v > 0

    def e_eq0(self, x, env):
        v = self.n(x.args[0], env)
        if v != v:
            # inf - inf: equal infinities
            p = x.args[0]
            if p.op == 'poly' and len(p.args[0]) == 2:
                (m1, c1), (m2, c2) = p.args[0]
                try:
                    a = self.n(t._from_pd({m1: c1}), env)
                    b = self.n(t._from_pd({m2: -c2}), env)
                    return a == b
                except Undef:
                    raise
            return False
        return abs(v) <= EPS

    def e_sel(self, x, env):
        idx = tuple(self.i(a, env) for a in x.args[1:])
        n = x.args[0]
        tab = env.get('@' + n)
        if tab is not None:
            d = tab[1]
            if idx not in d:
                raise Undef('index')
            return d[idx]
        if n.startswith('@'):
            if n.endswith('?') and ('@' + n[:-1]) in env:
                return bool(env['@' + n[:-1]][1][idx])
            raise Undef('free state array')
        return self.elem(n, idx)

    def rangeof(self, d, env):
        n = self.i(d, env)
        if n == math.inf:
            raise Undef('infinite range')
        if n > 4000:
            raise Undef('range')
        return range(max(0, n))

    def e_sum(self, x, env):
        h, d, a, b = x.args[1:5]
        bv = t.mk('bv', h)
        s = 0
        e = dict(env)
        for k in self.rangeof(d, env):
            e[bv] = k
            f = self.n(b, e)
            if f == 0:
                continue
            s = s + f * self.n(a, e)
        return s

    def e_any(self, x, env):
        h, d, b = x.args[1:4]
        bv = t.mk('bv', h)
        e = dict(env)
        n = self.i(d, env)
        for k in (range(MAXIT) if n == math.inf else self.rangeof(d, env)):
            e[bv] = k
            if self.go(b, e):
                return True
        if n == math.inf:
            raise Undef('infinite any')
        return False

    def e_red(self, x, env):
        op, h, d, b = x.args
        bv = t.mk('bv', h)
        e = dict(env)
        vs = []
        for k in self.rangeof(d, env):
            e[bv] = k
            vs.append(self.n(b, e))
        if op in ('max', 'min', 'argmax', 'argmin'):
            if not vs and op in ('max', 'min'):
                return -math.inf if op == 'max' else math.inf
            if not vs:
                raise Undef('empty reduction')
            for k, v in enumerate(vs):
                if v != v:
                    return k if op.startswith('arg') else v
            f = max if op.endswith('max') else min
            best = f(vs)
            if op.startswith('arg'):
                for k, v in enumerate(vs):
                    if v == best or abs(v - best) <= EPS:
                        return k
            return best
        if op == 'prod':
            r = 1
            for v in vs:
                r = r * v
            return r
        return self.u('red', op, tuple(vs)) * 3

    def pick(self, x, env, rev):
        h, d, c, v = x.args[1:5]
        bv = t.mk('bv', h)
        e = dict(env)
        n = self.i(d, env)
        rg = range(MAXIT) if n == math.inf else self.rangeof(d, env)
        if rev and n == math.inf:
            raise Undef('last of infinite')
        for k in (reversed(rg) if rev else rg):
            e[bv] = k
            if self.go(c, e):
                return self.go(v, e)
        raise Undef('empty pick')

    def e_first(self, x, env):
        return self.pick(x, env, False)

    def e_last(self, x, env):
        return self.pick(x, env, True)

    def cells(self, dims, env):
        ns = []
        for d in dims:
            ns.append(self.rangeof(d, env))
        return itertools.product(*ns)

    def e_lam(self, x, env):
        """nested tuple"""
        h, n, dims, b = x.args
        e = dict(env)

        def rec(k):
            if k == n:
                return self.go(b, e)
            out = []
            for j in self.rangeof(dims[k], env):
                e[t.mk('bv', h + k)] = j
                out.append(rec(k + 1))
            return tuple(out)
        return rec(0)

    def table(self, x, env):
        h, n, dims, b = x.args
        e = dict(env)
        out = {}
        for idx in self.cells(dims, env):
            for k in range(n):
                e[t.mk('bv', h + k)] = idx[k]
            out[idx] = self.go(b, e)
        return (next(self.ver), out)

    def e_pair(self, x, env):
        return (self.go(x.args[0], env), self.go(x.args[1], env))

    def e_filt(self, x, env):
        h, n, dims, b = x.args[0].args
        e = dict(env)
        out = []
        if b.op != 'pair':
            raise Undef('filt')
        for idx in self.cells(dims, env):
            for k in range(n):
                e[t.mk('bv', h + k)] = idx[k]
            if self.go(b.args[0], e):
                out.append(self.go(b.args[1], e))
        return tuple(out)

    def sys_state(self, x, env, upto):
        h, d, kinds, inits, trs, exitc = x.args
        key = (x.id,) + tuple(env.get(v) for v in fsort(x)) + tuple(env['@' + n][0] if ('@' + n) in env else None for n in atnames(x))
        rec = self.sysmemo.get(key)
        if rec is None:
            st = []
            for (kind, ty, rank), ini in zip(kinds, inits):
                st.append(self.go(ini, env) if kind == 's' else self.table(ini, env))
            rec = self.sysmemo[key] = [[st], False]
        states, done = rec
        while len(states) <= upto and not rec[1]:
            if len(states) > MAXIT:
                raise Undef('no fixed point')
            cur = states[-1]
            e = dict(env)
            e[t.mk('bv', h)] = len(states) - 1
            for q, (kind, ty, rank) in enumerate(kinds):
                if kind == 's':
                    e[t.mk('sv', h + 1 + q, ty)] = cur[q]
                else:
                    e['@@%d' % (h + 1 + q)] = cur[q]
            nxt = []
            ex = bool(self.go(exitc, e))
            for (kind, ty, rank), tr in zip(kinds, trs):
                nxt.append(self.go(tr, e) if kind == 's' else self.table(tr, e))
            states.append(nxt)
            if ex:
                rec[1] = True
        return states[min(upto, len(states) - 1)]

    def e_mu(self, x, env):
        ty, sysm, k, n = x.args[:4]
        n = self.i(n, env)
        if n == math.inf:
            n = 10 ** 9
        st = self.sys_state(sysm, env, max(n, 0))
        v = st[k]
        if sysm.args[2][k][0] == 'a':
            idx = tuple(self.i(a, env) for a in x.args[4:])
            if idx not in v[1]:
                raise Undef('index')
            return v[1][idx]
        return v

    def e_sys(self, x, env):
        raise Undef('sys')

    # ---- applications
    def e_app(self, x, env):
        f, args = x.args[0], x.args[1:]
        m = getattr(self, 'f_' + f, None) if ':' not in f else None
        if m is not None:
            return m(args, env)
        return self.unint(f, [self.go(a, env) if isinstance(a, T) else a for a in args], f in t.BOOL_APPS, f in t.INT_APPS)

    def unint(self, f, vals, b=False, i=False):
        if b:
            return bool(self.h('uf', f, *vals) & 1)
        if i:
            return self.h('uf', f, *vals) % 5
        return self.u('uf', f, *vals) * 3 - 1

    def f_BitAnd(self, a, env):
        return int(self.n(a[0], env)) & int(self.n(a[1], env))

    def f_BitOr(self, a, env):
        return int(self.n(a[0], env)) | int(self.n(a[1], env))

    def f_BitXor(self, a, env):
        return int(self.n(a[0], env)) ^ int(self.n(a[1], env))

    def f_abs(self, a, env):
        return abs(self.n(a[0], env))

    def f_exp(self, a, env):
        v = self.n(a[0], env)
        if v == -math.inf:
            return 0.0
        try:
            return math.exp(v)
        except OverflowError:
            return math.inf

    def f_log(self, a, env):
        v = self.n(a[0], env)
        return math.log(v) if v > 0 else (-math.inf if v == 0 else math.nan)

    def f_sqrt(self, a, env):
        v = self.n(a[0], env)
        return math.sqrt(v) if v >= 0 else math.nan

    def f_isnan(self, a, env):
        v = self.n(a[0], env)
        return v != v

    def f_isinf(self, a, env):
        v = self.n(a[0], env)
        return v in (math.inf, -math.inf)

    def f_isneginf(self, a, env):
        return self.n(a[0], env) == -math.inf

    def f_isfinite(self, a, env):
        v = self.n(a[0], env)
        return v == v and v not in (math.inf, -math.inf)

    def f_int(self, a, env):
        v = self.n(a[0], env)
        if v != v or math.isinf(v):
            raise Undef('int')
        return int(v + (EPS if v >= 0 else -EPS))

    def f_floor(self, a, env):
        v = self.n(a[0], env)
        if v != v or math.isinf(v):
            raise Undef('floor')
        return math.floor(v + EPS)

    def f_round(self, a, env):
        v = self.n(a[0], env)
        k = self.i(a[1], env) if len(a) > 1 else 0
        if v != v or math.isinf(v):
            return v
        return round(v, int(k))

    def f_mod(self, a, env):
        v, w = self.n(a[0], env), self.n(a[1], env)
        if w == 0:
            return math.nan
        return v % w

    def f_floordiv(self, a, env):
        v, w = self.n(a[0], env), self.n(a[1], env)
        if w == 0:
            return math.nan
        return v // w

    def f_pow(self, a, env):
        v, w = self.n(a[0], env), self.n(a[1], env)
        try:
            r = float(v) ** w if not (isinstance(v, int) and isinstance(w, int) and w >= 0) else v ** w
        except ZeroDivisionError:
            return math.inf
        except OverflowError:
            return math.inf
        return r if not isinstance(r, complex) else math.nan

    def f_mul(self, a, env):
        r = 1
        for x in a:
            r = r * self.n(x, env)
        return r

    def f_add(self, a, env):
        vs = [self.go(x, env) for x in a]
        if all(isinstance(v, (int, float)) for v in vs):
            return sum(vs)
        return self.unint('add', vs)

    def f_max2(self, a, env):
        vs = [self.n(x, env) for x in a]
        for v in vs:
            if v != v:
                return v
        return max(vs)

    def f_min2(self, a, env):
        vs = [self.n(x, env) for x in a]
        for v in vs:
            if v != v:
                return v
        return min(vs)

    def f_inv(self, a, env):
        return self.ipow(self.n(a[0], env), -1)

    def f_inv2(self, a, env):
        m = self.go(a[0], env)
        n = len(m)
        A = [list(map(float, r)) + [1.0 if i == j else 0.0 for j in range(n)] for i, r in enumerate(m)]
        for c in range(n):
            p = max(range(c, n), key=lambda r: abs(A[r][c]))
            if abs(A[p][c]) < 1e-12:
                raise Undef('singular')
            A[c], A[p] = A[p], A[c]
            pv = A[c][c]
            A[c] = [v / pv for v in A[c]]
            for r in range(n):
                if r != c and A[r][c] != 0:
                    f = A[r][c]
                    A[r] = [v - f * w for v, w in zip(A[r], A[c])]
        return A[self.i(a[1], env)][n + self.i(a[2], env)]

    def f_tuple(self, a, env):
        return tuple(self.go(x, env) for x in a)

    f_listterm = f_tuple

    def f_item(self, a, env):
        v, k = self.go(a[0], env), self.go(a[1], env)
        if isinstance(v, tuple) and isinstance(k, int) and -len(v) <= k < len(v) and not (v and v[0] == 'sym'):
            return v[k]
        return self.unint('item', [v, k])

    def f_eq(self, a, env):
        return same(self.go(a[0], env), self.go(a[1], env))

    def f_in(self, a, env):
        v, c = self.go(a[0], env), self.go(a[1], env)
        if isinstance(c, tuple) and not (len(c) == 2 and c[0] == 'sym'):
            return any(same(v, w) for w in c)
        return self.unint('in', [v, c], True)

    def f_len(self, a, env):
        v = self.go(a[0], env)
        if isinstance(v, tuple) and not (len(v) == 2 and v[0] == 'sym'):
            return len(v)
        return self.h('len', v) % 4

    def f_truthy(self, a, env):
        v = self.go(a[0], env)
        if isinstance(v, tuple) and len(v) == 2 and v[0] == 'sym':
            return self.unint('truthy', [v], True)
        if isinstance(v, float) and v != v:
            return True
        return bool(v)

    def f_rand_index(self, a, env):
        rng, c = self.go(a[0], env), self.go(a[1], env)
        w = self.go(a[2], env)
        if not isinstance(w, tuple) or not w:
            raise Undef('empty choice')
        ws = [float(x) for x in w]
        if any(x != x or x < -EPS or math.isinf(x) for x in ws) or sum(ws) <= 0:
            raise Undef('bad weights')
        u = self.u('rand', rng, c) * sum(ws)
        acc = 0.0
        for k, x in enumerate(ws):
            acc += x
            if u < acc and x > 0:
                return k
        return max(k for k, x in enumerate(ws) if x > 0)

    def f_rand(self, a, env):
        return self.u('rand', *[self.go(x, env) for x in a])


_fsort = {}


def fsort(x):
    r = _fsort.get(x.id)
    if r is None:
        r = _fsort[x.id] = tuple(sorted((v for v in t.fs(x) if v.op in ('ix', 'bv', 'sv', 'sym')), key=lambda v: v.id))
    return r


_at = {}


def atnames(x):
    r = _at.get(x.id)
    if r is None:
        r = set()
        if x.op == 'sel' and x.args[0].startswith('@'):
            r.add(x.args[0].rstrip('?'))
        for c in t._children(x):
            r |= set(atnames(c))
        if x.op == 'sys':
            h = x.args[0]
            for q in range(len(x.args[2])):
                r.discard('@%d' % (h + 1 + q))
        r = _at[x.id] = tuple(sorted(r))
    return r


FREE_APPS = {'rng', 'rngcopy', 'entropy', 'ext', 'extattr', 'opaque'}


def vague(x, memo={}):
    """names of unmodelled operators in a term: opaque results and uninterpreted functions"""
    r = memo.get(x.id)
    if r is None:
        r = set()
        if x.op == 'app':
            f = x.args[0]
            if f == 'opaque':
                r.add('opaque')
            elif f not in FREE_APPS and not f.startswith('uf:') and ':' not in f and not hasattr(Model, 'f_' + f):
                r.add('uf:' + f)
            elif f.startswith('uf:') or f in ('ext', 'extattr'):
                r.add(f if f != 'ext' else 'ext:%r' % (x.args[1],))
        elif x.op == 'red' and x.args[0] not in ('max', 'min', 'argmax', 'argmin', 'prod'):
            r.add('red:' + str(x.args[0]))
        for c in t._children(x):
            r |= vague(c)
        r = memo[x.id] = frozenset(r)
    return r


# ------------------------------------------------------------------ concretisation of values
class Conc:
    """reads an abstract value of a state under a model as plain python data"""

    def __init__(self, model, st, depth=6):
        self.m, self.st, self.depth = model, st, depth
        self.vague = set()

    def term(self, x, env):
        self.vague |= vague(x)
        return self.m.go(x, env)

    def __call__(self, v, env=None, depth=0):
        env = env or {}
        if isinstance(v, T):
            return self.term(v, env)
        if isinstance(v, Ref):
            return self.obj(self.st.heap[v.oid], env, depth)
        if isinstance(v, AView):
            o = self.st.heap[v.oid]
            body = t.subst(o.arr.body, {t.ix(k): m for k, m in enumerate(v.maps)})
            return self.arr(Arr(v.dims, body, o.arr.dtype), env)
        if isinstance(v, TupleV):
            return tuple(self(x, env, depth) for x in v.items)
        if isinstance(v, IteV):
            return self(v.a if self.term(v.c, env) else v.b, env, depth)
        if isinstance(v, (Arr, Filt)):
            return self.arr(v, env)
        if isinstance(v, RangeV):
            s, n, k = self.term(v.start, env), self.term(v.n, env), self.term(v.step, env)
            return tuple(s + k * j for j in range(int(n)))
        if isinstance(v, (ClassV, FuncV)):
            return ('class', getattr(v, 'name', getattr(v, 'qual', None)))
        if isinstance(v, ExtV):
            return ('ext', v.name)
        raise Undef('value %r' % type(v).__name__)

    def arr(self, a, env):
        e = dict(env)
        if isinstance(a, Filt):
            out = []
            n = len(a.dims)
            for idx in self.m.cells(a.dims, env):
                for k in range(n):
                    e[t.ix(k)] = idx[k]
                if self.term(a.mask, e):
                    out.append(self.fill(a.tail, a.body, e, n, env))
            return tuple(out)
        if self.m.hint is not None:
            dims = tuple(len(self.m.rangeof(d, e)) for d in a.dims)
            n = 1
            for d in dims:
                n *= d
            if n > 400:
                # large interpretation: compare at random points
                out = []
                for j in range(80):
                    for k, d in enumerate(dims):
                        e[t.ix(k)] = self.m.h('spot', dims, j, k) % d
                    out.append(self.term(a.body, e))
                return ('spot', dims, tuple(out))
        return self.fill(a.dims, a.body, e, 0, env)

    def fill(self, dims, body, e, base, env):
        def rec(k):
            if k == len(dims):
                return self.term(body, e)
            out = []
            for j in self.m.rangeof(dims[k], e):
                e[t.ix(base + k)] = j
                out.append(rec(k + 1))
            return tuple(out)
        return rec(0)

    def segs(self, segs, env, depth):
        out = []
        for s in segs:
            if s.plain:
                out.append(self(s.value, env, depth))
                continue
            vs = [v for v, _ in s.vars]
            e = dict(env)

            def rec(k):
                if k == len(vs):
                    if self.term(s.guard, e):
                        out.append(self(s.value, e, depth))
                    return
                for j in self.m.rangeof(s.vars[k][1], e):
                    e[vs[k]] = j
                    rec(k + 1)
            rec(0)
        return tuple(out)

    def obj(self, o, env, depth):
        if depth > self.depth:
            raise Undef('depth')
        if isinstance(o, ArrObj):
            return self.arr(o.arr, env)
        if isinstance(o, SetObj):
            return ('set',) + tuple(sorted(set(self.segs(o.segs, env, depth + 1)), key=repr))
        if isinstance(o, ListObj):
            return self.segs(o.segs, env, depth + 1)
        if isinstance(o, DictObj):
            out = {}
            for k, v, g in o.entries:
                if self.term(g, env):
                    out[self(k, env, depth + 1)] = self(v, env, depth + 1)
            return out
        if isinstance(o, AltObj):
            return self.obj(o.a if self.term(o.c, env) else o.b, env, depth)
        if isinstance(o, ExtObj):
            return ('extobj', o.kind, self.term(o.term, env))
        if isinstance(o, InstObj):
            return ('inst', getattr(o.cls, 'name', None)) + tuple((k, self(v, env, depth + 1)) for k, v in sorted(o.attrs.items()))
        raise Undef('object %r' % type(o).__name__)
