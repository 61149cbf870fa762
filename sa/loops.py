"""Summaries of loops with a symbolic trip count.

The body is analysed once with every location it modifies replaced by a header phi; the
resulting transfer functions are solved in closed form (sum, disjunction, maximum, last
assignment, element-wise store, append) or, failing that, kept as a recurrence term
('mu' of a 'sys'), which is itself hash-consed and comparable.
"""
import ast
from . import terms as t
from .terms import T, TRUE, FALSE, ZERO, ONE, NONE, num, lit, mk_ite, band, bor, bnot, restrict
from .values import *


def is_scalar(v):
    return isinstance(v, T)


class PhiV:
    """header value of a location that holds something other than numbers"""

    def __init__(self, name):
        self.name = name

    def __repr__(self):
        return 'PhiV(%s)' % self.name


class Loc:
    def __init__(self, key, kind, init):
        self.key, self.kind, self.init = key, kind, init
        self.name = t.fresh('phi')
        self.ty = None
        self.rank = 0
        self.dims = ()
        self.oid = None
        self.n = 0
        self.parts = None
        self.filt = None

    def shaped(self, body):
        f = self.filt
        return Arr(self.dims, body, self.dt) if f is None else Filt(f.dims, f.mask, body, f.tail, self.dt)

    def like(self, a):
        if self.filt is None:
            return isinstance(a, Arr) and a.rank == self.rank
        return isinstance(a, Filt) and a.key() == self.filt.key() and a.tail == self.filt.tail

    def __repr__(self):
        return 'Loc(%s,%s)' % (self.key, self.kind)


def term_ty(v):
    if t.is_bool(v):
        return 'bool'
    if all(t.isint(l) for l in t.leaves(v)):
        return 'int'
    return 'num'


def lub_ty(a, b):
    if a == b:
        return a
    if {a, b} == {'int', 'bool'}:
        return 'num'
    return 'num'


# ---------------------------------------------------------------- state access
def get_loc(st, key):
    if key[0] == 'env':
        return st.frames.get(key[1], {}).get(key[2], UNBOUND)
    if key[0] == 'attr':
        o = st.heap.get(key[1])
        return o.attrs.get(key[2], UNBOUND) if isinstance(o, InstObj) else UNBOUND
    if key[0] == 'obj':
        return st.heap.get(key[1])
    if key[0] == 'ctr':
        return st.ctr


def put_loc(st, key, v):
    if key[0] == 'env':
        st.frames[key[1]][key[2]] = v
    elif key[0] == 'attr':
        st.heap[key[1]] = st.heap[key[1]].with_attr(key[2], v)
    elif key[0] == 'obj':
        st.heap[key[1]] = v
    elif key[0] == 'ctr':
        st.ctr = v


def obj_same(a, b):
    from .interp import same_val
    if a is b:
        return True
    if type(a) is not type(b):
        return False
    if isinstance(a, ArrObj):
        x, y = a.arr, b.arr
        if type(x) is not type(y):
            return False
        if isinstance(x, Arr):
            return x.dims == y.dims and x.body is y.body
        return x.key() == y.key() and x.body is y.body and x.tail == y.tail
    if isinstance(a, ListObj):
        return len(a.segs) == len(b.segs) and all(p is q or (p.vars == q.vars and p.guard is q.guard and same_or_phi(p.value, q.value)) for p, q in zip(a.segs, b.segs))
    if isinstance(a, DictObj):
        return a.phi == b.phi and len(a.entries) == len(b.entries) and all(
            same_val(x[0], y[0]) and same_val(x[1], y[1]) and x[2] is y[2] for x, y in zip(a.entries, b.entries))
    if isinstance(a, ExtObj):
        return a.term is b.term
    if isinstance(a, AltObj):
        return a.c is b.c and obj_same(a.a, b.a) and obj_same(a.b, b.b)
    return False


def same_or_phi(a, b):
    from .interp import same_val
    if isinstance(a, PhiList) and isinstance(b, PhiList):
        return a.name == b.name
    return same_val(a, b)


def modified(base, start, ends):
    """keys of locations of base whose value differs from start in some end state"""
    from .interp import same_val
    out = []
    for e in ends:
        for fid, env in start.frames.items():
            env2 = e.frames.get(fid)
            if env2 is None or env2 is env or fid not in base.frames:
                continue
            for k in list(env2) + [x for x in env if x not in env2]:
                if not same_val(env.get(k, UNBOUND), env2.get(k, UNBOUND)):
                    key = ('env', fid, k)
                    if key not in out:
                        out.append(key)
        for oid, o in start.heap.items():
            o2 = e.heap.get(oid)
            if o2 is None or o2 is o or oid not in base.heap:
                continue
            if isinstance(o, InstObj) and isinstance(o2, InstObj):
                for k in list(o2.attrs) + [x for x in o.attrs if x not in o2.attrs]:
                    if not same_val(o.attrs.get(k, UNBOUND), o2.attrs.get(k, UNBOUND)):
                        key = ('attr', oid, k)
                        if key not in out:
                            out.append(key)
            elif not obj_same(o, o2):
                key = ('obj', oid)
                if key not in out:
                    out.append(key)
        if e.ctr is not start.ctr:
            if ('ctr',) not in out:
                out.append(('ctr',))
    return out


# ---------------------------------------------------------------- ranged binders
def in_range(e, n, dims):
    if n is t.INF:
        return t.ge(e, ZERO)
    if e.op == 'ix' and e.args[0] < len(dims) and dims[e.args[0]] is n:
        return TRUE
    lo = TRUE if t.nonneg(e) else t.ge(e, ZERO)
    return band(lo, t.gt(n, e))


def solved(cond, k):
    for a in t.atoms_of(cond):
        if a.op == 'eq0' and k in t.fs(a) and t.cofactor(cond, a, False) is FALSE:
            e = t._solve_for(a, k)
            if e is not None:
                return e
    return None


def any_(k, n, cond, dims):
    if cond is FALSE:
        return FALSE
    e = solved(cond, k)
    if e is not None:
        return band(in_range(e, n, dims), t.subst(cond, {k: e}))
    if k not in t.fs(cond):
        return band(t.gt0(n) if n is not t.INF else TRUE, cond)
    return t.mk_any(k, n, cond)


def all_(k, n, cond, dims):
    return bnot(any_(k, n, bnot(cond), dims))


def pick_(op, ty, k, n, cond, val, dims):
    e = solved(cond, k)
    if e is not None:
        return t.subst(val, {k: e})
    if cond is TRUE:
        return t.subst(val, {k: t.sub(n, ONE) if op == 'last' else ZERO})
    if ty == 'i':
        return t.mk_pick(op, 'i', k, n, cond, val)
    idx = t.mk_pick(op, 'i', k, n, cond, k)
    return t.subst(val, {k: idx})


def sum_(k, n, body, dims):
    body = t.to_num(body)
    if body.op == 'ite':
        for a in t.atoms_of(body):
            if a.op == 'eq0' and k in t.fs(a) and t.cofactor(body, a, False) is ZERO:
                e = t._solve_for(a, k)
                if e is not None:
                    return mk_ite(in_range(e, n, dims), t.subst(t.cofactor(body, a, True), {k: e}), ZERO)
    return t.mk_sum(k, n, body)


# ---------------------------------------------------------------- scalar recurrences
def solve_scalar(phi, tr, init, i, d, dims):
    """closed form of x := tr(i, x); returns at(n) or None"""
    if phi not in t.fs(tr):
        if i not in t.fs(tr):
            return lambda n: mk_ite(t.gt0(n), tr, init)
        return lambda n: mk_ite(t.gt0(n), t.subst(tr, {i: t.sub(n, ONE)}), init)
    k = i
    if phi.args[1] == 'bool':
        t1, t0 = t.subst(tr, {phi: TRUE}), t.subst(tr, {phi: FALSE})
        if t1 is TRUE:
            return lambda n: bor(init, any_(k, n, t0, dims))
        if t0 is FALSE:
            return lambda n: band(init, all_(k, n, t1, dims))
        # ite(c, v, phi) with c, v free of phi
        c = bnot(band(t1, bnot(t0)))
        if t1 is mk_ite(c, t0, TRUE):
            return lambda n: mk_ite(any_(k, n, c, dims), t.truthy(pick_('last', 'b', k, n, c, restrict(t0, c), dims)), init)
        return None
    dlt = t.sub(tr, phi)
    if phi not in t.fs(dlt):
        return lambda n: t.add(init, sum_(k, n, dlt, dims))
    if any(phi in t.fs(a) for a in t.atoms_of(tr)):
        return None
    lv = t.leaves(tr)
    if all(l is phi or phi not in t.fs(l) for l in lv):
        c = t.apply1(lambda l: FALSE if l is phi else TRUE, tr)
        v = restrict(tr, c)
        if phi not in t.fs(v):
            return lambda n: mk_ite(any_(k, n, c, dims), pick_('last', 'n', k, n, c, v, dims), init)
    for op, ident in (('max', t.NINF), ('min', t.INF)):
        def strip(l):
            if l is phi:
                return ident
            if l.op == 'app' and l.args[0] == op + '2' and phi in l.args[1:]:
                rest = [a for a in l.args[1:] if a is not phi]
                return t.max2(rest, op)
            raise KeyError
        try:
            e = t.apply1(strip, tr)
        except KeyError:
            continue
        if phi not in t.fs(e):
            return lambda n, e=e, op=op: t.max2([init, t.mk_red(op, k, n, e)], op)
    # multiplication by a loop invariant factor: init * f**n
    q = t.div(tr, phi)
    if phi not in t.fs(q) and i not in t.fs(q) and tr.op != 'ite':
        return lambda n: t.mul(init, t.power(q, n))
    return None


class Summary:
    """solution of one loop"""

    def __init__(self):
        self.at = {}


# ---------------------------------------------------------------- recurrence terms
def build_sys(i, d, comps, exitc):
    """comps: list of (kind, ty, dims, init, tr, phi) ; returns sys term"""
    inits, trs, kinds = [], [], []
    for kind, ty, dims, init, tr, phi in comps:
        if kind == 'a':
            inits.append(t.lam(dims, init))
            trs.append(t.lam(dims, tr))
        else:
            inits.append(init)
            trs.append(tr)
        kinds.append((kind, ty, len(dims)))
    h = max([t.height(x) for x in inits + trs + [exitc, d]]) + 1
    m = {i: t.mk('bv', h)}
    arr = {}
    for q, (kind, ty, dims, init, tr, phi) in enumerate(comps):
        if kind == 's':
            m[phi] = t.mk('sv', h + 1 + q, ty)
        else:
            nm = '@%d' % (h + 1 + q)
            t.ARR[nm] = dict(t.ARR.get(phi, {}))
            arr[phi] = (lambda nm: lambda args: t._sel_apply(nm, list(args)))(nm)
    fix = lambda x: t.rename_arrays(t.subst(x, m), arr) if arr else t.subst(x, m)
    return t.mk('sys', h, d, tuple(kinds), tuple(inits), tuple(fix(x) for x in trs), fix(exitc))


def mu(sys, k, n, *idx):
    ty = sys.args[2][k][1]
    return t.mk('mu', {'int': 'i', 'bool': 'b'}.get(ty, 'n'), sys, k, n, *idx)


# ---------------------------------------------------------------- the loop rule
def alternatives(v):
    return alternatives(v.a) + alternatives(v.b) if isinstance(v, IteV) else [v]


class Looper:
    def __init__(self, I, st, i, d, guard, step, node):
        self.I, self.base, self.i, self.d, self.guard, self.step, self.node = I, st.copy(), i, d, guard, step, node
        self.locs = {}

    # ---- header phis
    def make_loc(self, key, new):
        I, base = self.I, self.base
        init = get_loc(base, key)
        if key[0] == 'obj':
            if isinstance(init, ArrObj):
                loc = Loc(key, 'arr', init)
                a = init.arr
                loc.dims = a.dims if isinstance(a, Arr) else a.dims + a.tail
                loc.rank = len(loc.dims)
                loc.filt = None if isinstance(a, Arr) else a
                loc.dt = init.arr.dtype
                t.ARR[loc.name] = {'dtype': loc.dt}
                return loc
            if isinstance(init, ListObj):
                return Loc(key, 'list', init)
            if isinstance(init, DictObj):
                return Loc(key, 'dict', init)
            raise Unsupported('loop modifies %s' % type(init).__name__)
        if is_scalar(init) and is_scalar(new) and not (t._nonnum(init) or any(t._nonnum(l) for l in t.leaves(new))):
            loc = Loc(key, 'scalar', init)
            loc.ty = lub_ty(term_ty(init), term_ty(new))
            return loc
        if isinstance(init, TupleV) and isinstance(new, TupleV) and len(init.items) == len(new.items) and all(map(is_scalar, init.items + new.items)):
            loc = Loc(key, 'tuple', init)
            loc.parts = [t.fresh('phi') for _ in init.items]
            loc.tys = [lub_ty(term_ty(a), term_ty(b)) for a, b in zip(init.items, new.items)]
            return loc
        if I.is_array(base, init) and all(isinstance(x, (Ref, AView)) for x in alternatives(new)):
            a = I.get_arr(base, init)
            if isinstance(a, Arr):
                loc = Loc(key, 'arrvar', init)
                loc.dims, loc.rank, loc.dt, loc.initarr = a.dims, a.rank, a.dtype, a
                t.ARR[loc.name] = {'dtype': loc.dt}
                return loc
        loc = Loc(key, 'temp', init)
        return loc

    def install(self, s):
        for loc in self.locs.values():
            k = loc.kind
            if k == 'scalar':
                put_loc(s, loc.key, t.sym(loc.name, loc.ty))
            elif k == 'tuple':
                put_loc(s, loc.key, TupleV([t.sym(p, ty) for p, ty in zip(loc.parts, loc.tys)], loc.init.names))
            elif k == 'arr':
                put_loc(s, loc.key, ArrObj(loc.shaped(self.phi_elem(loc)), loc.init.origin))
            elif k == 'arrvar':
                r = self.I.alloc(s, ArrObj(Arr(loc.dims, self.phi_elem(loc), loc.dt)))
                loc.oid = r.oid
                put_loc(s, loc.key, r)
            elif k == 'list':
                put_loc(s, loc.key, type(loc.init)([Seg((), TRUE, PhiList(loc.name))]))
            elif k == 'dict':
                put_loc(s, loc.key, DictObj([], loc.name))
            elif k == 'temp':
                put_loc(s, loc.key, PhiV(loc.name))

    def phi_elem(self, loc):
        return t.sel(loc.name, *[t.ix(k) for k in range(loc.rank)])

    # ---- analysis of the body
    def run(self):
        I = self.I
        marks = (len(I.log), len(I.raises[-1]), len(I.ret[-1]) if I.ret else 0, len(I.unsupported))
        loops = I.loops
        I.loops_seen += 1
        for rnd in range(12):
            s = self.base.copy()
            self.install(s)
            start = s.copy()
            I.loops = loops + ((self.i, self.d, self.guard),)
            try:
                out, brks = self.step(s)
            finally:
                I.loops = loops
            rets = I.ret[-1][marks[2]:] if I.ret else []
            ends = ([out] if out is not None else []) + brks + rets
            again = False
            for key in modified(self.base, start, ends):
                loc = self.locs.get(key)
                new = None
                for e in ends:
                    v = get_loc(e, key)
                    from .interp import same_val
                    if v is not None and not (key[0] != 'obj' and same_val(v, get_loc(start, key))):
                        new = v
                        break
                if loc is None:
                    self.locs[key] = self.make_loc(key, new)
                    again = True
                elif loc.kind == 'scalar':
                    for e in ends:
                        v = get_loc(e, key)
                        if not is_scalar(v):
                            loc.kind = 'temp'
                            again = True
                        else:
                            ty = lub_ty(loc.ty, term_ty(v))
                            if ty != loc.ty:
                                loc.ty = ty
                                again = True
                elif loc.kind == 'tuple':
                    for e in ends:
                        v = get_loc(e, key)
                        if not isinstance(v, TupleV) or len(v.items) != len(loc.parts):
                            raise Unsupported('tuple of varying length in loop')
                        tys = [lub_ty(a, term_ty(b)) for a, b in zip(loc.tys, v.items)]
                        if tys != loc.tys:
                            loc.tys = tys
                            again = True
            if not again:
                break
            del I.log[marks[0]:]
            del I.raises[-1][marks[1]:]
            if I.ret:
                del I.ret[-1][marks[2]:]
            del I.unsupported[marks[3]:]
        else:
            raise Unsupported('loop analysis did not stabilise')
        self.start, self.out, self.brks = start, out, brks
        self.rets = list(rets)
        if I.ret:
            del I.ret[-1][marks[2]:]
        self.raised = I.raises[-1][marks[1]:]
        del I.raises[-1][marks[1]:]
        self.events = I.log[marks[0]:]
        return self

    # ---- solving
    def transfer(self):
        I = self.I
        ends = ([self.out] if self.out is not None else []) + self.brks + self.rets
        p0 = self.start.pc
        self.conds = [restrict(e.pc, p0) for e in ends]
        nout = 1 if self.out is not None else 0
        self.cout = self.conds[0] if nout else FALSE
        self.cbrk = self.conds[nout:nout + len(self.brks)]
        self.cret = self.conds[nout + len(self.brks):]
        self.exitc = t.disj(self.cbrk + self.cret)
        self.normal = t.disj(self.conds)
        if not ends:
            self.merged = None
            return
        m = ends[0]
        for e in ends[1:]:
            m = I.merge(m, e)
        self.merged = m

    def scalar_items(self):
        """(phi symbol/array name, kind, ty, dims, init, transfer, setter)"""
        items = []
        for loc in self.locs.values():
            v = get_loc(self.merged, loc.key)
            if loc.kind == 'scalar':
                if not is_scalar(v):
                    raise Unsupported('loop variable changes kind')
                items.append(dict(id=(loc, None), kind='s', ty=loc.ty, dims=(), init=self.coerce(loc.init, loc.ty), tr=self.coerce(v, loc.ty), phi=t.sym(loc.name, loc.ty), name=loc.name))
            elif loc.kind == 'tuple':
                for q, (p, ty) in enumerate(zip(loc.parts, loc.tys)):
                    items.append(dict(id=(loc, q), kind='s', ty=ty, dims=(), init=self.coerce(loc.init.items[q], ty), tr=self.coerce(v.items[q], ty), phi=t.sym(p, ty), name=p))
            elif loc.kind == 'arr':
                if not (isinstance(v, ArrObj) and loc.like(v.arr)):
                    raise Unsupported('array changes shape in loop')
                items.append(dict(id=(loc, None), kind='a', ty=self.dty(loc.dt), dims=loc.dims, init=loc.init.arr.body, tr=v.arr.body, phi=loc.name, name=loc.name))
            elif loc.kind == 'arrvar':
                if not self.I.is_array(self.merged, v):
                    if isinstance(v, IteV):
                        v2 = self.flatten_arr(v)
                    else:
                        raise Unsupported('array variable changes kind')
                else:
                    v2 = self.I.get_arr(self.merged, v)
                if not isinstance(v2, Arr) or v2.rank != loc.rank:
                    raise Unsupported('array variable changes shape')
                if v2.dims != loc.dims:
                    raise Unsupported('array variable changes size')
                items.append(dict(id=(loc, None), kind='a', ty=self.dty(loc.dt), dims=loc.dims, init=loc.initarr.body, tr=v2.body, phi=loc.name, name=loc.name))
        return items

    def flatten_arr(self, v):
        if isinstance(v, IteV):
            a, b = self.flatten_arr(v.a), self.flatten_arr(v.b)
            if a.rank != b.rank or a.dims != b.dims:
                raise Unsupported('array alternatives')
            return Arr(a.dims, mk_ite(v.c, a.body, b.body), a.dtype)
        a = self.I.get_arr(self.merged, v)
        if not isinstance(a, Arr):
            raise Unsupported('array alternatives')
        return a

    def dty(self, dt):
        return {'i': 'int', 'b': 'bool'}.get(dt, 'num')

    def coerce(self, v, ty):
        return v if ty == 'bool' else t.to_num(v)

    def solve(self):
        items = self.scalar_items()
        by = {it['name']: it for it in items}
        self.items = items
        self.sol = {}
        names = set(by)
        pend = dict(by)
        progress = True
        while pend and progress:
            progress = False
            for nm, it in list(pend.items()):
                deps = t.names(it['tr']) & names
                if not deps <= set(self.sol) | {nm}:
                    continue
                tr = self.sub_solved(it['tr'], self.i)
                at = self.closed(it, tr)
                if at is not None:
                    self.sol[nm] = at
                    del pend[nm]
                    progress = True
        self.unsolved = pend
        return self

    def closed(self, it, tr):
        i, d = self.i, self.d
        if it['kind'] == 's':
            at = solve_scalar(it['phi'], tr, it['init'], i, d, ())
            return at
        occ = [x for x in t.subterms(tr) if x.op == 'sel' and x.args[0] in (it['phi'], it['phi'] + '?')]
        pt = tuple(t.ix(k) for k in range(len(it['dims'])))
        same = set()
        for x in occ:
            if tuple(x.args[1:]) == pt:
                continue
            # the same cell written differently: a[i, 2] under the condition j == 2
            if x.args[0] != it['phi'] or len(x.args) != len(pt) + 1 or x not in t.leaves(tr):
                return None
            g = t.apply1(lambda l: TRUE if l is x else FALSE, tr)
            for a, b in zip(x.args[1:], pt):
                if a is not b and band(g, bnot(t.eq(a, b))) is not FALSE:
                    return None
            same.add(x)
        if same:
            here = t.mk('sel', it['phi'], *pt)
            tr = t.apply1(lambda l: here if l in same else l, tr)
        p = t.sym(t.fresh('phi'), it['ty'])
        tr2 = t.rename_arrays(tr, {it['phi']: lambda args: p}) if occ else tr
        return solve_scalar(p, tr2, it['init'], i, d, it['dims'])

    def sub_solved(self, term, n, only=None):
        """replace the phis of solved locations by their value after n iterations"""
        m, arr = {}, {}
        nm_in = t.names(term)
        for it in self.items:
            nm = it['name']
            if nm in self.sol and nm in nm_in and (only is None or nm in only):
                at = self.sol[nm]
                if it['kind'] == 's':
                    m[it['phi']] = at(n)
                else:
                    body = at(n)
                    arr[nm] = (lambda body: lambda args: ix_map(body, {k: a for k, a in enumerate(args)}))(body)
        if m:
            term = t.subst(term, m)
        if arr:
            term = t.rename_arrays(term, arr)
        return term

    def close_rest(self, everything=False):
        """unsolved locations become components of recurrence systems"""
        if everything:
            groups = [[it for it in self.items]]
            self.sol = {}
            exitc = self.exitc
        else:
            groups = sccs(self.unsolved)
            exitc = FALSE
        kindcomp = None
        for g in groups:
            if not everything and len(g) == 1:
                # everything it depends on is solved by now: a closed form may exist
                at = self.closed(g[0], self.sub_solved(g[0]['tr'], self.i))
                if at is not None:
                    self.sol[g[0]['name']] = at
                    continue
            comps = []
            for it in g:
                tr = it['tr'] if everything else self.sub_solved(it['tr'], self.i)
                comps.append((it['kind'], it['ty'], it['dims'], it['init'], tr, it['phi']))
            if everything:
                kt = ZERO
                for q, c in enumerate(self.cbrk):
                    kt = mk_ite(c, ONE, kt)
                for q, c in enumerate(self.cret):
                    kt = mk_ite(c, num(2 + q), kt)
                ks = t.sym(t.fresh('phi'), 'int')
                comps.append(('s', 'int', (), ZERO, kt, ks))
                ns = t.sym(t.fresh('phi'), 'int')
                comps.append(('s', 'int', (), ZERO, t.add(ns, ONE), ns))
            sysm = build_sys(self.i, self.d, comps, exitc)
            for q, it in enumerate(g):
                if it['kind'] == 's':
                    self.sol[it['name']] = (lambda q, sysm: lambda n: mu(sysm, q, n))(q, sysm)
                else:
                    r = len(it['dims'])
                    self.sol[it['name']] = (lambda q, r, sysm: lambda n: mu(sysm, q, n, *[t.ix(k) for k in range(r)]))(q, r, sysm)
            if everything:
                kindcomp = (mu(sysm, len(g), self.d), mu(sysm, len(g) + 1, self.d))
        return kindcomp

    # ---- substitution of phis in values and states
    def fix_term(self, x, idx):
        """value at iteration idx: phis -> at(idx), i -> idx"""
        x = self.sub_solved(x, self.i)
        if idx is not self.i:
            x = t.subst(x, {self.i: idx})
        return x

    def fix_val(self, v, idx):
        if is_scalar(v):
            return self.fix_term(v, idx)
        if isinstance(v, TupleV):
            return TupleV([self.fix_val(x, idx) for x in v.items], v.names)
        if isinstance(v, AView):
            return AView(v.oid, [self.fix_term(x, idx) for x in v.maps], [self.fix_term(x, idx) for x in v.dims])
        if isinstance(v, IteV):
            c = self.fix_term(v.c, idx)
            if c is TRUE:
                return self.fix_val(v.a, idx)
            if c is FALSE:
                return self.fix_val(v.b, idx)
            return IteV(c, self.fix_val(v.a, idx), self.fix_val(v.b, idx))
        if isinstance(v, RangeV):
            return RangeV(self.fix_term(v.start, idx), self.fix_term(v.n, idx), self.fix_term(v.step, idx))
        if isinstance(v, PhiV):
            loc = [l for l in self.locs.values() if l.name == v.name][0]
            return loc.init
        if isinstance(v, BoundV):
            return BoundV(v.func, self.fix_val(v.self_, idx))
        return v

    def fix_obj(self, o, idx):
        if isinstance(o, ArrObj):
            a = o.arr
            f = lambda x: self.fix_term(x, idx)
            if isinstance(a, Arr):
                return ArrObj(Arr([f(d) for d in a.dims], f(a.body), a.dtype), o.origin)
            return ArrObj(Filt([f(d) for d in a.dims], f(a.mask), f(a.body), [f(d) for d in a.tail], a.dtype), o.origin)
        if isinstance(o, ListObj):
            return type(o)([Seg([(x, self.fix_term(d, idx)) for x, d in s.vars], self.fix_term(s.guard, idx), self.fix_val(s.value, idx)) for s in o.segs])
        if isinstance(o, DictObj):
            return DictObj([(self.fix_val(k, idx), self.fix_val(x, idx), self.fix_term(g, idx)) for k, x, g in o.entries], o.phi, o.default)
        if isinstance(o, InstObj):
            return InstObj(o.cls, {k: self.fix_val(x, idx) for k, x in o.attrs.items()})
        if isinstance(o, AltObj):
            return AltObj(self.fix_term(o.c, idx), self.fix_obj(o.a, idx), self.fix_obj(o.b, idx))
        return o

    def carry_fresh(self, dst, src, idx):
        """objects allocated by the iteration, as they are at iteration idx"""
        for oid, o in src.heap.items():
            if oid not in self.base.heap:
                dst.heap[oid] = self.fix_obj(o, idx)
        for fid, env in src.frames.items():
            if fid not in dst.frames:
                dst.frames[fid] = {k: self.fix_val(x, idx) for k, x in env.items()}

    def state_at(self, n):
        """state at the loop header after n complete iterations"""
        s = self.base.copy()
        for loc in self.locs.values():
            if loc.kind == 'scalar':
                put_loc(s, loc.key, self.sol[loc.name](n))
            elif loc.kind == 'tuple':
                put_loc(s, loc.key, TupleV([self.sol[p](n) for p in loc.parts], loc.init.names))
            elif loc.kind == 'arr':
                put_loc(s, loc.key, ArrObj(loc.shaped(self.sol[loc.name](n)), loc.init.origin))
            elif loc.kind == 'arrvar':
                r = self.I.alloc(s, ArrObj(Arr(loc.dims, self.sol[loc.name](n), loc.dt)))
                put_loc(s, loc.key, self.I.merge_val(t.gt0(n), r, loc.init) if not (is_scalar(n) and t.positive(n)) else r)
            elif loc.kind == 'list':
                put_loc(s, loc.key, type(loc.init)(tuple(loc.init.segs) + tuple(self.appended(s, loc, n))))
            elif loc.kind == 'dict':
                raise Unsupported('dictionary filled by a symbolic loop')
            elif loc.kind == 'temp':
                put_loc(s, loc.key, self.temp_value(s, loc, n))
        return s

    def temp_value(self, s, loc, n):
        v = get_loc(self.out, loc.key) if self.out is not None else loc.init
        idx = t.sub(n, ONE)
        if contains_phi(v):
            # conditionally assigned pointer: usable when iteration independent
            if isinstance(v, IteV) and isinstance(v.b, PhiV) and not contains_phi(v.a) and self.i not in val_syms(v.a):
                c = self.fix_term(v.c, self.i)
                self.carry_fresh(s, self.out, idx)
                return self.I.merge_val(any_(self.i, n, c, ()), v.a, loc.init)
            if isinstance(v, PhiV) and v.name == loc.name:
                return loc.init
            c, a = split_phi(v, loc.name)
            if c is not None and plain_data(a):
                c = self.fix_term(c, self.i)
                if self.guard is not TRUE:
                    c = band(c, self.fix_term(self.guard, self.i))
                k = pick_('last', 'i', self.i, n, c, self.i, ())
                return self.I.merge_val(any_(self.i, n, c, ()), self.fix_val(a, k), loc.init)
            return PoisonV('loop carried pointer')
        if self.guard is not TRUE:
            g = self.fix_term(self.guard, self.i)
            idx = t.mk_pick('last', 'i', self.i, n, g, self.i)
            ex = any_(self.i, n, g, ())
        else:
            ex = t.gt0(n)
        self.carry_fresh(s, self.out, idx)
        return self.I.merge_val(ex, self.fix_val(v, idx), loc.init)

    def appended(self, s, loc, n):
        segs = get_loc(self.merged, loc.key).segs
        if not segs or not isinstance(segs[0].value, PhiList) or segs[0].value.name != loc.name or not segs[0].plain:
            raise Unsupported('list rewritten in loop')
        new = segs[1:]
        if any(isinstance(q.value, PhiList) for q in new):
            raise Unsupported('list rewritten in loop')
        if not new:
            return []
        if len(new) > 1:
            j = t.sym(t.fresh('j'), 'int')
            if all(q.plain for q in new):
                v = new[-1].value
                for q in range(len(new) - 2, -1, -1):
                    v = self.I.merge_val(t.eq(j, num(q)), new[q].value, v)
                new = [Seg(((j, num(len(new))),), TRUE, v)]
            else:
                # mutually exclusive guarded appends of scalars behave as one
                gs = [q.guard for q in new]
                ok = all(not q.vars for q in new) and all(band(a, b) is FALSE for x, a in enumerate(gs) for b in gs[x + 1:])
                if not ok:
                    raise Unsupported('several appends per iteration')
                v = new[-1].value
                for q in reversed(new[:-1]):
                    v = self.I.merge_val(q.guard, q.value, v)
                new = [Seg((), t.disj(gs), v)]
        q = new[0]
        i2 = t.sym(t.fresh('i'), 'int')
        t.NONNEG_SYMS.add(i2.args[0])
        vs = [(i2, n)] + [(x, t.subst(self.fix_term(d, self.i), {self.i: i2})) for x, d in q.vars]
        g = t.subst(self.fix_term(q.guard, self.i), {self.i: i2})
        # guarded loops only append on selected iterations
        v = self.family(s, q.value, vs, i2)
        return [Seg(vs, g, v)]

    def family(self, s, v, vs, i2):
        """value of the appended element as a function of the segment variables"""
        if is_scalar(v):
            return t.subst(self.fix_term(v, self.i), {self.i: i2})
        if isinstance(v, TupleV):
            return TupleV([self.family(s, x, vs, i2) for x in v.items], v.names)
        if isinstance(v, Ref) and v.oid in self.base.heap and ('obj', v.oid) not in self.locs:
            return v
        if isinstance(v, AView) and v.oid in self.base.heap and ('obj', v.oid) not in self.locs:
            w = self.fix_val(v, self.i)
            return self.I.subst_val(w, {self.i: i2})
        a = self.I.get_arr(self.merged, v) if isinstance(v, (Ref, AView)) else None
        if isinstance(a, Arr):
            n = len(vs)
            f = lambda x: t.subst(self.fix_term(x, self.i), {self.i: i2})
            mp = {x: t.ix(k) for k, (x, d) in enumerate(vs)}
            body = t.subst(ix_shift(f(a.body), 0, n), mp)
            dims = [t.subst(d, mp) for x, d in vs] + [t.subst(ix_shift(f(d), 0, n), mp) for d in a.dims]
            r = self.I.alloc(s, ArrObj(Arr(dims, body, a.dtype)))
            return AView(r.oid, [x for x, d in vs] + [t.ix(k) for k in range(a.rank)], [f(d) for d in a.dims])
        if isinstance(v, (ExtV, ClassV, FuncV)):
            return v
        if isinstance(v, IteV):
            return IteV(t.subst(self.fix_term(v.c, self.i), {self.i: i2}), self.family(s, v.a, vs, i2), self.family(s, v.b, vs, i2))
        raise Unsupported('list of per-iteration objects')

    def exit_state(self, e, idx):
        """exit (break or return) state taken at iteration idx"""
        s = self.base.copy()
        self.carry_fresh(s, e, idx)
        for loc in self.locs.values():
            v = get_loc(e, loc.key)
            if loc.kind == 'list':
                keep = self.merged
                hdr = self.state_at_list(loc, s, idx)
                segs = v.segs
                if not isinstance(segs[0].value, PhiList):
                    raise Unsupported('list rewritten before exit')
                put_loc(s, loc.key, type(loc.init)(tuple(hdr) + tuple(
                    Seg([(x, self.fix_term(d, idx)) for x, d in q.vars], self.fix_term(q.guard, idx), self.fix_val(q.value, idx)) for q in segs[1:])))
            elif loc.key[0] == 'obj':
                put_loc(s, loc.key, self.fix_obj(v, idx))
            else:
                if loc.kind == 'arrvar' and isinstance(v, Ref) and v.oid == loc.oid:
                    r = self.I.alloc(s, ArrObj(Arr(loc.dims, self.sol[loc.name](idx), loc.dt)))
                    put_loc(s, loc.key, r)
                    continue
                if contains_phi(v):
                    if v.__class__ is PhiV:
                        put_loc(s, loc.key, self.temp_value(s, loc, idx))
                        continue
                    c, a = split_phi(v, loc.name)
                    if c is None:
                        raise Unsupported('loop carried pointer at exit')
                    put_loc(s, loc.key, self.I.merge_val(self.fix_term(c, idx), self.fix_val(a, idx), self.temp_value(s, loc, idx)))
                    continue
                put_loc(s, loc.key, self.fix_val(v, idx))
        return s

    def state_at_list(self, loc, s, n):
        return tuple(loc.init.segs) + tuple(self.appended(s, loc, n))

    def finish_events(self):
        for ev in self.events:
            try:
                ev.pc = self.sub_solved(ev.pc, self.i)
                ev.data = self.fix_data(ev.data)
            except Unsupported:
                pass
        for (s, exc, val, loc) in self.raised:
            s.pc = self.sub_solved(s.pc, self.i)
            self.I.raises[-1].append((s, exc, val, loc))

    def fix_data(self, x):
        if isinstance(x, T):
            return self.sub_solved(x, self.i)
        if isinstance(x, tuple):
            return tuple(self.fix_data(y) for y in x)
        if isinstance(x, list):
            return [self.fix_data(y) for y in x]
        if isinstance(x, TupleV):
            return TupleV([self.fix_data(y) for y in x.items], x.names)
        return x


def contains_phi(v):
    if isinstance(v, PhiV):
        return True
    if isinstance(v, IteV):
        return contains_phi(v.a) or contains_phi(v.b)
    if isinstance(v, TupleV):
        return any(contains_phi(x) for x in v.items)
    return False


def split_phi(v, name):
    """v as (c, a): a where c holds, the unchanged header value elsewhere"""
    if isinstance(v, PhiV):
        return (FALSE, None) if v.name == name else (None, None)
    if not contains_phi(v):
        return TRUE, v
    if isinstance(v, IteV):
        c1, a1 = split_phi(v.a, name)
        c2, a2 = split_phi(v.b, name)
        if c1 is None or c2 is None:
            return None, None
        c = t.mk_ite(v.c, c1, c2)
        if a1 is None:
            return c, a2
        if a2 is None:
            return c, a1
        return c, IteV(v.c, a1, a2)
    return None, None


def plain_data(v):
    if is_scalar(v):
        return True
    if isinstance(v, TupleV):
        return all(map(plain_data, v.items))
    if isinstance(v, IteV):
        return plain_data(v.a) and plain_data(v.b)
    return isinstance(v, (ExtV, ClassV, FuncV))


def val_syms(v):
    if is_scalar(v):
        return t.fs(v)
    if isinstance(v, TupleV):
        r = frozenset()
        for x in v.items:
            r |= val_syms(x)
        return r
    if isinstance(v, AView):
        r = frozenset()
        for x in v.maps:
            r |= t.fs(x)
        return r
    return frozenset()


def sccs(pend):
    """strongly connected components of the unsolved transfer functions, dependencies first"""
    names = set(pend)
    deps = {n: (t.names(it['tr']) & names) for n, it in pend.items()}
    index, low, on, stack, out, ctr = {}, {}, set(), [], [], [0]

    def go(v):
        index[v] = low[v] = ctr[0]
        ctr[0] += 1
        stack.append(v)
        on.add(v)
        for w in sorted(deps[v]):
            if w not in index:
                go(w)
                low[v] = min(low[v], low[w])
            elif w in on:
                low[v] = min(low[v], index[w])
        if low[v] == index[v]:
            comp = []
            while True:
                w = stack.pop()
                on.discard(w)
                comp.append(w)
                if w == v:
                    break
            out.append([pend[n] for n in pend if n in comp])
    for v in pend:
        if v not in index:
            go(v)
    return out


def run_loop(I, st, i, d, guard, step, node, orelse, fr, is_while=False):
    L = Looper(I, st, i, d, guard, step, node).run()
    L.transfer()
    if L.merged is None:
        # every iteration raises
        L.items, L.sol = [], {}
        s = st.copy()
        L.finish_events()
        s.assume(bnot(t.gt0(d)) if d is not t.INF else FALSE)
        st.become(s)
        return
    L.solve()
    kind = None
    if L.exitc is FALSE:
        L.close_rest()
        L.finish_events()
        final = L.state_at(d)
        norm = L.sub_solved(L.normal, i)
        if norm is not TRUE:
            final.assume(all_(i, d, norm, ()))
        finish(I, st, final, [], orelse, fr)
        return
    # exits: is the exit condition closed?
    need = closure(L, t.names(L.exitc))
    if not (need & set(L.unsolved)) and not (L.unsolved and is_while):
        L.close_rest()
        L.finish_events()
        X = L.sub_solved(L.exitc, i)
        norm = L.sub_solved(L.normal, i)
        if is_while:
            m = count_of(X, i)
            if m is not None and not L.rets and len(L.brks) == 1:
                L.d = m
                final = L.exit_state(L.brks[0], m)
                finish(I, st, final, [], orelse, fr)
                return
        found = any_(i, d, X, ()) if d is not t.INF else TRUE
        kk = pick_('first', 'i', i, d, X, i, ()) if X is not TRUE else ZERO
        outs = []
        if found is not TRUE:
            fin = L.state_at(d)
            fin.assume(bnot(found))
            if norm is not TRUE and d is not t.INF:
                fin.assume(all_(i, d, norm, ()))
            if not fin.dead:
                if orelse:
                    I.block(fin, orelse, fr)
                if not fin.dead:
                    outs.append(fin)
        for e, c in zip(L.brks, L.cbrk):
            s = L.exit_state(e, kk)
            s.assume(band(found, L.fix_term(c, kk)))
            if not s.dead:
                outs.append(s)
        for e, c in zip(L.rets, L.cret):
            s = L.exit_state(e, kk)
            s.frames[fr_fid(I)]['<ret>'] = L.fix_val(e.frames[fr_fid(I)]['<ret>'], kk)
            s.assume(band(found, L.fix_term(c, kk)))
            if not s.dead:
                I.ret[-1].append(s)
        merge_out(I, st, outs)
        return
    kinds, steps = L.close_rest(everything=True)
    L.finish_events()
    # values after the loop come from the merged transfer (exit iteration included)
    fin = L.base.copy()
    for loc in L.locs.values():
        if loc.kind == 'temp':
            v = get_loc(L.merged, loc.key)
            if L.guard is not TRUE:
                put_loc(fin, loc.key, PoisonV('temporary of a filtered loop with exits'))
                continue
            idx = t.sub(steps, ONE)
            if contains_phi(v):
                put_loc(fin, loc.key, PoisonV('loop carried pointer'))
                continue
            L.carry_fresh(fin, L.merged, idx)
            put_loc(fin, loc.key, I.merge_val(t.gt0(d) if d is not t.INF else TRUE, L.fix_val(v, idx), loc.init))
        elif loc.kind == 'list':
            put_loc(fin, loc.key, type(loc.init)(tuple(loc.init.segs) + tuple(L.appended(fin, loc, steps))))
        elif loc.kind == 'scalar':
            put_loc(fin, loc.key, L.sol[loc.name](d))
        elif loc.kind == 'tuple':
            put_loc(fin, loc.key, TupleV([L.sol[p](d) for p in loc.parts], loc.init.names))
        elif loc.kind == 'arr':
            put_loc(fin, loc.key, ArrObj(loc.shaped(L.sol[loc.name](d)), loc.init.origin))
        elif loc.kind == 'arrvar':
            r = I.alloc(fin, ArrObj(Arr(loc.dims, L.sol[loc.name](d), loc.dt)))
            put_loc(fin, loc.key, r)
        else:
            raise Unsupported('loop with exits')
    outs = []
    for q, e in enumerate(L.rets):
        s = fin.copy()
        idx = t.sub(steps, ONE)
        L.carry_fresh(s, e, idx)
        s.frames[fr_fid(I)]['<ret>'] = L.fix_val(e.frames[fr_fid(I)]['<ret>'], idx)
        s.assume(t.eq(kinds, num(2 + q)))
        if not s.dead:
            I.ret[-1].append(s)
    if L.rets:
        c = TRUE
        for q in range(len(L.rets)):
            c = band(c, bnot(t.eq(kinds, num(2 + q))))
        fin.assume(c)
    if orelse:
        e1, e2 = fin.copy(), fin.copy()
        e1.assume(t.eq(kinds, ZERO))
        e2.assume(bnot(t.eq(kinds, ZERO)))
        if not e1.dead:
            I.block(e1, orelse, fr)
        outs = [e for e in (e1, e2) if not e.dead]
    else:
        outs = [fin]
    merge_out(I, st, outs)


def closure(L, names0):
    by = {it['name']: it for it in L.items}
    todo = [n for n in names0 if n in by]
    seen = set()
    while todo:
        n = todo.pop()
        if n in seen:
            continue
        seen.add(n)
        todo.extend(x for x in t.names(by[n]['tr']) if x in by)
    return seen


def count_of(X, i):
    """X(i) == not (m - i > 0)  ->  number of iterations m (clipped at zero)"""
    a = bnot(X)
    if a.op != 'gt0':
        return None
    p = a.args[0]
    m = t.add(p, i)
    if i in t.fs(m):
        return None
    if not t.isint(m):
        return None
    return m if t.nonneg(m) else t.max2([m, ZERO], 'max')


def fr_fid(I):
    return I.stack[-1].fid


def finish(I, st, final, outs, orelse, fr):
    if not final.dead and orelse:
        I.block(final, orelse, fr)
    merge_out(I, st, ([] if final.dead else [final]) + outs)


def merge_out(I, st, outs):
    if not outs:
        st.dead = True
        return
    o = outs[0]
    for x in outs[1:]:
        o = I.merge(o, x)
    st.become(o.copy())
    st.dead = False


def breaks_out(node):
    """the loop statement contains a break of its own"""
    todo = list(getattr(node, 'body', []) if isinstance(node, (ast.For, ast.While)) else [])
    while todo:
        x = todo.pop()
        if isinstance(x, ast.Break):
            return True
        if isinstance(x, (ast.For, ast.While, ast.FunctionDef, ast.ClassDef, ast.Lambda)):
            todo.extend(getattr(x, 'orelse', []))
            continue
        todo.extend(c for c in ast.iter_child_nodes(x) if isinstance(c, (ast.stmt, ast.ExceptHandler)))
    return False


def sym_loop(I, st, seg, body, node, orelse, fr):
    (i, d) = seg.vars[0]
    t.NONNEG_SYMS.add(i.args[0])
    if len(seg.vars) > 1:
        if breaks_out(node):
            raise Unsupported('leaving a loop over a nested sequence')
        inner = Seg(seg.vars[1:], seg.guard, seg.value)

        def step(s):
            I.brk.append([])
            I.cont.append([])
            try:
                try:
                    sym_loop(I, s, inner, body, node, None, fr)
                except Dead:
                    s.dead = True
            finally:
                I.brk.pop()
                I.cont.pop()
            return (None if s.dead else s.copy()), []
        run_loop(I, st, i, d, TRUE, step, node, orelse, fr)
        return
    guard = seg.guard

    def step(s):
        if guard is TRUE:
            return I.run_iter(s, body, seg.value)
        s1, s2 = s.copy(), s.copy()
        s1.assume(guard)
        s2.assume(bnot(guard))
        out, brks = (None, [])
        if not s1.dead:
            out, brks = I.run_iter(s1, body, seg.value)
        if out is None:
            return (None if s2.dead else s2), brks
        return (out if s2.dead else I.merge(out, s2)), brks
    run_loop(I, st, i, d, guard, step, node, orelse, fr)


ROUNDS = 4


def while_loop(I, st, node, fr):
    from .interp import MAX_UNROLL
    const = isinstance(node.test, ast.Constant)

    def body(s, _):
        I.block(s, node.body, fr)
    if not const:
        marks = (len(I.log), len(I.raises[-1]), len(I.ret[-1]) if I.ret else 0, len(I.unsupported))
        s = st.copy()
        breaks, breaks_else = [], []
        decided = False
        conj = isinstance(node.test, ast.BoolOp) and isinstance(node.test.op, ast.And)
        for k in range(MAX_UNROLL):
            try:
                c = restrict(I.truth(s, I.eval(s, node.test, fr)), s.pc)
            except Dead:
                s = None
                decided = True
                break
            if c is FALSE:
                decided = True
                break
            if c is not TRUE:
                if not conj or k > 4:
                    break
                # part of a conjunction (a counter, say) may still end the loop
                s2 = s.copy()
                s2.assume(bnot(c))
                if not s2.dead:
                    breaks_else.append(s2)
                s.assume(c)
                if s.dead:
                    s = None
                    decided = True
                    break
            out, b = I.run_iter(s, body, NONE)
            breaks.extend(b)
            if out is None:
                s = None
                decided = True
                break
            s = out
        if decided:
            ends = ([s] if s is not None else []) + breaks_else
            for e in ends:
                if node.orelse:
                    I.block(e, node.orelse, fr)
            merge_out(I, st, [e for e in ends if not e.dead] + breaks)
            return
        del I.log[marks[0]:]
        del I.raises[-1][marks[1]:]
        if I.ret:
            del I.ret[-1][marks[2]:]
        del I.unsupported[marks[3]:]
    i = t.sym(t.fresh('i'), 'int')
    t.NONNEG_SYMS.add(i.args[0])

    def step(s):
        if const and node.test.value:
            return I.run_iter(s, body, NONE)
        try:
            c = restrict(I.truth(s, I.eval(s, node.test, fr)), s.pc)
        except Dead:
            return None, []
        s1, s2 = s.copy(), s.copy()
        s1.assume(c)
        s2.assume(bnot(c))
        out, brks = (None, []) if s1.dead else I.run_iter(s1, body, NONE)
        return out, ([s2] if not s2.dead else []) + brks
    start = st.copy()
    marks = (len(I.log), len(I.raises[-1]), len(I.ret[-1]) if I.ret else 0, len(I.unsupported))
    try:
        run_loop(I, st, i, t.INF, TRUE, step, node, node.orelse, fr, is_while=True)
    except NeedUnroll:
        del I.log[marks[0]:]
        del I.raises[-1][marks[1]:]
        if I.ret:
            del I.ret[-1][marks[2]:]
        del I.unsupported[marks[3]:]
        st.become(start.copy())
        # executions with more rounds are left out
        I.bounded.append('%s:%s: rounds of the loop followed: %d' % (getattr(fr.module, 'path', '?') if fr is not None else '?', node.lineno, ROUNDS))
        outs, cur = [], st.copy()
        for _ in range(ROUNDS + 1):
            out, b = step(cur)
            outs.extend(b)
            if out is None:
                break
            cur = out
        merge_out(I, st, [o for o in outs if not o.dead])
