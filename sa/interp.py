"""Flow-sensitive abstract interpreter over the Python AST.

The abstract domain is the canonical value graph of terms.py: every variable, attribute,
list slot and array element is mapped to a term over the symbolic inputs.  Control flow
joins are gated merges (no path enumeration), symbolic loops are summarised by closed
forms of their transfer function, and repository calls are inlined through the resolved
class hierarchy.  Nothing from the repository is ever imported or executed.
"""
import ast
from . import terms as t
from .terms import T, TRUE, FALSE, ZERO, ONE, NONE, num, lit, mk_ite, band, bor, bnot, restrict
from .values import *

MAX_UNROLL = 40
MAX_DEPTH = 60


class Event:
    __slots__ = ('kind', 'pc', 'loc', 'data', 'loops')

    def __init__(self, kind, pc, loc, data, loops):
        self.kind, self.pc, self.loc, self.data, self.loops = kind, pc, loc, data, loops

    def __repr__(self):
        return 'Ev(%s @%s pc=%s %s)' % (self.kind, self.loc, self.pc, self.data)


class State:
    __slots__ = ('frames', 'heap', 'pc', 'dead', 'ctr')

    def __init__(self):
        self.frames, self.heap, self.pc, self.dead, self.ctr = {}, {}, TRUE, False, ZERO

    def copy(self):
        s = State()
        s.frames = {k: dict(v) for k, v in self.frames.items()}
        s.heap = dict(self.heap)
        s.pc, s.dead, s.ctr = self.pc, self.dead, self.ctr
        return s

    def become(self, o):
        self.frames, self.heap, self.pc, self.dead, self.ctr = o.frames, o.heap, o.pc, o.dead, o.ctr

    def assume(self, c):
        self.pc = band(self.pc, c)
        if self.pc is FALSE:
            self.dead = True


class Frame:
    def __init__(self, fid, func, module, cls):
        self.fid, self.func, self.module, self.cls = fid, func, module, cls
        self.closure = False
        self.globals_ = set()
        self.nonlocals = set()


def no_poison(v):
    if isinstance(v, PoisonV):
        raise Unsupported(v.why)
    if isinstance(v, IteV):
        no_poison(v.a)
        no_poison(v.b)
    return v


def is_scalar(v):
    return isinstance(v, T)


class Interp:
    def __init__(self, project):
        self.project = project
        self.log = []
        self._oid = 0
        self._fid = 0
        self.depth = 0
        self.ret, self.brk, self.cont = [], [], []
        self.raises = [[]]
        self.loops = ()
        self.funcs_seen = set()
        self.calls_seen = 0
        self.stmts_seen = 0
        self.loops_seen = 0
        self.unsupported = []
        self.bounded = []
        self.modglobals = {}
        self.stack = []
        self.node = None
        from . import npmodel
        self.np = npmodel.NP(self)

    # ------------------------------------------------------------ utilities
    def loc(self, node=None):
        node = node or self.node
        fr = self.stack[-1] if self.stack else None
        return (fr.module.path if fr else '?', getattr(node, 'lineno', 0), fr.func.qual if fr and fr.func else '<module>')

    def event(self, st, kind, data, node=None):
        self.log.append(Event(kind, st.pc, self.loc(node), data, self.loops))

    def opaque(self, st, why, node=None):
        self.unsupported.append((self.loc(node), why))
        return t.app('opaque', t.lit(t.fresh(why)))

    def alloc(self, st, obj):
        self._oid += 1
        st.heap[self._oid] = obj
        return Ref(self._oid)

    def new_arr(self, st, arr):
        if isinstance(arr, Arr) and arr.rank == 0:
            return arr.body
        if isinstance(arr, Filt) and arr.mask is TRUE:
            arr = self.np.unfilter(arr)
        return self.alloc(st, ArrObj(arr))

    def new_list(self, st, vals):
        return self.alloc(st, ListObj([Seg((), TRUE, v) for v in vals]))

    def obj(self, st, v):
        return st.heap.get(v.oid) if isinstance(v, Ref) else None

    # ------------------------------------------------------------ merging
    def merge_val(self, c, a, b):
        if a is b or c is TRUE:
            return a
        if c is FALSE:
            return b
        if is_scalar(a) and is_scalar(b):
            return mk_ite(c, a, b)
        if type(a) is type(b):
            if isinstance(a, (Ref, AView, ExtV)) and a == b:
                return a
            if isinstance(a, TupleV) and len(a.items) == len(b.items):
                return TupleV([self.merge_val(c, x, y) for x, y in zip(a.items, b.items)], a.names)
            if isinstance(a, BoundV) and a.func is b.func and a.self_ == b.self_:
                return a
            if isinstance(a, RangeV):
                return RangeV(mk_ite(c, a.start, b.start), mk_ite(c, a.n, b.n), mk_ite(c, a.step, b.step))
            if isinstance(a, IteV) and a.c is b.c:
                return IteV(a.c, self.merge_val(c, a.a, b.a), self.merge_val(c, a.b, b.b))
        # absorb nested conditionals on the same gate
        if isinstance(a, IteV) and a.c is c:
            a = a.a
        if isinstance(b, IteV) and b.c is c:
            b = b.b
        if same_val(a, b):
            return a
        return IteV(c, a, b)

    def merge_obj(self, c, a, b):
        if a is b:
            return a
        if type(a) is type(b):
            if isinstance(a, InstObj) and a.cls is b.cls:
                d = {}
                for k in list(a.attrs) + [k for k in b.attrs if k not in a.attrs]:
                    d[k] = self.merge_val(c, a.attrs.get(k, UNBOUND), b.attrs.get(k, UNBOUND))
                return InstObj(a.cls, d)
            if isinstance(a, ArrObj):
                x, y = a.arr, b.arr
                if isinstance(x, Arr) and isinstance(y, Arr) and x.rank == y.rank:
                    dt = x.dtype if x.dtype == y.dtype else ('f' if 'f' in (x.dtype, y.dtype) else 'o')
                    return ArrObj(Arr([mk_ite(c, p, q) for p, q in zip(x.dims, y.dims)], mk_ite(c, x.body, y.body), dt), a.origin)
                if isinstance(x, Filt) and isinstance(y, Filt) and x.key() == y.key() and x.tail == y.tail:
                    r = ArrObj(Filt(x.dims, x.mask, mk_ite(c, x.body, y.body), x.tail, x.dtype), a.origin)
                    r.viewof = getattr(a, 'viewof', None)
                    return r
            if isinstance(a, ListObj):
                if len(a.segs) == len(b.segs) and all(p is q or (p.vars == q.vars and p.guard is q.guard) for p, q in zip(a.segs, b.segs)):
                    return type(a)([Seg(p.vars, p.guard, self.merge_val(c, p.value, q.value)) for p, q in zip(a.segs, b.segs)])
                k = 0
                while k < len(a.segs) and k < len(b.segs) and (a.segs[k] is b.segs[k] or
                        (a.segs[k].vars == b.segs[k].vars and a.segs[k].guard is b.segs[k].guard and same_val(a.segs[k].value, b.segs[k].value))):
                    k += 1
                if k and (k == len(a.segs) or k == len(b.segs)) and any(isinstance(s.value, PhiList) or s.vars for s in a.segs[:k]):
                    nc = bnot(c)
                    return type(a)(a.segs[:k] + tuple(Seg(s.vars, band(c, s.guard), s.value) for s in a.segs[k:]) +
                                   tuple(Seg(s.vars, band(nc, s.guard), s.value) for s in b.segs[k:]))
            if isinstance(a, DictObj) and a.phi == b.phi and a.default is b.default:
                if len(a.entries) == len(b.entries) and all(same_val(x[0], y[0]) for x, y in zip(a.entries, b.entries)):
                    return DictObj([(x[0], self.merge_val(c, x[1], y[1]), mk_ite(c, x[2], y[2])) for x, y in zip(a.entries, b.entries)], a.phi, a.default)
                n = min(len(a.entries), len(b.entries))
                if all(same_val(a.entries[i][0], b.entries[i][0]) for i in range(n)):
                    es = [(a.entries[i][0], self.merge_val(c, a.entries[i][1], b.entries[i][1]), mk_ite(c, a.entries[i][2], b.entries[i][2])) for i in range(n)]
                    es += [(k, v, band(c, g)) for k, v, g in a.entries[n:]]
                    es += [(k, v, band(bnot(c), g)) for k, v, g in b.entries[n:]]
                    return DictObj(es, a.phi, a.default)
            if isinstance(a, ExtObj) and a.term is b.term:
                return a
        return AltObj(c, a, b)

    def merge(self, s1, s2):
        if s1.dead:
            return s2
        if s2.dead:
            return s1
        pc = bor(s1.pc, s2.pc)
        c = restrict(s1.pc, pc)
        if c is TRUE:
            c = s1.pc
        s = State()
        s.pc = pc
        s.ctr = mk_ite(c, s1.ctr, s2.ctr)
        for fid in s1.frames:
            if fid not in s2.frames:
                s.frames[fid] = s1.frames[fid]
                continue
            e1, e2 = s1.frames[fid], s2.frames[fid]
            if e1 is e2:
                s.frames[fid] = e1
                continue
            d = {}
            for k in e1:
                d[k] = self.merge_val(c, e1[k], e2.get(k, UNBOUND))
            for k in e2:
                if k not in e1:
                    d[k] = self.merge_val(c, UNBOUND, e2[k])
            s.frames[fid] = d
        for fid in s2.frames:
            if fid not in s.frames:
                s.frames[fid] = s2.frames[fid]
        for oid, o in s1.heap.items():
            o2 = s2.heap.get(oid)
            s.heap[oid] = o if o2 is None or o2 is o else self.merge_obj(c, o, o2)
        for oid, o in s2.heap.items():
            if oid not in s.heap:
                s.heap[oid] = o
        return s

    def join(self, st, s1, r1, s2, r2):
        if s1.dead and s2.dead:
            st.dead = True
            raise Dead()
        if s1.dead:
            st.become(s2)
            return r2
        if s2.dead:
            st.become(s1)
            return r1
        pc = bor(s1.pc, s2.pc)
        c = restrict(s1.pc, pc)
        r = self.merge_val(c, r1, r2)
        st.become(self.merge(s1, s2))
        return r

    def fork(self, st, c, f1, f2):
        c = restrict(c, st.pc)
        if c is TRUE:
            return f1(st)
        if c is FALSE:
            return f2(st)
        s1, s2 = st.copy(), st.copy()
        s1.assume(c)
        s2.assume(bnot(c))
        r1 = r2 = None
        for s, f, w in ((s1, f1, 0), (s2, f2, 1)):
            if not s.dead:
                try:
                    r = f(s)
                    if w == 0:
                        r1 = r
                    else:
                        r2 = r
                except Dead:
                    s.dead = True
        return self.join(st, s1, r1, s2, r2)

    def lift(self, st, v, fn):
        if isinstance(v, IteV):
            return self.fork(st, v.c, lambda s: self.lift(s, v.a, fn), lambda s: self.lift(s, v.b, fn))
        if isinstance(v, Ref):
            o = st.heap.get(v.oid)
            if isinstance(o, AltObj):
                def g(x):
                    def h(s):
                        s.heap[v.oid] = x
                        return self.lift(s, v, fn)
                    return h
                return self.fork(st, o.c, g(o.a), g(o.b))
        if v is UNBOUND:
            self.do_raise(st, 'UnboundLocalError', t.lit('unbound'))
        return fn(st, v)

    # ------------------------------------------------------------ exceptions
    def do_raise(self, st, exc, value=None, node=None):
        self.event(st, 'raise', (exc, value), node)
        s = st.copy()
        self.raises[-1].append((s, exc, value, self.loc(node)))
        st.dead = True
        raise Dead()

    def maybe_raise(self, st, cond, exc, why, node=None):
        """raise exc where cond holds and continue where it does not"""
        cond = restrict(cond, st.pc)
        if cond is FALSE:
            return
        if cond is TRUE:
            self.do_raise(st, exc, t.lit(why), node)
        s = st.copy()
        s.assume(cond)
        if not s.dead:
            try:
                self.do_raise(s, exc, t.lit(why), node)
            except Dead:
                pass
        st.assume(bnot(cond))
        if st.dead:
            raise Dead()

    # ------------------------------------------------------------ truth
    def truth(self, st, v):
        def f(st, v):
            if is_scalar(v):
                return t.truthy(v)
            if isinstance(v, TupleV):
                return TRUE if v.items else FALSE
            a = None
            if isinstance(v, Ref):
                o = self.obj(st, v)
                if isinstance(o, ListObj):
                    return t.gt0(self.list_len(o))
                if isinstance(o, DictObj):
                    return TRUE if o.entries else FALSE
                if isinstance(o, ArrObj):
                    a = o.arr
                else:
                    return TRUE
            elif isinstance(v, AView):
                a = self.get_arr(st, v)
            elif isinstance(v, RangeV):
                return t.gt0(v.n)
            else:
                return TRUE
            # array truth value
            if isinstance(a, Filt):
                n = self.np.length(a)
                self.maybe_raise(st, bnot(t.eq(n, ONE)), 'ValueError', 'truth value of an array is ambiguous')
                return self.np.reduce_all_axes(a, 'any')
            bad = FALSE
            for d in a.dims:
                bad = bor(bad, bnot(t.eq(d, ONE)))
            self.maybe_raise(st, bad, 'ValueError', 'truth value of an array is ambiguous')
            return t.truthy(ix_map(a.body, {i: ZERO for i in range(a.rank)}))
        r = self.lift(st, v, f)
        return r if t.is_bool(r) else t.truthy(r)

    def list_len(self, o):
        n = ZERO
        for s in o.segs:
            if isinstance(s.value, PhiList):
                n = t.add(n, t.sym('len:' + s.value.name, 'int'))
                continue
            c = t.to_num(s.guard)
            for x, d in reversed(s.vars):
                c = t.mk_sum(x, d, c)
            n = t.add(n, c)
        return n

    # ------------------------------------------------------------ arrays
    def get_arr(self, st, v):
        """Arr/Filt snapshot of an array-like value, or None"""
        if is_scalar(v):
            dt = 'b' if t.is_bool(v) else ('i' if t.isint(v) else 'f')
            return Arr((), v, dt)
        if isinstance(v, Ref):
            o = self.obj(st, v)
            if isinstance(o, ArrObj):
                return o.arr
            if isinstance(o, ListObj):
                return self.segs_to_arr(st, o.segs)
            if isinstance(o, AltObj):
                segs = self.alt_segs(o)
                if segs is not None:
                    return self.segs_to_arr(st, segs)
            return None
        if isinstance(v, AView):
            o = st.heap[v.oid].arr
            if isinstance(o, Filt):
                return None
            return Arr(v.dims, ix_map(o.body, {k: m for k, m in enumerate(v.maps)}), o.dtype)
        if isinstance(v, TupleV):
            return self.segs_to_arr(st, [Seg((), TRUE, x) for x in v.items])
        if isinstance(v, RangeV):
            return Arr((v.n,), t.add(v.start, t.mul(v.step, t.ix(0))), 'i')
        if isinstance(v, IterV):
            k, items = self.iterate(st, v)
            if k == 'concrete':
                return self.segs_to_arr(st, [Seg((), TRUE, x) for x in items])
            return self.segs_to_arr(st, [items])
        if isinstance(v, IteV):
            a, b = self.get_arr(st, v.a), self.get_arr(st, v.b)
            if isinstance(a, Arr) and isinstance(b, Arr) and a.rank == b.rank:
                dt = a.dtype if a.dtype == b.dtype else ('f' if 'f' in (a.dtype, b.dtype) else 'o')
                return Arr([mk_ite(v.c, p, q) for p, q in zip(a.dims, b.dims)], mk_ite(v.c, a.body, b.body), dt)
        return None

    def alt_segs(self, o):
        """elements of a list of which one of several versions exists: shared prefix, then guarded rests"""
        if isinstance(o, ListObj):
            return None if any(s.vars or isinstance(s.value, PhiList) for s in o.segs) else list(o.segs)
        if not isinstance(o, AltObj):
            return None
        a, b = self.alt_segs(o.a), self.alt_segs(o.b)
        if a is None or b is None:
            return None
        k = 0
        while k < len(a) and k < len(b) and a[k].guard is b[k].guard and same_val(a[k].value, b[k].value):
            k += 1
        return a[:k] + [Seg((), band(o.c, s.guard), s.value) for s in a[k:]] + [Seg((), band(bnot(o.c), s.guard), s.value) for s in b[k:]]

    def segs_to_arr(self, st, segs):
        parts = []
        if len(segs) > 1 and all(not s.vars for s in segs) and not all(s.plain for s in segs):
            # single elements, some present only under a condition
            full = self.segs_to_arr(st, [Seg((), TRUE, s.value) for s in segs]) if not any(isinstance(s.value, PhiList) for s in segs) else None
            if not isinstance(full, Arr) or not full.rank:
                return None
            mask = segs[-1].guard
            for k in range(len(segs) - 2, -1, -1):
                mask = mk_ite(t.eq(t.ix(0), num(k)), segs[k].guard, mask)
            return Filt((full.dims[0],), mask, full.body, full.dims[1:], full.dtype)
        run = []
        for s in segs:
            if s.plain:
                run.append(s.value)
            else:
                if run:
                    parts.append(self.stack_vals(st, run))
                    run = []
                parts.append(self.seg_to_arr(st, s))
        if run:
            parts.append(self.stack_vals(st, run))
        if any(p is None for p in parts):
            return None
        if not parts:
            return Arr((ZERO,), ZERO, 'f')
        r = parts[0]
        for p in parts[1:]:
            r = self.np.concat2(r, p, 0)
            if r is None:
                return None
        return r

    def seg_to_arr(self, st, s):
        if isinstance(s.value, PhiList):
            return None
        a = self.get_arr(st, s.value)
        if a is None or isinstance(a, Filt):
            return None
        n = len(s.vars)
        body = ix_shift(a.body, 0, n)
        mp = {x: t.ix(i) for i, (x, d) in enumerate(s.vars)}
        body = t.subst(body, mp)
        guard = t.subst(s.guard, mp)
        dims = []
        for i, (x, d) in enumerate(s.vars):
            dims.append(t.subst(d, mp))
        tail = [ix_shift(d, 0, n) for d in a.dims]
        if n == 1 and guard is TRUE:
            return Arr(dims + tail, body, a.dtype)
        return Filt(dims, guard, body, tail, a.dtype)

    def stack_vals(self, st, vals):
        arrs = [self.get_arr(st, v) for v in vals]
        if any(a is None or isinstance(a, Filt) for a in arrs):
            return None
        r = arrs[0].rank
        if any(a.rank != r for a in arrs):
            return None
        body = ix_shift(arrs[-1].body, 0, 1)
        for k in range(len(arrs) - 2, -1, -1):
            body = mk_ite(t.eq(t.ix(0), num(k)), ix_shift(arrs[k].body, 0, 1), body)
        dt = arrs[0].dtype
        for a in arrs[1:]:
            if a.dtype != dt:
                dt = 'f' if a.dtype in 'fib' and dt in 'fib' else 'o'
                if {a.dtype, arrs[0].dtype} == {'i', 'b'}:
                    dt = 'i'
        return Arr((num(len(arrs)),) + tuple(arrs[0].dims), body, dt)

    def is_array(self, st, v):
        return isinstance(v, AView) or (isinstance(v, Ref) and isinstance(self.obj(st, v), ArrObj))

    # ------------------------------------------------------------ iteration
    def iterate(self, st, v):
        """('concrete', [values]) or ('sym', Seg)"""
        if isinstance(v, TupleV):
            return 'concrete', list(v.items)
        if isinstance(v, RangeV):
            if v.n.op == 'num':
                n = max(0, int(v.n.args[0]))
                if n <= MAX_UNROLL:
                    return 'concrete', [t.add(v.start, t.mul(v.step, num(k))) for k in range(n)]
            i = t.sym(t.fresh('i'), 'int')
            t.NONNEG_SYMS.add(i.args[0])
            return 'sym', Seg(((i, v.n),), TRUE, t.add(v.start, t.mul(v.step, i)))
        if isinstance(v, IterV):
            if v.kind in ('zip', 'enumerate'):
                parts = [self.iterate(st, p) for p in v.parts]
                if v.kind == 'enumerate':
                    k, x = parts[0]
                    if k == 'concrete':
                        return k, [TupleV([t.add(v.extra, num(i)), y]) for i, y in enumerate(x)]
                    if len(x.vars) == 1 and x.guard is TRUE:
                        return k, Seg(x.vars, TRUE, TupleV([t.add(v.extra, x.vars[0][0]), x.value]))
                    idx = self.rank_of(x)
                    return k, Seg(x.vars, x.guard, TupleV([t.add(v.extra, idx), x.value]))
                if all(k == 'concrete' for k, _ in parts):
                    n = min(len(x) for _, x in parts) if parts else 0
                    return 'concrete', [TupleV([x[i] for _, x in parts]) for i in range(n)]
                if all(k == 'sym' for k, _ in parts) and all(len(x.vars) == 1 and x.guard is TRUE for _, x in parts):
                    base = parts[0][1]
                    i, d = base.vars[0]
                    vals = [base.value]
                    for _, x in parts[1:]:
                        vals.append(self.subst_val(x.value, {x.vars[0][0]: i}))
                        e = x.vars[0][1]
                        if e is not d and not t.nonneg(t.sub(e, d)):
                            d = e if t.nonneg(t.sub(d, e)) else t.max2([d, e], 'min')
                    return 'sym', Seg(((i, d),), TRUE, TupleV(vals))
                # a concrete list zipped with a symbolic one of matching length
                if any(k == 'concrete' for k, _ in parts):
                    n = min(len(x) for k, x in parts if k == 'concrete')
                    rows = []
                    for j in range(n):
                        row = []
                        for k, x in parts:
                            if k == 'concrete':
                                row.append(x[j])
                            elif len(x.vars) == 1 and x.guard is TRUE:
                                row.append(self.subst_val(x.value, {x.vars[0][0]: num(j)}))
                            else:
                                raise Unsupported('zip of filtered sequence')
                        rows.append(TupleV(row))
                    return 'concrete', rows
                # same filter domain
                b = parts[0][1]
                if all(len(x.vars) == len(b.vars) for _, x in parts):
                    vals = []
                    for _, x in parts:
                        m = {x.vars[q][0]: b.vars[q][0] for q in range(len(b.vars))}
                        if t.subst(x.guard, m) is not b.guard:
                            raise Unsupported('zip of different filters')
                        vals.append(self.subst_val(x.value, m))
                    return 'sym', Seg(b.vars, b.guard, TupleV(vals))
                raise Unsupported('zip')
            if v.kind == 'reversed':
                k, x = self.iterate(st, v.parts[0])
                if k == 'concrete':
                    return k, list(reversed(x))
                i, d = x.vars[0]
                if len(x.vars) == 1 and x.guard is TRUE:
                    return k, Seg(x.vars, TRUE, self.subst_val(x.value, {i: t.sub(t.sub(d, ONE), i)}))
                raise Unsupported('reversed filter')
            if v.kind == 'list':
                return 'concrete', list(v.parts)
        if isinstance(v, Ref):
            o = self.obj(st, v)
            if isinstance(o, ListObj):
                if o.concrete and not any(isinstance(s.value, PhiList) for s in o.segs):
                    return 'concrete', o.items()
                if len(o.segs) == 1 and not isinstance(o.segs[0].value, PhiList):
                    return 'sym', self.freshen(o.segs[0])
                a = self.segs_to_arr(st, o.segs)
                if a is None:
                    raise Unsupported('iteration over mixed list')
                return 'sym', self.arr_seg(st, a)
            if isinstance(o, DictObj):
                if o.phi is None and all(g is TRUE for _, _, g in o.entries):
                    return 'concrete', [k for k, _, _ in o.entries]
                raise Unsupported('iteration over symbolic dict')
            if isinstance(o, ArrObj):
                a = o.arr
                if isinstance(a, Arr) and a.dims and a.dims[0].op == 'num' and a.dims[0].args[0] <= MAX_UNROLL:
                    return 'concrete', [self.index(st, v, [num(k)]) for k in range(int(a.dims[0].args[0]))]
                if isinstance(a, Arr) and a.rank > 1:
                    i = t.sym(t.fresh('i'), 'int')
                    t.NONNEG_SYMS.add(i.args[0])
                    return 'sym', Seg(((i, a.dims[0]),), TRUE, self.index(st, v, [i]))
                return 'sym', self.arr_seg(st, a)
            if isinstance(o, ExtObj):
                return 'sym', self.opaque_seg(o)
        if isinstance(v, AView):
            if v.dims and v.dims[0].op == 'num' and v.dims[0].args[0] <= MAX_UNROLL:
                return 'concrete', [self.index(st, v, [num(k)]) for k in range(int(v.dims[0].args[0]))]
            i = t.sym(t.fresh('i'), 'int')
            t.NONNEG_SYMS.add(i.args[0])
            return 'sym', Seg(((i, v.dims[0]),), TRUE, self.index(st, v, [i]))
        if is_scalar(v):
            if v.op == 'lit' and isinstance(v.args[0].v, str):
                return 'concrete', [lit(ch) for ch in v.args[0].v]
            if v.op == 'app' and v.args[0] == 'listterm':
                pass
            if v.op in ('num', 'bool') or (v.op == 'lit' and v.args[0].v is None) or t.isint(v):
                self.do_raise(st, 'TypeError', t.lit('object is not iterable'))
        raise Unsupported('iteration over %r' % (v,))

    def rank_of(self, seg):
        """number of selected points before this one; only canonical for one variable"""
        if len(seg.vars) == 1:
            x, d = seg.vars[0]
            k = t.sym(t.fresh('k'), 'int')
            return t.mk_sum(k, d, band(t.subst(seg.guard, {x: k}), t.gt(x, k)))
        return t.app('opaque', t.lit(t.fresh('rank')))

    def opaque_seg(self, o):
        i = t.sym(t.fresh('i'), 'int')
        t.NONNEG_SYMS.add(i.args[0])
        n = t.app('len', o.term)
        return Seg(((i, n),), TRUE, t.app('item', o.term, i))

    def arr_seg(self, st, a):
        if isinstance(a, Arr):
            i = t.sym(t.fresh('i'), 'int')
            t.NONNEG_SYMS.add(i.args[0])
            m = {0: i}
            for k in range(1, a.rank):
                m[k] = t.ix(k - 1)
            if a.rank > 1:
                ref = self.new_arr(st, a)
                return Seg(((i, a.dims[0]),), TRUE, AView(ref.oid, [i] + [t.ix(k) for k in range(a.rank - 1)],
                                                         [ix_map(d, m) for d in a.dims[1:]]))
            return Seg(((i, a.dims[0]),), TRUE, ix_map(a.body, m))
        n = len(a.dims)
        xs = []
        for k in range(n):
            i = t.sym(t.fresh('i'), 'int')
            t.NONNEG_SYMS.add(i.args[0])
            xs.append(i)
        m = {k: xs[k] for k in range(n)}
        for k in range(len(a.tail)):
            m[n + k] = t.ix(k)
        if not a.tail:
            sub = ix_map(a.body, m)
        else:
            # family of rows indexed by the selected point
            ref = self.new_arr(st, Arr(tuple(a.dims) + tuple(a.tail), a.body, a.dtype))
            sub = AView(ref.oid, xs + [t.ix(k) for k in range(len(a.tail))], [ix_map(d, m) for d in a.tail])
        return Seg([(xs[k], ix_map(a.dims[k], m)) for k in range(n)], ix_map(a.mask, m), sub)

    def freshen(self, s):
        m = {}
        vs = []
        for x, d in s.vars:
            i = t.sym(t.fresh('i'), 'int')
            t.NONNEG_SYMS.add(i.args[0])
            vs.append((i, t.subst(d, m)))
            m[x] = i
        return Seg(vs, t.subst(s.guard, m), self.subst_val(s.value, m))

    def subst_val(self, v, m):
        """substitute index symbols in a value"""
        if is_scalar(v):
            return t.subst(v, m)
        if isinstance(v, TupleV):
            return TupleV([self.subst_val(x, m) for x in v.items], v.names)
        if isinstance(v, AView):
            return AView(v.oid, [t.subst(x, m) for x in v.maps], [t.subst(d, m) for d in v.dims])
        if isinstance(v, IteV):
            c = t.subst(v.c, m)
            if c is TRUE:
                return self.subst_val(v.a, m)
            if c is FALSE:
                return self.subst_val(v.b, m)
            return IteV(c, self.subst_val(v.a, m), self.subst_val(v.b, m))
        if isinstance(v, RangeV):
            return RangeV(t.subst(v.start, m), t.subst(v.n, m), t.subst(v.step, m))
        return v

    # ------------------------------------------------------------ indexing
    def norm_index(self, i, dim):
        """python index semantics for a scalar index"""
        i = t.to_num(i)
        def f(l):
            if l.op == 'num' and l.args[0] < 0:
                return t.add(dim, l)
            n = t._lmul(num(-1), l) if l.op not in ('inf', 'nan', 'lit') else None
            if n is not None and t.positive(n):
                return t.add(dim, l)
            if n is not None and t.nonneg(n) and l.op != 'num':
                return mk_ite(t.gt0(n), t.add(dim, l), l)
            return l
        return t.apply1(f, i)

    def norm_slice(self, s, dim):
        """(start, length, reversed?)"""
        step = s.c if s.c is not None else ONE
        if step is NONE:
            step = ONE
        if step is ONE:
            start = ZERO if s.a is None or s.a is NONE else self.norm_bound(s.a, dim)
            if s.b is None or s.b is NONE:
                return start, t.sub(dim, start), 1
            stop = self.norm_bound(s.b, dim)
            if stop is dim:
                return start, t.sub(dim, start), 1
            # clip the stop at the dimension unless it is provably inside
            if not inside(stop, dim):
                stop = t.max2([stop, dim], 'min')
            ln = t.sub(stop, start)
            if not all(t.nonneg(l) for l in t.leaves(ln)):
                d = t.sub(dim, ln)
                ln2 = ln
                if not t.nonneg(ln2):
                    ln = clip0(ln)
            return start, ln, 1
        if step.op == 'num' and step.args[0] == -1 and (s.a is None or s.a is NONE) and (s.b is None or s.b is NONE):
            return t.sub(dim, ONE), dim, -1
        if step.op == 'num' and step.args[0] > 1:
            k = int(step.args[0])
            start, ln, _ = self.norm_slice(SliceV(s.a, s.b, None), dim)
            return start, t.floordiv(t.add(ln, num(k - 1)), num(k)), k
        raise Unsupported('slice step')

    def norm_bound(self, b, dim):
        b = t.to_num(b)
        def f(l):
            if l.op == 'num':
                return t.add(dim, l) if l.args[0] < 0 else l
            n = t._lmul(num(-1), l) if l.op not in ('inf', 'nan', 'lit') else None
            if n is not None and t.positive(n):
                return t.add(dim, l)
            if n is not None and t.nonneg(n):
                return mk_ite(t.gt0(n), t.add(dim, l), ZERO)
            return l
        return t.apply1(f, b)

    def index(self, st, v, comps):
        """read v[comps] for an array value"""
        return self.np.index_read(st, v, comps)

    def eval_index(self, st, node, fr):
        if isinstance(node, ast.Tuple):
            return TupleV([self.eval_index(st, e, fr) for e in node.elts])
        if isinstance(node, ast.Slice):
            return SliceV(self.eval(st, node.lower, fr) if node.lower else None,
                          self.eval(st, node.upper, fr) if node.upper else None,
                          self.eval(st, node.step, fr) if node.step else None)
        if isinstance(node, ast.Starred):
            raise Unsupported('starred index')
        return self.eval(st, node, fr)

    def getitem(self, st, v, idx):
        def f(st, v):
            if isinstance(idx, IteV):
                return self.lift(st, idx, lambda s, i: self.getitem(s, v, i))
            if self.is_array(st, v):
                comps = list(idx.items) if isinstance(idx, TupleV) else [idx]
                for k, c in enumerate(comps):
                    if isinstance(c, IteV):
                        def g(s, cc, k=k):
                            cs = list(comps)
                            cs[k] = cc
                            return self.getitem(s, v, TupleV(cs))
                        return self.lift(st, c, g)
                return self.index(st, v, comps)
            if isinstance(v, TupleV):
                return self.seq_item(st, list(v.items), idx, tuple_=True)
            if isinstance(v, RangeV):
                if isinstance(idx, SliceV):
                    raise Unsupported('range slice')
                return t.add(v.start, t.mul(v.step, self.norm_index(idx, v.n)))
            if isinstance(v, Ref):
                o = self.obj(st, v)
                if isinstance(o, ListObj):
                    if o.concrete and not any(isinstance(s.value, PhiList) for s in o.segs):
                        return self.seq_item(st, o.items(), idx)
                    return self.symlist_item(st, v, o, idx)
                if isinstance(o, DictObj):
                    if o.default is not None:
                        def yes(s):
                            return self.dict_get(s, self.obj(s, v), idx)
                        def no(s):
                            d = self.call(s, o.default, [], {})
                            self.dict_set(s, v, idx, d)
                            return d
                        return self.fork(st, self.dict_has(st, o, idx), yes, no)
                    return self.dict_get(st, o, idx)
                if isinstance(o, ExtObj):
                    return t.app('item', o.term, self.term_of(st, idx))
                if isinstance(o, InstObj):
                    m, c = o.cls.lookup('__getitem__')
                    if m is not None:
                        return self.call(st, BoundV(m, v), [idx], {})
                    self.do_raise(st, 'TypeError', t.lit('object is not subscriptable'))
            if is_scalar(v):
                if v.op == 'lit' and isinstance(v.args[0].v, str):
                    if is_scalar(idx) and idx.op == 'num':
                        return lit(v.args[0].v[int(idx.args[0])])
                if v.op in ('num', 'bool') or v is NONE or (v.op == 'sym' and v.args[1] in ('int', 'num', 'bool')):
                    self.do_raise(st, 'TypeError', t.lit('object is not subscriptable'))
                return t.app('item', v, self.term_of(st, idx))
            if isinstance(v, ExtV):
                return ExtV(v.name + '[]')
            if isinstance(v, IterV):
                k, x = self.iterate(st, v)
                if k == 'concrete':
                    return self.seq_item(st, x, idx)
            raise Unsupported('subscript of %r' % (v,))
        return self.lift(st, v, f)

    def seq_item(self, st, items, idx, tuple_=False):
        if isinstance(idx, SliceV):
            def c(x, d):
                if x is None or x is NONE:
                    return d
                if is_scalar(x) and x.op == 'num':
                    return int(x.args[0])
                raise Unsupported('symbolic slice of concrete list')
            sub = items[slice(c(idx.a, None), c(idx.b, None), c(idx.c, None))]
            return TupleV(sub) if tuple_ else self.new_list(st, sub)
        idx = t.to_num(idx) if is_scalar(idx) else idx
        if is_scalar(idx) and idx.op == 'num':
            k = int(idx.args[0])
            if -len(items) <= k < len(items):
                return items[k]
            self.do_raise(st, 'IndexError', t.lit('index out of range'))
        if is_scalar(idx) and items:
            # symbolic index into a concrete list: gated selection
            def sel(s, k):
                if k == len(items) - 1:
                    return items[k]
                return self.fork(s, t.eq(idx, num(k)), lambda s1: items[k], lambda s2: sel(s2, k + 1))
            return sel(st, 0)
        raise Unsupported('index %r' % (idx,))

    def symlist_item(self, st, v, o, idx):
        segs = o.segs
        if len(segs) == 1 and not isinstance(segs[0].value, PhiList):
            s = segs[0]
            if isinstance(idx, SliceV):
                if len(s.vars) == 1 and s.guard is TRUE:
                    x, d = s.vars[0]
                    start, ln, sg = self.norm_slice(idx, d)
                    i = t.sym(t.fresh('i'), 'int')
                    t.NONNEG_SYMS.add(i.args[0])
                    val = self.subst_val(s.value, {x: t.add(start, t.mul(num(sg), i))})
                    return self.alloc(st, ListObj([Seg(((i, ln),), TRUE, val)]))
                if len(s.vars) == 1:
                    x, d = s.vars[0]
                    k = t.sym(t.fresh('k'), 'int')
                    start, ln, sg = self.norm_slice(idx, t.mk_sum(k, d, t.to_num(t.subst(s.guard, {x: k}))))
                    if sg == 1:
                        rank = self.rank_of(s)
                        return self.alloc(st, ListObj([Seg(s.vars, t.conj([s.guard, t.ge(rank, start), t.gt(t.add(start, ln), rank)]), s.value)]))
                raise Unsupported('slice of filtered list')
            if len(s.vars) == 1 and s.guard is TRUE:
                x, d = s.vars[0]
                if idx.op == 'num' and idx.args[0] >= 0 and d.op != 'num':
                    pass
                return self.subst_val(s.value, {x: self.norm_index(idx, d)})
        a = self.segs_to_arr(st, segs)
        if a is not None:
            r = self.new_arr(st, a)
            out = self.getitem(st, r, idx)
            return out
        # last element of a list that ends in a plain segment
        if is_scalar(idx) and idx.op == 'num' and idx.args[0] < 0 and len(segs) >= -int(idx.args[0]):
            k = int(idx.args[0])
            if all(s.plain for s in segs[k:]) and not isinstance(segs[k].value, PhiList):
                return segs[k].value
        if is_scalar(idx) and idx.op == 'num' and idx.args[0] >= 0:
            k = int(idx.args[0])
            if k < len(segs) and all(s.plain and not isinstance(s.value, PhiList) for s in segs[:k + 1]):
                return segs[k].value
        raise Unsupported('item of mixed list')

    def key_eq(self, st, a, b):
        if is_scalar(a) and is_scalar(b):
            return t.eq(a, b)
        if isinstance(a, TupleV) and isinstance(b, TupleV):
            if len(a.items) != len(b.items):
                return FALSE
            r = TRUE
            for x, y in zip(a.items, b.items):
                r = band(r, self.key_eq(st, x, y))
            return r
        if isinstance(a, Ref) and isinstance(b, Ref):
            return TRUE if a == b else FALSE
        if same_val(a, b):
            return TRUE
        try:
            return t.eq(self.term_of(st, a), self.term_of(st, b))
        except Unsupported:
            return FALSE

    def dict_get(self, st, o, key, default=None):
        if o.phi is not None:
            pass
        def go(s, k):
            if k < 0:
                if o.phi is not None:
                    return t.app('dictitem', t.sym(o.phi, 'obj'), self.term_of(s, key))
                if default is not None:
                    return default
                self.do_raise(s, 'KeyError', t.lit('key'))
            kk, vv, g = o.entries[k]
            c = band(g, self.key_eq(s, kk, key))
            return self.fork(s, c, lambda s1: vv, lambda s2: go(s2, k - 1))
        return go(st, len(o.entries) - 1)

    def dict_has(self, st, o, key):
        r = FALSE
        for kk, vv, g in o.entries:
            r = bor(r, band(g, self.key_eq(st, kk, key)))
        if o.phi is not None:
            r = bor(r, t.app('in', t.sym(o.phi, 'obj'), self.term_of(st, key)))
        return r

    def dict_set(self, st, ref, key, val):
        o = self.obj(st, ref)
        es = list(o.entries)
        for k, (kk, vv, g) in enumerate(es):
            c = self.key_eq(st, kk, key)
            if c is TRUE:
                es[k] = (kk, self.merge_val(TRUE, val, vv), TRUE)
                st.heap[ref.oid] = DictObj(es, o.phi, o.default)
                return
        es.append((key, val, TRUE))
        st.heap[ref.oid] = DictObj(es, o.phi, o.default)

    def setitem(self, st, v, idx, val):
        def f(st, v):
            if isinstance(idx, IteV):
                return self.lift(st, idx, lambda s, i: self.setitem(s, v, i, val))
            if isinstance(val, IteV):
                return self.lift(st, val, lambda s, x: self.setitem(s, v, idx, x))
            if self.is_array(st, v):
                comps = list(idx.items) if isinstance(idx, TupleV) else [idx]
                for k, c in enumerate(comps):
                    if isinstance(c, IteV):
                        def g(s, cc, k=k):
                            cs = list(comps)
                            cs[k] = cc
                            return self.setitem(s, v, TupleV(cs), val)
                        return self.lift(st, c, g)
                self.np.index_write(st, v, comps, val)
                return NONE
            if isinstance(v, Ref):
                o = self.obj(st, v)
                if isinstance(o, ListObj):
                    if o.concrete and not any(isinstance(s.value, PhiList) for s in o.segs) and is_scalar(idx):
                        i2 = t.to_num(idx)
                        items = o.items()
                        if i2.op == 'num':
                            k = int(i2.args[0])
                            if not -len(items) <= k < len(items):
                                self.do_raise(st, 'IndexError', t.lit('assignment index out of range'))
                            items[k] = val
                        else:
                            for k in range(len(items)):
                                items[k] = self.merge_val(t.eq(i2, num(k)), val, items[k])
                        st.heap[v.oid] = ListObj([Seg((), TRUE, x) for x in items])
                        return NONE
                    if len(o.segs) == 1 and len(o.segs[0].vars) == 1 and o.segs[0].guard is TRUE and is_scalar(idx):
                        s = o.segs[0]
                        x, d = s.vars[0]
                        c = t.eq(x, self.norm_index(idx, d))
                        st.heap[v.oid] = ListObj([Seg(s.vars, TRUE, self.merge_val(c, val, s.value))])
                        return NONE
                    raise Unsupported('list store')
                if isinstance(o, DictObj):
                    self.dict_set(st, v, idx, val)
                    return NONE
                if isinstance(o, ExtObj):
                    self.event(st, 'extset', (o.term, idx, val))
                    return NONE
                if isinstance(o, InstObj):
                    m, c = o.cls.lookup('__setitem__')
                    if m is not None:
                        return self.call(st, BoundV(m, v), [idx, val], {})
            if is_scalar(v) and v.op not in ('lit', 'num', 'bool'):
                self.event(st, 'extset', (v, idx, val))
                return NONE
            self.do_raise(st, 'TypeError', t.lit('object does not support item assignment'))
        return self.lift(st, v, f)

    # ------------------------------------------------------------ terms of values
    def term_of(self, st, v):
        """closed term describing a value by content (for events, keys, equality)"""
        if is_scalar(v):
            return v
        if isinstance(v, TupleV):
            return t.app('tuple', *[self.term_of(st, x) for x in v.items])
        if isinstance(v, AView) or (isinstance(v, Ref) and isinstance(self.obj(st, v), ArrObj)):
            a = self.get_arr(st, v)
            if isinstance(a, Arr):
                if not a.dims:
                    return a.body
                return t.lam(a.dims, a.body)
            if isinstance(a, Filt):
                return t.mk('filt', t.lam(a.dims, t.mk('pair', a.mask, a.body if not a.tail else t.app('tail', a.body))))
        if isinstance(v, Ref):
            o = self.obj(st, v)
            if isinstance(o, ListObj):
                if o.concrete and not any(isinstance(s.value, PhiList) for s in o.segs):
                    return t.app('listterm', *[self.term_of(st, x) for x in o.items()])
                a = self.segs_to_arr(st, o.segs)
                if isinstance(a, Arr):
                    return t.lam(a.dims, a.body)
                if isinstance(a, Filt):
                    return t.mk('filt', t.lam(a.dims, t.mk('pair', a.mask, a.body)))
            if isinstance(o, ExtObj):
                return o.term
            if isinstance(o, InstObj):
                return t.app('obj', t.lit('%s@%d' % (o.cls.name, v.oid)))
            if isinstance(o, DictObj):
                if o.phi is None:
                    return t.app('dict', *[t.app('tuple', self.term_of(st, k), self.term_of(st, x)) for k, x, g in o.entries])
                return t.sym(o.phi, 'obj')
            if isinstance(o, AltObj):
                s1, s2 = st.copy(), st.copy()
                s1.heap[v.oid], s2.heap[v.oid] = o.a, o.b
                return mk_ite(o.c, self.term_of(s1, v), self.term_of(s2, v))
        if isinstance(v, IteV):
            return mk_ite(v.c, self.term_of(st, v.a), self.term_of(st, v.b))
        if isinstance(v, ExtV):
            return t.lit('ext:' + v.name)
        if isinstance(v, RangeV):
            return t.lam((v.n,), t.add(v.start, t.mul(v.step, t.ix(0))))
        if isinstance(v, (FuncV, ClassV)):
            return t.lit('def:' + (v.qual if isinstance(v, FuncV) else v.name))
        if isinstance(v, SliceV):
            return t.app('slice', *[NONE if x is None else self.term_of(st, x) for x in (v.a, v.b, v.c)])
        if isinstance(v, BoundV):
            return t.lit('bound:%r' % (v.func,))
        if isinstance(v, IterV):
            return t.app('opaque', t.lit(t.fresh('iter')))
        if isinstance(v, PhiList):
            return t.app('opaque', t.lit(v.name))
        return t.app('opaque', t.lit(t.fresh('value')))

    # ------------------------------------------------------------ attributes
    def mangle(self, name, fr):
        if name.startswith('__') and not name.endswith('__') and fr is not None and fr.cls is not None:
            return '_%s%s' % (fr.cls.name.lstrip('_'), name)
        return name

    def getattr(self, st, v, name):
        def f(st, v):
            if isinstance(v, Ref):
                o = self.obj(st, v)
                if isinstance(o, InstObj):
                    m, c = o.cls.lookup(name)
                    if isinstance(m, PropV):
                        return self.call(st, m.fget, [v], {})
                    if name in o.attrs:
                        x = o.attrs[name]
                        if isinstance(x, IteV) or x is UNBOUND:
                            def g(s, y):
                                return y
                            if contains_unbound(x):
                                return self.lift_attr(st, x, name)
                        return x
                    if m is not None:
                        if isinstance(m, FuncV):
                            return BoundV(m, v)
                        if isinstance(m, StaticV):
                            return m.f if m.kind == 'static' else BoundV(m.f, o.cls)
                        return m
                    if name == '__class__':
                        return o.cls
                    if name == '__dict__':
                        return self.alloc(st, DictObj([(lit(k), x, TRUE) for k, x in o.attrs.items()]))
                    ga, c = o.cls.lookup('__getattr__')
                    if ga is not None:
                        return self.call(st, BoundV(ga, v), [lit(name)], {})
                    if name in ('__init__',):
                        return ExtV('object.' + name)
                    self.event(st, 'attrerror', (o.cls.name, name))
                    self.do_raise(st, 'AttributeError', t.lit(name))
                if isinstance(o, (ArrObj,)):
                    return self.np.attr(st, v, name)
                if isinstance(o, (ListObj, DictObj)):
                    return MethV(name, v)
                if isinstance(o, ExtObj):
                    if name in o.attrs:
                        return o.attrs[name]
                    return MethV(name, v)
            if isinstance(v, AView):
                return self.np.attr(st, v, name)
            if isinstance(v, TupleV):
                if v.names and name in v.names:
                    return v.items[v.names.index(name)]
                return MethV(name, v)
            if isinstance(v, ModV):
                g = self.project_globals(v.mod)
                if name in g:
                    return g[name]
                sub = self.project.modules.get(v.mod.name + '.' + name)
                if sub is not None:
                    return ModV(sub)
                self.event(st, 'attrerror', (v.mod.name, name))
                self.do_raise(st, 'AttributeError', t.lit(name))
            if isinstance(v, ClassV):
                m, c = v.lookup(name)
                if m is not None:
                    if isinstance(m, StaticV):
                        return m.f if m.kind == 'static' else BoundV(m.f, v)
                    return m
                if name == '__name__':
                    return lit(v.name)
                if name == '__init__':
                    return ExtV('object.__init__')
                self.event(st, 'attrerror', (v.name, name))
                self.do_raise(st, 'AttributeError', t.lit(name))
            if isinstance(v, SuperV):
                o = self.obj(st, v.self_) if isinstance(v.self_, Ref) else None
                cls = o.cls if isinstance(o, InstObj) else v.self_
                m, c = cls.lookup(name, after=v.cls)
                if m is not None:
                    if isinstance(m, FuncV):
                        return BoundV(m, v.self_)
                    if isinstance(m, PropV):
                        return self.call(st, m.fget, [v.self_], {})
                    if isinstance(m, StaticV):
                        return m.f
                    return m
                return ExtV('object.' + name)
            if isinstance(v, ExtV):
                return self.np.ext_attr(st, v, name)
            if isinstance(v, (FuncV, BoundV)):
                if name == '__name__':
                    return lit((v.node if isinstance(v, FuncV) else v.func.node).name)
                return ExtV('func.' + name)
            if is_scalar(v):
                if v.op == 'app' and v.args[0] in ('ext', 'item', 'extattr', 'opaque') or (v.op == 'sym' and v.args[1] == 'obj'):
                    return MethV(name, v)
                if v is NONE:
                    self.event(st, 'attrerror', ('None', name))
                    self.do_raise(st, 'AttributeError', t.lit(name))
                if v.op == 'ite' and any(l is NONE for l in t.leaves(v)):
                    c = t.apply1(lambda l: TRUE if l is NONE else FALSE, v)
                    return self.fork(st, c, lambda s: self.getattr(s, NONE, name), lambda s: self.getattr(s, restrict(v, bnot(c)), name))
                return self.np.scalar_attr(st, v, name)
            if isinstance(v, (RangeV, IterV)):
                return MethV(name, v)
            raise Unsupported('attribute %s of %r' % (name, v))
        return self.lift(st, v, f)

    def lift_attr(self, st, x, name):
        if isinstance(x, IteV):
            return self.fork(st, x.c, lambda s: self.lift_attr(s, x.a, name), lambda s: self.lift_attr(s, x.b, name))
        if x is UNBOUND:
            self.event(st, 'attrerror', ('instance', name))
            self.do_raise(st, 'AttributeError', t.lit(name))
        return x

    def setattr(self, st, v, name, val):
        def f(st, v):
            if isinstance(v, Ref):
                o = self.obj(st, v)
                if isinstance(o, InstObj):
                    m, c = o.cls.lookup(name)
                    if isinstance(m, PropV):
                        if m.fset is None:
                            self.event(st, 'attrerror', (o.cls.name, name))
                            self.do_raise(st, 'AttributeError', t.lit("can't set " + name))
                        self.call(st, m.fset, [v, val], {})
                        return NONE
                    self.event(st, 'setattr', (v.oid, o.cls.name, name, val))
                    st.heap[v.oid] = st.heap[v.oid].with_attr(name, val)
                    return NONE
                if isinstance(o, ExtObj):
                    d = dict(o.attrs)
                    d[name] = val
                    st.heap[v.oid] = ExtObj(o.kind, o.term, d)
                    return NONE
            if isinstance(v, ClassV):
                self.event(st, 'classattr', (v.name, name, val))
                v.ns[name] = val
                return NONE
            if is_scalar(v) and v is not NONE:
                return NONE
            if isinstance(v, ExtV):
                return NONE
            if self.is_array(st, v):
                if name == 'shape':
                    raise Unsupported('shape assignment')
            self.do_raise(st, 'AttributeError', t.lit(name))
        return self.lift(st, v, f)

    # ------------------------------------------------------------ names
    def project_globals(self, mod):
        g = self.modglobals.get(mod.name)
        if g is None:
            g = self.modglobals[mod.name] = {}
            self.exec_module(mod, g)
        return g

    def exec_module(self, mod, g):
        st = self.genesis
        fid = ('mod', mod.name)
        st.frames[fid] = g
        fr = Frame(fid, None, mod, None)
        fr.closure = True
        self.stack.append(fr)
        saved = self.raises, self.loops
        self.raises, self.loops = [[]], ()
        try:
            for s in mod.tree.body:
                try:
                    self.exec(st, s, fr)
                except Dead:
                    pass
                st.dead = False
                st.pc = TRUE
                st.frames[fid] = g if st.frames.get(fid) is g else (g.update(st.frames[fid]) or g)
        finally:
            self.stack.pop()
            self.raises, self.loops = saved

    def lookup(self, st, name, fr, node=None):
        env = st.frames.get(fr.fid, {})
        if name in env and name not in fr.globals_:
            v = env[name]
            if v is UNBOUND or contains_unbound(v):
                def g(s, x):
                    return x
                return self.lift(st, v, g)
            return v
        f = fr
        fid = fr.func.fid if fr.func is not None else None
        seen = 0
        while fid is not None and seen < 20:
            seen += 1
            e = st.frames.get(fid)
            if e is not None and name in e:
                return e[name]
            par = self.closure_parent.get(fid)
            fid = par
        g = self.project_globals(fr.module)
        if name in g:
            return g[name]
        b = self.np.builtin(name)
        if b is not None:
            return b
        self.event(st, 'nameerror', (name,))
        self.do_raise(st, 'NameError', t.lit(name))

    closure_parent = {}

    def assign_name(self, st, name, val, fr):
        if name in fr.globals_:
            self.project_globals(fr.module)[name] = val
            self.event(st, 'globalset', (fr.module.name, name, val))
            return
        if name in fr.nonlocals:
            fid = fr.func.fid
            while fid is not None:
                e = st.frames.get(fid)
                if e is not None and name in e:
                    e[name] = val
                    return
                fid = self.closure_parent.get(fid)
        st.frames[fr.fid][name] = val

    # ------------------------------------------------------------ assignment
    def assign(self, st, target, val, fr):
        if isinstance(target, ast.Name):
            self.assign_name(st, target.id, val, fr)
        elif isinstance(target, ast.Attribute):
            o = self.eval(st, target.value, fr)
            self.setattr(st, o, self.mangle(target.attr, fr), val)
        elif isinstance(target, ast.Subscript):
            o = self.eval(st, target.value, fr)
            i = self.eval_index(st, target.slice, fr)
            self.setitem(st, o, i, val)
        elif isinstance(target, (ast.Tuple, ast.List)):
            self.unpack(st, target.elts, val, fr)
        elif isinstance(target, ast.Starred):
            self.assign(st, target.value, val, fr)
        else:
            raise Unsupported('assign target')

    def unpack(self, st, elts, val, fr):
        def f(st, v):
            n = len(elts)
            star = [k for k, e in enumerate(elts) if isinstance(e, ast.Starred)]
            items = None
            if isinstance(v, TupleV):
                items = list(v.items)
            elif isinstance(v, Ref) and isinstance(self.obj(st, v), ListObj) and self.obj(st, v).concrete:
                items = self.obj(st, v).items()
            elif isinstance(v, IterV):
                k, x = self.iterate(st, v)
                if k == 'concrete':
                    items = x
            elif self.is_array(st, v):
                a = self.get_arr(st, v)
                if isinstance(a, Arr):
                    d = a.dims[0]
                    if not star:
                        self.maybe_raise(st, bnot(t.eq(d, num(n))), 'ValueError', 'unpack size') if d.op == 'num' else None
                        items = [self.index(st, v, [num(k)]) for k in range(n)]
            elif is_scalar(v):
                if v.op in ('num', 'bool') or v is NONE:
                    self.do_raise(st, 'TypeError', t.lit('cannot unpack'))
                items = [t.app('item', v, num(k)) for k in range(n)]
            elif isinstance(v, Ref) and isinstance(self.obj(st, v), ListObj):
                items = [self.getitem(st, v, num(k)) for k in range(n)]
            elif isinstance(v, Ref) and isinstance(self.obj(st, v), DictObj):
                k, items = self.iterate(st, v)
            if items is None:
                raise Unsupported('unpack %r' % (v,))
            if star:
                k = star[0]
                tail = n - k - 1
                if len(items) < n - 1:
                    self.do_raise(st, 'ValueError', t.lit('unpack'))
                mid = items[k:len(items) - tail]
                seq = items[:k] + [self.new_list(st, mid)] + items[len(items) - tail:]
            else:
                if len(items) != n:
                    self.do_raise(st, 'ValueError', t.lit('wrong number of values to unpack'))
                seq = items
            for e, x in zip(elts, seq):
                self.assign(st, e, x, fr)
            return NONE
        self.lift(st, val, f)

    # ------------------------------------------------------------ expressions
    def eval(self, st, node, fr):
        if st.dead:
            raise Dead()
        m = getattr(self, 'e_' + type(node).__name__, None)
        if m is None:
            raise Unsupported('expression %s' % type(node).__name__)
        prev = self.node
        if hasattr(node, 'lineno'):
            self.node = node
        try:
            return m(st, node, fr)
        finally:
            self.node = prev

    def e_Constant(self, st, n, fr):
        if n.value is Ellipsis:
            return ELLIPSIS
        if isinstance(n.value, (bytes, complex)):
            return t.app('const', lit(repr(n.value)))
        return lit(n.value)

    def e_Name(self, st, n, fr):
        return no_poison(self.lookup(st, n.id, fr, n))

    def e_Attribute(self, st, n, fr):
        v = self.eval(st, n.value, fr)
        return no_poison(self.getattr(st, v, self.mangle(n.attr, fr)))

    def e_Tuple(self, st, n, fr):
        return TupleV(self.eval_elts(st, n.elts, fr))

    def eval_elts(self, st, elts, fr):
        out = []
        for e in elts:
            if isinstance(e, ast.Starred):
                v = self.eval(st, e.value, fr)
                k, items = self.iterate(st, v)
                if k != 'concrete':
                    raise Unsupported('star of symbolic')
                out.extend(items)
            else:
                out.append(self.eval(st, e, fr))
        return out

    def e_List(self, st, n, fr):
        segs = []
        for e in n.elts:
            if isinstance(e, ast.Starred):
                segs.extend(self.to_segs(st, self.eval(st, e.value, fr)))
            else:
                segs.append(Seg((), TRUE, self.eval(st, e, fr)))
        return self.alloc(st, ListObj(segs))

    def to_segs(self, st, v):
        o = self.obj(st, v)
        if isinstance(o, ListObj):
            return list(o.segs)
        k, x = self.iterate(st, v)
        if k == 'concrete':
            return [Seg((), TRUE, y) for y in x]
        return [x]

    def e_Set(self, st, n, fr):
        return self.alloc(st, SetObj([Seg((), TRUE, x) for x in self.eval_elts(st, n.elts, fr)]))

    def e_Dict(self, st, n, fr):
        r = self.alloc(st, DictObj([]))
        for k, v in zip(n.keys, n.values):
            vv = self.eval(st, v, fr)
            if k is None:
                self.dict_update(st, r, vv)
            else:
                self.dict_set(st, r, self.eval(st, k, fr), vv)
        return r

    def dict_update(self, st, r, src):
        def f(st, src):
            o = self.obj(st, src)
            if isinstance(o, DictObj):
                if o.phi is not None:
                    raise Unsupported('update from symbolic dict')
                for kk, x, g in o.entries:
                    if g is TRUE:
                        self.dict_set(st, r, kk, x)
                    else:
                        self.fork(st, g, lambda s: self.dict_set(s, r, kk, x) or NONE, lambda s: NONE)
                return NONE
            k, x = self.iterate(st, src)
            if k != 'concrete':
                raise Unsupported('dict update')
            for p in x:
                self.dict_set(st, r, p.items[0], p.items[1])
            return NONE
        return self.lift(st, src, f)

    def e_UnaryOp(self, st, n, fr):
        v = self.eval(st, n.operand, fr)
        if isinstance(n.op, ast.Not):
            return bnot(self.truth(st, v))
        op = type(n.op).__name__
        return self.lift(st, v, lambda s, x: self.np.unary(s, op, x))

    def e_BinOp(self, st, n, fr):
        a = self.eval(st, n.left, fr)
        b = self.eval(st, n.right, fr)
        return self.binop(st, type(n.op).__name__, a, b)

    def binop(self, st, op, a, b):
        return self.lift(st, a, lambda s, x: self.lift(s, b, lambda s2, y: self.np.binop(s2, op, x, y)))

    def e_BoolOp(self, st, n, fr):
        isand = isinstance(n.op, ast.And)

        def go(s, k):
            v = self.eval(s, n.values[k], fr)
            if k == len(n.values) - 1:
                return v
            c = self.truth(s, v)
            nxt = lambda s1: go(s1, k + 1)
            if is_scalar(v) and t.is_bool(v):
                keep = lambda s2: FALSE if isand else TRUE
            else:
                keep = lambda s2: v
            if isand:
                return self.fork(s, c, nxt, keep)
            return self.fork(s, c, keep, nxt)
        return go(st, 0)

    def e_Compare(self, st, n, fr):
        left = self.eval(st, n.left, fr)
        if len(n.ops) == 1:
            right = self.eval(st, n.comparators[0], fr)
            return self.compare(st, type(n.ops[0]).__name__, left, right)
        r = None
        cur = left
        acc = TRUE
        for op, c in zip(n.ops, n.comparators):
            right = self.eval(st, c, fr)
            v = self.compare(st, type(op).__name__, cur, right)
            acc = band(acc, self.truth(st, v))
            cur = right
        return acc

    def compare(self, st, op, a, b):
        return self.lift(st, a, lambda s, x: self.lift(s, b, lambda s2, y: self.np.compare(s2, op, x, y)))

    def e_IfExp(self, st, n, fr):
        c = self.truth(st, self.eval(st, n.test, fr))
        return self.fork(st, c, lambda s: self.eval(s, n.body, fr), lambda s: self.eval(s, n.orelse, fr))

    def e_Subscript(self, st, n, fr):
        v = self.eval(st, n.value, fr)
        i = self.eval_index(st, n.slice, fr)
        if isinstance(v, ExtV) and v.name in ('numpy.s_', 'numpy.index_exp'):
            return i if v.name == 'numpy.s_' or isinstance(i, TupleV) else TupleV([i])
        if isinstance(v, ExtV) and v.name in ('numpy.r_', 'numpy.c_'):
            its = i.items if isinstance(i, TupleV) else [i]
            if any(isinstance(x, SliceV) for x in its):
                raise Unsupported(v.name)
            return self.np.call_ext(st, 'numpy.hstack' if v.name == 'numpy.r_' else 'numpy.column_stack', [self.new_list(st, its)], {})
        return self.getitem(st, v, i)

    def e_JoinedStr(self, st, n, fr):
        parts = []
        for p in n.values:
            if isinstance(p, ast.Constant):
                parts.append(lit(p.value))
            else:
                v = self.eval(st, p.value, fr)
                parts.append(self.term_of(st, v))
        if all(p.op == 'lit' and isinstance(p.args[0].v, str) for p in parts):
            return lit(''.join(p.args[0].v for p in parts))
        return t.app('fmt', *parts)

    def e_NamedExpr(self, st, n, fr):
        v = self.eval(st, n.value, fr)
        self.assign(st, n.target, v, fr)
        return v

    def e_Starred(self, st, n, fr):
        return self.eval(st, n.value, fr)

    def e_Lambda(self, st, n, fr):
        fr.closure = True
        f = FuncV(n, fr.module, fr.cls, fr.fid, (fr.func.qual if fr.func else '') + '.<lambda>',
                  [self.eval(st, d, fr) for d in n.args.defaults],
                  {a.arg: self.eval(st, d, fr) for a, d in zip(n.args.kwonlyargs, n.args.kw_defaults) if d is not None})
        return f

    # comprehensions are analysed as loops that append to a fresh list
    def comp(self, st, n, fr, kind):
        self._fid += 1
        fid = self._fid
        st.frames[fid] = {}
        f = FuncV(n, fr.module, fr.cls, fr.fid, (fr.func.qual if fr.func else '') + '.<comp>')
        fr.closure = True
        nf = Frame(fid, f, fr.module, fr.cls)
        self.closure_parent[fid] = fr.fid
        self.closure_parent.setdefault(fr.fid, fr.func.fid if fr.func else None)
        acc = self.alloc(st, DictObj([]) if kind == 'dict' else ListObj([]))
        self.stack.append(nf)

        def run(s, k):
            if k == len(n.generators):
                if kind == 'dict':
                    kk = self.eval(s, n.key, nf)
                    vv = self.eval(s, n.value, nf)
                    self.dict_set(s, acc, kk, vv)
                else:
                    v = self.eval(s, n.elt, nf)

                    def push(s2, r):
                        s2.heap[acc.oid] = ListObj(self.obj(s2, acc).segs + (Seg((), TRUE, v),))
                        return NONE
                    self.lift(s, acc, push)
                return
            g = n.generators[k]
            it = self.eval(s, g.iter, fr if k == 0 else nf)

            def body(s2, val):
                self.assign(s2, g.target, val, nf)
                c = TRUE
                cond_states = s2
                def inner(s3, j):
                    if j == len(g.ifs):
                        run(s3, k + 1)
                        return NONE
                    cc = self.truth(s3, self.eval(s3, g.ifs[j], nf))
                    return self.fork(s3, cc, lambda s4: inner(s4, j + 1), lambda s4: NONE)
                inner(s2, 0)
            self.loop(s, it, body, n)
        try:
            run(st, 0)
        finally:
            self.stack.pop()
        st.frames.pop(fid, None)
        return acc

    def e_ListComp(self, st, n, fr):
        return self.comp(st, n, fr, 'list')

    e_GeneratorExp = e_ListComp

    def e_SetComp(self, st, n, fr):
        r = self.comp(st, n, fr, 'list')
        st.heap[r.oid] = SetObj(self.obj(st, r).segs)
        return r

    def e_DictComp(self, st, n, fr):
        return self.comp(st, n, fr, 'dict')

    def e_Yield(self, st, n, fr):
        v = self.eval(st, n.value, fr) if n.value else NONE
        r = st.frames[fr.fid]['<yield>']
        o = self.obj(st, r)
        st.heap[r.oid] = ListObj(o.segs + (Seg((), TRUE, v),))
        return NONE

    # ------------------------------------------------------------ calls
    def e_Call(self, st, n, fr):
        # super() without arguments
        if isinstance(n.func, ast.Name) and n.func.id == 'super' and not n.args:
            env = st.frames[fr.fid]
            f = fr.func.node.args.args
            return SuperV(fr.cls, env[f[0].arg])
        if isinstance(n.func, ast.Name) and n.func.id == 'locals':
            return self.alloc(st, DictObj([(lit(k), v, TRUE) for k, v in st.frames[fr.fid].items()]))
        fv = self.eval(st, n.func, fr)
        args, kw = [], {}
        for a in n.args:
            if isinstance(a, ast.Starred):
                v = self.eval(st, a.value, fr)
                def ex(s, x):
                    k, items = self.iterate(s, x)
                    if k != 'concrete':
                        raise Unsupported('star args')
                    return TupleV(items)
                v = self.lift(st, v, ex)
                if not isinstance(v, TupleV):
                    raise Unsupported('star args')
                args.extend(v.items)
            else:
                args.append(self.eval(st, a, fr))
        for k in n.keywords:
            v = self.eval(st, k.value, fr)
            if k.arg is None:
                o = self.obj(st, v)
                if isinstance(o, DictObj) and o.phi is None:
                    for kk, x, g in o.entries:
                        if not (is_scalar(kk) and kk.op == 'lit' and isinstance(kk.args[0].v, str)):
                            raise Unsupported('** keys')
                        if kk.args[0].v in kw:
                            self.event(st, 'badcall', ('duplicate keyword ' + kk.args[0].v,), n)
                            self.do_raise(st, 'TypeError', t.lit('duplicate keyword'), n)
                        kw[kk.args[0].v] = x
                else:
                    raise Unsupported('** of symbolic')
            else:
                kw[k.arg] = v
        self.node = n
        return self.call(st, fv, args, kw, n)

    def call(self, st, fv, args, kw, node=None):
        self.calls_seen += 1

        def f(st, fv):
            if isinstance(fv, FuncV):
                return self.call_func(st, fv, args, kw, node)
            if isinstance(fv, BoundV):
                if isinstance(fv.func, FuncV):
                    return self.call_func(st, fv.func, [fv.self_] + list(args), kw, node)
                return self.call(st, fv.func, [fv.self_] + list(args), kw, node)
            if isinstance(fv, ClassV):
                return self.instantiate(st, fv, args, kw, node)
            if isinstance(fv, PartialV):
                k2 = dict(fv.kw)
                k2.update(kw)
                return self.call(st, fv.f, list(fv.args) + list(args), k2, node)
            if isinstance(fv, MethV):
                return self.np.call_method(st, fv.recv, fv.name, args, kw)
            if isinstance(fv, ExtV):
                return self.np.call_ext(st, fv.name, args, kw)
            if isinstance(fv, Ref):
                o = self.obj(st, fv)
                if isinstance(o, InstObj):
                    m, c = o.cls.lookup('__call__')
                    if m is not None:
                        return self.call_func(st, m, [fv] + list(args), kw, node)
                if isinstance(o, ExtObj):
                    return self.np.ext_result(st, 'call', [o.term] + [self.term_of(st, a) for a in args], kw)
                self.do_raise(st, 'TypeError', t.lit('not callable'))
            if is_scalar(fv):
                if fv.op in ('num', 'bool', 'lit') or t.isint(fv):
                    self.do_raise(st, 'TypeError', t.lit('not callable'))
                r = self.np.colour_call(st, fv, args)
                if r is not None:
                    return r
                self.event(st, 'extcall', ('call', fv, [self.term_of(st, a) for a in args]))
                return t.app('ext', fv, *[self.term_of(st, a) for a in args])
            if isinstance(fv, (TupleV,)):
                self.do_raise(st, 'TypeError', t.lit('not callable'))
            raise Unsupported('call of %r' % (fv,))
        return self.lift(st, fv, f)

    def instantiate(self, st, cls, args, kw, node):
        for c in cls.mro():
            for b in c.bases:
                if isinstance(b, ExtV) and b.name not in ('object', 'abc.ABC', 'typing.Generic') and 'Exception' not in b.name and 'Error' not in b.name and 'Warning' not in b.name:
                    if b.name not in ('typing.NamedTuple', 'enum.Enum'):
                        pass
        # abstract methods must be overridden
        abstract = set()
        for c in reversed(cls.mro()):
            for k, v in c.ns.items():
                if getattr(v, 'abstract', False):
                    abstract.add(k)
                else:
                    abstract.discard(k)
        if abstract and getattr(cls, 'is_abc', lambda: True)():
            if any(getattr(c, 'abcmeta', False) for c in cls.mro()):
                self.event(st, 'badcall', ('abstract class %s' % cls.name,))
                self.do_raise(st, 'TypeError', t.lit("Can't instantiate abstract class"))
        r = self.alloc(st, InstObj(cls, {}))
        m, c = cls.lookup('__init__')
        if m is not None:
            self.call(st, BoundV(m, r), args, kw, node)
        elif getattr(cls, 'dataclass_fields', None):
            self.bind_dataclass(st, cls, r, args, kw)
        elif args or kw:
            if not any(isinstance(b, ExtV) for cc in cls.mro() for b in cc.bases):
                self.event(st, 'badcall', ('%s() takes no arguments' % cls.name,))
                self.do_raise(st, 'TypeError', t.lit('takes no arguments'))
        return r

    def bind_dataclass(self, st, cls, r, args, kw):
        fields = []
        for c in reversed(cls.mro()):
            for f in getattr(c, 'dataclass_fields', []) or []:
                fields.append(f)
        vals = {}
        for (name, default), a in zip(fields, args):
            vals[name] = a
        for k, v in kw.items():
            vals[k] = v
        o = st.heap[r.oid]
        for name, default in fields:
            if name not in vals:
                if default is None:
                    self.do_raise(st, 'TypeError', t.lit('missing argument ' + name))
                vals[name] = default
            o = o.with_attr(name, vals[name])
        st.heap[r.oid] = o
        m, c = cls.lookup('__post_init__')
        if m is not None:
            self.call(st, BoundV(m, r), [], {})

    def bad_call(self, st, f, why, node):
        if getattr(getattr(f, 'module', None), 'name', None) == '<pylib>':
            raise Unsupported('%s: %s' % (f.qual, why))
        self.event(st, 'badcall', ('%s: %s' % (f.qual, why),), node)
        self.do_raise(st, 'TypeError', t.lit(why), node)

    def bind(self, st, f, args, kw, node):
        a = f.node.args
        params = [p.arg for p in list(getattr(a, 'posonlyargs', [])) + list(a.args)]
        env = {}
        args = list(args)
        kw = dict(kw)
        n = len(params)
        for p, v in zip(params, args):
            env[p] = v
        if len(args) > n:
            if a.vararg is None:
                self.bad_call(st, f, 'takes %d positional arguments but %d were given' % (n, len(args)), node)
            env[a.vararg.arg] = TupleV(args[n:])
        elif a.vararg is not None:
            env[a.vararg.arg] = TupleV(())
        kwonly = [p.arg for p in a.kwonlyargs]
        extra = []
        for k, v in kw.items():
            if k in params or k in kwonly:
                if k in env:
                    self.bad_call(st, f, 'multiple values for argument %s' % k, node)
                env[k] = v
            elif a.kwarg is not None:
                extra.append((lit(k), v, TRUE))
            else:
                self.bad_call(st, f, 'unexpected keyword argument %s' % k, node)
        if a.kwarg is not None:
            env[a.kwarg.arg] = self.alloc(st, DictObj(extra))
        nd = len(f.defaults)
        for k, p in enumerate(params):
            if p not in env:
                j = k - (n - nd)
                if j < 0:
                    self.bad_call(st, f, 'missing argument %s' % p, node)
                env[p] = f.defaults[j]
        for p in kwonly:
            if p not in env:
                if p not in f.kwdefaults:
                    self.bad_call(st, f, 'missing keyword argument %s' % p, node)
                env[p] = f.kwdefaults[p]
        return env

    hooks = None

    def call_func(self, st, f, args, kw, node):
        if self.depth > MAX_DEPTH:
            raise Unsupported('call depth')
        if getattr(f, 'opaque_decorator', None):
            raise Unsupported('decorator %s' % f.opaque_decorator)
        env = self.bind(st, f, args, kw, node)
        self.funcs_seen.add((f.module.path, f.qual))
        self.event(st, 'call', (f.qual, env, node), node)
        if self.hooks:
            h = self.hooks.get(f.qual)
            if h is not None:
                r = h(self, st, f, env)
                if r is not None:
                    return r
        if isinstance(f.node, ast.Lambda):
            return self.run_body(st, f, env, None, node)
        return self.run_body(st, f, env, f.node.body, node)

    def run_body(self, st, f, env, body, node):
        self._fid += 1
        fid = self._fid
        fr = Frame(fid, f, f.module, f.cls)
        self.closure_parent[fid] = f.fid
        st.frames[fid] = dict(env)
        gen = body is not None and is_generator(f.node)
        if gen:
            st.frames[fid]['<yield>'] = self.new_list(st, [])
        self.depth += 1
        self.stack.append(fr)
        self.ret.append([])
        sb, sc = self.brk, self.cont
        self.brk, self.cont = [], []
        savednode = self.node
        try:
            if body is None:
                v = self.eval(st, f.node.body, fr)
                st.frames[fid]['<ret>'] = v
                ends = [st.copy()]
            else:
                self.block(st, body, fr)
                ends = self.ret[-1]
                if not st.dead:
                    s = st.copy()
                    s.frames[fid]['<ret>'] = NONE
                    ends = ends + [s]
        finally:
            self.ret.pop()
            self.stack.pop()
            self.depth -= 1
            self.brk, self.cont = sb, sc
            self.node = savednode
        if not ends:
            st.dead = True
            raise Dead()
        out = ends[0]
        for e in ends[1:]:
            out = self.merge(out, e)
        st.become(out)
        v = st.frames[fid]['<ret>']
        if gen:
            v = st.frames[fid]['<yield>']
        if not fr.closure:
            del st.frames[fid]
        return v

    # ------------------------------------------------------------ statements
    def block(self, st, stmts, fr):
        for s in stmts:
            if st.dead:
                return
            self.exec(st, s, fr)

    def exec(self, st, node, fr):
        m = getattr(self, 's_' + type(node).__name__, None)
        if m is None:
            raise Unsupported('statement %s' % type(node).__name__)
        self.stmts_seen += 1
        prev = self.node
        self.node = node
        try:
            m(st, node, fr)
        except Dead:
            st.dead = True
        finally:
            self.node = prev

    def s_Expr(self, st, n, fr):
        if isinstance(n.value, ast.Constant):
            return
        self.eval(st, n.value, fr)

    def s_Pass(self, st, n, fr):
        pass

    def s_Assign(self, st, n, fr):
        v = self.eval(st, n.value, fr)
        for tg in n.targets:
            self.assign(st, tg, v, fr)

    def s_AnnAssign(self, st, n, fr):
        if n.value is not None:
            self.assign(st, n.target, self.eval(st, n.value, fr), fr)

    def s_AugAssign(self, st, n, fr):
        op = type(n.op).__name__
        if isinstance(n.target, ast.Name):
            cur = self.lookup(st, n.target.id, fr)
            new = self.inplace(st, op, cur, self.eval(st, n.value, fr))
            self.assign_name(st, n.target.id, new, fr)
        elif isinstance(n.target, ast.Attribute):
            o = self.eval(st, n.target.value, fr)
            name = self.mangle(n.target.attr, fr)
            cur = self.getattr(st, o, name)
            new = self.inplace(st, op, cur, self.eval(st, n.value, fr))
            self.setattr(st, o, name, new)
        elif isinstance(n.target, ast.Subscript):
            o = self.eval(st, n.target.value, fr)
            i = self.eval_index(st, n.target.slice, fr)
            cur = self.getitem(st, o, i)
            rhs = self.eval(st, n.value, fr)
            if self.is_array(st, o):
                new = self.binop(st, op, cur, rhs)
            else:
                new = self.inplace(st, op, cur, rhs)
            self.setitem(st, o, i, new)
        else:
            raise Unsupported('augassign')

    def inplace(self, st, op, cur, rhs):
        def f(st, cur):
            if self.is_array(st, cur):
                r = self.binop(st, op, cur, rhs)
                def wr(s, rr):
                    self.np.write_all(s, cur, rr)
                    return NONE
                self.lift(st, r, wr)
                return cur
            if isinstance(cur, Ref):
                o = self.obj(st, cur)
                if isinstance(o, ListObj) and op == 'Add':
                    st.heap[cur.oid] = ListObj(tuple(o.segs) + tuple(self.to_segs(st, rhs)))
                    return cur
                if isinstance(o, DictObj) and op == 'BitOr':
                    self.dict_update(st, cur, rhs)
                    return cur
            return self.binop(st, op, cur, rhs)
        return self.lift(st, cur, f)

    def s_Delete(self, st, n, fr):
        for tg in n.targets:
            if isinstance(tg, ast.Name):
                st.frames[fr.fid].pop(tg.id, None)
            elif isinstance(tg, ast.Subscript):
                o = self.eval(st, tg.value, fr)
                i = self.eval_index(st, tg.slice, fr)
                ob = self.obj(st, o)
                if isinstance(ob, DictObj):
                    st.heap[o.oid] = DictObj([e for e in ob.entries if not same_val(e[0], i)], ob.phi, ob.default)
                elif isinstance(ob, ListObj) and ob.concrete and is_scalar(i) and i.op == 'num':
                    it = ob.items()
                    del it[int(i.args[0])]
                    st.heap[o.oid] = ListObj([Seg((), TRUE, x) for x in it])
                else:
                    raise Unsupported('del')
            else:
                raise Unsupported('del')

    def s_If(self, st, n, fr):
        c = restrict(self.truth(st, self.eval(st, n.test, fr)), st.pc)
        if c is TRUE:
            return self.block(st, n.body, fr)
        if c is FALSE:
            return self.block(st, n.orelse, fr)
        s1, s2 = st.copy(), st.copy()
        s1.assume(c)
        s2.assume(bnot(c))
        if not s1.dead:
            self.block(s1, n.body, fr)
        if not s2.dead:
            self.block(s2, n.orelse, fr)
        if s1.dead and s2.dead:
            st.dead = True
            return
        st.become(self.merge(s1, s2))

    def s_Return(self, st, n, fr):
        v = self.eval(st, n.value, fr) if n.value is not None else NONE
        s = st.copy()
        s.frames[fr.fid]['<ret>'] = v
        self.ret[-1].append(s)
        st.dead = True

    def s_Raise(self, st, n, fr):
        if n.exc is None:
            self.do_raise(st, '<reraise>', NONE, n)
        e = n.exc
        name = None
        if isinstance(e, ast.Call):
            fv = self.eval(st, e.func, fr)
            args = [self.eval(st, a, fr) for a in e.args]
            name = self.exc_name(st, fv)
        else:
            fv = self.eval(st, e, fr)
            name = self.exc_name(st, fv)
        self.do_raise(st, name, NONE, n)

    def exc_name(self, st, fv):
        if isinstance(fv, ExtV):
            return fv.name.replace('builtins.', '')
        if isinstance(fv, ClassV):
            return fv.name
        if isinstance(fv, Ref) and isinstance(self.obj(st, fv), InstObj):
            return self.obj(st, fv).cls.name
        if is_scalar(fv) and fv.op == 'app' and fv.args[0] == 'exc':
            return fv.args[1].args[0].v
        return 'Exception'

    def s_Assert(self, st, n, fr):
        c = restrict(self.truth(st, self.eval(st, n.test, fr)), st.pc)
        if c is TRUE:
            return
        self.maybe_raise(st, bnot(c), 'AssertionError', 'assert', n)

    def s_Break(self, st, n, fr):
        self.brk[-1].append(st.copy())
        st.dead = True

    def s_Continue(self, st, n, fr):
        self.cont[-1].append(st.copy())
        st.dead = True

    def s_Global(self, st, n, fr):
        fr.globals_.update(n.names)

    def s_Nonlocal(self, st, n, fr):
        fr.nonlocals.update(n.names)

    def s_With(self, st, n, fr):
        for it in n.items:
            v = self.eval(st, it.context_expr, fr)
            if isinstance(v, Ref) and isinstance(self.obj(st, v), InstObj):
                m, c = self.obj(st, v).cls.lookup('__enter__')
                if m is not None:
                    v = self.call(st, BoundV(m, v), [], {})
            if it.optional_vars is not None:
                self.assign(st, it.optional_vars, v, fr)
        self.block(st, n.body, fr)

    EXC_TREE = {'KeyError': ['LookupError'], 'IndexError': ['LookupError'], 'LookupError': ['Exception'],
                'ValueError': ['Exception'], 'TypeError': ['Exception'], 'AttributeError': ['Exception'],
                'AssertionError': ['Exception'], 'NotImplementedError': ['RuntimeError'], 'RuntimeError': ['Exception'],
                'UnboundLocalError': ['NameError'], 'NameError': ['Exception'], 'ZeroDivisionError': ['ArithmeticError'],
                'ArithmeticError': ['Exception'], 'StopIteration': ['Exception']}

    def exc_matches(self, exc, names):
        if names is None:
            return True
        cur = {exc}
        while cur:
            if cur & set(names):
                return True
            nx = set()
            for c in cur:
                nx |= set(self.EXC_TREE.get(c, ['Exception'] if c not in ('Exception', 'BaseException') else (['BaseException'] if c == 'Exception' else [])))
            cur = nx
        return False

    def s_Try(self, st, n, fr):
        self.raises.append([])
        loglen = len(self.log)
        self.block(st, n.body, fr)
        caught = self.raises.pop()
        if not st.dead and n.orelse:
            self.block(st, n.orelse, fr)
        outs = [] if st.dead else [st.copy()]
        for (s, exc, val, loc) in caught:
            done = False
            for h in n.handlers:
                names = None
                if h.type is not None:
                    tys = h.type.elts if isinstance(h.type, ast.Tuple) else [h.type]
                    names = [ast.unparse(x).split('.')[-1] for x in tys]
                if self.exc_matches(exc, names):
                    s2 = s.copy()
                    s2.dead = False
                    if fr.fid not in s2.frames:
                        s2.frames[fr.fid] = {}
                    if h.name:
                        s2.frames[fr.fid][h.name] = t.app('exc', lit(exc))
                    for ev in self.log[loglen:]:
                        if ev.kind == 'raise' and ev.loc == loc:
                            ev.kind = 'caught'
                    # reraise inside handler keeps the original type
                    self.raises.append([])
                    self.block(s2, h.body, fr)
                    rr = self.raises.pop()
                    for (s3, e3, v3, l3) in rr:
                        self.raises[-1].append((s3, exc if e3 in ('<reraise>',) else e3, v3, l3))
                        for ev in self.log[loglen:]:
                            if ev.kind == 'raise' and ev.loc == l3 and e3 == '<reraise>':
                                ev.data = (exc, ev.data[1])
                    if not s2.dead:
                        outs.append(s2)
                    done = True
                    break
            if not done:
                self.raises[-1].append((s, exc, val, loc))
        if outs:
            out = outs[0]
            for o in outs[1:]:
                out = self.merge(out, o)
            st.become(out.copy())
            st.dead = False
            if n.finalbody:
                self.block(st, n.finalbody, fr)
        else:
            st.dead = True

    def s_Import(self, st, n, fr):
        for a in n.names:
            top = a.name.split('.')[0]
            if a.asname:
                v = self.module_value(a.name)
                st.frames[fr.fid][a.asname] = v
            else:
                st.frames[fr.fid][top] = self.module_value(top)

    def module_value(self, name):
        m = self.project.modules.get(name)
        if m is not None:
            return ModV(m)
        return ExtV(canon_ext(name))

    def s_ImportFrom(self, st, n, fr):
        base = n.module or ''
        if n.level:
            pkg = fr.module.package.split('.')
            pkg = pkg[:len(pkg) - (n.level - 1)]
            base = '.'.join(pkg + ([n.module] if n.module else []))
        m = self.project.modules.get(base)
        env = st.frames[fr.fid]
        for a in n.names:
            if m is not None:
                sub = self.project.modules.get(base + '.' + a.name)
                if a.name == '*':
                    g = self.project_globals(m)
                    for k, v in g.items():
                        if not k.startswith('_'):
                            env[k] = v
                    continue
                g = self.project_globals(m)
                if a.name in g:
                    env[a.asname or a.name] = g[a.name]
                elif sub is not None:
                    env[a.asname or a.name] = ModV(sub)
                else:
                    self.event(st, 'importerror', (base, a.name), n)
                    env[a.asname or a.name] = ExtV('<missing>%s.%s' % (base, a.name))
            else:
                if a.name == '*':
                    continue
                env[a.asname or a.name] = ExtV(canon_ext(base + '.' + a.name))

    def s_FunctionDef(self, st, n, fr):
        qual = n.name
        if fr.func is not None:
            qual = fr.func.qual + '.' + n.name
        elif getattr(fr, 'classname', None):
            qual = fr.classname + '.' + n.name
        if fr.func is not None:
            fr.closure = True
        f = FuncV(n, fr.module, fr.cls, fr.fid if fr.func is not None else None, qual,
                  [self.eval(st, d, fr) for d in n.args.defaults],
                  {a.arg: self.eval(st, d, fr) for a, d in zip(n.args.kwonlyargs, n.args.kw_defaults) if d is not None})
        v = f
        for d in reversed(n.decorator_list):
            v = self.decorate(st, d, v, fr)
        st.frames[fr.fid][n.name] = v

    def decorate(self, st, d, v, fr):
        src = ast.unparse(d)
        head = src.split('(')[0].split('.')[-1]
        if head in ('njit', 'jit', 'vectorize', 'wraps', 'lru_cache', 'cache', 'no_type_check', 'override', 'final'):
            if head in ('lru_cache', 'cache'):
                v.memoised = True
            return v
        if head == 'abstractmethod':
            v.abstract = True
            return v
        if head == 'property' or head == 'abstractproperty' or head == 'cached_property':
            return PropV(v)
        if head == 'setter':
            p = st.frames[fr.fid].get(src.split('.')[0])
            if isinstance(p, PropV):
                return PropV(p.fget, v)
        if head == 'staticmethod':
            return StaticV(v, 'static')
        if head == 'classmethod':
            return StaticV(v, 'class')
        dv = self.eval(st, d, fr)
        if isinstance(dv, (FuncV,)):
            return self.call(st, dv, [v], {})
        if isinstance(v, FuncV):
            v.opaque_decorator = src
        return v

    def s_ClassDef(self, st, n, fr):
        bases = []
        abcm = False
        for b in n.bases:
            bases.append(self.eval(st, b, fr))
        for k in n.keywords:
            if k.arg == 'metaclass':
                abcm = 'ABCMeta' in ast.unparse(k.value)
        if any(isinstance(b, ExtV) and b.name.endswith('ABC') for b in bases):
            abcm = True
        cls = ClassV(n.name, bases, {}, fr.module, n)
        cls.abcmeta = abcm
        self._fid += 1
        fid = self._fid
        st.frames[fid] = {}
        nf = Frame(fid, None, fr.module, cls)
        nf.classname = n.name
        self.stack.append(nf)
        try:
            fields = []
            for s in n.body:
                if isinstance(s, ast.AnnAssign) and isinstance(s.target, ast.Name):
                    fields.append((s.target.id, self.eval(st, s.value, nf) if s.value is not None else None))
                self.exec(st, s, nf)
        finally:
            self.stack.pop()
        cls.ns = dict(st.frames.pop(fid))
        if any('dataclass' in ast.unparse(d) for d in n.decorator_list):
            cls.dataclass_fields = fields
        if any(isinstance(b, ExtV) and b.name.endswith('NamedTuple') for b in bases):
            cls.ntfields = fields
            cls.dataclass_fields = fields
        st.frames[fr.fid][n.name] = cls

    # ------------------------------------------------------------ loops
    def s_For(self, st, n, fr):
        it = self.eval(st, n.iter, fr)

        def body(s, val):
            self.assign(s, n.target, val, fr)
            self.block(s, n.body, fr)
        self.loop(st, it, body, n, n.orelse, fr)

    def s_While(self, st, n, fr):
        from .loops import while_loop
        while_loop(self, st, n, fr)

    def loop(self, st, it, body, node, orelse=None, fr=None):
        def f(st, v):
            k, x = self.iterate(st, v)
            if k == 'concrete':
                self.unroll(st, x, body, orelse, fr)
            else:
                from .loops import sym_loop
                sym_loop(self, st, x, body, node, orelse, fr)
            if st.dead:
                raise Dead()
            return NONE
        self.lift(st, it, f)

    def run_iter(self, st, body, val):
        """one iteration; returns (state falling through or None, break states)"""
        self.brk.append([])
        self.cont.append([])
        try:
            try:
                body(st, val)
            except Dead:
                st.dead = True
        finally:
            b = self.brk.pop()
            c = self.cont.pop()
        outs = ([] if st.dead else [st.copy()]) + c
        out = None
        for o in outs:
            out = o if out is None else self.merge(out, o)
        return out, b

    def unroll(self, st, items, body, orelse, fr):
        breaks = []
        cur = st.copy()
        for v in items:
            out, b = self.run_iter(cur, body, v)
            breaks.extend(b)
            if out is None:
                cur = None
                break
            cur = out
        if cur is not None and orelse:
            self.block(cur, orelse, fr)
            if cur.dead:
                cur = None
        outs = ([cur] if cur is not None else []) + breaks
        if not outs:
            st.dead = True
            return
        out = outs[0]
        for o in outs[1:]:
            out = self.merge(out, o)
        st.become(out.copy())
        st.dead = False


# ---------------------------------------------------------------- helpers
def same_val(a, b):
    if a is b:
        return True
    if type(a) is not type(b):
        return False
    if isinstance(a, (Ref, AView, ExtV)):
        return a == b
    if isinstance(a, TupleV):
        return len(a.items) == len(b.items) and all(same_val(x, y) for x, y in zip(a.items, b.items))
    if isinstance(a, IteV):
        return a.c is b.c and same_val(a.a, b.a) and same_val(a.b, b.b)
    if isinstance(a, BoundV):
        return a.func is b.func and same_val(a.self_, b.self_)
    if isinstance(a, RangeV):
        return a.start is b.start and a.n is b.n and a.step is b.step
    return False


def contains_unbound(v):
    return v is UNBOUND or (isinstance(v, IteV) and (contains_unbound(v.a) or contains_unbound(v.b)))


def inside(stop, dim):
    """provably stop <= dim"""
    for l in t.leaves(stop):
        d = t.sub(dim, l)
        if not all(t.nonneg(x) for x in t.leaves(d)):
            return False
    return True


def clip0(x):
    return t.max2([x, ZERO], 'max')


def is_generator(node):
    todo = list(getattr(node, 'body', [])) if not isinstance(node, ast.Lambda) else []
    while todo:
        x = todo.pop()
        if isinstance(x, (ast.Yield, ast.YieldFrom)):
            return True
        if isinstance(x, (ast.FunctionDef, ast.Lambda, ast.ClassDef)):
            continue
        todo.extend(ast.iter_child_nodes(x))
    return False


def canon_ext(name):
    return name
