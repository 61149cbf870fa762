"""Array indexing: basic views, boolean masks, integer and filtered index arrays."""
from . import terms as t
from .terms import T, TRUE, FALSE, ZERO, ONE, NONE, num, lit, mk_ite, band, bor, bnot
from .values import *


def is_scalar(v):
    return isinstance(v, T)


class IndexMixin:
    # ------------------------------------------------------------ classification
    def comp_kind(self, st, c):
        """('int',term) ('slice',SliceV) ('new',) ('mask',Arr) ('iarr',Arr) ('filt',Filt) ('maskf',Filt)"""
        I = self.I
        if isinstance(c, SliceV):
            return ('slice', c)
        if c is NONE:
            return ('new',)
        if is_scalar(c):
            if t.is_bool(c):
                return ('boolscalar', c)
            if c.op == 'lit' or c.op in ('inf', 'nan'):
                I.do_raise(st, 'IndexError', lit('invalid index'))
            if any(l.op == 'app' and (l.args[0] == 'opaque' or l.args[0].startswith('uf:')) for l in t.leaves(c)):
                raise Unsupported('index by an unmodelled value')
            return ('int', c)
        a = I.get_arr(st, c)
        if a is None:
            raise Unsupported('index component %r' % (c,))
        if isinstance(a, Filt):
            if a.dtype == 'b':
                return ('maskf', a)
            if a.tail:
                raise Unsupported('index by filtered matrix')
            return ('filt', a)
        if a.rank == 0:
            return ('int', a.body)
        if a.dtype == 'b':
            return ('mask', a)
        if a.dtype == 'f' and not all(t.isint(l) for l in t.leaves(a.body)) and a.dims[0] is not ZERO:
            I.do_raise(st, 'IndexError', lit('arrays used as indices must be of integer (or boolean) type'))
        return ('iarr', a)

    def comps(self, st, comps, rank):
        ks = []
        used = 0
        for c in comps:
            if c is ELLIPSIS:
                ks.append(('dots',))
                continue
            k = self.comp_kind(st, c)
            if k[0] == 'mask':
                used += k[1].rank
            elif k[0] != 'new':
                used += 1
            ks.append(k)
        if used > rank:
            self.I.do_raise(st, 'IndexError', lit('too many indices for array'))
        full = ('slice', SliceV(None, None, None))
        out = []
        seen = False
        for k in ks:
            if k[0] == 'dots':
                out.extend([full] * (rank - used))
                seen = True
            else:
                out.append(k)
        if not seen:
            out.extend([full] * (rank - used))
        return out

    # ------------------------------------------------------------ reading
    def index_read(self, st, v, comps):
        I = self.I
        a = I.get_arr(st, v)
        if a is None:
            raise Unsupported('index of unknown array')
        if isinstance(a, Filt):
            return self.filt_read(st, a, comps, v)
        ks = self.comps(st, comps, a.rank)
        if all(k[0] in ('int', 'slice', 'new') for k in ks):
            maps, dims = [], []
            ax = 0
            for k in ks:
                if k[0] == 'int':
                    maps.append(I.norm_index(k[1], a.dims[ax]))
                    self.bound_check(st, k[1], a.dims[ax])
                    ax += 1
                elif k[0] == 'new':
                    dims.append(ONE)
                else:
                    start, ln, sg = I.norm_slice(k[1], a.dims[ax])
                    j = t.ix(len(dims))
                    maps.append(t.add(start, t.mul(num(sg), j)))
                    dims.append(ln)
                    ax += 1
            if not dims:
                return ix_map(a.body, {q: m for q, m in enumerate(maps)})
            if isinstance(v, Ref):
                return AView(v.oid, maps, dims)
            if isinstance(v, AView):
                mm = {q: m for q, m in enumerate(maps)}
                return AView(v.oid, [ix_map(m, mm) for m in v.maps], dims)
            return self.out(st, Arr(dims, ix_map(a.body, {q: m for q, m in enumerate(maps)}), a.dtype))
        return self.out(st, self.adv_read(st, a, ks))

    def bound_check(self, st, i, dim):
        """constant index against a constant dimension"""
        if i.op == 'num' and dim.op == 'num':
            k, d = i.args[0], dim.args[0]
            if k >= d or k < -d:
                self.I.do_raise(st, 'IndexError', lit('index out of bounds'))

    def adv_read(self, st, a, ks):
        I = self.I
        adv = [k for k in ks if k[0] in ('mask', 'iarr', 'filt')]
        # boolean masks / filtered indices -> one filtered leading axis
        if any(k[0] in ('mask', 'filt') for k in adv):
            if all(k[0] == 'filt' for k in adv) and len({k[1].key() for k in adv}) == 1:
                f = adv[0][1]
                n = len(f.dims)
                return self.adv_filt(st, a, ks, n, f.dims, f.mask)
            if len(adv) == 1 and adv[0][0] == 'mask':
                mk_ = adv[0][1]
                return self.adv_filt(st, a, ks, mk_.rank, mk_.dims, mk_.body)
            raise Unsupported('mixed advanced index')
        # integer arrays, broadcast together with integer scalars
        arrs = [k[1] for k in ks if k[0] == 'iarr']
        r = max(x.rank for x in arrs)
        dims = None
        for x in arrs:
            y = self.align(x, r)
            dims = list(y.dims) if dims is None else [p if q is ONE else q for p, q in zip(dims, y.dims)]
        pos = [i for i, k in enumerate(ks) if k[0] in ('iarr', 'int')]
        first = [i for i, k in enumerate(ks) if k[0] == 'iarr'][0]
        contiguous = all(ks[i][0] in ('iarr', 'int') for i in range(min(pos), max(pos) + 1))
        outdims, maps = [], []
        nb = len(dims)
        lead = 0 if not contiguous else sum(1 for k in ks[:min(pos)] if k[0] in ('slice', 'new'))
        ax = 0
        cur = 0
        placed = False
        order = []
        if not contiguous:
            outdims = list(dims)
            placed = True
            base = 0
        for i, k in enumerate(ks):
            if k[0] in ('iarr', 'int'):
                if not placed:
                    base = len(outdims)
                    outdims.extend(dims)
                    placed = True
        # second pass with known base
        outdims2 = list(dims) if not contiguous else []
        base = 0
        done = not contiguous
        for i, k in enumerate(ks):
            if k[0] in ('iarr', 'int'):
                if not done:
                    base = len(outdims2)
                    outdims2.extend(dims)
                    done = True
                if k[0] == 'int':
                    maps.append(I.norm_index(k[1], a.dims[ax]))
                else:
                    y = self.align(k[1], nb)
                    b = self.spread(y, dims)
                    maps.append(('later', I.norm_index(b, a.dims[ax])))
                ax += 1
            elif k[0] == 'new':
                outdims2.append(ONE)
            else:
                start, ln, sg = I.norm_slice(k[1], a.dims[ax])
                maps.append(('ax', start, len(outdims2), sg))
                outdims2.append(ln)
                ax += 1
        res = {}
        for q, m in enumerate(maps):
            if isinstance(m, tuple) and m[0] == 'later':
                res[q] = ix_shift(m[1], 0, base)
            elif isinstance(m, tuple):
                j = t.ix(m[2])
                res[q] = t.add(m[1], j) if m[3] == 1 else t.sub(m[1], j)
            else:
                res[q] = m
        return Arr(outdims2, ix_map(a.body, res), a.dtype)

    def adv_filt(self, st, a, ks, n, fdims, mask):
        """read with one filtered index group; the filtered axis must come first"""
        I = self.I
        maps, tail = {}, []
        ax = 0
        lead_slices = 0
        seen = False
        for k in ks:
            if k[0] in ('mask', 'filt'):
                if lead_slices and not seen:
                    lead = lead_slices
                seen = True
                if k[0] == 'mask':
                    for q in range(k[1].rank):
                        maps[ax] = t.ix(q)
                        ax += 1
                else:
                    maps[ax] = I.norm_index(k[1].body, a.dims[ax])
                    ax += 1
            elif k[0] == 'int':
                maps[ax] = I.norm_index(k[1], a.dims[ax])
                ax += 1
            elif k[0] == 'slice':
                if not seen:
                    lead_slices += 1
                start, ln, sg = I.norm_slice(k[1], a.dims[ax])
                j = t.ix(n + len(tail))
                maps[ax] = t.add(start, t.mul(num(sg), j))
                tail.append(ln)
                ax += 1
            else:
                raise Unsupported('newaxis with mask')
        if lead_slices:
            if lead_slices == 1 and len(tail) == 1:
                return TFilt(Filt(fdims, mask, ix_map(a.body, maps), tail, a.dtype))
            raise Unsupported('filtered axis not leading')
        # maps of masks use ix(q) of the filter; ints and slices are closed over their own ix
        return Filt(fdims, mask, ix_map(a.body, maps), tail, a.dtype)

    def filt_read(self, st, a, comps, of=None):
        I = self.I
        ks = self.comps(st, comps, a.rank)
        k0 = ks[0]
        n = len(a.dims)
        if k0[0] == 'slice' and all(x is None or x is NONE for x in (k0[1].a, k0[1].b, k0[1].c)):
            m, tail = {}, []
            for q, k in enumerate(ks[1:]):
                if k[0] == 'int':
                    m[n + q] = I.norm_index(k[1], a.tail[q])
                elif k[0] == 'slice':
                    start, ln, sg = I.norm_slice(k[1], a.tail[q])
                    m[n + q] = t.add(start, t.mul(num(sg), t.ix(n + len(tail))))
                    tail.append(ln)
                else:
                    raise Unsupported('index of filtered array')
            r = self.out(st, Filt(a.dims, a.mask, ix_map(a.body, m), tail, a.dtype))
            if isinstance(of, Ref) and isinstance(r, Ref):
                st.heap[r.oid].viewof = (of.oid, m, tuple(tail))
            return r
        if k0[0] == 'maskf' and len(ks) == 1 and k0[1].key() == a.key() and not k0[1].tail:
            return self.out(st, Filt(a.dims, band(a.mask, k0[1].body), a.body, a.tail, a.dtype))
        if k0[0] == 'int' and len(ks) == 1 and self.ranked.get(k0[1], (None,))[0] == a.key():
            m = {q: x for q, x in enumerate(self.ranked[k0[1]][1])}
            for q in range(len(a.tail)):
                m[n + q] = t.ix(q)
            return self.out(st, Arr(a.tail, ix_map(a.body, m), a.dtype))
        if k0[0] == 'int':
            i = k0[1]
            some = self.reduce_all_axes(Filt(a.dims, a.mask, a.mask, (), 'b'), 'any')
            if i is ZERO or (i.op == 'num' and i.args[0] == -1):
                I.maybe_raise(st, bnot(some), 'IndexError', 'index out of bounds for empty selection')
                op = 'first' if i is ZERO else 'last'
                xs = [t.sym(t.fresh('k'), 'int') for _ in range(n)]
                pts = self.pick_point(op, a, xs)
                m = {q: pts[q] for q in range(n)}
                for q in range(len(a.tail)):
                    m[n + q] = t.ix(q)
                body = ix_map(a.body, m)
                r = Arr(a.tail, body, a.dtype)
                if len(ks) > 1 and a.tail:
                    ref = self.out(st, r)
                    rest = list(comps[1:])
                    return self.index_read(st, ref, rest) if rest else ref
                return self.out(st, r)
            # k-th selected element
            if n == 1 and not a.tail:
                k = t.sym(t.fresh('k'), 'int')
                j = t.sym(t.fresh('k'), 'int')
                mk_k = ix_map(a.mask, {0: k})
                rank = t.mk_sum(j, a.dims[0], t.to_num(band(ix_map(a.mask, {0: j}), t.gt(k, j))))
                cond = band(mk_k, t.eq(rank, I.norm_index(i, self.length(a))))
                return t.mk_pick('first', a.dtype if a.dtype in 'bi' else 'n', k, a.dims[0], cond, ix_map(a.body, {0: k}))
        if k0[0] == 'mask' and len(ks) == 1:
            pass
        if k0[0] == 'slice':
            start, ln, sg = I.norm_slice(k0[1], self.length(a))
            if sg != 1:
                raise Unsupported('slice of filtered array')
            rank = self.point_rank(a, [t.ix(q) for q in range(n)])
            f = Filt(a.dims, t.conj([a.mask, t.ge(rank, start), t.gt(t.add(start, ln), rank)]), a.body, a.tail, a.dtype)
            if len(ks) == 1:
                return self.out(st, f)
            return self.filt_read(st, f, [SliceV(None, None, None)] + list(comps[1:]))
        raise Unsupported('index of filtered array')

    def point_rank(self, a, pts):
        """number of selected points lexicographically before pts"""
        n = len(a.dims)
        js = [t.sym(t.fresh('k'), 'int') for _ in range(n)]
        m = {q: js[q] for q in range(n)}
        less = FALSE
        for q in reversed(range(n)):
            less = t.bor(t.gt(pts[q], js[q]), band(t.eq(pts[q], js[q]), less))
        c = t.to_num(band(ix_map(a.mask, m), less))
        for q in reversed(range(n)):
            c = t.mk_sum(js[q], ix_map(a.dims[q], m), c)
        return c

    def pick_point(self, op, a, xs):
        """coordinates of the first/last selected point in lexicographic order"""
        n = len(a.dims)
        pts = []
        for q in range(n):
            m = {i: (pts[i] if i < q else xs[i]) for i in range(n)}
            cond = ix_map(a.mask, m)
            for j in reversed(range(q + 1, n)):
                cond = t.mk_any(xs[j], ix_map(a.dims[j], m), cond)
            pts.append(t.mk_pick(op, 'i', xs[q], ix_map(a.dims[q], m), cond, xs[q]))
        return pts

    # ------------------------------------------------------------ writing
    def filt_write(self, st, v, base, comps, w):
        I = self.I
        if w is None:
            raise Unsupported('store of non-numeric value')
        n = len(base.dims)
        ks = self.comps(st, comps, base.rank)
        guard = TRUE
        if ks[0][0] == 'maskf' and len(ks) == 1 and ks[0][1].key() == base.key() and not ks[0][1].tail and not base.tail:
            guard = t.truthy(ks[0][1].body)
            if isinstance(w, Filt) or w.rank:
                raise Unsupported('store of array at filtered points')
            val = w.body
        else:
            full = lambda k: k[0] == 'slice' and all(x is None or x is NONE for x in (k[1].a, k[1].b, k[1].c))
            if not full(ks[0]) or not all(k[0] == 'int' or full(k) for k in ks[1:]):
                raise Unsupported('write to filtered array')
            left = []
            for q, k in enumerate(ks[1:]):
                if k[0] == 'int':
                    self.bound_check(st, k[1], base.tail[q])
                    guard = band(guard, t.eq(t.ix(n + q), I.norm_index(k[1], base.tail[q])))
                else:
                    left.append(n + q)
            if isinstance(w, Filt):
                if w.key() != base.key() or len(w.tail) != len(left):
                    raise Unsupported('store of another filtered array')
                val = ix_map(w.body, {n + q: t.ix(x) for q, x in enumerate(left)})
            elif w.rank == 0:
                val = w.body
            elif w.rank <= len(left):
                off = len(left) - w.rank
                val = ix_map(w.body, {q: t.ix(left[off + q]) for q in range(w.rank)})
            else:
                raise Unsupported('store of array over filtered points')
        old = st.heap[v.oid]
        kids = [(k, o) for k, o in st.heap.items() if getattr(o, 'viewof', None) is not None and o.viewof[0] == v.oid]
        new = mk_ite(guard, self.coerce(st, val, base.dtype, w.dtype), base.body)
        r = ArrObj(Filt(base.dims, base.mask, new, base.tail, base.dtype), old.origin)
        up = getattr(old, 'viewof', None)
        if up is not None:
            oid, m, tail = up
            r.viewof = up
            b = st.heap[oid].arr
            # the viewed part of the base takes the new values
            g, back = TRUE, {}
            for q, e in m.items():
                j = [x for x in range(n, n + len(tail)) if e is t.ix(x)]
                if j:
                    back[j[0]] = t.ix(q)
                else:
                    g = band(g, t.eq(t.ix(q), e))
            if len(back) != len(tail):
                raise Unsupported('write through a view of a filtered array')
            ub = ArrObj(Filt(b.dims, b.mask, mk_ite(g, ix_map(new, back), b.body), b.tail, b.dtype), st.heap[oid].origin)
            if getattr(st.heap[oid], 'viewof', None) is not None:
                raise Unsupported('view of a view of a filtered array')
            st.heap[oid] = ub
            for k, o in list(st.heap.items()):
                if k != v.oid and getattr(o, 'viewof', None) is not None and o.viewof[0] == oid:
                    self.reread(st, k, o, ub.arr)
        st.heap[v.oid] = r
        for k, o in kids:
            if any(getattr(q, 'viewof', None) is not None and q.viewof[0] == k for q in st.heap.values()):
                raise Unsupported('write to a filtered array with views of views')
            self.reread(st, k, o, r.arr)

    def reread(self, st, oid, o, base):
        """a view of a filtered array follows a write to it"""
        _, m, tail = o.viewof
        q = ArrObj(Filt(base.dims, base.mask, ix_map(base.body, m), tail, base.dtype), o.origin)
        q.viewof = o.viewof
        st.heap[oid] = q

    def coerce(self, st, body, dtype, src):
        if dtype == 'i' and src == 'f':
            return t.fn1('int', body)
        if dtype == 'b':
            return t.truthy(body)
        if src == 'b' and dtype in 'if':
            return t.to_num(body)
        return body

    def write_all(self, st, v, val):
        self.index_write(st, v, [ELLIPSIS], val)

    def index_write(self, st, v, comps, val):
        I = self.I
        if isinstance(v, Ref):
            base = st.heap[v.oid].arr
            if isinstance(base, Filt):
                w = I.get_arr(st, val)
                if len(comps) == 1 and comps[0] is ELLIPSIS and w is not None:
                    r = self.zip2(st, lambda p, q: q, base, w)
                    if r is not None:
                        st.heap[v.oid] = ArrObj(Filt(base.dims, base.mask, r.body, base.tail, base.dtype))
                        return
                return self.filt_write(st, v, base, comps, w)
            view = AView(v.oid, [t.ix(k) for k in range(base.rank)], base.dims)
        else:
            view = v
            base = st.heap[v.oid].arr
            if isinstance(base, Filt):
                raise Unsupported('write to filtered array')
        rank = len(view.dims)
        ks = self.comps(st, comps, rank)
        w = I.get_arr(st, val)
        if w is None:
            raise Unsupported('store of non-numeric value')
        if any(k[0] == 'mask' and k[1].body is FALSE for k in ks):
            return
        if any(k[0] == 'mask' and k[1].body is TRUE for k in ks):
            full = ('slice', SliceV(None, None, None))
            ks = [x for k in ks for x in ([full] * k[1].rank if k[0] == 'mask' and k[1].body is TRUE else [k])]
        guard = TRUE
        binders = []      # (sym, dim) existentially bound selection variables
        sel_dims = []     # selection axes (dim) for broadcasting the value
        sel_ix = []       # term giving the coordinate along each selection axis (in view ix)
        ax = 0
        group = None      # advanced group coordinates
        adv = [k for k in ks if k[0] in ('mask', 'iarr', 'filt')]
        gdims, gvars = [], []
        gmask = TRUE
        filt_key = None
        if adv:
            kinds = {k[0] for k in adv}
            if kinds <= {'filt'} or kinds == {'mask'} or kinds == {'iarr'}:
                if kinds == {'filt'}:
                    f = adv[0][1]
                    if len({k[1].key() for k in adv}) != 1:
                        raise Unsupported('store with two filters')
                    gvars = [t.sym(t.fresh('w'), 'int') for _ in f.dims]
                    m = {i: x for i, x in enumerate(gvars)}
                    gdims = [ix_map(d, m) for d in f.dims]
                    gmask = ix_map(f.mask, m)
                    filt_key = f.key()
                elif kinds == {'mask'}:
                    if len(adv) != 1:
                        raise Unsupported('store with two masks')
                    filt_key = (adv[0][1].dims, adv[0][1].body)
                else:
                    nb = max(k[1].rank for k in adv)
                    dims = None
                    for k in adv:
                        y = self.align(k[1], nb)
                        dims = list(y.dims) if dims is None else [p if q is ONE else q for p, q in zip(dims, y.dims)]
                    gvars = [t.sym(t.fresh('w'), 'int') for _ in dims]
                    gdims = dims
            else:
                raise Unsupported('mixed advanced store')
        contiguous = True
        if adv:
            pos = [i for i, k in enumerate(ks) if k[0] in ('mask', 'iarr', 'filt', 'int')]
            contiguous = all(ks[i][0] not in ('slice', 'new') for i in range(min(pos), max(pos) + 1))
        placed = False
        lead_axes = []
        eqs = TRUE
        mask_ix = []
        def place():
            nonlocal placed
            if not placed:
                placed = True
                sel_dims.append(('group',))
                sel_ix.append(None)
        if adv and not contiguous:
            place()
        for k in ks:
            if k[0] == 'int':
                if adv and contiguous and not placed and any(kk[0] in ('mask', 'iarr', 'filt') for kk in ks):
                    place()
                self.bound_check(st, k[1], view.dims[ax])
                guard = band(guard, t.eq(t.ix(ax), I.norm_index(k[1], view.dims[ax])))
                ax += 1
            elif k[0] == 'new':
                sel_dims.append(ONE)
                sel_ix.append(ZERO)
            elif k[0] == 'slice':
                start, ln, sg = I.norm_slice(k[1], view.dims[ax])
                j = t.sub(t.ix(ax), start) if sg >= 1 else t.sub(start, t.ix(ax))
                if sg > 1:
                    guard = band(guard, t.ge(t.ix(ax), start))
                    guard = band(guard, t.eq(t.mod(j, num(sg)), ZERO))
                    j = t.floordiv(j, num(sg))
                    guard = band(guard, t.gt(ln, j))
                if not (start is ZERO and ln is view.dims[ax]) and sg == 1:
                    if start is not ZERO:
                        guard = band(guard, t.ge(t.ix(ax), start))
                    if t.add(start, ln) is not view.dims[ax]:
                        guard = band(guard, t.gt(t.add(start, ln), t.ix(ax)))
                sel_dims.append(ln)
                sel_ix.append(j)
                ax += 1
            elif k[0] == 'mask':
                place()
                r = k[1].rank
                guard = band(guard, ix_map(k[1].body, {q: t.ix(ax + q) for q in range(r)}))
                mask_ix = [t.ix(ax + q) for q in range(r)]
                for q in range(r):
                    d1, d2 = k[1].dims[q], view.dims[ax + q]
                    if d1 is not d2:
                        I.maybe_raise(st, bnot(t.eq(d1, d2)), 'IndexError', 'boolean index did not match')
                ax += r
            elif k[0] == 'filt':
                place()
                m = {i: x for i, x in enumerate(gvars)}
                eqs = band(eqs, t.eq(t.ix(ax), I.norm_index(ix_map(k[1].body, m), view.dims[ax])))
                ax += 1
            elif k[0] == 'iarr':
                place()
                y = self.align(k[1], len(gdims))
                b = self.spread(y, gdims)
                b = ix_map(b, {i: x for i, x in enumerate(gvars)})
                eqs = band(eqs, t.eq(t.ix(ax), I.norm_index(b, view.dims[ax])))
                ax += 1
        # value as a function of view ix and gvars
        body = self.value_at(st, w, sel_dims, sel_ix, gvars, gdims, mask_ix, filt_key)
        body = self.coerce(st, body, base.dtype, w.dtype)
        if gvars:
            cond = band(gmask, eqs)
            ex = cond
            for x, d in reversed(list(zip(gvars, gdims))):
                ex = t.mk_any(x, d, ex)
            for q in range(len(gvars)):
                # resolve the binders one by one (last write wins)
                x, d = gvars[q], gdims[q]
                c = cond
                for y, dy in reversed(list(zip(gvars[q + 1:], gdims[q + 1:]))):
                    c = t.mk_any(y, dy, c)
                k = t.mk_pick('last', 'i', x, d, c, x)
                body = t.subst(body, {x: k})
                cond = t.subst(cond, {x: k})
                gdims = [t.subst(z, {x: k}) for z in gdims]
            guard = band(guard, ex)
        # transport from view coordinates to base coordinates
        inv = {}
        vguard = TRUE
        for k, m in enumerate(view.maps):
            vs = [x for x in t.fs(m) if x.op == 'ix']
            if not vs:
                vguard = band(vguard, t.eq(t.ix(k), m))
                continue
            if len(vs) > 1:
                raise Unsupported('write through skewed view')
            x = vs[0]
            c = t.sub(m, x)
            if x not in t.fs(c):
                e = t.sub(t.ix(k), c)
            else:
                c = t.add(m, x)
                if x in t.fs(c):
                    raise Unsupported('write through scaled view')
                e = t.sub(c, t.ix(k))
            if x.args[0] in inv:
                raise Unsupported('write through diagonal view')
            inv[x.args[0]] = e
            d = view.dims[x.args[0]]
            if not (e is t.ix(k) and d is base.dims[k]):
                if e is not t.ix(k):
                    vguard = band(vguard, t.ge(e, ZERO))
                last = t.sub(d, e)
                full = t.sub(base.dims[k], t.ix(k))
                if last is not full:
                    vguard = band(vguard, t.gt(d, e))
        for j in range(rank):
            inv.setdefault(j, ZERO)
        g = band(vguard, ix_map(guard, inv))
        nb = mk_ite(g, ix_map(body, inv), base.body)
        I.event(st, 'arrwrite', (view.oid, g, comps, val))
        st.heap[view.oid] = ArrObj(Arr(base.dims, nb, base.dtype), st.heap[view.oid].origin)

    def value_at(self, st, w, sel_dims, sel_ix, gvars, gdims, mask_ix, filt_key):
        """element of the stored value for the selection coordinates"""
        I = self.I
        if isinstance(w, Filt):
            if filt_key is not None and w.key() == filt_key:
                coords = list(gvars) if gvars else list(mask_ix)
                m = {i: x for i, x in enumerate(coords)}
                n = len(w.dims)
                rest = [x for d, x in zip(sel_dims, sel_ix) if not (isinstance(d, tuple))]
                if len(rest) < len(w.tail):
                    raise Unsupported('filtered value')
                rest = rest[len(rest) - len(w.tail):]
                for j, x in enumerate(rest):
                    m[n + j] = ZERO if w.tail[j] is ONE else x
                return ix_map(w.body, m)
            raise Unsupported('store of a filtered value')
        if w.rank == 0:
            return w.body
        dims, coords = [], []
        for d, x in zip(sel_dims, sel_ix):
            if isinstance(d, tuple):
                if gvars and filt_key is None:
                    dims.extend(gdims)
                    coords.extend(gvars)
                else:
                    dims.append(None)
                    coords.append(None)
            else:
                dims.append(d)
                coords.append(x)
        # strip leading unit axes of the value
        while w.rank > len(dims) and w.dims[0] is ONE:
            w = Arr([ix_shift(d, 0, -1) for d in w.dims[1:]], ix_shift(ix_map(w.body, {0: ZERO}), 1, -1), w.dtype)
        if w.rank > len(dims):
            I.do_raise(st, 'ValueError', lit('could not broadcast input array'))
        off = len(dims) - w.rank
        m = {}
        for j in range(w.rank):
            d, x = dims[off + j], coords[off + j]
            if w.dims[j] is ONE and d is not ONE:
                m[j] = ZERO
                continue
            if d is None:
                raise Unsupported('array stored through a mask')
            if w.dims[j] is not d:
                I.maybe_raise(st, bnot(t.eq(w.dims[j], d)), 'ValueError', 'could not broadcast input array')
            m[j] = x
        return ix_map(w.body, m)

    # ------------------------------------------------------------ attributes
    def shape_of(self, st, v):
        a = self.I.get_arr(st, v)
        if isinstance(a, Filt):
            return (self.length(a),) + a.tail
        return a.dims

    def attr(self, st, v, name):
        I = self.I
        if name == 'shape':
            return TupleV(self.shape_of(st, v))
        if name == 'ndim':
            return num(I.get_arr(st, v).rank)
        if name == 'size':
            r = ONE
            for d in self.shape_of(st, v):
                r = t.mul(r, d)
            return r
        if name == 'T':
            return self.transpose(st, v)
        if name == 'dtype':
            return ExtV('dtype.' + I.get_arr(st, v).dtype)
        if name == 'flat':
            return self.call_method(st, v, 'ravel', [], {})
        return MethV(name, v)

    def transpose(self, st, v, perm=None):
        I = self.I
        a = I.get_arr(st, v)
        if isinstance(a, Filt):
            if a.rank == 1:
                return v
            raise Unsupported('transpose of filtered array')
        r = a.rank
        perm = list(reversed(range(r))) if perm is None else perm
        inv = {perm[j]: t.ix(j) for j in range(r)}
        dims = [a.dims[p] for p in perm]
        if isinstance(v, Ref):
            return AView(v.oid, [inv[k] for k in range(r)], dims)
        if isinstance(v, AView):
            m = {k: inv[k] for k in range(r)}
            return AView(v.oid, [ix_map(x, m) for x in v.maps], dims)
        return self.out(st, Arr(dims, ix_map(a.body, inv), a.dtype))

    def scalar_attr(self, st, v, name):
        if v.op == 'lit' and isinstance(v.args[0].v, str) or v.op == 'app' and v.args[0] == 'fmt' or (v.op == 'sym' and v.args[1] == 'str'):
            return MethV(name, v)
        if name == 'shape':
            return TupleV(())
        if name == 'ndim':
            return ZERO
        if name == 'size':
            return ONE
        if name == 'T':
            return v
        return MethV(name, v)
