"""Obligations over abstract runs and their three-valued decision."""
import ast
import json
import os
import sys
import time
import traceback
from . import terms as t
from .terms import T, TRUE, FALSE, num, bnot, band, restrict
from .values import *
from .engine import Engine, Run
from .evalterm import Model, Conc, Undef, same, vague
from .interp import is_scalar

PROVED, AGREE, VIOLATED, UNDECIDED = 'proved', 'agree', 'violated', 'undecided'


class AnchorLost(Exception):
    """a public entry point the property is about does not exist any more"""


class Ob:
    def __init__(self, name, where):
        self.name, self.where = name, where
        self.status, self.detail, self.samples = None, '', 0

    def as_dict(self):
        d = dict(obligation=self.name, where=self.where, status=self.status)
        if self.detail:
            d['detail'] = self.detail
        if self.samples:
            d['interpretations'] = self.samples
        return d


class Checker:
    def __init__(self, prop, root='/repo', tier='quick'):
        self.prop, self.root, self.tier = prop, root, tier
        self.obs = []
        self.scen = []
        self.pending = None
        self.on_finish = None
        self.E = Engine(root)
        self.doms, self.arrgens = {}, {}
        self.want_samples = 24 if tier == 'quick' else 120
        self.max_tries = 400 if tier == 'quick' else 3000
        self.maxdim = 4 if tier == 'quick' else 5
        self.time_cap = 60 if tier == 'quick' else 300
        self.functions = set()
        self.started = time.time()
        self.deadline = 480 if tier == 'quick' else 3000

    # ------------------------------------------------------------ anchors
    def func(self, mod, qual, kind=None):
        """source location of a function or method; raises AnchorLost"""
        m = self.E.project.modules.get(mod)
        if m is None:
            raise AnchorLost('module %s' % mod)
        node = m.tree
        for part in qual.split('.'):
            found = None
            for n in ast.walk(node) if node is m.tree else node.body:
                if isinstance(n, (ast.FunctionDef, ast.ClassDef)) and n.name == part:
                    if kind == 'setter' and isinstance(n, ast.FunctionDef) and not any(
                            isinstance(d, ast.Attribute) and d.attr == 'setter' for d in n.decorator_list):
                        continue
                    found = n
                    break
            if found is None:
                raise AnchorLost('%s.%s' % (mod, qual))
            node = found
        return '%s:%d %s%s' % (m.path, node.lineno, qual, ' (setter)' if kind == 'setter' else '')

    def where(self, spec):
        if spec is None:
            return ''
        if isinstance(spec, (list, tuple)):
            return '; '.join(self.where(x) for x in spec)
        mod, _, qual = spec.partition(':')
        if mod.endswith('.py'):
            return spec
        kind = None
        if qual.endswith('='):
            qual, kind = qual[:-1], 'setter'
        try:
            return self.func(mod, qual, kind)
        except AnchorLost:
            return '%s (%s)' % (spec, 'moved')

    def need(self, mod, name):
        """public entry point that must exist"""
        self.func(mod, name)

    def late(self):
        el = time.time() - self.started
        return el > self.deadline or el > self.deadline / 6 and any(o.status == VIOLATED for o in self.obs)

    # ------------------------------------------------------------ scenarios
    def run(self, name, src, inputs=None, doms=None, arrgens=None, assume=TRUE):
        if not isinstance(src, str):
            src = J(*src)
        self.doms.update(doms or {})
        self.arrgens.update(arrgens or {})
        self.finish()
        rec = dict(scenario=name, status='ok')
        self.scen.append(rec)
        if self.late():
            rec['status'] = 'undecided: out of time'
            return None
        t0 = time.time()
        I = self.E.I
        t.LIMIT[0] = t._next[0] + 400000
        try:
            r = self.E.run(src, inputs, assume=assume)
            if r.st.dead and not r.raises:
                rec['status'] = 'dead'
        except (Unsupported, t.TooBig, RecursionError) as e:
            rec['status'] = 'undecided: %s: %s' % (type(e).__name__, str(e)[:200])
            if os.environ.get('SA_DEBUG'):
                for fr in traceback.extract_tb(e.__traceback__)[-40:]:
                    print('   ', os.path.basename(fr.filename), fr.lineno, fr.name)
            r = None
        except Dead:
            rec['status'] = 'dead'
            r = None
        except AnchorLost:
            raise
        except Exception as e:
            tb = traceback.extract_tb(e.__traceback__)[-1]
            rec['status'] = 'undecided: analyser error %s: %s (%s:%d)' % (type(e).__name__, str(e)[:200], os.path.basename(tb.filename), tb.lineno)
            if os.environ.get('SA_DEBUG'):
                traceback.print_exc()
            r = None
        finally:
            t.LIMIT[0] = 1 << 60
        rec['seconds'] = round(time.time() - t0, 2)
        if r is not None:
            r.scenario = name
            self.pending = r
            rec['unsupported'] = [str(x)[:160] for x in I.unsupported[:5]] if getattr(I, 'unsupported', None) else []
        return r

    def finish(self):
        """close the last scenario: unless a rule has looked at its exceptions, it must complete"""
        r, self.pending = self.pending, None
        if r is not None and self.on_finish is not None:
            self.on_finish(self, r)

    # ------------------------------------------------------------ obligations
    def add(self, name, where):
        o = Ob(name, self.where(where))
        self.obs.append(o)
        return o

    def undecided(self, name, where, why):
        o = self.add(name, where)
        o.status, o.detail = UNDECIDED, why
        return o

    def fail(self, name, where, why):
        o = self.add(name, where)
        o.status, o.detail = VIOLATED, why
        return o

    def ok(self, name, where, why=''):
        o = self.add(name, where)
        o.status, o.detail = PROVED, why
        return o

    def models(self, pc, extra=()):
        """interpretations that satisfy pc"""
        t0 = time.time()
        hits = 0
        # at least want_samples of them, and while they are cheap up to eight times as many
        soft = float(os.environ.get('SA_SOFT', 1.5 if self.tier == 'quick' else 4))
        for k in range(self.max_tries * 4):
            spent = time.time() - t0
            if hits >= self.want_samples and (spent > soft or hits >= 8 * self.want_samples):
                break
            if k >= self.max_tries and spent > soft:
                break
            if spent > (3 if self.late() else self.time_cap):
                break
            if k > 60 and hits == 0 and time.time() - t0 > self.time_cap / 4:
                break
            m = Model(k, self.doms, self.arrgens, 3 if k % 2 else self.maxdim)
            try:
                if m.go(pc, {}) is not True:
                    continue
            except (Undef, OverflowError, ZeroDivisionError):
                continue
            hits += 1
            yield m
        t0 = time.time()
        for j, hint in enumerate([] if self.late() else self.hints()):
            hits = 0
            t1 = time.time()
            for k in range(2400):
                if hits >= max(6, self.want_samples // 2) and (time.time() - t1 > soft / 2 or hits >= 4 * self.want_samples):
                    break
                if k >= 600 and time.time() - t1 > soft / 2 or time.time() - t0 > self.time_cap / 4:
                    break
                m = Model(5000 + 1000 * j + k, self.doms, self.arrgens, 3)
                m.hint = hint
                m.budget = 400000
                try:
                    if m.go(pc, {}) is not True:
                        continue
                except (Undef, OverflowError, ZeroDivisionError):
                    continue
                hits += 1
                yield m

    def hints(self):
        """constants that the analysed functions compare with: interpretations are also drawn around them"""
        key = len(self.E.I.funcs_seen)
        if getattr(self, '_hints', (None,))[0] != key:
            self._hints = (key, source_constants(self.E.project, self.E.I.funcs_seen))
        return self._hints[1]

    def describe(self, m, limit=14):
        out = {}
        for k, v in list(m.syms.items())[:limit]:
            if '#' not in k:
                out[k] = v if not isinstance(v, tuple) else str(v)
        return out

    def always(self, name, where, st, cond, why=''):
        """cond (bool term) must hold whenever st is reached"""
        o = self.add(name, where)
        if st.dead:
            o.status, o.detail = PROVED, 'unreachable'
            return o
        c = restrict(cond, st.pc)
        if c is TRUE or band(st.pc, bnot(cond)) is FALSE:
            o.status = PROVED
            return o
        self.decide(o, st, lambda m: (m.go(cond, {}), True), vague(cond) | self.vpc(st.pc), why)
        return o

    def vpc(self, pc):
        return vague(pc)

    def never(self, name, where, st, why=''):
        """state st must be unreachable"""
        o = self.add(name, where)
        if st.dead or st.pc is FALSE:
            o.status = PROVED
            return o
        pc = close(st.pc)
        if pc is FALSE:
            o.status = PROVED
            return o
        self.decide(o, Closed(pc), lambda m: (True, False), self.vpc(pc), why, reach=True)
        return o

    def equal(self, name, where, st, got, want, why='', st2=None):
        o = self.add(name, where)
        st2 = st2 or st
        if st.dead:
            o.status, o.detail = PROVED, 'unreachable'
            return o
        if self.samenf(st, got, st2, want):
            o.status = PROVED
            return o
        vg = set()

        def f(m):
            ca, cb = Conc(m, st), Conc(m, st2)
            try:
                return ca(got), cb(want)
            finally:
                vg.update(ca.vague | cb.vague)
        self.decide(o, st, f, vg, why)
        return o

    def decide(self, o, st, f, vg, why, reach=False):
        n = 0
        undef = None
        for m in self.models(st.pc):
            try:
                a, b = f(m)
            except (Undef, OverflowError, ZeroDivisionError, KeyError, IndexError, AttributeError, TypeError, ValueError) as e:
                undef = '%s: %s' % (type(e).__name__, e)
                continue
            n += 1
            if not same(a, b):
                if vg & {'opaque'} or any(x.startswith('uf:') or x.startswith('ext') for x in vg):
                    o.status = UNDECIDED
                    o.detail = 'differs only modulo unmodelled operators %s' % sorted(vg)[:4]
                    return
                o.status = VIOLATED
                o.detail = (why + '; ' if why else '') + ('reachable' if reach else 'computed %s, required %s' % (brief(a), brief(b))) + ' with %s' % self.describe(m)
                o.samples = n
                return
        o.samples = n
        if reach:
            o.status = AGREE
            o.detail = 'no interpretation reaches it'
            return
        if n >= 5:
            o.status = AGREE
        else:
            o.status = UNDECIDED
            o.detail = 'only %d interpretations defined (%s)' % (n, undef)

    # ------------------------------------------------------------ normal forms
    def samenf(self, st, a, st2, b):
        I = self.E.I
        try:
            if is_scalar(a) and is_scalar(b):
                return restrict(a, st.pc) is restrict(b, st2.pc) if a is not b else True
            if isinstance(a, TupleV) and isinstance(b, TupleV):
                return len(a.items) == len(b.items) and all(self.samenf(st, x, st2, y) for x, y in zip(a.items, b.items))
            x, y = I.get_arr(st, a), I.get_arr(st2, b)
            if isinstance(x, Arr) and isinstance(y, Arr):
                return x.dims == y.dims and restrict(t.to_num(x.body), st.pc) is restrict(t.to_num(y.body), st2.pc)
            if isinstance(x, Filt) and isinstance(y, Filt):
                return (x.dims, x.mask, x.body, x.tail) == (y.dims, y.mask, y.body, y.tail)
        except Exception:
            return False
        return False

    # ------------------------------------------------------------ report
    def in_repo(self, loc):
        return loc is not None and not str(loc[0]).startswith('<')


class Closed:
    def __init__(self, pc):
        self.pc, self.dead = pc, pc is FALSE


def close(pc):
    """existential closure over the loop iterations the condition talks about"""
    free = sorted({x.args[0] for x in t.subterms(pc) if x.op == 'sym' and x.args[0] in t.BOUND}, key=lambda n: -int(n.split('#')[-1]) if '#' in n else 0)
    for n in free:
        d = t.BOUND[n]
        if d is t.INF:
            continue
        try:
            pc = t.mk_any(t.sym(n, 'int'), d, pc)
        except t.TooBig:
            return pc
    return pc


CALLS = {'min', 'max', 'range', 'clip', 'minimum', 'maximum'}


def source_constants(project, funcs):
    """numeric literals between 4 and 40 (or non-integers) that steer control or clip values in the analysed functions, and module-level ones"""
    out = set()

    def take(n, lo=4):
        if isinstance(n, ast.UnaryOp) and isinstance(n.op, ast.USub):
            n = n.operand
        if isinstance(n, ast.Constant) and type(n.value) in (int, float):
            v = n.value
            if isinstance(v, int) and lo <= v <= 40 or isinstance(v, float) and 1e-3 <= v <= 1e6 and v not in (0.5, 1.0):
                out.add(v)
        elif isinstance(n, ast.BinOp):
            take(n.left, lo), take(n.right, lo)
    seen = {}
    for path, qual in funcs:
        seen.setdefault(path, set()).add(qual.split('.')[-1])
    for m in project.modules.values():
        names = seen.get(m.path)
        if not names:
            continue
        for b in m.tree.body:
            for x in (b.body if isinstance(b, ast.ClassDef) else [b]):
                if isinstance(x, (ast.Assign, ast.AnnAssign)) and x.value is not None:
                    take(x.value)
        for f in ast.walk(m.tree):
            if not (isinstance(f, ast.FunctionDef) and f.name in names):
                continue
            for b in f.body:
                for n in ast.walk(b):
                    if isinstance(n, ast.Compare):
                        for x in [n.left] + n.comparators:
                            take(x)
                    elif isinstance(n, ast.BinOp) and isinstance(n.op, (ast.Mod, ast.FloorDiv, ast.BitAnd, ast.RShift)):
                        take(n.right)
                    elif isinstance(n, ast.Slice):
                        for x in (n.lower, n.upper):
                            if x is not None:
                                take(x)
                    elif isinstance(n, ast.Call):
                        nm = n.func.attr if isinstance(n.func, ast.Attribute) else getattr(n.func, 'id', '')
                        if nm in CALLS:
                            for x in n.args:
                                take(x)
                    elif isinstance(n, ast.Assign):
                        take(n.value, 7)
    return sorted(out, key=lambda v: (isinstance(v, float), v))[:4]


def J(*parts):
    import textwrap
    return '\n'.join(textwrap.dedent(p).strip('\n') for p in parts) + '\n'


def brief(v, n=160):
    s = json.dumps(rnd(v), default=str)
    return s if len(s) <= n else s[:n] + '…'


def rnd(v):
    if isinstance(v, bool):
        return v
    if isinstance(v, float):
        return float('%.4g' % v)
    if isinstance(v, (tuple, list)):
        return [rnd(x) for x in v]
    if isinstance(v, dict):
        return {str(k): rnd(x) for k, x in v.items()}
    return v
