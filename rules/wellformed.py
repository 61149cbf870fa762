"""Rule about the calls, names and attributes inside the repository fitting together (resolution over the syntax trees)."""
import ast
import builtins
from .common import *

KEEPSIG = {'staticmethod', 'classmethod', 'abstractmethod', 'njit', 'jit', 'property', 'setter', 'wraps', 'cached_property', 'lru_cache', 'cache', 'overload'}


def deconame(d):
    while isinstance(d, ast.Call):
        d = d.func
    return d.attr if isinstance(d, ast.Attribute) else getattr(d, 'id', None)


class Cls:
    def __init__(self, mod, node):
        self.mod, self.node, self.name = mod, node, node.name
        self.bases, self.subs, self.open = [], [], False
        self.methods, self.attrs = {}, set()

    def mro(self):
        out, todo = [], [self]
        while todo:
            x = todo.pop(0)
            if x not in out:
                out.append(x)
                todo += x.bases
        return out

    def family(self):
        """all classes an instance seen through this class may have, with their bases"""
        out, todo = [], [self]
        while todo:
            x = todo.pop()
            if x not in out:
                out.append(x)
                todo += x.subs
        res = []
        for x in out:
            for y in x.mro():
                if y not in res:
                    res.append(y)
        return res


class World:
    def __init__(self, project):
        self.mods = project.modules
        self.tops, self.open = {}, {}
        self.attrs = set()
        for n, m in self.mods.items():
            self.top(n)
        self.classes = {}
        for n, m in self.mods.items():
            for x in ast.walk(m.tree):
                if isinstance(x, ast.ClassDef):
                    self.classes[x] = Cls(n, x)
        for x, k in self.classes.items():
            for b in x.bases + [kw.value for kw in x.keywords if kw.arg == 'metaclass' and deconame(kw.value) not in ('ABCMeta',)]:
                d = self.resolve(k.mod, b)
                if isinstance(d, ast.ClassDef):
                    k.bases.append(self.classes[d])
                    self.classes[d].subs.append(k)
                elif deconame(b) not in ('object', 'ABC', 'Exception', 'ValueError'):
                    k.open = True
            for d in x.decorator_list:
                k.open = True
            for y in x.body:
                if isinstance(y, ast.FunctionDef):
                    k.methods.setdefault(y.name, []).append(y)
                    k.attrs.add(self.mangle(k, y.name))
                elif isinstance(y, ast.Assign):
                    for tg in y.targets:
                        k.attrs |= {z.id for z in ast.walk(tg) if isinstance(z, ast.Name)}
                elif isinstance(y, ast.AnnAssign) and isinstance(y.target, ast.Name):
                    k.attrs.add(y.target.id)
                elif isinstance(y, ast.ClassDef):
                    k.attrs.add(y.name)
                elif not isinstance(y, (ast.Expr, ast.Pass)):
                    k.open = True
            for y in ast.walk(x):
                if isinstance(y, ast.Attribute) and isinstance(y.ctx, ast.Store):
                    self.attrs.add(self.mangle(k, y.attr))
                if isinstance(y, ast.FunctionDef) and y.name in ('__getattr__', '__getattribute__', '__setattr__'):
                    k.open = True
        for m in self.mods.values():
            for y in ast.walk(m.tree):
                if isinstance(y, ast.Attribute) and isinstance(y.ctx, ast.Store):
                    self.attrs.add(y.attr)
                if isinstance(y, ast.Call) and deconame(y) in ('setattr', '__dict__', 'update', 'vars'):
                    if deconame(y) in ('setattr', 'vars'):
                        self.attrs.add('*')
                if isinstance(y, ast.Attribute) and y.attr == '__dict__':
                    self.attrs.add('*')

    @staticmethod
    def mangle(k, n):
        return '_%s%s' % (k.name.lstrip('_'), n) if n.startswith('__') and not n.endswith('__') else n

    def absmod(self, mod, node):
        if not node.level:
            return node.module
        parts = mod.split('.')
        path = self.mods[mod].path if mod in self.mods else ''
        if not path.endswith('__init__.py'):
            parts = parts[:-1]
        parts = parts[:len(parts) - (node.level - 1)]
        return '.'.join(parts + ([node.module] if node.module else []))

    def top(self, mod):
        """name -> definition node, ('mod', name), or None when unknown"""
        if mod in self.tops:
            return self.tops[mod]
        out = self.tops[mod] = {}
        self.open[mod] = False
        for s in self.mods[mod].tree.body:
            self.bind(mod, s, out)
        return out

    def bind(self, mod, s, out):
        if isinstance(s, (ast.FunctionDef, ast.ClassDef, ast.AsyncFunctionDef)):
            out[s.name] = s if s.name not in out else None
        elif isinstance(s, ast.Import):
            for a in s.names:
                out[a.asname or a.name.split('.')[0]] = ('mod', a.name) if a.asname else ('mod', a.name.split('.')[0])
        elif isinstance(s, ast.ImportFrom):
            base = self.absmod(mod, s)
            for a in s.names:
                if a.name == '*':
                    if base in self.mods:
                        out.update({k: v for k, v in self.top(base).items() if not k.startswith('_')})
                        self.open[mod] |= self.open[base]
                    else:
                        self.open[mod] = True
                elif base in self.mods:
                    src = self.top(base)
                    if a.name in src:
                        out[a.asname or a.name] = src[a.name]
                    elif base + '.' + a.name in self.mods:
                        out[a.asname or a.name] = ('mod', base + '.' + a.name)
                    else:
                        out[a.asname or a.name] = None
                else:
                    out[a.asname or a.name] = None
        else:
            for x in ast.walk(s):
                if isinstance(x, ast.Name) and isinstance(x.ctx, ast.Store):
                    out[x.id] = None
                elif isinstance(x, (ast.Import, ast.ImportFrom, ast.FunctionDef, ast.ClassDef)) and x is not s:
                    tmp = {}
                    self.bind(mod, x, tmp)
                    out.update({k: None for k in tmp})
                elif isinstance(x, ast.ExceptHandler) and x.name:
                    out[x.name] = None

    def resolve(self, mod, node, local=()):
        if isinstance(node, ast.Name):
            if node.id in local:
                return None
            return self.top(mod).get(node.id)
        if isinstance(node, ast.Attribute):
            b = self.resolve(mod, node.value, local)
            if isinstance(b, tuple) and b[0] == 'mod' and b[1] in self.mods:
                d = self.top(b[1]).get(node.attr)
                if d is None and b[1] + '.' + node.attr in self.mods:
                    return ('mod', b[1] + '.' + node.attr)
                return d
        return None


def stores(fn):
    """names bound in a function's own scope"""
    out, glob = set(), set()

    def args(a):
        for x in a.posonlyargs + a.args + a.kwonlyargs + [y for y in (a.vararg, a.kwarg) if y]:
            out.add(x.arg)

    def go(n):
        if isinstance(n, (ast.FunctionDef, ast.AsyncFunctionDef, ast.ClassDef)):
            out.add(n.name)
            return
        if isinstance(n, ast.Lambda):
            return
        if isinstance(n, (ast.ListComp, ast.SetComp, ast.DictComp, ast.GeneratorExp)):
            for x in ast.walk(n):
                if isinstance(x, ast.NamedExpr):
                    out.add(x.target.id)
            return
        if isinstance(n, ast.Name) and isinstance(n.ctx, (ast.Store, ast.Del)):
            out.add(n.id)
        if isinstance(n, ast.ExceptHandler) and n.name:
            out.add(n.name)
        if isinstance(n, (ast.Import, ast.ImportFrom)):
            for a in n.names:
                out.add(a.asname or a.name.split('.')[0])
        if isinstance(n, (ast.Global, ast.Nonlocal)):
            glob.update(n.names)
        if isinstance(n, (ast.MatchAs, ast.MatchStar)) and n.name:
            out.add(n.name)
        for x in ast.iter_child_nodes(n):
            go(x)
    args(fn.args)
    for s in (fn.body if isinstance(fn.body, list) else [fn.body]):
        go(s)
    return out - glob


def fits(fn, call, bound):
    """None when the call can fit the definition, else what is wrong"""
    a = fn.args
    pos = [x.arg for x in a.posonlyargs + a.args][1 if bound else 0:]
    need = len(pos) - len(a.defaults)
    only = len(a.posonlyargs) - (1 if bound else 0)
    star = any(isinstance(x, ast.Starred) for x in call.args)
    dstar = any(k.arg is None for k in call.keywords)
    n = sum(1 for x in call.args if not isinstance(x, ast.Starred))
    if n > len(pos) and not a.vararg:
        return 'too many positional arguments'
    kws = {k.arg for k in call.keywords if k.arg}
    kwo = {x.arg for x in a.kwonlyargs}
    for k in sorted(kws):
        if k not in pos and k not in kwo and not a.kwarg:
            return 'unknown keyword %s' % k
        if k in pos[:n] and not (a.kwarg and k in pos[:max(only, 0)]):
            return 'argument %s given twice' % k
    if not star and not dstar:
        for i, p in enumerate(pos):
            if i >= n and i < need and p not in kws:
                return 'argument %s missing' % p
        for x, d in zip(a.kwonlyargs, a.kw_defaults):
            if d is None and x.arg not in kws:
                return 'argument %s missing' % x.arg
    return None


class Walk:
    """may-be-assigned analysis of one function: which local names can have a value here"""

    def __init__(self, w, mod, fn, cls, outer):
        self.w, self.mod, self.fn, self.cls = w, mod, fn, cls
        self.local = stores(fn)
        self.outer = outer
        self.problems = []
        self.calls = self.names = 0
        a = fn.args
        self.self_ = None
        if cls is not None and isinstance(fn, ast.FunctionDef) and a.args and not any(deconame(d) in ('staticmethod', 'classmethod') for d in fn.decorator_list):
            n = a.args[0].arg
            if not any(isinstance(x, ast.Name) and x.id == n and isinstance(x.ctx, ast.Store) for x in ast.walk(fn)):
                self.self_ = n
        have = {x.arg for x in a.posonlyargs + a.args + a.kwonlyargs + [y for y in (a.vararg, a.kwarg) if y]}
        if isinstance(fn.body, list):
            self.block(fn.body, have)
        else:
            self.expr(fn.body, have)

    def bad(self, what, node):
        self.problems.append((what, node.lineno))

    # ---------------------------------------------------------------- statements; returns nothing, grows have
    def block(self, ss, have):
        """returns True when the end of the block can be reached"""
        for s in ss:
            if not self.stmt(s, have):
                return False
        return True

    def bindall(self, n, have):
        for x in ast.walk(n):
            if isinstance(x, ast.Name) and isinstance(x.ctx, ast.Store):
                have.add(x.id)
            elif isinstance(x, ast.expr) and not isinstance(x, (ast.Tuple, ast.List, ast.Starred, ast.Name)):
                pass
        for x in ast.iter_child_nodes(n):
            pass

    def targets(self, n, have):
        for x in ast.walk(n):
            if isinstance(x, (ast.Subscript, ast.Attribute)):
                self.expr(x, have)
        self.bindall(n, have)

    def stmt(self, s, have):
        if isinstance(s, (ast.FunctionDef, ast.AsyncFunctionDef)):
            for d in s.decorator_list + s.args.defaults + [x for x in s.args.kw_defaults if x]:
                self.expr(d, have)
            have.add(s.name)
            self.inner(s)
        elif isinstance(s, ast.ClassDef):
            have.add(s.name)
        elif isinstance(s, (ast.Return, ast.Raise)):
            for x in ast.iter_child_nodes(s):
                self.expr(x, have)
            return False
        elif isinstance(s, (ast.Break, ast.Continue)):
            return False
        elif isinstance(s, ast.Assign):
            self.expr(s.value, have)
            self.unpack(s)
            for tg in s.targets:
                self.targets(tg, have)
        elif isinstance(s, ast.AugAssign):
            self.expr(s.value, have)
            if isinstance(s.target, ast.Name):
                self.name(s.target.id, s.target, have)
            else:
                self.targets(s.target, have)
        elif isinstance(s, ast.AnnAssign):
            if s.value is not None:
                self.expr(s.value, have)
                self.targets(s.target, have)
        elif isinstance(s, (ast.For, ast.AsyncFor, ast.While)):
            if isinstance(s, ast.While):
                back = set(have)
                for b in s.body:
                    self.later(b, back)
                self.expr(s.test, back)
            else:
                self.expr(s.iter, have)
                back = set(have)
                for b in s.body:
                    self.later(b, back)
                self.targets(s.target, back)
            self.block(s.body, back)
            have |= back
            self.block(s.orelse, have)
            return not (isinstance(s, ast.While) and isinstance(s.test, ast.Constant) and s.test.value and not any(isinstance(x, ast.Break) for b in s.body for x in ast.walk(b)))
        elif isinstance(s, ast.If):
            self.expr(s.test, have)
            a, b = set(have), set(have)
            x, y = self.block(s.body, a), self.block(s.orelse, b)
            have |= (a if x else set()) | (b if y else set())
            return x or y
        elif isinstance(s, (ast.With, ast.AsyncWith)):
            for i in s.items:
                self.expr(i.context_expr, have)
                if i.optional_vars is not None:
                    self.targets(i.optional_vars, have)
            self.block(s.body, have)
        elif isinstance(s, ast.Try) or s.__class__.__name__ == 'TryStar':
            body = set(have)
            x = self.block(s.body, body)
            inh = set(have)
            for b in s.body:
                self.later(b, inh)
            if x:
                x = self.block(s.orelse, body)
            res = set(have) | body
            ok = x
            for h in s.handlers:
                hh = set(inh)
                if h.type is not None:
                    self.expr(h.type, hh)
                if h.name:
                    hh.add(h.name)
                if self.block(h.body, hh):
                    ok = True
                res |= hh
            have |= res
            if not self.block(s.finalbody, have):
                return False
            return ok
        elif isinstance(s, (ast.Import, ast.ImportFrom)):
            for a in s.names:
                have.add(a.asname or a.name.split('.')[0])
        elif isinstance(s, (ast.Global, ast.Nonlocal, ast.Pass)):
            pass
        elif isinstance(s, (ast.Expr, ast.Assert, ast.Delete)):
            for x in ast.iter_child_nodes(s):
                self.expr(x, have)
        else:
            self.later(s, have)
        return True

    def later(self, s, have):
        for x in ast.walk(s):
            if isinstance(x, ast.Name) and isinstance(x.ctx, ast.Store):
                have.add(x.id)
            elif isinstance(x, (ast.FunctionDef, ast.ClassDef)):
                have.add(x.name)
            elif isinstance(x, (ast.Import, ast.ImportFrom)):
                for a in x.names:
                    have.add(a.asname or a.name.split('.')[0])
            elif isinstance(x, ast.ExceptHandler) and x.name:
                have.add(x.name)

    def inner(self, fn):
        sub = Walk(self.w, self.mod, fn, None, self.outer | self.local)
        self.problems += sub.problems
        self.calls += sub.calls
        self.names += sub.names

    # ---------------------------------------------------------------- expressions
    def name(self, n, node, have):
        self.names += 1
        if n in self.local:
            if n not in have:
                self.bad('%s is used before it has a value' % n, node)
                have.add(n)
        elif n not in self.outer and n not in self.w.top(self.mod) and not hasattr(builtins, n) and not self.w.open[self.mod] and n not in ('__name__', '__file__', '__class__', '__doc__'):
            self.bad('%s is not defined' % n, node)

    def expr(self, e, have):
        if e is None:
            return
        if isinstance(e, ast.Name):
            if isinstance(e.ctx, ast.Load):
                self.name(e.id, e, have)
            return
        if isinstance(e, ast.Lambda):
            for d in e.args.defaults + [x for x in e.args.kw_defaults if x]:
                self.expr(d, have)
            self.inner(e)
            return
        if isinstance(e, (ast.ListComp, ast.SetComp, ast.GeneratorExp, ast.DictComp)):
            h = set(have)
            loc = self.local
            self.local = set(loc)
            for g in e.generators:
                self.expr(g.iter, h)
                for x in ast.walk(g.target):
                    if isinstance(x, ast.Name):
                        h.add(x.id)
                        self.local.add(x.id)
                for i in g.ifs:
                    self.expr(i, h)
            for x in ([e.key, e.value] if isinstance(e, ast.DictComp) else [e.elt]):
                self.expr(x, h)
            self.local = loc
            return
        if isinstance(e, ast.NamedExpr):
            self.expr(e.value, have)
            have.add(e.target.id)
            return
        if isinstance(e, ast.Call):
            self.call(e)
        if isinstance(e, ast.Attribute) and isinstance(e.ctx, ast.Load):
            self.attr(e)
        for x in ast.iter_child_nodes(e):
            if isinstance(x, (ast.expr, ast.keyword, ast.FormattedValue, ast.Slice, ast.Starred)):
                self.expr(x, have)

    def attr(self, e):
        k = self.cls
        if self.self_ and isinstance(e.value, ast.Name) and e.value.id == self.self_:
            fam = k.family()
            if any(x.open for x in fam) or '*' in self.w.attrs:
                return
            n = self.w.mangle(k, e.attr)
            if n.startswith('__') and n.endswith('__') or n in self.w.attrs or any(n in x.attrs for x in fam) or e.attr in self.w.attrs and n == e.attr:
                return
            self.bad('attribute %s does not exist' % e.attr, e)
            return
        b = self.w.resolve(self.mod, e.value, self.local | self.outer)
        if isinstance(b, tuple) and b[1] in self.w.mods and not self.w.open[b[1]]:
            if e.attr not in self.w.top(b[1]) and b[1] + '.' + e.attr not in self.w.mods and e.attr not in ('__name__', '__file__', '__path__'):
                self.bad('%s has no %s' % (b[1], e.attr), e)

    def signatures(self, e):
        """definitions a call may reach: [(function, bound)], or None when unknown"""
        f = e.func
        d = self.w.resolve(self.mod, f, self.local | self.outer)
        if isinstance(d, ast.FunctionDef):
            return [(d, False)] if self.plain(d) else None
        if isinstance(d, ast.ClassDef):
            return self.ctor(self.w.classes[d])
        if isinstance(f, ast.Attribute):
            k = self.cls
            if self.self_ and isinstance(f.value, ast.Name) and f.value.id == self.self_:
                fam = k.family()
                if any(x.open for x in fam) or self.w.mangle(k, f.attr) in self.w.attrs:
                    return None
                ds = [m for x in fam for m in x.methods.get(f.attr, ())]
                return self.meth(ds)
            if self.self_ and isinstance(f.value, ast.Call) and isinstance(f.value.func, ast.Name) and f.value.func.id == 'super':
                mro = k.mro()[1:]
                if any(x.open for x in k.mro()) or any(len(x.bases) > 1 for x in k.family()):
                    return None
                for x in mro:
                    if f.attr in x.methods:
                        return self.meth(x.methods[f.attr])
        return None

    def meth(self, ds):
        if not ds:
            return None
        out = []
        for d in ds:
            names = {deconame(x) for x in d.decorator_list}
            if names & {'property', 'setter', 'cached_property'} or not self.plain(d):
                return None
            out.append((d, 'staticmethod' not in names))
        return out

    def ctor(self, k):
        if any(x.open for x in k.mro()):
            return None
        for x in k.mro():
            if '__new__' in x.methods:
                return None
            if '__init__' in x.methods:
                return self.meth(x.methods['__init__'])
        return None

    def plain(self, d):
        return all(deconame(x) in KEEPSIG for x in d.decorator_list)

    def call(self, e):
        self.calls += 1
        sig = self.signatures(e)
        if not sig:
            return
        res = [fits(d, e, b) for d, b in sig]
        if all(r is not None for r in res):
            self.bad('call of %s: %s' % (ast.unparse(e.func), res[0]), e)

    def unpack(self, s):
        if len(s.targets) != 1 or not isinstance(s.targets[0], (ast.Tuple, ast.List)) or not isinstance(s.value, ast.Call):
            return
        tg = s.targets[0].elts
        if any(isinstance(x, ast.Starred) for x in tg):
            return
        sig = self.signatures(s.value)
        if not sig or isinstance(self.w.resolve(self.mod, s.value.func, self.local | self.outer), ast.ClassDef):
            return
        ns = set()
        for d, _ in sig:
            n = arity(d)
            if n is None:
                return
            ns |= n
        if ns and len(tg) not in ns:
            self.bad('%s gives %s values, %d are taken' % (ast.unparse(s.value.func), ' or '.join(map(str, sorted(ns))), len(tg)), s)


def arity(fn):
    """numbers of values returned, None when not known"""
    out = set()

    def go(n):
        if isinstance(n, (ast.FunctionDef, ast.Lambda, ast.ClassDef)):
            return True
        if isinstance(n, (ast.Yield, ast.YieldFrom)):
            return False
        if isinstance(n, ast.Return):
            if not isinstance(n.value, ast.Tuple) or any(isinstance(x, ast.Starred) for x in n.value.elts):
                return False
            out.add(len(n.value.elts))
        return all([go(x) for x in ast.iter_child_nodes(n)])
    if not all([go(x) for x in fn.body]):
        return None
    return out


def functions(w):
    for mod, m in sorted(w.mods.items()):
        def go(body, cls, pre):
            for s in body:
                if isinstance(s, (ast.FunctionDef, ast.AsyncFunctionDef)):
                    yield mod, m, s, cls, pre + s.name
                elif isinstance(s, ast.ClassDef):
                    yield from go(s.body, w.classes[s], pre + s.name + '.')
                elif isinstance(s, (ast.If, ast.Try, ast.With)):
                    yield from go(s.body + getattr(s, 'orelse', []), cls, pre)
        yield from go(m.tree.body, None, '')


def C37(c):
    """names, attributes and calls inside the repository resolve to definitions they fit"""
    need_all(c, 'maMDP.environments:Environment', 'maMDP.mdp:MDP')
    w = World(c.E.project)
    calls = names = 0
    for mod, m, fn, cls, q in functions(w):
        x = Walk(w, mod, fn, cls, set())
        calls += x.calls
        names += x.names
        where = '%s:%d %s' % (m.path, fn.lineno, q)
        o = c.add('%s.%s: names, attributes and calls fit' % (mod, q), where)
        probs = sorted(set(p for p, _ in x.problems))
        o.status, o.detail = PROVED, '%d calls, %d names' % (x.calls, x.names)
        for p in probs:
            line = min(l for q_, l in x.problems if q_ == p)
            o = c.add('%s.%s: %s' % (mod, q.split('.')[0], p), '%s:%d %s' % (m.path, line, q))
            o.status, o.detail = VIOLATED, '%s at line %d' % (p, line)
    for mod, m in sorted(w.mods.items()):
        o = c.add('%s: imports exist' % mod, m.path)
        o.status = PROVED
        for s in ast.walk(m.tree):
            if isinstance(s, ast.ImportFrom):
                base = w.absmod(mod, s)
                if base in w.mods and not w.open[base]:
                    for a in s.names:
                        if a.name != '*' and a.name not in w.top(base) and base + '.' + a.name not in w.mods:
                            o = c.add('%s: import of %s from %s' % (mod, a.name, base), '%s:%d' % (m.path, s.lineno))
                            o.status, o.detail = VIOLATED, 'no such name'
    c.scen.append(dict(scenario='resolution over all functions', status='ok', calls=calls, names=names))
