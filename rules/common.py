"""Symbolic inputs shared by the rules and the interpretations used to separate value graphs."""
from sa import terms as t
from sa.terms import num, TRUE, FALSE
from sa.values import *
from sa.oblig import *
from sa.evalterm import Model, Conc
from sa.terms import T
import os

MAYRAISE = {l.rstrip('\n') for l in open(os.path.join(os.path.dirname(os.path.abspath(__file__)), 'mayraise.txt')) if l.strip()}


def rows(m, name, N, A, mode=None):
    """transition table: one-hot, stochastic or empty rows"""
    det = m.h(name, 'det') & 1 if mode is None else mode == 'det'
    out = {}
    near = m.h(name, 'near') % 4 == 0
    for s in range(N):
        for a in range(A):
            k = m.h(name, 'row', s, a) % 5
            if k == 0 and A > 1:
                for j in range(N):
                    out[s, a, j] = 0
                continue
            if det:
                tgt = m.h(name, 'to', s, a) % N
                for j in range(N):
                    out[s, a, j] = 1 if j == tgt else 0
            else:
                w = [m.h(name, 'w', s, a, j) % 4 for j in range(N)]
                if sum(w) == 0:
                    w[m.h(name, 'w1', s, a) % N] = 1
                if near and N > 1:
                    # almost certain transitions
                    j0 = m.h(name, 'w2', s, a) % N
                    rare = [0.03, 1e-4, 1e-7][m.h(name, 'rare') % 3]
                    w = [1 - rare if j == j0 else rare if j == (j0 + 1 + m.h(name, 'w3', s, a) % (N - 1)) % N else 0 for j in range(N)]
                for j in range(N):
                    out[s, a, j] = w[j] / sum(w)
    return out


class Kit:
    """standard inputs: N states, A actions, F features"""

    def __init__(self, c, det=None):
        self.c, self.E = c, c.E
        E = self.E
        self.N, self.A, self.F = E.size('N'), E.size('A'), E.size('F')
        self.det = det
        c.doms.setdefault('N', lambda m: m.size('N', 2, m.maxdim - 1))
        c.doms.setdefault('A', lambda m: m.size('A', 1, 3))
        c.doms.setdefault('F', lambda m: m.size('F', 1, 3))

    def sas(self, name='sas'):
        E, N, A = self.E, self.N, self.A
        det = self.det

        def gen(m):
            return rows(m, name, m.get('N'), m.get('A'), det)
        self.c.arrgens[name] = gen
        if det == 'det':
            return lambda st: E.array(st, name, (N, A, N), domain01=True)
        return lambda st: E.array(st, name, (N, A, N), nonneg=True, max1=True)

    def feat(self, name='feat', F=None, **fl):
        E = self.E
        return lambda st: E.array(st, name, (F or self.F, self.N), **fl)

    def walls(self, name='w1', N=None):
        E = self.E
        return lambda st: E.array(st, name, (N or self.N,), domain01=True)

    def vec(self, name, n, **fl):
        E = self.E
        return lambda st: E.array(st, name, (n,), **fl)

    def state(self, name):
        s = self.E.nat(name)
        self.c.doms[name] = lambda m: m.h(name) % m.get('N')
        return s

    def action(self, name):
        s = self.E.nat(name)
        self.c.doms[name] = lambda m: m.h(name) % m.ev(self.A)
        return s

    def below(self, name, dim):
        s = self.E.nat(name)
        self.c.doms[name] = lambda m: m.h(name) % max(1, m.ev(dim))
        return s

    def base(self, **k):
        d = dict(feat=self.feat(), sas=self.sas(), w1=self.walls('w1'), w2=self.walls('w2'), seed=self.E.int('seed'), N=self.N, A=self.A, F=self.F)
        d.update(k)
        return d

    def inrange(self, *names):
        """assumption: the named states lie in the state space"""
        r = TRUE
        for n in names:
            r = t.band(r, t.gt(self.N, t.sym(n, 'int')))
        return r


def need_all(c, *anchors):
    for a in anchors:
        mod, _, q = a.partition(':')
        c.need(mod, q)


def noraise(c, r, name, where, allow=()):
    """no reachable exception out of repository code (within the scenario's assumptions)"""
    if r is None:
        return
    r.checked = True
    for k, (s, exc, val, loc) in enumerate(r.raises):
        if exc in allow:
            continue
        c.never('%s: no %s' % (name, exc), where, s, 'raises %s at %s' % (exc, fmtloc(loc)))


def fmtloc(loc):
    return '%s:%s %s' % tuple(loc[:3]) if loc else '?'


def raises_iff(c, r, name, where, var, exc=None):
    """the scenario raises exactly when the boolean driver variable `var` holds"""
    if r is None:
        c.undecided(name, where, c.scen[-1]['status'])
        return
    r.checked = True
    I = c.E.I
    if not r.st.dead:
        c.always('%s: accepted only when valid' % name, where, r.st, t.bnot(tobool(c, r.st, r.env[var])))
    for s, e, val, loc in r.raises:
        env = driver_env(r, s)
        if var not in env:
            continue
        c.never('%s: rejected only when invalid' % name, where, Reach(t.band(s.pc, t.bnot(tobool(c, s, env[var])))), 'raises %s at %s' % (e, fmtloc(loc)))
    if r.st.dead and not r.raises:
        c.undecided(name, where, 'scenario unreachable')


class Reach:
    """a reachability question without a heap"""

    def __init__(self, pc):
        self.pc = pc
        self.dead = pc is FALSE


def driver_env(r, s):
    for fid, env in s.frames.items():
        if isinstance(fid, tuple) and fid[0] == 'drv' and fid[1] == r.fid:
            return env
    return {}


def tobool(c, st, v):
    return c.E.I.truth(st, v)


# exceptions that stand for a refusal or a crash of the computation itself; misspelt names and wrong calls are C37's business
CRASH = ('ValueError', 'IndexError', 'ZeroDivisionError', 'AssertionError', 'RuntimeError', 'NotImplementedError', 'Exception', 'KeyError', 'OverflowError', 'FloatingPointError', 'ArithmeticError', 'LookupError', 'StopIteration')
CRASHLOG = [] if os.environ.get('SA_CRASHLOG') else None


def completes(c, r):
    """the operations of a scenario complete, except for the exceptions listed in mayraise.txt (whose inputs include ones to be refused)"""
    if getattr(r, 'checked', False) or c.late():
        return
    r.checked = True
    name = r.scenario
    groups = {}
    for s, exc, val, loc in r.raises:
        if s.pc is not FALSE:
            groups.setdefault((exc, loc), []).append(s)
    for (exc, loc), ss in groups.items():
        if exc not in CRASH or len(ss) > 40 or '%s %s | %s' % (c.prop, name, exc) in MAYRAISE:
            continue
        o = c.never('%s completes: no %s at %s' % (name, exc, fmtloc(loc)), loc[0] + ':' + str(loc[1]) if loc else None, Reach(t.disj([s.pc for s in ss])), 'raises %s at %s' % (exc, fmtloc(loc)))
        if o.status not in (PROVED, AGREE) and CRASHLOG is not None:
            print('MAYRAISE %s %s | %s | %s' % (c.prop, name, exc, fmtloc(loc)))


def check_all(c, r, where, pairs, prefix=''):
    """pairs: list of (label, got variable, want variable)"""
    if r is None:
        for label, g, w in pairs:
            c.undecided(prefix + label, where, c.scen[-1]['status'])
        return
    if r.st.dead:
        for label, g, w in pairs:
            c.undecided(prefix + label, where, 'no normal termination')
        return
    for label, g, w in pairs:
        if g not in r.env or w not in r.env:
            c.undecided(prefix + label, where, 'driver variable not reached')
            continue
        c.equal(prefix + label, where, r.st, r.env[g], r.env[w])


def marginals(c, r, where, label, got, want, grid=60):
    """the drawn index got[s] has the distribution want[s, :] for every s: evaluated by sweeping the draw over its unit interval"""
    o = c.add(label, where)
    if r is None or r.st.dead or got not in r.env or want not in r.env:
        o.status, o.detail = UNDECIDED, c.scen[-1]['status'] if r is None else 'not reached'
        return
    vg = set()
    base = c.want_samples
    c.want_samples = max(6, base // 4)

    def f(m):
        cw = Conc(m, r.st)
        w = cw(r.env[want])
        counts = None
        for j in range(grid):
            m2 = Model(m.seed, c.doms, c.arrgens, m.maxdim)
            m2.force = (j + 0.5) / grid
            cg = Conc(m2, r.st)
            g = cg(r.env[got])
            vg.update(cg.vague)
            if not isinstance(g, tuple):
                g = (g,)
            if counts is None:
                counts = [dict() for _ in g]
            for s, a in enumerate(g):
                counts[s][a] = counts[s].get(a, 0) + 1
        vg.update(cw.vague)
        if w and not isinstance(w[0], tuple):
            w = (w,)
        # compare to within the resolution of the sweep
        gg, ww = [], []
        for s, row in enumerate(w):
            if any(isinstance(x, float) and x != x for x in row):
                continue
            for a, x in enumerate(row):
                fr = counts[s].get(a, 0) / grid
                ok = abs(fr - x) <= 1.01 * len(row) / grid
                gg.append(round(float(x), 4) if ok else round(fr, 4))
                ww.append(round(float(x), 4))
        return tuple(gg), tuple(ww)
    try:
        c.decide(o, r.st, f, vg, 'distribution of the random choice')
    finally:
        c.want_samples = base


def generators(x):
    """random generators used by the draws inside a term or value"""
    return {d.args[1] for d in t.subterms(x) if d.op == 'app' and d.args[0] in ('rand_index', 'rand', 'uf:choice')}


def body_of(c, st, v):
    if isinstance(v, T):
        return v
    a = c.E.I.get_arr(st, v)
    return getattr(a, 'body', None)


def uses_rng(c, r, where, label, got, want):
    """every random draw in driver value got comes from generator term `want`"""
    o = c.add(label, where)
    if r is None or r.st.dead:
        o.status, o.detail = UNDECIDED, 'not reached'
        return
    b = body_of(c, r.st, r.env.get(got))
    if b is None:
        o.status, o.detail = UNDECIDED, 'value not numeric'
        return
    gs = generators(b)
    if not gs:
        o.status, o.detail = UNDECIDED, 'no draw found'
    elif gs == {want}:
        o.status = PROVED
    elif all(g.op in ('lit', 'app') for g in gs):
        o.status, o.detail = VIOLATED, 'draws come from %s, required %s' % (sorted(map(str, gs)), want)
    else:
        o.status, o.detail = UNDECIDED, 'generator %s' % sorted(map(str, gs))
