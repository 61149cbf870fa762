"""Rules about action values and action selection."""
from .common import *

DP = 'maMDP.algorithms.dynamic_programming'
AS = 'maMDP.algorithms.action_selection'
BA = 'maMDP.algorithms.base'

VIREF = '''
    from maMDP.mdp import MDP
    from maMDP.algorithms.dynamic_programming import ValueIteration, solve_value_iteration
    import numpy as np
    def reference(theta, features, sas_, gamma, tol, iters, soft):
        rew = np.zeros(N)
        for s in range(N):
            x = 0
            for f in range(features.shape[0]):
                x = x + theta[f] * features[f, s]
            rew[s] = x
        v = np.zeros(N)
        for it in range(iters):
            qv = np.zeros((N, A))
            delta = 0
            for s in range(N):
                old = v[s]
                some = False
                best = 0
                for a in range(A):
                    val = 0
                    tot = 0
                    for j in range(N):
                        val = val + sas_[s, a, j] * (rew[j] + gamma * v[j])
                        tot = tot + sas_[s, a, j]
                    qv[s, a] = val
                    if tot > 0:
                        if soft:
                            best = best + np.exp(val)
                        elif not some or val > best:
                            best = val
                        some = True
                if some and soft:
                    best = np.log(best + 1e-200)
                v[s] = best
                delta = max(delta, abs(best - old))
            if delta < tol:
                break
        for s in range(N):
            for a in range(A):
                tot = 0
                for j in range(N):
                    tot = tot + sas_[s, a, j]
                if tot == 0:
                    qv[s, a] = -np.inf
        return v, qv
'''


class VIKit(Kit):
    def vin(self, **kw):
        E, c = self.E, self.c
        d = self.base(th=self.vec('th', self.F), gamma=E.real('gamma', True), tol=E.real('tol', True), mi=E.size('mi'))
        c.doms.update(gamma=lambda m: [0.5, 0.9, 0.25, 0.7][m.h('g') % 4], tol=lambda m: [1e-8, 0.05, 0.5, 2.0, 10.0][m.h('tol') % 5], mi=lambda m: 1 + m.h('mi') % 4)
        d.update(kw)
        return d

    def gam(self):
        g = t.sym('gamma', 'num')
        return t.band(t.gt(num(1), g), t.gt(g, num(0)))


def vi_runs(c, which):
    k = VIKit(c)
    out = []
    for lbl, iters in (('one sweep', '1'), ('two sweeps', '2'), ('any number of sweeps', 'mi')):
        r = c.run('fit: ' + lbl, [VIREF, '''
            m = MDP(feat, sas, w1, seed)
            v = ValueIteration(gamma, tol, %s)
            v.fit(m, th, 0)
            gv, gq = v.values, v.q_values
            wv, wq = reference(th, m.features, m.sas, gamma, tol, %s, False)
        ''' % (iters, iters)], k.vin(), assume=k.gam())
        out.append((lbl, r))
    for lbl, iters in (('soft, one sweep', '1'), ('soft, two sweeps', '2')):
        r = c.run('solve: ' + lbl, [VIREF, '''
            gv, gq = solve_value_iteration(th, feat, %s, gamma, sas, tol, True)
            wv, wq = reference(th, feat, sas, gamma, tol, %s, True)
        ''' % (iters, iters)], k.vin(), assume=k.gam())
        out.append((lbl, r))
    return k, out


def C18(c):
    """Bellman backups"""
    need_all(c, DP + ':ValueIteration', DP + ':solve_value_iteration')
    W = [DP + ':state_value_iterator', DP + ':get_state_action_values']
    k, runs = vi_runs(c, 'v')
    for lbl, r in runs:
        check_all(c, r, W, [('state values are the best value over available actions (%s)' % lbl, 'gv', 'wv')])
        noraise(c, r, 'value iteration (%s)' % lbl, W, allow=('AssertionError',))
    # fixed points of the backup are kept, whatever the sweep order: converged values stay
    r = c.run('discount outside (0, 1)', [VIREF, '''
        bad = g2 <= 0 or g2 >= 1
        gv, gq = solve_value_iteration(th, feat, 2, g2, sas, tol)
    '''], k.vin(g2=c.E.real('g2')))
    raises_iff(c, r, 'discount outside (0, 1)', DP + ':solve_value_iteration', 'bad')
    r = c.run('no available action', [VIREF, '''
        m = MDP(feat, sas, np.ones(N), seed)
        v = ValueIteration(gamma, tol, 2)
        v.fit(m, th, 0)
        gv, wv = v.values, np.zeros(N)
    '''], k.vin(), assume=k.gam())
    check_all(c, r, W, [('states without available actions are worth nothing', 'gv', 'wv')])


def C19(c):
    """action values"""
    need_all(c, DP + ':ValueIteration', DP + ':solve_value_iteration')
    W = [DP + ':solve_value_iteration', DP + ':get_state_action_values']
    k, runs = vi_runs(c, 'q')
    for lbl, r in runs:
        check_all(c, r, W, [('action values are expected reward plus discounted value (%s)' % lbl, 'gq', 'wq')])
    r = c.run('impossible actions', [VIREF, '''
        m = MDP(feat, sas, w1, seed)
        v = ValueIteration(gamma, tol, mi)
        v.fit(m, th, 0)
        gi = v.q_values == -np.inf
        wi = m.sas.sum(axis=-1) == 0
        nn = np.isnan(v.q_values)
        zz = np.zeros((N, A)) > 0
    '''], k.vin(), assume=k.gam())
    check_all(c, r, W, [('impossible actions, and only they, are worth minus infinity', 'gi', 'wi'), ('no action value is undefined', 'nn', 'zz')])
    # within an environment, each agent is planned for with its own reward function, at its own position, on the environment's MDP
    H = '''
        from maMDP.agents import Agent
        from maMDP.environments import Environment
        from maMDP.algorithms.base import Algorithm
        class Spy(Algorithm):
            def _fit(self, mdp, reward_function, position, n_moves=None):
                self.saw = (mdp.features, reward_function, position, mdp.sas)
                return np.zeros(mdp.n_states), np.zeros((mdp.n_states, mdp.n_actions))
        m = MDP(feat, sas, w1, seed)
    '''
    F2 = t.add(k.F, num(2))
    inp = k.vin(th2=k.vec('th2', t.add(k.F, num(1))), th3=k.vec('th3', F2), th4=k.vec('th4', F2), p0=k.state('p0'), p1=k.state('p1'))
    asm = t.band(k.gam(), k.inrange('p0', 'p1'))
    r = c.run('within an environment', [VIREF, H, '''
        ag = Agent('x', 1, algorithm=ValueIteration, algorithm_kwargs={'discount': gamma, 'tol': tol, 'max_iter': 1})
        e = Environment(m, {ag: (p0, th2, [])})
        e.fit('x')
        gq = e.get_agent_q_values('x')
        v = ValueIteration(gamma, tol, 1)
        v.fit(e.mdp, th2, p0)
        wq = v.q_values
    '''], inp, assume=asm)
    check_all(c, r, W, [('planning inside an environment is planning on its MDP', 'gq', 'wq')])
    # planning again uses what is in force by then
    for lbl, change in (('other features', 'm.features = f2'), ('another MDP', 'm = MDP(f2, sas, w1, seed)'), ('a third fit', 'm.features = f2\nv.fit(m, th, p1)'), ('a reset', 'v.reset()\nm.features = f2')):
        r = c.run('fitting again: ' + lbl, [VIREF, '''
            m = MDP(feat, sas, w1, seed)
            v = ValueIteration(gamma, tol, 1)
            v.fit(m, th, p0)
        ''', change, '''
            v.fit(m, th, p0)
            gq, gv = v.q_values, v.values
            u = ValueIteration(gamma, tol, 1)
            u.fit(MDP(f2, sas, w1, seed), th, p0)
            wq, wv = u.q_values, u.values
        '''], dict(inp, f2=k.feat('f2')), assume=asm)
        check_all(c, r, W, [('action values when fitting again (%s)' % lbl, 'gq', 'wq'), ('state values when fitting again (%s)' % lbl, 'gv', 'wv')])
    for lbl, change in (('walls were added', 'e.mdp.walls = w2'), ('the weights were changed', "e.agents['x'].reward_function = th5")):
        r = c.run('planning again after ' + lbl, [VIREF, H, '''
            ag = Agent('x', 1, algorithm=ValueIteration, algorithm_kwargs={'discount': gamma, 'tol': tol, 'max_iter': 1})
            e = Environment(m, {ag: (p0, th2, [])})
            e.fit('x')
            %s
            e.fit('x')
            gq, gv = e.get_agent_q_values('x'), e.agents['x'].algorithm.values
            v = ValueIteration(gamma, tol, 1)
            v.fit(e.mdp, e.agents['x'].reward_function, e.agents['x'].position)
            wq, wv = v.q_values, v.values
        ''' % change], dict(inp, w2=k.walls('w2'), th5=k.vec('th5', t.add(k.F, num(1)))), assume=asm)
        check_all(c, r, W, [('action values planned again after %s' % lbl, 'gq', 'wq'), ('state values planned again after %s' % lbl, 'gv', 'wv')])
    r = c.run('two agents', [VIREF, H, '''
        ag = Agent('x', 1, algorithm=Spy)
        bg = Agent('y', 1, algorithm=Spy)
        e = Environment(m, {ag: (p0, th3, []), bg: (p1, th4, [])})
        e.fit('x')
        e.fit('y')
        gx = ag.algorithm.saw
        gy = bg.algorithm.saw
        fx = np.zeros((F + 2, N))
        fx[:F] = feat
        fx[F, p0] = 1
        fx[F + 1, p1] = 1
        wx = (fx, th3, p0, m.sas)
        wy = (fx, th4, p1, m.sas)
    '''], inp, assume=asm)
    check_all(c, r, W, [('agents are planned for with their own reward function and position (first)', 'gx', 'wx'),
                        ('agents are planned for with their own reward function and position (second)', 'gy', 'wy')])


SEL = '''
    from maMDP.algorithms.action_selection import MaxActionSelector, SoftmaxActionSelector, ActionSelector
    import numpy as np
'''


class SelKit(Kit):
    def sin(self, kind='inf', **kw):
        E, c = self.E, self.c
        d = dict(N=self.N, A=self.A, seed=E.int('seed'), temp=E.real('temp', True),
                 q=lambda st: E.array(st, 'q_' + kind, (self.N, self.A), nan=kind == 'nan', inf=kind != 'fin'))

        def gen(m):
            out = {}
            for s in range(m.get('N')):
                mode = m.h('mode', s) % 4
                for a in range(m.get('A')):
                    v = [0.0, 1.0, 1.0, -1.5, 0.25, 2.0, 1.0 + 1e-7, -9.0, 120.0][m.h('q', s, a) % (9 if m.h('wide') % 2 else 6)]
                    z = m.h('z', s, a) % 4
                    if kind != 'fin' and (z == 0 or mode == 0):
                        v = -math.inf
                    if kind == 'nan' and (z == 1 or mode == 1):
                        v = math.nan
                    out[s, a] = v
            return out
        c.arrgens['q_' + kind] = gen
        c.doms.update(temp=lambda m: [0.5, 1.0, 2.0, 0.3][m.h('temp') % 4], A=lambda m: m.size('A', 1, 4))
        d.update(kw)
        return d


import math


def C20(c):
    """greedy selection"""
    need_all(c, AS + ':MaxActionSelector')
    W = AS + ':MaxActionSelector._get_pi_p'
    k = SelKit(c)
    spec = '''
        def uniform_max(q):
            out = np.zeros((N, A))
            for s in range(N):
                b = q[s, 0]
                for a in range(A):
                    if q[s, a] > b:
                        b = q[s, a]
                n = 0
                for a in range(A):
                    if q[s, a] == b:
                        n = n + 1
                for a in range(A):
                    if q[s, a] == b:
                        out[s, a] = 1 / n
            return out
        def members(q, pi):
            ok = True
            for s in range(N):
                if pi[s] < 0 or pi[s] >= A:
                    ok = False
            for s in range(N):
                for a in range(A):
                    if q[s, a] > q[s, int(pi[s])]:
                        ok = False
            return ok
    '''
    for kind in ('fin', 'inf'):
        r = c.run('greedy probabilities (%s)' % kind, [SEL, spec, '''
            sel = MaxActionSelector(seed)
            got, want = sel.get_pi_p(q), uniform_max(q)
            tot, ones = got.sum(axis=1), np.ones(N)
            pi = sel.get_pi(q)
            ok, yes = members(q, pi), True
            n1, n2 = len(pi), N
        '''], k.sin(kind))
        l = 'finite values' if kind == 'fin' else 'some impossible actions'
        check_all(c, r, W, [('choice probabilities uniform over the best actions (%s)' % l, 'got', 'want'), ('choice probabilities sum to one (%s)' % l, 'tot', 'ones')])
        check_all(c, r, AS + ':MaxActionSelector._get_pi', [('chosen actions are best actions (%s)' % l, 'ok', 'yes'), ('one action per state (%s)' % l, 'n1', 'n2')])
        marginals(c, r, AS + ':MaxActionSelector._get_pi', 'ties are broken uniformly (%s)' % l, 'pi', 'want')
        noraise(c, r, 'greedy selection (%s)' % l, W)


def C21(c):
    """softmax selection"""
    need_all(c, AS + ':SoftmaxActionSelector')
    W = [AS + ':SoftmaxActionSelector._get_pi_p', AS + ':softmax']
    k = SelKit(c)
    spec = '''
        def soft(q, T):
            out = np.zeros((N, A))
            for s in range(N):
                b = q[s, 0]
                for a in range(A):
                    if q[s, a] > b:
                        b = q[s, a]
                if b == -np.inf:
                    for a in range(A):
                        out[s, a] = 1 / A
                else:
                    z = 0
                    for a in range(A):
                        if q[s, a] > -np.inf:
                            z = z + np.exp((q[s, a] - b) / T)
                    for a in range(A):
                        if q[s, a] > -np.inf:
                            out[s, a] = np.exp((q[s, a] - b) / T) / z
            return out
    '''
    for kind in ('fin', 'inf'):
        r = c.run('softmax probabilities (%s)' % kind, [SEL, spec, '''
            sel = SoftmaxActionSelector(temp, seed)
            got, want = sel.get_pi_p(q), soft(q, temp)
            tot, ones = got.sum(axis=1), np.ones(N)
            pi = sel.get_pi(q)
            inr, yes = ((pi >= 0) & (pi < A)).all(), True
            n1, n2 = len(pi), N
        '''], k.sin(kind))
        l = 'finite values' if kind == 'fin' else 'some impossible actions'
        check_all(c, r, W, [('choice probabilities follow the softmax of the values (%s)' % l, 'got', 'want'), ('choice probabilities sum to one (%s)' % l, 'tot', 'ones')])
        check_all(c, r, AS + ':SoftmaxActionSelector._get_pi', [('chosen actions exist (%s)' % l, 'inr', 'yes'), ('one action per state (%s)' % l, 'n1', 'n2')])
        marginals(c, r, AS + ':SoftmaxActionSelector._get_pi', 'actions drawn with the choice probabilities (%s)' % l, 'pi', 'want')
        noraise(c, r, 'softmax selection (%s)' % l, W)
    r = c.run('shift invariance', [SEL, '''
        sel = SoftmaxActionSelector(temp, seed)
        got, want = sel.get_pi_p(q + big), sel.get_pi_p(q).copy()
    '''], k.sin('fin', big=c.E.real('big')))
    check_all(c, r, W, [('adding a constant to all values changes nothing', 'got', 'want')])
    r = c.run('temperature', [SEL, '''
        bad = T <= 0
        s = SoftmaxActionSelector(T)
        g = s.temperature
    '''], k.sin('fin', T=c.E.real('T')))
    raises_iff(c, r, 'non-positive temperature', AS + ':SoftmaxActionSelector.__init__', 'bad')
    check_all(c, r, AS + ':SoftmaxActionSelector.__init__', [('temperature kept', 'g', 'T')])


def C22(c):
    """unestimated states"""
    need_all(c, AS + ':ActionSelector.get_pi', AS + ':ActionSelector.get_pi_p')
    k = SelKit(c)
    spec = '''
        def unknown(q):
            out = np.zeros(N) > 0
            for s in range(N):
                b = True
                for a in range(A):
                    if q[s, a] == q[s, a]:
                        b = False
                out[s] = b
            return out
        def known_best(q, pi):
            ok = True
            u = unknown(q)
            for s in range(N):
                if not u[s]:
                    if pi[s] < 0 or pi[s] >= A:
                        ok = False
            for s in range(N):
                if not u[s]:
                    for a in range(A):
                        if q[s, a] > q[s, int(pi[s])]:
                            ok = False
            return ok
    '''
    for cls, mkr in (('greedy', 'MaxActionSelector(seed)'), ('softmax', 'SoftmaxActionSelector(temp, seed)')):
        r = c.run('unknown values: ' + cls, [SEL, spec, '''
            sel = %s
            q0 = q.copy()
            pp = sel.get_pi_p(q)
            pi = sel.get_pi(q)
            q1 = q
            u = unknown(q0)
            g1, w1_ = pi == -1, u
            g2, w2_ = np.isnan(pp).all(axis=1), u
            g3, w3 = np.isnan(pp).any(axis=1), u
            tot = np.where(u, 1, pp.sum(axis=1))
            ones = np.ones(N)
            zero = True
            for s in range(N):
                for a in range(A):
                    if not u[s] and q0[s, a] != q0[s, a]:
                        z = False
                        for b in range(A):
                            if q0[s, b] > -np.inf:
                                z = True
                        if z and pp[s, a] != 0:
                            zero = False
            yes = True
        ''' % mkr], k.sin('nan'))
        check_all(c, r, AS + ':ActionSelector.get_pi', [('%s: states without any value are marked -1, others are not' % cls, 'g1', 'w1_')])
        check_all(c, r, AS + ':ActionSelector.get_pi_p', [('%s: states without any value have undefined probabilities' % cls, 'g2', 'w2_'), ('%s: other states have defined probabilities' % cls, 'g3', 'w3'),
                                                          ('%s: probabilities of other states sum to one' % cls, 'tot', 'ones'), ('%s: unknown actions are never chosen when a possible one is known' % cls, 'zero', 'yes')])
        check_all(c, r, [AS + ':ActionSelector.get_pi', AS + ':ActionSelector.get_pi_p'], [('%s: the given values are not modified' % cls, 'q1', 'q0')])
    r = c.run('greedy choice among known values', [SEL, spec, '''
        sel = MaxActionSelector(seed)
        pi = sel.get_pi(q)
        ok, yes = known_best(q, pi), True
    '''], k.sin('nan'))
    check_all(c, r, AS + ':ActionSelector.get_pi', [('greedy: best known action chosen', 'ok', 'yes')])
    for call in ('get_pi', 'get_pi_p'):
        for cls in ('MaxActionSelector()', 'SoftmaxActionSelector()'):
            r = c.run('%s %s all unknown' % (cls, call), [SEL, '''
                bad = np.isnan(q).all()
                x = %s.%s(q)
            ''' % (cls, call)], k.sin('nan'))
            raises_iff(c, r, '%s.%s: values all unknown' % (cls, call), AS + ':check_q_values', 'bad')
            for arg in ('q[0]', 'q[None]', '[[1.0, 2.0]]'):
                r = c.run('%s %s %s' % (cls, call, arg), [SEL, '''
                    bad = True
                    x = %s.%s(%s)
                ''' % (cls, call, arg)], k.sin('inf'))
                raises_iff(c, r, '%s.%s: malformed values %s' % (cls, call, arg), AS + ':check_q_values', 'bad')


def C23(c):
    """random number generators"""
    need_all(c, AS + ':MaxActionSelector', AS + ':SoftmaxActionSelector', 'maMDP.mdp:MDP')
    k = SelKit(c)
    own = t.app('rng', t.sym('seed', 'int'))
    for cls, a in (('MaxActionSelector', ''), ('SoftmaxActionSelector', 'temp, ')):
        W = AS + ':%s._get_pi' % cls
        r = c.run('seeded ' + cls, [SEL, '''
            sel = %s(%sseed=seed)
            pi = sel.get_pi(q)
            p2 = sel.get_pi(q)
        ''' % (cls, a)], k.sin('inf'))
        uses_rng(c, r, W, 'a seeded %s draws only from its own generator' % cls, 'pi', own)
        uses_rng(c, r, W, 'a seeded %s keeps using its own generator' % cls, 'p2', own)
        fresh_draws(c, r, W, 'later choices are new draws (%s)' % cls, 'pi', 'p2')
        no_reseed(c, r, W, 'choices never reseed a generator (%s)' % cls)
        r = c.run('probabilities draw nothing: ' + cls, [SEL, '''
            sel = %s(%sseed=seed)
            sel.get_pi_p(q)
        ''' % (cls, a)], k.sin('inf'))
        no_draws(c, r, AS + ':%s._get_pi_p' % cls, 'asking for probabilities does not consume random numbers (%s)' % cls)
    k = Kit(c, 'sto')
    mk = '''
        from maMDP.mdp import MDP
        m = MDP(feat, sas, w1, seed)
        n = m.get_next_state(s, a)
        n2 = m.get_next_state(s, a)
    '''
    asm = t.band(k.inrange('s'), t.gt(k.A, t.sym('a', 'int')))
    r = c.run('seeded MDP', mk, k.base(s=k.state('s'), a=k.action('a')), assume=asm)
    W = 'maMDP.mdp:MDP.get_next_state'
    uses_rng(c, r, W, 'a seeded MDP draws only from its own generator', 'n', own)
    uses_rng(c, r, W, 'a seeded MDP keeps using its own generator', 'n2', own)
    no_reseed(c, r, W, 'moving never reseeds a generator')
    fresh_draws(c, r, W, 'later successors are new draws', 'n', 'n2')


def no_draws(c, r, where, label):
    o = c.add(label, where)
    if r is None or r.st.dead:
        o.status, o.detail = UNDECIDED, 'not reached'
        return
    ev = [e for e in r.log if e.kind == 'draw']
    o.status, o.detail = (VIOLATED, 'random draw at %s' % fmtloc(ev[0].loc)) if ev else (PROVED, '')


def no_reseed(c, r, where, label):
    o = c.add(label, where)
    if r is None or r.st.dead:
        o.status, o.detail = UNDECIDED, 'not reached'
        return
    ev = [e for e in r.log if e.kind == 'reseed']
    o.status, o.detail = (VIOLATED, 'generator reseeded at %s' % fmtloc(ev[0].loc)) if ev else (PROVED, '')


def fresh_draws(c, r, where, label, a, b):
    """two calls must not reuse the same draw"""
    o = c.add(label, where)
    if r is None or r.st.dead:
        o.status, o.detail = UNDECIDED, 'not reached'
        return
    f = lambda v: {(d.args[1], d.args[2]) for d in t.subterms(body_of(c, r.st, r.env[v])) if d.op == 'app' and d.args[0] == 'rand_index'}
    try:
        x, y = f(a), f(b)
    except Exception as e:
        o.status, o.detail = UNDECIDED, str(e)
        return
    if not x or not y:
        o.status, o.detail = UNDECIDED, 'no draw found'
    elif x & y:
        o.status, o.detail = VIOLATED, 'the same draw is returned twice'
    else:
        o.status = PROVED


def C24(c):
    """contract between algorithms and their users"""
    need_all(c, BA + ':Algorithm.fit', BA + ':Algorithm.reset')
    k = Kit(c)
    E = c.E
    W = BA + ':Algorithm.fit'
    shapes = {'v_ok': (k.N,), 'v_long': (t.add(k.N, num(1)),), 'v_2d': (k.N, num(1)), 'q_ok': (k.N, k.A), 'q_states': (t.add(k.N, num(1)), k.A), 'q_actions': (k.N, t.add(k.A, num(1))), 'q_1d': (k.N,),
              'q_3d': (k.N, k.A, num(1)), 'vals0': (k.N,), 'q0': (k.N, k.A)}
    inp = k.base(th=k.vec('th', k.F), thL=k.vec('thL', t.add(k.F, num(1))), th2=lambda st: E.array(st, 'th2', (k.F, num(1))), pos=k.state('pos'),
                 **{n: (lambda st, n=n, d=d: E.array(st, n, d)) for n, d in shapes.items()})
    head = '''
        from maMDP.mdp import MDP
        from maMDP.algorithms.base import Algorithm, Null
        import numpy as np
        m = MDP(feat, sas, w1, seed)
        out = [vals0, q0]
        seen = []
        class Stub(Algorithm):
            def _fit(self, mdp, reward_function, position, n_moves, *a, **k):
                seen.append((mdp, reward_function, position, n_moves))
                return out[0], out[1]
        st = Stub()
        f_before = st.fit_complete
        no, yes = False, True
    '''
    r = c.run('accepted fit', [head, '''
        st.fit(m, th, pos, nm)
        g0, g1, g2 = st.values, st.q_values, st.fit_complete
        s0, s1, s2, s3 = seen[0]
        same, n = s0 is m, len(seen)
        one = 1
        st.reset()
        r0, r1, r2 = st.values, st.q_values, st.fit_complete
        none = None
    '''], dict(inp, nm=E.obj(name='nm') if hasattr(E, 'obj') else E.nat('nm')), assume=k.inrange('pos'))
    check_all(c, r, W, [('a new algorithm is unfit', 'f_before', 'no'), ('values are those computed', 'g0', 'vals0'), ('action values are those computed', 'g1', 'q0'), ('marked as fit', 'g2', 'yes'),
                        ('the given MDP is solved', 'same', 'yes'), ('the given reward function is used', 's1', 'th'), ('the given position is used', 's2', 'pos'), ('the given moves are used', 's3', 'nm'), ('solved once', 'n', 'one')])
    check_all(c, r, BA + ':Algorithm.reset', [('reset forgets values', 'r0', 'none'), ('reset forgets action values', 'r1', 'none'), ('reset marks as unfit', 'r2', 'no')])
    noraise(c, r, 'well-formed fit', W)
    for lbl, v, q in (('too many values', 'v_long', 'q_ok'), ('two-dimensional values', 'v_2d', 'q_ok'), ('action values for the wrong number of states', 'v_ok', 'q_states'),
                      ('action values for the wrong number of actions', 'v_ok', 'q_actions'), ('one-dimensional action values', 'v_ok', 'q_1d'), ('three-dimensional action values', 'v_ok', 'q_3d'),
                      ('values that are no array', '[0, 1]', 'q_ok'), ('action values that are no array', 'v_ok', '[[0, 1]]')):
        r = c.run('rejected: ' + lbl, [head, '''
            st.fit(m, th, pos)
            out[0] = %s
            out[1] = %s
            ok = False
            try:
                st.fit(m, th, pos)
                ok = True
            except Exception:
                pass
            g0, g1, g2 = st.values, st.q_values, st.fit_complete
        ''' % (v, q)], inp, assume=k.inrange('pos'))
        check_all(c, r, W, [('%s rejected' % lbl, 'ok', 'no'), ('%s: earlier values kept' % lbl, 'g0', 'vals0'), ('%s: earlier action values kept' % lbl, 'g1', 'q0')])
        r = c.run('rejected first: ' + lbl, [head, '''
            out[0] = %s
            out[1] = %s
            try:
                st.fit(m, th, pos)
            except Exception:
                pass
            g2 = st.fit_complete
        ''' % (v, q)], inp, assume=k.inrange('pos'))
        check_all(c, r, W, [('%s: stays unfit' % lbl, 'g2', 'no')])
    for lbl, th in (('reward function of the wrong length', 'thL'), ('two-dimensional reward function', 'th2'), ('reward function that is no array', '5'), ('reward function given as string', "'abc'")):
        r = c.run('rejected: ' + lbl, [head, '''
            ok = False
            try:
                st.fit(m, %s, pos)
                ok = True
            except Exception:
                pass
            n, zero = len(seen), 0
            g2 = st.fit_complete
        ''' % th], inp, assume=k.inrange('pos'))
        check_all(c, r, W, [('%s rejected' % lbl, 'ok', 'no'), ('%s: nothing solved' % lbl, 'n', 'zero'), ('%s: stays unfit' % lbl, 'g2', 'no')])
    r = c.run('null algorithm', [head, '''
        nl = Null()
        nl.fit(m, th, pos)
        g0, g1 = nl.values, nl.q_values
        w0, w1_ = np.ones(N), np.ones((N, A))
    '''], inp, assume=k.inrange('pos'))
    check_all(c, r, BA + ':Null._fit', [('null values', 'g0', 'w0'), ('null action values', 'g1', 'w1_')])
    noraise(c, r, 'null algorithm', BA + ':Null._fit')
