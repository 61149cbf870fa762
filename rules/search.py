"""Rules about tree search."""
from .common import *

MC = 'maMDP.algorithms.mcts'
HEAD = '''
    from maMDP.mdp import MDP
    from maMDP.agents import Agent
    from maMDP.environments import Environment
    from maMDP.algorithms.mcts import MCTS
    from maMDP.algorithms.base import Null
    import numpy as np
    def weights(thf, extra):
        th = np.zeros(F + extra)
        th[:F] = thf
        return th
'''


class TreeKit(Kit):
    def __init__(self, c, one=False):
        super().__init__(c, 'det')
        if one:
            self.A = num(1)

    def total(self, name):
        """deterministic transitions where every state has a successor"""
        E, N, A = self.E, self.N, self.A

        def gen(m):
            out = {}
            n, a_ = m.get('N'), m.ev(A)
            for s in range(n):
                for a in range(a_):
                    tgt = m.h(name, 'to', s, a) % n
                    for j in range(n):
                        out[s, a, j] = 1 if j == tgt else 0
            return out
        self.c.arrgens[name] = gen
        return lambda st: E.array(st, name, (N, A, N), domain01=True)

    def tin(self, **kw):
        E = self.E
        d = self.base(thf=self.vec('thf', self.F), thg=self.vec('thg', self.F), p0=self.state('p0'), p1=self.state('p1'), C=E.real('C', True), cost=E.real('cost'), A=self.A)
        d.update(kw)
        return d

    def asm(self):
        return self.inrange('p0', 'p1')


def C25(c):
    """simulations of the tree search"""
    need_all(c, MC + ':MCTS')
    W = [MC + ':mcts_iteration', MC + ':run_mcts']
    k = TreeKit(c)
    c.doms['A'] = lambda m: m.size('A', 1, 2)
    SOLO = '''
        m = MDP(feat, sas, None, seed)
        a = Agent('x', 1, algorithm=MCTS, algorithm_kwargs=dict(n_iter=%d, C=C, return_states=True))
        e = Environment(m, {a: (p0, weights(thf, 1), [%s])})
        f = m.features.copy()
        al = a.algorithm
        al.fit(m, weights(thf, 1), p0, [%s])
        gv, gn, vs = al.V, al.N, al.visited_states
        wv, wn = np.zeros(N), np.zeros(N)
        possible = True
        for run in vs:
            g = f.copy()
            acc = 0
            cur = p0
            for v in run:
                possible = possible and np.any(m.sas[cur, :, v] > 0)
                acc = acc + (weights(thf, 1) * g[:, v]).sum()
                for q in [%s]:
                    g[q, v] = 0
                cur = v
            for v in run:
                wv[v] = wv[v] + acc
                wn[v] = wn[v] + 1
        yes = True
        lens = tuple([len(run) for run in vs])
        wlens = (%s)
        mf = m.features
        ms, ws = m.sas, sas
    '''
    for it, cons, plan, steps in ((1, '', '(1,)', 1), (1, '', '(2,)', 2), (1, '0', '(2,)', 2), (1, '0', '(3,)', 3), (2, '', '(1,)', 1)):
        r = c.run('alone, %d iterations, %s' % (it, plan), [HEAD, SOLO % (it, cons, plan, cons, ('%d, ' % steps) * it)], k.tin(), assume=k.asm())
        l = ' (alone, %d iteration%s of %d move%s%s)' % (it, 's' * (it > 1), steps, 's' * (steps > 1), ', consuming' if cons else '')
        check_all(c, r, W, [('simulated moves are possible' + l, 'possible', 'yes'), ('number of simulated moves' + l, 'lens', 'wlens'), ('values add up the rewards of the simulations through a state' + l, 'gv', 'wv'),
                            ('visits are counted' + l, 'gn', 'wn'), ('planning leaves the features' + l, 'mf', 'f'), ('planning leaves the transitions' + l, 'ms', 'ws')])
    # two agents on transitions without choice: the whole simulation is determined
    k = TreeKit(c, one=True)
    DUO = '''
        m = MDP(feat, sas, None, seed)
        th0, th1 = weights(thf, 2), weights(thg, 2)
        a = Agent('x', 1, algorithm=MCTS, algorithm_kwargs=dict(n_iter=%(it)d, C=C, caught_cost=cost, interactive=True, opponent_policy_method='random', return_states=True, return_other_agent_states=True))
        b = Agent('y', 1, algorithm=Null)
        %(order)s
        e = Environment(m, agents)
        f0 = m.features.copy()
        al = a.algorithm
        plan = %(plan)s
        al.fit(m, th0, p0, plan)
        gv, gn = al.V, al.N
        ca, cb = %(ca)s, %(cb)s
        eats, eaten = %(eats)s, %(eaten)s
        wv, wn = np.zeros(N), np.zeros(N)
        for it in range(%(it)d):
            f = f0.copy()
            pos = [p0, p1]
            alive = True
            over = False
            acc = 0
            seen = []
            for turn in range(len(plan[0])):
                for who in range(2):
                    for mv in range(plan[who][turn]):
                        if eaten and alive and pos[0] == pos[1] and not over:
                            acc = acc + cost
                            over = True
                        if not over:
                            if eats and alive and pos[0] == pos[1]:
                                alive = False
                            nxt = np.argmax(sas[pos[who], 0])
                            if who == 0:
                                r = 0
                                for q in range(F):
                                    r = r + thf[q] * f[q, nxt]
                                acc = acc + r
                                pos[0] = nxt
                                seen.append((nxt, True))
                                for q in ca:
                                    f[q, nxt] = 0
                            elif alive:
                                pos[1] = nxt
                                for q in cb:
                                    f[q, nxt] = 0
                        elif who == 0:
                            seen.append((0, False))
            for s_, real in seen:
                if real:
                    wv[s_] = wv[s_] + acc
                    wn[s_] = wn[s_] + 1
        mf = m.features
    '''
    agents = 'agents = {a: (p0, th0, %s), b: (p1, th1, %s)}'
    rev = 'agents = {b: (p1, th1, %s), a: (p0, th0, %s)}'
    for lbl, it, plan, ca, cb, eats, eaten, flip in (
            ('taking turns', 1, '[(1, 1), (1, 1)]', [], [], 0, 0, 0),
            ('two moves per turn', 1, '[(2, 1), (1, 0)]', [], [], 0, 0, 0),
            ('moves of the other agent first left over', 1, '[(0, 2), (1, 1)]', [], [], 0, 0, 0),
            ('both consuming', 1, '[(1, 1), (1, 1)]', [0], [0], 0, 0, 0),
            ('hunted', 1, '[(1, 1), (1, 1)]', [], [], 0, 1, 0),
            ('hunted, listed second', 1, '[(1, 1), (1, 1)]', [], [], 0, 1, 1),
            ('hunting', 1, '[(1, 1), (1, 1)]', [], [0], 1, 0, 0),
            ('hunted, two iterations', 2, '[(1,), (1,)]', [], [], 0, 1, 0)):
        # agents are features F and F + 1 in their order
        ia, ib = ('F + 1', 'F') if flip else ('F', 'F + 1')
        la = '[%s]' % ', '.join(map(str, ca + ([ib] if eats else [])))
        lb = '[%s]' % ', '.join(map(str, cb + ([ia] if eaten else [])))
        d = dict(it=it, plan=plan, ca=ca, cb=cb, eats=bool(eats), eaten=bool(eaten), order=(rev % (lb, la)) if flip else (agents % (la, lb)))
        r = c.run('two agents, ' + lbl, [HEAD, DUO % d], k.tin(sas=k.total('sas1')), assume=k.asm())
        check_all(c, r, W, [('values of a simulation with another agent (%s)' % lbl, 'gv', 'wv'), ('visits of a simulation with another agent (%s)' % lbl, 'gn', 'wn'), ('planning leaves the features (%s)' % lbl, 'mf', 'f0')])
    helpers(c)


def helpers(c):
    """selection of the next node and catching, where these are functions of their own"""
    W = [MC + ':MCTS_next_node', MC + ':UCB', MC + ':get_actions_states']
    k = TreeKit(c)
    r = c.run('selection', [HEAD, """
        from maMDP.algorithms.mcts import MCTS_next_node, get_actions_states, UCB
        acts_, pairs_, states = get_actions_states(sas, p0)
        node, more = MCTS_next_node(True, V, V2, states, C, p0)
        any_new = np.any(V2[states] == 0)
        want_more = not any_new
        possible = np.any(sas[p0, :, node] > 0)
        new_ok = (not any_new) or V2[node] == 0
        score = V[states] / (1 + V2[states]) + C * np.sqrt((2 * np.log(max(V2[p0], 1))) / (1 + V2[states]))
        mine = V[node] / (1 + V2[node]) + C * np.sqrt((2 * np.log(max(V2[p0], 1))) / (1 + V2[node]))
        best_ok = any_new or mine == np.max(score)
        sim, again = MCTS_next_node(False, V, V2, states, C, p0)
        sim_ok = np.any(sas[p0, :, sim] > 0)
        yes, no = True, False
    """], k.tin(sas=k.total('sas2'), V=k.vec('V', k.N), V2=counts(c, k, 'V2')), assume=k.asm())
    check_all(c, r, W, [('expansion ends with a new node', 'more', 'want_more'), ('a new node is chosen while there is one', 'new_ok', 'yes'), ('chosen nodes can be reached', 'possible', 'yes'),
                        ('explored nodes are chosen by upper confidence bound', 'best_ok', 'yes'), ('simulation goes to reachable nodes', 'sim_ok', 'yes'), ('simulation does not expand', 'again', 'no')])
    WO = [MC + ':check_agent_overlap']
    for n, (lbl, cons) in enumerate((('everyone hunts everyone', [[0, 1, 1], [1, 0, 1], [1, 1, 0]]), ('a chain', [[0, 1, 0], [0, 0, 1], [0, 0, 0]]), ('a chain to the planning agent', [[0, 0, 0], [1, 0, 0], [0, 1, 0]]),
                                     ('two prey', [[0, 1, 1], [0, 0, 0], [0, 0, 0]]), ('two hunters', [[0, 0, 0], [1, 0, 0], [1, 0, 0]]), ('nobody hunts', [[0] * 3] * 3))):
        r = c.run('overlap, ' + lbl, [HEAD, """
            from maMDP.algorithms.mcts import check_agent_overlap
            cons = np.array(%s)
            before = active.copy()
            node = np.array([p0, p1, p2])
            rew, after, caught = check_agent_overlap(cons, node, cost, active, vals)
            w = before.copy()
            wr, wc = 0, False
            for i in range(3):
                for j in range(3):
                    if not wc and cons[i, j] and w[i] and w[j] and node[i] == node[j]:
                        w[j] = False
                        if j == 0:
                            wr = wr + cost
                            wc = True
                        elif i == 0:
                            wr = wr + vals[j]
        """ % [[bool(x) for x in row] for row in cons]], k.tin(active=lambda st: k.E.array(st, 'active', (num(3),), dtype='b', domain01=True), vals=k.vec('vals', num(3)), p2=k.state('p2')), assume=k.inrange('p0', 'p1', 'p2'))
        check_all(c, r, WO, [('reward of catching (%s)' % lbl, 'rew', 'wr'), ('agents left after catching (%s)' % lbl, 'after', 'w'), ('whether the planning agent is caught (%s)' % lbl, 'caught', 'wc')])


def counts(c, k, name):
    c.arrgens[name] = lambda m: {(i,): max(0, m.h(name, i) % 5 - 2) for i in range(m.get('N'))}
    return k.vec(name, k.N, nonneg=True)


def C26(c):
    """what the tree search reports, and how it shares its moves"""
    need_all(c, MC + ':MCTS')
    W = [MC + ':MCTS._fit', MC + ':get_MCTS_action_values']
    k = TreeKit(c)
    Q = """
        m = MDP(feat, sas, None, seed)
        a = Agent('x', 1, algorithm=MCTS, algorithm_kwargs=dict(n_iter=%(it)s, C=C, return_states=True%(kw)s))
        e = Environment(m, {a: (p0, weights(thf, 1), [])})
        al = a.algorithm
        al.fit(m, weights(thf, 1), p0, %(plan)s)
        V, Nv, q, vals = al.V, al.N, al.q_values, al.values
        wq = np.full((N, A), np.nan)
        for act in range(A):
            if np.any(sas[p0, act] > 0):
                nxt = np.argmax(sas[p0, act])
                wq[p0, act] = V[nxt] / (1 + Nv[nxt])
        runs = len(al.visited_states)
        wruns = %(it)s
    """
    for lbl, it, plan, kw in (('one simulation', '1', '[(2,)]', ''), ('two simulations', '2', '[(1,)]', ''), ('no simulation', '0', '[(1,)]', '')):
        r = c.run('reported, ' + lbl, [HEAD, Q % dict(it=it, plan=plan, kw=kw)], k.tin(sas=k.total('sasq') if it != '0' else k.sas()), assume=k.asm())
        check_all(c, r, W, [('action values are mean simulated rewards of the next states (%s)' % lbl, 'q', 'wq'), ('state values are the totals (%s)' % lbl, 'vals', 'V'), ('number of simulations (%s)' % lbl, 'runs', 'wruns')])
        noraise(c, r, 'planning alone (%s)' % lbl, W)
    # fitting again starts afresh
    r = c.run('refit', [HEAD, """
        m = MDP(feat, sas, None, seed)
        a = Agent('x', 1, algorithm=MCTS, algorithm_kwargs=dict(n_iter=1, C=C, return_states=True))
        e = Environment(m, {a: (p0, weights(thf, 1), [])})
        al = a.algorithm
        al.fit(m, weights(thg, 1), p0, [(1,)])
        al.fit(m, weights(thf, 1), p0, [(1,)])
        tot = al.N.sum()
        one = 1
        V = al.V
        seen = al.visited_states[0][0]
        wv = np.zeros(N)
        wv[seen] = (thf * feat[:, seen]).sum()
    """], k.tin(sas=k.total('sasq2')), assume=k.asm())
    check_all(c, r, W, [('earlier simulations are forgotten (visits)', 'tot', 'one'), ('earlier simulations are forgotten (values)', 'V', 'wv')])
    # without a plan of moves, the agents take turns until n_steps moves are made
    k1 = TreeKit(c, one=True)
    SH = """
        m = MDP(feat, sas, None, seed)
        a = Agent('x', %(n0)d, algorithm=MCTS, algorithm_kwargs=dict(n_iter=1, n_steps=%(steps)d, C=C, interactive=True, opponent_policy_method='random', return_states=True, return_other_agent_states=True))
        b = Agent('y', %(n1)d, algorithm=Null)
        e = Environment(m, {a: (p0, weights(thf, 2), []), b: (p1, weights(thg, 2), [])})
        al = a.algorithm
        al.fit(m, weights(thf, 2), p0)
        mine, theirs = [], []
        pos = [p0, p1]
        left = %(steps)d
        while left > 0:
            for who in range(2):
                for q in range((%(n0)d, %(n1)d)[who]):
                    if left > 0:
                        pos[who] = np.argmax(sas[pos[who], 0])
                        (mine if who == 0 else theirs).append(pos[who])
                        left = left - 1
        got = tuple(al.visited_states[0])
        want = tuple(mine)
        got2 = tuple(al.other_agent_visited_states[0][0])
        want2 = tuple(theirs)
    """
    for n0, n1, steps in ((1, 1, 3), (1, 2, 4), (2, 1, 2), (2, 3, 4), (1, 1, 1)):
        r = c.run('sharing %d %d %d' % (n0, n1, steps), [HEAD, SH % dict(n0=n0, n1=n1, steps=steps)], k1.tin(sas=k1.total('sas1')), assume=k1.asm())
        l = ' (%d and %d moves a turn, %d steps)' % (n0, n1, steps)
        check_all(c, r, W, [('states visited without a plan' + l, 'got', 'want'), ('states visited by the other agent' + l, 'got2', 'want2')])
        noraise(c, r, 'planning without a plan' + l, W)
    # other agents solved for: they act greedily on the given or solved action values
    WO = [MC + ':get_opponent_next_state']
    for sel in ('max', 'softmax'):
        r = c.run('opponent ' + sel, [HEAD, """
            from maMDP.algorithms.mcts import get_opponent_next_state, get_actions_states
            acts_, pairs_, states = get_actions_states(sas, p0)
            nxt, q = get_opponent_next_state('solve', states, p0, thf, feat, sas, None, 'value_iteration', '%s', T, 5, 0.9, 0.1, q_values=Q)
            ok = False
            for act in range(A):
                if Q[p0, act] == Q[p0].max() and np.argmax(sas[p0, act]) == nxt:
                    ok = True
            reach = np.any(sas[p0, :, nxt] > 0)
            yes = True
        """ % sel], k.tin(sas=k.total('sasq3'), Q=lambda st: k.E.array(st, 'Q', (k.N, k.A)), T=k.E.real('T', True)), assume=k.asm())
        check_all(c, r, WO, [('other agents go to reachable states (%s)' % sel, 'reach', 'yes'), ('given action values are handed back (%s)' % sel, 'q', 'Q')] + ([('other agents act greedily', 'ok', 'yes')] if sel == 'max' else []))


def C38(c):
    """options reach what they are for"""
    need_all(c, MC + ':MCTS', 'maMDP.agents:Agent')
    from .env import HEAD as EH, EnvKit
    k = EnvKit(c)
    E = c.E
    W = ['maMDP.agents:Agent.__init__', 'maMDP.agents:Agent._attach']
    OPT = '''
        class Rec(Algorithm):
            def __init__(self, p=1, q=2, r=3):
                self.got = (p, q, r)
                super().__init__()
            def _fit(self, mdp, reward_function, position, n_moves, *a, **k):
                return vals, q
        class RSel(ActionSelector):
            def __init__(self, g=4, h=5):
                self.got = (g, h)
            def _get_pi(self, q_values):
                return pol.copy()
            def _get_pi_p(self, q_values):
                return polp.copy()
        m = MDP(feat, sas, w1, seed)
        ak, sk = dict(r=u, p=v), dict(h=u)
        a = Agent('x', 3, algorithm=Rec, algorithm_kwargs=ak, action_selector=RSel, action_kwargs=sk)
        b = Agent('y', 2, algorithm=Rec, action_selector=RSel, action_kwargs=dict(g=v))
        d = Agent('z', algorithm=Rec, algorithm_kwargs=dict(q=v), action_selector=RSel)
        order = [b.algorithm.got, a.algorithm.got, d.algorithm.got]
        e = Environment(m, {b: (p0, th, []), a: (p1, th, []), d: (p2, th, [])})
        x, y, z = e.agents['x'], e.agents['y'], e.agents['z']
        gx, wx = x.algorithm.got, (v, 2, u)
        gy, wy = y.algorithm.got, (1, 2, 3)
        gz, wz = z.algorithm.got, (1, v, 3)
        sx, tx = x.action_selector.got, (4, u)
        sy, ty = y.action_selector.got, (v, 5)
        sz, tz = z.action_selector.got, (4, 5)
        nm, wnm = (x.n_moves, y.n_moves, z.n_moves), (3, 2, 1)
        own = x.algorithm is not y.algorithm and y.algorithm is not z.algorithm and x.algorithm is not z.algorithm
        own2 = x.action_selector is not y.action_selector and y.action_selector is not z.action_selector
        yes = True
        ga, wa, gs, ws = ak, dict(r=u, p=v), sk, dict(h=u)
        ka, ks = x.algorithm_kwargs, x.action_kwargs
        fa, fs = dict(p=0, r=None), dict(g=0, h='')
        o = Agent('o', algorithm=Rec, algorithm_kwargs=fa, action_selector=RSel, action_kwargs=fs)
        go, wo, so, to = o.algorithm.got, (0, 2, None), o.action_selector.got, (0, '')
        gfa, wfa, gfs, wfs = (o.algorithm_kwargs, fa), (dict(p=0, r=None), dict(p=0, r=None)), (o.action_kwargs, fs), (dict(g=0, h=''), dict(g=0, h=''))
        e.reset()
        gx2, sx2 = x.algorithm.got, x.action_selector.got
    '''
    inp = k.inputs(u=E.int('u'), v=E.int('v'))
    inp['th'] = k.vec('th3', t.add(k.F, num(3)))
    r = c.run('options of agents', [EH, OPT], inp, assume=k.asm())
    check_all(c, r, W, [('algorithm options of an agent', 'gx', 'wx'), ('no algorithm options', 'gy', 'wy'), ('other algorithm options', 'gz', 'wz'), ('selection options of an agent', 'sx', 'tx'), ('other selection options', 'sy', 'ty'),
                        ('no selection options', 'sz', 'tz'), ('moves of each agent', 'nm', 'wnm'), ('agents have algorithms of their own', 'own', 'yes'), ('agents have action selection of their own', 'own2', 'yes'),
                        ('given algorithm options are left alone', 'ga', 'wa'), ('given selection options are left alone', 'gs', 'ws'), ('algorithm options are kept for saving', 'ka', 'wa'), ('selection options are kept for saving', 'ks', 'ws'),
                        ('algorithm options with false values', 'go', 'wo'), ('selection options with false values', 'so', 'to'), ('algorithm options with false values are kept', 'gfa', 'wfa'), ('selection options with false values are kept', 'gfs', 'wfs'),
                        ('algorithm options survive a reset', 'gx2', 'wx'), ('selection options survive a reset', 'sx2', 'tx')])
    noraise(c, r, 'options of agents', W)
    # planning of other agents in the tree search
    k = TreeKit(c)
    c.doms['A'] = lambda m: m.size('A', 1, 2)
    disc, tol = E.real('disc', True), E.real('tol', True)
    c.doms.update(disc=lambda m: (1 + m.h('disc') % 19) / 20, tol=lambda m: (m.h('tol') % 7) / 10)
    WS = [MC + ':run_mcts', MC + ':mcts_iteration', MC + ':get_opponent_next_state']
    for lbl, cons, kw, (mi, di, to) in (('all options', '', 'VI_max_iter=1, VI_discount=disc, VI_tol=tol', (1, 'disc', 'tol')), ('discount by default', '', 'VI_max_iter=1, VI_tol=tol', (1, '0.9', 'tol'))):
        r = c.run('opponents: ' + lbl, [HEAD, '''
            from maMDP.algorithms.dynamic_programming import solve_value_iteration
            m = MDP(feat, sas, None, seed)
            a = Agent('x', 1, algorithm=MCTS, algorithm_kwargs=dict(n_iter=1, C=C, interactive=True, opponent_policy_method='solve', opponent_action_selection='max', return_states=True, return_other_agent_states=True, VI_kwargs=dict(%s)))
            b = Agent('y', 1, algorithm=Null)
            e = Environment(m, {a: (p0, weights(thf, 2), [%s]), b: (p1, weights(thg, 2), [])})
            f = m.features.copy()
            al = a.algorithm
            al.fit(m, weights(thf, 2), p0, [(1,), (1,)])
            first = al.visited_states[0][0]
            for q in [%s]:
                f[q, first] = 0
            nxt = al.other_agent_visited_states[0][0][0]
            V, Q = solve_value_iteration(weights(thg, 2), f, %s, %s, sas, %s)
            ok = False
            for act in range(A):
                if Q[p1, act] == Q[p1].max() and np.argmax(sas[p1, act]) == nxt:
                    ok = True
            yes = True
        ''' % (kw, cons, cons, mi, di, to)], k.tin(sas=k.total('sasq4'), disc=disc, tol=tol), assume=k.asm())
        check_all(c, r, WS, [('other agents plan with their own weights, the features left and the given options (%s)' % lbl, 'ok', 'yes')])
        noraise(c, r, 'opponents (%s)' % lbl, WS)
