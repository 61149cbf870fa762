"""Rules about maMDP.environments / maMDP.agents: the simulation state and its protocol."""
from .common import *

EN = 'maMDP.environments:Environment'
AT = 'maMDP.agents:AttachedAgent'

HEAD = '''
    from maMDP.mdp import MDP
    from maMDP.agents import Agent
    from maMDP.environments import Environment
    from maMDP.algorithms.base import Algorithm
    from maMDP.algorithms.action_selection import ActionSelector
    import numpy as np
    fits = []
    class Stub(Algorithm):
        def _fit(self, mdp, reward_function, position, n_moves, *a, **k):
            fits.append((position, n_moves))
            return vals, q
    class Sel(ActionSelector):
        def _get_pi(self, q_values):
            return pol.copy()
        def _get_pi_p(self, q_values):
            return polp.copy()
    def onehot(p):
        z = np.zeros(N)
        z[p] = 1
        return z
    def rows(f, p, q_):
        return np.vstack([f, onehot(p)[None, :], onehot(q_)[None, :]])
    def rows1(f, p):
        return np.vstack([f, onehot(p)[None, :]])
'''
MK = '''
    m = MDP(feat, sas, w1, seed)
    ag = Agent('x', 2, algorithm=Stub%s)
    bg = Agent('y', 1, algorithm=Stub%s)
    e = Environment(m, {ag: (p0, th, [%s]), bg: (p1, th2, [%s])})
'''


def mk(sel='', c0='', c1=''):
    s = ', action_selector=%s' % sel if sel else ''
    return MK % (s, s, c0, c1)


class EnvKit(Kit):
    def inputs(self, **kw):
        E, c = self.E, self.c
        F2 = t.add(self.F, num(2))
        d = self.base(p0=self.state('p0'), p1=self.state('p1'), p2=self.state('p2'),
                      th=self.vec('th', F2), th2=self.vec('th2', F2), vals=self.vec('vals', self.N),
                      q=lambda st: E.array(st, 'q', (self.N, self.A), nan=True, inf=True),
                      pol=lambda st: E.array(st, 'pol', (self.N,), integer=True) if True else None,
                      polp=lambda st: E.array(st, 'polp', (self.N, self.A), nonneg=True, max1=True),
                      c0=self.below('c0', self.F), c1=self.below('c1', self.F))
        c.arrgens['pol'] = lambda m: {(i,): m.h('pol', i) % (m.get('A') + 1) - 1 for i in range(m.get('N'))} if m.seed % 3 == 0 else \
            {(i,): m.h('pol', i) % m.get('A') for i in range(m.get('N'))}
        d.update(kw)
        return d

    def asm(self, *extra):
        return t.conj([self.inrange('p0', 'p1', 'p2'), t.gt(self.F, t.sym('c0', 'int')), t.gt(self.F, t.sym('c1', 'int'))] + list(extra))


def C07(c):
    """agent feature rows"""
    need_all(c, EN, EN + '.set_agent_position', EN + '.step', EN + '.reset', 'maMDP.mdp:MDP.update_agent_feature')
    k = EnvKit(c)
    W = ['maMDP.agents:AttachedAgent.position=', 'maMDP.mdp:MDP.update_agent_feature']
    inp, asm = k.inputs(), k.asm()
    r = c.run('after construction', [HEAD, mk(), '''
        got, want = m.features, rows(feat, p0, p1)
        na, nf, wf, two = m.n_agents, m.n_features, F + 2, 2
        i0, i1, j0, j1 = e.agents['x'].agent_feature_idx, e.agents['y'].agent_feature_idx, F, F + 1
    '''], inp, assume=asm)
    check_all(c, r, W, [('construction: one feature row per agent, marking its position', 'got', 'want'), ('agents counted', 'na', 'two'), ('agent rows counted as features', 'nf', 'wf'),
                        ('first agent knows its row', 'i0', 'j0'), ('second agent knows its row', 'i1', 'j1')])
    noraise(c, r, 'construction', W)
    r = c.run('after moving', [HEAD, mk(), '''
        e.set_agent_position('y', p2)
        got, want = m.features.copy(), rows(feat, p0, p2)
        e.set_agent_position('x', p1)
        got2, want2 = m.features.copy(), rows(feat, p1, p2)
        e.set_agent_position('x', p2)
        got3, want3 = m.features.copy(), rows(feat, p2, p2)
        g4, g5 = e.agents['x'].position, e.agents['y'].position
    '''], inp, assume=asm)
    check_all(c, r, W, [('moving the second agent', 'got', 'want'), ('moving the first agent', 'got2', 'want2'), ('moving onto the other agent', 'got3', 'want3'),
                        ('position readable', 'g4', 'p2'), ('other position readable', 'g5', 'p2')])
    noraise(c, r, 'moving an agent', W)
    r = c.run('after steps', [HEAD, mk('Sel'), '''
        e.fit('x')
        e.fit('y')
        a = e.step('x')
        got, want = m.features.copy(), rows(feat, a, p1)
        b = e.step('y')
        got2, want2 = m.features.copy(), rows(feat, a, b)
    '''], inp, assume=asm)
    check_all(c, r, W, [('step of the first agent', 'got', 'want'), ('step of the second agent', 'got2', 'want2')])
    r = c.run('after reset', [HEAD, mk(), '''
        e.set_agent_position('x', p2)
        e.set_agent_position('y', p2)
        e.reset()
        got, want = m.features.copy(), rows(feat, p0, p1)
        e.set_agent_position('y', p2)
        got2, want2 = m.features.copy(), rows(feat, p0, p2)
    '''], inp, assume=asm)
    check_all(c, r, W, [('reset returns the rows to the starting positions', 'got', 'want'), ('moves after reset', 'got2', 'want2')])
    noraise(c, r, 'moves and reset', W)
    r = c.run('environment rebuilt on the same MDP', [HEAD, mk(), '''
        e.set_agent_position('x', p2)
        ag2 = Agent('z', 1, algorithm=Stub)
        e2 = Environment(m, {ag2: (p1, th1, [])})
        got, want = m.features.copy(), rows1(feat, p1)
        na, one = m.n_agents, 1
        e2.set_agent_position('z', p2)
        got2, want2 = m.features.copy(), rows1(feat, p2)
        e2.reset()
        got3 = m.features
    '''], k.inputs(th1=k.vec('th1', t.add(k.F, num(1)))), assume=asm)
    check_all(c, r, EN + '._set_mdp_and_agents', [('a new environment drops the rows of the old one', 'got', 'want'), ('agents of the new environment counted', 'na', 'one'),
                                                 ('moves in the new environment', 'got2', 'want2'), ('reset of the new environment', 'got3', 'want')])
    manyagents(c)
    r = c.run('bad position', [HEAD, mk(), '''
        f0 = m.features.copy()
        bad = np_ < 0 or np_ >= N
        done = False
        try:
            e.set_agent_position('x', np_)
            done = True
        except ValueError:
            pass
        good = not bad
        pos = e.agents['x'].position
        if bad:
            wp, wf = p0, f0
        else:
            wp, wf = np_, rows(feat, np_, p1)
        gf = m.features
    '''], k.inputs(np_=c.E.int('np_')), doms={'np_': lambda m: m.h('np_') % (m.get('N') + 4) - 2}, assume=asm)
    check_all(c, r, W, [('positions outside the state space rejected', 'done', 'good'), ('rejected move leaves the agent', 'pos', 'wp'), ('rejected move leaves the features', 'gf', 'wf')])


ROWSN = '''
    def rowsn(f, *ps):
        return np.vstack([f] + [onehot(p)[None, :] for p in ps])
    def env3(m, sel):
        return Environment(m, {Agent('u', 1, algorithm=Stub, action_selector=sel): (p0, t3, [F + 1]), Agent('v', 2, algorithm=Stub, action_selector=sel): (p1, t3, [c0]), Agent('w', 1, algorithm=Stub, action_selector=sel): (p2, t3, [F])})
    def env1(m, sel):
        return Environment(m, {Agent('s', 1, algorithm=Stub, action_selector=sel): (p2, t1, [c0])})
    def env2(m, sel):
        return Environment(m, {Agent('x', 2, algorithm=Stub, action_selector=sel): (p0, th, [c0]), Agent('y', 1, algorithm=Stub, action_selector=sel): (p1, th2, [])})
'''


def inputs3(k):
    return k.inputs(t3=k.vec('t3', t.add(k.F, num(3))), t1=k.vec('t1', t.add(k.F, num(1))))


def manyagents(c):
    """rows of one, two and three agents, and of environments built one after another on the same MDP"""
    k = EnvKit(c)
    W = ['maMDP.agents:AttachedAgent.position=', 'maMDP.mdp:MDP.update_agent_feature', EN + '._set_mdp_and_agents']
    inp, asm = inputs3(k), k.asm()
    r = c.run('three agents', [HEAD, ROWSN, '''
        m = MDP(feat, sas, w1, seed)
        e = env3(m, Sel)
        g0, w0 = m.features.copy(), rowsn(feat, p0, p1, p2)
        e.set_agent_position('v', p0)
        g1, w1_ = m.features.copy(), rowsn(feat, p0, p0, p2)
        e.set_agent_position('w', p1)
        e.set_agent_position('u', p2)
        g2, w2_ = m.features.copy(), rowsn(feat, p2, p0, p1)
        e.reset()
        g3 = m.features.copy()
        gi, wi = [a.agent_feature_idx for a in e.agents.values()], [F, F + 1, F + 2]
    '''], inp, assume=asm)
    check_all(c, r, W, [('three agents: one row each', 'g0', 'w0'), ('three agents: moving the second', 'g1', 'w1_'), ('three agents: moving the others', 'g2', 'w2_'), ('three agents: reset', 'g3', 'w0'), ('three agents know their rows', 'gi', 'wi')])
    noraise(c, r, 'three agents', W)
    r = c.run('one agent', [HEAD, ROWSN, '''
        m = MDP(feat, sas, w1, seed)
        e = env1(m, Sel)
        g0, w0 = m.features.copy(), rowsn(feat, p2)
        e.set_agent_position('s', p0)
        g1, w1_ = m.features.copy(), rowsn(feat, p0)
        e.reset()
        g2 = m.features.copy()
    '''], inp, assume=asm)
    check_all(c, r, W, [('one agent: one row', 'g0', 'w0'), ('one agent: moving', 'g1', 'w1_'), ('one agent: reset', 'g2', 'w0')])
    noraise(c, r, 'one agent', W)
    for a, b, mv, last in (('1', '2', "e2.set_agent_position('y', p2)", 'p0, p2'), ('1', '1', "e2.set_agent_position('s', p0)", 'p0'), ('2', '3', "e2.set_agent_position('w', p0)", 'p0, p1, p0'),
                           ('3', '1', "e2.set_agent_position('s', p1)", 'p1'), ('2', '2', "e2.set_agent_position('x', p2)", 'p2, p1')):
        first = {'1': 'p2', '2': 'p0, p1', '3': 'p0, p1, p2'}[b]
        r = c.run('%s agents, then %s' % (a, b), [HEAD, ROWSN, '''
            m = MDP(feat, sas, w1, seed)
            e = env%s(m, Sel)
            e2 = env%s(m, Sel)
            g0, w0 = m.features.copy(), rowsn(feat, %s)
            n, wn = (m.n_agents, m.n_features), (%s, F + %s)
            gi, wi = [z.agent_feature_idx for z in e2.agents.values()], [F + i for i in range(%s)]
            %s
            g1, w1_ = m.features.copy(), rowsn(feat, %s)
            e2.reset()
            g2 = m.features.copy()
        ''' % (a, b, first, b, b, b, mv, last)], inp, assume=asm)
        l = ' (%s agents, then %s)' % (a, b)
        check_all(c, r, W, [('rows of the new environment' + l, 'g0', 'w0'), ('agents and features counted' + l, 'n', 'wn'), ('agents know their rows' + l, 'gi', 'wi'), ('moves in the new environment' + l, 'g1', 'w1_'), ('reset of the new environment' + l, 'g2', 'w0')])
        noraise(c, r, 'a new environment' + l, W)


def C08(c):
    """reset"""
    need_all(c, EN + '.reset', AT + '.reset', 'maMDP.mdp:MDP.reset')
    k = EnvKit(c)
    W = [EN + '.reset', AT + '.reset']
    inp, asm = k.inputs(), k.asm()
    snap = '''
        def snap(e, m):
            a, b = e.agents['x'], e.agents['y']
            return [m.features.copy(), m.sas.copy(), m.walls.copy(), a.position, b.position, a.consumed.copy(), b.consumed.copy(), list(a.position_history), list(b.position_history), a.pi, a.pi_p, b.pi, b.pi_p,
                    m.n_features, m.n_agents, m.adjacency.copy()]
        s0 = snap(e, m)
    '''
    labels = ['features', 'transitions', 'walls', 'first position', 'second position', 'first consumption record', 'second consumption record', 'first history', 'second history',
              'first policy', 'first policy probabilities', 'second policy', 'second policy probabilities', 'number of features', 'number of agents', 'adjacency']
    hist = {
        'one step': ("c0", "", "e.fit('x')\ne.step('x')"),
        'steps of both': ("c0, c1", "F", "e.fit('x')\ne.step('x')\ne.fit('y')\ne.step('y')"),
        'moves': ("", "", "e.set_agent_position('x', p2)\ne.set_agent_position('y', p0)"),
        'consumption': ("", "", "m.consume_features([c0, F], p1)\ne.set_agent_position('x', p2)"),
        'reset twice': ("c0", "", "e.fit('x')\ne.step('x')\ne.reset()"),
        'step after reset': ("c0", "", "e.set_agent_position('x', p2)\ne.reset()\ne.fit('x')\ne.step('x')"),
        'nothing': ("c0", "", "pass"),
    }
    for h, (c0, c1, ops) in hist.items():
        r = c.run(h, [HEAD, mk('Sel', c0, c1), snap, ops, 'e.reset()', 's1 = snap(e, m)',
                      '\n'.join('g%d, w%d = s1[%d], s0[%d]' % (i, i, i, i) for i in range(len(labels)))], inp, assume=asm)
        check_all(c, r, W, [('%s restored after %s' % (l, h), 'g%d' % i, 'w%d' % i) for i, l in enumerate(labels)])
    snapn = '''
        def snap(e, m):
            z = list(e.agents.values())
            return [m.features.copy(), [a.position for a in z], [a.consumed.copy() for a in z], [list(a.position_history) for a in z], [a.pi is None for a in z], [a.pi_p is None for a in z], m.sas.copy(), m.walls.copy()]
        s0 = snap(e, m)
    '''
    lab = ['features', 'positions', 'consumption records', 'histories', 'policies', 'policy probabilities', 'transitions', 'walls']
    for n, names in (('1', 's'), ('3', 'uvw')):
        for h, ops in (('moves', ["e.set_agent_position('%s', p%d)" % (z, i % 3) for i, z in enumerate(names)]), ('a move of the last', ["e.set_agent_position('%s', p0)" % names[-1]]),
                       ('a step of the last', ["e.fit('%s')" % names[-1], "e.step('%s')" % names[-1]]), ('a step and a move', ["e.fit('%s')" % names[0], "e.step('%s')" % names[0], "e.set_agent_position('%s', p1)" % names[0]])):
            r = c.run('%s agents: %s' % (n, h), [HEAD, ROWSN, 'm = MDP(feat, sas, w1, seed)', 'e = env%s(m, Sel)' % n, snapn, '\n'.join(ops), 'e.reset()', 's1 = snap(e, m)',
                                                 '\n'.join('g%d, w%d = s1[%d], s0[%d]' % (i, i, i, i) for i in range(len(lab)))], dict(inputs3(k), sas=Kit(c, 'det').sas('dsas')) if 'step' in h else inputs3(k), assume=asm)
            check_all(c, r, W, [('%s of %s agents restored after %s' % (l, n, h), 'g%d' % i, 'w%d' % i) for i, l in enumerate(lab)])
    # replay: the same moves have the same effect after a reset
    r = c.run('replay', [HEAD, mk('Sel', 'c0'), snap, '''
        e.fit('x')
        e.step('x')
        a = snap(e, m)
        e.reset()
        e.fit('x')
        e.step('x')
        b = snap(e, m)
        ga, gb = a[0], b[0]
        ca, cb = a[5], b[5]
        ha, hb = a[7], b[7]
    '''], k.inputs(sas=Kit(c, 'det').sas('dsas')), assume=asm)
    check_all(c, r, W, [('replayed step: features', 'gb', 'ga'), ('replayed step: consumption', 'cb', 'ca'), ('replayed step: history', 'hb', 'ha')])


def C11(c):
    """step protocol"""
    need_all(c, EN + '.step', AT + '.step')
    k = EnvKit(c)
    W = EN + '.step'
    asm = k.asm()
    for det in ('det', None):
        inp = k.inputs()
        if det:
            inp['sas'] = Kit(c, 'det').sas('dsas')
        for label, cons, cond in (('consuming nothing', '', 'False'), ('consuming one feature', 'c0', 'i == c0'), ('consuming two', 'c0, c1', 'i == c0 or i == c1'),
                                  ('consuming the other agent', 'F + 1', 'i == F + 1')):
            r = c.run('step %s (%s)' % (label, det or 'any'), [HEAD, mk('Sel', cons), '''
                e.fit('x')
                n0 = e.n_steps
                ret = e.step('x')
                pos = e.agents['x'].position
                dn = e.n_steps - n0
                one = 1
                hist, whist = e.get_agent_position_history('x'), [p0, ret]
                moved = rows(feat, ret, p1)
                wf = moved.copy()
                wc = np.zeros(F + 2)
                for i in range(F + 2):
                    if %s:
                        if moved[i, ret] > 0:
                            wc[i] = 1
                            wf[i, ret] = 0
                gf, gc = m.features, e.agents['x'].consumed
                oc, zc = e.agents['y'].consumed, np.zeros(F + 2)
                op, oh, woh = e.agents['y'].position, e.agents['y'].position_history, [p1]
                reach = m.sas[p0, pol[p0], ret] > 0
                yes = True
            ''' % cond], inp, assume=asm)
            check_all(c, r, W, [(x + ' (%s, %s)' % (label, det or 'any'), g, w) for x, g, w in (
                ('returned position is the agent\'s', 'ret', 'pos'), ('one step counted', 'dn', 'one'), ('history extended by the new position', 'hist', 'whist'),
                ('features at the new position consumed, nothing else', 'gf', 'wf'), ('consumption recorded', 'gc', 'wc'), ('other agent\'s record untouched', 'oc', 'zc'),
                ('other agent stays', 'op', 'p1'), ('other history untouched', 'oh', 'woh'), ('moved by a possible transition', 'reach', 'yes'))])
    for who, other, start, eats in (('u', 'vw', 'p0', 'wc[F + 1] = 1 if ret == p1 else 0;wf[F + 1, ret] = 0'), ('v', 'uw', 'p1', 'wc[c0] = 1 if feat[c0, ret] > 0 else 0;wf[c0, ret] = min(feat[c0, ret], 0)'),
                                    ('w', 'uv', 'p2', 'wc[F] = 1 if ret == p0 else 0;wf[F, ret] = 0'),
                                    ('s', '', 'p2', 'wc[c0] = 1 if feat[c0, ret] > 0 else 0;wf[c0, ret] = min(feat[c0, ret], 0)')):
        eats = eats.replace(';', '\n            ')
        n = '1' if who == 's' else '3'
        r = c.run('step of agent %s' % who, [HEAD, ROWSN, '''
            m = MDP(feat, sas, w1, seed)
            e = env%s(m, Sel)
            e.fit('%s')
            ret = e.step('%s')
            ag = e.agents['%s']
            g0, w0 = (ag.position, e.n_steps), (ret, 1)
            g1, w1_ = ag.position_history, [%s, ret]
            wf = rowsn(feat, %s)
            wc = np.zeros(F + %s)
            %s
            g2, g3 = m.features, ag.consumed
            g4 = [(z, e.agents[z].position, list(e.agents[z].position_history), e.agents[z].consumed.sum()) for z in %r]
            w4 = [(z, {'u': p0, 'v': p1, 'w': p2}[z], [{'u': p0, 'v': p1, 'w': p2}[z]], 0) for z in %r]
        ''' % (n, who, who, who, start, dict(u='ret, p1, p2', v='p0, ret, p2', w='p0, p1, ret', s='ret')[who], n, eats, list(other), list(other))], dict(inputs3(k), sas=Kit(c, 'det').sas('dsas')), assume=asm)
        l = ' (agent %s of %s)' % (who, n)
        check_all(c, r, W, [('position and step count' + l, 'g0', 'w0'), ('history' + l, 'g1', 'w1_'), ('features after the step' + l, 'g2', 'wf'), ('record' + l, 'g3', 'wc'), ('other agents untouched' + l, 'g4', 'w4')])
    r = c.run('two steps', [HEAD, mk('Sel', 'c0'), '''
        e.fit('x')
        a = e.step('x')
        k1 = e.agents['x'].consumed.copy()
        b = e.step('x')
        n = e.n_steps
        two = 2
        hist, whist = e.get_agent_position_history('x'), [p0, a, b]
        f1 = feat.copy()
        wc = np.zeros(F + 2)
        if f1[c0, a] > 0:
            wc[c0] += 1
            f1[c0, a] = 0
        if f1[c0, b] > 0:
            wc[c0] += 1
            f1[c0, b] = 0
        gc = e.agents['x'].consumed
        gf, wf = m.features, rows(f1, b, p1)
    '''], k.inputs(sas=Kit(c, 'det').sas('dsas')), assume=asm)
    check_all(c, r, W, [('two steps counted', 'n', 'two'), ('history of two steps', 'hist', 'whist'), ('consumption accumulates', 'gc', 'wc'), ('features after two steps', 'gf', 'wf')])
    r = c.run('steps of both agents', [HEAD, mk('Sel', 'c0', 'F'), '''
        e.fit('x')
        e.fit('y')
        a = e.step('x')
        b = e.step('y')
        n, two = e.n_steps, 2
        h1, w1_, h2, w2_ = e.get_agent_position_history('x'), [p0, a], e.get_agent_position_history('y'), [p1, b]
        wd = np.zeros(F + 2)
        if a == b:
            wd[F] += 1
        gd = e.agents['y'].consumed
        f1 = feat.copy()
        f1[c0, a] = 0 if f1[c0, a] > 0 else f1[c0, a]
        gf, wf = m.features[:F, :], f1
    '''], k.inputs(sas=Kit(c, 'det').sas('dsas')), assume=asm)
    check_all(c, r, W, [('both steps counted', 'n', 'two'), ('history of first agent', 'h1', 'w1_'), ('history of second agent', 'h2', 'w2_'),
                        ('second agent\'s consumption', 'gd', 'wd'), ('features after both', 'gf', 'wf')])


def C12(c):
    """unknown names"""
    need_all(c, EN + '.step')
    k = EnvKit(c)
    inp, asm = k.inputs(), k.asm()
    calls = {'fit': "e.fit('zz')", 'step': "e.step('zz')", 'step_proba': "e.step_proba('zz')", 'step_multi': "e.step_multi('zz')", 'set_agent_position': "e.set_agent_position('zz', p2)",
             'get_agent_position_history': "e.get_agent_position_history('zz')", 'get_agent_q_values': "e.get_agent_q_values('zz')", 'get_agent_pi': "e.get_agent_pi('zz')",
             'get_agent_pi_p': "e.get_agent_pi_p('zz')", 'plot_state_values': "e.plot_state_values('zz')"}
    for n, call in calls.items():
        need_all(c, EN + '.' + n)
        for other in (False, True):
            r = c.run('unknown name: %s%s' % (n, ' after fitting' if other else ''), [HEAD, mk('Sel', 'c0'), "e.fit('x')" if other else 'pass', '''
                f0, n0, k0, h0 = m.features.copy(), e.n_steps, len(fits), list(e.agents['x'].position_history)
                res = 'returned'
                try:
                    %s
                except ValueError:
                    res = 'ValueError'
                except Exception:
                    res = 'other'
                ve = 'ValueError'
                f1, n1, k1, h1 = m.features, e.n_steps, len(fits), e.agents['x'].position_history
                x0, x1 = e.agents['x'].position, e.agents['y'].position
            ''' % call], inp, assume=asm)
            s = ' after fitting' if other else ''
            check_all(c, r, EN + '.' + n, [('%s: unknown name rejected%s' % (n, s), 'res', 've'), ('%s: features untouched%s' % (n, s), 'f1', 'f0'), ('%s: nothing counted%s' % (n, s), 'n1', 'n0'),
                                           ('%s: nothing fitted%s' % (n, s), 'k1', 'k0'), ('%s: history untouched%s' % (n, s), 'h1', 'h0'), ('%s: positions untouched%s' % (n, s), 'x0', 'p0')])
        # names that resemble those of agents are no names of agents
        r = c.run('similar name: %s' % n, [HEAD, """
            m = MDP(feat, sas, w1, seed)
            e = Environment(m, {Agent('Big hunter', 2, algorithm=Stub, action_selector=Sel): (p0, th, [c0]), Agent('x', 1, algorithm=Stub, action_selector=Sel): (p1, th2, [])})
            e.fit('x')
            e.fit('Big hunter')
            f0, n0, k0 = m.features.copy(), e.n_steps, len(fits)
            res = []
            for nm in ['', 'Big', 'hunter', 'big hunter', 'Big hunter ', ' x', 'X', 'xx', 'Big hunter x']:
                try:
                    %s
                    res.append('returned')
                except ValueError:
                    res.append('ValueError')
                except Exception:
                    res.append('other')
            ve = ['ValueError'] * 9
            f1, n1, k1 = m.features, e.n_steps, len(fits)
            x0 = (e.agents['Big hunter'].position, e.agents['x'].position, len(e.agents['x'].position_history), len(e.agents['Big hunter'].position_history))
            y0 = (p0, p1, 1, 1)
        """ % call.replace("'zz'", 'nm')], inp, assume=asm)
        check_all(c, r, EN + '.' + n, [('%s: similar names rejected' % n, 'res', 've'), ('%s: features untouched by similar names' % n, 'f1', 'f0'), ('%s: nothing counted for similar names' % n, 'n1', 'n0'),
                                       ('%s: nothing fitted for similar names' % n, 'k1', 'k0'), ('%s: positions untouched by similar names' % n, 'x0', 'y0')])


def C13(c):
    """steps follow the policy of the current action values"""
    need_all(c, AT + '.step', AT + '.get_policy', EN + '.step')
    k = EnvKit(c)
    W = AT + '.step'
    inp, asm = k.inputs(), k.asm()
    for h, ops in (('before any fit', ''), ('when only the other agent was fit', "e.fit('y')"), ('unfit after moving', "e.set_agent_position('x', p2)")):
        for call in ('step', 'step_proba'):
            r = c.run('%s %s' % (call, h), [HEAD, mk('Sel', 'c0'), ops, '''
                f0, pp = m.features.copy(), e.agents['x'].position
                n0 = e.n_steps
                ok = False
                try:
                    e.%s('x')
                    ok = True
                except Exception:
                    pass
                no = False
                f1, q1, n1 = m.features, e.agents['x'].position, e.n_steps
            ''' % call], inp, assume=asm)
            check_all(c, r, W, [('%s refused %s' % (call, h), 'ok', 'no'), ('refused %s leaves features (%s)' % (call, h), 'f1', 'f0'), ('refused %s leaves position (%s)' % (call, h), 'q1', 'pp'),
                                ('refused %s is not counted (%s)' % (call, h), 'n1', 'n0')])
    r = c.run('refused actions', [HEAD, mk('Sel', 'c0'), '''
        e.fit('x')
        f0 = m.features.copy()
        act = e.agents['x'].pi[p0]
        bad = act < 0
        if act >= 0:
            if not (m.sas[p0, act, :] > 0).any():
                bad = True
        ok = False
        try:
            e.step('x')
            ok = True
        except Exception:
            pass
        good = not bad
        if bad:
            f1, q1, n1, h1 = m.features.copy(), e.agents['x'].position, e.n_steps, len(e.agents['x'].position_history)
        else:
            f1, q1, n1, h1 = f0, p0, 0, 1
        zero, one = 0, 1
    '''], inp, assume=asm)
    check_all(c, r, W, [('step refused exactly when no usable action is known', 'ok', 'good'), ('refused step leaves features', 'f1', 'f0'), ('refused step leaves position', 'q1', 'p0'),
                        ('refused step not counted', 'n1', 'zero'), ('refused step not in history', 'h1', 'one')])
    for det in ('det', None):
        inp2 = dict(inp)
        if det:
            inp2['sas'] = Kit(c, 'det').sas('dsas')
        r = c.run('default selector (%s)' % (det or 'any'), [HEAD, mk('', 'c0'), '''
            e.fit('x')
            ret = e.step('x')
            act = e.agents['x'].pi[p0]
            best = True
            for i in range(A):
                if q[p0, i] > q[p0, act]:
                    best = False
            known = q[p0, act] == q[p0, act]
            reach = m.sas[p0, act, ret] > 0
            yes = True
        '''], inp2, assume=asm)
        check_all(c, r, W, [('action taken has the highest known value (%s)' % (det or 'any'), 'best', 'yes'), ('action taken has a known value (%s)' % (det or 'any'), 'known', 'yes'),
                            ('moves to a possible successor of that action (%s)' % (det or 'any'), 'reach', 'yes')])
    r = c.run('current values are used', [HEAD, mk('', ''), '''
        e.fit('x')
        e.agents['x'].algorithm.q_values = q2
        ret = e.step('x')
        act = e.agents['x'].pi[p0]
        best = True
        for i in range(A):
            if q2[p0, i] > q2[p0, act]:
                best = False
        reach = m.sas[p0, act, ret] > 0
        yes = True
        gq = e.get_agent_q_values('x')
    '''], k.inputs(q2=lambda st: c.E.array(st, 'q2', (k.N, k.A), nan=True, inf=True)), assume=asm)
    check_all(c, r, W, [('step uses the action values in force now', 'best', 'yes'), ('successor of the action taken', 'reach', 'yes'), ('action values readable', 'gq', 'q2')])
    r = c.run('policy accessors', [HEAD, mk('Sel', ''), '''
        e.fit('x')
        g0, g1 = e.get_agent_pi('x'), e.get_agent_pi_p('x')
        w0, w1_ = e.agents['x'].action_selector.get_pi(q), e.agents['x'].action_selector.get_pi_p(q)
        ok = False
        try:
            e.get_agent_pi('y')
            ok = True
        except AttributeError:
            pass
        ok2 = False
        try:
            e.get_agent_pi_p('y')
            ok2 = True
        except AttributeError:
            pass
        no = False
    '''], inp, assume=asm)
    check_all(c, r, AT + '.get_policy', [('fitting provides the policy', 'g0', 'w0'), ('fitting provides the policy probabilities', 'g1', 'w1_'), ('unfit agent has no policy', 'ok', 'no'), ('unfit agent has no policy probabilities', 'ok2', 'no')])


def C14(c):
    """step_proba pushes a distribution forward"""
    need_all(c, AT + '.step_proba', EN + '.step_proba')
    k = EnvKit(c)
    W = AT + '.step_proba'
    inp, asm = k.inputs(posn=k.vec('posn', k.N, nonneg=True)), k.asm()
    c.arrgens['posn'] = lambda m: {(i,): [0, 1, 0.5, 2, 0, 1e-4, 3e-7][m.h('posn', i) % 7] if i else 1 for i in range(m.get('N'))}
    spec = '''
        pp = e.agents['x'].pi_p
        def push(d):
            d = d / d.sum()
            out = np.zeros(N)
            for j in range(N):
                tot = 0
                for s in range(N):
                    if d[s] > 0:
                        for b in range(A):
                            tot = tot + d[s] * pp[s, b] * m.sas[s, b, j]
                out[j] = tot
            return out
    '''
    r = c.run('given distribution', [HEAD, mk('Sel'), "e.fit('x')", "f0, s0, d0 = m.features.copy(), m.sas.copy(), posn.copy()", "got = e.step_proba('x', posn)", spec, '''
        want = push(posn)
        n, one = e.n_steps, 1
        f1, s1, pos = m.features, m.sas, e.agents['x'].position
    '''], inp, assume=asm)
    check_all(c, r, W, [('outcome distribution for a given position distribution', 'got', 'want'), ('counted as one step', 'n', 'one'), ('agent does not move', 'pos', 'p0'),
                        ('features untouched', 'f1', 'f0'), ('transitions untouched', 's1', 's0'), ('given distribution untouched', 'posn', 'd0')])
    r = c.run('current position', [HEAD, mk('Sel'), "e.fit('x')", "got = e.step_proba('x')", spec, '''
        want = push(onehot(p0))
        e.set_agent_position('x', p2)
        got2 = e.step_proba('x')
        want2 = push(onehot(p2))
    '''], inp, assume=asm)
    check_all(c, r, W, [('outcome distribution from the current position', 'got', 'want'), ('outcome distribution after a move', 'got2', 'want2')])
    r = c.run('chained', [HEAD, mk('Sel'), "e.fit('x')", "a = e.step_proba('x')", spec, '''
        if a.sum() > 0:
            got = e.step_proba('x', a)
            want = push(a)
        else:
            got, want = 0, 0
    '''], inp, assume=asm)
    check_all(c, r, W, [('chained predictions', 'got', 'want')])
    r = c.run('wrong length', [HEAD, mk('Sel'), "e.fit('x')", '''
        bad = True
        e.step_proba('x', pbad)
    '''], k.inputs(pbad=k.vec('pbad', t.add(k.N, num(1)), nonneg=True)), assume=asm)
    raises_iff(c, r, 'distribution of the wrong length', W, 'bad')


def C15(c):
    """allocation of planning moves to turns"""
    need_all(c, 'maMDP.environments:get_n_moves_plan')
    W = 'maMDP.environments:get_n_moves_plan'
    E = c.E
    n, cm, tot, T_ = E.size('n'), t.sym('cm', 'int'), E.nat('tot'), E.size('T')
    c.doms.update(n=lambda m: m.size('n', 1, 4), cm=lambda m: m.size('cm', 0, 7) - (2 if m.h('cmneg') % 3 == 0 else 0), tot=lambda m: m.size('tot', 0, 12) if m.h('totk') % 2 else m.get('n') * (m.h('totk') // 2 % 4) + m.h('totd') % 3, T=lambda m: m.size('T', 1, 4))
    inp = dict(n=n, cm=cm, tot=tot, T=T_)
    for turns in (1, 2, 3, 'T'):
        r = c.run('%s turns' % turns, '''
            from maMDP.environments import get_n_moves_plan
            import numpy as np
            bad = cm < 0 or cm >= n
            out = get_n_moves_plan(cm, %s, n, tot)
            got = np.array(out)
            want = np.zeros(%s)
            for i in range(%s):
                lo = max(i * n, cm)
                hi = min((i + 1) * n, cm + tot)
                want[i] = max(hi - lo, 0)
            s1, s2 = got.sum(), min(tot, %s * n - cm)
            k1, k2 = len(out), %s
        ''' % ((turns,) * 5), inp)
        check_all(c, r, W, [('moves per turn (%s turns)' % turns, 'got', 'want'), ('total number of moves (%s turns)' % turns, 's1', 's2'), ('one entry per turn (%s turns)' % turns, 'k1', 'k2')])
        raises_iff(c, r, 'current move outside the turn (%s turns)' % turns, W, 'bad')


def C16(c):
    """multi-step moves"""
    need_all(c, EN + '.step_multi')
    k = EnvKit(c)
    W = EN + '.step_multi'
    c.E.I.max_unroll = getattr(c.E.I, 'max_unroll', None)
    inp, asm = k.inputs(sas=Kit(c, 'det').sas('dsas')), k.asm()
    # a fully specified walk: fixed policy, deterministic table
    walk = '''
        def walk(p, n):
            out = []
            for i in range(n):
                p = int(np.argmax(m.sas[p, pol[p], :]))
                out.append(p)
            return out
    '''
    for lbl, call, n in (('default number of steps', "e.step_multi('x')", 2), ('one step', "e.step_multi('x', 1)", 1), ('three steps', "e.step_multi('x', n_steps=3)", 3),
                         ('per-agent steps', "e.step_multi('x', [2, 1])", 2), ('second agent', "e.step_multi('y')", 1), ('refitting', "e.step_multi('x', 2, refit=True)", 2)):
        who = 'y' if "'y'" in call else 'x'
        r = c.run(lbl, [HEAD, mk('Sel'), walk, "e.fit('%s')" % who, '''
            k0 = len(fits)
            got = %s
            want = walk(p%d, %d)
            pos, wpos = e.agents['%s'].position, want[-1]
            n, wn = e.n_steps, %d
            h, wh = e.get_agent_position_history('%s'), [p%d] + want
            other, wother = e.agents['%s'].position, p%d
            kf, wk = len(fits) - k0, %d
        ''' % (call, 1 if who == 'y' else 0, n, who, n, who, 1 if who == 'y' else 0, 'x' if who == 'y' else 'y', 0 if who == 'y' else 1, n if 'refit' in call else 0)], inp, assume=asm)
        check_all(c, r, W, [('%s: %s' % (lbl, x), g, w) for x, g, w in (('positions visited are returned', 'got', 'want'), ('final position', 'pos', 'wpos'), ('steps counted', 'n', 'wn'),
                                                                        ('history', 'h', 'wh'), ('other agent stays', 'other', 'wother'), ('number of refits', 'kf', 'wk'))])
    # catching
    for stop in (True, False):
        for cons in ('', 'F + 1'):
            for n in (1, 2):
                r = c.run('catching stop=%s consumes=%s steps=%d' % (stop, cons, n), [HEAD, mk('Sel', cons), walk, "e.fit('x')", '''
                    got = e.step_multi('x', %d, stop_on_caught=%s)
                    want = walk(p0, %d)
                    caught = 0
                    for i in range(%d):
                        if want[i] == p1 and caught == 0:
                            caught = i + 1
                    if %s and caught > 0:
                        want = False
                        wn = caught
                    else:
                        wn = %d
                    n = e.n_steps
                ''' % (n, stop, n, n, bool(stop and cons), n)], inp, assume=asm)
                lbl = '%s, %s, %d steps' % ('stopping' if stop else 'not stopping', 'consuming the other agent' if cons else 'harmless', n)
                check_all(c, r, EN + '._check_agents_caught', [('result when meeting the other agent (%s)' % lbl, 'got', 'want'), ('steps made when meeting the other agent (%s)' % lbl, 'n', 'wn')])
    # planning moves handed to the algorithm
    for lbl, call, first, nst, plan, T in (('defaults', "e.step_multi('x', refit=True)", 2, 2, ('x', [2, 1]), 1), ('given plan', "e.step_multi('x', 3, [pa, pb], TT, refit=True)", 3, 3, ('x', ['pa', 'pb']), 'TT'),
                                           ('per-agent steps', "e.step_multi('x', [2, 3], [pa, pb], 2, refit=True)", 2, 2, ('x', ['pa', 'pb']), 2)):
        for step in range(nst):
            per = {'defaults': [2, 1], 'given plan': [3, 1], 'per-agent steps': [2, 3]}[lbl]
            T_ = 2 if T == 'TT' else T
            r = c.run('plan %s step %d' % (lbl, step), [HEAD, 'from maMDP.environments import get_n_moves_plan', mk('Sel'), '''
                TT = 2
                %s
                got = fits[%d][1]
                want = [get_n_moves_plan(%d, %d, %d, %s), get_n_moves_plan(0, %d, %d, %s)]
                gp, wp = fits[%d][0], ([p0] + e.get_agent_position_history('x')[1:])[%d]
            ''' % (call, step, step, T_, per[0], plan[1][0], T_, per[1], plan[1][1], step, step)], dict(inp, pa=c.E.size('pa'), pb=c.E.size('pb')), assume=asm)
            check_all(c, r, W, [('planning moves for step %d (%s)' % (step + 1, lbl), 'got', 'want'), ('planning starts at the current position, step %d (%s)' % (step + 1, lbl), 'gp', 'wp')])
    for lbl, call in (('too few planning entries', "e.step_multi('x', 1, [1])"), ('too many planning entries', "e.step_multi('x', 1, [1, 2, 3])"), ('zero planning moves', "e.step_multi('x', 1, [1, 0])"),
                      ('zero planning moves of the mover', "e.step_multi('x', 1, [0, 1])")):
        r = c.run(lbl, [HEAD, mk('Sel'), "e.fit('x')", '''
            ok = False
            try:
                %s
                ok = True
            except ValueError:
                pass
            no = False
            n, zero = e.n_steps, 0
            pos = e.agents['x'].position
        ''' % call], inp, assume=asm)
        check_all(c, r, W, [('%s rejected' % lbl, 'ok', 'no'), ('%s: nothing happens' % lbl, 'n', 'zero'), ('%s: agent stays' % lbl, 'pos', 'p0')])
    r = c.run('plan untouched', [HEAD, mk('Sel'), '''
        pl = [pa, pb]
        ns = [2, 1]
        e.step_multi('x', ns, pl, 2, refit=True)
        wpl, wns = [pa, pb], [2, 1]
    '''], dict(inp, pa=c.E.size('pa'), pb=c.E.size('pb')), assume=asm)
    check_all(c, r, W, [('the caller\'s planning list is not modified', 'pl', 'wpl'), ('the caller\'s step list is not modified', 'ns', 'wns')])

    # three agents: who hunts whom, in any order
    clean = dict(inputs3(k), sas=Kit(c, 'det').sas('dsas'), q=lambda st: c.E.array(st, 'q0', (k.N, k.A)))
    for who, eats in (('u', 'F + 1, F + 2'), ('u', 'F + 2, F + 1'), ('v', 'F'), ('v', 'F, F + 2'), ('w', 'F, F + 1'), ('w', 'F + 1'), ('u', 'F'), ('v', 'F + 1, F')):
        start, i = dict(u='p0', v='p1', w='p2')[who], 'uvw'.index(who)
        row = ['F', 'F + 1', 'F + 2']
        meets = [['p0', 'p1', 'p2'][j] for j in range(3) if j != i and row[j] in eats.split(', ')]
        own = row[i] in eats.split(', ')
        r = c.run('catching: %s hunts %s' % (who, eats), [HEAD, walk, """
            m = MDP(feat, sas, w1, seed)
            e = Environment(m, {Agent('u', 2, algorithm=Stub, action_selector=Sel): (p0, t3, [%s]), Agent('v', 2, algorithm=Stub, action_selector=Sel): (p1, t3, [%s]), Agent('w', 2, algorithm=Stub, action_selector=Sel): (p2, t3, [%s])})
            e.fit('%s')
            got = e.step_multi('%s', 1)
            want = walk(%s, 1)
            if want[0] in [%s] or %s:
                want = False
        """ % (eats if who == 'u' else '', eats if who == 'v' else '', eats if who == 'w' else '', who, who, start, ', '.join(meets), own)], clean, assume=asm)
        check_all(c, r, EN + '._check_agents_caught', [('three agents, %s hunts %s: result' % (who, eats), 'got', 'want')])
    # the plan lists the moving agent first and the others in their order
    for who, order in (('u', (0, 1, 2)), ('v', (1, 0, 2)), ('w', (2, 0, 1))):
        for lbl, call, per, tot in (('given', "e.step_multi('%s', 5, pl, 2, refit=True)" % who, ['5', 'mv[%d]' % order[1], 'mv[%d]' % order[2]], ['pa', 'pb', 'pc']),
                                    ('default', "e.step_multi('%s', refit=True, n_turns_plan=2)" % who, ['mv[%d]' % j for j in order], ['mv[%d]' % j for j in order])):
            r = c.run('three plans (%s), %s moves' % (lbl, who), [HEAD, 'from maMDP.environments import get_n_moves_plan', """
                class Once(Exception):
                    pass
                class Plan(Stub):
                    def fit(self, mdp, reward_function, position, n_steps=None, **kw):
                        fits.append(n_steps)
                        raise Once()
                m = MDP(feat, sas, w1, seed)
                e = Environment(m, {Agent('u', 2, algorithm=Plan): (p0, t3, []), Agent('v', 3, algorithm=Plan): (p1, t3, []), Agent('w', 4, algorithm=Plan): (p2, t3, [])})
                pl = [pa, pb, pc]
                try:
                    %s
                except Once:
                    pass
                mv = [2, 3, 4]
                got = fits[0]
                want = [get_n_moves_plan(0, 2, %s, %s), get_n_moves_plan(0, 2, %s, %s), get_n_moves_plan(0, 2, %s, %s)]
                wpl = [pa, pb, pc]
            """ % (call, per[0], tot[0], per[1], tot[1], per[2], tot[2])], dict(clean, pa=c.E.size('pa'), pb=c.E.size('pb'), pc=c.E.size('pc')), assume=asm)
            check_all(c, r, W, [('planning moves of three agents (%s), %s moves' % (lbl, who), 'got', 'want'), ('planning list of three agents kept (%s), %s moves' % (lbl, who), 'pl', 'wpl')])


def C17(c):
    """validation of environments and agents"""
    need_all(c, EN, 'maMDP.agents:Agent')
    k = EnvKit(c)
    W = EN + '._set_mdp_and_agents'
    E = c.E
    asm = k.asm()
    L = E.nat('L')
    c.doms['L'] = lambda m: m.get('F') + m.h('L') % 5
    inp = k.inputs(thL=k.vec('thL', L), L=L, th2d=lambda st: E.array(st, 'th2d', (t.add(k.F, num(2)), num(1))), t3=k.vec('t3', t.add(k.F, num(3))), pz=E.int('pz'), cz=E.int('cz'), pr=E.real('pr'))
    c.doms.update(pz=lambda m: m.h('pz') % (m.get('N') + 4) - 2, cz=lambda m: m.h('cz') % (m.get('F') + 7) - 2)
    mk2 = '''
        m = MDP(feat, sas, w1, seed)
        ag = Agent('x', 2, algorithm=Stub)
        bg = Agent('y', 1, algorithm=Stub)
        cg = Agent('z', 1, algorithm=Stub)
    '''
    for lbl, bad, args, in (('reward function length (first agent)', 'L != F + 2', '{ag: (p0, thL, []), bg: (p1, th2, [])}'),
                            ('reward function length (second agent)', 'L != F + 2', '{ag: (p0, th, []), bg: (p1, thL, [])}'),
                            ('reward function length (single agent)', 'L != F + 1', '{ag: (p0, thL, [])}'),
                            ('starting position in range', 'pz < 0 or pz >= N', '{ag: (pz, th, []), bg: (p1, th2, [])}'),
                            ('starting position in range (second)', 'pz < 0 or pz >= N', '{ag: (p0, th, []), bg: (pz, th2, [])}'),
                            ('consumed feature in range', 'cz < 0 or cz >= F + 2', '{ag: (p0, th, [cz]), bg: (p1, th2, [])}'),
                            ('consumed feature in range (later entry)', 'cz < 0 or cz >= F + 2', '{ag: (p0, th, []), bg: (p1, th2, [0, cz])}'),
                            ('consumed feature in range (earlier entry)', 'cz < 0 or cz >= F + 2', '{ag: (p0, th, [cz, c0, c1]), bg: (p1, th2, [])}'),
                            ('consumed feature in range (three agents)', 'cz < 0 or cz >= F + 3', '{ag: (p0, t3, []), bg: (p1, t3, [c0]), cg: (p2, t3, [cz])}'),
                            ('reward function length (third agent)', 'L != F + 3', '{ag: (p0, t3, []), bg: (p1, t3, [c0]), cg: (p2, thL, [])}'),
                            ('two-dimensional reward function', 'True', '{ag: (p0, th2d, []), bg: (p1, th2, [])}'),
                            ('reward function of another type', 'True', "{ag: (p0, 'abc', []), bg: (p1, th2, [])}"),
                            ('reward function given as tuple', 'True', '{ag: (p0, (0, 1, 2), []), bg: (p1, th2, [])}'),
                            ('position that is not an integer', 'True', '{ag: (pr, th, []), bg: (p1, th2, [])}'),
                            ('position given as string', 'True', "{ag: (p0, th, []), bg: ('1', th2, [])}"),
                            ('valid environment', 'False', '{ag: (p0, th, [c0, F + 1]), bg: (p1, th2, [c1])}')):
        r = c.run(lbl, [HEAD, mk2, 'bad = %s' % bad, 'e = Environment(m, %s)' % args], inp, assume=asm)
        raises_iff(c, r, lbl, W, 'bad')
    for lbl, bad, args in (('second environment on the same MDP', 'L != F + 1', '{ag: (p0, thL, [])}'), ('third environment on the same MDP', 'cz < 0 or cz >= F + 2', '{ag: (p0, th, [cz]), bg: (p1, th2, [])}')):
        r = c.run(lbl, [HEAD, mk2, 'e0 = Environment(m, {cg: (p0, t3, []), bg: (p1, t3, [c0]), Agent("o", algorithm=Stub): (p1, t3, [])})', 'bad = %s' % bad, 'e = Environment(m, %s)' % args], inp, assume=asm)
        raises_iff(c, r, lbl, W, 'bad')
    r = c.run('attached values', [HEAD, mk('', 'c0, F + 1', 'c1'), '''
        a, b = e.agents['x'], e.agents['y']
        g = [a.reward_function, b.reward_function, a.position, b.position, a.consumes, b.consumes, a.n_moves, b.n_moves, list(e.agents.keys()), e.agent_names, e.n_agents, e.n_states, e.n_steps]
        w = [th, th2, p0, p1, [c0, F + 1], [c1], 2, 1, ['x', 'y'], ['x', 'y'], 2, N, 0]
        g0, g1, g2, g3, g4, g5, g6, g7, g8, g9, g10, g11, g12 = g
        w0, w1_, w2_, w3, w4, w5, w6, w7, w8, w9, w10, w11, w12 = w
    '''], inp, assume=asm)
    names = ['reward function of the first agent', 'reward function of the second agent', 'position of the first agent', 'position of the second agent', 'consumed features of the first agent',
             'consumed features of the second agent', 'moves of the first agent', 'moves of the second agent', 'agent order', 'agent names', 'number of agents', 'number of states', 'no steps yet']
    check_all(c, r, W, [(n, 'g%d' % i, ['w0', 'w1_', 'w2_'][i] if i < 3 else 'w%d' % i) for i, n in enumerate(names)])
    r = c.run('names and order', [HEAD, """
        m = MDP(feat, sas, w1, seed)
        e = Environment(m, {Agent('z', 4, algorithm=Stub): (p1, t3, [c1]), Agent('a b', 1, algorithm=Stub): (p2, t3, []), Agent('B', 2, algorithm=Stub): (p0, t3, [F + 2, c0])})
        g0, w0 = e.agent_names, ['z', 'a b', 'B']
        g1, w1_ = list(e.agents.keys()), ['z', 'a b', 'B']
        g2, w2_ = [x.name for x in e.agents.values()], ['z', 'a b', 'B']
        g3, w3 = [x.position for x in e.agents.values()], [p1, p2, p0]
        g4, w4 = [x.n_moves for x in e.agents.values()], [4, 1, 2]
        g5, w5 = [x.consumes for x in e.agents.values()], [[c1], [], [F + 2, c0]]
        g6, w6 = [x.agent_idx for x in e.agents.values()], [0, 1, 2]
        g7, w7 = e.n_agents, 3
    """], inp, assume=asm)
    check_all(c, r, W, [('names of three agents', 'g0', 'w0'), ('order of three agents', 'g1', 'w1_'), ('three agents bear their names', 'g2', 'w2_'), ('positions of three agents', 'g3', 'w3'), ('moves of three agents', 'g4', 'w4'),
                        ('consumed features of three agents', 'g5', 'w5'), ('numbering of three agents', 'g6', 'w6'), ('number of three agents', 'g7', 'w7')])
    r = c.run('reward given as list', [HEAD, '''
        m = MDP(feat1, sas, w1, seed)
        ag = Agent('x', 2, algorithm=Stub)
        e = Environment(m, {ag: (p0, [ta, tb], [])})
        got, want = e.agents['x'].reward_function, np.array([ta, tb])
    '''], k.inputs(feat1=k.feat('feat1', num(1)), ta=E.real('ta'), tb=E.real('tb')), assume=asm)
    check_all(c, r, W, [('reward function given as a list', 'got', 'want')])
    noraise(c, r, 'reward function given as a list', W)
    for lbl, call in (('agent name', "Agent(3)"), ('algorithm options', "Agent('x', algorithm=Stub, algorithm_kwargs=[1])"), ('selector options', "Agent('x', algorithm=Stub, action_kwargs=[1])")):
        r = c.run(lbl, [HEAD, '''
            bad = True
            a = %s
        ''' % call], inp, assume=asm)
        raises_iff(c, r, lbl + ' of the wrong type', 'maMDP.agents:Agent.__init__', 'bad')
