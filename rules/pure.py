"""Rules about ownership and effects: the caller's data and the world outside the operation asked for."""
from .common import *
from .env import HEAD, mk, EnvKit, EN, AT

MD = 'maMDP.mdp'
MORE = '''
    from maMDP.algorithms.dynamic_programming import ValueIteration
    from maMDP.algorithms.action_selection import MaxActionSelector, SoftmaxActionSelector
    from maMDP.algorithms.irl import MaxCausalEntIRL, MFFeatureMatching, SimpleActionIRL
    from maMDP.algorithms.policy_learning import TDGeneralPolicyLearner
    from maMDP.env_io import hex_env_to_dict
'''
KEEP = '''
    feat_, sas_, w1_, th_, th2_ = feat.copy(), sas.copy(), w1.copy(), th.copy(), th2.copy()
    eats, eats_ = [c0], [c0]
'''


def C09(c):
    """arrays and lists handed in stay the caller's"""
    need_all(c, MD + ':MDP', EN)
    k = EnvKit(c)
    inp, asm = k.inputs(), k.asm()
    MK = '''
        m = MDP(feat, sas, w1, seed)
        ag = Agent('x', 2, algorithm=%s)
        bg = Agent('y', 1, algorithm=Stub, action_selector=Sel)
        given = {ag: (p0, th, eats), bg: (p1, th2, [])}
        e = Environment(m, given)
    '''
    hist = {
        'construction': ('Stub', 'pass'),
        'consumption': ('Stub', 'm.consume_features(eats, p0)\nm.consume_features([c0, c1], p1)'),
        'moving agents': ('Stub', "e.set_agent_position('x', p2)\ne.set_agent_position('y', p0)"),
        'steps': ('Stub', "e.fit('x')\ne.fit('y')\ne.step('y')\ne.step('x')"),
        'a step and a reset': ('Stub', "e.fit('y')\ne.step('y')\ne.reset()"),
        'several steps': ('Stub', "e.fit('y')\ne.step_multi('y', 2)"),
        'changing walls': ('Stub', 'm.walls = w2'),
        'another environment': ('Stub', "m.remove_agent_features()\ne2 = Environment(m, given)\ne2.set_agent_position('x', p2)"),
        'planning': ('ValueIteration', "e.agents['x'].algorithm.max_iter = 1\ne.fit('x')"),
        'prediction': ('Stub', "e.fit('y')\ne.step_proba('y')"),
    }
    for h, (alg, ops) in hist.items():
        r = c.run(h, [HEAD, MORE, KEEP, MK % alg, ops, 'n, wn = len(given), 2\na, b, d_ = given[ag]\npo, rw, same = a, b, d_ is eats\nyes = True'], inp, assume=asm)
        check_all(c, r, [MD + ':MDP', EN], [('%s leave%s the given %s' % (h, '' if h in ('steps', 'moving agents', 'several steps') else 's', x), g, w) for x, g, w in (
            ('features', 'feat', 'feat_'), ('transitions', 'sas', 'sas_'), ('walls', 'w1', 'w1_'), ('weights', 'th', 'th_'), ('other weights', 'th2', 'th2_'), ('consumed features', 'eats', 'eats_'), ('agents', 'n', 'wn'))])
    # and later changes of the caller's arrays do not reach the MDP
    r = c.run('later changes', [HEAD, KEEP, MK % 'Stub', '''
        w2_ = w2.copy()
        f0, s0, v0 = m.features.copy(), m.sas.copy(), m.walls.copy()
        r0, r1 = e.agents['x'].reward_function.copy(), e.agents['y'].reward_function.copy()
        feat[c0, p0] = feat[c0, p0] + 1
        sas[p0, 0, p1] = 1 - sas[p0, 0, p1]
        th[c0] = th[c0] + 1
        th2[c0] = th2[c0] + 1
        w1[p2] = 1 - w1[p2]
        eats.append(c1)
        k0, wk0 = list(e.agents['x'].consumes), [c0]
        f1, s1, v1 = m.features.copy(), m.sas.copy(), m.walls.copy()
        q0, q1 = e.agents['x'].reward_function, e.agents['y'].reward_function
        e.reset()
        f2, s2, v2 = m.features.copy(), m.sas.copy(), m.walls.copy()
        m.walls = w2
        w2[p1] = 1 - w2[p1]
        v3, wv3 = m.walls.copy(), w2_
        m.walls = w1_
        s3 = m.sas
    '''], inp, assume=asm)
    check_all(c, r, MD + ':MDP', [('features are a copy', 'f1', 'f0'), ('transitions are a copy', 's1', 's0'), ('first weights are a copy', 'q0', 'r0'), ('second weights are a copy', 'q1', 'r1'),
                                  ('reset restores the features given then', 'f2', 'f0'), ('reset keeps the transitions given then', 's2', 's0'), ('walls are applied to the transitions given then', 's3', 's0'), ('walls are a copy', 'v1', 'v0'), ('reset keeps the walls given then', 'v2', 'v0'),
                                  ('walls set later are a copy', 'v3', 'wv3'), ('consumed features are a copy', 'k0', 'wk0')])
    r = c.run('features set later', [HEAD, '''
        m = MDP(feat, sas, w1, seed)
        g0 = fx.copy()
        m.features = fx
        m.consume_features([c0, c1], p0)
        a = fx.copy()
        m.reset()
        fx[c0, p1] = fx[c0, p1] + 1
        b = m.features.copy()
        m.reset()
        d = m.features
    '''], dict(inp, fx=k.feat('fx')), assume=asm)
    check_all(c, r, MD + ':MDP.features=', [('consumption leaves features set later', 'a', 'g0'), ('features set later are a copy', 'b', 'g0'), ('reset restores features set later', 'd', 'g0')])
    from .grids import GridKit
    g = GridKit(c)
    r = c.run('walls of grids', """
        from maMDP.mdp import GridMDP
        import numpy as np
        class G(GridMDP):
            def _get_sas(self):
                return np.ones((NS, 2, NS)) / NS
        w1_, f_ = w1.copy(), feat.copy()
        m = G(feat, w1, (X, Y))
        m.add_wall_xy((x,), (y,))
        a = w1.copy()
        m.reset_walls()
        b = w1.copy()
        m.walls = w1
        m.reset_walls()
        m.add_wall_xy((x,), (y,))
        d = w1
    """, g.gin(), assume=g.asm())
    W = [MD + ':GridMDP.add_wall_xy', MD + ':GridMDP.reset_walls']
    check_all(c, r, W, [('adding a wall leaves the given walls', 'a', 'w1_'), ('clearing walls leaves the given walls', 'b', 'w1_'), ('editing later leaves the given walls', 'd', 'w1_'), ('grids leave the given features', 'feat', 'f_')])


SNAP = '''
    def snap(e, m):
        a, b = e.agents['x'], e.agents['y']
        cp = lambda z: None if z is None else z.copy()
        return [m.features.copy(), m.sas.copy(), m.walls.copy(), (a.position, b.position), (list(a.position_history), list(b.position_history)), a.consumed.copy(), b.consumed.copy(), a.reward_function.copy(), b.reward_function.copy(),
                (list(a.consumes), list(b.consumes)), (m.n_agents, m.n_features, m.n_states, m.n_actions), m.adjacency.copy(), cp(b.pi), cp(b.pi_p), cp(b.algorithm.q_values), b.algorithm.fit_complete]
'''
PARTS = ['features', 'transitions', 'walls', 'positions', 'histories', 'consumption record', 'consumption record of the other agent', 'weights', 'weights of the other agent', 'consumed features', 'sizes', 'adjacency',
         'policy of the other agent', 'policy probabilities of the other agent', 'action values of the other agent', 'state of the other algorithm']


def C10(c):
    """planning, prediction and queries change nothing else"""
    need_all(c, EN + '.fit', EN + '.step_proba')
    k = EnvKit(c)
    inp, asm = k.inputs(), k.asm()
    MK = '''
        m = MDP(feat, sas, w1, seed)
        ag = Agent('x', 2, algorithm=%s, algorithm_kwargs=%s, action_selector=%s)
        bg = Agent('y', 1, algorithm=Stub, action_selector=Sel)
        e = Environment(m, {ag: (p0, th, [c0]), bg: (p1, th2, [c1])})
        e.fit('y')
    '''
    c.want_samples = 12
    VI = ('ValueIteration', 'dict(max_iter=1)')
    ops = {
        'planning': (VI, 'MaxActionSelector', '', "e.fit('x')"),
        'planning with softmax': (('Stub', '{}'), 'SoftmaxActionSelector', '', "e.fit('x')"),
        'planning again': (('Stub', '{}'), 'Sel', "e.fit('x')", "e.fit('x')"),
        'planning after being placed': (('Stub', '{}'), 'Sel', "e.set_agent_position('x', p2)\ne.set_agent_position('y', p2)", "e.fit('x')"),
        'planning, placed after a step': (('Stub', '{}'), 'Sel', "e.fit('x')\ntry:\n    e.step('x')\nexcept ValueError:\n    pass\ne.set_agent_position('x', p2)", "e.fit('x')"),
        'predicting, placed after a step': (('Stub', '{}'), 'Sel', "e.fit('x')\ntry:\n    e.step('x')\nexcept ValueError:\n    pass\ne.set_agent_position('x', p2)", "e.step_proba('x')"),
        'predicting': (('Stub', '{}'), 'Sel', "e.fit('x')", "e.step_proba('x')"),
        'predicting from elsewhere': (('Stub', '{}'), 'Sel', "e.fit('x')", "e.step_proba('x', polp[:, 0])"),
        'asking for policies': (('Stub', '{}'), 'Sel', "e.fit('x')", "e.get_agent_pi('x')\ne.get_agent_pi_p('x')\ne.get_agent_q_values('x')\ne.get_agent_position_history('x')"),
        'asking about states': (('Stub', '{}'), 'Sel', '', 'm.is_adjacent(p0, p1)\nm.state_valid_actions(p0)'),
        'drawing a successor': (('Stub', '{}'), 'Sel', '', 'try:\n    m.get_next_state(p0, 0)\nexcept Exception:\n    pass'),
        'a trajectory': (('Stub', '{}'), 'Sel', '', 'try:\n    m._trajectory_to_state_action([p0, p1, p2])\nexcept Exception:\n    pass'),
        'matching features': (('Stub', '{}'), 'Sel', '', 'MFFeatureMatching().fit(m, [[p0, p1], [p1, p2]], ignore_features=[F])'),
    }
    for o, ((alg, kw), sel, pre, op) in ops.items():
        r = c.run(o, [HEAD, MORE, SNAP, MK % (alg, kw, sel), pre or 'pass', 's0 = snap(e, m)', op, 's1 = snap(e, m)', '\n'.join('g%d, w%d = s1[%d], s0[%d]' % (i, i, i, i) for i in range(len(PARTS)))], inp, assume=asm)
        check_all(c, r, [EN + '.fit', EN + '.step_proba'], [('%s: %s unchanged' % (o, x), 'g%d' % i, 'w%d' % i) for i, x in enumerate(PARTS)])
