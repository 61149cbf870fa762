"""Rules about dictionary and JSON representations."""
from .common import *

IO = 'maMDP.env_io'
HEAD = '''
    from maMDP.mdp import HexGridMDP
    from maMDP.agents import Agent
    from maMDP.environments import Environment
    from maMDP.env_io import hex_env_to_dict, hex_env_to_json, hex_environment_from_dict, hex_environment_from_json
    from maMDP.algorithms.dynamic_programming import ValueIteration
    from maMDP.algorithms.action_selection import MaxActionSelector, SoftmaxActionSelector
    import numpy as np
    def build():
        m = HexGridMDP(feat.copy(), walls=w1.copy(), shape=(X, Y), self_transitions=%(st)s)
        a = Agent('x', %(n0)s, algorithm=ValueIteration, algorithm_kwargs=dict(discount=disc), action_selector=%(sel)s, action_kwargs=dict(%(kw)s))
        b = Agent('y', %(n1)s, algorithm=ValueIteration, action_selector=MaxActionSelector)
        return Environment(m, {a: (p0, th0.copy(), [0, F + 1]), b: (p1, th1.copy(), [])})
'''
VARIANTS = [dict(st='False', n0='1', n1='2', sel='MaxActionSelector', kw=''), dict(st='True', n0='3', n1='1', sel='SoftmaxActionSelector', kw='temperature=0.5')]


def kit(c, X=None, Y=None):
    from .grids import GridKit
    k = GridKit(c)
    E = c.E
    k.F = num(2)
    c.doms['F'] = lambda m: 2
    if X:
        k.X, k.Y = num(X), num(Y)
        k.NS = t.mul(k.X, k.Y)
        c.doms.update(X=lambda m: X, Y=lambda m: Y)
    F2 = t.add(k.F, num(2))
    d = k.gin(feat=lambda st: E.array(st, 'gfeat', (k.F, k.NS), domain01=True), p0=k.below('p0', k.NS), p1=k.below('p1', k.NS),
              th0=lambda st: E.array(st, 'th0', (F2,)), th1=lambda st: E.array(st, 'th1', (F2,)), disc=E.real('disc', True))
    asm = t.band(k.asm(), t.band(t.gt(k.NS, t.sym('p0', 'int')), t.gt(k.NS, t.sym('p1', 'int'))))
    return k, d, asm


COMPARE = '''
    gf, wf = n.mdp.features, e.mdp.features
    gs, ws = n.mdp.sas, e.mdp.sas
    gw, ww = n.mdp.walls, e.mdp.walls
    gsh, wsh = tuple(n.mdp.shape), (X, Y)
    names, wnames = list(n.agents.keys()), ['x', 'y']
    ga, gb = n.agents['x'], n.agents['y']
    pos, wpos = (ga.position, gb.position), (p0, p1)
    rew, wrew = np.array(ga.reward_function), th0
    rew2, wrew2 = np.array(gb.reward_function), th1
    eats, weats = list(ga.consumes), [0, F + 1]
    eats2, weats2 = list(gb.consumes), []
    moves, wmoves = (ga.n_moves, gb.n_moves), (%(n0)s, %(n1)s)
    alg, walg = isinstance(ga.algorithm, ValueIteration) and isinstance(gb.algorithm, ValueIteration), True
    sel, wsel = isinstance(ga.action_selector, %(sel)s) and isinstance(gb.action_selector, MaxActionSelector), True
    dis, wdis = ga.algorithm.discount, disc
    stt, wstt = n.mdp.self_transitions, %(st)s
'''
PAIRS = [('features', 'gf', 'wf'), ('transitions', 'gs', 'ws'), ('walls', 'gw', 'ww'), ('shape', 'gsh', 'wsh'), ('agents in order', 'names', 'wnames'), ('positions', 'pos', 'wpos'), ('reward weights', 'rew', 'wrew'),
         ('reward weights of the second agent', 'rew2', 'wrew2'), ('consumed features', 'eats', 'weats'), ('consumed features of the second agent', 'eats2', 'weats2'), ('moves', 'moves', 'wmoves'),
         ('algorithm', 'alg', 'walg'), ('action selection', 'sel', 'wsel'), ('algorithm options', 'dis', 'wdis'), ('self transitions', 'stt', 'wstt')]


def C34(c):
    """round trips through dictionaries and JSON"""
    need_all(c, IO + ':hex_env_to_dict', IO + ':hex_environment_from_dict', IO + ':hex_env_to_json', IO + ':hex_environment_from_json')
    W = [IO + ':hex_env_to_dict', IO + ':hex_environment_from_dict']
    for v in VARIANTS:
        for lbl, conv in (('dictionary', 'n = hex_environment_from_dict(hex_env_to_dict(e))'), ('named features', "names_ = ['f%d' % i for i in range(F)]\n        n = hex_environment_from_dict(hex_env_to_dict(e, names_))"),
                          ('JSON', 'n = hex_environment_from_json(hex_env_to_json(e, None, return_string=True))')):
            k, d, asm = kit(c)
            r = c.run('%s %s' % (lbl, v['sel']), [HEAD % v, '        e = build()\n        %s\n' % conv, COMPARE % v], d, assume=asm)
            l = ' (%s, %s)' % (lbl, v['sel'])
            check_all(c, r, W, [(a + l, b, x) for a, b, x in PAIRS])
            if lbl == 'dictionary' and v is VARIANTS[1]:
                noraise(c, r, 'round trip' + l, W)
