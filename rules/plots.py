"""Rules about drawings: what is drawn where."""
from .common import *
from .grids import GridKit

PLT = 'maMDP.plotting'
MD = 'maMDP.mdp'
HEAD = '''
    from maMDP.mdp import SquareGridMDP, HexGridMDP
    from maMDP.agents import Agent
    from maMDP.environments import Environment
    from maMDP.algorithms.base import Null
    import numpy as np
    class Ticks:
        def get_major_ticks(self):
            return []
    class Ax:
        """records what is drawn"""
        def __init__(self):
            self.points, self.arrows, self.texts, self.images, self.patches = [], [], [], [], []
            self.xaxis, self.yaxis = Ticks(), Ticks()
        def scatter(self, x, y, **k):
            self.points.append((x, y))
        def arrow(self, x, y, dx, dy, **k):
            self.arrows.append((x, y, x + dx, y + dy))
        def text(self, x, y, s, **k):
            self.texts.append((x, y, s))
        def imshow(self, im, **k):
            self.images.append(im)
        def add_patch(self, p):
            self.patches.append(p)
        def grid(self, **k):
            pass
        def set_xticks(self, x):
            pass
        def set_yticks(self, x):
            pass
        def set_xticklabels(self, x):
            pass
        def set_yticklabels(self, x):
            pass
        def set_xlim(self, *a):
            pass
        def set_ylim(self, *a):
            pass
        def axis(self, *a):
            pass
        def set_aspect(self, a):
            pass
    def build(G):
        m = G(feat, w1, (X, Y))
        a = Agent('x', 1, algorithm=Null)
        b = Agent('y', 1, algorithm=Null)
        return Environment(m, {a: (p0, th, []), b: (p1, th, [])})
'''


def kit(c, X=None, Y=None):
    k = GridKit(c)
    E = c.E
    k.F = num(2)
    c.doms['F'] = lambda m: 2
    if X:
        k.X, k.Y = num(X), num(Y)
        k.NS = t.mul(k.X, k.Y)
        c.doms.update(X=lambda m: X, Y=lambda m: Y)
    d = k.gin(feat=lambda st: E.array(st, 'gfeat', (k.F, k.NS), domain01=True), p0=k.below('p0', k.NS), p1=k.below('p1', k.NS), v=lambda st: E.array(st, 'gv', (k.NS,)),
              th=lambda st: E.array(st, 'th0', (t.add(k.F, num(2)),)))
    asm = t.band(k.asm(), t.band(t.gt(k.NS, t.sym('p0', 'int')), t.gt(k.NS, t.sym('p1', 'int'))))
    return k, d, asm


def C36(c):
    """what is drawn where"""
    need_all(c, 'maMDP.environments:Environment.plot', MD + ':SquareGridMDP.plot', MD + ':HexGridMDP.plot')
    W = [MD + ':SquareGridMDP.plot', PLT + ':plot_grids']
    k, d, asm = kit(c)
    r = c.run('square', [HEAD, '''
        e = build(SquareGridMDP)
        f0 = e.mdp.features.copy()
        ax = Ax()
        got = e.plot(ax=ax)
        same, yes = got is ax, True
        n, wn = len(ax.images), F + 1
        def seen(im):
            return im[:, :, 3]
        def grid(v_):
            return v_.reshape((X, Y)).T
        g0, wg0 = seen(ax.images[0]), grid(feat[0])
        g1, wg1 = seen(ax.images[1]), grid(feat[1])
        gw, ww = seen(ax.images[F]), grid(w1)
        pts, wpts = ax.points, [(p0 // Y, p0 % Y), (p1 // Y, p1 % Y)]
        f1 = e.mdp.features
    '''], d, assume=asm)
    check_all(c, r, W, [('the given axes are used', 'same', 'yes'), ('one layer for each feature of the MDP and one for the walls', 'n', 'wn'), ('first feature', 'g0', 'wg0'), ('second feature', 'g1', 'wg1'), ('walls', 'gw', 'ww'),
                        ('agents where they are', 'pts', 'wpts'), ('drawing changes no features', 'f1', 'f0')])
    noraise(c, r, 'drawing', W)
    # two agents and a route in any grid
    r = c.run('square routes', [HEAD, '''
        e = build(SquareGridMDP)
        ax = Ax()
        e.plot_trajectory([s, s2, p0], ax)
        arr, warr = ax.arrows, [(s // Y, s % Y, s2 // Y, s2 % Y), (s2 // Y, s2 % Y, p0 // Y, p0 % Y)]
        a2 = Ax()
        e.plot_sequence([s, s2, p0], a2)
        num_, wnum = [q[2] for q in a2.texts], ['1', '2', '3']
        dx = [q[0] - a2.texts[0][0] for q in a2.texts]
        wdx = [0, s2 // Y - s // Y, p0 // Y - s // Y]
        dy = [q[1] - a2.texts[0][1] for q in a2.texts]
        wdy = [0, s2 % Y - s % Y, p0 % Y - s % Y]
        e.set_agent_position('x', s)
        a3 = Ax()
        e.agents['x'].plot(a3)
        e.agents['y'].plot(a3)
        pts, wpts = a3.points, [(s // Y, s % Y), (p1 // Y, p1 % Y)]
    '''], d, assume=asm)
    W = [MD + ':GridMDP.plot_trajectory', PLT + ':plot_trajectory', PLT + ':plot_sequence']
    check_all(c, r, W, [('arrows from state to state', 'arr', 'warr'), ('steps are numbered from one', 'num_', 'wnum'), ('numbers stand at their states (x)', 'dx', 'wdx'), ('numbers stand at their states (y)', 'dy', 'wdy'),
                        ('moved agents are drawn where they are now', 'pts', 'wpts')])
    noraise(c, r, 'routes', W)
    r = c.run('square values', [HEAD, '''
        m = SquareGridMDP(feat, w1, (X, Y))
        ax = Ax()
        got = m.plot_state_values(v, ax=ax)
        same, yes = got is ax, True
        n, one = len(ax.images), 1
        im, wim = ax.images[0], v.reshape((X, Y)).T
    '''], d, assume=asm)
    W = [MD + ':SquareGridMDP.plot_state_values', PLT + ':plot_grid_values']
    check_all(c, r, W, [('the given axes are used for values', 'same', 'yes'), ('one layer of values', 'n', 'one'), ('values at their cells', 'im', 'wim')])
    noraise(c, r, 'values', W)
    for X, Y in ((2, 3), (3, 1)):
        k, d, asm = kit(c, X, Y)
        l = ' (%d by %d)' % (X, Y)
        HEX = '''
            H = 0.86602540 * 2
            def cx(i):
                return 1.5 * (i // Y)
            def cy(i):
                z = (i % Y) * H
                if (i // Y) % 2 == 0:
                    z = z + H / 2
                return z
            def centre(i):
                return (cx(i), cy(i))
            def near(a, b):
                return abs(a[0] - b[0]) < 1e-6 and abs(a[1] - b[1]) < 1e-6
        '''
        r = c.run('hexagons' + l, [HEAD, HEX, '''
            e = build(HexGridMDP)
            f0 = e.mdp.features.copy()
            ax = Ax()
            got = e.plot(ax=ax)
            same, yes = got is ax, True
            n, wn = len(ax.patches), (F + 3) * NS
            al, wal = np.zeros((F, NS)), np.zeros((F, NS))
            place = True
            for f_ in range(F):
                for i in range(NS):
                    p_ = ax.patches[f_ * NS + i]
                    al[f_, i] = p_.facecolor[3]
                    wal[f_, i] = 0.5 * feat[f_, i]
                    place = place and near(p_.xy, centre(i))
            wl, wwl = np.zeros(NS), np.zeros(NS)
            for i in range(NS):
                p_ = ax.patches[(F + 1) * NS + i]
                wl[i] = p_.facecolor[3]
                wwl[i] = w1[i]
                place = place and near(p_.xy, centre(i))
            np_, wnp = len(ax.points), 2
            here = near(ax.points[0], centre(p0)) and near(ax.points[1], centre(p1))
            at = near(e.mdp.state_to_position(s), centre(s))
            f1 = e.mdp.features
        '''], d, assume=asm)
        W = [MD + ':HexGridMDP.plot', PLT + ':plot_hex_grids', PLT + ':draw_hexagons']
        check_all(c, r, W, [('the given axes are used' + l, 'same', 'yes'), ('a layer for each feature of the MDP and for the walls, with outlines' + l, 'n', 'wn'), ('features' + l, 'al', 'wal'), ('walls' + l, 'wl', 'wwl'),
                            ('cells at their places' + l, 'place', 'yes'), ('one mark for each agent' + l, 'np_', 'wnp'), ('agents where they are' + l, 'here', 'yes'), ('position of a state' + l, 'at', 'yes'), ('drawing changes no features' + l, 'f1', 'f0')])
        noraise(c, r, 'drawing' + l, W)
        r = c.run('hexagon routes' + l, [HEAD, HEX, '''
            m = HexGridMDP(feat, w1, (X, Y))
            m.plot_state_values(v, ax=Ax())
            ax = Ax()
            m.plot_trajectory([s, s2], ax)
            n, one = len(ax.arrows), 1
            ok = near(ax.arrows[0][:2], centre(s)) and near(ax.arrows[0][2:], centre(s2))
            yes = True
        '''], d, assume=asm)
        W = [MD + ':HexGridMDP.state_to_position', PLT + ':plot_trajectory', PLT + ':draw_hexagons']
        check_all(c, r, W, [('one arrow' + l, 'n', 'one'), ('arrows from state to state' + l, 'ok', 'yes')])
        noraise(c, r, 'routes' + l, W)
