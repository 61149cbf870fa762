"""Rules about grid worlds: transitions and state/coordinate conversions."""
from .common import *

GU = 'maMDP.grid_utils'
MD = 'maMDP.mdp'


class GridKit(Kit):
    def __init__(self, c, small=True):
        super().__init__(c)
        E = c.E
        self.X, self.Y = E.size('X'), E.size('Y')
        c.doms.update(X=lambda m: m.size('X', 1, 4), Y=lambda m: m.size('Y', 1, 4))
        self.NS = t.mul(self.X, self.Y)

    def gin(self, **kw):
        E = self.E
        d = dict(X=self.X, Y=self.Y, NS=self.NS, F=self.F, feat=lambda st: E.array(st, 'gfeat', (self.F, self.NS)), w1=lambda st: E.array(st, 'gw1', (self.NS,), domain01=True),
                 s=self.below('s', self.NS), s2=self.below('s2', self.NS), x=self.below('x', self.X), y=self.below('y', self.Y))
        d.update(kw)
        return d

    def asm(self):
        return t.conj([t.gt(self.NS, t.sym('s', 'int')), t.gt(self.NS, t.sym('s2', 'int')), t.gt(self.X, t.sym('x', 'int')), t.gt(self.Y, t.sym('y', 'int'))])


HEAD = '''
    from maMDP.mdp import SquareGridMDP, HexGridMDP, GridMDP
    import numpy as np
    def square_target(x, y, a):
        if a == 0:
            return x, y + 1
        if a == 1:
            return x + 1, y
        if a == 2:
            return x, y - 1
        if a == 3:
            return x - 1, y
        return x, y
    def hex_target(x, y, a):
        odd = x % 2 == 1
        if a == 0:
            return x, y + 1
        if a == 3:
            return x, y - 1
        if a == 1:
            return x + 1, (y if odd else y + 1)
        if a == 2:
            return x + 1, (y - 1 if odd else y)
        if a == 5:
            return x - 1, (y if odd else y + 1)
        if a == 4:
            return x - 1, (y - 1 if odd else y)
        return x, y
    def table(target, A):
        sas = np.zeros((NS, A, NS))
        for i in range(NS):
            for a in range(A):
                tx, ty = target(i // Y, i % Y, a)
                if tx >= 0 and tx < X and ty >= 0 and ty < Y:
                    sas[i, a, tx * Y + ty] = 1
        return sas
'''


def at(m, name, n):
    """a coordinate below n, preferably around the hinted constant"""
    if isinstance(m.hint, int) and n >= m.hint and m.h('at', name) % 4:
        return min(n - 1, m.hint - 2 + m.h(name) % 4)
    return m.h(name) % n


def somestate(m):
    X, Y = m.get('X'), m.get('Y')
    return at(m, 'sx', X) * Y + at(m, 'sy', Y)


def near(m):
    """a second state, mostly in the neighbourhood of the first"""
    X, Y, s = m.get('X'), m.get('Y'), m.get('s')
    x, y = s // Y, s % Y
    k = m.h('near') % 11
    dx, dy = [(0, 1), (0, -1), (1, 0), (-1, 0), (1, 1), (1, -1), (-1, 1), (-1, -1), (0, 0)][k] if k < 9 else (m.h('dx') % X, m.h('dy') % Y)
    x2, y2 = (x + dx) % X, (y + dy) % Y
    return x2 * Y + y2


def aimed(cls, A):
    """an action, mostly one that leads from the first state towards the second"""
    def f(m):
        X, Y, s, s2 = m.get('X'), m.get('Y'), m.get('s'), m.get('s2')
        x, y, x2, y2 = s // Y, s % Y, s2 // Y, s2 % Y
        dx, dy = x2 - x, y2 - y
        if m.h('aim') % 4 == 0:
            return m.h('a') % A
        if cls == 'SquareGridMDP':
            tab = {(0, 1): 0, (1, 0): 1, (0, -1): 2, (-1, 0): 3, (0, 0): 4}
        elif x % 2:
            tab = {(0, 1): 0, (0, -1): 3, (1, 0): 1, (1, -1): 2, (-1, 0): 5, (-1, -1): 4, (0, 0): 6}
        else:
            tab = {(0, 1): 0, (0, -1): 3, (1, 1): 1, (1, 0): 2, (-1, 1): 5, (-1, 0): 4, (0, 0): 6}
        return tab.get((dx, dy), m.h('a')) % A
    return f


def C03(c):
    """grid transitions"""
    need_all(c, MD + ':SquareGridMDP', MD + ':HexGridMDP')
    k = GridKit(c)
    c.doms.update(X=lambda m: m.size('X', 1, 5), Y=lambda m: m.size('Y', 1, 5))
    base = c.want_samples
    for cls, tgt, n, fn in (('SquareGridMDP', 'square_target', 4, 'get_action_from_states_square'), ('HexGridMDP', 'hex_target', 6, 'get_action_from_states_hex')):
        for st in (False, True):
            W = [MD + ':%s._get_sas' % cls, GU + ':' + fn]
            A = n + st
            inp = k.gin(a=c.E.nat('a'))
            c.doms.update(s=somestate, s2=near, a=aimed(cls, A))
            r = c.run('%s self transitions %s' % (cls, st), [HEAD, '''
                m = %s(feat, None, (X, Y), %s)
                n1, n2 = m.n_actions, %d
                k1, k2 = m.n_states, NS
                got = m.sas[s, a, s2]
                tx, ty = %s(s // Y, s %% Y, a)
                want = 1 if (s2 // Y == tx and s2 %% Y == ty) else 0
            ''' % (cls, st, A, tgt)], inp, assume=t.band(k.asm(), t.gt(num(A), t.sym('a', 'int'))))
            l = '%s %s self-transitions' % (cls, 'with' if st else 'without')
            c.want_samples = 150 if c.tier == 'quick' else 1500
            check_all(c, r, W, [('transitions follow the grid (%s)' % l, 'got', 'want')])
            c.want_samples = base
            check_all(c, r, W, [('number of actions (%s)' % l, 'n1', 'n2'), ('number of states (%s)' % l, 'k1', 'k2')])
            c.want_samples = 10
            noraise(c, r, 'construction (%s)' % l, W)
            c.want_samples = base


def C04(c):
    """state numbers and coordinates are the same addressing of cells everywhere"""
    need_all(c, MD + ':GridMDP.state_to_idx', MD + ':GridMDP.idx_to_state', MD + ':GridMDP.get_state_coords', MD + ':GridMDP.flat_to_grid', MD + ':GridMDP.features_as_grid', GU + ':grid_coords')
    k = GridKit(c)
    W = [MD + ':GridMDP', GU + ':grid_coords']
    H = '''
        class G(GridMDP):
            def _get_sas(self):
                return np.zeros((NS, 2, NS))
    '''
    inp = k.gin(v=lambda st: c.E.array(st, 'gv', (k.NS,)), f=k.below('f', k.F))
    asm = t.band(k.asm(), t.gt(k.F, t.sym('f', 'int')))
    for cls in ('G', 'SquareGridMDP', 'HexGridMDP'):
        if cls != 'G':
            c.want_samples = 8
        r = c.run('conversions %s' % cls, [HEAD, H, '''
            m = %s(feat, None, (X, Y))
            g1 = m.state_to_idx(s)
            w1_ = (s // Y, s %% Y)
            g2 = m.idx_to_state((x, y))
            w2 = x * Y + y
            g3 = m.idx_to_state(m.state_to_idx(s))
            w3 = s
            g4 = m.state_to_idx(m.idx_to_state((x, y)))
            w4 = (x, y)
            co = m.get_state_coords(s)
            g5 = (co[0], co[1], len(co))
            w5 = (s // Y, s %% Y, 2)
            g6 = m.flat_to_grid(v)[x, y]
            w6 = v[x * Y + y]
            g7 = m.flat_to_grid(v).shape
            w7 = (X, Y)
            g8 = m.features_as_grid()[f, x, y]
            w8 = feat[f, x * Y + y]
            g9 = m.features_as_grid().shape
            w9 = (F, X, Y)
            ga = (len(m.state_ids), m.state_ids[s], m.shape)
            wa = (NS, s, (X, Y))
            gb = m.grid_coords
            wb = np.zeros((NS, 2))
            for i in range(NS):
                wb[i, 0] = i // Y
                wb[i, 1] = i %% Y
        ''' % cls], inp, assume=asm)
        l = ' (%s)' % cls
        check_all(c, r, W, [('coordinates of a state' + l, 'g1', 'w1_'), ('state at coordinates' + l, 'g2', 'w2'), ('state to coordinates and back' + l, 'g3', 'w3'),
                            ('coordinates to state and back' + l, 'g4', 'w4'), ('coordinate query' + l, 'g5', 'w5'), ('flat values as grid' + l, 'g6', 'w6'), ('shape of the grid' + l, 'g7', 'w7'),
                            ('features as grid' + l, 'g8', 'w8'), ('shape of the feature grid' + l, 'g9', 'w9'), ('state numbering' + l, 'ga', 'wa'), ('coordinates of all states' + l, 'gb', 'wb')])
    c.want_samples = 24
    r = c.run('square positions', [HEAD, '''
        m = SquareGridMDP(feat, None, (X, Y))
        g = m.state_to_position(s)
        w = (s // Y, s % Y)
    '''], inp, assume=asm)
    check_all(c, r, MD + ':SquareGridMDP.state_to_position', [('drawing position of a square cell', 'g', 'w')])
    r = c.run('raw grid', [HEAD, '''
        from maMDP.grid_utils import grid_coords
        ids, co = grid_coords(np.zeros((X, Y)))
        g1, w1_ = (len(ids), ids[s]), (NS, s)
        g2, w2 = (co.shape, co[s, 0], co[s, 1]), ((NS, 2), s // Y, s % Y)
    '''], inp, assume=asm)
    check_all(c, r, GU + ':grid_coords', [('states of a raw grid', 'g1', 'w1_'), ('coordinates of a raw grid', 'g2', 'w2')])
    # raw grids with missing cells: the remaining ones are numbered row by row
    raw = '''
        z = np.zeros((%d, %d))
        %s
        ids, co = grid_coords(z)
        g1, w1_ = list(ids), [%s]
        g2 = [(co[i, 0], co[i, 1]) for i in range(len(ids))]
        w2 = [%s]
    '''
    for label, holes in (('no hole', []), ('one hole', [(0, 1)]), ('three holes', [(0, 0), (1, 2), (2, 1)]), ('a missing row', [(1, 0), (1, 1), (1, 2)]), ('a missing column', [(0, 2), (1, 2), (2, 2), (3, 2)]), ('last cell missing', [(1, 3)])):
        dx, dy = {'a missing column': (4, 3), 'last cell missing': (2, 4)}.get(label, (3, 3))
        cells = [(i, j) for i in range(dx) for j in range(dy) if (i, j) not in holes]
        r = c.run('raw grid, ' + label, [HEAD, 'from maMDP.grid_utils import grid_coords', raw % (dx, dy, '\n        '.join('z[%d, %d] = np.nan' % h for h in holes) or 'pass', ', '.join(str(i) for i in range(len(cells))), ', '.join(str(x) for x in cells))], inp, assume=asm)
        check_all(c, r, GU + ':grid_coords', [('states of a raw grid with %s' % label, 'g1', 'w1_'), ('coordinates of a raw grid with %s' % label, 'g2', 'w2')])
    for n in (1, 2, 3):
        r = c.run('grid with %d agents' % n, [HEAD, H, '''
            m = G(feat, None, (X, Y))
            %s
            g8 = m.features_as_grid()[f, x, y]
            w8 = feat[f, x * Y + y]
            g9 = m.features_as_grid().shape
            w9 = (F + %d, X, Y)
            ga = m.features_as_grid()[F + %d, x, y]
            wa = 1 if s == x * Y + y else 0
            g1, w1_ = m.state_to_idx(s), (s // Y, s %% Y)
            g2, w2 = m.idx_to_state((x, y)), x * Y + y
            g6, w6 = m.flat_to_grid(v)[x, y], v[x * Y + y]
        ''' % ('\n            '.join('m.add_agent_feature(s)' for _ in range(n)), n, n - 1)], inp, assume=asm)
        check_all(c, r, W, [('features as grid with %d agents' % n, 'g8', 'w8'), ('shape of the feature grid with %d agents' % n, 'g9', 'w9'), ('row of an agent as grid (%d agents)' % n, 'ga', 'wa'), ('coordinates of a state with %d agents' % n, 'g1', 'w1_'), ('state at coordinates with %d agents' % n, 'g2', 'w2'), ('flat values as grid with %d agents' % n, 'g6', 'w6')])
