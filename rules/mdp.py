"""Rules about maMDP.mdp: transitions, walls, features, next states."""
from .common import *

M = 'maMDP.mdp:MDP'


def C01(c):
    need_all(c, M, M + '.walls', 'maMDP.mdp:GridMDP.add_wall_xy', 'maMDP.mdp:GridMDP.reset_walls')
    k = Kit(c)
    W = 'maMDP.mdp:MDP.walls='
    pre = '''
        from maMDP.mdp import MDP
        s0 = sas.copy()
        def masked(s, w):
            return s * (1 - w)[:, None, None] * (1 - w)[None, None, :]
    '''
    r = c.run('construct with walls', [pre, '''
        m = MDP(feat, sas, w1, seed)
        got, want = m.sas, masked(s0, w1)
        gw, ww = m.walls, w1.copy()
    '''], k.base())
    check_all(c, r, W, [('transitions after construction are the given ones with walled states cut off', 'got', 'want'), ('walls readable', 'gw', 'ww')])
    noraise(c, r, 'construction', W)
    r = c.run('construct without walls', [pre, '''
        m = MDP(feat, sas, None, seed)
        got, want = m.sas, s0
        gw, ww = m.walls, np_zeros
    '''], k.base(np_zeros=lambda st: c.E.I.new_arr(st, Arr((k.N,), num(0), 'f'))))
    check_all(c, r, W, [('no walls: transitions are the given ones', 'got', 'want'), ('no walls by default', 'gw', 'ww')])
    r = c.run('replace walls', [pre, '''
        m = MDP(feat, sas, w1, seed)
        m.walls = w2
        got, want = m.sas, masked(s0, w2)
        gw, ww = m.walls, w2.copy()
    '''], k.base())
    check_all(c, r, W, [('after replacing the walls only the new walls are cut off', 'got', 'want'), ('new walls readable', 'gw', 'ww')])
    noraise(c, r, 'replacing walls', W)
    r = c.run('three wall settings', [pre, '''
        m = MDP(feat, sas, None, seed)
        m.walls = w1
        m.walls = w2
        m.walls = w3
        got, want = m.sas, masked(s0, w3)
    '''], k.base(w3=k.walls('w3')))
    check_all(c, r, W, [('only the last of several wall settings counts', 'got', 'want')])
    r = c.run('walls, agents and reset', [pre, '''
        m = MDP(feat, sas, w1, seed)
        m.add_agent_feature(p)
        m.walls = w2
        m.reset()
        got, want = m.sas, masked(s0, w2)
        gw, ww = m.walls, w2.copy()
    '''], k.base(p=k.state('p')), assume=k.inrange('p'))
    check_all(c, r, W, [('resetting the MDP keeps walls and transitions consistent', 'got', 'want'), ('walls survive reset', 'gw', 'ww')])
    # rejected settings
    for label, arr, dims in (('wrong length', 'wl', (t.add(k.N, num(1)),)), ('not one-dimensional', 'wl', (k.N, k.N))):
        r = c.run('reject ' + label, [pre, '''
            m = MDP(feat, sas, w1, seed)
            before = m.sas.copy()
            bw = m.walls.copy()
            done = False
            try:
                m.walls = wl
                done = True
            except Exception:
                pass
            got, gw = m.sas, m.walls
            no = False
        '''], k.base(wl=lambda st, dims=dims: c.E.array(st, 'wl%d' % len(dims), dims, domain01=True)))
        check_all(c, r, W, [('%s rejected' % label, 'done', 'no'), ('%s leaves transitions alone' % label, 'got', 'before'), ('%s leaves walls alone' % label, 'gw', 'bw')])
    r = c.run('reject values', [pre, '''
        m = MDP(feat, sas, w1, seed)
        before = m.sas.copy()
        bw = m.walls.copy()
        bad = False
        for i in range(N):
            if wl[i] != 0 and wl[i] != 1:
                bad = True
        done = False
        try:
            m.walls = wl
            done = True
        except Exception:
            pass
        ok = not bad
        if bad:
            got, gw = m.sas, m.walls
        else:
            got, gw = before, bw
    '''], k.base(wl=k.vec('wlv', k.N)))
    c.arrgens['wlv'] = lambda m: {(i,): [0, 1, 0, 1, 2, 0.5, -1][m.h('wlv', i) % (4 + 3 * (m.seed & 1))] for i in range(m.get('N'))}
    check_all(c, r, W, [('wall values other than 0 and 1 rejected', 'done', 'ok'), ('rejected values leave transitions alone', 'got', 'before'), ('rejected values leave walls alone', 'gw', 'bw')])
    grid_walls(c)


def grid_walls(c):
    """wall editing of grid worlds over an arbitrary transition table"""
    k = Kit(c)
    E = c.E
    X, Y = E.size('X'), E.size('Y')
    c.doms.update(X=lambda m: m.size('X', 2, 3), Y=lambda m: m.size('Y', 2, 2))
    NS = t.mul(X, Y)

    def gen(m):
        return rows(m, 'gsas', m.get('X') * m.get('Y'), m.get('A'))
    c.arrgens['gsas'] = gen
    base = dict(feat=lambda st: E.array(st, 'gfeat', (k.F, NS)), gsas=lambda st: E.array(st, 'gsas', (NS, k.A, NS), nonneg=True, max1=True),
                w1=lambda st: E.array(st, 'gw1', (NS,), domain01=True), X=X, Y=Y, NS=NS,
                x0=k.below('x0', X), y0=k.below('y0', Y), x1=k.below('x1', X), y1=k.below('y1', t.add(Y, num(1))))
    asm = t.conj([t.gt(X, t.sym('x0', 'int')), t.gt(Y, t.sym('y0', 'int')), t.gt(X, t.sym('x1', 'int')), t.gt(t.add(Y, num(1)), t.sym('y1', 'int'))])
    pre = '''
        from maMDP.mdp import GridMDP
        import numpy as np
        s0 = gsas.copy()
        class G(GridMDP):
            def _get_sas(self):
                return gsas
        def masked(s, w):
            return s * (1 - w)[:, None, None] * (1 - w)[None, None, :]
        m = G(feat, w1, (X, Y))
    '''
    W = 'maMDP.mdp:GridMDP.reset_walls'
    r = c.run('reset_walls', [pre, '''
        m.reset_walls()
        got, want = m.sas, s0
        gw, ww = m.walls, np.zeros(NS)
    '''], base, assume=asm)
    check_all(c, r, W, [('removing all walls restores the original transitions', 'got', 'want'), ('no wall remains', 'gw', 'ww')])
    noraise(c, r, 'reset_walls', W)
    W = 'maMDP.mdp:GridMDP.add_wall_xy'
    r = c.run('add_wall_xy point', [pre, '''
        m.add_wall_xy((x0,), (y0,))
        ww = w1.copy()
        ww[x0 * Y + y0] = 1
        got, want = m.sas, masked(s0, ww)
        gw = m.walls
        m.reset_walls()
        g2 = m.sas
    '''], base, assume=asm)
    check_all(c, r, W, [('single cell added to the walls', 'gw', 'ww'), ('added cell cut off', 'got', 'want'), ('later removal restores the original transitions', 'g2', 's0')])
    noraise(c, r, 'add_wall_xy', W)
    r = c.run('add_wall_xy range', [pre, '''
        m.add_wall_xy((x0,), (y0, y1))
        ww = w1.copy()
        for i in range(NS):
            if i // Y == x0 and y0 <= i % Y and i % Y < y1:
                ww[i] = 1
        got, want = m.sas, masked(s0, ww)
        gw = m.walls
        w1b = w1
    '''], base, assume=asm)
    check_all(c, r, W, [('range of cells added to the walls', 'gw', 'ww'), ('added range cut off', 'got', 'want')])
    base2 = dict(base, xs=k.E.int('xs'), ys=k.E.int('ys'))
    c.doms.update(xs=lambda m: m.h('xs') % 5 - 1, ys=lambda m: m.h('ys') % 5 - 1)
    r = c.run('wall edit outside the grid', [pre, '''
        done = False
        try:
            m.add_wall_xy((x0, xs), [y0, ys])
            done = True
        except Exception:
            pass
        gw = m.walls
        got, want = m.sas, masked(s0, gw)
        if done:
            g2, w2_ = w1, w1
        else:
            g2, w2_ = gw, w1
    '''], base2, assume=asm)
    check_all(c, r, W, [('an edit, complete or refused, leaves the transitions those of the walls', 'got', 'want'), ('a refused edit leaves the walls as they were', 'g2', 'w2_')])
    r = c.run('several cells given one by one', [pre, '''
        m.add_wall_xy((x0, x1, x0), (y0, 0, y0))
        ww = w1.copy()
        ww[x0 * Y + y0] = 1
        ww[x1 * Y + y0] = 1
        ww[x0 * Y] = 1
        ww[x1 * Y] = 1
        got, want = m.sas, masked(s0, ww)
        gw = m.walls
    '''], base, assume=asm)
    check_all(c, r, W, [('all combinations of three coordinates added', 'gw', 'ww'), ('added combinations cut off', 'got', 'want')])


def C02(c):
    need_all(c, M, M + '.is_adjacent', M + '.state_valid_actions')
    k = Kit(c)
    W = ['maMDP.mdp:MDP.sas=', 'maMDP.mdp:MDP.walls=']
    spec = '''
        def check(m):
            s = m.sas
            adj = (s > 0).any(axis=1).astype(int)
            return [m.adjacency, m.is_adjacent(a0, b0), m.state_valid_actions(a0), m.n_states, m.n_actions, m.n_features], \
                   [adj, (s[a0, :, b0] > 0).any(), np.where((s[a0] > 0).any(axis=1))[0], s.shape[0], s.shape[1], m.features.shape[0]]
    '''
    hist = {
        'after construction': 'm = MDP(feat, sas, None, seed)',
        'after construction with walls': 'm = MDP(feat, sas, w1, seed)',
        'after replacing walls': 'm = MDP(feat, sas, w1, seed)\nm.walls = w2',
        'after adding an agent': 'm = MDP(feat, sas, w1, seed)\nm.add_agent_feature(p)\nm.walls = w2\nm.reset()',
    }
    labels = ['adjacency matrix', 'adjacency query', 'valid actions', 'number of states', 'number of actions', 'number of features']
    for h, src in hist.items():
        r = c.run(h, ['''
        from maMDP.mdp import MDP
        import numpy as np
        ''', spec, src, '''
        g, w = check(m)
        g0, g1, g2, g3, g4, g5 = g
        w0, w1_, w2_, w3, w4, w5 = w
        '''], k.base(a0=k.state('a0'), b0=k.state('b0'), p=k.state('p')), assume=k.inrange('a0', 'b0', 'p'))
        check_all(c, r, W, [('%s %s' % (l, h), 'g%d' % i, ['w0', 'w1_', 'w2_', 'w3', 'w4', 'w5'][i]) for i, l in enumerate(labels)])
    # validation of transition tables
    r = c.run('invalid table', '''
        from maMDP.mdp import MDP
        import numpy as np
        bad = (tab < 0).any() or (tab > 1).any()
        m = MDP(feat, tab, None, seed)
    ''', k.base(tab=lambda st: c.E.array(st, 'tab', (k.N, k.A, k.N))))
    raises_iff(c, r, 'transition values outside [0, 1]', 'maMDP.mdp:MDP.sas=', 'bad')
    r = c.run('feature table', '''
        from maMDP.mdp import MDP
        bad = True
        m = MDP(fbad, sas, None, seed)
    ''', k.base(fbad=lambda st: c.E.array(st, 'fbad', (k.F, t.add(k.N, num(1))))))
    raises_iff(c, r, 'feature table with wrong number of states', 'maMDP.mdp:MDP.features=', 'bad')
    for label, what, tab in (('feature table with too few states', 'feature', 'np.zeros((F, N))[:, 1:]'), ('transition table with two dimensions', 'table', 'np.zeros((N, N))'),
                             ('transition table with more successors than states', 'table', 'np.zeros((N, A, N + 1))'), ('transition table with more states than successors', 'table', 'np.zeros((N + 1, A, N))'),
                             ('list of transitions', 'table', '[[[1.0]]]')):
        r = c.run(label, '''
            from maMDP.mdp import MDP
            import numpy as np
            bad = True
            tab = %s
            m = MDP(%s)
        ''' % (tab, 'tab, sas, None, seed' if what == 'feature' else 'feat, tab, None, seed'), k.base())
        raises_iff(c, r, label, 'maMDP.mdp:MDP.features=' if what == 'feature' else 'maMDP.mdp:MDP.sas=', 'bad')
    # features replaced by the user
    r = c.run('features replaced', '''
        from maMDP.mdp import MDP
        m = MDP(feat, sas, w1, seed)
        m.features = f2
        g = (m.n_features, len(m.feature_names))
        w = (F + 1, F + 1)
        gf = m.features
    ''', k.base(f2=k.feat('f2', t.add(k.F, num(1)))))
    check_all(c, r, 'maMDP.mdp:MDP.features=', [('number of features after replacing them', 'g', 'w'), ('features replaced', 'gf', 'f2')])


def C05(c):
    need_all(c, M + '.get_next_state')
    W = 'maMDP.mdp:MDP.get_next_state'
    for det in ('det', 'sto', None):
        k = Kit(c, det)
        r = c.run('next state (%s)' % (det or 'any table'), '''
            from maMDP.mdp import MDP
            import numpy as np
            m = MDP(feat, sas, w1, seed)
            row = m.sas[s, a, :].copy()
            bad = not (row > 0).any()
            n = m.get_next_state(s, a)
            inr = n >= 0 and n < N
            ok = inr and row[n] > 0
            notwall = w1[n] == 0
            nrow = row / row.sum()
            yes = True
        ''', k.base(s=k.state('s'), a=k.action('a')), assume=t.band(k.inrange('s'), t.gt(k.A, t.sym('a', 'int'))))
        check_all(c, r, W, [('destination has positive probability', 'ok', 'yes'), ('destination is not a wall', 'notwall', 'yes')], '%s: ' % (det or 'any'))
        raises_iff(c, r, 'impossible action (%s)' % (det or 'any'), W, 'bad')
        if r is not None and not r.st.dead:
            sampling(c, r, W, det)
    k = Kit(c)
    r = c.run('negative action', '''
        from maMDP.mdp import MDP
        m = MDP(feat, sas, w1, seed)
        bad = True
        m.get_next_state(s, -1)
    ''', k.base(s=k.state('s')), assume=k.inrange('s'))
    raises_iff(c, r, 'negative action', W, 'bad')


def sampling(c, r, W, det):
    """stochastic transitions: the draw is taken from the row with the MDP's generator"""
    n = r.env['n']
    draws = [x for x in t.subterms(n) if x.op == 'app' and x.args[0] == 'rand_index']
    if det == 'det':
        # a deterministic table: at least when rows are one-hot the result is the unique successor
        return
    if not draws and any(x.op == 'app' and x.args[0] == 'rand' for x in t.subterms(n)):
        draws = None
    elif not draws:
        o = c.add('stochastic successor is drawn at random (%s)' % det, W)
        # any sound implementation must use a draw when a row has several successors
        c.decide(o, r.st, lambda m: (False, True) if sum(1 for v in row_of(m, r) if v > 0) > 1 else (True, True), t_vague(n), 'no random draw is made')
        return
    own = c.E.I.genesis
    for d in draws or ():
        rng = d.args[1]
        o = c.add('successor drawn with the MDP\'s own generator (%s)' % det, W)
        want = t.app('rng', t.sym('seed', 'int'))
        o.status = PROVED if rng is want else (VIOLATED if is_global(rng) else UNDECIDED)
        o.detail = '' if rng is want else 'generator %r' % (rng,)
    if r.env.get('nrow') is not None:
        base, c.want_samples = c.want_samples, 80
        marginals(c, r, W, 'the successor has the distribution of the transition row (%s)' % det, 'n', 'nrow', 300)
        c.want_samples = base


def row_of(m, r):
    return Conc(m, r.st)(r.env['row'])


def t_vague(x):
    from sa.evalterm import vague
    return vague(x)


def is_global(rng):
    return rng.op == 'lit' and rng.args[0].v == 'global'


def C06(c):
    need_all(c, M + '.consume_features')
    k = Kit(c)
    W = 'maMDP.mdp:MDP.consume_features'
    pre = '''
        from maMDP.mdp import MDP
        import numpy as np
        m = MDP(feat, sas, w1, seed)
        f0 = m.features.copy()
    '''
    post = '''
        got, gf = out, m.features
        want = np.zeros(F)
        wf = f0.copy()
        for i in range(F):
            if %s:
                if f0[i, s] > 0:
                    want[i] = 1
                    wf[i, s] = 0
    '''
    inp = k.base(s=k.state('s'), fa=k.below('fa', k.F), fb=k.below('fb', k.F))
    asm = t.conj([k.inrange('s'), t.gt(k.F, t.sym('fa', 'int')), t.gt(k.F, t.sym('fb', 'int'))])
    for label, lst, cond in (('nothing', '[]', 'False'), ('one feature', '[fa]', 'i == fa'), ('two features', '[fa, fb]', 'i == fa or i == fb'),
                             ('all features', 'list(range(F))', 'True')):
        r = c.run('consume ' + label, [pre, 'out = m.consume_features(%s, s)' % lst, post % cond], inp, assume=asm)
        check_all(c, r, W, [('counts when consuming %s' % label, 'got', 'want'), ('features after consuming %s' % label, 'gf', 'wf')])
        noraise(c, r, 'consume ' + label, W)
    r = c.run('consume twice', [pre, '''
        m.consume_features([fa], s)
        out = m.consume_features([fa], s)
        zero = np.zeros(F)
    '''], inp, assume=asm)
    check_all(c, r, W, [('a consumed feature cannot be consumed again', 'out', 'zero')])
    r = c.run('reset restores consumed', [pre, '''
        m.consume_features([fa, fb], s)
        m.reset()
        got = m.features.copy()
        m.consume_features([fb], s)
        m.reset()
        got2 = m.features
        gs, ws = m.sas, sas * (1 - w1)[:, None, None] * (1 - w1)[None, None, :]
    '''], inp, assume=asm)
    check_all(c, r, 'maMDP.mdp:MDP.reset', [('reset restores consumed features', 'got', 'f0'), ('reset restores every time', 'got2', 'f0'), ('consumption leaves transitions alone', 'gs', 'ws')])
