"""Rules about the successor representation, reward and policy learning."""
from .common import *

SR = 'maMDP.algorithms.successor_representation'
IRL = 'maMDP.algorithms.irl'
PL = 'maMDP.algorithms.policy_learning'
HEAD = '''
    from maMDP.mdp import MDP
    from maMDP.algorithms.successor_representation import get_sa_sr, get_sr_q_values
    import numpy as np
'''


def C27(c):
    """successor representation and the action values it gives"""
    need_all(c, SR + ':get_sa_sr', SR + ':get_sr_q_values')
    W = [SR + ':get_sa_sr', SR + ':get_sr_q_values']
    k = Kit(c, 'det')
    c.doms['N'] = lambda m: m.size('N', 2, 2)
    g = k.E.real('g', True)
    c.doms['g'] = lambda m: (m.h('g') % 19) / 20
    r = c.run('representation', [HEAD, '''
        s0 = sas.copy()
        sr = get_sa_sr(sas, g)
        P = np.zeros((N * A, N * A))
        for s in range(N):
            for a in range(A):
                for s2 in range(N):
                    for a2 in range(A):
                        P[s * A + a, s2 * A + a2] = sas[s, a, s2] / A
        got = sr - g * (P @ sr)
        want = np.eye(N * A)
        sh = sr.shape
        wsh = (N * A, N * A)
    '''], k.base(g=g))
    check_all(c, r, W, [('discounted future visits of the uniform policy', 'got', 'want'), ('one row and column per state and action', 'sh', 'wsh'), ('transitions are left alone', 'sas', 's0')])
    noraise(c, r, 'successor representation', W)
    r = c.run('values', [HEAD, '''
        f0, s0, r0, t0 = feat.copy(), sas.copy(), srx.copy(), th.copy()
        q = get_sr_q_values(th, feat, srx, sas, N, A)
        w = np.zeros((N, A))
        for s in range(N):
            for a in range(A):
                tot = 0
                for s2 in range(N):
                    rew = (th * feat[:, s2]).sum()
                    for a2 in range(A):
                        tot = tot + srx[s * A + a, s2 * A + a2] * rew
                w[s, a] = tot
                if not np.any(sas[s, a] > 0):
                    w[s, a] = -np.inf
    '''], k.base(th=k.vec('th', k.F), srx=lambda st: k.E.array(st, 'srx', (t.mul(k.N, k.A), t.mul(k.N, k.A)))))
    check_all(c, r, W, [('action values are represented visits times rewards, impossible actions never', 'q', 'w'), ('features are left alone', 'feat', 'f0'), ('transitions are left alone by the values', 'sas', 's0'),
                        ('the representation is left alone', 'srx', 'r0'), ('weights are left alone', 'th', 't0')])
    noraise(c, r, 'action values', W)


LEARN = '''
    from maMDP.mdp import MDP
    from maMDP.algorithms.irl import MaxCausalEntIRL, MFFeatureMatching, HyptestIRL, SimpleActionIRL
    from maMDP.algorithms.irl import BaseIRL
    from maMDP.algorithms.policy_learning import TDGeneralPolicyLearner
    from maMDP.algorithms.dynamic_programming import solve_value_iteration
    from maMDP.algorithms.action_selection import SoftmaxActionSelector, MaxActionSelector
    import numpy as np
    def follow(s, acts, tr):
        out = [s]
        for a in acts:
            s = np.argmax(tr[s, a])
            out.append(s)
        return out
'''


class LearnKit(Kit):
    """walks along deterministic transitions where every action leads somewhere"""

    def __init__(self, c, maxn=3, maxa=3, one=False):
        super().__init__(c, 'det')
        if one:
            self.A = num(1)
        c.doms['N'] = lambda m: m.size('N', 2, maxn - 1)
        c.doms['A'] = lambda m: m.size('A', 1, maxa)
        E, N, A = self.E, self.N, self.A

        def gen(name):
            def g(m):
                out = {}
                n = m.get('N')
                for s in range(n):
                    for a in range(m.ev(A)):
                        tgt = m.h(name, 'to', s, a) % n
                        for j in range(n):
                            out[s, a, j] = 1 if j == tgt else 0
                return out
            return g
        self.tot = {}
        for nm in ('tr', 'tr2'):
            c.arrgens[nm] = gen(nm)
            self.tot[nm] = (lambda nm: lambda st: E.array(st, nm, (N, A, N), domain01=True))(nm)

    def inp(self, **kw):
        E = self.E
        d = dict(N=self.N, A=self.A, F=self.F, seed=E.int('seed'), feat=self.feat(), feat2=self.feat('feat2'), tr=self.tot['tr'], tr2=self.tot['tr2'])
        for n in ('p', 'q'):
            d[n] = self.state(n)
        for n in ('a0', 'a1', 'a2', 'b0', 'b1'):
            d[n] = self.action(n)
        d['lr'] = E.real('lr', True)
        self.c.doms['lr'] = lambda m: (1 + m.h('lr') % 19) / 20
        d['dec'] = E.real('dec', True)
        self.c.doms['dec'] = lambda m: (m.h('dec') % 5) / 2
        d['th0'] = self.vec('th0', self.F)
        d['q0'] = self.vec('q0', self.A)
        d['f1'] = self.below('f1', self.F)
        d.update(kw)
        return d

    def asm(self):
        r = self.inrange('p', 'q')
        for n in ('a0', 'a1', 'a2', 'b0', 'b1'):
            r = t.band(r, t.gt(self.A, t.sym(n, 'int')))
        r = t.band(r, t.gt(self.F, t.sym('f1', 'int')))
        return t.band(r, t.gt(t.sym('lr', 'real'), num(0)))


def C33(c):
    """actions behind a trajectory"""
    MD = 'maMDP.mdp'
    need_all(c, MD + ':MDP._trajectory_to_state_action', MD + ':MDP._state_pair_to_action')
    W = [MD + ':MDP._trajectory_to_state_action', MD + ':MDP._state_pair_to_action']
    for det, lbl in (('det', 'deterministic'), ('sto', 'stochastic')):
        k = Kit(c, det)
        asm = k.inrange('u', 'v', 'w')
        r = c.run('pairs ' + lbl, [HEAD, '''
            m = MDP(feat, sas, None, seed)
            adj = np.max(sas[u, :, v]) > 0
            far = not adj
            got = m._state_pair_to_action(u, v)
            n, one = len(got), 1
            best = got[0]
            want = np.argmax(sas[u, :, v])
        '''], k.base(u=k.state('u'), v=k.state('v'), w=k.state('w')), assume=asm)
        check_all(c, r, W, [('the most likely action (%s)' % lbl, 'best', 'want'), ('one action (%s)' % lbl, 'n', 'one')])
        raises_iff(c, r, 'only adjacent states have an action (%s)' % lbl, W, 'far')
        r = c.run('all actions ' + lbl, [HEAD, '''
            m = MDP(feat, sas, None, seed)
            got = m._state_pair_to_action(u, v, return_max=False)
            mark = np.zeros(A)
            for a in got:
                mark[a] = mark[a] + 1
            want = np.zeros(A)
            for a in range(A):
                if sas[u, a, v] > 0:
                    want[a] = 1
        '''], k.base(u=k.state('u'), v=k.state('v'), w=k.state('w')), assume=asm)
        check_all(c, r, W, [('all possible actions (%s)' % lbl, 'mark', 'want')])
        r = c.run('trajectory ' + lbl, [HEAD, '''
            m = MDP(feat, sas, None, seed)
            far = not (np.max(sas[u, :, v]) > 0 and np.max(sas[v, :, w]) > 0)
            trj = [u, v, w]
            got = m._trajectory_to_state_action(trj)
            want = np.array([[u, np.argmax(sas[u, :, v])], [v, np.argmax(sas[v, :, w])]])
            same = trj == [u, v, w]
            yes = True
        '''], k.base(u=k.state('u'), v=k.state('v'), w=k.state('w')), assume=asm)
        check_all(c, r, W, [('states and actions of a trajectory (%s)' % lbl, 'got', 'want'), ('the trajectory is left alone (%s)' % lbl, 'same', 'yes')])
        raises_iff(c, r, 'only connected trajectories have actions (%s)' % lbl, W, 'far')


def C30(c):
    """feature counts"""
    need_all(c, IRL + ':MFFeatureMatching.fit')
    W = IRL + ':MFFeatureMatching.fit'
    k = LearnKit(c)
    for lbl, mdps, ign in (('one MDP', 'm1', '[]'), ('an MDP per trajectory', '[m1, m2]', '[]'), ('one MDP, ignoring', 'm1', '[f1]'), ('an MDP per trajectory, ignoring', '[m1, m2]', '[f1]')):
        r = c.run(lbl, [LEARN, '''
            m1, m2 = MDP(feat, tr, None, seed), MDP(feat2, tr2, None, seed)
            t1, t2 = [p, u, p, v], [q, w, q]
            l = MFFeatureMatching()
            got = l.fit(%s, [t1, t2], %s)
            kept = l.theta
            want = np.zeros(F)
            other = %s
            for f in range(F):
                for s in (u, p, v):
                    want[f] = want[f] + feat[f, s]
                for s in (w, q):
                    want[f] = want[f] + (feat2 if other else feat)[f, s]
            for f in %s:
                want[f] = 0
            same = t1 == [p, u, p, v] and t2 == [q, w, q]
            yes = True
            f1a, f2a = m1.features, m2.features
        ''' % (mdps, ign, 'm2' in mdps, ign)], k.inp(u=k.state('u'), v=k.state('v'), w=k.state('w')), assume=t.band(k.asm(), k.inrange('u', 'v', 'w')))
        check_all(c, r, W, [('weights are the visited features after the start (%s)' % lbl, 'got', 'want'), ('weights are kept (%s)' % lbl, 'kept', 'want'), ('trajectories are left alone (%s)' % lbl, 'same', 'yes'),
                            ('features are left alone (%s)' % lbl, 'f1a', 'feat')])
        noraise(c, r, lbl, W)
    r = c.run('again', [LEARN, '''
        m1, m2 = MDP(feat, tr, None, seed), MDP(feat2, tr2, None, seed)
        l = MFFeatureMatching()
        l.fit(m2, [[q, p], [p, q]])
        got = l.fit(m1, [[p, q]])
        want = feat[:, q]
    '''], k.inp(), assume=k.asm())
    check_all(c, r, W, [('earlier fits leave no trace', 'got', 'want')])


def C31(c):
    """policy learning"""
    need_all(c, PL + ':TDGeneralPolicyLearner.fit')
    W = [PL + ':TDGeneralPolicyLearner._fit_TD_policy']
    k = LearnKit(c)
    TD = '''
        m1, m2 = MDP(feat, tr, None, seed), MDP(feat2, tr2, None, seed)
        t1, t2 = follow(p, [a0, a1], tr), follow(q, [b0], %(tb)s)
        l = TDGeneralPolicyLearner(learning_rate=lr, decay=%(dec)s, Q=%(Q)s, kernel=%(kern)s, ls=0.5)
        l.fit(%(mdps)s, [t1, t2])
        def act(tr_, s, s2):
            return np.argmax(tr_[s, :, s2])
        seen = [act(tr, t1[0], t1[1]), act(tr, t1[1], t1[2]), act(%(tb)s, t2[0], t2[1])]
        want = %(start)s
        rate = lr
        n = 1
        for a in seen:
            target = np.zeros(A)
            for b in range(A):
                if %(kern)s:
                    dist = np.abs(((b - a) * (360 / A) + 180) %% 360 - 180)
                    target[b] = np.exp(-(dist * dist / 2 * 0.5 ** 2))
                elif b == a:
                    target[b] = 1
            rate = rate * np.power(n, -%(dec)s)
            want = want + rate * (target - want)
            n = n + 1
        got = l.get_q_values(p)
        got2 = l.get_q_values(q)
        Q0 = %(Q)s
    '''
    for lbl, d in (('decaying', {}), ('constant rate', dict(dec='0')), ('fast decay', dict(dec='2')), ('from given values', dict(Q='q0', start='q0.copy()')), ('an MDP per trajectory', dict(mdps='[m1, m2]', tb='tr2')), ('generalising', dict(kern='True'))):
        e = dict(dec='0.5', Q='None', kern='False', mdps='m1', tb='tr', start='np.zeros(A)')
        e.update(d)
        r = c.run(lbl, [LEARN, TD % e], k.inp(), assume=k.asm())
        check_all(c, r, W, [('values follow the observed actions (%s)' % lbl, 'got', 'want'), ('same values in every state (%s)' % lbl, 'got2', 'want')])
        noraise(c, r, lbl, W)
    r = c.run('no observations', [LEARN, '''
        m1 = MDP(feat, tr, None, seed)
        l = TDGeneralPolicyLearner(learning_rate=lr)
        l.fit(m1, [[]])
        got, want = l.get_q_values(p), np.zeros(A)
        l2 = TDGeneralPolicyLearner(learning_rate=lr, Q=q0)
        l2.fit(m1, [[], []])
        got2 = l2.get_q_values(p)
    '''], k.inp(), assume=k.asm())
    check_all(c, r, W, [('nothing observed, nothing learned', 'got', 'want'), ('nothing observed, given values kept', 'got2', 'q0')])
    noraise(c, r, 'no observations', W)


def C32(c):
    """expected visits and the step of causal entropy learning"""
    need_all(c, IRL + ':MaxCausalEntIRL.fit', IRL + ':state_visitation_iterator')
    W = [IRL + ':state_visitation_iterator']
    k = Kit(c, None)
    c.doms['N'] = lambda m: m.size('N', 2, 2)
    for n in (0, 1, 2):
        r = c.run('visits %d' % n, [HEAD, '''
            from maMDP.algorithms.irl import state_visitation_iterator
            pz0, pi0 = pz.copy(), pi.copy()
            got = state_visitation_iterator(sas, %d, pi, pz)
            want = np.zeros(N)
            for it in range(%d):
                new = pz.copy()
                for s2 in range(N):
                    for s in range(N):
                        for a in range(A):
                            new[s2] = new[s2] + want[s] * pi[s, a] * sas[s, a, s2]
                want = new
        ''' % (n, n)], k.base(pz=k.vec('pz', k.N), pi=lambda st: k.E.array(st, 'pi', (k.N, k.A))))
        check_all(c, r, W, [('expected visits after %d steps' % n, 'got', 'want'), ('starting distribution left alone (%d)' % n, 'pz', 'pz0'), ('policy left alone (%d)' % n, 'pi', 'pi0')])
        noraise(c, r, 'visits', W)
    W = [IRL + ':MaxCausalEntIRL._solve_maxcausalent', IRL + ':MaxCausalEntIRL._maxcausalent_innerloop']
    k = LearnKit(c)
    ME = '''
        m1 = MDP(feat, tr, None, seed)
        trj = %(trj)s
        l = MaxCausalEntIRL(learning_rate=lr, decay=%(dec)s, max_iter_irl=%(it)d, theta=%(th)s, tol=%(tol)s, VI_discount=0.5, VI_max_iter=%(vi)d, soft=%(soft)s)
        got = l.fit(m1, trj, ignore_features=%(ign)s, show_progress=False)
        from maMDP.algorithms.irl import state_visitation_iterator
        vis = np.zeros(N)
        start = np.zeros(N)
        for one in trj:
            for s in one:
                vis[s] = vis[s] + 1 / len(one) / len(trj)
            start[one[0]] = start[one[0]] + 1 / len(trj)
        theta = %(start)s
        for f in %(ign)s:
            theta[f] = 0
        rate = lr
        going = True
        for i in range(%(it)d):
            V, Q = solve_value_iteration(theta, feat, %(vi)d, 0.5, tr, %(tol)s, %(soft)s)
            pi = %(sel)s().get_pi_p(Q)
            D = state_visitation_iterator(tr, %(vi)d, pi, start)
            err = np.zeros(F)
            for f in range(F):
                err[f] = (feat[f] * vis).sum() - (feat[f] * D).sum()
            for f in %(ign)s:
                err[f] = 0
            if going:
                rate = rate * np.power(i + 1, -%(dec)s)
                theta = theta + rate * np.power(i + 1, -%(dec)s) * err
                going = not np.mean(np.abs(err)) < %(tol)s
        f0, s0 = m1.features, m1.sas
    '''
    for lbl, d in (('soft', {}), ('greedy', dict(soft='False', sel='MaxActionSelector')), ('from given weights', dict(th='th0', start='th0.copy()')), ('ignoring', dict(ign='(f1,)')), ('no decay', dict(dec='0')), ('two steps', dict(it=2, one=1, trj='[[p, q]]', tol='0')), ('two sweeps', dict(vi=2, one=1))):
        k = LearnKit(c, one=d.pop('one', 0))
        e = dict(dec='1.0', it=1, th='None', vi=1, soft='True', ign='()', start='np.zeros(F)', sel='SoftmaxActionSelector', trj='[[p, u], [q, w, p]]', tol='1e-8')
        e.update(d)
        r = c.run('entropy ' + lbl, [LEARN, ME % e], k.inp(u=k.state('u'), w=k.state('w')), assume=t.band(k.asm(), k.inrange('u', 'w')))
        check_all(c, r, W, [('weights step by the difference of observed and expected features (%s)' % lbl, 'got', 'theta'), ('features left alone (%s)' % lbl, 'f0', 'feat'), ('transitions left alone (%s)' % lbl, 's0', 'tr')])
        noraise(c, r, lbl, W)


def C28(c):
    """resetting learners"""
    need_all(c, PL + ':TDGeneralPolicyLearner.reset', IRL + ':MaxCausalEntIRL.reset', IRL + ':HyptestIRL.reset')
    k = LearnKit(c, maxa=2)
    HT = "HyptestIRL(learning_rate=lr, decay=1, theta=%s, VI_discount=0.5, VI_max_iter=1, normalisation='z-score')"
    ME = "MaxCausalEntIRL(learning_rate=lr, decay=1.0, max_iter_irl=%d, theta=%s, VI_discount=0.5, VI_max_iter=1)"
    TD = 'TDGeneralPolicyLearner(learning_rate=lr, decay=0.5, Q=%s)'
    fitirl = 'fit(%s, [%s], show_progress=False)'
    fittd = 'fit(%s, [%s])'
    for lbl, make, fit, val, init, W in (
            ('policy learner', TD % 'None', fittd, 'Q', None, PL + ':TDGeneralPolicyLearner'), ('policy learner with start', TD % 'q0', fittd, 'Q', 'q0', PL + ':TDGeneralPolicyLearner'),
            ('causal entropy', ME % (1, 'None'), fitirl, 'theta', None, IRL + ':MaxCausalEntIRL'), ('causal entropy with start', ME % (1, 'th0'), fitirl, 'theta', 'th0', IRL + ':MaxCausalEntIRL'),
            ('hypothesis testing', HT % 'None', fitirl, 'theta', None, IRL + ':HyptestIRL'), ('hypothesis testing with start', HT % 'th0', fitirl, 'theta', 'th0', IRL + ':HyptestIRL')):
        r = c.run(lbl, [LEARN, """
            m1, m2 = MDP(feat, tr, None, seed), MDP(feat2, tr2, None, seed)
            t1, t2 = follow(p, %(acts)s, tr), follow(q, [b0], tr2)
            th1, q1 = th0.copy(), q0.copy()
            l = %(make)s
            l.%(fit2)s
            l.reset()
            after = None if l.%(val)s is None else l.%(val)s.copy()
            l.%(fit1)s
            got = l.%(val)s.copy()
            fresh = %(make)s
            fresh.%(fit1)s
            want = fresh.%(val)s
            l.reset()
            again = None if l.%(val)s is None else l.%(val)s.copy()
            init = %(init)s
            l.%(fit2)s
            l.reset()
            l.%(fit1)s
            third = l.%(val)s
        """ % dict(make=make, acts='[a0]' if 'testing' in lbl else '[a0, a1]', fit2=fit % ('m2', 't2'), fit1=fit % ('m1', 't1'), val=val, init={None: 'None', 'q0': 'q1', 'th0': 'th1'}[init])], k.inp(), assume=k.asm())
        check_all(c, r, W, [('reset gives back the starting values (%s)' % lbl, 'after', 'init'), ('fitting after a reset is fitting a new learner (%s)' % lbl, 'got', 'want'),
                            ('resetting again gives back the starting values (%s)' % lbl, 'again', 'init'), ('every reset forgets (%s)' % lbl, 'third', 'want'),
                            ('starting weights stay the caller\'s (%s)' % lbl, 'th0', 'th1'), ('starting values stay the caller\'s (%s)' % lbl, 'q0', 'q1')])
        noraise(c, r, lbl, W)
    W = PL + ':TDGeneralPolicyLearner'
    r = c.run('copy', [LEARN, """
        m1 = MDP(feat, tr, None, seed)
        t1 = follow(p, [a0, a1], tr)
        l = TDGeneralPolicyLearner(learning_rate=lr, decay=0.5, Q=q0)
        l.fit(m1, [t1])
        before = l.Q.copy()
        k_ = l.copy()
        k_.fit(m1, [follow(q, [b0], tr)])
        mine = l.Q
    """], k.inp(), assume=k.asm())
    check_all(c, r, W, [('a copy learns on its own', 'mine', 'before')])


def C29(c):
    """ignored features"""
    need_all(c, IRL + ':MaxCausalEntIRL.fit', IRL + ':MFFeatureMatching.fit')
    k = LearnKit(c)
    W = IRL + ':MaxCausalEntIRL._solve_maxcausalent'
    for th in ('None', 'th0'):
        for it, trj, tol in ((1, '[[p, q], [q, p]]', '1e-8'), (2, '[[p, q]]', '0')):
            k = LearnKit(c, one=it > 1)
            r = c.run('entropy %s %d' % (th, it), [LEARN, """
                m1 = MDP(feat, tr, None, seed)
                l = MaxCausalEntIRL(learning_rate=lr, decay=1.0, max_iter_irl=%d, theta=%s, VI_discount=0.5, VI_max_iter=1, tol=%s)
                th = l.fit(m1, %s, ignore_features=(f1,), show_progress=False)
                got, want = th[f1], 0
                # what the feature holds does not matter
                other = feat.copy()
                other[f1] = feat2[f1]
                m2 = MDP(other, tr, None, seed)
                l2 = MaxCausalEntIRL(learning_rate=lr, decay=1.0, max_iter_irl=%d, theta=%s, VI_discount=0.5, VI_max_iter=1, tol=%s)
                th2 = l2.fit(m2, %s, ignore_features=(f1,), show_progress=False)
            """ % (it, th, tol, trj, it, th, tol, trj)], k.inp(), assume=k.asm())
            l = ' (causal entropy, %s, %d steps)' % ('no start' if th == 'None' else 'given start', it)
            check_all(c, r, W, [('an ignored feature has no weight' + l, 'got', 'want'), ('an ignored feature has no influence' + l, 'th', 'th2')])
            noraise(c, r, 'ignoring' + l, W)
    W = IRL + ':MFFeatureMatching.fit'
    r = c.run('matching', [LEARN, """
        m1 = MDP(feat, tr, None, seed)
        th = MFFeatureMatching().fit(m1, [[p, q], [q, p, p]], ignore_features=[f1])
        got, want = th[f1], 0
        full = MFFeatureMatching().fit(m1, [[p, q], [q, p, p]])
        full[f1] = 0
        other = feat.copy()
        other[f1] = feat2[f1]
        th2 = MFFeatureMatching().fit(MDP(other, tr, None, seed), [[p, q], [q, p, p]], ignore_features=[f1])
    """], k.inp(), assume=k.asm())
    check_all(c, r, W, [('an ignored feature has no weight (matching)', 'got', 'want'), ('other features keep their weights (matching)', 'th', 'full'), ('an ignored feature has no influence (matching)', 'th', 'th2')])
    W = IRL + ':HyptestIRL._single_move'
    r = c.run('testing', [LEARN, """
        m1 = MDP(feat, tr, None, seed)
        t1 = follow(p, [a0], tr)
        mk = lambda: HyptestIRL(learning_rate=lr, decay=1, VI_discount=0.5, VI_max_iter=1, normalisation='z-score')
        th = mk().fit(m1, [t1], ignore_features=(f1,), show_progress=False)
        full = mk().fit(m1, [t1], show_progress=False)
        got, want = np.zeros(F), np.zeros(F)
        for f in range(F):
            if f != f1:
                got[f] = th[f]
                want[f] = full[f]
    """], k.inp(), assume=k.asm())
    check_all(c, r, W, [('other features keep their weights (hypothesis testing)', 'got', 'want')])


def C39(c):
    """hypothesis testing: how well each feature alone explains the observed move"""
    need_all(c, IRL + ':HyptestIRL.fit')
    W = [IRL + ':HyptestIRL._single_move', IRL + ':HyptestIRL._solve_hyptest', IRL + ':zscore_nb']
    k = LearnKit(c, maxa=3)
    HT = '''
        m1 = MDP(feat, tr, None, seed)
        t1 = follow(p, %(acts)s, tr)
        l = HyptestIRL(learning_rate=lr, decay=%(dec)s, theta=%(th)s, asymmetry=3, VI_discount=0.5, VI_max_iter=1, soft=%(soft)s, normalisation='z-score')
        got = l.fit(m1, [t1], show_progress=False)
        theta = %(start)s
        ok = np.ones(F)
        n = 1
        for i in range(len(t1) - 1):
            a = np.argmax(tr[t1[i], :, t1[i + 1]])
            R = np.zeros(F)
            for f in range(F):
                w = np.zeros(F)
                w[f] = 1
                V, Q = solve_value_iteration(w, feat, 1, 0.5, tr, 1e-8, %(soft)s)
                mean = Q[t1[i]].sum() / A
                dev = Q[t1[i]] - mean
                if (dev * dev).sum() < 1e-6:
                    ok[f] = 0
                R[f] = (Q[t1[i], a] - mean) / np.sqrt((dev * dev).sum() / A)
            rate = np.zeros(F)
            for f in range(F):
                if %(dec)s == 0:
                    rate[f] = lr
                elif np.abs(R[f]) - np.abs(theta[f]) < 0:
                    rate[f] = lr * 3 * np.power(n, -float(%(dec)s))
                else:
                    rate[f] = lr / 3 * np.power(n, -float(%(dec)s))
            theta = theta + rate * (R - theta)
            n = n + 1
        # where all actions are worth the same there is nothing to standardise
        got = np.where(ok == 1, got, 0)
        theta = np.where(ok == 1, theta, 0)
        kept, per = np.where(ok == 1, l.theta, 0), np.where(ok == 1, l.trajectory_theta[0], 0)
        f0, s0 = m1.features, m1.sas
    '''
    for lbl, d in (('soft', {}), ('greedy', dict(soft='False')), ('from given weights', dict(th='th0', start='th0.copy()')), ('no decay', dict(dec='0'))):
        e = dict(dec='1', th='None', soft='True', start='np.zeros(F)', acts='[a0]')
        e.update(d)
        r = c.run('testing ' + lbl, [LEARN, HT % e], k.inp(), assume=k.asm())
        check_all(c, r, W, [('weights move towards standardised action values of the move (%s)' % lbl, 'got', 'theta'), ('weights are kept (%s)' % lbl, 'kept', 'theta'), ('weights after each trajectory (%s)' % lbl, 'per', 'theta'),
                            ('features left alone (%s)' % lbl, 'f0', 'feat'), ('transitions left alone (%s)' % lbl, 's0', 'tr')])
        noraise(c, r, lbl, W)


def C35(c):
    """features in the line of sight of the moves taken"""
    need_all(c, IRL + ':SimpleActionIRL.fit')
    W = [IRL + ':SimpleActionIRL.fit', IRL + ':get_trajectory_eyeline_features', IRL + ':get_eyeline_features']
    for n in (1, 2, 3):
        k = LearnKit(c)
        k.N = num(n)
        c.doms['N'] = lambda m, n=n: n
        r = c.run('line of sight %d' % n, [LEARN, '''
            m1 = MDP(feat, sas, None, seed)
            t1 = [p, q]
            far = not np.max(sas[p, :, q]) > 0
            l = SimpleActionIRL()
            got = l.fit([m1], [t1])
            a = np.argmax(sas[p, :, q])
            seen = np.zeros(N)
            s = p
            for i in range(N):
                if s >= 0 and seen[s] == 0:
                    seen[s] = 1
                    if np.max(sas[s, a]) > 0:
                        s = np.argmax(sas[s, a])
                    else:
                        s = -1
            cnt = np.zeros(F)
            for f in range(F):
                cnt[f] = (seen * feat[f]).sum()
            tot = cnt.sum()
            if np.any(cnt != 0):
                cnt = cnt / tot
        '''], k.inp(sas=k.sas()), assume=k.asm())
        check_all(c, r, W, [('features in the line of sight, each state once (%d states)' % n, 'got', 'cnt')])
        raises_iff(c, r, 'only connected trajectories (%d states)' % n, W, 'far')
    k = LearnKit(c)
    k.N = num(2)
    c.doms['N'] = lambda m: 2
    r = c.run('several', [LEARN, '''
        m1, m2 = MDP(feat, tr, None, seed), MDP(feat2, tr2, None, seed)
        t1, t2 = follow(p, [a0], tr), follow(q, [b0], tr2)
        one = SimpleActionIRL().fit([m1], [t1])
        two = SimpleActionIRL().fit([m2], [t2])
        l = SimpleActionIRL()
        both = l.fit([m1, m2], [t1, t2]).copy()
        want = one + two
        again = l.fit([m1], [t1]).copy()
        more = l.fit([m2], [t2], reset=False).copy()
    '''], k.inp(), assume=k.asm())
    check_all(c, r, W, [('weights add up over trajectories', 'both', 'want'), ('fitting starts afresh', 'again', 'one'), ('unless it is told to continue', 'more', 'want')])
    noraise(c, r, 'several', W)
