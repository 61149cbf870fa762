"""Development-time differential test of the library models against real numpy.
Not a check of any property: it validates the analyser's own transfer functions."""
import sys, os, math, ast
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
import numpy as np, warnings
warnings.simplefilter('ignore')
from sa.oblig import *

SNIPS = open(os.path.join(os.path.dirname(os.path.abspath(__file__)), 'snippets.txt')).read().split('\n---\n')

def tolist(v):
    if isinstance(v, np.ndarray):
        return tolist(v.tolist())
    if isinstance(v, (np.bool_, bool)): return bool(v)
    if isinstance(v, np.generic): return v.item()
    if isinstance(v, (list, tuple)): return tuple(tolist(x) for x in v)
    if isinstance(v, range): return tuple(v)
    if isinstance(v, (set, frozenset)): return ('set',) + tuple(sorted((tolist(x) for x in v), key=repr))
    if isinstance(v, dict): return {tolist(k): tolist(x) for k, x in v.items()}
    return v

def main(only=None):
    bad = 0
    for n, s in enumerate(SNIPS):
        s = s.strip('\n')
        if not s or (only is not None and n not in only): continue
        C = Checker('X00', '/repo')
        E = C.E
        N, A = E.size('N'), E.size('A')
        E.nat('k0')
        doms = {'k0': lambda m: m.h('k0') % m.get('N'), 'p0': lambda m: m.h('p0') % m.get('A')}
        E.nat('p0')
        inputs = dict(N=N, A=A, k0=E.nat('k0'), p0=E.nat('p0'), x=E.real('x'), flag=E.bool('flag'),
            a=lambda st: E.array(st, 'a', (N, A)), b=lambda st: E.array(st, 'b', (N,)), c=lambda st: E.array(st, 'c', (N, N)),
            m=lambda st: E.array(st, 'm', (N,), dtype='b'), q=lambda st: E.array(st, 'q', (N, A), nan=True),
            z=lambda st: E.array(st, 'z', (N, A), domain01=True), w=lambda st: E.array(st, 'w', (A,), nonneg=True),
            s3=lambda st: E.array(st, 's3', (N, A, N), nonneg=True))
        r = C.run('s', 'import numpy as np\n' + s, inputs, doms)
        if r is None:
            print('#%d %-50s UNSUP %s' % (n, s.replace('\n', '; ')[:50], C.scen[-1]['status'])); bad += 1; continue
        if E.I.unsupported:
            print('#%d %-50s opaque %s' % (n, s.replace('\n', '; ')[:60], E.I.unsupported[:2])); bad += 1; continue
        good = 0
        for k in range(12):
            mo = Model(k, doms, {}, 4)
            try:
                env = {kk: tolist(Conc(mo, r.st)(vv)) for kk, vv in ((kk, (vv(r.st) if callable(vv) and not isinstance(vv, T) else vv)) for kk, vv in inputs.items())}
                conc = dict(env)
                for kk, dt in dict(a=float, b=float, c=float, q=float, z=float, w=float, s3=float, m=bool).items():
                    conc[kk] = np.array(env[kk], dtype=dt)
                conc['np'] = np
                err = None
                try:
                    exec(s, conc)
                except Exception as e:
                    err = e
                alive = mo.go(r.st.pc, {}) is True if not r.st.dead else False
                if err is not None:
                    hit = [x for x in r.raises if mo.go(x[0].pc, {}) is True]
                    if alive or not hit:
                        print('#%d %s\n   real raises %r, model does not' % (n, s, err)); bad += 1; break
                    continue
                if not alive:
                    print('#%d %s\n   model raises, real does not: %s' % (n, s, [(x[1], x[2]) for x in r.raises])); bad += 1; break
                got = Conc(mo, r.st)(r.env['r'])
                want = tolist(conc['r'])
                if not same(got, want):
                    print('#%d %s\n   model %s\n   real  %s' % (n, s, brief(got, 300), brief(want, 300))); bad += 1; break
                good += 1
            except Undef as e:
                if k == 0: print('#%d %s  UNDEF %s' % (n, s.replace('\n', '; ')[:60], e))
                bad += 1; break
    print('done, %d problems of %d' % (bad, len(SNIPS)))

main([int(x) for x in sys.argv[1:]] or None)
