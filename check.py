#!/usr/bin/env python3
"""check.py <PROPERTY> [--tier quick|thorough] : decide one property of /repo's current source."""
import importlib
import json
import os
import sys
import time
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
sys.dont_write_bytecode = True
import resource
import signal


def main(argv):
    from sa.oblig import Checker, AnchorLost, PROVED, AGREE, VIOLATED, UNDECIDED
    from sa.terms import TooBig
    from rules import registry, common
    prop = argv[1]
    tier = 'quick'
    if '--tier' in argv:
        tier = argv[argv.index('--tier') + 1]
    root = os.environ.get('SA_ROOT', '/repo')
    t0 = time.time()
    rule, level, meta = registry.RULES[prop]
    c = Checker(prop, root, tier)
    lost = None
    cut = None

    def late(*_):
        # a scenario that outgrows its time is given up, the rest of the obligations stay undecided
        c.deadline = 0
        signal.alarm(15)
        raise TooBig('out of time')
    signal.signal(signal.SIGALRM, late)
    signal.alarm(600 if tier == 'quick' else 3300)
    try:
        c.on_finish = common.completes
        rule(c)
        c.finish()
    except AnchorLost as e:
        lost = str(e)
    except Exception as e:
        if os.environ.get('SA_DEBUG'):
            raise
        cut = '%s: %s' % (type(e).__name__, str(e)[:200])
        c.add('remaining obligations', '').detail = 'rule stopped: ' + cut
    signal.alarm(0)
    known = json.load(open(os.path.join(HERE, 'known_findings.json')))
    viol = []
    for o in c.obs:
        if o.status == VIOLATED:
            k = next((f for f in known['findings'] if f['property'] == prop and f['obligation'] == o.name), None)
            if k is not None:
                print('KNOWN-FINDING: property=%s %s' % (prop, k['what']))
                o.status = 'known'
            else:
                viol.append(o)
    n = {s: sum(1 for o in c.obs if o.status == s) for s in (PROVED, AGREE, VIOLATED, UNDECIDED, 'known')}
    I = c.E.I
    ev = dict(property=prop, tier=tier, seed=int(os.environ.get('VERIF_SEED', '1')), level=level, wall_s=round(time.time() - t0, 2),
              violations=len(viol),
              assumptions=registry.ASSUMPTIONS + meta.get('assumptions', []),
              coverage=dict(
                  explanation='Value-flow analysis of the repository source (%d modules, %d lines parsed, nothing imported or run). '
                              'Each scenario is a most general client of the public API with symbolic sizes and contents; the analysis builds the '
                              'value graph of the result and compares it with the value graph the property demands. "proved" = identical normal forms; '
                              '"agree" = normal forms differ but no random interpretation of the graphs separates them; "undecided" = outside the modelled fragment.'
                              % (len(c.E.project.modules), c.E.project.lines),
                  rule=meta.get('rule', ''),
                  obligations=len(c.obs), discharged=n[PROVED] + n[AGREE], proved_by_normal_form=n[PROVED], agree_under_random_interpretation=n[AGREE],
                  undecided=n[UNDECIDED], known_findings=n['known'],
                  scenarios=c.scen, functions_analysed=sorted(getattr(I, 'funcs_seen', set()))[:200], calls_analysed=I.calls_seen, loops_summarised=getattr(I, 'loops_seen', 0),
                  violated=[dict(obligation=o.name, where=o.where, detail=o.detail) for o in viol],
                  obligation_list=[o.as_dict() for o in c.obs]))
    EV = os.environ.get('SA_EVIDENCE') or os.path.join(HERE, 'evidence')
    os.makedirs(EV, exist_ok=True)
    with open(os.path.join(EV, prop + '.json'), 'w') as fh:
        json.dump(ev, fh, indent=1, default=str)
    print('%s: %d obligations, %d proved, %d agree, %d undecided, %d violated, %d known; %d functions, %.1f s' % (
        prop, len(c.obs), n[PROVED], n[AGREE], n[UNDECIDED], n[VIOLATED], n['known'], len(getattr(I, 'funcs_seen', ())), time.time() - t0))
    if '-v' in argv:
        for o in c.obs:
            print('  %-9s %s  %s' % (o.status, o.name, o.detail[:300]))
        for s in c.scen:
            if s['status'] != 'ok':
                print('  scenario', s)
    elif n[UNDECIDED]:
        for o in c.obs:
            if o.status == UNDECIDED:
                print('  undecided: %s (%s)' % (o.name, o.detail[:160]))
    if lost:
        print('ERROR: entry point the property is about has vanished: %s' % lost)
        return 2
    if viol:
        rp = os.path.join(EV, prop + '.violation.json')
        with open(rp, 'w') as fh:
            json.dump(ev['coverage']['violated'], fh, indent=1, default=str)
        for o in viol[:8]:
            print('  violated: %s [%s] %s' % (o.name, o.where, o.detail[:400]))
        print('VIOLATION property=%s replay=%s' % (prop, rp))
        return 1
    if n[PROVED] + n[AGREE] + n['known'] == 0:
        print('NOTE: nothing could be decided on this source; no claim is made about it')
    return 0


if __name__ == '__main__':
    try:
        rc = main(sys.argv)
    except SystemExit:
        raise
    except BaseException as e:
        import traceback
        traceback.print_exc()
        rc = 3
    sys.stdout.flush()
    os._exit(rc)
