#!/usr/bin/env python3
"""plant.py SPEC.py [ids...]: try the changes listed in SPEC.py (BUGS = [dict(id, property, file, edits, needs, breaks, demo)]) in a scratch copy,
keep those that pass the tests and whose demonstration separates, and say which checks notice. REFS = [dict(id, file, edits)]: edits that keep the behaviour."""
import ast, json, os, shutil, subprocess, sys, textwrap, threading
from concurrent.futures import ThreadPoolExecutor
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
ENV = dict(os.environ, MPLBACKEND='Agg', MPLCONFIGDIR='/opt/venv/mplconfig', PYTHONDONTWRITEBYTECODE='1', PYTHONHASHSEED='0')
PY = '/opt/venv/bin/python'


def sh(cmd, cwd, timeout=900, **env):
    return subprocess.run(cmd, cwd=cwd, env=dict(ENV, **env), capture_output=True, text=True, timeout=timeout)


def checks(d, ids):
    def one(i):
        p = sh(['python3', os.path.join(HERE, 'check.py'), i], HERE, SA_ROOT=d, SA_EVIDENCE=os.path.join(d, '.evidence'))
        return i, p.returncode, [l for l in p.stdout.splitlines() if 'violated:' in l or 'ERROR' in l or 'undecided:' in l], p.stderr[-300:]
    with ThreadPoolExecutor(4) as ex:
        return list(ex.map(one, ids))


def allids():
    sys.path.insert(0, HERE)
    from rules import registry
    return sorted(registry.RULES)


ORIGINAL = '5434f62'
LOCK = threading.Lock()


def own_lines(d, diff):
    """removed lines of a patch which the original repository did not have (lines of our own fixes: such a patch does not count)"""
    f, out = None, []
    for l in diff.splitlines():
        if l.startswith('--- a/'):
            f = sh(['git', 'show', ORIGINAL + ':' + l[6:]], d).stdout.splitlines()
        elif l.startswith('-') and not l.startswith('---') and l[1:].strip() and l[1:] not in f:
            out.append(l[1:].strip())
    return out


def replace_func(src, qual, new):
    """source with the definition of qual ('Class.method', 'function', 'Class.prop=' for a setter) replaced; decorators stay"""
    setter = qual.endswith('=')
    names = qual.rstrip('=').split('.')
    body = ast.parse(src).body
    for n in names[:-1]:
        body = next(x for x in body if isinstance(x, ast.ClassDef) and x.name == n).body
    c = [x for x in body if isinstance(x, ast.FunctionDef) and x.name == names[-1] and setter == any(isinstance(d, ast.Attribute) and d.attr == 'setter' for d in x.decorator_list)]
    assert len(c) == 1, qual
    L = src.splitlines(True)
    new = textwrap.indent(textwrap.dedent(new).strip('\n'), ' ' * c[0].col_offset) + '\n'
    return ''.join(L[:c[0].lineno - 1]) + new + ''.join(L[c[0].end_lineno:])


def apply(d, b):
    edits = b['edits'] if 'edits' in b else [(b['old'], b['new'])] if 'old' in b else []
    for e in edits:
        f, old, new = e if len(e) == 3 else (b['file'],) + tuple(e)
        p = os.path.join(d, f)
        s = open(p).read()
        if s.count(old) != 1:
            return '%s: NOT APPLICABLE (%d matches of %r)' % (b['id'], s.count(old), old[:60])
        open(p, 'w').write(s.replace(old, new))
    for q, new in b.get('funcs', {}).items():
        f, q = q if isinstance(q, tuple) else (b['file'], q)
        p = os.path.join(d, f)
        s = open(p).read()
        open(p, 'w').write(replace_func(s, q, new))


def one(b, ids, keep=True):
    d = '/tmp/plant_%s' % b['id']
    shutil.rmtree(d, ignore_errors=True)
    shutil.copytree('/repo', d, symlinks=True)
    try:
        bad = apply(d, b)
        if bad:
            return bad
        diff = sh(['git', 'diff'], d).stdout
        if b.get('quickly'):
            tests = 'tests not run'
        else:
            t = sh([PY, '-m', 'pytest', 'tests', '-q', '-p', 'no:cacheprovider', '-x'], d, PYTHONPATH=d, NUMBA_CACHE_DIR=d + '/.numba')
            tests = t.stdout.strip().splitlines()[-1] if t.stdout.strip() else t.stderr[-200:]
            if ' passed' not in tests or 'failed' in tests or 'error' in tests:
                return '%s: TESTS FAIL %s\n%s' % (b['id'], tests, '\n'.join(l for l in t.stdout.splitlines() if l.startswith('FAILED') or l.startswith('E  '))[:600])
        out = ['%s [%s]: %s' % (b['id'], b.get('property', 'refactoring'), tests[:60])]
        fresh = own_lines(d, diff)
        if fresh and 'property' in b:
            out.append('   CHANGES OWN LINES: %s' % fresh[:2])
        if 'demo' in b:
            sd = os.path.join(d, '.demo')
            os.makedirs(sd)
            open(sd + '/demo.py', 'w').write(b['demo'])
            open(sd + '/demo.sh', 'w').write('#!/bin/bash\n# run with cwd = the repository\nW=$(mktemp -d); trap \'rm -rf "$W"\' EXIT\nexport MPLBACKEND=Agg MPLCONFIGDIR="$W/mpl" PYTHONDONTWRITEBYTECODE=1 PYTHONPYCACHEPREFIX="$W/pyc" NUMBA_CACHE_DIR="$W/numba" PYTHONPATH="$PWD"\n'
                                             '/opt/venv/bin/python -W ignore "$(cd "$(dirname "$0")" && pwd)/demo.py"\n')
            r0 = sh(['bash', sd + '/demo.sh'], '/repo', 300)
            r1 = sh(['bash', sd + '/demo.sh'], d, 300)
            if r0.returncode != 0 or r1.returncode == 0:
                return out[0] + '\n   DEMO BAD: unchanged rc=%d changed rc=%d\n%s\n%s' % (r0.returncode, r1.returncode, (r0.stdout + r0.stderr)[-500:], (r1.stdout + r1.stderr)[-300:])
            if keep and not fresh and not b.get('nokeep'):
                k = os.path.join(HERE, 'seeded', b['id'])
                os.makedirs(k, exist_ok=True)
                open(k + '/patch.diff', 'w').write(diff)
                for x in ('demo.sh', 'demo.py'):
                    shutil.copy(os.path.join(sd, x), k)
                json.dump(dict(property=b['property'], needs=b['needs'], what_it_breaks=b['breaks']), open(k + '/meta.json', 'w'), indent=1)
        run = ids or ([b['property']] if 'property' in b and b['property'] in allids() and not os.environ.get('PLANT_ALL') else allids())
        hit = False
        by = []
        for i, rc, lines, err in checks(d, run):
            if rc == 1:
                hit = True
                by.append(i)
                out.append('   %s CAUGHT by %s: %s' % ('' if 'property' in b else 'FALSE ALARM', i, lines[0][:260] if lines else ''))
            elif rc != 0:
                out.append('   %s ERROR rc=%d %s %s' % (i, rc, lines[:2], err))
            elif lines and ('property' not in b or i == b['property']):
                out.append('   %s quiet: %s' % (i, [l[:110] for l in lines][:4]))
        if 'demo' in b and keep and not fresh and not b.get('nokeep'):
            with LOCK:
                rp = os.path.join(HERE, 'dev', 'seeded_results.json')
                r = json.load(open(rp)) if os.path.exists(rp) else {}
                r[b['id']] = 'caught by ' + ', '.join(by) if by else 'not caught'
                json.dump(r, open(rp, 'w'), indent=1, sort_keys=True)
        if not hit and 'property' in b:
            out.append('   MISSED by %s' % ' '.join(run) if len(run) < 4 else '   MISSED')
        return '\n'.join(out)
    finally:
        shutil.rmtree(d, ignore_errors=True)


def main():
    g = {}
    exec(open(sys.argv[1]).read(), g)
    sel = [a for a in sys.argv[2:] if not (a[0] == 'C' and a[1:].isdigit())]
    ids = [a for a in sys.argv[2:] if a[0] == 'C' and a[1:].isdigit()]
    work = [b for b in g.get('BUGS', []) + g.get('REFS', []) if not sel or b['id'] in sel]
    with ThreadPoolExecutor(int(os.environ.get('PLANT_JOBS', '3'))) as ex:
        for r in ex.map(lambda b: one(b, ids), work):
            print(r, flush=True)


if __name__ == '__main__':
    main()
