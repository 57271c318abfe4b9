#!/usr/bin/env python3
"""Plants the bugs of bugs.py one at a time in a scratch copy of /repo, confirms each (the existing tests pass,
the demonstration tells the two trees apart), runs the check of its property against the copy and writes
/verif/seeded/<id>/.    plant.py [--write] [--nocheck] [id ...]"""
import json, os, re, shutil, subprocess, sys, tempfile
from concurrent.futures import ThreadPoolExecutor
HERE = os.path.dirname(os.path.abspath(__file__))
VERIF = os.path.dirname(HERE)
sys.path.insert(0, HERE)
PY = '/opt/venv/bin/python'
BASE = '4084690'
PRELUDE = open(os.path.join(HERE, 'demo_prelude.py')).read()
DEMO_SH = '#!/bin/bash\n# run with cwd = the repository\nPYTHONPATH="$PWD" PYTHONDONTWRITEBYTECODE=1 exec timeout 250 /opt/venv/bin/python -B "$(dirname "$0")/demo.py"\n'


def sh(cmd, **kw):
    return subprocess.run(cmd, shell=isinstance(cmd, str), stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **kw)


def one(bug, write, check):
    res = {'id': bug['id']}
    tmp = tempfile.mkdtemp(prefix='plant-%s-' % bug['id'], dir='/tmp')
    try:
        clean, mut = tmp + '/clean', tmp + '/mut'
        for d in (clean, mut):
            sh(['git', 'clone', '-q', '/repo', d])
        for f, old, new in bug['edits']:
            p = os.path.join(mut, f)
            s = open(p, encoding='utf-8').read()
            if s.count(old) != 1:
                res['apply'] = 'old text found %d times in %s: %r' % (s.count(old), f, old[:80])
                return res
            open(p, 'w', encoding='utf-8').write(s.replace(old, new))
        diff = sh(['git', '-C', mut, 'diff', '-U3']).stdout
        # changed lines have to be original ones
        for f in {e[0] for e in bug['edits']}:
            cur = None
            for l in sh(['git', '-C', mut, 'diff', '-U0', f]).stdout.split('\n'):
                m = re.match(r'@@ -(\d+)(?:,(\d+))? ', l)
                if m:
                    a, n = int(m.group(1)), int(m.group(2) or 1)
                    for i in range(a, a + n):
                        b = sh(['git', '-C', '/repo', 'blame', '-s', '-L', '%d,%d' % (i, i), f]).stdout
                        if not b.startswith('^' + BASE):
                            res['blame'] = b.strip()
        env = dict(os.environ, PYTHONPATH=mut, PYTHONDONTWRITEBYTECODE='1')
        r = sh([PY, '-m', 'pytest', '-q', '-x', '-p', 'no:cacheprovider', '-o', 'python_files=test*.py', 'tests'], cwd=mut, env=env)
        res['tests'] = r.returncode == 0 or r.stdout[-1500:]
        sh(['git', '-C', mut, 'clean', '-fdq'])
        if bug.get('demo'):
            dd = tmp + '/demo'
            os.mkdir(dd)
            open(dd + '/demo.sh', 'w').write(DEMO_SH)
            os.chmod(dd + '/demo.sh', 0o755)
            open(dd + '/demo.py', 'w').write(PRELUDE + '\n' + bug['demo'].strip() + '\n')
            e = {k: v for k, v in os.environ.items() if k != 'PYTHONPATH'}
            a = sh(['bash', dd + '/demo.sh'], cwd=clean, env=e)
            b = sh(['bash', dd + '/demo.sh'], cwd=mut, env=e)
            res['demo'] = (a.returncode, b.returncode)
            if a.returncode or not b.returncode or os.environ.get('SHOW'):
                res['demo_out'] = a.stdout[-800:] + '\n---mut\n' + b.stdout[-800:]
            st = sh(['git', '-C', clean, 'status', '--short']).stdout
            if st:
                res['demo_dirty'] = st
        if check:
            res['checks'] = {}
            for prop in bug.get('props', [bug['property']]):
                e = dict(os.environ, KPMON_REPO=mut, VERIF_SEED=os.environ.get('VERIF_SEED', '1'), VERIF_TIER='quick', KPMON_PROCS='4')
                r = sh([VERIF + '/run.sh', prop], env=e)
                res['checks'][prop] = r.returncode
                if r.returncode != 1 or os.environ.get('SHOW'):
                    res.setdefault('out', {})[prop] = r.stdout[-700:]
        ok = res['tests'] is True and res.get('demo', (1, 0))[0] == 0 and res['demo'][1] != 0 and 'blame' not in res
        res['valid'] = ok
        if write and ok:
            out = os.path.join(VERIF, 'seeded', bug['id'])
            os.makedirs(out, exist_ok=True)
            open(out + '/patch.diff', 'w').write(diff)
            for f in ('demo.sh', 'demo.py'):
                shutil.copy(tmp + '/demo/' + f, out + '/' + f)
            json.dump({'property': bug['property'], 'needs': bug['needs'], 'what_it_breaks': bug['breaks']}, open(out + '/meta.json', 'w'), indent=1)
        return res
    finally:
        shutil.rmtree(tmp, ignore_errors=True)


def record(r):
    """catch.json: which checks catch which valid bug"""
    from bugs import BUGS
    if not r.get('valid') or 'checks' not in r or '--write' not in sys.argv:
        return
    p = os.path.join(VERIF, 'catch.json')
    d = {x['id']: x for x in (json.load(open(p)) if os.path.exists(p) else [])}
    b = [x for x in BUGS if x['id'] == r['id']][0]
    d[r['id']] = {'id': r['id'], 'property': b['property'], 'needs': b['needs'], 'what': b['breaks'],
                  'caught': sorted(k for k, v in r['checks'].items() if v == 1), 'missed': sorted(k for k, v in r['checks'].items() if v != 1)}
    known = {x['id'] for x in BUGS}
    json.dump([d[k] for k in sorted(d) if k in known], open(p, 'w'), indent=1)


def main():
    from bugs import BUGS
    assert len({b['id'] for b in BUGS}) == len(BUGS)
    args = [a for a in sys.argv[1:] if not a.startswith('--')]
    if '--probes' in sys.argv:
        from probes import PROBES as BUGS
    todo = [b for b in BUGS if not args or b['id'] in args or b['property'] in args]
    with ThreadPoolExecutor(int(os.environ.get('JOBS', '2'))) as ex:
        for r in ex.map(lambda b: one(b, '--write' in sys.argv, '--nocheck' not in sys.argv), todo):
            flag = 'OK  ' if r.get('valid') else 'BAD '
            if '--nocheck' not in sys.argv:
                flag += 'CAUGHT ' if any(v == 1 for v in r.get('checks', {}).values()) else 'MISSED '
            record(r)
            print(flag, json.dumps(r)[:1800].replace('\\n', '\n      '), flush=True)


main()
