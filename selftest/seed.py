#!/usr/bin/env python3
"""development aid: makes and confirms planted bugs.
seed.py make ID PROPERTY FILE   (reads from stdin: needs / what_it_breaks lines, then edit blocks and the demo)
  format:  needs: ...\nbreaks: ...\n<old>\n===\n<new>\n(+++ more)\n@@@\n<python demo>
seed.py confirm [ID...]         applies each to /repo, builds, tests, runs demo with and without, runs the check"""
import sys, os, re, json, subprocess, shutil, tempfile
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
S = V + '/seeded'
SH = '''#!/bin/bash
# exit 0: behaviour as specified; nonzero: broken.  Run with cwd /repo.
D=$(cd "$(dirname "$0")" && pwd)
export PYTHONDONTWRITEBYTECODE=1 MPLBACKEND=Agg MPLCONFIGDIR=/opt/mplconfig PYTHONPATH=$PWD/src
exec /opt/venv/bin/python "$D/demo.py"
'''


def sh(cmd, **kw):
    return subprocess.run(cmd, shell=True, capture_output=True, text=True, **kw)


def make(id, prop, file):
    t = sys.stdin.read()
    head, demo = t.split('\n@@@\n')
    m = re.match(r'needs: (.*)\nbreaks: (.*)\n', head)
    body = head[m.end():]
    f = f'/repo/src/craterstats/{file}'
    orig = s = open(f).read()
    for part in re.split(r'^\+\+\+\n', body, flags=re.M):
        old, new = re.split(r'^===\n', part, flags=re.M)
        old, new = old.rstrip('\n'), new.rstrip('\n')
        if s.count(old) != 1:
            sys.exit(f'{s.count(old)} matches of {old!r}')
        s = s.replace(old, new)
    d = f'{S}/{id}'
    os.makedirs(d, exist_ok=True)
    open(f, 'w').write(s)
    diff = sh('git -C /repo diff').stdout
    open(f, 'w').write(orig)
    open(d + '/patch.diff', 'w').write(diff)
    open(d + '/demo.sh', 'w').write(SH)
    open(d + '/demo.py', 'w').write(demo)
    json.dump(dict(property=prop, needs=m[1], what_it_breaks=m[2]), open(d + '/meta.json', 'w'), indent=1)
    confirm([id])


def confirm(ids):
    for id in ids or sorted(os.listdir(S)):
        d = f'{S}/{id}'
        prop = json.load(open(d + '/meta.json'))['property']
        if sh('git -C /repo status --porcelain').stdout.strip():
            sys.exit('/repo not clean')
        tmp = tempfile.mkdtemp(prefix='seed')
        for f in os.listdir(d):
            if not f.endswith(('.diff', '.patch')) and f != 'meta.json':
                shutil.copy(f'{d}/{f}', tmp)
        r = [sh(f'bash {tmp}/demo.sh', cwd='/repo')]
        a = sh(f'git -C /repo apply {d}/patch.diff')
        try:
            b = sh('bash /opt/vp/build.sh')
            sh('bash /opt/vp/test.sh /tmp/seedtest.json')
            t = json.load(open('/tmp/seedtest.json'))
            base = json.load(open('/opt/vp/BASELINE.json'))
            r.append(sh(f'bash {tmp}/demo.sh', cwd='/repo'))
            c = sh(f'python3 {V}/check.py {prop} --out {tmp}')
        finally:
            sh('git -C /repo checkout -- .')
            shutil.rmtree(tmp)
        ok = str(t).count("pass") 
        nf = [k for k in json.dumps(t).split('"') if False]
        print(id, prop, 'apply', a.returncode, 'build', b.returncode, 'tests', summary(t), 'demo', r[0].returncode, r[1].returncode, 'check', c.returncode, [l.strip()[:160] for l in c.stdout.splitlines() if l.startswith('  ')][:1])
        if r[0].returncode:
            print(r[0].stdout[-500:], r[0].stderr[-1500:])
        if not r[1].returncode:
            print('DEMO DOES NOT FAIL', r[1].stdout[-300:])
        elif 'Error' in r[1].stderr:
            print('   ', r[1].stderr.strip().splitlines()[-1][:200])


def summary(t):
    return {k: (len(v) if isinstance(v, (list, dict)) else v) for k, v in t.items()} if isinstance(t, dict) else str(t)[:100]


def table():
    '''writes the table of DESIGN section 5: each change in a copy of /repo, against the check of its property'''
    from concurrent.futures import ThreadPoolExecutor

    def one(id):
        meta = json.load(open(f'{S}/{id}/meta.json'))
        t = tempfile.mkdtemp(prefix='seedt')
        try:
            sh(f'cp -a /repo {t}/repo')
            sh(f'git -C {t}/repo apply {S}/{id}/patch.diff')
            r = sh(f'python3 {V}/check.py {meta["property"]} --out {t}', env=dict(os.environ, VERIF_REPO=t + '/repo'))
        finally:
            shutil.rmtree(t)
        hits = [l.strip().split(': ')[0] for l in r.stdout.splitlines() if l.startswith('  ')]
        more = f' (+{len(hits) - 1})' if len(hits) > 1 else ''
        by = hits[0] + more if r.returncode == 1 and hits else '**missed**'
        return f'| {id} | {meta["what_it_breaks"]} | {by} |'
    with ThreadPoolExecutor(3) as ex:
        rows = list(ex.map(one, sorted(os.listdir(S))))
    a, b = '<!-- table by seed.py -->', '<!-- end of table -->'
    d = open(V + '/DESIGN.md').read()
    i, j = d.index(a), d.index(b)
    open(V + '/DESIGN.md', 'w').write(d[:i] + a + '\n| change | breaks | caught by (obligation of the property in its name) |\n|---|---|---|\n' + '\n'.join(rows) + '\n' + d[j:])
    print('\n'.join(r for r in rows if 'missed' in r))


if sys.argv[1] == 'table':
    table()
elif sys.argv[1] == 'make':
    make(*sys.argv[2:5])
else:
    confirm(sys.argv[2:])
