#!/usr/bin/env python3
"""development aid: applies small source edits to a scratch copy of the package and runs checks on it.
selftest/edits/*.txt hold edits:   ### <property>[,<property>] bug|same <file>  then old text, a line '===', new text.
usage: mut.py [--only SUBSTR] [--props C01,C02] files..."""
import sys, os, re, glob, shutil, subprocess, tempfile, concurrent.futures as cf
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


def edits(path):
    out = []
    for blk in re.split(r'^### ', open(path).read(), flags=re.M)[1:]:
        head, body = blk.split('\n', 1)
        props, kind, file = head.split()[:3]
        pairs = []
        for part in re.split(r'^\+\+\+\n', body, flags=re.M):
            old, new = re.split(r'^===\n', part, flags=re.M)
            pairs.append((old.rstrip('\n'), new.rstrip('\n')))
        out.append((props.split(','), kind, file, pairs, head))
    return out


def run(e, props, n):
    ps, kind, file, pairs, head = e
    d = tempfile.mkdtemp(prefix='mut')
    try:
        shutil.copytree('/repo/src/craterstats', d + '/src/craterstats', ignore=shutil.ignore_patterns('__pycache__', 'tests', 'sample'))
        f = f'{d}/src/craterstats/{file}'
        s = open(f).read()
        for old, new in pairs:
            if s.count(old) != 1:
                return head, 'BAD EDIT (%d matches) %r' % (s.count(old), old[:60])
            s = s.replace(old, new)
        try:
            compile(s, f, 'exec')
        except SyntaxError as x:
            return head, f'BAD EDIT {x}'
        open(f, 'w').write(s)
        res = []
        for p in (props or ps):
            if not os.path.exists(f'{V}/checks/{p.lower()}.py'):
                continue
            r = subprocess.run([sys.executable, V + '/check.py', p, '--out', d], env=dict(os.environ, VERIF_REPO=d), capture_output=True, text=True)
            v = [l.strip() for l in r.stdout.splitlines() if l.startswith('  ')]
            u = [l for l in r.stdout.splitlines() if l.startswith('undecided')]
            res.append((p, r.returncode, v, u, r.stderr[-300:] if r.returncode not in (0, 1) else ''))
        caught = [x for x in res if x[1] == 1]
        if kind == 'bug':
            t = 'caught by ' + ', '.join(f'{p} ({v[0][:110]})' for p, _, v, _, _ in caught) if caught else 'MISSED ' + str([(p, rc, len(u), u[0][:150] if u else '', e) for p, rc, v, u, e in res])
        else:
            t = 'FALSE ALARM ' + str([(p, v[:3]) for p, _, v, _, _ in caught]) if caught else 'quiet' + ''.join(f'; {p} {len(u)} undecided: {u[0][:200]}' for p, _, _, u, _ in res if u)
        return head, t
    finally:
        shutil.rmtree(d)


def main():
    a = sys.argv[1:]
    only = a.pop(a.index('--only') + 1) if '--only' in a else None
    props = a.pop(a.index('--props') + 1).split(',') if '--props' in a else None
    files = [x for x in a if not x.startswith('--')] or sorted(glob.glob(V + '/selftest/edits/*.txt'))
    es = [e for f in files for e in edits(f) if not only or only in e[4] or any(only in o + n for o, n in e[3])]
    with cf.ThreadPoolExecutor(4) as ex:
        for i, (h, t) in enumerate(ex.map(lambda e: run(e, props, 0), es)):
            print(f'[{h}] {es[i][3][0][0].strip()[:60]!r}: {t}', flush=True)


main()
