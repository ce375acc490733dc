#!/usr/bin/env python3
"""python3 check.py Cxx [--tier quick|thorough] [--only SUBSTRING]: decides one property on /repo's current source."""
import sys, os, json, time, importlib
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
os.environ.setdefault('PYTHONHASHSEED', '0')


def known():
    out = []
    try:
        for l in open(os.path.join(HERE, 'known-findings.txt')):
            l = l.strip()
            if l.startswith('finding:'):
                k = dict(x.split('=', 1) for x in l.split('::')[0].split()[1:])
                k['text'] = l.split('::', 1)[1].strip()
                out.append(k)
    except FileNotFoundError:
        pass
    return out


def main():
    prop = sys.argv[1]
    tier = sys.argv[sys.argv.index('--tier') + 1] if '--tier' in sys.argv else 'quick'
    only = sys.argv[sys.argv.index('--only') + 1] if '--only' in sys.argv else None
    os.environ['VERIF_TIER'] = tier
    t = time.time()
    from analyser import harness
    try:
        mod = importlib.import_module('checks.' + prop.lower())
    except Exception as e:
        print('check cannot be loaded:', e)
        sys.exit(2)
    obs = [o for o in mod.obligations(tier) if (tier == 'thorough' or o.tier == 'quick') and (not only or only in o.name)]
    res = harness.run_all(obs, limit=90 if tier == 'quick' else 400)
    kf = [k for k in known() if k.get('property') == prop]
    viol, kn = [], []
    for o, r in zip(obs, res):
        if r['status'] == 'violation':
            k = next((k for k in kf if k['id'] == r['name'].replace(' ', '_')), None)
            (kn if k else viol).append((r, k))
            if k:
                r['status'] = 'known'
    cnt = {}
    for r in res:
        cnt[r['status']] = cnt.get(r['status'], 0) + 1
    meth = {}
    for r in res:
        if r['status'] == 'ok':
            for m in (r['detail'] or {}).get('methods', ['rule']):
                m = m.split(' (')[0]
                meth[m] = meth.get(m, 0) + 1
    ev = dict(property=prop, tier=tier, seed=int(os.environ.get('VERIF_SEED', '1')), level=getattr(mod, 'LEVEL', 'other'),
              coverage=dict(explanation=mod.RULE, obligations=len(res), decided=cnt.get('ok', 0) + cnt.get('violation', 0) + cnt.get('known', 0), held=cnt.get('ok', 0),
                            undecided=cnt.get('undecided', 0), deciding_methods=meth, source_digest=harness.project().digest(),
                            functions=sorted({f for r in res if r['status'] == 'ok' for f in (r['detail'] or {}).get('functions', [])}),
                            items=[dict(name=r['name'], status=r['status'], wall=r['wall'], detail=(r['detail'] if r['status'] != 'ok' else {k: v for k, v in (r['detail'] or {}).items() if k != 'functions'})) for r in res]),
              wall_s=round(time.time() - t, 2))
    out = sys.argv[sys.argv.index('--out') + 1] if '--out' in sys.argv else os.path.join(HERE, 'evidence')
    os.makedirs(out, exist_ok=True)
    path = os.path.join(out, prop + '.json')
    json.dump(ev, open(path, 'w'), indent=1, default=str)
    for r in res:
        if r['status'] == 'undecided':
            print('undecided', r['name'], '-', str(r['detail'])[:300])
        elif '-v' in sys.argv and r['status'] == 'ok':
            print(r['status'], r['name'], r['wall'], (r['detail'] or {}).get('methods', ''))
    for r, k in kn:
        print(f"KNOWN-FINDING: property={prop} {k['text']}")
    print(f"{prop}: {len(res)} obligations, {cnt.get('ok', 0)} hold, {len(viol)} violated, {len(kn)} known, {cnt.get('undecided', 0)} undecided, {ev['wall_s']} s; {meth}")
    if viol:
        rp = os.path.join(out, prop + '-violation.json')
        json.dump([r for r, _ in viol], open(rp, 'w'), indent=1, default=str)
        for r, _ in viol:
            d = r['detail']
            print(f"  {r['name']}: {d['construct']}: {d['what']}")
        print(f'VIOLATION property={prop} replay={rp}')
        sys.exit(1)
    sys.exit(0)


if __name__ == '__main__':
    main()
