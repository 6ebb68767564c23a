#!/usr/bin/env python3
"""tools/seeded.py [id...] [-j N]: apply every seeded change to a scratch copy of /repo, run the quick check of its
property there, print caught / MISSED.  Development aid only; no registered check uses it."""
import json, os, subprocess, sys, tempfile, shutil
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
args = [a for a in sys.argv[1:] if not a.startswith('-')]
prop = next((a[7:] for a in sys.argv if a.startswith('--prop=')), None)
tier = 'thorough' if '--thorough' in sys.argv else 'quick'
for bid in sorted(os.listdir(V + '/seeded')):
    d = f'{V}/seeded/{bid}'
    if args and bid not in args: continue
    meta = json.load(open(d + '/meta.json'))
    t = tempfile.mkdtemp(prefix='seed')
    try:
        subprocess.run(['cp', '-a', '/repo', t + '/r'], check=True)
        subprocess.run(['git', '-C', t + '/r', 'checkout', '-q', '--', '.'], check=True)
        subprocess.run(['git', '-C', t + '/r', 'apply', d + '/patch.diff'], check=True)
        p = prop or meta['property']
        r = subprocess.run(['python3', 'run.py', p, tier], cwd=V, env=dict(os.environ, VP_REPO=t + '/r'),
                           stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
        v = [l for l in r.stdout.splitlines() if l.startswith('VIOLATION')]
        rp = V + '/tools/seeded_results.json'
        res = json.load(open(rp)) if os.path.exists(rp) else {}
        res[bid] = (p + ' ' + tier) if r.returncode == 1 and v else 'missed'
        json.dump(res, open(rp, 'w'), indent=1, sort_keys=True)
        print(bid, p, 'caught' if r.returncode == 1 and v else f'MISSED rc={r.returncode}',
              (v or r.stdout.splitlines()[-3:])[:1], flush=True)
    finally:
        shutil.rmtree(t)
