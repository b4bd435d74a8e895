#!/usr/bin/env python3
"""applies every seeded bug to /repo in turn, runs the check of its property, undoes it; writes tools/caught.json"""
import json, os, re, subprocess, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
out = V + '/tools/caught.json'
c = json.load(open(out)) if os.path.exists(out) else {}
ids = sys.argv[1:] or sorted(os.listdir(V + '/seeded'))
for d in ids:
    p = '%s/seeded/%s' % (V, d); prop = json.load(open(p + '/meta.json'))['property']
    subprocess.run(['git', '-C', '/repo', 'checkout', '-q', '--', '.'], check=True)
    if subprocess.run(['git', '-C', '/repo', 'apply', p + '/patch.diff']).returncode: print(d, 'does not apply'); continue
    try: r = subprocess.run(['python3', 'check.py', prop, 'quick'], cwd=V, capture_output=True, text=True)
    finally: subprocess.run(['git', '-C', '/repo', 'checkout', '-q', '--', '.'], check=True)
    o = r.stdout
    ev = json.load(open('%s/evidence/%s.json' % (V, prop)))
    failed = ev['coverage']['failed_obligations']; oor = ev['coverage']['out_of_reach_on_this_tree']
    how = []
    if failed: how.append('proof: `%s`' % failed[0].split(':')[0] + (' (+%d)' % (len(failed) - 1) if len(failed) > 1 else ''))
    if oor: how.append('out of reach: ' + ', '.join(oor))
    if re.search(r'VIOLATION.*replay=\S+$', o, re.M): how.append('failing input found')
    if 'no-failing-input-found' in o: how.append('no failing input found')
    c[d] = {'by': prop if r.returncode == 1 else '**missed**', 'how': '; '.join(how)}
    print(d, r.returncode, c[d], flush=True)
    json.dump(c, open(out, 'w'), indent=1, sort_keys=True)
