#!/usr/bin/env python3
"""seeded.py [ID...]: runs each planted bug's check against it, in a scratch copy of /repo.
seeded.py --table: writes the table in DESIGN.md from the results so far (tools/seeded_results.txt)."""
import json, os, shutil, subprocess, sys, tempfile
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
R = V + '/tools/seeded_results.txt'
ids = sorted(os.listdir(V + '/seeded'))
res = dict(l.split() for l in open(R)) if os.path.exists(R) else {}

def meta(id):
    return json.load(open('%s/seeded/%s/meta.json' % (V, id)))

if sys.argv[1:] == ['--table']:
    s = open(V + '/DESIGN.md').read()
    a, b = s.index('<!-- seeded -->'), s.index('<!-- /seeded -->')
    t = '<!-- seeded -->\n| planted bug | check | needs | result |\n|----|----|----|----|\n'
    for id in ids:
        m = meta(id)
        t += '| %s | %s | %s | %s |\n' % (id, m['property'], m['needs'].replace('|', '/'), res.get(id, 'earlier'))
    open(V + '/DESIGN.md', 'w').write(s[:a] + t + s[b:])
    sys.exit()
for id in sys.argv[1:] or ids:
    m = meta(id)
    d = tempfile.mkdtemp(prefix='seeded-')
    try:
        shutil.copytree('/repo', d + '/repo')
        subprocess.run(['git', 'apply', '%s/seeded/%s/patch.diff' % (V, id)], cwd=d + '/repo', check=True)
        r = subprocess.run(['python3', 'check.py', m['property']], cwd=V, env=dict(os.environ, VERIF_REPO=d + '/repo', VERIF_EVIDENCE=d + '/ev'), stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
        res[id] = {1: 'caught', 0: 'missed'}.get(r.returncode, 'no-answer')
        print(id, res[id], r.stdout.strip().splitlines()[0][:200], flush=True)
        if os.environ.get('SHOW'): print(r.stdout[-2500:])
    finally:
        shutil.rmtree(d, ignore_errors=True)
    with open(R, 'w') as f:
        f.writelines('%s %s\n' % x for x in sorted(res.items()) if x[0] in ids)
