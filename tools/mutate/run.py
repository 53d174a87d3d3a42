#!/usr/bin/env python3
"""run.py OUT [--every N] [--par N] FILE...: runs the checks against small changes of files of /repo
(in scratch copies) and writes which are caught.  A change that does not build is left out; of the
others it is noted whether the repository's own tests notice it.  FILE:a-b limits the lines."""
import concurrent.futures as cf, json, os, random, shutil, subprocess, sys, tempfile
VERIF = os.path.dirname(os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
MAP = {
 'gogenerics/gconcurrent/sync/map.go': 'C02 C01 C03', 'gogenerics/gconcurrent/mr/mr.go': 'C04 C07 C05 C06 C08', 'gogenerics/gconstraints/errors.go': 'C09',
 'gogenerics/gcontainers/gheap/heap.go': 'C28', 'gogenerics/gcontainers/glist/list.go': 'C29', 'gogenerics/gcontainers/gmap/map.go': 'C33', 'gogenerics/gcontainers/gpool/syncpool.go': 'C32',
 'gogenerics/gcontainers/gqueue/fifo.go': 'C31', 'gogenerics/gcontainers/gring/ring.go': 'C30', 'gogenerics/gcontainers/gset/set.go': 'C33', 'gogenerics/gcontainers/gslice/slice.go': 'C34',
 'gogenerics/gds/grbt/rbt.go': 'C23 C24 C25', 'gogenerics/gds/gskiplist/skiplist.go': 'C26 C27', 'gogenerics/gnumerics/math.go': 'C35', 'hack/fastrand/fastrand.go': 'C36', 'hack/unsafex/str20.go': 'C45',
 'library/bitset/bitset.go': 'C20 C21 C22', 'library/cachex/cache.go': 'C13 C14 C15', 'library/cachex/file.go': 'C16 C19 C18 C17', 'library/cachex/lrucache.go': 'C10 C11 C12',
 'library/cryptox/cryptox.go': 'C37 C38 C44', 'library/password/password.go': 'C39', 'library/stringx/stringx.go': 'C42 C43 C41 C40', 'gogenerics/gconstraints/func.go': 'C34', 'gogenerics/gconstraints/type.go': 'C35'}
args = sys.argv[1:]
out = args.pop(0)
every, par = 1, 3
files = []
while args:
    a = args.pop(0)
    if a == '--every': every = int(args.pop(0))
    elif a == '--par': par = int(args.pop(0))
    else: files.append(a)
base = tempfile.mkdtemp(prefix='mut-')
tool = os.path.join(base, 'mutate')
env = dict(os.environ, GOFLAGS='-mod=mod', GOPROXY='off', GOTOOLCHAIN='local')
subprocess.run(['go', 'build', '-o', tool, 'main.go'], cwd=os.path.join(VERIF, 'tools', 'mutate'), env=env, check=True)
jobs = []
for f in files:
    f, _, span = f.partition(':')
    lo, hi = (int(x) for x in span.split('-')) if span else (0, 10**9)
    ms = [json.loads(l) for l in subprocess.run([tool, os.path.join('/repo', f)], stdout=subprocess.PIPE, text=True, check=True).stdout.splitlines()]
    ms = [m for m in ms if lo <= m['line'] <= hi]
    for i, m in enumerate(ms):
        if i % every == 0: jobs.append((f, m))
print(len(jobs), 'changes', flush=True)
def one(j):
    f, m = j
    d = tempfile.mkdtemp(prefix='m-', dir=base)
    repo = os.path.join(d, 'repo')
    try:
        shutil.copytree('/repo', repo, ignore=shutil.ignore_patterns('.git'))
        open(os.path.join(repo, f), 'w').write(m['text'])
        pkg = './' + os.path.dirname(f)
        r = subprocess.run(['go', 'vet', pkg], cwd=repo, env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
        # what deletes files is not run here: the checks run it as another user
        risky = ['-run', 'NONE'] if 'cachex' in f else []
        r = subprocess.run(['go', 'test', '-count=1', '-timeout', '60s'] + risky + [pkg], cwd=repo, env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
        if '[build failed]' in r.stdout or '[setup failed]' in r.stdout: return None
        tests = r.returncode == 0
        log = []
        for c in MAP[f].split():
            e = dict(os.environ, VERIF_NOMC='1', VERIF_REPO=repo, VERIF_EVIDENCE=os.path.join(d, 'ev'))
            r = subprocess.run(['python3', 'check.py', c], cwd=VERIF, env=e, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
            log.append((c, r.returncode))
            if r.returncode == 1: return f, m, tests, c, log, ''
            if r.returncode != 0: return f, m, tests, 'BROKEN', log, r.stdout[-1500:]
        return f, m, tests, None, log, ''
    finally:
        shutil.rmtree(d, ignore_errors=True)
n = {}
with open(out, 'a') as o, cf.ThreadPoolExecutor(par) as ex:
    for r in ex.map(one, jobs):
        if r is None:
            n['nobuild'] = n.get('nobuild', 0) + 1; continue
        f, m, tests, c, log, t = r
        k = 'caught' if c and c != 'BROKEN' else 'broken' if c else 'survived' if tests else 'survived(tests fail)'
        n[k] = n.get(k, 0) + 1
        o.write('%s %s:%d %s [%s]%s\n' % (k, f, m['line'], m['what'].replace('\n', ' '), ' '.join('%s=%d' % x for x in log), (' ' + t.replace('\n', ' | ')) if t else '')); o.flush()
    o.write('# %s %s\n' % (files, n))
print(n)
shutil.rmtree(base, ignore_errors=True)
