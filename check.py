#!/usr/bin/env python3
"""check.py ID: decides one property.  See DESIGN.md.

 1. TLC checks the specification itself (the models listed under 'mc').
 2. The library in /repo is copied to a scratch directory (instrumented if the
    property is about schedules), the driver is built against it and run; it
    records traces of what the code does.
 3. TLC validates every trace against the specification.

exit 0: held on everything explored; exit 1 and a VIOLATION line: the code did
something the specification does not allow; any other exit: the check itself failed."""
import concurrent.futures as cf, fcntl, hashlib, json, os, re, resource, shutil, subprocess, sys, tempfile, time

VERIF = os.path.dirname(os.path.abspath(__file__))
EVIDENCE = os.environ.get('VERIF_EVIDENCE', os.path.join(VERIF, 'evidence'))
REPO = os.environ.get('VERIF_REPO', '/repo')
TIER = os.environ.get('VERIF_TIER', 'quick')
SEED = int(os.environ.get('VERIF_SEED', '1') or 1)
JAVA = ['java', '-XX:+UseParallelGC', '-Xss512m', '-cp',
        '/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar']
sys.path.insert(0, VERIF)
from props import PROPS

class Machinery(Exception):
    pass

class NoProgram(Exception):
    """every package compiles, but no program that calls the functions can be linked"""

def log(*a):
    print(*a, flush=True)

def goenv(scratch):
    e = dict(os.environ)
    e.update(GOFLAGS='-mod=mod', GOPROXY='off', GOSUMDB='off', GOTOOLCHAIN='local', GOWORK='off')
    if not os.access(os.path.expanduser('~'), os.W_OK):
        e['GOCACHE'] = os.path.join(scratch, 'gocache')
    return e

def run(cmd, cwd=None, env=None, timeout=None, check=True, **kw):
    r = subprocess.run(cmd, cwd=cwd, env=env, timeout=timeout, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors='replace', **kw)
    if check and r.returncode != 0:
        raise Machinery('%s failed (%d):\n%s' % (' '.join(cmd)[:300], r.returncode, r.stdout[-4000:]))
    return r

# ---------------------------------------------------------------- building

def copy_library(dst):
    """the non-test sources of the library, and what is built with it"""
    for d, ds, fs in os.walk(REPO):
        ds[:] = [x for x in ds if x not in ('.git', 'testdata', 'vendor')]
        rel = os.path.relpath(d, REPO)
        for f in fs:
            if (f.endswith('.go') and not f.endswith('_test.go')) or f.endswith('.s'):
                os.makedirs(os.path.join(dst, rel), exist_ok=True)
                shutil.copy(os.path.join(d, f), os.path.join(dst, rel, f))
    gomod = open(os.path.join(REPO, 'go.mod')).read()
    m = re.search(r'^go\s+\S+', gomod, re.M)
    mod = re.search(r'^module\s+(\S+)', gomod, re.M).group(1)
    open(os.path.join(dst, 'go.mod'), 'w').write('module %s\n\n%s\n' % (mod, m.group(0) if m else 'go 1.20'))
    shutil.copytree(os.path.join(VERIF, 'harness', 'zverif'), os.path.join(dst, 'zverif'))

def build(p, scratch):
    """returns the driver's path and whether the library is instrumented"""
    env = goenv(scratch)
    lib = os.path.join(scratch, 'gosb')
    copy_library(lib)
    shutil.copytree(os.path.join(VERIF, 'harness', 'h'), os.path.join(scratch, 'h'))
    out = os.path.join(scratch, 'driver')
    instrumented = False
    if p.get('instr'):
        plain = os.path.join(scratch, 'plain')
        shutil.copytree(lib, plain)
        tool = os.path.join(scratch, 'instr')
        run(['go', 'build', '-o', tool, 'main.go', 'race.go'], cwd=os.path.join(VERIF, 'tools', 'instr'), env=env, timeout=300)
        ienv = dict(env, CGO_ENABLED='0')
        r = run([tool] + (['-race'] if p.get('race') else []) + p['instr'], cwd=lib, env=ienv, timeout=120, check=False)
        if r.returncode == 0:
            r = go_build(p, scratch, out, env)
        if r.returncode == 0:
            return out, True
        if p.get('race'):
            log('note: the library instrumented for memory accesses does not build, going on without:\n' + r.stdout[-2000:])
            return None, False
        log('note: the instrumented library does not build, going on without controlled schedules:\n' + r.stdout[-2000:])
        shutil.rmtree(lib)
        os.rename(plain, lib)
        os.environ['VERIF_FREE'] = '1'
    r = go_build(p, scratch, out, env)
    if r.returncode:
        dead = re.search(r'relocation target \S+ not defined', r.stdout)
        if dead and p.get('linked'):
            raise NoProgram(r.stdout[-3000:])
        raise Machinery('the driver does not build:\n' + r.stdout[-3000:])
    return out, instrumented

def go_build(p, scratch, out, env):
    # (with fixedrand: in case the functions of fastrand are no variables that the driver could set)
    for tags in ('', 'fixedrand'):
        r = run(['go', 'build', '-tags', tags, '-o', out, './cmd/' + p['driver']], cwd=os.path.join(scratch, 'h'), env=env, timeout=600, check=False)
        if r.returncode == 0:
            break
    return r

# ---------------------------------------------------------------- driving

NOBODY = 65534

def limits():
    # the code under test runs as nobody: it can change nothing but the scratch files it is given
    if os.getuid() == 0:
        try:
            os.setgroups([]); os.setgid(NOBODY); os.setuid(NOBODY)
        except OSError:
            pass
    resource.setrlimit(resource.RLIMIT_AS, (12 << 30, 12 << 30))
    resource.setrlimit(resource.RLIMIT_CORE, (0, 0))

def drive_shard(driver, p, pid, scratch, shard, shards, script):
    out = os.path.join(scratch, 'out-%d' % shard)
    work = os.path.join(scratch, 'work-%d' % shard)
    os.makedirs(work, exist_ok=True)
    journal = os.path.join(scratch, 'journal-%d' % shard)
    for f in (out, journal): open(f, 'w').close()
    if os.getuid() == 0:
        for f in (out, journal, work): os.chown(f, NOBODY, NOBODY)
    env = goenv(scratch)
    env.update(VERIF_OUT=out, VERIF_PROP=p.get('as_', pid), VERIF_SHARD=str(shard), VERIF_SHARDS=str(shards), VERIF_TIER=TIER,
               VERIF_SEED=str(SEED), VERIF_WORK=work, GOMAXPROCS=str(p.get('procs', 2)), GOMEMLIMIT='3GiB', TMPDIR=work, HOME=work)
    if script:
        env['VERIF_SCRIPT'] = script
    if p.get('race'):
        env['VERIF_RACE'] = '1'
    limit = 600 if TIER == 'quick' else 3600
    def go(extra):
        e = dict(env); e.update(extra)
        try:
            return run([driver], cwd=work, env=e, timeout=limit, check=False, preexec_fn=limits)
        except subprocess.TimeoutExpired:
            return None
    r = go({})
    def read():
        traces, stats = [], None
        try:
            for line in open(out):
                try:
                    j = json.loads(line)
                except ValueError:
                    continue
                if 'stats' in j: stats = j['stats']
                else: traces.append(j)
        except FileNotFoundError:
            pass
        return traces, stats
    traces, stats = read()
    if stats is None:
        # the process died: a crash that Go cannot recover from (or the driver's own fault). Find where.
        first = r.stdout[-3000:] if r else 'time limit'
        r2 = go({'VERIF_JOURNAL': journal})
        traces, stats = read()
        if stats is None:
            lines = open(journal).read().splitlines() if os.path.exists(journal) else []
            if r2 is None or len(lines) < 1 or 'verif-driver:' in (r2.stdout or ''):
                raise Machinery('driver died: ' + first)
            cfg = json.loads(lines[0])
            ev, last = [], None
            for x in lines[1:]:
                if x.startswith('+'):
                    ev.append(json.loads(x[1:])); last = None
                else:
                    last = json.loads(x)
            if last is None:
                raise Machinery('driver died outside the code under test: ' + first)
            last.update(p=2, res=0)
            if last.get('k') == 'run':
                last = {'k': 'end', 't': 0, 'stuck': 1}
            ev.append(last)
            traces.append({'cfg': cfg, 'ev': ev, 'died': r2.stdout[-1500:]})
            stats = {'died': 1}
    return traces, stats

# ---------------------------------------------------------------- TLC

def tlc(mod_dir, module, cfg_text, scratch, name, env_extra=None, workers=1, timeout=900, args=(), heap='3g'):
    d = os.path.join(scratch, name)
    os.makedirs(d, exist_ok=True)
    for f in os.listdir(os.path.join(VERIF, 'specs')):
        if f.endswith('.tla'):
            shutil.copy(os.path.join(VERIF, 'specs', f), d)
    if mod_dir:
        for f, t in mod_dir.items():
            open(os.path.join(d, f), 'w').write(t)
    open(os.path.join(d, 'x.cfg'), 'w').write(cfg_text)
    env = dict(os.environ); env.update(env_extra or {})
    cmd = JAVA[:1] + ['-Xmx' + heap] + JAVA[1:] + ['tlc2.TLC', '-workers', str(workers), '-metadir', os.path.join(d, 'st'), '-config', 'x.cfg', '-noGenerateSpecTE'] + list(args) + [module]
    try:
        r = run(cmd, cwd=d, env=env, timeout=timeout, check=False)
    except subprocess.TimeoutExpired:
        raise Machinery('TLC timed out on %s' % module)
    shutil.rmtree(os.path.join(d, 'st'), ignore_errors=True)
    m = re.findall(r'^(\d+) states generated, (\d+) distinct states found, (\d+) states left', r.stdout, re.M)
    gen, dist, left = (int(x) for x in m[-1]) if m else (0, 0, -1)
    return r, gen, dist

def trace_module(p):
    t = p['trace']
    base = t.get('base', 'TraceBase')
    if base == t['spec']:
        return base, '', None
    name = 'Tr_' + t['spec'] + '_' + base
    text = '---- MODULE %s ----\nEXTENDS %s, %s\n====\n' % (name, t['spec'], base)
    consts = 'CONSTANTS\n  TInit <- %s\n  TPost <- %s\n' % (t.get('init', 'SInit'), t.get('post', 'SPost'))
    return name, consts, {name + '.tla': text}

def validate_batch(p, traces, scratch, name, diag=False):
    mod, consts, files = trace_module(p)
    f = os.path.join(scratch, name + '.json')
    json.dump([{'cfg': t['cfg'], 'ev': t['ev']} for t in traces], open(f, 'w'))
    env = {'TRACE': f}
    if diag: env['DIAG'] = '1'
    cfg = 'INIT TraceInit\nNEXT TraceNext\nCHECK_DEADLOCK FALSE\n' + consts
    r, gen, dist = tlc(files, mod, cfg, scratch, 'tlc-' + name, env, timeout=840 if TIER == 'quick' else 7200)
    acc = set(int(x) for x in re.findall(r'<<"ACCEPTED", (\d+)>>', r.stdout))
    done = 'Model checking completed. No error has been found.' in r.stdout or 'Finished in' in r.stdout and 'Error:' not in r.stdout
    if not diag: os.unlink(f)
    if 'Parsing or semantic analysis failed' in r.stdout: raise Machinery('the specification does not parse:\n' + r.stdout[-3000:])
    return acc, done, gen, dist, r.stdout

def short(out):
    i = out.find('Error:')
    return out[i:i + 3000] if i >= 0 else out[-3000:]

def validate(p, traces, scratch):
    """returns the indexes of the traces rejected, and the numbers of states"""
    n = len(traces)
    size = sum(len(t['ev']) for t in traces)
    nb = max(1, min(8, size // 1500 + 1, n))
    per = p['trace'].get('batch', 4000)
    batches = [list(range(i, n, nb)) for i in range(nb)]
    batches = [b[i:i + per] for b in batches for i in range(0, len(b), per)]
    rejected, gen, dist = [], 0, 0
    def one(k):
        b = batches[k]
        acc, done, g, d, out = validate_batch(p, [traces[i] for i in b], scratch, 'b%d' % k)
        if done:
            return [i for j, i in enumerate(b) if j + 1 not in acc], g, d
        # TLC stopped at an error in evaluating the specification on some trace: find it by halving
        rej, todo, budget = [], [b], 60
        errs = 0
        while todo:
            c = todo.pop()
            budget -= 1
            if budget < 0: raise Machinery('TLC fails on the traces:\n' + short(out))
            acc, done, g1, d1, out1 = validate_batch(p, [traces[i] for i in c], scratch, 'b%d-%d' % (k, budget))
            g += g1; d += d1
            if done:
                rej += [i for j, i in enumerate(c) if j + 1 not in acc]
            elif len(c) == 1:
                if re.search('StackOverflow|OutOfMemory|out of memory|Java heap', out1): raise Machinery('TLC ran out of memory on a trace:\n' + short(out1))
                traces[c[0]]['tlc'] = short(out1)
                rej += c
                errs += 1
                if errs >= 3: break
            else:
                todo += [c[:len(c) // 2], c[len(c) // 2:]]
        return rej, g, d
    with cf.ThreadPoolExecutor(8) as ex:
        for r, g, d in ex.map(one, range(len(batches))):
            rejected += r; gen += g; dist += d
    return sorted(rejected), gen, dist

# ---------------------------------------------------------------- main

def constants(consts):
    if not consts: return ''
    return 'CONSTANTS\n' + ''.join('  %s %s %s\n' % (k, '<-' if isinstance(v, str) and v.startswith('<-') else '=', v[2:] if isinstance(v, str) and v.startswith('<-') else v) for k, v in consts.items())

def model_check(p, scratch):
    tot = [0, 0]
    reports = []
    jobs = [] if os.environ.get('VERIF_NOMC') else p.get('mc', [])
    def one(i):
        m = jobs[i]
        consts = dict(m.get('consts', {}))
        if TIER == 'thorough': consts.update(m.get('thorough', {}))
        cfg = m.get('cfg', 'INIT Init\nNEXT Next\nCHECK_DEADLOCK FALSE\n')
        cfg += ''.join('INVARIANT %s\n' % x for x in m.get('inv', []))
        cfg += ''.join('PROPERTY %s\n' % x for x in m.get('prop', []))
        cfg += constants(consts)
        r, gen, dist = tlc(None, m['module'], cfg, scratch, 'mc%d' % i, workers=m.get('workers', 4), timeout=700 if TIER == 'quick' else 7200, heap='6g')
        if 'Model checking completed. No error has been found.' not in r.stdout:
            raise Machinery('the specification %s fails its own check:\n%s' % (m['module'], short(r.stdout)))
        return {'module': m['module'], 'consts': {k: str(v) for k, v in consts.items()}, 'invariants': m.get('inv', []), 'properties': m.get('prop', []), 'states': dist, 'transitions': gen}
    if jobs:
        with cf.ThreadPoolExecutor(3) as ex:
            for rep in ex.map(one, range(len(jobs))):
                reports.append(rep); tot[0] += rep['states']; tot[1] += rep['transitions']
    return tot, reports

def scripts(p, scratch):
    """behaviours generated by TLC from the specification, for the driver to replay"""
    g = p.get('gen')
    if not g: return None, 0
    out = []
    def one(i):
        m = g[i]
        consts = dict(m.get('consts', {}))
        if TIER == 'thorough': consts.update(m.get('thorough', {}))
        # either all behaviours that the configuration asks for, found by breadth-first search, or random ones
        args = []
        cfg = 'INIT Init\nNEXT Next\nCHECK_DEADLOCK FALSE\n' + m.get('cfg', 'CONSTRAINT Emit\n')
        if 'num' in m:
            args = ['-simulate', 'num=%d' % (m['num'] * (1 if TIER == 'quick' else 8)), '-depth', str(m['depth'] + 2), '-seed', str(SEED)]
        cfg += constants(consts)
        r, _, _ = tlc(None, m['module'], cfg, scratch, 'gen%d' % i, args=args, timeout=600)
        res = []
        for x in re.findall(r'^<<"SCRIPT", "(.*)">>$', r.stdout, re.M):
            res.append(json.loads(json.loads('"' + x + '"')))
        if not res: raise Machinery('no behaviours generated from %s:\n%s' % (m['module'], short(r.stdout)))
        return res
    with cf.ThreadPoolExecutor(3) as ex:
        for r in ex.map(one, range(len(g))): out += r
    f = os.path.join(scratch, 'script.json')
    json.dump(out, open(f, 'w'))
    return f, len(out)

def known(pid):
    res = []
    f = os.path.join(VERIF, 'known_findings.txt')
    if os.path.exists(f):
        for line in open(f):
            m = re.match(r'finding: property=(\S+) match=(\S+) (.*)', line)
            if m and m.group(1) == pid:
                res.append((m.group(2), m.group(3).strip()))
    return res

def signature(t, at):
    """identifies a failing history: its configuration and events up to the first not allowed"""
    return hashlib.sha256(json.dumps([t['cfg'], t['ev'][:at]], sort_keys=True).encode()).hexdigest()[:16]

def where(p, t, scratch, i):
    acc, done, _, _, out = validate_batch(p, [t], scratch, 'diag%d' % i, diag=True)
    ats = [int(x) for x in re.findall(r'<<"AT", 1, (\d+)>>', out)]
    states = [re.sub(r'\s+', ' ', x)[:1000] for x in re.findall(r'<<\s*"STATE",\s(.*?)\s*>>\n(?=<<|\S)', out, re.S)]
    return (max(ats) + 1 if ats else 1), states[-3:], (not done) or (1 in acc), out

def main():
    pid = sys.argv[1]
    p = PROPS[pid]
    t0 = time.time()
    scratch = tempfile.mkdtemp(prefix='verif-%s-' % pid)
    os.chmod(scratch, 0o755)
    try:
        return check(pid, p, scratch, t0)
    except NoProgram as e:
        replay = os.path.join(EVIDENCE, 'replay', '%s.json' % pid)
        os.makedirs(os.path.dirname(replay), exist_ok=True)
        json.dump({'property': pid, 'seed': SEED, 'tier': TIER, 'a program that calls the functions does not link': str(e)}, open(replay, 'w'), indent=1)
        json.dump({'property': pid, 'tier': TIER, 'seed': SEED, 'level': p.get('level', 'model_checking'), 'coverage': {'states': 0, 'transitions': 0, 'traces_validated_against_impl': 0, 'samples': [str(e)[-500:]]},
                   'assumptions': p.get('assumptions', []), 'wall_s': round(time.time() - t0, 2), 'violations': 1}, open(os.path.join(EVIDENCE, pid + '.json'), 'w'), indent=1)
        log(str(e))
        log('VIOLATION property=%s replay=%s' % (pid, replay))
        return 1
    finally:
        if os.environ.get('VERIF_KEEP'): log('kept', scratch)
        else: shutil.rmtree(scratch, ignore_errors=True)

def explore(pid, p, scratch):
    """drives the code and validates what it did; returns None if that cannot be done for an additional job"""
    shards = p.get('shards', 8)
    ta = time.time()
    script, nscripts = scripts(p, scratch)
    driver, instrumented = build(p, scratch)
    if driver is None: return None
    tb = time.time()
    traces, stats = [], {}
    with cf.ThreadPoolExecutor(shards) as ex2:
        for tr, st in ex2.map(lambda s: drive_shard(driver, p, pid, scratch, s, shards, script), range(shards)):
            traces += tr
            for k, v in (st or {}).items(): stats[k] = stats.get(k, 0) + v
    td = time.time()
    seen, uniq = set(), []
    for t in traces:
        h = hashlib.sha256(json.dumps([t['cfg'], t['ev']]).encode()).digest()
        if h not in seen:
            seen.add(h); uniq.append(t)
    if not uniq: raise Machinery('no traces')
    rejected, gen, dist = validate(p, uniq, scratch)
    tv = time.time()
    log('%s%s: %d traces (%d distinct, %d events), %d states; build %.1fs drive %.1fs validate %.1fs' % (
        pid, ' ' + p['trace']['spec'], stats.get('traces', 0), len(uniq), sum(len(t['ev']) for t in uniq), dist, tb - ta, td - tb, tv - td))
    return dict(p=p, uniq=uniq, rejected=rejected, gen=gen, dist=dist, stats=stats, instrumented=instrumented, nscripts=nscripts, scratch=scratch)

def check(pid, p, scratch, t0):
    jobs = []
    with cf.ThreadPoolExecutor(1) as ex:
        mcf = ex.submit(model_check, p, scratch)
        for k, q in enumerate([p] + p.get('also', [])):
            d = os.path.join(scratch, 'job%d' % k)
            os.makedirs(d)
            os.chmod(d, 0o755)
            os.environ.pop('VERIF_FREE', None)
            j = explore(pid, q, d)
            if j: jobs.append(j)
        (mcs, mct), reports = mcf.result()
    uniq = [t for j in jobs for t in j['uniq']]
    rejected = [(j, i) for j in jobs for i in j['rejected']]
    gen, dist = sum(j['gen'] for j in jobs), sum(j['dist'] for j in jobs)
    stats = {}
    for j in jobs:
        for k, v in j['stats'].items(): stats[k] = stats.get(k, 0) + v
    instrumented, nscripts = any(j['instrumented'] for j in jobs), sum(j['nscripts'] for j in jobs)
    specs = [{'spec': j['p']['trace']['spec'], 'traces': len(j['uniq']), 'states': j['dist']} for j in jobs]
    log('%s: model: %d states; all %.1fs' % (pid, mcs, time.time() - t0))
    violations = []
    kf = known(pid)
    for k, (j, i) in enumerate(rejected[:20]):
        t = j['uniq'][i]
        at, states, bad, out = where(j['p'], t, j['scratch'], k)
        sig = signature(t, at)
        hit = [d for m, d in kf if m == sig]
        if hit:
            log('KNOWN-FINDING: property=%s %s' % (pid, hit[0])); continue
        violations.append((t, at, states, sig))
    replay = None
    if violations:
        os.makedirs(os.path.join(EVIDENCE, 'replay'), exist_ok=True)
        replay = os.path.join(EVIDENCE, 'replay', '%s.json' % pid)
        v = []
        for t, at, states, sig in violations:
            v.append({'signature': sig, 'first event not allowed': at, 'event': t['ev'][at - 1] if at <= len(t['ev']) else None, 'cfg': t['cfg'], 'events': t['ev'], 'specification states before': states, 'died': t.get('died', ''), 'tlc': t.get('tlc', '')})
        v.sort(key=lambda x: len(x['events']))
        json.dump({'property': pid, 'seed': SEED, 'tier': TIER, 'rejected traces': len(rejected), 'traces': v}, open(replay, 'w'), indent=1)
        log('the specification does not allow event %d of: %s' % (v[0]['first event not allowed'], json.dumps({'cfg': v[0]['cfg'], 'events': v[0]['events'][:v[0]['first event not allowed']][-12:]})[:3000]))
    sm = sorted(uniq, key=lambda t: len(t['ev']))
    samples = [sm[len(sm) // 2], sm[-1]] if len(sm) > 1 else sm
    samples = [{'cfg': s['cfg'], 'ev': s['ev'][:12]} for s in samples]
    cov = {'states': mcs + dist, 'transitions': mct + gen, 'traces_validated_against_impl': len(uniq) - len(rejected),
           'traces_recorded': stats.get('traces', 0), 'events_recorded': stats.get('ops', 0),
           'model_states': mcs, 'trace_states': dist, 'models': reports, 'behaviours_generated_by_tlc': nscripts,
           'controlled_schedules': bool(instrumented), 'driver_stats': stats, 'samples': samples, 'trace_specifications': specs}
    ev = {'property': pid, 'tier': TIER, 'seed': SEED, 'level': p.get('level', 'model_checking'), 'coverage': cov,
          'assumptions': p.get('assumptions', []), 'wall_s': round(time.time() - t0, 2), 'violations': len(violations)}
    os.makedirs(EVIDENCE, exist_ok=True)
    json.dump(ev, open(os.path.join(EVIDENCE, pid + '.json'), 'w'), indent=1)
    if violations:
        log('VIOLATION property=%s replay=%s' % (pid, replay))
        return 1
    return 0

if __name__ == '__main__':
    try:
        sys.exit(main())
    except Machinery as e:
        print('check failed: %s' % e, flush=True)
        sys.exit(2)
