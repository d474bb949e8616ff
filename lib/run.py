"""Generic check runner: build from /repo, run sharded drivers, judge, write evidence."""
import argparse, hashlib, json, os, re, shutil, signal, subprocess, sys, tempfile, threading, time
from concurrent.futures import ThreadPoolExecutor
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import build as B

VERIF = B.VERIF
EVID = os.environ.get('DPV_EVIDENCE', os.path.join(VERIF, 'evidence'))

class Inconclusive(Exception):
    pass

def driver_env(extra=None):
    e = dict(os.environ)
    e.setdefault('DPV_REPO', B.REPO)
    e['DIFFPYRUNTIME'] = os.path.join(B.REPO, 'src/runtime')
    e['ASAN_OPTIONS'] = 'abort_on_error=0:exitcode=99:detect_leaks=1:allocator_may_return_null=1:detect_stack_use_after_return=1:strict_string_checks=1'
    e['UBSAN_OPTIONS'] = 'print_stacktrace=1:exitcode=99'
    e['LSAN_OPTIONS'] = 'exitcode=99'
    e['MALLOC_PERTURB_'] = '165'
    e.update(extra or {})
    return e

def load_known():
    p = os.path.join(VERIF, 'known_findings.json')
    if not os.path.exists(p):
        return []
    return json.load(open(p))['findings']

class Group:
    """one driver executable over a range of cases"""
    def __init__(self, driver, count, args=(), variant='plain', budget=None, casetimeout=120,
                 wrap=(), env=None, shards=None, first=0, label=None):
        self.driver, self.count, self.args, self.variant = driver, count, list(args), variant
        self.budget, self.casetimeout, self.wrap = budget, casetimeout, list(wrap)
        self.env, self.shards, self.first = env or {}, shards, first
        self.label = label or driver

class Result:
    def __init__(self):
        self.counters, self.hashes, self.samples, self.fails = {}, set(), [], []
        self.cases, self.extra_distinct = 0, 0
        self.notes = []
        self.lock = threading.Lock()
    def add_count(self, k, v):
        if k.startswith('max:'):
            self.counters[k] = max(self.counters.get(k, v), v)
        elif k.startswith('min:'):
            self.counters[k] = min(self.counters.get(k, v), v)
        else:
            self.counters[k] = self.counters.get(k, 0) + v

def run_range(exe, g, prop, seed, tier, shard, nshards, first, count, tmp, res, deadline, casesel=None):
    """run one shard, restarting after a case that kills the process"""
    start = first
    restarts = 0
    end = first + count
    while start < end:
        prog = os.path.join(tmp, 'prog-%s-%d-%d' % (g.label, shard, start))
        out = prog + '.out'; err = prog + '.err'
        cmd = g.wrap + [exe] + g.args + [
            '--prop', prop, '--seed', str(seed), '--tier', tier, '--first', str(start),
            '--end', str(end), '--shard', str(shard), '--nshards', str(nshards), '--progress', prog,
            '--scratch', os.path.join(tmp, 'scr-%s-%d' % (g.label, shard))]
        os.makedirs(os.path.join(tmp, 'scr-%s-%d' % (g.label, shard)), exist_ok=True)
        if g.budget:
            cmd += ['--budget', str(g.budget)]
        rc, hung = None, False
        with open(out, 'wb') as fo, open(err, 'wb') as fe:
            p = subprocess.Popen(cmd, stdout=fo, stderr=fe, env=driver_env(g.env), cwd=tmp, start_new_session=True)
            last, tlast = None, time.time()
            while True:
                try:
                    rc = p.wait(timeout=0.05 if last is None else 0.25)
                    break
                except subprocess.TimeoutExpired:
                    pass
                try:
                    cur = open(prog).read()
                except OSError:
                    cur = ''
                if cur != last:
                    last, tlast = cur, time.time()
                elif time.time() - tlast > g.casetimeout or time.time() > deadline:
                    hung = time.time() - tlast > g.casetimeout
                    try: os.killpg(p.pid, signal.SIGKILL)
                    except OSError: pass
                    p.wait()
                    rc = 'hang' if hung else 'deadline'
                    break
        done = False
        cur = -1
        try: cur = int(open(prog).read().split()[0])
        except (OSError, ValueError, IndexError): pass
        with res.lock:
            for line in open(out, errors='replace'):
                if not line.startswith('{'):
                    continue
                try: d = json.loads(line)
                except ValueError: continue
                if d['t'] == 'fail':
                    d['driver'] = g.driver; d['variant'] = g.variant; d['args'] = g.args
                    d['wrap'] = g.wrap; d['env'] = g.env; d['label'] = g.label
                    res.fails.append(d)
                elif d['t'] == 'ckpt' or d['t'] == 'done':
                    final = d
                    done = done or d['t'] == 'done'
                    for k, v in d['counters'].items(): res.add_count(k, v)
                    res.cases += d['cases']
                    for h in d['hashes']: res.hashes.add(h)
                    res.extra_distinct += d.get('hash_overflow', 0)
                    for s in d['samples']:
                        if len(res.samples) < 400: res.samples.append(s)
        if rc == 0 and done:
            return
        if rc == 'deadline':
            with res.lock: res.notes.append('%s shard %d stopped at case %d: time limit' % (g.label, shard, cur))
            return
        errtext = open(err, errors='replace').read()
        if rc == 99 and done:
            key = 'leak-or-exit-report'
        elif rc == 'hang':
            key = 'hang'
        else:
            key = 'crash'
        if cur < 0:
            with res.lock:
                res.notes.append('%s shard %d could not start: rc=%s %s' % (g.label, shard, rc, errtext[-1500:]))
                res.counters['failed-starts'] = res.counters.get('failed-starts', 0) + 1
            return
        summary = summarize(errtext)
        if rc == 'hang' and casesel is None:
            # confirm alone, so that a busy machine is not mistaken for a hang
            r2 = Result()
            g2 = Group(g.driver, 1, g.args, g.variant, None, g.casetimeout * 2, g.wrap, g.env, label=g.label + 'h')
            run_range(exe, g2, prop, seed, tier, 0, 1, cur, 1, tmp, r2, deadline, casesel=cur)
            if not any(f['key'].startswith('hang') for f in r2.fails):
                key = None
        if key:
            with res.lock:
                res.fails.append({'t': 'fail', 'case': cur, 'key': '%s:%s' % (key, summary) if summary else key,
                                  'msg': ('rc=%s ' % rc) + errtext[-3000:], 'driver': g.driver, 'variant': g.variant,
                                  'args': g.args, 'wrap': g.wrap, 'env': g.env, 'label': g.label})
        if done:
            return
        start = cur + 1
        restarts += 1
        if restarts > 12:
            with res.lock: res.notes.append('%s shard %d gave up after %d crashes' % (g.label, shard, restarts))
            return

def summarize(err):
    import re
    for line in err.splitlines():
        m = re.search(r'SUMMARY: (\w+): (\S+) (?:\S*/)?([\w.]+):\d+(?::\d+)? in (.*)', line)
        if m: return '%s %s %s' % (m.group(2), m.group(3), m.group(4)[:60])
        m = re.search(r'SUMMARY: (.*)', line)
        if m: return m.group(1)[:100]
        m = re.search(r'runtime error: (.*)', line)
        if m: return 'ub ' + re.sub(r'[-\d.e+]+', 'N', m.group(1))[:80]
        m = re.search(r"([\w.]+):\d+: (.*): Assertion [`'](.*)' failed", line)
        if m: return 'assert %s %s' % (m.group(1), m.group(3)[:60])
        m = re.search(r"terminate called after throwing an instance of '(.*)'", line)
        if m: return 'uncaught %s' % m.group(1)
    return ''

def run_check(prop, groups, rule, level, seed, tier, assumptions, required=(), limit=800, only=None):
    t0 = time.time()
    deadline = t0 + limit
    tmp = tempfile.mkdtemp(prefix='dpv-%s-' % prop)
    def cleanup(*a):
        shutil.rmtree(tmp, ignore_errors=True)
        if a: os._exit(3)
    signal.signal(signal.SIGTERM, cleanup); signal.signal(signal.SIGINT, cleanup)
    try:
        res = Result()
        variants = {}
        for g in groups: variants.setdefault(g.variant, []).append(g.driver)
        exes = {}
        for v, ds in variants.items():
            try:
                built = B.build(v, sorted(set(ds)), tmp)
            except B.BuildError as e:
                print('BUILD FAILED (no verdict)\n%s' % e); return 2
            for d, x in built.items(): exes[v, d] = x
        tb = time.time() - t0
        jobs = []
        for g in groups:
            n = g.shards or min(B.NCPU, max(1, g.count))
            for s in range(n): jobs.append((g, s, n))
        with ThreadPoolExecutor(B.NCPU) as ex:
            futs = [ex.submit(run_range, exes[g.variant, g.driver], g, prop, seed, tier, s, n, g.first,
                              g.count, tmp, res, deadline) for g, s, n in jobs]
            for f in futs: f.result()
        if only:
            # behavioural oracles of workloads borrowed from other checks are decided there
            res.fails = [f for f in res.fails if re.search(only, f['key'])]
        return judge(prop, res, rule, level, seed, tier, assumptions, required, t0, tb)
    finally:
        shutil.rmtree(tmp, ignore_errors=True)

def judge(prop, res, rule, level, seed, tier, assumptions, required, t0, tb):
    known = {}
    for k in load_known():
        if k['property'] == prop and k['status'] == 'known':
            known[k['key']] = k
    rdir = os.path.join(EVID, 'replay')
    os.makedirs(rdir, exist_ok=True)
    seen, violations, hits = {}, 0, {}
    for f in sorted(res.fails, key=lambda d: (d['key'], d['case'])):
        if f['key'] in known:
            hits[f['key']] = hits.get(f['key'], 0) + 1
            continue
        seen.setdefault(f['key'], []).append(f)
    for key, fs in sorted(seen.items()):
        f = fs[0]
        h = hashlib.sha1(key.encode()).hexdigest()[:10]
        rp = os.path.join(rdir, '%s-%s.json' % (prop, h))
        f = dict(f); f.update(property=prop, seed=seed, tier=tier, occurrences=len(fs),
                              other_cases=[x['case'] for x in fs[1:20]])
        json.dump(f, open(rp, 'w'), indent=1)
        print('VIOLATION property=%s replay=%s' % (prop, rp))
        print('  key=%s case=%s occurrences=%d: %s' % (key, f['case'], len(fs), f['msg'][:1500].replace('\n', '\n    ')))
        violations += 1
    for key in sorted(hits):
        print('KNOWN-FINDING: property=%s %s (%d observations)' % (prop, known[key]['what'], hits[key]))
    ev = {'property': prop, 'tier': tier, 'seed': int(seed), 'level': level,
          'coverage': {'evaluations': int(res.counters.get('evaluations', res.cases)),
                       'distinct_nontrivial': len(res.hashes) + res.extra_distinct,
                       'rule': rule, 'samples': spread(res.samples, 12), 'cases': res.cases,
                       'monitors': dict(sorted(res.counters.items()))},
          'assumptions': assumptions, 'wall_s': round(time.time() - t0, 2), 'build_s': round(tb, 2),
          'violations': violations, 'known_findings_seen': sorted(hits), 'notes': res.notes}
    os.makedirs(EVID, exist_ok=True)
    json.dump(ev, open(os.path.join(EVID, prop + '.json'), 'w'), indent=1)
    print('%s %s: %d cases, %d evaluations, %d distinct, %d violation(s), build %.1fs, total %.1fs' % (
        prop, tier, res.cases, ev['coverage']['evaluations'], ev['coverage']['distinct_nontrivial'], violations,
        tb, time.time() - t0))
    for n in res.notes: print('  note: ' + n)
    if violations: return 1
    if res.counters.get('failed-starts') or res.cases == 0:
        print('no verdict: drivers did not run'); return 2
    missing = [r for r in required if not res.counters.get(r)]
    if missing:
        print('no verdict: monitors never fired: %s' % ', '.join(missing)); return 2
    return 0

def spread(xs, n):
    if len(xs) <= n: return xs
    return [xs[i * len(xs) // n] for i in range(n)]

def stable_seed(s):
    return int(hashlib.sha1(s.encode()).hexdigest()[:8], 16)

def replay(path):
    """rebuild and run the single recorded case"""
    f = json.load(open(path))
    tmp = tempfile.mkdtemp(prefix='dpv-replay-')
    try:
        exe = B.build(f['variant'], [f['driver']], tmp)[f['driver']]
        cmd = f['wrap'] + [exe] + f['args'] + ['--prop', f['property'], '--seed', str(f['seed']), '--tier', f['tier'],
              '--first', str(f['case']), '--end', str(f['case'] + 1), '--scratch', tmp, '-v']
        p = subprocess.run(cmd, stdout=subprocess.PIPE, env=driver_env(f.get('env')), cwd=tmp, universal_newlines=True)
        bad = p.returncode != 0 or '"t":"fail"' in p.stdout
        print(p.stdout)
        print('REPRODUCED' if bad else 'not reproduced', 'rc=%s' % p.returncode)
        return 1 if bad else 0
    finally:
        shutil.rmtree(tmp, ignore_errors=True)
