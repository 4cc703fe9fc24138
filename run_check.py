#!/usr/bin/env python3
"""run_check.py <property> [--tier quick|thorough] : build the workloads of one property from /repo, run them, report.

Exit 0: held on everything explored (known findings are printed).  Exit 1: VIOLATION line.  Exit 2: no answer."""
import hashlib, json, os, re, signal, subprocess, sys, threading, time, traceback
from concurrent.futures import ThreadPoolExecutor

ROOT = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, os.path.join(ROOT, 'lib'))
import checks as C

REPO = os.environ.get('VERIF_REPO', '/repo')
BUILD = os.environ.get('VERIF_BUILD', os.path.join(ROOT, 'build'))
JOBS = min(8, os.cpu_count() or 8)
T0 = time.time()
BUDGET = float(os.environ.get('VERIF_BUDGET', '0'))  # seconds, 0: per tier


def log(*a):
    print('[%6.1fs]' % (time.time() - T0), *a, flush=True)


def tree_hash(paths):
    h = hashlib.sha256()
    for p in sorted(paths):
        if os.path.isdir(p):
            for d, ds, fs in sorted(os.walk(p)):
                ds.sort()
                for f in sorted(fs):
                    fp = os.path.join(d, f)
                    h.update(os.path.relpath(fp, p).encode())
                    h.update(open(fp, 'rb').read())
        else:
            h.update(open(p, 'rb').read())
    return h.hexdigest()


_repo_hash = None


def repo_hash():
    global _repo_hash
    if _repo_hash is None:
        _repo_hash = tree_hash([os.path.join(REPO, 'include'), os.path.join(ROOT, 'shim'),
                                os.path.join(ROOT, 'src')])
    return _repo_hash


def probe_fails(name, prop):
    """the workload does not compile: do the documented uses this property is about?"""
    b = C.BUILDS[name]
    cmd = [b['cxx'], '-std=' + b['std'], '-w', '-pthread', '-fsyntax-only', '-I' + os.path.join(REPO, 'include'), '-I' + os.path.join(ROOT, 'shim'),
           '-DPROBE=%d' % int(prop[1:])] + [f for f in b['flags'] if f.startswith('-D')] + [os.path.join(ROOT, 'src', 'probe.cpp')]
    p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, errors='replace')
    if p.returncode == 0:
        return None
    return '\n'.join([l for l in p.stderr.splitlines() if 'error' in l or 'required from here' in l][:12]) or p.stderr[-2000:]


class Built:
    def __init__(self, name, path, err, secs):
        self.name, self.path, self.err, self.secs = name, path, err, secs
        self.newer = False


def build(name, any_standard=False):
    """any_standard: the property does not say which language standard the library can be used with, so a source which needs
    a newer one than this workload is meant for is judged with a newer one"""
    r = build_with(name, C.BUILDS[name]['std'])
    if r.err and any_standard and C.BUILDS[name]['std'] in ('c++11', 'c++14'):
        n = build_with(name, 'c++17')
        if not n.err:
            n.newer = True
            return n
    return r


def build_with(name, std):
    b = C.BUILDS[name]
    cmd = [b['cxx'], '-std=' + std, '-w', '-pthread', '-I' + os.path.join(REPO, 'include'),
           '-I' + os.path.join(ROOT, 'shim'), '-I' + os.path.join(ROOT, 'src')] + b['flags'] + \
        [os.path.join(ROOT, 'src', f) for f in [b['src']] + b['more']]
    key = hashlib.sha256((repo_hash() + ' '.join(cmd)).encode()).hexdigest()[:24]
    out = os.path.join(BUILD, name + '-' + key)
    t = time.time()
    if os.path.exists(out):
        return Built(name, out, None, 0.0)
    os.makedirs(BUILD, exist_ok=True)
    tmp = out + '.tmp%d.%d' % (os.getpid(), threading.get_ident())
    for attempt in range(3):
        p = subprocess.run(cmd + ['-o', tmp], stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, errors='replace')
        # once more if the compiler was ended by something else than the source, such as a lack of memory
        if p.returncode == 0 or ('error:' in p.stderr and 'Killed signal' not in p.stderr and 'due to signal' not in p.stderr):
            break
        time.sleep(2)
    if p.returncode != 0:
        lines = [l for l in p.stderr.splitlines() if 'error' in l or 'required from here' in l]
        return Built(name, None, '\n'.join(lines[:12]) or p.stderr[-2000:] or 'the compiler ended with %d' % p.returncode, time.time() - t)
    os.rename(tmp, out)
    # old builds of the same name are not needed any more
    for f in os.listdir(BUILD):
        if f.startswith(name + '-') and f != os.path.basename(out) and '.tmp' not in f:
            try:
                os.unlink(os.path.join(BUILD, f))
            except OSError:
                pass
    return Built(name, out, None, time.time() - t)


ENV = dict(os.environ)
ENV.update({
    'ASAN_OPTIONS': 'detect_leaks=0:abort_on_error=0:exitcode=66:detect_stack_use_after_return=1:allocator_may_return_null=0',
    'UBSAN_OPTIONS': 'print_stacktrace=1:halt_on_error=1:exitcode=66',
    'TSAN_OPTIONS': 'halt_on_error=1:exitcode=66:second_deadlock_stack=1:history_size=4:suppressions=' + os.path.join(ROOT, 'src', 'tsan.supp'),
})


class Result:
    def __init__(self):
        self.lock = threading.Lock()
        self.violations = []   # dicts
        self.others = []
        self.findings = []
        self.counts = {}
        self.hashes = set()
        self.distinct = 0
        self.samples = []
        self.errors = []
        self.restarts = 0
        self.found_at = 0
        self.parts = {}

    def stats(self, part, st):
        with self.lock:
            p = self.parts.setdefault(part, {})
            for k, v in st['counts'].items():
                p[k] = p.get(k, 0) + v
                self.counts[k] = self.counts.get(k, 0) + v
            self.hashes.update(part.split('/')[0] + h for h in st.get('hashes', []))
            self.distinct += max(0, st['distinct'] - len(st.get('hashes', [])))
            for s in st['samples']:
                if len([x for x in self.samples if x.startswith(part)]) < 1 and len(self.samples) < 8:
                    self.samples.append(part + ': ' + s[:1500])


# memcheck: also sees uses of uninitialised memory, which the compilers' sanitizers here do not
MEMCHECK = ['valgrind', '-q', '--tool=memcheck', '--error-exitcode=66', '--exit-on-first-error=yes', '--leak-check=no', '--num-callers=20',
            '--soname-synonyms=somalloc=nouserintercepts']  # workloads with an operator new of their own keep it


def memcheck_works():
    try:
        return subprocess.run(MEMCHECK + ['/bin/true'], stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL, timeout=60).returncode == 0
    except (OSError, subprocess.TimeoutExpired):
        return False


def classify_crash(out, rc):
    """(kind, summary) of a process that did not end by itself"""
    m = re.search(r'^==\d+== ((?:Invalid|Conditional|Use of uninit|Syscall param|Mismatched|Jump to|Source and dest)[^\n]*)((?:\n==\d+==    (?:at|by)[^\n]*){0,3})', out, re.M)
    if m:
        return 'sanitizer', ('memcheck: ' + m.group(1) + re.sub(r'\n==\d+==\s*', ' ', m.group(2)))[:400]
    m = re.search(r'LIBRARY-ASSERTION .*', out)
    if m:
        return 'assertion', m.group(0)[:300]
    m = re.search(r'SUMMARY: (\w+): .*', out)
    if m:
        kind = 'tsan' if m.group(1) == 'ThreadSanitizer' else 'sanitizer'
        return kind, m.group(0)[:400]
    m = re.search(r'[^\n]*runtime error:[^\n]*', out)
    if m:
        return 'sanitizer', m.group(0)[:400]
    m = re.search(r'Error: [^\n]*', out)
    if m and '_GLIBCXX' not in out and 'safe_iterator' in out or (m and '/debug/' in out):
        return 'debug-mode', 'libstdc++ debug mode: ' + m.group(0)[:300]
    m = re.search(r'[^\n]*Assertion [^\n]* failed[^\n]*', out)
    if m:
        return 'assertion', m.group(0)[-300:]
    m = re.search(r'terminate called[^\n]*', out)
    if m:
        return 'terminate', m.group(0)[:200]
    return 'signal', 'exit status %d' % rc


def run_shard(prop, part, exe, args, shard, nsh, cases, seed, res, deadline, tmo):
    pname = part['name']
    start, done = shard, 0
    todo = len(range(shard, cases, nsh))
    pf = os.path.join(BUILD, 'progress.%d.%s.%d' % (os.getpid(), re.sub(r'\W', '_', pname), shard))
    restarts = 0
    while todo > 0:
        if len(res.violations) >= 3 or (res.found_at and time.time() > res.found_at + 10):
            return
        if time.time() > deadline:
            with res.lock:
                res.counts['cases_not_run_deadline'] = res.counts.get('cases_not_run_deadline', 0) + todo
            return
        cmd = exe + args + ['--seed=%d' % seed, '--from=%d' % start, '--stride=%d' % nsh, '--cases=%d' % todo, '--progress=' + pf]
        if os.path.exists(pf):
            os.unlink(pf)
        hung = False
        p = subprocess.Popen(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors='replace', env=ENV, start_new_session=True)
        limit = time.time() + max(5.0, min(tmo, deadline - time.time() + 20))
        while True:
            try:
                out, _ = p.communicate(timeout=2)
                break
            except subprocess.TimeoutExpired:
                # when something has been found the rest is not waited for long
                enough = res.found_at and time.time() > res.found_at + 10
                if not enough and time.time() < limit:
                    continue
                hung = not enough
                os.killpg(p.pid, signal.SIGKILL)
                out, _ = p.communicate()
                if enough:
                    return
                break
        rc = p.returncode
        for m in re.finditer(r'^STATS (.*)$', out, re.M):
            try:
                res.stats(pname, json.loads(m.group(1)))
            except ValueError:
                pass
        for m in re.finditer(r'^FINDING id=(\S+) property=(\S+) msg=(.*)$', out, re.M):
            with res.lock:
                res.findings.append({'id': m.group(1), 'property': m.group(2), 'msg': m.group(3), 'part': pname, 'cmd': cmd, 'output': out[-4000:]})
        if rc == 0 and not hung:
            return
        try:
            cur = int(open(pf).read().split()[0])
        except Exception:
            cur = None
        mm = None
        for mm in re.finditer(r'^MISMATCH case=(-?\d+) props=(\S*) engine=(\S+) msg=(.*)$', out, re.M):
            pass
        if rc == 3 and mm:
            case = int(mm.group(1))
            v = {'kind': 'mismatch', 'case': case, 'props': mm.group(2).split(','), 'msg': mm.group(4), 'part': pname}
        elif hung:
            case = cur
            if time.time() > deadline and not part.get('hang_is_violation', True):
                return
            # a deterministic case that does not end is tried again on its own
            again = True
            if cur is not None and not part.get('nondet'):
                q = subprocess.Popen(exe + args + ['--seed=%d' % seed, '--from=%d' % cur, '--cases=1'], stdout=subprocess.PIPE,
                                     stderr=subprocess.STDOUT, text=True, errors='replace', env=ENV, start_new_session=True)
                try:
                    q.communicate(timeout=part.get('hang_case', 40))
                    again = False
                except subprocess.TimeoutExpired:
                    os.killpg(q.pid, signal.SIGKILL)
                    q.communicate()
            if not again:
                # only slow: go on behind it
                if cur is not None:
                    done = (cur - start) // nsh + 1
                    start += done * nsh
                    todo -= done
                    continue
                with res.lock:
                    res.errors.append('%s: timed out' % pname)
                return
            v = {'kind': 'hang', 'case': case, 'props': ['C09'], 'msg': 'does not terminate (deadlock or endless loop)', 'part': pname}
        else:
            kind, summary = classify_crash(out, rc)
            case = cur
            if kind == 'signal' and rc == -9:
                with res.lock:
                    res.errors.append('%s: killed (out of memory?)' % pname)
                return
            props = {'tsan': ['C10']}.get(kind, ['C22'])
            v = {'kind': kind, 'case': case, 'props': props, 'msg': summary, 'part': pname}
        v['cmd'] = exe + args + ['--seed=%d' % seed] + (['--from=%d' % case, '--cases=1'] if case is not None and case >= 0 else ['--from=%d' % start, '--stride=%d' % nsh, '--cases=%d' % todo])
        v['output'] = out[-12000:]
        # what a process does that dies, hangs or races in the workload of a property is not what the property promises
        own = prop in v['props'] or (v['kind'] != 'mismatch' and v['kind'] != 'tsan') or (v['kind'] == 'tsan' and part.get('tsan_own'))
        with res.lock:
            (res.violations if own else res.others).append(v)
            if own and not res.found_at:
                res.found_at = time.time()
            res.restarts += 1
        restarts += 1
        if v['kind'] == 'hang' or restarts > 12 or case is None or case < start:
            return
        done = (case - start) // nsh + 1
        start += done * nsh
        todo -= done


def known_findings():
    known = {}
    f = os.path.join(ROOT, 'known_findings.txt')
    if os.path.exists(f):
        for l in open(f):
            m = re.match(r'known: property=(\S+) id=(\S+) (.*)', l)
            if m:
                known[(m.group(1), m.group(2))] = m.group(3).strip()
    return known


def main():
    prop = sys.argv[1]
    tier = os.environ.get('VERIF_TIER', 'quick')
    if '--tier' in sys.argv:
        tier = sys.argv[sys.argv.index('--tier') + 1]
    if tier not in ('quick', 'thorough'):
        tier = 'quick'
    seed = int(os.environ.get('VERIF_SEED', '1') or '1')
    chk = C.CHECKS[prop]
    parts = [dict(p) for p in chk['parts'] if tier in p.get('tiers', ('quick', 'thorough'))]
    budget = BUDGET or {'quick': 420.0, 'thorough': 3000.0}[tier]
    deadline = T0 + budget
    res = Result()
    no_memcheck = any(p.get('memcheck') for p in parts) and not memcheck_works()
    if no_memcheck:
        log('valgrind does not run here: those workloads are left out')
        parts = [p for p in parts if not p.get('memcheck')]
        res.counts['workloads_without_memcheck'] = 1
    names = sorted({p['build'] for p in parts}, key=lambda n: -C.BUILDS[n].get('cost', 10))
    log('check %s tier=%s seed=%d: %d workloads, %d builds' % (prop, tier, seed, len(parts), len(names)))
    built = {}
    compile_errors = {}
    with ThreadPoolExecutor(JOBS) as ex:
        futs = {n: ex.submit(build, n, prop != 'C21') for n in names}
        runs = []
        rex = ThreadPoolExecutor(JOBS)
        for n in names:
            b = futs[n].result()
            built[n] = b
            if b.newer:
                log('build %s needs a newer language standard than it should: done with c++17' % n)
                res.counts['builds_with_newer_standard'] = res.counts.get('builds_with_newer_standard', 0) + 1
            if b.err:
                compile_errors[n] = b.err
                log('build %s FAILED: %s' % (n, b.err))
        log('builds done')
        for p in parts:
            b = built[p['build']]
            if b.err:
                continue
            cases = p['cases'][0 if tier == 'quick' else 1]
            nsh = min(p.get('shards', JOBS), max(1, cases))
            for s in range(nsh):
                runs.append((p, rex.submit(run_shard, prop, p, (MEMCHECK if p.get('memcheck') else []) + [b.path], p.get('args', []) + ['--own=%d' % int(prop[1:])], s, nsh, cases, seed * 7919 + p.get('seedoff', 0), res, deadline, p.get('timeout', (300, 1800))[0 if tier == 'quick' else 1])))
        for p, r in runs:
            r.result()
        rex.shutdown()
    for f in os.listdir(BUILD) if os.path.isdir(BUILD) else []:
        if f.startswith('progress.%d.' % os.getpid()):
            os.unlink(os.path.join(BUILD, f))
    # builds that fail: the library no longer compiles for this (documented) use
    if compile_errors and chk.get('compile_is_violation'):
        for n, e in compile_errors.items():
            res.violations.append({'kind': 'compile', 'case': None, 'props': [prop], 'msg': 'does not compile: ' + e.splitlines()[0][:300] if e else '', 'part': n, 'cmd': [n], 'output': e})
    else:
        for n, e in compile_errors.items():
            pe = probe_fails(n, prop)
            if pe:
                res.violations.append({'kind': 'compile', 'case': None, 'props': [prop], 'msg': 'documented use does not compile: ' + pe.splitlines()[0][:300], 'part': n, 'cmd': [n], 'output': pe})
            else:
                res.errors.append('%s does not compile' % n)
    # post-processing across parts (differential comparison of builds)
    known = known_findings()
    kprinted = set()
    for f in res.findings:
        if f['property'] != prop:
            continue
        k = (f['property'], f['id'])
        if k in known:
            if k not in kprinted:
                kprinted.add(k)
                print('KNOWN-FINDING: property=%s %s' % (prop, known[k]))
        else:
            res.violations.append({'kind': 'finding', 'case': None, 'props': [prop], 'msg': f['id'] + ': ' + f['msg'], 'part': f['part'], 'cmd': f['cmd'], 'output': f['output']})
    nd = len(res.hashes) + res.distinct
    wall = time.time() - T0
    ev = {
        'property': prop, 'tier': tier, 'seed': seed, 'level': chk['level'], 'wall_s': round(wall, 2),
        'violations': len(res.violations),
        'coverage': {
            'evaluations': int(res.counts.get('cases', 0) + res.counts.get('faults_injected', 0)),
            'distinct_nontrivial': int(nd),
            'rule': chk['rule'],
            'samples': res.samples or ['(none)'],
            'observed_events': {k: v for k, v in sorted(res.counts.items()) if k not in ('cases', 'distinct_nontrivial')},
            'workloads': {k: v.get('cases', 0) for k, v in sorted(res.parts.items())},
            'mismatches_of_other_properties': [{'props': o['props'], 'msg': o['msg'][:300]} for o in res.others[:10]],
            'known_findings_seen': sorted(k[1] for k in kprinted),
        },
        'assumptions': chk.get('assumptions', C.ASSUMPTIONS),
    }
    os.makedirs(os.path.join(ROOT, 'evidence'), exist_ok=True)
    tmp = os.path.join(ROOT, 'evidence', prop + '.json.tmp')
    json.dump(ev, open(tmp, 'w'), indent=1)
    os.rename(tmp, os.path.join(ROOT, 'evidence', prop + '.json'))
    log('cases %d, distinct non-trivial %d, own violations %d, other mismatches %d, errors %s' % (
        res.counts.get('cases', 0), nd, len(res.violations), len(res.others), res.errors))
    for o in res.others[:5]:
        log('other: %s %s %s case %s: %s' % (o['part'], o['kind'], ','.join(o['props']), o['case'], o['msg'][:300]))
    if res.violations:
        rd = os.path.join(ROOT, 'replays')
        os.makedirs(rd, exist_ok=True)
        rp = os.path.join(rd, prop + '.txt')
        with open(rp, 'w') as f:
            for v in res.violations[:5]:
                f.write('property %s  workload %s  kind %s  case %s  refutes %s\n%s\nreplay: %s\n\n--- output\n%s\n\n' % (
                    prop, v['part'], v['kind'], v['case'], ','.join(v['props']), v['msg'], ' '.join(map(str, v['cmd'])), v['output']))
        for v in res.violations[:3]:
            log('%s %s case %s: %s' % (v['part'], v['kind'], v['case'], v['msg'][:400]))
        print('VIOLATION property=%s replay=%s' % (prop, os.path.relpath(rp, ROOT)), flush=True)
        return 1
    if res.errors:
        for e in res.errors:
            log('ERROR', e)
        return 2
    if nd < chk.get('min_distinct', 2):
        log('ERROR: workload observed too little')
        return 2
    return 0


if __name__ == '__main__':
    try:
        sys.exit(main())
    except Exception:
        traceback.print_exc()
        sys.exit(2)
