#!/usr/bin/env python3
"""Driver of the checks.

  vp.py setup                      builds the executor and the harnesses
  vp.py check PROPERTY [quick|thorough]
  vp.py replay FILE                replays a recorded counterexample natively
  vp.py record PROPERTY..          (maintenance) records which cover points the jobs reach

A check compiles the harness crates against /repo's current working tree, once to LLVM IR for rsym
(symbolic executor, /verif/rsym) and once natively, runs the property's jobs (jobs.py) and judges:
  exit 0  every path of every job was followed to its end and every assertion proved
  exit 1  a counterexample which also fails natively (VIOLATION line)
  exit 2  no verdict: a query without answer, a counterexample that does not reproduce, ...
"""
import collections, concurrent.futures, fcntl, glob, hashlib, json, os, re, shutil, signal, subprocess, sys, time

V = os.path.dirname(os.path.abspath(__file__))
REPO = '/repo'
T = V + '/target'
RSYM = T + '/rsym/release/rsym'
ENV = dict(os.environ, CARGO_NET_OFFLINE='true', RUSTUP_TOOLCHAIN='stable', CARGO_TERM_COLOR='never', RUST_BACKTRACE='0')
for k in ('RUSTFLAGS', 'CARGO_ENCODED_RUSTFLAGS', 'CARGO_TARGET_DIR', 'RUSTC_WRAPPER', 'CARGO_BUILD_TARGET'):
    ENV.pop(k, None)
CORES = max(1, min(8, os.cpu_count() or 8))
sys.path.insert(0, V)
sys.dont_write_bytecode = True
import jobs as J


class NoVerdict(Exception):
    pass


def log(*a):
    print(*a, flush=True)


# the locks of the Tokio dispatch are replaced by the model's (hook in /repo, src/server/tokio/mod.rs)
LOCKS = dict(ENV, RUSTFLAGS='--cfg vt6_model_locks')
PLAIN_LOCKS = set()


def sh(cmd, cwd, timeout=900, env=None):
    p = subprocess.run(cmd, cwd=cwd, env=env or ENV, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=timeout)
    if p.returncode != 0:
        raise NoVerdict('%s failed in %s:\n%s' % (' '.join(cmd), cwd, p.stdout[-6000:]))
    return p.stdout


def tree_hash(*dirs):
    h = hashlib.sha256()
    for d in dirs:
        for root, ds, fs in os.walk(d):
            ds[:] = sorted(x for x in ds if x not in ('target', '.git'))
            for f in sorted(fs):
                p = os.path.join(root, f)
                if f.endswith(('.rs', '.toml', '.lock')):
                    h.update(p.encode() + b'\0')
                    with open(p, 'rb') as s:
                        h.update(s.read())
    return h.hexdigest()


class Lock:
    def __enter__(self):
        os.makedirs(T, exist_ok=True)
        self.f = open(T + '/.vp.lock', 'w')
        fcntl.flock(self.f, fcntl.LOCK_EX)

    def __exit__(self, *a):
        self.f.close()


def build_rsym():
    with Lock():
        sh(['cargo', 'build', '--release', '--offline', '--locked', '--target-dir', T + '/rsym'], V + '/rsym')


SYMFLAGS = ['--', '--emit=llvm-ir', '-C', 'no-vectorize-loops', '-C', 'no-vectorize-slp']


def fresh(target, crate):
    """Cargo trusts modification times; a tree with older files than the last build must not be
    taken for that build's tree."""
    stamp = target + '/.vp-tree'
    h = tree_hash(REPO + '/src', REPO + '/example-server', V + '/symrt', V + '/belog_model', V + '/tokio_model', V + '/harness', V + '/' + crate) + ''.join(
        open(REPO + '/' + f).read() for f in ('Cargo.toml',) if os.path.exists(REPO + '/' + f))
    h = hashlib.sha256(h.encode()).hexdigest()
    try:
        old = open(stamp).read()
    except OSError:
        old = None
    if old != h and os.path.isdir(target):
        for p in glob.glob(target + '/*/.fingerprint/*'):
            if re.match(r'(vt6|harness|harness_tokio|harness_server|symrt|tokio|belog|replay)-', os.path.basename(p)):
                shutil.rmtree(p, ignore_errors=True)
    return stamp, h


def sh_crate(crate, cmd):
    """Builds with the model's locks; if the code does not fit them, with those of the standard
    library, which are never preempted."""
    cwd = V + '/' + crate
    if crate != 'harness' and crate not in PLAIN_LOCKS:
        try:
            return sh(cmd, cwd, env=LOCKS)
        except NoVerdict:
            sh(cmd, cwd)
            PLAIN_LOCKS.add(crate)
            return
    sh(cmd, cwd)


def build_ir(crate):
    """LLVM IR of harness crate, path of the file."""
    with Lock():
        td = '%s/sym-%s' % (T, crate)
        stamp, h = fresh(td, crate)
        sh_crate(crate, ['cargo', 'rustc', '--offline', '--locked', '--lib', '--crate-type', 'cdylib', '--features', 'sym',
                         '--profile', 'sym', '--target-dir', td] + SYMFLAGS)
        ll = '%s/sym/deps/%s.ll' % (td, crate)
        if not os.path.exists(ll):
            raise NoVerdict('no LLVM IR at ' + ll)
        open(stamp, 'w').write(h)
        return ll


def build_native(crate, release=False):
    with Lock():
        td = '%s/nat-%s%s' % (T, crate, '-rel' if release else '')
        stamp, h = fresh(td, crate)
        sh_crate(crate, ['cargo', 'build', '--offline', '--locked', '--bin', 'replay', '--features', 'native', '--target-dir', td]
                 + (['--release'] if release else []))
        open(stamp, 'w').write(h)
        return '%s/%s/replay' % (td, 'release' if release else 'debug')


def run_native(binary, requests, timeout=60):
    """Replies to the requests; a request on which the process dies or hangs gets PANIC/HANG."""
    out = []
    todo = list(requests)
    while todo:
        try:
            p = subprocess.run([binary], input='\n'.join(todo) + '\n', env=ENV, stdout=subprocess.PIPE, stderr=subprocess.DEVNULL,
                               text=True, timeout=timeout)
            lines, rc = p.stdout.splitlines(), p.returncode
        except subprocess.TimeoutExpired as e:
            lines, rc = (e.stdout or b'').decode(errors='replace').splitlines(), None
        lines = lines[:len(todo)]
        out += lines
        todo = todo[len(lines):]
        if todo:
            out.append('PANIC |the process %s' % ('did not finish within %d s' % timeout if rc is None else 'died with status %d' % rc))
            todo = todo[1:]
    return out


def req(h, params, inputs):
    return '%s|%s|%s' % (h, ' '.join(map(str, params)), ' '.join(str(x) for _, x in inputs))


def merge(files):
    m = dict(paths=0, panicked_paths=0, forks=0, steps=0, assumed_out=0, violation_count=0, concretized=0, max_depth=0, aborted=False,
             violations=[], inconclusive=[], errors=[], covers=collections.Counter(), samples=[], functions=set(), lines=set(),
             solver=dict(queries=0, sat=0, unsat=0, unknown=0, cache_hits=0, seconds=0.0, max_seconds=0.0, version=''))
    for f in files:
        r = json.load(open(f))
        for k in ('paths', 'panicked_paths', 'forks', 'steps', 'assumed_out', 'violation_count', 'concretized'):
            m[k] += r[k]
        m['max_depth'] = max(m['max_depth'], r['max_depth'])
        m['aborted'] |= r['aborted']
        for k in ('violations', 'inconclusive', 'errors', 'samples'):
            m[k] += r[k]
        for k, n in r['covers'].items():
            m['covers'][int(k)] += n
        m['functions'] |= set(r['functions'])
        m['lines'] |= set((a, b, c) for a, b, c in r['lines'])
        for k in ('queries', 'sat', 'unsat', 'unknown', 'cache_hits', 'seconds'):
            m['solver'][k] += r['solver'][k]
        m['solver']['max_seconds'] = max(m['solver']['max_seconds'], r['solver']['max_seconds'])
        m['solver']['version'] = r['solver']['version']
    return m


class Runner:
    def __init__(self, work, deadline, seed):
        self.work, self.deadline, self.seed, self.stop = work, deadline, seed, False
        self.procs = set()

    def run(self, n, ll, job):
        """One job: one harness under one choice of parameters."""
        if self.stop:
            return None
        left = self.deadline - time.time()
        if left < 5:
            return dict(job=job, wall=0, dead='no time left')
        out = '%s/%d.json' % (self.work, n)
        cmd = [RSYM, ll, job.harness, '--params', ','.join(map(str, job.params)), '--out', out, '--samples', '3', '--jobs',
               str(job.jobs), '--timeout', str(int(min(left, job.timeout))), '--seed', str(self.seed), '--max-violations', '4',
               '--max-steps', str(job.max_steps)]
        t = time.time()
        p = subprocess.Popen(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, start_new_session=True)
        self.procs.add(p)
        try:
            so, _ = p.communicate(timeout=min(left, job.timeout) + 60)
            dead = None if p.returncode == 0 else 'rsym exit %s: %s' % (p.returncode, so[-1000:])
        except subprocess.TimeoutExpired:
            dead = 'out of time'
        finally:
            try:
                os.killpg(p.pid, signal.SIGKILL)
            except OSError:
                pass
            self.procs.discard(p)
        w = time.time() - t
        files = glob.glob(out + '*')
        if not files:
            return dict(job=job, wall=w, dead=dead or 'no report')
        try:
            r = merge(files)
        except ValueError as e:
            return dict(job=job, wall=w, dead=dead or 'bad report: %s' % e)
        r.update(job=job, wall=w, dead=dead)
        return r

    def kill(self):
        self.stop = True
        for p in list(self.procs):
            try:
                os.killpg(p.pid, signal.SIGKILL)
            except OSError:
                pass


def findings(prop):
    """Recorded findings: `finding: property=.. harness=.. location=.. inputs=.. | what fails`."""
    out = []
    p = V + '/known_findings.txt'
    if os.path.exists(p):
        for l in open(p):
            m = re.match(r'finding: property=(\S+) harness=(\S+) location=(\S+) (.*)', l.strip())
            if m and m.group(1) == prop:
                out.append(m.groups()[1:])
    return out


def demangle_short(n):
    # v0 symbols: keep the identifiers of the path
    ids = re.findall(r'(?<![0-9])([1-9][0-9]?)_?(?=[A-Za-z_])', n)
    i, out = 0, []
    s = n
    while i < len(s):
        m = re.match(r'([1-9][0-9]?)', s[i:])
        if m:
            k = int(m.group(1))
            j = i + len(m.group(1))
            if s[j:j + 1] == '_':
                j += 1
            w = s[j:j + k]
            if len(w) == k and re.match(r'^[A-Za-z_][A-Za-z0-9_]*$', w):
                out.append(w)
                i = j + k
                continue
        i += 1
    out = [x for x in out if x not in ('vt6', 'harness', 'harness_tokio', 'core', 'alloc')]
    return '::'.join(out[:6])


def demangle(names):
    names = sorted(names)
    try:
        p = subprocess.run(['c++filt'], input='\n'.join(names), stdout=subprocess.PIPE, stderr=subprocess.DEVNULL, text=True, timeout=20)
        out = [re.sub(r'\[[0-9a-f]+\]', '', l) for l in p.stdout.splitlines()]
        if len(out) == len(names):
            return set(out)
    except (OSError, subprocess.SubprocessError):
        pass
    return {demangle_short(n) for n in names}


def check(prop, tier, record=False):
    t0 = time.time()
    seed = int(os.environ.get('VERIF_SEED', '1') or 1)
    spec = J.PROPS[prop]
    js = J.expand(prop, tier)
    deadline = t0 + (840 if tier == 'quick' else J.THOROUGH)
    crates = sorted({j.crate for j in js})
    work = '%s/work/%s-%d' % (V, prop, os.getpid())
    os.makedirs(work)
    R = Runner(work, deadline - 40, seed)
    try:
        with concurrent.futures.ThreadPoolExecutor(8) as pool:
            fr = pool.submit(build_rsym)
            fr.result()
            ll = {c: build_ir(c) for c in crates}
            nat = {c: pool.submit(build_native, c) for c in crates}
            tb = time.time() - t0
            # heavy jobs one after the other with all cores, light ones side by side
            light = [j for j in js if not j.heavy]
            heavy = [j for j in js if j.heavy]
            results = []

            def go(js, width, base):
                with concurrent.futures.ThreadPoolExecutor(width) as ex:
                    fs = [ex.submit(R.run, base + i, ll[j.crate], j) for i, j in enumerate(js)]
                    for f in concurrent.futures.as_completed(fs):
                        r = f.result()
                        if r is not None:
                            results.append(r)
                            if r.get('violation_count') and not record:
                                R.stop = True   # what is running may finish
            go(light, CORES, 0)
            go(heavy, 1, len(light))
            nat = {c: f.result() for c, f in nat.items()}
        return judge(prop, tier, seed, spec, js, results, nat, t0, tb, record)
    finally:
        R.kill()
        shutil.rmtree(work, ignore_errors=True)


def judge(prop, tier, seed, spec, js, results, nat, t0, tb, record):
    problems, viol, known = [], [], []
    covers = collections.defaultdict(collections.Counter)
    tot = merge([])
    samples = []
    validated = 0
    rows = []
    native_rel = {}
    finds = findings(prop)
    for r in results:
        j = r['job']
        name = '%s(%s)' % (j.harness, ','.join(map(str, j.params)))
        if r.get('dead'):
            problems.append('%s: %s' % (name, r['dead']))
            if 'paths' not in r:
                continue
        for k in ('paths', 'panicked_paths', 'forks', 'steps', 'assumed_out', 'violation_count', 'concretized'):
            tot[k] += r[k]
        tot['max_depth'] = max(tot['max_depth'], r['max_depth'])
        tot['functions'] |= r['functions']
        tot['lines'] |= r['lines']
        for k in ('queries', 'sat', 'unsat', 'unknown', 'cache_hits', 'seconds'):
            tot['solver'][k] += r['solver'][k]
        tot['solver']['max_seconds'] = max(tot['solver']['max_seconds'], r['solver']['max_seconds'])
        tot['solver']['version'] = r['solver']['version']
        covers[j.harness].update(r['covers'])
        rows.append(dict(harness=j.harness, params=list(j.params), paths=r['paths'], steps=r['steps'], queries=r['solver']['queries'],
                         solver_s=round(r['solver']['seconds'], 2), wall_s=round(r['wall'], 2)))
        # counterexamples: only what fails natively, in the dev or in the release profile, is one
        for v in r['violations']:
            if len(viol) >= 8:
                break
            q = req(j.harness, j.params, v['inputs'])
            prof = 'dev'
            a = run_native(nat[j.crate], [q], 60)[0]
            if not a.startswith('PANIC'):
                if j.crate not in native_rel:
                    native_rel[j.crate] = build_native(j.crate, True)
                prof = 'release'
                a2 = run_native(native_rel[j.crate], [q], 60)[0]
                if not a2.startswith('PANIC'):
                    problems.append('%s: counterexample does not reproduce: %s at %s, natively %s; %s' % (name, v['kind'], v['location'], a[:200], q))
                    continue
                a = a2
            rec = dict(job=j, request=q, profile=prof, kind=v['kind'], location=v['location'], native=a, trace=v['trace'])
            hit = [f for f in finds if f[0] == j.harness and f[1] in v['location']]
            (known if hit else viol).append((rec, hit))
        if r['violation_count'] and not r['violations']:
            problems.append('%s: violations without record' % name)
        if r['aborted'] and not r['violation_count']:
            problems.append('%s: out of time after %d paths' % (name, r['paths']))
        if r['inconclusive']:
            problems.append('%s: no answer from the solver (%d), e.g. %s' % (name, len(r['inconclusive']), r['inconclusive'][0][:300]))
        if r['errors']:
            problems.append('%s: %s' % (name, str(r['errors'][0])[:300]))
        if not r['violation_count'] and not r['errors'] and not r['dead']:
            if r['paths'] == 0:
                problems.append('%s: no path reached the end (vacuous)' % name)
            # the executor's own results against the compiled code
            ss = r['samples'][:6]
            if ss:
                ans = run_native(nat[j.crate], [req(j.harness, j.params, s['inputs']) for s in ss], 120)
                for s, a in zip(ss, ans):
                    want = ('ALLOWED ' if s['panicked'] else 'OK ') + ' '.join(s['events'])
                    if a.strip() != want.strip():
                        problems.append('%s: native run differs from symbolic run: %s instead of %s for %s' % (name, a[:300], want[:300], req(j.harness, j.params, s['inputs'])))
                    else:
                        validated += 1
                if len(samples) < 12:
                    s = ss[0]
                    samples.append(dict(harness=j.harness, params=list(j.params), inputs=[x for _, x in s['inputs']], observed=s['events'][:12]))
    cov_now = {h: sorted(c) for h, c in covers.items()}
    cpath = V + '/covers.json'
    cdb = json.load(open(cpath)) if os.path.exists(cpath) else {}
    key = '%s/%s' % (prop, tier)
    if record:
        cdb[key] = cov_now
        json.dump(cdb, open(cpath, 'w'), indent=0, sort_keys=True)
    elif not viol and not problems:
        if key not in cdb:
            problems.append('no cover points recorded for ' + key)
        for h, want in cdb.get(key, {}).items():
            missing = sorted(set(want) - set(cov_now.get(h, [])) - ({50} if PLAIN_LOCKS else set()))
            if missing:
                problems.append('%s: the situations %s are no longer reached (vacuous)' % (h, missing))
    if len(results) < len(js) and not viol:
        problems.append('%d of %d jobs were not run' % (len(js) - len(results), len(js)))
    # code that was executed symbolically
    fl = collections.defaultdict(set)
    fn = set()
    for f, l, n in tot['lines']:
        if f.startswith(REPO + '/'):
            fl[f[len(REPO) + 1:]].add(l)
            fn.add(n)
    fn = demangle(fn)
    if os.environ.get('VP_LINES'):
        json.dump({f: sorted(l) for f, l in fl.items()}, open(os.environ['VP_LINES'] + '/' + prop, 'w'))
    wall = time.time() - t0
    ev = dict(property=prop, tier=tier, seed=seed, level='model_checking', wall_s=round(wall, 2), violations=len(viol),
              assumptions=J.ASSUME + spec.get('assume', []),
              coverage=dict(
                  states=tot['paths'], transitions=tot['steps'], traces_validated_against_impl=validated, samples=samples[:12],
                  explanation='states: symbolic end states (path conditions) reached, each standing for every input that satisfies it; '
                  'transitions: LLVM IR instructions executed symbolically; traces_validated_against_impl: concrete instances of paths '
                  'rerun against the native build with identical observations',
                  bounds=spec['bounds'] + ([] if tier == 'quick' else spec.get('bounds_thorough', [])),
                  outside=spec.get('outside', []),
                  jobs=rows, forks=tot['forks'], assumed_out=tot['assumed_out'], concretized=tot['concretized'],
                  solver=dict(tot['solver'], seconds=round(tot['solver']['seconds'], 2), name='Z3'),
                  functions_encoded=sorted(x for x in fn if x), source_lines_encoded={f: len(l) for f, l in sorted(fl.items())},
                  covers={h: {str(k): n for k, n in sorted(c.items())} for h, c in sorted(covers.items())},
                  build_s=round(tb, 1), problems=problems))
    os.makedirs(V + '/evidence', exist_ok=True)
    with open('%s/evidence/%s.json' % (V, prop), 'w') as f:
        json.dump(ev, f, indent=1)
    log('%s %s: %d jobs, %d paths, %d instructions, %d queries (%.1f s in the solver), %d native replays, %.1f s (build %.1f s)' % (
        prop, tier, len(results), tot['paths'], tot['steps'], tot['solver']['queries'], tot['solver']['seconds'], validated, wall, tb))
    if '-v' in sys.argv:
        for row in sorted(rows, key=lambda r: -r['wall_s'])[:25]:
            log('   %-40s %6.1f s %8d paths %7d queries %7.1f s solver' % (row['harness'] + str(row['params']), row['wall_s'], row['paths'], row['queries'], row['solver_s']))
    for p in problems:
        log('  problem:', p)
    seen = set()
    for rec, hit in known:
        if hit[0] not in seen:
            seen.add(hit[0])
            log('KNOWN-FINDING: property=%s %s' % (prop, hit[0][2]))
    if viol:
        d = V + '/work/replays'
        os.makedirs(d, exist_ok=True)
        for i, (rec, _) in enumerate(viol):
            f = '%s/%s-%d.json' % (d, prop, i)
            json.dump(dict(property=prop, crate=rec['job'].crate, request=rec['request'], profile=rec['profile'], kind=rec['kind'],
                           location=rec['location'], native=rec['native'], trace=rec['trace'],
                           how='python3 /verif/vp.py replay ' + f), open(f, 'w'), indent=1)
            log('  %s with %s: %s at %s' % (rec['kind'], rec['request'][:400], rec['native'][:300], rec['location'][:200]))
            log('VIOLATION property=%s replay=%s' % (prop, f))
        return 1
    return 2 if problems else 0


def replay(f):
    d = json.load(open(f))
    rel = d['profile'] == 'release'
    a = run_native(build_native(d['crate'], rel), [d['request']], 60)[0]
    log(d['request'])
    log(a)
    return 1 if a.startswith('PANIC') else 0


def setup():
    build_rsym()
    log(sh([RSYM, '--selftest', 'x', '--rounds', '3000'], V).strip())
    for c in J.CRATES:
        build_ir(c)
        build_native(c)
    return 0


def main():
    a = sys.argv[1:]
    try:
        if a[0] == 'setup':
            return setup()
        if a[0] == 'check':
            return check(a[1], a[2] if len(a) > 2 and a[2] in ('quick', 'thorough') else os.environ.get('VERIF_TIER', 'quick'))
        if a[0] == 'record':
            rc = 0
            tier = 'thorough' if 'thorough' in a else 'quick'
            for p in [x for x in a[1:] if re.match(r'C\d', x)] or sorted(J.PROPS):
                rc = max(rc, check(p, tier, True))
            return rc
        if a[0] == 'replay':
            return replay(a[1])
    except NoVerdict as e:
        log('no verdict:', e)
        return 2
    log(__doc__)
    return 2


sys.exit(main())
