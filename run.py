#!/usr/bin/env python3
"""Driver of all checks:  run.py <PROPERTY> [quick|thorough]   |   run.py --replay <file>

Builds the property's harness together with /repo's current sources, runs it in shards as
subprocesses under sanitizers, maps everything observed (oracle mismatches, sanitizer reports,
abnormal exits, hangs) to violations, filters listed known findings, writes the evidence file.
Exit: 0 held on everything explored, 1 violation (line on stdout), 2 error of the check.
"""
import sys, os, json, hashlib, subprocess, time, struct, resource, glob, shutil, re, tempfile
from concurrent.futures import ThreadPoolExecutor

VERIF = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get('SUSA_REPO', '/repo')
BUILD = os.path.join(VERIF, 'build')
HARN = os.path.join(VERIF, 'harness')
sys.path.insert(0, VERIF)
from checks import CHECKS

BASE = ['-std=c++17', '-g1', '-fno-omit-frame-pointer', '-D_GLIBCXX_ASSERTIONS', '-w', '-pipe']
SAN = ['-fsanitize=address,undefined,float-cast-overflow', '-fno-sanitize-recover=all']
VARIANTS = {
    # name: (compiler, flags, runtime environment)
    'san':    ('g++', ['-O1', '-DSUSA_NDEBUG'] + SAN, {}),
    'nas':    ('g++', ['-O1', '-DSUSA_NDEBUG', '-DSUSA_NASSERT'] + SAN, {}),
    'zero':   ('g++', ['-O1', '-DSUSA_NDEBUG', '-ftrivial-auto-var-init=zero'] + SAN, {'fill': 0}),
    'patt':   ('g++', ['-O1', '-DSUSA_NDEBUG', '-ftrivial-auto-var-init=pattern'] + SAN, {'fill': 0xA7}),
    'clang':  ('clang++', ['-O1', '-DSUSA_NDEBUG', '-fsanitize=address,undefined,float-cast-overflow', '-fno-sanitize-recover=all'], {}),
    # (unoptimised: the optimiser removes racing accesses whose values it can forward)
    'tsan':   ('g++', ['-O0', '-DSUSA_NDEBUG', '-fsanitize=thread'], {}),
    'plain':  ('g++', ['-O2', '-DSUSA_NDEBUG'], {}),
    # undefined behaviour only: no limit on the size of an allocation
    'ub':     ('g++', ['-O1', '-DSUSA_NDEBUG', '-fsanitize=undefined,float-cast-overflow', '-fno-sanitize-recover=all'], {}),
    # the build switches of the library (Z01): same optimisation, no sanitizer
    'zbase':  ('g++', ['-O1', '-DSUSA_NDEBUG'], {'silent': True}),
    'znas':   ('g++', ['-O1', '-DSUSA_NDEBUG', '-DSUSA_NASSERT'], {'silent': True}),
    'zlog':   ('g++', ['-O1'], {}),
    'zboth':  ('g++', ['-O1', '-DSUSA_NASSERT'], {}),
    'zndeb':  ('g++', ['-O1', '-DSUSA_NDEBUG', '-DNDEBUG'], {'silent': True}),
    # a program without assertions on the library as its build makes it
    'zmix':   ('g++', ['-O1', '-DSUSA_NDEBUG', '-DSUSA_NASSERT'], {'libflags': ['-O1']}),
    'ndeb':   ('g++', ['-O1', '-DSUSA_NDEBUG', '-DNDEBUG'] + SAN, {}),
    'vg':     ('g++', ['-O1', '-DSUSA_NDEBUG', '-DMON_VALGRIND'], {'valgrind': True}),
}

class HarnessError(Exception):
    pass

def sha(*parts):
    h = hashlib.sha256()
    for p in parts:
        h.update(p if isinstance(p, bytes) else p.encode()); h.update(b'\0')
    return h.hexdigest()[:24]

def read(p):
    with open(p, 'rb') as f:
        return f.read()

def repo_state():
    fs = sorted(glob.glob(REPO + '/inc/**/*', recursive=True) + glob.glob(REPO + '/src/**/*', recursive=True))
    return sha(*[x for f in fs if os.path.isfile(f) for x in (f, read(f))])

def run_cmd(cmd, **kw):
    return subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, **kw)

def compile_one(cc, flags, src, obj, extra_inc):
    tmp = obj + '.%d.tmp' % os.getpid()
    r = run_cmd([cc] + BASE + flags + ['-I', REPO + '/inc', '-I', HARN] + extra_inc + ['-c', src, '-o', tmp])
    if r.returncode != 0:
        raise HarnessError('compilation failed: %s\n%s' % (src, r.stdout.decode(errors='replace')[-6000:]))
    os.replace(tmp, obj)

def build(jobs):
    """jobs: list of (sources tuple, variant, defines tuple). returns {job: binary}"""
    os.makedirs(BUILD, exist_ok=True)
    state = repo_state()
    hdr = sha(*[read(f) for f in sorted(glob.glob(HARN + '/*.h'))])
    todo, bins = {}, {}
    libsrc = sorted(glob.glob(REPO + '/src/*.cpp'))
    for job in jobs:
        srcs, variant, defs = job
        cc, flags, opt = VARIANTS[variant]
        objs = []
        for s in [os.path.join(HARN, x) for x in srcs] + libsrc:
            lib = s.startswith(REPO)
            fl = opt.get('libflags', flags) if lib else flags + list(defs)
            key = sha(state, '' if lib else hdr, read(s), cc, *BASE, *fl, s)
            o = os.path.join(BUILD, key + '.o')
            objs.append(o)
            if not os.path.exists(o):
                todo[o] = (cc, fl, s)
        lk = sha(cc, *flags, *objs)
        bins[job] = (os.path.join(BUILD, 'bin_' + lk), cc, flags, objs)
    # long compilations (harness units) first
    order = sorted(todo.items(), key=lambda kv: (kv[1][2].startswith(REPO), -os.path.getsize(kv[1][2])))
    with ThreadPoolExecutor(max_workers=8) as ex:
        for f in [ex.submit(compile_one, cc, fl, s, o, []) for o, (cc, fl, s) in order]:
            f.result()
    out = {}
    for job, (b, cc, flags, objs) in bins.items():
        if not os.path.exists(b):
            tmp = b + '.%d.tmp' % os.getpid()
            r = run_cmd([cc] + flags + objs + ['-pthread', '-o', tmp])
            if r.returncode != 0:
                raise HarnessError('link failed:\n' + r.stdout.decode(errors='replace')[-4000:])
            os.replace(tmp, b)
        for p in objs + [b]:
            try: os.utime(p)
            except OSError: pass
        out[job] = b
    prune()
    return out

def prune(limit=6 << 30):
    fs = [(os.path.getmtime(p), os.path.getsize(p), p) for p in glob.glob(BUILD + '/*') if os.path.isfile(p)]
    tot = sum(x[1] for x in fs)
    for _, sz, p in sorted(fs):
        if tot < limit: break
        if time.time() - _ < 3600: break
        try: os.unlink(p); tot -= sz
        except OSError: pass

CRUMB = struct.Struct('<QdQ64s4096s')
def read_crumb(p):
    try:
        c, t, e, k, x = CRUMB.unpack(read(p)[:CRUMB.size])
        return {'case': c, 'cpu_start': t, 'evals': e, 'kind': k.split(b'\0')[0].decode(errors='replace'), 'text': x.split(b'\0')[0].decode(errors='replace')}
    except Exception:
        return {'case': 0, 'cpu_start': 0, 'evals': 0, 'kind': '?', 'text': ''}

def env_for(variant, wd, fill=None):
    e = dict(os.environ)
    opt = VARIANTS[variant][2]
    f = opt.get('fill', 0xCD) if fill is None else fill
    e['ASAN_OPTIONS'] = ('exitcode=77:abort_on_error=0:detect_leaks=1:detect_stack_use_after_return=1:strict_string_checks=1:'
                         'allocator_may_return_null=0:max_allocation_size_mb=1500:malloc_fill_byte=%d:max_malloc_fill_size=1073741824:'
                         'free_fill_byte=%d:max_free_fill_size=4096:quarantine_size_mb=64:handle_abort=0:symbolize=1' % (f, f ^ 0xFF if f else 0x5A))
    e['UBSAN_OPTIONS'] = 'print_stacktrace=1:halt_on_error=1:exitcode=77'
    e['TSAN_OPTIONS'] = 'halt_on_error=0:exitcode=77:second_deadlock_stack=1:log_path=%s/tsan' % wd
    e['LSAN_OPTIONS'] = 'exitcode=77'
    e['LC_ALL'] = 'C'; e['TZ'] = 'UTC'
    return e

def run_shard(binary, variant, shard, nshard, seed, tier, wd, cpu, extra=(), tag=''):
    out = os.path.join(wd, 'o%s_%d' % (tag, shard)); crumb = out + '.crumb'; err = out + '.err'
    for p in (out, crumb): 
        if os.path.exists(p): os.unlink(p)
    cmd = [binary, '--seed', str(seed), '--tier', tier, '--shard', str(shard), '--nshard', str(nshard), '--out', out, '--crumb', crumb] + list(extra)
    if VARIANTS[variant][2].get('valgrind'):
        cmd = ['valgrind', '--error-exitcode=77', '-q', '--leak-check=full', '--errors-for-leak-kinds=definite', '--num-callers=25'] + cmd
    def lim():
        resource.setrlimit(resource.RLIMIT_CPU, (int(cpu), int(cpu) + 5)); resource.setrlimit(resource.RLIMIT_CORE, (0, 0)); os.setsid()
    t0 = time.time()
    so = out + '.stdout' if VARIANTS[variant][2].get('silent') else os.devnull
    with open(err, 'wb') as ef, open(so, 'wb') as sf:
        p = subprocess.Popen(cmd, stdout=sf, stderr=ef, cwd=wd, env=env_for(variant, wd), preexec_fn=lim)
        wall = False
        try:
            rc = p.wait(timeout=cpu * 2 + 60)
        except subprocess.TimeoutExpired:
            wall = True
            import signal
            os.killpg(p.pid, signal.SIGKILL); rc = p.wait()
    r = {'rc': rc, 'wall': time.time() - t0, 'walltimeout': wall, 'crumb': read_crumb(crumb), 'err': read(err).decode(errors='replace'), 'data': None, 'sigs': b'', 'cmd': cmd, 'cpu': cpu}
    if so != os.devnull:
        with open(so, 'rb') as f: r['printed'] = f.read(2000).decode(errors='replace')
        r['printed'] += r['err'] if rc == 0 else ''
    if os.path.exists(out):
        try:
            r['data'] = json.loads(read(out)); r['sigs'] = read(out + '.sigs')
        except Exception as ex:
            r['badout'] = str(ex)
    return r

def classify(err, rc):
    m = re.search(r'runtime error: ([^\n]*)', err)
    if m: return 'ubsan', m.group(1)
    m = re.search(r'ERROR: (?:Address|Leak|Thread)Sanitizer:? ?([^\n]*)', err)
    if m:
        k = m.group(1).split(' ')[0].strip(':')
        return ('leak' if 'detected memory leaks' in m.group(0) else 'asan-' + k), m.group(0)
    m = re.search(r'WARNING: ThreadSanitizer: ([^\n]*)', err)
    if m: return 'tsan', m.group(1)
    m = re.search(r'Assertion [^\n]*', err)
    if m: return 'assert', m.group(0)
    m = re.search(r'terminate called[^\n]*\n?[^\n]*', err)
    if m: return 'exception', m.group(0)
    if '==' in err and 'valgrind' in err.lower() or 'uninitialised' in err or 'Invalid read' in err or 'Invalid write' in err or 'definitely lost' in err:
        return 'valgrind', err[:300]
    return 'exit', 'exit status %s' % rc

def frames(err):
    fr = re.findall(r'#\d+ 0x[0-9a-f]+ in ([^\n]*)', err)
    return [f for f in fr if '/repo/' in f or REPO in f][:4]

def known_findings():
    p = os.path.join(VERIF, 'known_findings.json')
    return json.loads(read(p)) if os.path.exists(p) else {'findings': [], 'fixed': []}

def extra_args(chk, j, tier):
    # the quick tier of each check is sized to use about half a minute of running time
    extra = list(j.get('args', ())); sc = chk.get('scale', 1) if tier == 'quick' else 1
    if sc != 1:
        if '--scale' in extra:
            i = extra.index('--scale'); extra[i + 1] = str(float(extra[i + 1]) * sc)
        else: extra += ['--scale', str(sc)]
    return extra, sc

def run_check(pid, tier):
    t0 = time.time()
    seed = int(os.environ.get('VERIF_SEED', '1') or 1)
    chk = CHECKS[pid]
    jobs = []
    for j in chk['jobs']:
        if tier not in j.get('tiers', ('quick', 'thorough')): continue
        n = j.get('parts', 1)
        if n == 1: jobs.append(j)
        else: jobs += [dict(j, defs=list(j.get('defs', ())) + ['-DMON_PART=%d' % k], shards=j.get('shards', max(1, 8 // n))) for k in range(n)]
    keyof = lambda j: (tuple(j['src']), j['variant'], tuple(j.get('defs', ())))
    bins = build([keyof(j) for j in jobs])
    tb = time.time() - t0
    wd = tempfile.mkdtemp(prefix='verif_%s_' % pid, dir='/tmp')
    viols, errors = [], []
    evals = 0; sigset = set(); kinds = {}; stats = {}; samples = []; execs = 0
    digests = {}
    try:
        work = []
        for ji, j in enumerate(jobs):
            n = j.get('shards', 8)
            for s in range(n):
                work.append((ji, j, s, n))
        hung = []   # once one case is known to hang, work not yet started is skipped
        def one(w):
            ji, j, s, n = w
            b = bins[keyof(j)]
            if hung: return w, None
            cpu = j.get('cpu', 60) * (6 if tier == 'thorough' else 1)
            extra, sc = extra_args(chk, j, tier)
            if sc > 1: cpu = max(cpu, min(150, cpu * sc))
            r = run_shard(b, j['variant'], s, n, seed, tier, wd, cpu, extra, tag='%d' % ji)
            if r['rc'] in (-24, -9, 152, 137) or r['walltimeout']:
                c1 = r['crumb']
                r2 = run_shard(b, j['variant'], s, n, seed, tier, wd, cpu, extra, tag='%d' % ji)   # once more before it counts
                if r2['rc'] in (-24, -9, 152, 137) or r2['walltimeout']:
                    c2 = r2['crumb']
                    r2['hang'] = c1['case'] == c2['case'] and cpu - c1['cpu_start'] > 0.4 * cpu and cpu - c2['cpu_start'] > 0.4 * cpu
                    r2['limit'] = True
                    if r2['hang']: hung.append(1)
                r = r2
            return w, r
        with ThreadPoolExecutor(max_workers=8) as ex:
            results = list(ex.map(one, work))
        for (ji, j, s, n), r in results:
            if r is None: continue
            tag = '%s/%s' % ('+'.join(j['src']), j['variant'])
            execs += 1
            ctx = {'harness': j['src'], 'variant': j['variant'], 'defs': list(j.get('defs', ())), 'args': extra_args(chk, j, tier)[0], 'shard': s, 'nshard': n, 'seed': seed, 'tier': tier}
            d = r['data']
            if d:
                evals += d['evaluations']
                for k, v in d['kinds'].items(): kinds[k] = kinds.get(k, 0) + v
                for k, v in d['stats'].items():
                    if k.startswith('n_'): stats[k] = stats.get(k, 0) + v
                    elif k.startswith('dig:'):
                        if not j.get('no_digest'): digests.setdefault(k[4:], {}).setdefault((s if not j.get('digest_all') else 0), {})[j['variant'] + '/' + str(ji)] = v
                    else: stats[k] = max(stats.get(k, v), v)
                for x in d['samples']:
                    if len(samples) < 10 and not any(y.split(':')[0] == x.split(':')[0] for y in samples): samples.append(x)
                sg = r['sigs']; sigset.update(sg[i:i + 8] for i in range(0, len(sg), 8))
                for v in ([] if j.get('crash_only') else d['viol']):   # crash_only: only abnormal ends count (the values are another check's business)
                    viols.append(dict(key=v['key'], detail=v['detail'], ctx=ctx))
            else:
                evals += r['crumb']['evals']
            tsan_logs = ''.join(read(f).decode(errors='replace') for f in glob.glob(wd + '/tsan.*')) if j['variant'] == 'tsan' else ''
            if r.get('limit'):
                if r['hang']:
                    viols.append(dict(key='hang:' + r['crumb']['kind'], detail='no progress in case after %d s of CPU time, twice: [%s] %s' % (r['cpu'], r['crumb']['kind'], r['crumb']['text']), ctx=ctx))
                else:
                    errors.append('%s shard %d: inconclusive, CPU limit reached in different cases' % (tag, s))
            elif r['rc'] == 0 and d:
                if r.get('printed'):
                    viols.append(dict(key='output:' + j['variant'], detail='with log messages deactivated the valid calls printed: ' + r['printed'][:600], ctx=ctx))
            elif r['rc'] == 9 or (r['rc'] == 0 and not d):
                errors.append('%s shard %d: harness error rc=%s %s' % (tag, s, r['rc'], r['err'][-800:]))
            else:
                err = r['err'] + tsan_logs
                kind, msg = classify(err, r['rc'])
                if 'allocation-size-too-big' in err: kind = 'asan-alloc-size'
                where = r['crumb']['kind'] if kind != 'leak' else 'run'
                viols.append(dict(key='crash:%s:%s' % (kind, where), detail='[%s] %s :: %s rc=%s at %s' % (r['crumb']['kind'], r['crumb']['text'][:800], msg, r['rc'], ' <- '.join(frames(err))), ctx=ctx, stderr=err[-12000:]))
        # digests that must agree between jobs (results may not depend on memory contents)
        for k, per in digests.items():
            for s, m in per.items():
                if len(set(m.values())) > 1:
                    viols.append(dict(key='digest:' + k, detail='results of %s differ between %s: %s' % (k, chk.get('between', 'memory fill patterns'), m), ctx={'harness': jobs[0]['src'], 'shard': s, 'seed': seed, 'tier': tier}))
        if digests:
            stats['digest_groups_compared'] = len(digests)
            stats['digest_comparisons'] = sum(len(p) for p in digests.values())
    finally:
        shutil.rmtree(wd, ignore_errors=True)

    kf = known_findings()
    fresh, known = [], {}
    for v in viols:
        m = [f for f in kf['findings'] if f['property'] == pid and re.search(f['key'], v['key']) and re.search(f.get('detail', ''), v['detail'])]
        if m: known.setdefault(m[0]['id'], m[0])
        else: fresh.append(v)
    for f in kf['findings']:
        if f['property'] == pid and f['id'] in known:
            print('KNOWN-FINDING: property=%s %s' % (pid, f['what']))
    missing = [k for k in chk.get('must_see', []) if not any(x.startswith(k) for x in kinds)]
    if not fresh and not errors and (evals < chk.get('min_evals', 50) or missing):
        errors.append('observed too little: %d evaluations, missing kinds %s' % (evals, missing))
    ev = {'property': pid, 'tier': tier, 'seed': seed, 'level': chk['level'],
          'coverage': {'evaluations': evals, 'distinct_nontrivial': len(sigset), 'rule': chk['rule'], 'samples': samples,
                       'cases_by_kind': dict(sorted(kinds.items())), 'process_executions': execs,
                       'builds': sorted({j['variant'] for j in jobs}), 'measured': {k: (float('%.4g' % v) if isinstance(v, float) and abs(v) < 1e6 and v != int(v) else v) for k, v in sorted(stats.items())}},
          'assumptions': chk.get('assumptions', []), 'wall_s': round(time.time() - t0, 2), 'violations': len(fresh)}
    ev['coverage']['build_s'] = round(tb, 2)
    os.makedirs(VERIF + '/evidence', exist_ok=True)
    with open(VERIF + '/evidence/%s.json' % pid, 'w') as f:
        json.dump(ev, f, indent=1)
    if fresh:
        os.makedirs(VERIF + '/evidence/replay', exist_ok=True)
        seen = set()
        for v in fresh:
            if v['key'] in seen or len(seen) >= 8: continue
            seen.add(v['key'])
            rp = VERIF + '/evidence/replay/%s_%s.json' % (pid, sha(v['key'], v['detail'])[:10])
            with open(rp, 'w') as f:
                json.dump(dict(property=pid, **v), f, indent=1)
            print('VIOLATION property=%s replay=%s' % (pid, rp))
            print('  %s: %s' % (v['key'], v['detail'][:600].replace('\n', ' ')))
        return 1
    if errors:
        print('CHECK-ERROR property=%s' % pid)
        for e in errors[:5]: print('  ' + e)
        return 2
    print('OK property=%s tier=%s seed=%d: %d cases, %d distinct, %.1f s (build %.1f s)' % (pid, tier, seed, evals, len(sigset), time.time() - t0, tb))
    return 0

def replay(path):
    v = json.loads(read(path)); c = v['ctx']
    job = (tuple(c['harness']), c.get('variant', 'san'), tuple(c.get('defs', ())))
    b = build([job])[job]
    wd = tempfile.mkdtemp(prefix='verif_replay_', dir='/tmp')
    try:
        r = run_shard(b, job[1], c['shard'], c.get('nshard', 8), c['seed'], c['tier'], wd, 900, c.get('args', ()))
    finally:
        shutil.rmtree(wd, ignore_errors=True)
    print('exit', r['rc'], 'last case', r['crumb']); print(r['err'][-6000:])
    if r['data']: print(json.dumps(r['data']['viol'], indent=1))
    return 1 if r['rc'] != 0 or (r['data'] and r['data']['viol']) else 0

def main():
    if len(sys.argv) >= 3 and sys.argv[1] == '--replay':
        return replay(sys.argv[2])
    if len(sys.argv) >= 2 and sys.argv[1] == '--setup':
        os.makedirs(BUILD, exist_ok=True)
        for t in ('g++', 'clang++', 'valgrind'):
            print(t, shutil.which(t))
        return 0 if shutil.which('g++') else 2
    pid = sys.argv[1]
    tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get('VERIF_TIER', 'quick')
    try:
        return run_check(pid, tier)
    except HarnessError as e:
        print('CHECK-ERROR property=%s %s' % (pid, e)); return 2

if __name__ == '__main__':
    sys.exit(main())
