#!/usr/bin/env python3
"""vc.py setup | check <PROP> [quick|thorough] | replay <file>
Builds the extension from /repo's working tree (never inside it), runs the exploration jobs of one property in
parallel, writes evidence/<PROP>.json, prints VIOLATION / KNOWN-FINDING lines."""
import sys, os, re, json, hashlib, subprocess, shutil, time, tempfile, glob
from concurrent.futures import ThreadPoolExecutor, as_completed

V = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get('VERIF_REPO', '/repo')
PHP = 'php8.3'
NPROC = int(os.environ.get('VERIF_JOBS', '8'))
BUILD = os.path.join(V, 'build')
ENV = {'PATH': '/usr/local/sbin:/usr/local/bin:/usr/sbin:/usr/bin:/sbin:/bin', 'HOME': '/root', 'LC_ALL': 'C.UTF-8', 'TZ': 'UTC'}
MODES = {
    'asan': ['-O1', '-g', '-fno-omit-frame-pointer', '-fsanitize=address', '-D_erealloc2=teds_mc_erealloc2'],
    'ub': ['-O1', '-g', '-fno-omit-frame-pointer', '-fsanitize=address,undefined,float-cast-overflow', '-fno-sanitize-recover=undefined,float-cast-overflow', '-D_erealloc2=teds_mc_erealloc2'],
    'zmm': ['-O2', '-g'],
}

class BuildError(Exception): pass

def sh(cmd, **kw):
    return subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, env=ENV, **kw)

def sources():
    m4 = open(os.path.join(REPO, 'config.m4')).read()
    m = re.search(r'^\s*PHP_TEDS_SRC_FILES="([^"]*)"', m4, re.M)
    names = m.group(1).split() if m else [os.path.basename(f) for f in glob.glob(os.path.join(REPO, 'teds*.c'))]
    return sorted(names)

def tree_hash(mode):
    h = hashlib.sha256()
    h.update(repr((mode, MODES[mode], sources())).encode())
    h.update(open(os.path.join(V, 'lib/shim.c'), 'rb').read())
    for d, dirs, files in os.walk(REPO):
        dirs[:] = sorted(x for x in dirs if x not in ('.git', 'tests', '_build', 'build', 'autom4te.cache', '.libs', 'modules', 'include', 'benchmarks', 'ci'))
        for f in sorted(files):
            if f.endswith(('.c', '.h')) and f != 'config.h':
                p = os.path.join(d, f)
                h.update(os.path.relpath(p, REPO).encode() + b'\0' + open(p, 'rb').read() + b'\0')
    return h.hexdigest()[:20]

def build(mode):
    out = os.path.join(BUILD, '%s-%s' % (mode, tree_hash(mode)))
    if os.path.exists(os.path.join(out, 'teds.so')):
        return out
    os.makedirs(BUILD, exist_ok=True)
    tmp = tempfile.mkdtemp(prefix='tmp-', dir=BUILD)
    try:
        inc = sh(['php-config8.3', '--includes']).stdout.split()
        base = ['gcc'] + MODES[mode] + ['-fPIC', '-w', '-DCOMPILE_DL_TEDS=1', '-DHAVE_TEDS=1', '-DZEND_COMPILE_DL_EXT=1', '-DPHP_ATOM_INC', '-I' + REPO, '-I' + os.path.join(REPO, 'src')] + inc
        def cc(name):
            o = os.path.join(tmp, name.replace('/', '_') + '.o')
            r = sh(base + ['-c', os.path.join(REPO, name), '-o', o])
            return name, o, r
        with ThreadPoolExecutor(NPROC) as ex:
            res = list(ex.map(cc, sources()))
        for name, o, r in res:
            if r.returncode: raise BuildError('%s: %s' % (name, r.stdout[-3000:]))
        r = sh(['gcc'] + MODES[mode] + ['-shared', '-o', os.path.join(tmp, 'teds.so')] + [o for _, o, _ in res])
        if r.returncode: raise BuildError(r.stdout[-3000:])
        r = sh(['gcc', '-shared', '-fPIC', '-O1', '-o', os.path.join(tmp, 'shim.so'), os.path.join(V, 'lib/shim.c'), '-ldl'])
        if r.returncode: raise BuildError(r.stdout[-3000:])
        for _, o, _ in res: os.unlink(o)
        try: os.rename(tmp, out)
        except OSError:
            if not os.path.exists(os.path.join(out, 'teds.so')): raise
    finally:
        if os.path.isdir(tmp): shutil.rmtree(tmp, ignore_errors=True)
    # keep only a few old builds
    olds = sorted((d for d in glob.glob(os.path.join(BUILD, mode + '-*'))), key=os.path.getmtime)
    for d in olds[:-6]: shutil.rmtree(d, ignore_errors=True)
    return out

_libasan = None
def libasan():
    global _libasan
    if _libasan is None:
        _libasan = sh(['gcc', '-print-file-name=libasan.so']).stdout.strip()
    return _libasan

def php_cmd(mode, bdir, args, trace=None, alarm=None):
    env = dict(ENV)
    if mode in ('asan', 'ub'):
        env['LD_PRELOAD'] = os.path.join(bdir, 'shim.so') + ':' + libasan()
        env['USE_ZEND_ALLOC'] = '0'
        env['ASAN_OPTIONS'] = 'detect_leaks=0:verify_asan_link_order=0:quarantine_size_mb=48:hard_rss_limit_mb=6000:malloc_context_size=12:exitcode=77:allocator_may_return_null=0:max_free_fill_size=65536:free_fill_byte=90:max_malloc_fill_size=65536'
    if trace: env['VERIF_TRACE'] = trace
    if alarm: env['VERIF_ALARM'] = str(alarm)
    for k in ('VERIF_DEEP',):
        if k in os.environ: env[k] = os.environ[k]
    return [PHP, '-n', '-d', 'extension=' + os.path.join(bdir, 'teds.so'), os.path.join(V, 'lib/main.php')] + args, env

def run_php(mode, bdir, args, timeout, trace=None, alarm=None):
    cmd, env = php_cmd(mode, bdir, args, trace, alarm)
    t = time.time()
    try:
        p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.PIPE, env=env, timeout=timeout, stdin=open('/dev/null'))
        return p.returncode, p.stdout.decode('utf8', 'replace'), p.stderr.decode('utf8', 'replace'), time.time() - t
    except subprocess.TimeoutExpired as e:
        return 'timeout', (e.stdout or b'').decode('utf8', 'replace'), (e.stderr or b'').decode('utf8', 'replace'), time.time() - t

def parse(out, tag):
    for l in out.splitlines():
        if l.startswith(tag + ' '):
            try: return json.loads(l[len(tag) + 1:])
            except ValueError: return None
    return None

def summarize_err(rc, err):
    for pat in (r'[^ ]*: runtime error: .*', r'ERROR: AddressSanitizer: .*', r'SUMMARY: AddressSanitizer: .*', r'PHP Fatal error: .*', r'Fatal error: .*'):
        m = re.search(pat, err)
        if m: return m.group(0)[:300]
    return 'exit %s %s' % (rc, err.strip().splitlines()[-1][:200] if err.strip() else '')

def run_job(prop, job, bdirs, timeout):
    mode = job.get('mode', os.environ.get('VERIF_MODE', 'asan'))
    js = json.dumps(job)
    rc, out, err, secs = run_php(mode, bdirs[mode], [prop, 'run', js], timeout)
    res = {'job': job, 'secs': secs}
    if rc == 0:
        st = parse(out, 'RESULT')
        if st is None:   # exited early without finishing: exit() reached from PHP code cannot happen, so this is a silent fatal
            res.update(status='crash', msg='no result line; ' + summarize_err(rc, err)); return diagnose(prop, job, bdirs, res, timeout)
        res.update(status='ok', stats=st); return res
    if rc == 3:
        v = parse(out, 'VIOL')
        if v: res.update(status='viol', msg=v['msg'], at=v['at'], stats=v.get('stats')); return confirm(prop, job, bdirs, res)
    if rc == 9:
        res.update(status='harness', msg=err[-1500:]); return res
    if rc == 'timeout':
        res.update(status='timeout', msg='job exceeded %ds' % timeout); return res
    if rc == -9:
        res.update(status='harness', msg='killed (out of memory?)'); return res
    res.update(status='crash', msg=summarize_err(rc, err), stderr=err[:6000], rc=rc)
    return diagnose(prop, job, bdirs, res, timeout)

def diagnose(prop, job, bdirs, res, timeout):
    """A job crashed or hung: run it again with tracing on to learn the history being executed, then replay that history alone."""
    mode = job.get('mode', os.environ.get('VERIF_MODE', 'asan'))
    os.makedirs(os.path.join(V, 'out'), exist_ok=True)
    fd, tr = tempfile.mkstemp(prefix='trace-', dir=os.path.join(V, 'out')); os.close(fd)
    rc, out, err, _ = run_php(mode, bdirs[mode], [prop, 'run', json.dumps(job)], max(timeout, 400), trace=tr, alarm=60)
    try: at = json.load(open(tr))
    except ValueError: at = None
    os.unlink(tr)
    if rc == 0 and parse(out, 'RESULT'):
        res.update(status='flaky', msg='crashed once, passed when repeated: ' + res['msg']); return res
    if rc == 3:
        v = parse(out, 'VIOL'); at = v['at']; res['msg'] = v['msg']
    else:
        res['msg'] = summarize_err(rc, err) if rc != 'timeout' else 'hang'
        if rc == 124 or 'Maximum execution time of' in err: res['msg'] = 'hang: operation did not return within 60 s of processor time'
        res['stderr'] = err[:6000]
    res.update(status='viol', at=at)
    return confirm(prop, job, bdirs, res)

def confirm(prop, job, bdirs, res):
    mode = job.get('mode', os.environ.get('VERIF_MODE', 'asan'))
    if res.get('at'):
        rc, out, err, _ = run_php(mode, bdirs[mode], [prop, 'replay', json.dumps(job), json.dumps(res['at'])], 300, alarm=60)
        res['replay_alone'] = {'rc': rc, 'msg': (parse(out, 'VIOL') or {}).get('msg') or (summarize_err(rc, err) if rc != 0 else 'passes alone')}
    return res

def load_known():
    p = os.path.join(V, 'known_findings.json')
    if not os.path.exists(p): return []
    return [k for k in json.load(open(p)) if k.get('status') == 'known']

def check(prop, tier):
    t0 = time.time()
    try:
        with ThreadPoolExecutor(2) as ex:
            f = {m: ex.submit(build, m) for m in ('zmm', 'ub' if prop == 'C25' else os.environ.get('VERIF_MODE', 'asan'))}
            bdirs = {m: x.result() for m, x in f.items()}
    except BuildError as e:
        print('BUILD ERROR', e); return 2
    rc, out, err, _ = run_php('zmm', bdirs['zmm'], [prop, 'list', tier], 60)
    if rc != 0:
        # the extension does not even load
        rc2, out2, err2, _ = run_php('zmm', bdirs['zmm'], [prop, 'list', tier], 60)
        print(out, err); return 2
    jobs = json.loads(out)
    if os.environ.get('VERIF_ONLY'): jobs = [j for j in jobs if re.search(os.environ['VERIF_ONLY'], j['name'])]   # debugging aid
    limit = 840 if tier == 'quick' else 6 * 3600
    deadline = t0 + limit
    results = []
    order = sorted(jobs, key=lambda j: -j.get('weight', 1))
    stop = False
    with ThreadPoolExecutor(NPROC) as ex:
        futs = []
        def go(j):
            if stop: return None
            return run_job(prop, j, bdirs, max(30, deadline - time.time()))
        futs = [ex.submit(go, j) for j in order]
        for f in as_completed(futs):
            r = f.result()
            if r is None: continue
            results.append(r)
            if os.environ.get('VERIF_VERBOSE'):
                st = r.get('stats') or {}
                if r['status'] == 'ok' or r.get('msg') not in [x.get('msg') for x in results[:-1]]: print('  %-8s %6.1fs st=%s tr=%s ev=%s %s %s %s' % (r['status'], r['secs'], st.get('states'), st.get('transitions'), st.get('evals'), r['job'].get('name'), r.get('msg', '')[:200], json.dumps(r.get('at'))[-200:] if r.get('at') else ''), flush=True)
            if r['status'] == 'viol' and tier == 'quick' and not os.environ.get('VERIF_ALL'): stop = True
    viols = [r for r in results if r['status'] == 'viol']
    bad = [r for r in results if r['status'] in ('harness', 'flaky')]
    tmo = [r for r in results if r['status'] == 'timeout']
    agg = {'states': 0, 'transitions': 0, 'traces': 0, 'evals': 0, 'distinct': 0}
    outc = {}; samples = []; capped = []; notes = []; maxdepth = 0
    for r in results:
        st = r.get('stats') or {}
        for k in agg: agg[k] += st.get(k) or 0
        for k, n in (st.get('outcomes') or {}).items(): outc[k] = outc.get(k, 0) + n
        samples += (st.get('samples') or [])[:1]
        if st.get('capped'): capped.append(r['job'].get('name'))
        notes += st.get('notes') or []
        maxdepth = max(maxdepth, st.get('maxdepth') or 0)
    known = [k for k in load_known() if k['property'] == prop]
    printed = []; real = []
    for r in viols:
        hit = next((k for k in known if k.get('job') == r['job'].get('name') and k.get('at') == r.get('at')), None)
        if hit: printed.append(hit)
        else: real.append(r)
    man = json.load(open(os.path.join(V, 'MANIFEST.json')))
    level = next((c['level'] for c in man['checks'] if c['property'] == prop), 'model_checking')
    cov = {'jobs': len(results), 'samples': samples[:8], 'distinct_outcomes': len(outc), 'outcomes': dict(sorted(outc.items(), key=lambda x: -x[1])[:40]),
           'exhaustive': not capped and not tmo and not bad and len(results) == len(jobs), 'capped_jobs': capped, 'unfinished_jobs': [r['job'].get('name') for r in tmo],
           'bounds': sorted({r['job'].get('bound', '') for r in results} - {''}), 'notes': sorted(set(notes))[:20]}
    if level == 'model_checking':
        cov.update(states=agg['states'], transitions=agg['transitions'], traces_validated_against_impl=agg['traces'], max_history_length=maxdepth)
        if agg['evals']: cov['evaluations'] = agg['evals']
    else:
        cov.update(evaluations=agg['evals'] or agg['transitions'], distinct_nontrivial=agg['distinct'] or len(outc), rule=next((r['job']['rule'] for r in results if 'rule' in r['job']), 'every case in the stated bounds, each executed on the real extension and compared with the reference'))
        if agg['states']: cov.update(states=agg['states'], transitions=agg['transitions'], traces_validated_against_impl=agg['traces'])
    ev = {'property': prop, 'tier': tier, 'seed': int(os.environ.get('VERIF_SEED', '1')), 'level': level, 'coverage': cov,
          'assumptions': ['PHP 8.3.6 NTS as installed', 'values outside the stated alphabets behave like the sampled representatives of their class'],
          'wall_s': round(time.time() - t0, 2), 'violations': len(real)}
    os.makedirs(os.path.join(V, 'evidence'), exist_ok=True)
    with open(os.path.join(V, 'evidence', prop + '.json'), 'w') as f: json.dump(ev, f, indent=1)
    for k in printed: print('KNOWN-FINDING: property=%s %s' % (prop, k['what']))
    for k in known:
        if 'KF:' + k.get('id', '?') in notes: print('KNOWN-FINDING: property=%s %s' % (prop, k['what']))
    print('%s %s: jobs=%d states=%d transitions=%d traces=%d evaluations=%d outcomes=%d wall=%.1fs' % (prop, tier, len(results), agg['states'], agg['transitions'], agg['traces'], agg['evals'], len(outc), time.time() - t0))
    if real:
        r = real[0]
        os.makedirs(os.path.join(V, 'out'), exist_ok=True)
        h = hashlib.sha256(json.dumps([r['job'], r.get('at')]).encode()).hexdigest()[:10]
        path = os.path.join(V, 'out', '%s-%s.json' % (prop, h))
        json.dump({'property': prop, 'job': r['job'], 'at': r.get('at'), 'msg': r['msg'], 'replay_alone': r.get('replay_alone'), 'stderr': r.get('stderr')}, open(path, 'w'), indent=1)
        print('job %s: %s' % (json.dumps(r['job']), r['msg']))
        print('at %s' % json.dumps(r.get('at'))[:2000])
        print('replayed alone: %s' % json.dumps(r.get('replay_alone')))
        print('VIOLATION property=%s replay=%s' % (prop, path))
        return 1
    if bad or tmo:
        for r in bad + tmo: print('ERROR job %s: %s %s' % (json.dumps(r['job']), r['status'], r['msg']))
        if bad: return 2
        if tier == 'quick': return 2
    return 0

def main():
    a = sys.argv[1:]
    if a[0] == 'setup':
        try:
            for m in MODES: print(build(m))
        except BuildError as e: print(e); return 2
        return 0
    if a[0] == 'check':
        tier = a[2] if len(a) > 2 else os.environ.get('VERIF_TIER', 'quick')
        return check(a[1], tier)
    if a[0] == 'replay':
        d = json.load(open(a[1])); m = d['job'].get('mode', 'asan')
        rc, out, err, _ = run_php(m, build(m), [d['property'], 'replay', json.dumps(d['job']), json.dumps(d['at'])], 600)
        print(out); print(err[:4000]); print('exit', rc)
        return 0 if rc == 0 else 1
    return 2
if __name__ == '__main__': sys.exit(main())
