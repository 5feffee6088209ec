#!/usr/bin/env python3
"""mutate.py FILE[,FILE...] COUNT SEED OUT.jsonl [WORKERS]  - development aid, not a registered check.
Generates mutants of the C sources in scratch copies, keeps those that compile and pass the stable tests, and runs the
exploration jobs of the properties that concern the file until one reports; prints the survivors for manual inspection."""
import sys, os, re, json, random, subprocess, shutil, threading, queue, time, hashlib
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__))); sys.path.insert(0, V)
os.environ['VERIF_REPO'] = '/repo'
import vc
W = '/tmp/mut'
CLS = {'teds_vector.c': ('Vector|StrictSortedVectorSet|StrictM..Heap', 'C01 C08 C09'), 'teds_deque.c': ('Deque', 'C02'),
 'teds_intvector.c': ('IntVector|SortedIntVectorSet|ImmutableSortedIntSet', 'C03 C08 C11'), 'teds_lowmemoryvector.c': ('LowMemoryVector', 'C04'), 'teds_bitvector.c': ('BitVector', 'C05'),
 'teds_stricthashmap.c': ('StrictHashMap', 'C06'), 'teds_stricthashset.c': ('StrictHashSet', 'C06'), 'teds_stricttreemap.c': ('StrictTreeMap', 'C07'), 'teds_stricttreeset.c': ('StrictTreeSet', 'C07'),
 'teds_strictsortedvectormap.c': ('StrictSortedVectorMap', 'C08'), 'teds_strictsortedvectorset.c': ('StrictSortedVectorSet', 'C08'), 'teds_strictheap.c': ('StrictM..Heap', 'C09'),
 'teds_mutableiterable.c': ('MutableIterable|StrictSortedVectorMap', 'C10 C08'), 'teds_immutablesequence.c': ('ImmutableSequence', 'C11'), 'teds_immutableiterable.c': ('ImmutableIterable', 'C11'),
 'teds_immutablesortedstringset.c': ('ImmutableSortedStringSet', 'C11'), 'teds_emptycollection.c': ('Empty', 'C11'), 'teds_cachediterable.c': ('CachedIterable', 'C12'),
 'teds.c': ('function|fn|helper', 'C14 C15 C16 C17'), 'teds_util.c': ('', 'C14 C01'), 'teds_util.h': ('', 'C01 C14'),
 'teds_stricthashmap.h': ('StrictHashMap', 'C06'), 'teds_stricthashset.h': ('StrictHashSet', 'C06'), 'teds_stricttreemap.h': ('StrictTreeMap', 'C07'), 'teds_stricttreeset.h': ('StrictTreeSet', 'C07'), 'teds_vector.h': ('Vector', 'C01 C08 C09'), 'teds_mutableiterable.h': ('MutableIterable', 'C10 C08'), 'teds_intvector.h': ('IntVector|Int', 'C03 C08'), 'teds_serialize_util.h': ('IntVector|LowMemoryVector|BitVector', 'C18')}
CROSS = 'C24 C22 C20 C23 C18 C19 C13 C21'.split()
def strip(s):  # blank out comments and strings, same length
    return re.sub(r'/\*.*?\*/|//[^\n]*|"(?:\\.|[^"\\\n])*"', lambda m: re.sub(r'[^\n]', ' ', m.group(0)), s, flags=re.S)
def mutants(fn):
    s = open('/repo/' + fn).read(); t = strip(s); out = []
    start = t.find('\n{')  # first function body
    def add(i, j, new, kind):
        if i < start: return
        ln = t.rfind('\n', 0, i) + 1; line = t[ln:t.find('\n', i)]
        if 'ZEND_ASSERT' in line or 'UNREACHABLE' in line or line.lstrip().startswith('#') or 'zend_throw' in line or 'REGISTER' in line: return
        out.append((fn, s.count('\n', 0, i) + 1, i, j, new, kind))
    R = [(r'(?<![<\->=+])<(?![<=])', '<=', 'rel'), (r'<=', '<', 'rel'), (r'(?<![>\-=])>(?![>=])', '>=', 'rel'), (r'(?<!>)>=', '>', 'rel'), (r'==', '!=', 'rel'), (r'!=', '==', 'rel'), (r'&&', '||', 'log'), (r'\|\|', '&&', 'log'),
         (r' \+ 1\b', '', 'const'), (r' - 1\b', '', 'const'), (r'>> 1\b', '>> 2', 'const'), (r'>> 2\b', '>> 1', 'const'), (r'\b4\b', '2', 'const'), (r'\b2\b', '3', 'const'), (r'\b0\b(?=[,)])', '1', 'const'), (r'\+\+', '--', 'inc'), (r'--', '++', 'inc'),
         (r'(?<=[,( ])true(?=[,)])', 'false', 'bool'), (r'(?<=[,( ])false(?=[,)])', 'true', 'bool'), (r'\bZVAL_COPY\(', 'ZVAL_COPY_VALUE(', 'rc'), (r'\bZVAL_COPY_VALUE\(', 'ZVAL_COPY(', 'rc'), (r'\bRETURN_TRUE\b', 'RETURN_FALSE', 'ret'), (r'\bRETURN_FALSE\b', 'RETURN_TRUE', 'ret'),
         (r'return true;', 'return false;', 'ret'), (r'return false;', 'return true;', 'ret'), (r'\bRETURN_COPY\(', 'RETURN_COPY_VALUE(', 'rc'), (r'(?<=[a-z_)\]]) \+ (?=[a-z_(])', ' - ', 'arith'), (r'(?<=[a-z_)\]]) - (?=[a-z_(])', ' + ', 'arith'), (r'\bbreak;', ';', 'flow'), (r'\bcontinue;', ';', 'flow'),
         (r'\bsize\b(?= *[*])', 'capacity', 'name'), (r'\bold_size\b', 'new_size', 'name'), (r'\bnew_size\b', 'old_size', 'name'), (r'\buint32_t\b(?= [a-z_]+ =)', 'uint8_t', 'type'), (r'\bsize_t\b(?= [a-z_]+ =)', 'uint8_t', 'type')]
    for pat, new, kind in R:
        for m in re.finditer(pat, t): add(m.start(), m.end(), new, kind)
    for m in re.finditer(r'^\t+(?!return|break|case|continue|goto|RETURN|const |zval |zend_|uint|size_t|int|bool|teds_\w+ \*|struct|static)([^\n{}#]+);( \\)?$', t, re.M):
        if t[m.start():m.end()].count(';') == 1 and 'ZEND_PARSE' not in m.group(1): add(m.start(1), m.end(1), '(void)0', 'del')
    for m in re.finditer(r'\bif \((?!UNEXPECTED\(EG\(exception)', t):
        d = 0; k = m.end() - 1
        while k < len(t):
            d += (t[k] == '(') - (t[k] == ')')
            if d == 0: break
            k += 1
        if k - m.end() < 200: add(m.end(), k, 'false', 'if'); add(m.end(), k, 'true', 'if')
    return s, out
def cc(mode, repo, name, o):
    inc = INC; base = ['gcc'] + vc.MODES[mode] + ['-fPIC', '-w', '-DCOMPILE_DL_TEDS=1', '-DHAVE_TEDS=1', '-DZEND_COMPILE_DL_EXT=1', '-DPHP_ATOM_INC', '-I' + repo, '-I' + repo + '/src'] + inc
    return vc.sh(base + ['-c', repo + '/' + name, '-o', o]).returncode == 0
def link(mode, objs, so): return vc.sh(['gcc'] + vc.MODES[mode] + ['-shared', '-o', so] + objs).returncode == 0
def deps(fn):
    if fn.endswith('.c'): return [fn]
    seen = {fn}; ch = True
    files = {f: open('/repo/' + f).read() for f in os.listdir('/repo') if f.endswith(('.c', '.h'))}
    while ch:
        ch = False
        for f, s in files.items():
            if f not in seen and any('"%s"' % x in s for x in seen): seen.add(f); ch = True
    return [f for f in seen if f in SRC]
INC = vc.sh(['php-config8.3', '--includes']).stdout.split(); SRC = vc.sources()
STABLE = json.load(open('/opt/vp/BASELINE.json'))['stable']
def joblist(fn, bd):
    cls, props = CLS[fn]; L = []
    for p in props.split() + CROSS:
        rc, out, err, _ = vc.run_php('zmm', bd, [p, 'list', 'quick'], 60)
        js = json.loads(out)
        if p in CROSS or (p == 'C11'): js = [j for j in js if not cls or re.search(r'(^|-)(%s)(-|$)' % cls, j['name']) or (p == 'C20' and 'function' in j['name'] and fn == 'teds.c')]
        L += [(p, j) for j in js]
    # cheapest first, by time measured on the unmutated tree
    from concurrent.futures import ThreadPoolExecutor
    cache = W + '/times.json'; T = json.load(open(cache)) if os.path.exists(cache) else {}
    def t(pj):
        k = pj[0] + '/' + pj[1]['name']
        if k not in T:
            mode = pj[1].get('mode', 'asan'); t0 = time.time(); rc, out, err, _ = vc.run_php(mode, os.path.dirname(bd) + '/' + mode, [pj[0], 'run', json.dumps(pj[1])], 300); T[k] = time.time() - t0
            if rc != 0: print('baseline fails', k, rc, err[-200:])
        return T[k]
    with ThreadPoolExecutor(8) as ex: list(ex.map(t, L))
    json.dump(T, open(cache, 'w'))
    L = [x for x in L if t(x) < float(os.environ.get('MAXJOB', '25'))]
    return sorted(L, key=t)
def tests(wd, so):
    r = wd + '/res.txt'
    if os.path.exists(r): os.unlink(r)
    env = dict(vc.ENV, NO_INTERACTION='1', NO_COLOR='1', TEST_PHP_EXECUTABLE='/usr/bin/php8.3', TEST_PHP_SRCDIR=wd)
    pr = subprocess.Popen(['php8.3', '-n', 'run-tests.php', '-n', '-q', '-W', r, '-d', 'extension=' + so, 'tests'], cwd=wd, env=env, stdin=subprocess.DEVNULL, stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL, start_new_session=True)
    try: pr.wait(90)
    except subprocess.TimeoutExpired: pr.kill(); pr.wait(); subprocess.run(['pkill', '-9', '-f', so]); return False
    ok = set()
    for l in open(r):
        a = l.rstrip('\n').split('\t')
        if a[0] == 'PASSED': ok.add(re.sub('^' + re.escape(wd) + '/', '', a[1]).split(' ')[0])
    return all(t in ok for t in STABLE)
def worker(k, q, outf, lock, jobs):
    wd = '%s/w%d' % (W, k); repo = wd + '/repo'
    while True:
        try: m = q.get_nowait()
        except queue.Empty: return
        fn, line, i, j, new, kind = m
        src = open('/repo/' + fn).read()
        rec = {'file': fn, 'line': line, 'kind': kind, 'old': src[i:j][:80], 'new': new, 'ctx': src[src.rfind('\n', 0, i) + 1:src.find('\n', i)].strip()[:140]}
        try:
            open(repo + '/' + fn, 'w').write(src[:i] + new + src[j:])
            aff = deps(fn); bd = {}; ok = True
            for mode in ('zmm', 'asan'):
                d = '%s/%s' % (wd, mode); os.makedirs(d, exist_ok=True); objs = []
                for s in SRC:
                    if s in aff:
                        o = d + '/' + s.replace('/', '_') + '.o'; ok = ok and cc(mode, repo, s, o)
                        if not ok: break
                    else: o = '%s/base/%s/%s.o' % (W, mode, s.replace('/', '_'))
                    objs.append(o)
                if not ok or not link(mode, objs, d + '/teds.so'): ok = False; break
                if mode == 'zmm':
                    h = hashlib.sha256(vc.sh(['objdump', '-d', '--no-addresses', '--no-show-raw-insn'] + [x for x in objs if wd in x]).stdout.replace(wd, '').encode()).hexdigest() if fn.endswith('.c') else ''
                    if h and h == BASEH.get(fn): rec['result'] = 'equivalent-object'; ok = None; break
                    if not tests(wd, d + '/teds.so'): rec['result'] = 'tests'; ok = None; break
                shutil.copy(W + '/base/shim.so', d + '/shim.so'); bd[mode] = d
            if ok is False: rec['result'] = 'nocompile'
            if ok:
                t0 = time.time(); res = None; n = 0
                for p, jb in jobs[fn]:
                    mode = jb.get('mode', 'asan'); n += 1
                    rc, out, err, _ = vc.run_php(mode, bd[mode], [p, 'run', json.dumps(jb)], 200)
                    if rc == 0 and vc.parse(out, 'RESULT'): continue
                    if rc == 9: rec.setdefault('harness', []).append([p, jb['name'], err[-300:]]); continue
                    msg = (vc.parse(out, 'VIOL') or {}).get('msg') or vc.summarize_err(rc, err)
                    res = [p, jb['name'], str(rc), msg[:160]]; break
                rec['result'] = 'killed' if res else 'SURVIVED'; rec['by'] = res; rec['secs'] = round(time.time() - t0, 1); rec['jobs'] = n
        except Exception as e: rec['result'] = 'error %r' % e
        finally: open(repo + '/' + fn, 'w').write(src)
        with lock:
            outf.write(json.dumps(rec) + '\n'); outf.flush()
def main():
    fns = sys.argv[1].split(','); n = int(sys.argv[2]); seed = int(sys.argv[3]); wk = int(sys.argv[5]) if len(sys.argv) > 5 else 8
    global BASEH; BASEH = {}
    os.makedirs(W + '/base', exist_ok=True)
    for mode in ('zmm', 'asan'):
        d = W + '/base/' + mode; os.makedirs(d, exist_ok=True)
        from concurrent.futures import ThreadPoolExecutor
        with ThreadPoolExecutor(8) as ex: list(ex.map(lambda s: cc(mode, '/repo', s, d + '/' + s.replace('/', '_') + '.o'), SRC))
        link(mode, [d + '/' + s.replace('/', '_') + '.o' for s in SRC], d + '/teds.so')
    vc.sh(['gcc', '-shared', '-fPIC', '-O1', '-o', W + '/base/shim.so', V + '/lib/shim.c', '-ldl']); shutil.copy(W + '/base/shim.so', W + '/base/asan/shim.so'); shutil.copy(W + '/base/shim.so', W + '/base/zmm/shim.so')
    for f in fns:
        if f.endswith('.c'): BASEH[f] = hashlib.sha256(vc.sh(['objdump', '-d', '--no-addresses', '--no-show-raw-insn', W + '/base/zmm/' + f + '.o']).stdout.replace(W + '/base', '').encode()).hexdigest()
    jobs = {f: joblist(f, W + '/base/zmm') for f in fns}
    rnd = random.Random(seed); q = queue.Queue(); allm = []
    for f in fns:
        _, ms = mutants(f); rnd.shuffle(ms); allm += ms[:n]
    rnd.shuffle(allm)
    for m in allm: q.put(m)
    print(len(allm), 'mutants', {f: len(j) for f, j in jobs.items()}, flush=True)
    for k in range(wk):
        wd = '%s/w%d' % (W, k); shutil.rmtree(wd, ignore_errors=True); os.makedirs(wd + '/repo')
        for f in os.listdir('/repo'):
            if f.endswith(('.c', '.h')) and f != 'config.h': shutil.copy('/repo/' + f, wd + '/repo/' + f)
        for f in ('src',):
            if os.path.isdir('/repo/' + f): shutil.copytree('/repo/' + f, wd + '/repo/' + f)
        shutil.copytree('/repo/tests', wd + '/tests'); shutil.copy('/repo/run-tests.php', wd)
        if os.path.exists('/repo/config.h'): shutil.copy('/repo/config.h', wd + '/repo/')
    lock = threading.Lock(); outf = open(sys.argv[4], 'a')
    ts = [threading.Thread(target=worker, args=(k, q, outf, lock, jobs)) for k in range(wk)]
    [t.start() for t in ts]; [t.join() for t in ts]
main()
