#!/usr/bin/env python3
"""mkseed.py make SPEC.py [ids...]  - author planted bugs: each spec is {id, prop, edits: [(file, old, new[, count])], needs, breaks, demo}
   mkseed.py check [ids...]         - run each planted bug's own property check against a patched scratch copy, never /repo
Works in the scratch copy /tmp/sw; writes /verif/seeded/<id>/ only when it compiles, passes the stable tests, and the demo tells the two apart."""
import sys, os, subprocess, json, shutil, runpy
SW = '/tmp/sw'; V = '/verif'; SD = os.environ.get('SEED_DIR', '/verif/seeded')
def run(c, **k): return subprocess.run(c, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors='replace', **k)
def prep():
    head = run(['git', '-C', '/repo', 'rev-parse', 'HEAD']).stdout
    if not os.path.isdir(SW) or run(['git', '-C', SW, 'rev-parse', 'HEAD']).stdout != head:
        shutil.rmtree(SW, ignore_errors=True); run(['cp', '-a', '/repo', SW]); open('/tmp/sw.build.sh', 'w').write(open('/opt/vp/build.sh').read().replace('/repo', SW))
        open('/tmp/sw.test.sh', 'w').write(open('/opt/vp/test.sh').read().replace('\\/repo\\/', '\\/tmp\\/sw\\/').replace('/repo', SW).replace('/opt/vp/build.sh', '/tmp/sw.build.sh'))
        run(['sed', '-i', 's#/repo#/tmp/sw#g', SW + '/Makefile', SW + '/libtool', SW + '/config.status'])
        run('find . -name "*.lo" -o -name "*.dep" -o -name "*.o" | xargs rm -f; rm -f _build/sources.sha', shell=True, cwd=SW)
    run(['git', '-C', SW, 'checkout', '--', '.'])
def build():
    r = run(['bash', '/tmp/sw.build.sh']); return r.returncode == 0, r.stdout[-1500:]
def demo(d):
    r = run(['bash', d + '/demo.sh'], cwd=SW, timeout=300); return r.returncode, r.stdout[-600:]
DEMO = '''#!/bin/bash
# exit 0: the property holds on this demonstration; nonzero: broken
cd "${REPO_DIR:-$PWD}" || exit 2
exec timeout 120 php8.3 -n -d extension="$PWD/modules/teds.so" "$(cd "$(dirname "${BASH_SOURCE[0]}")" && pwd)/demo.php"
'''
HEAD = '''<?php
set_error_handler(function ($n, $m) { throw new ErrorException($m); });
function check(bool $ok, string $what) { if (!$ok) { fwrite(STDERR, "FAILED: $what\\n"); exit(1); } }
function thrown(callable $f): ?string { try { $f(); return null; } catch (Throwable $e) { return get_class($e); } }
'''
def make(spec):
    prep(); d = '/tmp/seedout/' + spec['id']; shutil.rmtree(d, ignore_errors=True); os.makedirs(d)
    for e in spec['edits']:
        p = SW + '/' + e[0]; s = open(p).read(); n = s.count(e[1])
        want = e[3] if len(e) > 3 else 1
        if n == 0 or (want == 1 and n != 1): return 'edit matches %d times in %s: %r' % (n, e[0], e[1][:60])
        if isinstance(want, str):   # 'fn:name' : only inside that function/method
            i = s.index(want); j = s.index(e[1], i); s = s[:j] + e[2] + s[j + len(e[1]):]
        else: s = s.replace(e[1], e[2])
        open(p, 'w').write(s)
    open(d + '/patch.diff', 'w').write(run(['git', '-C', SW, 'diff']).stdout)
    open(d + '/demo.sh', 'w').write(DEMO); os.chmod(d + '/demo.sh', 0o755)
    open(d + '/demo.php', 'w').write(HEAD + spec['demo'].strip() + '\nexit(0);\n')
    json.dump({'property': spec['prop'], 'needs': spec['needs'], 'what_it_breaks': spec['breaks']}, open(d + '/meta.json', 'w'), indent=1)
    ok, log = build()
    if not ok: return 'does not build: ' + log
    rc, out = demo(d)
    if rc == 0: return 'demo passes WITH the bug'
    withbug = '%s %s' % (rc, out.strip()[-150:])
    run(['bash', '/tmp/sw.test.sh', '/tmp/sw.json'])
    b = json.load(open('/opt/vp/BASELINE.json'))['stable']; o = set(json.load(open('/tmp/sw.json'))['passed'])
    bad = [t for t in b if t not in o]
    if bad: return 'stable tests fail: %s' % bad[:6]
    run(['git', '-C', SW, 'checkout', '--', '.']); build()
    rc, out = demo(d)
    if rc != 0: return 'demo fails WITHOUT the bug: %s' % out
    t = SD + '/' + spec['id']; shutil.rmtree(t, ignore_errors=True); os.makedirs(SD, exist_ok=True); shutil.copytree(d, t)
    return 'OK (with bug: %s)' % withbug
def chk(i, props=None):
    prep(); d = SD + '/' + i
    r = run(['git', '-C', SW, 'apply', d + '/patch.diff'])
    if r.returncode: return 'patch does not apply: ' + r.stdout
    out = []
    for p in props or [json.load(open(d + '/meta.json'))['property']]:
        r = run(['python3', V + '/vc.py', 'check', p, 'quick'], env=dict(os.environ, VERIF_REPO=SW))
        m = [l for l in r.stdout.splitlines() if l.startswith('job')]
        out.append('%s rc=%d %s' % (p, r.returncode, (m[0][-200:] if m else r.stdout[-200:].strip()) if r.returncode else 'MISSED'))
    prep()
    return '; '.join(out)
a = sys.argv[1:]
if a[0] == 'make':
    for s in runpy.run_path(a[1])['SEEDS']:
        if len(a) > 2 and s['id'] not in a[2:]: continue
        print(s['id'], s['prop'], make(s), flush=True)
elif a[0] == 'check':
    ids = [x for x in a[1:] if not x.startswith('-')] or sorted(os.listdir(SD))
    for i in ids: print(i, chk(i), flush=True)
