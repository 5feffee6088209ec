#!/usr/bin/env python3
"""cov.py PROP... : line/branch coverage of /repo reached by the quick checks (development aid; scratch in /tmp/covb)."""
import sys, os, subprocess, json
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
import vc
from concurrent.futures import ThreadPoolExecutor
B = '/tmp/covb'; subprocess.run(['rm', '-rf', B]); os.makedirs(B)
inc = vc.sh(['php-config8.3', '--includes']).stdout.split()
base = ['gcc', '-O0', '-g', '--coverage', '-fPIC', '-w', '-DCOMPILE_DL_TEDS=1', '-DHAVE_TEDS=1', '-DZEND_COMPILE_DL_EXT=1', '-I' + vc.REPO] + inc
def cc(n):
    r = vc.sh(base + ['-c', vc.REPO + '/' + n, '-o', B + '/' + n[:-2].replace('/', '_') + '.o'])
    assert r.returncode == 0, r.stdout
with ThreadPoolExecutor(8) as ex: list(ex.map(cc, vc.sources()))
subprocess.run('gcc --coverage -shared -o teds.so *.o', shell=True, cwd=B, check=True)
vc.MODES['cov'] = []
for p in sys.argv[1:]:
    rc, out, err, _ = vc.run_php('zmm', B, [p, 'list', 'quick'], 60)
    jobs = sorted(json.loads(out), key=lambda j: -j.get('weight', 1))
    with ThreadPoolExecutor(8) as ex: rs = list(ex.map(lambda j: vc.run_php('zmm', B, [p, 'run', json.dumps(j)], 800), jobs))
    print(p, len(jobs), [r[0] for r in rs if r[0] != 0], flush=True)
subprocess.run('gcov -b *.gcda > /tmp/covb/summary.txt 2>/dev/null', shell=True, cwd=B)
