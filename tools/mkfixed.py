#!/usr/bin/env python3
"""Regenerates the 'fixed' entries of known_findings.json from /repo's fix: commits (property by matching commit, below)."""
import json, subprocess
M = '''b180e41 C25 37d7f17 C15 fcd14b9 C16 42b0dc2 C20 08247cd C18 19e4c3a C03 44d4154 C03 723772a C02 4f6a0db C05 a06adb2 C02 540d609 C20 895eb1a C06 87c424c C13 7c9a30a C13 f1769d4 C07 8c8a8cf C08 8d52f14 C09 bd96c15 C09 b7f01b9 C18 fa27f4c C11 410a9db C07 64704eb C19 0b71f80 C23 9649147 C11 ad686af C11 ff11dd7 C20 fd572f6 C20 1744d03 C19 7a86df5 C19 c93844e C20 16332bb C20 f744190 C11 04f1e49 C11 4b8e9f0 C11 82f28c9 C11 cc8a00b C22 42376ad C21 fa98a81 C22 adb5c8f C22 3e735bd C12 bdc1065 C12 20a627d C12 cc58a68 C12 f477901 C12 f4eda76 C20 3b67a9e C20 9ab35ba C12 c6fcd1e C20 5dbc8b3 C20 b15ba8b C11 2d05802 C16 74e1e16 C20 d83f0ff C16 421be12 C16 9b66b1b C13 53d5e2d C13 6ac2513 C13 5853f7d C13 80759a3 C19 e13ec36 C20 1b9dd0e C20 a3d6349 C21 cf764e6 C23 152a329 C21 8aa52fa C25 ec44b0c C24 9c1c3d3 C25 c05b445 C25 900658f C25 0033e4e C25 a9ed39b C25 6438297 C25 8fcb6b1 C25 aa86a53 C25 6eba01a C25 1962a9a C25 95f70c7 C25 545434e C25 70668ef C25 a58dd43 C25 12caaac C25 166e604 C25'''.split()
M = dict(zip(M[::2], M[1::2]))
f = '/verif/known_findings.json'
k = [e for e in json.load(open(f)) if e['status'] != 'fixed']
for l in subprocess.check_output(['git', '-C', '/repo', 'log', '--reverse', '--format=%h %s'], text=True).splitlines():
    h, s = l.split(' ', 1)
    if not s.startswith('fix: '): continue
    if h not in M: raise SystemExit('no property for ' + l)
    k.append({'status': 'fixed', 'property': M[h], 'commit': h, 'what': s[5:], 'entry': 'fixed: property=%s %s %s' % (M[h], h, s[5:])})
json.dump(k, open(f, 'w'), indent=1); print(len(k))
