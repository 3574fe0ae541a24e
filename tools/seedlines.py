#!/usr/bin/env python3
"""Which planted bugs change lines of the original repository (development aid)."""
import os, re, subprocess
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
BASE = subprocess.run('git -C /repo rev-list --max-parents=0 HEAD', shell=True, capture_output=True, text=True).stdout.split()[0][:7]
BASE = '892505f'
for n in sorted(os.listdir(V + '/seeded')):
    orig = own = 0
    f = None
    for line in open('%s/seeded/%s/patch.diff' % (V, n)):
        m = re.match(r'--- a/(\S+)', line)
        if m:
            f = m.group(1)
            blame = subprocess.run('git -C /repo blame -s HEAD -- ' + f, shell=True, capture_output=True, text=True).stdout.split('\n')
        m = re.match(r'@@ -(\d+)', line)
        if m:
            k = int(m.group(1))
            continue
        if f is None or line.startswith(('---', '+++', 'diff', 'index')):
            continue
        if line[0] == '-':
            if blame[k - 1].lstrip('^').startswith(BASE):
                orig += bool(line[1:].strip())
            else:
                own += 1
        if line[0] in '- ':
            k += 1
    ok = subprocess.run('git -C /repo apply --check %s/seeded/%s/patch.diff' % (V, n), shell=True, capture_output=True).returncode == 0
    print('%-22s original %d, own %d%s%s' % (n, orig, own, '' if orig else '   <-- only added lines or own', '' if ok else '  DOES NOT APPLY'))
