#!/usr/bin/env python3
"""Which checks report which planted bug: runs every analysis on a scratch copy with each seeded change; writes tools/catches.json."""
import glob
import json
import os
import re
import shutil
import subprocess
import sys
from concurrent.futures import ThreadPoolExecutor

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
OUT = os.path.join(V, 'tools', 'catches.json')


def one(p):
    n = os.path.basename(p)
    d, b = '/tmp/catches/t/' + n, '/tmp/catches/b/' + n
    shutil.rmtree(d, ignore_errors=True)
    os.makedirs(d)
    try:
        subprocess.run('git -C /repo archive HEAD | tar x -C ' + d, shell=True, check=True)
        subprocess.run(['git', 'apply', '--unsafe-paths', '--directory=' + d, p + '/patch.diff'], check=True, cwd='/')
        env = dict(os.environ, PICA_REPO=d, PICA_SA_BUILD=b)
        o = subprocess.run(['timeout', '1200', 'python3', V + '/tools/all.py'], env=env, capture_output=True, text=True).stdout
        got = set(re.findall(r'^(?:VIOL|FLOOR) (C\d\d)', o, re.M))
        for x in ('C26', 'C28'):
            r = subprocess.run(['timeout', '300', 'python3', '-c', 'import sys; sys.path.insert(0, %r); import report, %s as m\n'
                                'r = report.Report(%r); m.run(r); print("BAD" if r.viol else "OK")' % (V + '/sa', x.lower(), x)],
                               env=env, capture_output=True, text=True).stdout
            if 'BAD' in r:
                got.add(x)
        return n, sorted(got)
    finally:
        shutil.rmtree(d, ignore_errors=True)
        shutil.rmtree(b, ignore_errors=True)


def main():
    names = sys.argv[1:]
    seeds = [s for s in sorted(glob.glob(V + '/seeded/*')) if not names or os.path.basename(s) in names]
    res = json.load(open(OUT)) if names and os.path.exists(OUT) else {}
    with ThreadPoolExecutor(4) as ex:
        for n, got in ex.map(one, seeds):
            own = json.load(open(V + '/seeded/' + n + '/meta.json'))['property']
            print(n, got, '' if own in got else 'MISSED')
            sys.stdout.flush()
            res[n] = got
    with open(OUT, 'w') as f:
        json.dump(res, f, indent=0, sort_keys=True)
        f.write('\n')


main()
