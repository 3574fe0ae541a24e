"""C26, C28 and the framing rule of C18 on the tree PICA_REPO names (for run.py -c)."""
import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), '..', '..', 'sa'))
sys.setrecursionlimit(20000)
import report, c26, c28
for p, m in (('C26', c26), ('C28', c28)):
    r = report.Report(p)
    m.run(r)
    print(p, sum(c for c, _ in r.ob.values()), 'gaps', len(r.gaps), r.gaps[:3])
    for k, t in r.viol[:8]:
        print('VIOL', p, k[:160], '|', t[:300])
