#!/usr/bin/env python3
"""All properties decided by the engine in one pass: prints what the checks would report (development aid)."""
import os, sys, time
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(HERE, 'sa'))
sys.setrecursionlimit(20000)
import clients, report, conn, connection, emulator, eventloop, web, webcheck
from world import World
t = time.time()
A = emulator.Analysis().everything()
W = World()
W.E.soft = True
c = conn.Conn(W, A.F).run()
h = web.Http(web.Web(), A.F).run()
L, k, lg = eventloop.analyse(A)
R = report.Report('C27')
clients.run(R)
gaps = set(R.gaps + A.gaps + c.gaps + h.gaps + lg) | {'%s (%d times)' % x for x in h.E.gaps.items()} | {'%s (%d times)' % x for x in W.E.gaps.items()}
print('%.1fs' % (time.time() - t), 'paths', sum(A.paths.values()), sum(c.paths.values()))
for g in sorted(gaps):
    print('GAP', g[:300])
for p in sorted(A.F.viol):
    for (rule, key), v in A.F.viol[p].items():
        print('VIOL', p, rule, key[:150], '|', v[:int(os.environ.get('W', 300))])
for p, fl in (*emulator.FLOORS.items(), *connection.FLOORS.items(), *webcheck.FLOORS.items(), *eventloop.FLOORS.items()):
    for rule, n in fl.items():
        got = A.F.ob.get(p, {}).get(rule, [0])[0]
        if got < n:
            print('FLOOR', p, rule, got, n)
for k, v in R.viol:
    print('VIOL C27', k[:150], '|', v[:300])
