"""C21: the event loops dispatch what they receive, handlers do not wait, and no lock is held where it must not be."""
import os
import conn
import core
import emulator
import locks
import models
import spec
import web
from engine import AnalysisError, I1, St, sub
from fold import loops_of
from world import World

RULES = {
    'dispatch': 'a command that is received is dispatched once, before the next one is received, and nothing else is dispatched',
    'receiver': 'commands are received from the emulator\'s own command channel',
    'end': 'an event loop only ends before it received anything, or when the channel is closed',
    'initial': 'a new emulator has no devices, no anchors, its counter at a constant, and both ends of its channels',
    'access': 'commands and events hand out the emulator\'s own channels',
    'handler': 'no path of a command handler waits, sleeps, or acquires a lock that is held',
    'progress': 'each iteration of a loop of a handler changes something',
    'locks': 'no lock is acquired twice or held across an await point, and no call blocks',
    'await': 'no lock guard is held at an await point (dataflow over the MIR)',
    'blocking': 'no function reachable from the command dispatch, and no async function, calls a blocking operation (call graph)',
}
FLOORS = {'C21': {'dispatch': 2, 'receiver': 2, 'initial': 4, 'access': 2, 'handler': 150, 'locks': 15, 'await': 12, 'blocking': 500, 'progress': 10}}
WAITS = {'await-locked', 'deadlock', 'blocking', 'sleep', 'chsend', 'recv', 'join'}
ERRORS = (AnalysisError, IndexError, KeyError, TypeError, ValueError, AttributeError)
P = ('C21',)


class EventLoop:
    def __init__(self, W, F):
        self.W, self.E, self.F, self.gaps, self.what = W, W.E, F, [], ''
        W.E.soft = True
        ent = W.entry['id']
        W.E.pmodels.append((lambda cal, path, decl: cal.get('inst') == ent, self.dispatched))

    def dispatched(self, E, S, cal, args, dty):
        S.ev('dispatch', args[0], args[1], S.locks)
        return models.ret(S, ('t', ()))

    def check(self, cond, rule, what, text=''):
        if cond:
            self.F.ok(P, rule)
        else:
            self.F.bad(P, rule, '%s: %s' % (self.what, what), '%s: %s' % (self.what, text or what))
        return bool(cond)

    def guard(self, f, *a):
        try:
            return f(*a)
        except ERRORS as e:
            if os.environ.get('PICA_DEBUG'):
                raise
            self.gaps.append('%s: %s' % (self.what, e if isinstance(e, AnalysisError) else 'internal %r' % (e,)))

    def run(self):
        self.paths = {}
        for n in ('Pica::run', 'run'):
            self.what = n
            self.guard(self.loop, n)
        self.what = 'Pica::new'
        self.guard(self.new)
        self.guard(self.access)
        return self

    def args(self, b):
        return [self.E.sym(t, ('arg', str(i), i)) for i, t in enumerate(b['locals'][1:1 + b['argc']])]

    # --- the event loops
    def loop(self, name):
        E, W = self.E, self.W
        b = W.body(name)
        seen = set()
        outs = []
        for k, S, fut in E.run_body(St(), b['id'], self.args(b)):
            if k != 'ret':
                outs.append((k, S, fut))
            else:
                outs += models.run_future(E, S, E.alloc(S, fut, fut[2]))
        for k, S, v in outs:
            if k == 'unk':
                self.gaps.append('%s: %s' % (name, v))
                continue
            self.logged(S.log)
            rs = [e for e in S.log if e[0] == 'recv']
            if k == 'panic':
                self.check(not rs, 'end', 'panic', 'the event loop panics')
                continue
            if rs:
                some = E.variants(S, rs[-1][-1]) & self.got(rs[-1][-1])
                self.check(not some, 'end', 'after a command', 'the event loop ends after a command')
            else:
                self.check(v[0] != 's' or W.vname(v[1], v[2]) == 'Err', 'end', 'without a command', 'the event loop ends without an error')
        n = 0
        for lid, info in list(E.loops.items()):
            for B in info.backs:
                log = B.log[info.mlog:]
                rs = [e for e in log if e[0] == 'recv']
                ds = [e for e in log if e[0] == 'dispatch']
                if not rs and not ds or id(B) in seen:
                    continue
                seen.add(id(B))
                n += 1
                self.guard(self.iteration, info, B, log, rs, ds)
        self.gaps or self.check(n > 0, 'dispatch', 'loop', 'the event loop does not receive commands in a loop')
        self.paths[name] = n
        E.loops.clear()

    def logged(self, log):
        for e in log:
            if e[0] in ('deadlock', 'await-locked', 'blocking', 'sleep'):
                self.check(False, 'locks', '%s' % e[0], {'await-locked': 'a lock is held while a command is awaited',
                                                        'deadlock': 'a lock is acquired while it is held'}.get(e[0], 'the event loop waits'))

    def iteration(self, info, B, log, rs, ds):
        E, W = self.E, self.W
        self.logged(log)
        pending, late = None, None
        for e in log:
            if e[0] == 'loop':
                inner = self.E.loops.get(e[1])
                if pending and inner and any(x[0] in ('recv', 'dispatch') for X in inner.backs for x in X.log[inner.mlog:]):
                    if any(self.mentions(E.load_loc(inner.entry, loc), pending[0]) for loc in inner.phis):
                        raise AnalysisError('a received command is kept for later')
                    late = late or pending
                    pending = None
            elif e[0] == 'recv':
                v = e[-1]
                self.check(self.own(e[3]), 'receiver', 'channel', 'commands are received from %s' % W.show(e[3])[:200])
                late, pending = late or pending, None
                got = E.variants(B, v) & self.got(v)
                if got:
                    pending = (v, E.proj(B, v, ('vf', next(iter(got)), 0)))
                else:
                    self.F.ok(P, 'dispatch')
            elif e[0] == 'dispatch':
                if pending and (e[2] == pending[1] or E.same(B, e[2], pending[1])):
                    self.F.ok(P, 'dispatch')
                    pending = None
                    continue
                self.other(info, B, e[2], [x[-1] for x in rs])
        for x in (late, pending):
            if x:
                if any(self.mentions(E.load_loc(B, loc), x[0]) for loc in info.phis):
                    raise AnalysisError('a received command is kept for later')
                self.check(False, 'dispatch', 'count', 'a received command is not dispatched')

    def other(self, info, B, cmd, got):
        """A command is dispatched that is not the one just received."""
        E, W = self.E, self.W
        if cmd[0] == 's' or any(self.mentions(cmd, v) for v in got):
            return self.check(False, 'dispatch', 'source', 'another command than the received one is dispatched: %s' % W.show(cmd)[:200])
        if cmd[0] == 'y' and isinstance(cmd[2], tuple) and cmd[2][0] == 'idx' and cmd[2][2] == sub(E.seq_len(cmd[2][1]), I1):
            return self.check(False, 'dispatch', 'order', 'queued commands are dispatched from the end of the queue')
        raise AnalysisError('commands are dispatched from a queue: %s' % W.show(cmd)[:300])

    def got(self, v):
        """The variants of the result of a reception that carry a command."""
        vs = self.E.T[v[1]]['v']
        return frozenset(i for i, x in enumerate(vs) if x['n'] in ('Some', 'Ok'))

    @staticmethod
    def mentions(t, v):
        return t == v or isinstance(t, tuple) and any(EventLoop.mentions(x, v) for x in t)

    def own(self, chan):
        """Is it the command receiver of the emulator?"""
        i = self.W.fi('Pica', 'command_rx')
        while chan[0] == 'y' and isinstance(chan[2], tuple):
            if chan[2][0] == 'fld':
                return chan[2][2] == i and chan[2][1][1] == self.W.t['Pica'] or self.own(chan[2][1])
            if chan[2][0] not in ('vf',):
                return chan[2][0] == 'arg' and False
            chan = chan[2][1]
        return False

    # --- construction
    def new(self):
        E, W = self.E, self.W
        b = W.body('Pica::new')
        args = self.args(b)
        for k, S, v in E.run_body(St(), b['id'], args):
            if k == 'unk':
                self.gaps.append('Pica::new: %s' % (v,))
            if k != 'ret':
                self.check(k == 'unk', 'initial', 'panic', 'the constructor panics')
                continue
            f = lambda n: W.f(v, n, S)
            for n in ('devices', 'anchors'):
                m = f(n)
                good = m[0] == 'map' and not any(p for p, _ in S.maps[m].entries.values()) if m in S.maps else m[0] == 'map'
                self.check(good, 'initial', n, 'a new emulator has %s' % n)
            self.check(f('counter')[0] == 'i', 'initial', 'counter', 'the counter of a new emulator is %s' % W.show(f('counter')))
            tx, rx, ev = f('command_tx'), f('command_rx'), f('event_tx')
            rx = rx[3][0] if rx[0] == 's' and rx[3] else rx
            good = tx[0] == rx[0] == 'y' and tx[2][0] == rx[2][0] == 'chan' and tx[2][1] == rx[2][1]
            self.check(good, 'initial', 'command channel', 'sender and receiver of a new emulator are not of one channel')
            self.check(ev[0] == 'y' and ev[2][0] == 'chan', 'initial', 'event channel', 'the event channel is %s' % W.show(ev))
            self.check(f('ranging_estimator') in args, 'initial', 'estimator', 'the estimator is not the given one')
            self.check(f('pcapng_dir') in args, 'initial', 'capture directory', 'the capture directory is not the given one')

    def access(self):
        E, W = self.E, self.W
        for n, field in (('Pica::commands', 'command_tx'), ('Pica::events', 'event_tx')):
            self.what = n
            b = W.body(n)
            args = self.args(b)
            want = W.f(E.sym(W.t['Pica'], ('deref', args[0])), field)
            for k, S, v in E.run_body(St(), b['id'], args):
                if k == 'unk':
                    self.gaps.append('%s: %s' % (n, v))
                    continue
                if k == 'ret' and v[0] == 'y' and v[2][0] == 'subscription':
                    v = v[2][1]
                self.check(k == 'ret' and v[0] == 'y' and v[2] == want[2], 'access', 'channel', 'it hands out %s' % (W.show(v)[:200] if k == 'ret' else k))


def handlers(A):
    """What the handlers do: waiting events and loops without progress."""
    W, E, F = A.W, A.W.E, A.F
    n = {}
    for what, k in A.paths.items():
        for _ in range(k):
            F.ok(P, 'handler')
    for lid, info in E.loops.items():
        for B in info.backs:
            still = all(E.load_loc(B, loc) == ph for loc, ph in info.phis.items()) and not info.bumped and len(B.log) == info.mlog
            if still:
                F.bad(P, 'progress', 'loop at %s' % (info.where[0],), 'an iteration of the loop at %s:%s changes nothing, so the loop does not end' %
                      (info.fn if isinstance(info.fn, str) else info.where[0], info.where[1]))
            else:
                F.ok(P, 'progress')
    alerts(E, F, 'command handlers')


def alerts(E, F, what):
    for (kind, at), info in E.alerts.items():
        F.bad(P, 'locks', '%s: %s at %s' % (what, kind, at), '%s at %s' % (
            {'deadlock': 'a lock is acquired while it is held', 'await-locked': 'a lock is held across an await point'}.get(
                kind, 'the blocking operation %s is called' % (info[0],)), at))


def analyse(A):
    """All of C21, given the analysis of the command handlers."""
    F = A.F
    handlers(A)
    L = EventLoop(World(), F).run()
    gaps = list(L.gaps)
    W = World()
    W.E.soft = True
    c = conn.Conn(W, F).run()
    alerts(W.E, F, 'connection')
    gaps += c.gaps
    h = web.Http(web.Web(), F).run()
    gaps += h.gaps
    k = locks.Locks(lambda rule: F.ok(P, rule), lambda rule, key, text: F.bad(P, rule, key, text))
    k.run([A.W.entry['id']])
    return L, k, gaps


def run(r):
    r.explanation = ('All paths of every command handler, of both event loops, of the connection tasks and of the HTTP server were interpreted '
                     'abstractly (compiler MIR of the current tree); a may-be-held dataflow over the MIR of every async function looks for '
                     'guards at await points, and the call graph from the command dispatch for blocking operations.')
    r.assumptions += [
        'an unbounded send, a broadcast and a oneshot send never wait; tokio::spawn never waits (tokio documentation)',
        'file operations of a packet capture are not counted as waiting for another task',
    ]
    A = emulator.Analysis().everything(config=False)
    L, k, gaps = analyse(A)
    A.gaps += gaps
    emulator.RULES.update(RULES)
    emulator.FLOORS.update(FLOORS)
    emulator.fill(r, A)
    r.analysed['event loops'] = L.paths
    r.analysed['dataflow'] = k.stats
    return 'other'
