"""C21: guards that are held at await points, and blocking calls, found by dataflow and call graph over the MIR."""
import re
import core

GUARD = re.compile(r'\b(MutexGuard|MappedMutexGuard|RwLockReadGuard|RwLockWriteGuard|OwnedMutexGuard)<')
BLOCKING = re.compile('|'.join((
    r'^std::thread::(sleep|sleep_ms|sleep_until|park|park_timeout|scope)$', r'^std::thread::JoinHandle::<.*>::join$', r'^std::sync::Condvar::wait',
    r'^std::sync::Barrier::wait', r'^std::sync::mpsc::(Receiver::<.*>::(recv|recv_timeout|iter)|SyncSender::<.*>::send)$',
    r'::blocking_(send|recv|lock|read|write|recv_many|lock_owned)$', r'^tokio::task::block_in_place$',
    r'^(tokio::runtime::(Runtime|Handle)|tokio::task::LocalSet)::block_on$', r'^futures(_executor)?::executor::(block_on|block_on_stream)',
    r'^futures_executor::(block_on|local_pool::block_on)', r'^std::process::(Child::wait|Command::(output|status))',
    r'^std::net::(TcpStream::connect|TcpListener::accept|UdpSocket::recv)', r'^std::io::Stdin::', r'^std::sync::(OnceLock|LazyLock)::wait')))
CRATES = (('pica-lib', 'library'), ('pica-bin', 'server'), ('pica_http-bin', 'HTTP server'))


def operands(x):
    """Moved places in a statement, rvalue or operand list."""
    if isinstance(x, list):
        if len(x) == 2 and x[0] == 'mv' and isinstance(x[1], list):
            yield x[1]
            return
        for y in x:
            yield from operands(y)


def callees(x):
    if isinstance(x, dict):
        if 'decl' in x:
            yield x
            return
        for y in x.values():
            yield from callees(y)
    elif isinstance(x, list):
        for y in x:
            yield from callees(y)


class Locks:
    def __init__(self, ok, bad):
        self.ok, self.bad = ok, bad
        self.stats = {'functions': 0, 'await points': 0, 'guards': 0, 'calls': 0}

    def run(self, entries=()):
        for name, title in CRATES:
            c = core.crate(name)
            local = [b for b in c.bodies.values() if b['crate'] in ('pica', 'pica_http')]
            for b in local:
                self.guards(c, b, title)
            self.blocking(c, local, title, entries if name == 'pica-lib' else ())
        return self

    # --- a guard that may be held at an await point
    def guards(self, c, b, title):
        held = {i for i, t in enumerate(b['locals']) if c.types[t]['k'] in ('struct', 'enum', 'tuple') and GUARD.search(c.types[t]['s'])
                and not c.types[t]['s'].startswith(('{', '&'))}
        yields = [i for i, (_, t, cl) in enumerate(b['blocks']) if t[0] == 'yield' and not cl]
        self.stats['functions'] += 1
        self.stats['await points'] += len(yields)
        self.stats['guards'] += len(held)
        if not yields:
            return
        state = {0: frozenset()}
        work = [0]
        where = {}
        while work:
            i = work.pop()
            st, t, cleanup = b['blocks'][i]
            live = set(state[i])
            for s in st:
                if s[0] == 'dead':
                    live.discard(s[1][0] if isinstance(s[1], list) else s[1])
                elif s[0] == 'a':
                    for p in operands(s[2]):
                        live.discard(p[0])
                    if s[1][0] in held and s[2][0] != 'discr' and not any(k in ('agg',) and self.no_guard(c, b, s[2]) for k in s[2][:1]):
                        live.add(s[1][0])
                        where.setdefault(s[1][0], s[-1])
            nxt = []
            if t[0] == 'goto':
                nxt = [t[1]]
            elif t[0] == 'switch':
                nxt = [x[1] for x in t[2]] + [t[3]]
            elif t[0] == 'call':
                for p in operands(t[2]):
                    live.discard(p[0])
                if t[3][0] in held:
                    live.add(t[3][0])
                    where.setdefault(t[3][0], t[-1])
                nxt = [t[4]]
            elif t[0] == 'drop':
                if len(t[1]) == 1:
                    live.discard(t[1][0])
                nxt = [t[2]]
            elif t[0] == 'assert':
                nxt = [t[5]]
            elif t[0] == 'yield':
                for l in sorted(live):
                    at = where.get(l)
                    self.bad('await', '%s: %s' % (title, b['name']), '%s holds %s (acquired at %s) at an await point' % (
                        b['name'], c.types[b['locals'][l]]['s'][:80], ':'.join(map(str, at)) if isinstance(at, list) else at))
                nxt = [t[1]]
            for n in nxt:
                if isinstance(n, int):
                    new = state.get(n)
                    u = frozenset(live) if new is None else new | live
                    if u != new:
                        state[n] = u
                        work.append(n)
        for _ in yields:
            self.ok('await')

    def no_guard(self, c, b, rv):
        """An aggregate without moved guard, like None."""
        return not any(GUARD.search(c.types[b['locals'][p[0]]]['s']) for p in operands(rv))

    # --- blocking calls
    def blocking(self, c, local, title, entries):
        reach = {}
        for e in entries:
            self.reach(c, e, reach, (c.bodies[e]['name'],))
        for b in local:
            if b['name'] == 'main' or b['kind'] == 'const':
                continue
            sync = b['id'] in reach
            asy = b['kind'] == 'coroutine' or '{closure' in b['name'] and b['name'].split('::{closure')[0] != 'main'
            if not sync and not asy:
                continue
            for st, t, cl in b['blocks']:
                if cl or t[0] != 'call':
                    continue
                for f in callees(t[1]):
                    self.stats['calls'] += 1
                    n = f.get('decl') or ''
                    if BLOCKING.search(n) or BLOCKING.search(f.get('path') or ''):
                        at = ':'.join(map(str, t[-1])) if isinstance(t[-1], list) else ''
                        self.bad('blocking', '%s: %s in %s' % (title, n, b['name']), '%s calls %s at %s%s' % (
                            b['name'], n, at, ' (%s)' % ' > '.join(reach[b['id']]) if sync else ''))
                    else:
                        self.ok('blocking')

    def reach(self, c, i, out, path):
        work = [(i, path)]
        while work:
            i, path = work.pop()
            if i in out:
                continue
            out[i] = path
            b = c.bodies[i]
            for st, t, cl in b['blocks']:
                if cl:
                    continue
                for s in [x for x in st if x[0] == 'a'] + [t]:
                    for f in callees(s):
                        j = f.get('inst')
                        if j in c.bodies:
                            work.append((j, (path + (c.bodies[j]['name'],))[-6:]))
            # closures that are built here are called by what they are passed to
            for j, d in c.bodies.items():
                if d['kind'] == 'closure' and d.get('parent') == b['path'] and j not in out:
                    work.append((j, (path + (d['name'],))[-6:]))


if __name__ == '__main__':
    import sys
    L = Locks(lambda r: None, lambda *a: print('VIOL', *a))
    c = core.crate('pica-lib')
    e = [b['id'] for b in c.bodies.values() if b['name'] == 'Pica::pica_command']
    L.run(e)
    print(L.stats)
    out = {}
    L.reach(c, e[0], out, ())
    print(len(out), sum(c.bodies[i]['crate'] == 'pica' for i in out))
