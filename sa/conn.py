"""C17, C18, C22, C23: what a connection reads, writes and records.

The task spawned for a connection consists of a reader and a writer.  Both are interpreted abstractly down to every path
through their loops; each path between two receptions is then replayed against the specification:

  writer  after a packet P was taken from the queue, the segments written so far cover P[4..offset] (induction over the
          loop: the offset is the start of the next segment's payload, 4 when the loop is entered and the end of the
          segment after every iteration); when the next packet is taken, offset == len(P)
  reader  a pending packet (the loop variable that holds it, empty when the loop is entered) grows by the payload of
          every control segment and is forwarded, once, with the segment that is marked complete

A capture is the sequence of bytes written to the file, parsed as pcapng blocks."""
import os
import codec
import models
from engine import AnalysisError, I, I0, I1, add, sub, scale
from world import explore, Dead

HEADER, CTRL_MAX, DATA_MAX = 4, 255, 1024
MAX_SEGMENT = HEADER + 65535
IO = ('io-write_all', 'io-write', 'io-flush', 'io-write_vectored', 'io-write_fmt')
QUIET = ('poll-fn', 'select', 'unlock', 'join', 'channel')


DEBUG = bool(os.environ.get('PICA_DEBUG'))


def evaluate(E, t, env):
    """Value of an integer term over the bytes in env; None if it depends on anything else."""
    if t[0] == 'i':
        return t[1]
    if t in env:
        return env[t]
    if t[0] == 'l':
        n = t[1]
        for a, k in t[2]:
            v = evaluate(E, a, env)
            if v is None:
                return None
            n += k * v
        return n
    if t[0] != 'y':
        return None
    k = t[2]
    w = E.width(t[1])
    if k[0] == 'op':
        xs = [evaluate(E, x, env) for x in k[2:]]
        if None in xs:
            return None
        f = {'BitAnd': lambda a, b: a & b, 'BitOr': lambda a, b: a | b, 'BitXor': lambda a, b: a ^ b,
             'Shl': lambda a, b: a << b, 'Shr': lambda a, b: a >> b, 'Add': lambda a, b: a + b,
             'Sub': lambda a, b: a - b, 'Mul': lambda a, b: a * b, 'Div': lambda a, b: a // b if b else None,
             'Rem': lambda a, b: a % b if b else None}.get(k[1])
        if f is None or len(xs) != 2:
            if k[1] == 'Not' and w:
                return ~xs[0] & ((1 << w) - 1)
            return None
        r = f(*xs)
        return r & ((1 << w) - 1) if r is not None and w else r
    if k[0] == 'bits':
        v = evaluate(E, k[1], env)
        return None if v is None else (v >> k[2]) & ((1 << k[3]) - 1)
    if k[0] == 'sbyte':
        v = evaluate(E, k[1], env)
        return None if v is None else (v >> (8 * k[2])) & 255
    if k[0] in ('div',):
        v = evaluate(E, k[1], env)
        return None if v is None else v // k[2]
    if k[0] == 'lt':
        a, b = evaluate(E, k[1], env), evaluate(E, k[2], env)
        return None if a is None or b is None else int(a < b)
    if k[0] == 'inteq':
        a, b = evaluate(E, k[1], env), evaluate(E, k[2], env)
        return None if a is None or b is None else int(a == b)
    return None


class Conn:
    def __init__(self, W, F):
        self.W, self.E, self.F = W, W.E, F
        self.what = 'connection'
        self.gaps = []
        self.paths = {}

    # --- findings
    def bad(self, props, rule, what, text=''):
        self.F.bad(tuple(props), rule, '%s: %s' % (self.what, what), text or what)

    def ok(self, props, rule):
        self.F.ok(tuple(props), rule, self.what)

    def check(self, cond, props, rule, what, text=''):
        if cond:
            self.ok(props, rule)
        else:
            self.bad(props, rule, what, text)
        return cond

    def gap(self, e):
        self.gaps.append('%s: %s' % (self.what, e))

    # --- running
    def run(self):
        W, E = self.W, self.E
        E.recv_hooks.append(self.received)
        try:
            self.what = 'connection'
            fs, outs = W.run('Connect')
            self.stream, self.sink = fs
            tids = [t for t in E.tasks if any(e[0] in ('join', 'recv', 'sink') or e[0] == 'file-create'
                                              for k, S, _ in E.tasks[t]['outs'] or () if S is not None for e in S.log)]
            inner = {e[1] for t in tids for k, S, _ in E.tasks[t]['outs'] or () if S is not None
                     for e in S.log if e[0] == 'join'}
            roots = [t for t in tids if t not in inner]
            self.ok_tasks = set()
            if not roots:
                raise AnalysisError('no task serves the connection')
            for t in roots:
                self.root(t)
        except (AnalysisError, IndexError, KeyError, TypeError, ValueError, AttributeError) as e:
            self.error(e)
        finally:
            E.recv_hooks.remove(self.received)
        self.sockets()
        return self

    # --- one segment from or to a socket
    def sockets(self):
        """The functions that read and write one segment."""
        E = self.E
        found = {'OwnedReadHalf': [], 'OwnedWriteHalf': []}
        for b in E.bodies.values():
            if b['kind'] == 'fn' and b['argc'] >= 1 and '::' in b['name'] and not b['name'].startswith('<') and len(b['blocks']) < 8:
                t = E.T[b['locals'][1]]['s'].split('::')[-1]
                if t in found and any(c['kind'] == 'coroutine' and c['name'].startswith(b['name'] + '::') for c in E.bodies.values()):
                    found[t].append(b)
        for half, fn in (('OwnedReadHalf', self.framing), ('OwnedWriteHalf', self.framed)):
            self.what = {'OwnedReadHalf': 'reading a segment', 'OwnedWriteHalf': 'writing a segment'}[half]
            try:
                if not found[half]:
                    raise AnalysisError('no function takes an %s' % half)
                for b in found[half]:
                    S = self.W.start()
                    args = [E.sym(t, ('arg', b['name'], i)) for i, t in enumerate(b['locals'][1:1 + b['argc']])]
                    n = 0
                    for k, S1, fut in E.run_body(S, b['id'], args):
                        if k != 'ret':
                            raise AnalysisError('%s is beyond the analysis' % b['name'])
                        r = E.alloc(S1, fut, fut[2] if fut[0] == 'co' else None)
                        outs = models.run_future(E, S1, r)
                        if outs is None:
                            raise AnalysisError('%s does not return a future' % b['name'])
                        for k2, S2, v in outs:
                            n += 1
                            if k2 == 'panic':
                                self.bad(('C18' if half == 'OwnedReadHalf' else 'C17', 'C01'), 'panic', 'panics at %s' % where(v), str(v))
                            elif k2 == 'unk':
                                self.gap('a path of %s is beyond the analysis' % b['name'])
                            elif k2 == 'ret':
                                for c, _ in explore(self.W, S2, lambda c: fn(c, args, S2.log, v)):
                                    pass
                    self.paths[self.what] = n
            except (AnalysisError, IndexError, KeyError, TypeError, ValueError, AttributeError) as e:
                self.error(e)

    def framing(self, c, args, log, v):
        """The reads of one path consume one segment, which is what the path returns."""
        E, W = self.E, self.W
        sock, parts, failed = args[0], (), False
        for e in log:
            if e[0] == 'loop':
                if E.loops[e[1]].backs:
                    raise AnalysisError('a loop reads a segment')
                continue
            if e[0] == 'apart':
                self.bad(('C18',), 'framing', 'partial read', 'a read may return fewer bytes than requested (%s)' % e[2])
                return
            if e[0] != 'aread':
                self.bad(('C18',), 'framing', 'unexpected %s' % e[0], 'reading a segment performs %s' % e[0])
                return
            if failed:
                self.bad(('C18',), 'framing', 'reads after a failure', 'reading continues after a failure')
                return
            if not c.variant(e[4]) == 'Ok':
                failed = True
            parts += (('q', ('y', E.ty('std::vec::Vec<u8>'), ('net', e[2])), I0, e[3]),)
        some = c.variant(v) == 'Some'
        if failed:
            self.check(not some, ('C18',), 'framing', 'truncated segment accepted', 'a segment is returned although reading it failed')
            return
        S = c.S
        parts = E.expand_const(S, parts)
        total = E.norm_int(S, E.parts_len(parts))
        if not self.check(E.prove_le(S, I(HEADER), total), ('C18',), 'framing', 'header size', 'only %s bytes are read' % W.show(total)):
            return
        hs = [p[1] for p in E.expand_const(S, E.slice_parts(S, parts, I0, I(HEADER)))]
        mt = E.bits(S, hs[0], 5, 3, E.U8)
        if not c.cond(codec.valid(E, 'MessageType', mt)):
            return      # refused here or by the reader
        data = c.inteq(mt, I0)
        if not some:
            self.bad(('C18',), 'framing', 'ends without reason', 'a segment with a valid header is refused')
            return
        S = c.S
        size = E.from_bytes(S, hs[2:4], E.ty('u16')) if data else hs[3]
        self.check(E.prove_eq(S, total, add(I(HEADER), size)), ('C18',), 'framing', 'size of %s' % ('data' if data else 'control'),
                   'a segment with announced payload %s is read as %s bytes' % (W.show(size), W.show(total)))
        x = v[3][0] if v[0] == 's' else E.sym_field(S, v, 1, 0)
        pkt, back = E.proj(S, x, ('f', 0)), E.proj(S, x, ('f', 1))
        self.check(self.equal(S, E.freeze(S, pkt), ('v', parts)), ('C18',), 'framing', 'other bytes',
                   'the segment returned is %s instead of what was read' % W.show(pkt))
        self.check(back == sock, ('C18',), 'framing', 'other socket', 'the socket returned is another one')

    def framed(self, c, args, log, v):
        """A path that writes one segment writes it once and as it is."""
        E, W = self.E, self.W
        parts, failed = (), False
        for e in log:
            if e[0] == 'loop':
                if E.loops[e[1]].backs:
                    raise AnalysisError('a loop writes a segment')
                continue
            if e[0] == 'apart':
                self.bad(('C17',), 'payload', 'partial write', 'a segment may be written partially (%s)' % e[2])
                return
            if e[0] not in ('awrite', 'aflush'):
                self.bad(('C17',), 'payload', 'unexpected %s' % e[0], 'writing a segment performs %s' % e[0])
                return
            if failed:
                self.bad(('C17',), 'end', 'writes after a failure', 'writing continues after a failure')
                return
            failed = c.variant(e[-1]) != 'Ok'
            if e[0] == 'awrite':
                parts += E.seq_parts(e[2])
        okay = c.variant(v) == 'Ok'
        self.check(okay != failed, ('C17', 'C20'), 'end', 'failure ignored' if failed else 'ends without reason',
                   'writing a segment %s but the connection %s' % (('failed', 'continues') if failed else ('succeeded', 'ends')))
        if not failed:
            self.check(self.equal(c.S, ('v', E.simp_parts(c.S, parts)), E.freeze(c.S, args[1])), ('C17',), 'payload', 'other bytes',
                       'what is written is %s instead of the segment' % W.show(('v', parts)))

    def error(self, e):
        if DEBUG and not isinstance(e, AnalysisError):
            raise e
        self.gap(str(e) if isinstance(e, AnalysisError) else 'internal %r' % (e,))

    def received(self, E, S, chan, v):
        """What is taken from the queue of packets for the host is a packet: header and payload; a stream yields segments."""
        t = E.T[v[1]]
        if not t.get('path', '').endswith('Option'):
            return
        p = E.sym_field(S, v, 1, 0)
        if not E.is_seq_ty(p[1]):
            return
        n = E.seq_len(p)
        if self.is_queue(chan):
            E.assume_le(S, I(HEADER), n)
        E.assume_le(S, n, I(MAX_SEGMENT))

    @staticmethod
    def is_queue(chan):
        return chan[0] == 'y' and chan[2][0] == 'chan'

    # --- the task that serves a connection
    def root(self, tid):
        W, E = self.W, self.E
        t = E.tasks[tid]
        if t['outs'] is None:
            raise AnalysisError('the connection task cannot be analysed')
        d = W.f(W.pv, 'pcapng_dir')
        some = W.vi(d[1], 'Some')
        for k, S, v in t['outs']:
            self.what = 'connection'
            if k == 'unk':
                self.gap('the connection task is beyond the analysis')
                continue
            created = [e for e in S.log if e[0].startswith('file-')]
            ios = [e for e in S.log if e[0] in IO]
            want = E.variants(S, d)
            if want <= some:
                self.check(len(created) == 1 and created[0][0] == 'file-create', ('C23',), 'recording',
                           'no capture file', 'capture is enabled but %d files are created' % len(created))
            elif not want & some:
                self.check(not created, ('C23',), 'recording', 'capture file without directory',
                           'a file is created although capture is disabled')
            for e in created:
                self.check(mentions(e[1], W.counter) and mentions(e[1], d), ('C23',), 'recording', 'file name',
                           'the name of the capture file does not depend on the directory and the handle of the device')
            rec = bool(created) and all(self.good(S, e[-1]) for e in created + ios)
            failed = bool(created) and any(self.bad_result(S, e[-1]) for e in created + ios)
            if created and not rec and not failed:
                self.bad(('C22', 'C23'), 'recording', 'unchecked result', 'the result of creating the capture file is ignored')
            if rec:
                self.start_of_file(S, ios)
            self.ends(S)
            roles = {'reader': [], 'writer': []}
            for e in S.log:
                if e[0] == 'join':
                    r = self.role(e[1])
                    if r:
                        roles[r].append(e[1])
            for r, ts in roles.items():
                props = {'reader': ('C18',), 'writer': ('C17',)}[r]
                self.check(len(ts) == 1, props, 'once', '%d %ss' % (len(ts), r), 'a connection has %d %ss' % (len(ts), r))
                for x in ts:
                    if (x, rec) in self.ok_tasks:
                        continue
                    self.ok_tasks.add((x, rec))
                    self.what = r + (', recording' if rec else '')
                    try:
                        getattr(self, r)(x, rec)
                    except (AnalysisError, IndexError, KeyError, TypeError, ValueError, AttributeError) as e:
                        self.error(e)

    def ends(self, S):
        """The end of the reader or of the writer ends the other one."""
        E = self.E
        joined = [e[1] for e in S.log if e[0] == 'join']
        for e in S.log:
            if e[0] != 'poll-fn' or len(joined) < 2:
                continue
            b = E.bodies.get(e[1][1])
            calls = [t[1]['decl'].split('::')[-1] for _, t, _ in b['blocks'] if t[0] == 'call' and isinstance(t[1], dict) and 'decl' in t[1]]
            polls, errs = calls.count('poll'), calls.count('is_err')
            if polls != len(joined):
                raise AnalysisError('how the reader and the writer are joined is not understood')
            self.check(errs >= polls, ('C20',), 'end', 'both are awaited', 'the end of the %s does not end the connection' %
                       ('reader or writer' if not errs else 'first of reader and writer'))
            for t in joined:
                for k, S1, v in E.tasks[t]['outs'] or ():
                    if k == 'ret':
                        bad = v[0] in ('s', 'y') and E.T[v[1]].get('path', '').endswith('Result') and \
                            E.variants(S1, v) & self.W.vi(v[1], 'Ok')
                        self.check(not bad, ('C20',), 'end', 'ends without ending the connection',
                                   'the %s can end without ending the connection' % (self.role(t) or 'task'))

    def logs(self, tid):
        """Every path of a task: (kind, state, log, loop or None)."""
        t = self.E.tasks[tid]
        for k, S, v in t['outs'] or ():
            yield k, S, S.log if S is not None else (), None
        for l in sorted(t['loops']):
            info = self.E.loops[l]
            for B in info.backs:
                yield 'back', B, B.log[info.mlog:], info

    def role(self, tid):
        ev = {e[0] for _, _, log, _ in self.logs(tid) for e in log}
        ch = any(e[0] == 'chsend' for _, _, log, _ in self.logs(tid) for e in log)
        if self.E.tasks[tid]['outs'] is None:
            raise AnalysisError('a task of the connection cannot be analysed')
        if 'sink' in ev and ch:
            raise AnalysisError('one task reads and writes')
        if 'sink' in ev:
            return 'writer'
        if ch:
            return 'reader'
        # neither: by what it consumes
        for _, _, log, _ in self.logs(tid):
            for e in log:
                if e[0] == 'recv':
                    return 'writer' if self.is_queue(e[3]) else 'reader'
        return None

    def good(self, S, r):
        return self.E.variants(S, r) <= self.W.vi(r[1], 'Ok')

    def bad_result(self, S, r):
        return not self.E.variants(S, r) & self.W.vi(r[1], 'Ok')

    # --- recording
    def flush(self, S, st, packet, exchanged):
        """The bytes recorded since the last event are one block with this packet (or nothing when not recording)."""
        ios, st['io'] = st['io'], []
        if not any(e[0] in IO for e in ios):
            ios = []
        if not st['rec']:
            self.check(not ios, ('C23',), 'recording', 'writes without capture file', 'bytes are recorded nowhere')
            return
        if not self.check(bool(ios), ('C23',), 'recording', 'not recorded', 'a segment is %s without being recorded' % exchanged):
            return
        for e in ios:
            if e[0] in ('io-flush', 'lock'):
                continue
            self.check(self.good(S, e[-1]), ('C23', 'C22'), 'recording', 'failure ignored',
                       'a segment is %s although recording it failed' % exchanged)
        self.recorded(S, ios, packet)

    def recorded(self, S, ios, packet):
        """One enhanced packet block with the packet as its data."""
        E, W = self.E, self.W
        ws = [e for e in ios if e[0] not in ('io-flush', 'lock')]
        for e in ws:
            self.check(e[0] == 'io-write_all', ('C22',), 'partial', 'partial write', 'a block may be written partially (%s)' % e[0])
        locks = [i for i, e in enumerate(ios) if e[0] == 'lock']
        held = all(e[3] for e in ws) and len([i for i in locks if i > ios.index(ws[0])]) == 0
        self.check(len(ws) == 1 or held, ('C22',), 'interleaving', 'not one critical section',
                   'the parts of a block are not written under one lock')
        self.check(len({e[1] for e in ws}) == 1, ('C22', 'C23'), 'recording', 'several files', 'a block is spread over files')
        parts = sum((E.seq_parts(e[2]) for e in ws), ())
        n, total = E.seq_len(packet), E.norm_int(S, E.parts_len(parts))
        head = [p[1] for p in E.expand_const(S, E.slice_parts(S, parts, I0, I(28))) if p[0] == 'e']
        # one enhanced packet block has 32 bytes in addition to packet, padding and options
        once = E.prove_le(S, sub(total, n), I(64))
        if not self.check(len(head) == 28 and head[:4] == [I(6), I0, I0, I0] and once, ('C23', 'C22'), 'recording', 'not one block',
                          'recording a segment does not write one packet block'):
            return
        data = ('v', E.slice_parts(S, parts, I(28), add(I(28), n)))
        self.check(self.equal(S, data, packet), ('C23',), 'recording', 'modified', 'a segment is recorded as %s instead of %s' %
                   (W.show(data), W.show(packet)))
        self.check(head[8:12] == [I0] * 4, ('C22',), 'structure', 'interface', 'a block refers to interface %s' % W.show(head[8]))
        for name, at, want in (('block length', 4, total), ('captured length', 20, n), ('original length', 24, n)):
            self.check(self.is_le(S, head[at:at + 4], want), ('C22',), 'structure', name, 'the %s is stored as %s instead of %s' % (
                name, W.show(head[at]), W.show(want)))
        tail = [p[1] for p in E.expand_const(S, E.slice_parts(S, parts, sub(total, I(4)), total)) if p[0] == 'e']
        self.check(len(tail) == 4 and self.is_le(S, tail, total), ('C22',), 'structure', 'trailing block length',
                   'the block length is repeated as %s instead of %s' % (tail and W.show(tail[0]), W.show(total)))
        self.check(E.prove_eq(S, E.binop(S, 'Rem', total, I(4), E.USIZE), I0), ('C22',), 'structure', 'alignment',
                   'the block length %s is not a multiple of four' % W.show(total))
        pad = E.slice_parts(S, parts, add(I(28), n), sub(total, I(4)))
        size = E.parts_len(pad)
        self.check(E.prove_le(S, I0, size) and E.prove_le(S, size, I(7)) and all(zero(p) for p in pad), ('C22',), 'structure', 'padding',
                   'the packet is followed by %s instead of padding' % W.show(('v', pad)))

    def is_le(self, S, bs, v):
        want = self.E.to_le(S, v, len(bs))[1]
        return all(self.same_int(S, a, b) for a, b in zip(bs, want))

    def equal(self, S, a, b):
        for s, v in models.eq(self.E, S.copy(), a, b):
            if self.E.truth(s, v) is not True:
                return False
        return True

    # --- writer
    def writer(self, tid, rec):
        W, E = self.W, self.E
        self.inner = {}
        n = 0
        for k, S, log, info in self.logs(tid):
            n += 1
            if k == 'panic':
                continue
            if k == 'unk':
                self.gap('a path of the writer is beyond the analysis')
                continue
            if info is not None and not any(e[0] == 'recv' for e in log):
                continue        # part of the work on one packet: judged where that loop is entered
            for c, _ in explore(W, S, lambda c: self.write_path(c, log, k, info, rec)):
                pass
        for k, S, v in E.tasks[tid]['outs']:
            if k == 'panic':
                self.bad(('C17', 'C01'), 'panic', 'the writer panics at %s' % where(v), str(v))
        self.paths[self.what] = n
        self.ok(('C17',), 'panic')

    def write_path(self, c, log, kind, info, rec):
        """One path of the writer from the head of its loop (or its start) to the next head or the end."""
        E = self.E
        st = {'P': None, 'off': None, 'io': [], 'rec': rec, 'failed': False, 'last': None}
        self.write_events(c, log, st)
        S = c.S
        if kind == 'ret':
            last = st['last']
            why = last is not None and (last[0] == 'recv' and not E.variants(S, last[1]) & self.W.vi(last[1][1], 'Some')
                                        or last[0] != 'recv' and self.bad_result(S, last[1]))
            self.check(why, ('C17', 'C20'), 'end', 'ends without reason', 'the writer ends although nothing failed')
            return
        if st['P'] is not None and not st['failed']:
            self.finished(S, st)
            if any(e[0] in IO for e in st['io']):
                self.bad(('C23',), 'recording', 'recorded but not written', 'something is recorded that is not written')

    def finished(self, S, st):
        n = self.E.seq_len(st['P'])
        self.check(self.E.prove_eq(S, st['off'], n), ('C17',), 'complete', 'incomplete',
                   'the next packet is taken when the segments written end at %s of %s' % (self.W.show(st['off']), self.W.show(n)))

    def write_events(self, c, log, st):
        E, W = self.E, self.W
        for e in log:
            S = c.S
            if e[0] == 'recv':
                r = e[4]
                if st['P'] is not None:
                    self.finished(S, st)
                st['last'] = ('recv', r)
                if not self.is_queue(e[3]):
                    raise AnalysisError('the writer takes packets from %s' % W.show(e[3]))
                if E.variants(S, r) <= W.vi(r[1], 'Some'):
                    st['P'], st['off'] = E.sym_field(S, r, 1, 0), I(HEADER)
            elif e[0] == 'loop':
                self.write_loop(c, E.loops[e[1]], st)
            elif e[0] == 'lock':
                st['io'].append(e)
            elif e[0] in IO:
                st['io'].append(e)
                st['last'] = ('io', e[-1])
                if self.bad_result(S, e[-1]):
                    st['failed'] = True
            elif e[0] == 'sink':
                st['last'] = ('sink', e[3])
                self.check(not st['failed'], ('C23',), 'recording', 'written after a failure',
                           'a segment is written although recording failed')
                if st['P'] is None:
                    self.bad(('C17',), 'segment', 'nothing to write', 'a segment is written without a packet')
                    continue
                self.flush(S, st, e[2], 'written')
                self.segment(c, st, e[2])
                if not self.good(c.S, e[3]):
                    st['failed'] = True
            elif e[0] not in QUIET:
                self.bad(('C17',), 'segment', 'unexpected %s' % e[0], 'the writer performs %s' % e[0])

    def write_loop(self, c, info, st):
        """A loop that writes segments of one packet."""
        E = self.E
        if not any(e[0] in ('sink', 'recv') or e[0] in IO for B in info.backs for e in B.log[info.mlog:]):
            if any(e[0] == 'loop' and self.busy(E.loops[e[1]]) for B in info.backs for e in B.log[info.mlog:]):
                raise AnalysisError('nested loops of the writer')
            return
        if any(e[0] == 'recv' for B in info.backs for e in B.log[info.mlog:]):
            return
        start = self.loop_offset(info, st)
        if start is None:
            raise AnalysisError('no loop variable of %s is the offset in the packet' % (info.where,))
        k = info.lid, st['P'], st['rec']
        if k not in self.inner:
            self.inner[k] = True
            ent = self.at(info, start, info.entry)
            self.check(E.prove_eq(info.entry, ent, st['off']), ('C17',), 'offset', 'starts at the wrong place',
                       'the first segment of the loop starts at %s instead of %s' % (self.W.show(ent), self.W.show(st['off'])))
            for B in info.backs:
                for c2, _ in explore(self.W, B, lambda c2: self.write_iter(c2, info, st, start)):
                    pass
        # segments never exceed the packet (checked for each of them), hence neither does the offset
        n = E.seq_len(st['P'])
        if not self.check(E.prove_le(info.entry, st['off'], n), ('C17',), 'offset', 'starts beyond the packet'):
            pass
        elif self.inner[k] == 'capped':
            # counted in whole segments: the last one ends with the packet
            if not c.le(start, n):
                start = n
        elif not E.assume_le(c.S, start, n):
            raise Dead()
        st['off'] = start

    def busy(self, info):
        return any(e[0] == 'sink' for B in info.backs for e in B.log[info.mlog:])

    def write_iter(self, c, info, st, start):
        s2 = dict(st, io=[], off=start, failed=False)
        self.write_events(c, c.S.log[info.mlog:], s2)
        if s2['failed']:
            self.bad(('C17', 'C23'), 'end', 'continues after a failure', 'the writer continues after a failure')
            return
        nxt = self.at(info, start, c.S)
        n = self.E.seq_len(st['P'])
        if not self.E.prove_eq(c.S, nxt, s2['off']) and self.E.prove_eq(c.S, s2['off'], n) and self.E.prove_le(c.S, n, nxt):
            self.inner[info.lid, st['P'], st['rec']] = 'capped'
            nxt = n
        self.check(self.E.prove_eq(c.S, nxt, s2['off']), ('C17',), 'offset', 'not contiguous',
                   'the next segment starts at %s but the last one ended at %s' % (self.W.show(nxt), self.W.show(s2['off'])))
        self.check(self.E.prove_lt(c.S, start, s2['off']), ('C17',), 'offset', 'no progress', 'an iteration does not progress')
        if any(e[0] in IO for e in s2['io']):
            self.bad(('C23',), 'recording', 'recorded but not written', 'something is recorded that is not written')

    def loop_offset(self, info, st):
        """Expression over the loop's variables at which the next segment starts."""
        E = self.E
        P = st['P']
        cands = []
        for B in info.backs:
            for e in B.log[info.mlog:]:
                if e[0] == 'sink':
                    for p in E.seq_parts(e[2]):
                        if p[0] == 'q' and p[1] == P and p[2] not in cands:
                            cands.append(p[2])
                    break
        phis = set(info.phis.values())
        for x in cands:
            if all(t in phis or not mentions_phi(t, info.lid) for t, _ in ((x, 1),) if t[0] == 'y') or x[0] == 'l':
                return x
        # payload of the last segment taken whole
        return None

    def at(self, info, expr, S):
        """The expression over loop variables, in another state."""
        from engine import subst
        m = {}
        for loc, ph in info.phis.items():
            if mentions(expr, ph):
                m[ph] = self.E.load_loc(S, loc)
        return self.E.norm_int(S, subst(expr, m)) if m else expr

    def segment(self, c, st, seg):
        """One segment: header, length, boundary flag and payload."""
        E, W = self.E, self.W
        P, off = st['P'], st['off']
        S = c.S
        n = E.seq_len(P)
        p0 = E.base_elem(S, P, I0)
        data = c.inteq(E.bits(S, p0, 5, 3, E.U8), I0)
        S = c.S
        total = E.seq_len(seg)
        ln = E.norm_int(S, sub(total, I(HEADER)))
        parts = E.seq_parts(seg)
        if not self.check(E.prove_le(S, I(HEADER), total), ('C17',), 'segment', 'short', 'a segment without header is written'):
            st['off'] = n
            return
        head = E.expand_const(S, E.slice_parts(S, parts, I0, I(HEADER)))
        pay = ('v', E.slice_parts(S, parts, I(HEADER), total))
        end = add(off, ln)
        want = ('v', (('q', P, off, end),))
        self.check(E.prove_le(S, end, n) and self.equal(S, pay, want), ('C17',), 'payload', 'payload',
                   'a segment carries %s instead of the next bytes from %s' % (W.show(pay), W.show(off)))
        lim = DATA_MAX if data else CTRL_MAX
        self.check(E.prove_le(S, ln, I(lim)), ('C17',), 'limit', 'limit',
                   'a %s segment may carry %s bytes' % ('data' if data else 'control', W.show(ln)))
        self.check(E.prove_le(S, I1, ln), ('C17',), 'segment', 'empty', 'an empty segment is written')
        hs = [p[1] for p in head if p[0] == 'e']
        if not self.check(len(hs) == HEADER and len(head) == HEADER, ('C17',), 'header', 'header', 'the header is not determined'):
            st['off'] = end
            return
        last = E.prove_eq(S, end, n)
        if not last and not E.prove_lt(S, end, n):
            last = c.inteq(end, n)
            S = c.S
        # first byte: as in the packet except for the boundary flag
        good = True
        for k in range(128):
            if (k >> 5 == 0) != bool(data):
                continue
            v = evaluate(E, hs[0], {p0: k})
            good = good and v == (k & ~16 | (0 if last else 16))
        self.check(good, ('C17',), 'header', 'boundary flag' if self.only_flag(hs[0], p0, data) else 'first byte',
                   'the first byte of the %s segment is %s' % ('last' if last else 'not last', W.show(hs[0])))
        p1, p2 = (E.base_elem(S, P, I(i)) for i in (1, 2))
        self.check(hs[1] == p1, ('C17',), 'header', 'second byte', 'the second byte is %s' % W.show(hs[1]))
        if data:
            le = E.to_le(S, ln, 2)
            const = all(h[0] == 'i' for h in hs[2:]) and I(hs[2][1] | hs[3][1] << 8)
            self.check(const and E.prove_eq(S, ln, const) or
                       all(self.same_int(S, a, b) for a, b in zip(hs[2:], le[1])), ('C17',), 'header', 'length of data',
                       'the length of a data segment is stored as %s, %s' % (W.show(hs[2]), W.show(hs[3])))
        else:
            self.check(hs[2] == p2, ('C17',), 'header', 'third byte', 'the third byte is %s' % W.show(hs[2]))
            self.check(self.same_int(S, hs[3], ln), ('C17',), 'header', 'length of control',
                       'the length of a control segment is stored as %s' % W.show(hs[3]))
        st['off'] = end

    def only_flag(self, t, p0, data):
        for k in range(128):
            if (k >> 5 == 0) == bool(data):
                v = evaluate(self.E, t, {p0: k})
                if v is None or (v ^ k) & ~16:
                    return False
        return True

    def same_int(self, S, a, b):
        return a == b or self.E.prove_eq(S, a, b)

    # --- reader
    def reader(self, tid, rec):
        W, E = self.W, self.E
        paths = list(self.logs(tid))
        for k, S, v in E.tasks[tid]['outs']:
            if k == 'panic':
                self.bad(('C18', 'C01'), 'panic', 'the reader panics at %s' % where(v), str(v))
        self.ok(('C18',), 'panic')
        self.paths[self.what] = len(paths)
        loops = [E.loops[l] for l in E.tasks[tid]['loops']]
        cands = {}
        for info in loops:
            if any(e[0] == 'recv' for B in info.backs for e in B.log[info.mlog:]) or \
                    any(e[0] == 'loop' and e[1] == info.lid and self.receives(log) for _, _, log, _ in paths for e in log):
                cands[info.lid] = [loc for loc, ph in info.phis.items() if self.holds_packet(ph)]
        choices = [{}]
        for lid, locs in cands.items():
            choices = [dict(ch, **{str(lid): loc}) for ch in choices for loc in (locs or [None])]
        best = None
        for ch in choices[:16]:
            self.pending = {int(k): v for k, v in ch.items()}
            F, self.F = self.F, type(self.F)()
            try:
                for k, S, log, info in paths:
                    if k == 'panic':
                        continue
                    if k == 'unk':
                        self.gap('a path of the reader is beyond the analysis')
                        continue
                    for c, _ in explore(W, S, lambda c: self.read_path(c, log, k, info, rec)):
                        pass
            finally:
                G, self.F = self.F, F
            n = sum(len(v) for v in G.viol.values())
            if best is None or n < best[0]:
                best = (n, G)
            if n == 0:
                break
        if best:
            self.F.merge(best[1])

    def receives(self, log):
        return any(e[0] == 'recv' for e in log)

    def holds_packet(self, ph):
        E = self.E
        if ph[0] != 'y':
            return False
        t = E.T[ph[1]]
        if t.get('path', '').endswith('Option'):
            fs = E.fields(ph[1], 1)
            return bool(fs) and E.is_seq_ty(fs[0][1])
        return E.is_seq_ty(ph[1]) and t['k'] != 'array'

    def held(self, c, v):
        """Pending packet held by a variable: None or its bytes (forks)."""
        E = self.E
        if v is None:
            return None
        if v[0] == 's' or v[0] == 'y' and E.T[v[1]].get('path', '').endswith('Option'):
            r = c.variant(v)
            if r == 'None':
                return None
            x = v[3][0] if v[0] == 's' else E.sym_field(c.S, v, 1, 0)
            return E.freeze(c.S, x)
        x = E.freeze(c.S, v)
        return None if c.inteq(E.seq_len(x), I0) else x

    def read_path(self, c, log, kind, info, rec):
        E, W = self.E, self.W
        st = {'pend': ('unset',), 'io': [], 'rec': rec, 'failed': False, 'X': None, 'last': None, 'due': None, 'sent': 0}
        if info is not None and info.lid in self.pending:
            loc = self.pending[info.lid]
            st['pend'] = info.phis[loc] if loc is not None else ('var', None)
        elif info is None:
            st['pend'] = ('var', None)
        elif any(e[0] in ('recv', 'chsend') or e[0] in IO for e in log):
            st['pend'] = ('var', None)
        else:
            return
        for e in log:
            S = c.S
            if e[0] == 'recv':
                self.settle(c, st)
                if self.is_queue(e[3]):
                    raise AnalysisError('the reader takes packets from %s' % W.show(e[3]))
                r = e[4]
                st['last'] = r
                st['X'] = E.sym_field(S, r, 1, 0) if E.variants(S, r) <= W.vi(r[1], 'Some') else None
                st['due'] = None
                if st['X'] is not None:
                    st['due'] = 'segment'
            elif e[0] == 'loop':
                self.read_loop(c, E.loops[e[1]], st)
            elif e[0] == 'lock':
                st['io'].append(e)
            elif e[0] in IO:
                st['io'].append(e)
                if self.bad_result(S, e[-1]):
                    st['failed'] = True
            elif e[0] == 'chsend':
                self.forward(c, st, e)
            elif e[0] not in QUIET:
                self.bad(('C18',), 'forward', 'unexpected %s' % e[0], 'the reader performs %s' % e[0])
        if kind == 'ret':
            self.read_end(c, st)
            return
        self.settle(c, st)
        S = c.S
        if info is not None and info.lid in self.pending and self.pending[info.lid] is not None:
            now = self.held(c, E.load_loc(c.S, self.pending[info.lid]))
            self.compare(c, st, now)
        else:
            self.check(self.held_state(c, st) is None, ('C18',), 'reassembly', 'lost', 'a pending packet is dropped')

    def held_state(self, c, st):
        p = st['pend']
        return p[1] if p[0] == 'var' else self.held(c, p)

    def compare(self, c, st, now):
        want = self.held_state(c, st)
        if (now is None) != (want is None):
            self.bad(('C18',), 'reassembly', 'pending packet kept' if want is None else 'pending packet lost',
                     'after this segment the pending packet is %s instead of %s' %
                     (self.W.show(now) if now else 'empty', self.W.show(want) if want else 'empty'))
        else:
            self.check(now is None or self.equal(c.S, now, want), ('C18',), 'reassembly', 'reassembled wrongly',
                       'the pending packet is %s instead of %s' % (now and self.W.show(now), want and self.W.show(want)))

    def read_loop(self, c, info, st):
        """Entering a loop: its variable holds the pending packet from here on."""
        E = self.E
        if info.lid not in self.pending:
            if info.backs and any(e[0] in ('recv', 'chsend') or e[0] in IO for B in info.backs for e in B.log[info.mlog:]):
                raise AnalysisError('a loop of the reader is not understood')
            return
        loc = self.pending[info.lid]
        if loc is None:
            return
        for s2, v in ((info.entry, E.load_loc(info.entry, loc)),):
            for c2, now in explore(self.W, s2, lambda c2: self.held(c2, v)):
                st2 = dict(st)
                self.compare(c2, st2, now)
        st['pend'] = info.phis[loc]

    def header(self, c, X):
        """(well formed?, data?, complete?) of a segment."""
        E = self.E
        if not c.le(I(HEADER), E.seq_len(X)):
            return False, None, None
        b = E.base_elem(c.S, X, I0)
        if not c.cond(codec.valid(E, 'MessageType', E.bits(c.S, b, 5, 3, E.U8))):
            return False, None, None
        data = c.inteq(E.bits(c.S, b, 5, 3, E.U8), I0)
        complete = c.inteq(E.bits(c.S, b, 4, 1, E.U8), I0)
        return True, data, complete

    def settle(self, c, st):
        """The last segment has been dealt with completely."""
        if st['due'] is None:
            return
        X, st['due'] = st['X'], None
        if st['failed']:
            self.bad(('C23',), 'recording', 'continues after a failure', 'the reader continues although recording failed')
            return
        okay, data, complete = self.header(c, X)
        if not okay:
            self.bad(('C18',), 'framing', 'malformed segment accepted', 'the reader continues after a malformed segment')
            return
        self.flush(c.S, st, X, 'accepted')
        if data or complete:
            self.check(st['sent'] == 1, ('C18',), 'forward', 'forwarded %d times' % st['sent'],
                       'a complete packet is forwarded %d times' % st['sent'])
            if not data:
                st['pend'] = ('var', None)
        else:
            self.check(st['sent'] == 0, ('C18',), 'forward', 'incomplete packet forwarded', 'a packet is forwarded before it is complete')
            st['pend'] = ('var', self.joined(c, st, X))
        st['sent'] = 0

    def joined(self, c, st, X):
        E = self.E
        p = self.held_state(c, st)
        if p is None:
            return X
        return ('v', E.simp_parts(c.S, E.seq_parts(p) + E.slice_parts(c.S, E.seq_parts(X), I(HEADER), E.seq_len(X))))

    def forward(self, c, st, e):
        W, E = self.W, self.E
        self.check(e[1] == W.command_tx, ('C18',), 'forward', 'wrong channel', 'a packet is not forwarded to the emulator')
        v = e[2]
        if v[0] != 's' or W.vname(v[1], v[2]) != 'UciPacket':
            self.bad(('C18',), 'forward', 'wrong command', 'the reader sends %s' % W.show(v))
            return
        h, pkt = v[3]
        self.check(E.prove_eq(c.S, h, W.counter), ('C18', 'C29'), 'forward', 'wrong device', 'a packet is forwarded for %s' % W.show(h))
        st['sent'] += 1
        if st['due'] is None:
            self.bad(('C18',), 'forward', 'nothing to forward', 'a packet is forwarded without a segment')
            return
        if st['failed']:
            self.bad(('C23',), 'recording', 'forwarded after a failure', 'a packet is forwarded although recording failed')
            return
        okay, data, complete = self.header(c, st['X'])
        if not okay:
            self.bad(('C18',), 'framing', 'malformed segment forwarded', 'a malformed segment is forwarded')
            return
        if data:
            want = st['X']
        elif complete:
            want = self.joined(c, st, st['X'])
        else:
            return
        self.check(self.equal(c.S, E.freeze(c.S, pkt), want), ('C18',), 'forward', 'data packet modified' if data else 'wrong packet',
                   'the packet forwarded is %s instead of %s' % (W.show(pkt), W.show(want)))

    def read_end(self, c, st):
        """Why the reader ends."""
        E, W = self.E, self.W
        if st['last'] is None:
            self.bad(('C18',), 'framing', 'ends without reason', 'the reader ends before reading')
            return
        if st['X'] is None or st['failed']:
            self.ok(('C18',), 'framing')
            return
        okay, data, complete = self.header(c, st['X'])
        self.check(not okay, ('C18',), 'framing', 'ends without reason', 'the reader ends after a well-formed segment')

    # --- capture files
    def start_of_file(self, S, ios):
        E = self.E
        parts = E.expand_const(S, sum((E.seq_parts(e[2]) for e in ios if e[0] != 'io-flush'), ()), 4096)
        bs = [p[1][1] if p[0] == 'e' and p[1][0] == 'i' else None for p in parts]
        for e in ios:
            if e[0] == 'io-write':
                self.bad(('C22',), 'partial', 'partial write', 'the start of a capture file may be written partially')
        blocks, err = parse_blocks(bs)
        self.check(err is None, ('C22',), 'structure', 'start of file: %s' % err, 'the file starts with malformed blocks: %s' % err)
        if err is None:
            self.check([t for t, _ in blocks] == [0x0A0D0D0A, 1], ('C22',), 'structure', 'blocks at the start',
                       'a capture file starts with blocks %s' % [hex(t) for t, _ in blocks])
            for t, body in blocks:
                if t == 0x0A0D0D0A:
                    good = len(body) >= 16 and body[0:4] == [0x4D, 0x3C, 0x2B, 0x1A] and body[4:8] == [1, 0, 0, 0] \
                        and (body[8:16] == [255] * 8)
                    self.check(good, ('C22',), 'structure', 'section header', 'the section header is %s' % body)
                elif t == 1:
                    snap = le(body[4:8]) if len(body) >= 8 else None
                    self.check(snap == 0 or snap is not None and snap >= MAX_SEGMENT, ('C22',), 'structure', 'snap length',
                               'the interface limits packets to %s bytes' % snap)
                    self.check(len(body) >= 8 and le(body[0:2]) == 293, ('C22',), 'structure', 'link type',
                               'the link type is %s' % le(body[0:2]))


def zero(p):
    """A part of a sequence that consists of zeros."""
    if p[0] in ('e', 'rep'):
        return p[1] == I0
    return p[0] == 'q' and p[1][0] in ('a', 'v') and all(
        zero(x) if isinstance(x, tuple) and x and x[0] in ('e', 'rep', 'q') else x == I0 for x in p[1][1])


def le(bs):
    n = 0
    for i, b in enumerate(bs):
        if b is None:
            return None
        n |= b << (8 * i)
    return n


def parse_blocks(bs):
    out, i = [], 0
    while i < len(bs):
        if i + 12 > len(bs):
            return out, 'incomplete block'
        t, n = le(bs[i:i + 4]), le(bs[i + 4:i + 8])
        if t is None or n is None:
            return out, 'undetermined block'
        if n < 12 or n % 4:
            return out, 'block length %d' % n
        if i + n > len(bs):
            return out, 'block of %d bytes is shorter than its length %d' % (len(bs) - i, n)
        if le(bs[i + n - 4:i + n]) != n:
            return out, 'the lengths of a block differ'
        out.append((t, bs[i + 8:i + n - 4]))
        i += n
    return out, None


def walk(t):
    if isinstance(t, tuple):
        yield t
        for x in t:
            if isinstance(x, tuple):
                yield from walk(x)


def mentions(t, x):
    return any(y == x for y in walk(t))


def mentions_phi(t, lid):
    return any(len(y) == 3 and y[0] == 'phi' and y[1] == lid for y in walk(t))


def where(v):
    if isinstance(v, dict) and 'stack' in v:
        return ' < '.join('%s:%s' % x for x in reversed(v['stack'][-3:]))
    return str(v)
