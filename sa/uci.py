"""Specification of the UCI commands, stated over the initial state of the addressed device."""
import codec
import models
from engine import I, I0, I1, AnalysisError, add, sub, scale
from spec import Exp, Task
from world import Dead, Ctx, explore
from fold import Seq, fold, exists, positions, repetitions, NoFold

GROUPS = {'CORE': 'CorePacket', 'SESSION_CONFIG': 'SessionConfigPacket', 'SESSION_CONTROL': 'SessionControlPacket',
          'VENDOR_ANDROID': 'AndroidPacket'}


# The capabilities of the device (UCI generic specification, table of capability parameters)
CAPS = {
    0x00: (1, 1, 1, 3), 0x01: (1, 1, 1, 3), 0x02: (3,), 0x03: (0x1f,), 0x04: (0x1f,), 0x05: (0xff,), 0x06: (1,), 0x07: (1,),
    0x08: (0,), 0x09: (1,), 0x0a: (1,), 0x0b: (0xff,), 0x0c: (0xff,), 0x0d: (0xff,), 0x0e: (0xff,), 0x0f: (0xff,), 0x10: (0xff,),
    0xe3: (1,), 0x11: (1,), 0xa4: (1, 0), 0xa5: (0,), 0xa6: (0,), 0xa7: (0,) * 4, 0xa0: (0xff,), 0xa1: (0xff,) * 4, 0xa3: (0xff,),
    0xa2: (0xff,),
}


class Uci:
    def __init__(self, J):
        self.J, self.W, self.E, self.F = J, J.W, J.E, J.F
        self.cmds = {}
        for d in self.E.pdl.decls.values():
            if d.parent in GROUPS.values() and d.cons.get('mt') == 'COMMAND' and d.name.endswith('Cmd'):
                self.cmds[d.name] = d

    def st(self, tag):
        return codec.enum_val(self.E, 'Status', tag)

    # --- a packet from a host
    def packet(self, c, h, pkt):
        W, E, J = self.W, self.E, self.J
        key = c.initially(W.devices, h)
        X = Exp(c)
        X.own = X.own_session = None
        if key is None:
            J.what = 'packet for an unknown device'
            return J.verify(c, X, None)
        dev = W.init_elem(W.devices, 0, key)
        X.own = ('device', key)
        self.key, self.dev, self.tx = key, dev, W.f(dev, 'tx')
        self.sessions = W.f(dev, 'sessions')
        parts = E.seq_parts(pkt)
        self.parts = parts
        if c.lt(E.parts_len(parts), I(4)):
            J.what = 'short packet'
            return J.verify(c, X, self.tx)
        b0, b1 = E.index_parts(c.S, parts, I0), E.index_parts(c.S, parts, I1)
        mt = E.bits(c.S, b0, 5, 3, E.U8)
        if c.inteq(mt, I0):
            return self.data(c, X)
        if not c.le(mt, I(3)):
            # reserved message types are not specified beyond leaving the state alone
            J.what = 'reserved message type'
            X.rsp_any = True
            return J.verify(c, X, self.tx)
        if not c.inteq(mt, I1):
            J.what = 'response or notification from a host'
            return J.verify(c, X, self.tx)
        self.gid, self.oid = E.bits(c.S, b0, 0, 4, E.U8), E.bits(c.S, b1, 0, 6, E.U8)
        self.command(c, X)

    def which(self, c):
        """(group packet or None, command name or None, decoded command or None) of the control packet."""
        E = self.E
        en = E.pdl.enums['GroupId']
        if not c.cond(codec.valid(E, 'GroupId', self.gid)):
            return None, None, None
        group = None
        for tag, g in GROUPS.items():
            if c.inteq(self.gid, I(en.tags[tag])):
                group = g
                break
        if group is None:
            return 'known', None, None
        oe = [t for k, n, t, x in E.pdl.decls[group].fields if n == 'oid'][0]
        if not c.cond(codec.valid(E, oe, self.oid)):
            return group, None, None
        for name, d in self.cmds.items():
            if d.parent != group:
                continue
            if c.inteq(self.oid, I(E.pdl.enums[oe].tags[d.cons['oid']])):
                v = c.choose([(s, v) for s, v, _ in codec.decode(E, c.S, name, self.parts)])
                return group, name, v
        return group, None, None

    def command(self, c, X):
        J, W, E = self.J, self.W, self.E
        group, name, v = self.which(c)
        fresh = not c.cond(W.f(self.dev, 'is_reset'))
        if fresh and not (name == 'CoreDeviceResetCmd' and v is not None) and group is not None:
            if group != 'known' and v is None:
                # undecodable or unknown opcode: only "no effect and one answer" is specified
                J.what = 'malformed command before reset'
                X.rsp, X.rsp_props = (lambda val: None), ('C06', 'C07')
                return J.verify(c, X, self.tx)
            J.what = '%s before reset' % (name or 'unknown command')
            X.rsp = J.packet(c, 'CoreDeviceStatusNtf', device_state=J.ev('DeviceState', 'DEVICE_STATE_ERROR'))
            X.rsp_props = ('C06',)
            return J.verify(c, X, self.tx)
        if name is None or v is None or not hasattr(self, name):
            tag = 'UNKNOWN_OID' if group not in (None, 'known') else 'UNKNOWN_GID'
            J.what = 'unknown or malformed command (%s)' % (name or tag)
            X.rsp, X.rsp_props = (lambda val: self.unknown(c, val, tag)), ('C07',)
            return J.verify(c, X, self.tx)
        J.what = name
        X.rsp_name = name[:-3] + 'Rsp'
        f = codec.as_fields(E, c.S, v)
        getattr(self, name)(c, X, f)
        if X.lost:
            return
        X.rsp_props = X.rsp_props or ('C07',)
        J.verify(c, X, self.tx)

    def unknown(self, c, val, tag):
        """UNKNOWN_GID/UNKNOWN_OID answer: same group and opcode, one status byte."""
        E, J = self.E, self.J
        hd = J.header(c, val)
        n = E.seq_len(val)
        if hd is None or not (c.must_eq(hd[0], I(2)) and c.must_eq(hd[1], self.gid) and c.must_eq(hd[2], self.oid)):
            return J.bad(('C07',), 'response', 'header of the %s answer' % tag, 'the answer is %s' % self.W.show(val)[:200])
        parts = E.seq_parts(val)
        ok = c.must_eq(n, I(5)) and c.must_eq(E.index_parts(c.S, parts, I(4)), I(E.pdl.enums['Status'].tags[tag]))
        J.check(ok, ('C07',), 'response', 'status of the %s answer' % tag, 'the answer is %s' % self.W.show(val)[:200])

    # --- helpers
    def rsp(self, c, X, props, **kw):
        name = X.rsp_name
        X.rsp = self.J.packet(c, name, **kw)
        X.rsp_props = props

    def session(self, c, X, sid):
        k = c.initially(self.sessions, sid)
        if k is None:
            return None
        self.skey = k
        X.own_session = ('session', self.key, k)
        return self.W.init_elem(self.sessions, c.ver(self.sessions), k)

    def sstate(self, s):
        return self.W.f(s, 'state')

    def sval(self, n):
        ty = self.W.fty('Session', 'state')
        return ('s', ty, self.E.variant_index(ty, 'SessionState' + n), ())

    def dval(self, n):
        ty = self.W.fty('Device', 'state')
        return ('s', ty, self.E.variant_index(ty, 'DeviceState' + n), ())

    def none(self, ty):
        return ('s', ty, 0, ())

    def ntf_task(self, c, X, kind, chan, pkt, props, text):
        J = self.J

        def pred(c2, t):
            if t.kind != 'once':
                return None
            sends = [e for e in t.data if e[0] == 'send']
            if len(sends) != 1 or J.ntf_kind(sends) != kind:
                return None if not sends or J.ntf_kind(sends[:1]) != kind else 'sends %d packets' % len(sends)
            if any(e[0] not in ('send', 'sleep') for e in t.data):
                return 'does more than notifying'
            if not c2.must_eq(sends[0][1], chan):
                return 'is sent to %s' % self.W.show(sends[0][1])
            if not c2.must_eq(sends[0][2], pkt):
                return 'sends %s instead of %s' % (self.W.show(sends[0][2])[:160], self.W.show(pkt)[:160])
            return True
        X.tasks.append(('ntf', pred, props, text))

    def session_ntf(self, c, X, tx, sid, state, reason, props=('C03',)):
        E = self.E
        n = E.pdl.enums['ReasonCode'].tags[reason]
        tag = 'SESSION_STATE_' + state.upper()
        pkt = self.J.packet(c, 'SessionStatusNtf', session_token=sid, session_state=codec.enum_val(E, 'SessionState', tag),
                            reason_code=I(n))
        self.ntf_task(c, X, 'session', tx, pkt, props, 'SESSION_STATUS_NTF %s with reason %s' % (state, reason))

    def device_ntf(self, c, X, tx, state, props=('C05',)):
        pkt = self.J.packet(c, 'CoreDeviceStatusNtf',
                            device_state=codec.enum_val(self.E, 'DeviceState', 'DEVICE_STATE_' + state.upper()))
        self.ntf_task(c, X, 'device', tx, pkt, props, 'CORE_DEVICE_STATUS_NTF %s' % state)

    def stop(self, c, X, s, reason, key=None, dev=None, gone=False):
        """Session s leaves ACTIVE: timer cancelled, count and device state follow."""
        W, E = self.W, self.E
        dev = dev or self.dev
        rt = W.f(s, 'ranging_task')
        X.aborts.append((E.sym_field(c.S, rt, 1, 0) if rt[0] == 'y' else rt[3][0], ('C04',)))
        n = W.f(dev, 'n_active_sessions')
        X.set(X.own, 'n_active_sessions', sub(n, I1), 'C05')
        if c.inteq(n, I1):
            X.set(X.own, 'state', self.dval('Ready'), 'C05')
            self.device_ntf(c, X, W.f(dev, 'tx'), 'Ready')
        if not gone:
            X.set(X.own_session, 'state', self.sval('Idle'), 'C02')
            X.set(X.own_session, 'ranging_task', self.none(W.fty('Session', 'ranging_task')), 'C04')
            self.session_ntf(c, X, W.f(s, 'tx'), W.f(s, 'id'), 'Idle', reason)

    # --- core group
    def CoreDeviceResetCmd(self, c, X, f):
        W, E, J = self.W, self.E, self.J
        self.rsp(c, X, ('C06',), status=self.st('OK'))
        dev = self.dev
        path = X.own
        for fn in ('handle', 'mac_address', 'tx', 'pica_tx'):
            X.set(path, fn, W.f(dev, fn), 'C06')
        X.set(path, 'is_reset', I1, 'C06')
        X.set(path, 'state', self.dval('Ready'), 'C06', 'C05')
        X.set(path, 'n_active_sessions', I0, 'C06', 'C05')
        X.set(path, 'country_code', lambda v: c.must_eq(v, ('a', (I0, I0))) or 'not the default', 'C06')
        X.set(path, 'config.low_power_mode', I1, 'C06', 'C11')

        def empty(v):
            m = c.S.maps.get(v)
            if v == self.sessions or m is None:
                if m is not None and m.base is None and not any(p for p, _ in m.entries.values()):
                    return True
                return 'sessions survive the reset'
            return (m.base is None and not any(p for p, _ in m.entries.values())) or 'sessions survive the reset'
        X.set(path, 'sessions', empty, 'C06', 'C08')
        self.device_ntf(c, X, self.tx, 'Ready', ('C05', 'C06'))
        self.drop_sessions(c, X, self.sessions, dev, 'C06')

    def drop_sessions(self, c, X, mid, dev, prop):
        """Every session of a removed session table is stopped and announced as removed."""
        W, E, J = self.W, self.E, self.J
        evs, loops = J.effects(c.S)
        mine = []
        for lid in loops:
            info, its = J.loop_effects(lid)
            items = [e for B in info.backs for e in B.log[info.mlog:] if e[0] == 'hm-item' and e[1] == mid]
            if not items:
                continue
            X.loops[lid] = True
            mine.append(lid)
            for B, bevs, bd in its:
                it = [e for e in B.log[info.mlog:] if e[0] == 'hm-item' and e[1] == mid][0]
                self.dropped(B, bevs, mid, it[2], it[3], dev, prop)
        m = c.S.maps.get(mid)
        known = [k for k, (p, ip) in m.entries.items() if ip] if m is not None and m.ver == 0 else []
        if known:
            raise AnalysisError('named sessions dropped with their table')
        J.check(bool(mine) or self.drained(c, mid), (prop, 'C03', 'C04'), 'cleanup', 'sessions dropped',
                'the sessions are not dropped')
        X.bumped[mid] = True

    def drained(self, c, mid):
        return False

    def dropped(self, B, bevs, mid, ver, key, dev, prop):
        """Effects of removing one session (key of table mid) as recorded in state B."""
        W, E, J = self.W, self.E, self.J
        s = W.init_elem(mid, ver, key)

        def one(c):
            X = Exp(c)
            X.own = X.own_session = None
            if c.is_(self.sstate(s), 'SessionStateActive'):
                rt = W.f(s, 'ranging_task')
                X.aborts.append((E.sym_field(c.S, rt, 1, 0), ('C04', prop)))
            self.session_ntf(c, X, W.f(s, 'tx'), W.f(s, 'id'), 'Deinit', 'STATE_CHANGE_WITH_SESSION_MANAGEMENT_COMMANDS',
                             ('C03',))
            J.events(c, X, [e for e in bevs if e[0] != 'loop'], None)
        for _ in explore(W, B, one):
            pass

    def CoreGetDeviceInfoCmd(self, c, X, f):
        # UCI 2.0, MAC 1.3.0, PHY 1.3.0, test 1.1, nothing vendor specific
        self.rsp(c, X, ('C11',), status=self.st('OK'), uci_version=I(0x0002), mac_version=I(0x3001), phy_version=I(0x3001),
                 uci_test_version=I(0x1001), vendor_spec_info=('v', ()))

    def CoreGetCapsInfoCmd(self, c, X, f):
        self.status_only(c, X, ('C11',), 'OK')
        ident = X.rsp

        def both(val):
            ident(val)
            E, J = self.E, self.J
            raw = []
            for p in E.seq_parts(val)[5:]:
                if p[0] != 'e' or p[1][0] != 'i':
                    raise AnalysisError('a capability is not a constant')
                raw.append(p[1][1])
            n, caps, twice = raw[0] if raw else 0, {}, None
            rest, k = raw[1:], 0
            while len(rest) >= 2 and len(rest) >= 2 + rest[1]:
                if rest[0] in caps:
                    twice = rest[0]
                caps[rest[0]] = tuple(rest[2:2 + rest[1]])
                rest, k = rest[2 + rest[1]:], k + 1
            J.check(not rest and k == n, ('C11',), 'capabilities', 'encoding', 'the capability list announces %d entries but has %d' % (n, k))
            J.check(twice is None, ('C11',), 'capabilities', 'repeated', 'capability %s is reported twice' % twice)
            for t in sorted(set(caps) | set(CAPS)):
                J.check(caps.get(t) == CAPS.get(t), ('C11',), 'capabilities', '0x%02x' % t,
                        'capability 0x%02x is reported as %s, not %s' % (t, caps.get(t), CAPS.get(t)))
        X.rsp = both

    def status_only(self, c, X, props, tag):
        """Response with the expected identification and status; further fields are not specified."""
        E, J = self.E, self.J
        d = E.pdl.decls[X.rsp_name]
        gid = E.pdl.enums['GroupId'].tags[E.pdl.decls[d.parent].cons['gid']]

        def chk(val):
            hd = J.header(c, val)
            ok = hd is not None and c.must_eq(hd[0], I(2)) and c.must_eq(hd[1], self.gid) and c.must_eq(hd[2], self.oid)
            if not J.check(ok, ('C07',), 'response', 'response identification', 'the answer is %s' % self.W.show(val)[:200]):
                return
            st = E.index_parts(c.S, E.seq_parts(val), I(4))
            want = I(E.pdl.enums['Status'].tags[tag]) if isinstance(tag, str) else codec.wire_of(E, c.S, tag)
            J.check(c.must_eq(st, want), props, 'response', 'status',
                    'status %s instead of %s' % (self.W.show(st), self.W.show(want)))
        X.rsp, X.rsp_props = chk, props

    def AndroidGetPowerStatsCmd(self, c, X, f):
        self.status_only(c, X, ('C11',), 'OK')

    def AndroidSetCountryCodeCmd(self, c, X, f):
        self.rsp(c, X, ('C11',), status=self.st('OK'))
        X.set(X.own, 'country_code', f['country_code'], 'C11')

    def fold(self, c, X, props, what, seq, accs, step):
        """Fold over the items of a command; None (and a finding) when no loop provably computes it."""
        try:
            r, lid, m = fold(self.W, c, seq, accs, step, memo=(what,) + tuple(accs.values()))
        except NoFold as e:
            self.J.bad(props, 'fold', what, str(e))
            return None
        self.J.ok(props, 'fold')
        if lid is not None:
            X.loops[lid] = True
        return r

    def elem(self, name, **kw):
        return ('e', codec.make(self.E, name, **kw))

    def app(self, lst, name, **kw):
        return ('v', self.E.seq_parts(lst) + (self.elem(name, **kw),))

    EMPTY = ('v', ())

    def CoreSetConfigCmd(self, c, X, f):
        W, E = self.W, self.E
        props = ('C11',)
        if not c.is_(W.f(self.dev, 'state'), 'DeviceStateReady'):
            return self.rsp(c, X, props, status=self.st('REJECTED'), parameters=self.EMPTY)
        low = W.f(W.f(self.dev, 'config'), 'low_power_mode')

        def step(c2, item, v, B):
            g = codec.as_fields(E, c2.S, item)
            k = c2.variant(g['id'])
            if k == 'LowPowerMode':
                if c2.le(E.seq_len(g['value']), I0):
                    return {'low': lambda x: True, 'inv': v['inv']}
                nz = not c2.inteq(E.index_parts(c2.S, E.seq_parts(g['value']), I0), I0)
                return {'low': I1 if nz else I0, 'inv': v['inv']}
            st = 'READ_ONLY' if k == 'DeviceState' else 'INVALID_PARAM'
            return {'low': v['low'], 'inv': self.app(v['inv'], 'ConfigParameterStatus', id=g['id'], status=self.st(st))}
        r = self.fold(c, X, props, 'parameters of CORE_SET_CONFIG', Seq(E, c.S, f['parameters']),
                      {'inv': self.EMPTY, 'low': low}, step)
        if r is None:
            X.lost = True
            return
        X.set(X.own, 'config.low_power_mode', r['low'], *props)
        none = c.le(E.seq_len(r['inv']), I0)
        self.rsp(c, X, props, status=self.st('OK' if none else 'INVALID_PARAM'), parameters=self.EMPTY if none else r['inv'])

    def CoreGetConfigCmd(self, c, X, f):
        W, E = self.W, self.E
        props = ('C11',)
        cfg = W.f(self.dev, 'config')

        def step(c2, item, v, B):
            k = c2.variant(item)
            if k == 'DeviceState':
                val = codec.wire_of(E, c2.S, W.f(self.dev, 'state'))
            elif k == 'LowPowerMode':
                val = I1 if c2.cond(W.f(cfg, 'low_power_mode')) else I0
            else:
                return {'ok': v['ok'], 'bad': self.app(v['bad'], 'ConfigParameter', id=item, value=self.EMPTY)}
            return {'ok': self.app(v['ok'], 'ConfigParameter', id=item, value=('v', (('e', val),))), 'bad': v['bad']}
        what = 'parameters of CORE_GET_CONFIG'
        seq = Seq(E, c.S, f['parameter_ids'])
        bad = exists(W, c, seq, lambda c2, item: c2.variant(item) not in ('DeviceState', 'LowPowerMode'), ('cgc',))
        if bad is not None:
            # the other list does not matter
            k = 'bad' if bad else 'ok'

            def half(c2, item, v, B):
                n = step(c2, item, {'ok': self.EMPTY, 'bad': self.EMPTY, k: v[k]}, B)[k]
                if not bad and c2.variant(item) not in ('DeviceState', 'LowPowerMode'):
                    n = lambda x: True
                return {k: n}
            r = self.fold(c, X, props, what + ': ' + k, seq, {k: self.EMPTY}, half)
            if r is None:
                X.lost = True
                return
            return self.rsp(c, X, props, status=self.st('INVALID_PARAM' if bad else 'OK'), parameters=r[k])
        for good, bad in ((self.st('OK'), self.st('INVALID_PARAM')), (I0, I1), (I1, I0)):
            # one list that is started anew with the first unknown parameter
            def single(c2, item, v, B):
                lost = c2.cond(v['flag']) != (good == I1) if good in (I0, I1) else not c2.eq(v['flag'], good)
                known = c2.variant(item) in ('DeviceState', 'LowPowerMode')
                n = step(c2, item, {'ok': v['list'], 'bad': v['list'] if lost else self.EMPTY}, B)
                if known:
                    return {'flag': v['flag'], 'list': v['list'] if lost else n['ok']}
                return {'flag': bad, 'list': n['bad']}
            try:
                r, lid, _ = fold(W, c, seq, {'flag': good, 'list': self.EMPTY}, single, memo=('cgc1', good))
            except NoFold:
                continue
            self.J.ok(props, 'fold')
            if lid is not None:
                X.loops[lid] = True
            lost = c.cond(r['flag']) != (good == I1) if good in (I0, I1) else not c.eq(r['flag'], good)
            return self.rsp(c, X, props, status=self.st('INVALID_PARAM' if lost else 'OK'), parameters=r['list'])
        r = self.fold(c, X, props, what, seq, {'bad': self.EMPTY, 'ok': self.EMPTY}, step)
        if r is None:
            X.lost = True
            return
        if c.le(E.seq_len(r['bad']), I0):
            self.rsp(c, X, props, status=self.st('OK'), parameters=r['ok'])
        else:
            self.rsp(c, X, props, status=self.st('INVALID_PARAM'), parameters=r['bad'])

    # --- sessions
    def SessionInitCmd(self, c, X, f):
        W, E = self.W, self.E
        sid = f['session_id']
        props = ('C08',)
        if self.session(c, X, sid) is not None:
            return self.rsp(c, X, props, status=self.st('ERROR_SESSION_DUPLICATE'))
        if not c.lt(('y', E.USIZE, ('maplen', self.sessions, 0)), I(255)):
            return self.rsp(c, X, props, status=self.st('ERROR_MAX_SESSIONS_EXCEEDED'))
        self.rsp(c, X, props, status=self.st('OK'))
        m = models.get_map(E, c.S, self.sessions)
        k = [x for x in m.entries if x == sid or c.must_eq(x, sid)]
        key = k[0] if k else sid
        path = ('session', self.key, key)
        X.own_session = path

        def new(v):
            J = self.J
            ck = lambda fn, want, p: J.check(c.must_eq(W.f(v, fn), want), (p,), 'effect', 'new session.' + fn,
                                             'a new session has %s %s' % (fn, W.show(W.f(v, fn))))
            ck('state', self.sval('Init'), 'C02')
            ck('id', sid, 'C08')
            ck('device_handle', self.key, 'C08')
            ck('session_type', f['session_type'], 'C08')
            ck('sequence_number', I0, 'C16')
            ck('ranging_task', self.none(W.fty('Session', 'ranging_task')), 'C04')
            ck('tx', self.tx, 'C08')
            J.check(E.seq_len(W.f(v, 'data')) == I0, ('C15',), 'effect', 'new session.data', 'a new session has buffered data')
            self.new_config(c, W.f(v, 'app_config'))
        X.new[path] = (new, ('C08', 'C02'))
        self.session_ntf(c, X, self.tx, sid, 'Init', 'STATE_CHANGE_WITH_SESSION_MANAGEMENT_COMMANDS')

    def default_config(self):
        """The value of AppConfig::default."""
        E = self.E
        if not hasattr(self, 'defaults'):
            b = [x for x in E.bodies.values() if x['name'].endswith('app_config::AppConfig as std::default::Default>::default')]
            if not b:
                raise AnalysisError('AppConfig::default not found')
            from engine import St
            st = E.stack
            E.stack = []
            outs = E.run_body(St(), b[0]['id'], [])
            E.stack = st
            if len(outs) != 1 or outs[0][0] != 'ret':
                raise AnalysisError('AppConfig::default has several outcomes')
            self.defaults = outs[0][2]
        return self.defaults

    def new_config(self, c, cfg):
        """A new session starts from the default configuration."""
        W, E = self.W, self.E
        self.default_config()
        for (n, _), a, b in zip(E.fields(cfg[1]), self.defaults[3], cfg[3] if cfg[0] == 's' else ()):
            self.J.check(c.must_eq(a, b), ('C08',), 'effect', 'new session.app_config.' + n,
                         '%s of a new session is %s' % (n, W.show(b)))

    def SessionDeinitCmd(self, c, X, f):
        W = self.W
        s = self.session(c, X, f['session_token'])
        if s is None:
            return self.rsp(c, X, ('C08',), status=self.st('ERROR_SESSION_NOT_EXIST'))
        self.rsp(c, X, ('C08',), status=self.st('OK'))
        X.gone[X.own_session] = ('C08',)
        if c.is_(self.sstate(s), 'SessionStateActive'):
            self.stop(c, X, s, None, gone=True)
        self.session_ntf(c, X, W.f(s, 'tx'), W.f(s, 'id'), 'Deinit', 'STATE_CHANGE_WITH_SESSION_MANAGEMENT_COMMANDS')

    # --- application configuration
    def cfg_fn(self, name, mutable):
        W, E = self.W, self.E
        tlv = E.uci['AppConfigTlvType']
        hits = [b for b in E.bodies.values() if b['argc'] == (3 if mutable else 2) and b['locals'][2] == tlv
                and self.ref_to(b['locals'][1], W.t['AppConfig'])]
        named = [b for b in hits if b['name'].endswith('::' + name)]
        hits = named or hits
        if len(hits) != 1:
            raise AnalysisError('the %s function of the application configuration is not found' % name)
        return hits[0]

    def ref_to(self, ty, to):
        return self.E.deref_ty(ty) == to

    def cfg_set(self, c, cfg, tag, val):
        """(accepted?, new configuration) of setting one parameter, by the emulator's own function."""
        E = self.E
        r = E.alloc(c.S, cfg, self.W.t['AppConfig'])
        outs = E.run_body(c.S, self.cfg_fn('set', True)['id'], [r, tag, ('r', ('V', val), ())])
        v = c.choose([(s, x) for k, s, x in outs if k == 'ret'])
        return c.is_(v, 'Ok'), E.load(c.S, r)

    def cfg_get(self, c, cfg, tag):
        """Value read for one parameter, or None when it is refused."""
        E = self.E
        outs = E.run_body(c.S, self.cfg_fn('get', False)['id'], [('r', ('V', cfg), ()), tag])
        v = c.choose([(s, x) for k, s, x in outs if k == 'ret'])
        if not c.is_(v, 'Ok'):
            return None
        return E.proj(c.S, v, ('vf', 0, 0))

    def SessionGetAppConfigCmd(self, c, X, f):
        W, E = self.W, self.E
        s = self.session(c, X, f['session_token'])
        if s is None:
            return self.rsp(c, X, ('C08',), status=self.st('ERROR_SESSION_NOT_EXIST'), tlvs=self.EMPTY)
        props = ('C10',)
        cfg = W.f(s, 'app_config')
        seq = Seq(E, c.S, f['app_cfg'])
        bad = exists(W, c, seq, lambda c2, item: self.cfg_get(c2, cfg, item) is None,
                     ('get', cfg))
        if bad is None:
            X.lost = True
            return self.J.bad(props, 'fold', 'parameters of SESSION_GET_APP_CONFIG',
                              'whether all parameters can be read is not decided by a pass over all of them')
        if bad:
            return self.rsp(c, X, props, status=self.st('FAILED'), tlvs=self.EMPTY)

        def step(c2, item, v, B):
            val = self.cfg_get(c2, cfg, item)
            if val is None:
                return {'ok': lambda x: True}
            return {'ok': self.app(v['ok'], 'AppConfigTlv', cfg_id=item, v=val)}
        r = self.fold(c, X, props, 'parameters of SESSION_GET_APP_CONFIG', seq, {'ok': self.EMPTY}, step)
        if r is None:
            X.lost = True
            return
        self.rsp(c, X, props, status=self.st('OK'), tlvs=r['ok'])

    def SessionSetAppConfigCmd(self, c, X, f):
        W, E, J = self.W, self.E, self.J
        s = self.session(c, X, f['session_token'])
        none = self.EMPTY
        if s is None:
            return self.rsp(c, X, ('C08',), status=self.st('ERROR_SESSION_NOT_EXIST'), cfg_status=none)
        props = ('C09',)
        sty = W.f(s, 'session_type')
        if not c.is_(sty, 'FiraRangingSession', 'FiraRangingAndInBandDataSession'):
            return self.rsp(c, X, props, status=self.st('REJECTED'), cfg_status=none)
        if not c.is_(self.sstate(s), 'SessionStateInit', 'SessionStateActive'):
            return self.rsp(c, X, ('C02', 'C09'), status=self.st('REJECTED'), cfg_status=none)
        seq = Seq(E, c.S, f['tlvs'])
        if c.is_(self.sstate(s), 'SessionStateActive'):
            aoa = exists(W, c, seq, lambda c2, item: c2.is_(codec.as_fields(E, c2.S, item)['cfg_id'], 'AoaResultReq'), ('aoa', f['tlvs']))
            if aoa is None:
                X.lost = True
                return J.bad(props, 'fold', 'AOA_RESULT_REQ while ACTIVE',
                             'the presence of AOA_RESULT_REQ is not decided by a pass over all parameters')
            if aoa:
                return self.rsp(c, X, props, status=self.st('ERROR_SESSION_ACTIVE'), cfg_status=none)

        def step(c2, item, v, B):
            g = codec.as_fields(E, c2.S, item)
            ok, cfg = self.cfg_set(c2, v['cfg'], g['cfg_id'], g['v'])
            inv = v['inv'] if ok else self.app(v['inv'], 'AppConfigStatus', cfg_id=g['cfg_id'], status=self.st('INVALID_PARAM'))
            return {'inv': inv, 'cfg': cfg if ok else (lambda x: True)}
        r = self.fold(c, X, props, 'parameters of SESSION_SET_APP_CONFIG', seq,
                      {'inv': none, 'cfg': W.f(s, 'app_config')}, step)
        if r is None:
            X.lost = True
            return
        from world import MANDATORY
        good = c.le(E.seq_len(r['inv']), I0)
        full = True
        for m in MANDATORY:
            if not c.is_(W.f(r['cfg'], m), 'Some'):
                full = False
                break
        if not full and not good:
            # both errors: either answer
            a = J.packet(c, X.rsp_name, status=self.st('REJECTED'), cfg_status=none)
            b = J.packet(c, X.rsp_name, status=self.st('INVALID_PARAM'), cfg_status=r['inv'])
            X.rsp = lambda val: J.check(c.must_eq(val, a) or c.must_eq(val, b), props, 'response', 'response contents',
                                        'the response is %s' % W.show(val)[:200])
            X.rsp_props = props
            return
        if not full:
            return self.rsp(c, X, props, status=self.st('REJECTED'), cfg_status=none)
        if not good:
            return self.rsp(c, X, props, status=self.st('INVALID_PARAM'), cfg_status=r['inv'])
        self.rsp(c, X, props, status=self.st('OK'), cfg_status=none)
        X.set(X.own_session, 'app_config', r['cfg'], *props)
        if c.is_(self.sstate(s), 'SessionStateInit'):
            X.set(X.own_session, 'state', self.sval('Idle'), 'C02')
            self.session_ntf(c, X, W.f(s, 'tx'), W.f(s, 'id'), 'Idle', 'STATE_CHANGE_WITH_SESSION_MANAGEMENT_COMMANDS')

    def SessionGetCountCmd(self, c, X, f):
        self.rsp(c, X, ('C08',), status=self.st('OK'), session_count=('y', self.E.USIZE, ('maplen', self.sessions, 0)))

    def SessionGetStateCmd(self, c, X, f):
        E = self.E
        s = self.session(c, X, f['session_token'])
        if s is None:
            return self.status_only(c, X, ('C08',), 'ERROR_SESSION_NOT_EXIST')
        self.rsp(c, X, ('C08',), status=self.st('OK'), session_state=self.sstate(s))

    def SessionStartCmd(self, c, X, f):
        W, E = self.W, self.E
        s = self.session(c, X, f['session_id'])
        if s is None:
            return self.rsp(c, X, ('C08',), status=self.st('ERROR_SESSION_NOT_EXIST'))
        if not c.is_(self.sstate(s), 'SessionStateIdle'):
            return self.rsp(c, X, ('C02',), status=self.st('ERROR_SESSION_NOT_CONFIGURED'))
        self.rsp(c, X, ('C02',), status=self.st('OK'))
        X.set(X.own_session, 'state', self.sval('Active'), 'C02')
        self.session_ntf(c, X, W.f(s, 'tx'), W.f(s, 'id'), 'Active', 'STATE_CHANGE_WITH_SESSION_MANAGEMENT_COMMANDS')
        n = W.f(self.dev, 'n_active_sessions')
        X.set(X.own, 'n_active_sessions', add(n, I1), 'C05')
        if c.is_(W.f(self.dev, 'state'), 'DeviceStateReady'):
            X.set(X.own, 'state', self.dval('Active'), 'C05')
            self.device_ntf(c, X, self.tx, 'Active')
        timers = [t for t in (Task(W, e[1]) for e in c.S.log if e[0] == 'spawn') if t.kind == 'endless']
        rng = E.variant_index(W.t['PicaCommand'], 'Ranging')
        want = ('s', W.t['PicaCommand'], rng, (self.key, W.f(s, 'id')))
        ms = scale(W.f(W.f(s, 'app_config'), 'ranging_duration'), 10 ** 6)

        def timer(c2, t):
            if t.kind != 'endless':
                return None
            for seq in t.data:
                sl = [e for e in seq if e[0] == 'sleep']
                sn = [e for e in seq if e[0] == 'chsend']
                if len(sl) != 1 or len(sn) != 1 or len(seq) != 2:
                    return 'a round performs %s' % [e[0] for e in seq]
                d = sl[0][1]
                if not (d[0] == 'y' and d[2][0] == 'dur' and c2.must_eq(d[2][1], ms)):
                    return 'the interval is %s' % W.show(d)
                if not c2.must_eq(sn[0][1], W.f(self.dev, 'pica_tx')):
                    return 'the event goes to %s' % W.show(sn[0][1])
                if not c2.must_eq(sn[0][2], want):
                    return 'the event is %s' % W.show(sn[0][2])
            return True if t.data else 'no rounds'
        X.tasks.append(('timer', timer, ('C04',), 'ranging timer of the session'))

        def handle(v):
            if v[0] == 's' and v[2] == 1 and v[3][0][0] == 'y' and timers and v[3][0][2] == timers[0].tid:
                return True
            return 'the session does not own the timer it started'
        X.set(X.own_session, 'ranging_task', handle, 'C04')

    def SessionStopCmd(self, c, X, f):
        s = self.session(c, X, f['session_id'])
        if s is None:
            return self.rsp(c, X, ('C08',), status=self.st('ERROR_SESSION_NOT_EXIST'))
        if not c.is_(self.sstate(s), 'SessionStateActive'):
            return self.rsp(c, X, ('C02',), status=self.st('ERROR_SESSION_ACTIVE'))
        self.rsp(c, X, ('C02',), status=self.st('OK'))
        self.stop(c, X, s, 'STATE_CHANGE_WITH_SESSION_MANAGEMENT_COMMANDS')

    def SessionGetRangingCountCmd(self, c, X, f):
        s = self.session(c, X, f['session_id'])
        if s is None:
            return self.status_only(c, X, ('C08',), 'ERROR_SESSION_NOT_EXIST')
        self.rsp(c, X, ('C16',), status=self.st('OK'), count=self.W.f(s, 'sequence_number'))

    # --- multicast lists
    PAYLOADS = {'AddControlee': 'SessionUpdateControllerMulticastListCmdPayload',
                'RemoveControlee': 'SessionUpdateControllerMulticastListCmdPayload',
                'AddControleeWithShortSubSessionKey': 'SessionUpdateControllerMulticastListCmd_2_0_16_Byte_Payload',
                'AddControleeWithExtendedSubSessionKey': 'SessionUpdateControllerMulticastListCmd_2_0_32_Byte_Payload'}
    MAX_CONTROLEES = 8

    def contains(self, c, seq, x):
        E = self.E
        r = models.contains_val(E, c.S, E.expand_const(c.S, E.seq_parts(seq), 16), E.freeze(c.S, x))
        return c.cond(c.choose(r))

    def short(self, a):
        ty = self.W.t['MacAddress']
        return ('s', ty, self.E.variant_index(ty, 'Short'), (a,))

    def without(self, c, got, base, x):
        """Is got exactly base without the items equal to x?"""
        E = self.E
        if got[0] != 'y' or got[2][0] != 'filt' or not c.must_eq(got[2][1], base):
            def keep(c2, item, v, B):
                return {'out': v['out'] if c2.eq(item, x) else ('v', E.seq_parts(v['out']) + (('e', item),))}
            try:
                r, _, _ = fold(self.W, c, Seq(E, c.S, base), {'out': ('v', ())}, keep)
                if c.must_eq(r['out'], got):
                    return True
            except NoFold:
                pass
            return 'is not the list without the address: %s' % self.W.show(got)[:200]
        bve = models.BVE(E, got[1])
        for s, keep in models.filt_cases(E, c.S, got[2][2]):
            for c2, r in explore(self.W, s, lambda c2: (c2.eq(bve, x), c2.cond(keep))):
                if r[0] == r[1]:
                    return 'keeps or drops the wrong addresses'
        return True

    def shorter(self, c, base, x, there):
        """The list without an address is shorter if and only if the address was there."""
        E = self.E
        n0 = E.seq_len(base)
        for y in sorted({y for y in c.S.mem.values() if y[0] == 'y' and y[2][0] == 'filt' and y[2][1] == base}, key=repr):
            if self.without(c, y, base, x) is True:
                n1 = E.seq_len(y)
                if not (E.assume_le(c.S, add(n1, I1), n0) if there else E.assume_le(c.S, n0, n1)):
                    return False
        return True

    def SessionUpdateControllerMulticastListCmd(self, c, X, f):
        W, E, J = self.W, self.E, self.J
        none = self.EMPTY
        props = ('C12',)
        s = self.session(c, X, f['session_token'])
        if s is None:
            return self.rsp(c, X, ('C08',), status=self.st('ERROR_SESSION_NOT_EXIST'), controlee_status=none)
        cfg = W.f(s, 'app_config')

        def opt(name, want):
            v = W.f(cfg, name)
            return c.is_(v, 'Some') and c.is_(E.proj(c.S, v, ('vf', 1, 0)), want)
        if not (c.is_(self.sstate(s), 'SessionStateActive', 'SessionStateIdle') and opt('device_type', 'Controller')
                and opt('multi_node_mode', 'OneToMany')):
            return self.rsp(c, X, props, status=self.st('REJECTED'), controlee_status=none)
        active = c.is_(self.sstate(s), 'SessionStateActive')
        action = c.variant(f['action'])
        J.what = '%s %s' % (J.what, action)
        pl = c.choose([(a, b) for a, b, _ in codec.decode(E, c.S, self.PAYLOADS[action], E.seq_parts(f['payload']), full=True)])
        if pl is None:
            return self.rsp(c, X, props, status=self.st('SYNTAX_ERROR'), controlee_status=none)
        items = codec.as_fields(E, c.S, pl)['controlees']
        seq = Seq(E, c.S, items)
        dst0 = W.f(cfg, 'dst_mac_address')
        remove = action == 'RemoveControlee'
        keyed = 'SubSessionKey' in action
        sts = W.f(cfg, 'sts_config')
        applicable = not keyed or c.is_(sts, 'ProvisionedForResponderSubSessionKey')
        es = lambda tag: codec.enum_val(E, 'MulticastUpdateStatus', tag)
        addr = lambda c2, item: codec.as_fields(E, c2.S, item)['short_address']

        def row(lst, a, tag):
            return self.app(lst, 'ControleeStatus', mac_address=a, status=es(tag))

        def step(c2, item, v, B):
            if keyed and c2.is_(sts, 'ProvisionedForResponderSubSessionKey') != applicable:
                raise Dead()
            if not applicable:
                return {'dst': v['dst'], 'status': self.st('FAILED')}
            a = addr(c2, item)
            mac = self.short(a)
            there = self.contains(c2, v['dst'], mac)
            if remove:
                if not self.shorter(c2, v['dst'], mac, there):
                    raise Dead()
                same = lambda got: got == v['dst'] or c2.must_eq(got, v['dst'])
                if not there:
                    return {'dst': lambda got: same(got) or self.without(c2, got, v['dst'], mac), 'rsp': row(v['rsp'], a, 'ERROR_ADDRESS_NOT_FOUND'),
                            'status': self.st('FAILED'), 'ntf': v['ntf']}
                return {'dst': lambda got: self.without(c2, got, v['dst'], mac), 'status': v['status'],
                        'rsp': row(v['rsp'], a, 'OK_MULTICAST_LIST_UPDATE'),
                        'ntf': row(v['ntf'], a, 'OK_MULTICAST_LIST_UPDATE')}
            if there:
                return {'dst': v['dst'], 'rsp': row(v['rsp'], a, 'ERROR_ADDRESS_ALREADY_PRESENT'), 'status': self.st('FAILED')}
            if not c2.lt(E.seq_len(v['dst']), I(self.MAX_CONTROLEES)):
                return {'dst': v['dst'], 'rsp': row(v['rsp'], a, 'ERROR_MULTICAST_LIST_FULL'),
                        'status': self.st('ERROR_MULTICAST_LIST_FULL')}
            return {'dst': ('v', E.seq_parts(v['dst']) + (('e', mac),)), 'status': v['status'],
                    'rsp': row(v['rsp'], a, 'OK_MULTICAST_LIST_UPDATE')}
        accs = {'rsp': none, 'dst': dst0, 'status': self.st('OK')}
        if remove and active:
            accs['ntf'] = none
        if not applicable:
            # how the response lists the refused controlees is not specified
            del accs['rsp']
        full = step

        def step2(c2, item, v, B):
            r = full(c2, item, dict({'ntf': none, 'rsp': none}, **v), B)
            return {k: x for k, x in r.items() if k in accs}
        try:
            r, lid, m = fold(W, c, seq, accs, step2, memo=(action, active, applicable, dst0))
        except NoFold as e:
            X.lost = True
            return J.bad(props, 'fold', 'controlees', str(e))
        J.ok(props, 'fold')
        if lid is not None:
            X.loops[lid] = True
            self.stop_requests(c, X, lid, m, seq, dst0, cfg, remove, f['session_token'], addr)
        if applicable:
            self.rsp(c, X, props, status=r['status'], controlee_status=r['rsp'])
        else:
            self.status_only(c, X, props, r['status'])
        if remove and active:
            pkt = J.packet(c, 'SessionUpdateControllerMulticastListNtf', session_token=f['session_token'],
                           controlee_status=r['ntf'])
            self.ntf_task(c, X, 'multicast', self.tx, pkt, props, 'SESSION_UPDATE_CONTROLLER_MULTICAST_LIST_NTF')
        self.list_result(c, X, s, active, r['dst'])

    def list_result(self, c, X, s, active, dst):
        """The new destination list of the session and what follows from it."""
        W, E = self.W, self.E
        X.set(X.own_session, 'app_config.dst_mac_address', dst, 'C12')
        n = E.seq_len(dst)
        X.set(X.own_session, 'app_config.number_of_controlees', E.bits(c.S, n, 0, 8, E.U8), 'C12')
        if active and c.le(n, I0):
            self.stop(c, X, s, 'ERROR_INVALID_NUM_OF_CONTROLEES')

    def stop_requests(self, c, X, lid, m, seq, dst0, cfg, remove, sid, addr):
        """Every iteration that removes a controlee requests its in-band stops, and no other does."""
        W, E, J = self.W, self.E, self.J
        info, its = J.loop_effects(lid)
        n = W.f(cfg, 'in_band_termination_attempt_count')
        for B, evs, bd in its:
            for d in bd:
                if d[0] != 'bumped':
                    J.bad(('C29', 'C12'), 'frame', 'loop changes state', str(d[1:3])[:200])

            def one(c2):
                Y = Exp(c2)
                Y.own = Y.own_session = None
                ps = positions(W, c, info, seq.n)
                dst = E.load_loc(info.head, m['dst']) if m['dst'] is not None else dst0
                if remove:
                    a = self.short(addr(c2, seq.at(c2, ps[0])))
                    there = self.contains(c2, dst, a)
                    if not self.shorter(c2, dst, a, there):
                        raise Dead()
                    if there and not c2.inteq(n, I0):
                        Y.tasks.append(('stop', self.stop_task(a, sid, n), ('C13',), 'in-band stop requests'))
                J.events(c2, Y, [e for e in evs if e[0] != 'loop'], None)
            for _ in explore(W, B, one):
                pass

    def stop_task(self, a, sid, n):
        W, E = self.W, self.E
        want = ('s', W.t['PicaCommand'], E.variant_index(W.t['PicaCommand'], 'StopRanging'), (a, sid))

        def pred(c2, t):
            if t.kind != 'repeat':
                return None
            info, seqs = t.data
            for sq in seqs:
                if len(sq) != 1 or sq[0][0] != 'chsend':
                    return 'an attempt performs %s' % [e[0] for e in sq]
                if not c2.must_eq(sq[0][1], W.f(self.dev, 'pica_tx')):
                    return 'the request goes to %s' % W.show(sq[0][1])
                if not c2.must_eq(sq[0][2], want):
                    return 'the request is %s instead of %s' % (W.show(sq[0][2])[:160], W.show(want)[:160])
            for k, S, _ in t.t['outs']:
                if k == 'ret' and info.lid in [e[1] for e in S.log if e[0] == 'loop'] \
                        and not repetitions(W, Ctx(W, S, ()), info, n):
                    return 'the number of requests is not the attempt count'
            return True
        return pred

    # --- data
    def data(self, c, X):
        W, E, J = self.W, self.E, self.J
        props = ('C15',)
        J.what = 'data packet'
        v = c.choose([(a, b) for a, b, _ in codec.decode(E, c.S, 'DataMessageSnd', self.parts, full=True)])
        if v is None:
            # not a packet a host may send: no state change, at most one notification
            J.what = 'other data packet'
            X.rsp_any = True
            return J.verify(c, X, self.tx)
        f = codec.as_fields(E, c.S, v)
        sid = f['session_handle']
        s = self.session(c, X, sid)
        X.rsp_props = props
        if s is None:
            self.refuse(c, X, sid, 'UCI_DATA_TRANSFER_STATUS_ERROR_REJECTED')
        elif not c.is_(W.f(s, 'session_type'), 'FiraRangingAndInBandDataSession'):
            self.refuse(c, X, sid, 'UCI_DATA_TRANSFER_STATUS_SESSION_TYPE_NOT_SUPPORTED')
        else:
            buf, app = W.f(s, 'data'), f['application_data']
            if not c.le(add(E.seq_len(buf), E.seq_len(app)), I(65535)):
                self.refuse(c, X, sid, 'UCI_DATA_TRANSFER_STATUS_ERROR_NO_CREDIT_AVAILABLE')
            else:
                X.set(X.own_session, 'data', ('v', E.seq_parts(buf) + E.seq_parts(app)), *props)
                X.rsp = J.packet(c, 'SessionDataCreditNtf', session_token=sid,
                                 credit_availability=codec.enum_val(E, 'CreditAvailability', 'CREDIT_AVAILABLE'))
        J.verify(c, X, self.tx)

    def refuse(self, c, X, sid, tag):
        E, J = self.E, self.J
        want = E.seq_parts(J.packet(c, 'SessionDataTransferStatusNtf', session_token=sid, uci_sequence_number=I0, tx_count=I0,
                                    status=codec.enum_val(E, 'DataTransferNtfStatusCode', tag)))

        def chk(val):
            got = E.seq_parts(val)
            try:
                ok = all(c.must_eq(E.index_parts(c.S, got, I(i)), E.index_parts(c.S, want, I(i)))
                         for i in (0, 1, 4, 5, 6, 7, 9)) and c.must_eq(E.parts_len(got), E.parts_len(want))
            except (AnalysisError, IndexError):
                ok = False
            J.check(ok, ('C15',), 'response', 'refusal', 'the answer to refused data is %s instead of %s' % (
                self.W.show(val)[:200], tag))
        X.rsp = chk
