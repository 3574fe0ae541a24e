"""Specification of the emulator's commands other than packets: connections, anchors, in-band stops and ranging rounds."""
import codec
import models
from engine import I, I0, I1, AnalysisError, add, sub
from spec import Exp
from world import explore, Ctx
from fold import Seq, loops_of, positions, same_kind

MEASUREMENT = 'ShortAddressTwoWayRangingMeasurement'


class PicaSpec:
    def __init__(self, J, U):
        self.J, self.W, self.E, self.F, self.U = J, J.W, J.E, J.F, U

    def exp(self, c):
        X = Exp(c)
        X.own = X.own_session = None
        return X

    def event(self, name, *fs):
        ty = self.W.t['PicaEvent']
        return ('s', ty, self.E.variant_index(ty, name), fs)

    def named(self, tn, variant, **kw):
        """A variant of an enum with named fields."""
        E, ty = self.E, self.W.t[tn]
        vi = E.variant_index(ty, variant)
        fs = E.fields(ty, vi)
        names = [n for n, _ in fs]
        if sorted(names) != sorted(kw):
            vals = list(kw.values())   # unnamed fields: positional
            if len(vals) != len(fs):
                raise AnalysisError('fields of %s::%s' % (tn, variant))
            return ('s', ty, vi, tuple(vals))
        return ('s', ty, vi, tuple(kw[n] for n in names))

    # --- whole-map loops
    def map_loop(self, info, mid):
        """Does every iteration of the loop visit one element of map mid?  [(back state, version, key)] or None."""
        out = []
        for B in info.backs:
            its = [e for e in B.log[info.mlog:] if e[0] == 'hm-item' and e[1] == mid]
            if len(its) != 1:
                return None
            out.append((B, its[0][2], its[0][3]))
        return out or None

    def complete(self, S, lid, mid):
        """Was the loop left only after every element of the map had been visited?"""
        on = False
        for e in S.log:
            if e == ('loop', lid):
                on = True
            elif on and e[0] == 'hm-end' and e[1] == mid:
                return True
            elif on and e[0] == 'loop':
                return False
        return False

    # --- disconnection
    def Disconnect(self, c, fs):
        W, E, J = self.W, self.E, self.J
        J.what = 'disconnection'
        X = self.exp(c)
        key = c.initially(W.devices, fs[0])
        if key is not None:
            dev = W.init_elem(W.devices, 0, key)
            self.U.key, self.U.dev, self.U.tx = key, dev, W.f(dev, 'tx')
            X.gone[('device', key)] = ('C20',)
            X.events.append((self.named('PicaEvent', 'Disconnected', handle=W.f(dev, 'handle'),
                                        mac_address=W.f(dev, 'mac_address')), ('C20',)))
            sessions = W.f(dev, 'sessions')
            if not c.inteq(('y', E.USIZE, ('maplen', sessions, 0)), I0) or loops_of(c.S):
                self.U.drop_sessions(c, X, sessions, dev, 'C20')
        J.verify(c, X, None)

    # --- connection
    def Connect(self, c, fs):
        W, E, J = self.W, self.E, self.J
        J.what = 'connection'
        X = self.exp(c)
        h = W.counter
        X.set(('pica',), 'counter', add(h, I1), 'C19')
        got = {}

        def new(v):
            got['dev'] = v

            def ck(fn, ok, props):
                J.check(ok, props, 'effect', 'new device.' + fn, 'a new device has %s %s' % (fn, W.show(W.f(v, fn))))
            ck('handle', c.must_eq(W.f(v, 'handle'), h), ('C19', 'C20'))
            ck('is_reset', c.must_eq(W.f(v, 'is_reset'), I0), ('C06',))
            ck('n_active_sessions', c.must_eq(W.f(v, 'n_active_sessions'), I0), ('C05',))
            ck('state', c.must_be(W.f(v, 'state'), 'DeviceStateReady'), ('C05',))
            ck('pica_tx', c.must_eq(W.f(v, 'pica_tx'), W.command_tx), ('C04',))
            m = c.S.maps.get(W.f(v, 'sessions'))
            ck('sessions', m is not None and m.base is None and not any(p for p, _ in m.entries.values()), ('C08', 'C20'))
            tx = W.f(v, 'tx')
            ck('tx', tx[0] == 'y' and tx[2][0] == 'chan', ('C29', 'C20'))
            cfg = W.f(v, 'config')
            ck('config', c.must_eq(W.f(cfg, 'low_power_mode'), I1), ('C11',))
            cc = W.f(v, 'country_code')
            ck('country_code', c.must_eq(cc, ('a', (I0, I0))), ('C11',))
        X.new[('device', h)] = (new, ('C19', 'C20'))
        # the new device is needed for the event and the notification
        m = c.S.maps.get(W.devices)
        dev = None
        for k in (m.entries if m else ()):
            if c.must_eq(k, h):
                dev = c.S.mem.get(('E', W.devices, m.ver, k))
        if dev is not None:
            X.events.append((self.named('PicaEvent', 'Connected', handle=h, mac_address=W.f(dev, 'mac_address')), ('C20',)))
            pkt = J.packet(c, 'CoreDeviceStatusNtf', device_state=codec.enum_val(E, 'DeviceState', 'DEVICE_STATE_READY'))
            evs, _ = J.effects(c.S)
            if any(e[0] == 'send' and c.must_eq(e[1], W.f(dev, 'tx')) and c.must_eq(e[2], pkt) for e in evs):
                X.sends.append((W.f(dev, 'tx'), pkt, ('C05',)))
            else:
                self.U.ntf_task(c, X, 'device', W.f(dev, 'tx'), pkt, ('C05',), 'CORE_DEVICE_STATUS_NTF Ready')
            order = [e for e in evs if e[0] == 'event'] and self.order(c)
            J.check(order, ('C20',), 'order', 'announcement before use',
                    'the device is usable before its Connected event is announced')
        X.tasks.append(('connection', lambda c2, t: self.connection(c2, t, h, dev, fs), ('C20',), 'connection task'))
        J.verify(c, X, None)

    def order(self, c):
        """The Connected event precedes the start of the connection task."""
        ev = [i for i, e in enumerate(c.S.log) if e[0] == 'event']
        sp = [i for i, e in enumerate(c.S.log) if e[0] == 'spawn' and self.is_connection(e[1])]
        return all(i < j for i in ev for j in sp)

    def is_connection(self, tid):
        return any(e[0] in ('chsend', 'recv', 'sink', 'file-create') and (e[0] != 'chsend' or e[1] == self.W.command_tx)
                   for k, S, _ in (self.E.tasks[tid]['outs'] or []) if S is not None for e in S.log)

    def connection(self, c, t, h, dev, fs):
        """The task that serves a connection requests the disconnection exactly once on every way out."""
        W, E = self.W, self.E
        if not self.is_connection(t.tid) and not (t.t['outs'] is None):
            return None
        outs = t.t['outs']
        if outs is None:
            return 'the connection task cannot be analysed'
        want = ('s', W.t['PicaCommand'], E.variant_index(W.t['PicaCommand'], 'Disconnect'), (h,))
        for k, S, v in outs:
            if k == 'panic':
                return 'the connection task may panic without requesting the disconnection'
            n = [e for e in S.log if e[0] == 'chsend' and e[1] == W.command_tx and e[2] == want]
            if len(n) != 1:
                return 'the connection task ends with %d disconnection requests' % len(n)
            if any(e[0] == 'chsend' and e not in n and e[2][0] == 's'
                   and W.vname(e[2][1], e[2][2]) == 'Disconnect' for e in S.log):
                return 'the connection task requests the disconnection of another device'
        for lid in t.t['loops']:
            info = E.loops[lid]
            for B in info.backs:
                if any(e[0] == 'chsend' and e[2][0] == 's' and W.vname(e[2][1], e[2][2]) == 'Disconnect'
                       for e in B.log[info.mlog:]):
                    return 'the disconnection is requested while the connection is served'
        return True if outs else 'the connection task never ends'

    # --- anchors
    def device_has(self, c, mac):
        """Is there a device with this address?  True / False as established by the outcome, or None."""
        W, E = self.W, self.E
        S = c.S
        for e in S.log:
            if e[0] == 'hm-item' and e[1] == W.devices:
                if c.must_eq(W.f(W.init_elem(W.devices, e[2], e[3]), 'mac_address'), mac):
                    return True
        if c.must_eq(('y', E.USIZE, ('maplen', W.devices, 0)), I0):
            return False
        for lid in loops_of(S):
            info = E.loops[lid]
            its = self.map_loop(info, W.devices)
            if its is None or not self.complete(S, lid, W.devices):
                continue

            def none(B, ver, key):
                return all(r is False for _, r in explore(W, B, lambda c2: c2.may_eq(
                    W.f(W.init_elem(W.devices, ver, key), 'mac_address'), mac)))
            if all(none(*x) for x in its):
                return False
        return None

    def oneshot(self, c, X, chan, ok, v, props=('C19',)):
        """The requester's answer: Ok(handle) or Err(error(mac))."""
        E = self.E
        ty = None
        for e in c.S.log:
            if e[0] == 'oneshot':
                ty = e[2][1]
        if ty is None:
            X.oneshots.append((chan, UNANSWERED, props))
            return
        X.oneshots.append((chan, ('s', ty, 0 if ok else 1, (v,)), props))

    def err(self, tag, mac):
        ty = self.W.t['PicaCommandError']
        return ('s', ty, self.E.variant_index(ty, tag), (mac,))

    def CreateAnchor(self, c, fs):
        W, E, J = self.W, self.E, self.J
        J.what = 'anchor creation'
        mac, chan = fs
        X = self.exp(c)
        key = c.initially(W.anchors, mac)
        exists = True if key is not None else self.device_has(c, mac)
        if exists is None:
            J.bad(('C19',), 'lookup', 'address of a device', 'whether a device has the address is not decided by a pass over all devices')
            return
        if exists:
            self.oneshot(c, X, chan, False, self.err('DeviceAlreadyExists', mac))
        else:
            h = W.counter
            X.set(('pica',), 'counter', add(h, I1), 'C19')
            self.oneshot(c, X, chan, True, h)
            m = models.get_map(E, c.S, W.anchors)
            k = [x for x in m.entries if c.must_eq(x, mac)]

            def new(v):
                J.check(c.must_eq(W.f(v, 'handle'), h), ('C19',), 'effect', 'new anchor.handle',
                        'the handle of a new anchor is %s' % W.show(W.f(v, 'handle')))
                J.check(c.must_eq(W.f(v, 'mac_address'), mac), ('C19',), 'effect', 'new anchor.mac_address',
                        'the address of a new anchor is %s' % W.show(W.f(v, 'mac_address')))
            X.new[('anchor', k[0] if k else mac)] = (new, ('C19',))
        J.verify(c, X, None)

    def DestroyAnchor(self, c, fs):
        W, J = self.W, self.J
        J.what = 'anchor destruction'
        mac, chan = fs
        X = self.exp(c)
        key = c.initially(W.anchors, mac)
        if key is None:
            self.oneshot(c, X, chan, False, self.err('DeviceNotFound', mac))
        else:
            X.gone[('anchor', key)] = ('C19',)
            self.oneshot(c, X, chan, True, W.f(W.init_elem(W.anchors, 0, key), 'handle'))
        J.verify(c, X, None)

    # --- in-band stops
    def StopRanging(self, c, fs):
        W, E, J = self.W, self.E, self.J
        J.what = 'in-band stop'
        mac, sid = fs
        X = self.exp(c)
        done = False
        if c.must_eq(('y', E.USIZE, ('maplen', W.devices, 0)), I0):
            done = True
        for lid in loops_of(c.S):
            info = E.loops[lid]
            its = self.map_loop(info, W.devices)
            if its is None:
                continue
            X.loops[lid] = True
            J.check(self.complete(c.S, lid, W.devices), ('C13',), 'loop', 'all devices are visited',
                    'the loop at %s may end before all devices were visited' % info.fn)
            if done:
                J.bad(('C13',), 'loop', 'two passes over the devices', 'the devices are visited twice')
            done = True
            self.stop_item(info, its, mac, sid)
            for mid in info.bumped:
                X.bumped[mid] = True
        J.check(done, ('C13',), 'loop', 'the devices are visited', 'no loop visits all devices')
        for d in W.deltas(c.S):
            if d[0] == 'bumped':
                X.bumped[d[1]] = True
        J.verify(c, X, None)

    def stop_item(self, info, its, mac, sid):
        """One device of an in-band stop request."""
        W, E, J, U = self.W, self.E, self.J, self.U
        for B, ver, key in its:
            def one(c):
                J.what = 'in-band stop of one device'
                dev = W.init_elem(W.devices, ver, key)
                U.key, U.dev, U.tx, U.sessions = key, dev, W.f(dev, 'tx'), W.f(dev, 'sessions')
                X = self.exp(c)
                X.own = ('device', key)
                X.bumped[U.sessions] = X.bumped[W.devices] = True
                s = U.session(c, X, sid)
                if s is not None:
                    m = W.f(W.f(s, 'app_config'), 'device_mac_address')
                    if c.is_(m, 'Some') and c.eq(E.proj(c.S, m, ('vf', 1, 0)), mac) and c.is_(U.sstate(s), 'SessionStateActive'):
                        U.stop(c, X, s, 'SESSION_STOPPED_DUE_TO_INBAND_SIGNAL')
                J.verify(c, X, None, start=info.mlog)
            for _ in explore(W, B, one, base=info.head):
                pass
        J.what = 'in-band stop'

    # --- ranging
    def Ranging(self, c, fs):
        W, E, J, U = self.W, self.E, self.J, self.U
        J.what = 'ranging round'
        X = self.exp(c)
        key = c.initially(W.devices, fs[0])
        if key is None:
            J.what = 'ranging round of an unknown device'
            return J.verify(c, X, None)
        dev = W.init_elem(W.devices, 0, key)
        U.key, U.dev, U.tx, U.sessions = key, dev, W.f(dev, 'tx'), W.f(dev, 'sessions')
        X.own = ('device', key)
        s = U.session(c, X, fs[1])
        if s is None or not c.is_(U.sstate(s), 'SessionStateActive'):
            J.what = 'ranging round of an inactive session'
            return J.verify(c, X, None)
        self.key, self.dev, self.s, self.sid = key, dev, s, U.skey
        cfg = self.cfg = W.f(s, 'app_config')
        J.what = 'ranging round'
        ntf = not c.is_(W.f(cfg, 'session_info_ntf_config'), 'Disable')
        if ntf:
            seq = W.f(s, 'sequence_number')
            lists = self.lists(c)
            evs, _ = J.effects(c.S)
            sends = [e for e in evs if e[0] == 'send' and c.must_eq(e[1], U.tx)]
            found = None
            if len(sends) == 1:
                for v in lists:
                    pkt = J.packet(c, 'ShortMacTwoWaySessionInfoNtf', sequence_number=seq, session_token=W.f(s, 'id'),
                                   rcr_indicator=I0, current_ranging_interval=I0, two_way_ranging_measurements=v,
                                   vendor_data=('v', ()))
                    if c.must_eq(sends[0][2], pkt):
                        found = v
                        X.sends.append((U.tx, pkt, ('C14', 'C16')))
                        break
            if len(sends) != 1:
                J.bad(('C14',), 'report', 'number of reports', '%d packets are sent to the host of the session' % len(sends))
            elif found is None:
                self.misreport(c, sends[0][2], s, seq)
                X.sends.append((U.tx, sends[0][2], ('C14',)))
            else:
                self.report(c, found)
            X.set(X.own_session, 'sequence_number', add(seq, I1), 'C16')
        self.transfer(c, X)
        X.set(X.own_session, 'data', lambda v: E.norm_int(c.S, E.seq_len(v)) == I0 or E.prove_eq(c.S, E.seq_len(v), I0)
              or 'the buffer is not cleared', 'C15')
        for lid in loops_of(c.S):
            self.loop_frame(E.loops[lid])
            X.loops[lid] = True
        J.verify(c, X, U.tx)

    def misreport(self, c, val, s, seq):
        """Blame the right property for a report that is not the expected one."""
        W, E, J = self.W, self.E, self.J
        parts = E.seq_parts(val)
        try:
            at = [E.index_parts(c.S, parts, I(i)) for i in range(12)]
        except AnalysisError:
            return J.bad(('C14',), 'report', 'report contents', 'the report is %s' % W.show(val)[:300])
        ok = all(c.must_eq(at[4 + i], E.bits(c.S, seq, 8 * i, 8, E.U8)) for i in range(4))
        J.check(ok, ('C16',), 'report', 'sequence number of the report', 'the report is %s' % W.show(val)[:200])
        if ok:
            J.bad(('C14',), 'report', 'report contents', 'the report is %s' % W.show(val)[:300])

    def lists(self, c):
        """Lists of measurements the loops of the outcome left behind (and the empty one)."""
        E = self.E
        out = [('v', ())]
        for lid in loops_of(c.S):
            info = E.loops[lid]
            for loc, ph in info.phis.items():
                if ph[0] == 'y' and E.is_seq_ty(ph[1]) and codec.pname(E, E.elem_ty(ph[1])) == MEASUREMENT:
                    out.append(ph)
                    self.origin[ph] = (info, loc)
        for r, v in list(c.S.mem.items()):
            if isinstance(v, tuple) and v and v[0] == 'v' and any(p[0] == 'q' and p[1] in self.origin for p in v[1]):
                out.append(v)
        return out

    @property
    def origin(self):
        if not hasattr(self, '_origin'):
            self._origin = {}
        return self._origin

    def report(self, c, lst):
        """The list of measurements is one pass over the destination list and one over the devices."""
        E, W, J = self.E, self.W, self.J
        props = ('C14',)
        dst = W.f(self.cfg, 'dst_mac_address')
        todo = [lst]
        kinds = []
        while todo:
            v = todo.pop()
            if v[0] == 'y' and v in self.origin:
                info, loc = self.origin[v]
                kinds.append(self.pass_kind(c, info, loc, v, dst))
                todo.append(E.load_loc(info.entry, loc))
            elif v[0] in ('v', 'a'):
                for p in v[1]:
                    if p[0] == 'q' and p[2] == I0 and E.prove_eq(c.S, p[3], E.seq_len(p[1])):
                        todo.append(p[1])
                    else:
                        return J.bad(props, 'report', 'other measurements', 'the report contains %s' % W.show(p)[:200])
            elif E.prove_eq(c.S, E.seq_len(v), I0):
                pass
            else:
                return J.bad(props, 'report', 'other measurements', 'the report contains %s' % W.show(v)[:200])
        for k, what, empty in (('anchors', 'anchors of the destination list', E.seq_len(dst)),
                               ('devices', 'other devices', ('y', E.USIZE, ('maplen', W.devices, 0)))):
            n = kinds.count(k)
            J.check(n == 1 or (n == 0 and c.must_eq(empty, I0)), props, 'report', 'one pass over the ' + what,
                    'the report comes from %d passes over the %s' % (n, what))
        J.check(set(kinds) <= {'anchors', 'devices'}, props, 'report', 'passes', 'a loop adds other measurements to the report')

    memo = {}

    def pass_kind(self, c, info, loc, ph, dst):
        """'anchors' | 'devices': what a loop that extends the list of measurements goes over, after checking its body."""
        k = (info.lid, loc, self.key, self.sid)
        if k not in self.memo:
            self.memo[k] = self.pass_kind1(c, info, loc, ph, dst)
        kind, n, mid, text = self.memo[k]
        if kind == 'anchors' and not positions(self.W, c, info, n):
            self.J.bad(('C14',), 'report', 'all anchors', 'the loop may end before the end of the destination list')
        if kind == 'devices':
            self.J.check(self.complete(c.S, info.lid, mid), ('C14',), 'report', 'all devices',
                         'the loop may end before all devices were visited')
        for t in text:
            self.J.bad(('C14',), 'report', 'measurements of ' + str(kind), t)
        return kind

    def pass_kind1(self, c, info, loc, ph, dst):
        W, E = self.W, self.E
        text = []
        its = self.map_loop(info, W.devices)
        if its is not None:
            for B, ver, key in its:
                self.rows(B, loc, ph, lambda c2: self.device_row(c2, ver, key), text)
            return 'devices', None, W.devices, text
        n = E.seq_len(dst)
        ps = positions(W, c, info, n)
        if not ps:
            return None, None, None, ['a loop over something else adds measurements']
        seq = Seq(E, c.S, dst)
        for B in info.backs:
            self.rows(B, loc, ph, lambda c2: self.anchor_row(c2, seq.at(c2, ps[0])), text)
        return 'anchors', n, None, text

    def rows(self, B, loc, ph, row, text):
        """In every back state, the list grew by exactly the expected measurement."""
        E, W = self.E, self.W
        for c2, want in explore(W, B, row):
            got = E.load_loc(c2.S, loc)
            parts = E.simp_parts(c2.S, E.seq_parts(got))
            if not parts or parts[0][:2] != ('q', ph) or parts[0][2] != I0 or not E.prove_eq(c2.S, parts[0][3], E.seq_len(ph)):
                if not (not parts and E.prove_eq(c2.S, E.seq_len(ph), I0)):
                    text.append('earlier measurements are changed')
                    continue
            new = parts[1:]
            if want is None:
                if new:
                    text.append('a measurement is reported although it should not: %s' % W.show(new[0])[:300])
                continue
            if len(new) != 1 or new[0][0] != 'e':
                text.append('%d measurements are reported instead of one' % len(new))
                continue
            f = codec.as_fields(E, c2.S, new[0][1])
            for n, v in want.items():
                if not c2.must_eq(f[n], v):
                    text.append('%s is %s instead of %s' % (n, W.show(f[n])[:200], W.show(v)[:200]))

    def est(self, c, a, b):
        """The estimator's measurement from a to b: fields or None."""
        E = self.E
        v = E.sym(self.option_ty(), ('est', a, b))
        if not c.is_(v, 'Some'):
            return None
        return E.proj(c.S, v, ('vf', 1, 0))

    def option_ty(self):
        E = self.E
        m = (E.adt('pica::RangingMeasurement') or E.adt('RangingMeasurement'))['i']
        self.meas = {n: i for i, (n, _) in enumerate(E.fields(m))}
        return [t['i'] for t in E.T if t.get('path', '').endswith('option::Option') and t['args'] == [m]][0]

    def row(self, c, mac, other):
        """Expected measurement of a peer with address mac and handle other, or None."""
        E, W = self.E, self.W
        me = W.f(self.dev, 'handle')
        local = self.est(c, me, other)
        if local is None:
            return None
        remote = self.est(c, other, me)
        if remote is None:
            return None
        if not c.is_(mac, 'Short'):
            return None
        a = E.proj(c.S, mac, ('vf', E.variant_index(W.t['MacAddress'], 'Short'), 0))
        pa = E.seq_parts(a)
        num = E.from_bytes(c.S, [E.index_parts(c.S, pa, I(i)) for i in range(2)], E.int_ty['u16'])
        g = lambda m, n: E.cast(c.S, 'IntToInt', E.proj(c.S, m, ('f', self.meas[n])), E.int_ty['u16'], None)
        return {'mac_address': num, 'distance': g(local, 'range'), 'aoa_azimuth': g(local, 'azimuth'),
                'aoa_elevation': g(local, 'elevation'), 'aoa_destination_azimuth': g(remote, 'azimuth'),
                'aoa_destination_elevation': g(remote, 'elevation')}

    def anchor_row(self, c, mac):
        W = self.W
        k = c.initially(W.anchors, mac)
        if k is None:
            return None
        return self.row(c, mac, W.f(W.init_elem(W.anchors, 0, k), 'handle'))

    def peer(self, c, ver, key):
        """The active session of the same id on another device, or None."""
        W, U = self.W, self.U
        if c.inteq(key, self.key):
            return None
        pdev = W.init_elem(W.devices, ver, key)
        k = c.initially(W.f(pdev, 'sessions'), self.sid)
        if k is None:
            return None
        ps = W.init_elem(W.f(pdev, 'sessions'), 0, k)
        return ps if c.is_(U.sstate(ps), 'SessionStateActive') else None

    def opt_differ(self, c, a, b):
        return not c.eq(a, b)

    def device_row(self, c, ver, key):
        W, E, U = self.W, self.E, self.U
        ps = self.peer(c, ver, key)
        if ps is None:
            return None
        pc = W.f(ps, 'app_config')
        for n in ('device_role', 'device_type'):
            if c.eq(W.f(pc, n), W.f(self.cfg, n)):
                return None
        pm = E.proj(c.S, W.f(pc, 'device_mac_address'), ('vf', 1, 0))
        om = E.proj(c.S, W.f(self.cfg, 'device_mac_address'), ('vf', 1, 0))
        if not (U.contains(c, W.f(self.cfg, 'dst_mac_address'), pm) and U.contains(c, W.f(pc, 'dst_mac_address'), om)):
            return None
        return self.row(c, pm, key)

    # --- data of a round
    def sender(self, c):
        """May the session of the round send data?"""
        E, W = self.E, self.W
        role = W.f(self.cfg, 'device_role')
        return c.is_(W.f(self.s, 'session_type'), 'FiraRangingAndInBandDataSession') and c.is_(role, 'Some') \
            and c.is_(E.proj(c.S, role, ('vf', 1, 0)), 'Initiator')

    def receiver(self, c, ver, key):
        W, E = self.W, self.E
        if not self.sender(c):
            return False
        ps = self.peer(c, ver, key)
        if ps is None or not c.is_(W.f(ps, 'session_type'), 'FiraRangingAndInBandDataSession'):
            return False
        role = W.f(W.f(ps, 'app_config'), 'device_role')
        return c.is_(role, 'Some') and c.is_(E.proj(c.S, role, ('vf', 1, 0)), 'Responder')

    def data_packet(self, c):
        W, E, J = self.W, self.E, self.J
        mac = E.proj(c.S, W.f(self.cfg, 'device_mac_address'), ('vf', 1, 0))
        a = self.mac_u64(c, mac)
        return J.packet(c, 'DataMessageRcv', application_data=('v', E.seq_parts(W.f(self.s, 'data'))), data_sequence_number=I1,
                        pbf=codec.enum_val(E, 'PacketBoundaryFlag', 'COMPLETE'), session_handle=W.f(self.s, 'id'),
                        source_address=a, status=codec.enum_val(E, 'Status', 'OK'))

    def mac_u64(self, c, mac):
        """The 64-bit number of an address: its bytes, least significant first, zero-extended."""
        E, W = self.E, self.W
        short = c.is_(mac, 'Short')
        vi = E.variant_index(W.t['MacAddress'], 'Short' if short else 'Extended')
        pa = E.seq_parts(E.proj(c.S, mac, ('vf', vi, 0)))
        bs = [E.index_parts(c.S, pa, I(i)) for i in range(2 if short else 8)]
        return E.from_bytes(c.S, bs + [I0] * (8 - len(bs)), E.int_ty['u64'])

    def transfer(self, c, X):
        """Every entitled peer, and nobody else, is sent the buffered data once."""
        W, E, J = self.W, self.E, self.J
        props = ('C15',)
        lids = loops_of(c.S)
        dev_loops = [(l, self.map_loop(E.loops[l], W.devices)) for l in lids]
        dev_loops = [(l, its) for l, its in dev_loops if its is not None]
        senders = [l for l in lids if any(e[0] == 'send' for B in E.loops[l].backs for e in B.log[E.loops[l].mlog:])]
        direct = [l for l, _ in dev_loops if l in senders]
        J.check(len(senders) <= 1, props, 'delivery', 'one delivery per round', '%d loops send packets' % len(senders))
        if direct:
            its = dict(dev_loops)[direct[0]]
            self.once(('direct', direct[0]), lambda: self.deliver_direct(E.loops[direct[0]], its))
            J.check(self.complete(c.S, direct[0], W.devices), props, 'delivery', 'all devices', 'the loop may skip devices')
            return
        if not senders:
            # nobody may be entitled
            if c.must_eq(('y', E.USIZE, ('maplen', W.devices, 0)), I0) or not self.sender(c):
                return J.ok(props, 'delivery')
            for l, its in dev_loops:
                if self.complete(c.S, l, W.devices) and all(r is False for B, ver, key in its
                                                            for _, r in explore(W, B, lambda c2: self.receiver(c2, ver, key))):
                    return J.ok(props, 'delivery')
            for l, its in dev_loops:
                # a list of the entitled peers that is empty
                for loc, ph in E.loops[l].phis.items():
                    if ph[0] == 'y' and E.is_seq_ty(ph[1]) and E.prove_eq(c.S, E.seq_len(ph), I0) \
                            and self.accumulates(E.loops[l], loc, ph, its) is True and self.complete(c.S, l, W.devices):
                        return J.ok(props, 'delivery')
            return J.bad(props, 'delivery', 'missing delivery', 'no loop delivers the buffered data')
        snd = E.loops[senders[0]]
        why = 'no list of the entitled peers'
        for l, its in dev_loops:
            info = E.loops[l]
            for loc, ph in info.phis.items():
                if ph[0] != 'y' or not E.is_seq_ty(ph[1]):
                    continue
                ps = positions(W, c, snd, E.seq_len(ph))
                if not ps or loops_of(c.S).index(l) > loops_of(c.S).index(senders[0]):
                    continue
                r = self.accumulates(info, loc, ph, its)
                if r is not True:
                    why = r
                    continue
                J.check(self.complete(c.S, l, W.devices), props, 'delivery', 'all devices', 'the loop may skip devices')
                r = self.once(('list', senders[0], ph), lambda: self.deliver_list(c, snd, ph, ps[0], info, its, loc))
                if r is True:
                    return J.ok(props, 'delivery')
                why = r
        J.bad(props, 'delivery', 'recipients', 'the data is not sent to exactly the entitled peers: %s' % why)

    def once(self, k, f):
        k = (k, self.key, self.sid)
        if k not in self.memo:
            self.memo[k] = f()
        return self.memo[k]

    def deliver_direct(self, info, its):
        W, E, J = self.W, self.E, self.J
        for B, ver, key in its:
            def one(c):
                sends = [e for e in B.log[info.mlog:] if e[0] == 'send']
                want = self.receiver(c, ver, key)
                J.check(len(sends) == (1 if want else 0), ('C15',), 'delivery', 'recipients',
                        'a peer that %s entitled to the data is sent %d packets' % ('is' if want else 'is not', len(sends)))
                if want and len(sends) == 1:
                    J.check(c.must_eq(sends[0][1], W.f(W.init_elem(W.devices, ver, key), 'tx')), ('C15', 'C29'), 'delivery', 'channel',
                            'the data goes to %s' % W.show(sends[0][1]))
                    J.check(c.must_eq(sends[0][2], self.data_packet(c)), ('C15',), 'delivery', 'contents',
                            'the data message is %s' % W.show(sends[0][2])[:300])
            for _ in explore(W, B, one):
                pass

    def accumulates(self, info, loc, ph, its):
        """Does the list at loc grow by exactly one element naming the peer, exactly when it is entitled?"""
        return self.once(('acc', info.lid, loc), lambda: self.accumulates1(info, loc, ph, its))

    def accumulates1(self, info, loc, ph, its):
        W, E = self.W, self.E
        if not E.prove_eq(info.entry, E.seq_len(E.load_loc(info.entry, loc)), I0):
            return 'the list of peers does not start empty'
        for B, ver, key in its:
            parts = E.seq_parts(E.load_loc(B, loc))
            grown = parts[1:] if parts and parts[0][:2] == ('q', ph) else parts
            for c2, r in explore(W, B, lambda c2: self.receiver(c2, ver, key)):
                if len(grown) != (1 if r else 0):
                    return 'a peer that %s entitled is added %d times' % ('is' if r else 'is not', len(grown))
                if r and self.chan_of(c2, grown[0], ver, key) is None:
                    return 'the list does not name the peer: %s' % W.show(grown[0])[:200]
        return True

    def chan_of(self, c, part, ver, key):
        """How an element of the list of peers leads to the peer's channel: 'ref' | 'tx' | 'key'."""
        W, E = self.W, self.E
        if part[0] != 'e':
            return None
        v = part[1]
        if v[0] == 'r' and v[1] == ('E', W.devices, ver, key) and v[2] == ():
            return 'ref'
        dev = W.init_elem(W.devices, ver, key)
        if v == W.f(dev, 'tx'):
            return 'tx'
        if v[0] == 'r' and v[1][0] in ('E',):
            try:
                return 'txref' if E.load(c.S, v) == W.f(dev, 'tx') else None
            except AnalysisError:
                return None
        if v == key or (v[0] in ('y', 'l', 'i') and c.must_eq(v, key)):
            return 'key'
        return None

    def deliver_list(self, c0, snd, ph, p, info, its, loc):
        W, E = self.W, self.E
        ways = set()
        for B, ver, key in its:
            parts = E.seq_parts(E.load_loc(B, loc))
            for x in (parts[1:] if parts and parts[0][:2] == ('q', ph) else parts):
                ways.add(self.chan_of(Ctx(W, B, ()), x, ver, key))
        if len(ways) != 1:
            return 'the list of peers is mixed'
        way = ways.pop()
        for B in snd.backs:
            sends = [e for e in B.log[snd.mlog:] if e[0] == 'send']
            if way == 'key' and not sends:
                continue
            if len(sends) != 1:
                return '%d packets are sent to a peer' % len(sends)
            item = E.index_parts(B, E.seq_parts(ph), p)
            if way in ('ref', 'txref'):
                t = E.T[item[1]]
                d = E.sym(t['to'], ('deref', item))
                want = [d] if way == 'txref' else [W.f(d, 'tx')]
            elif way == 'tx':
                want = [item]
            else:
                want = [W.f(W.init_elem(W.devices, 0, item), 'tx')]
            if not any(E.freeze(B, w) == sends[0][1] for w in want):
                return 'a packet goes to %s' % W.show(sends[0][1])[:200]
            for c2, ok in explore(W, B, lambda c2: c2.must_eq(sends[0][2], self.data_packet(c2))):
                if not ok:
                    return 'the data message is %s' % W.show(sends[0][2])[:300]
        return True

    def loop_frame(self, info):
        """Loops of a round change nothing of the emulator's state and do nothing but what is checked above."""
        return self.once(('frame', info.lid), lambda: self.loop_frame1(info))

    def loop_frame1(self, info):
        J = self.J
        for B in info.backs:
            evs, _ = J.effects(B, start=info.mlog)
            for e in evs:
                J.check(e[0] in ('send', 'loop'), ('C29',), 'frame', 'effects of the loop at %s' % info.fn,
                        'a loop of a ranging round performs %s' % e[0])
            for d in self.W.deltas(B, info.head):
                J.bad(('C29',), 'frame', 'loop changes state', 'a loop of a ranging round changes %s' % (str(d[1])[:100],))


UNANSWERED = ('s', 0, 0, ())
