"""Definitions of the planted bugs (development aid; written out by mkseeds.py)."""
D, L, S, A = 'src/device.rs', 'src/lib.rs', 'src/session.rs', 'src/app_config.rs'
SEEDS = {}


def seed(name, prop, needs, breaks, edits, demo, http=False, pcap=False, rust=False):
    SEEDS[name] = dict(property=prop, needs=needs, what_it_breaks=breaks, edits=edits, demo=demo, http=http, pcap=pcap, rust=rust)


seed('C04-detached-timer', 'C04', 'an in-band stop of a controlee session that is then started again',
     'the ranging timer of a session stopped in-band is detached instead of aborted, so it keeps firing next to the new one',
     [(L, """                session.stop_ranging_task();
                session.set_state(
                    SessionState::SessionStateIdle,
                    ReasonCode::SessionStoppedDueToInbandSignal,""",
       """                session.ranging_task.take();
                session.set_state(
                    SessionState::SessionStateIdle,
                    ReasonCode::SessionStoppedDueToInbandSignal,""")],
     """
a, b = Host(srv), None
a.drain(0.2)
b = Host(srv)
b.drain(0.2)
for h in (a, b):
    check(h.reset()[0] == 0, 'reset')
A, B = b'\\1\\1', b'\\2\\2'
a.init(1), b.init(1)
check(a.set_app(1, app(A, [B], period=200))[0] == 0, 'config a')
check(b.set_app(1, app(B, [A], controller=False, period=200))[0] == 0, 'config b')
a.start(1), b.start(1)
check(a.multicast(1, 1, [B])[0] == 0, 'remove controlee')
time.sleep(0.5)
check(b.state(1)[1] == 3, 'controlee stopped in-band')
b.drain(0.3)
check(b.start(1)[0] == 0, 'restart')
b.drain(0.3)
n = len(infos(b.drain(3.0)))
print('reports in 3 s', n)
check(n <= 20, 'the old timer still runs')
""")

seed('C05-reset-count', 'C05', 'a reset while a session is active, then a start and a stop',
     'CORE_DEVICE_RESET keeps the count of active sessions, so the device never goes back to READY',
     [(D, """        *self = Device::new(
            self.handle,
            self.mac_address,
            self.tx.clone(),
            self.pica_tx.clone(),
        );
""", """        let n_active_sessions = self.n_active_sessions;
        *self = Device::new(
            self.handle,
            self.mac_address,
            self.tx.clone(),
            self.pica_tx.clone(),
        );
        self.n_active_sessions = n_active_sessions;
""")],
     """
h = Host(srv)
h.reset(); h.init(1); h.set_app(1, app(b'\\1\\1', [b'\\2\\2'], period=5000)); h.start(1)
h.reset(); h.drain(0.2)
h.init(2); h.set_app(2, app(b'\\1\\1', [b'\\2\\2'], period=5000)); h.start(2); h.stop(2)
d = devstates(h.drain(0.3))
print(d)
check(sorted(d) == [1, 2], 'ACTIVE and READY again')
""")

seed('C03-silent-deinit', 'C03', 'a session removed before it was ever configured',
     'no DEINIT notification is sent for a session that was still in state INIT',
     [(S, """        self.stop_ranging_task();
        self.set_state(
            SessionState::SessionStateDeinit,
            ReasonCode::StateChangeWithSessionManagementCommands,
        );
    }
}""", """        self.stop_ranging_task();
        if self.state == SessionState::SessionStateInit {
            // Never configured.
            return;
        }
        self.set_state(
            SessionState::SessionStateDeinit,
            ReasonCode::StateChangeWithSessionManagementCommands,
        );
    }
}""")],
     """
h = Host(srv)
h.reset(); h.init(7); h.drain(0.2)
h.deinit(7)
check(states(h.drain(0.3), 7) == [(7, 1, 0)], 'DEINIT notified')
""")

seed('C07-core-gid', 'C07', 'a command of a known group that has no commands (TEST, for instance)',
     'the response to such a command carries the CORE group identifier',
     [(D, """                    mt: uci::MessageType::Response,
                    gid: cmd.gid,
                    payload: vec![
                        cmd.payload[0],
                        cmd.payload[1],""", """                    mt: uci::MessageType::Response,
                    gid: GroupId::Core,
                    payload: vec![
                        cmd.payload[0],
                        cmd.payload[1],""")],
     """
h = Host(srv)
h.reset(); h.drain(0.2)
for g in (3, 0xd):
    h.send(g, 5)
    r = h.rsp()
    print(r)
    check(r[1] == g and r[2] == 5, 'group echoed')
""")

seed('C08-off-by-one', 'C08', '255 sessions, and one more',
     'one session too many is accepted, and the reported count wraps to 0',
     [(D, "pub const MAX_SESSION: usize = 255;", "pub const MAX_SESSION: usize = 256;")],
     """
h = Host(srv)
h.reset()
for i in range(255):
    check(h.init(i)[0] == 0, 'init %d' % i)
r = h.init(255)
c = h.count()
print(r, c)
check(r[0] != 0 and c == b'\\0\\xff', 'session limit')
""")

seed('C09-partial', 'C09', 'a SET_APP_CONFIG with valid and invalid parameters on a session that is already configured',
     'the valid parameters of a rejected SET_APP_CONFIG are applied',
     [(D, """            if invalid_parameters.is_empty() {
                session.app_config = app_config;
""", """            session.app_config = app_config;
            if invalid_parameters.is_empty() {
""")],
     """
h = Host(srv)
h.reset(); h.init(1)
check(h.set_app(1, app(b'\\1\\1', [b'\\2\\2'], period=1000))[0] == 0, 'config')
h.start(1)
r = h.set_app(1, [(DURATION, b'\\7\\0\\0\\0'), (0x04, b'\\0')])
check(r[0] == 4, 'invalid parameter')
s, v = h.get_app(1, [DURATION])
print(s, v)
check(v[DURATION] == b'\\xe8\\3\\0\\0', 'unchanged')
""")

seed('C10-bound-order', 'C10', 'AOA_BOUND_CONFIG with bounds whose bytes differ',
     'AOA_BOUND_CONFIG is read back in the other byte order',
     [(A, ".flat_map(u16::to_le_bytes)", ".flat_map(u16::to_be_bytes)")],
     """
h = Host(srv)
h.reset(); h.init(1)
v = bytes(range(8))
check(h.set_app(1, app(b'\\1\\1', [b'\\2\\2'], extra=[(0x1d, v)]))[0] == 0, 'config')
check(h.get_app(1, [0x1d]) == (0, {0x1d: v}), 'read back')
""")

seed('C10-default', 'C10', 'reading FAR_PROXIMITY_CONFIG of a session in which it was never set',
     'the default far proximity bound is ten times too small',
     [(A, "far_proximity_config: 20000,", "far_proximity_config: 2000,")],
     """
h = Host(srv)
h.reset(); h.init(1)
check(h.get_app(1, [0x10]) == (0, {0x10: b'\\x20\\x4e'}), 'default')
""")

seed('C12-duplicates', 'C12', 'the same address twice in one ADD command',
     'an address repeated within one command is added twice',
     [(D, "if !dst_addresses.contains(&controlee.short_address) {", "if !session.app_config.dst_mac_address.contains(&controlee.short_address) {")],
     """
h = Host(srv)
h.reset(); h.init(1)
check(h.set_app(1, app(b'\\1\\1', [b'\\2\\2']))[0] == 0, 'config')
r = h.multicast(1, 0, [b'\\3\\3', b'\\3\\3'])
s, v = h.get_app(1, [DST])
print(r, v)
check(v[DST] == b'\\2\\2\\3\\3', 'unique')
""")

seed('C13-attempts', 'C13', 'IN_BAND_TERMINATION_ATTEMPT_COUNT of 1 together with a removed controlee',
     'one in-band stop request too few is sent, none for a count of 1',
     [(D, "for _ in 0..attempt_count {", "for _ in 1..attempt_count {")],
     """
a = Host(srv); a.drain(0.2)
b = Host(srv); b.drain(0.2)
A, B, C = b'\\1\\1', b'\\2\\2', b'\\3\\3'
for h, m, d in ((a, A, [B, C]), (b, B, [A])):
    h.reset(); h.init(1)
    check(h.set_app(1, app(m, d, controller=h is a, period=2000))[0] == 0, 'config')
    h.start(1)
check(a.multicast(1, 1, [B])[0] == 0, 'remove')
time.sleep(0.5)
check(b.state(1)[1] == 3, 'controlee stopped')
""")

seed('C14-own-data', 'C14', 'a session ranging with an anchor in an asymmetric position',
     'the angles seen from the anchor are those seen from the device',
     [(L, ".estimate(&other.handle, &device.handle)", ".estimate(&device.handle, &other.handle)")],
     """
check(srv.http('POST', '/create-anchor/03:03', b'{"x":100,"y":0,"z":0,"yaw":90,"pitch":0,"roll":0}')[0] == 200, 'anchor')
h = Host(srv); h.drain(0.2)
check(srv.http('POST', '/set-position/00:01', b'{"x":0,"y":0,"z":0,"yaw":0,"pitch":0,"roll":0}')[0] == 200, 'position')
h.reset(); h.init(1)
check(h.set_app(1, app(b'\\0\\1', [b'\\3\\3'], period=100))[0] == 0, 'config')
h.start(1)
i = infos(h.drain(1.0))
check(i and len(i[0][2]) == 1, 'measured')
m = i[0][2][0]
local, remote = struct.unpack('<h', m[6:8])[0], struct.unpack('<h', m[12:14])[0]
print(local, remote)
check(local != remote, 'angles of both sides')
""", http=True)

seed('C15-kept-data', 'C15', 'SESSION_INFO_NTF_CONFIG disabled on a session that sends data',
     'with ranging notifications disabled, the data is delivered again in every round',
     [(L, """            session.sequence_number += 1;
        }

        // TODO: Clean the data only when all the data is transfered
        let device = self.get_device_mut(device_handle).unwrap();
        let session = device.session_mut(session_id).unwrap();

        session.clear_data();
""", """            session.sequence_number += 1;

            // TODO: Clean the data only when all the data is transfered
            session.clear_data();
        }
""")],
     """
a = Host(srv); a.drain(0.2)
b = Host(srv); b.drain(0.2)
A, B = b'\\1\\1', b'\\2\\2'
for h, m, d in ((a, A, [B]), (b, B, [A])):
    h.reset(); h.init(1, 1)
    check(h.set_app(1, app(m, d, controller=h is a, period=100 if h is a else 5000, extra=[(INFO, b'\\0' if h is a else b'\\1')]))[0] == 0, 'config')
    h.start(1)
a.data(1, b'hello')
got = [p[3] for p in b.drain(1.5) if p[0] == 0]
n = sum(b'hello' in p for p in got)
print(n)
check(n == 1, 'delivered once')
""")

seed('C16-gap', 'C16', 'notifications that are enabled only after some silent rounds',
     'silent rounds consume sequence numbers, so the reports that are sent have gaps',
     [(L, """            let device = self.get_device_mut(device_handle).unwrap();
            let session = device.session_mut(session_id).unwrap();

            session.sequence_number += 1;
        }

        // TODO: Clean the data only when all the data is transfered
        let device = self.get_device_mut(device_handle).unwrap();
        let session = device.session_mut(session_id).unwrap();

        session.clear_data();
""", """        }

        // TODO: Clean the data only when all the data is transfered
        let device = self.get_device_mut(device_handle).unwrap();
        let session = device.session_mut(session_id).unwrap();

        session.sequence_number += 1;
        session.clear_data();
""")],
     """
h = Host(srv)
h.reset(); h.init(1)
check(h.set_app(1, app(b'\\1\\1', [b'\\2\\2'], extra=[(INFO, b'\\0')]))[0] == 0, 'config')
h.start(1)
check(not infos(h.drain(1.0)), 'silent')
check(h.set_app(1, [(INFO, b'\\1')])[0] == 0, 'enable')
i = infos(h.drain(1.0))
print([x[0] for x in i])
check(i and [x[0] for x in i] == list(range(len(i))), 'no gap')
""")

seed('C02-reconfigured', 'C02', 'SET_APP_CONFIG on an active session',
     'a configuration change moves an ACTIVE session to IDLE',
     [(D, """                if session.state == SessionState::SessionStateInit {
                    session.set_state(""", """                if session.state != SessionState::SessionStateIdle {
                    session.set_state(""")],
     """
h = Host(srv)
h.reset(); h.init(1)
check(h.set_app(1, app(b'\\1\\1', [b'\\2\\2'], period=5000))[0] == 0, 'config')
h.start(1)
check(h.set_app(1, [(INFO, b'\\1')])[0] == 0, 'change')
check(h.state(1) == b'\\0\\2', 'still active')
""")

seed('C06-kept-config', 'C06', 'a low power setting changed before a second reset',
     'CORE_DEVICE_RESET keeps the device configuration',
     [(D, """        *self = Device::new(
            self.handle,
            self.mac_address,
            self.tx.clone(),
            self.pica_tx.clone(),
        );
""", """        let config = std::mem::take(&mut self.config);
        *self = Device::new(
            self.handle,
            self.mac_address,
            self.tx.clone(),
            self.pica_tx.clone(),
        );
        self.config = config;
""")],
     """
h = Host(srv)
h.reset()
before = h.get_config([1])
h.set_config([(1, b'\\0')])
check(h.get_config([1]) != before, 'changed')
h.reset()
check(h.get_config([1]) == before, 'default restored')
""")

seed('C11-low-power', 'C11', 'LOW_POWER_MODE set to a value other than 0 and 1',
     'LOW_POWER_MODE is taken as disabled for every value but 1',
     [(D, "parameter.value.first().copied().unwrap_or(1) != 0", "parameter.value.first().copied().unwrap_or(1) == 1")],
     """
h = Host(srv)
h.reset()
h.set_config([(1, b'\\2')])
r = h.get_config([1])
print(r)
check(r[-1] == 1, 'enabled')
""")

seed('C19-reused-handle', 'C19', 'an anchor created after a device or an anchor went away',
     'anchor handles are derived from the number of devices and anchors, so one may be used twice',
     [(L, """            let handle = self.counter;
            self.counter += 1;

            assert!(self""", """            let handle = self.devices.len() + self.anchors.len();
            self.counter = std::cmp::max(self.counter, handle + 1);

            assert!(self""")],
     """
import json
P = b'{"x":0,"y":0,"z":0,"yaw":0,"pitch":0,"roll":0}'
hs = []
for m in ('01:01', '02:02'):
    check(srv.http('POST', '/create-anchor/' + m, P)[0] == 200, 'create')
check(srv.http('POST', '/destroy-anchor/01:01')[0] == 200, 'destroy')
ev = srv.events()
check(srv.http('POST', '/create-anchor/03:03', P)[0] == 200, 'create')
h = Host(srv)
time.sleep(0.3)
h.reset(); h.init(1)
# the device and both anchors range: an anchor that shares a handle has the position of the other one
check(srv.http('POST', '/set-position/02:02', b'{"x":100,"y":0,"z":0,"yaw":0,"pitch":0,"roll":0}')[0] == 200, 'move')
check(srv.http('POST', '/set-position/03:03', b'{"x":0,"y":300,"z":0,"yaw":0,"pitch":0,"roll":0}')[0] == 200, 'move')
check(h.set_app(1, app(b'\\1\\1', [b'\\2\\2', b'\\3\\3'], period=100))[0] == 0, 'config')
h.start(1)
i = infos(h.drain(1.0))
d = [struct.unpack('<H', m[4:6])[0] for m in i[0][2]]
print(d)
check(len(d) == 2 and d[0] != d[1], 'anchors told apart')
""", http=True)

seed('C20-address', 'C20', 'the disconnection of a device',
     'the Disconnected event carries the address with its bytes swapped',
     [(L, """            self.send_event(PicaEvent::Disconnected {
                handle: device_handle,
                mac_address: device.mac_address,
            });""", """            self.send_event(PicaEvent::Disconnected {
                handle: device_handle,
                mac_address: MacAddress::Short((device_handle as u16).to_le_bytes()),
            });""")],
     """
ev = srv.events()
a = Host(srv)
time.sleep(0.2)
b = Host(srv)
time.sleep(0.2)
b.close()
t = ev(1.0)
print(t)
check('device-removed' in t and '00:01' in t.split('device-removed')[1], 'address of the removed device')
""", http=True)

seed('C13-everyone', 'C13', 'two hosts that use the same session identifier',
     'removing a controlee stops the sessions of every host that has the same session identifier',
     [(L, """            if session.app_config.device_mac_address != Some(*mac_address) {
                continue;
            }

""", """            if !session.app_config.dst_mac_address.is_empty()
                && session.app_config.device_type != Some(uci::DeviceType::Controller)
                && session.app_config.device_mac_address.is_none()
            {
                log::debug!("stop_controlee_ranging: {} not configured", mac_address);
                continue;
            }

""")],
     """
hs = []
for i in range(3):
    hs.append(Host(srv)); hs[-1].drain(0.2)
m = [b'\\1\\1', b'\\2\\2', b'\\3\\3']
for i, h in enumerate(hs):
    h.reset(); h.init(1)
    check(h.set_app(1, app(m[i], [m[1], m[2]] if i == 0 else [m[0]], controller=i == 0, period=2000))[0] == 0, 'config')
    h.start(1)
check(hs[0].multicast(1, 1, [m[1]])[0] == 0, 'remove')
time.sleep(0.5)
check(hs[2].state(1)[1] == 2, 'other controlee not affected')
""")

seed('C29-peer-count', 'C29', 'two hosts in the same session with different ranging intervals',
     'a round also advances the sequence number of the sessions of the other hosts that receive data in it',
     [(L, """        session.clear_data();
""", """        session.clear_data();

        // The receivers took part in the round as well.
        for peer_device in self.devices.values_mut() {
            if peer_device.handle == device_handle
                || !peer_device.can_receive_data_transfer(session_id)
            {
                continue;
            }
            if let Some(peer_session) = peer_device.session_mut(session_id) {
                peer_session.sequence_number = peer_session.sequence_number.saturating_add(1);
            }
        }
""")],
     """
a = Host(srv); a.drain(0.2)
b = Host(srv); b.drain(0.2)
A, B = b'\\1\\1', b'\\2\\2'
for h, m, d in ((a, A, [B]), (b, B, [A])):
    h.reset(); h.init(1, 1)
    check(h.set_app(1, app(m, d, controller=h is a, period=100 if h is a else 60000))[0] == 0, 'config')
a.start(1), b.start(1)
time.sleep(1.0)
n = b.ranging_count(1)
print(n)
check(n[1] <= 1 if isinstance(n, tuple) else n <= 1, 'rounds of the second host')
""")

seed('C01-empty-value', 'C01', 'CORE_SET_CONFIG of LOW_POWER_MODE with an empty value',
     'an empty LOW_POWER_MODE value panics the emulator',
     [(D, "parameter.value.first().copied().unwrap_or(1) != 0", "parameter.value[0] != 0")],
     """
h = Host(srv)
h.reset()
r = h.set_config([(1, b'')])
check(r is not None and srv.alive(), 'still serving')
""")

seed('C01-inactive-stop', 'C01', 'an in-band stop request for a session that is not active',
     'an in-band stop request for a session that is not active panics the emulator',
     [(L, """                log::warn!("stop_controlee_ranging: session is not active !");
""", """                panic!("stop_controlee_ranging: session is not active !");
""")],
     """
a = Host(srv); a.drain(0.2)
b = Host(srv); b.drain(0.2)
A, B = b'\\1\\1', b'\\2\\2'
for h, m, d in ((a, A, [B]), (b, B, [A])):
    h.reset(); h.init(1)
    check(h.set_app(1, app(m, d, controller=h is a, period=2000))[0] == 0, 'config')
a.start(1)
check(a.multicast(1, 1, [B])[0] == 0, 'remove')
time.sleep(0.5)
check(b.state(1)[1] == 3, 'still serving')
""")

seed('C17-exact', 'C17', 'a response whose payload is exactly 255 bytes',
     'the last segment is marked as not complete when it is exactly full, so the host keeps waiting',
     [(L, """                let pbf = if fragment_length == remaining_length {
                    PacketBoundaryFlag::Complete
                } else {
                    PacketBoundaryFlag::NotComplete
                };""", """                let pbf = if fragment_length < MAX_CTRL_PACKET_PAYLOAD_SIZE
                    || remaining_length > MAX_CTRL_PACKET_PAYLOAD_SIZE
                        && fragment_length == remaining_length
                {
                    PacketBoundaryFlag::Complete
                } else {
                    PacketBoundaryFlag::NotComplete
                };""")],
     """
h = Host(srv)
h.reset(); h.init(1)
check(h.set_app(1, app(b'\\1\\1', [b'\\2\\2']))[0] == 0, 'config')
for ids, n in (([ROLE] * 20, 62), ([ROLE] * 83 + [MAC], 255), ([ROLE] * 82 + [MAC, MAC], 256), ([ROLE] * 168 + [MAC], 510)):
    r = h.cmd(CONFIG, 4, struct.pack('<IB', 1, len(ids)) + bytes(ids), timeout=2)
    check(r is not None and len(r) == n, 'response of %d bytes: %r' % (n, r and len(r)))
""")

seed('C17-data-length', 'C17', 'in-band data that needs more than one outgoing segment',
     'only the low byte of the length is written to the header of a data segment',
     [(L, """                    MessageType::Data => {
                        packet[2..4].copy_from_slice(&(fragment_length as u16).to_le_bytes())
                    }""", """                    MessageType::Data => packet[2] = fragment_length as u8,""")],
     """
a = Host(srv); a.drain(0.2)
b = Host(srv); b.drain(0.2)
A, B = b'\\1\\1', b'\\2\\2'
for h, mine, other, ini in ((a, A, B, True), (b, B, A, False)):
    h.reset(); h.init(1, 1)
    check(h.set_app(1, app(mine, [other], controller=ini, period=300))[0] == 0, 'config')
data = bytes(range(256)) * 6
b.start(1)
a.data(1, data[:1000]); a.data(1, data[1000:])
a.start(1)
got = b''
end = time.time() + 3
while time.time() < end:
    p = b.recv(0.5)
    if p and p != 'eof' and p[0] == 0 and len(p[3]) > 100:
        got = p[3]
        break
print(len(got))
check(got[-len(data):] == data, 'data arrives unchanged')
""")

seed('C18-short-last', 'C18', 'a control packet with a segment that is not full before the last one',
     'a segment with less than the maximal payload ends the packet whatever its boundary flag says',
     [(L, """                if packet.len() < HEADER_SIZE {
                    anyhow::bail!("truncated packet header")
                }
                let header =
                    packets::uci::CommonPacketHeader::decode_full(&packet[0..COMMON_HEADER_SIZE])?;
""", """                if packet.len() < HEADER_SIZE {
                    anyhow::bail!("truncated packet header")
                }
                let mut header =
                    packets::uci::CommonPacketHeader::decode_full(&packet[0..COMMON_HEADER_SIZE])?;
                if packet.len() < HEADER_SIZE + MAX_CTRL_PACKET_PAYLOAD_SIZE {
                    header.pbf = PacketBoundaryFlag::Complete;
                }
""")],
     """
h = Host(srv)
h.reset()
def segments(gid, oid, parts):
    for i, c in enumerate(parts):
        h.raw(bytes([CMD << 5 | (0x10 if i + 1 < len(parts) else 0) | gid, oid, 0, len(c)]) + c)
segments(CONFIG, 0, [struct.pack('<IB', 7, 0)])
check(h.rsp()[3][0] == 0, 'init')
segments(CONFIG, 6, [b'\\7\\0', b'\\0\\0'])
r = h.rsp()
check(r[3][0] == 0, 'segmented command')
check(h.count() == b'\\0\\1', 'no stray response')
""")

seed('C20-half-closed', 'C20', 'a host that closes its connection while nothing is sent to it',
     'the connection task waits for both directions to end, so the device of a closed connection stays',
     [(L, """            let _ = tokio::try_join!(""", """            let _ = tokio::join!(""")],
     """
ev = srv.events()
h = Host(srv); h.drain(0.3)
h.close()
time.sleep(1.0)
t = ev(1.0)
check('device-removed' in t, 'disconnection announced')
""", http=True)

seed('C22-padding', 'C22', 'a packet whose length is a multiple of four',
     'the padding that is written is not the padding that is counted in the block length',
     [('src/pcapng.rs', """        let packet_data_padding: usize = 4 - packet.len() % 4;
        let block_total_length: u32 = packet.len() as u32 + packet_data_padding as u32 + 32;
""", """        let block_total_length: u32 = (packet.len() as u32 + 35) & !3;
        let packet_data_padding: usize = 4 - packet.len() % 4;
""")],
     """
h = Host(srv, 0); h.drain(0.3)
for i in range(4):
    h.cmd(CORE, 0x3, b'\\0' * i)
h.reset()
h.drain(0.3)
check(len(srv.capture(0)) >= 6, 'capture file')
""", pcap=True)

seed('C22-snap', 'C22', 'packets longer than 255 bytes in a capture',
     'the captured length of an outgoing data packet does not match the recorded bytes',
     [('src/pcapng.rs', """        let timestamp = self.start_time.elapsed().as_micros();
        let mut file = self.file.lock().unwrap();
""", """        let timestamp = self.start_time.elapsed().as_micros();
        // Data packets are limited to 1024 bytes of payload.
        let packet = &packet[..packet.len().min(1024)];
        let mut file = self.file.lock().unwrap();
""")],
     """
h = Host(srv, 0); h.drain(0.3)
h.reset(); h.init(1, 1)
check(h.set_app(1, app(b'\\1\\1', [b'\\2\\2']))[0] == 0, 'config')
h.data(1, b'\\x50' * 1003)
h.count()
check(max(len(x) for x in srv.capture(0)) == 1023, 'capture file')
h.data(1, b'\\x50' * 1006)
h.count()
check(max(len(x) for x in srv.capture(0)) == 1026, 'capture file')
""", pcap=True)

seed('C23-whole', 'C23', 'an outgoing packet that needs several segments',
     'the capture has the whole packet once per segment instead of the segments',
     [(L, """                if let Some(file) = pcapng_file {
                    file.write(&packet, pcapng::Direction::Rx)?;
                }

                uci_sink""", """                if let Some(file) = pcapng_file {
                    file.write(&complete_packet, pcapng::Direction::Rx)?;
                }

                uci_sink""")],
     """
h = Host(srv, 0)
h.reset(); h.init(1)
check(h.set_app(1, app(b'\\1\\1', [b'\\2\\2']))[0] == 0, 'config')
h.drain(0.3)
n = len(srv.capture(0))
h.cmd(CONFIG, 4, struct.pack('<IB', 1, 90) + bytes([ROLE] * 90))
got = srv.capture(0)[n:]
print([len(x) for x in got])
check([len(x) for x in got] == [9 + 90, 259, 21], 'segments recorded')
""", pcap=True)

seed('C23-first', 'C23', 'an incoming packet that needs several segments',
     'only the first segment of a received control packet is recorded',
     [(L, """                if let Some(file) = pcapng_file {
                    file.write(&packet, pcapng::Direction::Tx)?;
                }
""", """                if let (Some(file), None) = (pcapng_file, &complete_packet) {
                    file.write(&packet, pcapng::Direction::Tx)?;
                }
""")],
     """
h = Host(srv, 0)
h.reset(); h.init(1)
h.count()
n = len(srv.capture(0))
h.raw(bytes([CMD << 5 | 0x10 | CONFIG, 6, 0, 2]) + b'\\1\\0' + bytes([CMD << 5 | CONFIG, 6, 0, 2]) + b'\\0\\0')
check(h.rsp()[3] == b'\\0\\0', 'state')
got = srv.capture(0)[n:]
print([len(x) for x in got])
check(sorted(len(x) for x in got) == [6, 6, 6], 'segments recorded')
""", pcap=True)

H, P = 'src/bin/http-server/main.rs', 'src/bin/http-server/position.rs'
POS = """
def pos(x, y, z, yaw=0, pitch=0, roll=0):
    return ('{"x":%d,"y":%d,"z":%d,"yaw":%d,"pitch":%d,"roll":%d}' % (x, y, z, yaw, pitch, roll)).encode()

import json
def scene():
    st, b = srv.http('GET', '/get-state')
    check(st == 200, 'get-state')
    return {json.dumps(d['mac_address']): d for d in json.loads(b)['devices']}

def events(text, name):
    return [json.loads(e.split('data: ')[1].split('\\n')[0]) for e in text.split('event: ') if e.startswith(name)]
"""

seed('C25-same-place', 'C25', 'two devices at the same place',
     'the elevation of a device at the same place is not a number, and the assertion on it fails with the scene locked',
     [(P, """    checked_div(delta.y, f32::sqrt(delta.x.powi(2) + delta.z.powi(2)))
        .map_or(delta.y.signum() * std::f32::consts::FRAC_PI_2, f32::atan)
""", """    (delta.y / delta.length()).clamp(-1., 1.).asin()
""")], POS + """
check(srv.http('POST', '/create-anchor/01:01', pos(1, 2, 3))[0] == 200, 'create')
check(srv.http('POST', '/create-anchor/02:02', pos(1, 2, 4))[0] == 200, 'create')
ev = srv.events()
check(srv.http('POST', '/set-position/02:02', pos(1, 2, 3))[0] == 200, 'move')
check(srv.http('GET', '/get-state')[0] == 200, 'state')
""", http=True)

seed('C25-own-estimate', 'C25', 'a device is moved while there is another one',
     'the measurements of the neighbors come from the estimator, which locks the scene that is already locked',
     [(H, "for (_, device) in devices.iter_mut() {", "for (handle, device) in devices.iter_mut() {"),
      (H, "found_device = Some(device.clone());", "found_device = Some((*handle, device.clone()));"),
      (H, "let Some(device) = found_device else {", "let Some((handle, device)) = found_device else {"),
      (H, "        for other in devices.values() {\n", "        for (other_handle, other) in devices.iter() {\n"),
      (H, """                let local = device
                    .position
                    .compute_range_azimuth_elevation(&other.position);
""", """                let local = match pica::RangingEstimator::estimate(self, &handle, other_handle) {
                    Some(measurement) => {
                        (measurement.range, measurement.azimuth, measurement.elevation)
                    }
                    None => continue,
                };
""")], POS + """
check(srv.http('POST', '/create-anchor/01:01', pos(1, 2, 3))[0] == 200, 'create')
check(srv.http('POST', '/set-position/01:01', pos(1, 2, 9))[0] == 200, 'move')
check(srv.http('POST', '/create-anchor/02:02', pos(1, 2, 4))[0] == 200, 'create')
check(srv.http('POST', '/set-position/02:02', pos(1, 2, 3))[0] == 200, 'move')
check(srv.http('GET', '/get-state')[0] == 200, 'state')
""", http=True)

seed('C24-old-position', 'C24', 'a device is moved while there is another one',
     'the measurements of the neighbor events are those of the position before the move',
     [(H, """                device.position = position;
                found_device = Some(device.clone());
""", """                found_device = Some(device.clone());
                device.position = position;
""")], POS + """
check(srv.http('POST', '/create-anchor/01:01', pos(0, 0, 0))[0] == 200, 'create')
check(srv.http('POST', '/create-anchor/02:02', pos(0, 0, 10))[0] == 200, 'create')
ev = srv.events()
check(srv.http('POST', '/set-position/02:02', pos(0, 0, 70))[0] == 200, 'move')
n = events(ev(0.5), 'neighbor-updated')
print(n)
check(len(n) == 2 and all(x['distance'] == 70 for x in n), 'distance')
""", http=True)

seed('C24-lenient-body', 'C24', 'a create-anchor request with a JSON body that is not a position',
     'a body with missing or mistyped fields is taken as the default position',
     [(H, "err.classify() == SerdeErrorCategory::Eof {", "matches!(\n                    err.classify(),\n                    SerdeErrorCategory::Eof | SerdeErrorCategory::Data\n                ) {")], POS + """
check(srv.http('POST', '/create-anchor/01:01', b'{"x":1')[0] == 200, 'incomplete body')
check(srv.http('POST', '/create-anchor/02:02', b'{"x":')[0] in (200, 406), 'incomplete body')
check(srv.http('POST', '/create-anchor/03:03', b'{"x":1,"y":2}')[0] == 406, 'body with missing fields')
check(srv.http('POST', '/create-anchor/03:03', b'{"x":1,"y":2,"z":"a"}')[0] == 406, 'body with wrong type')
check(len(scene()) <= 2, 'scene')
""", http=True)

seed('C24-conflict-moves', 'C24', 'create-anchor for an address that is in use',
     'the refused request moves the existing device',
     [(H, """            Ok(Err(PicaCommandError::DeviceAlreadyExists(_))) => HttpStatusCode::CONFLICT,
            Ok(Err(PicaCommandError::DeviceNotFound(_))) => HttpStatusCode::NOT_FOUND,
            Err(_) => HttpStatusCode::INTERNAL_SERVER_ERROR,
        };

        Response::builder().status(status).body("".into()).unwrap()
    }

    async fn http_destroy_anchor(""", """            Ok(Err(PicaCommandError::DeviceAlreadyExists(mac_address))) => {
                let mut devices = self.devices.lock().unwrap();
                for device in devices.values_mut() {
                    if device.mac_address == mac_address {
                        device.position = position;
                    }
                }
                HttpStatusCode::CONFLICT
            }
            Ok(Err(PicaCommandError::DeviceNotFound(_))) => HttpStatusCode::NOT_FOUND,
            Err(_) => HttpStatusCode::INTERNAL_SERVER_ERROR,
        };

        Response::builder().status(status).body("".into()).unwrap()
    }

    async fn http_destroy_anchor(""")], POS + """
check(srv.http('POST', '/create-anchor/01:01', pos(1, 2, 3))[0] == 200, 'create')
check(srv.http('POST', '/create-anchor/01:01', pos(4, 5, 6))[0] == 409, 'create again')
d = list(scene().values())
print(d)
check(len(d) == 1 and d[0]['x'] == 1, 'position')
""", http=True)

seed('C24-trailing', 'C24', 'a request path with a trailing slash',
     'unknown paths that differ from a route by a trailing slash are served',
     [(H, ".trim_start_matches('/')", ".trim_matches('/')")], POS + """
check(srv.http('GET', '/get-state/')[0] == 404, 'unknown path')
check(srv.http('POST', '/create-anchor/01:01/', pos(1, 2, 3))[0] == 404, 'unknown path')
check(scene() == {}, 'scene')
""", http=True)

seed('C24-disconnect-mac', 'C24', 'a host disconnects whose device has the same address as an anchor',
     'all devices with the address of the disconnected device leave the scene',
     [(H, """                    devices.remove(&handle);
                    self.send_event(Event::DeviceRemoved {
                        category: Category::Uci,""", """                    log::debug!("device {} disconnected", handle);
                    devices.retain(|_, device| device.mac_address != mac_address);
                    self.send_event(Event::DeviceRemoved {
                        category: Category::Uci,""")], POS + """
check(srv.http('POST', '/create-anchor/00:01', pos(1, 2, 3))[0] == 200, 'create')
h = Host(srv); h.drain(0.3)
st, b = srv.http('GET', '/get-state')
print(b)
check(len(json.loads(b)['devices']) == 2, 'scene with device and anchor')
h.s.close(); time.sleep(0.5)
st, b = srv.http('GET', '/get-state')
print(b)
check(len(json.loads(b)['devices']) == 1, 'scene with anchor')
""", http=True)

seed('C24-mirrored', 'C24', 'a device moves while another one is turned differently',
     'the angles from the neighbor to the device are derived by mirroring instead of measured',
     [(H, "elevation: remote.2,", "elevation: -local.2,")], POS + """
check(srv.http('POST', '/create-anchor/01:01', pos(0, 0, 0, pitch=30))[0] == 200, 'create')
check(srv.http('POST', '/create-anchor/02:02', pos(0, 0, 10))[0] == 200, 'create')
ev = srv.events()
check(srv.http('POST', '/set-position/02:02', pos(0, 0, 70))[0] == 200, 'move')
n = events(ev(0.5), 'neighbor-updated')
print(n)
check(len(n) == 2 and {abs(x['elevation']) for x in n} == {0, 30}, 'angles')
""", http=True)

seed('C24-swapped-estimate', 'C24', 'ranging between devices that are turned differently',
     'the estimator reports the measurement of the opposite direction',
     [(H, "left_pos.compute_range_azimuth_elevation(&right_pos)", "right_pos.compute_range_azimuth_elevation(&left_pos)")], POS + """
check(srv.http('POST', '/create-anchor/03:03', pos(100, 0, 0, yaw=90))[0] == 200, 'anchor')
h = Host(srv); h.drain(0.2)
check(srv.http('POST', '/set-position/00:01', pos(0, 0, 0))[0] == 200, 'position')
h.reset(); h.init(1)
check(h.set_app(1, app(b'\\0\\1', [b'\\3\\3'], period=100))[0] == 0, 'config')
h.start(1)
i = infos(h.drain(1.0))
check(i and len(i[0][2]) == 1, 'measured')
m = i[0][2][0]
print(struct.unpack('<h', m[6:8])[0], struct.unpack('<h', m[12:14])[0])
check(struct.unpack('<h', m[6:8])[0] == 90, 'angle of the device to its right')
""", http=True)


# --- C21: event loops and waiting
seed('C21-inband-block', 'C21', 'removing more controlees, with more stop attempts each, than the command channel has room for',
     'in-band stop requests are sent by the handler itself, which waits for room in the channel that only it can empty',
     [(D, """                            tokio::spawn(async move {
                                for _ in 0..attempt_count {
                                    pica_tx
                                        .send(PicaCommand::StopRanging(address, session_handle))
                                        .await
                                        .unwrap()
                                }
                            });
""", """                            futures::executor::block_on(async move {
                                for _ in 0..attempt_count {
                                    pica_tx
                                        .send(PicaCommand::StopRanging(address, session_handle))
                                        .await
                                        .unwrap()
                                }
                            });
""")],
     """
h = Host(srv)
h.reset(); h.init(1)
peers = [bytes([i, 9]) for i in range(8)]
check(h.set_app(1, app(b'\\1\\1', peers, extra=[(0x2f, b'\\xff')]))[0] == 0, 'config')
check(h.multicast(1, 1, peers) is not None, 'response to the removal')
time.sleep(0.5)
check(h.count() is not None, 'still serving')
""")

seed('C21-lifo', 'C21', 'several commands that are queued before the event loop gets to them',
     'commands that queued up are dispatched in the wrong order',
     [(L, """            if let Some(command) = command_rx.recv().await {
                self.pica_command(command)
            }
        }
    }

    // Handle the in-band""", """            // Drain the queue before going back to sleep.
            let mut pending: Vec<_> = command_rx.recv().await.into_iter().collect();
            while let Ok(command) = command_rx.try_recv() {
                pending.push(command);
            }
            while let Some(command) = pending.pop() {
                self.pica_command(command)
            }
        }
    }

    // Handle the in-band""")],
     """
hs = [Host(srv) for _ in range(6)]
for h in hs:
    h.reset()
    h.init(1)
for _ in range(3):
    n = 150
    for h in hs:
        # a long and a short command, alternating
        g = bytes([CMD << 5 | CORE, 3, 0, 0])
        c = bytes([CMD << 5 | CONFIG, 5, 0, 0])
        h.raw((g + c) * n)
    for h in hs:
        for i in range(n):
            for want in (3, 5):
                r = h.rsp()
                check(isinstance(r, tuple) and r[2] == want, 'order of the responses')
""")

seed('C21-overload', 'C21', 'more commands queued than the emulator considers healthy',
     'an overloaded event loop drops a command',
     [(L, """            if let Some(command) = command_rx.recv().await {
                self.pica_command(command)
            }
        }
    }

    // Handle the in-band""", """            if let Some(command) = command_rx.recv().await {
                // Shed load when the queue is about to fill up.
                if self.command_tx.capacity() < MAX_SESSION * MAX_DEVICE - MAX_DEVICE {
                    log::warn!("overloaded, dropping a command");
                    continue;
                }
                self.pica_command(command)
            }
        }
    }

    // Handle the in-band""")],
     """
hs = [Host(srv) for _ in range(8)]
for h in hs:
    h.reset()
n = 200
for h in hs:
    h.raw(bytes([CMD << 5 | CORE, 3, 0, 0]) * n)
for h in hs:
    for i in range(n):
        check(isinstance(h.rsp(2), tuple), 'a response to each command')
""")

seed('C21-last-leaves', 'C21', 'the last of several hosts disconnecting',
     'the event loop ends when the last host has disconnected',
     [(L, """            if let Some(command) = command_rx.recv().await {
                self.pica_command(command)
            }
        }
    }

    // Handle the in-band""", """            if let Some(command) = command_rx.recv().await {
                let leaving = matches!(command, PicaCommand::Disconnect(_));
                self.pica_command(command);
                if leaving && self.devices.is_empty() && self.counter > 1 {
                    return Ok(());
                }
            }
        }
    }

    // Handle the in-band""")],
     """
a, b = Host(srv), Host(srv)
a.reset(); b.reset()
a.close(); b.close()
time.sleep(0.5)
c = Host(srv)
check(c.reset() is not None, 'a later host is served')
""")

seed('C21-held-guard', 'C21', 'using the shared emulator while its event loop waits for a command',
     'the event loop of a shared emulator keeps the emulator locked while it waits for the next command',
     [(L, """    let Some(mut command_rx) = this.lock().unwrap().command_rx.take() else {
        anyhow::bail!("missing pica command receiver");
    };

    loop {
        if let Some(command) = command_rx.recv().await {
            this.lock().unwrap().pica_command(command)
        }
    }
""", """    let mut pica = this.lock().unwrap();
    let Some(mut command_rx) = pica.command_rx.take() else {
        anyhow::bail!("missing pica command receiver");
    };

    loop {
        if let Some(command) = command_rx.recv().await {
            pica.pica_command(command)
        }
    }
""")],
     """
use pica::*;
use std::sync::Mutex;

struct Nothing;
impl RangingEstimator for Nothing {
    fn estimate(&self, _: &Handle, _: &Handle) -> Option<RangingMeasurement> {
        None
    }
}

fn main() {
    let rt = tokio::runtime::Builder::new_current_thread().enable_all().build().unwrap();
    rt.block_on(async {
        let pica: &'static Mutex<Pica> = Box::leak(Box::new(Mutex::new(Pica::new(Box::new(Nothing), None))));
        let tx = pica.lock().unwrap().commands();
        let test = async {
            for i in 0..3u8 {
                let (rsp, answer) = tokio::sync::oneshot::channel();
                tx.send(PicaCommand::CreateAnchor(MacAddress::Short([i, i]), rsp)).await.unwrap();
                answer.await.unwrap().unwrap();
                // The event loop waits for the next command now.
                let _events = pica.try_lock().expect("the emulator is locked").events();
            }
        };
        tokio::select! {
            _ = pica::run(pica) => panic!("the event loop ended"),
            _ = test => (),
        }
    });
    println!("ok");
}
""", rust=True)

I, Y, C = 'static/index.html', 'static/openapi.yaml', 'py/pica/console.py'
PAGE = r'''
import re, subprocess, tempfile, os, json
HARNESS = r"""
const fs = require('fs'), vm = require('vm');
const [page, feed] = JSON.parse(fs.readFileSync(0, 'utf8'));
const text = [...page.matchAll(/<script type="module">([^]*?)<\/script>/g)].map(m => m[1]).join('\n').replace(/^\s*import[^;]*;/gm, '');
const sent = [], els = {}, es = {}, win = {};
const el = id => els[id] = els[id] || { l: {}, devices: [], device: null, update() {}, addEventListener(n, f) { this.l[n] = f; } };
const ctx = { console: { log() {}, error() {} }, JSON, Promise, Object, Array, Number, Math,
  document: { getElementById: el, querySelector: s => el(s.replace(/^#/, '')) },
  window: { addEventListener(n, f) { win[n] = f; } },
  fetch(path, o) { sent.push([path, o && o.body]); return Promise.resolve({ ok: true, json: async () => feed.state, text: async () => JSON.stringify(feed.state) }); },
  EventSource: class { constructor(p) { this.p = p; } addEventListener(n, f) { es[n] = f; } } };
vm.createContext(ctx);
vm.runInContext('(async () => {' + text + '})()', ctx);
(async () => {
  if (win.load) await win.load();
  await new Promise(r => setTimeout(r, 50));
  const missed = [];
  for (const [n, d] of feed.events) { if (es[n]) es[n]({ data: d }); else missed.push(n); }
  if (feed.move !== undefined) { const d = els.map.devices[feed.move]; els.map.l['end-move']({ detail: { device: d } }); }
  await new Promise(r => setTimeout(r, 50));
  console.log(JSON.stringify({ devices: els.map.devices, sent, missed }));
})();
"""

def page(events=(), move=None):
    """Run the script of the page on the given events."""
    feed = {'state': json.loads(srv.http('GET', '/get-state')[1]), 'events': list(events)}
    if move is not None:
        feed['move'] = move
    with tempfile.TemporaryDirectory() as d:
        open(d + '/h.js', 'w').write(HARNESS)
        r = subprocess.run(['node', d + '/h.js'], input=json.dumps([srv.http('GET', '/')[1].decode(), feed]), capture_output=True, text=True)
    check(r.returncode == 0, 'script of the page: ' + r.stderr[-300:])
    return json.loads(r.stdout)

def stream(text):
    return [(e.split('\n')[0].strip(), e.split('data: ')[1].split('\n')[0]) for e in text.split('event: ')[1:]]
'''

CONSOLE = r'''
import sys, types, urllib.request, urllib.error, json, io, contextlib
sys.dont_write_bytecode = True
sys.path[:0] = ['py/pica']

class Answer:
    def __init__(self, code, text):
        self.status_code, self.text = code, text
    def json(self):
        return json.loads(self.text)

asked = []
def request(method, url, data=None, json=None, **k):
    if json is not None:
        data = __import__('json').dumps(json)
    q = urllib.request.Request(url, data=data.encode() if isinstance(data, str) else data, method=method)
    try:
        with urllib.request.urlopen(q, timeout=5) as r:
            a = Answer(r.status, r.read().decode())
    except urllib.error.HTTPError as e:
        a = Answer(e.code, e.read().decode())
    asked.append((method, url, a.status_code))
    return a

m = types.ModuleType('requests')
m.request = request
for x in ('get', 'post', 'put', 'delete', 'patch'):
    setattr(m, x, lambda url, data=None, json=None, x=x, **k: request(x.upper(), url, data, json))
sys.modules['requests'] = m
import console

class Writer:
    def __init__(self):
        self.packets = []
    def write(self, p):
        self.packets.append(bytes(p))

async def make():
    w = Writer()
    d = console.Device(console.asyncio.StreamReader(), w, 'http://127.0.0.1:%d' % srv.web)
    d.host.reader_task.cancel()
    return d, w
dev, writer = console.asyncio.new_event_loop().run_until_complete(make())
'''

seed('C27-deleted-event', 'C27', 'a device that is removed while the web page is open',
     'the event of a removed device is sent under a name that the page does not listen to',
     [(H, '"device-removed"', '"device-deleted"')], PAGE + """
ev = srv.events()
check(srv.http('POST', '/create-anchor/01:01', b'')[0] == 200, 'create')
check(srv.http('POST', '/destroy-anchor/01:01', b'')[0] == 200, 'destroy')
r = page(stream(ev(1.0)))
print(r)
check(r['devices'] == [] and not r['missed'], 'the page follows the removal')
""", http=True)

seed('C27-camel', 'C27', 'a device that moves while another one exists',
     'the fields of one event are written in camel case',
     [(H, """    },
    NeighborUpdated {
""", """    },
    #[serde(rename_all = "camelCase")]
    NeighborUpdated {
""")], PAGE + """
for a in ('01:01', '02:02'):
    check(srv.http('POST', '/create-anchor/' + a, b'')[0] == 200, 'create')
ev = srv.events()
check(srv.http('POST', '/set-position/01:01', b'{"x":1,"y":2,"z":3,"yaw":0,"pitch":0,"roll":0}')[0] == 200, 'move')
r = page(stream(ev(1.0)))
print(r)
check(sorted(n['mac_address'] for d in r['devices'] for n in d['neighbors']) == ['01:01', '02:02'], 'neighbors of the devices')
""", http=True)

seed('C27-angles', 'C27', 'a device with different pitch and roll',
     'pitch and roll change places in what the server writes, while what it reads is as before',
     [(P, """        state.serialize_field("pitch", &(pitch.to_degrees().round() as i8))?;
        state.serialize_field("roll", &(roll.to_degrees().round() as i16))?;
""", """        state.serialize_field("roll", &(pitch.to_degrees().round() as i8))?;
        state.serialize_field("pitch", &(roll.to_degrees().round() as i16))?;
""")], PAGE + """
check(srv.http('POST', '/create-anchor/01:01', b'{"x":1,"y":2,"z":3,"yaw":0,"pitch":20,"roll":0}')[0] == 200, 'create')
r = page()
print(r)
check(abs(r['devices'][0]['pitch'] - 20) <= 1, 'pitch of the device')
""", http=True)

seed('C27-described-path', 'C27', 'a client generated from the API document that destroys an anchor',
     'the API document describes a path under another name than the server answers',
     [(Y, "/destroy-anchor/{mac-address}:", "/delete-anchor/{mac-address}:")], """
import re
doc = srv.http('GET', '/openapi.yaml')[1].decode()
paths = re.findall(r'^  (/[^\\s:]+(?:\\{[^}]*\\})?):\\s*$', doc, re.M)
check(len(paths) >= 5, 'described paths')
for p in paths:
    p = re.sub(r'\\{[^}]*\\}', '01:01', p)
    if p == '/events':
        continue
    srv.http('POST', '/create-anchor/01:01', b'')
    st = srv.http('POST', p, b'{"x":1,"y":2,"z":3,"yaw":0,"pitch":0,"roll":0}')[0]
    print(p, st)
    check(st != 404, 'path ' + p)
""", http=True)

seed('C27-ranging-count', 'C27', 'the console command get_ranging_count',
     'the console names a field that the packet of the bindings does not have',
     [(C, "uci.SessionGetRangingCountCmd(session_id=int(session_id))", "uci.SessionGetRangingCountCmd(session_token=int(session_id))")], CONSOLE + """
dev.get_ranging_count('1')
check(writer.packets[-1] == bytes([0x22, 3, 0, 4, 1, 0, 0, 0]), 'packet')
""", http=True)

seed('C27-console-anchor', 'C27', 'the console command pica_create_anchor with angles',
     'the body that the console sends for an anchor has no roll',
     [(C, """            f"{self.http_address}/create-anchor/{mac_address}",
            data=json.dumps(
                {
                    "x": int(x),
                    "y": int(y),
                    "z": int(z),
                    "yaw": int(yaw),
                    "pitch": int(pitch),
                    "roll": int(roll),
""", """            f"{self.http_address}/create-anchor/{mac_address}",
            data=json.dumps(
                {
                    "x": int(x),
                    "y": int(y),
                    "z": int(z),
                    "yaw": int(yaw),
                    "pitch": int(pitch),
""")], CONSOLE + """
with contextlib.redirect_stdout(io.StringIO()):
    dev.pica_create_anchor('01:01', '1', '2', '3', '4', '5', '6')
print(asked)
check(asked[-1][2] == 200, 'anchor created')
""", http=True)

seed('C27-web-neighbor', 'C27', 'a neighbor event for a device that is shown',
     'the page reads a field of the neighbor event under the name it has in other events',
     [(I, """    const {
      source_mac_address,
      destination_mac_address,
      distance,
      azimuth,
      elevation,
    } = data;
""", """    const {
      source_mac_address,
      mac_address: destination_mac_address,
      distance,
      azimuth,
      elevation,
    } = data;
""")], PAGE + """
for a in ('01:01', '02:02'):
    check(srv.http('POST', '/create-anchor/' + a, b'')[0] == 200, 'create')
ev = srv.events()
check(srv.http('POST', '/set-position/01:01', b'{"x":1,"y":2,"z":3,"yaw":0,"pitch":0,"roll":0}')[0] == 200, 'move')
r = page(stream(ev(1.0)))
print(r)
check(sorted(n.get('mac_address', '') for d in r['devices'] for n in d['neighbors']) == ['01:01', '02:02'], 'neighbors of the devices')
""", http=True)

seed('C27-web-body', 'C27', 'a device that is moved with the mouse',
     'the page sends the position without the roll, which the server refuses',
     [(I, """        pitch,
        roll,
      }),
""", """        pitch,
      }),
""")], PAGE + """
check(srv.http('POST', '/create-anchor/01:01', b'')[0] == 200, 'create')
r = page(move=0)
print(r)
p, b = r['sent'][-1]
check(srv.http('POST', p, b.encode())[0] == 200, 'position accepted')
""", http=True)

seed('C27-module', 'C27', 'loading the web page',
     'a module of the page is served under a path that differs in case from the one it is imported by',
     [(H, '        "/src/components/Orientation.js",\n', '        "/src/components/orientation.js",\n')], """
import re
from urllib.parse import urljoin
seen, todo = set(), ['/']
while todo:
    p = todo.pop()
    if p in seen:
        continue
    seen.add(p)
    st, b = srv.http('GET', p)
    check(st == 200, 'served: ' + p)
    for r in re.findall(r'import[^;]*?["\\'](\\.[^"\\']+)["\\']', b.decode()):
        todo.append(urljoin(p, r))
print(sorted(seen))
check(len(seen) >= 4, 'modules')
""", http=True)
