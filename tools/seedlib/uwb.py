"""Small raw UCI client: starts the emulator built in the current directory and talks to it over loopback."""
import os, re, select, socket, struct, subprocess, sys, tempfile, time

CORE, CONFIG, CONTROL, ANDROID = 0, 1, 2, 0xc
CMD, RSP, NTF = 1, 2, 3


def free_port():
    s = socket.socket()
    s.bind(('127.0.0.1', 0))
    p = s.getsockname()[1]
    s.close()
    return p


class Server:
    def __init__(self, http=False, pcap=False, args=()):
        self.port = free_port()
        self.dir = None
        if pcap:
            self.dir = tempfile.TemporaryDirectory()
            args = (*args, '--pcapng-dir', self.dir.name)
        self.web = free_port()
        self.log = tempfile.TemporaryFile()
        exe = './target/debug/' + ('pica-http' if http else 'pica')
        cmd = [exe, '--uci-port', str(self.port)] + (['--web-port', str(self.web)] if http else []) + list(args)
        self.p = subprocess.Popen(cmd, stdout=self.log, stderr=self.log, env=dict(os.environ, RUST_BACKTRACE='0'))
        for port in [self.port] + ([self.web] if http else []):
            for _ in range(100):
                try:
                    # wait for the listening socket without connecting a device to the UCI port
                    if port == self.web:
                        socket.create_connection(('127.0.0.1', port), 1).close()
                    elif not listening(port):
                        raise OSError()
                    break
                except OSError:
                    time.sleep(0.05)

    def text(self):
        self.log.flush()
        self.log.seek(0)
        return self.log.read().decode('utf8', 'replace')

    def panicked(self):
        return 'panicked at' in self.text()

    def alive(self):
        return self.p.poll() is None

    def http(self, method, path, body=b'', timeout=5):
        s = socket.create_connection(('127.0.0.1', self.web), timeout)
        s.sendall(('%s %s HTTP/1.1\r\nHost: x\r\nConnection: close\r\nContent-Length: %d\r\n\r\n' % (method, path, len(body))).encode() + body)
        out = b''
        try:
            while True:
                d = s.recv(65536)
                if not d:
                    break
                out += d
        except socket.timeout:
            pass
        s.close()
        head, _, rest = out.partition(b'\r\n\r\n')
        return (int(head.split()[1]) if head else 0), rest

    def events(self):
        """Open the event stream; returns a function giving all text received so far."""
        s = socket.create_connection(('127.0.0.1', self.web), 5)
        s.sendall(b'GET /events HTTP/1.1\r\nHost: x\r\n\r\n')
        buf = bytearray()

        def read(t=0.5):
            end = time.time() + t
            while time.time() < end:
                if select.select([s], [], [], max(0, end - time.time()))[0]:
                    d = s.recv(65536)
                    if not d:
                        break
                    buf.extend(d)
            return bytes(buf).decode('utf8', 'replace')
        read(0.3)
        return read

    def stop(self):
        self.p.kill()
        self.p.wait()
        if self.dir:
            self.dir.cleanup()

    def capture(self, handle):
        """Packets in the capture file of a device; fails when the file is not well-formed."""
        b = open('%s/device-%d.pcapng' % (self.dir.name, handle), 'rb').read()
        out, i, first = [], 0, True
        while i < len(b):
            check(len(b) - i >= 12, 'complete block at %d' % i)
            t, n = struct.unpack('<II', b[i:i + 8])
            check(n % 4 == 0 and n >= 12 and i + n <= len(b), 'block length at %d' % i)
            check(struct.unpack('<I', b[i + n - 4:i + n])[0] == n, 'trailing block length at %d' % i)
            check((t == 0x0a0d0d0a) == first, 'block type at %d' % i)
            if t == 6:
                k, o = struct.unpack('<II', b[i + 20:i + 28])
                check(k == o and n - 32 - 7 <= k <= n - 32, 'captured length at %d' % i)
                out.append(b[i + 28:i + 28 + k])
            i, first = i + n, False
        return out


def listening(port):
    want = ':%04X' % port
    for l in open('/proc/net/tcp').readlines()[1:]:
        f = l.split()
        if f[1].endswith(want) and f[3] == '0A':
            return True
    return False


class Host:
    def __init__(self, srv, handle=None):
        self.s = socket.create_connection(('127.0.0.1', srv.port), 5)
        self.buf = b''
        self.q = []
        self.part = b''
        self.addr = struct.pack('>H', handle) if handle is not None else None

    def raw(self, b):
        self.s.sendall(b)

    def close(self):
        self.s.close()

    def send(self, gid, oid, payload=b'', mt=CMD):
        """Send a control packet (segmented when needed)."""
        chunks = [payload[i:i + 255] for i in range(0, len(payload), 255)] or [b'']
        for i, c in enumerate(chunks):
            pbf = 0x10 if i + 1 < len(chunks) else 0
            self.raw(bytes([mt << 5 | pbf | gid, oid, 0, len(c)]) + c)

    def data(self, session, payload, dst=0, seq=1):
        body = struct.pack('<IQHH', session, dst, seq, len(payload)) + payload
        self.raw(bytes([1, 0]) + struct.pack('<H', len(body)) + body)

    def _packet(self, end):
        """Next (mt, gid|dpf, oid, payload), None at the deadline, 'eof' when closed."""
        while True:
            while len(self.buf) >= 4:
                mt = self.buf[0] >> 5
                n = struct.unpack('<H', self.buf[2:4])[0] if mt == 0 else self.buf[3]
                if len(self.buf) < 4 + n:
                    break
                p, self.buf = self.buf[:4 + n], self.buf[4 + n:]
                self.part += p[4:]
                if p[0] & 0x10:
                    continue
                r = (mt, p[0] & 15, p[1], self.part)
                self.part = b''
                return r
            t = end - time.time()
            if t <= 0 or not select.select([self.s], [], [], t)[0]:
                return None
            try:
                d = self.s.recv(65536)
            except OSError:
                return 'eof'
            if not d:
                return 'eof'
            self.buf += d

    def recv(self, timeout=2.0):
        if self.q:
            return self.q.pop(0)
        return self._packet(time.time() + timeout)

    def rsp(self, timeout=5.0):
        """Next response; everything else is queued."""
        end = time.time() + timeout
        while True:
            p = self._packet(end)
            if p is None or p == 'eof':
                return p
            if p[0] == RSP:
                return p
            self.q.append(p)

    def cmd(self, gid, oid, payload=b'', timeout=5.0):
        """Payload of the response to a command (None when there is none)."""
        self.send(gid, oid, payload)
        r = self.rsp(timeout)
        return r[3] if isinstance(r, tuple) else None

    def drain(self, t=0.3):
        """Everything received up to t seconds from now (queued packets first)."""
        end = time.time() + t
        out, self.q = self.q, []
        while True:
            p = self._packet(end)
            if p is None or p == 'eof':
                return out
            out.append(p)

    # -- commands
    def reset(self):
        return self.cmd(CORE, 0, b'\0')

    def init(self, sid, stype=0):
        return self.cmd(CONFIG, 0, struct.pack('<IB', sid, stype))

    def deinit(self, sid):
        return self.cmd(CONFIG, 1, struct.pack('<I', sid))

    def set_app(self, sid, tlvs):
        p = struct.pack('<IB', sid, len(tlvs))
        for t, v in tlvs:
            p += bytes([t, len(v)]) + v
        return self.cmd(CONFIG, 3, p)

    def get_app(self, sid, ids):
        """(status, {id: value})"""
        r = self.cmd(CONFIG, 4, struct.pack('<IB', sid, len(ids)) + bytes(ids))
        out, p = {}, r[2:]
        for _ in range(r[1]):
            out[p[0]] = p[2:2 + p[1]]
            p = p[2 + p[1]:]
        return r[0], out

    def count(self):
        return self.cmd(CONFIG, 5)

    def state(self, sid):
        return self.cmd(CONFIG, 6, struct.pack('<I', sid))

    def start(self, sid):
        return self.cmd(CONTROL, 0, struct.pack('<I', sid))

    def stop(self, sid):
        return self.cmd(CONTROL, 1, struct.pack('<I', sid))

    def ranging_count(self, sid):
        r = self.cmd(CONTROL, 3, struct.pack('<I', sid))
        return r[0], struct.unpack('<I', r[1:5])[0]

    def multicast(self, sid, action, ctrls, key=0):
        p = struct.pack('<IB', sid, action) + bytes([len(ctrls)])
        for a in ctrls:
            p += a + struct.pack('<I', 0) + b'\7' * key
        return self.cmd(CONFIG, 7, p)

    def get_config(self, ids):
        return self.cmd(CORE, 5, bytes([len(ids)]) + bytes(ids))

    def set_config(self, tlvs):
        p = bytes([len(tlvs)])
        for t, v in tlvs:
            p += bytes([t, len(v)]) + v
        return self.cmd(CORE, 4, p)


DEVICE_TYPE, USAGE, STS, MULTI, N_CTRL, MAC, DST, DURATION, AOA, INFO, ROLE = 0, 1, 2, 3, 5, 6, 7, 9, 0xd, 0xe, 0x11
SCHEDULE, TERMINATION = 0x22, 0x2f


def app(mac, dst, controller=True, initiator=None, period=100, multi=1, extra=()):
    """A complete application configuration."""
    if initiator is None:
        initiator = controller
    return [(DEVICE_TYPE, bytes([1 if controller else 0])), (ROLE, bytes([1 if initiator else 0])), (USAGE, b'\6'), (MULTI, bytes([multi])),
            (MAC, mac), (SCHEDULE, b'\1'), (DURATION, struct.pack('<I', period)), (N_CTRL, bytes([len(dst)])),
            (DST, b''.join(dst))] + list(extra)


def info(ntf):
    """(sequence number, session, [measurement bytes]) of a session information notification payload."""
    p = ntf[3]
    seq, sid = struct.unpack('<II', p[:8])
    n = p[24]
    body = p[25:]
    return seq, sid, [body[i * 31:(i + 1) * 31] for i in range(n)]


def infos(pkts):
    return [info(p) for p in pkts if p[0] == NTF and p[1] == CONTROL and p[2] == 0]


def states(pkts, sid=None):
    """[(session, state, reason)] of the session status notifications."""
    r = [struct.unpack('<IBB', p[3][:6]) for p in pkts if p[0] == NTF and p[1] == CONFIG and p[2] == 2]
    return [x for x in r if sid is None or x[0] == sid]


def devstates(pkts):
    return [p[3][0] for p in pkts if p[0] == NTF and p[1] == CORE and p[2] == 1]


def check(c, msg):
    if not c:
        print('FAILED:', msg)
        sys.exit(1)
