"""Framing constants of the Python client against the packet description."""
from pyabs import S, Unsup, ladd
import report
import c28


def run(r, p):
    py, _ = c28.client(p)
    for kind, cls in (('send_control', 'ControlPacketHeader'), ('send_data', 'DataPacketHeader')):
        lay, bits, _ = p.layout(cls)
        off, w, _ = lay['payload_length']
        hdr = bits // 8
        want = {(off // 8 + i): i for i in range(w // 8)}
        if kind not in py.methods:
            raise report.CheckError('no %s' % kind)
        s = S()
        s.env = {'self': ('obj', 'self'), py.methods[kind].args.args[1].arg: ('obj', 'packet')}
        try:
            outs = py.block(s, py.methods[kind].body)
        except Unsup as ex:
            r.gaps.append('construct not understood: %s' % ex)
            continue
        for k, st, v in outs:
            ws = [e for e in st.ev if e[0] == 'write']
            r.check(len(ws) == 1, 'framing', kind + '.once', '%s writes %d times' % (kind, len(ws)))
            for e in ws:
                b = e[2]
                if b[0] != 'upd':
                    r.bad('framing', kind, '%s does not fill in the payload length' % kind)
                    continue
                total = py.blen(b[1])
                got = {}
                for i, val in b[2]:
                    if val[0] == 'int':
                        val = ('byte', val, 0) if w == 8 else ('?', val)
                    if val[0] == 'shr8':
                        val = ('byte', val[1], 1)
                    good = val[0] == 'byte' and val[1][0] == 'int' and ladd(val[1][1], total, -1) == (-hdr, ())
                    got[i] = val[2] if good else None
                r.check(got == want, 'framing', kind, '%s stores the payload length as %s, the header has %s' % (kind, got, want))
