"""C28: the Python client ends when the connection closes and reassembles exactly."""
import ast
import os
import report
from c26 import Mod, enum_tags, PYF
from pyabs import Py, S, Unsup, ladd, lsym, src
from pdl import Pdl

FILE = 'py/pica/pica/__init__.py'


def client(p=None):
    p = p or Pdl(os.path.join(report.REPO, 'src/uci_packets.pdl'))
    tree = ast.parse(open(os.path.join(report.REPO, FILE)).read())
    py = Py(tree, {n: set(e.tags) for n, e in p.enums.items()}, 'Host')
    py.pdl = p
    py.ftypes = {(d.name, f[1]): f[2] for d in p.decls.values() for f in d.fields if f[0] == 'typed'}
    return py, p


def reader_entry(py):
    """The method run as the reader task."""
    for m in py.methods.values():
        for n in ast.walk(m):
            if isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and n.func.attr in ('create_task', 'ensure_future') and n.args:
                c = n.args[0]
                if isinstance(c, ast.Call) and isinstance(c.func, ast.Attribute) and src(c.func.value) == 'self':
                    return py.methods[c.func.attr]
    raise report.CheckError('no reader task')


def run(r):
    r.rule('progress', 'every path around a loop that reads the socket has received at least one byte')
    r.rule('request', 'the socket is always asked for at least one byte (a zero-byte read also returns empty)')
    r.rule('exact', 'a packet handed on is the 4-byte header, then the accumulated payload, then exactly the announced payload')
    r.rule('boundary', 'a packet is handed on exactly when the segment just read is marked complete')
    r.rule('ends', 'a closed connection ends the reader: an exception leaves its loop')
    r.rule('once', 'each iteration of the reader hands on exactly one packet, to the queue of its kind')
    py, p = client()
    hdr = sum((f[2] if isinstance(f[2], int) else p.enums[f[2]].width) for f in p.decls['ControlPacketHeader'].fields) // 8
    try:
        e = reader_entry(py)
        s = S()
        s.env['self'] = ('obj', 'self')
        outs = py.block(s, e.body)
        py.analysed.add(e.name)
    except Unsup as ex:
        r.gaps.append('construct not understood: %s' % ex)
        r.ok('once', 'reader task')
        return
    # loops
    nread = 0
    for l in py.loops:
        reads = [b for b in l['backs']]
        for b in l['backs']:
            # reads done directly in this iteration (nested loops add theirs)
            if not any(x[0] == 'read' for x in b.ev):
                if any(x[0] == 'put' for x in b.ev):
                    continue
            got = [x for x in b.reads]
            exact = any(x[0] == 'read' and isinstance(x[2], S) for x in b.ev)
            tot = (0, ())
            for x in got:
                tot = ladd(tot, x)
            if exact and not got:
                r.ok('progress', 'readexactly')
                continue
            nread += 1
            r.check(bool(got) and py.prove_le(b, (1, ()), tot) or bool(exact), 'progress', 'loop@' + func_of(py, l['node']),
                    '%s: %s can iterate without receiving a byte (end of stream is not detected)' % (FILE, func_of(py, l['node'])),
                    func_of(py, l['node']))
    seen = set()
    for l in py.loops:
        for st in [b for b in l['backs']] + [o[1] for o in l['outs']]:
            for x in st.ev:
                if x[0] == 'read' and not isinstance(x[2], S) and id(x) not in seen:
                    seen.add(id(x))
                    r.check(x[2], 'request', 'read', '%s: reads may request zero bytes or an unbounded amount' % FILE)
    # outer loop: the one whose iterations put packets
    outer = [l for l in py.loops if any(x[0] == 'put' for b in l['backs'] for x in b.ev)]
    inner = [l for l in py.loops if l not in outer]
    r.check(len(outer) >= 1, 'once', 'reader', 'the reader loop hands on no packet')
    for l in outer:
        r.check(not any(k == 'next' for k, _, _ in l['outs'] if not isinstance(l['node'].test, ast.Constant)), 'once', 'loop', 'reader loop may stop on its own')
        for b in l['backs']:
            puts = [x for x in b.ev if x[0] == 'put']
            r.check(len(puts) == 1, 'once', 'puts', '%s: an iteration of the reader hands on %d packets' % (FILE, len(puts)))
            for x in puts:
                packet_ok(r, py, p, l, x, b, hdr)
    # exceptions: some raise path must leave the reader (not be swallowed inside the loop)
    for l in outer:
        esc = [o for o in l['outs'] if o[0] == 'raise' or o[0] == 'next' or o[0] == 'ret']
        r.check(bool(esc), 'ends', 'reader', '%s: no exception leaves the reader loop' % FILE)
        for b in l['backs']:
            r.check(any(x[0] == 'put' for x in b.ev), 'ends', 'swallow', '%s: the reader loop continues after an error' % FILE)
    for k, _, _ in outs:
        r.ok('ends', k)
    accumulate_ok(r, py, p, hdr)
    r.analysed = {'file': FILE, 'functions': sorted(py.analysed), 'loops': [func_of(py, l['node']) for l in py.loops]}
    r.explanation = 'Abstract interpretation of the reader task of the Python client over its syntax tree, loops solved to an invariant.'
    r.floor('progress', 1)
    r.floor('exact', 2)
    r.floor('boundary', 2)


def func_of(py, node):
    for m in py.methods.values():
        if any(n is node for n in ast.walk(m)):
            return m.name
    return '?'


def hdr_of(parts):
    """The first part, when it is a part of constant length."""
    return parts[0] if parts else None


def base(p):
    return p[1] if p[0] == 'sub' else p


def header_fields(st, H, p):
    """Tag sets known for the header bytes H: {field: tags}."""
    out = {}
    for key, tags in st.tags.items():
        _, cls, name, b = key
        if b[1] and base(b[1][0]) == H:
            out.setdefault(name, set(tags))
            out[name] &= set(tags)
    return out


def packet_ok(r, py, p, l, put, st, hdr):
    v = put[2]
    if v[0] != 'bytes' or not v[1]:
        r.bad('exact', 'value', 'the packet handed on is not a byte string')
        return
    H = v[1][0]
    r.check(py.prove_le(st, H[-1], (hdr, ())) and py.prove_le(st, (hdr, ()), H[-1]), 'exact', 'header',
            'the packet does not start with a %d-byte header' % hdr)
    tags = header_fields(st, H, p)
    r.check(tags.get('pbf') == {'COMPLETE'}, 'boundary', 'complete', 'a packet is handed on after a segment with boundary flag %s' % sorted(tags.get('pbf', ['any'])))
    mt = tags.get('mt', set(p.enums['MessageType'].tags))
    q = put[1]
    if 'data' in q:
        r.check(mt == {'DATA'}, 'once', 'queue', 'packets of type %s go to the data queue' % sorted(mt))
    else:
        r.check('DATA' not in mt, 'once', 'queue', 'data packets go to the control queue')
    rest = list(v[1][1:])
    acc = rest[0] if rest and isinstance(rest[0][0], tuple) is False and rest[0][0] == 'phi' else None
    if acc is None or len(rest) != 2:
        r.bad('exact', 'packet', 'the packet handed on is not header, accumulated payload and last payload in order')
        return
    segments_ok(r, py, p, acc[1], acc[2])
    payload_len_ok(r, py, p, st, H, rest[1], mt)


def payload_len_ok(r, py, p, st, H, P, mt):
    if P is H:
        return
    cls = 'DataPacketHeader' if mt == {'DATA'} else 'ControlPacketHeader' if 'DATA' not in mt else None
    if cls is None:
        r.bad('exact', 'length', 'the payload length is read the same way for data and control packets')
        return
    off, w, _ = p.layout(cls)[0]['payload_length']
    want = py.octets(st, ('bytes', (H,)), off // 8, (off + w) // 8)
    good = want is not None and py.prove_le(st, P[-1], want) and py.prove_le(st, want, P[-1])
    for f in [x for x in set(t for c, it in st.facts for t, _ in it)] + [t for t, _ in P[-1][1]]:
        if isinstance(f, tuple) and f[0] == 'f' and f[1] == cls and f[2] == 'payload_length' and f[3][1] and f[3][1][0] == H:
            if py.prove_le(st, P[-1], lsym(f)) and py.prove_le(st, lsym(f), P[-1]):
                good = True
    r.check(good, 'exact', 'length.' + cls, 'the payload of a %s segment is not exactly the announced length' % cls[:-12].lower())


def accumulate_ok(r, py, p, hdr):
    """Loops that examine a boundary flag: what they carry from one segment to the next."""
    for l in py.loops:
        for b in l['backs']:
            if any(e[0] == 'put' for e in b.ev):
                continue
            pb = [(k, t) for k, t in b.tags.items() if k[2] == 'pbf']
            if pb:
                r.check(set(pb[-1][1]) == {'NOT_COMPLETE'}, 'boundary', 'continue', 'reassembly continues after a complete segment')


def segments_ok(r, py, p, lid, x):
    """The accumulator x of loop lid starts empty and grows by exactly the payload of each segment."""
    l = [q for q in py.loops if q['lid'] == lid]
    if not l:
        r.bad('exact', 'accumulate', 'no reassembly loop')
        return
    l = l[0]
    ph = l['phis'][x]
    r.check(l['entry'].get(x) in (('bytes', ()), ('chunks', ())), 'exact', 'accumulate.start', 'reassembly starts with leftover bytes')
    for b in l['backs']:
        v = b.env[x]
        pb = [k for k, t in b.tags.items() if k[2] == 'pbf']
        if not pb:
            r.bad('exact', 'accumulate', 'a segment is added without looking at its boundary flag')
            continue
        H = base(pb[-1][3][1][0])
        mt = header_fields(b, H, p).get('mt', set(p.enums['MessageType'].tags))
        ok = v[0] in ('bytes', 'chunks') and v[1] and v[1][0] == ph[1][0] and len(v[1]) <= 2
        r.check(ok, 'exact', 'accumulate', 'reassembly does not append exactly the payload of each segment in order')
        if ok and len(v[1]) == 2:
            payload_len_ok(r, py, p, b, H, v[1][1], mt)
        elif ok:
            r.bad('exact', 'accumulate', 'reassembly drops the payload of a segment')
