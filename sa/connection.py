"""C17, C18, C22, C23: what a connection reads, writes and records (see conn.py)."""
import conn
import emulator
import spec
from world import World

RULES = {
    'once': 'a connection has exactly one task of this kind',
    'panic': 'no path panics',
    'offset': 'the segments of a packet are contiguous: each starts where the last one ended, the first after the header (induction)',
    'segment': 'only segments of the packet are written, each with a four byte header',
    'payload': 'the payload of a segment is the part of the packet that follows the previous segment, and is written completely',
    'limit': 'a segment carries at most 255 bytes of payload (control) or 1024 (data)',
    'header': 'the header of a segment is the header of the packet except for length and boundary flag, for every value of its bytes',
    'complete': 'the next packet is taken when the segments end at the end of the packet',
    'end': 'the task ends only when something failed or ended, and continues otherwise',
    'queued': 'every packet queued for a host has a header and a payload',
    'framing': 'a segment is read as header and announced payload; only a truncated or unparsable segment ends the reader',
    'reassembly': 'the pending packet is the first segment of a control packet followed by the payloads of the others (loop invariant)',
    'forward': 'a complete packet is forwarded once, unmodified, for the device of the connection',
    'recording': 'a segment is recorded once, unmodified and before it is exchanged, or is not exchanged',
    'structure': 'lengths, types, order and alignment of the blocks written to a capture file are well-formed',
    'partial': 'no write of a capture file can be partial',
    'interleaving': 'the parts of a block are written in one critical section',
}
# about a third of the instances on the tree the check was written for
FLOORS = {
    'C17': {'once': 4, 'offset': 20, 'segment': 20, 'payload': 20, 'limit': 20, 'header': 40, 'complete': 4, 'end': 10},
    'C18': {'once': 4, 'reassembly': 20, 'forward': 20, 'framing': 10},
    'C22': {'structure': 20, 'partial': 10},
    'C23': {'recording': 60},
}


def run(r):
    r.explanation = ('All paths of the tasks spawned for a connection, of the functions that read and write a segment of a socket, '
                     'and of the capture file writer were interpreted abstractly (compiler MIR of the current tree) for arbitrary '
                     'segments and packets; each path between two receptions is judged, and what earlier iterations did is '
                     'represented by a loop invariant that is proved by induction.')
    r.assumptions += [
        'streams, sinks, sockets, files and channels of futures, tokio and std behave as documented (models.py)',
        'segments and packets are at most 65539 bytes long',
        'MessageType and PacketBoundaryFlag are read from the header as the packet description says (C26)',
    ]
    if r.pid == 'C17':
        A = emulator.Analysis().everything(config=False)
        F = A.F
        gaps = A.gaps
    else:
        F, gaps = spec.Findings(), []
    W = World()
    W.E.soft = True
    c = conn.Conn(W, F).run()
    E = W.E
    viol = F.viol.get(r.pid, {})
    for rule, (n, samples) in sorted(F.ob.get(r.pid, {}).items()):
        r.rule(rule, RULES.get(rule, ''))
        r.ob[rule] = [max(0, n - len([k for k in viol if k[0] == rule])), list(samples)]
    for (rule, key), text in viol.items():
        r.bad(rule, key, text)
    r.gaps += list(dict.fromkeys(c.gaps + gaps)) + ['%s (%d times)' % x for x in E.gaps.items()]
    for rule, n in FLOORS[r.pid].items():
        r.floor(rule, n)
    r.analysed['functions'] = sorted({E.bodies[i]['name'] for i in E.analysed})
    r.analysed['call_sites'] = E.callsites
    r.analysed['steps'] = E.steps
    r.analysed['loops'] = len(E.loops)
    r.analysed['paths'] = c.paths
    return 'other'
