#!/usr/bin/env python3
"""Write MANIFEST.json."""
import json
import os

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
PDL = 'abstract interpretation of the Python syntax trees, compared with the packet description'
ABS = ('path-sensitive abstract interpretation of the compiler\'s MIR (interprocedural, loops solved to a fixpoint), each '
       'outcome compared with the specified outcome')
NOTE = ('Every path of every command handler, from an arbitrary state satisfying the listed invariants (which each outcome '
        're-establishes) and for arbitrary packet bytes. Trusts the models of std/tokio and the PDL-generated codec; paths '
        'using constructs without a model would be listed as not decided (none on this tree).')
CLAIMED = {
    'C26': (PDL,
            'All encoders and parsers of the bindings are interpreted abstractly on every path and compared field by '
            'field with the packet description. Trusts the Python ast module and the analyser; assumes the PDL '
            'compiler generates the Rust codec the description says.'),
    'C28': ('abstract interpretation of the Python client (loop progress and consumed-length analysis)',
            'Every path of the client\'s read functions is interpreted for all lengths and segment sequences; assumes '
            'asyncio StreamReader.read returns at most the requested bytes and b"" only at end of stream.'),
}
CONN = ('Every path of the reader and writer tasks of a connection, of the functions that exchange one segment with a socket '
        'and of the capture file writer, between two receptions, for arbitrary packets; what earlier iterations did is a loop '
        'invariant proved by induction. Trusts the models of std/tokio/futures and the PDL-generated codec.')
for _i in (17, 18, 22, 23):
    CLAIMED['C%02d' % _i] = (ABS, CONN)
WEB = ('Every path of the request handler, of the task that follows the emulator\'s events and of the estimator, for every request '
       'path, body, scene and answer; geometry assertions in an interval domain. Trusts the models of hyper, serde_json, tokio, '
       'glam and std.')
for _i in (24, 25):
    CLAIMED['C%02d' % _i] = (ABS, WEB)
CLAIMED['C21'] = (ABS + '; may-be-held lock dataflow at every await point; call graph search for blocking operations',
                  NOTE + ' Both event loops and the constructor of the emulator are interpreted as well; the lock dataflow and the call '
                  'graph cover the library and both binaries.')
for _i in (*range(1, 17), 19, 20, 29):
    CLAIMED['C%02d' % _i] = (ABS, NOTE)
CLAIMED['C27'] = ('abstract interpretation of the MIR of the HTTP server and its serde implementations; flow analysis of the syntax trees of '
                  'the JavaScript and Python clients and of the API document, compared with it',
                  'Every request, listener, field read, loaded file and name of the bindings in the clients. The analysis of the clients is '
                  'flow-insensitive; a path, event name or body that is computed beyond its reach is listed as not decided (none on this '
                  'tree). Trusts acorn, the Python ast and yaml modules and the models of hyper, serde and std.')
NA = {
    'N01': 'The conversion is a numeric and textual computation (hex digits, upper case, separators); no rule on the '
           'shape of the code is equivalent to the round trip for every address.',
    'N02': 'Floating-point geometry (square roots, rotations, arc tangents, rounding, saturation): numerical '
           'correctness is beyond what a sound static argument can bound here.',
    'N03': 'Order and time of delivery depend on the timers and scheduling of the runtime; static analysis cannot '
           'decide them.',
}


def main():
    ids = [json.loads(x)['id'] for x in open(os.path.join(HERE, 'properties.jsonl'))]
    checks, na = [], []
    for i in ids:
        if i in CLAIMED:
            t, n = CLAIMED[i]
            checks.append({'property': i, 'quick_cmd': 'python3 check.py %s' % i,
                           'thorough_cmd': 'python3 check.py %s' % i,
                           'technique': 'static analysis: ' + t, 'level': 'other', 'level_note': n})
        else:
            na.append({'property': i, 'reason': NA.get(i, 'Check under construction; not claimed yet.')})
    doc = {'version': 1, 'setup_cmd': 'bash setup.sh', 'checks': checks, 'not_applicable': na}
    with open(os.path.join(HERE, 'MANIFEST.json'), 'w') as f:
        json.dump(doc, f, indent=1)
        f.write('\n')


main()
