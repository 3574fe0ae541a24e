"""C24, C25: what the HTTP server does (see web.py and geometry.py)."""
import spec
import web

RULES = {
    'route': 'a path is answered by the route it names, an unknown one with 404',
    'no effect': 'a request that only asks, is refused or fails has no effect on the scene, the event bus and the emulator',
    'refusal': 'an address or body that does not parse is refused with 406',
    'command': 'exactly one command of the right kind, for the requested address, is submitted with an answer channel of its own',
    'answer': 'the status code is the one for the answer of the emulator: 200, 404, 409, or 500 without an answer',
    'scene': 'the scene gains or loses exactly the device concerned, under the handle of the emulator',
    'event': 'exactly one event of the right kind with the right fields is emitted',
    'move': 'exactly the device with the requested address gets the requested position, or the request is answered with 404',
    'neighbors': 'each other device is reported once per direction with the measurement of that direction',
    'state': 'get-state answers with the list of all devices of the scene',
    'events': 'every event is sent with its name and JSON data',
    'static': 'every static file is served with its content and type',
    'follow': 'the task that follows the emulator\'s events goes on until the channel is closed',
    'estimate': 'the estimator reports the measurement between the positions of the two handles, and nothing for unknown handles',
    'panic': 'no feasible path panics',
    'symmetric': 'the reported distance does not depend on the direction',
    'locks': 'no lock is acquired twice or held across an await point, and no call blocks',
    'lookup': 'a device is looked up by a pass over all devices',
}
# about a third of the instances on the tree the check was written for
FLOORS = {
    'C24': {'no effect': 30, 'refusal': 4, 'command': 30, 'answer': 10, 'scene': 3, 'event': 8, 'move': 8, 'neighbors': 8, 'state': 1,
            'events': 2, 'static': 6, 'follow': 2, 'estimate': 3, 'route': 1},
    'C25': {'panic': 20, 'locks': 15, 'answer': 1, 'follow': 1},
}


def run(r):
    r.explanation = ('All paths of the HTTP request handler (every path, body, scene and answer of the emulator), of the task that follows '
                     'the emulator\'s events and of the measurement estimator were interpreted abstractly (compiler MIR of the current '
                     'tree). The assertions of the geometry functions are decided in an interval domain over the signs of the components.')
    r.assumptions += [
        'hyper, serde_json, tokio, glam and std behave as documented (models.py, http_models.py)',
        'a body that cannot be received may be answered with any error status',
        'a quotient of two components does not round across a multiple of half a degree beyond the bounds of the arc tangent',
    ]
    F = spec.Findings()
    h = web.Http(web.Web(), F).run()
    E = h.E
    viol = F.viol.get(r.pid, {})
    for rule, (n, samples) in sorted(F.ob.get(r.pid, {}).items()):
        r.rule(rule, RULES.get(rule, ''))
        r.ob[rule] = [max(0, n - len([k for k in viol if k[0] == rule])), list(samples)]
    for (rule, key), text in viol.items():
        r.bad(rule, key, text)
    r.gaps += list(dict.fromkeys(h.gaps)) + ['%s (%d times)' % x for x in E.gaps.items()]
    for rule, n in FLOORS[r.pid].items():
        r.floor(rule, n)
    r.analysed['functions'] = sorted({E.bodies[i]['name'] for i in E.analysed})
    r.analysed['call_sites'] = E.callsites
    r.analysed['steps'] = E.steps
    r.analysed['loops'] = len(E.loops)
    r.analysed['paths'] = h.paths
    return 'other'
