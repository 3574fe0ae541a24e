"""C01-C16, C19, C20, C29: the emulator's command dispatch compared with its specification.

Every command of the emulator is interpreted abstractly, from an arbitrary state that satisfies the invariants of
world.INVARIANTS and for an arbitrary packet, down to every path through the handlers.  Each outcome (state delta, queued
packets, spawned tasks, cancelled timers, announced events, answers) is compared with the outcome the specification
(uci.py, pica_spec.py, config_spec.py) demands under the same path condition, and the invariants are re-established."""
import time
import config_spec
import conn
import pica_spec
import spec
import uci
from engine import AnalysisError, I
from world import INVARIANTS, World, explore

BUDGET = 600
VARIANTS = ('Connect', 'Disconnect', 'CreateAnchor', 'DestroyAnchor', 'StopRanging', 'Ranging')
OTHERS = {'InitUciDevice', 'SetPosition'}

RULES = {
    'panic': 'no path of a command handler or of a task it spawns ends in a panic (index, arithmetic, unwrap, encode)',
    'invariant': 'every object an outcome changed or created satisfies the assumed invariants again',
    'frame': 'an outcome changes, creates and removes only the objects its command is specified to affect',
    'effect': 'each changed field holds the value the specification gives for this command and path condition',
    'response': 'exactly one response, with the specified type, group, opcode, status and contents',
    'order': 'what the response or announcement must precede cannot be sent before it',
    'task': 'each spawned task sends exactly the specified notification or event, and no other task is spawned',
    'timer': 'the ranging timer of a session is cancelled exactly when the session leaves ACTIVE',
    'cleanup': 'every session that goes away cancels its timer and queues its notification',
    'fold': 'a loop over the elements of a request computes, element by element, the specified result',
    'loop': 'a loop over devices or sessions affects exactly the specified ones',
    'send': 'each specified packet is queued on the specified channel',
    'report': 'a ranging round reports exactly the specified peers with the specified measurements',
    'delivery': 'in-band data goes exactly to the specified peers',
    'event': 'each specified event is announced once with the specified contents',
    'answer': 'the requester is answered exactly once with the specified result',
    'lookup': 'a lookup examines every stored object',
    'read-back': 'the value of a parameter that was set is the value that is read',
    'other-parameters': 'setting one parameter leaves the value of every other parameter as it was',
    'refused': 'a refused value changes nothing',
    'unset': 'a parameter that cannot be set cannot be read',
    'blocking': 'a command handler does not wait',
    'queued': 'every packet queued for a host has a header and a payload',
    'end': 'the tasks of a connection end when, and only when, something failed or ended, and end the connection',
    'forward': 'packets are forwarded to the emulator for the device of the connection',
}

# obligations below which a rule is regarded as not having been applied (about a third of the instances confirmed by hand)
FLOORS = {
    'C01': {'invariant': 50}, 'C02': {'effect': 7, 'response': 5}, 'C03': {'task': 10, 'cleanup': 2},
    'C04': {'timer': 7, 'effect': 6}, 'C05': {'effect': 12, 'task': 4}, 'C06': {'effect': 7, 'response': 34},
    'C07': {'response': 110}, 'C08': {'effect': 20, 'response': 10}, 'C09': {'fold': 1, 'response': 20},
    'C10': {'default': 60, 'read-back': 40, 'other-parameters': 20, 'refused': 30, 'unset': 10}, 'C11': {'response': 6, 'capabilities': 20},
    'C12': {'response': 40, 'effect': 20}, 'C13': {'task': 1, 'loop': 1}, 'C14': {'report': 1},
    'C15': {'effect': 1, 'delivery': 2, 'response': 3}, 'C16': {'effect': 1, 'response': 1}, 'C19': {'effect': 4, 'answer': 3},
    'C20': {'event': 1, 'effect': 2, 'task': 1}, 'C29': {'frame': 100},
}


class Analysis:
    def __init__(self):
        t = time.time()
        self.W = W = World()
        W.E.soft = True
        W.E.deadline = t + BUDGET
        self.F = F = spec.Findings()
        self.J = J = spec.Judge(W, F, '')
        self.U = U = uci.Uci(J)
        self.P = pica_spec.PicaSpec(J, U)
        self.paths = {}
        self.gaps = []
        W.E.send_hooks.append(self.queued)

    def queued(self, E, S, chan, v):
        """A packet is queued for a host: the writer relies on header and payload."""
        if E.prove_le(S, I(5), E.seq_len(v)):
            self.F.ok(('C17',), 'queued')
        else:
            self.F.bad(('C17',), 'queued', self.J.what, 'a packet without header or payload is queued: %s' % self.W.show(v))

    def commands(self):
        """Variants of PicaCommand in the current tree."""
        return [v['n'] for v in self.W.E.T[self.W.t['PicaCommand']]['v']]

    def variant(self, name):
        W = self.W
        self.J.what = name
        try:
            fs, outs = W.run(name)
        except (AnalysisError, IndexError, KeyError, TypeError, ValueError, AttributeError) as e:
            self.gap(name, e)
            return
        if name == 'UciPacket':
            fn = lambda c: self.U.packet(c, fs[0], fs[1])
        elif name in VARIANTS:
            fn = lambda c: getattr(self.P, name)(c, fs)
        else:
            self.F.bad(('C29',), 'frame', 'command %s' % name, 'the emulator has a command %s that is not specified' % name)
            return
        rets = 0
        for o in outs:
            if o[0] == 'panic':
                at = ' < '.join('%s:%s' % x for x in reversed(o[2]['stack'][-3:]))
                self.F.bad(('C01',), 'panic', '%s: %s at %s' % (name, o[2].get('what'), at), 'a handler panics: %s' % (o[2],))
                continue
            if o[0] == 'unk':
                self.gap(name, o[2])
                continue
            if o[0] != 'ret':
                self.F.bad(('C21',), 'blocking', name, 'the handler of %s suspends' % name)
                continue
            rets += 1
            self.F.ok(('C01',), 'panic')
            try:
                for c, _ in explore(W, o[1], fn):
                    self.paths[self.J.what] = self.paths.get(self.J.what, 0) + 1
            except (AnalysisError, IndexError, KeyError, TypeError, ValueError, AttributeError) as e:
                self.gap('%s (%s)' % (name, self.J.what), e)
        self.paths['[%s outcomes]' % name] = rets

    def gap(self, what, e):
        msg = e if isinstance(e, str) else str(e) if isinstance(e, AnalysisError) else 'internal %r' % (e,)
        self.gaps.append('%s: %s' % (what, msg))

    def config(self):
        self.J.what = 'configuration'
        try:
            config_spec.ConfigSpec(self.J, self.U).run()
        except (AnalysisError, IndexError, KeyError, TypeError, ValueError, AttributeError) as e:
            self.gap('configuration (%s)' % self.J.what, e)

    def everything(self, config=True):
        for v in self.commands():
            self.variant(v)
        if config:
            self.config()
        self.gaps += ['%s (%d times)' % x for x in self.W.E.gaps.items()]
        return self


def fill(r, A):
    """Move the findings of property r.pid into its report."""
    F, E = A.F, A.W.E
    ob, viol = F.ob.get(r.pid, {}), F.viol.get(r.pid, {})
    for rule, (n, samples) in sorted(ob.items()):
        bad = [k for k in viol if k[0] == rule]
        r.rule(rule, RULES.get(rule, ''))
        r.ob[rule] = [max(0, n - len(bad)), list(samples)]
    for (rule, key), text in viol.items():
        r.bad(rule, key, text)
    r.gaps += sorted(set(A.gaps))
    for rule, n in FLOORS.get(r.pid, {}).items():
        r.floor(rule, n)
    r.analysed['functions'] = sorted({E.bodies[i]['name'] for i in E.analysed})
    r.analysed['call_sites'] = E.callsites
    r.analysed['steps'] = E.steps
    r.analysed['loops'] = len(E.loops)
    r.analysed['paths'] = dict(sorted(A.paths.items()))


def run(r):
    r.explanation = ('All paths of every handler of the emulator\'s command loop were interpreted abstractly (compiler MIR of '
                     'the current tree) from an arbitrary state that satisfies the listed invariants, and every outcome '
                     'was compared with the outcome the specification gives under the same path condition.')
    r.assumptions += [
        'commands are processed one at a time, each to completion (C21)',
        'at most 128 hosts are connected at a time; fewer than 2^32 rounds and 2^63 handles',
        'the packet parsers and serializers generated by the PDL compiler implement the packet description; collections, '
        'channels and tasks of std and tokio behave as documented (models.py)',
    ] + ['invariant assumed and re-established: ' + t for t in INVARIANTS.values()]
    A = Analysis().everything(config=r.pid in ('C10', 'C01'))
    if r.pid in ('C01', 'C20', 'C29'):
        W = World()
        W.E.soft = True
        c = conn.Conn(W, A.F).run()
        A.gaps += c.gaps
        A.paths.update(c.paths)
    fill(r, A)
    return 'other'
