"""Comparison of handler outcomes with a specification: expected field changes, packets, tasks and events."""
import codec
import models
from engine import I, I0, I1, AnalysisError, add, sub, lin
from world import World, Ctx, explore, Dead, MANDATORY, MAX_DATA

SILENT = {'loop', 'hm-item', 'hm-end', 'lock', 'unlock', 'map-insert', 'map-replace', 'map-remove', 'map-elem-drop',
          'map-drop', 'map-drain', 'channel', 'poll-fn', 'select', 'estimate', 'it-all'}

# property of a state field when nothing allows it to change
FIELD_PROPS = {
    ('session', 'state'): ('C02',), ('session', 'ranging_task'): ('C04',), ('session', 'sequence_number'): ('C16',),
    ('session', 'data'): ('C15',), ('session', 'id'): ('C08',), ('session', 'device_handle'): ('C08',),
    ('session', 'session_type'): ('C08',), ('session', 'tx'): ('C08',),
    ('device', 'state'): ('C05',), ('device', 'n_active_sessions'): ('C05',), ('device', 'is_reset'): ('C06',),
    ('device', 'handle'): ('C19',), ('device', 'mac_address'): ('C06',), ('device', 'tx'): ('C06',),
    ('device', 'pica_tx'): ('C06',), ('device', 'config.low_power_mode'): ('C11',),
    ('device', 'country_code'): ('C11',), ('device', 'sessions'): ('C08',),
    ('pica', 'counter'): ('C19',), ('anchor', 'handle'): ('C19',), ('anchor', 'mac_address'): ('C19',),
}


class Findings:
    """Obligations and violations by property."""

    def __init__(self):
        self.ob = {}
        self.viol = {}

    def ok(self, props, rule, what=''):
        for p in props:
            o = self.ob.setdefault(p, {}).setdefault(rule, [0, []])
            o[0] += 1
            if what and len(o[1]) < 4 and what not in o[1]:
                o[1].append(what)

    def bad(self, props, rule, key, text):
        for p in props:
            o = self.ob.setdefault(p, {}).setdefault(rule, [0, []])
            o[0] += 1
            self.viol.setdefault(p, {}).setdefault((rule, key), text)

    def merge(self, other):
        for p, rules in other.ob.items():
            for rule, (n, samples) in rules.items():
                o = self.ob.setdefault(p, {}).setdefault(rule, [0, []])
                o[0] += n
                o[1] += [x for x in samples if x not in o[1]][:max(0, 4 - len(o[1]))]
        for p, v in other.viol.items():
            for k, text in v.items():
                self.viol.setdefault(p, {}).setdefault(k, text)

    def check(self, cond, props, rule, key, text):
        if cond:
            self.ok(props, rule, key)
        else:
            self.bad(props, rule, key, text)
        return cond


class Task:
    """What a spawned task does: ('send', delayed, chan, value) | ('timer', sleeps, sends) | ('repeat', count, chsend) |
    ('other', reason)."""

    def __init__(self, W, tid):
        t = W.E.tasks[tid]
        self.tid, self.t, self.W = tid, t, W
        self.where = ' < '.join('%s:%s' % x for x in reversed(t['stack'][-3:]))
        self.kind, self.data = self.classify()

    def classify(self):
        E, t = self.W.E, self.t
        outs = t['outs']
        if outs is None:
            return 'other', 'not analysable'
        if any(k == 'unk' for k, _, _ in outs):
            return 'unknown', 'beyond the analysis'
        if any(k == 'panic' for k, _, _ in outs):
            return 'panic', [o[2] for o in outs if o[0] == 'panic'][0]
        loops = [l for l in t['loops'] if not self.idle(l)]
        rets = [o for o in outs if o[0] == 'ret']
        if not rets and loops:
            # endless: the outermost loop is the one no other loop's body mentions
            seqs = []
            for l in loops:
                for B in E.loops[l].backs:
                    seqs.append(tuple(e for e in B.log[E.loops[l].mlog:] if e[0] not in SILENT))
            return 'endless', seqs
        logs = {tuple(e for e in o[1].log if e[0] not in SILENT) for o in rets}
        if len(logs) == 1 and not any(e[0] == 'loop' and not self.idle(e[1]) for o in rets for e in o[1].log):
            return 'once', list(logs)[0]
        lids = {e[1] for o in rets for e in o[1].log if e[0] == 'loop' and not self.idle(e[1])}
        if len(lids) == 1 and all(not l for l in logs):
            info = E.loops[lids.pop()]
            return 'repeat', (info, [tuple(e for e in B.log[info.mlog:] if e[0] not in SILENT) for B in info.backs])
        return 'other', 'several behaviours'


    def idle(self, l):
        """A loop without iterations that do anything (polling a future)."""
        info = self.W.E.loops[l]
        return not info.backs


class Exp:
    """Expected effects of one command on one path."""

    def __init__(self, c, dev=None):
        self.c = c
        self.fields = {}      # (path, field) -> (value | callable, props)
        self.new, self.gone = {}, {}
        self.rsp = None       # packet value | callable
        self.rsp_any = False  # one packet to the host is allowed
        self.ntf = []         # (kind, chan, packet bytes, props, text)
        self.tasks = []       # (kind, predicate, props, text)
        self.aborts = []      # (handle, props)
        self.events, self.oneshots = [], []
        self.loops = {}       # lid -> handled
        self.bumped = {}
        self.sends = []
        self.lax = set()
        self.rsp_props = None
        self.lost = False     # the expectation could not be established

    def set(self, path, field, value, *props):
        self.fields[(path, field)] = (value, props)


# what a command is specified to affect is part of the property about that command: (start of the context, rules, properties)
CONTEXT = (
    ('in-band stop', None, ('C13',)),
    ('CoreDeviceResetCmd', None, ('C06',)),
    ('SessionUpdateControllerMulticastListCmd', ('frame',), ('C12',)),
    ('SessionSetAppConfigCmd', ('frame',), ('C09',)),
    ('CoreSetConfigCmd', ('frame',), ('C11',)),
    ('CoreGetConfigCmd', ('frame',), ('C11',)),
    ('CoreGetDeviceInfoCmd', ('frame',), ('C11',)),
    ('CoreGetCapsInfoCmd', ('frame',), ('C11',)),
    ('AndroidGetPowerStatsCmd', ('frame',), ('C11',)),
    ('SessionInitCmd', ('frame',), ('C08',)),
    ('SessionDeinitCmd', ('frame',), ('C08',)),
    ('packet for an unknown device', None, ('C07',)),
    ('response or notification from a host', None, ('C07',)),
    ('anchor', ('frame', 'event'), ('C19',)),
    ('connection', ('frame', 'event', 'task'), ('C20',)),
    ('disconnection', ('frame', 'event', 'task', 'effect'), ('C20',)),
)


class Judge:
    def __init__(self, W, F, what):
        self.W, self.E, self.F, self.what = W, W.E, F, what

    def where(self, S):
        return self.what

    def packet(self, c, name, **kw):
        E = self.E
        kw = {k: E.u8v(x) if False else x for k, x in kw.items()}
        return codec.encode(E, c.S, name, codec.make(E, name, **kw))

    def ev(self, enum, tag):
        return codec.enum_val(self.E, enum, tag)

    def bad(self, props, rule, what, text):
        if rule != 'invariant':
            for start, rules, more in CONTEXT:
                if self.what.startswith(start) and (rules is None or rule in rules) and not self.what.endswith('before reset'):
                    props = tuple(props) + more
            if self.what.endswith('before reset'):
                props = tuple(props) + ('C06',)
        props = tuple(dict.fromkeys(props))
        self.F.bad(props, rule, '%s: %s' % (self.what, what), text)

    def ok(self, props, rule):
        self.F.ok(props, rule, self.what)

    def check(self, cond, props, rule, what, text=''):
        if cond:
            self.ok(props, rule)
        else:
            self.bad(props, rule, what, text or what)
        return cond

    # --- effects of an outcome
    def effects(self, S, base=None, start=0):
        """(main events in order, loop ids entered)"""
        evs, loops = [], []
        for e in S.log[start:]:
            if e[0] == 'loop':
                loops.append(e[1])
                evs.append(e)
            elif e[0] not in SILENT:
                evs.append(e)
        return evs, loops

    def loop_effects(self, lid):
        """Per iteration: (state, events, deltas relative to the loop head)."""
        info = self.E.loops[lid]
        out = []
        for B in info.backs:
            evs, _ = self.effects(B, start=info.mlog)
            out.append((B, evs, self.W.deltas(B, info.head)))
        return info, out

    # --- comparison
    def verify(self, c, X, own_tx, start=0, deltas=None):
        """Compare everything the outcome c.S did (since the state c.base) with expectation X."""
        W, E, S = self.W, self.E, c.S
        if deltas is None:
            deltas = W.deltas(S, c.base)
        seen = set()
        for d in deltas:
            if d[0] == 'field':
                _, path, name, a, b = d
                self.field(c, X, path, name, a, b, seen)
            elif d[0] == 'new':
                if d[1] in X.new:
                    f, props = X.new[d[1]]
                    seen.add(d[1])
                    f(d[2])
                else:
                    self.bad(self.obj_props(d[1]), 'frame', 'creates %s' % W.show_path(d[1]), 'unexpected new %s' % (d[1][0],))
            elif d[0] == 'gone':
                if d[1] in X.gone:
                    seen.add(d[1])
                else:
                    self.bad(self.obj_props(d[1]), 'frame', 'removes a %s' % d[1][0], 'unexpected removal of %s' % W.show_path(d[1]))
            elif d[0] == 'bumped':
                if d[1] not in X.bumped:
                    self.bad(('C29',), 'frame', 'a loop changes elements of %s' % W.show(d[1]), 'unexpected')
        for (path, name), (v, props) in X.fields.items():
            if (path, name) in seen:
                continue
            cur = self.current(c, path, name)
            if cur is None:
                self.bad(props, 'effect', '%s of %s' % (name, path[0]), 'the object is gone')
            elif callable(v):
                r = v(cur)
                self.check(r is True, props, 'effect', '%s.%s' % (path[0], name),
                           '%s is %s: %s' % (name, W.show(cur), r))
            else:
                self.check(c.must_eq(cur, v), props, 'effect', '%s.%s' % (path[0], name),
                           '%s is %s instead of %s' % (name, W.show(cur), W.show(v)))
        for path, (f, props) in X.new.items():
            if path not in seen:
                self.bad(props, 'effect', 'no new %s' % path[0], 'expected a new %s' % path[0])
        for path, props in X.gone.items():
            self.check(path in seen, props, 'effect', '%s is not removed' % path[0])
        self.ok(('C29',), 'frame')
        self.invariants(c, deltas)
        # events
        evs, loops = self.effects(S, start=start)
        self.events(c, X, evs, own_tx)
        for lid in loops:
            if lid in X.loops:
                continue
            info, its = self.loop_effects(lid)
            for B, bevs, bd in its:
                for e in bevs:
                    if e[0] != 'loop':
                        self.bad(self.event_props(e), 'effect', 'loop at %s:%s performs %s' % (info.where[0], info.where[1], e[0]), 'unexpected effect in a loop')
                for d in bd:
                    # a field that is to change is judged by its value in the end
                    if d[0] != 'bumped' and not (d[0] == 'field' and (d[1], d[2]) in X.fields):
                        self.bad(('C29',), 'frame', 'loop at %s changes %s' % (info.fn, d[1][0]), str(d[2])[:100])

    # --- invariants the analysis assumes of the entry state
    def invariants(self, c, deltas):
        """Every object the outcome changed or created satisfies the invariants again."""
        W, E = self.W, self.E
        for d in deltas:
            if d[0] != 'field' and d[0] != 'new' or d[1][0] == 'pica':
                continue
            path, kind = d[1], d[1][0]
            only = None if d[0] == 'new' else d[2]
            for inv, deps, props, text, pred in INV_CHECKS.get(kind, ()):
                if inv != 'session-bytes' and only is not None and only not in deps:
                    continue
                if inv == 'session-bytes':
                    deps = ['app_config.' + n for n in W.byte_lists()]
                    if only is not None and only not in deps:
                        continue
                k = (path, inv)
                if k in c.__dict__.setdefault('inv_done', set()):
                    continue
                c.inv_done.add(k)
                get = lambda n: self.current(c, path, n)
                for c2, r in explore(W, c.S, lambda c2: pred(W, c2, path, lambda n: self.current(c2, path, n)), base=c.base):
                    self.check(r, props + ('C01',), 'invariant', inv, text)

    def obj_props(self, path):
        return {'session': ('C08', 'C29'), 'device': ('C20', 'C29'), 'anchor': ('C19', 'C29')}.get(path[0], ('C29',))

    def event_props(self, e):
        if e[0] == 'send':
            return ('C07',)
        if e[0] == 'spawn':
            t = Task(self.W, e[1])
            if t.kind == 'once' and any(x[0] == 'chsend' for x in t.data):
                return ('C13', 'C29')
            if t.kind == 'endless':
                return ('C04',)
            if t.kind == 'repeat':
                return ('C13', 'C29')
            if t.kind == 'once':
                p = self.ntf_kind([x for x in t.data if x[0] == 'send'])
                return {'session': ('C03',), 'device': ('C05',), 'multicast': ('C12',)}.get(p, ('C07',))
            return ('C07',)
        return {'event': ('C20',), 'oneshot': ('C19',), 'abort': ('C04',), 'chsend': ('C13', 'C29', 'C21'), 'sleep': ('C21',),
                'blocking': ('C21',), 'deadlock': ('C21',)}.get(e[0], ('C07',))

    def ntf_kind(self, sends):
        if len(sends) != 1:
            return None
        parts = self.E.seq_parts(sends[0][2])
        if len(parts) < 2 or parts[0][0] != 'e' or parts[1][0] != 'e':
            return None
        b0, b1 = parts[0][1], parts[1][1]
        if b0[0] != 'i' or b1[0] != 'i':
            return None
        mt, gid, oid = b0[1] >> 5, b0[1] & 15, b1[1] & 63
        if mt != 3:
            return None
        return {(0, 1): 'device', (1, 2): 'session', (1, 7): 'multicast'}.get((gid, oid))

    def current(self, c, path, name):
        W, E, S = self.W, self.E, c.S
        if path[0] == 'pica':
            return W.f(S.mem.get(W.root) or W.pv, name)
        mid = {'device': W.devices, 'anchor': W.anchors}.get(path[0])
        if mid is None:
            mid = W.f(W.init_elem(W.devices, 0, path[1]), 'sessions')
        key = path[-1]
        m = S.maps.get(mid)
        if m is not None and key in m.entries and not m.entries[key][0]:
            return None
        v = None
        for ver in ([m.ver] if m else []) + [c.ver(mid), 0]:
            v = v or S.mem.get(('E', mid, ver, key))
        v = v or W.init_elem(mid, c.ver(mid), key)
        if name.startswith('app_config.'):
            v, name = W.f(v, 'app_config'), name[11:]
        elif name.startswith('config.'):
            v, name = W.f(v, 'config'), name[7:]
        if v[0] == 's' and W.tname.get(v[1]) is None:
            raise AnalysisError('field of %s' % E.T[v[1]]['s'])
        return W.f(v, name)

    def field(self, c, X, path, name, a, b, seen):
        W = self.W
        exp = X.fields.get((path, name))
        if exp is None and name.startswith('app_config.') and (path, 'app_config') in X.fields:
            return
        if exp is None:
            if c.must_eq(a, b):
                return
            props = FIELD_PROPS.get((path[0], name))
            if props is None:
                props = ('C09',) if name.startswith('app_config') else ('C29',)
            if path != X.own and path != X.own_session and path[0] in ('device', 'session'):
                props = tuple(props) + ('C29',)
            self.bad(props, 'frame', '%s.%s changes' % (path[0], name),
                     'unexpected change of %s.%s from %s to %s' % (path[0], name, W.show(a), W.show(b)))
            return
        seen.add((path, name))
        v, props = exp
        if callable(v):
            r = v(b)
            self.check(r is True, props, 'effect', '%s.%s' % (path[0], name), '%s becomes %s: %s' % (name, W.show(b), r))
        else:
            self.check(c.must_eq(b, v), props, 'effect', '%s.%s' % (path[0], name),
                       '%s becomes %s instead of %s' % (name, W.show(b), W.show(v)))

    def events(self, c, X, evs, own_tx):
        W, E = self.W, self.E
        sends = [(i, e) for i, e in enumerate(evs) if e[0] == 'send']
        # response
        rsp_at = None
        rest = []
        for i, e in sends:
            if X.rsp is None and X.rsp_any and rsp_at is None and c.must_eq(e[1], own_tx):
                rsp_at = i
            elif X.rsp is not None and rsp_at is None and c.must_eq(e[1], own_tx):
                rsp_at = i
                self.response(c, X, e[2])
            else:
                rest.append((i, e))
        if X.rsp is not None:
            self.check(rsp_at is not None, ('C07',) + tuple(X.rsp_props), 'response', 'no response',
                       'no response is queued for the host')
        for i, e in rest:
            m = [k for k, (ch, val, props) in enumerate(X.sends) if c.must_eq(e[1], ch) and c.must_eq(e[2], val)]
            if m:
                self.ok(X.sends[m[0]][2], 'send')
                X.sends.pop(m[0])
                continue
            own = c.must_eq(e[1], own_tx) if own_tx is not None else False
            kind = self.ntf_kind([e])
            props = {'session': ('C03', 'C07'), 'device': ('C05', 'C07'), 'multicast': ('C12', 'C07')}.get(kind, ('C07',))
            if not own:
                props = props + ('C29',)
            self.bad(props, 'response', 'extra packet', 'a packet that is not the response is queued: %s to %s' % (
                W.show(e[2])[:200], W.show(e[1])))
        for ch, val, props in X.sends:
            self.bad(props, 'send', 'missing packet', 'packet %s is not sent' % W.show(val)[:200])
        # tasks
        spawns = [(i, Task(W, e[1])) for i, e in enumerate(evs) if e[0] == 'spawn']
        want = list(X.tasks)
        if any(t.kind == 'unknown' for _, t in spawns):
            # a task that is beyond the analysis: the tasks of this path are not judged
            W.E.gaps['task'] = W.E.gaps.get('task', 0) + 1
            spawns, want = [], []
        for i, t in spawns:
            if t.kind == 'panic':
                self.bad(('C01',), 'panic', 'spawned task at %s' % t.where, 'task panics: %s' % (t.data,))
            hit = None
            near = None
            for k, (kind, pred, props, text) in enumerate(want):
                r = pred(c, t)
                if r is True:
                    hit = k
                    break
                if r is not None and near is None:
                    near = (k, r)
            if hit is None and near is not None:
                k, r = near
                kind, pred, props, text = want[k]
                self.bad(props, 'task', text, '%s: %s (spawned at %s)' % (text, r, t.where))
                want.pop(k)
                continue
            if hit is None:
                self.bad(self.event_props(('spawn', t.tid)), 'task', 'unexpected task %s' % t.kind,
                         'unexpected task spawned at %s: %s' % (t.where, str(t.data)[:200]))
                continue
            kind, pred, props, text = want.pop(hit)
            self.ok(props, 'task')
            if kind == 'ntf' and rsp_at is not None and i < rsp_at:
                delayed = t.data and t.data[0][0] == 'sleep'
                self.check(delayed, ('C07',), 'order', 'notification before the response',
                           '%s is sent by a task that may overtake the response (%s)' % (text, t.where))
        for kind, pred, props, text in want:
            self.bad(props, 'task', 'missing: ' + text, 'no task does: ' + text)
        # aborts
        aborts = [e for e in evs if e[0] == 'abort']
        wa = list(X.aborts)
        for e in aborts:
            m = [k for k, (h, props) in enumerate(wa) if c.must_eq(e[1], h)]
            if m:
                self.ok(wa[m[0]][1], 'timer')
                wa.pop(m[0])
            else:
                self.bad(('C04',), 'timer', 'aborts another task', 'unexpected abort of %s' % W.show(e[1]))
        for h, props in wa:
            self.bad(props, 'timer', 'timer keeps running', 'the ranging timer is not cancelled')
        for e in evs:
            if e[0] in ('send', 'spawn', 'abort', 'loop'):
                continue
            if e[0] == 'event':
                m = [k for k, (v, props) in enumerate(X.events) if c.must_eq(e[2], v)]
                if m:
                    self.ok(X.events[m[0]][1], 'event')
                    X.events.pop(m[0])
                else:
                    self.bad(('C20',), 'event', 'unexpected event', 'unexpected event %s' % W.show(e[2]))
            elif e[0] == 'oneshot':
                m = [k for k, (ch, v, props) in enumerate(X.oneshots) if c.must_eq(e[1], ch) and c.must_eq(e[2], v)]
                if m:
                    self.ok(X.oneshots[m[0]][2], 'answer')
                    X.oneshots.pop(m[0])
                else:
                    self.bad(('C19',), 'answer', 'unexpected answer', 'unexpected answer %s' % W.show(e[2]))
            elif e[0] in ('await-locked', 'deadlock', 'blocking', 'sleep', 'chsend', 'recv'):
                self.bad(('C21',), 'blocking', '%s in a handler' % e[0], 'a command handler performs %s' % e[0])
            elif e[0] in ('join',) or e[0] in X.lax:
                pass
            else:
                self.bad(('C29',), 'effect', 'effect %s' % e[0], 'unexpected effect %s' % (e[0],))
        for v, props in X.events:
            self.bad(props, 'event', 'missing event', 'event %s is not announced' % W.show(v))
        for ch, v, props in X.oneshots:
            self.bad(props, 'answer', 'missing answer', 'answer %s is not sent' % W.show(v))

    def response(self, c, X, val):
        W, E = self.W, self.E
        if callable(X.rsp):
            return X.rsp(val)
        exp, props = X.rsp, X.rsp_props
        if c.must_eq(val, exp):
            self.ok(('C07',), 'response')
            self.ok(props, 'response')
            return
        pa, pb = E.seq_parts(val), E.seq_parts(exp)
        hd = self.header(c, val)
        if hd is None or self.header(c, exp) is None or not all(c.must_eq(x, y) for x, y in zip(hd, self.header(c, exp))):
            self.bad(('C07',) + tuple(p for p in props if p == 'C06'), 'response', 'response identification',
                     'the response %s does not carry the expected type, group and opcode (%s)' % (W.show(val)[:160], W.show(exp)[:160]))
            return
        self.ok(('C07',), 'response')
        self.bad(props, 'response', 'response contents', 'the response is %s instead of %s' % (W.show(val)[:240], W.show(exp)[:240]))

    def header(self, c, val):
        """(mt, gid, oid) of a control packet value."""
        E = self.E
        try:
            parts = E.seq_parts(val)
            b0, b1 = E.index_parts(c.S, parts, I0), E.index_parts(c.S, parts, I1)
        except AnalysisError:
            return None
        return (E.bits(c.S, b0, 5, 3, E.U8), E.bits(c.S, b0, 0, 4, E.U8), E.bits(c.S, b1, 0, 6, E.U8))


def _len(W, c, v):
    return W.E.norm_int(c.S, W.E.seq_len(v))


def _timer(W, c, path, g):
    return c.is_(g('state'), 'SessionStateActive') == c.is_(g('ranging_task'), 'Some')


def _config(W, c, path, g):
    return c.is_(g('state'), 'SessionStateInit') or all(c.must_be(g('app_config.' + m), 'Some') for m in MANDATORY)


def _type(W, c, path, g):
    return c.is_(g('state'), 'SessionStateInit') or c.must_be(g('session_type'), 'FiraRangingSession', 'FiraRangingAndInBandDataSession')


def _count(W, c, path, g):
    return c.is_(g('state'), 'DeviceStateReady') == c.le(g('n_active_sessions'), I0)


def _eqf(name):
    return lambda W, c, path, g: c.must_eq(g(name), path[-1])


# (invariant, fields it depends on, properties, text, predicate)
INV_CHECKS = {
    'device': (
        ('device-handle', ('handle',), ('C19',), 'a device is stored under another handle', _eqf('handle')),
        ('device-state', ('state', 'n_active_sessions'), ('C05',), 'device state and count of active sessions disagree', _count),
        ('device-states', ('state',), ('C05',), 'the device state is neither READY nor ACTIVE',
         lambda W, c, path, g: c.must_be(g('state'), 'DeviceStateReady', 'DeviceStateActive')),
        ('device-channel', ('pica_tx',), ('C04', 'C13'), 'the device sends its events elsewhere',
         lambda W, c, path, g: c.must_eq(g('pica_tx'), W.command_tx)),
    ),
    'session': (
        ('session-id', ('id',), ('C08',), 'a session is stored under another id', _eqf('id')),
        ('session-device', ('device_handle',), ('C08',), 'a session names another device',
         lambda W, c, path, g: c.must_eq(g('device_handle'), path[1])),
        ('session-state', ('state',), ('C02',), 'the session state is neither INIT, IDLE nor ACTIVE',
         lambda W, c, path, g: c.must_be(g('state'), 'SessionStateInit', 'SessionStateIdle', 'SessionStateActive')),
        ('session-timer', ('state', 'ranging_task'), ('C04',), 'a session without its timer, or a timer without a session', _timer),
        ('session-config', ('state',) + tuple('app_config.' + m for m in MANDATORY), ('C09',),
         'a configured session lacks a mandatory parameter', _config),
        ('session-type', ('state', 'session_type'), ('C09',), 'a configured session of an unsupported type', _type),
        ('session-data', ('data',), ('C15',), 'more data is buffered than one message carries',
         lambda W, c, path, g: W.E.prove_le(c.S, _len(W, c, g('data')), I(MAX_DATA))),
        ('session-bytes', (), ('C10',), 'a parameter longer than 255 bytes is stored',
         lambda W, c, path, g: all(W.bytes_fit(c.S, g('app_config.' + n)) for n in W.byte_lists())),
        ('session-dst', ('app_config.dst_mac_address',), ('C12',), 'the destination list does not fit in a parameter',
         lambda W, c, path, g: W.addresses_fit(c.S, g('app_config.dst_mac_address'))),
    ),
    'anchor': (
        ('anchor-handle', ('handle',), ('C19',), 'the handle of an anchor is not below the counter',
         lambda W, c, path, g: W.E.prove_le(c.S, add(g('handle'), I1), W.f(c.S.mem.get(W.root) or W.pv, 'counter'))),
        ('anchor-address', ('mac_address',), ('C19',), 'an anchor is stored under another address', _eqf('mac_address')),
    ),
}
