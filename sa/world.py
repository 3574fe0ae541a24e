"""The emulator's state for the abstract interpreter: entry states, assumed invariants, effects and state deltas.

An arbitrary `Pica` is a symbol; elements of its maps are symbols constrained by the invariants listed in
INVARIANTS when they are first looked at.  Every outcome of a handler is then compared with the specification
(spec_*.py) and the same invariants are re-established for every element the handler touched.
"""
import core
import codec
import models
from engine import Eng, St, I, I0, I1, UNIT, MVD, AnalysisError, add, sub, scale, contains, subst

FIELDS = {
    'Pica': ['counter:usize', 'devices:HashMap<usize, device::Device>', 'anchors:Anchor>',
             'command_tx:mpsc::Sender<PicaCommand>', 'event_tx:broadcast::Sender', 'ranging_estimator:dyn RangingEstimator',
             'pcapng_dir:PathBuf', 'command_rx:mpsc::Receiver'],
}

INVARIANTS = {
    'device-handle': 'a device is stored under its own handle, which is below the handle counter',
    'device-state': 'the device state is READY or ACTIVE, and ACTIVE exactly when its count of active sessions is not zero',
    'device-channel': 'a device sends ranging and in-band stop events to the emulator it belongs to',
    'session-count': 'a device has at most 255 sessions',
    'session-id': 'a session is stored under its own id, names its device and sends to the host of its device',
    'session-state': 'the session state is INIT, IDLE or ACTIVE',
    'session-timer': 'a session owns a ranging timer exactly when it is ACTIVE',
    'session-active': 'a device with an ACTIVE session counts it as active and is ACTIVE itself',
    'session-config': 'an IDLE or ACTIVE session has every mandatory parameter set',
    'session-type': 'an IDLE or ACTIVE session has a FiRa ranging type',
    'session-data': 'the data buffered by a session fits in one data message',
    'session-dst': 'the addresses of the destination list of a session fit in one parameter',
    'session-bytes': 'every other parameter of a session fits in one parameter',
    'anchor-handle': 'an anchor is stored under its own address and its handle is below the handle counter',
}

MANDATORY = ('device_role', 'multi_node_mode', 'ranging_round_usage', 'device_mac_address', 'schedule_mode')
MAX_DST = 255
MAX_DATA = 65535
MAX_PARAM = 255
MAX_HOSTS = 128


class Dead(Exception):
    """The current specification path is contradictory."""


class World:
    def __init__(self):
        E = self.E = core.engine()
        self.t = {}
        for n in ('Pica', 'device::Device', 'session::Session', 'app_config::AppConfig', 'Anchor', 'PicaCommand', 'PicaEvent',
                  'PicaCommandError', 'MacAddress', 'DeviceConfig'):
            t = E.adt('pica::' + n) or E.adt(n)
            if t is None:
                raise AnalysisError('type %s not found' % n)
            self.t[n.split('::')[-1]] = t['i']
        self.tname = {i: n for n, i in self.t.items()}
        self.fidx = {}
        b = self.dispatcher()
        self.entry = b
        self.self_ty = b['locals'][1]
        self.P = E.sym(self.self_ty, ('arg', 'pica', 0))
        self.root = ('D', self.P)
        self.pv = E.sym(self.t['Pica'], ('deref', self.P))
        f = lambda n: self.f(self.pv, n)
        self.devices, self.anchors, self.counter = f('devices'), f('anchors'), f('counter')
        self.command_tx, self.event_tx = f('command_tx'), f('event_tx')
        self.sess_i = self.fi('Device', 'sessions')
        E.init_elem = self.init_elem
        E.elem_hooks.append(self.hook)
        E.len_caps = {}
        self.dev_state = E.T[self.fty('Device', 'state')]
        self.names_cache = {}

    def dispatcher(self):
        """The function that handles one command."""
        T = self.E.T
        hits = [b for b in self.E.bodies.values() if b['argc'] == 2 and b['kind'] != 'coroutine' and b['locals'][2] == self.t['PicaCommand']
                and T[b['locals'][1]].get('k') == 'ref' and T[b['locals'][1]].get('to') == self.t['Pica'] and '{closure' not in b['name']]
        named = [b for b in hits if b['name'] == 'Pica::pica_command']
        hits = named or hits
        if len(hits) != 1:
            raise AnalysisError('function Pica::pica_command not found')
        return hits[0]

    # --- names
    def body(self, name):
        for b in self.E.bodies.values():
            if b['name'] == name:
                return b
        raise AnalysisError('function %s not found' % name)

    def fi(self, tn, name):
        """Index of a field, by name or else by its type when the field was renamed."""
        k = (tn, name)
        if k not in self.fidx:
            fs = self.E.fields(self.t[tn])
            idx = [i for i, (n, _) in enumerate(fs) if n == name]
            if not idx:
                want = FIELD_TYPES.get(k)
                known = {n for (t, n) in FIELD_TYPES if t == tn}
                idx = [i for i, (n, ty) in enumerate(fs)
                       if want and n not in known and self.E.T[ty]['s'] == want]
            if len(idx) != 1:
                raise AnalysisError('field %s.%s not found' % k)
            self.fidx[k] = idx[0]
        return self.fidx[k]

    def fty(self, tn, name):
        return self.E.fields(self.t[tn])[self.fi(tn, name)][1]

    def f(self, v, name, S=None):
        """Field of a struct value."""
        ty = v[1]
        i = self.fi(self.tname[ty], name)
        return v[3][i] if v[0] == 's' else self.E.sym_field(S, v, 0, i)

    def vi(self, ty, *names):
        return frozenset(self.E.variant_index(ty, n) for n in names)

    def vname(self, ty, i):
        return self.E.T[ty]['v'][i]['n']

    # --- initial elements and their invariants
    def mkind(self, mid):
        if mid == self.devices:
            return 'device'
        if mid == self.anchors:
            return 'anchor'
        if self.sess_parent(mid) is not None:
            return 'session'
        return None

    def sess_parent(self, mid):
        """Device symbol whose sessions map mid is."""
        if mid[0] == 'y' and mid[2][0] == 'fld' and mid[2][2] == self.sess_i and mid[2][1][0] == 'y' \
                and mid[2][1][1] == self.t['Device']:
            return mid[2][1]
        return None

    def elem_sym(self, mid, ver, key):
        return self.E.sym(self.E.map_kv(mid)[1], ('elem', mid, ver, key))

    def init_elem(self, mid, ver, key):
        E = self.E
        E.rty[mid] = E.map_kv(mid)[1] if mid[0] == 'y' else E.rty[mid]
        v = E.sym(E.rty[mid], ('elem', mid, ver, key))
        k = self.mkind(mid)
        if k is None or v[0] != 'y':
            return v
        tn = {'device': 'Device', 'anchor': 'Anchor', 'session': 'Session'}[k]
        fs = [E.sym_field(None, v, 0, i) for i in range(len(E.fields(v[1])))]
        if k == 'device':
            fs[self.fi(tn, 'handle')] = key
            fs[self.fi(tn, 'pica_tx')] = self.command_tx
        elif k == 'anchor':
            fs[self.fi(tn, 'mac_address')] = key
        else:
            d = self.sess_parent(mid)
            fs[self.fi(tn, 'id')] = key
            fs[self.fi(tn, 'device_handle')] = d[2][3] if d[2][0] == 'elem' else self.f(d, 'handle')
            fs[self.fi(tn, 'tx')] = self.f(d, 'tx')
        return ('s', v[1], 0, tuple(fs))

    def hook(self, E, S, mid, root, key):
        k = self.mkind(mid)
        if k is None:
            return True
        v = self.init_elem(mid, root[2], key)
        if k == 'anchor':
            return E.assume_le(S, add(self.f(v, 'handle'), I1), self.counter)
        if k == 'device':
            st, n = self.f(v, 'state'), self.f(v, 'n_active_sessions')
            ready, active = self.vi(st[1], 'DeviceStateReady'), self.vi(st[1], 'DeviceStateActive')
            return E.assume_le(S, add(key, I1), self.counter) \
                and E.assume_le(S, ('y', E.USIZE, ('maplen', mid, 0)), I(MAX_HOSTS)) and E.restrict(S, st, ready | active) \
                and E.assume_le(S, n, I(255)) \
                and E.add_imp(S, st, active, ('le', I1, n)) and E.add_imp(S, st, ready, ('le', n, I0)) \
                and E.assume_le(S, ('y', E.USIZE, ('maplen', self.f(v, 'sessions'), 0)), I(255))
        st, rt = self.f(v, 'state'), self.f(v, 'ranging_task')
        init, idle, act = (self.vi(st[1], 'SessionState' + x) for x in ('Init', 'Idle', 'Active'))
        none, some = self.vi(rt[1], 'None'), self.vi(rt[1], 'Some')
        d = self.sess_parent(mid)
        dst, dn = self.f(d, 'state'), self.f(d, 'n_active_sessions')
        ok = E.restrict(S, st, init | idle | act) \
            and E.add_imp(S, st, act, ('vs', rt, some)) and E.add_imp(S, st, init | idle, ('vs', rt, none)) \
            and E.add_imp(S, rt, some, ('vs', st, act)) and E.add_imp(S, rt, none, ('vs', st, init | idle)) \
            and E.add_imp(S, st, act, ('vs', dst, self.vi(dst[1], 'DeviceStateActive'))) \
            and E.add_imp(S, st, act, ('le', I1, dn)) \
            and E.add_imp(S, dst, self.vi(dst[1], 'DeviceStateReady'), ('vs', st, init | idle))
        sty = self.f(v, 'session_type')
        ok = ok and E.add_imp(S, st, idle | act, ('vs', sty, self.fira(sty[1])))
        cfg = self.f(v, 'app_config')
        for m in MANDATORY:
            o = self.f(cfg, m)
            ok = ok and E.add_imp(S, st, idle | act, ('vs', o, self.vi(o[1], 'Some')))
        return ok and E.assume_le(S, E.sym_len(self.f(v, 'data')), I(MAX_DATA)) \
            and E.assume_le(S, self.addresses_size(self.f(cfg, 'dst_mac_address')), I(MAX_DST)) \
            and all(E.assume_le(S, E.sym_len(self.f(cfg, n)), I(MAX_PARAM)) for n in self.byte_lists()) \
            and E.assume_le(S, scale(E.sym_len(self.f(cfg, 'dst_mac_address')), 2), I(MAX_DST)) \
            and E.assume_le(S, self.f(v, 'sequence_number'), I((1 << 32) - 2))

    def addresses_size(self, lst):
        """Number of bytes of a list of addresses."""
        ty = self.t['MacAddress']
        return ('y', self.E.USIZE, ('flen', lst, tuple(sorted(((self.E.variant_index(ty, n),), k)
                                                              for n, k in (('Short', 2), ('Extended', 8))))))

    def addresses_fit(self, S, v, assumed=()):
        """Is the size of address list v provably at most MAX_DST?  Loops by induction."""
        E, ty = self.E, self.t['MacAddress']
        parts = E.simp_parts(S, E.seq_parts(v))
        short = self.vi(ty, 'Short')

        def size(x):
            vs = frozenset((x[2],)) if x[0] == 's' else E.variants(S, x)
            return 2 if vs <= short else 8

        def part(p):
            if p[0] in ('e', 'rep'):
                return scale(E.part_len(p), size(p[1]))
            if p[1][0] == 'y' and p[1][2][0] == 'comp':
                return scale(E.part_len(p), size(p[1][2][1]))
            return scale(E.part_len(p), 8)
        tot = I0
        for p in parts:
            tot = add(tot, part(p))
        if E.prove_le(S, tot, I(MAX_DST)):
            return True
        if len(parts) != 1 or parts[0][0] != 'q':
            return False
        src = parts[0][1]
        if src[0] in ('v', 'a'):
            return src != v and self.addresses_fit(S, src, assumed)
        if src in assumed or E.prove_le(S, self.addresses_size(src), I(MAX_DST)):
            return True
        k = src[2]
        if k[0] == 'filt':
            return self.addresses_fit(S, k[1], assumed)
        base = self.subsequence(src)
        if base is not None and (base in assumed or self.addresses_fit(S, base, assumed + (src,))):
            return True
        return self.by_induction(src, lambda B, x: self.addresses_fit(B, x, assumed + (src,)))

    def subsequence(self, src):
        """The list whose items a loop selects, in order and at most once each, into src."""
        E = self.E
        if src[2][0] != 'phi' or src[2][1] not in E.loops:
            return None
        info = E.loops[src[2][1]]
        loc = next((loc for loc, ph in info.phis.items() if ph == src), None)
        if loc is None or E.seq_parts(E.load_loc(info.entry, loc)):
            return None
        base = pos = None
        for B in info.backs:
            v = E.load_loc(B, loc)
            if v == src:
                continue
            ps = E.seq_parts(v)
            if len(ps) != 2 or ps[0] != ('q', src, I0, E.sym_len(src)) or ps[1][0] != 'e':
                return None
            x = ps[1][1]
            if x[0] != 'y' or x[2][0] != 'idx' or base not in (None, x[2][1]) or pos not in (None, x[2][2]):
                return None
            base, pos = x[2][1:3]
        pl = next((loc for loc, ph in info.phis.items() if ph == pos), None)
        if pl is None or not all(E.prove_le(B, add(pos, I1 if E.load_loc(B, loc) != src else I0), E.load_loc(B, pl)) for B in info.backs):
            return None
        return base

    def by_induction(self, src, pred):
        """pred for a part of a loop variable: when the loop is entered and after every iteration."""
        E, root, proj = self.E, src, ()
        while root[0] == 'y' and root[2][0] == 'fld':
            root, proj = root[2][1], (('f', root[2][2]),) + proj
        if root[0] == 'y' and root[2][0] == 'phi' and root[2][1] in E.loops:
            info = E.loops[root[2][1]]
            for loc, ph in info.phis.items():
                if ph == root:
                    l2 = (loc[0], loc[1] + proj)
                    return all(pred(B, E.load_loc(B, l2)) for B in info.backs) and pred(info.entry, E.load_loc(info.entry, l2))
        return False

    def byte_lists(self):
        """Configuration fields that are lists of bytes."""
        E = self.E
        return [n for n, ty in E.fields(self.t['AppConfig'])
                if E.T[ty].get('path', '').endswith('vec::Vec') and E.T[E.elem_ty(ty)]['s'] == 'u8']

    def bytes_fit(self, S, v, assumed=()):
        """Is the length of a byte list provably at most MAX_PARAM?"""
        E = self.E
        if v in assumed or E.prove_le(S, E.seq_len(v), I(MAX_PARAM)):
            return True
        return v[0] == 'y' and self.by_induction(v, lambda B, x: self.bytes_fit(B, x, assumed + (v,)))

    def fira(self, ty):
        return self.vi(ty, 'FiraRangingSession', 'FiraRangingAndInBandDataSession')

    # --- entries
    def start(self):
        S = St()
        self.E.assume_le(S, self.counter, I((1 << 62)))
        return S

    def command(self, variant):
        """A symbolic PicaCommand of one variant: (value, field symbols)."""
        ty = self.t['PicaCommand']
        vi = self.E.variant_index(ty, variant)
        fs = tuple(self.E.sym(t, ('cmd', variant, i)) for i, (_, t) in enumerate(self.E.fields(ty, vi)))
        return ('s', ty, vi, fs), fs

    def run(self, variant, fix=None):
        """Outcomes of the emulator's command dispatch for one command variant."""
        S = self.start()
        v, fs = self.command(variant)
        if fix:
            fix(S, fs)
        outs = self.E.run_body(S, self.entry['id'], [self.P, v])
        return fs, outs

    # --- deltas
    def fdiff(self, S, old, new):
        """Names of the fields in which two struct values differ, with both values."""
        if old == new:
            return
        fs = self.E.fields(old[1])
        for i, (n, _) in enumerate(fs):
            a = old[3][i] if old[0] == 's' else self.E.sym_field(S, old, 0, i)
            b = new[3][i] if new[0] == 's' else self.E.sym_field(S, new, 0, i)
            if a == b or self.E.same(S, b, a) or self.E.same(S, a, b):
                continue
            yield n, a, b

    def deltas(self, S, base=None):
        """What changed between base (default: the entry state) and S.

        ('field', (object path), field, old, new) | ('new', path, value) | ('gone', path, old) | ('bumped', mid)
        where an object path is ('pica',), ('device', key), ('anchor', key) or ('session', devkey, key).
        """
        E = self.E
        out = []
        bp = (base.mem.get(self.root) if base else None) or self.pv
        cp = S.mem.get(self.root) or self.pv
        for n, a, b in self.fdiff(S, bp, cp):
            out.append(('field', ('pica',), n, a, b))
        for mid, m in S.maps.items():
            k = self.mkind(mid)
            if k is None:
                continue
            bm = base.maps.get(mid) if base else None
            bver = bm.ver if bm else 0
            if m.ver != bver:
                out.append(('bumped', mid))
            for key, (p, ip) in m.entries.items():
                path = self.path(mid, key)
                if m.ver == bver and bm and key in bm.entries:
                    p0 = bm.entries[key][0]
                else:
                    p0 = ip
                root = ('E', mid, m.ver, key)
                old = (base.mem.get(root) if base and m.ver == bver else None) or self.init_elem(mid, m.ver, key)
                if p0 and not p:
                    out.append(('gone', path, old))
                elif p and not p0:
                    out.append(('new', path, S.mem[root]))
                elif p:
                    new = S.mem.get(root)
                    if new is None or new == old:
                        continue
                    for n, a, b in self.fdiff(S, old, new):
                        if k == 'session' and n == 'app_config':
                            for n2, a2, b2 in self.fdiff(S, a, b):
                                out.append(('field', path, 'app_config.' + n2, a2, b2))
                        elif k == 'device' and n == 'config':
                            for n2, a2, b2 in self.fdiff(S, a, b):
                                out.append(('field', path, 'config.' + n2, a2, b2))
                        else:
                            out.append(('field', path, n, a, b))
        # elements of earlier versions of a map (items of an iteration over a map the loop changes)
        for root, new in S.mem.items():
            if root[0] != 'E' or self.mkind(root[1]) is None:
                continue
            _, mid, ver, key = root
            m = S.maps.get(mid)
            if m is not None and m.ver == ver:
                continue
            old = (base.mem.get(root) if base else None) or self.init_elem(mid, ver, key)
            if new == old:
                continue
            k, path = self.mkind(mid), self.path(mid, key)
            for n, a, b in self.fdiff(S, old, new):
                sub2 = {'session': 'app_config', 'device': 'config'}.get(k)
                for n2, a2, b2 in (self.fdiff(S, a, b) if n == sub2 else ()):
                    out.append(('field', path, n + '.' + n2, a2, b2))
                if n != sub2:
                    out.append(('field', path, n, a, b))
        return out

    def path(self, mid, key):
        k = self.mkind(mid)
        if k == 'session':
            d = self.sess_parent(mid)
            return ('session', d[2][3], key)
        return (k, key)

    # --- readable values
    def show_path(self, p):
        return p[0] + ''.join('[%s]' % self.show(x) for x in p[1:])

    def show(self, v, depth=0):
        if not isinstance(v, tuple) or not v:
            return str(v)
        E = self.E
        if v[0] == 'i':
            return str(v[1])
        if v[0] == 's':
            t = E.T[v[1]]
            if t['k'] == 'enum':
                n = t['v'][v[2]]['n']
                return n + ('(%s)' % ', '.join(self.show(x, depth + 1) for x in v[3]) if v[3] else '')
            if depth > 2:
                return t['s'].split('::')[-1]
            return '%s{%s}' % (t['s'].split('::')[-1], ', '.join(
                '%s: %s' % (f[0], self.show(x, depth + 1)) for f, x in zip(E.fields(v[1]), v[3])))
        if v[0] == 'l':
            return ' + '.join(([str(v[1])] if v[1] else []) + [
                (self.show(t, depth + 1) if k == 1 else '%d*%s' % (k, self.show(t, depth + 1))) for t, k in v[2]])
        if v[0] == 'y':
            k = v[2]
            if k[0] == 'fld':
                f = E.fields(k[1][1]) if k[1][0] == 'y' else None
                return '%s.%s' % (self.show(k[1], depth + 1), f[k[2]][0] if f else k[2])
            if k[0] == 'elem':
                kk = self.mkind(k[1]) or 'elem'
                return '%s[%s]' % (kk, self.show(k[3], depth + 1))
            if k[0] == 'cmd':
                return '%s.%d' % (k[1], k[2])
            if k[0] == 'arg':
                return str(k[1])
            if depth > 5:
                return k[0] if isinstance(k[0], str) else '_'
            return '%s(%s)' % (k[0], ', '.join(self.show(x, depth + 1) for x in k[1:] if isinstance(x, (tuple, int, str))))
        if v[0] in ('v', 'a'):
            return '[%s]' % ', '.join(self.show(p[1] if p[0] == 'e' else p, depth + 1) for p in v[1][:12])
        if v[0] == 't':
            return '(%s)' % ', '.join(self.show(x, depth + 1) for x in v[1])
        if depth > 6:
            return str(v[0])
        return '%s(%s)' % (v[0], ', '.join(self.show(x, depth + 1) for x in v[1:] if isinstance(x, (tuple, int, str)))[:200])


FIELD_TYPES = {
    ('Device', 'is_reset'): 'bool', ('Device', 'handle'): 'usize', ('Device', 'mac_address'): 'mac_address::MacAddress',
    ('Device', 'config'): 'device::DeviceConfig', ('Device', 'state'): 'packets::uci::DeviceState',
    ('Device', 'sessions'): 'std::collections::HashMap<u32, session::Session>',
    ('Device', 'tx'): 'tokio::sync::mpsc::UnboundedSender<std::vec::Vec<u8>>',
    ('Device', 'pica_tx'): 'tokio::sync::mpsc::Sender<PicaCommand>', ('Device', 'country_code'): '[u8; 2]',
    ('Device', 'n_active_sessions'): 'usize',
    ('Session', 'state'): 'packets::uci::SessionState', ('Session', 'id'): 'u32', ('Session', 'device_handle'): 'usize',
    ('Session', 'data'): 'bytes::BytesMut', ('Session', 'session_type'): 'packets::uci::SessionType',
    ('Session', 'sequence_number'): 'u32', ('Session', 'app_config'): 'app_config::AppConfig',
    ('Session', 'ranging_task'): 'std::option::Option<tokio::task::JoinHandle<()>>',
    ('Session', 'tx'): 'tokio::sync::mpsc::UnboundedSender<std::vec::Vec<u8>>',
    ('Pica', 'counter'): 'usize', ('Pica', 'devices'): 'std::collections::HashMap<usize, device::Device>',
    ('Pica', 'anchors'): 'std::collections::HashMap<mac_address::MacAddress, Anchor>',
    ('Pica', 'command_tx'): 'tokio::sync::mpsc::Sender<PicaCommand>',
    ('Pica', 'event_tx'): 'tokio::sync::broadcast::Sender<PicaEvent>',
    ('Pica', 'ranging_estimator'): 'std::boxed::Box<dyn RangingEstimator>',
    ('Pica', 'pcapng_dir'): 'std::option::Option<std::path::PathBuf>',
    ('Anchor', 'handle'): 'usize', ('Anchor', 'mac_address'): 'mac_address::MacAddress',
}


class Ctx:
    """One path of a specification over one outcome; undecided questions fork the path (see explore)."""

    def __init__(self, W, S, prefix, base=None):
        self.W, self.E, self.S = W, W.E, S
        self.base = base      # state the question is about (a loop head), default: the entry state
        self.prefix, self.pos = prefix, 0
        self.alts = []

    def choose(self, states):
        """states: [(S', value)]; returns the value chosen on this path."""
        if not states:
            raise Dead()
        if len(states) > 1:
            i = self.prefix[self.pos] if self.pos < len(self.prefix) else 0
            self.alts.append(len(states))
            self.pos += 1
            if i >= len(states):
                raise Dead()
            s, v = states[i]
        else:
            s, v = states[0]
        self.S = s
        return v

    def cond(self, b):
        return self.choose(self.E.fork(self.S, b))

    def eq(self, a, b):
        """Does a equal b on this path?"""
        r = self.choose(models.eq(self.E, self.S, a, b))
        return self.cond(r)

    def must_eq(self, a, b):
        """Is a equal to b in every refinement of this path?"""
        if a == b:
            return True
        a, b = self.summed(a), self.summed(b)
        for s, v in models.eq(self.E, self.S.copy(), a, b):
            if self.E.truth(s, v) is not True:
                return False
        return True

    def summed(self, v):
        m = {k: x for k, x in self.E.sums.items() if contains(v, k)}
        return subst(v, m) if m else v

    def may_eq(self, a, b):
        if a == b:
            return True
        a, b = self.summed(a), self.summed(b)
        for s, v in models.eq(self.E, self.S.copy(), a, b):
            if self.E.truth(s, v) is not False:
                return True
        return False

    def is_(self, v, *names):
        """Is enum value v one of the named variants (forks)?"""
        vs = self.W.vi(v[1], *names)
        if v[0] == 's':
            return v[2] in vs
        cur = self.E.variants(self.S, v)
        if cur <= vs:
            return True
        if not cur & vs:
            return False
        out = []
        for part, r in ((cur & vs, True), (cur - vs, False)):
            n = self.S.copy()
            if self.E.restrict(n, v, part):
                out.append((n, r))
        return self.choose(out)

    def variant(self, v):
        return self.W.vname(v[1], self.choose(self.E.fork_variants(self.S, v)))

    def must_be(self, v, *names):
        vs = self.W.vi(v[1], *names)
        return (v[2] in vs) if v[0] == 's' else self.E.variants(self.S, v) <= vs

    def le(self, a, b):
        return self.cond(self.E.cmp(self.S, 'Le', a, b))

    def lt(self, a, b):
        return self.cond(self.E.cmp(self.S, 'Lt', a, b))

    def inteq(self, a, b):
        return self.cond(self.E.cmp(self.S, 'Eq', a, b))

    def initially(self, mid, k):
        """Key under which map mid initially held k, or None."""
        E = self.E
        m = models.get_map(E, self.S, mid)
        k = E.freeze(self.S, k)
        k = E.norm_int(self.S, k) if k[0] in ('i', 'l', 'y') and (k[0] != 'y' or E.T[k[1]]['k'] == 'int') else k
        ver = self.ver(mid)
        if m.ver != ver:
            raise AnalysisError('initial contents of a map changed by a loop')
        for key in list(m.entries):
            if key == k or self.eq(key, k):
                m = models.get_map(E, self.S, mid)
                return key if m.entries[key][1] else None
        m = models.get_map(E, self.S, mid)
        if m.base is None and mid[0] != 'y':
            return None
        a, b = self.S.copy(), self.S.copy()
        models.wmap(E, a, mid).entries[k] = (False, False)
        models.wmap(E, b, mid).entries[k] = (True, True)
        out = []
        if E.assume_le(b, I1, ('y', E.USIZE, ('maplen', mid, ver))) and models.materialise(E, b, mid, ver, k):
            out.append((b, k))
        out.append((a, None))
        return self.choose(out)

    def initial(self, mid, k):
        """Initial value of the element under k, or None."""
        key = self.initially(mid, k)
        return None if key is None else self.W.init_elem(mid, self.ver(mid), key)

    def ver(self, mid):
        m = self.base.maps.get(mid) if self.base is not None else None
        return m.ver if m is not None else 0


def explore(W, S, fn, limit=4000, base=None):
    """Run fn(ctx) on every path; yields (ctx, result)."""
    todo = [()]
    n = 0
    while todo:
        prefix = todo.pop()
        n += 1
        if n > limit:
            raise AnalysisError('specification forks too much')
        c = Ctx(W, S.copy(), prefix, base)
        try:
            r = fn(c)
            dead = False
        except Dead:
            dead = True
        pre = list(prefix)
        taken = pre + [0] * (len(c.alts) - len(pre))
        for j in range(len(pre), len(c.alts)):
            for a in range(1, c.alts[j]):
                todo.append(tuple(taken[:j]) + (a,))
        if not dead:
            yield c, r
