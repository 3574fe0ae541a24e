"""C10: what SET stores, GET returns — decided for every parameter identifier and every value."""
from engine import I, I0, I1, St, AnalysisError, contains
from world import explore, Dead

# What a parameter never set reads as (bytes on the wire): the defaults of the FiRa UCI specification.
# Parameters absent from the table have no default and cannot be read before they are set.
def _le(n, k):
    return list(n.to_bytes(k, 'little'))


DEFAULTS = {
    'StsConfig': [0], 'ChannelNumber': [9], 'NumberOfControlees': [1], 'DstMacAddress': [], 'SlotDuration': _le(2400, 2),
    'RangingDuration': _le(200, 4), 'StsIndex': _le(0, 4), 'MacFcsType': [0], 'RangingRoundControl': [6], 'AoaResultReq': [1],
    'SessionInfoNtfConfig': [1], 'NearProximityConfig': _le(0, 2), 'FarProximityConfig': _le(20000, 2), 'RframeConfig': [3],
    'RssiReporting': [0], 'PreambleCodeIndex': [10], 'SfdId': [2], 'PsduDataRate': [0], 'PreambleDuration': [1], 'LinkLayerMode': [0],
    'DataRepetitionCount': [0], 'RangingTimeStruct': [1], 'SlotsPerRr': [25], 'AoaBoundConfig': [0] * 8, 'PrfMode': [0],
    'CapSizeRange': [24, 5], 'TxJitterWindowSize': [0], 'KeyRotation': [0], 'KeyRotationRate': [0], 'SessionPriority': [50],
    'MacAddressMode': [0], 'VendorId': _le(0, 2), 'StaticStsIv': [0] * 6, 'NumberOfStsSegments': [1], 'MaxRrRetry': _le(0, 2),
    'UwbInitiationTime': _le(0, 8), 'HoppingMode': [0], 'BlockStrideLength': [0], 'ResultReportConfig': [1],
    'InBandTerminationAttemptCount': [1], 'SubSessionId': _le(0, 4), 'BprfPhrDataRate': [0], 'MaxNumberOfMeasurements': _le(0, 2),
    'StsLength': [1], 'MinFramesPerRr': [4], 'MtuSize': _le(0, 2), 'InterFrameInterval': [1], 'SessionKey': [], 'SubSessionKey': [],
    'SessionDataTransferStatusNtfConfig': [0], 'SessionTimeBase': [0] * 9, 'ApplicationDataEndpoint': [0],
}


class ConfigSpec:
    def __init__(self, J, U):
        self.J, self.W, self.E, self.F, self.U = J, J.W, J.E, J.F, U

    def tags(self):
        E = self.E
        ty = E.uci['AppConfigTlvType']
        for i, v in enumerate(E.T[ty]['v']):
            if v['f']:
                y = E.sym(ty, ('arg', 'tag', i))
                yield v['n'], y, frozenset((i,))
            else:
                yield v['n'], ('s', ty, i, ()), None

    def run(self):
        W, E, J = self.W, self.E, self.J
        cfg = E.sym(W.t['AppConfig'], ('arg', 'config', 0))
        val = E.sym(E.ty('std::vec::Vec<u8>'), ('arg', 'value', 0))
        reads = {}
        tags = list(self.tags())
        for n, t, vs in tags:
            reads[n] = self.reads(cfg, t, vs)
        fresh = self.U.default_config()
        for n, t, vs in tags:
            J.what = 'parameter %s of a new session' % n
            for c, r in explore(W, self.start(vs, t), lambda c: self.U.cfg_get(c, fresh, t)):
                d = DEFAULTS.get(n)
                want = d is not None and ('v', tuple(('e', I(x)) for x in d))
                J.check(r is None if d is None else r is not None and c.must_eq(r, want), ('C10',), 'default', n,
                        '%s of a new session reads as %s, but %s' % (
                            n, 'unset' if r is None else W.show(r)[:100], 'it has no default' if d is None else 'its default is %s' % d))
        self.cfg, self.val, self.all, self.memo = cfg, val, {n: (t, vs) for n, t, vs in tags}, {}
        for n, t, vs in tags:
            J.what = 'parameter %s' % n
            S = self.start(vs, t)
            settable, paths = [False], 0
            for c, changed in explore(W, S, lambda c: self.one(c, n, t, settable)):
                paths += 1
                if not changed:
                    continue
                # the parameters that read a changed field
                for n2, (t2, vs2) in self.all.items():
                    if n2 == n or not any(f in reads[n2] for f in changed):
                        continue
                    self.interfere(c, n, t, n2, t2, vs2)
                J.ok(('C10',), 'other-parameters')
            if not paths:
                raise AnalysisError('no outcome of setting %s' % n)
            if not settable[0]:
                for c, r in explore(W, self.start(vs, t), lambda c: self.U.cfg_get(c, cfg, t)):
                    J.check(r is None, ('C10',), 'unset', 'readable', '%s cannot be set but can be read' % n)

    def start(self, vs, t):
        S = St()
        E = self.E
        if vs is not None:
            E.restrict(S, t, vs)
        E.assume_le(S, E.seq_len(self.val) if hasattr(self, 'val') else I0, I(255))
        return S

    def reads(self, cfg, t, vs):
        """Names of the configuration fields the value of a parameter depends on."""
        W, E = self.W, self.E
        S = self.start(vs, t)
        out = set()
        for o in E.run_body(S, self.U.cfg_fn('get', False)['id'], [('r', ('V', cfg), ()), t]):
            st = o[1]
            terms = [o[2] if o[0] == 'ret' else None] + list(st.vs) + list(st.bt) + [x[0] for c in st.cons for x in c[1]] + list(st.rg)
            for i, (n, _) in enumerate(E.fields(cfg[1])):
                f = E.sym_field(None, cfg, 0, i)
                if any(x is not None and contains(x, f) for x in terms):
                    out.add(n)
        return out

    def one(self, c, n, t, settable):
        """Set a parameter and read it back; names of the changed fields."""
        W, E, J = self.W, self.E, self.J
        ok, new = self.U.cfg_set(c, self.cfg, t, self.val)
        changed = [f for f, a, b in W.fdiff(c.S, self.cfg, new) if not c.must_eq(a, b)]
        if not ok:
            J.check(not changed, ('C10',), 'refused', 'a refused value changes something',
                    'a refused value of %s changes %s' % (n, ', '.join(changed)))
            return None
        settable[0] = True
        got = self.U.cfg_get(c, new, t)
        if not J.check(got is not None, ('C10',), 'read-back', 'not readable', '%s can be set but not read back' % n):
            return changed
        same = c.must_eq(got, self.val)
        if not same and n == 'UwbInitiationTime' and c.inteq(E.seq_len(self.val), I(4)):
            same = c.must_eq(got, ('v', E.seq_parts(self.val) + (('e', I0),) * 4))
        J.check(same, ('C10',), 'read-back', 'value', '%s set to %s is read back as %s' % (n, W.show(self.val), W.show(got)[:300]))
        self.new = new
        return changed

    def interfere(self, c, n, t, n2, t2, vs2):
        W, E, J = self.W, self.E, self.J
        if vs2 is not None:
            E.restrict(c.S, t2, vs2)
        new = self.new

        def both(c2):
            return self.U.cfg_get(c2, self.cfg, t2), self.U.cfg_get(c2, new, t2)
        for c2, (a, b) in explore(W, c.S, both):
            J.check((a is None) == (b is None) and (a is None or c2.must_eq(a, b)), ('C10',), 'other-parameters', n2,
                    'setting %s changes the value of %s from %s to %s' % (n, n2, a and W.show(a)[:100], b and W.show(b)[:100]))
