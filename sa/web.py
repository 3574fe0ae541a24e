"""C24, C25: what the HTTP server does (see design notes in DESIGN.md)."""
import os
import core
import geometry
import http_models
import models
from engine import AnalysisError, I, I0, I1, St
from world import World, Ctx, explore
from fold import loops_of

NAMES = {'DeviceInformation': ('category', 'mac_address', 'position')}


class Web(World):
    """The HTTP server's crate: its types, its scene and its functions."""

    def __init__(self):
        E = self.E = core.engine('pica_http-bin')
        E.soft = True
        E.pica_alive = lambda ch: False
        self.t, self.fidx, self.names_cache = {}, {}, {}
        self.symmetric = True
        for n in ('DeviceInformation', 'Event', 'Context', 'Position', 'PositionBody', 'PicaCommand', 'PicaEvent', 'PicaCommandError',
                  'MacAddress', 'Category'):
            t = [t for t in E.T if t.get('k') in ('struct', 'enum') and t.get('path', t['s']).split('::')[-1] == n
                 and not t.get('path', t['s']).startswith(('std::', 'core::', 'alloc::', 'tokio', 'hyper', 'futures', 'serde_json'))]
            if len(t) != 1:
                raise AnalysisError('type %s: %d candidates' % (n, len(t)))
            self.t[n] = t[0]['i']
        self.tname = {i: n for n, i in self.t.items()}
        E.pmodels.append((lambda cal, path, decl: cal.get('inst') in self.geo, self.m_geo))
        P = self.t['Position']
        self.geo = {b['id'] for b in E.bodies.values() if b['argc'] == 2 and self.sig(b) == ('&', '&') and self.is_pos(b, 1)
                    and self.is_pos(b, 2) and E.T[b['locals'][0]]['s'] == '(u16, i16, i8)'}
        f32 = next((t['i'] for t in E.T if t['s'] == 'f32'), None)
        for t in E.T:
            if t['s'] in ('glam::Vec3', 'glam::Vec3A') and 'v' not in t and f32 is not None:
                t['v'] = [{'n': 'Vec3', 'f': [['x', f32], ['y', f32], ['z', f32]]}]
        E.pmodels.append((http_models.is_anyhow, http_models.m_anyhow))

    def sig(self, b):
        return tuple('&' if self.E.T[t]['k'] == 'ref' else '' for t in b['locals'][1:1 + b['argc']])

    def is_pos(self, b, i):
        return self.E.T[b['locals'][i]].get('to') == self.t['Position']

    def m_geo(self, E, S, cal, args, dty):
        a, b = (self.norm_pos(S, models.deref(E, S, x)) for x in args)
        vs = tuple(self.geo_sym(ty, n, a, b) for n, ty in zip(('range', 'azimuth', 'elevation'), E.T[dty]['el']))
        for v, m in zip(vs[1:], (180, 90)):
            S.rg[v] = (-m, m)
        return [('ret', S, ('t', vs))]

    def norm_pos(self, S, v):
        """A position in terms of its fields."""
        v = self.E.freeze(S, v)
        return v if v[0] == 's' else ('s', v[1], 0, tuple(self.E.sym_field(S, v, 0, i) for i in range(len(self.E.fields(v[1])))))

    def geo_sym(self, ty, n, a, b):
        if n == 'range' and self.symmetric and repr(b) < repr(a):
            a, b = b, a
        return ('y', ty, ('geo', n, a, b))

    def geo_ty(self):
        b = self.E.bodies[next(iter(self.geo))] if len(self.geo) == 1 else None
        if b is None:
            raise AnalysisError('%d functions compute a measurement' % len(self.geo))
        return self.E.T[b['locals'][0]]['el']

    def T_ok(self, ty):
        return self.E.variant_index(ty, 'Ok')

    def mkind(self, mid):
        return 'scene' if mid[0] == 'y' and mid[2][0] == 'locked' else None

    def sess_parent(self, mid):
        return None

    def init_elem(self, mid, ver, key):
        return self.elem_sym(mid, ver, key)

    def find(self, what, pred):
        bs = [b for b in self.E.bodies.values() if b['kind'] == 'fn' and pred(b, [self.E.T[t]['s'] for t in b['locals'][:1 + b['argc']]])]
        if len(bs) != 1:
            raise AnalysisError('%s: %d functions' % (what, len(bs)))
        return bs[0]

    def ty(self, pred, what):
        ts = [t['i'] for t in self.E.T if pred(t['s'])]
        if len(ts) != 1:
            raise AnalysisError('type %s: %d candidates' % (what, len(ts)))
        return ts[0]

    # --- changes of the scene
    def scene(self, S, base=None):
        """What changed in the scene: (kind, key, old element, new element) with kind new / gone / set."""
        E, out = self.E, []
        for mid, m in S.maps.items():
            if self.mkind(mid) is None:
                continue
            bm = base.maps.get(mid) if base else None
            bver = bm.ver if bm else 0
            for key, (p, ip) in m.entries.items():
                p0 = bm.entries[key][0] if bm and m.ver == bver and key in bm.entries else ip
                root = ('E', mid, m.ver, key)
                old = (base.mem.get(root) if base and m.ver == bver else None) or self.init_elem(mid, m.ver, key)
                if p0 and not p:
                    out.append(('gone', key, old, None))
                elif p and not p0:
                    out.append(('new', key, None, S.mem[root]))
                elif p and S.mem.get(root) not in (None, old):
                    out.append(('set', key, old, S.mem[root]))
        return out

    def moved(self, S, base=None):
        """Did a loop change the scene between base and S?"""
        return any(self.mkind(mid) and m.ver != (base.maps[mid].ver if base and mid in base.maps else 0) for mid, m in S.maps.items())


def status(E, v):
    """The number of a status code."""
    while isinstance(v, tuple) and v[0] == 's' and len(v[3]) == 1:
        v = v[3][0]
    if v[0] == 'i':
        return v[1]
    if v[0] == 'y' and v[2][0] == 'const' and v[2][1] == 'adtint':
        return v[2][2]
    return None


MIME = {'.html': 'text/html', '.yaml': 'text/yaml', '.js': 'application/javascript'}
QUIET = {'loop', 'body', 'lock', 'unlock', 'hm-item', 'hm-end', 'channel', 'map-insert', 'map-remove', 'map-replace', 'map-elem-drop',
         'subscribe', 'orecv', 'poll-fn', 'select', 'recv', 'map-drop'}
BLOCKING = ('deadlock', 'await-locked', 'blocking', 'sleep', 'join')


def static_files():
    """{served path: file}: the page and the API document by their names, the components by their paths."""
    top = os.path.join(core.REPO, 'static')
    out = {}
    for d, _, fs in os.walk(top):
        for f in fs:
            p = '/' + os.path.relpath(os.path.join(d, f), top)
            if os.path.splitext(f)[1] in MIME:
                out[{'/index.html': '/', '/openapi.html': '/openapi'}.get(p, p)] = os.path.join(d, f)
    return out


class Http:
    def __init__(self, W, F):
        self.W, self.E, self.F = W, W.E, F
        self.gaps, self.what, self.paths = [], 'HTTP server', {}

    # --- reporting
    def gap(self, e):
        self.gaps.append('%s: %s' % (self.what, e if isinstance(e, str) else str(e) if isinstance(e, AnalysisError) else 'internal %r' % (e,)))

    def bad(self, rule, what, text, props=('C24',)):
        self.F.bad(props, rule, '%s: %s' % (self.what, what), '%s: %s' % (self.what, text))

    def ok(self, rule, props=('C24',)):
        self.F.ok(props, rule)

    def check(self, cond, rule, what, text='', props=('C24',)):
        if cond:
            self.ok(rule, props)
        else:
            self.bad(rule, what, text or what, props)
        return bool(cond)

    def outcomes(self, outs):
        """The outcomes that return; panics and waits are reported."""
        for o in outs:
            S = o[1]
            for e in S.log:
                if e[0] in BLOCKING:
                    self.bad('locks', '%s at %s' % (e[0], self.site(e)), '%s at %s' % (
                        {'deadlock': 'a lock is acquired while it is held', 'await-locked': 'a lock is held across an await point'}.get(
                            e[0], 'a blocking call'), self.site(e)), ('C21', 'C25'))
            if o[0] == 'panic':
                at = ' < '.join('%s:%s' % x for x in reversed(o[2]['stack'][-3:]))
                self.bad('panic', '%s at %s' % (o[2].get('what'), at), 'a path panics (%s) at %s' % (o[2].get('what'), at), ('C25',))
            elif o[0] == 'unk':
                self.gap(o[2])
            elif o[0] == 'ret':
                self.ok('panic', ('C25',))
                self.ok('locks', ('C21', 'C25'))
                yield S, o[2]

    def site(self, e):
        return next((x for x in reversed(e[1:]) if isinstance(x, str)), '?')

    def guard(self, f, *a):
        try:
            return f(*a)
        except (AnalysisError, IndexError, KeyError, TypeError, ValueError, AttributeError) as e:
            if DEBUG:
                raise
            self.gap(e)

    # --- running functions
    def future(self, b, names):
        E = self.E
        S = St()
        args = [E.sym(t, ('arg', n, i)) for i, (t, n) in enumerate(zip(b['locals'][1:1 + b['argc']], names))]
        self.args = args
        for k, S1, fut in E.run_body(S, b['id'], args):
            if k != 'ret':
                yield (k, S1, fut)
            else:
                yield from models.run_future(E, S1, E.alloc(S1, fut, fut[2]))

    def run(self):
        for f in (geometry.Geometry(self.W, self).run, self.requests, self.connections, self.estimate):
            self.what = f.__name__
            self.guard(f)
        return self

    # --- requests
    def requests(self):
        W, E = self.W, self.E
        b = W.find('request handler', lambda b, ts: any('Request<' in t for t in ts[1:]) and len(ts) == 4)
        names = ['req' if 'Request<' in E.T[t]['s'] else 'context' if t == W.t['Context'] else 'commands' for t in b['locals'][1:4]]
        self.statics = static_files()
        self.served = set()
        self.routes = set()
        self.extra = {}
        n = 0
        outs = list(self.outcomes(self.future(b, names)))
        for S, v in outs:
            self.segments(S, None)
        for S, v in outs:
            req, self.cmds, ctx = (self.args[names.index(x)] for x in ('req', 'commands', 'context'))
            n += 1
            self.what = 'request'
            self.guard(self.request, S, v, req)
        self.paths['requests'] = n
        self.what = 'request'
        for p in sorted(set(self.statics) - self.served):
            if self.static_ok and 'gap' not in self.routes:
                self.bad('static', p, 'no path answers %s with the file' % p)
        for r in ROUTES:
            if r not in self.routes and 'gap' not in self.routes:
                self.bad('route', r, 'no request is routed to %s' % r)

    static_ok = True

    def segments(self, S, path):
        """{index: {literal: bool}} for the parts of the path, and the number of parts."""
        out, seq = {}, None
        for k, r in S.bt.items():
            if k[2][0] != 'eqv' or k[2][1][0] != 'str' or k[2][2][0] != 'y':
                continue
            t = k[2][2]
            if t[2][0] != 'deref' or t[2][1][0] != 'y' or t[2][1][2][0] != 'idx':
                continue
            q, i = t[2][1][2][1], t[2][1][2][2]
            if q[2][0] != 'segs' or q[2][2] != '/' or i[0] != 'i' or path is not None and q[2][1] not in (path, ('y', path[1], ('trim', path, '/'))):
                continue
            seq = self.seq_term = q
            out.setdefault(i[1], {})[k[2][1][1]] = r
            self.seg_term = t
        return out, seq

    def length(self, S, seq, n):
        ln = self.E.sym_len(seq)
        if self.E.prove_eq(S, ln, I(n)):
            return True
        if self.E.prove_ne(S, ln, I(n)):
            return False
        return None

    def request(self, S, v, req):
        E, W = self.E, self.W
        if v[0] != 's' or not v[3] or v[3][0][0] != 'y' or v[3][0][2][0] != 'resp':
            return self.gap('the response is %s' % W.show(v)[:200])
        _, st, hs, body = v[3][0][2]
        self.st = status(E, st)
        self.S, self.hs, self.body = S, dict((a[1], b[1]) for a, b in hs if a[0] == b[0] == 'str'), body
        paths = {k[2][2] for k in S.bt if k[2][0] == 'eqv' and k[2][1][0] == 'str' and k[2][2][0] == 'y' and k[2][2][2][0] == 'path'}
        uris = [x for x in paths if x[2][1][2] == ('uri', req)]
        if len(uris) != 1:
            self.routes.add('gap')
            return self.gap('a response that does not depend on the path')
        path = uris[0]
        lits = {k[2][1][1]: r for k, r in S.bt.items() if k[2][0] == 'eqv' and k[2][2] == path and k[2][1][0] == 'str'}
        hit = [p for p, r in lits.items() if r]
        if hit:
            if hit[0] in self.statics:
                self.served.add(hit[0])
                return self.static(S, hit[0])
            if self.st != 404:
                self.extra[hit[0]] = None
            return    # an additional route
        self.what = 'request without body'
        if self.received_error(S):
            return
        self.what = 'request'
        missing = [p for p in self.statics if p not in lits]
        segs, seq = self.segments(S, path)
        if missing:
            self.static_ok = False
        if seq is None:
            seq = getattr(self, 'seq_term', None)
        if seq is None:
            self.routes.add('gap')
            return self.gap('a response that does not depend on the parts of the path')
        first = segs.get(0, {})
        name = [x for x, r in first.items() if r]
        if name and name[0] in ROUTES:
            n = ROUTES[name[0]]
            r = self.length(S, seq, n)
            if r is None:
                self.routes.add('gap')
                return self.gap('a response to %s that does not depend on the number of parts' % name[0])
            if r:
                self.routes.add(name[0])
                return self.route(S, name[0], seq)
        elif name:
            if self.st != 404:
                ln = self.E.sym_len(seq)
                n = next((i for i in range(1, 6) if self.E.prove_eq(S, ln, I(i))), None)
                self.extra[name[0]] = n if self.extra.get(name[0], n) == n else None
            return    # an additional route
        else:
            for x, n in ROUTES.items():
                if first.get(x) is None and self.length(S, seq, n) is not False:
                    self.routes.add('gap')
                    return self.gap('a response that does not depend on whether the path is %s' % x)
        self.what = 'unknown path'
        if self.received_error(S):
            return
        self.check(self.st == 404, 'route', 'status', 'the answer is %s' % self.st)
        self.quiet(S)

    def received_error(self, S):
        """An answer to a request whose body could not be received."""
        E = self.E
        for e in S.log:
            if e[0] == 'body' and e[1][0] == 'y':
                if self.W.vi(e[1][1], 'Err') >= E.variants(S, e[1]):
                    if self.st is not None and self.st >= 400:
                        self.ok('route')
                        self.quiet(S)
                        return True
        return False

    def static(self, S, p):
        self.what = 'static file %s' % p
        f = self.statics[p]
        self.check(self.st == 200, 'static', 'status', 'the answer is %s' % self.st)
        self.check(self.hs.get('content-type', '').split(';')[0] == MIME[os.path.splitext(f)[1]], 'static', 'content type',
                   'the content type is %s' % self.hs.get('content-type'))
        b = self.body
        if b[2][0] != 'body' or b[2][1][0] != 'str':
            return self.gap('the content is %s' % self.W.show(b)[:100])
        with open(f, encoding='utf-8') as fh:
            self.check(b[2][1][1] == fh.read(), 'static', 'content', 'the content is not that of %s' % os.path.relpath(f, core.REPO))
        self.quiet(S)

    def effects(self, S, start=0):
        return [e for e in S.log[start:] if e[0] not in QUIET and e[0] not in BLOCKING]

    def loop_effects(self, S):
        """Loops with effects."""
        out = []
        for lid in loops_of(S):
            info = self.E.loops[lid]
            if any(self.W.mkind(m) for m in info.bumped) or any(self.effects(B, info.mlog) or self.W.scene(B, info.head) or self.W.moved(B, info.head) for B in info.backs):
                out.append(lid)
        return out

    def quiet(self, S, loops=()):
        """No effect at all."""
        ef = self.effects(S)
        self.check(not ef, 'no effect', 'events', 'the request has the effect %s' % (self.W.show(ef[0])[:200] if ef else ''))
        sc = self.W.scene(S)
        self.check(not sc, 'no effect', 'scene', 'the request changes the scene')
        self.check(not [x for x in self.loop_effects(S) if x not in loops], 'no effect', 'loop', 'the request has an effect in a loop')

    def route(self, S, name, seq):
        self.what = name
        if self.received_error(S):
            return
        for c, _ in explore(self.W, S, lambda c: self.route1(c, name, seq)):
            pass

    def segment(self, i):
        """The string of part i of the path."""
        t = self.seg_term
        return ('y', t[1], ('deref', ('y', t[2][1][1], ('idx', t[2][1][2][1], I(i)))))

    def route1(self, c, name, seq):
        return getattr(self, 'r_' + name.replace('-', '_'))(c)

    # --- parsed parameters
    def mac(self, c):
        """The address parameter, None if it does not parse."""
        ts = [t['i'] for t in self.E.T if t['s'].startswith('std::result::Result<pica::MacAddress, ')]
        ts = [t for t in ts if any(k == self.E.sym(t, ('macparse', self.segment(1))) for k in c.S.vs)] or ts
        if len(ts) != 1:
            raise AnalysisError('address result: %d candidates' % len(ts))
        ty = ts[0]
        v = self.E.sym(ty, ('macparse', self.segment(1)))
        if c.is_(v, 'Ok'):
            return self.E.proj(c.S, v, ('vf', self.W.T_ok(ty), 0))
        return None

    def position(self, c):
        """'ok', 'eof' or 'bad', and the position in the body."""
        E, W = self.E, self.W
        e = [e for e in c.S.log if e[0] == 'body']
        if not e:
            return 'unread', None
        data = E.proj(c.S, e[0][1], ('vf', W.T_ok(e[0][1][1]), 0))
        ty = W.ty(lambda s: s.startswith('std::result::Result<PositionBody, '), 'body result')
        v = E.sym(ty, ('json', ty, data))
        if c.is_(v, 'Ok'):
            pb = E.proj(c.S, v, ('vf', W.T_ok(ty), 0))
            fs = [n for n, _ in E.fields(W.t['PositionBody'])]
            args = [E.sym_field(c.S, pb, 0, fs.index(n)) for n in ('x', 'y', 'z', 'yaw', 'pitch', 'roll')]
            return 'ok', self.make(c, args)
        err = E.proj(c.S, v, ('vf', 1 - W.T_ok(ty), 0))
        ct = next((t['i'] for t in E.T if t.get('path', '').endswith('serde_json::error::Category')), None)
        if ct is None:
            b = next(t['i'] for t in E.T if t['k'] == 'bool')
            if c.cond(('y', b, ('isEof', err))):
                return 'eof', self.make(c, [I0] * 6)
            return 'bad', None
        if c.is_(E.sym(ct, ('classify', err)), 'Eof'):
            return 'eof', self.make(c, [I0] * 6)
        return 'bad', None

    def make(self, c, args):
        """A position as the tree's constructor makes it."""
        W, E = self.W, self.E
        b = W.find('position constructor', lambda b, ts: ts == [E.T[W.t['Position']]['s'], 'i16', 'i16', 'i16', 'i16', 'i8', 'i16'])
        outs = [o for o in E.run_body(c.S.copy(), b['id'], list(args))]
        if len(outs) != 1 or outs[0][0] != 'ret':
            raise AnalysisError('the constructor of positions has several outcomes')
        return E.freeze(outs[0][1], outs[0][2])

    def refused(self, c, mac, pos, optional):
        """A request that has to be refused: the answer is 406, without effect."""
        kind = pos[0]
        if mac is not None and (kind == 'ok' or kind == 'eof'):
            if kind == 'eof' and not optional and self.st == 406:
                self.quiet(c.S)
                return True
            return False
        if self.st == 404 and self.absent_ok:
            return False
        self.check(self.st == 406, 'refusal', 'status', 'the answer to an invalid %s is %s' % ('address' if mac is None else 'body', self.st))
        self.quiet(c.S)
        return True

    absent_ok = False

    def events_sent(self, S, start=0):
        return [e for e in self.effects(S, start) if e[0] == 'event']

    def event(self, name, **kw):
        ty = self.W.t['Event']
        vi = self.E.variant_index(ty, name)
        fs = [n for n, _ in self.E.T[ty]['v'][vi]['f']]
        if sorted(fs) != sorted(kw):
            raise AnalysisError('fields of the event %s' % name)
        return ('s', ty, vi, tuple(kw[n] for n in fs))

    def same_event(self, c, e, want):
        got = e[2]
        if got[0] != 's' or got[2] != want[2]:
            return '%s instead of %s' % (self.W.show(got)[:300], self.W.show(want)[:300])
        for (n, _), a, b in zip(self.E.T[want[1]]['v'][want[2]]['f'], got[3], want[3]):
            if not self.equal(c, a, b):
                return '%s is %s instead of %s' % (n, self.W.show(a)[:200], self.W.show(b)[:200])
        return None

    def equal(self, c, a, b):
        a, b = (self.E.freeze(c.S, x) for x in (a, b))
        if a == b:
            return True
        if a[0] == 's' and b[0] == 's':
            return a[1] == b[1] and a[2] == b[2] and all(self.equal(c, x, y) for x, y in zip(a[3], b[3]))
        if a[0] == 'y' and b[0] == 's' and self.E.T[a[1]]['k'] == 'struct' or b[0] == 'y' and a[0] == 's' and self.E.T[b[1]]['k'] == 'struct':
            if a[1] != b[1]:
                return False
            return all(self.equal(c, x, y) for x, y in zip(self.parts(c, a), self.parts(c, b)))
        return c.must_eq(a, b)

    def parts(self, c, v):
        if v[0] == 's':
            return v[3]
        return [self.E.sym_field(c.S, v, 0, i) for i in range(len(self.E.fields(v[1])))]

    def f(self, c, v, name):
        return self.E.freeze(c.S, self.W.f(v, name, c.S))

    # --- routes
    def r_events(self, c):
        self.check(self.st == 200, 'events', 'status', 'the answer is %s' % self.st)
        self.check(self.hs.get('content-type', '').split(';')[0] == 'text/event-stream', 'events', 'content type',
                   'the content type is %s' % self.hs.get('content-type'))
        self.quiet(c.S)
        if getattr(self, 'stream_seen', False):
            return
        self.stream_seen = True
        self.guard(self.stream, c)

    def stream(self, c):
        """Every event of the server is sent as an event of the stream with its name and JSON data."""
        E, W = self.E, self.W
        b = self.body
        if b[2][0] != 'stream' or b[2][1][2][0] != 'smap':
            raise AnalysisError('the stream is %s' % W.show(b)[:200])
        src, clo = b[2][1][2][1:]
        if src[2][0] != 'bstream':
            raise AnalysisError('the stream is %s' % W.show(src)[:200])
        sub = src[2][1]
        self.check(sub[2][0] == 'subscription' and sub[2][1][1:] == self.bus(c)[1:], 'events', 'source', 'the stream is not subscribed to the events')
        bty = E.bodies[clo[1]]['locals'][2]
        item = E.sym(bty, ('item',))
        S = c.S.copy()
        ety = W.t['Event']
        for S1, v in self.outcomes(E.call_value(S, clo, [item])):
            if E.variants(S1, item) != frozenset([W.T_ok(bty)]):
                continue
            ev = E.proj(S1, item, ('vf', W.T_ok(bty), 0))
            vs = E.variants(S1, ev)
            for i in sorted(vs):
                n = S1.copy()
                if not E.restrict(n, ev, frozenset([i])):
                    continue
                text = self.text(n, v, ev)
                want = 'event: %s\ndata: {}\n\n' % kebab(W.vname(ety, i))
                if text is None:
                    self.gap('the text of an event is %s' % W.show(v)[:300])
                else:
                    self.check(text == want, 'events', 'text of %s' % W.vname(ety, i), 'the event %s is sent as %r' % (W.vname(ety, i), text))

    def text(self, S, v, ev):
        """Text of a stream item, with {} for the JSON of the event; None if it cannot be told."""
        E = self.E
        if v[0] == 's' and len(v[3]) == 1 and E.T[v[1]]['k'] == 'enum':
            if v[2] != self.W.T_ok(v[1]):
                return ''
            v = v[3][0]
        if v[0] == 'str':
            return v[1]
        if v[0] == 'v':
            out = bytearray()
            for p in v[1]:
                if p[0] == 'e' and p[1][0] == 'i' and 0 <= p[1][1] < 256:
                    out.append(p[1][1])
                elif p[0] == 'q' and p[1][0] == 'y' and p[1][2][0] == 'tojson' and p[2] == I0 \
                        and (p[1][2][1] == ev or E.same(S, p[1][2][1], ev)) and E.prove_eq(S, p[3], E.sym_len(p[1])):
                    out += b'{}'
                else:
                    return None
            return out.decode('utf-8', 'replace')
        if v[0] != 'y' or v[2][0] != 'format':
            return None
        tpl, args = v[2][1][2][1]
        out, i, n = '', 0, 0
        bs = [x[1] for x in tpl[1]]
        bts = bytearray()
        for_args = [a for a in args[1]]
        while i < len(bs):
            k = bs[i]
            if k == 0:
                break
            if k < 128:
                bts += bytes(bs[i + 1:i + 1 + k])
                i += 1 + k
                continue
            if k != 192 or n >= len(for_args):
                return None
            a = for_args[n][2]
            n += 1
            i += 1
            if a[1] != 'new_display':
                return None
            x = a[2]
            if x[0] == 'r':
                x = models.deref(E, S, x)
            if x[0] == 'str':
                bts += x[1].encode()
            elif x[0] == 'y' and x[2][0] == 'tojson':
                if x[2][1] != ev and not E.same(S, x[2][1], ev):
                    return None
                bts += b'{}'
            else:
                return None
        return bts.decode('utf-8', 'replace')

    def bus(self, c):
        """The channel of the events."""
        fs = E_fields(self.E, self.W.t['Context'])
        i = [k for k, (n, t) in enumerate(fs) if 'broadcast::Sender' in self.E.T[t]['s']]
        ctx = [a for a in self.args if a[1] == self.W.t['Context']]
        return self.E.sym_field(c.S, ctx[0], 0, i[0])

    def r_get_state(self, c):
        E, W = self.E, self.W
        self.check(self.st == 200, 'state', 'status', 'the answer is %s' % self.st)
        b = self.body
        if b[2][0] != 'body' or b[2][1][0] != 'y' or b[2][1][2][0] != 'tojson':
            return self.gap('the answer is %s' % W.show(b)[:200])
        v = b[2][1][2][1]
        while v[0] == 's' and len(v[3]) == 1:
            v = v[3][0]
        mids = {e[1] for e in c.S.log if e[0] in ('hm-item', 'hm-end')}
        good, text = False, 'the answer is not the list of all devices'
        for mid in mids:
            if W.mkind(mid) is None:
                continue
            if v == ('v', ()) and c.must_eq(('y', E.USIZE, ('maplen', mid, 0)), I0):
                good = True
            for lid in loops_of(c.S):
                r = self.collects(c, lid, mid, v)
                if r is True:
                    good = True
                elif isinstance(r, str):
                    text = r
        self.check(good, 'state', 'devices', text)
        own = [x for x in loops_of(c.S)]
        self.quiet(c.S)

    def collects(self, c, lid, mid, v):
        """Is v the list of all values of the map, built by the loop?"""
        E, W = self.E, self.W
        info = E.loops[lid]
        locs = [loc for loc, ph in info.phis.items() if ph == v]
        its = self.map_loop(info, mid)
        if not locs:
            return None
        if its is None:
            return 'the list is built by a loop that does not visit one device per iteration'
        if not self.complete(c.S, lid, mid):
            return 'the loop that builds the list may end early'
        loc = locs[0]
        if not E.prove_eq(info.entry, E.seq_len(E.load_loc(info.entry, loc)), I0):
            return 'the list does not start empty'
        for B, ver, key in its:
            got = E.simp_parts(B, E.seq_parts(E.load_loc(B, loc)))
            ps = [p for p in got]
            old = E.seq_parts(v)
            el = W.init_elem(mid, ver, key)
            if len(ps) != len(old) + 1 or ps[:-1] != list(old) and tuple(ps[:-1]) != tuple(old) or ps[-1][0] != 'e':
                return 'an iteration appends %s' % W.show(('v', tuple(ps)))[:200]
            c2 = Ctx(W, B.copy(), ())
            if not self.equal(c2, ps[-1][1], el):
                return 'the list contains %s' % W.show(ps[-1][1])[:200]
        return True

    def map_loop(self, info, mid):
        out = []
        for B in info.backs:
            its = [e for e in B.log[info.mlog:] if e[0] == 'hm-item' and e[1] == mid]
            if len(its) != 1:
                return None
            out.append((B, its[0][2], its[0][3]))
        return out or None

    def complete(self, S, lid, mid):
        on = False
        for e in S.log:
            if e == ('loop', lid):
                on = True
            elif on and e[0] == 'hm-end' and e[1] == mid:
                return True
            elif on and e[0] == 'loop':
                return False
        return False

    def r_init_uci_device(self, c, optional=True):
        E, W = self.E, self.W
        mac, pos = self.mac(c), self.position(c)
        self.absent_ok = True
        if self.refused(c, mac, pos, optional):
            return
        mids = [('y', None)] and sorted({e[1] for e in c.S.log if e[0] in ('hm-item', 'hm-end')} |
                                        {m for m in c.S.maps if W.mkind(m)}, key=repr)
        if mac is None or pos[1] is None:
            # refused as unknown before the rest was looked at: nothing may happen
            self.check(self.st in (404, 406), 'refusal', 'status', 'the answer to an invalid request is %s' % self.st)
            return self.quiet(c.S)
        if len(mids) != 1:
            return self.gap('the scene is locked %d times' % len(mids))
        mid = mids[0]
        found = [e for e in c.S.log if e[0] == 'hm-item' and e[1] == mid
                 and c.must_eq(self.f(c, W.init_elem(mid, e[2], e[3]), 'mac_address'), mac)]
        if not found:
            none = c.must_eq(('y', E.USIZE, ('maplen', mid, 0)), I0)
            for lid in loops_of(c.S):
                info = E.loops[lid]
                its = self.map_loop(info, mid)
                if its and self.complete(c.S, lid, mid) and all(
                        r is False for B, ver, key in its
                        for _, r in explore(W, B, lambda c2: c2.may_eq(self.f(c2, W.init_elem(mid, ver, key), 'mac_address'), mac))):
                    none = True
            if not none:
                if self.st == 404 or self.W.scene(c.S) or self.loop_effects(c.S):
                    self.bad('lookup', 'device', 'whether a device has the address is not decided by a pass over all devices')
                else:
                    self.gap('the device is not looked up by a pass over all devices')
                return
            self.check(self.st == 404, 'move', 'status', 'the answer for an address without device is %s' % self.st)
            return self.quiet(c.S)
        key, ver = found[0][3], found[0][2]
        old = W.init_elem(mid, ver, key)
        self.check(self.st == 200, 'move', 'status', 'the answer is %s' % self.st)
        sc = W.scene(c.S)
        good = len(sc) == 1 and sc[0][0] == 'set' and sc[0][1] == key
        self.check(good and self.equal(c, self.f(c, sc[0][3], 'position'), pos[1]), 'move', 'position',
                   'the position of the device is not set to that in the request, or something else is changed')
        if good:
            for n in ('category', 'mac_address'):
                self.check(self.equal(c, self.f(c, sc[0][3], n), self.f(c, old, n)), 'move', n, 'the %s of the device changes' % n)
        evs = self.effects(c.S)
        want = self.event('DeviceUpdated', category=self.f(c, old, 'category'), mac_address=mac, position=pos[1])
        self.check(len(evs) == 1 and evs[0][0] == 'event', 'move', 'events', '%d effects outside of loops instead of one event' % len(evs))
        if len(evs) == 1 and evs[0][0] == 'event':
            r = self.same_event(c, evs[0], want)
            self.check(r is None, 'move', 'device-updated', 'the event: %s' % r)
        loops = self.loop_effects(c.S)
        done = 0
        for lid in loops_of(c.S):
            info = E.loops[lid]
            if lid not in loops:
                continue
            its = self.map_loop(info, mid)
            if its is None:
                self.bad('neighbors', 'loop', 'a loop with effects does not visit one device per iteration')
                continue
            done += 1
            self.check(self.complete(c.S, lid, mid), 'neighbors', 'all devices', 'the loop over the other devices may end early')
            for B, v2, k2 in its:
                for c2, _ in explore(W, B, lambda c2: self.neighbor(c2, info, mid, v2, k2, mac, old, pos[1]), base=info.head):
                    pass
        self.check(done == 1 or (done == 0 and c.must_eq(('y', E.USIZE, ('maplen', mid, 0)), I1)), 'neighbors', 'pass',
                   'there are %d passes that report the other devices' % done)

    def r_set_position(self, c):
        return self.r_init_uci_device(c, False)

    def neighbor(self, c, info, mid, ver, key, mac, dev, pos):
        """One device of the pass over the neighbors of a device that moved."""
        E, W = self.E, self.W
        o = c.S.mem.get(('E', mid, ver, key)) or W.init_elem(mid, ver, key)
        omac, opos, ocat = (self.f(c, o, n) for n in ('mac_address', 'position', 'category'))
        evs = self.effects(c.S, info.mlog)
        self.check(not W.scene(c.S, info.head), 'neighbors', 'scene', 'the pass over the other devices changes the scene')
        dmac = self.f(c, dev, 'mac_address')
        if c.must_eq(omac, mac) or c.must_eq(omac, dmac):
            same = True
        elif not c.may_eq(omac, mac) or not c.may_eq(omac, dmac):
            same = False
        else:
            same = c.eq(omac, mac)
        if same:
            self.check(not evs, 'neighbors', 'same device', 'neighbor-updated is sent for the device itself')
            return
        cat = self.f(c, dev, 'category')
        a = dict(source_category=cat, source_mac_address=mac, destination_category=ocat, destination_mac_address=omac, **self.geo_of(c, pos, opos))
        b = dict(source_category=ocat, source_mac_address=omac, destination_category=cat, destination_mac_address=mac, **self.geo_of(c, opos, pos))
        wants = [self.event('NeighborUpdated', **x) for x in (a, b)]
        if not self.check(len(evs) == 2 and all(e[0] == 'event' for e in evs), 'neighbors', 'events',
                          '%d effects for a neighbor instead of two events' % len(evs)):
            return
        r = [self.same_event(c, e, w) for e, w in zip(evs, wants)]
        r2 = [self.same_event(c, e, w) for e, w in zip(evs, reversed(wants))]
        self.check(not any(r) or not any(r2), 'neighbors', 'values', 'neighbor-updated: %s' % (r[0] or r[1]))

    def geo_of(self, c, a, b):
        E, W = self.E, self.W
        ty = {n: t for n, t in zip(('range', 'azimuth', 'elevation'), W.geo_ty())}
        a, b = W.norm_pos(c.S, a), W.norm_pos(c.S, b)
        return {n2: W.geo_sym(ty[n], n, a, b) for n2, n in (('distance', 'range'), ('azimuth', 'azimuth'), ('elevation', 'elevation'))}

    # --- anchors
    def r_create_anchor(self, c):
        return self.anchor(c, True)

    def r_destroy_anchor(self, c):
        return self.anchor(c, False)

    def anchor(self, c, create):
        E, W = self.E, self.W
        mac = self.mac(c)
        pos = self.position(c) if create else ('ok', None)
        self.absent_ok = False
        if self.refused(c, mac, pos, True):
            return
        sends = [e for e in c.S.log if e[0] == 'chsend']
        chans = [e for e in c.S.log if e[0] == 'channel' and 'oneshot' in e[1]]
        if not self.check(len(sends) == 1, 'command', 'count', '%d commands are submitted' % len(sends)):
            return
        ch, cmd = sends[0][1], sends[0][2]
        self.check(self.equal(c, ch, self.cmds), 'command', 'channel', 'the command is sent to %s' % W.show(ch))
        good = cmd[0] == 's' and W.vname(cmd[1], cmd[2]) == ('CreateAnchor' if create else 'DestroyAnchor')
        if not self.check(good, 'command', 'kind', 'the command is %s' % W.show(cmd)[:200]):
            return
        self.check(self.equal(c, cmd[3][0], mac), 'command', 'address', 'the address of the command is %s' % W.show(cmd[3][0])[:200])
        tx = cmd[3][1]
        self.check(tx[0] == 'y' and tx[2][0] == 'chan' and tx[2][2] == 0 and any(e[2] == tx[2][1] for e in chans), 'command', 'answer channel',
                   'the command is sent with %s' % W.show(tx)[:100])
        other = [e for e in self.effects(c.S) if e not in sends and e[0] != 'event']
        self.check(not other, 'command', 'other effects', 'the request also has the effect %s' % (W.show(other[0])[:200] if other else ''))
        evs, sc = self.events_sent(c.S), W.scene(c.S)
        recvs = [e for e in c.S.log if e[0] == 'orecv']
        self.check(not self.loop_effects(c.S), 'command', 'loop', 'the request has an effect in a loop')
        if not recvs:
            self.check(self.st == 500 and not evs and not sc and self.failed(c, sends[0]), 'answer', 'not awaited',
                       'the answer is %s without waiting for the emulator' % self.st, ('C24', 'C25'))
            return
        if not self.check(len(recvs) == 1 and recvs[0][1][2] == ('chan', tx[2][1], 1), 'answer', 'channel', 'the answer is received from another channel'):
            return
        v = recvs[0][2]
        if not c.is_(v, 'Ok'):
            self.check(self.st is not None and self.st >= 400, 'answer', 'missing', 'the answer without an answer of the emulator is %s' % self.st,
                       ('C25',))
            self.check(self.st == 500 and not evs and not sc, 'answer', 'missing',
                       'without an answer of the emulator: status %s, %d events, %d changes' % (self.st, len(evs), len(sc)))
            return
        r = E.proj(c.S, v, ('vf', W.T_ok(v[1]), 0))
        if not c.is_(r, 'Ok'):
            e = E.proj(c.S, r, ('vf', 1 - W.T_ok(r[1]), 0))
            n = c.variant(e)
            want = {'DeviceAlreadyExists': 409, 'DeviceNotFound': 404}.get(n)
            self.check(want is None or self.st == want, 'answer', n, 'the answer for %s is %s' % (n, self.st), ('C24', 'C25') if (self.st or 0) < 400 else ('C24',))
            self.check(not evs and not sc, 'answer', '%s: effect' % n, 'a refused command has an effect')
            return
        h = E.proj(c.S, r, ('vf', W.T_ok(r[1]), 0))
        self.check(self.st == 200, 'answer', 'status', 'the answer is %s' % self.st)
        cat = ('s', W.t['Category'], E.variant_index(W.t['Category'], 'Anchor'), ())
        if create:
            want = self.event('DeviceAdded', category=cat, mac_address=mac, position=pos[1])
            mids = [m for m in c.S.maps if W.mkind(m)]
            good = False
            if len(mids) == 1 and len(sc) <= 1:
                m = models.get_map(E, c.S, mids[0])
                ks = [k for k, (p, ip) in m.entries.items() if p and self.equal(c, k, h)]
                if len(ks) == 1 and all(x[1] == ks[0] for x in sc):
                    el = c.S.mem.get(('E', mids[0], m.ver, ks[0]))
                    good = el is not None and all(self.equal(c, self.f(c, el, n), x) for n, x in (
                        ('category', cat), ('mac_address', mac), ('position', pos[1])))
            self.check(good, 'scene', 'new anchor', 'the scene does not gain exactly the created anchor under its handle')
        else:
            want = self.event('DeviceRemoved', category=cat, mac_address=mac)
            self.gone(c, h, sc, 'the scene does not lose exactly the destroyed anchor')
        self.one_event(c, evs, want)

    def failed(self, c, send):
        """Did the submission fail on this path?"""
        E = self.E
        for t, vs in c.S.vs.items() if hasattr(c.S, 'vs') else ():
            if t[0] == 'y' and (t[2][0] == 'sendres' or t[2][:2] == ('u', 'sendres')) and vs == self.W.vi(t[1], 'Err'):
                return True
        return False

    def gone(self, c, h, sc, text):
        E, W = self.E, self.W
        mids = [m for m in c.S.maps if W.mkind(m)]
        good = False
        if len(mids) == 1 and len(sc) <= 1:
            m = models.get_map(E, c.S, mids[0])
            ks = [k for k, (p, ip) in m.entries.items() if not p and self.equal(c, k, h)]
            good = len(ks) == 1 and all(x[0] == 'gone' and x[1] == ks[0] for x in sc)
        self.check(good, 'scene', 'gone', text)

    def one_event(self, c, evs, want):
        n = kebab(self.W.vname(want[1], want[2]))
        if self.check(len(evs) == 1, 'event', 'count', '%d events instead of one %s' % (len(evs), n)):
            r = self.same_event(c, evs[0], want)
            self.check(r is None, 'event', n, 'the event: %s' % r)
            self.check(evs[0][1] == self.bus(c), 'event', 'channel', 'the event is sent to another channel')

    # --- connections
    def connections(self):
        """The task that follows the emulator's events."""
        W, E = self.W, self.E
        b = W.find('event handler', lambda b, ts: any('broadcast::Receiver<pica::PicaEvent>' in t for t in ts[1:]) and len(ts) == 3)
        names = ['context' if t == W.t['Context'] else 'events' for t in b['locals'][1:3]]
        self.what = 'emulator event'
        ends = list(self.outcomes(self.future(b, names)))
        judged = set()
        for S, v in ends:
            rs = [e for e in S.log if e[0] == 'recv']
            if not rs:
                self.bad('follow', 'end', 'the task ends without receiving an event', ('C24', 'C25'))
                continue
            e = rs[-1]
            for c, r in explore(W, S, lambda c: self.end(c, e)):
                pass
            for lid in loops_of(S):
                judged.add(lid)
        n = 0
        for lid in sorted(judged):
            info = E.loops[lid]
            for B in info.backs:
                rs = [e for e in B.log[info.mlog:] if e[0] == 'recv']
                if not rs:
                    continue
                if len(rs) > 1:
                    self.gap('several events are received in one iteration')
                    continue
                n += 1
                for c, r in explore(W, B, lambda c: self.one(c, info, rs[0]), base=info.head):
                    pass
        self.paths['emulator events'] = n
        if not n and self.gaps:
            return
        self.check(n > 0, 'follow', 'loop', 'events are not received in a loop')

    def end(self, c, e):
        v = e[-1]
        if c.is_(v, 'Ok'):
            self.bad('follow', 'end on event', 'the task ends after an event', ('C24', 'C25'))
            return
        err = self.E.proj(c.S, v, ('vf', 1 - self.W.T_ok(v[1]), 0))
        self.check(c.is_(err, 'Closed'), 'follow', 'end when lagging', 'the task ends when it lags behind', ('C24', 'C25'))

    def one(self, c, info, e):
        W, E = self.W, self.E
        v = e[-1]
        evs, sc = self.effects(c.S, info.mlog), W.scene(c.S, info.head)
        if not c.is_(v, 'Ok'):
            self.check(not evs and not sc, 'follow', 'error', 'a failed reception has an effect')
            return
        p = E.proj(c.S, v, ('vf', W.T_ok(v[1]), 0))
        n = c.variant(p)
        vi = E.variant_index(W.t['PicaEvent'], n)
        fs = [x for x, _ in E.T[W.t['PicaEvent']]['v'][vi]['f']]
        val = lambda x: E.proj(c.S, p, ('vf', vi, fs.index(x)))
        cat = ('s', W.t['Category'], E.variant_index(W.t['Category'], 'Uci'), ())
        self.what = 'emulator event %s' % n
        self.check(all(x[0] == 'event' for x in evs), 'follow', 'effects', 'another effect than an event')
        if n == 'Connected':
            h, mac, pos = val('handle'), val('mac_address'), self.make(c, [I0] * 6)
            mids = {x[1] for x in c.S.log[info.mlog:] if x[0] in ('map-insert', 'map-replace')}
            good = False
            if len(mids) == 1 and len(sc) <= 1:
                mid = next(iter(mids))
                m = models.get_map(E, c.S, mid)
                ks = [k for k, (q, ip) in m.entries.items() if q and self.equal(c, k, h)]
                if len(ks) == 1 and all(x[1] == ks[0] for x in sc):
                    el = c.S.mem.get(('E', mid, m.ver, ks[0]))
                    good = el is not None and all(self.equal(c, self.f(c, el, a), x) for a, x in (
                        ('category', cat), ('mac_address', mac), ('position', pos)))
            self.check(good, 'scene', 'connected', 'the scene does not gain exactly the connected device under its handle')
            self.one_event(c, evs, self.event('DeviceAdded', category=cat, mac_address=mac, position=pos))
        elif n == 'Disconnected':
            h, mac = val('handle'), val('mac_address')
            good = len(sc) <= 1 and all(x[0] == 'gone' and self.equal(c, x[1], h) for x in sc)
            if good and not sc:
                good = any(not q and self.equal(c, k, h) for mid in c.S.maps if W.mkind(mid)
                           for k, (q, ip) in c.S.maps[mid].entries.items())
            self.check(good, 'scene', 'disconnected', 'the scene does not lose exactly the disconnected device')
            self.one_event(c, evs, self.event('DeviceRemoved', category=cat, mac_address=mac))
        self.what = 'emulator event'

    # --- the estimator
    def estimate(self):
        W, E = self.W, self.E
        self.what = 'ranging estimate'
        b = [b for b in E.bodies.values() if b['name'].endswith('as pica::RangingEstimator>::estimate')]
        if len(b) != 1:
            raise AnalysisError('%d estimators' % len(b))
        b = b[0]
        S = St()
        args = [E.sym(t, ('arg', n, i)) for i, (t, n) in enumerate(zip(b['locals'][1:4], ('self', 'left', 'right')))]
        for S1, v in self.outcomes(E.run_body(S, b['id'], args)):
            for c, _ in explore(W, S1, lambda c: self.estimate1(c, args, v)):
                pass

    def estimate1(self, c, args, v):
        W, E = self.W, self.E
        l, r = (models.deref(E, c.S, a) for a in args[1:])
        self.quiet(c.S)
        mids = [m for m in c.S.maps if W.mkind(m)]
        if v[0] != 's':
            return self.gap('the estimate is %s' % W.show(v)[:200])
        some = W.vname(v[1], v[2]) == 'Some'
        if len(mids) != 1:
            return self.check(not some, 'estimate', 'scene', 'an estimate does not depend on the scene')
        mid = mids[0]
        k1 = c.initially(mid, l)
        k2 = c.initially(mid, r) if k1 is not None else None
        if k1 is None or k2 is None:
            return self.check(not some, 'estimate', 'unknown device', 'there is an estimate for a device that is not in the scene')
        if not self.check(some, 'estimate', 'known devices', 'there is no estimate for two devices in the scene'):
            return
        m = v[3][0]
        p1, p2 = (self.f(c, W.init_elem(mid, 0, k), 'position') for k in (k1, k2))
        want = self.geo_of(c, p1, p2)
        fs = E.fields(m[1])
        for (n, _), x in zip(fs, self.parts(c, m)):
            w = want.get({'range': 'distance'}.get(n, n))
            if w is not None:
                self.check(self.equal(c, x, w), 'estimate', n, 'the %s is %s' % (n, W.show(x)[:200]))


def kebab(s):
    return ''.join(('-' if i and ch.isupper() else '') + ch.lower() for i, ch in enumerate(s))


def E_fields(E, ty):
    return E.fields(ty)


ROUTES = {'events': 1, 'get-state': 1, 'init-uci-device': 2, 'set-position': 2, 'create-anchor': 2, 'destroy-anchor': 2}
DEBUG = bool(os.environ.get('PICA_DEBUG'))


if __name__ == '__main__':
    import sys
    import spec
    sys.setrecursionlimit(20000)
    F = spec.Findings()
    h = Http(Web(), F).run()
    for p, d in sorted(F.viol.items()):
        for k, t in d.items():
            print('VIOL', p, k, t[:400])
    for p, d in sorted(F.ob.items()):
        print(p, {k: n for k, (n, _) in d.items()})
    print(h.paths)
    for g in h.gaps:
        print('GAP', g[:300])
    print(h.E.unknown, h.E.gaps)
