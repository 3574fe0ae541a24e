"""C27: the web interface, the API description and the console use the interface that the HTTP server offers.

The server's side comes from interpreting its MIR (web.py: which paths are answered by which route; interface.py: what is
written and read by the serde implementations); the clients' side from their syntax trees."""
import ast
import os
import re
from urllib.parse import urljoin, urlsplit

import core
import jsabs
import spec
import web
import interface
from engine import AnalysisError

RULES = {
    'path': 'a path that a client requests is answered by the server',
    'described': 'a path of the API document is answered by the server, and each route of the server is in the document',
    'event name': 'an event that a client listens to, or that is described, is emitted under this name',
    'field': 'a field that a client reads from an answer or event is written there',
    'body': 'a JSON body has all the keys the server needs',
    'meaning': 'what is written and read under a key is the field of that name',
    'file': 'a file that a page or module loads is served',
    'name': 'a class, member, field or method of the Python bindings that is used exists',
    'port': 'the default ports of client and server agree',
    'own event': 'an event that the page expects from its own components is dispatched, and its elements are defined',
}
FLOORS = {'path': 4, 'described': 6, 'event name': 4, 'field': 12, 'body': 2, 'file': 4, 'name': 30, 'meaning': 6, 'own event': 2}
POS = ('x', 'y', 'z', 'yaw', 'pitch', 'roll')
BODY = ('init-uci-device', 'set-position', 'create-anchor')
CONSOLE = 'py/pica/console.py'
INIT = 'py/pica/pica/__init__.py'
UCI = 'py/pica/pica/packets/uci.py'
ARRAY = {'length'}
DOM = {'load', 'click', 'input', 'change', 'error', 'open', 'message', 'close', 'resize', 'submit', 'focus', 'blur', 'scroll', 'select'}


def rd(p):
    with open(os.path.join(core.REPO, p), encoding='utf-8') as f:
        return f.read()


class Server:
    """What the server offers."""

    def __init__(self, gaps):
        F = spec.Findings()
        h = self.http = web.Http(web.Web(), F)
        h.what = 'requests'
        h.guard(h.requests)
        self.partial = 'gap' in h.routes or any(g.startswith('requests') for g in h.gaps)
        gaps += h.gaps
        self.routes = {r: web.ROUTES[r] for r in h.routes if r in web.ROUTES}
        self.files = {p: h.statics[p] for p in h.served}
        self.extra = dict(h.extra)
        self.E = h.E
        self.events = self.state = self.position = None
        self.body = (None, None)
        try:
            J = interface.Interface(web.Web())
        except AnalysisError as e:
            gaps.append('interface: %s' % e)
            return
        for n in ('events', 'state', 'body', 'position'):
            try:
                setattr(self, n, getattr(J, n)())
            except (AnalysisError, KeyError, IndexError, TypeError, ValueError, AttributeError) as e:
                gaps.append('interface, %s: %s' % (n, e))
        self.names = {}
        self.fields = {}
        if self.events:
            for var, (name, shape) in self.events.items():
                self.names[name] = shape

    def route(self, path):
        """The route or file a path (a tuple with None for unknown parts) leads to; None when nothing does, '?' when not known."""
        if None not in path and '/' + '/'.join(path) in self.files:
            return '/' + '/'.join(path)
        if path[0] is None:
            return '?'
        n = self.routes.get(path[0])
        if n is not None:
            return path[0] if n == len(path) else None
        if path[0] in self.extra:
            return path[0] if self.extra[path[0]] in (None, len(path)) else None
        if None not in path and '/' + '/'.join(path) in self.extra:
            return '/' + '/'.join(path)
        return '?' if self.partial else None

    def shape(self, src):
        if src[0] == 'event':
            shs = [self.names.get(x) for x in src[1].split('|')]
            if len(shs) == 1 or None in shs:
                return shs[0] if len(shs) == 1 else None
            return ('object', {k: v for sh in shs for k, v in sh[1].items()}, set.intersection(*[sh[2] for sh in shs]))
        if src[0] == 'route' and src[1] == 'get-state':
            return self.state
        return None


class Clients:
    def __init__(self, r):
        self.r = r
        self.server = Server(r.gaps)
        self.n = {'files': [], 'requests': 0, 'listeners': 0, 'reads': 0, 'names': 0}

    def bad(self, rule, key, text):
        self.r.bad(rule, key, text)

    def check(self, c, rule, key, text, ok=''):
        return self.r.check(c, rule, key, text, ok or key)

    def guard(self, what, f, *a):
        try:
            return f(*a)
        except (jsabs.ParseError, SyntaxError, OSError, UnicodeError) as e:
            self.r.gaps.append('%s: %s' % (what, e))
        except (AnalysisError, IndexError, KeyError, TypeError, ValueError, AttributeError) as e:
            if web.DEBUG:
                raise
            self.r.gaps.append('%s: internal %r' % (what, e))

    def run(self):
        self.guard('server', self.rust)
        self.guard('web pages', self.pages)
        self.guard('API document', self.openapi)
        self.guard('console', self.python)
        return self

    # --- server
    def rust(self):
        s = self.server
        keys, need = s.body
        for k, f in (keys or {}).items():
            if k in POS and f in POS:
                self.check(k == f, 'meaning', 'body %s' % k, 'the key %s of a request body is read as %s' % (k, f))
        if need is not None:
            for k in sorted(set(need) - set(keys)):
                self.bad('meaning', 'body %s' % k, 'the mandatory key %s of a request body is never read' % k)
        for i, k in enumerate(POS):
            j = (s.position or {}).get(k)
            if j is not None:
                self.check(i == j, 'meaning', 'position %s' % k, 'the key %s of a position is written with the value of %s' % (k, POS[j]))

    # --- web
    def pages(self):
        s = self.server
        todo = sorted(p for p, f in s.files.items() if f.endswith('.html'))
        done, mods, imports = set(), [], {}
        for p in todo:
            page = jsabs.Page(rd(s.files[p]))
            imports.update(page.imports)
            name = os.path.relpath(s.files[p], core.REPO)
            self.n['files'].append(name)
            for ref, ln, tag in page.refs:
                self.ref(p, ref, '%s:%d' % (name, ln))
            for text, ln, kind in page.scripts:
                m = self.guard(name, lambda: jsabs.Module(name, jsabs.parse(text, kind), ln - 1))
                if m is not None:
                    mods.append((p, m, page))
            self.tags = getattr(self, 'tags', []) + [(t, '%s:%d' % (name, ln)) for t, ln in page.tags if '-' in t]
        i = 0
        while i < len(mods):
            base, m, page = mods[i]
            i += 1
            for ref, n in jsabs.imports(m.tree):
                if not ref.startswith(('.', '/')) and '://' not in ref:
                    ref2 = next((v + ref[len(k):] for k, v in imports.items() if ref == k or k.endswith('/') and ref.startswith(k)), None)
                    if not self.check(ref2 is not None, 'file', '%s import %s' % (m.at(n), ref), 'the module %s that is imported has no address' % ref):
                        continue
                    ref = ref2
                q = self.ref(base, ref, m.at(n))
                if q and q not in done and q in s.files:
                    done.add(q)
                    name = os.path.relpath(s.files[q], core.REPO)
                    self.n['files'].append(name)
                    m2 = self.guard(name, lambda: jsabs.Module(name, jsabs.parse(rd(s.files[q]), 'module')))
                    if m2 is not None:
                        mods.append((q, m2, None))
        for base, m, page in mods:
            self.guard(m.name, self.script, base, m)
        self.components([m for _, m, _ in mods])

    def ref(self, base, ref, at):
        """A reference to a file; the path when it goes to the server."""
        u = urlsplit(urljoin('http://server' + base, ref))
        if u.netloc != 'server' or u.scheme != 'http':
            return None
        path = u.path or '/'
        to = self.server.route(tuple(path.lstrip('/').split('/')))
        if to == '?':
            self.r.gaps.append('%s: whether %s is served' % (at, ref))
            return None
        self.check(to is not None, 'file', '%s %s' % (at.split(':')[0], ref), '%s: the server does not serve %s' % (at, path))
        return path

    def script(self, base, m):
        s = self.server
        a = jsabs.Analysis(m, lambda p: (lambda x: x if x and x != '?' else None)(s.route(p)), base).run()
        for n, what in a.unknown:
            self.r.gaps.append('%s: %s' % (m.at(n), what))
        for p, n in a.requests:
            self.n['requests'] += 1
            self.path(p, m.at(n))
        for name, n in a.listens:
            self.n['listeners'] += 1
            if s.events is not None and name not in ('open', 'error', 'message'):
                self.check(name in s.names, 'event name', '%s %s' % (m.name, name), '%s: the server emits no event %s' % (m.at(n), name))
        for src, path, k, n, called in a.reads:
            sh = s.shape(src)
            for x in path:
                sh = sh[1].get(x) if sh and sh[0] == 'object' else sh[1] if sh and sh[0] == 'array' and x == 0 else None
            if sh is None or called or sh[0] == 'array':
                continue
            self.n['reads'] += 1
            self.check(k in sh[1] and k not in sh[2], 'field', '%s %s.%s' % (m.name, src[1], k), '%s: %s has no field %s%s' % (
                m.at(n), ' '.join(src), k, ' on some path' if k in sh[1] else ''))
        for p, keys, n in a.bodies:
            self.sent(p, set(keys), m.at(n))
        for p, key, src, path, n in a.crossed:
            sh, other = s.shape(src), path[-1]
            for x in path[:-1]:
                sh = sh[1].get(x) if sh and sh[0] == 'object' else sh[1] if sh and sh[0] == 'array' and x == 0 else None
            if sh and sh[0] == 'object' and key in sh[1] and other in sh[1]:
                self.check(False, 'meaning', '%s %s' % (m.name, key), '%s: the field %s of %s is used as %s' % (
                    m.at(n), other, ' '.join(src), key))
        # the documents that the API page shows
        for n in m.nodes:
            if n['type'] == 'CallExpression' and (n['callee'].get('name') == 'SwaggerUIBundle') and n['arguments']:
                o = a.object(n['arguments'][0])
                for p in (o or {}).get('properties', ()):
                    if p['type'] == 'Property' and p['key'].get('name') == 'url':
                        for alt in a.strings(p['value']):
                            if None not in alt:
                                self.ref(base, ''.join(alt), m.at(n))

    def path(self, p, at):
        to = self.server.route(p)
        text = '/' + '/'.join(x if x is not None else '{}' for x in p)
        if to == '?':
            self.r.gaps.append('%s: whether %s is served' % (at, text))
        else:
            self.check(to is not None, 'path', '%s %s' % (at.split(':')[0], text), '%s: the server answers %s with 404' % (at, text))

    def sent(self, p, keys, at):
        need = self.server.body[1]
        if need is None or p[0] not in BODY:
            return
        miss = sorted(set(need) - keys)
        self.check(not miss, 'body', '%s %s' % (at.split(':')[0], p[0]), '%s: the body for %s lacks %s' % (at, p[0], ', '.join(miss)))

    def components(self, mods):
        """The events and elements of the page's own components."""
        sent, defined, opaque = set(), set(), False
        for m in mods:
            a = jsabs.Analysis(m, lambda p: None)
            for n in m.nodes:
                if n['type'] == 'NewExpression' and n['callee'].get('name') in ('CustomEvent', 'Event') and n['arguments']:
                    for alt in a.strings(n['arguments'][0]):
                        if None in alt:
                            opaque = True
                        sent.add(''.join(x or '' for x in alt))
                if n['type'] == 'CallExpression' and n['callee'].get('property', {}).get('name') == 'define' and n['arguments']:
                    for alt in a.strings(n['arguments'][0]):
                        if None in alt:
                            opaque = True
                        defined.add(''.join(x or '' for x in alt))
                if n['type'] == 'Decorator':
                    opaque = True
        if opaque:
            return
        for t, at in getattr(self, 'tags', ()):
            self.check(t in defined, 'own event', 'element %s' % t, '%s: the element %s is not defined' % (at, t))
        for m in mods:
            a = jsabs.Analysis(m, lambda p: None)
            for n in m.nodes:
                if n['type'] == 'TemplateElement' and m.parents[id(n)]['type'] == 'TemplateLiteral':
                    for t in re.findall(r'<([a-z][a-z0-9]*(?:-[a-z0-9]+)+)[\s>/]', n['value']['cooked'] or ''):
                        if not t.startswith(('font-face', 'missing-glyph', 'color-profile', 'annotation-xml')):
                            self.check(t in defined, 'own event', 'element %s' % t, '%s: the element %s is not defined' % (m.at(n), t))
                if n['type'] != 'CallExpression' or n['callee'].get('property', {}).get('name') != 'addEventListener' or len(n['arguments']) < 2:
                    continue
                o = n['callee']['object']
                if a.source(o) or o.get('name') in ('window', 'document') or not self.element(a, o, defined):
                    continue
                for alt in a.strings(n['arguments'][0]):
                    if None not in alt and ('-' in alt[0] or ''.join(alt) not in DOM | {'move'} or ''.join(alt) in ('move',)):
                        name = ''.join(alt)
                        if name.startswith(('mouse', 'key', 'touch', 'pointer', 'drag', 'transition', 'animation')):
                            continue
                        self.check(name in sent, 'own event', 'event %s' % name, '%s: no component dispatches %s' % (m.at(n), name))

    def element(self, a, o, defined):
        """Is it one of the page's own elements?"""
        for v, p, _ in a.binding_values(o):
            if isinstance(v, dict) and v['type'] == 'CallExpression' and v['callee'].get('property', {}).get('name') in ('getElementById', 'querySelector'):
                return True
        return False

    # --- API document
    def openapi(self):
        s = self.server
        f = os.path.join(core.REPO, 'static', 'openapi.yaml')
        if not os.path.exists(f):
            return
        try:
            import yaml
        except ImportError:
            self.r.gaps.append('API document: no YAML parser')
            return
        try:
            d = yaml.safe_load(open(f, encoding='utf-8'))
        except yaml.YAMLError as e:
            self.bad('described', 'syntax', 'the API document is not valid: %s' % str(e).replace('\n', ' ')[:200])
            return
        self.n['files'].append('static/openapi.yaml')
        described = set()
        for p in d.get('paths') or {}:
            segs = tuple(None if x.startswith('{') and x.endswith('}') else x for x in p.lstrip('/').split('/'))
            described.add((segs[0], len(segs)))
            to = s.route(segs)
            if to == '?':
                self.r.gaps.append('openapi.yaml: whether %s is served' % p)
                continue
            self.check(to is not None, 'described', 'described %s' % p, 'static/openapi.yaml: the server answers %s with 404' % p)
            params = self.params(d, d['paths'][p])
            for x in p.lstrip('/').split('/'):
                if x.startswith('{') and params is not None:
                    self.check(x[1:-1] in params, 'described', 'parameter %s %s' % (p, x), 'static/openapi.yaml: the parameter %s of %s is not declared' % (x, p))
        for r, n in s.routes.items():
            self.check((r, n) in described, 'described', 'route %s' % r, 'the route %s with %d parts is not in static/openapi.yaml' % (r, n))
        for r, n in s.extra.items():
            if not r.startswith('/'):
                self.check(any(r == x and n in (None, k) for x, k in described), 'described', 'route %s' % r, 'the route %s is not in static/openapi.yaml' % r)
        if s.events is not None:
            for name, data in self.consts(d, d.get('paths') or {}):
                self.check(name in s.names, 'event name', 'described %s' % name, 'static/openapi.yaml: the server emits no event %s' % name)
                self.data(d, name, data, s.names.get(name))
        # the keys of a position
        body = s.body[0]
        props = (((d.get('components') or {}).get('schemas') or {}).get('Position') or {}).get('properties')
        if body and isinstance(props, dict):
            for k in props:
                self.check(k in body, 'body', 'described %s' % k, 'static/openapi.yaml: the server does not read %s from a position' % k)
            for k in s.body[1] or ():
                self.check(k in props, 'body', 'described %s' % k, 'static/openapi.yaml: the mandatory key %s of a position is not described' % k)

    def params(self, d, item):
        out = set()
        for x in [item] + [v for v in item.values() if isinstance(v, dict)]:
            for p in x.get('parameters') or ():
                p = self.deref(d, p)
                if p is None:
                    return None
                out.add(p.get('name'))
        return out

    def deref(self, d, x):
        if isinstance(x, dict) and '$ref' in x:
            y = d
            for k in x['$ref'].lstrip('#/').split('/'):
                y = y.get(k) if isinstance(y, dict) else None
            if not self.check(isinstance(y, dict), 'described', 'reference %s' % x['$ref'], 'static/openapi.yaml: %s does not exist' % x['$ref']):
                return None
            return y
        return x if isinstance(x, dict) else None

    def consts(self, d, x):
        if isinstance(x, dict):
            ps = x.get('properties')
            if isinstance(ps, dict) and isinstance(ps.get('event'), dict):
                e = ps['event']
                for n in [e['const']] if 'const' in e else e.get('enum', ()):
                    yield n, ps.get('data')
            for v in x.values():
                yield from self.consts(d, v)
        elif isinstance(x, list):
            for v in x:
                yield from self.consts(d, v)

    def data(self, d, name, data, shape):
        """The top-level fields of the data of an event (a nested position stands for its fields)."""
        data = self.deref(d, data)
        if not data or not shape or not isinstance(data.get('properties'), dict):
            return
        for k, v in data['properties'].items():
            if k == 'position' and 'position' not in shape[1]:
                continue
            self.check(k in shape[1], 'field', 'described %s.%s' % (name, k), 'static/openapi.yaml: the event %s has no field %s' % (name, k))

    # --- Python
    def python(self):
        tree = ast.parse(rd(UCI))
        self.bind = Bindings(tree)
        self.n['files'].append(UCI)
        init = ast.parse(rd(INIT))
        self.host = {n.name: members(n) for n in init.body if isinstance(n, ast.ClassDef)}
        for p, t in ((INIT, init), (CONSOLE, ast.parse(rd(CONSOLE)))):
            self.n['files'].append(p)
            self.guard(p, self.names, p, t)
            if p == CONSOLE:
                self.guard(p, self.console, p, t)
        self.guard('ports', self.ports)

    def names(self, p, tree):
        B = self.bind
        mods = set()
        for n in ast.walk(tree):
            if isinstance(n, ast.ImportFrom):
                last = (n.module or '').split('.')[-1]
                for x in n.names:
                    if x.name == 'uci' and last == 'packets':
                        mods.add(x.asname or x.name)
                    elif last == 'uci':
                        self.n['names'] += 1
                        self.check(x.name in B.top, 'name', '%s uci.%s' % (p, x.name), '%s:%d: the bindings have no %s' % (p, n.lineno, x.name))
                    elif (n.module == 'pica' and not n.level) and x.name not in ('packets',):
                        self.check(x.name in self.host, 'name', '%s pica.%s' % (p, x.name), '%s:%d: the module pica has no %s' % (p, n.lineno, x.name))
            elif isinstance(n, ast.Import):
                for x in n.names:
                    if x.name.endswith('packets.uci'):
                        if x.asname:
                            mods.add(x.asname)
        stored = {n.id for n in ast.walk(tree) if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Store)} | {
            a.arg for n in ast.walk(tree) if isinstance(n, ast.arguments) for a in n.args + n.kwonlyargs}
        mods -= stored

        def cls(e):
            """The class of the bindings an expression names."""
            if isinstance(e, ast.Attribute) and isinstance(e.value, ast.Name) and e.value.id in mods:
                return e.attr if e.attr in B.classes else None
            return None

        for n in ast.walk(tree):
            if isinstance(n, ast.Attribute) and isinstance(n.value, ast.Name) and n.value.id in mods:
                self.n['names'] += 1
                self.check(n.attr in B.top, 'name', '%s uci.%s' % (p, n.attr), '%s:%d: the bindings have no %s' % (p, n.lineno, n.attr))
            elif isinstance(n, ast.Attribute) and cls(n.value):
                c = cls(n.value)
                self.n['names'] += 1
                ok = B.member(c, n.attr)
                if ok is not None:
                    self.check(ok, 'name', '%s %s.%s' % (p, c, n.attr), '%s:%d: %s has no %s' % (p, n.lineno, c, n.attr))
            if isinstance(n, ast.Call) and cls(n.func):
                c = cls(n.func)
                fs = B.fields(c)
                if fs is None:
                    continue
                self.n['names'] += 1
                self.check(not n.args, 'name', '%s %s(...)' % (p, c), '%s:%d: %s takes keyword arguments only' % (p, n.lineno, c))
                for k in n.keywords:
                    if k.arg is None:
                        continue
                    self.n['names'] += 1
                    if self.check(k.arg in fs or k.arg == 'payload', 'name', '%s %s(%s=)' % (p, c, k.arg), '%s:%d: %s has no field %s' % (p, k.value.lineno, c, k.arg)):
                        want = fs.get(k.arg)
                        v = k.value
                        vs = list(v.elts) if isinstance(v, (ast.List, ast.Tuple)) else [v]
                        for v in vs:
                            got = cls(v.value) if isinstance(v, ast.Attribute) else cls(v.func) if isinstance(v, ast.Call) else None
                            if got and want in B.classes and isinstance(v, (ast.Attribute, ast.Call)):
                                if isinstance(v, ast.Call) and B.fields(got) is None:
                                    continue
                                self.check(B.sub(got, want), 'name', '%s %s(%s=%s)' % (p, c, k.arg, got), '%s:%d: the field %s of %s is a %s, not a %s' % (
                                    p, v.lineno, k.arg, c, want, got))
            if isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and n.func.attr in ('send_control', 'send_data') and len(n.args) == 1 \
                    and isinstance(n.args[0], ast.Call) and cls(n.args[0].func):
                c, want = cls(n.args[0].func), {'send_control': 'ControlPacket', 'send_data': 'DataPacket'}[n.func.attr]
                self.check(B.sub(c, want), 'name', '%s %s(%s)' % (p, n.func.attr, c), '%s:%d: %s is not a %s' % (p, n.lineno, c, want))
                if want == 'ControlPacket' and self.emulator_side(c):
                    self.bad('name', '%s %s(%s)' % (p, n.func.attr, c), '%s:%d: %s is not a packet that a host sends' % (p, n.lineno, c))
        # members of self, of parameters with a declared class and of what self holds
        known = dict(self.host)
        known.update({n.name: members(n) for n in tree.body if isinstance(n, ast.ClassDef)})
        for c in tree.body:
            if isinstance(c, ast.ClassDef):
                if c.bases and not all(isinstance(b, ast.Name) and b.id in ('object',) for b in c.bases):
                    continue
                self.uses(p, c, c, known)
        for fdef in ast.walk(tree):
            if isinstance(fdef, (ast.FunctionDef, ast.AsyncFunctionDef)):
                for a in fdef.args.args + fdef.args.kwonlyargs:
                    if isinstance(a.annotation, ast.Name) and a.annotation.id in known:
                        self.on(p, fdef, a.arg, a.annotation.id, known)

    def emulator_side(self, c):
        return c.endswith(('Rsp', 'Ntf')) and not c.startswith(('Android', 'Test', 'Vendor')) or any(
            x.endswith(('Response', 'Notification')) for x in self.bind.mro(c)[1:])

    def on(self, p, scope, name, c, known):
        if any(isinstance(n, ast.Name) and n.id == name and isinstance(n.ctx, ast.Store) for n in ast.walk(scope)):
            return
        for n in ast.walk(scope):
            if isinstance(n, ast.Attribute) and isinstance(n.value, ast.Name) and n.value.id == name and known[c] is not None:
                self.n['names'] += 1
                self.check(n.attr in known[c], 'name', '%s %s.%s' % (p, c, n.attr), '%s:%d: %s has no member %s' % (p, n.lineno, c, n.attr))

    def uses(self, p, c, scope, known):
        holds = {}
        for n in ast.walk(c):
            if isinstance(n, ast.Assign) and len(n.targets) == 1 and isinstance(n.targets[0], ast.Attribute) and isinstance(n.targets[0].value, ast.Name) \
                    and n.targets[0].value.id == 'self':
                v = n.value
                k = v.func.id if isinstance(v, ast.Call) and isinstance(v.func, ast.Name) and v.func.id in known else None
                holds.setdefault(n.targets[0].attr, set()).add(k)
        mem = known[c.name]
        for n in ast.walk(c):
            if not isinstance(n, ast.Attribute):
                continue
            v = n.value
            if isinstance(v, ast.Name) and v.id == 'self' and mem is not None and not n.attr.startswith('__'):
                self.n['names'] += 1
                self.check(n.attr in mem, 'name', '%s %s.%s' % (p, c.name, n.attr), '%s:%d: %s has no member %s' % (p, n.lineno, c.name, n.attr))
            elif isinstance(v, ast.Attribute) and isinstance(v.value, ast.Name) and v.value.id == 'self':
                k = holds.get(v.attr, set())
                if len(k) == 1 and None not in k and known[next(iter(k))] is not None:
                    k = next(iter(k))
                    self.n['names'] += 1
                    self.check(n.attr in known[k], 'name', '%s %s.%s' % (p, k, n.attr), '%s:%d: %s has no member %s' % (p, n.lineno, k, n.attr))

    def console(self, p, tree):
        P = PyPaths(tree)
        for n, fn, url, body in P.requests():
            self.n['requests'] += 1
            at = '%s:%d' % (p, n.lineno)
            for alt, env in url:
                q = jsabs.path_of(alt) if alt else None
                if q == 'external':
                    q = external(alt)
                if q is None:
                    self.r.gaps.append('%s: the path of a request' % at)
                    continue
                self.path(q, at)
                for d, e in body(env):
                    keys = {k.value for k in d.keys if isinstance(k, ast.Constant)}
                    if len(keys) != len(d.keys):
                        continue
                    self.sent(q, keys, at)
                    for k, v in zip(d.keys, d.values):
                        names = {x.id for x in ast.walk(v) if isinstance(x, ast.Name)} & set(POS)
                        if k.value in POS and names:
                            self.check(names == {k.value}, 'meaning', '%s %s %s' % (p, q[0], k.value), '%s:%d: the key %s is sent with the value of %s' % (
                                p, v.lineno, k.value, ', '.join(sorted(names))))
        # what is read from get-state
        for e in ast.walk(tree):
            if isinstance(e, ast.Subscript) and isinstance(e.value, ast.Call) and isinstance(e.value.func, ast.Attribute) and e.value.func.attr == 'json' \
                    and isinstance(e.slice, ast.Constant) and self.server.state and self.server.state[0] == 'object':
                self.check(e.slice.value in self.server.state[1], 'field', '%s get-state.%s' % (p, e.slice.value), '%s:%d: get-state has no field %s' % (
                    p, e.lineno, e.slice.value))

    def ports(self):
        want = {}
        for f in ('src/bin/http-server/main.rs', 'src/bin/main.rs'):
            if not os.path.exists(os.path.join(core.REPO, f)):
                continue
            text = rd(f)
            consts = dict(re.findall(r'const\s+(\w+)\s*:\s*u16\s*=\s*([\d_]+)\s*;', text))
            for attr, field in re.findall(r'#\[arg\(([^]]*)\)\]\s*(?:///[^\n]*\n\s*)*(?:pub\s+)?(\w+)\s*:\s*u16', text):
                m = re.search(r'default_value_t\s*=\s*(\w+)', attr)
                v = consts.get(m.group(1), m.group(1)) if m else None
                if v and v.replace('_', '').isdigit():
                    kind = 'uci' if 'uci' in field else 'web' if 'web' in field or 'http' in field else None
                    want.setdefault(kind, []).append((int(v.replace('_', '')), f))
        us = want.get('uci', [])
        if len(us) > 1:
            self.check(len({v for v, _ in us}) == 1, 'port', 'servers', 'the default UCI ports of %s differ' % ' and '.join(f for _, f in us))
        tree = ast.parse(rd(CONSOLE))
        for n in ast.walk(tree):
            if isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and n.func.attr == 'add_argument' and n.args and isinstance(n.args[-1], ast.Constant):
                o = str(n.args[-1].value)
                kind = 'uci' if 'uci' in o and 'port' in o else 'web' if ('http' in o or 'web' in o) and 'port' in o else None
                d = next((k.value for k in n.keywords if k.arg == 'default'), None)
                if isinstance(d, ast.Name):
                    vs = [x.value for x in tree.body if isinstance(x, ast.Assign) and any(isinstance(t, ast.Name) and t.id == d.id for t in x.targets)]
                    d = vs[0] if len(vs) == 1 else None
                if kind and isinstance(d, ast.Constant) and isinstance(d.value, int) and want.get(kind):
                    self.check(all(v == d.value for v, _ in want[kind]), 'port', 'console %s' % kind, '%s:%d: the default of %s is %s, the server\'s is %s' % (
                        CONSOLE, n.lineno, o, d.value, want[kind][0][0]))


def external(alt):
    """The path after a host that is spelled out."""
    s = ''.join('\0' if x is None else x for x in alt)
    u = s.split('://', 1)[-1]
    if '/' not in u:
        return None
    return tuple(None if '\0' in x else x for x in u.split('/', 1)[1].split('?')[0].split('/'))


def members(c):
    """The members of a class, None when they cannot be enumerated."""
    out = set()
    for n in c.body:
        if isinstance(n, (ast.FunctionDef, ast.AsyncFunctionDef, ast.ClassDef)):
            if n.name in ('__getattr__', '__getattribute__'):
                return None
            out.add(n.name)
        elif isinstance(n, ast.Assign):
            out |= {x.id for t in n.targets for x in ast.walk(t) if isinstance(x, ast.Name)}
        elif isinstance(n, ast.AnnAssign) and isinstance(n.target, ast.Name):
            out.add(n.target.id)
    for n in ast.walk(c):
        if isinstance(n, ast.Attribute) and isinstance(n.ctx, ast.Store) and isinstance(n.value, ast.Name) and n.value.id == 'self':
            out.add(n.attr)
        elif isinstance(n, ast.Call) and isinstance(n.func, ast.Name) and n.func.id == 'setattr':
            return None
    if any(not (isinstance(b, ast.Name) and b.id == 'object') for b in c.bases):
        return None
    return out


class Bindings:
    """The classes of the Python bindings."""

    def __init__(self, tree):
        self.classes = {n.name: n for n in tree.body if isinstance(n, ast.ClassDef)}
        self.top = set(self.classes)
        for n in tree.body:
            if isinstance(n, (ast.FunctionDef, ast.AsyncFunctionDef)):
                self.top.add(n.name)
            elif isinstance(n, (ast.Import, ast.ImportFrom)):
                self.top |= {(a.asname or a.name).split('.')[0] for a in n.names}
            else:
                self.top |= {x.id for x in ast.walk(n) if isinstance(x, ast.Name) and isinstance(x.ctx, ast.Store)}

    def bases(self, c):
        return [b.id for b in self.classes[c].bases if isinstance(b, ast.Name)] if c in self.classes else []

    def mro(self, c):
        out = [c]
        for b in self.bases(c):
            out += self.mro(b)
        return out

    def sub(self, c, want):
        return want in self.mro(c)

    def member(self, c, a):
        """Does a class have a member? None when its bases are not all known."""
        for x in self.mro(c):
            if x not in self.classes:
                if x in ('IntEnum', 'Enum', 'int', 'object'):
                    if a.startswith('_') or a in ('name', 'value', 'to_bytes', 'from_bytes', 'mro'):
                        return True
                    continue
                return None
            n = self.classes[x]
            for s in n.body:
                if isinstance(s, (ast.FunctionDef, ast.AsyncFunctionDef)) and s.name == a:
                    return True
                for t in s.targets if isinstance(s, ast.Assign) else [s.target] if isinstance(s, ast.AnnAssign) else ():
                    if isinstance(t, ast.Name) and t.id == a:
                        return True
        return a.startswith('__')

    def fields(self, c):
        """{field: class of its values} of a packet, None for something else."""
        ms = self.mro(c)
        if 'Packet' not in ms:
            return None
        out = {}
        for x in ms:
            for s in self.classes[x].body if x in self.classes else ():
                if isinstance(s, ast.AnnAssign) and isinstance(s.target, ast.Name):
                    if isinstance(s.value, ast.Call) and any(k.arg == 'init' and isinstance(k.value, ast.Constant) and k.value.value is False for k in s.value.keywords):
                        continue
                    t = s.annotation
                    while isinstance(t, ast.Subscript):
                        t = t.slice
                    out.setdefault(s.target.id, t.id if isinstance(t, ast.Name) else None)
        return out


class PyPaths:
    """Which paths the console requests."""
    METHODS = {'get', 'post', 'put', 'delete', 'patch', 'head', 'options'}

    def __init__(self, tree):
        self.tree = tree
        self.funcs, self.owner, self.parent = {}, {}, {}
        for n in ast.walk(tree):
            for c in ast.iter_child_nodes(n):
                self.parent[c] = n
        for n in ast.walk(tree):
            if isinstance(n, (ast.FunctionDef, ast.AsyncFunctionDef)):
                self.funcs.setdefault(n.name, []).append(n)
        self.globals = {}
        for n in tree.body:
            if isinstance(n, ast.Assign):
                for t in n.targets:
                    if isinstance(t, ast.Name):
                        self.globals.setdefault(t.id, []).append(n.value)
        self.mods, self.direct = set(), {}
        for n in ast.walk(tree):
            if isinstance(n, ast.Import):
                self.mods |= {a.asname or a.name for a in n.names if a.name == 'requests'}
            elif isinstance(n, ast.ImportFrom) and n.module == 'requests':
                self.direct.update({a.asname or a.name: a.name for a in n.names})

    def fn(self, n):
        while n is not None and not isinstance(n, (ast.FunctionDef, ast.AsyncFunctionDef)):
            n = self.parent.get(n)
        return n

    def callee(self, c):
        """The function of the console that is called, and whether it is a method."""
        f = c.func
        if isinstance(f, ast.Name) and len(self.funcs.get(f.id, ())) == 1:
            return self.funcs[f.id][0], 0
        if isinstance(f, ast.Attribute) and isinstance(f.value, ast.Name) and f.value.id in ('self', 'device') and len(self.funcs.get(f.attr, ())) == 1:
            g = self.funcs[f.attr][0]
            return g, 0 if any(isinstance(d, ast.Name) and d.id == 'staticmethod' for d in g.decorator_list) else 1
        return None, 0

    def args(self, call, f, skip):
        ps = [a.arg for a in f.args.posonlyargs + f.args.args][skip:]
        env = {}
        ds = f.args.defaults
        for a, d in zip((f.args.posonlyargs + f.args.args)[len(f.args.posonlyargs + f.args.args) - len(ds):], ds):
            env[a.arg] = d
        for a, d in zip(f.args.kwonlyargs, f.args.kw_defaults):
            if d is not None:
                env[a.arg] = d
        for p, a in zip(ps, call.args):
            if isinstance(a, ast.Starred):
                return None
            env[p] = a
        for k in call.keywords:
            if k.arg:
                env[k.arg] = k.value
        return env

    def calls_of(self, f):
        for n in ast.walk(self.tree):
            if isinstance(n, ast.Call):
                g, skip = self.callee(n)
                if g is f:
                    e = self.args(n, f, skip)
                    if e is not None:
                        yield n, e

    def requests(self):
        for n in ast.walk(self.tree):
            if not isinstance(n, ast.Call):
                continue
            f = n.func
            name = None
            if isinstance(f, ast.Attribute) and isinstance(f.value, ast.Name) and f.value.id in self.mods:
                name = f.attr
            elif isinstance(f, ast.Name) and f.id in self.direct:
                name = self.direct[f.id]
            if name in self.METHODS:
                url = n.args[0] if n.args else next((k.value for k in n.keywords if k.arg == 'url'), None)
            elif name == 'request':
                url = n.args[1] if len(n.args) > 1 else next((k.value for k in n.keywords if k.arg == 'url'), None)
            else:
                continue
            data = next((k.value for k in n.keywords if k.arg in ('data', 'json')), n.args[1] if name == 'post' and len(n.args) > 1 else None)
            fn = self.fn(n)
            envs = [(None, None)]
            if fn is not None and self.depends(url, fn):
                envs = [(c, e) for c, e in self.calls_of(fn)] or envs
            alts = []
            for c, e in envs:
                env = (fn, e, self.fn(c)) if c is not None else (fn, None, None)
                alts += [(a, env) for a in self.strings(url, env)]
            yield n, fn, alts, (lambda env, data=data: self.dicts(data, env))

    def depends(self, e, fn):
        ps = {a.arg for a in fn.args.args + fn.args.kwonlyargs} - {'self'}
        seen = set()
        todo = [e] if e is not None else []
        while todo:
            x = todo.pop()
            for n in ast.walk(x):
                if isinstance(n, ast.Name) and n.id not in seen:
                    seen.add(n.id)
                    todo += self.locals(fn, n.id)
        return bool(seen & ps) and fn.name.startswith('_') or bool(seen & ps) and any(True for _ in self.calls_of(fn))

    def locals(self, fn, name):
        out = []
        for n in ast.walk(fn) if fn is not None else ():
            if isinstance(n, ast.Assign):
                for t in n.targets:
                    if isinstance(t, ast.Name) and t.id == name:
                        out.append(n.value)
            elif isinstance(n, (ast.AugAssign,)) and isinstance(n.target, ast.Name) and n.target.id == name:
                out += [n.value, n.value]
        return out

    def strings(self, e, env, depth=0):
        """Alternatives, each a tuple of known parts and None for unknown ones."""
        if e is None or depth > 10:
            return [(None,)]
        if isinstance(e, ast.Constant):
            return [(str(e.value),)]
        if isinstance(e, ast.JoinedStr):
            out = [()]
            for v in e.values:
                alts = self.strings(v.value if isinstance(v, ast.FormattedValue) else v, env, depth + 1)
                out = [o + a for o in out for a in alts][:32]
            return out or [('',)]
        if isinstance(e, ast.BinOp) and isinstance(e.op, ast.Add):
            return [a + b for a in self.strings(e.left, env, depth + 1) for b in self.strings(e.right, env, depth + 1)][:32]
        if isinstance(e, ast.BinOp) and isinstance(e.op, ast.Mod) and isinstance(e.left, ast.Constant) and isinstance(e.left.value, str):
            out = []
            for part in re.split(r'(%[sd])', e.left.value):
                out.append(None if part in ('%s', '%d') else part)
            return [tuple(x for x in out if x != '')]
        if isinstance(e, ast.IfExp):
            return self.strings(e.body, env, depth + 1) + self.strings(e.orelse, env, depth + 1)
        if isinstance(e, ast.Name):
            fn, args, outer = env
            vs = self.locals(fn, e.id)
            if len(vs) == 1:
                return self.strings(vs[0], env, depth + 1)
            if not vs and args and e.id in args:
                return self.strings(args[e.id], (outer, None, None), depth + 1)
            if not vs and fn is not None and e.id not in {a.arg for a in fn.args.args} and len(self.globals.get(e.id, ())) == 1:
                return self.strings(self.globals[e.id][0], env, depth + 1)
            return [(None,)]
        if isinstance(e, ast.Call):
            if isinstance(e.func, ast.Attribute) and e.func.attr == 'format' and isinstance(e.func.value, ast.Constant):
                return [tuple(None if p.startswith('{') else p for p in re.split(r'(\{[^}]*\})', e.func.value.value) if p != '')]
            if isinstance(e.func, ast.Attribute) and e.func.attr == 'join' and isinstance(e.func.value, ast.Constant) and e.args and isinstance(e.args[0], (ast.List, ast.Tuple)):
                out = [()]
                for i, x in enumerate(e.args[0].elts):
                    out = [o + ((e.func.value.value,) if i else ()) + a for o in out for a in self.strings(x, env, depth + 1)]
                return out
            if isinstance(e.func, ast.Name) and e.func.id == 'str' and e.args:
                return self.strings(e.args[0], env, depth + 1)
            g, skip = self.callee(e)
            if g is not None:
                rs = [n.value for n in ast.walk(g) if isinstance(n, ast.Return) and n.value is not None]
                a = self.args(e, g, skip)
                if len(rs) == 1 and a is not None:
                    return self.strings(rs[0], (g, a, env[0]), depth + 1)
        return [(None,)]

    def dicts(self, e, env, depth=0):
        """The dictionaries that are sent."""
        if e is None or depth > 8:
            return []
        if isinstance(e, ast.Dict):
            return [(e, env)]
        if isinstance(e, ast.Call):
            f = e.func
            if isinstance(f, ast.Attribute) and f.attr == 'dumps' and e.args:
                return self.dicts(e.args[0], env, depth + 1)
            if isinstance(f, ast.Attribute) and f.attr == 'encode':
                return self.dicts(f.value, env, depth + 1)
            g, skip = self.callee(e)
            if g is not None:
                rs = [n.value for n in ast.walk(g) if isinstance(n, ast.Return) and n.value is not None]
                if len(rs) == 1:
                    return self.dicts(rs[0], (g, self.args(e, g, skip), env[0]), depth + 1)
        if isinstance(e, ast.Name):
            vs = self.locals(env[0], e.id)
            if len(vs) == 1:
                return self.dicts(vs[0], env, depth + 1)
            if not vs and env[1] and e.id in env[1]:
                return self.dicts(env[1][e.id], (env[2], None, None), depth + 1)
        return []


def run(r):
    r.explanation = ('The routes and files of the HTTP server and the JSON it writes and reads were computed by interpreting its MIR, the '
                     'serde implementations included. The syntax trees of the pages, modules and of the Python console, and the API '
                     'document, were searched for every request, listener, field access, loaded file and name of the bindings, and each '
                     'compared with what the server and the bindings offer.')
    r.assumptions += ['clients reach the server only with fetch, EventSource, XMLHttpRequest, sendBeacon and the Python module requests',
                      'the method of a request is ignored by the server (C24)']
    for k, v in RULES.items():
        r.rule(k, v)
    c = Clients(r).run()
    for k, n in FLOORS.items():
        r.floor(k, n)
    E = c.server.E
    r.analysed['functions'] = sorted({E.bodies[i]['name'] for i in E.analysed})
    r.analysed['files'] = c.n['files']
    r.analysed['requests'] = c.n['requests']
    r.analysed['listeners'] = c.n['listeners']
    r.analysed['field reads'] = c.n['reads']
    r.analysed['names of the bindings'] = c.n['names']
    return 'other'
