"""Flow-insensitive analysis of the JavaScript of the web interface: which paths it requests, which events it listens to,
which fields of the answers and events it reads, and which files it loads."""
import json
import os
import subprocess
from html.parser import HTMLParser
from urllib.parse import urljoin

MODULES = '/opt/veriftools/node/node_modules'
HERE = os.path.dirname(os.path.abspath(__file__))
FUNCS = ('FunctionDeclaration', 'FunctionExpression', 'ArrowFunctionExpression')
SAME = {'filter', 'slice', 'sort', 'reverse', 'toSorted', 'toReversed', 'concat', 'flat'}
ELEM = {'find', 'at', 'pop', 'shift', 'findLast'}
CALLBACK = {'map', 'forEach', 'filter', 'find', 'some', 'every', 'flatMap', 'findIndex', 'findLast', 'sort'}
ANY = object()


class ParseError(Exception):
    pass


def parse(text, kind='module'):
    p = subprocess.run(['node', os.path.join(HERE, 'jsparse.js'), MODULES, kind], input=text, capture_output=True, text=True)
    if p.returncode:
        raise ParseError(p.stderr.strip().split('\n')[0:6])
    return json.loads(p.stdout)


def line(n):
    return n['loc']['start']['line']


def children(n):
    for k, v in n.items():
        if k in ('loc', 'type'):
            continue
        if isinstance(v, dict) and 'type' in v:
            yield v
        elif isinstance(v, list):
            for x in v:
                if isinstance(x, dict) and 'type' in x:
                    yield x


class Page(HTMLParser):
    """The scripts and references of an HTML page."""

    def __init__(self, text):
        super().__init__()
        self.refs, self.scripts, self.imports, self.cur, self.buf, self.tags = [], [], {}, None, '', []
        self.feed(text)

    def handle_starttag(self, tag, attrs):
        a = dict(attrs)
        ln = self.getpos()[0]
        self.tags.append((tag, ln))
        if tag == 'script':
            if a.get('src'):
                self.refs.append((a['src'], ln, 'script'))
            self.cur, self.buf, self.at = a, '', ln
        elif tag == 'link' and a.get('href') and a.get('rel') not in ('preconnect', 'dns-prefetch'):
            self.refs.append((a['href'], ln, 'link'))
        elif tag in ('img', 'iframe', 'source', 'audio', 'video', 'embed') and a.get('src'):
            self.refs.append((a['src'], ln, tag))
        elif tag == 'a' and a.get('href') and not a['href'].startswith(('#', 'mailto:')):
            self.refs.append((a['href'], ln, 'a'))

    def handle_data(self, d):
        if self.cur is not None:
            self.buf += d

    def handle_endtag(self, tag):
        if tag == 'script' and self.cur is not None:
            t = self.cur.get('type', '')
            if t == 'importmap':
                self.imports.update(json.loads(self.buf).get('imports', {}))
            elif t in ('', 'module', 'text/javascript', 'application/javascript') and self.buf.strip():
                self.scripts.append((self.buf, self.at, 'module' if t == 'module' else 'script'))
            self.cur = None


class Scope:
    def __init__(self, parent, fn=None):
        self.parent, self.fn, self.names = parent, fn, {}

    def find(self, n):
        s = self
        while s is not None:
            if n in s.names:
                return s.names[n]
            s = s.parent
        return None


class Binding:
    """A name: the expressions it may stand for, each with the path into it that a pattern takes."""

    def __init__(self):
        self.values, self.param, self.fn, self.opaque = [], None, None, False


class Module:
    def __init__(self, name, tree, offset=0):
        self.name, self.tree, self.offset = name, tree, offset
        self.top = Scope(None)
        self.scope = {}
        self.calls = {}
        self.nodes = []
        self.parents = {}
        self.visit(tree, self.top, None)

    def at(self, n):
        return '%s:%d' % (self.name, line(n) + self.offset)

    def bind(self, scope, pat, value, path=()):
        """Declare the names of a pattern."""
        t = pat['type']
        if t == 'Identifier':
            b = scope.names.setdefault(pat['name'], Binding())
            if value is not None:
                b.values.append((value, path, scope))
            return b
        if t == 'AssignmentPattern':
            b = self.bind(scope, pat['left'], value, path)
            return b
        if t == 'ObjectPattern':
            for p in pat['properties']:
                if p['type'] == 'RestElement':
                    self.bind(scope, p['argument'], value, path + (ANY,)).opaque = True
                else:
                    k = p['key'].get('name') if not p['computed'] else None
                    k = p['key'].get('value') if k is None and p['key']['type'] == 'Literal' else k
                    self.bind(scope, p['value'], value, path + (k if k is not None else ANY,))
        elif t == 'ArrayPattern':
            for p in pat['elements']:
                if p:
                    self.bind(scope, p['argument'] if p['type'] == 'RestElement' else p, value, path + (0,))
        elif t == 'RestElement':
            self.bind(scope, pat['argument'], value, path + (ANY,))
        return None

    def visit(self, n, scope, parent):
        t = n['type']
        self.nodes.append(n)
        self.scope[id(n)] = scope
        self.parents[id(n)] = parent
        if t in FUNCS:
            if t == 'FunctionDeclaration' and n.get('id'):
                b = scope.names.setdefault(n['id']['name'], Binding())
                b.fn = n
            s = Scope(scope, n)
            for i, p in enumerate(n['params']):
                self.bind(s, p, ('param', id(n), i))
            n['_scope'] = s
            for c in children(n):
                self.visit(c, s, n)
            return
        if t in ('BlockStatement', 'ForStatement', 'ForOfStatement', 'ForInStatement', 'CatchClause', 'SwitchStatement'):
            scope = Scope(scope, scope.fn)
        if t == 'VariableDeclaration':
            for d in n['declarations']:
                v = d.get('init')
                if parent is not None and parent['type'] == 'ForOfStatement' and parent['left'] is n:
                    self.bind(scope, d['id'], parent['right'], (0,))
                else:
                    self.bind(scope, d['id'], v)
        elif t == 'AssignmentExpression':
            if n['left']['type'] == 'Identifier':
                b = scope.find(n['left']['name'])
                if b is not None:
                    if n['operator'] == '=':
                        b.values.append((n['right'], (), scope))
                    else:
                        b.opaque = True
        elif t == 'CallExpression' and n['callee']['type'] == 'Identifier':
            self.calls.setdefault(n['callee']['name'], []).append(n)
        elif t == 'ImportDeclaration':
            for s in n['specifiers']:
                scope.names.setdefault(s['local']['name'], Binding()).opaque = True
        for c in children(n):
            self.visit(c, scope, n)


class Analysis:
    """One page: its module and the modules it loads share nothing but the server."""

    def __init__(self, mod, routes, base='/'):
        self.m, self.routes, self.base = mod, routes, base
        self.crossed = []
        self.requests, self.listens, self.reads, self.bodies, self.unknown = [], [], [], [], []
        self.handlers = {}
        self.memo = {}

    # --- strings
    def strings(self, e, depth=0):
        """Alternatives, each a tuple of known parts and None for unknown ones."""
        if e is None or depth > 12 or isinstance(e, tuple) and e[0] != 'param':
            return [(None,)]
        if isinstance(e, tuple):
            return self.from_calls(e, lambda a: self.strings(a, depth + 1)) or [(None,)]
        t = e['type']
        if t == 'CallExpression' and e['callee']['type'] == 'MemberExpression' and e['callee']['property'].get('name') == 'join' \
                and e['callee']['object']['type'] == 'ArrayExpression' and len(e['arguments']) < 2:
            sep, out = self.strings(e['arguments'][0], depth + 1)[0] if e['arguments'] else (',',), [()]
            for i, x in enumerate(e['callee']['object']['elements']):
                out = [o + (sep if i else ()) + y for o in out for y in (self.strings(x, depth + 1) if x and x['type'] != 'SpreadElement' else [(None,)])][:32]
            return out or [('',)]
        if t == 'Literal':
            return [(e['value'],)] if isinstance(e['value'], str) else [(str(e['value']),)] if isinstance(e['value'], (int, float)) else [(None,)]
        if t == 'TemplateLiteral':
            out = [()]
            for i, q in enumerate(e['quasis']):
                out = [o + (q['value']['cooked'],) for o in out]
                if i < len(e['expressions']):
                    out = [o + x for o in out for x in self.strings(e['expressions'][i], depth + 1)][:32]
            return out
        if t == 'BinaryExpression' and e['operator'] == '+':
            return [a + b for a in self.strings(e['left'], depth + 1) for b in self.strings(e['right'], depth + 1)][:32]
        if t == 'ConditionalExpression':
            return self.strings(e['consequent'], depth + 1) + self.strings(e['alternate'], depth + 1)
        if t == 'LogicalExpression':
            return self.strings(e['left'], depth + 1) + self.strings(e['right'], depth + 1)
        if t == 'Identifier':
            b = self.m.scope[id(e)].find(e['name'])
            if b is None or b.opaque or b.fn or not b.values:
                return [(None,)]
            out = []
            for v, path, _ in b.values:
                out += [(None,)] if path else self.strings(v, depth + 1)
            return out[:32]
        if t == 'MemberExpression' and not e['computed'] and e['object']['type'] == 'Identifier':
            b = self.m.scope[id(e)].find(e['object']['name'])
            if b is not None and not b.opaque and len(b.values) == 1 and isinstance(b.values[0][0], dict) and b.values[0][0]['type'] == 'ObjectExpression':
                for p in b.values[0][0]['properties']:
                    if p['type'] == 'Property' and p['key'].get('name', p['key'].get('value')) == e['property']['name']:
                        return self.strings(p['value'], depth + 1)
        if t == 'NewExpression' and e['callee'].get('name') == 'URL' and e['arguments']:
            return self.strings(e['arguments'][0], depth + 1)
        if t == 'CallExpression':
            c = e['callee']
            if c['type'] == 'Identifier':
                b = self.m.scope[id(e)].find(c['name'])
                r = self.returned(b) if b is not None else None
                if r is not None:
                    return self.strings(r, depth + 1)
        return [(None,)]

    def fn_of(self, b):
        if b is None:
            return None
        if b.fn is not None:
            return b.fn
        if len(b.values) == 1 and not b.values[0][1] and isinstance(b.values[0][0], dict) and b.values[0][0]['type'] in FUNCS:
            return b.values[0][0]
        return None

    def returned(self, b):
        f = self.fn_of(b)
        if f is None:
            return None
        if f['body']['type'] != 'BlockStatement':
            return f['body']
        rs = [n['argument'] for n in self.m.nodes if n['type'] == 'ReturnStatement' and self.m.scope[id(n)].fn is f and n.get('argument')]
        return rs[0] if len(rs) == 1 else None

    def from_calls(self, param, f):
        """Results for the arguments that are passed for a parameter."""
        _, fid, i = param
        out = []
        for name, ns in self.m.calls.items():
            for n in ns:
                fn = self.fn_of(self.m.scope[id(n)].find(name))
                if fn is not None and id(fn) == fid:
                    a = n['arguments']
                    if i < len(a) and not any(x['type'] == 'SpreadElement' for x in a[:i + 1]):
                        out += f(a[i])
        return out

    # --- values from the server
    def values(self, e, depth=0):
        """Which parts of answers and events an expression may be: {('val', source, path)}, ('resp', source), ('event', name), ('text', source)."""
        if e is None or depth > 14:
            return set()
        if isinstance(e, tuple):
            key = e
        else:
            key = id(e)
        if key in self.memo:
            return self.memo[key]
        self.memo[key] = set()
        r = self.values1(e, depth)
        self.memo[key] = r
        if depth:
            self.memo.pop(key)
        return r

    def step(self, vs, k):
        out = set()
        for v in vs:
            if v[0] == 'val':
                out.add(('val', v[1], v[2] + (k,)))
            elif v[0] == 'event' and k == 'data':
                out.add(('text', ('event', v[1])))
        return out

    def values1(self, e, depth):
        d = depth + 1
        if isinstance(e, tuple):
            out = set(self.from_calls(e, lambda a: list(self.values(a, d))))
            for v in self.handlers.get((e[1], e[2]), ()):
                out |= v(d)
            return out
        t = e['type']
        if t == 'Identifier':
            b = self.m.scope[id(e)].find(e['name'])
            out = set()
            for v, path, _ in (b.values if b is not None else ()):
                x = self.values(v, d)
                for k in path:
                    x = set() if k is ANY else self.step(x, k)
                out |= x
            return out
        if t in ('AwaitExpression', 'ChainExpression', 'ParenthesizedExpression'):
            return self.values(e.get('argument') or e.get('expression'), d)
        if t == 'MemberExpression':
            vs = self.values(e['object'], d)
            if e['computed'] and not (e['property']['type'] == 'Literal' and isinstance(e['property']['value'], str)):
                return self.step(vs, 0)
            return self.step(vs, e['property'].get('name', e['property'].get('value')))
        if t in ('ConditionalExpression',):
            return self.values(e['consequent'], d) | self.values(e['alternate'], d)
        if t == 'LogicalExpression':
            return self.values(e['left'], d) | self.values(e['right'], d)
        if t == 'AssignmentExpression':
            return self.values(e['right'], d)
        if t == 'CallExpression':
            c = e['callee']
            if c['type'] == 'Identifier':
                if c['name'] == 'fetch':
                    return {('resp', s) for s in self.targets(e)}
                r = self.returned(self.m.scope[id(e)].find(c['name']))
                return self.values(r, d) if r is not None else set()
            if c['type'] == 'MemberExpression' and not c['computed']:
                n = c['property']['name']
                if c['object'].get('name') == 'JSON' and n == 'parse' and e['arguments']:
                    return {('val', v[1], ()) for v in self.values(e['arguments'][0], d) if v[0] == 'text'}
                if c['object'].get('name') == 'window' and n == 'fetch':
                    return {('resp', s) for s in self.targets(e)}
                vs = self.values(c['object'], d)
                if n == 'json':
                    return {('val', v[1], ()) for v in vs if v[0] == 'resp'}
                if n == 'text':
                    return {('text', v[1]) for v in vs if v[0] == 'resp'}
                if n in SAME:
                    return {v for v in vs if v[0] == 'val'}
                if n in ELEM:
                    return self.step(vs, 0)
                if n in ('then', 'catch', 'finally') and e['arguments'] and e['arguments'][0]['type'] in FUNCS:
                    f = e['arguments'][0]
                    return self.values(f['body'], d) if f['body']['type'] != 'BlockStatement' else set().union(*[
                        self.values(x['argument'], d) for x in self.m.nodes if x['type'] == 'ReturnStatement' and self.m.scope[id(x)].fn is f] or [set()])
        return set()

    def targets(self, call):
        """The sources an answer comes from."""
        out = set()
        for alt in self.strings(call['arguments'][0] if call['arguments'] else None):
            p = path_of(alt, self.base)
            r = self.routes(p) if p is not None else None
            if r:
                out.add(('route', r))
        return out

    # --- everything
    def run(self):
        m = self.m
        # handlers first: what parameters of functions stand for
        for n in m.nodes:
            if n['type'] != 'CallExpression' or n['callee']['type'] != 'MemberExpression' or n['callee']['computed']:
                continue
            op, obj, a = n['callee']['property']['name'], n['callee']['object'], n['arguments']
            if op == 'addEventListener' and len(a) >= 2 and self.source(obj):
                f = a[1] if a[1]['type'] in FUNCS else self.fn_of(m.scope[id(a[1])].find(a[1]['name'])) if a[1]['type'] == 'Identifier' else None
                alts = [''.join(alt) for alt in self.strings(a[0]) if None not in alt]
                if len(alts) != len(self.strings(a[0])):
                    self.unknown.append((n, 'the name of an event'))
                    continue
                self.listens += [(name, n) for name in alts]
                name = '|'.join(sorted(set(alts)))    # one handler for several events may tell them apart
                if f is not None:
                    self.handlers.setdefault((id(f), 0), []).append(lambda d, name=name: {('event', name)})
                else:
                    self.unknown.append((n, 'the handler of an event'))
            elif op in CALLBACK and a and (a[0]['type'] in FUNCS or a[0]['type'] == 'Identifier'):
                f = a[0] if a[0]['type'] in FUNCS else self.fn_of(m.scope[id(a[0])].find(a[0]['name']))
                if f is not None:
                    self.handlers.setdefault((id(f), 0), []).append(lambda d, obj=obj: self.step(self.values(obj, d), 0))
            elif op == 'then' and a:
                f = a[0] if a[0]['type'] in FUNCS else self.fn_of(m.scope[id(a[0])].find(a[0]['name'])) if a[0]['type'] == 'Identifier' else None
                if f is not None:
                    self.handlers.setdefault((id(f), 0), []).append(lambda d, obj=obj: self.values(obj, d))
        written = {}
        for n in m.nodes:
            if n['type'] == 'AssignmentExpression' and n['left']['type'] == 'MemberExpression' and not n['left']['computed']:
                for v in self.values(n['left']['object']):
                    if v[0] == 'val':
                        written.setdefault(v, set()).add(n['left']['property']['name'])
        for n in m.nodes:
            t = n['type']
            if t == 'CallExpression' and (n['callee'].get('name') == 'fetch' or n['callee']['type'] == 'MemberExpression' and n['callee']['object'].get('name') in (
                    'window', 'self', 'globalThis') and n['callee']['property'].get('name') == 'fetch'):
                self.request(n, n['arguments'][0] if n['arguments'] else None, n['arguments'][1] if len(n['arguments']) > 1 else None)
            elif t == 'CallExpression' and n['callee']['type'] == 'MemberExpression' and n['callee']['property'].get('name') == 'open' and len(n['arguments']) >= 2 \
                    and 'XMLHttpRequest' in json.dumps([v[0] for v in self.binding_values(n['callee']['object'])], default=str):
                self.request(n, n['arguments'][1], None)
            elif t == 'CallExpression' and n['callee'].get('property', {}).get('name') == 'sendBeacon' and n['arguments']:
                self.request(n, n['arguments'][0], None)
            elif t == 'NewExpression' and n['callee'].get('name') == 'EventSource' and n['arguments']:
                self.request(n, n['arguments'][0], None)
            elif t == 'MemberExpression':
                par = m.parents[id(n)]
                if par is not None and par['type'] == 'AssignmentExpression' and par['left'] is n:
                    continue
                if n['computed'] and not (n['property']['type'] == 'Literal' and isinstance(n['property']['value'], str)):
                    continue
                k = n['property'].get('name', n['property'].get('value'))
                for v in self.values(n['object']):
                    if v[0] == 'val' and k not in written.get(v, ()):
                        self.reads.append((v[1], v[2], k, n, par is not None and par['type'] == 'CallExpression' and par['callee'] is n))
            elif t == 'VariableDeclarator' and n['id']['type'] == 'ObjectPattern' and n.get('init'):
                self.pattern(n['id'], self.values(n['init']), n)
            elif t in FUNCS:
                for i, p in enumerate(n['params']):
                    if p['type'] == 'ObjectPattern':
                        self.pattern(p, self.values(('param', id(n), i)), p)
        for n in m.nodes:
            if n['type'] != 'Property' or m.parents[id(n)]['type'] != 'ObjectExpression' or n['computed']:
                continue
            k = n['key'].get('name', n['key'].get('value'))
            for v in self.values(n['value']):
                if v[0] == 'val' and v[2] and isinstance(v[2][-1], str) and v[2][-1] != k:
                    self.crossed.append((None, k, v[1], v[2], n))
        return self

    def binding_values(self, e):
        if e['type'] != 'Identifier':
            return []
        b = self.m.scope[id(e)].find(e['name'])
        return b.values if b is not None else []

    def source(self, e):
        """Is it an EventSource?"""
        if e['type'] == 'NewExpression':
            return e['callee'].get('name') == 'EventSource'
        return any(isinstance(v, dict) and not p and self.source(v) for v, p, _ in self.binding_values(e)) if e['type'] == 'Identifier' else False

    def pattern(self, pat, vs, at):
        for p in pat['properties']:
            if p['type'] == 'RestElement' or p['computed']:
                continue
            k = p['key'].get('name', p['key'].get('value'))
            for v in vs:
                if v[0] == 'val':
                    self.reads.append((v[1], v[2], k, at, False))
            if p['value']['type'] == 'ObjectPattern':
                self.pattern(p['value'], self.step(vs, k), at)

    def request(self, n, url, options):
        alts = self.strings(url)
        for alt in alts:
            p = path_of(alt, self.base)
            if p == 'external':
                continue
            if p is None:
                self.unknown.append((n, 'the path of a request'))
                continue
            self.requests.append((p, n))
            keys = self.body(options)
            if keys is not None:
                self.bodies.append((p, keys, n))

    def body(self, o):
        """The keys of the JSON object that is sent, None if there is none or it is not known."""
        if o is None:
            return None
        o = self.object(o)
        if o is None:
            return None
        for p in o['properties']:
            if p['type'] == 'Property' and p['key'].get('name', p['key'].get('value')) == 'body':
                v = p['value']
                for _ in range(4):
                    if v['type'] != 'Identifier':
                        break
                    bs = self.binding_values(v)
                    if len(bs) != 1 or bs[0][1] or not isinstance(bs[0][0], dict):
                        return None
                    v = bs[0][0]
                if v['type'] == 'CallExpression' and v['callee']['type'] == 'MemberExpression' and v['callee']['object'].get('name') == 'JSON' and v['arguments']:
                    x = self.object(v['arguments'][0])
                    if x is None or any(q['type'] != 'Property' or q['computed'] for q in x['properties']):
                        return None
                    return {q['key'].get('name', q['key'].get('value')) for q in x['properties']}
        return None

    def object(self, e):
        for _ in range(4):
            if isinstance(e, dict) and e['type'] == 'ObjectExpression':
                return e
            if not isinstance(e, dict) or e['type'] != 'Identifier':
                return None
            bs = self.binding_values(e)
            if len(bs) != 1 or bs[0][1]:
                return None
            e = bs[0][0]
        return None


def path_of(alt, base='/'):
    """The parts of the path a request goes to (None: an unknown part), 'external', or None when it is not known."""
    while len(alt) > 1 and alt[0] in (None, '') and isinstance(alt[1], (str, type(None))) and (alt[1] is None or alt[1] == '' or alt[1].startswith('/')):
        alt = alt[1:]
    if alt[0] is None:
        return None
    if alt[0].startswith(('http://', 'https://', '//', 'data:', 'blob:')):
        return 'external'
    s = ''.join('\0' if x is None else x for x in alt)
    s = s.split('?')[0].split('#')[0]
    s = urljoin(base, s) if not s.startswith('/') else s
    segs = s.lstrip('/').split('/')
    return tuple(None if '\0' in x else x for x in segs)


def imports(tree):
    for n in walk(tree):
        if n['type'] in ('ImportDeclaration', 'ExportAllDeclaration', 'ExportNamedDeclaration', 'ImportExpression') and n.get('source') and n['source']['type'] == 'Literal':
            yield n['source']['value'], n


def walk(n):
    yield n
    for c in children(n):
        yield from walk(c)
