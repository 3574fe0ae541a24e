"""The interface the HTTP server actually offers: routes, files, event names, and the JSON it writes and reads.

What is serialized and deserialized comes from interpreting the bodies of the serde implementations, so it includes whatever
attributes (rename, flatten, skip ...) or hand-written implementations do."""
import models
from engine import AnalysisError, St
from models import ret


class Serde:
    """Runs implementations of Serialize with an unknown serializer and collects what they write."""

    def __init__(self, W):
        self.W, self.E = W, W.E
        self.E.pmodels.insert(0, (lambda cal, path, decl: decl.startswith(('serde::ser::', 'serde::Serial', 'serde_core::ser::', 'serde_core::Serial')),
                                  self.model))
        self.E.pmodels.insert(0, (lambda cal, path, decl: decl.endswith(('Into::into', 'From::from', 'ToString::to_string')), self.text))

    def text(self, E, S, cal, args, dty):
        """Conversion into text."""
        return ret(S, E.fresh(dty, 'text')) if E.T[dty]['s'].endswith('string::String') else None

    def model(self, E, S, cal, args, dty):
        tr, op = models.short(cal['decl'])[-2:]
        if op == 'serialize' and cal.get('inst') is None:
            ty = self.inner(cal['targs'][0])
            b = self.impl(ty)
            if b is None:
                S.ev('json-leaf', ty, None)
                return ret(S, self.done(dty))
            v = args[0]
            while E.T[cal['targs'][0]].get('k') == 'ref' and v[0] == 'r' and E.load(S, v)[0] == 'r':
                v = E.load(S, v)
            return E.run_body(S, b['id'], [v, args[1]])
        if op == 'serialize':
            return None
        if op in ('serialize_field', 'serialize_entry'):
            key = models.deref(E, S, args[1]) if len(args) > 2 else None
            val = E.freeze(S, models.deref(E, S, args[-1]))
            S.ev('json-field', key[1] if key and key[0] == 'str' else None, self.inner(cal['targs'][-1]), val)
        elif op in ('serialize_key', 'serialize_value', 'serialize_element'):
            raise AnalysisError('a hand-written serialization with %s' % op)
        elif op in ('serialize_unit_variant', 'serialize_str'):
            x = models.deref(E, S, args[-1])
            S.ev('json-leaf', None, x[1] if x[0] == 'str' else None)
        elif op.startswith('serialize_') and op.endswith('_variant'):
            x = models.deref(E, S, args[3])
            S.ev('json-tag', x[1] if x[0] == 'str' else None)
        elif op in ('serialize_struct', 'serialize_map', 'end', 'skip_field'):
            pass
        elif op.startswith('serialize_') or op == 'collect_str':
            S.ev('json-leaf', cal['targs'][-1], None)
        else:
            return None
        if self.E.T[dty].get('k') == 'enum':
            return ret(S, self.done(dty))
        return None

    def done(self, dty):
        t = self.E.T[dty]['v'][0]['f'][0][1]
        return self.E.ok(dty, ('t', ()) if self.E.T[t]['s'] == '()' else self.E.fresh(t, 'ser'))

    def inner(self, ty):
        while self.E.T[ty].get('k') == 'ref':
            ty = self.E.T[ty]['to']
        return ty

    def impl(self, ty):
        bs = [b for b in self.E.bodies.values() if b['argc'] == 2 and '::serialize::<' in b['name'] and 'Serialize for' in b['name'].replace(
            'as serde::Serialize', 'Serialize for') and self.E.T[b['locals'][1]].get('to') == ty]
        return bs[0] if bs else None

    def writes(self, ty, value=None):
        """[(state, {key: (type, value)}, order, tag, leaf)] for each path of the serialization of a value of a type."""
        E = self.E
        b = self.impl(ty)
        if b is None:
            return None
        S0 = St()
        v = value if value is not None else E.sym(ty, ('json-source', ty))
        out = []
        ser = E.sym(b['locals'][2], ('serializer', ty))
        for k, S, r in E.run_body(S0, b['id'], [E.alloc(S0, v, ty), ser]):
            if k != 'ret':
                if k == 'unk':
                    raise AnalysisError(str(r))
                continue
            d, order, tag, leaf = {}, [], None, None
            for e in S.log:
                if e[0] == 'json-field':
                    if e[1] is None:
                        raise AnalysisError('a key that is not a constant')
                    d[e[1]] = (e[2], e[3])
                    order.append(e[1])
                elif e[0] == 'json-tag':
                    tag = e[1]
                elif e[0] == 'json-leaf':
                    leaf = e[2]
            out.append((S, v, d, order, tag, leaf))
        return out

    def shape(self, ty, depth=0):
        """None (a scalar), ('array', shape) or ('object', {key: shape}, {optional keys})."""
        E = self.E
        ty = self.inner(ty)
        t = E.T[ty]
        if depth > 6:
            return None
        if t.get('k') in ('slice', 'array') or t['s'].startswith(('std::vec::Vec<', 'alloc::vec::Vec<', 'std::collections::VecDeque<')):
            el = t.get('el') if isinstance(t.get('el'), int) else (t.get('args') or [None])[0]
            return ('array', self.shape(el, depth + 1) if el is not None else None)
        ws = self.writes(ty)
        if not ws or all(not w[2] for w in ws):
            return None
        return self.objects(ws, depth)

    def objects(self, ws, depth=0):
        keys, every = {}, None
        for S, v, d, order, tag, leaf in ws:
            if tag is not None:
                raise AnalysisError('a tagged variant')
            for k, (ty, val) in d.items():
                if k not in keys:
                    keys[k] = self.shape(ty, depth + 1)
            every = set(d) if every is None else every & set(d)
        return ('object', keys, set(keys) - (every or set()))


class Interface:
    def __init__(self, W):
        self.W, self.E = W, W.E
        self.serde = Serde(W)

    def events(self):
        """{variant: (name, shape)}"""
        W, E = self.W, self.E
        ty = W.t['Event']
        b = W.find('event name', lambda b, ts: b['argc'] == 1 and E.T[b['locals'][1]].get('to') == ty and ts[0].endswith('str') and ts[0].startswith('&'))
        names = {}
        S0 = St()
        ev = E.sym(ty, ('event',))
        for k, S, v in E.run_body(S0, b['id'], [E.alloc(S0, ev, ty)]):
            if k == 'ret':
                v = models.deref(E, S, v)
                if v[0] != 'str':
                    raise AnalysisError('an event name that is not a constant')
                for x in E.variants(S, ev):
                    names.setdefault(x, set()).add(v[1])
        ws = self.serde.writes(ty)
        if ws is None:
            raise AnalysisError('no serialization of events')
        out = {}
        for i, var in enumerate(E.T[ty]['v']):
            mine = [w for w in ws if i in E.variants(w[0], w[1])]
            if len(names.get(i, ())) != 1 or not mine:
                raise AnalysisError('event %s' % var['n'])
            out[var['n']] = (next(iter(names[i])), self.serde.objects(mine))
        return out

    def state(self):
        """The shape of the answer to get-state."""
        E = self.E
        info = self.W.t['DeviceInformation']
        out = []
        for b in E.bodies.values():
            if b['argc'] == 2 and '::serialize::<' in b['name']:
                t = E.T[b['locals'][1]].get('to')
                if t is not None and t not in (info, self.W.t['Event'], self.W.t['Position']) and any(
                        E.T[f[1]]['s'].replace('&', '').replace("'_ ", '').replace("'{erased} ", '').endswith(('<%s>' % E.T[info]['s'], '[%s]' % E.T[info]['s'])) for v in E.T[t].get('v', ()) for f in v['f']):
                    out.append(t)
        if len(out) != 1:
            raise AnalysisError('%d types of the state' % len(out))
        return self.serde.shape(out[0])

    def body(self):
        """({key: field}, mandatory keys) of the position in a request body."""
        E = self.E
        keys, need = {}, set()
        pb = self.W.t['PositionBody']
        fields = [n for n, _ in E.fields(pb)]
        for b in E.bodies.values():
            n = b['name']
            if 'PositionBody' not in n or 'Visitor' not in n and 'Deserialize' not in n:
                continue
            if n.split('::<')[0].endswith('visit_str') or '>::visit_str::' in n:
                for k, S, v in E.run_body(St(), b['id'], [E.sym(b['locals'][1], ('visitor',)), E.sym(b['locals'][2], ('key',))]):
                    if k != 'ret':
                        continue
                    hit = [x[2][1][1] for x, r in S.bt.items() if r and x[2][0] == 'eqv' and x[2][1][0] == 'str']
                    if not hit or v[0] != 's' or v[2] != 0 or not v[3] or v[3][0][0] != 's':
                        continue
                    f = v[3][0]
                    name = E.T[f[1]]['v'][f[2]]['n']
                    if name.startswith('__field') and name[7:].isdigit() and int(name[7:]) < len(fields):
                        keys[hit[0]] = fields[int(name[7:])]
            if '>::visit_map::' in n:
                for st, term, _ in b['blocks']:
                    if term[0] == 'call' and 'missing_field' in str(term[1])[:400]:
                        c = term[2][0]
                        s = self.const_str(b, c)
                        if s is None:
                            raise AnalysisError('a mandatory field that is not a constant')
                        need.add(s)
        if not keys:
            raise AnalysisError('no deserialization of positions')
        return keys, need

    def const_str(self, b, op):
        """The string an operand is, looking through copies."""
        for _ in range(8):
            if op[0] == 'c':
                return op[1].get('v') if op[1].get('k') == 'str' else None
            loc = op[1][0] if isinstance(op[1], list) else op[1]
            defs = [s for blk in b['blocks'] for s in blk[0] if s[0] == 'a' and s[1] == [loc]]
            if len(defs) != 1:
                return None
            r = defs[0][2]
            while isinstance(r, list) and r and r[0] in ('use', 'ref', 'copy') and isinstance(r[-1], list):
                r = r[-1]
            op = ['cp', r] if r and isinstance(r[0], int) else r
        return None

    def position(self):
        """{key: index of the constructor's argument it is}, for the keys where this is recognised."""
        W, E = self.W, self.E
        P = W.t['Position']
        b = W.find('position constructor', lambda b, ts: ts == [E.T[P]['s'], 'i16', 'i16', 'i16', 'i16', 'i8', 'i16'])
        args = [E.sym(t, ('pos-arg', i)) for i, t in enumerate(b['locals'][1:7])]
        outs = [o for o in E.run_body(St(), b['id'], args) if o[0] == 'ret']
        if len(outs) != 1:
            raise AnalysisError('the constructor of positions has several outcomes')
        pos = E.freeze(outs[0][1], outs[0][2])
        out = {}
        for S, v, d, order, tag, leaf in self.serde.writes(P, pos) or ():
            for k, (ty, val) in d.items():
                i = self.source(val, args)
                if k in out and out[k] != i:
                    raise AnalysisError('the value of %s depends on the path' % k)
                out[k] = i
        return out

    def source(self, t, args):
        """Which argument of the constructor a written value is (None: not recognised)."""
        for _ in range(20):
            if t in args:
                return args.index(t)
            if t[0] in 'il' and not (t[0] == 'l' and t[1] == 0 and len(t[2]) == 1):
                return None
            if t[0] == 'l':
                t = t[2][0][0]
                continue
            if t[0] != 'y' or not isinstance(t[2], tuple):
                return None
            k = t[2]
            if k[0] == 'cast':
                t = next((x for x in k[1:] if isinstance(x, tuple) and x and x[0] in 'yl'), None) or t
                if t[2] is k:
                    return None
            elif k[0] == 'fop' and k[1] in ('round', 'trunc', 'floor', 'ceil') and len(k) == 3:
                t = k[2]
            elif k[0] == 'fop' and k[1] == 'to_degrees' and k[2][0] == 'y' and k[2][2][:2] != ('fop', 'to_radians'):
                t = k[2] if self.angle(k[2]) is None else self.angle(k[2])
                if t == k[2]:
                    return None
            elif k[0] == 'fop' and k[1] in ('to_degrees', 'to_radians'):
                t = k[2]
            elif k[0] == 'fld':
                x = self.component(t)
                if x is None:
                    return None
                t = x
            else:
                return None
        return None

    def component(self, t):
        """A component of a vector that was made from its components, an angle of a rotation that was made from angles."""
        k = t[2]
        v = k[1]
        i = next((x for x in k[2:] if isinstance(x, int)), None)
        if v[0] == 'y' and v[2][0] == 'glam' and v[2][1] in ('Vec3::new', 'Vec3A::new') and i is not None and i < 3:
            return v[2][2 + i]
        return None

    def angle(self, t):
        k = t[2]
        if k[0] not in ('fld', 'tf'):
            return None
        v, i = k[1], next((x for x in k[2:] if isinstance(x, int)), None)
        if v[0] == 'y' and v[2][:2] == ('glam', 'Quat::to_euler') and i is not None:
            q, order = v[2][2], v[2][3]
            if q[0] == 'y' and q[2][:2] == ('glam', 'Quat::from_euler') and q[2][2] == order:
                return q[2][3 + i]
        return None


if __name__ == '__main__':
    import sys
    sys.setrecursionlimit(20000)
    import web
    W = web.Web()
    J = Interface(W)
    for f in (J.events, J.state, J.body, J.position):
        print(f.__name__, f())
