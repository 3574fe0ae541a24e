"""Abstract interpreter for the Python client (py/pica/pica/__init__.py).

Values: ('int', lin), ('bytes', parts), ('enum', class, tag), ('pkt', class, bytes), ('obj', path),
('none',), ('bool', b), ('cmp', ...), ('unk', id).  Byte strings are sequences of opaque parts with
linear lengths.  While loops are solved with one symbol per variable the loop changes."""
import ast
from engine import fm_infeasible


class Unsup(Exception):
    pass


def src(n):
    return ast.unparse(n)[:100]


def L(c=0, **kw):
    return (c, ())


def ladd(a, b, k=1):
    d = dict(a[1])
    for t, q in b[1]:
        d[t] = d.get(t, 0) + q * k
    return (a[0] + b[0] * k, tuple(sorted((t, q) for t, q in d.items() if q)))


def lsym(t):
    return (0, ((t, 1),))


class S:
    def __init__(s):
        s.env, s.facts, s.tags, s.ev, s.reads = {}, (), {}, (), ()

    def copy(s):
        n = S()
        n.env, n.facts, n.tags, n.ev, n.reads = dict(s.env), s.facts, dict(s.tags), s.ev, s.reads
        return n


class Py:
    def __init__(self, tree, enums, self_cls):
        self.tree, self.enums, self.cls = tree, enums, self_cls
        self.n = 0
        self.loops = []
        self.methods = {}
        for n in tree.body:
            if isinstance(n, ast.ClassDef) and n.name == self_cls:
                for m in n.body:
                    if isinstance(m, (ast.FunctionDef, ast.AsyncFunctionDef)):
                        self.methods[m.name] = m
        self.funcs = {n.name: n for n in tree.body if isinstance(n, (ast.FunctionDef, ast.AsyncFunctionDef))}
        self.consts = {n.targets[0].id: n.value.value for n in tree.body
                       if isinstance(n, ast.Assign) and isinstance(n.targets[0], ast.Name) and isinstance(n.value, ast.Constant)}
        self.depth = 0
        self.analysed = set()

    def fresh(self, what):
        self.n += 1
        return (what, self.n)

    # facts: lin <= 0
    def infeasible(self, s, extra=()):
        cs = [(c, it) for c, it in s.facts + tuple(extra)]
        return fm_infeasible(cs)

    def prove_le(self, s, a, b):
        d = ladd(a, b, -1)
        return self.infeasible(s, [(1 - d[0], tuple((t, -k) for t, k in d[1]))])

    def assume_le(self, s, a, b):
        d = ladd(a, b, -1)
        s.facts = s.facts + (d,)
        return not self.infeasible(s)

    # bytes
    def blen(self, v):
        r = (0, ())
        for p in v[1]:
            r = ladd(r, p[-1])
        return r

    def const_int(self, v):
        if v[0] == 'int' and not v[1][1]:
            return v[1][0]
        return None

    def cat(self, a, b):
        parts = [p for p in a[1] + b[1] if p[-1] != (0, ())]
        return ('bytes', tuple(parts))

    def slice(self, s, v, lo, hi):
        parts = list(v[1])
        out, off = [], 0
        if hi is None:
            # drop lo leading bytes
            drop = lo
            while drop and parts:
                l = parts[0][-1]
                if not l[1]:
                    if l[0] <= drop:
                        drop -= l[0]
                        parts.pop(0)
                        continue
                    p = parts[0]
                    parts[0] = ('sub', p, drop, (l[0] - drop, ()))
                    drop = 0
                else:
                    raise Unsup('slice')
            return ('bytes', tuple(parts))
        for p in parts:
            l = p[-1]
            if l[1]:
                if self.prove_le(s, (hi, ()), ladd((off, ()), l)):
                    at = max(lo - off, 0)
                    out.append(('sub', p, at, (hi - off - at, ())))
                    return ('bytes', tuple(out))
                ln = lsym(('len', self.fresh('slice')))
                s.facts += (ladd((0, ()), ln, -1), ladd(ln, (hi - lo, ()), -1))
                return ('bytes', (('sub', p, 0, ln),))
            a, b = max(lo, off), min(hi, off + l[0])
            if a < b:
                out.append(p if (a, b) == (off, off + l[0]) else ('sub', p, a - off, (b - a, ())))
            off += l[0]
            if off >= hi:
                return ('bytes', tuple(out))
        return ('bytes', tuple(out))

    def octets(self, s, v, lo, hi, order='little'):
        """The integer in bytes [lo, hi) of a byte string, when these are bytes of one part."""
        try:
            b = self.slice(s, v, lo, hi)
        except Unsup:
            return None
        if len(b[1]) != 1 or b[1][0][-1] != (hi - lo, ()):
            return None
        q = b[1][0]
        off = 0
        while q[0] == 'sub':
            off += q[2]
            q = q[1]
        r = (0, ())
        for i in range(hi - lo):
            k = i if order == 'little' else hi - lo - 1 - i
            t = ('at', q, off + i)
            s.facts += ((0, ((t, -1),)), (-255, ((t, 1),)))
            r = ladd(r, lsym(t), 256 ** k)
        return r

    # expressions: yield list of (kind, state, value) kind in ok|raise
    def ev(self, s, n):
        if isinstance(n, ast.Await):
            return self.ev(s, n.value)
        if isinstance(n, ast.Constant):
            v = n.value
            if isinstance(v, bool):
                return [('ok', s, ('bool', v))]
            if isinstance(v, int):
                return [('ok', s, ('int', (v, ())))]
            if v is None:
                return [('ok', s, ('none',))]
            if isinstance(v, bytes):
                return [('ok', s, ('bytes', ((('const', v), (len(v), ())),) if v else ()))]
            return [('ok', s, ('const', v))]
        if isinstance(n, ast.Name):
            if n.id in s.env:
                return [('ok', s, s.env[n.id])]
            if n.id in self.consts and isinstance(self.consts[n.id], int):
                return [('ok', s, ('int', (self.consts[n.id], ())))]
            return [('ok', s, ('obj', n.id))]
        if isinstance(n, ast.Attribute):
            out = []
            for k, s1, v in self.ev(s, n.value):
                if k != 'ok':
                    out.append((k, s1, v))
                elif v[0] == 'pkt':
                    out.append(('ok', s1, self.field(s1, v, n.attr)))
                elif v[0] == 'obj':
                    last = v[1].split('.')[-1]
                    if last in self.enums and n.attr in self.enums[last]:
                        out.append(('ok', s1, ('enum', last, n.attr)))
                    else:
                        out.append(('ok', s1, ('obj', v[1] + '.' + n.attr)))
                else:
                    out.append(('ok', s1, ('unk', ('attr', v, n.attr))))
            return out
        if isinstance(n, (ast.BinOp,)):
            return self.seq(s, [n.left, n.right], lambda s1, vs: self.binop(s1, n.op, vs[0], vs[1]))
        if isinstance(n, ast.UnaryOp) and isinstance(n.op, ast.Not):
            return [(k, s1, ('not', v) if k == 'ok' else v) for k, s1, v in self.ev(s, n.operand)]
        if isinstance(n, ast.UnaryOp) and isinstance(n.op, ast.USub):
            return [(k, s1, ('int', (-v[1][0], tuple((t, -q) for t, q in v[1][1]))) if k == 'ok' else v) for k, s1, v in self.ev(s, n.operand)]
        if isinstance(n, ast.BoolOp):
            return self.seq(s, n.values, lambda s1, vs: [('ok', s1, ('and' if isinstance(n.op, ast.And) else 'or', tuple(vs)))])
        if isinstance(n, ast.Compare):
            if len(n.ops) != 1:
                raise Unsup(src(n))
            return self.seq(s, [n.left, n.comparators[0]],
                            lambda s1, vs: [('ok', s1, ('cmp', type(n.ops[0]).__name__, vs[0], vs[1]))])
        if isinstance(n, ast.Subscript):
            if isinstance(n.slice, ast.Slice):
                def f(s1, vs):
                    lo = self.const_int(vs[1]) if n.slice.lower else 0
                    hi = self.const_int(vs[2]) if n.slice.upper else None
                    if vs[0][0] != 'bytes' or lo is None or (n.slice.upper and hi is None):
                        raise Unsup(src(n))
                    return [('ok', s1, self.slice(s1, vs[0], lo, hi))]
                z = ast.Constant(0)
                return self.seq(s, [n.value, n.slice.lower or z, n.slice.upper or z], f)

            def f(s1, vs):
                i = self.const_int(vs[1])
                if i is None:
                    raise Unsup(src(n))
                if vs[0][0] == 'lebytes':
                    return [('ok', s1, ('byte', vs[0][1], i))]
                if vs[0][0] == 'tuple':
                    return [('ok', s1, vs[0][1][i])]
                if vs[0][0] == 'bytes':
                    v = self.octets(s1, vs[0], i, i + 1)
                    if v is not None:
                        return [('ok', s1, ('int', v))]
                return [('ok', s1, ('unk', self.fresh('byte')))]
            return self.seq(s, [n.value, n.slice], f)
        if isinstance(n, ast.Call):
            return self.call(s, n)
        if isinstance(n, ast.Tuple):
            return self.seq(s, n.elts, lambda s1, vs: [('ok', s1, ('tuple', tuple(vs)))])
        if isinstance(n, ast.List):
            def f(s1, vs):
                r = ('chunks', ())
                for v in vs:
                    if v[0] != 'bytes':
                        return [('ok', s1, ('unk', self.fresh('list')))]
                    r = ('chunks', r[1] + v[1])
                return [('ok', s1, r)]
            return self.seq(s, n.elts, f)
        if isinstance(n, ast.JoinedStr):
            return [('ok', s, ('const', 'fstr'))]
        if isinstance(n, ast.IfExp):
            out = []
            for k, s1, v in self.ev(s, n.test):
                if k != 'ok':
                    out.append((k, s1, v))
                    continue
                for b, s2 in self.fork(s1, v):
                    out += self.ev(s2, n.body if b else n.orelse)
            return out
        if isinstance(n, ast.NamedExpr):
            out = []
            for k, s1, v in self.ev(s, n.value):
                if k == 'ok':
                    s1.env[n.target.id] = v
                out.append((k, s1, v))
            return out
        raise Unsup(src(n))

    def seq(self, s, nodes, f):
        st = [(s, [])]
        out = []
        for n in nodes:
            nx = []
            for s1, vs in st:
                for k, s2, v in self.ev(s1, n):
                    if k == 'ok':
                        nx.append((s2, vs + [v]))
                    else:
                        out.append((k, s2, v))
            st = nx
        for s1, vs in st:
            out += f(s1, vs)
        return out

    def field(self, s, pkt, name):
        key = ('f', pkt[1], name, pkt[2])
        t = self.ftype(pkt[1], name)
        at = self.layout(pkt[1], name)
        if at is not None and pkt[2][0] == 'bytes':
            v = self.octets(s, pkt[2], at[0], at[1])
            if v is not None:
                return ('int', v)
        if t in self.enums:
            return ('efld', key, t)
        s.facts = s.facts + ((0, ((key, -1),)),)
        return ('int', lsym(key))

    def layout(self, cls, name):
        """First and last byte of an integer field at a constant position."""
        try:
            lay = self.pdl.layout(cls)[0][name]
        except Exception:
            return None
        off, w, t = lay
        return (off // 8, (off + w) // 8) if off % 8 == 0 and w % 8 == 0 and t not in self.enums else None

    def ftype(self, cls, name):
        return self.ftypes.get((cls, name), 'int')

    def binop(self, s, op, a, b):
        if a[0] == 'int' and b[0] == 'int':
            if isinstance(op, ast.Add):
                return [('ok', s, ('int', ladd(a[1], b[1])))]
            if isinstance(op, ast.Sub):
                return [('ok', s, ('int', ladd(a[1], b[1], -1)))]
            if isinstance(op, ast.BitAnd) and self.const_int(b) == 255:
                return [('ok', s, ('byte', a, 0))]
            if isinstance(op, ast.RShift) and self.const_int(b) == 8:
                return [('ok', s, ('shr8', a))]
            if isinstance(op, ast.Mod) and self.const_int(b) == 256:
                return [('ok', s, ('byte', a, 0))]
            if isinstance(op, ast.FloorDiv) and self.const_int(b) == 256:
                return [('ok', s, ('shr8', a))]
        if a[0] == 'shr8' and isinstance(op, ast.BitAnd):
            return [('ok', s, ('byte', a[1], 1))]
        if a[0] == 'bytes' and b[0] == 'bytes' and isinstance(op, ast.Add):
            return [('ok', s, self.cat(a, b))]
        if a[0] == 'const' or b[0] == 'const':
            return [('ok', s, ('const', 'str'))]
        return [('ok', s, ('unk', self.fresh('op')))]

    # conditions
    def fork(self, s, v):
        """[(bool, state)]"""
        if v[0] == 'bool':
            return [(v[1], s)]
        if v[0] == 'none':
            return [(False, s)]
        if v[0] == 'not':
            return [(not b, s1) for b, s1 in self.fork(s, v[1])]
        if v[0] in ('and', 'or'):
            stop = v[0] == 'or'
            cur, out = [s], []
            for x in v[1]:
                nx = []
                for s1 in cur:
                    for b, s2 in self.fork(s1, x):
                        if b == stop:
                            out.append((stop, s2))
                        else:
                            nx.append(s2)
                cur = nx
            return out + [(not stop, s1) for s1 in cur]
        if v[0] == 'bytes':
            return self.fork(s, ('cmp', 'Gt', ('int', self.blen(v)), ('int', (0, ()))))
        if v[0] == 'int':
            out = []
            for b, s1 in self.fork(s, ('cmp', 'Eq', v, ('int', (0, ())))):
                out.append((not b, s1))
            return out
        if v[0] == 'cmp':
            op, a, b = v[1:]
            if op in ('Eq', 'NotEq', 'Is', 'IsNot', 'In', 'NotIn'):
                neg = op in ('NotEq', 'IsNot', 'NotIn')
                if a[0] == 'enum' and b[0] == 'efld':
                    a, b = b, a
                if a[0] == 'efld' and b[0] == 'enum':
                    cur = s.tags.get(a[1], frozenset(self.enums[a[2]]))
                    out = []
                    t = cur & {b[2]}
                    if t:
                        s1 = s.copy()
                        s1.tags[a[1]] = t
                        out.append((not neg, s1))
                    t = cur - {b[2]}
                    if t:
                        s1 = s.copy()
                        s1.tags[a[1]] = t
                        out.append((neg, s1))
                    return out
                if a[0] == 'int' and b[0] == 'int':
                    out = []
                    s1 = s.copy()
                    if self.assume_le(s1, a[1], b[1]) and self.assume_le(s1, b[1], a[1]):
                        out.append((not neg, s1))
                    for x, y in ((a, b), (b, a)):
                        s1 = s.copy()
                        if self.assume_le(s1, ladd(x[1], (1, ())), y[1]):
                            out.append((neg, s1))
                    return out
                if a[0] == 'bytes' and b[0] == 'bytes' and b[1] == ():
                    return [(not x if not neg else x, s1) for x, s1 in self.fork(s, a)]
                if a[0] == 'bytes' and b[0] == 'none':
                    return [(neg, s)]
            if a[0] == 'int' and b[0] == 'int':
                if op in ('Gt', 'GtE'):
                    a, b, op = b, a, {'Gt': 'Lt', 'GtE': 'LtE'}[op]
                out = []
                one = (1, ())
                s1, s2 = s.copy(), s.copy()
                if op == 'Lt':
                    if self.assume_le(s1, ladd(a[1], one), b[1]):
                        out.append((True, s1))
                    if self.assume_le(s2, b[1], a[1]):
                        out.append((False, s2))
                else:
                    if self.assume_le(s1, a[1], b[1]):
                        out.append((True, s1))
                    if self.assume_le(s2, ladd(b[1], one), a[1]):
                        out.append((False, s2))
                return out
        return [(True, s.copy()), (False, s.copy())]

    # calls
    def call(self, s, n):
        f = n.func
        name = src(f)
        # receivers
        if isinstance(f, ast.Name) and f.id in ('len', 'bytes', 'bytearray', 'int', 'print', 'isinstance'):
            if f.id in ('print', 'isinstance'):
                return [('ok', s, ('unk', self.fresh(f.id)))]
            if not n.args:
                return [('ok', s, ('bytes', ()))]

            def g(s1, vs):
                if f.id == 'len':
                    if vs[0][0] == 'bytes':
                        return [('ok', s1, ('int', self.blen(vs[0])))]
                    raise Unsup(src(n))
                return [('ok', s1, vs[0])]
            return self.seq(s, n.args[:1], g)
        if isinstance(f, ast.Attribute):
            out = []
            for k, s1, r in self.ev(s, f.value):
                if k != 'ok':
                    out.append((k, s1, r))
                    continue
                out += self.seq(s1, [a.value if isinstance(a, ast.Starred) else a for a in n.args] + [k.value for k in n.keywords],
                                lambda s2, vs: self.method(s2, r, f.attr, vs, n))
            return out
        if isinstance(f, ast.Name) and f.id in self.funcs:
            return self.seq(s, n.args, lambda s2, vs: self.invoke(s2, self.funcs[f.id], vs, n))
        return self.seq(s, list(n.args), lambda s2, vs: [('ok', s2, ('unk', self.fresh(name)))])

    def method(self, s, r, m, vs, n):
        kw = {k.arg: vs[len(n.args) + i] for i, k in enumerate(n.keywords)}
        if r == ('obj', 'self') and m in self.methods:
            return self.invoke(s, self.methods[m], [r] + vs, n)
        if r[0] == 'obj' and r[1].startswith('self.reader') or (r[0] == 'obj' and r[1] == 'reader'):
            if m in ('read', 'readexactly') and len(vs) == 1 and vs[0][0] == 'int':
                p = (self.fresh('chunk'),)
                ln = lsym(('len', p[0]))
                out = []
                if m == 'readexactly':
                    s.ev += (('read', vs[0], s),)
                    out.append(('ok', s, ('bytes', ((p[0], vs[0][1]),))))
                    out.append(('raise', s.copy(), 'IncompleteReadError'))
                    return out
                s.ev += (('read', vs[0], self.prove_le(s, (1, ()), vs[0][1])),)
                s.facts += (ladd((0, ()), ln, -1),)
                self.assume_le(s, ln, vs[0][1])
                s.reads += (ln,)
                return [('ok', s, ('bytes', ((p[0], ln),))), ('raise', s.copy(), 'read error')]
            raise Unsup(src(n))
        if m in ('put', 'put_nowait') and r[0] == 'obj':
            s.ev += (('put', r[1], vs[0], dict(s.tags)),)
            return [('ok', s, ('none',))]
        if m == 'write' and r[0] == 'obj':
            s.ev += (('write', r[1], vs[0]),)
            return [('ok', s, ('none',))]
        if m in ('parse_all', 'parse') and r[0] == 'obj':
            cls = r[1].split('.')[-1]
            if vs[-1][0] != 'bytes':
                raise Unsup(src(n))
            return [('ok', s, ('pkt', cls, vs[-1])), ('raise', s.copy(), 'parse error')]
        if m == 'serialize':
            i = self.fresh('ser')
            s.facts += ((4, ((('len', i), -1),)),)
            return [('ok', s, ('bytes', ((i, lsym(('len', i))),)))]
        if m == 'to_bytes':
            v = r if r[0] == 'int' else vs[0]
            rest = vs if r[0] == 'int' else vs[1:]
            ln = kw.get('length') or (rest[0] if rest else None)
            bo = kw.get('byteorder') or (rest[1] if len(rest) > 1 else None)
            if bo == ('const', 'little'):
                return [('ok', s, ('lebytes', v, ln))]
            return [('ok', s, ('bebytes', v, ln))]
        if m == 'from_bytes' and vs and vs[0][0] == 'bytes':
            bo = kw.get('byteorder') or (vs[1] if len(vs) > 1 else ('const', 'big'))
            k = self.blen(vs[0])
            v = self.octets(s, vs[0], 0, k[0], bo[1]) if not k[1] and bo[0] == 'const' else None
            return [('ok', s, ('int', v) if v is not None else ('unk', self.fresh(m)))]
        if m == 'join' and r == ('bytes', ()) and vs and vs[0][0] == 'chunks':
            return [('ok', s, ('bytes', vs[0][1]))]
        if m in ('extend', 'append', 'clear'):
            x = n.func.value
            if isinstance(x, ast.Name) and m != 'clear' and vs and vs[0][0] == 'bytes' and r[0] == {'extend': 'bytes', 'append': 'chunks'}[m]:
                s.env[x.id] = (r[0], self.cat(r, vs[0])[1])
                return [('ok', s, ('none',))]
            raise Unsup(src(n))
        return [('ok', s, ('unk', self.fresh(m)))]

    def invoke(self, s, fn, vs, n):
        self.depth += 1
        self.analysed.add(fn.name)
        if self.depth > 12:
            raise Unsup('recursion')
        saved = s.env
        s.env = {}
        names = [a.arg for a in fn.args.args]
        for a, v in zip(names, vs):
            s.env[a] = v
        for k in n.keywords if n is not None else ():
            s.env[k.arg] = vs[-1]
        for a, d in zip(reversed(names), reversed(fn.args.defaults)):
            if a not in s.env:
                s.env[a] = self.ev(s, d)[0][2]
        out = []
        for k, s1, v in self.block(s, fn.body):
            s1.env = saved if s1 is s else dict(saved)
            out.append(('raise', s1, v) if k == 'raise' else ('ok', s1, v if k == 'ret' else ('none',)))
        self.depth -= 1
        return out

    # statements: list of (kind, state, value); kind next|ret|raise|break|continue
    def block(self, s, body):
        cur, out = [s], []
        for st in body:
            nx = []
            for s1 in cur:
                for k, s2, v in self.stmt(s1, st):
                    if k == 'next':
                        nx.append(s2)
                    else:
                        out.append((k, s2, v))
            cur = nx
            if len(cur) > 4000:
                raise Unsup('too many states')
        return out + [('next', s1, None) for s1 in cur]

    def assign(self, s, t, v):
        if isinstance(t, ast.Name):
            s.env[t.id] = v
        elif isinstance(t, ast.Subscript) and isinstance(t.value, ast.Name):
            b = s.env[t.value.id]
            if isinstance(t.slice, ast.Slice):
                lo, hi = ast.literal_eval(t.slice.lower), ast.literal_eval(t.slice.upper)
                if v[0] not in ('lebytes', 'bebytes') or (v[2] and self.const_int(v[2]) != hi - lo):
                    raise Unsup(src(t))
                for i in range(hi - lo):
                    s.env[t.value.id] = self.setbyte(s.env[t.value.id], lo + i, ('byte', v[1], i if v[0] == 'lebytes' else hi - lo - 1 - i))
                return
            i = ast.literal_eval(t.slice)
            s.env[t.value.id] = self.setbyte(b, i, v)
        elif isinstance(t, ast.Attribute):
            s.ev += (('setattr', src(t), v),)
        elif isinstance(t, (ast.Tuple, ast.List)):
            for i, e in enumerate(t.elts):
                self.assign(s, e, v[1][i] if v[0] == 'tuple' and len(v[1]) == len(t.elts) else ('unk', self.fresh('tup')))
        else:
            raise Unsup(src(t))

    def boolean(self, n):
        if isinstance(n, ast.Compare):
            return True
        if isinstance(n, ast.BoolOp):
            return all(self.boolean(x) for x in n.values)
        return isinstance(n, ast.UnaryOp) and isinstance(n.op, ast.Not)

    def setbyte(self, b, i, v):
        if b[0] == 'bytes':
            b = ('upd', b, ())
        return ('upd', b[1], tuple(x for x in b[2] if x[0] != i) + ((i, v),))

    def stmt(self, s, st):
        if isinstance(st, ast.Expr):
            if isinstance(st.value, ast.Constant):
                return [('next', s, None)]
            return [('next' if k == 'ok' else k, s1, v) for k, s1, v in self.ev(s, st.value)]
        if isinstance(st, (ast.Assign, ast.AnnAssign)):
            if st.value is None:
                return [('next', s, None)]
            out = []
            for k, s1, v in self.ev(s, st.value):
                if k != 'ok':
                    out.append((k, s1, v))
                    continue
                alts = [(s1, v)]
                if v[0] in ('cmp', 'not', 'and', 'or') and isinstance(st.value, (ast.Compare, ast.UnaryOp, ast.BoolOp)) \
                        and self.boolean(st.value):
                    alts = [(s2, ('bool', b)) for b, s2 in self.fork(s1, v)]
                for s2, x in alts:
                    for t in (st.targets if isinstance(st, ast.Assign) else [st.target]):
                        self.assign(s2, t, x)
                    out.append(('next', s2, None))
            return out
        if isinstance(st, ast.AugAssign):
            ld = ast.parse(src(st.target), mode='eval').body
            return self.stmt(s, ast.Assign(targets=[st.target], value=ast.BinOp(left=ld, op=st.op, right=st.value)))
        if isinstance(st, (ast.Pass, ast.Global, ast.Nonlocal, ast.Import, ast.ImportFrom, ast.FunctionDef)):
            return [('next', s, None)]
        if isinstance(st, ast.Return):
            if st.value is None:
                return [('ret', s, ('none',))]
            return [('ret' if k == 'ok' else k, s1, v) for k, s1, v in self.ev(s, st.value)]
        if isinstance(st, ast.Raise):
            return [('raise', s, src(st))]
        if isinstance(st, ast.Break):
            return [('break', s, None)]
        if isinstance(st, ast.Continue):
            return [('continue', s, None)]
        if isinstance(st, ast.Assert):
            out = []
            for k, s1, v in self.ev(s, st.test):
                if k != 'ok':
                    out.append((k, s1, v))
                    continue
                for b, s2 in self.fork(s1, v):
                    out.append(('next' if b else 'raise', s2, 'assertion'))
            return out
        if isinstance(st, ast.If):
            out = []
            for k, s1, v in self.ev(s, st.test):
                if k != 'ok':
                    out.append((k, s1, v))
                    continue
                for b, s2 in self.fork(s1, v):
                    out += self.block(s2, st.body if b else st.orelse)
            return out
        if isinstance(st, ast.Match):
            out = []
            for k, s1, v in self.ev(s, st.subject):
                if k != 'ok':
                    out.append((k, s1, v))
                    continue
                cur = [s1]
                for c in st.cases:
                    pats = c.pattern.patterns if isinstance(c.pattern, ast.MatchOr) else [c.pattern]
                    nxt = []
                    for s2 in cur:
                        for p in pats:
                            if isinstance(p, ast.MatchAs) and p.pattern is None:
                                if p.name:
                                    s2.env[p.name] = v
                                keep = s2.copy() if c.guard is not None else None
                                out += self.block(s2, c.body)
                                s2 = keep
                                break
                            if not isinstance(p, ast.MatchValue):
                                raise Unsup(src(st))
                            (_, s2, pv), = self.ev(s2, p.value)
                            rest = None
                            for b, s3 in self.fork(s2, ('cmp', 'Eq', v, pv)):
                                if b:
                                    if c.guard is not None:
                                        out += [('next', s3.copy(), None)]
                                    out += self.block(s3, c.body)
                                else:
                                    rest = s3
                            s2 = rest
                            if s2 is None:
                                break
                        if s2 is not None:
                            nxt.append(s2)
                    cur = nxt
                out += [('next', s2, None) for s2 in cur]
            return out
        if isinstance(st, ast.Try):
            out = []
            for k, s1, v in self.block(s, st.body):
                if k == 'raise' and st.handlers:
                    catches_all = any(h.type is None or src(h.type) in ('Exception', 'BaseException') for h in st.handlers)
                    for h in st.handlers:
                        out += self.block(s1.copy(), h.body)
                    if not catches_all:
                        out.append((k, s1, v))
                elif k == 'next' and st.orelse:
                    out += self.block(s1, st.orelse)
                else:
                    out.append((k, s1, v))
            if st.finalbody:
                o2 = []
                for k, s1, v in out:
                    for k2, s2, v2 in self.block(s1, st.finalbody):
                        o2.append((k, s2, v) if k2 == 'next' else (k2, s2, v2))
                out = o2
            return out
        if isinstance(st, ast.While):
            return self.loop(s, st)
        raise Unsup(src(st))

    def loop(self, s, st):
        mod = set()
        for n in ast.walk(ast.Module(body=st.body, type_ignores=[])):
            if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Store):
                mod.add(n.id)
            if isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and n.func.attr in ('extend', 'append', 'clear') \
                    and isinstance(n.func.value, ast.Name):
                mod.add(n.func.value.id)
        entry = dict(s.env)
        self.n += 1
        lid = self.n
        head = s.copy()
        phis = {}
        tested = {n.id for n in ast.walk(st.test) if isinstance(n, ast.Name)}
        flags = {x for x in mod & tested if entry.get(x, ('?',))[0] == 'bool'}
        if flags:
            # the condition is a flag: it is evaluated where the flag is known
            go = [x for k, s1, v in self.ev(s, st.test) if k == 'ok' for x in self.fork(s1, v)]
            if len(go) != 1:
                raise Unsup(src(st.test))
            if not go[0][0]:
                return [('next', go[0][1], None)]
        for x in sorted(mod):
            if x in head.env:
                v = head.env[x]
                if x in flags:
                    continue
                if v[0] == 'int':
                    nv = ('int', lsym(('phi', lid, x)))
                elif v[0] in ('bytes', 'chunks'):
                    ln = lsym(('len', ('phi', lid, x)))
                    nv = (v[0], (('phi', lid, x, ln),))
                    head.facts += (ladd((0, ()), ln, -1),)
                else:
                    nv = ('unk', ('phi', lid, x))
                phis[x] = nv
                head.env[x] = nv
        # candidate invariants: length of a changed byte string is bounded by an unchanged integer
        cands = []
        for x, v in phis.items():
            if v[0] in ('bytes', 'chunks', 'int'):
                lv = self.blen(v) if v[0] != 'int' else v[1]
                le = self.blen(entry[x]) if v[0] != 'int' else entry[x][1]
                for y, w in entry.items():
                    if w[0] == 'int' and y not in mod:
                        if self.prove_le(s, le, w[1]):
                            cands.append((x, ('le', w[1])))
                for y, w in phis.items():
                    # sum of a byte string length and a counter is invariant
                    if v[0] in ('bytes', 'chunks') and w[0] == 'int':
                        cands.append((x, ('sum', y, ladd(le, entry[y][1]))))
                        cands.append((x, ('eq', y, ladd(entry[y][1], le, -1))))

        def facts(env, cs):
            out = []
            for x, c in cs:
                v = env[x]
                if v[0] not in ('bytes', 'chunks', 'int'):
                    continue
                lv = self.blen(v) if v[0] != 'int' else v[1]
                if c[0] == 'le':
                    out.append((ladd(lv, c[1], -1), (x, c)))
                else:
                    w = env[c[1]]
                    if w[0] != 'int':
                        continue
                    d = ladd(ladd(lv, w[1]) if c[0] == 'sum' else ladd(w[1], lv, -1), c[2], -1)
                    out.append((d, (x, c)))
                    out.append(((-d[0], tuple((t, -q) for t, q in d[1])), (x, c)))
            return out
        for _ in range(6):
            h = head.copy()
            h.facts += tuple(f for f, _ in facts(h.env, cands))
            h.reads = ()
            h.ev = ()
            outs, backs = [], []
            for k, s1, v in self.ev(h.copy(), st.test):
                if k != 'ok':
                    outs.append((k, s1, v))
                    continue
                for b, s2 in self.fork(s1, v):
                    if not b:
                        outs.append(('next', s2, None))
                        continue
                    for k3, s3, v3 in self.block(s2, st.body):
                        if k3 in ('next', 'continue') and flags:
                            for k4, s4, v4 in self.ev(s3, st.test):
                                if k4 != 'ok':
                                    outs.append((k4, s4, v4))
                                    continue
                                for b4, s5 in self.fork(s4, v4):
                                    if b4 and any(s5.env[x] != entry[x] for x in flags):
                                        raise Unsup(src(st.test))
                                    if b4:
                                        backs.append(s5)
                                    else:
                                        outs.append(('next', s5, None))
                        elif k3 in ('next', 'continue'):
                            backs.append(s3)
                        elif k3 == 'break':
                            outs.append(('next', s3, None))
                        else:
                            outs.append((k3, s3, v3))
            keep = []
            for c in cands:
                if all(self.infeasible(b, [(1 - f[0], tuple((t, -q) for t, q in f[1]))])
                       for b in backs for f, cc in facts(b.env, [c])):
                    keep.append(c)
            if keep == cands:
                break
            cands = keep
        self.loops = [l for l in self.loops if l['node'] is not st] + [
            {'lid': lid, 'node': st, 'entry': entry, 'phis': phis, 'backs': backs, 'outs': outs, 'inv': cands}]
        for k, s1, v in outs:
            s1.ev = s.ev + s1.ev
            s1.reads = s.reads + s1.reads
            for x, v in phis.items():
                if v[0] in ('bytes', 'chunks'):
                    # bytes gathered by the iterations before the last
                    s1.reads += (ladd(self.blen(v), self.blen(entry[x]), -1),)
                    break
        return outs
