"""C26: the Python bindings describe the same packet format as the packet description.

Both sides are reduced to the same normal form by abstract evaluation: for each declaration the
set of (segment, bit offset, width, meaning) items it reads (parse) or writes (serialize), plus the
constants that identify it.  A segment ends wherever the position stops being a constant."""
import ast
import os
import report
from pdl import Pdl

PYF = 'py/pica/pica/packets/uci.py'


class Unsup(Exception):
    pass


EVALERR = (Unsup, AttributeError, TypeError, KeyError, IndexError, ValueError)


def src(n):
    return ast.unparse(n)[:90]


# ---------------------------------------------------------------- PDL side
def static_bits(p, name):
    """Size of a declaration in bits when constant, else None."""
    n = 0
    for k, f, t, x in p.decls[name].fields:
        if k in ('scalar', 'typed'):
            if x is not None:
                return None
            if isinstance(t, int):
                n += t
            elif t in p.enums:
                n += p.enums[t].width
            else:
                s = static_bits(p, t)
                if s is None:
                    return None
                n += s
        elif k == 'reserved':
            n += t
        elif k == 'fixed':
            n += t if isinstance(t, int) else p.enums[t].width
        elif k in ('size', 'count'):
            n += t
        elif k == 'array' and x is not None:
            w = t if isinstance(t, int) else p.enums[t].width if t in p.enums else static_bits(p, t)
            if w is None:
                return None
            n += w * x
        else:
            return None
    return n


def pdl_items(p, name):
    seg, off = 0, 0
    items, sizes = set(), {}
    for k, f, t, x in p.decls[name].fields:
        if k in ('scalar', 'typed') and x is None and (isinstance(t, int) or t in p.enums):
            w = t if isinstance(t, int) else p.enums[t].width
            items.add((seg, off, w, 'field', f, t if not isinstance(t, int) else 'int'))
            off += w
        elif k == 'typed' and x is None:
            items.add((seg, off, None, 'struct', f, t))
            s = static_bits(p, t)
            if s is None:
                seg, off = seg + 1, 0
            else:
                off += s
        elif k in ('scalar', 'typed'):
            c = sizes.get('?' + x[0])
            for it in list(items):
                if it[3] == 'field' and it[4] == x[0]:
                    items.discard(it)
                    sizes['?' + x[0]] = c = it[:3]
            items.add((seg, off, t, 'opt', f, (c, x[1])))
            seg, off = seg + 1, 0
        elif k == 'reserved':
            off += t
        elif k == 'fixed':
            w = t if isinstance(t, int) else p.enums[t].width
            v = int(x, 0) if x[0].isdigit() else p.enums[t].tags[x]
            items.add((seg, off, w, 'fixed', None, v))
            off += w
        elif k in ('size', 'count'):
            sizes[f] = (seg, off, t, k)
            off += t
        elif k == 'array':
            w = t if isinstance(t, int) else p.enums[t].width if t in p.enums else static_bits(p, t)
            et = t if not isinstance(t, int) else 'u%d' % t
            if x is not None:
                items.add((seg, off, None, 'array', f, (et, ('const', x))))
                if w is None:
                    seg, off = seg + 1, 0
                else:
                    off += w * x
                continue
            sz = sizes.get(f)
            items.add((seg, off, None, 'array', f, (et, sz[:3] if sz else 'rest')))
            if sz and sz[3] == 'size' and w != 8:
                raise Unsup('byte-sized array of non-bytes: %s.%s' % (name, f))
            seg, off = seg + 1, 0
        elif k in ('payload', 'body'):
            sz = sizes.get('_%s_' % k)
            items.add((seg, off, None, 'payload', None, sz[:3] if sz else 'rest'))
            seg, off = seg + 1, 0
        else:
            raise Unsup('field kind %s' % k)
    return items, (seg, off)


# ---------------------------------------------------------------- Python side: parse
def linear(n, name):
    """Values of an expression over one loop index for the indices 0 to 3."""
    def val(x, i):
        if x is None:
            raise Unsup('open slice in a loop')
        if isinstance(x, ast.Constant) and isinstance(x.value, int):
            return x.value
        if isinstance(x, ast.Name) and x.id == name:
            return i
        if isinstance(x, ast.BinOp) and isinstance(x.op, (ast.Add, ast.Sub, ast.Mult)):
            a, b = val(x.left, i), val(x.right, i)
            return a + b if isinstance(x.op, ast.Add) else a - b if isinstance(x.op, ast.Sub) else a * b
        raise Unsup(src(x))
    return tuple(val(n, i) for i in range(4))


class ParseEval:
    def __init__(self, mod, cls, p):
        self.mod, self.cls, self.p = mod, cls, p
        self.items, self.cons, self.kids, self.guards, self.reads = set(), {}, [], [], []
        self.nseg = 0
        self.probs, self.varreads = [], set()
        self.env = {}
        self.ret = None
        self.reading = True

    def sp(self, n):
        v = self.ev(n)
        if isinstance(v, tuple) and v[0] == 'sub':
            return v[1]
        if not (isinstance(v, tuple) and v[0] == 'sp'):
            raise Unsup('not a span: ' + src(n))
        return v

    def const(self, n):
        v = self.ev(n)
        if not isinstance(v, (int, str)):
            raise Unsup('not constant: ' + src(n))
        return v

    def read(self, seg, lo, w):
        self.reads.append((seg, (lo + w + 7) // 8))
        return ('bits', seg, lo, w)

    def ev(self, n):
        if isinstance(n, ast.Constant):
            return n.value
        if isinstance(n, ast.Name):
            if n.id in self.env:
                return self.env[n.id]
            if n.id in self.mod.consts:
                return self.mod.consts[n.id]
            return ('name', n.id)
        if isinstance(n, ast.Attribute):
            v = self.ev(n.value)
            if v[0] == 'name' and v[1] in self.mod.enums:
                return ('tag', v[1], n.attr)
            return ('attr', v, n.attr)
        if isinstance(n, ast.List) and not n.elts:
            return ('list', None)
        if isinstance(n, ast.Subscript):
            b = self.ev(n.value)
            if b == ('name', 'fields') or b == self.env.get('fields'):
                return ('fld', self.const(n.slice))
            if b[0] == 'sp':
                if isinstance(n.slice, ast.Slice):
                    if n.slice.step:
                        raise Unsup(src(n))
                    free = {x.id for q in (n.slice.lower, n.slice.upper) if q for x in ast.walk(q) if isinstance(x, ast.Name)}
                    if len(free) == 1 and self.env.get(list(free)[0]) == ('idx',):
                        return ('chunk', b) + tuple(linear(q, list(free)[0]) for q in (n.slice.lower, n.slice.upper))
                    lo = self.ev(n.slice.lower) if n.slice.lower else 0
                    hi = self.ev(n.slice.upper) if n.slice.upper else None
                    if isinstance(lo, int) and hi is None:
                        return ('sp', b[1], b[2] + lo, None)
                    if isinstance(lo, int):
                        return ('sub', ('sp', b[1], b[2] + lo, None), hi if not isinstance(hi, int) else hi - lo)
                    if hi is None:
                        return self.advance(b, lo)
                    return ('chunk', b, lo, hi)
                i = self.ev(n.slice)
                if not isinstance(i, int):
                    raise Unsup(src(n))
                return self.read(b[1], (b[2] + i) * 8, 8)
        if isinstance(n, ast.BinOp):
            a, b = self.ev(n.left), self.ev(n.right)
            if isinstance(a, int) and isinstance(b, int):
                return {ast.Add: a + b, ast.Sub: a - b, ast.Mult: a * b, ast.LShift: a << b if 0 <= b < 99 else 0,
                        ast.RShift: a >> b if b >= 0 else 0, ast.BitAnd: a & b, ast.BitOr: a | b}[type(n.op)]
            if isinstance(n.op, ast.RShift) and a[0] == 'bits' and isinstance(b, int):
                return ('bits', a[1], a[2] + b, a[3] - b)
            if isinstance(n.op, ast.BitAnd):
                if isinstance(a, int):
                    a, b = b, a
                if a[0] == 'bits' and isinstance(b, int) and (b & (b + 1)) == 0:
                    return ('bits', a[1], a[2], min(a[3], b.bit_length()))
                if a[0] == 'bits' and isinstance(b, int) and b > 0:
                    return ('masked', a, b)
            if isinstance(n.op, ast.RShift) and a[0] == 'masked' and isinstance(b, int):
                m, x = a[2] >> b, ('bits', a[1][1], a[1][2] + b, a[1][3] - b)
                return ('bits', x[1], x[2], min(x[3], m.bit_length())) if m & (m + 1) == 0 else ('masked', x, m)
            if isinstance(n.op, (ast.BitOr, ast.BitXor, ast.Add, ast.Sub, ast.LShift)):
                x, k = (b, a) if isinstance(a, int) and not isinstance(n.op, (ast.Sub, ast.LShift)) else (a, b)
                if isinstance(x, tuple) and x[0] == 'bits' and isinstance(k, int) and self.reading:
                    # a number and a constant: another number, unless the constant is 0
                    return x if k == 0 else ('masked', x, src(n))
            if isinstance(n.op, ast.Mult):
                if isinstance(a, int):
                    a, b = b, a
                if isinstance(b, int):
                    return a if b == 1 else ('mul', a, b)
            if isinstance(n.op, ast.Add):
                return ('add', a, b)
            if isinstance(n.op, (ast.Mod, ast.Div, ast.FloorDiv)) and isinstance(a, tuple) and a[0] == 'len' and isinstance(b, int):
                return ('mod' if isinstance(n.op, ast.Mod) else 'quot', a[1], b)
            raise Unsup(src(n))
        if isinstance(n, ast.Call):
            f = n.func
            if isinstance(f, ast.Attribute):
                if f.attr == 'from_bytes':
                    v = self.ev(n.args[0])
                    bo = n.args[1] if len(n.args) > 1 else [k.value for k in n.keywords if k.arg == 'byteorder'][0]
                    if v[0] == 'chunk':
                        if self.ev(bo) != self.p.endian:
                            self.probs.append('byte order %s' % src(n))
                        return v
                    if v[0] != 'sub' or not isinstance(v[2], int):
                        raise Unsup(src(n))
                    if self.ev(bo) != self.p.endian:
                        self.probs.append('byte order %s' % src(n))
                    return self.read(v[1][1], v[1][2] * 8, v[2] * 8)
                if f.attr == 'from_int':
                    e = self.ev(f.value)
                    v = self.ev(n.args[0])
                    return ('enum', e[1], v)
                if f.attr == 'parse' and isinstance(f.value, ast.Name):
                    a = self.sp(n.args[-1])
                    return ('parsed', f.value.id, a)
                if f.attr == 'parse_all':
                    return ('parsedall', f.value.id, self.ev(n.args[-1]))
                if f.attr == 'copy':
                    return self.ev(f.value)
            if isinstance(f, ast.Name):
                if f.id in ('list', 'bytes', 'bytearray'):
                    if not n.args or (isinstance(n.args[0], ast.List) and not n.args[0].elts):
                        return ('sp', 'empty', 0, None) if f.id != 'list' else ('list', None)
                    return self.ev(n.args[0])
                if f.id == 'int' and len(n.args) == 1:
                    return self.ev(n.args[0])
                if f.id in self.mod.enums:
                    return ('enum', f.id, self.ev(n.args[0]))
                if f.id == 'len':
                    return ('len', self.ev(n.args[0]))
        raise Unsup(src(n))

    def advance(self, b, amount):
        """Span after a variable amount."""
        self.nseg += 1
        self.varreads.add((b[1], b[2], amount))
        if not hasattr(self, 'pending') or self.pending is None:
            self.probs.append('position advanced by %r without a matching read' % (amount,))
        else:
            pk, pspan, pamt = self.pending
            if pamt != amount or pspan[:3] != b[:3]:
                self.probs.append('position advanced by %r after reading %r' % (amount, pamt))
        self.pending = None
        return ('sp', self.nseg, 0, None)

    def size_ref(self, amt):
        if isinstance(amt, int):
            return ('const', amt)
        if amt[0] == 'bits':
            return amt[1:]
        raise Unsup('size %r' % (amt,))

    def assign_field(self, name, v):
        if isinstance(v, tuple) and v[0] == 'bits':
            self.items.add((v[1], v[2], v[3], 'field', name, 'int'))
        elif isinstance(v, tuple) and v[0] == 'masked':
            self.items.add(v[1][1:] + ('field', name, 'changed by %s' % (v[2],)))
        elif isinstance(v, tuple) and v[0] == 'enum':
            b = v[2]
            if b[0] == 'masked':
                self.items.add(b[1][1:] + ('field', name, 'changed by %s' % (b[2],)))
                return
            if b[0] != 'bits':
                raise Unsup('field %s = %r' % (name, v))
            self.items.add((b[1], b[2], b[3], 'field', name, v[1]))
        elif isinstance(v, tuple) and v[0] == 'sub':
            self.items.add((v[1][1], v[1][2] * 8, None, 'array', name, ('u8', self.size_ref(v[2]))))
            self.pending = ('arr', v[1], v[2])
        elif isinstance(v, tuple) and v[0] == 'sp':
            self.items.add((v[1], v[2] * 8, None, 'array', name, ('u8', 'rest')))
            self.tail = True
        elif isinstance(v, tuple) and v[0] == 'arr':
            self.items.add((v[1][1], v[1][2] * 8, None, 'array', name, (v[2], v[3])))
        elif isinstance(v, tuple) and v[0] == 'elt':
            self.items.add((v[1][1], v[1][2] * 8, None, 'struct', name, v[2]))
        elif isinstance(v, tuple) and v[0] == 'parsedall' and v[2][0] == 'sub' and isinstance(v[2][2], int):
            if v[1] not in self.p.decls or static_bits(self.p, v[1]) != v[2][2] * 8:
                self.probs.append('%s parsed from %d bytes' % (v[1], v[2][2]))
            self.items.add((v[2][1][1], v[2][1][2] * 8, None, 'struct', name, v[1]))
            self.reads.append((v[2][1][1], v[2][1][2] + v[2][2]))
        else:
            raise Unsup('field %s = %r' % (name, v))

    def raises(self, body):
        return len(body) >= 1 and isinstance(body[-1], ast.Raise)

    def stmt(self, s):
        if isinstance(s, ast.Pass) or (isinstance(s, ast.Expr) and isinstance(s.value, ast.Constant)):
            return
        if isinstance(s, ast.Expr) and isinstance(s.value, ast.Call) and src(s.value.func) == 'print':
            return
        if isinstance(s, (ast.Assign, ast.AnnAssign)):
            t = s.targets[0] if isinstance(s, ast.Assign) else s.target
            if isinstance(s.value, ast.Dict):
                self.env[t.id] = ('name', 'fields')
                return
            if isinstance(t, ast.Tuple):
                v = self.ev(s.value)
                if v[0] == 'parsed':
                    self.env[t.elts[0].id] = ('elt', v[2], v[1])
                    w = static_bits(self.p, v[1]) if v[1] in self.p.decls else None
                    if w is None:
                        self.nseg += 1
                        self.env[t.elts[1].id] = ('sp', self.nseg, 0, None)
                    else:
                        self.env[t.elts[1].id] = ('sp', v[2][1], v[2][2] + w // 8, None)
                    return
                raise Unsup(src(s))
            v = self.ev(s.value)
            if isinstance(t, ast.Subscript):
                nm = self.const(t.slice)
                if nm == 'payload':
                    if v is None:
                        return
                    if v[0] == 'sub':
                        self.items.add((v[1][1], v[1][2] * 8, None, 'payload', None, self.size_ref(v[2])))
                    elif v[0] == 'sp':
                        self.items.add((v[1], v[2] * 8, None, 'payload', None, 'rest'))
                    else:
                        raise Unsup(src(s))
                    return
                self.assign_field(nm, v)
                return
            if isinstance(v, tuple) and v[0] == 'sub' and not isinstance(v[2], int):
                self.pending = ('loc', v[1], v[2])
            self.env[t.id] = v
            return
        if isinstance(s, ast.If):
            self.if_(s)
            return
        if isinstance(s, ast.For):
            self.for_(s)
            return
        if isinstance(s, ast.Try):
            # child dispatch
            for b in s.body:
                if isinstance(b, ast.Assign) and isinstance(b.targets[0], ast.Tuple):
                    v = self.ev(b.value)
                    if v[0] == 'parsed':
                        self.kids.append(v[1])
                        return
            raise Unsup(src(s))
        if isinstance(s, ast.Return):
            v = s.value
            if isinstance(v, ast.Tuple):
                c = v.elts[0]
                if isinstance(c, ast.Call) and src(c.func) not in (self.cls.name, 'cls'):
                    self.probs.append('returns a %s' % src(c.func))
                for k in c.keywords if isinstance(c, ast.Call) else ():
                    if k.arg is not None:
                        self.assign_field(k.arg, self.ev(k.value))
                self.ret = self.sp(v.elts[1])
                return
        raise Unsup(src(s))

    def if_(self, s):
        t = s.test
        if self.raises(s.body) and not s.orelse:
            tests = t.values if isinstance(t, ast.BoolOp) and isinstance(t.op, ast.Or) else [t]
            if isinstance(t, ast.BoolOp) and isinstance(t.op, ast.And) and len(t.values) > 1 and all(
                    isinstance(c, ast.Compare) and len(c.ops) == 1 and isinstance(c.ops[0], ast.NotEq) for c in t.values) and len(
                    {src(c.left) for c in t.values}) == len(t.values):
                self.probs.append('refuses a packet only when all of several fields differ: %s' % src(t))
                tests = t.values
            for c in tests:
                if not isinstance(c, ast.Compare) or len(c.ops) != 1:
                    raise Unsup(src(c))
                a, b, op = self.ev(c.left), self.ev(c.comparators[0]), type(c.ops[0])
                if op in (ast.Gt, ast.GtE):
                    a, b, op = b, a, {ast.Gt: ast.Lt, ast.GtE: ast.LtE}[op]
                if isinstance(a, tuple) and a[0] == 'len' and op in (ast.Lt, ast.LtE):
                    k = a[1]
                    if op is ast.LtE:
                        b = b + 1 if isinstance(b, int) else ('add', b, 1)
                    self.guards.append((k[1], k[2], b))
                elif op is ast.NotEq and isinstance(a, tuple) and a[0] == 'mod' and b == 0:
                    pass
                elif op is ast.NotEq and isinstance(a, tuple) and a[0] == 'fld':
                    self.cons[a[1]] = b
                elif op is ast.Eq and isinstance(a, tuple) and a[0] == 'fld':
                    self.cons[a[1]] = ('anything but', b)
                elif op is ast.NotEq and isinstance(a, tuple) and a[0] == 'bits' and isinstance(b, int):
                    self.items.add((a[1], a[2], a[3], 'fixed', None, b))
                else:
                    raise Unsup(src(c))
            return
        # optional field: if cond == value: guard; read; advance
        if isinstance(t, ast.Compare) and isinstance(t.ops[0], ast.Eq) and not s.orelse:
            a, b = self.ev(t.left), self.ev(t.comparators[0])
            if isinstance(a, tuple) and a[0] == 'bits' and isinstance(b, int):
                before = set(self.items)
                sp0 = self.env['span']
                for x in s.body:
                    self.stmt(x)
                new = self.items - before
                sp1 = self.env['span']
                if len(new) != 1:
                    raise Unsup(src(s))
                (seg, off, w, k, nm, ty), = new
                self.items.discard((seg, off, w, k, nm, ty))
                if (seg, off) != (sp0[1], sp0[2] * 8):
                    self.probs.append('optional field %s read at the wrong position' % nm)
                if sp1[1] != sp0[1] or (sp1[2] - sp0[2]) * 8 != w:
                    self.probs.append('optional field %s: %d bits read, %d bytes consumed' % (nm, w, sp1[2] - sp0[2]))
                self.items.add((seg, off, w, 'opt', nm, (a[1:], b)))
                self.nseg += 1
                self.env['span'] = ('sp', self.nseg, 0, None)
                return
        raise Unsup(src(s))

    def for_(self, s):
        it = s.iter
        if not (isinstance(it, ast.Call) and src(it.func) == 'range' and len(it.args) == 1):
            raise Unsup(src(s))
        cnt = self.ev(it.args[0])
        sp0 = self.env.get('span')
        lst, ety, chunk = None, None, None
        saved = dict(self.env)
        self.env[s.target.id] = ('idx',)
        for x in s.body:
            if isinstance(x, ast.Assign) and isinstance(x.targets[0], ast.Tuple):
                v = self.ev(x.value)
                if v[0] != 'parsed' or v[2] != sp0 or src(x.targets[0].elts[1]) != 'span':
                    raise Unsup(src(x))
                self.env[x.targets[0].elts[0].id] = ('elt', v[2], v[1])
            elif isinstance(x, ast.Expr) and isinstance(x.value, ast.Call) and isinstance(x.value.func, ast.Attribute) \
                    and x.value.func.attr == 'append':
                lst = x.value.func.value.id
                v = self.ev(x.value.args[0])
                if v[0] == 'elt':
                    ety = v[2]
                elif v[0] in ('parsedall', 'enum') and v[2][0] == 'chunk':
                    ety = v[1]
                    _, b, lo, hi = v[2]
                    if b != sp0:
                        raise Unsup(src(x))
                    chunk = hi[0] or 1
                    if lo != tuple(i * chunk for i in range(4)) or hi != tuple((i + 1) * chunk for i in range(4)):
                        self.probs.append('elements of %s read at other positions: %s' % (ety, src(x)))
                        chunk = lo[1] - lo[0] or 1
                else:
                    raise Unsup(src(x))
            else:
                raise Unsup(src(x))
        self.env = saved
        if isinstance(cnt, tuple) and cnt[0] == 'quot':
            if cnt[1] != sp0 or cnt[2] != chunk:
                self.probs.append('%s counted in units of %s, read in units of %s' % (ety, cnt[2], chunk))
            self.env[lst] = ('arr', sp0, ety, 'rest')
            return
        ref = self.size_ref(cnt)
        self.env[lst] = ('arr', sp0, ety, ref)
        if chunk is None:
            self.nseg += 1
            self.env['span'] = ('sp', self.nseg, 0, None)
        else:
            n = static_bits(self.p, ety) if ety in self.p.decls else self.p.enums[ety].width if ety in self.p.enums else None
            if n != chunk * 8:
                self.probs.append('elements of %s read in chunks of %d bytes' % (ety, chunk))
            self.pending = ('arr', sp0, ('mul', cnt, chunk) if chunk != 1 else cnt)

    def run(self, fn):
        self.env = {'span': ('sp', 0, 0, None), 'fields': ('name', 'fields')}
        self.pending = None
        for s in fn.body:
            self.stmt(s)
        if self.ret is None:
            raise Unsup('no return')
        # bounds: every constant-position read is covered by a guard, and no guard asks for more than is consumed
        ends = {}
        for seg, e in self.reads:
            ends[seg] = max(ends.get(seg, 0), e)
        for seg, e in ends.items():
            g = max([o + b for sg, o, b in self.guards if sg == seg and isinstance(b, int)] or [0])
            if g < e and seg != 'empty':
                self.probs.append('reads %d bytes of segment %s but checks for %d' % (e, seg, g))
        # a variable amount is checked for exactly before it is read
        for seg, off, amt in self.varreads:
            gs = [b for sg, o, b in self.guards if sg == seg and o == off and not isinstance(b, int)]
            if amt not in gs:
                if any(b[0] == 'add' and b[1] == amt and isinstance(b[2], int) and b[2] > 0 for b in gs):
                    self.probs.append('asks for more than the %r bytes that are consumed' % (amt,))
                elif not gs:
                    self.probs.append('reads %r bytes without checking for them' % (amt,))
        return self


# ---------------------------------------------------------------- Python side: serialize
class SerEval:
    def __init__(self, mod, cls, p):
        self.mod, self.cls, self.p = mod, cls, p
        self.items, self.limits = set(), {}
        self.seg, self.off = 0, 0
        self.env, self.probs, self.ret = {}, [], None

    def terms(self, n):
        """OR of shifted values -> [(shift, value node)]"""
        if isinstance(n, ast.Name) and n.id in self.env:
            return self.terms(self.env[n.id])
        if isinstance(n, ast.BinOp) and isinstance(n.op, (ast.BitOr, ast.Add)):
            return self.terms(n.left) + self.terms(n.right)
        if isinstance(n, ast.BinOp) and isinstance(n.op, ast.LShift) and isinstance(n.right, ast.Constant):
            return [(k + n.right.value, v) for k, v in self.terms(n.left)]
        if isinstance(n, ast.BinOp) and isinstance(n.op, ast.RShift) and isinstance(n.right, ast.Constant) and n.right.value == 0:
            return self.terms(n.left)
        return [(0, n)]

    def sized(self, v):
        """Is this a size in bytes of the elements of an array?"""
        if not (isinstance(v.op, ast.Mult) and isinstance(v.left, ast.Call) and isinstance(v.left.args[0], ast.Attribute)):
            return False
        t = [x[2] for x in self.p.decls[self.cls.name].fields if x[0] == 'array' and x[1] == v.left.args[0].attr]
        w = t and (t[0] if isinstance(t[0], int) else self.p.enums[t[0]].width if t[0] in self.p.enums else static_bits(self.p, t[0]))
        return not w or w // 8 == v.right.value

    def emit_int(self, n, width):
        for k, v in self.terms(n):
            at = (self.seg, self.off + k)
            if isinstance(v, ast.Constant):
                if v.value:
                    self.items.add(at + (v.value.bit_length(), 'fixed', None, v.value))
                continue
            if isinstance(v, ast.Attribute) and src(v.value) == 'self':
                self.items.add(at + ('?', 'field', v.attr))
                continue
            if isinstance(v, ast.BinOp) and isinstance(v.op, ast.Mult) and isinstance(v.right, ast.Constant) and v.right.value == 1:
                v = v.left
            if isinstance(v, ast.BinOp) and isinstance(v.op, (ast.Mult, ast.Sub, ast.RShift, ast.FloorDiv)) and isinstance(v.right, ast.Constant) \
                    and isinstance(v.right.value, int) and v.right.value != (0 if isinstance(v.op, (ast.Sub, ast.RShift)) else 1) \
                    and (isinstance(v.left, ast.Attribute) and src(v.left.value) == 'self' or isinstance(v.left, ast.Call) and src(v.left.func) == 'len') \
                    and not self.sized(v):
                self.items.add(at + ('?', 'changed', src(v)))
                continue
            if isinstance(v, ast.Name) and v.id in self.env:
                v = self.env[v.id]
            if isinstance(v, ast.Call) and src(v.func) == 'len':
                self.items.add(at + ('?', 'len', src(v.args[0])))
                continue
            if isinstance(v, ast.IfExp):
                self.items.add(at + ('?', 'flag', src(v)))
                continue
            raise Unsup(src(v))
        self.off += width

    def stmt(self, s):
        if isinstance(s, ast.Pass) or (isinstance(s, ast.Expr) and isinstance(s.value, ast.Constant)):
            return
        if isinstance(s, ast.Assign) and isinstance(s.targets[0], ast.Name):
            v = s.value
            if s.targets[0].id == '_span' or (isinstance(v, ast.Call) and src(v.func) == 'bytearray' and not v.args):
                self.buf = s.targets[0].id
                return
            self.env[s.targets[0].id] = v
            return
        if isinstance(s, ast.If):
            t = s.test
            if isinstance(t, ast.Compare) and isinstance(t.ops[0], (ast.Gt, ast.GtE)) and isinstance(t.comparators[0], ast.Constant):
                lim = t.comparators[0].value - isinstance(t.ops[0], ast.GtE)
                what = src(t.left)
                self.limits[what] = lim
                for x in s.body:
                    if isinstance(x, ast.AugAssign):
                        if not (isinstance(x.op, ast.BitAnd) and src(x.target) == what and x.value.value == lim):
                            self.probs.append('truncation %s' % src(x))
                    elif isinstance(x, ast.Delete):
                        sl = x.targets[0].slice
                        if not (isinstance(sl, ast.Slice) and sl.lower.value == lim):
                            self.probs.append('truncation %s' % src(x))
                    elif isinstance(x, ast.Expr) and src(x.value.func) == 'print':
                        pass
                    elif isinstance(x, (ast.Raise, ast.Pass)):
                        pass
                    else:
                        raise Unsup(src(x))
                return
            if isinstance(t, ast.Compare) and isinstance(t.ops[0], ast.IsNot) and src(t.comparators[0]) == 'None':
                f = t.left
                before, o0 = set(self.items), (self.seg, self.off)
                for x in s.body:
                    self.stmt(x)
                new = self.items - before
                if len(new) != 1 or [i[4] for i in new] != [f.attr]:
                    raise Unsup(src(s))
                self.items -= new
                self.items.add(o0 + (self.off - o0[1], 'opt', f.attr))
                self.seg, self.off = self.seg + 1, 0
                return
            raise Unsup(src(s))
        if isinstance(s, ast.Expr) and isinstance(s.value, ast.Call) and isinstance(s.value.func, ast.Attribute):
            c = s.value
            if src(c.func.value) != self.buf:
                raise Unsup(src(s))
            a = c.args[0]
            if c.func.attr == 'append':
                self.emit_int(a, 8)
                return
            if c.func.attr == 'extend':
                if isinstance(a, ast.Call) and isinstance(a.func, ast.Attribute) and a.func.attr == 'to_bytes':
                    kw = {k.arg: k.value for k in a.keywords}
                    val = a.args[0] if src(a.func.value) == 'int' else a.func.value
                    rest = a.args[1:] if src(a.func.value) == 'int' else a.args
                    ln = kw.get('length') or rest[0]
                    bo = kw.get('byteorder') or rest[1]
                    if bo.value != self.p.endian:
                        self.probs.append('byte order %s' % src(s))
                    self.emit_int(val, ln.value * 8)
                    return
                if isinstance(a, ast.BinOp) and isinstance(a.op, ast.Mult) and isinstance(a.left, ast.List) \
                        and len(a.left.elts) == 1 and isinstance(a.left.elts[0], ast.Constant):
                    if a.left.elts[0].value != 0:
                        self.items.add((self.seg, self.off, a.right.value * 8, 'fixed', None, a.left.elts[0].value))
                    self.off += 8 * a.right.value
                    return
                if isinstance(a, ast.Attribute) and src(a.value) == 'self':
                    self.items.add((self.seg, self.off, None, 'array', a.attr, 'u8'))
                    n = self.limits.get('#' + a.attr)
                    self.arr_advance(a.attr)
                    return
                if isinstance(a, ast.Call) and isinstance(a.func, ast.Attribute) and a.func.attr == 'serialize':
                    f = a.func.value
                    self.items.add((self.seg, self.off, None, 'struct', f.attr, None))
                    t = [x[2] for x in self.p.decls[self.cls.name].fields if x[0] == 'typed' and x[1] == f.attr]
                    w = static_bits(self.p, t[0]) if t and t[0] in self.p.decls else None
                    if w is None:
                        self.seg, self.off = self.seg + 1, 0
                    else:
                        self.off += w
                    return
                if 'payload' in src(a):
                    if src(a) != 'payload or self.payload or []' and src(a) not in ('payload', 'self.payload'):
                        raise Unsup(src(a))
                    self.items.add((self.seg, self.off, None, 'payload', None, None))
                    self.seg, self.off = self.seg + 1, 0
                    return
            raise Unsup(src(s))
        if isinstance(s, ast.For):
            if len(s.body) == 1 and isinstance(s.iter, ast.Attribute):
                b = src(s.body[0])
                e = s.target.id
                if b in ('%s.extend(%s.serialize())' % (self.buf, e),):
                    self.items.add((self.seg, self.off, None, 'array', s.iter.attr, None))
                    self.arr_advance(s.iter.attr)
                    return
                w = [x[2] for x in self.p.decls[self.cls.name].fields if x[0] == 'array' and x[1] == s.iter.attr]
                w = self.p.enums[w[0]].width if w and w[0] in self.p.enums else None
                if (b == '%s.append(%s)' % (self.buf, e) and w == 8) or (
                        w and b == "%s.extend(int.to_bytes(%s, length=%d, byteorder='little'))" % (self.buf, e, w // 8)):
                    self.items.add((self.seg, self.off, None, 'array', s.iter.attr, None))
                    self.arr_advance(s.iter.attr)
                    return
            raise Unsup(src(s))
        if isinstance(s, ast.Return):
            v = s.value
            if isinstance(v, ast.Call) and src(v.func) == 'bytes' and len(v.args) == 1:
                self.ret = None
                if isinstance(v.args[0], ast.List):
                    for e in v.args[0].elts:
                        self.emit_int(e, 8)
                elif src(v.args[0]) != self.buf:
                    raise Unsup(src(s))
            elif isinstance(v, ast.Call) and isinstance(v.func, ast.Attribute) and v.func.attr == 'serialize':
                self.ret = src(v.func.value)
                if self.ret == 'super()':
                    self.ret = src(self.cls.bases[0])
                pl = [k.value for k in v.keywords if k.arg == 'payload'] or v.args[1:]
                if not pl or src(pl[0]) != 'bytes(%s)' % self.buf:
                    raise Unsup(src(s))
            else:
                raise Unsup(src(s))
            self.done = True
            return
        raise Unsup(src(s))

    def arr_advance(self, name):
        for k, f, t, x in self.p.decls[self.cls.name].fields:
            if k == 'array' and f == name and x is not None:
                w = t if isinstance(t, int) else self.p.enums[t].width if t in self.p.enums else static_bits(self.p, t)
                if w is not None:
                    self.off += w * x
                    return
        self.seg, self.off = self.seg + 1, 0

    def run(self, fn):
        self.done = False
        for s in fn.body:
            self.stmt(s)
        if not self.done:
            raise Unsup('no return')
        return self


def expected_ser(p, name, items):
    """The writes a declaration must produce, in the shape SerEval produces."""
    out = set()
    flags = {}
    for it in items:
        seg, off, w, k, nm, ty = it
        if k == 'field':
            out.add((seg, off, '?', 'field', nm))
        elif k == 'fixed':
            if ty:
                out.add((seg, off, ty.bit_length(), 'fixed', None, ty))
        elif k == 'opt':
            out.add((seg, off, w, 'opt', nm))
            flags.setdefault(ty[0], []).append((ty[1], nm))
        elif k == 'struct':
            out.add((seg, off, None, 'struct', nm, None))
        elif k == 'array':
            et = ty[0]
            out.add((seg, off, None, 'array', nm, 'u8' if et == 'u8' else None))
            if isinstance(ty[1], tuple) and ty[1][0] != 'const':
                out.add((ty[1][0], ty[1][1], '?', 'len', 'self.' + nm))
        elif k == 'payload':
            out.add((seg, off, None, 'payload', None, None))
            if ty != 'rest':
                out.add((ty[0], ty[1], '?', 'len', 'payload or self.payload or []'))
    for c, alts in flags.items():
        out.add((c[0], c[1], '?', 'flag', tuple(sorted(alts))))
    return out


class Mod:
    def __init__(self, path):
        self.tree = ast.parse(open(path).read())
        self.enums, self.classes, self.consts = {}, {}, {}
        for n in self.tree.body:
            if isinstance(n, ast.ClassDef):
                bases = [src(b) for b in n.bases]
                if any(b.endswith('IntEnum') or b.endswith('Enum') for b in bases):
                    self.enums[n.name] = n
                else:
                    self.classes[n.name] = n
            elif isinstance(n, ast.Assign) and isinstance(n.value, ast.Constant):
                self.consts[n.targets[0].id] = n.value.value


def fn(cls, name):
    for n in cls.body:
        if isinstance(n, (ast.FunctionDef, ast.AsyncFunctionDef)) and n.name == name:
            return n
    return None


def enum_tags(cls):
    out = {}

    def val(e):
        if isinstance(e, ast.Name):
            return out[e.id]
        if isinstance(e, ast.BinOp):
            a, b = val(e.left), val(e.right)
            return {ast.Add: lambda: a + b, ast.Sub: lambda: a - b, ast.LShift: lambda: a << b, ast.BitOr: lambda: a | b,
                    ast.Mult: lambda: a * b}[type(e.op)]()
        return ast.literal_eval(e)

    for n in cls.body:
        if isinstance(n, ast.Assign):
            for t in n.targets:
                out[t.id] = val(n.value)
        elif isinstance(n, ast.AnnAssign) and n.value is not None:
            out[n.target.id] = val(n.value)
    return out


def from_int_accepts(cls, tags, width):
    """The set of integers from_int returns for (anything else raises), over the whole width."""
    f = fn(cls, 'from_int')
    acc = set()
    known = set(tags.values())

    def tst(t, env):
        if isinstance(t, ast.Compare):
            vals = [val(t.left, env)] + [val(c, env) for c in t.comparators]
            for (a, b), op in zip(zip(vals, vals[1:]), t.ops):
                r = {ast.Lt: lambda: a < b, ast.LtE: lambda: a <= b, ast.Gt: lambda: a > b, ast.GtE: lambda: a >= b,
                     ast.Eq: lambda: a == b, ast.NotEq: lambda: a != b, ast.In: lambda: a in b}[type(op)]()
                if not r:
                    return False
            return True
        if isinstance(t, ast.BoolOp):
            f_ = all if isinstance(t.op, ast.And) else any
            return f_(tst(x, env) for x in t.values)
        raise Unsup(src(t))

    def val(e, env):
        if isinstance(e, ast.Name):
            return env[e.id]
        return ast.literal_eval(e)

    def block(b, env):
        for s in b:
            if isinstance(s, ast.Try):
                try:
                    r = block(s.body, env)
                except ValueError:
                    r = block(s.handlers[0].body, env)
                if r is not None:
                    return r
            elif isinstance(s, ast.Return):
                if isinstance(s.value, ast.Call):
                    v = val(s.value.args[0], env)
                    if v not in known:
                        raise ValueError
                    return v
                return val(s.value, env)
            elif isinstance(s, ast.Raise):
                raise KeyError
            elif isinstance(s, ast.If):
                r = block(s.body if tst(s.test, env) else s.orelse, env)
                if r is not None:
                    return r
            elif isinstance(s, (ast.Pass, ast.Expr)):
                pass
            else:
                raise Unsup(src(s))
        return None

    for v in range(1 << width):
        try:
            if block(f.body, {f.args.args[-1].arg: v}) == v:
                acc.add(v)
        except KeyError:
            pass
        except ValueError:
            pass
    return acc


def run(r):
    p = Pdl(os.path.join(report.REPO, 'src/uci_packets.pdl'))
    m = Mod(os.path.join(report.REPO, PYF))
    r.rule('enum-tags', 'every enumeration has the same tags and values in the bindings as in the packet description')
    r.rule('enum-domain', 'from_int of every enumeration accepts exactly the values the emulator\'s parser accepts')
    r.rule('parse-layout', 'the items parse() reads (segment, bit offset, width, field, type, sizing) equal the declaration\'s')
    r.rule('serialize-layout', 'the items serialize() writes equal the declaration\'s')
    r.rule('identity', 'constraint fields checked by parse() and set by __post_init__() equal the declaration\'s; parents and children agree')
    r.rule('bounds', 'every fixed-position read is covered by a length check that asks for no more than is consumed')
    r.rule('framing', 'HEADER_SIZE, payload length positions and the boundary flag agree between the emulator and the bindings')
    undecided = []
    for n, e in p.enums.items():
        if n not in m.enums:
            r.bad('enum-tags', n, 'enumeration %s is missing from %s' % (n, PYF))
            continue
        try:
            tags = enum_tags(m.enums[n])
        except EVALERR as ex:
            undecided.append('%s: %s' % (n, ex))
            continue
        for t, v in e.tags.items():
            if t in e.nested and t not in tags:
                continue    # named only inside a value range: the bindings hold it as a number
            r.check(tags.get(t) == v, 'enum-tags', '%s.%s' % (n, t),
                    '%s.%s is %s in %s and %s in src/uci_packets.pdl' % (n, t, tags.get(t), PYF, v))
        for t in set(tags) - set(e.tags):
            r.bad('enum-tags', '%s.%s' % (n, t), '%s.%s exists only in %s' % (n, t, PYF))
        want = set(e.tags.values())
        for lo, hi in e.ranges.values():
            want |= set(range(lo, hi + 1))
        if e.open:
            want = set(range(1 << e.width))
        if e.width <= 16:
            try:
                got = from_int_accepts(m.enums[n], tags, e.width)
            except EVALERR as ex:
                undecided.append('%s.from_int: %s' % (n, ex))
                continue
            lenient = bool(e.ranges) and want <= got    # the generated from_int keeps unnamed numbers of such types
            r.check(got == want or lenient, 'enum-domain', n, '%s.from_int accepts %s differently from the description' % (
                n, sorted(got ^ want)[:5]))
    for n in set(m.enums) - set(p.enums):
        r.bad('enum-tags', n, 'enumeration %s exists only in the bindings' % n)
    for n, d in p.decls.items():
        if n not in m.classes:
            r.bad('identity', n, 'declaration %s is missing from the bindings' % n)
            continue
        c = m.classes[n]
        bases = [src(b) for b in c.bases]
        r.check((d.parent or 'Packet') in bases, 'identity', n + '.parent', '%s derives from %s, description says %s' % (n, bases, d.parent))
        items, end = pdl_items(p, n)
        cons = p.cons(n)
        # constants set by construction
        pi = fn(c, '__post_init__')
        got = {}
        odd = None
        for s in (pi.body if pi else []):
            if isinstance(s, ast.Assign):
                for t in s.targets:
                    pairs = [(t, s.value)]
                    if isinstance(t, ast.Tuple) and isinstance(s.value, ast.Tuple) and len(t.elts) == len(s.value.elts):
                        pairs = list(zip(t.elts, s.value.elts))
                    for a, v in pairs:
                        if isinstance(a, ast.Attribute) and src(a.value) == 'self' and isinstance(v, (ast.Attribute, ast.Constant)):
                            got[a.attr] = str(v.value) if isinstance(v, ast.Constant) else v.attr
                        else:
                            odd = src(s)
            elif not isinstance(s, ast.Pass) and not (isinstance(s, ast.Expr) and isinstance(s.value, ast.Constant)):
                odd = src(s)
        if odd:
            undecided.append('%s.__post_init__: %s' % (n, odd))
        for k, v in cons.items():
            if v[0].isdigit():
                v = str(int(v, 0))
            if k in got or not odd:
                r.check(got.get(k) == v, 'identity', '%s.post_init.%s' % (n, k),
                        '%s sets %s to %s, the description requires %s' % (n, k, got.get(k), v))
        for k in set(got) - set(cons):
            r.bad('identity', '%s.post_init.%s' % (n, k), '%s sets %s, the description does not constrain it' % (n, k))
        # parse
        f = fn(c, 'parse')
        try:
            pe = ParseEval(m, c, p).run(f)
        except EVALERR as ex:
            undecided.append('%s.parse: %s' % (n, ex or type(ex).__name__))
            pe = None
        if pe:
            miss = items - pe.items
            extra = pe.items - items
            r.check(not miss and not extra, 'parse-layout', n, '%s.parse reads %s; the description has %s' % (
                n, fmt(extra), fmt(miss)))
            for pr in pe.probs:
                r.bad('bounds', '%s.parse' % n, '%s.parse: %s' % (n, pr))
            for seg, off, b in pe.guards:
                if not isinstance(b, int):
                    continue
                # a guard may not exceed what the segment holds
                mx = max([i[1] // 8 + ((i[2] or 0) + 7) // 8 for i in items if i[0] == seg] + [0])
                lim = seg_len(p, n, seg)
                r.check(lim is None or off + b <= lim, 'bounds', '%s.parse.%s' % (n, seg),
                        '%s.parse asks for %d bytes where the format has %s' % (n, off + b, lim))
            if pe.ret[1] != 'empty' and not any(i[3] == 'payload' for i in items):
                r.check((pe.ret[1], pe.ret[2] * 8) == end, 'parse-layout', n + '.end',
                        '%s.parse ends at %s, the description at %s' % (n, pe.ret[1:3], end))
            gc = {k: (v[2] if isinstance(v, tuple) and v[0] == 'tag' else str(v)) for k, v in pe.cons.items()}
            for k, v in cons.items():
                if v[0].isdigit():
                    v = str(int(v, 0))
                r.check(gc.get(k) == v, 'identity', '%s.parse.%s' % (n, k),
                        '%s.parse requires %s = %s, the description %s' % (n, k, gc.get(k), v))
            for k in set(gc) - set(cons):
                r.bad('identity', '%s.parse.%s' % (n, k), '%s.parse requires %s = %s, the description nothing' % (n, k, gc[k]))
            kids = {x.name for x in p.children(n)}
            r.check(set(pe.kids) == kids, 'identity', n + '.children', '%s.parse tries %s, description has %s' % (
                n, sorted(set(pe.kids) - kids), sorted(kids - set(pe.kids))))
        f = fn(c, 'serialize')
        try:
            se = SerEval(m, c, p).run(f)
        except EVALERR as ex:
            undecided.append('%s.serialize: %s' % (n, ex or type(ex).__name__))
            se = None
        if se:
            want = expected_ser(p, n, items)
            gotf = set()
            for it in se.items:
                gotf.add(it)
            # flags compare loosely: (position) and that each alternative's presence selects its value
            wf = {i for i in want if i[3] == 'flag'}
            gf = {i for i in gotf if i[3] == 'flag'}
            want -= wf
            gotf -= gf
            okf = {i[:2] for i in wf} == {i[:2] for i in gf}
            for i in wf:
                for j in gf:
                    if i[:2] == j[:2]:
                        e = ast.parse(j[4], mode='eval').body
                        nm = e.test.left.attr
                        sel = [a for a in i[4] if a[1] == nm]
                        isnone = isinstance(e.test.ops[0], ast.Is)
                        v = (e.orelse if isnone else e.body).value
                        w = (e.body if isnone else e.orelse).value
                        okf = okf and bool(sel) and sel[0][0] == v and all(a[0] == w for a in i[4] if a[1] != nm)
            miss, extra = want - gotf, gotf - want
            r.check(okf and not miss and not extra, 'serialize-layout', n, '%s.serialize writes %s; the description has %s' % (
                n, fmt(extra), fmt(miss)))
            r.check(se.ret == d.parent, 'serialize-layout', n + '.parent', '%s.serialize wraps in %s' % (n, se.ret))
            if not any(i[3] in ('payload',) for i in items):
                r.check((se.seg, se.off) == end, 'serialize-layout', n + '.end', '%s.serialize ends at %s, description at %s' % (n, (se.seg, se.off), end))
            for it in items:
                if it[3] == 'field' and it[5] == 'int':
                    lim = se.limits.get('self.' + it[4])
                    r.check(lim == (1 << it[2]) - 1, 'serialize-layout', '%s.%s.max' % (n, it[4]),
                            '%s.serialize truncates %s at %s' % (n, it[4], lim))
                if it[3] == 'array' and isinstance(it[5][1], tuple) and it[5][1][0] != 'const' and ('len(self.%s)' % it[4]) in se.limits:
                    lim = se.limits['len(self.%s)' % it[4]]
                    r.check(lim == (1 << it[5][1][2]) - 1, 'serialize-layout', '%s.%s.max' % (n, it[4]),
                            '%s.serialize truncates %s at %s elements' % (n, it[4], lim))
            for pr in se.probs:
                r.bad('serialize-layout', n + '.prob', '%s.serialize: %s' % (n, pr))
    for n in set(m.classes) - set(p.decls) - {'Packet'}:
        r.bad('identity', n, 'class %s exists only in the bindings' % n)
    r.analysed = {'enumerations': len(p.enums), 'declarations': len(p.decls), 'undecided': undecided}
    r.explanation = ('Abstract evaluation of the syntax tree of every class of the generated Python bindings, compared '
                     'with the parsed packet description the emulator\'s parser is generated from.')
    import framing
    framing.run(r, p)
    r.floor('enum-tags', 300)
    r.floor('parse-layout', 95)
    r.floor('serialize-layout', 95)
    for u in undecided:
        r.gaps.append('construct not understood: %s' % u)
    return 'other'


def seg_len(p, name, seg):
    """Constant bytes in a segment of the declaration (up to the next variable item)."""
    s, off = 0, 0
    for k, f, t, x in p.decls[name].fields:
        w = None
        if k in ('scalar', 'typed') and x is None:
            w = t if isinstance(t, int) else p.enums[t].width if t in p.enums else static_bits(p, t)
        elif k in ('scalar', 'typed'):
            if s == seg:
                return (off + t) // 8
        elif k == 'reserved':
            w = t
        elif k == 'fixed':
            w = t if isinstance(t, int) else p.enums[t].width
        elif k in ('size', 'count'):
            w = t
        elif k == 'array' and x is not None:
            ew = t if isinstance(t, int) else p.enums[t].width if t in p.enums else static_bits(p, t)
            w = None if ew is None else ew * x
        if w is None:
            if s == seg:
                return off // 8
            s, off = s + 1, 0
        else:
            off += w
    return off // 8 if s == seg else None


def fmt(items):
    return '[' + ', '.join('%s@seg%s+%s:%s' % (i[4] if i[4] else i[3], i[0], i[1], i[2:]) for i in sorted(items, key=str)[:3]) + ']'
