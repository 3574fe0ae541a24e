"""Parser for the packet description language used by src/uci_packets.pdl."""
import re

TOK = re.compile(r'''\s+|//[^\n]*|/\*.*?\*/|(?P<str>"[^"]*")|(?P<num>0x[0-9a-fA-F]+|\d+)|(?P<id>[A-Za-z_][A-Za-z0-9_]*)|(?P<op>\.\.|[{}()\[\]:,=+])''', re.S)


def camel(s):
    """Name of the Rust variant generated for an enum tag."""
    out, up = [], True
    for ch in s:
        if ch == '_':
            up = True
            continue
        out.append(ch.upper() if up else ch.lower() if s.isupper() or '_' in s or s.upper() == s else ch)
        up = False
    return ''.join(out)


class Enum:
    def __init__(self, name, width):
        self.name, self.width = name, width
        self.tags = {}      # name -> value
        self.ranges = {}    # name -> (lo, hi)
        self.open = None    # name of the catch-all tag
        self.nested = set() # tags named inside a range

    def __repr__(self):
        return 'enum %s:%d' % (self.name, self.width)


class Decl:
    def __init__(self, kind, name, parent, cons):
        self.kind, self.name, self.parent, self.cons = kind, name, parent, cons
        self.fields = []    # (kind, name, type/width, extra)


class Pdl:
    def __init__(self, path):
        src = open(path).read()
        self.toks, pos = [], 0
        while pos < len(src):
            m = TOK.match(src, pos)
            if not m:
                raise ValueError('pdl: cannot tokenize at %r' % src[pos:pos + 20])
            pos = m.end()
            if m.lastgroup:
                self.toks.append((m.lastgroup, m.group(m.lastgroup)))
        self.p = 0
        self.endian = None
        self.enums, self.decls = {}, {}
        self.order = []
        while self.p < len(self.toks):
            self._decl()

    def peek(self, k=0):
        return self.toks[self.p + k][1] if self.p + k < len(self.toks) else None

    def next(self):
        self.p += 1
        return self.toks[self.p - 1][1]

    def eat(self, t):
        if self.peek() == t:
            self.p += 1
            return True
        return False

    def want(self, t):
        if not self.eat(t):
            raise ValueError('pdl: expected %r, found %r' % (t, self.peek()))

    def _num(self):
        return int(self.next(), 0)

    def _decl(self):
        k = self.next()
        if k in ('little_endian_packets', 'big_endian_packets'):
            self.endian = k.split('_')[0]
        elif k == 'enum':
            name = self.next()
            self.want(':')
            e = Enum(name, self._num())
            self._tags(e)
            self.enums[name] = e
            self.order.append(name)
        elif k in ('packet', 'struct'):
            name = self.next()
            parent = self.next() if self.eat(':') else None
            cons = {}
            if self.eat('('):
                while not self.eat(')'):
                    f = self.next()
                    self.want('=')
                    cons[f] = self.next()
                    self.eat(',')
            d = Decl(k, name, parent, cons)
            self.want('{')
            while not self.eat('}'):
                d.fields.append(self._field())
                self.eat(',')
            self.decls[name] = d
            self.order.append(name)
        elif k == 'test':
            self.next()
            self.want('{')
            while not self.eat('}'):
                self.next()
        else:
            raise ValueError('pdl: unexpected %r' % k)

    def _tags(self, e):
        self.want('{')
        while not self.eat('}'):
            n = self.next()
            self.want('=')
            if self.eat('..'):
                e.open = n
            else:
                v = self._num()
                if self.eat('..'):
                    hi = self._num()
                    e.ranges[n] = (v, hi)
                    if self.peek() == '{':
                        self._tags_into(e)
                else:
                    e.tags[n] = v
            self.eat(',')

    def _tags_into(self, e):
        self.want('{')
        while not self.eat('}'):
            n = self.next()
            self.want('=')
            e.tags[n] = self._num()
            e.nested.add(n)
            self.eat(',')

    def _field(self):
        n = self.next()
        if n in ('_count_', '_size_'):
            self.want('(')
            t = self.next()
            self.want(')')
            self.want(':')
            return (n.strip('_'), t, self._num(), None)
        if n in ('_payload_', '_body_'):
            return (n.strip('_'), None, None, None)
        if n == '_fixed_':
            self.want('=')
            v = self.next()
            self.want(':')
            t = self.next()
            return ('fixed', None, int(t, 0) if t[0].isdigit() else t, v)
        self.want(':')
        t = self.next()
        ty = int(t, 0) if t[0].isdigit() else t
        if self.eat('['):
            size = None
            if self.peek() != ']':
                size = self._num()
            self.want(']')
            return ('array', n, ty, size)
        if n == '_reserved_':
            return ('reserved', None, ty, None)
        cond = None
        if self.eat('if'):
            f = self.next()
            self.want('=')
            cond = (f, self._num())
        return ('scalar' if isinstance(ty, int) else 'typed', n, ty, cond)

    # -- derived information -------------------------------------------------
    def chain(self, name):
        out = []
        d = self.decls[name]
        while d:
            out.insert(0, d)
            d = self.decls.get(d.parent) if d.parent else None
        return out

    def cons(self, name):
        r = {}
        for d in self.chain(name):
            r.update(d.cons)
        return r

    def children(self, name):
        return [d for d in self.decls.values() if d.parent == name]

    def layout(self, name):
        """Fixed-offset fields of the declaration itself: name -> (bit offset, width, type); and the
        bit offset where the variable part starts, or None."""
        off, out = 0, {}
        for k, n, t, x in self.decls[name].fields:
            if k in ('scalar', 'typed') and x is None:
                w = t if isinstance(t, int) else self.enums[t].width if t in self.enums else None
                if w is None:
                    return out, off, True
                out[n] = (off, w, t)
                off += w
            elif k == 'reserved':
                off += t
            elif k == 'fixed':
                off += t if isinstance(t, int) else self.enums[t].width
            elif k in ('size', 'count'):
                out['#' + n] = (off, t, k)
                off += t
            elif k == 'array' and x is not None and isinstance(t, int):
                out[n] = (off, t * x, ('array', t, x))
                off += t * x
            elif k in ('payload', 'body'):
                out['payload'] = (off, None, 'payload')
                return out, off, True
            else:
                if k == 'array':
                    out[n] = (off, None, ('array', t, None))
                return out, off, True
        return out, off, False


if __name__ == '__main__':
    p = Pdl('/repo/src/uci_packets.pdl')
    print(p.endian, len(p.enums), len(p.decls))
    for n in ('ControlPacket', 'DataPacket', 'CorePacket', 'SessionInitCmd', 'CommonPacketHeader', 'ConfigParameter'):
        print(n, p.layout(n))
    print(p.enums['Status'].tags, p.enums['Status'].ranges, p.enums['Status'].open)
