"""Abstract semantics of the packet codec generated from src/uci_packets.pdl."""
from engine import I, I0, I1, UNIT, AnalysisError, add, sub, scale
import pdl as P


def install(E):
    E.uci = {}
    for t in E.T:
        p = t.get('path', '')
        if 'packets::uci::' in p:
            E.uci.setdefault(p.split('::')[-1], t['i'])
    E.int_ty = {n: E.tymap.get(n) for n in ('u8', 'u16', 'u32', 'u64', 'usize')}
    E.vec_of = {}
    for t in E.T:
        if t.get('path') == 'std::vec::Vec':
            E.vec_of.setdefault(t['args'][0], t['i'])


def uty(E, width):
    for n, w in (('u8', 8), ('u16', 16), ('u32', 32), ('u64', 64)):
        if width <= w and E.int_ty.get(n) is not None:
            return E.int_ty[n]
    return E.USIZE


def pname(E, ty):
    """PDL declaration a type stands for."""
    t = E.T[ty]
    while t['k'] in ('ref', 'ptr'):
        t = E.T[t['to']]
    p = t.get('path', '')
    if 'packets::uci::' in p:
        return p.split('::')[-1]
    return None


def err(E, S, dty, what):
    et = E.T[dty]['args'][1]
    return ('ret', S, E.err(dty, ('y', et, ('derr', what))))


def valid(E, ename, n):
    return ('y', E.BOOL, ('valid', ename, n))


def enum_of(E, S, ename, n):
    """[(S', value or None)] of Enum::try_from(n)."""
    ety = E.uci[ename]
    e = E.pdl.enums[ename]
    n = E.norm_int(S, n)
    if n[0] == 'y' and n[2][0] == 'ei' and n[2][1][1] == ety:
        return [(S, n[2][1])]
    lo, hi = E.irange(S, n)
    total = e.open is not None
    if not total and hi - lo <= 70000:
        w = E.wire(ety)
        known = set(w['val'].values())
        rngs = list(w['rng'].values())
        bad = [x for x in range(max(lo, 0), hi + 1) if x not in known and not any(a <= x <= b for a, b in rngs)]
        total = not bad
    else:
        bad = None
    if n[0] == 'i':
        v = E.wire_variant(ety, n[1])
        if v is None or n[1] >> e.width:
            return [(S, None)]
        if not E.T[ety]['v'][v]['f']:
            return [(S, ('s', ety, v, ()))]
        return [(S, ('y', ety, ('ie', n)))]
    val = ('y', ety, ('ie', n))
    if total:
        return [(S, val)]
    out = []
    for s, r in E.fork(S, valid(E, ename, n)):
        if r:
            if not E.variants(s, val):
                continue
            vs = E.variants(s, val)
            if len(vs) == 1 and not E.restrict(s, val, vs):
                continue
            out.append((s, val))
        else:
            # every value of the range may be a valid one
            if bad is not None and not any(E.maybe_int(s, n, x) for x in bad[:300]) and len(bad) <= 300:
                continue
            out.append((s, None))
    return out


def wire_of(E, S, v):
    """Integer encoding of an enum value."""
    if v[0] == 's':
        w = E.wire(v[1])
        x = w['val'].get(v[2]) if w else None
        if x is not None:
            return I(x)
        if v[3]:
            p = v[3][0]
            while p[0] == 's' and p[3]:
                p = p[3][0]
            if p[0] in ('i', 'l', 'y'):
                return p
        return ('y', uty(E, w['width'] if w else 8), ('ei', v))
    if v[0] == 'y':
        if v[2][0] == 'ie':
            return E.norm_int(S, v[2][1])
        w = E.wire(v[1])
        vs = E.variants(S, v)
        if len(vs) == 1:
            x = w['val'].get(next(iter(vs)))
            if x is not None:
                return I(x)
        return ('y', uty(E, w['width']), ('ei', v))
    raise AnalysisError('wire_of %r' % (v[:2],))


def fixed_size(E, name):
    """Size in bits of a struct/packet without variable part, else None."""
    n = 0
    for k, f, t, x in E.pdl.decls[name].fields:
        if k in ('scalar', 'typed'):
            if x is not None:
                return None
            if isinstance(t, int):
                n += t
            elif t in E.pdl.enums:
                n += E.pdl.enums[t].width
            else:
                s = fixed_size(E, t)
                if s is None:
                    return None
                n += s
        elif k == 'reserved':
            n += t
        elif k == 'fixed':
            n += t if isinstance(t, int) else E.pdl.enums[t].width
        elif k in ('size', 'count'):
            n += t
        elif k == 'array' and x is not None:
            w = t if isinstance(t, int) else E.pdl.enums[t].width if t in E.pdl.enums else fixed_size(E, t)
            if w is None:
                return None
            n += w * x
        else:
            return None
    return n


def count_width(E, ty, fi):
    """Width of the length prefix of field fi of a generated struct, in elements of u8; None if none."""
    n = pname(E, ty)
    d = E.pdl.decls.get(n)
    if d is None:
        return None
    f = E.fields(ty)
    if f is None or fi >= len(f):
        return None
    fname = f[fi][0]
    for k, nm, t, x in d.fields:
        if k in ('count', 'size') and nm == fname:
            return t
    return None


# ---------------------------------------------------------------- decoding
def take(E, S, parts, n):
    """Bytes [0,n) of a sequence and the rest; the length was checked."""
    r = E.split_parts(S, parts, I(n))
    if r is None:
        bs = tuple(E.index_parts(S, parts, I(i)) for i in range(n))
        return bs, E.slice_parts(S, parts, I(n), E.parts_len(parts))
    bs = tuple(p[1] for p in E.expand_const(S, r[0], 4096) if p[0] == 'e')
    if len(bs) != n:
        bs = tuple(E.index_parts(S, parts, I(i)) for i in range(n))
    return bs, r[1]


def decode_decl(E, S, name, parts, fields):
    """Decode the fields of one declaration. [(S', fields or None, rest parts)]"""
    d = E.pdl.decls[name]
    work = [(S, 0, parts, dict(fields), [], {})]
    out = []
    while work:
        s, i, ps, fs, chunk, cnts = work.pop()
        if i == len(d.fields):
            out.append((s, fs, ps))
            continue
        k, fn, t, x = d.fields[i]
        # bit-level fields: gather a byte-aligned chunk
        if k in ('scalar', 'typed', 'reserved', 'fixed', 'size', 'count') and not (isinstance(t, str) and t in E.pdl.decls):
            j, tot, grp = i, 0, []
            while True:
                k2, f2, t2, x2 = d.fields[j]
                if x2 is not None and k2 != 'fixed':
                    raise AnalysisError('conditional field')
                w = t2 if isinstance(t2, int) else E.pdl.enums[t2].width
                grp.append((k2, f2, t2, x2, w))
                tot += w
                j += 1
                if tot % 8 == 0:
                    break
            nb = tot // 8
            for s2, okl in E.fork(s, E.cmp(s, 'Le', I(nb), E.parts_len(ps))):
                if not okl:
                    out.append((s2, None, ps))
                    continue
                bs, rest = take(E, s2, ps, nb)
                states = [(s2, dict(fs), dict(cnts))]
                off = 0
                for k2, f2, t2, x2, w in grp:
                    if off % 8 == 0 and w % 8 == 0:
                        val = E.from_bytes(s2, bs[off // 8:(off + w) // 8], uty(E, w))
                    elif off // 8 == (off + w - 1) // 8:
                        val = E.bits(s2, bs[off // 8], off % 8, w, uty(E, w))
                    else:
                        whole = E.from_bytes(s2, bs, uty(E, tot))
                        val = E.bits(s2, whole, off, w, uty(E, w))
                    off += w
                    nst = []
                    for s3, f3, c3 in states:
                        if k2 == 'scalar':
                            f3[f2] = val
                            nst.append((s3, f3, c3))
                        elif k2 == 'typed':
                            for s4, ev in enum_of(E, s3, t2, val):
                                if ev is None:
                                    out.append((s4, None, ps))
                                else:
                                    f4 = dict(f3)
                                    f4[f2] = ev
                                    nst.append((s4, f4, dict(c3)))
                        elif k2 in ('size', 'count'):
                            c3[f2] = (k2, val)
                            nst.append((s3, f3, c3))
                        elif k2 == 'fixed':
                            want = int(x2, 0) if isinstance(t2, int) else E.pdl.enums[t2].tags[x2]
                            for s4, r in E.fork(s3, E.cmp(s3, 'Eq', val, I(want))):
                                if r:
                                    nst.append((s4, dict(f3), dict(c3)))
                                else:
                                    out.append((s4, None, ps))
                        else:
                            nst.append((s3, f3, c3))
                    states = nst
                for s3, f3, c3 in states:
                    work.append((s3, j, rest, f3, [], c3))
            continue
        if k in ('payload', 'body'):
            fs['payload'] = ('v', tuple(ps))
            work.append((s, i + 1, (), fs, [], cnts))
            continue
        if k == 'typed':
            # nested struct
            sz = fixed_size(E, t)
            if sz is None:
                raise AnalysisError('nested variable struct %s' % t)
            for s2, f2, rest in decode_decl(E, s, t, ps, {}):
                if f2 is None:
                    out.append((s2, None, ps))
                else:
                    f3 = dict(fs)
                    f3[fn] = build(E, s2, t, f2)
                    work.append((s2, i + 1, rest, f3, [], cnts))
            continue
        if k == 'array':
            if x is not None and t == 8:
                for s2, okl in E.fork(s, E.cmp(s, 'Le', I(x), E.parts_len(ps))):
                    if not okl:
                        out.append((s2, None, ps))
                        continue
                    bs, rest = take(E, s2, ps, x)
                    f3 = dict(fs)
                    f3[fn] = ('a', bs)
                    work.append((s2, i + 1, rest, f3, [], cnts))
                continue
            if t == 8:
                n = cnts[fn][1] if fn in cnts else E.parts_len(ps)
                for s2, okl in E.fork(s, E.cmp(s, 'Le', n, E.parts_len(ps))):
                    if not okl:
                        out.append((s2, None, ps))
                        continue
                    f3 = dict(fs)
                    f3[fn] = ('v', E.slice_parts(s2, ps, I0, n))
                    rest = E.slice_parts(s2, ps, n, E.parts_len(ps))
                    work.append((s2, i + 1, rest, f3, [], cnts))
                continue
            # array of enums or structs: elements are opaque inputs
            ety = E.uci[t] if isinstance(t, str) else uty(E, t)
            last = i + 1 == len(d.fields)
            if fn in cnts and cnts[fn][0] == 'count':
                n = cnts[fn][1]
            else:
                n = ('y', E.USIZE, ('dcount', name, tuple(ps)))
            vt = E.vec_of.get(ety)
            if vt is None:
                raise AnalysisError('no Vec<%s>' % t)
            okb = ('y', E.BOOL, ('dec', name, fn, tuple(ps)))
            for s2, r in E.fork(s, okb):
                if not r:
                    out.append((s2, None, ps))
                    continue
                f3 = dict(fs)
                f3[fn] = ('y', vt, ('darr', name, fn, tuple(ps), n))
                esz = fixed_size(E, t) if t in E.pdl.decls else E.pdl.enums[t].width if t in E.pdl.enums else t
                if esz is not None:
                    used = scale(n, esz // 8)
                    if not E.assume_le(s2, used, E.parts_len(ps)):
                        continue
                else:
                    used = ('y', E.USIZE, ('dused', name, fn, tuple(ps)))
                    if not E.assume_le(s2, used, E.parts_len(ps)):
                        continue
                rest = E.slice_parts(s2, ps, used, E.parts_len(ps))
                work.append((s2, i + 1, rest, f3, [], cnts))
            continue
        raise AnalysisError('decode of %s.%s' % (name, fn))
    return out


def build(E, S, name, fields):
    ty = E.uci[name]
    vals = []
    for fn, fty in E.fields(ty):
        if fn not in fields:
            raise AnalysisError('field %s of %s' % (fn, name))
        vals.append(fields[fn])
    return ('s', ty, 0, tuple(vals))


def constraint_eq(E, S, d, val, fn):
    """[(S', bool)]: does field fn of the parent have the constrained value."""
    import models
    want = const_field(E, d, fn)
    if val[0] in ('s',) or (val[0] == 'y' and 'v' in E.T[val[1]] and E.T[val[1]]['k'] == 'enum'):
        out = []
        for s, b in models.eq(E, S, val, want):
            out.extend(E.fork(s, b))
        return out
    return E.fork(S, E.cmp(S, 'Eq', val, want))


def const_field(E, d, fn):
    """Constant value a declaration requires for an inherited field."""
    c = d.cons[fn]
    for dd in E.pdl.chain(d.name):
        for k, nm, t, x in dd.fields:
            if nm == fn and k in ('scalar', 'typed'):
                if isinstance(t, int):
                    return I(int(c, 0))
                ety = E.uci[t]
                v = E.wire_variant(ety, E.pdl.enums[t].tags[c])
                return ('s', ety, v, ())
    raise AnalysisError('constraint %s of %s' % (fn, d.name))


def as_fields(E, S, v):
    """name -> value of a generated struct value."""
    ty = v[1]
    names = [f[0] for f in E.fields(ty)]
    if v[0] == 's':
        return dict(zip(names, v[3]))
    return {n: E.sym_field(S, v, 0, i) for i, n in enumerate(names)}


def specialise_into(E, S, name, fields):
    """decode_partial of child `name` from its parent's fields: [(S', value or None)]"""
    d = E.pdl.decls[name]
    states = [S]
    out = []
    for fn in d.cons:
        if fn not in fields:
            continue
        ns = []
        for s in states:
            for s2, r in constraint_eq(E, s, d, fields[fn], fn):
                if r:
                    ns.append(s2)
                else:
                    out.append((s2, None))
        states = ns
    for s in states:
        pf = {k: v for k, v in fields.items() if k != 'payload'}
        # constants fixed by ancestors
        for s2, fs, rest in decode_decl(E, s, name, E.seq_parts(fields['payload']), pf):
            if fs is None:
                out.append((s2, None))
                continue
            n = E.parts_len(rest)
            for s3, r in E.fork(s2, E.cmp(s2, 'Eq', n, I0)):
                if r:
                    out.append((s3, build(E, s3, name, fs)))
                else:
                    out.append((s3, None))
    return out


def decode(E, S, name, parts, full=True):
    """[(S', value or None, rest)]"""
    chain = E.pdl.chain(name)
    out = []
    res = decode_decl(E, S, chain[0].name, parts, {})
    for s, fs, rest in res:
        if fs is None:
            out.append((s, None, ()))
            continue
        if full:
            n = E.parts_len(rest)
            st = E.fork(s, E.cmp(s, 'Eq', n, I0))
        else:
            st = [(s, True)]
        for s2, r in st:
            if not r:
                out.append((s2, None, ()))
                continue
            cur = [(s2, build(E, s2, chain[0].name, fs))]
            for d in chain[1:]:
                nx = []
                for s3, v in cur:
                    if v is None:
                        out.append((s3, None, ()))
                        continue
                    nx.extend(specialise_into(E, s3, d.name, as_fields(E, s3, v)))
                cur = nx
            for s3, v in cur:
                out.append((s3, v, rest))
    return out


# ---------------------------------------------------------------- encoding
class TooLong(Exception):
    pass


def enc_bits(E, S, items):
    """Bytes of a byte-aligned group [(term, width)], low bits first."""
    tot = sum(w for _, w in items)
    if len(items) == 1:
        return tuple(('e', b) for b in E.to_le(S, items[0][0], tot // 8)[1])
    aligned = True
    off = 0
    for t, w in items:
        if off % 8 or w % 8:
            aligned = False
        off += w
    if aligned:
        out = ()
        for t, w in items:
            out += tuple(('e', b) for b in E.to_le(S, t, w // 8)[1])
        return out
    v, off = I0, 0
    for t, w in items:
        v = add(v, scale(t, 1 << off))
        off += w
    return tuple(('e', b) for b in E.to_le(S, v, tot // 8)[1])


def encode_decl(E, S, name, get, payload, errs):
    """Parts of the encoding of one declaration's own fields."""
    d = E.pdl.decls[name]
    out, grp, tot = (), [], 0

    def put(term, w):
        nonlocal out, grp, tot
        grp.append((term, w))
        tot += w
        if tot % 8 == 0:
            out += enc_bits(E, S, grp)
            grp, tot = [], 0
    for k, fn, t, x in d.fields:
        if k == 'scalar':
            v = get(fn)
            if E.irange(S, v)[1] >= (1 << t):
                if not E.prove_le(S, v, I((1 << t) - 1)):
                    errs.append((name, fn))
            put(v, t)
        elif k == 'typed' and t in E.pdl.enums:
            put(wire_of(E, S, get(fn)), E.pdl.enums[t].width)
        elif k == 'typed':
            v = get(fn)
            out += encode_struct(E, S, t, v, errs)
        elif k == 'reserved':
            put(I0, t)
        elif k == 'fixed':
            put(I(int(x, 0) if isinstance(t, int) else E.pdl.enums[t].tags[x]),
                t if isinstance(t, int) else E.pdl.enums[t].width)
        elif k in ('count', 'size'):
            v = get(fn)
            if k == 'count':
                n = E.seq_len(v)
            else:
                et = [f for f in d.fields if f[1] == fn and f[0] == 'array'][0][2]
                n = E.seq_len(v) if et == 8 else E.parts_len(encode_array(E, S, et, v, errs))
            if not E.prove_le(S, n, I((1 << t) - 1)):
                errs.append((name, fn))
                n = E.bits(S, n, 0, t, uty(E, t))
            put(n, t)
        elif k == 'array':
            v = get(fn)
            if t == 8:
                out += tuple(E.seq_parts(v))
            else:
                out += encode_array(E, S, t, v, errs)
        elif k in ('payload', 'body'):
            out += tuple(payload())
        else:
            raise AnalysisError('encode of %s.%s' % (name, fn))
    return out


def encode_array(E, S, t, v, errs):
    out = ()
    for p in E.seq_parts(v):
        if p[0] == 'e':
            out += encode_elem(E, S, t, p[1], errs)
            continue
        sz = fixed_size(E, t) if t in E.pdl.decls else E.pdl.enums[t].width if t in E.pdl.enums else t
        if t in E.pdl.decls and p[0] == 'q':
            elems_encodable(E, S, t, p[1], errs)
        vt = E.ty('std::vec::Vec<u8>')
        n = scale(E.part_len(p), sz // 8) if sz is not None else None
        sy = ('y', vt, ('enc', t, p) if n is None else ('enc', t, p, n))
        out += (('q', sy, I0, E.sym_len(sy)),)
    return out


def elems_encodable(E, S, t, v, errs, seen=None):
    """Record in errs what may keep elements of a sequence that a loop built from being encoded."""
    seen = set() if seen is None else seen
    if v in seen:
        return
    seen.add(v)
    if v[0] in ('v', 'a'):
        for q in E.seq_parts(v):
            if q[0] in ('e', 'rep'):
                encode_elem(E, S, t, q[1], errs)
            else:
                elems_encodable(E, S, t, q[1], errs, seen)
        return
    if v[0] != 'y':
        return
    k = v[2]
    if k[0] == 'phi' and k[1] in E.loops and E.loops[k[1]].backs is not None:
        info = E.loops[k[1]]
        m = E.__dict__.setdefault('enc_memo', {})
        mk = (v, t)
        if mk not in m:
            m[mk] = errs2 = []
            for loc, ph in info.phis.items():
                if ph == v:
                    for B in info.backs:
                        elems_encodable(E, B, t, ('v', tuple(E.seq_parts(E.load_loc(B, loc)))), errs2, seen)
                    elems_encodable(E, info.entry, t, ('v', tuple(E.seq_parts(E.load_loc(info.entry, loc)))), errs2, seen)
        errs.extend(x for x in m[mk] if x not in errs)
    elif k[0] == 'comp':
        encode_elem(E, S, t, k[1], errs)
    elif k[0] == 'filt':
        elems_encodable(E, S, t, k[1], errs, seen)


def encode_elem(E, S, t, v, errs):
    if isinstance(t, int):
        return tuple(('e', b) for b in E.to_le(S, v, t // 8)[1])
    if t in E.pdl.enums:
        return tuple(('e', b) for b in E.to_le(S, wire_of(E, S, v), E.pdl.enums[t].width // 8)[1])
    return encode_struct(E, S, t, v, errs)


def encode_struct(E, S, t, v, errs):
    fs = as_fields(E, S, v)
    return encode_decl(E, S, t, lambda n: fs[n], lambda: (), errs)


def encode_chain(E, S, name, fs, upto, errs):
    """Encoding of the levels of packet `name` below ancestor `upto` (None: the whole packet)."""
    chain = E.pdl.chain(name)
    if upto is not None:
        i = [d.name for d in chain].index(upto)
        levels = chain[i + 1:]
    else:
        levels = chain
    cons = {}
    for d in chain:
        for fn in d.cons:
            cons[fn] = const_field(E, d, fn)

    def get(fn):
        if fn in fs:
            return fs[fn]
        if fn in cons:
            return cons[fn]
        raise AnalysisError('no value for %s.%s' % (name, fn))

    def enc(i):
        if i == len(levels):
            return E.seq_parts(fs['payload']) if 'payload' in fs else ()
        return encode_decl(E, S, levels[i].name, get, lambda: enc(i + 1), errs)
    return enc(0), get


def encode(E, S, name, v, errs=None):
    """Byte sequence value of a whole packet."""
    errs = [] if errs is None else errs
    parts, _ = encode_chain(E, S, name, as_fields(E, S, v), None, errs)
    return ('v', E.simp_parts(S, parts))


def make(E, name, **kw):
    """A packet value for use in specifications."""
    ty = E.uci[name]
    return ('s', ty, 0, tuple(kw[fn] for fn, _ in E.fields(ty)))


def enum_val(E, ename, tag):
    ety = E.uci[ename]
    v = E.wire_variant(ety, E.pdl.enums[ename].tags[tag])
    return ('s', ety, v, ())


# ---------------------------------------------------------------- calls
def result(E, S, dty, okv, errs, what):
    out = [('ret', S, E.ok(dty, okv))]
    if errs:
        b = ('y', E.BOOL, ('encfail', what, tuple(errs), okv))
        s2 = S.copy()
        s2.bt[b] = True
        s2.notes = s2.notes + (('encode-may-fail', tuple(errs)),)
        out.append(err(E, s2, dty, 'encode'))
    return out


def call(E, S, cal, args, dty):
    import models
    if E.pdl is None:
        return None
    decl = cal['decl']
    if decl.startswith('pdl_runtime::Packet::'):
        name = pname(E, cal['targs'][0])
        if name not in E.pdl.decls:
            return None
        op = decl.split('::')[-1]
        if op in ('decode_full', 'decode'):
            v = models.deref(E, S, args[0])
            out = []
            for s, val, rest in decode(E, S, name, E.seq_parts(v), op == 'decode_full'):
                if val is None:
                    out.append(err(E, s, dty, name))
                elif op == 'decode':
                    out.append(('ret', s, E.ok(dty, ('t', (val, ('r', ('V', ('v', tuple(rest))), ()))))))
                else:
                    out.append(('ret', s, E.ok(dty, val)))
            return out
        if op in ('encode_to_vec', 'encode_to_bytes'):
            v = models.deref(E, S, args[0])
            errs = []
            b = encode(E, S, name, v, errs)
            return result(E, S, dty, b, errs, name)
        if op == 'encoded_len':
            v = models.deref(E, S, args[0])
            return [('ret', S, E.seq_len(encode(E, S, name, v)))]
        return None
    last = decl.split('::')[-1]
    if last == 'specialize':
        p = decl.split('::')
        name = p[-2]
        if name not in E.pdl.decls or 'uci' not in decl:
            return None
        v = models.deref(E, S, args[0])
        fs = as_fields(E, S, v)
        child_ty = E.T[dty]['args'][0]
        if child_ty not in (None,):
            pass
        out = []
        rest = [S]
        seen = set()
        for d in E.pdl.children(name):
            key = tuple(sorted(d.cons.items()))
            if key in seen:
                continue
            seen.add(key)
            nr = []
            for s in rest:
                cur = [s]
                for fn in d.cons:
                    nx = []
                    for s1 in cur:
                        for s2, r in constraint_eq(E, s1, d, fs[fn], fn):
                            (nx if r else nr).append(s2)
                    cur = nx
                vi = E.variant_index(child_ty, d.name)
                for s1 in cur:
                    for s2, val in specialise_into(E, s1, d.name, fs):
                        if val is None:
                            out.append(err(E, s2, dty, d.name))
                        else:
                            out.append(('ret', s2, E.ok(dty, ('s', child_ty, vi, (val,)))))
            rest = nr
        vi = E.variant_index(child_ty, 'None')
        for s in rest:
            out.append(('ret', s, E.ok(dty, ('s', child_ty, vi, ()))))
        return out
    if last in ('try_from', 'try_into') and decl.startswith('std::convert::Try'):
        a, b = cal['targs'][0], cal['targs'][1]
        to, frm = (a, b) if last == 'try_from' else (b, a)
        nt, nf = pname(E, to), pname(E, frm)
        if nt in E.pdl.enums and E.T[frm]['k'] == 'int':
            out = []
            for s, v in enum_of(E, S, nt, args[0]):
                if v is None:
                    out.append(('ret', s, E.err(dty, args[0])))
                else:
                    out.append(('ret', s, E.ok(dty, v)))
            return out
        if nt in E.pdl.decls and nf in E.pdl.decls:
            v = models.deref(E, S, args[0])
            tc = [d.name for d in E.pdl.chain(nt)]
            fc = [d.name for d in E.pdl.chain(nf)]
            if nt == nf:
                return [('ret', S, E.ok(dty, v))]
            if nt in fc:
                errs = []
                fs = as_fields(E, S, v)
                parts, get = encode_chain(E, S, nf, fs, nt, errs)
                ty = E.uci[nt]
                vals = []
                for fn, _ in E.fields(ty):
                    vals.append(('v', E.simp_parts(S, parts)) if fn == 'payload' else get(fn))
                return result(E, S, dty, ('s', ty, 0, tuple(vals)), errs, nf)
            if nf in tc:
                i = tc.index(nf)
                cur = [(S, v)]
                out = []
                for nm in tc[i + 1:]:
                    nx = []
                    for s, x in cur:
                        if x is None:
                            out.append(err(E, s, dty, nt))
                        else:
                            nx.extend(specialise_into(E, s, nm, as_fields(E, s, x)))
                    cur = nx
                for s, x in cur:
                    if x is None:
                        out.append(err(E, s, dty, nt))
                    else:
                        out.append(('ret', s, E.ok(dty, x)))
                return out
        return None
    if last in ('from', 'into') and decl in ('std::convert::From::from', 'std::convert::Into::into'):
        a, b = cal['targs'][0], cal['targs'][1]
        to, frm = (a, b) if last == 'from' else (b, a)
        nf = pname(E, frm)
        if nf in E.pdl.enums and E.T[to]['k'] == 'int':
            v = models.deref(E, S, args[0])
            w = wire_of(E, S, v)
            return [('ret', S, w)]
    return None
