"""Abstract semantics of library operations (std, tokio, futures, anyhow, log, generated codec)."""
import re

from engine import I, I0, I1, UNIT, MVD, AnalysisError, MapS, add, sub, scale, contains, subst, tkey, lin
import codec

MODELS = {}


def model(*names):
    def deco(f):
        for n in names:
            MODELS[n] = f
        return f
    return deco


_short_cache = {}


def short(p):
    """Path components without generic arguments."""
    r = _short_cache.get(p)
    if r is not None:
        return r
    q = p.replace('<impl [T; N]>', 'fixed').replace('<impl [T]>', 'slice').replace('<impl str>', 'str')
    q = re.sub(r'<impl ([a-z0-9]+)>', r'\1', q)
    m = re.match(r'.*<impl ([A-Za-z_:]+)>::(\w+)$', q)
    if m:
        q = m.group(1) + '::' + m.group(2)
    out, depth = [], 0
    for ch in q:
        if ch == '<':
            depth += 1
        elif ch == '>' and not (out and out[-1] == '-' and depth == 0):
            depth -= 1
        elif depth == 0:
            out.append(ch)
    q = ''.join(out)
    comps = [c for c in q.split('::') if c]
    r = _short_cache[p] = comps
    return r


def install(E):
    E.models = {}
    E.pmodels = [(lambda cal, path, decl: True, dispatch)]
    codec.install(E)


def lookup_model(decl):
    c = short(decl)
    for n in (3, 2):
        if len(c) >= n:
            m = MODELS.get('::'.join(c[-n:]))
            if m is not None:
                return m
    return MODELS.get(c[-1] if c else '')


def is_local(E, cal):
    b = E.bodies.get(cal.get('inst'))
    return b is not None and b.get('crate') in E.local_crates and not b.get('derived') and b['kind'] != 'coroutine'


def dispatch(E, S, cal, args, dty):
    r = codec.call(E, S, cal, args, dty)
    if r is not None:
        return r
    if is_local(E, cal):
        return None
    m = lookup_model(cal['decl'])
    if m is None and cal.get('path') and cal.get('inst') is None:
        m = lookup_model(cal['path'])
    if m is None:
        return None
    return m(E, S, cal, args, dty)


def ret(S, v):
    return [('ret', S, v)]


def deref(E, S, v):
    """Value behind any number of references."""
    n = 0
    while v[0] == 'r' or (v[0] == 'y' and E.T[v[1]]['k'] == 'ref') or v[0] in ('box', 'guard'):
        v = E.load(S, v)
        n += 1
        if n > 8:
            raise AnalysisError('deref chain')
    return v


def flatref(E, S, v):
    """Innermost reference of a reference chain."""
    while True:
        r = E.as_ref(v)
        x = E.load(S, r)
        if x[0] == 'r' or (x[0] == 'y' and E.T[x[1]]['k'] == 'ref'):
            v = x
            continue
        return r


def subref(r, lo, hi):
    """A reference to the items lo..hi of what r refers to."""
    path = r[2]
    if path and path[-1][0] == 'sl':
        return ('r', r[1], path[:-1] + (('sl', add(path[-1][1], lo), add(path[-1][1], hi)),))
    return ('r', r[1], path + (('sl', lo, hi),))


# ---------------------------------------------------------------- equality
def eq(E, S, a, b):
    """[(S', boolean value)]: structural equality."""
    a, b = deref(E, S, a), deref(E, S, b)
    if a == b:
        return [(S, I1)]
    if a[0] in ('i', 'l') or b[0] in ('i', 'l') or (a[0] == 'y' and E.T[a[1]]['k'] in ('int', 'bool', 'char')):
        if a[0] not in ('i', 'l', 'y') or b[0] not in ('i', 'l', 'y'):
            return [(S, eqv(E, a, b))]
        ty = a[1] if a[0] == 'y' else b[1] if b[0] == 'y' else E.USIZE
        return [(S, E.binop(S, 'Eq', a, b, ty))]
    if a[0] == 'y' and E.T[a[1]]['k'] == 'float':
        return [(S, E.binop(S, 'Eq', a, b, a[1]))]
    for x, y in ((a, b), (b, a)):
        if x[0] == 'str' and (y[0] == 'str' or y[0] == 'y' and E.T[y[1]]['s'] in ('str', 'std::string::String')):
            return [(S, str_eq(E, S, y, x))]
    ka = kind_of(E, a)
    if ka == 'enum' or kind_of(E, b) == 'enum':
        if a[0] == 's' and b[0] == 's':
            if a[2] != b[2]:
                return [(S, I0)]
            return eq_all(E, S, list(zip(a[3], b[3])))
        va, vb = E.variants(S, a), E.variants(S, b)
        if not va & vb:
            return [(S, I0)]
        if a[0] == 's':
            a, b, va, vb = b, a, vb, va
        if b[0] == 's':
            nf = not E.T[b[1]]['v'][b[2]]['f']
            if nf:
                return [(S, isv(E, S, a, [b[2]]))]
            out = []
            n = S.copy()
            rest = va - {b[2]}
            if rest and E.restrict(n, a, rest):
                out.append((n, I0))
            if b[2] in va and E.restrict(S, a, [b[2]]):
                fs = [E.sym_field(S, a, b[2], i) for i in range(len(b[3]))]
                out.extend(eq_all(E, S, list(zip(fs, b[3]))))
            return out
        # both symbolic
        if a[2][0] == 'ie' and b[2][0] == 'ie':
            return [(S, E.cmp(S, 'Eq', a[2][1], b[2][1]))]
        fieldless = all(not E.T[a[1]]['v'][x]['f'] for x in va | vb)
        if len(va) == 1 and len(vb) == 1 and va == vb and fieldless:
            return [(S, I1)]
        if fieldless and min(len(va), len(vb)) <= 1:
            if len(va) == 1:
                a, b, va, vb = b, a, vb, va
            return [(S, isv(E, S, a, list(vb)))]
        return [(S, eqv(E, a, b))]
    if ka in ('struct', 'tuple'):
        fa, fb = fields_of(E, S, a), fields_of(E, S, b)
        if fa is not None and fb is not None and (a[0] != 'y' or b[0] != 'y'):
            return eq_all(E, S, list(zip(fa, fb)))
        return [(S, eqv(E, a, b))]
    if ka == 'seq' or a[0] in ('a', 'v', 'str') or b[0] in ('a', 'v', 'str'):
        try:
            pa, pb = E.canon_seq(S, a), E.canon_seq(S, b)
        except AnalysisError:
            return [(S, eqv(E, a, b))]
        if pa == pb:
            return [(S, I1)]
        if all(p[0] == 'e' for p in pa) and all(p[0] == 'e' for p in pb):
            if len(pa) != len(pb):
                return [(S, I0)]
            if any(x[1] != y[1] and x[1][0] == 'i' and y[1][0] == 'i' for x, y in zip(pa, pb)):
                return [(S, I0)]
            if len(pa) <= 8 and not (a[0] == 'y' and b[0] == 'y'):
                return eq_all(E, S, [(x[1], y[1]) for x, y in zip(pa, pb)])
        if len(pa) == len(pb) and not (a[0] == 'y' and b[0] == 'y'):
            ds = [(x, y) for x, y in zip(pa, pb) if x != y and not same_part(E, S, x, y)]
            if not ds:
                return [(S, I1)]
            if len(ds) <= 8 and all(x[0] == 'e' and y[0] == 'e' for x, y in ds):
                return eq_all(E, S, [(x[1], y[1]) for x, y in ds])
        la, lb = E.parts_len(pa), E.parts_len(pb)
        if E.prove_ne(S, la, lb):
            return [(S, I0)]
        return [(S, eqv(E, ('v', pa) if a[0] != 'y' else a, ('v', pb) if b[0] != 'y' else b))]
    return [(S, eqv(E, a, b))]


def str_eq(E, S, v, text):
    """Is string v the literal?  A string equals at most one literal."""
    if v[0] == 'str':
        return I1 if v == text else I0
    for k, val in S.bt.items():
        if val and k[2][0] == 'eqv' and v in k[2] and text not in k[2] and any(x[0] == 'str' for x in k[2][1:]):
            return I0
    return eqv(E, v, text)


def same_part(E, S, x, y):
    return x[0] == 'q' and y[0] == 'q' and x[1] == y[1] and E.prove_eq(S, x[2], y[2]) and E.prove_eq(S, x[3], y[3])


def isv(E, S, a, vs):
    vs = frozenset(vs)
    cur = E.variants(S, a)
    if cur <= vs:
        return I1
    if not cur & vs:
        return I0
    return ('y', E.BOOL, ('isv', a, vs))


def eqv(E, a, b):
    a, b = sorted((a, b), key=tkey)
    return ('y', E.BOOL, ('eqv', a, b))


def eq_all(E, S, pairs):
    work, out = [(S, 0)], []
    while work:
        s, i = work.pop()
        if i == len(pairs):
            out.append((s, I1))
            continue
        for s2, v in eq(E, s, *pairs[i]):
            if i == len(pairs) - 1:
                out.append((s2, v))
                continue
            for s3, r in E.fork(s2, v):
                if r:
                    work.append((s3, i + 1))
                else:
                    out.append((s3, I0))
    return out


def kind_of(E, v):
    if v[0] == 's':
        return E.T[v[1]]['k']
    if v[0] == 't':
        return 'tuple'
    if v[0] == 'y':
        if E.is_seq_ty(v[1]):
            return 'seq'
        t = E.T[v[1]]
        if t['s'] in ('str', 'std::string::String'):
            return 'seq'
        return t['k'] if 'v' in t or t['k'] not in ('struct', 'enum') else 'opaque'
    return v[0]


def fields_of(E, S, v):
    if v[0] == 's':
        return v[3]
    if v[0] == 't':
        return v[1]
    if v[0] == 'y':
        f = E.fields(v[1])
        if f is None:
            return None
        return [E.sym_field(S, v, 0, i) for i in range(len(f))]
    return None


@model('PartialEq::eq')
def m_eq(E, S, cal, args, dty):
    return [('ret', s, v) for s, v in eq(E, S, args[0], args[1])]


@model('PartialEq::ne')
def m_ne(E, S, cal, args, dty):
    return [('ret', s, E.neg(v)) for s, v in eq(E, S, args[0], args[1])]


@model('intrinsics::raw_eq')
def m_raw_eq(E, S, cal, args, dty):
    return m_eq(E, S, cal, args, dty)


@model('PartialOrd::le', 'PartialOrd::lt', 'PartialOrd::ge', 'PartialOrd::gt')
def m_ord(E, S, cal, args, dty):
    op = short(cal['decl'])[-1].capitalize()
    a, b = deref(E, S, args[0]), deref(E, S, args[1])
    ta = E.T[a[1]]['s'] if a[0] in ('y', 's') else ''
    if 'Level' in ta:
        return ret(S, I1 if op in ('Le', 'Lt') else I0)
    for v in (a, b):
        if v[0] == 'y' and E.T[v[1]]['k'] == 'float':
            return ret(S, E.binop(S, op, a, b, v[1]))
    if a[0] in ('i', 'l', 'y') and b[0] in ('i', 'l', 'y') and (a[0] != 'y' or E.T[a[1]]['k'] in ('int', 'bool')):
        return ret(S, E.cmp(S, op, a, b))
    return ret(S, ('y', E.BOOL, ('op', op, a, b)))


@model('Ord::min', 'Ord::max', 'cmp::min', 'cmp::max', 'intrinsics::integer_min', 'intrinsics::integer_max')
def m_min(E, S, cal, args, dty):
    a, b = args
    if a[0] not in ('i', 'l', 'y') or E.T[dty]['k'] != 'int':
        return None
    mn = short(cal['decl'])[-1].endswith('min')
    out = []
    for s, r in E.fork(S, E.cmp(S, 'Le', a, b)):
        out.append(('ret', s, (a if r else b) if mn else (b if r else a)))
    return out


@model('Ord::clamp')
def m_clamp(E, S, cal, args, dty):
    if E.T[dty]['k'] != 'int':
        return None
    out = []
    for s, r in E.fork(S, E.cmp(S, 'Lt', args[0], args[1])):
        if r:
            out.append(('ret', s, args[1]))
        else:
            for s2, r2 in E.fork(s, E.cmp(s, 'Lt', args[2], args[0])):
                out.append(('ret', s2, args[2] if r2 else args[0]))
    return out


@model('intrinsics::discriminant_value', 'mem::discriminant')
def m_discr(E, S, cal, args, dty):
    v = deref(E, S, args[0])
    t = E.T[v[1]]
    return ret(S, E.discr_val(S, v, t))


@model('intrinsics::bswap', 'num::swap_bytes')
def m_bswap(E, S, cal, args, dty):
    n = E.T[dty]['size']
    bs = E.to_le(S, args[0], n)[1]
    return ret(S, E.from_bytes(S, tuple(reversed(bs)), dty))


@model('intrinsics::saturating_sub')
def m_satsub(E, S, cal, args, dty):
    r = E.int_range(dty)
    if r[0] != 0:
        return None
    out = []
    for s, x in E.fork(S, E.cmp(S, 'Le', args[1], args[0])):
        out.append(('ret', s, sub(args[0], args[1]) if x else I0))
    return out


@model('intrinsics::saturating_add')
def m_satadd(E, S, cal, args, dty):
    r = E.int_range(dty)
    if r[0] != 0:
        return None
    v = add(args[0], args[1])
    out = []
    for s, x in E.fork(S, E.cmp(S, 'Le', v, I(r[1]))):
        out.append(('ret', s, v if x else I(r[1])))
    return out


@model('intrinsics::wrapping_add', 'intrinsics::wrapping_sub', 'intrinsics::wrapping_mul')
def m_wrapping(E, S, cal, args, dty):
    op = {'add': 'Add', 'sub': 'Sub', 'mul': 'Mul'}[short(cal['decl'])[-1].split('_')[1]]
    v = E.binop(S, op, args[0], args[1], dty)
    r = E.int_range(dty)
    if op == 'Sub' and r[0] == 0 and v[0] == 'y' and v[2][0] == 'wrap':
        pass
    return ret(S, v)


# ---------------------------------------------------------------- misc values
@model('Clone::clone', 'ToOwned::to_owned', 'Option::cloned', 'clone::cloned')
def m_clone(E, S, cal, args, dty):
    b = E.bodies.get(cal.get('inst'))
    v = E.load(S, args[0])
    if 'JoinHandle' in E.T[dty]['s']:
        return None
    if E.T[dty]['k'] != 'ref':
        v = deref(E, S, v)
    if v[0] == 'map' or E.T[dty].get('path', '').endswith('HashMap'):
        return ret(S, clone_map(E, S, v))
    return ret(S, v)


def clone_map(E, S, mid):
    m = get_map(E, S, mid)
    nid = ('map', next(E.cnt))
    n = m.copy()
    E.rty[('kv', nid)] = (m.K, m.V)
    E.rty[nid] = m.V
    n.base = ('clone', mid, m.ver) if m.base is not None else None
    S.maps[nid] = n
    for k, (p, _) in m.entries.items():
        if p:
            S.mem[('E', nid, n.ver, k)] = E.root_value(S, ('E', mid, m.ver, k))
    return nid


@model('AsRef::as_ref', 'Borrow::borrow', 'BorrowMut::borrow_mut', 'AsMut::as_mut', 'Vec::as_slice', 'Vec::as_mut_slice',
       'Deref::deref', 'DerefMut::deref_mut', 'String::as_str', 'String::as_bytes', 'str::as_bytes', 'PathBuf::as_path',
       'slice::as_ref', 'Pin::as_mut', 'Pin::get_mut', 'Arc::as_ref', 'Box::as_ref', 'Box::as_mut', 'String::as_mut_str')
def m_deref(E, S, cal, args, dty):
    r = E.as_ref(args[0])
    if E.T[dty]['k'] == 'adt' or E.T[dty].get('path', '').endswith('Pin'):
        return ret(S, args[0])
    v = E.load(S, r)
    n = 0
    while n < 4:
        n += 1
        if v[0] in ('guard', 'box'):
            r = E.as_ref(v)
        elif v[0] == 'y' and E.T[v[1]].get('path', '').endswith('::Arc'):
            r = ('r', ('D', v), ())
        elif v[0] == 'arc':
            r = v[1]
        elif v[0] == 'r':
            r = v
        elif v[0] == 'y' and E.T[v[1]].get('path') == 'std::boxed::Box':
            r = ('r', ('D', v), ())
        else:
            break
        if v[0] != 'r':
            break
        v = E.load(S, r)
    return ret(S, r)


@model('Arc::new')
def m_arc_new(E, S, cal, args, dty):
    return ret(S, ('arc', E.alloc(S, args[0], E.T[dty]['args'][0])))


@model('Box::new', 'Box::pin')
def m_box_new(E, S, cal, args, dty):
    t = E.T[dty]
    inner = t
    if t.get('path', '').endswith('Pin'):
        inner = E.T[t['args'][0]] if t.get('args') else t
    b = ('box', E.alloc(S, args[0], inner['args'][0]))
    if t.get('path', '').endswith('Pin'):
        return ret(S, ('s', dty, 0, (b,)))
    return ret(S, b)


@model('Box::new_uninit')
def m_box_uninit(E, S, cal, args, dty):
    mu = E.T[dty]['args'][0]
    return ret(S, ('box', E.alloc(S, ('un', mu, None, MVD), mu)))


def strip_un(E, v):
    while v[0] == 'un' or (v[0] == 's' and E.T[v[1]].get('path', '').split('::')[-1] in ('ManuallyDrop', 'MaybeUninit', 'MaybeDangling')):
        v = v[3] if v[0] == 'un' else v[3][0]
    return v


@model('boxed::box_assume_init_into_vec_unsafe')
def m_box_vec(E, S, cal, args, dty):
    v = strip_un(E, E.load(S, args[0]))
    return ret(S, ('v', E.seq_parts(v)))


@model('slice::into_vec', 'slice::to_vec', 'str::to_vec', 'Vec::into_boxed_slice', 'Vec::into_vec', 'BytesMut::freeze',
       'Bytes::to_vec', 'BytesMut::to_vec')
def m_to_vec(E, S, cal, args, dty):
    v = deref(E, S, args[0])
    if v[0] == 'y':
        return ret(S, v if E.T[v[1]]['k'] != 'slice' else v)
    return ret(S, ('v', E.seq_parts(v)))


@model('hint::must_use', 'convert::identity', 'IntoFuture::into_future', 'hint::black_box', 'Into::into_same',
       'private::must_use', 'Iterator::by_ref', 'Pin::into_inner', 'Pin::get_unchecked_mut', 'Pin::get_ref',
       'Box::leak', 'Box::into_inner', 'mem::ManuallyDrop::new', 'String::into_bytes', 'Arc::into_inner')
def m_id(E, S, cal, args, dty):
    return ret(S, args[0])


@model('Pin::new_unchecked', 'Pin::new', 'pin::new')
def m_pin(E, S, cal, args, dty):
    return ret(S, ('s', dty, 0, (args[0],)))


@model('mem::replace')
def m_replace(E, S, cal, args, dty):
    old = E.load(S, args[0])
    E.store(S, args[0], args[1])
    return ret(S, old)


@model('mem::swap')
def m_swap(E, S, cal, args, dty):
    a, b = E.load(S, args[0]), E.load(S, args[1])
    E.store(S, args[0], b)
    E.store(S, args[1], a)
    return ret(S, UNIT)


@model('mem::take')
def m_take(E, S, cal, args, dty):
    old = E.load(S, args[0])
    d = default_value(E, S, dty)
    if d is None:
        return None
    E.store(S, args[0], d)
    return ret(S, old)


@model('mem::drop')
def m_drop(E, S, cal, args, dty):
    ty = cal['targs'][0] if cal.get('targs') else E.guess_ty(args[0])
    if args[0][0] == 'guard':
        E.unlock(S, args[0])
        return ret(S, UNIT)
    if ty is None:
        return ret(S, UNIT)
    r = E.alloc(S, args[0], ty)
    return E.drop_at(S, r, ty)


@model('mem::forget')
def m_forget(E, S, cal, args, dty):
    S.ev('forget', args[0])
    return ret(S, UNIT)


def default_value(E, S, ty):
    t = E.T[ty]
    k = t['k']
    if k in ('int', 'bool'):
        return I0
    if k == 'array':
        d = default_value(E, S, t['el'])
        return None if d is None else ('a', (d,) * t['n'])
    if k == 'tuple':
        ds = [default_value(E, S, x) for x in t['el']]
        return None if any(d is None for d in ds) else ('t', tuple(ds))
    p = t.get('path', '')
    if p == 'std::vec::Vec' or p.startswith('bytes::Bytes') or t['s'] == 'std::string::String':
        return ('v', ())
    if p.endswith('Option'):
        return E.none(ty)
    if p.endswith('HashMap'):
        return new_map(E, S, ty)
    inst = E.local_default(ty)
    if inst is not None:
        outs = E.run_body(S.copy(), inst, [])
        if len(outs) == 1 and outs[0][0] == 'ret':
            for n in S.__slots__:
                setattr(S, n, getattr(outs[0][1], n))
            return outs[0][2]
    if t['s'].startswith('pica::') and t['k'] == 'struct':
        # a type of the library: its default is the one of the library's source
        import core
        L = core.engine('pica-lib')
        ts = [x['i'] for x in L.T if x['k'] == 'struct' and x['s'].split('::')[-1] == t['s'].split('::')[-1] and L.local_default(x['i']) is not None]
        d = default_value(L, type(S)(), ts[0]) if len(ts) == 1 else None
        if d is not None and d[0] == 's' and all(x[0] == 'i' for x in d[3]):
            return ('s', ty, d[2], d[3])
    return None


@model('Default::default')
def m_default(E, S, cal, args, dty):
    if cal.get('inst') in E.bodies and 'v' in E.T[dty] and not E.T[dty].get('path', '').startswith(('std::', 'core::')):
        return None
    d = default_value(E, S, dty)
    return None if d is None else ret(S, d)


@model('vec::from_elem')
def m_from_elem(E, S, cal, args, dty):
    n = E.norm_int(S, args[1])
    if n[0] == 'i' and n[1] <= 64:
        return ret(S, ('v', (('e', args[0]),) * n[1]))
    return ret(S, ('v', (('rep', args[0], n),)))


@model('From::from', 'Into::into')
def m_from(E, S, cal, args, dty):
    v = args[0]
    t = E.T[dty]
    if cal.get('inst') in E.bodies and not t['s'].startswith(('std::vec::Vec', 'std::string::String')):
        return None
    if t.get('path', '').endswith('Error') or t['s'].startswith('anyhow'):
        return ret(S, E.sym(dty, ('err', next(E.cnt))))
    if E.guess_ty(v) == dty:
        return ret(S, v)
    if t.get('path', '').endswith('::Body'):
        return ret(S, ('y', dty, ('body', E.freeze(S, deref(E, S, v)))))
    if E.is_seq_ty(dty) or t['s'] == 'std::string::String':
        v = deref(E, S, v)
        if v[0] in ('a', 'v', 'str'):
            return ret(S, v if v[0] == 'str' else ('v', E.seq_parts(v)))
        if v[0] == 'y' and (E.is_seq_ty(v[1]) or E.T[v[1]]['s'] in ('str', 'std::string::String')):
            return ret(S, ('v', E.seq_parts(v)) if E.T[v[1]]['k'] == 'array' else v)
        return None
    if t['k'] == 'int' and v[0] == 'y' and E.T[v[1]]['k'] == 'bool' and dty != E.U8:
        return [('ret', s, I(int(b))) for s, b in E.fork(S, v)]
    if t['k'] == 'int' and (v[0] in ('i', 'l') or (v[0] == 'y' and E.T[v[1]]['k'] in ('int', 'bool'))):
        return ret(S, v)
    if t.get('path', '').endswith('Option'):
        return ret(S, E.some(dty, v))
    if cal.get('inst') in E.bodies:
        return None
    return ret(S, E.sym(dty, ('from', E.freeze(S, v))))


@model('TryFrom::try_from', 'TryInto::try_into')
def m_try_from(E, S, cal, args, dty):
    rt = E.T[dty]
    okt = rt['v'][0]['f'][0][1]
    errt = rt['v'][1]['f'][0][1]
    t = E.T[okt]
    v = deref(E, S, args[0])
    if t['k'] == 'array':
        if v[0] not in ('a', 'v', 'y', 'str'):
            return None
        n = E.seq_len(v)
        out = []
        for s, r in E.fork(S, E.cmp(S, 'Eq', n, I(t['n']))):
            if r:
                if v[0] == 'y' and E.T[v[1]]['k'] == 'array':
                    a = v
                else:
                    parts = E.expand_const(s, E.seq_parts(v))
                    if all(p[0] == 'e' for p in parts) and len(parts) == t['n']:
                        a = ('a', tuple(p[1] for p in parts))
                    else:
                        a = ('a', tuple(E.index_parts(s, parts, I(i)) for i in range(t['n'])))
                out.append(('ret', s, E.ok(dty, a)))
            else:
                out.append(('ret', s, E.err(dty, args[0] if E.T[errt].get('path') == 'std::vec::Vec' else E.sym(errt, ('err', next(E.cnt))))))
        return out
    if t['k'] == 'ref' and E.T[t['to']]['k'] == 'array':
        m = E.T[t['to']]['n']
        r0 = flatref(E, S, args[0])
        out = []
        for s, r in E.fork(S, E.cmp(S, 'Eq', E.seq_len(v), I(m))):
            if r:
                out.append(('ret', s, E.ok(dty, r0)))
            else:
                out.append(('ret', s, E.err(dty, E.sym(errt, ('err', next(E.cnt))))))
        return out
    if t['k'] == 'int' and (v[0] in ('i', 'l') or v[0] == 'y' and E.T[v[1]]['k'] == 'int'):
        lo, hi = E.int_range(okt)
        out = []
        for s, r in E.fork(S, E.cmp(S, 'Le', v, I(hi))):
            if not r:
                out.append(('ret', s, E.err(dty, E.sym(errt, ('err', next(E.cnt))))))
                continue
            for s2, r2 in E.fork(s, E.cmp(s, 'Le', I(lo), v)):
                out.append(('ret', s2, E.ok(dty, v) if r2 else E.err(dty, E.sym(errt, ('err', next(E.cnt))))))
        return out
    return None


# ---------------------------------------------------------------- panics
@model('panicking::panic', 'panicking::panic_fmt', 'panicking::assert_failed', 'option::unwrap_failed', 'option::expect_failed',
       'result::unwrap_failed', 'unwrap_failed::unwrap_failed_inner', 'panicking::panic_display', 'panicking::panic_explicit',
       'panicking::unreachable_display', 'panicking::panic_bounds_check', 'panicking::unimplemented_default_msg',
       'panicking::panic_str_2015', 'panicking::panic_nounwind', 'process::abort', 'rt::begin_panic', 'rt::panic_fmt',
       'panicking::panic_str_literal', 'panicking::panic_const_div_by_zero', 'process::exit',
       'panicking::assert_failed_inner', 'panicking::assert_matches_failed', 'unwrap_failed::do_panic')
def m_panic(E, S, cal, args, dty):
    return [('panic', S, E.panic_info(short(cal['decl'])[-1]))]


@model('intrinsics::unreachable', 'hint::unreachable_unchecked')
def m_unreach(E, S, cal, args, dty):
    return []


@model('thread::sleep', 'Runtime::block_on', 'Sender::blocking_send', 'Receiver::blocking_recv', 'thread::park')
def m_block(E, S, cal, args, dty):
    E.alert(S, 'blocking', cal['decl'], E.where())
    return None


# ---------------------------------------------------------------- formatting, logging, errors
@model('Argument::new_display', 'Argument::new_debug', 'Argument::new_lower_hex', 'Argument::new_upper_hex', 'Argument::new_binary',
       'Argument::from_usize', 'Argument::new_pointer', 'Argument::new_octal', 'Argument::new_lower_exp')
def m_fmtarg(E, S, cal, args, dty):
    try:
        v = E.freeze(S, deref(E, S, args[0]))
    except AnalysisError:
        v = ('opaque',)
    if contains(v, MVD) or v[0] in ('clo', 'co', 'it', 'fut'):
        v = ('opaque',)
    return ret(S, ('y', dty, ('fmtarg', short(cal['decl'])[-1], v)))


@model('Arguments::new', 'Arguments::from_str', 'Arguments::from_str_nonconst', 'Arguments::new_const', 'Arguments::new_v1',
       'Arguments::new_v1_formatted')
def m_fmtargs(E, S, cal, args, dty):
    vs = []
    for a in args:
        try:
            vs.append(E.freeze(S, deref(E, S, a)))
        except AnalysisError:
            vs.append(('opaque',))
    return ret(S, ('y', dty, ('fmtargs', tuple(vs))))


@model('fmt::format', 'fmt::format_inner')
def m_format(E, S, cal, args, dty):
    return ret(S, ('y', dty, ('format', args[0])))


@model('ToString::to_string')
def m_to_string(E, S, cal, args, dty):
    v = deref(E, S, args[0])
    if v[0] == 'str':
        return ret(S, v)
    if v[0] == 'y' and E.T[v[1]]['s'] in ('str', 'std::string::String'):
        return ret(S, v)
    return ret(S, ('y', dty, ('tostr', E.freeze(S, v) if v[0] != 'mvd' else v)))


@model('log::max_level', 'log::max_level')
def m_maxlevel(E, S, cal, args, dty):
    return ret(S, E.sym(dty, ('maxlevel',)))


@model('__private_api::log', '__private_api::log_impl')
def m_log(E, S, cal, args, dty):
    return ret(S, UNIT)


@model('__private_api::loc', '__private_api::enabled')
def m_logloc(E, S, cal, args, dty):
    return ret(S, I1 if dty == E.BOOL else E.sym(dty, ('loc',)))


@model('private::format_err', 'Error::msg', 'Error::new', 'anyhow::Error::msg', 'anyhow::Error::new',
       'anyhow::__private::format_err', 'Error::other')
def m_anyhow(E, S, cal, args, dty):
    return ret(S, E.sym(dty, ('err', next(E.cnt))))


@model('anyhow::Ok')
def m_anyhow_ok(E, S, cal, args, dty):
    return ret(S, E.ok(dty, args[0]))


@model('Context::context', 'Context::with_context')
def m_context(E, S, cal, args, dty):
    v = args[0]
    out = []
    for s, var in E.fork_variants(S, v):
        isok = (var == 0) == (E.T[v[1]]['v'][0]['n'] == 'Ok')
        if isok:
            x = E.proj(s, v, ('vf', var, 0))
            out.append(('ret', s, E.ok(dty, x)))
        else:
            out.append(('ret', s, E.err(dty, E.sym(E.T[dty]['v'][1]['f'][0][1], ('err', next(E.cnt))))))
    return out


# ---------------------------------------------------------------- sequences
@model('Vec::new', 'Vec::with_capacity', 'String::new', 'BytesMut::new', 'BytesMut::with_capacity', 'String::with_capacity',
       'Bytes::new', 'VecDeque::new')
def m_vec_new(E, S, cal, args, dty):
    return ret(S, ('v', ()))


def seqv(E, S, ref):
    return deref(E, S, ref)


@model('Vec::push', 'String::push_char', 'VecDeque::push_back', 'BufMut::put_u8', 'BytesMut::put_u8')
def m_push(E, S, cal, args, dty):
    r = flatref(E, S, args[0])
    v = E.load(S, r)
    E.store(S, r, ('v', E.seq_parts(v) + (('e', args[1]),)))
    return ret(S, UNIT)


@model('Vec::extend_from_slice', 'BytesMut::extend_from_slice', 'BufMut::put_slice', 'String::push_str', 'Vec::append_slice',
       'BytesMut::put_slice', 'BufMut::put', 'BytesMut::unsplit')
def m_extend_slice(E, S, cal, args, dty):
    r = flatref(E, S, args[0])
    v = E.load(S, r)
    a = seqv(E, S, args[1])
    E.store(S, r, ('v', E.simp_parts(S, E.seq_parts(v) + E.seq_parts(a))))
    return ret(S, UNIT)


@model('Vec::append')
def m_append(E, S, cal, args, dty):
    r, q = flatref(E, S, args[0]), flatref(E, S, args[1])
    v, a = E.load(S, r), E.load(S, q)
    E.store(S, r, ('v', E.simp_parts(S, E.seq_parts(v) + E.seq_parts(a))))
    E.store(S, q, ('v', ()))
    return ret(S, UNIT)


@model('Vec::len', 'slice::len', 'str::len', 'String::len', 'BytesMut::len', 'Bytes::len', 'VecDeque::len', 'Buf::remaining')
def m_len(E, S, cal, args, dty):
    v = seqv(E, S, args[0])
    if kind_of(E, v) not in ('seq',) and v[0] not in ('v', 'a', 'str'):
        return None
    return ret(S, E.norm_int(S, E.seq_len(v)))


@model('Vec::is_empty', 'slice::is_empty', 'str::is_empty', 'String::is_empty', 'BytesMut::is_empty', 'Bytes::is_empty',
       'VecDeque::is_empty', 'ExactSizeIterator::is_empty')
def m_is_empty(E, S, cal, args, dty):
    v = seqv(E, S, args[0])
    if kind_of(E, v) not in ('seq',) and v[0] not in ('v', 'a', 'str'):
        return None
    return ret(S, E.cmp(S, 'Eq', E.seq_len(v), I0))


@model('Vec::clear', 'BytesMut::clear', 'String::clear', 'VecDeque::clear')
def m_clear(E, S, cal, args, dty):
    r = flatref(E, S, args[0])
    E.store(S, r, ('v', ()))
    return ret(S, UNIT)


@model('Vec::truncate', 'BytesMut::truncate')
def m_truncate(E, S, cal, args, dty):
    r = flatref(E, S, args[0])
    v = E.load(S, r)
    n = E.seq_len(v)
    out = []
    for s, big in E.fork(S, E.cmp(S, 'Lt', args[1], n)):
        if big:
            E.store(s, r, ('v', E.slice_parts(s, E.seq_parts(v), I0, args[1])))
        out.append(('ret', s, UNIT))
    return out


@model('Vec::resize', 'BytesMut::resize')
def m_resize(E, S, cal, args, dty):
    r = flatref(E, S, args[0])
    v = E.load(S, r)
    parts = E.seq_parts(v)
    n = E.seq_len(v)
    out = []
    for s, grow in E.fork(S, E.cmp(S, 'Le', n, args[1])):
        if grow:
            E.store(s, r, ('v', E.simp_parts(s, parts + (('rep', args[2], sub(args[1], n)),))))
        else:
            E.store(s, r, ('v', E.slice_parts(s, parts, I0, args[1])))
        out.append(('ret', s, UNIT))
    return out


@model('Vec::pop', 'Vec::pop_back')
def m_pop(E, S, cal, args, dty):
    r = flatref(E, S, args[0])
    v = E.load(S, r)
    parts = E.seq_parts(v)
    n = E.seq_len(v)
    out = []
    for s, emp in E.fork(S, E.cmp(S, 'Eq', n, I0)):
        if emp:
            out.append(('ret', s, E.none(dty)))
        else:
            x = E.index_parts(s, parts, sub(n, I1))
            E.store(s, r, ('v', E.slice_parts(s, parts, I0, sub(n, I1))))
            out.append(('ret', s, E.some(dty, x)))
    return out


@model('Vec::remove', 'Vec::swap_remove', 'Vec::insert')
def m_vec_remove(E, S, cal, args, dty):
    op = short(cal['decl'])[-1]
    r = flatref(E, S, args[0])
    v = E.load(S, r)
    parts = E.seq_parts(v)
    n = E.seq_len(v)
    out = []
    for s, good in E.fork(S, E.cmp(S, 'Le' if op == 'insert' else 'Lt', args[1], n)):
        if not good:
            out.append(('panic', s, E.panic_info('Vec::' + op)))
            continue
        pre = E.slice_parts(s, parts, I0, args[1])
        if op == 'insert':
            post = E.slice_parts(s, parts, args[1], n)
            E.store(s, r, ('v', E.simp_parts(s, pre + (('e', args[2]),) + post)))
            out.append(('ret', s, UNIT))
            continue
        x = E.index_parts(s, parts, args[1])
        if op == 'remove':
            post = E.slice_parts(s, parts, add(args[1], I1), n)
            E.store(s, r, ('v', E.simp_parts(s, pre + post)))
        else:
            E.store(s, r, ('y', E.vec_ty_of(x), ('swaprm', ('v', parts), args[1])))
        out.append(('ret', s, x))
    return out


@model('Vec::reserve', 'BytesMut::reserve', 'Vec::shrink_to_fit', 'HashMap::reserve', 'HashMap::shrink_to_fit', 'String::reserve')
def m_reserve(E, S, cal, args, dty):
    return ret(S, UNIT)


@model('slice::sort', 'slice::sort_unstable', 'slice::reverse', 'Vec::dedup', 'slice::sort_by', 'slice::sort_by_key',
       'slice::sort_unstable_by', 'slice::sort_unstable_by_key', 'slice::rotate_left', 'slice::rotate_right', 'slice::swap',
       'Vec::dedup_by_key')
def m_sort(E, S, cal, args, dty):
    r = flatref(E, S, args[0])
    v = E.load(S, r)
    ty = v[1] if v[0] == 'y' else None
    if ty is None:
        vt = E.elem_guess(S, v)
        ty = E.vec_ty_of(vt) if vt is not None else E.ty('std::vec::Vec<u8>')
    E.store(S, r, ('y', ty, ('perm', short(cal['decl'])[-1], v) + tuple(a for a in args[1:] if a[0] in ('i', 'l', 'y'))))
    return ret(S, UNIT)


@model('slice::first', 'slice::last', 'slice::get', 'Vec::get', 'slice::first_mut', 'slice::last_mut', 'slice::get_mut',
       'VecDeque::front', 'VecDeque::back')
def m_get(E, S, cal, args, dty):
    op = short(cal['decl'])[-1]
    r = flatref(E, S, args[0])
    v = E.load(S, r)
    n = E.seq_len(v)
    if op.startswith('get'):
        i = args[1]
        if i[0] not in ('i', 'l', 'y') or (i[0] == 'y' and E.T[i[1]]['k'] != 'int'):
            rg = range_of(E, S, i, n)
            if rg is None:
                return None
            lo, hi = rg
            out = []
            for s, g in E.fork(S, E.cmp(S, 'Le', lo, hi)):
                if not g:
                    out.append(('ret', s, E.none(dty)))
                    continue
                for s2, g2 in E.fork(s, E.cmp(s, 'Le', hi, n)):
                    out.append(('ret', s2, E.some(dty, subref(r, lo, hi)) if g2 else E.none(dty)))
            return out
    else:
        i = I0 if op.startswith(('first', 'front')) else sub(n, I1)
    out = []
    c = E.cmp(S, 'Lt', i, n) if op.startswith('get') else E.neg(E.cmp(S, 'Eq', n, I0))
    for s, good in E.fork(S, c):
        if good:
            out.append(('ret', s, E.some(dty, ('r', r[1], r[2] + (('x', i),)))))
        else:
            out.append(('ret', s, E.none(dty)))
    return out


@model('slice::split_first', 'slice::split_last', 'slice::split_at', 'slice::split_at_mut')
def m_split(E, S, cal, args, dty):
    op = short(cal['decl'])[-1]
    r = flatref(E, S, args[0])
    v = E.load(S, r)
    n = E.seq_len(v)

    def sl(lo, hi):
        return subref(r, lo, hi)
    out = []
    if op.startswith('split_at'):
        for s, good in E.fork(S, E.cmp(S, 'Le', args[1], n)):
            if good:
                out.append(('ret', s, ('t', (sl(I0, args[1]), sl(args[1], n)))))
            else:
                out.append(('panic', s, E.panic_info(op)))
        return out
    if op in ('split_first', 'split_last'):
        for s, emp in E.fork(S, E.cmp(S, 'Eq', n, I0)):
            if emp:
                out.append(('ret', s, E.none(dty)))
            elif op == 'split_first':
                out.append(('ret', s, E.some(dty, ('t', (('r', r[1], r[2] + (('x', I0),)), sl(I1, n))))))
            else:
                out.append(('ret', s, E.some(dty, ('t', (('r', r[1], r[2] + (('x', sub(n, I1)),)), sl(I0, sub(n, I1)))))))
        return out
    return None


def contains_val(E, S, parts, x):
    """[(S', bool value)] whether a sequence contains a value."""
    parts = [p for p in parts if E.norm_int(S, E.part_len(p)) != I0]
    work, out = [(S, len(parts) - 1)], []
    while work:
        s, i = work.pop()
        if i < 0:
            out.append((s, I0))
            continue
        p = parts[i]
        if p[0] in ('e', 'rep'):
            for s2, b in eq(E, s, p[1], x):
                for s3, r in E.fork(s2, b):
                    if r:
                        out.append((s3, I1))
                    else:
                        work.append((s3, i - 1))
            continue
        if p[1][0] == 'y' and p[1][2][0] == 'filt' and p[2] == I0:
            base, pred = p[1][2][1], p[1][2][2]
            b = subst(pred, {BVE(E, p[1][1]): x})
            sub_parts = E.seq_parts(base)
            for s2, r in E.fork(s, b):
                if not r:
                    work.append((s2, i - 1))
                else:
                    for s3, b3 in contains_val(E, s2, sub_parts, x):
                        for s4, r4 in E.fork(s3, b3):
                            if r4:
                                out.append((s4, I1))
                            else:
                                work.append((s4, i - 1))
            continue
        if p[1][0] in ('a', 'v') and p[2] == I0:
            inner = E.expand_const(s, (p,))
            if inner != (p,):
                for s2, b in contains_val(E, s, inner, x):
                    for s3, r in E.fork(s2, b):
                        if r:
                            out.append((s3, I1))
                        else:
                            work.append((s3, i - 1))
                continue
        b = ('y', E.BOOL, ('has', p[1] if (p[2] == I0 and p[3] == E.seq_len(p[1])) else ('v', (p,)), x))
        if i == 0:
            out.append((s, b))
            continue
        for s2, r in E.fork(s, b):
            if r:
                out.append((s2, I1))
            else:
                work.append((s2, i - 1))
    return out


def BVE(E, vecty):
    return E.sym(E.elem_ty(vecty), ('bve',))


@model('slice::contains', 'VecDeque::contains')
def m_contains(E, S, cal, args, dty):
    v = seqv(E, S, args[0])
    x = E.freeze(S, deref(E, S, args[1]))
    return [('ret', s, b) for s, b in contains_val(E, S, E.expand_const(S, E.seq_parts(v), 16), x)]


@model('Vec::retain', 'Vec::retain_mut')
def m_retain(E, S, cal, args, dty):
    r = flatref(E, S, args[0])
    v = E.load(S, r)
    if v[0] != 'y':
        vt = E.elem_guess(S, v)
        ty = E.vec_ty_of(vt) if vt is not None else E.ty('std::vec::Vec<u8>')
        base = ('v', E.simp_parts(S, E.seq_parts(v)))
        if base == ('v', ()):
            return ret(S, UNIT)
    else:
        base, ty = v, v[1]
    bve = BVE(E, ty)
    tmp = S.copy()
    n0 = len(tmp.log)
    outs = E.call_value(tmp, args[1], [E.alloc(tmp, bve, E.elem_ty(ty))], E.BOOL)
    res = []
    for kind, s, b in outs:
        if kind != 'ret':
            res.append((kind, s, b))
    rets = [(s, b) for kind, s, b in outs if kind == 'ret']
    if any(len(s.log) != n0 for s, _ in rets):
        raise AnalysisError('effects inside retain')
    if len(rets) == 1:
        pred = rets[0][1]
    else:
        pred = ('y', E.BOOL, ('cases', tuple(sorted(((tuple(sorted(set(s.bt.items()) - set(S.bt.items()), key=repr)),
                                                      tuple(sorted(((k, vs) for k, vs in s.vs.items() if S.vs.get(k) != vs), key=repr)), b)
                                                     for s, b in rets), key=repr))))
        # a pair of decided outcomes on one boolean is that boolean
        if len(rets) == 2:
            (s1, b1), (s2, b2) = rets
            d1 = [(k, x) for k, x in s1.bt.items() if k not in S.bt]
            if len(d1) == 1 and {b1, b2} == {I0, I1}:
                k, x = d1[0]
                pos = x == (b1 == I1)
                pred = k if pos else E.neg(k)
    nv = ('y', ty, ('filt', base, pred))
    E.store(S, r, nv)
    E.assume_le(S, E.sym_len(nv), E.seq_len(v))
    res.append(('ret', S, UNIT))
    return res


def filt_cases(E, S, pred):
    """[(S', value)] of the predicate of a 'filt' sequence."""
    if pred[0] != 'y' or pred[2][0] != 'cases':
        return [(S.copy(), pred)]
    out = []
    for bt, vs, b in pred[2][1]:
        n = S.copy()
        if all(E.restrict(n, k, x) for k, x in vs) and all(E.assume(n, k, x) for k, x in bt):
            out.append((n, b))
    return out


@model('slice::copy_from_slice', 'slice::clone_from_slice')
def m_copy_from(E, S, cal, args, dty):
    r = flatref(E, S, args[0])
    v, a = E.load(S, r), seqv(E, S, args[1])
    out = []
    for s, same in E.fork(S, E.cmp(S, 'Eq', E.seq_len(v), E.seq_len(a))):
        if same:
            E.store(s, r, ('v', E.seq_parts(a)))
            out.append(('ret', s, UNIT))
        else:
            out.append(('panic', s, E.panic_info('copy_from_slice')))
    return out


@model('slice::fill')
def m_fill(E, S, cal, args, dty):
    r = flatref(E, S, args[0])
    v = E.load(S, r)
    E.store(S, r, ('v', (('rep', args[1], E.seq_len(v)),)))
    return ret(S, UNIT)


@model('slice::starts_with', 'slice::ends_with')
def m_starts(E, S, cal, args, dty):
    op = short(cal['decl'])[-1]
    v, p = seqv(E, S, args[0]), seqv(E, S, args[1])
    n, m = E.seq_len(v), E.seq_len(p)
    out = []
    for s, good in E.fork(S, E.cmp(S, 'Le', m, n)):
        if not good:
            out.append(('ret', s, I0))
            continue
        lo, hi = (I0, m) if op == 'starts_with' else (sub(n, m), n)
        for s2, b in eq(E, s, ('v', E.slice_parts(s, E.seq_parts(v), lo, hi)), ('v', E.seq_parts(p))):
            out.append(('ret', s2, b))
    return out


@model('slice::concat', 'slice::join')
def m_concat(E, S, cal, args, dty):
    v = seqv(E, S, args[0])
    parts = E.expand_const(S, E.seq_parts(v))
    if all(p[0] == 'e' for p in parts) and short(cal['decl'])[-1] == 'concat':
        out = ()
        for p in parts:
            out += E.seq_parts(deref(E, S, p[1]))
        return ret(S, ('v', out))
    return None


def range_of(E, S, v, n):
    """(lo, hi) of a range value applied to a sequence of length n."""
    if v[0] != 's':
        if v[0] == 'y' and E.fields(v[1]):
            v = E.expand(S, v)
        else:
            return None
    name = E.T[v[1]].get('path', '').split('::')[-1]
    f = v[3]
    if name == 'Range':
        return f[0], f[1]
    if name == 'RangeFrom':
        return f[0], n
    if name == 'RangeTo':
        return I0, f[0]
    if name == 'RangeFull':
        return I0, n
    if name == 'RangeInclusive':
        return f[0], add(f[1], I1)
    if name == 'RangeToInclusive':
        return I0, add(f[0], I1)
    return None


@model('Index::index', 'IndexMut::index_mut', 'slice::index')
def m_index(E, S, cal, args, dty):
    r = flatref(E, S, args[0])
    v = E.load(S, r)
    if v[0] == 'guard':
        r = E.as_ref(v)
        v = E.load(S, r)
    if v[0] == 'map' or (v[0] == 'y' and E.T[v[1]].get('path', '').endswith('HashMap')):
        out = []
        for s, k in lookup(E, S, v, deref(E, S, args[1])):
            if k is None:
                out.append(('panic', s, E.panic_info('HashMap index')))
            else:
                out.append(('ret', s, elem_ref(E, s, v, k)))
        return out
    n = E.seq_len(v)
    i = args[1]
    if i[0] in ('i', 'l') or (i[0] == 'y' and E.T[i[1]]['k'] == 'int'):
        out = []
        for s, good in E.fork(S, E.cmp(S, 'Lt', i, n)):
            if good:
                out.append(('ret', s, ('r', r[1], r[2] + (('x', i),))))
            else:
                out.append(('panic', s, E.panic_info('index out of bounds')))
        return out
    rg = range_of(E, S, i, n)
    if rg is None:
        return None
    lo, hi = rg
    out = []
    for s, g in E.fork(S, E.cmp(S, 'Le', lo, hi)):
        if not g:
            out.append(('panic', s, E.panic_info('slice index starts after end')))
            continue
        for s2, g2 in E.fork(s, E.cmp(s, 'Le', hi, n)):
            if not g2:
                out.append(('panic', s2, E.panic_info('slice index out of range')))
            elif E.prove_eq(s2, lo, I0) and E.prove_eq(s2, hi, n):
                out.append(('ret', s2, r))
            else:
                out.append(('ret', s2, subref(r, lo, hi)))
    return out


# ---------------------------------------------------------------- hash maps
def is_map(E, v):
    return v[0] == 'map' or (v[0] == 'y' and E.T[v[1]].get('path', '').split('::')[-1] in ('HashMap', 'BTreeMap'))


def new_map(E, S, ty):
    nid = ('map', next(E.cnt))
    K, V = E.T[ty]['args'][0], E.T[ty]['args'][1]
    E.rty[('kv', nid)] = (K, V)
    E.rty[nid] = V
    S.maps[nid] = MapS(None, 0, K, V)
    return nid


def get_map(E, S, mid):
    m = S.maps.get(mid)
    if m is None:
        K, V = E.map_kv(mid)
        E.rty[mid] = V
        m = S.maps[mid] = MapS(mid, 0, K, V)
    return m


def wmap(E, S, mid):
    m = get_map(E, S, mid).copy()
    S.maps[mid] = m
    return m


def materialise(E, S, mid, ver, key):
    """Run the element hooks (assumed invariants); False if contradictory."""
    E.rty[mid] = get_map(E, S, mid).V
    for h in E.elem_hooks:
        if not h(E, S, mid, ('E', mid, ver, key), key):
            return False
    return True


def elem_ref(E, S, mid, key):
    m = get_map(E, S, mid)
    E.rty[mid] = m.V
    return ('r', ('E', mid, m.ver, key), ())


def lookup(E, S, mid, k):
    """[(S', key of the present entry or None)]"""
    k = E.freeze(S, k)
    k = E.norm_int(S, k) if k[0] in ('i', 'l', 'y') and (k[0] != 'y' or E.T[k[1]]['k'] == 'int') else k
    out = []
    work = [(S, 0)]
    m0 = get_map(E, S, mid)
    keys = list(m0.entries)
    if k in m0.entries:
        return [(S, k if m0.entries[k][0] else None)]
    while work:
        s, i = work.pop()
        if i < len(keys):
            for s2, b in eq(E, s, keys[i], k):
                for s3, r in E.fork(s2, b):
                    if r:
                        out.append((s3, keys[i] if get_map(E, s3, mid).entries[keys[i]][0] else None))
                    else:
                        work.append((s3, i + 1))
            continue
        m = get_map(E, s, mid)
        if m.base is None:
            out.append((s, None))
            continue
        a = s.copy()
        am = wmap(E, a, mid)
        am.entries[k] = (False, False)
        b = s
        bm = wmap(E, b, mid)
        bm.entries[k] = (True, True)
        n = ('y', E.USIZE, ('maplen', mid, bm.ver))
        if E.assume_le(b, I1, n) and materialise(E, b, mid, bm.ver, k):
            out.append((b, k))
        out.append((a, None))
    return out


@model('HashMap::new', 'HashMap::with_capacity', 'BTreeMap::new')
def m_map_new(E, S, cal, args, dty):
    return ret(S, new_map(E, S, dty))


def mapof(E, S, ref):
    v = deref(E, S, ref)
    if not is_map(E, v):
        raise AnalysisError('not a map: %r' % (v[:2],))
    return v


@model('HashMap::get', 'HashMap::get_mut', 'BTreeMap::get', 'BTreeMap::get_mut')
def m_map_get(E, S, cal, args, dty):
    mid = mapof(E, S, args[0])
    out = []
    for s, k in lookup(E, S, mid, deref(E, S, args[1])):
        out.append(('ret', s, E.none(dty) if k is None else E.some(dty, elem_ref(E, s, mid, k))))
    return out


@model('HashMap::get_key_value')
def m_map_getkv(E, S, cal, args, dty):
    mid = mapof(E, S, args[0])
    out = []
    for s, k in lookup(E, S, mid, deref(E, S, args[1])):
        out.append(('ret', s, E.none(dty) if k is None else E.some(dty, ('t', (('r', ('V', k), ()), elem_ref(E, s, mid, k))))))
    return out


@model('HashMap::contains_key', 'BTreeMap::contains_key')
def m_map_has(E, S, cal, args, dty):
    mid = mapof(E, S, args[0])
    return [('ret', s, I0 if k is None else I1) for s, k in lookup(E, S, mid, deref(E, S, args[1]))]


def map_insert(E, S, mid, key, val):
    """[(S', old value or None)]"""
    key = E.freeze(S, key)
    out = []
    for s, k in lookup(E, S, mid, key):
        m = wmap(E, s, mid)
        if k is not None:
            root = ('E', mid, m.ver, k)
            old = E.root_value(s, root)
            s.mem[root] = val
            s.ev('map-replace', mid, k)
            out.append((s, old))
        else:
            kk = key
            for x in m.entries:
                if x == key or E_same(E, s, x, key):
                    kk = x
            ip = m.entries.get(kk, (False, False))[1]
            m.entries[kk] = (True, ip)
            m.delta += 1
            s.mem[('E', mid, m.ver, kk)] = val
            s.ev('map-insert', mid, kk)
            out.append((s, None))
    return out


def E_same(E, S, a, b):
    r = eq(E, S.copy(), a, b)
    return len(r) == 1 and E.truth(r[0][0], r[0][1]) is True


@model('HashMap::insert', 'BTreeMap::insert')
def m_map_insert(E, S, cal, args, dty):
    mid = mapof(E, S, args[0])
    return [('ret', s, E.none(dty) if o is None else E.some(dty, o)) for s, o in map_insert(E, S, mid, args[1], args[2])]


def map_remove(E, S, mid, key):
    out = []
    for s, k in lookup(E, S, mid, key):
        if k is None:
            out.append((s, None, None))
            continue
        m = wmap(E, s, mid)
        root = ('E', mid, m.ver, k)
        old = E.root_value(s, root)
        m.entries[k] = (False, m.entries[k][1])
        m.delta -= 1
        s.mem[root] = MVD
        s.ev('map-remove', mid, k)
        out.append((s, k, old))
    return out


@model('HashMap::remove', 'HashMap::remove_entry', 'BTreeMap::remove')
def m_map_remove(E, S, cal, args, dty):
    mid = mapof(E, S, args[0])
    out = []
    for s, k, old in map_remove(E, S, mid, deref(E, S, args[1])):
        if k is None:
            out.append(('ret', s, E.none(dty)))
        elif short(cal['decl'])[-1] == 'remove':
            out.append(('ret', s, E.some(dty, old)))
        else:
            out.append(('ret', s, E.some(dty, ('t', (k, old)))))
    return out


def map_len(E, S, mid):
    m = get_map(E, S, mid)
    if m.base is None:
        return I(sum(1 for p, _ in m.entries.values() if p))
    return add(('y', E.USIZE, ('maplen', mid, m.ver)), I(m.delta))


@model('HashMap::len', 'BTreeMap::len')
def m_map_len(E, S, cal, args, dty):
    return ret(S, map_len(E, S, mapof(E, S, args[0])))


@model('HashMap::is_empty', 'BTreeMap::is_empty')
def m_map_empty(E, S, cal, args, dty):
    return ret(S, E.cmp(S, 'Eq', map_len(E, S, mapof(E, S, args[0])), I0))


@model('HashMap::clear', 'BTreeMap::clear')
def m_map_clear(E, S, cal, args, dty):
    mid = mapof(E, S, args[0])
    out = []
    for kind, s, v in drop_all(E, S, mid):
        if kind == 'ret':
            m = wmap(E, s, mid)
            m.base, m.entries, m.delta = None, {k: (False, ip) for k, (p, ip) in m.entries.items()}, 0
        out.append((kind, s, v))
    return out


@model('HashMap::entry', 'BTreeMap::entry')
def m_map_entry(E, S, cal, args, dty):
    mid = mapof(E, S, args[0])
    key = E.freeze(S, args[1])
    t = E.T[dty]
    vi = {v['n']: i for i, v in enumerate(t['v'])}
    out = []
    for s, k in lookup(E, S, mid, key):
        if k is None:
            out.append(('ret', s, ('s', dty, vi['Vacant'], (('ent', mid, key),))))
        else:
            out.append(('ret', s, ('s', dty, vi['Occupied'], (('ent', mid, k),))))
    return out


def entval(E, S, v):
    while v[0] != 'ent':
        if v[0] == 's':
            v = v[3][0]
        else:
            v = E.load(S, v)
    return v


@model('Entry::or_insert', 'Entry::or_insert_with', 'Entry::or_default', 'VacantEntry::insert', 'Entry::or_insert_with_key')
def m_ent_insert(E, S, cal, args, dty):
    op = short(cal['decl'])[-1]
    e = args[0]
    ent = entval(E, S, e)
    mid, k = ent[1], ent[2]
    if e[0] == 's' and E.T[e[1]]['v'][e[2]]['n'] == 'Occupied':
        return ret(S, elem_ref(E, S, mid, k))
    if op == 'or_insert_with':
        vals = E.call_value(S, args[1], [])
    elif op == 'or_default':
        d = default_value(E, S, get_map(E, S, mid).V)
        if d is None:
            return None
        vals = [('ret', S, d)]
    else:
        vals = [('ret', S, args[1])]
    out = []
    for kind, s, v in vals:
        if kind != 'ret':
            out.append((kind, s, v))
            continue
        for s2, _ in map_insert(E, s, mid, k, v):
            out.append(('ret', s2, elem_ref(E, s2, mid, k)))
    return out


@model('OccupiedEntry::get', 'OccupiedEntry::get_mut', 'OccupiedEntry::into_mut')
def m_oent_get(E, S, cal, args, dty):
    ent = entval(E, S, args[0])
    return ret(S, elem_ref(E, S, ent[1], ent[2]))


@model('OccupiedEntry::remove', 'OccupiedEntry::remove_entry')
def m_oent_remove(E, S, cal, args, dty):
    ent = entval(E, S, args[0])
    out = []
    for s, k, old in map_remove(E, S, ent[1], ent[2]):
        out.append(('ret', s, old if short(cal['decl'])[-1] == 'remove' else ('t', (k, old))))
    return out


@model('OccupiedEntry::insert')
def m_oent_insert(E, S, cal, args, dty):
    ent = entval(E, S, args[0])
    return [('ret', s, old) for s, old in map_insert(E, S, ent[1], ent[2], args[1])]


@model('OccupiedEntry::key', 'VacantEntry::key', 'Entry::key')
def m_ent_key(E, S, cal, args, dty):
    ent = entval(E, S, args[0])
    return ret(S, ('r', ('V', ent[2]), ()))


@model('Entry::and_modify')
def m_ent_modify(E, S, cal, args, dty):
    e = args[0]
    if E.T[e[1]]['v'][e[2]]['n'] != 'Occupied':
        return ret(S, e)
    ent = entval(E, S, e)
    outs = E.call_value(S, args[1], [elem_ref(E, S, ent[1], ent[2])], None)
    return [(k, s, e if k == 'ret' else v) for k, s, v in outs]


def drop_all(E, S, mid):
    """Drop every element of a map."""
    m = get_map(E, S, mid)
    if not E.needs_drop(m.V):
        S.ev('map-drop', mid)
        return ret(S, UNIT)
    sts = [('ret', S, UNIT)]
    for k, (p, _) in list(m.entries.items()):
        if p:
            root = ('E', mid, m.ver, k)

            def one(s, root=root):
                s.ev('map-elem-drop', mid, root[3])
                return E.drop_at(s, ('r', root, ()), m.V)
            sts = E.seq_states(sts, one)

    def rest(s):
        mm = get_map(E, s, mid)
        if mm.base is None:
            s.ev('map-drop', mid)
            return ret(s, UNIT)
        it = ('it', 'hm', mid, mm.ver, I0, 'root', True)
        outs = consume(E, s, it, lambda s2, item: [('back' if k == 'ret' else k, s3, v) for k, s3, v in
                                                   E.drop_at(s2, item, mm.V)], 'drop of map')
        res = []
        for kind, s2, v in outs:
            if kind == 'exit':
                s2.ev('map-drop', mid)
                res.append(('ret', s2, UNIT))
            else:
                res.append((kind, s2, v))
        return res
    return E.seq_states(sts, rest)


# ---------------------------------------------------------------- iterators
def iter_end(E, S, it):
    if it[0] == 'sl':
        return it[2]
    if it[0] != 'it':
        return None
    if it[1] in ('sl', 'vi'):
        return it[4]
    if it[1] == 'rg':
        return it[3]
    if it[1] == 'ch':
        return it[5]
    if it[1] == 'hm' and S.maps.get(it[2]) is not None and S.maps[it[2]].ver == it[3]:
        return map_len(E, S, it[2])
    if it[1] in ('enumerate', 'zip', 'map', 'cloned', 'filter', 'filter_map', 'take', 'skip', 'chain', 'inspect', 'flat_map'):
        return None
    return None


def to_iter(E, S, v, by_ref=False):
    """Iterator value of an IntoIterator value."""
    if v[0] == 'it':
        return v
    if v[0] == 's':
        name = E.T[v[1]].get('path', '').split('::')[-1]
        if name == 'Range':
            return ('it', 'rg', v[3][0], v[3][1])
        if name == 'RangeInclusive':
            return ('it', 'rg', v[3][0], add(v[3][1], I1))
        if name == 'RangeFrom':
            return ('it', 'rg', v[3][0], None)
        if name == 'Option':
            return ('it', 'op', v)
        if name in ('Iter', 'IterMut', 'IntoIter') and 'option::' in E.T[v[1]].get('path', '') and v[3][0][0] == 's' \
                and E.T[v[3][0][1]].get('path', '').endswith('option::Item'):
            return ('it', 'op', v[3][0][3][0])
        if name == 'Result':
            return ('it', 'op', ('s', v[1], v[2], v[3]) if v[2] == 0 else v)
        return None
    d = redo(E, S, v)
    if d is not None:
        return d
    if v[0] in ('v', 'a'):
        return ('it', 'vi', v, I0, E.seq_len(v))
    if is_map(E, v):
        m = get_map(E, S, v)
        return ('it', 'hm', v, m.ver, I0, 'owned', False)
    if v[0] == 'y':
        t = E.T[v[1]]
        if E.is_seq_ty(v[1]) and t['k'] != 'ref':
            return ('it', 'vi', v, I0, E.seq_len(v))
        if t.get('path', '').endswith('Option'):
            return ('it', 'op', v)
        if t['k'] == 'ref':
            return ref_iter(E, S, v, t.get('mut', False))
        return None
    if v[0] == 'r':
        return ref_iter(E, S, v, False)
    if v[0] == 'box':
        return ref_iter(E, S, v, False)
    return None


def ref_iter(E, S, ref, mut):
    r = flatref(E, S, ref)
    v = E.load(S, r)
    if v[0] == 'it':
        return ('it', 'byref', r)
    if v[0] == 'guard':
        r = E.as_ref(v)
        v = E.load(S, r)
    if is_map(E, v):
        m = get_map(E, S, v)
        return ('it', 'hm', v, m.ver, I0, 'kv', False)
    if v[0] == 's' and E.T[v[1]].get('path', '').endswith('Option'):
        if v[2] == 0:
            return ('it', 'op', v)
        return ('it', 'opr', ('r', r[1], r[2] + (('vf', 1, 0),)), I0)
    if v[0] == 's':
        it = to_iter(E, S, v)
        if it is not None:
            return ('it', 'byref', E.alloc_it(S, r, it))
        return None
    d = redo(E, S, v)
    if d is not None:
        return ('it', 'refs', d)
    if v[0] in ('a', 'v') or (v[0] == 'y' and E.is_seq_ty(v[1])):
        return ('it', 'sl', r, I0, E.seq_len(v))
    return None


def map_source(it):
    """The map iterator below a chain of adapters that only select and rewrite items, and the closures on the way."""
    fs = []
    while it[0] == 'it' and it[1] in ('map', 'filter', 'filter_map', 'cloned', 'inspect'):
        if it[1] != 'cloned':
            fs.append(it[3])
        it = it[2]
    if it[0] == 'it' and it[1] == 'hm' and it[4] == I0 and it[5] in ('v', 'k', 'kv'):
        return it, fs
    return None, fs


def captured(E, S, f):
    """What a closure sees of its surroundings, or None when it may write there."""
    if f[0] != 'clo':
        return () if f[0] == 'fn' else None
    out = []
    for x in f[3]:
        if x[0] == 'r':
            v = E.load(S, x)
            if v[0] in ('it', 'guard', 'co', 'fut'):
                return None
            out.append((x, E.freeze(S, v)))
    return tuple(out)


def remember_source(E, S, info, acc, it, v):
    """A list of references into a map is visited like the part of the map that it was collected from."""
    hm, fs = map_source(it)
    if hm is None or v[0] != 'y' or v[2][0] != 'phi' or v[2][1] != info.lid or info.bumped:
        return
    if E.T[E.elem_ty(v[1])]['k'] not in ('ref', 'tuple'):
        return
    for B in info.backs:
        parts = E.seq_parts(E.load_loc(B, (acc[1], acc[2])))
        new = parts[1:] if parts and parts[0][:2] == ('q', v) else parts
        if any(p[0] != 'e' or p[1][0] != 'r' and not (p[1][0] == 't' and any(x[0] == 'r' for x in p[1][1])) for p in new):
            return
        if any(e[0] != 'hm-item' for e in B.log[info.mlog:]) or len(B.mem) < len(info.head.mem):
            return
    for loc, ph in info.phis.items():
        if ph != v and (not loc[1] or not str(loc[1][-1][0]).startswith('#')):
            return
    cap = [captured(E, S, f) for f in fs]
    if None not in cap:
        E.sources[v] = (it, tuple(cap), fs)


def redo(E, S, v):
    d = E.sources.get(v)
    if d is None:
        return None
    it, cap, fs = d
    hm, _ = map_source(it)
    m = get_map(E, S, hm[2])
    try:
        if m.ver != hm[3] or any(captured(E, S, f) != c for f, c in zip(fs, cap)):
            return None
    except AnalysisError:
        return None
    return it


@model('IntoIterator::into_iter')
def m_into_iter(E, S, cal, args, dty):
    it = to_iter(E, S, args[0])
    if it is None and args[0][0] == 'y':
        v = args[0]
        if v[0] == 'y' and E.T[v[1]].get('path', '').split('::')[-1] in ('Option', 'Result'):
            return ret(S, ('it', 'op', v))
    return None if it is None else ret(S, it)


@model('slice::iter', 'slice::iter_mut', 'Vec::iter', 'HashMap::iter', 'HashMap::iter_mut', 'Option::iter', 'BTreeMap::iter',
       'VecDeque::iter', 'HashMap::into_iter')
def m_iter(E, S, cal, args, dty):
    it = ref_iter(E, S, args[0], False)
    return None if it is None else ret(S, it)


@model('HashMap::values', 'HashMap::values_mut', 'HashMap::keys', 'HashMap::into_values', 'HashMap::into_keys', 'HashMap::drain',
       'BTreeMap::values', 'BTreeMap::values_mut', 'BTreeMap::keys')
def m_values(E, S, cal, args, dty):
    op = short(cal['decl'])[-1]
    mid = mapof(E, S, args[0])
    m = get_map(E, S, mid)
    mode = {'values': 'v', 'values_mut': 'v', 'keys': 'k', 'into_values': 'ov', 'into_keys': 'ok', 'drain': 'owned'}[op]
    it = ('it', 'hm', mid, m.ver, I0, mode, False)
    if op == 'drain':
        mm = wmap(E, S, mid)
        # the map is empty afterwards
        S.ev('map-drain', mid)
        mm.base, mm.ver = None, ('drained', mm.ver)
        mm.entries = {}
        mm.delta = 0
    return ret(S, it)


@model('HashMap::retain', 'BTreeMap::retain')
def m_map_retain(E, S, cal, args, dty):
    mid = mapof(E, S, args[0])
    m = get_map(E, S, mid)
    it = ('it', 'hm', mid, m.ver, I0, 'kv', False)

    def body(s, item):
        out = []
        for kind, s2, b in E.call_value(s, args[1], [item[1][0], item[1][1]], E.BOOL):
            if kind != 'ret':
                out.append((kind, s2, b))
                continue
            for s3, r in E.fork(s2, b):
                if r:
                    out.append(('back', s3, None))
                    continue
                k = E.load(s3, item[1][0])
                s3.ev('map-remove', mid, k)
                for kind4, s4, v4 in E.drop_at(s3, item[1][1], m.V):
                    if kind4 == 'ret':
                        mm = wmap(E, s4, mid)
                        if k in mm.entries:
                            mm.entries[k] = (False, mm.entries[k][1])
                        out.append(('back', s4, None))
                    else:
                        out.append((kind4, s4, v4))
        return out
    return finish_unit(consume(E, S, it, body, 'HashMap::retain'))


def finish_unit(outs):
    return [('ret', s, UNIT) if kind == 'exit' else (kind, s, v) for kind, s, v in outs]


ADAPT = {'map': 2, 'filter': 2, 'filter_map': 2, 'enumerate': 1, 'cloned': 1, 'copied': 1, 'inspect': 2, 'flat_map': 2, 'flatten': 1,
         'take_while': 2, 'skip_while': 2, 'map_while': 2, 'fuse': 1, 'peekable': 1}


def as_it(E, S, v):
    it = to_iter(E, S, v)
    return it


def _adapt(name):
    def m(E, S, cal, args, dty):
        it = as_it(E, S, args[0])
        if it is None:
            return None
        if name in ('fuse', 'peekable') :
            return ret(S, it)
        if name in ('cloned', 'copied'):
            return ret(S, ('it', 'cloned', it))
        if name == 'enumerate':
            return ret(S, ('it', 'enumerate', it, I0))
        if name in ('flat_map', 'flatten'):
            f = args[1] if name == 'flat_map' else None
            return ret(S, ('it', 'flat_map', it, f, None))
        return ret(S, ('it', name, it, args[1]))
    return m


for _n in ADAPT:
    MODELS['Iterator::' + _n] = _adapt(_n)


@model('Iterator::zip')
def m_zip(E, S, cal, args, dty):
    a, b = as_it(E, S, args[0]), as_it(E, S, args[1])
    if a is None or b is None:
        return None
    return ret(S, ('it', 'zip', a, b))


@model('Iterator::chain')
def m_chain(E, S, cal, args, dty):
    a, b = as_it(E, S, args[0]), as_it(E, S, args[1])
    if a is None or b is None:
        return None
    return ret(S, ('it', 'chain', a, b, I0))


@model('Iterator::take', 'Iterator::skip', 'Iterator::step_by')
def m_take(E, S, cal, args, dty):
    it = as_it(E, S, args[0])
    op = short(cal['decl'])[-1]
    if it is None:
        return None
    if it[1] in ('sl', 'vi') or (it[1] == 'rg' and it[3] is not None):
        pi, ei = (3, 4) if it[1] != 'rg' else (2, 3)
        out = []
        lim = add(it[pi], args[1])
        for s, small in E.fork(S, E.cmp(S, 'Le', lim, it[ei])):
            n = list(it)
            if op == 'take':
                n[ei] = lim if small else it[ei]
            elif op == 'skip':
                n[pi] = lim if small else it[ei]
            else:
                return None
            out.append(('ret', s, tuple(n)))
        return out
    if op == 'take':
        return ret(S, ('it', 'take', it, args[1]))
    if op == 'skip':
        return ret(S, ('it', 'skip', it, args[1]))
    return None


@model('Iterator::rev')
def m_rev(E, S, cal, args, dty):
    it = as_it(E, S, args[0])
    if it is None:
        return None
    if it[1] in ('sl', 'vi'):
        return ret(S, ('it', 'rev' + it[1], it[2], I0, it[4], it[3]))
    if it[1] == 'rg' and it[3] is not None:
        return ret(S, ('it', 'revrg', it[2], it[3], I0))
    return None


def multiple(E, S, n, k):
    """x with n == k * x by the known constraints, or None."""
    c, items = lin(n)
    if k == 1 or c or len(items) != 1 or items[0][1] != 1:
        return None
    t = items[0][0]
    for con in S.cons:
        m = dict(con[1])
        if t in m and len(m) == 2:
            x = [y for y in m if y != t][0]
            if abs(m[t]) * k == abs(m[x]) and E.prove_eq(S, n, scale(x, k)):
                return x
    return None


@model('slice::chunks', 'slice::chunks_exact', 'slice::chunks_mut')
def m_chunks(E, S, cal, args, dty):
    r = flatref(E, S, args[0])
    v = E.load(S, r)
    n = E.seq_len(v)
    out = []
    for s, z in E.fork(S, E.cmp(S, 'Eq', args[1], I0)):
        if z:
            out.append(('panic', s, E.panic_info('chunk size zero')))
            continue
        sz = E.norm_int(s, args[1])
        if sz[0] == 'i':
            up = I(sz[1] - 1) if short(cal['decl'])[-1] == 'chunks' else I0
            cnt = multiple(E, s, n, sz[1]) or E.binop(s, 'Div', add(n, up), sz, E.USIZE)
            out.append(('ret', s, ('it', 'ch', r, sz, I0, cnt, n)))
        else:
            out.append(('ret', s, ('it', 'unk', E.fresh(dty, 'chunks'))))
    return out


def it_step(E, S, it):
    """[(S', 'item'|'end'|'skip'|'panic', value, next iterator)]"""
    k = it[1]
    if k == 'sl' or k == 'vi':
        out = []
        for s, more in E.fork(S, E.cmp(S, 'Lt', it[3], it[4])):
            if more:
                if k == 'sl':
                    r = it[2]
                    v = ('r', r[1], r[2] + (('x', it[3]),))
                else:
                    v = E.index_parts(s, E.seq_parts(it[2]), it[3])
                    if it[2][0] == 'y':
                        v = E.base_elem(s, it[2], it[3])
                out.append((s, 'item', v, it[:3] + (add(it[3], I1),) + it[4:]))
            else:
                out.append((s, 'end', None, it))
        return out
    if k in ('revsl', 'revvi'):
        # ('it', kind, base, done, hi, lo)
        out = []
        for s, more in E.fork(S, E.cmp(S, 'Lt', it[3], sub(it[4], it[5]))):
            if more:
                pos = sub(sub(it[4], I1), it[3])
                v = ('r', it[2][1], it[2][2] + (('x', pos),)) if k == 'revsl' else E.index_parts(s, E.seq_parts(it[2]), pos)
                out.append((s, 'item', v, it[:3] + (add(it[3], I1),) + it[4:]))
            else:
                out.append((s, 'end', None, it))
        return out
    if k == 'revrg':
        out = []
        for s, more in E.fork(S, E.cmp(S, 'Lt', add(it[2], it[4]), it[3])):
            if more:
                out.append((s, 'item', sub(sub(it[3], I1), it[4]), it[:4] + (add(it[4], I1),)))
            else:
                out.append((s, 'end', None, it))
        return out
    if k == 'rg':
        if it[3] is None:
            return [(S, 'item', it[2], ('it', 'rg', add(it[2], I1), None))]
        out = []
        for s, more in E.fork(S, E.cmp(S, 'Lt', it[2], it[3])):
            if more:
                out.append((s, 'item', it[2], ('it', 'rg', add(it[2], I1), it[3])))
            else:
                out.append((s, 'end', None, it))
        return out
    if k == 'op':
        if it[2] is None:
            return [(S, 'end', None, it)]
        out = []
        v = it[2]
        if v[0] == 'mvd':
            return [(S, 'end', None, it)]
        isres = E.T[v[1]].get('path', '').endswith('Result')
        for s, var in E.fork_variants(S, v):
            full = (var == 0) if isres else (var == 1)
            if full:
                out.append((s, 'item', E.proj(s, v, ('vf', var, 0)), ('it', 'op', MVD)))
            else:
                out.append((s, 'end', None, it))
        return out
    if k == 'opr':
        if it[3] == I0:
            return [(S, 'item', it[2], ('it', 'opr', it[2], I1))]
        if it[3] == I1:
            return [(S, 'end', None, it)]
        out = []
        for s, z in E.fork(S, E.cmp(S, 'Eq', it[3], I0)):
            out.append((s, 'item', it[2], ('it', 'opr', it[2], I1)) if z else (s, 'end', None, it))
        return out
    if k == 'ch':
        out = []
        for s, more in E.fork(S, E.cmp(S, 'Lt', it[4], it[5])):
            if not more:
                out.append((s, 'end', None, it))
                continue
            lo = scale(it[4], it[3][1])
            hi = add(lo, it[3])
            nx = it[:4] + (add(it[4], I1),) + it[5:]
            for s2, full in E.fork(s, E.cmp(s, 'Le', hi, it[6])):
                h = hi if full else it[6]
                out.append((s2, 'item', subref(it[2], lo, h), nx))
        return out
    if k == 'hm':
        return hm_step(E, S, it)
    if k == 'byref':
        r = it[2]
        inner = E.load(S, r)
        out = []
        for s, w, v, nx in it_step(E, S, inner):
            if w not in ('panic', 'unk'):
                E.store(s, r, nx)
            out.append((s, w, v, it))
        return out
    if k == 'enumerate':
        out = []
        for s, w, v, nx in it_step(E, S, it[2]):
            if w == 'item':
                out.append((s, w, ('t', (it[3], v)), ('it', k, nx, add(it[3], I1))))
            else:
                out.append((s, w, v, ('it', k, nx, it[3])))
        return out
    if k == 'refs':
        out = []
        for s, w, v, nx in it_step(E, S, it[2]):
            if w == 'item':
                v = E.alloc(s, v, E.guess_ty(v))
            out.append((s, w, v, ('it', k, nx)))
        return out
    if k == 'cloned':
        out = []
        for s, w, v, nx in it_step(E, S, it[2]):
            if w == 'item':
                v = E.load(s, v) if v[0] == 'r' or (v[0] == 'y' and E.T[v[1]]['k'] == 'ref') else v
            out.append((s, w, v, ('it', k, nx)))
        return out
    if k in ('map', 'filter', 'filter_map', 'inspect', 'take_while', 'map_while', 'skip_while'):
        out = []
        f = it[3]
        for s, w, v, nx in it_step(E, S, it[2]):
            n = ('it', k, nx, f)
            if w != 'item':
                out.append((s, w, v, n))
                continue
            if k == 'map':
                for kind, s2, x in E.call_value(s, f, [v]):
                    out.append((s2, 'item', x, n) if kind == 'ret' else (s2, kind, x, None))
            elif k in ('filter', 'inspect', 'take_while', 'skip_while'):
                a = E.alloc(s, v, E.guess_ty(v))
                for kind, s2, x in E.call_value(s, f, [a]):
                    if kind != 'ret':
                        out.append((s2, kind, x, None))
                    elif k == 'inspect':
                        out.append((s2, 'item', v, n))
                    else:
                        for s3, r in E.fork(s2, x):
                            if k == 'filter':
                                out.append((s3, 'item' if r else 'skip', v, n))
                            elif k == 'take_while':
                                out.append((s3, 'item' if r else 'end', v, n))
                            else:
                                out.append((s3, 'skip' if r else 'item', v, n))
            else:
                for kind, s2, x in E.call_value(s, f, [v]):
                    if kind != 'ret':
                        out.append((s2, kind, x, None))
                        continue
                    for s3, var in E.fork_variants(s2, x):
                        if var == 1:
                            out.append((s3, 'item', E.proj(s3, x, ('vf', 1, 0)), n))
                        else:
                            out.append((s3, 'skip' if k == 'filter_map' else 'end', None, n))
        return out
    if k == 'zip':
        out = []
        for s, w, v, nx in it_step(E, S, it[2]):
            if w != 'item':
                out.append((s, w, v, ('it', k, nx, it[3])))
                continue
            for s2, w2, v2, nx2 in it_step(E, s, it[3]):
                if w2 == 'item':
                    out.append((s2, 'item', ('t', (v, v2)), ('it', k, nx, nx2)))
                elif w2 == 'skip':
                    raise AnalysisError('zip over filtering iterator')
                else:
                    out.append((s2, w2, v2, ('it', k, nx, nx2)))
        return out
    if k == 'chain':
        out = []
        st = E.norm_int(S, it[4])
        for s, first in E.fork(S, E.cmp(S, 'Eq', it[4], I0)):
            if first:
                for s2, w, v, nx in it_step(E, s, it[2]):
                    if w == 'end':
                        out.append((s2, 'skip', None, ('it', k, nx, it[3], I1)))
                    else:
                        out.append((s2, w, v, ('it', k, nx, it[3], it[4])))
            else:
                for s2, w, v, nx in it_step(E, s, it[3]):
                    out.append((s2, w, v, ('it', k, it[2], nx, it[4])))
        return out
    if k == 'take':
        out = []
        for s, z in E.fork(S, E.cmp(S, 'Eq', it[3], I0)):
            if z:
                out.append((s, 'end', None, it))
                continue
            for s2, w, v, nx in it_step(E, s, it[2]):
                out.append((s2, w, v, ('it', k, nx, sub(it[3], I1) if w == 'item' else it[3])))
        return out
    if k == 'skip':
        out = []
        for s, z in E.fork(S, E.cmp(S, 'Eq', it[3], I0)):
            for s2, w, v, nx in it_step(E, s, it[2]):
                if z or w != 'item':
                    out.append((s2, w, v, ('it', k, nx, it[3])))
                else:
                    out.append((s2, 'skip', None, ('it', k, nx, sub(it[3], I1))))
        return out
    if k == 'flat_map':
        # ('it','flat_map', outer, f, None): the inner sequence is produced whole, see collect_flat
        raise AnalysisError('flat_map outside of collect')
    raise AnalysisError('iterator %r' % (k,))


def hm_step(E, S, it):
    """One step over a map: an entry not visited before, in unspecified order."""
    mid, ver, idx, mode, norest = it[2], it[3], it[4], it[5], it[6]
    m = get_map(E, S, mid)
    nx = it[:4] + (add(idx, I1),) + it[5:]
    e = S.copy()
    e.ev('hm-end', mid)
    out = [(e, 'end', None, it)]

    def item(s, key, root):
        s.ev('hm-item', mid, ver, key)
        r = ('r', root, ())
        kr = ('r', ('V', key), ())
        if mode == 'v' or mode == 'root':
            return r
        if mode == 'k':
            return kr
        if mode == 'kv':
            return ('t', (kr, r))
        v = E.root_value(s, root)
        return v if mode == 'ov' else key if mode == 'ok' else ('t', (key, v))
    entries = list(m.entries.items()) if m.ver == ver else []
    if mode != 'root':
        for key, (p, ip) in entries:
            if p:
                s = S.copy()
                if E.assume_le(s, nx[4], map_len(E, s, mid)):
                    out.append((s, 'item', item(s, key, ('E', mid, ver, key)), nx))
    if m.base is not None or m.ver != ver:
        s = S
        K, V = m.K, m.V
        E.rty[mid] = V
        ik = E.sym(K, ('ikey', mid, ver, idx))
        good = True
        for key, _ in entries:
            r = []
            for s2, b in eq(E, s, key, ik):
                r.extend((s3, x) for s3, x in E.fork(s2, b) if not x)
            if not r:
                good = False
                break
            s = r[0][0]
        if good:
            if m.ver == ver:
                mm = wmap(E, s, mid)
                mm.entries[ik] = (True, True)
                E.assume_le(s, I1, ('y', E.USIZE, ('maplen', mid, ver)))
                E.assume_le(s, nx[4], map_len(E, s, mid))
            if materialise_at(E, s, mid, ver, ik):
                out.append((s, 'item', item(s, ik, ('E', mid, ver, ik)), nx))
    return out


def materialise_at(E, S, mid, ver, key):
    for h in E.elem_hooks:
        if not h(E, S, mid, ('E', mid, ver, key), key):
            return False
    return True


@model('Iterator::next', 'DoubleEndedIterator::next')
def m_next(E, S, cal, args, dty):
    r = flatref_it(E, S, args[0])
    if r is None:
        return None
    out = []
    work = [S]
    it0 = E.load(S, r)
    if it0[0] == 's':
        it1 = to_iter(E, S, it0)
        if it1 is None:
            return None
        name = E.T[it0[1]].get('path', '').split('::')[-1]
        if name in ('Range', 'RangeFrom'):
            for s, w, v, nx in it_step(E, S, it1):
                if w == 'item':
                    E.store(s, ('r', r[1], r[2] + (('f', 0),)), nx[2])
                    out.append(('ret', s, E.some(dty, v)))
                else:
                    out.append(('ret', s, E.none(dty)))
            return out
        E.store(S, r, it1)
        it0 = it1
    if it0[0] != 'it' or it0[1] == 'unk':
        return None
    skips, start = [], S.copy()
    skip_ok = E.skip_ok == len(E.stack) and E.stack[-1][0] == E.skip_fn
    for s, w, v, nx in it_step(E, S, it0):
        if w in ('panic', 'div', 'unk'):
            out.append((w, s, v))
            continue
        E.store(s, r, nx)
        if w == 'item':
            out.append(('ret', s, E.some(dty, v)))
        elif w == 'end':
            out.append(('ret', s, E.none(dty)))
        elif skip_ok:
            # in the head of a loop: the element left out is an iteration that does nothing
            out.append(('skip', s, None))
        else:
            skips.append(s)
    if skips:
        # look for the next element: a loop of its own
        out, s0 = [], start
        E.store(s0, r, it0)

        def step(s):
            res = []
            for s2, w, v, nx in it_step(E, s, E.load(s, r)):
                if w in ('panic', 'div', 'unk'):
                    res.append((w, s2, v))
                    continue
                E.store(s2, r, nx)
                if w == 'skip':
                    res.append(('back', s2, None))
                elif w == 'item':
                    res.append(('exit', s2, E.some(dty, v)))
                else:
                    res.append(('exit', s2, E.none(dty)))
            return res
        for kind, s2, v in E.solve_loop(s0, step, ('next', E.where())):
            out.append(('ret', s2, v) if kind == 'exit' else (kind, s2, v))
    return out


def flatref_it(E, S, v):
    n = 0
    while True:
        r = E.as_ref(v)
        x = E.load(S, r)
        if x[0] in ('it', 's'):
            return r
        if x[0] == 'r':
            v = x
            n += 1
            if n > 6:
                return None
            continue
        return None


@model('fixed::map')
def m_array_map(E, S, cal, args, dty):
    n = E.T[dty].get('n')
    if not isinstance(n, int) or n > 64:
        return None
    cur, others = [(S, ())], []
    for i in range(n):
        nxt = []
        for s, xs in cur:
            x = E.index_parts(s, E.seq_parts(args[0]), I(i)) if args[0][0] != 'y' else E.base_elem(s, args[0], I(i))
            for k, s2, v in E.call_value(s, args[1], [x]):
                if k == 'ret':
                    nxt.append((s2, xs + (v,)))
                else:
                    others.append((k, s2, v))
        cur = nxt
    return others + [('ret', s, ('a', xs)) for s, xs in cur]


def it_remaining(E, S, it, most=6):
    """Constant number of remaining elements, if known and small."""
    if it[1] in ('sl', 'vi'):
        n = E.norm_int(S, sub(it[4], it[3]))
        if it[1] == 'sl' and it[2][0] == 'r' and it[2][1][0] == 'V':
            most = 64     # a constant table
    elif it[1] == 'byref':
        return it_remaining(E, S, E.load(S, it[2]), most)
    elif it[1] == 'rg' and it[3] is not None:
        n = E.norm_int(S, sub(it[3], it[2]))
    elif it[1] == 'ch':
        n = E.norm_int(S, sub(it[5], it[4]))
    elif it[1] in ('map', 'filter', 'filter_map', 'enumerate', 'cloned', 'inspect'):
        return it_remaining(E, S, it[2], most)
    elif it[1] == 'zip':
        ns = [it_remaining(E, S, x, most) for x in it[2:4]]
        return min([n for n in ns if n is not None], default=None)
    elif it[1] == 'op':
        return 1
    else:
        return None
    return n[1] if n[0] == 'i' and n[1] <= most else None


def consume(E, S, it, body, what):
    """Run body(s, item) -> [(back|exit|panic.., s, v)] for every element; 'exit' with value None at the end."""
    n = it_remaining(E, S, it)
    if n is not None:
        outs, cur = [], [(S, it)]
        for _ in range(n + 1):
            nxt = []
            for s, i in cur:
                for s2, w, v, nx in it_step(E, s, i):
                    if w == 'end':
                        outs.append(('exit', s2, None))
                    elif w == 'skip':
                        nxt.append((s2, nx))
                    elif w == 'item':
                        for kind, s3, x in body(s2, v):
                            if kind == 'back':
                                nxt.append((s3, nx))
                            else:
                                outs.append((kind, s3, x))
                    else:
                        outs.append((w, s2, v))
            cur = nxt
        if cur:
            raise AnalysisError('unrolled loop does not end')
        return outs
    r = E.alloc(S, it, None)

    def step(s):
        res = []
        for s2, w, v, nx in it_step(E, s, E.load(s, r)):
            if w in ('panic', 'div', 'unk'):
                res.append((w, s2, v))
                continue
            E.store(s2, r, nx)
            if w == 'end':
                res.append(('exit', s2, None))
            elif w == 'skip':
                res.append(('back', s2, None))
            else:
                res.extend(body(s2, v))
        return res
    return E.solve_loop(S, step, (what, E.where()))


def src_it(E, S, v):
    if v[0] == 'r' or (v[0] == 'y' and E.T[v[1]]['k'] == 'ref'):
        r = flatref_it(E, S, v)
        if r is None:
            return None
        x = E.load(S, r)
        if x[0] == 's':
            y = to_iter(E, S, x)
            if y is None:
                return None
            E.store(S, r, y)
        return ('it', 'byref', r)
    it = to_iter(E, S, v)
    if it is not None and it[1] == 'unk':
        return None
    return it


@model('Iterator::for_each')
def m_for_each(E, S, cal, args, dty):
    it = src_it(E, S, args[0])
    if it is None:
        return None
    f = args[1]
    if f[0] == 'clo':
        f = E.alloc(S, f, f[2])

    def body(s, x):
        return [('back' if k == 'ret' else k, s2, v) for k, s2, v in E.call_value(s, f, [x], None)]
    return finish_unit(consume(E, S, it, body, 'for_each'))


def as_contains(E, S, it, f, want, byref=False):
    """any(|a| a == x) and all(|a| a != x) over a whole sequence: [(S', contains)] or None."""
    owner = sl = E.load(S, it[2]) if it[1] == 'byref' else it
    while sl[0] == 'it' and sl[1] == 'cloned':
        sl = sl[2]
    if sl[0] != 'it':
        return None
    if f[0] != 'clo' or sl[1] not in ('sl', 'vi'):
        return None
    base = E.load(S, sl[2]) if sl[1] == 'sl' else sl[2]
    if sl[3] != I0 or sl[4] != E.seq_len(base):
        return None
    parts = E.expand_const(S, E.seq_parts(base), 16)
    if not parts or all(p[0] == 'e' for p in parts):
        return None
    vty = base[1] if base[0] == 'y' else None
    for p in parts:
        if p[0] == 'q' and p[1][0] == 'y':
            vty = vty or p[1][1]
    if vty is None:
        return None
    bve = BVE(E, vty)

    def outcomes(outs):
        res = set()
        for s, b in outs:
            if s.log != S.log or b[0] not in ('i', 'y'):
                return None
            res.add((frozenset((k, v) for k, v in s.bt.items() if k not in S.bt),
                     frozenset((k, v) for k, v in s.vs.items() if S.vs.get(k) != v), b))
        return res
    tmp = S.copy()
    arg = bve if sl[1] == 'vi' or sl is not owner else E.alloc(tmp, bve, E.elem_ty(vty))
    if byref:
        arg = E.alloc(tmp, arg, E.guess_ty(arg))
    try:
        outs = E.call_value(tmp, f, [arg], E.BOOL)
        if any(k != 'ret' for k, _, _ in outs):
            return None
        got = outcomes([(s, b) for _, s, b in outs])
        cands = []
        for cap in f[3] if len(f) > 3 else ():
            x = E.freeze(S, deref(E, S, cap))
            cands.append(x)
            if x[0] in ('s', 't', 'y') and x[1] != bve[1] and kind_of(E, x) in ('struct', 'tuple', 's', 't'):
                cands += [E.freeze(S, deref(E, S, y)) for y in fields_of(E, S, x) or ()]
        for x in cands:
            if x[0] == 'y' and x[1] != bve[1] or x[0] == 's' and x[1] != bve[1]:
                continue
            ref = [(s, b if want else E.neg(b)) for s, b in eq(E, S.copy(), bve, x)]
            if got is not None and got == outcomes(ref):
                return [(s, b if want else E.neg(b)) for s, b in contains_val(E, S, parts, x)]
    except (AnalysisError, IndexError, KeyError, TypeError):
        return None
    return None


def _search(name):
    def m(E, S, cal, args, dty):
        it = src_it(E, S, args[0])
        if it is None:
            return None
        found = as_contains(E, S, it, args[1], True, name == 'find') if name in ('find', 'position') else None
        if found is None:
            return search(E, S, cal, args, dty, it)
        # there is such an element if and only if the list contains the value
        res = []
        for s, b in found:
            for s2, r in E.fork(s, b):
                if r:
                    res += [(k, s3, v) for k, s3, v in search(E, s2, cal, args, dty, it) if k != 'ret' or v[0] != 's' or v[2] == 1]
                else:
                    if it[1] == 'byref':
                        E.store(s2, it[2], ('it', 'unk'))
                    res.append(('ret', s2, E.none(dty)))
        return res

    def search(E, S, cal, args, dty, it):
        f = args[1]
        if name in ('any', 'all'):
            r = as_contains(E, S, it, f, name == 'any')
            if r is not None:
                for s, _ in r:
                    if it[1] == 'byref':
                        E.store(s, it[2], ('it', 'unk'))
                return [('ret', s, b) for s, b in r]
        if f[0] == 'clo':
            f = E.alloc(S, f, f[2])
        cnt = None
        if name == 'position':
            cnt = E.alloc(S, I0, E.USIZE)

        def body(s, x):
            out = []
            a = x
            if name == 'find':
                a = E.alloc(s, x, E.guess_ty(x))
            for k, s2, b in E.call_value(s, f, [a], None):
                if k != 'ret':
                    out.append((k, s2, b))
                    continue
                if name == 'find_map':
                    for s3, var in E.fork_variants(s2, b):
                        out.append(('exit', s3, ('hit', b)) if var == 1 else ('back', s3, None))
                    continue
                for s3, r in E.fork(s2, b):
                    if r == (name != 'all'):
                        v = x if name == 'find' else E.load(s3, cnt) if name == 'position' else None
                        out.append(('exit', s3, ('hit', v)))
                    else:
                        if cnt is not None:
                            E.store(s3, cnt, add(E.load(s3, cnt), I1))
                        out.append(('back', s3, None))
            return out
        res = []
        for kind, s, v in consume(E, S, it, body, name):
            if kind != 'exit':
                res.append((kind, s, v))
            elif name in ('any', 'all'):
                hit = v is not None
                res.append(('ret', s, I1 if hit == (name == 'any') else I0))
            elif name == 'find_map':
                res.append(('ret', s, v[1] if v is not None else E.none(dty)))
            else:
                res.append(('ret', s, E.some(dty, v[1]) if v is not None else E.none(dty)))
        return res
    return m


for _n in ('any', 'all', 'find', 'position', 'find_map'):
    MODELS['Iterator::' + _n] = _search(_n)


@model('Iterator::count', 'Iterator::fold', 'Iterator::sum', 'Iterator::last', 'Iterator::try_for_each', 'Iterator::max', 'Iterator::min')
def m_fold(E, S, cal, args, dty):
    op = short(cal['decl'])[-1]
    it = src_it(E, S, args[0])
    if it is None or op in ('max', 'min', 'last'):
        return None
    if op == 'count' and it[1] in ('sl', 'vi'):
        return ret(S, sub(it[4], it[3]))
    if op == 'try_for_each':
        f = args[1]
        if f[0] == 'clo':
            f = E.alloc(S, f, f[2])

        def body(s, x):
            out = []
            for k, s2, b in E.call_value(s, f, [x], None):
                if k != 'ret':
                    out.append((k, s2, b))
                    continue
                for s3, var in E.fork_variants(s2, b):
                    out.append(('back', s3, None) if var == 0 else ('exit', s3, b))
            return out
        return [('ret', s, v if v is not None else E.ok(dty, UNIT)) if k == 'exit' else (k, s, v)
                for k, s, v in consume(E, S, it, body, op)]
    acc = E.alloc(S, args[1] if op == 'fold' else I0, dty)

    def body(s, x):
        if op == 'count':
            E.store(s, acc, add(E.load(s, acc), I1))
            return [('back', s, None)]
        if op == 'sum':
            y = deref(E, s, x)
            if E.T[dty]['k'] != 'int':
                E.store(s, acc, E.fresh(dty, 'sum'))
                return [('back', s, None)]
            t = E.binop(s, 'AddWithOverflow', E.load(s, acc), y, dty)
            out = []
            for s2, o in E.fork(s, t[1][1]):
                if o:
                    out.append(('panic', s2, E.panic_info('sum overflow')))
                else:
                    E.store(s2, acc, t[1][0])
                    out.append(('back', s2, None))
            return out
        out = []
        for k, s2, v in E.call_value(s, args[2], [E.load(s, acc), x], dty):
            if k == 'ret':
                E.store(s2, acc, v)
                out.append(('back', s2, None))
            else:
                out.append((k, s2, v))
        return out
    return [('ret', s, E.load(s, acc)) if k == 'exit' else (k, s, v) for k, s, v in consume(E, S, it, body, op)]


def flat_collect(E, S, it, elty):
    """Concatenation of f(x) over a sequence: a symbolic concatenation whose element expression is recorded."""
    inner, f = it[2], it[3]
    n = it_count(E, S, inner)
    if n is None:
        return None
    n = E.norm_int(S, n)
    if n[0] == 'i' and n[1] <= 64:
        # a known number of items: the concatenation itself
        parts, cur, others = (), S, []
        for i in range(n[1]):
            good = []
            for k, s, x in item_at(E, cur, inner, I(i)):
                if k != 'ret':
                    others.append((k, s, x))
                    continue
                for o in (E.call_value(s, f, [x]) if f is not None else [('ret', s, x)]):
                    (good if o[0] == 'ret' else others).append(o)
            if len(good) != 1:
                return None
            cur = good[0][1]
            parts += E.seq_parts(deref(E, cur, good[0][2]))
        return ('v', E.simp_parts(cur, parts)), others, cur
    pos = ('y', E.USIZE, ('bv', 0))
    tmp = S.copy()
    if not (E.assume_le(tmp, I0, pos) and E.assume_le(tmp, add(pos, I1), n)):
        return ('v', ()), [], S
    xs = item_at(E, tmp, inner, pos)
    if len(xs) != 1 or xs[0][0] != 'ret':
        return None
    tmp, x = xs[0][1], xs[0][2]
    src, whole = None, inner
    while whole[1] in ('cloned', 'inspect'):
        whole = whole[2]
    if whole[1] in ('sl', 'vi'):
        src = E.load(S, whole[2]) if whole[1] == 'sl' else whole[2]
        if whole[3] != I0 or not E.prove_eq(S, whole[4], E.seq_len(src)):
            src = (src, whole[3], whole[4])
    if src is None:
        src = ('n', n)
    cases, others = [], []
    outs = E.call_value(tmp, f, [x]) if f is not None else [('ret', tmp, x)]
    vt = None
    for k, s, v in outs:
        if k != 'ret':
            others.append((k, s, v))
            continue
        v = deref(E, s, v)
        nf = []
        for y, vs in s.vs.items():
            if contains(y, pos) and S.vs.get(y) != vs:
                nf.append((y, vs))
        cases.append((tuple(sorted(nf, key=repr)), ('v', E.canon_seq(s, v))))
    if len(cases) == 1 and not cases[0][0]:
        r = unstride(E, S, cases[0][1], n, pos)
        if r is not None:
            return r, others, S
    return ('flat', src, tuple(sorted(cases, key=repr))), others, S


def unstride(E, S, piece, n, pos):
    """Concatenation of consecutive k-element pieces of one sequence: that part of the sequence."""
    parts = E.seq_parts(piece)
    base = None
    k = len(parts)
    for j, p in enumerate(parts):
        x = p[1] if p[0] == 'e' else None
        if x is None or x[0] != 'y' or x[2][0] != 'idx' or (base is not None and x[2][1] != base) or contains(x[2][1], pos):
            return None
        base = x[2][1]
        if lin(sub(x[2][2], I(j))) != (0, ((pos, k),)):
            return None
    if base is None or base[0] != 'y':
        return None
    return ('v', E.simp_parts(S, (('q', base, I0, scale(n, k)),)))


def it_count(E, S, it):
    """Number of items of an iterator whose items are in 1:1 relation to positions, else None."""
    k = it[1]
    if k in ('sl', 'vi'):
        return sub(it[4], it[3])
    if k == 'rg' and it[3] is not None:
        return sub(it[3], it[2]) if E.prove_le(S, it[2], it[3]) else None
    if k == 'ch':
        return sub(it[5], it[4])
    if k in ('map', 'cloned', 'enumerate', 'inspect'):
        return it_count(E, S, it[2])
    return None


def item_at(E, S, it, pos):
    """[(kind, S', item)] for the item at a (valid) symbolic position."""
    k = it[1]
    if k == 'sl':
        return [('ret', S, ('r', it[2][1], it[2][2] + (('x', add(it[3], pos)),)))]
    if k == 'vi':
        if it[2][0] == 'y':
            return [('ret', S, E.base_elem(S, it[2], add(it[3], pos)))]
        return [('ret', S, E.index_parts(S, E.seq_parts(it[2]), add(it[3], pos)))]
    if k == 'rg':
        return [('ret', S, add(it[2], pos))]
    if k == 'ch':
        lo = scale(add(it[4], pos), it[3][1])
        hi = add(lo, it[3])
        out = []
        for s2, full in E.fork(S, E.cmp(S, 'Le', hi, it[6])):
            out.append(('ret', s2, subref(it[2], lo, hi if full else it[6])))
        return out
    out = []
    for kind, s, v in item_at(E, S, it[2], pos):
        if kind != 'ret':
            out.append((kind, s, v))
        elif k == 'enumerate':
            out.append((kind, s, ('t', (add(it[3], pos), v))))
        elif k == 'cloned':
            out.append((kind, s, E.load(s, v) if v[0] == 'r' or (v[0] == 'y' and E.T[v[1]]['k'] == 'ref') else v))
        elif k == 'inspect':
            a = E.alloc(s, v, E.guess_ty(v))
            out.extend((k2, s2, v) for k2, s2, _ in E.call_value(s, it[3], [a]))
        else:
            out.extend(E.call_value(s, it[3], [v]))
    return out


def bv_depth(t):
    d = 0
    if isinstance(t, tuple):
        if len(t) == 2 and t[0] == 'bv':
            return t[1] + 1
        for x in t:
            if isinstance(x, tuple):
                d = max(d, bv_depth(x))
    return d


def comp(E, ty, v, n, k):
    """The sequence of v for position bv(k) = 0..n; consecutive items of a sequence are a part of it."""
    if v[0] == 'y' and v[2][0] == 'idx':
        at = ('y', E.USIZE, ('bv', k))
        off = sub(v[2][2], at)
        if not contains(off, at) and not contains(v[2][1], at):
            return ('v', (('q', v[2][1], off, add(off, n)),))
    return ('y', ty, ('comp', v, n, k))


def comp_collect(E, S, it, vty):
    """Element-wise construction without side effects: a comprehension value (or None)."""
    n = it_count(E, S, it)
    if n is None:
        return None
    nn = E.norm_int(S, n)
    if nn[0] == 'i' and nn[1] <= 6:
        return None
    if nn[0] == 'i' and nn[1] <= 64:
        # a known number of items: the items themselves
        items, cur = [], S.copy()
        for i in range(nn[1]):
            try:
                good = item_at(E, cur, it, I(i))
            except AnalysisError:
                break
            if len(good) != 1 or good[0][0] != 'ret' or good[0][1].log != S.log:
                break
            cur = good[0][1]
            items.append(('e', E.freeze(cur, good[0][2])))
        else:
            return ret(cur, ('v', tuple(items)))
    pos = ('y', E.USIZE, ('u', 'bv', next(E.cnt)))
    tmp = S.copy()
    if not (E.assume_le(tmp, I0, pos) and E.assume_le(tmp, add(pos, I1), n)):
        return ret(S, ('v', ()))
    base = tmp.copy()
    try:
        outs = item_at(E, tmp, it, pos)
    except AnalysisError:
        return None
    good = [o for o in outs if o[0] == 'ret']
    if len(good) != 1:
        return None
    s, v = good[0][1], good[0][2]
    if s.log != base.log or s.locks != base.locks or any(s.mem.get(k) != x for k, x in base.mem.items()):
        return None
    for mid, m in base.maps.items():
        if s.maps[mid] is not m and (s.maps[mid].ver != m.ver or s.maps[mid].entries != m.entries):
            return None
    v = E.freeze(s, v)
    k = bv_depth(v)
    v = subst(v, {pos: ('y', E.USIZE, ('bv', k))})
    return [o for o in outs if o[0] != 'ret'] + [('ret', S, comp(E, vty, v, n, k))]


@model('Iterator::collect', 'FromIterator::from_iter', 'Extend::extend', 'Vec::extend', 'iter::collect')
def m_collect(E, S, cal, args, dty):
    op = short(cal['decl'])[-1]
    if op == 'extend':
        tgt = flatref(E, S, args[0])
        cur = E.load(S, tgt)
        if is_map(E, cur):
            return None
        src = args[1]
        if src[0] == 'r' and E.load(S, src)[0] in ('a', 'v', 'str'):
            E.store(S, tgt, ('v', E.simp_parts(S, E.seq_parts(cur) + E.seq_parts(E.load(S, src)))))
            return ret(S, UNIT)
        it = src_it(E, S, src)
        if it is None:
            return None
        if it[1] in ('vi',) or (it[1] == 'cloned' and it[2][1] == 'sl'):
            b = it if it[1] == 'vi' else it[2]
            v = b[2] if b[1] == 'vi' else E.load(S, b[2])
            E.store(S, tgt, ('v', E.simp_parts(S, E.seq_parts(cur) + E.slice_parts(S, E.seq_parts(v), b[3], b[4]))))
            return ret(S, UNIT)
        pre = (('map' if False else ''),)

        def body(s, x):
            c = E.load(s, tgt)
            E.store(s, tgt, ('v', E.seq_parts(c) + (('e', E.load(s, x) if deref_item(E, s, tgt, x) else x),)))
            return [('back', s, None)]
        if cur[0] == 'y':
            pass
        outs = consume(E, S, it, body, 'extend')
        return finish_unit(outs)
    it = src_it(E, S, args[0])
    if it is None:
        return None
    t = E.T[dty]
    wrap = None
    vty = dty
    if t.get('path', '').split('::')[-1] in ('Result', 'Option'):
        wrap = t['path'].split('::')[-1]
        vty = t['v'][0 if wrap == 'Result' else 1]['f'][0][1]
    if E.T[vty].get('path', '').endswith('HashMap'):
        return collect_map(E, S, it, vty)
    if not E.is_seq_ty(vty):
        return None
    if it[1] == 'flat_map':
        r = flat_collect(E, S, it, E.elem_ty(vty))
        if r is None:
            return None
        key, others, S = r
        return others + [('ret', S, key if key[0] == 'v' else ('y', vty, key))]
    if not wrap and it[1] == 'vi' and it[3] == I0:
        return ret(S, ('v', E.seq_parts(it[2])))
    if not wrap and it[1] == 'cloned' and it[2][1] == 'sl':
        b = it[2]
        return ret(S, ('v', E.slice_parts(S, E.seq_parts(E.load(S, b[2])), b[3], b[4])))
    if not wrap:
        r = comp_collect(E, S, it, vty)
        if r is not None:
            return r
    acc = E.alloc(S, ('v', ()), vty)

    def body(s, x):
        if wrap:
            out = []
            good = 0 if wrap == 'Result' else 1
            for s2, var in E.fork_variants(s, x):
                if var == good:
                    E.store(s2, acc, ('v', E.seq_parts(E.load(s2, acc)) + (('e', E.proj(s2, x, ('vf', var, 0))),)))
                    out.append(('back', s2, None))
                else:
                    out.append(('exit', s2, E.none(dty) if wrap == 'Option' else E.err(dty, E.proj(s2, x, ('vf', 1, 0)))))
            return out
        E.store(s, acc, ('v', E.seq_parts(E.load(s, acc)) + (('e', x),)))
        return [('back', s, None)]
    res = []
    for k, s, v in consume(E, S, it, body, 'collect'):
        if k != 'exit':
            res.append((k, s, v))
        elif v is not None:
            res.append(('ret', s, v))
        else:
            x = E.load(s, acc)
            if not wrap and x[0] == 'y' and x[2][0] == 'phi':
                remember_source(E, s, E.loops[x[2][1]], acc, it, x)
            res.append(('ret', s, x if not wrap else E.ok(dty, x) if wrap == 'Result' else E.some(dty, x)))
    return res


@model('Iterator::partition')
def m_partition(E, S, cal, args, dty):
    it = src_it(E, S, args[0])
    t = E.T[dty]
    if it is None or t['k'] != 'tuple' or len(t['el']) != 2 or not all(E.is_seq_ty(x) for x in t['el']):
        return None
    acc = [E.alloc(S, ('v', ()), x) for x in t['el']]
    f = args[1]
    if f[0] == 'clo':
        f = E.alloc(S, f, f[2])

    def body(s, x):
        out = []
        xr = E.alloc(s, x, E.elem_ty(t['el'][0]))
        for k, s2, b in E.call_value(s, f, [xr], E.BOOL):
            if k != 'ret':
                out.append((k, s2, b))
                continue
            for s3, good in E.fork(s2, b):
                a = acc[0 if good else 1]
                E.store(s3, a, ('v', E.seq_parts(E.load(s3, a)) + (('e', E.load(s3, xr)),)))
                out.append(('back', s3, None))
        return out
    return [('ret', s, ('t', tuple(E.load(s, a) for a in acc))) if k == 'exit' else (k, s, v)
            for k, s, v in consume(E, S, it, body, 'partition')]


@model('Peekable::peek')
def m_peek(E, S, cal, args, dty):
    r = flatref_it(E, S, args[0])
    it = E.load(S, r) if r is not None else None
    base = it
    while base is not None and base[0] == 'it' and base[1] in ('cloned', 'enumerate'):
        base = base[2]
    if base is None or base[0] != 'it' or base[1] not in ('sl', 'vi', 'ch', 'rg'):
        return None
    out = []
    for s, w, v, nx in it_step(E, S, it):
        if w == 'item':
            out.append(('ret', s, E.some(dty, E.alloc(s, v, E.guess_ty(v)))))
        elif w == 'end':
            out.append(('ret', s, E.none(dty)))
        else:
            return None
    return out


@model('BytesMut::split', 'BytesMut::split_off', 'BytesMut::split_to', 'Bytes::split_off', 'Bytes::split_to')
def m_bytes_split(E, S, cal, args, dty):
    op = short(cal['decl'])[-1]
    r = flatref(E, S, args[0])
    v = E.load(S, r)
    n = E.seq_len(v)
    if op == 'split':
        E.store(S, r, ('v', ()))
        return ret(S, v)
    out = []
    for s, good in E.fork(S, E.cmp(S, 'Le', args[1], n)):
        if not good:
            out.append(('panic', s, E.panic_info(op)))
            continue
        a = ('v', E.slice_parts(s, E.seq_parts(v), I0, args[1]))
        b = ('v', E.slice_parts(s, E.seq_parts(v), args[1], n))
        E.store(s, r, b if op == 'split_to' else a)
        out.append(('ret', s, a if op == 'split_to' else b))
    return out


def deref_item(E, S, tgt, x):
    """Vec<T>::extend(&[T]) copies references."""
    if x[0] != 'r':
        return False
    ty = E.root_type(S, tgt[1])
    for st in tgt[2]:
        ty = E.step_type(ty, st) if ty is not None else None
    if ty is None:
        return False
    return E.T[E.elem_ty(ty)]['k'] not in ('ref', 'ptr')


def collect_map(E, S, it, vty):
    mid = new_map(E, S, vty)

    def body(s, x):
        out = []
        k = E.proj(s, x, ('f', 0))
        for s2, old in map_insert(E, s, mid, k, E.proj(s, x, ('f', 1))):
            out.append(('back', s2, None))
        return out
    return [('ret', s, mid) if k == 'exit' else (k, s, v) for k, s, v in consume(E, S, it, body, 'collect map')]


@model('Iterator::size_hint')
def m_size_hint(E, S, cal, args, dty):
    return ret(S, E.fresh(dty, 'size_hint'))


@model('ExactSizeIterator::len', 'Iterator::len')
def m_it_len(E, S, cal, args, dty):
    v = deref(E, S, args[0])
    if v[0] == 'it' and v[1] in ('sl', 'vi'):
        return ret(S, sub(v[4], v[3]))
    return None


# ---------------------------------------------------------------- futures, tasks, channels
@model('future::get_context')
def m_get_context(E, S, cal, args, dty):
    return ret(S, ('y', dty, ('cx',)))


def run_future(E, S, r):
    """Run a future to completion: [(kind, S, output)]."""
    v = E.load(S, r)
    n = 0
    while v[0] in ('r', 'box') or (v[0] == 's' and E.T[v[1]].get('path', '').endswith('Pin')):
        r = E.as_ref(v)
        v = E.load(S, r)
        n += 1
        if n > 6:
            break
    if v[0] == 'co':
        return E.run_body(S, v[1], [v, ('y', E.USIZE, ('cx',))])
    if v[0] == 'fut':
        if S.locks:
            E.alert(S, 'await-locked', S.locks, E.where())
        return v[1](E, S, v)
    if v[0] == 'y' and E.T[v[1]].get('path', '').endswith('oneshot::Receiver'):
        ot = E.fut_output(v[1])
        if ot is None:
            return None
        x = E.sym(ot, ('answer', v))
        S.ev('orecv', v, x)
        return ret(S, x)
    return None


@model('Future::poll')
def m_poll(E, S, cal, args, dty):
    if S.locks:
        E.alert(S, 'await-locked', S.locks, E.where())
    r = E.as_ref(args[0])
    outs = run_future(E, S, r)
    if outs is None:
        ot = E.T[dty]['v'][0]['f'][0][1]
        E.unknown['poll ' + (cal.get('path') or cal['decl'])] = E.unknown.get('poll ' + (cal.get('path') or ''), 0) + 1
        v = E.load(S, r)
        return ret(S, ('s', dty, 0, (E.fresh(ot, 'await'),)))
    return [('ret', s, ('s', dty, 0, (v,))) if k == 'ret' else (k, s, v) for k, s, v in outs]


def spawn(E, S, fut, kind='spawn'):
    tid = ('task', next(E.cnt))
    S.ev(kind, tid, fut)
    c = S.copy()
    c.log, c.locks = (), ()
    r = E.alloc(c, fut, fut[2] if fut[0] == 'co' else None)
    n0 = set(E.loops)
    outs = run_future(E, c, r)
    E.tasks[tid] = {'fut': fut, 'outs': outs, 'state': S.copy(), 'where': E.where(), 'loops': set(E.loops) - n0,
                    'stack': tuple((n, l) for n, l in E.stack)}
    if outs is None:
        S.ev('task-unknown', tid)
    return tid


@model('tokio::spawn', 'spawn::spawn', 'task::spawn')
def m_spawn(E, S, cal, args, dty):
    tid = spawn(E, S, args[0])
    return ret(S, ('y', dty, tid))


@model('tokio::task::spawn_local', 'task::spawn_blocking', 'thread::spawn', 'Runtime::spawn', 'Handle::spawn')
def m_spawn2(E, S, cal, args, dty):
    S.ev('spawn-other', args[0])
    return ret(S, E.fresh(dty, 'spawn'))


@model('JoinHandle::abort', 'AbortHandle::abort')
def m_abort(E, S, cal, args, dty):
    S.ev('abort', deref(E, S, args[0]))
    return ret(S, UNIT)


@model('support::maybe_done', 'maybe_done::maybe_done', 'future::maybe_done')
def m_maybe_done(E, S, cal, args, dty):
    tid = spawn(E, S, args[0], 'join')
    return ret(S, ('y', dty, tid))


@model('support::poll_fn', 'poll_fn::poll_fn', 'future::poll_fn')
def m_poll_fn(E, S, cal, args, dty):
    return ret(S, ('fut', fut_pollfn, args[0], dty))


def fut_pollfn(E, S, f):
    clo = f[2]
    b = E.bodies.get(clo[1]) if clo[0] == 'clo' else None
    if b is None:
        raise AnalysisError('poll_fn')
    pt = b['locals'][0]
    ot = E.T[pt]['v'][0]['f'][0][1]
    if '__tokio_select_util' in E.T[ot].get('path', ''):
        return select(E, S, clo, b, ot)
    S.ev('poll-fn', clo)
    return ret(S, E.fresh(ot, 'poll_fn'))


def select(E, S, clo, b, ot):
    """tokio::select!: the futures run until one of them ends; the value of one of them is taken."""
    futs = None
    for v in clo[3] if len(clo) > 3 else ():
        for _ in range(4):
            if v[0] != 'r':
                break
            v = deref(E, S, v)
        if v[0] == 't':
            futs = v[1:][0] if v[1:] and isinstance(v[1], tuple) and v[1] and isinstance(v[1][0], tuple) else v[1:]
    calls = [t[1]['decl'].split('::')[-1] for _, t, _ in b['blocks'] if t[0] == 'call' and isinstance(t[1], dict) and 'decl' in t[1]]
    reads = sum(1 for st, _, _ in b['blocks'] for x in st if x[0] == 'a' and x[2][0] == 'discr')
    vs = E.T[ot]['v']
    n = len(vs) - 1
    if futs is None or len(futs) != n or calls.count('poll') != n:
        raise AnalysisError('select!')
    if reads != n + 1:
        raise AnalysisError('select! with refutable patterns')
    for x in futs:
        spawn(E, S, x, 'join')
    S.ev('select', n)
    return [('ret', s, ('s', ot, i, (E.fresh(vs[i]['f'][0][1], 'select'),)))
            for i in range(n) for s in (S.copy() if i + 1 < n else S,)]


@model('time::sleep', 'sleep::sleep')
def m_sleep(E, S, cal, args, dty):
    return ret(S, ('fut', fut_sleep, args[0]))


def fut_sleep(E, S, f):
    S.ev('sleep', f[2])
    return ret(S, UNIT)


@model('time::sleep_until', 'time::timeout', 'time::interval', 'Interval::tick')
def m_timer(E, S, cal, args, dty):
    return None


@model('Duration::from_millis', 'Duration::from_micros', 'Duration::from_secs', 'Duration::from_nanos')
def m_dur(E, S, cal, args, dty):
    u = {'from_millis': 10**6, 'from_micros': 1000, 'from_secs': 10**9, 'from_nanos': 1}[short(cal['decl'])[-1]]
    return ret(S, ('y', dty, ('dur', scale(args[0], u))))


@model('Duration::as_micros', 'Duration::as_millis', 'Duration::as_secs', 'Duration::as_nanos', 'Duration::subsec_nanos',
       'Duration::subsec_micros')
def m_dur_as(E, S, cal, args, dty):
    return ret(S, E.sym(dty, ('duras', short(cal['decl'])[-1], deref(E, S, args[0]))))


@model('UnboundedSender::send', 'mpsc::UnboundedSender::send')
def m_usend(E, S, cal, args, dty):
    ch = deref(E, S, args[0])
    S.ev('send', ch, E.freeze(S, args[1]))
    for h in E.send_hooks:
        h(E, S, ch, S.log[-1][2])
    return ret(S, E.sym(dty, ('sendres', next(E.cnt))))


@model('mpsc::Sender::send')
def m_send(E, S, cal, args, dty):
    return ret(S, ('fut', fut_send, deref(E, S, args[0]), E.freeze(S, args[1]), dty))


def fut_send(E, S, f):
    S.ev('chsend', f[2], f[3])
    rt = E.find_result_unit(f[4])
    if rt is not None and E.pica_alive(f[2]):
        return ret(S, E.ok(rt, UNIT))
    return ret(S, E.fresh(rt, 'sendres') if rt is not None else UNIT)


@model('mpsc::Sender::try_send', 'mpsc::Sender::blocking_send')
def m_try_send(E, S, cal, args, dty):
    op = short(cal['decl'])[-1]
    S.ev('trysend' if op == 'try_send' else 'blocking', deref(E, S, args[0]), E.freeze(S, args[1]))
    return ret(S, E.sym(dty, ('sendres', next(E.cnt))))


@model('oneshot::Sender::send')
def m_oneshot(E, S, cal, args, dty):
    S.ev('oneshot', args[0], E.freeze(S, args[1]))
    return ret(S, E.sym(dty, ('sendres', next(E.cnt))))


@model('broadcast::Sender::send')
def m_bsend(E, S, cal, args, dty):
    S.ev('event', deref(E, S, args[0]), E.freeze(S, args[1]))
    return ret(S, E.sym(dty, ('sendres', next(E.cnt))))


@model('broadcast::Sender::subscribe', 'broadcast::Receiver::resubscribe')
def m_subscribe(E, S, cal, args, dty):
    S.ev('subscribe', deref(E, S, args[0]))
    return ret(S, ('y', dty, ('subscription', deref(E, S, args[0]))))


@model('mpsc::channel', 'mpsc::unbounded_channel', 'oneshot::channel', 'broadcast::channel')
def m_channel(E, S, cal, args, dty):
    n = next(E.cnt)
    t = E.T[dty]
    S.ev('channel', '::'.join(short(cal['decl'])[-2:]), n)
    return ret(S, ('t', (('y', t['el'][0], ('chan', n, 0)), ('y', t['el'][1], ('chan', n, 1)))))


def fut_recv(E, S, f):
    """Receive: unknown value; the sequence of receptions is logged."""
    n = next(E.cnt)
    v = E.sym(f[3], ('recv', n))
    S.ev('recv', f[2], n, E.load(S, f[2]) if f[2][0] == 'r' else f[2], v)
    for h in E.recv_hooks:
        h(E, S, E.load(S, f[2]) if f[2][0] == 'r' else f[2], v)
    return ret(S, v)


@model('mpsc::Sender::capacity', 'mpsc::Sender::max_capacity', 'mpsc::Sender::is_closed', 'UnboundedSender::is_closed', 'mpsc::Receiver::len',
       'mpsc::Receiver::is_empty', 'mpsc::Receiver::capacity', 'mpsc::Receiver::is_closed', 'broadcast::Sender::receiver_count',
       'broadcast::Sender::len', 'broadcast::Sender::is_empty', 'oneshot::Sender::is_closed')
def m_channel_state(E, S, cal, args, dty):
    return ret(S, E.fresh(dty, 'chanstate'))


@model('mpsc::Receiver::try_recv', 'UnboundedReceiver::try_recv', 'broadcast::Receiver::try_recv')
def m_try_recv(E, S, cal, args, dty):
    n = next(E.cnt)
    v = E.sym(dty, ('recv', n))
    chan = deref(E, S, args[0])
    S.ev('recv', args[0], n, chan, v)
    for h in E.recv_hooks:
        h(E, S, chan, v)
    return ret(S, v)


def out_of_future(E, dty, cal):
    """Output type of the future returned by a call, from the poll instance seen in the crate."""
    return E.fut_output(dty)


@model('mpsc::Receiver::recv', 'UnboundedReceiver::recv', 'broadcast::Receiver::recv', 'StreamExt::next')
def m_recv(E, S, cal, args, dty):
    ot = E.fut_output(dty)
    if ot is None:
        return None
    return ret(S, ('fut', fut_recv, args[0], ot))


@model('SinkExt::send')
def m_sink_send(E, S, cal, args, dty):
    ot = E.fut_output(dty)
    return ret(S, ('fut', fut_sink, args[0], E.freeze(S, args[1]), ot))


def fut_sink(E, S, f):
    v = E.sym(f[4], ('sendres', next(E.cnt)))
    S.ev('sink', f[2], f[3], v)
    return ret(S, v)


@model('AsyncReadExt::read_exact', 'AsyncWriteExt::write_all')
def m_aread(E, S, cal, args, dty):
    ot = E.fut_output(dty)
    return ret(S, ('fut', fut_io, short(cal['decl'])[-1], args[0], args[1], ot))


def fut_io(E, S, f):
    op, me, buf, ot = f[2], f[3], f[4], f[5]
    rs = E.sym(ot, ('iores', next(E.cnt)))
    r = flatref(E, S, buf)
    v = E.load(S, r)
    if op == 'write_all':
        S.ev('awrite', me, E.freeze(S, v), rs)
        return ret(S, rs)
    n = next(E.cnt)
    ln = E.seq_len(v)
    data = ('y', E.ty('std::vec::Vec<u8>'), ('net', n))
    S.ev('aread', me, n, ln, rs)
    E.assume_eq(S, E.sym_len(data), ln)
    E.store(S, r, ('v', (('q', data, I0, ln),)))
    return ret(S, rs)


@model('AsyncReadExt::read', 'AsyncReadExt::read_buf', 'AsyncReadExt::read_to_end', 'AsyncWriteExt::write', 'AsyncWriteExt::write_buf',
       'AsyncWriteExt::flush', 'AsyncWriteExt::shutdown')
def m_apart(E, S, cal, args, dty):
    ot = E.fut_output(dty)
    return ret(S, ('fut', fut_apart, short(cal['decl'])[-1], args, ot)) if ot is not None else None


def fut_apart(E, S, f):
    op, args, ot = f[2], f[3], f[4]
    rs = E.sym(ot, ('iores', next(E.cnt)))
    ev = 'flush' if op in ('flush', 'shutdown') else 'part'
    S.ev('a' + ev, args[0], op, rs)
    if op == 'read':
        r = flatref(E, S, args[1])
        ln = E.seq_len(E.load(S, r))
        data = ('y', E.ty('std::vec::Vec<u8>'), ('net', next(E.cnt)))
        E.assume_eq(S, E.sym_len(data), ln)
        E.store(S, r, ('v', (('q', data, I0, ln),)))
    elif op in ('read_buf', 'read_to_end'):
        raise AnalysisError(op)
    return ret(S, rs)


# ---------------------------------------------------------------- locks
@model('Mutex::new', 'RwLock::new')
def m_mutex_new(E, S, cal, args, dty):
    return ret(S, ('mutex', args[0], dty))


@model('Mutex::lock', 'RwLock::read', 'RwLock::write', 'Mutex::try_lock', 'Mutex::get_mut')
def m_lock(E, S, cal, args, dty):
    r = flatref(E, S, args[0])
    v = E.load(S, r)
    if v[0] == 'arc':
        r = v[1]
        v = E.load(S, r)
    if v[0] == 'mutex':
        lock = ('lock', r[1], r[2])
    else:
        lock = ('lock', v)
    op = short(cal['decl'])[-1]
    if lock in S.locks:
        E.alert(S, 'deadlock', lock, E.where())
    ep = next(E.cnt)
    S.ev('lock', lock, ep)
    S.locks = S.locks + (lock,)
    # dty: Result<MutexGuard<T>, PoisonError<..>>
    gt = E.T[dty]['v'][0]['f'][0][1]
    it = E.T[gt]['args'][-1] if E.T[gt].get('args') else None
    if v[0] == 'mutex':
        content = ('r', ('H', ep), ())
        S.mem[('H', ep)] = v[1]
    else:
        root = ('K', lock, ep)
        E.rty[root] = it
        S.mem[root] = E.sym(it, ('locked', lock, ep))
        content = ('r', root, ())
        for h in E.lock_hooks:
            h(E, S, lock, content, it)
    return ret(S, E.ok(dty, ('guard', content, lock)))


# ---------------------------------------------------------------- io, paths, time
@model('Write::write_all', 'Write::write', 'Write::flush')
def m_write(E, S, cal, args, dty):
    op = short(cal['decl'])[-1]
    data = E.freeze(S, deref(E, S, args[1])) if len(args) > 1 else None
    me = flatref(E, S, args[0])
    mv = E.load(S, me)
    if mv[0] == 'guard':
        me = E.as_ref(mv)
    v = E.sym(dty, ('iores', next(E.cnt)))
    S.ev('io-' + op, (me[1], me[2]), data, S.locks, v)
    return ret(S, v)


@model('io::Error::kind')
def m_errkind(E, S, cal, args, dty):
    return None


@model('File::create', 'File::open', 'OpenOptions::open')
def m_fcreate(E, S, cal, args, dty):
    v = E.sym(dty, ('iores', next(E.cnt)))
    S.ev('file-' + short(cal['decl'])[-1], E.freeze(S, deref(E, S, args[-1])), v)
    return ret(S, v)


@model('Path::join', 'PathBuf::join', 'Path::new', 'Path::to_path_buf')
def m_path(E, S, cal, args, dty):
    if E.T[dty]['k'] == 'ref':
        return ret(S, args[0])
    return ret(S, ('y', dty, ('path',) + tuple(E.freeze(S, deref(E, S, a)) for a in args)))


@model('FnOnce::call_once', 'FnMut::call_mut', 'Fn::call')
def m_fncall(E, S, cal, args, dty):
    f = args[0]
    a = args[1]
    xs = list(a[1]) if a[0] == 't' else [a]
    fv = E.load(S, f) if f[0] == 'r' else f
    if fv[0] in ('clo', 'fn', 'pyfn') or (fv[0] == 'r'):
        return E.call_value(S, f, xs, dty)
    return None


@model('RangingEstimator::estimate')
def m_estimate(E, S, cal, args, dty):
    l, r = deref(E, S, args[1]), deref(E, S, args[2])
    S.ev('estimate', l, r)
    return ret(S, E.sym(dty, ('est', l, r)))


@model('Instant::now', 'SystemTime::now', 'Instant::elapsed', 'Instant::duration_since')
def m_now(E, S, cal, args, dty):
    return ret(S, E.fresh(dty, 'time'))
