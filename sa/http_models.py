"""Abstract semantics of the libraries of the HTTP server (hyper, serde_json, tokio-stream, glam) and of strings.

Values:  ('uri', req) / ('path', uri)       uri and path of a request (symbols)
         ('trim', str, sep)                 a string without leading separators
         ('segs', str, sep)                 its parts
         ('resp', status, headers, body)    a response
         ('body', v) / ('stream', v)        a response body
         ('json', type, bytes)              result of parsing, ('tojson', v) a serialization
         ('macparse', str)                  result of parsing an address
"""
import models
from engine import I, I0, I1, UNIT, AnalysisError, add
from models import model, ret, deref, short, flatref


def tail(E, ty):
    return E.T[ty].get('path', E.T[ty]['s']).split('::')[-1]


def immut(E, v):
    return ('r', ('V', v), ())


def lit(v):
    """Text of a literal, else None."""
    return v[1] if v[0] == 'str' else None


# ---------------------------------------------------------------- requests
@model('Request::uri', 'Request::uri_mut')
def m_uri(E, S, cal, args, dty):
    return ret(S, immut(E, ('y', E.T[dty]['to'], ('uri', deref(E, S, args[0])))))


@model('Request::body_mut', 'Request::body', 'Request::into_body')
def m_body(E, S, cal, args, dty):
    q = ('reqbody', deref(E, S, args[0]))
    if E.T[dty]['k'] == 'ref':
        return ret(S, immut(E, ('y', E.T[dty]['to'], q)))
    return ret(S, ('y', dty, q))


@model('Request::method')
def m_method(E, S, cal, args, dty):
    return ret(S, immut(E, ('y', E.T[dty]['to'], ('method', deref(E, S, args[0])))))


@model('Uri::path')
def m_path(E, S, cal, args, dty):
    return ret(S, immut(E, ('y', E.T[dty]['to'], ('path', deref(E, S, args[0])))))


@model('body::to_bytes')
def m_to_bytes(E, S, cal, args, dty):
    ot = E.fut_output(dty)
    if ot is None:
        return None
    return ret(S, ('fut', fut_bytes, deref(E, S, args[0]), ot))


def fut_bytes(E, S, f):
    v = E.sym(f[3], ('received', f[2]))
    S.ev('body', v)
    return ret(S, v)


# ---------------------------------------------------------------- strings
def sep_of(E, S, v):
    v = deref(E, S, v)
    if v[0] == 'i':
        return chr(v[1])
    return lit(v)


@model('str::trim_start_matches', 'str::trim_left_matches')
def m_trim(E, S, cal, args, dty):
    sep = sep_of(E, S, args[1])
    s = deref(E, S, args[0])
    if sep is None:
        return None
    if lit(s) is not None:
        x = lit(s)
        while sep and x.startswith(sep):
            x = x[len(sep):]
        return ret(S, immut(E, ('str', x)))
    return ret(S, immut(E, ('y', E.T[dty]['to'], ('trim', s, sep))))


@model('str::split')
def m_str_split(E, S, cal, args, dty):
    sep = sep_of(E, S, args[1])
    s = deref(E, S, args[0])
    vty = next((t['i'] for t in E.T if t['s'] == 'std::vec::Vec<&str>'), None)
    if sep is None or vty is None or s[0] != 'y':
        return None
    seq = ('y', vty, ('segs', s, sep))
    n = E.sym_len(seq)
    E.assume_le(S, I1, n)
    return ret(S, ('it', 'vi', seq, I0, n))


@model('str::as_bytes', 'str::as_str', 'String::as_str', 'str::to_owned', 'String::from', 'str::into_string', 'String::into_bytes')
def m_same_str(E, S, cal, args, dty):
    v = deref(E, S, args[0])
    return ret(S, immut(E, v) if E.T[dty]['k'] == 'ref' else v)


# ---------------------------------------------------------------- responses
def status_of(v):
    while v[0] == 's' and len(v[3]) == 1:
        v = v[3][0]
    return v


@model('Response::builder')
def m_builder(E, S, cal, args, dty):
    return ret(S, ('y', dty, ('rb', I(200), ())))


@model('Builder::status')
def m_status(E, S, cal, args, dty):
    b = deref(E, S, args[0])
    if b[0] != 'y' or b[2][0] != 'rb':
        return None
    return ret(S, ('y', dty, ('rb', status_of(E.freeze(S, args[1])), b[2][2])))


@model('Builder::header')
def m_header(E, S, cal, args, dty):
    b = deref(E, S, args[0])
    if b[0] != 'y' or b[2][0] != 'rb':
        return None
    h = tuple(E.freeze(S, deref(E, S, x)) for x in args[1:3])
    return ret(S, ('y', dty, ('rb', b[2][1], b[2][2] + (h,))))


@model('Builder::body')
def m_rbody(E, S, cal, args, dty):
    b = deref(E, S, args[0])
    if b[0] != 'y' or b[2][0] != 'rb':
        return None
    _, st, hs = b[2]
    ok = ('y', E.T[dty]['v'][0]['f'][0][1], ('resp', st, hs, E.freeze(S, deref(E, S, args[1]))))
    good = not (st[0] == 'i' and not 100 <= st[1] <= 999)
    for n, v in hs:
        if lit(n) is None or not lit(n) or not all(c.isalnum() or c in "!#$%&'*+-.^_`|~" for c in lit(n)):
            good = False
        if lit(v) is None or not all(32 <= ord(c) < 127 or c == '\t' for c in lit(v)):
            good = False
    if good:
        return ret(S, E.ok(dty, ok))
    return [('ret', S, E.ok(dty, ok)), ('ret', S.copy(), E.err(dty, E.fresh(E.T[dty]['v'][1]['f'][0][1], 'resperr')))]


@model('Response::new')
def m_resp_new(E, S, cal, args, dty):
    return ret(S, ('y', dty, ('resp', I(200), (), E.freeze(S, deref(E, S, args[0])))))


@model('Response::status_mut', 'Response::headers_mut', 'Response::body_mut')
def m_resp_mut(E, S, cal, args, dty):
    r = models.flatref(E, S, args[0])
    v = E.load(S, r)
    op = short(cal['decl'])[-1]
    if v[0] != 'y' or v[2][0] != 'resp' or op == 'headers_mut':
        return None
    return ret(S, ('r', r[1], r[2] + (('#', 2), ('#', 1 if op == 'status_mut' else 3))))


@model('Body::empty')
def m_body_empty(E, S, cal, args, dty):
    return ret(S, ('y', dty, ('body', ('str', ''))))


@model('Body::wrap_stream')
def m_wrap(E, S, cal, args, dty):
    return ret(S, ('y', dty, ('stream', E.freeze(S, args[0]))))


@model('BroadcastStream::new')
def m_bstream(E, S, cal, args, dty):
    return ret(S, ('y', dty, ('bstream', E.freeze(S, args[0]))))


@model('StreamExt::map', 'StreamExt::filter_map', 'StreamExt::filter', 'StreamExt::map_ok', 'TryStreamExt::map_ok')
def m_smap(E, S, cal, args, dty):
    return ret(S, ('y', dty, ('s' + short(cal['decl'])[-1], E.freeze(S, args[0]), E.freeze(S, args[1]))))


def into_body(E, S, v, dty):
    """&str, String, Vec<u8> into a body; None if it is another conversion."""
    if E.T[dty].get('path', E.T[dty]['s']).split('::')[-1] != 'Body':
        return None
    x = deref(E, S, v)
    return ('y', dty, ('body', E.freeze(S, x)))


# ---------------------------------------------------------------- json and addresses
@model('serde_json::from_slice', 'serde_json::from_str', 'serde_json::from_reader')
def m_from_json(E, S, cal, args, dty):
    return ret(S, E.sym(dty, ('json', dty, E.freeze(S, deref(E, S, args[0])))))


@model('serde_json::to_string', 'serde_json::to_vec')
def m_to_json(E, S, cal, args, dty):
    v = deref(E, S, args[0])
    return ret(S, E.ok(dty, ('y', E.T[dty]['v'][0]['f'][0][1], ('tojson', E.freeze(S, v)))))


@model('Error::classify')
def m_classify(E, S, cal, args, dty):
    return ret(S, E.sym(dty, ('classify', deref(E, S, args[0]))))


@model('Error::is_eof', 'Error::is_data', 'Error::is_syntax', 'Error::is_io')
def m_is_eof(E, S, cal, args, dty):
    ct = next((t['i'] for t in E.T if t.get('path', '').endswith('serde_json::error::Category')), None)
    want = {'is_eof': 'Eof', 'is_data': 'Data', 'is_syntax': 'Syntax', 'is_io': 'Io'}[short(cal['decl'])[-1]]
    if ct is None:
        return ret(S, ('y', dty, ('is' + want, deref(E, S, args[0]))))
    v = E.sym(ct, ('classify', deref(E, S, args[0])))
    return ret(S, models.isv(E, S, v, [E.variant_index(ct, want)]))


@model('MacAddress::new')
def m_mac_new(E, S, cal, args, dty):
    return ret(S, E.sym(dty, ('macparse', deref(E, S, args[0]))))


# ---------------------------------------------------------------- floats
FOPS = {'abs', 'sqrt', 'atan', 'atan2', 'asin', 'acos', 'sin', 'cos', 'tan', 'hypot', 'signum', 'to_degrees', 'to_radians',
        'round', 'floor', 'ceil', 'trunc', 'powi', 'powf', 'min', 'max', 'clamp', 'rem_euclid', 'mul_add', 'is_nan', 'is_finite',
        'copysign', 'is_sign_negative', 'is_sign_positive'}


def m_float(E, S, cal, args, dty):
    op = short(cal['decl'])[-1]
    xs = tuple(deref(E, S, a) for a in args)
    return ret(S, ('y', dty, ('fop', op) + xs))


for _n in FOPS:
    models.MODELS['f32::' + _n] = m_float
    models.MODELS['f64::' + _n] = m_float


# ---------------------------------------------------------------- vectors
@model('Vec3::new', 'Vec3A::new', 'Quat::from_euler', 'Quat::from_xyzw')
def m_vec3(E, S, cal, args, dty):
    return ret(S, ('y', dty, ('glam', '::'.join(short(cal['decl'])[-2:])) + tuple(E.freeze(S, a) for a in args)))


@model('Vec3::to_array', 'Vec3A::to_array')
def m_to_array(E, S, cal, args, dty):
    v = deref(E, S, args[0])
    if v[0] == 'y' and v[2][:1] == ('glam',) and v[2][1].endswith('::new') and len(v[2]) == 5:
        return ret(S, ('a', v[2][2:]))
    return ret(S, ('a', tuple(E.sym_field(S, v, 0, i) for i in range(3))))


@model('Vec3::from_array', 'Vec3A::from_array')
def m_from_array(E, S, cal, args, dty):
    v = deref(E, S, args[0])
    if v[0] != 'a' or len(v[1]) != 3:
        return None
    return ret(S, ('y', dty, ('glam', 'Vec3::new') + tuple(E.freeze(S, a) for a in v[1])))


@model('Vec3::length', 'Vec3::length_squared', 'Vec3::distance', 'Vec3::distance_squared', 'Quat::mul_vec3', 'Quat::inverse',
       'Quat::normalize', 'Vec3::normalize', 'Vec3::dot', 'Vec3::abs', 'Quat::to_euler', 'Quat::conjugate', 'Quat::mul_quat')
def m_glam(E, S, cal, args, dty):
    return ret(S, E.sym(dty, ('glam', '::'.join(short(cal['decl'])[-2:])) + tuple(E.freeze(S, deref(E, S, a)) for a in args)))


@model('Sub::sub', 'Add::add', 'Mul::mul', 'Neg::neg', 'Div::div')
def m_vec_op(E, S, cal, args, dty):
    if not E.T[dty].get('path', '').startswith('glam'):
        return None
    return ret(S, ('y', dty, ('glam', short(cal['decl'])[-1]) + tuple(E.freeze(S, deref(E, S, a)) for a in args)))


# ---------------------------------------------------------------- errors
def m_anyhow(E, S, cal, args, dty):
    return ret(S, E.fresh(dty, 'anyhow'))


def is_anyhow(cal, path, decl):
    return any(p.startswith(('anyhow::private::', 'anyhow::kind::', 'anyhow::__private::', 'anyhow::Error::')) for p in (path, decl))
