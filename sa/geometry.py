"""C25: the geometry functions do not panic, and the distance of two devices is the same in both directions.

Floating point terms are evaluated in an interval domain.  The components of the direction to the other device are split
by sign (negative, zero, positive); a path is infeasible if one of its conditions cannot hold in any of these cells.  It
is reported if all its conditions hold throughout a cell."""
import itertools
import math
import struct
import models
from engine import AnalysisError, St

TINY, BIG = 1e-45, 3e5
MAY = ((-BIG, -TINY), (0.0, 0.0), (TINY, BIG))
MUST = ((-20.0, -10.0), (-1.5, -1.0), (0.0, 0.0), (1.0, 1.5), (10.0, 20.0))
INF = math.inf
NAN = (INF, -INF, True)


class Unknown(Exception):
    pass


class Empty(Exception):
    """No value is left for a term."""


def const(v):
    return struct.unpack('<f', struct.pack('<I', v[1] & 0xffffffff))[0]


def widen(lo, hi):
    e = 1e-6
    lo = lo - abs(lo) * e if abs(lo) != INF else lo
    hi = hi + abs(hi) * e if abs(hi) != INF else hi
    if 0 < lo < 1e-30:
        lo = 0.0
    if -1e-30 < hi < 0:
        hi = 0.0
    return lo, hi


def corners(f, a, b):
    out = []
    for x in a[:2]:
        for y in b[:2]:
            try:
                out.append(f(x, y))
            except (ZeroDivisionError, OverflowError, ValueError):
                return None
    if any(math.isnan(x) for x in out):
        return None
    return min(out), max(out)


class Intervals:
    """Interval (lo, hi, may be NaN) of a term in a cell and under facts."""

    def __init__(self, E, env, facts):
        self.E, self.env, self.facts, self.memo = E, env, facts, {}

    def ev(self, t):
        if t[0] == 'i':
            x = const(t)
            return (x, x, False)
        r = self.memo.get(t)
        if r is None:
            r = self.refine(t, self.raw(t))
            self.memo[t] = r
        return r

    def refine(self, t, r):
        lo, hi, nan = r
        for k, truth in self.facts:
            if k[0] == 'feq' and k[1] == t and k[2][0] == 'i':
                x = const(k[2])
                if truth:
                    lo, hi, nan = max(lo, x), min(hi, x), False
                else:
                    if lo == x:
                        lo = x + TINY
                    if hi == x:
                        hi = x - TINY
            elif k[0] == 'fop' and truth and k[2] == t and k[3][0] == 'i' and k[1] in ('Le', 'Lt', 'Ge', 'Gt'):
                x, nan = const(k[3]), False
                if k[1][0] == 'L':
                    hi = min(hi, x)
                else:
                    lo = max(lo, x)
        if lo > hi and not nan:
            raise Empty()
        return lo, hi, nan

    def raw(self, t):
        if t in self.env:
            return self.env[t] + (False,)
        k = t[2]
        if k[0] == 'cast' and k[1] == 'IntToFloat':
            if k[2][0] == 'i':
                return (float(k[2][1]),) * 2 + (False,)
            r = self.E.int_range(k[2][1]) if k[2][0] == 'y' else None
            if r is None:
                raise Unknown('cast')
            return (float(r[0]), float(r[1]), False)
        if k[0] == 'glam' and k[1] in ('Vec3::length', 'Vec3::length_squared', 'Vec3::distance', 'Vec3::distance_squared'):
            if k[1] in ('Vec3::length', 'Vec3::length_squared'):
                xs = [self.square(self.ev(x)) for x in comps(self.E, k[2])]
                lo, hi = sum(x for x, _ in xs), sum(x for _, x in xs)
                return widen(*((lo, hi) if k[1] == 'Vec3::length_squared' else (math.sqrt(lo), math.sqrt(hi)))) + (False,)
            return (0.0, BIG * BIG, False)
        if k[0] != 'fop':
            raise Unknown(k[0])
        op = k[1]
        a = [self.ev(x) for x in k[2:]] if op not in ('powi',) else [self.ev(k[2])]
        nan = any(x[2] for x in a)
        x = a[0]
        if NAN in a:
            if op not in ('min', 'max'):
                return NAN
            return a[0] if a[1] == NAN else a[1]
        if op in ('Add', 'Sub', 'Mul'):
            y = a[1]
            f = {'Add': lambda p, q: p + q, 'Sub': lambda p, q: p - q, 'Mul': lambda p, q: p * q}[op]
            if op == 'Mul' and k[2] == k[3]:
                lo, hi = self.square(x)
                return widen(lo, hi) + (nan,)
            r = corners(f, x, y)
            if r is None:
                return (-INF, INF, True)
            return widen(*r) + (nan,)
        if op == 'Div':
            y = a[1]
            if x == y == (0.0, 0.0, False):
                return NAN
            if y[0] > 0 or y[1] < 0:
                r = corners(lambda p, q: p / q, x, y)
                if r is None:
                    return (-INF, INF, True)
                # a quotient may overflow or underflow, but keeps its sign
                return widen(-INF if r[0] < -1e30 else r[0], INF if r[1] > 1e30 else r[1]) + (nan,)
            return (-INF, INF, nan or x[0] <= 0 <= x[1])
        if op == 'Neg':
            return (-x[1], -x[0], nan)
        if op == 'abs':
            lo = 0.0 if x[0] <= 0 <= x[1] else min(abs(x[0]), abs(x[1]))
            return (lo, max(abs(x[0]), abs(x[1])), nan)
        if op == 'sqrt':
            return widen(math.sqrt(max(0.0, x[0])), math.sqrt(max(0.0, x[1]))) + (nan or x[0] < 0,)
        if op == 'powi':
            if k[3] != ('i', 2):
                raise Unknown('powi')
            return widen(*self.square(x)) + (nan,)
        if op == 'hypot':
            r = math.hypot(max(abs(v) for v in x[:2]), max(abs(v) for v in a[1][:2]))
            return widen(0.0, r) + (nan,)
        if op == 'atan':
            return widen(math.atan(x[0]), math.atan(x[1])) + (nan,)
        if op == 'atan2':
            y = a[1]
            if x == (0.0, 0.0, False) and y[0] > 0:
                return (0.0, 0.0, nan)
            lo, hi = -math.pi, math.pi
            if y[0] >= 0:
                lo, hi = -math.pi / 2, math.pi / 2
            if x[0] > 0:
                lo = max(lo, 0.0)
            if x[1] < 0:
                hi = min(hi, 0.0)
            if (x[0] > 0 or x[1] < 0) and (y[0] > 0 or y[1] < 0):
                c = [math.atan2(p, q) for p in x[:2] for q in y[:2]]
                lo, hi = max(lo, min(c)), min(hi, max(c))
            return widen(lo, hi) + (nan,)
        if op in ('asin', 'acos'):
            f = math.asin if op == 'asin' else math.acos
            c = [f(min(1.0, max(-1.0, v))) for v in x[:2]]
            return widen(min(c), max(c)) + (nan or x[0] < -1 or x[1] > 1,)
        if op == 'signum':
            return (1.0, 1.0, nan) if x[0] > 0 else (-1.0, -1.0, nan) if x[1] < 0 else (-1.0, 1.0, nan)
        if op == 'copysign':
            m = max(abs(x[0]), abs(x[1]))
            return (0.0, m, nan) if a[1][0] > 0 else (-m, 0.0, nan) if a[1][1] < 0 else (-m, m, nan)
        if op in ('to_degrees', 'to_radians'):
            c = 180 / math.pi if op == 'to_degrees' else math.pi / 180
            return widen(x[0] * c, x[1] * c) + (nan,)
        if op in ('round', 'floor', 'ceil', 'trunc'):
            f = {'round': lambda v: math.copysign(math.floor(abs(v) + 0.5), v), 'floor': math.floor, 'ceil': math.ceil,
                 'trunc': math.trunc}[op]
            g = lambda v: v if abs(v) == INF else float(f(v))
            return (g(x[0]), g(x[1]), nan)
        if op in ('min', 'max'):
            y = a[1]
            f = min if op == 'min' else max
            if x[2] and y[2]:
                return (f(x[0], y[0]), f(x[1], y[1]), True)
            lo, hi = f(x[0], y[0]), f(x[1], y[1])
            for p, q in ((x, y), (y, x)):
                if p[2]:
                    lo, hi = min(lo, q[0]), max(hi, q[1])
            return (lo, hi, False)
        if op == 'clamp':
            lo, hi = a[1], a[2]
            return (min(max(x[0], lo[0]), hi[1]), max(min(x[1], hi[1]), lo[0]), nan)
        raise Unknown(op)

    @staticmethod
    def square(x):
        lo = 0.0 if x[0] <= 0 <= x[1] else min(x[0] * x[0], x[1] * x[1])
        return lo, max(x[0] * x[0], x[1] * x[1])

    def holds(self, k, truth):
        """(may the fact have this truth value, must it)"""
        if k[0] == 'not':
            return self.holds(k[1][2], not truth)
        if k[0] == 'feq':
            a, b = self.ev(k[1]), self.ev(k[2])
            can = a[0] <= b[1] and b[0] <= a[1]
            must = a[0] == a[1] == b[0] == b[1] and not a[2] and not b[2]
        elif k[0] == 'fop' and k[1] in ('Le', 'Lt', 'Ge', 'Gt', 'Ne', 'Eq'):
            a, b = self.ev(k[2]), self.ev(k[3])
            n = a[2] or b[2]
            op = k[1]
            if op in ('Ge', 'Gt'):
                a, b, op = b, a, {'Ge': 'Le', 'Gt': 'Lt'}[op]
            if op == 'Le':
                can, must = a[0] <= b[1], a[1] <= b[0] and not n
            elif op == 'Lt':
                can, must = a[0] < b[1], a[1] < b[0] and not n
            else:
                can, must = a[0] <= b[1] and b[0] <= a[1], a[0] == a[1] == b[0] == b[1] and not n
                if op == 'Ne':
                    can, must = not must, not can
        elif k[0] == 'fop' and k[1] == 'is_nan':
            a = self.ev(k[2])
            can, must = a[2], False
        elif k[0] == 'fop' and k[1] in ('is_sign_negative', 'is_sign_positive'):
            a = self.ev(k[2])
            can, must = a[0] <= 0, a[1] < 0
            if k[1].endswith('positive'):
                can, must = a[1] >= 0, a[0] > 0
        else:
            raise Unknown(k[0])
        if truth:
            return can, must
        return (not must, not can)


def comps(E, v):
    return [E.sym_field(None, v, 0, i) for i in range(3)]


def atoms(E, t, out):
    """The float symbols a term is built from: components of vectors."""
    if not isinstance(t, tuple) or not t:
        return
    if t[0] == 'y' and isinstance(t[1], int) and isinstance(t[2], tuple) and t[2][0] == 'fld' and E.T[t[1]]['s'] in ('f32', 'f64'):
        out.add(t)
        return
    if t[0] == 'y' and isinstance(t[2], tuple) and t[2][:1] == ('glam',) and t[2][1] in ('Vec3::length', 'Vec3::length_squared'):
        out.update(comps(E, t[2][2]))
        return
    for x in t:
        atoms(E, x, out)


def contains(t, pred):
    return isinstance(t, tuple) and (pred(t) or any(contains(x, pred) for x in t))


def flip(E, t, sw):
    """A term with the two positions exchanged."""
    if not isinstance(t, tuple):
        return t
    if t in sw:
        return sw[t]
    return tuple(flip(E, x, sw) for x in t)


def norm(t):
    """(sign, term) with the sign of differences factored out."""
    if not isinstance(t, tuple) or t[0] != 'y' or not isinstance(t[2], tuple):
        return 1, t
    k = t[2]
    y = lambda *a: ('y', t[1], a)
    if k[0] in ('fop', 'glam') and k[1] in ('Sub', 'sub'):
        (s, a), (r, b) = norm(k[2]), norm(k[3])
        a, b = (s, a), (r, b)
        if repr(b) < repr(a):
            return -1, y(k[0], k[1], b, a)
        return 1, y(k[0], k[1], a, b)
    if k[0] in ('fop', 'glam') and k[1] in ('Mul', 'mul', 'Div', 'div', 'Vec3::dot'):
        (s, a), (r, b) = norm(k[2]), norm(k[3])
        if k[1] not in ('Div', 'div') and repr(b) < repr(a):
            a, b = b, a
        return s * r, y(k[0], k[1], a, b)
    if k[0] == 'fld':
        s, a = norm(k[1])
        return s, y('fld', a, k[2])
    if k[0] == 'fop' and k[1] == 'Neg':
        s, a = norm(k[2])
        return -s, a
    if k[0] == 'fop' and k[1] in ('abs',) or k[0] == 'fop' and k[1] == 'powi' and k[3][0] == 'i' and k[3][1] % 2 == 0 \
            or k[0] == 'glam' and k[1] in ('Vec3::length', 'Vec3::length_squared', 'Vec3::abs'):
        return 1, y(k[0], k[1], norm(k[2])[1], *k[3:])
    if k[0] == 'glam' and k[1] in ('Vec3::distance', 'Vec3::distance_squared'):
        return 1, y(k[0], k[1], *sorted((norm(x) for x in k[2:]), key=repr))
    if k[0] == 'fop' and k[1] in ('Add', 'min', 'max', 'hypot'):
        return 1, y(k[0], k[1], *sorted((norm(x) for x in k[2:]), key=repr))
    if k[0] in ('fop', 'glam', 'cast'):
        return 1, y(k[0], k[1], *(norm(x) if isinstance(x, tuple) else x for x in k[2:]))
    return 1, t


class Geometry:
    def __init__(self, W, h):
        self.W, self.E, self.h = W, W.E, h

    def run(self):
        W, E, h = self.W, self.E, self.h
        h.what = 'range and angles'
        W.symmetric = True
        if len(W.geo) != 1:
            return h.gap('%d functions compute a measurement' % len(W.geo))
        b = E.bodies[next(iter(W.geo))]
        keep, W.geo = W.geo, set()
        try:
            S = St()
            args = [E.sym(t, ('arg', n, i)) for i, (t, n) in enumerate(zip(b['locals'][1:3], ('self', 'other')))]
            outs = E.run_body(S, b['id'], args)
        finally:
            W.geo = keep
        P = [E.sym(W.t['Position'], ('deref', a)) for a in args]
        self.sw = {P[0]: P[1], P[1]: P[0]}
        ranges = set()
        for o in outs:
            if o[0] == 'unk':
                h.gap(o[2])
            elif o[0] == 'panic':
                self.panic(o[1], o[2])
            elif o[0] == 'ret':
                if self.feasible(o[1], MAY)[0] is not False:
                    h.ok('panic', ('C25',))
                    ranges.add(E.freeze(o[1], o[2])[1][0])
        for r in ranges:
            rot = self.rotation(r)
            if norm(r) == norm(flip(E, r, self.sw)):
                h.ok('symmetric', ('C25',))
            elif rot:
                W.symmetric = False
            else:
                h.gap('the distance %s is not known to be the same in both directions' % W.show(r)[:200])
        if len(ranges) > 1:
            h.gap('the distance is computed in several ways')

    def rotation(self, r):
        W, E = self.W, self.E
        fs = [n for n, _ in E.fields(W.t['Position'])]
        q = [i for i, (n, t) in enumerate(E.fields(W.t['Position'])) if 'Quat' in E.T[t]['s']]
        return contains(r, lambda t: len(t) == 3 and t[0] == 'fld' and t[2] in q and isinstance(t[1], tuple) and t[1][0] == 'y'
                        and t[1][1] == W.t['Position'])

    def feasible(self, S, cells):
        """(can the conditions of the path hold in a cell: False / True / None = unknown, do they hold in all of a cell)"""
        E = self.E
        facts = []
        for k, r in S.bt.items():
            if contains(k, lambda t: t[:1] in (('fop',), ('feq',))):
                facts.append((k[2], r))
        at = set()
        for k, _ in facts:
            atoms(E, k, at)
        at = sorted(at, key=repr)
        if len(at) > 4:
            return None, False
        may, must = False, False
        for cell in itertools.product(cells, repeat=len(at)):
            iv = Intervals(E, dict(zip(at, cell)), facts if cells is MAY else ())
            try:
                rs = [iv.holds(k, r) for k, r in facts]
            except Unknown:
                return None, False
            except Empty:
                continue
            may = may or all(a for a, _ in rs)
            must = must or all(b for _, b in rs)
        return may, must

    def panic(self, S, info):
        h = self.h
        may, _ = self.feasible(S, MAY)
        if may is False:
            return h.ok('panic', ('C25',))
        _, must = self.feasible(S, MUST)
        at = ' < '.join('%s:%s' % x for x in reversed(info['stack'][-3:]))
        if must:
            h.bad('panic', 'geometry at %s' % at.rsplit(':', 1)[0], 'an assertion fails for some positions at %s' % at, ('C25',))
        else:
            h.gap('whether the path that panics at %s is feasible is not decided' % at)
