"""Abstract interpreter over the compiler's MIR (facts produced by the mirx driver).

Domain: partitioned abstract states. A state maps memory locations to values built from integers in
linear form, variant sets, structural values and value numbers ("symbols") for unknown inputs, plus
interval, linear-inequality and boolean facts.  Loops are solved to a fixpoint with one symbol per
location the loop changes (LoopInfo keeps the per-iteration recurrences); calls are analysed
interprocedurally.  No part of the program under analysis is executed and no solver is used.
"""
import itertools
import math
import sys
import time

sys.setrecursionlimit(20000)


REFS = ('ref', 'addr')


class AnalysisError(Exception):
    pass


MVD = ('mvd',)
UNIT = ('t', ())
I0, I1 = ('i', 0), ('i', 1)


def I(n):
    return ('i', n)


class St:
    __slots__ = ('mem', 'vs', 'rg', 'cons', 'ne', 'bt', 'maps', 'imps', 'log', 'locks', 'notes')

    def __init__(s):
        s.mem, s.vs, s.rg, s.bt, s.maps = {}, {}, {}, {}, {}
        s.cons, s.imps, s.log, s.locks, s.notes = (), (), (), (), ()
        s.ne = frozenset()

    def copy(s):
        n = St.__new__(St)
        n.mem, n.vs, n.rg, n.bt, n.maps = dict(s.mem), dict(s.vs), dict(s.rg), dict(s.bt), dict(s.maps)
        n.cons, n.ne, n.imps, n.log, n.locks, n.notes = s.cons, s.ne, s.imps, s.log, s.locks, s.notes
        return n

    def ev(s, *e):
        s.log = s.log + (e,)


def locked_since(v, n):
    """Does a symbol denote contents of a lock that was taken after event n?"""
    if not isinstance(v, tuple):
        return False
    if len(v) == 3 and v[0] == 'locked' and isinstance(v[2], int) and v[2] > n:
        return True
    return any(locked_since(x, n) for x in v)


class MapS:
    """State of one hash map: entries maps key value -> (present?, initially present?)."""
    __slots__ = ('base', 'ver', 'entries', 'delta', 'K', 'V')

    def __init__(s, base, ver, K, V):
        s.base, s.ver, s.K, s.V = base, ver, K, V
        s.entries, s.delta = {}, 0

    def copy(s):
        n = MapS(s.base, s.ver, s.K, s.V)
        n.entries, n.delta = dict(s.entries), s.delta
        return n


class LoopInfo:
    __slots__ = ('lid', 'entry', 'head', 'backs', 'phis', 'where', 'fn', 'mlog', 'idx', 'bumped')


# ---------------------------------------------------------------- linear terms
def lin(v):
    k = v[0]
    if k == 'i':
        return v[1], ()
    if k == 'l':
        return v[1], v[2]
    if k == 'y':
        return 0, ((v, 1),)
    raise AnalysisError('not an integer: %r' % (v,))


_key_cache = {}


def tkey(t):
    r = _key_cache.get(t)
    if r is None:
        r = repr(t)
        if len(_key_cache) < 400000:
            _key_cache[t] = r
    return r


def mk(c, items):
    items = tuple((t, k) for t, k in items if k)
    if not items:
        return ('i', c)
    if c == 0 and len(items) == 1 and items[0][1] == 1:
        return items[0][0]
    return ('l', c, tuple(sorted(items, key=lambda x: tkey(x[0]))))


def comb(a, ka, b, kb):
    ca, ia = lin(a)
    cb, ib = lin(b)
    d = {}
    for t, k in ia:
        d[t] = d.get(t, 0) + k * ka
    for t, k in ib:
        d[t] = d.get(t, 0) + k * kb
    return mk(ca * ka + cb * kb, d.items())


def add(a, b):
    return comb(a, 1, b, 1)


def sub(a, b):
    return comb(a, 1, b, -1)


def scale(a, k):
    c, it = lin(a)
    return mk(c * k, ((t, q * k) for t, q in it))


def tighten(c, d):
    """Integer tightening of c + sum d <= 0 by the gcd of the coefficients."""
    g = 0
    for k in d.values():
        g = math.gcd(g, k)
        if g == 1:
            return c, d
    return -((-c) // g), {t: k // g for t, k in d.items()}


def fm_infeasible(cs, limit=400):
    """cs: list of (c, ((t,k),..)) meaning c + sum <= 0.  True only if they have no rational solution."""
    cur = []
    for c, it in cs:
        d = {t: k for t, k in it if k}
        if not d:
            if c > 0:
                return True
        else:
            cur.append(tighten(c, d))
    # equalities with a unit coefficient are substituted (keeps integer information)
    for _ in range(12):
        keys = {(c, frozenset(d.items())): i for i, (c, d) in enumerate(cur)}
        eq = None
        for c, d in cur:
            if (-c, frozenset((t, -k) for t, k in d.items())) in keys:
                u = [t for t, k in d.items() if abs(k) == 1]
                if u:
                    eq = (c, d, min(u, key=tkey))
                    break
        if eq is None:
            break
        c0, d0, u = eq
        k0 = d0[u]
        nxt, seen = [], set()
        for c, d in cur:
            k = d.get(u, 0)
            if k:
                # u = -(c0 + rest)/k0, k0 in {1,-1}
                f = -k * k0
                c = c + f * c0
                d2 = dict(d)
                for t, q in d0.items():
                    d2[t] = d2.get(t, 0) + f * q
                d = {t: q for t, q in d2.items() if q}
                if not d:
                    if c > 0:
                        return True
                    continue
                c, d = tighten(c, d)
            kk = (c, frozenset(d.items()))
            if kk not in seen:
                seen.add(kk)
                nxt.append((c, d))
        cur = nxt
    for _ in range(24):
        vars_ = {}
        for c, d in cur:
            for t, k in d.items():
                p, n = vars_.get(t, (0, 0))
                vars_[t] = (p + (k > 0), n + (k < 0))
        if not vars_:
            return False
        t = min(vars_, key=lambda x: (vars_[x][0] * vars_[x][1] - vars_[x][0] - vars_[x][1], tkey(x)))
        pos = [(c, d) for c, d in cur if d.get(t, 0) > 0]
        neg = [(c, d) for c, d in cur if d.get(t, 0) < 0]
        rest = [(c, d) for c, d in cur if t not in d]
        seen = set()
        for c1, d1 in pos:
            for c2, d2 in neg:
                a, b = d1[t], -d2[t]
                c = c1 * b + c2 * a
                d = {}
                for x, k in d1.items():
                    d[x] = d.get(x, 0) + k * b
                for x, k in d2.items():
                    d[x] = d.get(x, 0) + k * a
                d = {x: k for x, k in d.items() if k}
                if not d:
                    if c > 0:
                        return True
                    continue
                c, d = tighten(c, d)
                key = (c, frozenset(d.items()))
                if key not in seen:
                    seen.add(key)
                    rest.append((c, d))
        if len(rest) > limit:
            return False
        cur = rest
        if not cur:
            return False
    return False


def contains(t, x):
    if t == x:
        return True
    if isinstance(t, tuple):
        for y in t:
            if isinstance(y, tuple) and contains(y, x):
                return True
    return False


def subst(t, m, memo=None):
    """Substitute sub-terms; linear terms are re-normalised."""
    if memo is None:
        memo = {}
    if not isinstance(t, tuple):
        return t
    r = memo.get(t)
    if r is not None:
        return r
    if t in m:
        r = m[t]
    elif t and t[0] == 'l' and len(t) == 3 and isinstance(t[1], int):
        r = ('i', t[1])
        for x, k in t[2]:
            r = add(r, scale(subst(x, m, memo), k))
    else:
        r = tuple(subst(x, m, memo) if isinstance(x, tuple) else x for x in t)
        if len(r) == 3 and r[0] == 'y' and r != t and isinstance(r[2], tuple) and r[2][0] in ('idx', 'bits', 'len'):
            r = renorm(r)
    memo[t] = r
    return r


def renorm(r):
    return r


class Eng:
    def __init__(self, crate, pdl=None):
        self.c = crate
        self.T = crate.types
        self.bodies = crate.bodies
        self.pdl = pdl
        self.cnt = itertools.count()
        self.fcnt = itertools.count(1)
        self.loops = {}
        self.sources = {}    # list of references -> the map iterator it was collected from
        self.sums = {}       # list symbol of a loop -> what it holds at the end
        self.tasks = {}
        self.rty = {}
        self.models = {}
        self.pmodels = []
        self.elem_hooks = []
        self.unknown = {}
        self.analysed = set()
        self.callsites = 0
        self.steps = 0
        self.max_steps = 3000000
        self.deadline = None
        self.skip_ok, self.skip_fn = None, None
        self.soft = False      # give up single paths instead of the whole analysis
        self.alerts = {}       # (kind, place) of doubtful uses of locks and blocking calls
        self.gaps = {}         # what was given up, with counts
        self.stack = []
        self.loopcache = {}
        self.cfg = {}
        self.panics_seen = {}
        self.tymap = {}
        for t in self.T:
            self.tymap.setdefault(t['s'], t['i'])
        self.USIZE = self.tymap.get('usize')
        self.BOOL = self.tymap.get('bool')
        self.U8 = self.tymap.get('u8')
        self._nd = {}
        self.lock_hooks = []
        self.recv_hooks = []
        self.send_hooks = []
        self.assumed_ovf = 0
        self.local_crates = {'pica', 'pica_http'}
        self._dflt = None
        self._fut = None
        import models
        models.install(self)

    # ------------------------------------------------------------ types
    def ty(self, s):
        r = self.tymap.get(s)
        if r is None:
            raise AnalysisError('type %s not found' % s)
        return r

    def find_ty(self, path):
        for t in self.T:
            if t.get('path') == path:
                return t['i']
        raise AnalysisError('type path %s not found' % path)

    def adt(self, suffix):
        for t in self.T:
            p = t.get('path', '')
            if p == suffix or p.endswith('::' + suffix):
                return t
        return None

    def int_range(self, ty):
        t = self.T[ty] if ty is not None else None
        if t is None:
            return None
        if t['k'] == 'int':
            b = t['size'] * 8
            return (-(1 << (b - 1)), (1 << (b - 1)) - 1) if t['signed'] else (0, (1 << b) - 1)
        if t['k'] == 'bool':
            return (0, 1)
        if t['k'] == 'char':
            return (0, 0x10ffff)
        return None

    def width(self, ty):
        t = self.T[ty]
        return t['size'] * 8 if t['k'] == 'int' else 1 if t['k'] == 'bool' else 32

    def fields(self, ty, variant=0):
        t = self.T[ty]
        if t['k'] == 'tuple':
            return [('%d' % i, x) for i, x in enumerate(t['el'])]
        if t['k'] in ('closure', 'coroutine'):
            return [('%d' % i, x) for i, x in enumerate(t['ups'])]
        if 'v' in t:
            return [tuple(x) for x in t['v'][variant]['f']]
        return None

    def field_index(self, ty, name, variant=0):
        for i, (n, _) in enumerate(self.fields(ty, variant) or ()):
            if n == name:
                return i
        raise AnalysisError('field %s of %s not found' % (name, self.T[ty]['s']))

    def variant_index(self, ty, name):
        for i, v in enumerate(self.T[ty]['v']):
            if v['n'] == name:
                return i
        raise AnalysisError('variant %s of %s not found' % (name, self.T[ty]['s']))

    def is_fieldless(self, ty, v):
        return not self.T[ty]['v'][v]['f']

    # ------------------------------------------------------------ futures and channels
    def fut_output(self, ty):
        """Output type of a future type, from the poll calls of the crate."""
        if self._fut is None:
            self._fut = {}
            for b in self.bodies.values():
                for _, t, _c in b['blocks']:
                    if t[0] != 'call' or not isinstance(t[1], dict):
                        continue
                    c = t[1]
                    if c.get('decl', '').endswith('Future::poll') and c.get('targs'):
                        f, d = c['targs'][0], t[6]
                        if isinstance(f, int) and self.T[d].get('args'):
                            self._fut[self.T[f]['s']] = self.T[d]['args'][0]
        return self._fut.get(self.T[ty]['s'])

    def find_result_unit(self, futty):
        return self.fut_output(futty)

    def pica_alive(self, ch):
        return ch[0] in ('y', 's') and 'PicaCommand' in self.T[ch[1]]['s']

    def elem_guess(self, S, v):
        """Element type of a sequence value."""
        if v[0] == 'y':
            return self.elem_ty(v[1])
        for p in self.seq_parts(v):
            if p[0] in ('e', 'rep'):
                t = self.guess_ty(p[1])
            elif p[0] == 'q':
                t = self.elem_guess(S, p[1])
            else:
                t = None
            if t is not None:
                return t
        return None

    def alloc_it(self, S, ref, it):
        r = ('H', next(self.cnt))
        S.mem[r] = it
        return ('r', r, ())

    # ------------------------------------------------------------ symbols
    def sym(self, ty, key):
        t = self.T[ty]
        k = t['k']
        if k == 'tuple':
            if len(t['el']) > 12:
                return ('y', ty, key)
            return ('t', tuple(self.sym(x, ('fld', ('y', ty, key), i)) for i, x in enumerate(t['el'])))
        if k == 'struct' and 'v' in t and not t['v'][0]['f']:
            return ('s', ty, 0, ())
        if k == 'fndef':
            return ('fn', ty)
        return ('y', ty, key)

    def fresh(self, ty, what):
        return self.sym(ty, ('u', what, next(self.cnt)))

    def none(self, ty):
        return ('s', ty, 0, ())

    def some(self, ty, v):
        return ('s', ty, 1, (v,))

    def ok(self, ty, v):
        return ('s', ty, 0, (v,))

    def err(self, ty, v):
        return ('s', ty, 1, (v,))

    # ------------------------------------------------------------ facts
    def atom_range(self, S, a):
        r = S.rg.get(a)
        if r is not None:
            return r
        k = a[2]
        if k[0] == 'len':
            w = self.len_cap(k[1])
            return (0, w if w is not None else 1 << 47)
        if k[0] == 'maplen' or k[0] == 'flen':
            return (0, 1 << 47)
        if k[0] == 'ei':
            w = self.wire(k[1][1])
            vs = self.variants(S, k[1])
            if w and len(vs) < 40 and all(x in w['val'] for x in vs):
                xs = [w['val'][x] for x in vs]
                return (min(xs), max(xs))
        if k[0] == 'bits':
            return (0, (1 << k[3]) - 1)
        if k[0] == 'div':
            lo, hi = self.irange(S, k[1])
            return (max(0, lo // k[2]), hi // k[2])     # dividends are not negative (binop)
        if k[0] == 'mul2':
            l1, h1 = self.irange(S, k[1])
            l2, h2 = self.irange(S, k[2])
            p = [l1 * l2, l1 * h2, h1 * l2, h1 * h2]
            return (min(p), max(p))
        r = self.int_range(a[1])
        if r is None:
            return (-(1 << 140), 1 << 140)
        return r

    def len_cap(self, v):
        """Largest length of an array field of a decoded packet element."""
        k = v[2]
        if k[0] == 'fld' and k[1][0] == 'y' and k[1][2][0] == 'idx':
            import codec
            b = k[1][2][1]
            if b[0] == 'y' and b[2][0] == 'darr':
                w = codec.count_width(self, k[1][1], k[2])
                if w:
                    return (1 << w) - 1
        return None

    def irange(self, S, v):
        c, it = lin(v)
        lo = hi = c
        for t, k in it:
            l, h = self.atom_range(S, t)
            if k > 0:
                lo += k * l
                hi += k * h
            else:
                lo += k * h
                hi += k * l
        return lo, hi

    def norm_int(self, S, v):
        if v[0] == 'i':
            return v
        c, it = lin(v)
        ch = False
        out = []
        for t, k in it:
            l, h = self.atom_range(S, t)
            if l == h:
                c += k * l
                ch = True
            else:
                out.append((t, k))
        return mk(c, out) if ch else v

    def relevant(self, S, items):
        """Constraints connected to the given atoms."""
        atoms = {t for t, _ in items}
        todo = list(atoms)
        while todo:
            k = todo.pop()[2]
            if k[0] == 'div':
                for t, _ in lin(k[1])[1]:
                    if t not in atoms:
                        atoms.add(t)
                        todo.append(t)
        out, rest = [], list(S.cons)
        ch = True
        while ch:
            ch = False
            nr = []
            for c in rest:
                if any(t in atoms for t, _ in c[1]):
                    out.append(c)
                    for t, _ in c[1]:
                        if t not in atoms:
                            atoms.add(t)
                    ch = True
                else:
                    nr.append(c)
            rest = nr
        for t in atoms:
            k = t[2]
            if k[0] == 'div':
                # n*q <= a <= n*q + n-1
                q = scale(t, k[2])
                out.append(lin(sub(q, k[1])))
                out.append(lin(sub(sub(k[1], q), ('i', k[2] - 1))))
        for t in sorted(atoms, key=tkey):
            l, h = self.atom_range(S, t)
            out.append((l, ((t, -1),)))
            out.append((-h, ((t, 1),)))
        # atoms introduced by div constraints
        extra = {t for c in out for t, _ in c[1]} - atoms
        for t in extra:
            l, h = self.atom_range(S, t)
            out.append((l, ((t, -1),)))
            out.append((-h, ((t, 1),)))
        return out

    def prove_le(self, S, a, b):
        """a <= b in every concretisation?"""
        d = sub(a, b)
        lo, hi = self.irange(S, d)
        if hi <= 0:
            return True
        if lo > 0:
            return False
        c, it = lin(d)
        if not S.cons and not any(t[2][0] == 'div' for t, _ in it):
            return False
        cs = self.relevant(S, it)
        # negation: d >= 1  <=>  1 - d <= 0
        cs.append(lin(sub(I1, d)))
        return fm_infeasible(cs)

    def prove_lt(self, S, a, b):
        return self.prove_le(S, add(a, I1), b)

    def prove_eq(self, S, a, b):
        d = sub(a, b)
        if d[0] == 'i':
            return d[1] == 0
        if self.prove_le(S, a, b) and self.prove_le(S, b, a):
            return True
        d2 = self.rebits(S, d)
        return d2 != d and self.prove_eq(S, d2, I0)

    def rebits(self, S, v):
        """Low bits of a number that has no others are the number itself."""
        c, it = lin(v)
        out, ch = I(c), False
        for t, k in it:
            b = t[2]
            if b[0] == 'bits' and b[2] == 0 and b[1][0] in ('l', 'y') and self.prove_le(S, I0, b[1]) \
                    and self.prove_le(S, b[1], I((1 << b[3]) - 1)):
                t, ch = b[1], True
            out = add(out, scale(t, k))
        return out if ch else v

    def ne_key(self, a, b):
        d = sub(a, b)
        d2 = scale(d, -1)
        return min(d, d2, key=tkey)

    def prove_ne(self, S, a, b):
        if a == b:
            return False
        d = sub(a, b)
        if d[0] == 'i':
            return d[1] != 0
        if self.ne_key(a, b) in S.ne:
            return True
        return self.prove_lt(S, a, b) or self.prove_lt(S, b, a)

    def assume_le(self, S, a, b):
        """Add a <= b; False if contradictory."""
        d = sub(a, b)
        lo, hi = self.irange(S, d)
        if lo > 0:
            return False
        if hi <= 0:
            return True
        c, it = lin(d)
        if len(it) == 1:
            t, k = it[0]
            l, h = self.atom_range(S, t)
            if k > 0:
                h = min(h, (-c) // k)
            else:
                l = max(l, self._ceil(c, -k))
            if l > h:
                return False
            while l <= h and self.ne_key(t, ('i', l)) in S.ne:
                l += 1
            while l <= h and self.ne_key(t, ('i', h)) in S.ne:
                h -= 1
            if l > h:
                return False
            S.rg[t] = (l, h)
            if S.cons and fm_infeasible(self.relevant(S, it)):
                return False
            return self._enum_sync(S, t)
        S.cons = S.cons + ((c, it),)
        return not fm_infeasible(self.relevant(S, it))

    @staticmethod
    def _ceil(c, k):
        # c - k*t <= 0  ->  t >= ceil(c/k)
        return -((-c) // k)

    def _enum_sync(self, S, t):
        """An integer with a single value that is the wire form of an enum fixes the variant."""
        l, h = S.rg[t]
        if l != h:
            return True
        for e, vs in list(S.vs.items()):
            if e[2][0] == 'ie' and e[2][1] == t:
                w = self.wire_variant(e[1], l)
                if w is None or w not in vs:
                    return False
                S.vs[e] = frozenset([w])
        return True

    def assume_eq(self, S, a, b):
        return self.assume_le(S, a, b) and self.assume_le(S, b, a)

    def assume_ne(self, S, a, b):
        if self.prove_eq(S, a, b):
            return False
        d = sub(a, b)
        c, it = lin(d)
        S.ne = S.ne | frozenset([self.ne_key(a, b)])
        if len(it) == 1 and abs(it[0][1]) == 1:
            t, k = it[0]
            v = -c * k
            l, h = self.atom_range(S, t)
            if l == v:
                return self.assume_le(S, ('i', v + 1), t)
            if h == v:
                return self.assume_le(S, t, ('i', v - 1))
        else:
            # a <= b known: tighten to a < b
            if self.prove_le(S, a, b):
                return self.assume_le(S, add(a, I1), b)
            if self.prove_le(S, b, a):
                return self.assume_le(S, add(b, I1), a)
        return True

    # --- enum variants
    def variants(self, S, v):
        if v[0] == 's':
            return frozenset([v[2]])
        r = S.vs.get(v)
        if r is None:
            t = self.T[v[1]]
            if 'v' not in t:
                raise AnalysisError('variants of %s' % t['s'])
            r = frozenset(range(len(t['v'])))
            if v[2][0] == 'ie' and self.wire(v[1]):
                lo, hi = self.irange(S, v[2][1])
                if hi - lo < 300:
                    ws = frozenset(self.wire_variant(v[1], n) for n in range(lo, hi + 1)
                                   if self.maybe_int(S, v[2][1], n)) - {None}
                    r = r & ws
        elif v[2][0] == 'ie' and self.wire(v[1]) and len(r) > 1:
            w = self.wire(v[1])
            r = frozenset(x for x in r if x not in w['val'] or self.maybe_int(S, v[2][1], w['val'][x]))
        return r

    def maybe_int(self, S, v, n):
        """May integer v equal n (cheap check)?"""
        v = self.norm_int(S, v)
        if v[0] == 'i':
            return v[1] == n
        lo, hi = self.irange(S, v)
        if not lo <= n <= hi:
            return False
        return not S.ne or self.ne_key(v, ('i', n)) not in S.ne

    def restrict(self, S, v, vs):
        vs = frozenset(vs)
        if v[0] == 's':
            return v[2] in vs
        if v[0] != 'y':
            raise AnalysisError('restrict %r' % (v,))
        cur = self.variants(S, v)
        new = cur & vs
        if not new:
            return False
        S.vs[v] = new
        if v[2][0] == 'ie' and self.wire(v[1]):
            w = self.wire_value(v[1], next(iter(new)))
            if len(new) == 1 and w is not None:
                if not self.assume_eq(S, v[2][1], ('i', w)):
                    return False
            elif new != cur:
                for x in cur - new:
                    w = self.wire_value(v[1], x)
                    if w is not None and not self.assume_ne(S, v[2][1], ('i', w)):
                        return False
        if new != cur or True:
            for cond in S.imps:
                if cond[0] == v and new <= cond[1]:
                    if not self.consequence(S, cond[2]):
                        return False
        return True

    def consequence(self, S, q):
        if q[0] == 'vs':
            t = q[1]
            if t[0] == 'y' and self.variants(S, t) <= q[2]:
                return True
            return self.restrict(S, t, q[2])
        if q[0] == 'le':
            return self.assume_le(S, q[1], q[2])
        if q[0] == 'bt':
            if S.bt.get(q[1], q[2]) != q[2]:
                return False
            S.bt[q[1]] = q[2]
            return True
        raise AnalysisError('consequence %r' % (q,))

    def add_imp(self, S, v, vs, q):
        vs = frozenset(vs)
        S.imps = S.imps + ((v, vs, q),)
        if v[0] == 's' or v in S.vs:
            if self.variants(S, v) <= vs:
                return self.consequence(S, q)
        return True

    # --- wire values of PDL enums
    def wire(self, ty):
        t = self.T[ty]
        if '_w' in t:
            return t['_w']
        w = None
        name = t.get('path', '').split('::')[-1]
        if self.pdl and 'uci::' in t.get('path', '') and name in self.pdl.enums:
            import pdl as P
            e = self.pdl.enums[name]
            w = {'val': {}, 'rng': {}, 'open': None, 'width': e.width}
            names = {v['n']: i for i, v in enumerate(t['v'])}
            low = {v['n'].lower(): i for i, v in enumerate(t['v'])}

            def idx(tag):
                i = names.get(P.camel(tag))
                if i is None:
                    i = low.get(tag.replace('_', '').lower())
                if i is None:
                    raise AnalysisError('no variant for %s.%s' % (name, tag))
                return i
            for tag, v in e.tags.items():
                w['val'][idx(tag)] = v
            for tag, r in e.ranges.items():
                w['rng'][idx(tag)] = r
            if e.open:
                w['open'] = idx(e.open)
        t['_w'] = w
        return w

    def wire_value(self, ty, v):
        w = self.wire(ty)
        return w['val'].get(v) if w else None

    def wire_variant(self, ty, n):
        w = self.wire(ty)
        for v, x in w['val'].items():
            if x == n:
                return v
        for v, (a, b) in w['rng'].items():
            if a <= n <= b:
                return v
        return w['open']

    # --- boolean conditions
    def truth(self, S, v):
        """True/False if decided, else None."""
        v = self.norm_int(S, v)
        if v[0] == 'i':
            return v[1] != 0
        if v[0] == 'y':
            if v in S.bt:
                return S.bt[v]
            k = v[2]
            if k[0] == 'not':
                r = self.truth(S, k[1])
                return None if r is None else not r
            if k[0] == 'or':
                p, q = self.truth(S, k[1]), self.truth(S, k[2])
                return True if p or q else None if p is None or q is None else False
            if k[0] == 'lt':
                if self.prove_lt(S, k[1], k[2]):
                    return True
                if self.prove_le(S, k[2], k[1]):
                    return False
            elif k[0] == 'inteq':
                if self.prove_eq(S, k[1], k[2]):
                    return True
                if self.prove_ne(S, k[1], k[2]):
                    return False
            elif k[0] == 'valid' and k[2][0] in ('i', 'l', 'y'):
                lo, hi = self.irange(S, k[2])
                if hi - lo <= 256:
                    e = self.pdl.enums[k[1]]
                    ok = [any(x == y for y in e.tags.values()) or any(a <= x <= b for a, b in e.ranges.values())
                          or e.open is not None
                          for x in range(lo, hi + 1) if self.maybe_int(S, k[2], x)]
                    if all(ok):
                        return True
                    if not any(ok):
                        return False
            elif k[0] == 'eqv':
                a, b = k[1], k[2]
                if a[0] == 'y' and b[0] in ('y', 's') and 'v' in self.T[a[1]] and self.T[a[1]]['k'] == 'enum' and b[1] == a[1]:
                    va, vb = self.variants(S, a), self.variants(S, b)
                    if not va & vb:
                        return False
                    if len(va) == 1 and va == vb and self.is_fieldless(a[1], next(iter(va))):
                        return True
            elif k[0] == 'isv':
                vs = self.variants(S, k[1])
                if vs <= k[2]:
                    return True
                if not (vs & k[2]):
                    return False
        return None

    def assume(self, S, v, val):
        v = self.norm_int(S, v)
        if v[0] == 'i':
            return (v[1] != 0) == val
        if v[0] != 'y':
            raise AnalysisError('assume %r' % (v,))
        k = v[2]
        if k[0] == 'not':
            return self.assume(S, k[1], not val)
        if k[0] == 'or' and not val:
            return self.assume(S, k[1], False) and self.assume(S, k[2], False)
        if k[0] == 'or' and self.truth(S, k[1]) is False:
            return self.assume(S, k[2], True)
        if k[0] == 'or' and self.truth(S, k[2]) is False:
            return self.assume(S, k[1], True)
        if v in S.bt and S.bt[v] != val:
            return False
        if k[0] == 'lt':
            if val:
                return self.assume_le(S, add(k[1], I1), k[2])
            return self.assume_le(S, k[2], k[1])
        if k[0] == 'inteq':
            return self.assume_eq(S, k[1], k[2]) if val else self.assume_ne(S, k[1], k[2])
        if k[0] == 'isv':
            vs = k[2] if val else self.variants(S, k[1]) - k[2]
            return self.restrict(S, k[1], vs)
        if k[0] == 'ovf':
            if not val:
                return self.assume_le(S, k[1], ('i', k[3])) and self.assume_le(S, ('i', k[2]), k[1])
            if self.prove_le(S, k[1], ('i', k[3])) and self.prove_le(S, ('i', k[2]), k[1]):
                return False
            return True
        t = self.truth(S, v)
        if t is not None and t != val:
            return False
        if k[0] == 'valid' and not val and k[2][0] in ('i', 'l', 'y'):
            # an invalid number is none of the listed ones
            e = self.pdl.enums[k[1]]
            lo, hi = self.irange(S, k[2])
            for x in sorted(set(e.tags.values())):
                if lo <= x <= hi and not self.assume_ne(S, k[2], I(x)):
                    return False
        if k[0] == 'eqv' and val:
            a, b = k[1], k[2]
            if a[0] == 'y' and b[0] in ('y', 's') and 'v' in self.T[a[1]] and self.T[a[1]]['k'] == 'enum' and b[1] == a[1]:
                vv = self.variants(S, a) & self.variants(S, b)
                if not self.restrict(S, a, vv) or not self.restrict(S, b, vv):
                    return False
        S.bt[v] = val
        S.rg[v] = (1, 1) if val else (0, 0)
        for c in S.imps:
            if c[0] == v and c[1] == frozenset([1 if val else 0]):
                if not self.consequence(S, c[2]):
                    return False
        return True

    def fork(self, S, v):
        """[(S', bool)] for a boolean value."""
        r = self.truth(S, v)
        if r is not None:
            return [(S, r)]
        if v[0] == 'y' and v[2][0] == 'not':
            return [(s, not b) for s, b in self.fork(S, v[2][1])]
        if v[0] == 'y' and v[2][0] == 'or':
            out = []
            for s, b in self.fork(S, v[2][1]):
                out += [(s, True)] if b else self.fork(s, v[2][2])
            return out
        out = []
        for b in (True, False):
            n = S.copy()
            if self.assume(n, v, b):
                out.append((n, b))
        return out

    def fork_variants(self, S, v, ty=None):
        """[(S', variant)] for an enum value."""
        if v[0] == 's':
            return [(S, v[2])]
        out = []
        vs = sorted(self.variants(S, v))
        for x in vs:
            n = S.copy() if len(vs) > 1 else S
            if self.restrict(n, v, [x]):
                out.append((n, x))
        return out

    def neg(self, v):
        if v[0] == 'i':
            return ('i', 0 if v[1] else 1)
        if v[0] == 'y' and v[2][0] == 'not':
            return v[2][1]
        return ('y', self.BOOL, ('not', v))

    def boolv(self, b):
        return I1 if b else I0

    # ------------------------------------------------------------ sequences
    def is_seq_ty(self, ty):
        t = self.T[ty]
        return t['k'] in ('slice', 'array') or t.get('path') in ('std::vec::Vec', 'bytes::BytesMut', 'bytes::Bytes') \
            or t.get('path', '').startswith('arrayvec')

    def elem_ty(self, ty):
        t = self.T[ty]
        if t['k'] in ('slice', 'array'):
            return t['el']
        if t.get('path') in ('bytes::BytesMut', 'bytes::Bytes') or t['s'] in ('str', 'std::string::String'):
            return self.U8
        if t.get('args'):
            return t['args'][0]
        raise AnalysisError('elem_ty %s' % t['s'])

    def seq_parts(self, v):
        k = v[0]
        if k == 'v':
            return v[1]
        if k == 'a':
            return tuple(('e', x) for x in v[1])
        if k == 'str':
            return tuple(('e', I(b)) for b in v[1].encode())
        if k == 'y':
            return (('q', v, I0, self.sym_len(v)),)
        if k == 'rep':
            return (v,)
        raise AnalysisError('not a sequence: %r' % (v,))

    def sym_len(self, v):
        t = self.T[v[1]]
        if t['k'] == 'array':
            return I(t['n'])
        k = v[2]
        if k[0] == 'darr':
            return k[4]
        if k[0] == 'comp':
            return k[2]
        if k[0] == 'enc' and len(k) == 4:
            return k[3]
        if k[0] == 'flat':
            n = self.flat_len(k)
            if n is not None:
                return n
        if k[0] == 'updidx':
            return self.seq_len(k[1])
        return ('y', self.USIZE, ('len', v))

    def flat_len(self, k):
        """Length of a concatenation whose pieces have lengths that depend on the variants of the items only."""
        _, src, cases = k
        if not isinstance(src, tuple) or src[0] not in ('y', 'v'):
            return None
        item = None
        out = []
        for facts, v in cases:
            n = self.seq_len(v)
            if n[0] != 'i' or len(facts) > 1:
                return None
            for y, vs in facts:
                if y[2][0] != 'idx' or y[2][1] != src or y[2][2] != ('y', self.USIZE, ('bv', 0)):
                    return None
            out.append((tuple(sorted(facts[0][1])) if facts else None, n[1]))
        if len({n for _, n in out}) == 1:
            return scale(self.seq_len(src), out[0][1])
        if any(vs is None for vs, _ in out):
            return None
        return ('y', self.USIZE, ('flen', src, tuple(sorted(out))))

    def part_len(self, p):
        k = p[0]
        if k == 'e':
            return I1
        if k == 'q':
            return sub(p[3], p[2])
        if k == 'rep':
            return p[2]
        raise AnalysisError('part %r' % (p,))

    def parts_len(self, parts):
        r = I0
        for p in parts:
            r = add(r, self.part_len(p))
        return r

    def seq_len(self, v):
        return self.parts_len(self.seq_parts(v))

    def base_elem(self, S, base, i):
        i = self.norm_int(S, i)
        if base[0] == 'a' and i[0] == 'i' and 0 <= i[1] < len(base[1]):
            return base[1][i[1]]
        if base[0] == 'v':
            return self.index_parts(S, base[1], i, base)
        if base[0] == 'y':
            if base[2][0] == 'comp':
                return subst(base[2][1], {('y', self.USIZE, ('bv', base[2][3])): i})
            return self.sym(self.elem_ty(base[1]), ('idx', base, i))
        if base[0] == 'a':
            ty = self.guess_ty(base[1][0]) if base[1] else None
            if ty is None:
                return self.sym(self.U8, ('idx', base, i))
            return self.sym(ty, ('idx', base, i))
        raise AnalysisError('base_elem %r' % (base,))

    def guess_ty(self, v):
        if v[0] in ('y', 's'):
            return v[1]
        if v[0] == 't':
            want = [self.guess_ty(x) for x in v[1]]
            for t in self.T:
                if t['k'] == 'tuple' and len(t['el']) == len(want) and all(w is None or w == e for w, e in zip(want, t['el'])):
                    return t['i']
        return None

    def expand_const(self, S, parts, lim=64):
        """Expand parts of known small length into single elements."""
        out = []
        for p in parts:
            if p[0] == 'q':
                n = self.norm_int(S, self.part_len(p))
                if n[0] == 'i' and n[1] <= lim:
                    for j in range(n[1]):
                        out.append(('e', self.base_elem(S, p[1], add(p[2], I(j)))))
                    continue
            elif p[0] == 'rep':
                n = self.norm_int(S, p[2])
                if n[0] == 'i' and n[1] <= lim:
                    out.extend([('e', p[1])] * n[1])
                    continue
            out.append(p)
        return tuple(out)

    def index_parts(self, S, parts, i, whole=None):
        i = self.norm_int(S, i)
        if len(parts) == 1 and parts[0][0] == 'q':
            return self.base_elem(S, parts[0][1], add(parts[0][2], i))
        if len(parts) == 1 and parts[0][0] == 'rep':
            return parts[0][1]
        pos = I0
        for p in parts:
            n = self.part_len(p)
            end = add(pos, n)
            if self.prove_le(S, pos, i) and self.prove_lt(S, i, end):
                if p[0] == 'e':
                    return p[1]
                if p[0] == 'rep':
                    return p[1]
                return self.base_elem(S, p[1], add(p[2], sub(i, pos)))
            pos = end
        ty = None
        for p in parts:
            if p[0] == 'e':
                ty = self.guess_ty(p[1])
            elif p[0] == 'q' and p[1][0] == 'y':
                ty = self.elem_ty(p[1][1])
            if ty is not None:
                break
        if ty is None:
            ty = self.U8
        return self.sym(ty, ('idx', ('v', tuple(parts)), i))

    def split_parts(self, S, parts, at):
        """(before, after) or None."""
        at = self.norm_int(S, at)
        pos = I0
        out = []
        for j, p in enumerate(parts):
            if self.prove_eq(S, pos, at):
                return tuple(out), tuple(parts[j:])
            n = self.part_len(p)
            end = add(pos, n)
            if self.prove_le(S, end, at):
                out.append(p)
                pos = end
                continue
            if self.prove_le(S, pos, at) and self.prove_le(S, at, end):
                d = sub(at, pos)
                if p[0] == 'q':
                    return tuple(out) + (('q', p[1], p[2], add(p[2], d)),), (('q', p[1], add(p[2], d), p[3]),) + tuple(parts[j + 1:])
                if p[0] == 'rep':
                    return tuple(out) + (('rep', p[1], d),), (('rep', p[1], sub(p[2], d)),) + tuple(parts[j + 1:])
            return None
        if self.prove_eq(S, pos, at):
            return tuple(out), ()
        return None

    def slice_parts(self, S, parts, lo, hi):
        r = self.split_parts(S, parts, hi)
        if r is not None:
            r2 = self.split_parts(S, r[0], lo)
            if r2 is not None:
                return tuple(p for p in r2[1] if self.part_len(p) != I0)
        if len(parts) == 1 and parts[0][0] == 'q':
            p = parts[0]
            return (('q', p[1], add(p[2], lo), add(p[2], hi)),)
        return (('q', ('v', tuple(parts)), lo, hi),)

    def simp_parts(self, S, parts):
        """Drop empty parts and join adjacent sub-sequences of one base."""
        out = []
        for p in parts:
            n = self.norm_int(S, self.part_len(p))
            if n == I0:
                continue
            if p[0] == 'q' and out and out[-1][0] == 'q' and out[-1][1] == p[1] and self.prove_eq(S, out[-1][3], p[2]):
                out[-1] = ('q', p[1], out[-1][2], p[3])
                continue
            out.append(p)
        return tuple(out)

    def canon_seq(self, S, v):
        """Canonical form for comparison: constant-size parts expanded, empty ones dropped."""
        parts = self.expand_const(S, self.seq_parts(v))
        parts = self.simp_parts(S, parts)
        return parts

    # ------------------------------------------------------------ memory
    def deref_ty(self, ty):
        t = self.T[ty]
        if t['k'] in ('ref', 'ptr'):
            return t['to']
        if t.get('args'):
            return t['args'][0]
        return None

    def as_ref(self, v):
        if v[0] == 'r':
            return v
        if v[0] == 'y':
            return ('r', ('D', v), ())
        if v[0] == 'str':
            return ('r', ('V', v), ())
        if v[0] == 's' and self.T[v[1]].get('path', '').endswith('::Pin'):
            return self.as_ref(v[3][0])
        if v[0] == 'guard':
            return v[1]
        if v[0] == 'box':
            return v[1]
        raise AnalysisError('not a reference: %r' % (v,))

    def init_elem(self, mid, ver, key):
        """Initial value of a map element (worlds refine it)."""
        return self.sym(self.rty[mid], ('elem', mid, ver, key))

    def root_value(self, S, root):
        v = S.mem.get(root)
        if v is not None:
            return v
        k = root[0]
        if k == 'V':
            return root[1]
        if k == 'D':
            to = self.deref_ty(root[1][1])
            if to is None:
                raise AnalysisError('deref of %s' % self.T[root[1][1]]['s'])
            return self.sym(to, ('deref', root[1]))
        if k == 'E':
            return self.init_elem(root[1], root[2], root[3])
        raise AnalysisError('uninitialised root %r in %s' % (root, self.where()))

    def root_type(self, S, root):
        k = root[0]
        if k == 'L':
            return self.rty[('Lb', root[1])]['locals'][root[2]]
        if k == 'D':
            return self.deref_ty(root[1][1])
        if k == 'E':
            return self.rty[root[1]]
        if k == 'V':
            return self.guess_ty(root[1])
        return self.rty.get(root)

    def step_type(self, ty, st):
        if ty is None:
            return None
        if st[0] == 'f':
            f = self.fields(ty)
            return f[st[1]][1] if f else None
        if st[0] == 'vf':
            f = self.fields(ty, st[1])
            return f[st[2]][1] if f else None
        if st[0] == 'x':
            return self.elem_ty(ty)
        if st[0] == 'sl':
            return ty
        if st[0] == '#':
            return self.USIZE
        return None

    def proj(self, S, v, st, fty=None):
        k = st[0]
        if v[0] == 'mvd':
            return MVD
        if k == '#':
            return v[st[1]]
        if k == 'f':
            if v[0] == 's':
                return v[3][st[1]]
            if v[0] == 't':
                return v[1][st[1]]
            if v[0] in ('clo', 'co'):
                return v[3][st[1]]
            if v[0] == 'y':
                return self.sym_field(S, v, 0, st[1], fty)
            raise AnalysisError('field of %r' % (v[:2],))
        if k == 'vf':
            if v[0] == 's':
                if v[2] != st[1]:
                    raise AnalysisError('variant mismatch %r %r' % (v, st))
                return v[3][st[2]]
            if v[0] == 'y':
                return self.sym_field(S, v, st[1], st[2], fty)
            if v[0] == 't':
                return v[1][st[2]]
            raise AnalysisError('vfield of %r' % (v[:2],))
        if k == 'x':
            return self.index_parts(S, self.seq_parts(v), st[1])
        if k == 'sl':
            if v[0] == 'str':
                return v
            return ('v', self.slice_parts(S, self.seq_parts(v), st[1], st[2]))
        raise AnalysisError('proj %r' % (st,))

    def sym_field(self, S, v, variant, i, fty=None):
        t = self.T[v[1]]
        if fty is None:
            f = self.fields(v[1], variant)
            if f is None:
                raise AnalysisError('field %d of opaque %s' % (i, t['s']))
            fty = f[i][1]
        if t['k'] == 'enum':
            if v[2][0] == 'ie' and i == 0:
                return self.sym(fty, ('vf', v, variant, 0))
            if v[2][0] == 'optmap':
                pass
            return self.sym(fty, ('vf', v, variant, i))
        return self.sym(fty, ('fld', v, i))

    def load(self, S, ref):
        ref = self.as_ref(ref)
        v = self.root_value(S, ref[1])
        for st in ref[2]:
            v = self.proj(S, v, st)
        return v

    def expand(self, S, v, variant=0):
        """Structural form of a symbol, for a write into one of its parts."""
        f = self.fields(v[1], variant)
        if f is None:
            raise AnalysisError('write into opaque %s' % self.T[v[1]]['s'])
        t = self.T[v[1]]
        return ('s', v[1], variant, tuple(self.sym_field(S, v, variant, i) for i in range(len(f))))

    def upd(self, S, v, path, new):
        if not path:
            return new
        st = path[0]
        if st[0] == '#':
            return v[:st[1]] + (self.upd(S, v[st[1]], path[1:], new),) + v[st[1] + 1:]
        if st[0] in ('f', 'vf'):
            var, i = (0, st[1]) if st[0] == 'f' else (st[1], st[2])
            if v[0] == 'y':
                v = self.expand(S, v, var)
            if v[0] == 'mvd':
                raise AnalysisError('write into moved value')
            fi = 3 if v[0] in ('s', 'clo', 'co') else 1
            fs = list(v[fi])
            fs[i] = self.upd(S, fs[i], path[1:], new)
            return v[:fi] + (tuple(fs),) + v[fi + 1:]
        if st[0] == 'x':
            parts = self.expand_const(S, self.seq_parts(v))
            i = self.norm_int(S, st[1])
            pos = I0
            for j, p in enumerate(parts):
                if p[0] == 'e' and self.prove_eq(S, pos, i):
                    np = parts[:j] + (('e', self.upd(S, p[1], path[1:], new)),) + parts[j + 1:]
                    return ('a', tuple(x[1] for x in np)) if v[0] == 'a' else ('v', np)
                pos = add(pos, self.part_len(p))
            sp = self.split_parts(S, parts, i)
            if sp:
                sp2 = self.split_parts(S, sp[1], I1)
                if sp2:
                    old = self.index_parts(S, parts, i)
                    return ('v', sp[0] + (('e', self.upd(S, old, path[1:], new)),) + sp2[1])
            old = self.index_parts(S, parts, i)
            nv = self.upd(S, old, path[1:], new)
            ty = v[1] if v[0] == 'y' else None
            if ty is None:
                ty = self.vec_ty_of(nv)
            return ('y', ty, ('updidx', v, i, nv))
        if st[0] == 'sl':
            parts = self.seq_parts(v)
            a = self.split_parts(S, parts, st[2])
            b = a and self.split_parts(S, a[0], st[1])
            inner = ('v', b[1]) if b else ('v', self.slice_parts(S, parts, st[1], st[2]))
            nv = self.upd(S, inner, path[1:], new)
            if b:
                np = b[0] + self.seq_parts(nv) + a[1]
                return ('v', np)
            return ('y', v[1] if v[0] == 'y' else self.ty('std::vec::Vec<u8>'), ('updsl', v, st[1], st[2], nv))
        raise AnalysisError('upd %r' % (st,))

    def vec_ty_of(self, elem):
        et = self.guess_ty(elem)
        for t in self.T:
            if t.get('path') == 'std::vec::Vec' and t['args'][0] == et:
                return t['i']
        return self.ty('std::vec::Vec<u8>')

    def store(self, S, ref, new):
        ref = self.as_ref(ref)
        root, path = ref[1], ref[2]
        if not path:
            S.mem[root] = new
            return
        S.mem[root] = self.upd(S, self.root_value(S, root), path, new)

    def alloc(self, S, v, ty):
        r = ('H', next(self.cnt))
        S.mem[r] = v
        self.rty[r] = ty
        return ('r', r, ())

    # places of a frame -> reference
    def place(self, S, fid, pl):
        root, path = ('L', fid, pl[0]), ()
        var = None
        for p in pl[1:]:
            if p == '*':
                v = self.load(S, ('r', root, path))
                if v[0] == 'mvd':
                    raise AnalysisError('deref of moved value at %s' % self.where())
                r = self.as_ref(v)
                root, path = r[1], r[2]
            elif p[0] == 'f':
                if var is not None:
                    path = path + (('vf', var, p[1]),)
                    var = None
                else:
                    path = path + (('f', p[1]),)
            elif p[0] == 'd':
                var = p[1]
            elif p[0] == 'i':
                path = path + (('x', S.mem[('L', fid, p[1])]),)
            elif p[0] == 'ci':
                off, mn, fe = p[1], p[2], p[3]
                if fe:
                    n = self.seq_len(self.load(S, ('r', root, path)))
                    path = path + (('x', sub(n, I(off))),)
                else:
                    path = path + (('x', I(off)),)
            elif p[0] == 'ss':
                n = self.seq_len(self.load(S, ('r', root, path)))
                lo, hi, fe = p[1], p[2], p[3]
                path = path + (('sl', I(lo), sub(n, I(hi)) if fe else I(hi)),)
            else:
                raise AnalysisError('projection %r' % (p,))
        return ('r', root, path)

    def read_place(self, S, fid, pl):
        return self.load(S, self.place(S, fid, pl))

    def operand(self, S, fid, o):
        if o[0] == 'cp':
            return self.read_place(S, fid, o[1])
        if o[0] == 'mv':
            r = self.place(S, fid, o[1])
            v = self.load(S, r)
            if v[0] not in ('i', 'fn') and r[1][0] in ('L', 'H') and not any(x[0] in ('x', 'sl') for x in r[2]):
                self.store(S, r, MVD)
            return v
        return self.const(S, o[1])

    def const(self, S, c):
        k = c['k']
        if k == 'int':
            return I(int(c['v']))
        if k == 'str':
            return ('r', ('V', ('str', c['v'])), ())
        if k == 'bytes':
            t = self.T[c['t']]
            val = ('a', tuple(I(b) for b in c['v']))
            return ('r', ('V', val), ()) if t['k'] in ('ref', 'ptr') else val
        if k == 'fn':
            self.T[c['t']].setdefault('fn', c['fn'])
            return ('fn', c['t'])
        if k == 'zst':
            t = self.T[c['t']]
            if t['k'] == 'fndef':
                return ('fn', c['t'])
            if t['k'] == 'tuple':
                return UNIT
            if t['k'] in ('closure',):
                return ('clo', t['inst'], c['t'], ())
            if t['k'] == 'struct' and 'v' in t:
                return ('s', c['t'], 0, tuple(self.zst(x[1]) for x in t['v'][0]['f']))
            if t['k'] == 'array':
                return ('a', ())
            return ('y', c['t'], ('zst',))
        if k == 'variant':
            return ('s', c['t'], int(c['v']), ())
        if k == 'body':
            return self.const_body(S, c['inst'])
        if k == 'adtint':
            t = self.T[c['t']]
            if t['k'] == 'enum':
                # niche-encoded constant of an Option-like enum: 0 is the empty variant
                if t.get('path', '').endswith('Option') and int(c['v']) == 0:
                    return self.none(c['t'])
                for i, v in enumerate(t['v']):
                    if int(v['d']) == int(c['v']) and not v['f']:
                        return ('s', c['t'], i, ())
                return ('y', c['t'], ('const', 'adtint', int(c['v'])))
            if t['k'] == 'struct' and 'v' in t and len(t['v'][0]['f']) == 1:
                return ('s', c['t'], 0, (I(int(c['v'])),))
            return ('y', c['t'], ('const', 'adtint', int(c['v'])))
        if k == 'opaque':
            return self.sym(c['t'], ('const', 'opaque', str(c.get('v', ''))[:80]))
        raise AnalysisError('const %r' % (c,))

    def zst(self, ty):
        t = self.T[ty]
        if t['k'] == 'tuple' and not t['el']:
            return UNIT
        if t['k'] == 'struct' and 'v' in t:
            return ('s', ty, 0, tuple(self.zst(x[1]) for x in t['v'][0]['f']))
        return ('y', ty, ('zst',))

    def const_body(self, S, inst):
        b = self.bodies[inst]
        key = ('cb', inst)
        if key in self.loopcache:
            v, mem = self.loopcache[key]
        else:
            st = St()
            outs = self.run_body(st, inst, [], keep=True)
            outs = [o for o in outs if o[0] == 'ret']
            if len(outs) != 1:
                raise AnalysisError('constant body %s' % b['name'])
            v = self.freeze(outs[0][1], outs[0][2])
            self.loopcache[key] = (v, None)
        return v

    def freeze(self, S, v):
        """Turn references into evaluated frames into references to immutable values."""
        if v[0] == 'r':
            return ('r', ('V', self.freeze(S, self.load(S, v))), ())
        if v[0] in ('s', 'clo', 'co'):
            return v[:3] + (tuple(self.freeze(S, x) for x in v[3]),)
        if v[0] in ('t', 'a'):
            return (v[0], tuple(self.freeze(S, x) for x in v[1]))
        if v[0] == 'v':
            return ('v', tuple(('e', self.freeze(S, p[1])) if p[0] == 'e' else p for p in v[1]))
        return v

    # ------------------------------------------------------------ integers
    def bits(self, S, x, lo, n, ty):
        """Bits [lo, lo+n) of a non-negative integer."""
        x = self.norm_int(S, x)
        if x[0] == 'i':
            return I((x[1] >> lo) & ((1 << n) - 1))
        l, h = self.irange(S, x)
        if l >= 0 and lo == 0 and h < (1 << n):
            return x
        if l >= 0 and h < (1 << lo):
            return I0
        if x[0] == 'y' and x[2][0] == 'bits':
            b = x[2]
            if lo >= b[3]:
                return I0
            return self.bits(S, b[1], b[2] + lo, min(n, b[3] - lo), ty)
        if x[0] == 'y' and x[2][0] in ('le', 'be'):
            bs = x[2][1]
            if x[2][0] == 'be':
                bs = tuple(reversed(bs))
            if lo % 8 == 0 and n == 8:
                j = lo // 8
                return bs[j] if j < len(bs) else I0
            if lo % 8 == 0 and n % 8 == 0:
                return self.from_bytes(S, bs[lo // 8:(lo + n) // 8], ty)
            if lo // 8 == (lo + n - 1) // 8 and lo // 8 < len(bs):
                return self.bits(S, bs[lo // 8], lo % 8, n, ty)
        if x[0] == 'y' and x[2][0] == 'cat':
            # concatenation of (term, width) low to high
            pos = 0
            for t, w in x[2][1]:
                if lo >= pos and lo + n <= pos + w:
                    return self.bits(S, t, lo - pos, n, ty)
                pos += w
        if x[0] == 'l' and l >= 0:
            top = 1 << (lo + n)
            c, it = lin(x)
            rest = ('i', c % top)
            for t, k in it:
                if k % top:
                    rest = add(rest, scale(t, k))
            if rest != x and self.irange(S, rest)[0] >= 0:
                return self.bits(S, rest, lo, n, ty)
            if lo:
                m = 1 << lo
                low, high = ('i', c % m), ('i', c // m)
                for t, k in it:
                    if k % m:
                        low = add(low, scale(t, k))
                    else:
                        high = add(high, scale(t, k // m))
                a, b = self.irange(S, low)
                if a >= 0 and b < m and low != x and self.irange(S, high)[0] >= 0:
                    return self.bits(S, high, 0, n, ty)
        if h - l < (1 << 200) and l >= 0:
            w = max(h.bit_length(), 1)
            n = min(n, max(w - lo, 1))
        return ('y', ty, ('bits', x, lo, n))

    def from_bytes(self, S, bs, ty):
        """Little-endian integer of byte terms."""
        bs = tuple(self.norm_int(S, b) for b in bs)
        if all(b[0] == 'i' for b in bs):
            return I(sum((b[1] & 255) << (8 * i) for i, b in enumerate(bs)))
        if len(bs) == 1:
            return bs[0]
        # re-assembly of a split integer
        b0 = bs[0]
        src = None
        if b0[0] == 'y' and b0[2][0] == 'bits' and b0[2][2] == 0:
            src = b0[2][1]
        elif b0[0] == 'y' and b0[2][0] != 'bits':
            src = None
        if src is not None:
            l, h = self.irange(S, src)
            good = l >= 0 and h < (1 << (8 * len(bs)))
            for i, b in enumerate(bs):
                e = self.bits(S, src, 8 * i, 8, self.U8)
                if e != b:
                    good = False
            if good:
                return src
        k = len(bs)
        while k > 1 and bs[k - 1] == I0:
            k -= 1
        if k == 1:
            return bs[0]
        return ('y', ty, ('le', bs[:k]))

    def wrap(self, S, v, ty):
        """Value of integer type ty after truncation."""
        r = self.int_range(ty)
        if r is None:
            return v
        lo, hi = self.irange(S, v)
        if r[0] <= lo and hi <= r[1]:
            return v
        if self.prove_le(S, v, I(r[1])) and self.prove_le(S, I(r[0]), v):
            return v
        if r[0] == 0 and lo >= 0:
            return self.bits(S, v, 0, self.width(ty), ty)
        return ('y', ty, ('wrap', v))

    def binop(self, S, op, a, b, ty):
        t = self.T[ty] if ty is not None else {'k': 'int'}
        if t['k'] == 'float':
            if op in ('Eq', 'Ne', 'Lt', 'Le', 'Gt', 'Ge'):
                if op == 'Ne':
                    return self.neg(('y', self.BOOL, ('feq', a, b)))
                if op == 'Eq':
                    return ('y', self.BOOL, ('feq', a, b))
                return ('y', self.BOOL, ('fop', op, a, b))
            return ('y', ty, ('fop', op, a, b))
        if a[0] not in ('i', 'l', 'y') or b[0] not in ('i', 'l', 'y'):
            return ('y', self.BOOL if op in ('Eq', 'Ne', 'Lt', 'Le', 'Gt', 'Ge') else ty, ('op', op, a, b))
        a, b = self.norm_int(S, a), self.norm_int(S, b)
        if op.endswith('Unchecked'):
            op = op[:-9]
        if op in ('Eq', 'Ne', 'Lt', 'Le', 'Gt', 'Ge'):
            if t['k'] == 'bool' and op in ('Eq', 'Ne'):
                if b[0] != 'i':
                    a, b = b, a
                if b[0] == 'i':
                    pos = (b[1] != 0) == (op == 'Eq')
                    return a if pos else self.neg(a)
            return self.cmp(S, op, a, b)
        if op.endswith('WithOverflow'):
            o = op[:-12]
            if o == 'Mul' and a[0] != 'i' and b[0] != 'i':
                v = self.mul(S, a, b, ty)
            else:
                v = add(a, b) if o == 'Add' else sub(a, b) if o == 'Sub' else scale(a, b[1]) if b[0] == 'i' else scale(b, a[1])
            r = self.int_range(ty)
            lo, hi = self.irange(S, v)
            if r[0] <= lo and hi <= r[1]:
                return ('t', (v, I0))
            if lo > r[1] or hi < r[0]:
                return ('t', (v, I1))
            if self.prove_le(S, v, I(r[1])) and self.prove_le(S, I(r[0]), v):
                return ('t', (v, I0))
            if o == 'Add' and t['k'] == 'int' and t['size'] >= 4 and lo >= r[0] and (a[0] == 'i' or b[0] == 'i') \
                    and abs((a if a[0] == 'i' else b)[1]) <= (1 << 16) and self.counterlike(a if b[0] == 'i' else b):
                # assumption: event counters and lengths do not reach 2^32
                self.assumed_ovf += 1
                return ('t', (v, I0))
            return ('t', (v, ('y', self.BOOL, ('ovf', v, r[0], r[1]))))
        if op == 'Add':
            return self.wrap(S, add(a, b), ty)
        if op == 'Sub':
            return self.wrap(S, sub(a, b), ty)
        if op == 'Mul':
            if b[0] == 'i':
                return self.wrap(S, scale(a, b[1]), ty)
            if a[0] == 'i':
                return self.wrap(S, scale(b, a[1]), ty)
            return self.wrap(S, self.mul(S, a, b, ty), ty)
        if op in ('Div', 'Rem'):
            lo, hi = self.irange(S, a)
            if b[0] == 'i' and b[1] > 0 and (lo >= 0 or self.prove_le(S, I0, a)):
                n = b[1]
                if a[0] == 'i':
                    return I(a[1] // n if op == 'Div' else a[1] % n)
                if n & (n - 1) == 0 and a[0] == 'y' and a[1] == self.U8:
                    # bits of a byte
                    k = n.bit_length() - 1
                    return self.bits(S, a, k, 8 - k, ty) if op == 'Div' else self.bits(S, a, 0, k, ty)
                c, it = lin(a)
                # floor((n*X + r) / n) = X + floor(r / n)
                whole = mk(c // n, [(x, k // n) for x, k in it if k % n == 0])
                rest = mk(c % n, [(x, k) for x, k in it if k % n])
                if rest[0] == 'i':
                    return whole if op == 'Div' else rest
                if self.irange(S, rest)[0] < 0 and not self.prove_le(S, I0, rest):
                    whole, rest = I0, a
                q = add(whole, ('y', ty, ('div', rest, n)))
                return q if op == 'Div' else sub(a, scale(q, n))
            return ('y', ty, ('op', op, a, b))
        if op in ('Shl', 'Shr'):
            if b[0] == 'i':
                w = self.width(ty)
                k = b[1]
                lo, hi = self.irange(S, a)
                if op == 'Shr' and lo >= 0:
                    if a[0] == 'i':
                        return I(a[1] >> k)
                    return self.bits(S, a, k, w - k, ty)
                if op == 'Shl' and lo >= 0:
                    if hi << k < (1 << w):
                        return scale(a, 1 << k)
                    return self.bits(S, scale(a, 1 << k), 0, w, ty)
            return ('y', ty, ('op', op, a, b))
        if op in ('BitAnd', 'BitOr', 'BitXor'):
            if a[0] == 'i' and b[0] == 'i':
                return I({'BitAnd': a[1] & b[1], 'BitOr': a[1] | b[1], 'BitXor': a[1] ^ b[1]}[op])
            if t['k'] == 'bool':
                for x, y in ((a, b), (b, a)):
                    if x[0] == 'i':
                        if op == 'BitAnd':
                            return y if x[1] else I0
                        if op == 'BitOr':
                            return I1 if x[1] else y
                        return self.neg(y) if x[1] else y
                if a == b:
                    return I0 if op == 'BitXor' else a
                if op == 'BitOr':
                    return ('y', ty, ('or', a, b))
                if op == 'BitAnd':
                    return self.neg(('y', ty, ('or', self.neg(a), self.neg(b))))
            if a[0] == 'i':
                a, b = b, a
            if b[0] == 'i' and (self.irange(S, a)[0] >= 0 or ty == self.USIZE and self.prove_le(S, I0, a)):
                m = b[1]
                if op == 'BitAnd':
                    if m == 0:
                        return I0
                    if ty == self.USIZE and m & (m + 1) == 0:
                        return self.binop(S, 'Rem', a, I(m + 1), ty)
                    if ty == self.USIZE and (1 << 64) - m & ((1 << 64) - m - 1) == 0 and m >> 32:
                        return sub(a, self.binop(S, 'Rem', a, I((1 << 64) - m), ty))
                    if m & (m + 1) == 0:
                        return self.bits(S, a, 0, m.bit_length(), ty)
                    lo = (m & -m).bit_length() - 1
                    mm = m >> lo
                    if mm & (mm + 1) == 0:
                        return scale(self.bits(S, a, lo, mm.bit_length(), ty), 1 << lo)
                if op in ('BitOr', 'BitXor') and m == 0:
                    return a
            if op == 'BitOr':
                r = self.disjoint_or(S, a, b)
                if r is not None:
                    return r
            return ('y', ty, ('op', op, a, b))
        if op == 'Offset':
            return a
        if op == 'Cmp':
            return ('y', ty, ('cmp', a, b))
        raise AnalysisError('binop %s' % op)

    def counterlike(self, a):
        return True

    def mul(self, S, a, b, ty):
        a, b = sorted((a, b), key=tkey)
        return ('y', ty, ('mul2', a, b))

    def disjoint_or(self, S, a, b):
        """a | b == a + b when their bits cannot overlap."""
        def span(x):
            c, it = lin(x)
            lo_bits, hi = [], 0
            if c < 0:
                return None
            if c:
                lo_bits.append((c & -c).bit_length() - 1)
            l, h = self.irange(S, x)
            if l < 0:
                return None
            for t, k in it:
                if k < 0:
                    return None
                lo_bits.append((k & -k).bit_length() - 1)
            return min(lo_bits) if lo_bits else 0, h.bit_length()
        sa, sb = span(a), span(b)
        if sa is None or sb is None:
            return None
        if sa[0] >= sb[1] or sb[0] >= sa[1]:
            return add(a, b)
        return None

    def cmp(self, S, op, a, b):
        if op == 'Gt':
            return self.cmp(S, 'Lt', b, a)
        if op == 'Le':
            return self.neg(self.cmp(S, 'Lt', b, a))
        if op == 'Ge':
            return self.neg(self.cmp(S, 'Lt', a, b))
        if op == 'Ne':
            return self.neg(self.cmp(S, 'Eq', a, b))
        d = sub(a, b)
        if d[0] == 'i':
            return self.boolv(d[1] < 0 if op == 'Lt' else d[1] == 0)
        if op == 'Lt':
            if self.prove_lt(S, a, b):
                return I1
            if self.prove_le(S, b, a):
                return I0
            return ('y', self.BOOL, ('lt', a, b))
        if self.prove_eq(S, a, b):
            return I1
        if self.prove_ne(S, a, b):
            return I0
        a, b = sorted((a, b), key=tkey)
        for x, y in ((a, b), (b, a)):
            if x[0] == 'i' and y[0] == 'y' and y[2][0] == 'discr':
                # a comparison with a discriminant is a variant test
                e = y[2][1]
                vs = frozenset(i for i, w in enumerate(self.T[e[1]]['v']) if int(w['d']) == x[1])
                cur = self.variants(S, e)
                return I0 if not cur & vs else I1 if cur <= vs else ('y', self.BOOL, ('isv', e, vs))
        return ('y', self.BOOL, ('inteq', a, b))

    def cast(self, S, kind, v, ty, fty):
        if kind == 'IntToInt':
            if fty == self.BOOL:
                t = self.truth(S, v)
                v = v if t is None else I(int(t))
            if v[0] in ('s',) or (v[0] == 'y' and self.T[v[1]]['k'] == 'enum'):
                v = self.discr_val(S, v, self.T[v[1]])
            if v[0] not in ('i', 'l', 'y'):
                return ('y', ty, ('cast', v))
            r = self.int_range(ty)
            if v[0] == 'i' and r:
                w = self.width(ty)
                n = v[1] & ((1 << w) - 1)
                if r[0] < 0 and n >= (1 << (w - 1)):
                    n -= 1 << w
                return I(n)
            lo, hi = self.irange(S, v)
            if r and r[0] <= lo and hi <= r[1]:
                return v
            if r and self.prove_le(S, v, I(r[1])) and self.prove_le(S, I(r[0]), v):
                return v
            if lo >= 0 and r and r[0] == 0:
                return self.bits(S, v, 0, self.width(ty), ty)
            return ('y', ty, ('cast', v))
        if kind.startswith('PointerCoercion') or kind.startswith('PtrToPtr') or kind in ('FnPtrToPtr', 'Subtype'):
            return v
        if kind == 'Transmute':
            tt, ft = self.T[ty], self.T[fty]
            if tt['k'] == 'int' and v[0] in ('a', 'y', 'v') and ft['k'] == 'array':
                el = [x[1] for x in self.expand_const(S, self.seq_parts(v))]
                return self.from_bytes(S, tuple(el), ty)
            if tt['k'] == 'array' and ft['k'] == 'int':
                return self.to_le(S, v, ft['size'])
            return v if tt['k'] == ft['k'] else ('y', ty, ('transmute', v))
        return ('y', ty, ('cast', kind, v))

    def to_le(self, S, v, n):
        if v[0] == 'i' and v[1] < 0:
            v = I(v[1] & ((1 << (8 * n)) - 1))
        if self.irange(S, v)[0] < 0:
            return ('a', tuple(('y', self.U8, ('sbyte', v, i)) for i in range(n)))
        return ('a', tuple(self.bits(S, v, 8 * i, 8, self.U8) for i in range(n)))

    def discr_val(self, S, v, t):
        """Integer discriminant of an enum value."""
        if v[0] == 's':
            return I(int(t['v'][v[2]]['d']))
        if v[0] == 'y':
            vs = self.variants(S, v)
            if len(vs) == 1:
                return I(int(t['v'][next(iter(vs))]['d']))
            return ('y', self.ty('isize') if 'isize' in self.tymap else self.USIZE, ('discr', v))
        raise AnalysisError('discr of %r at %s' % (v[:2], self.where()))

    # ------------------------------------------------------------ rvalues
    def rvalue(self, S, fid, r, dty):
        k = r[0]
        if k == 'use':
            return self.operand(S, fid, r[1])
        if k == 'ref' or k == 'addr':
            return self.place(S, fid, r[2])
        if k == 'cast':
            return self.cast(S, r[1], self.operand(S, fid, r[2]), r[3], r[4] if len(r) > 4 else None)
        if k == 'bin':
            return self.binop(S, r[1], self.operand(S, fid, r[2]), self.operand(S, fid, r[3]), r[4])
        if k == 'un':
            v = self.operand(S, fid, r[2])
            if r[1] == 'Not':
                t = self.T[dty]
                if t['k'] == 'bool':
                    return self.neg(v)
                if t['k'] == 'int' and not t['signed']:
                    return sub(I((1 << self.width(dty)) - 1), v)
                if v[0] == 'i':
                    return I(~v[1])
                return ('y', dty, ('op', 'Not', v))
            if r[1] == 'Neg':
                if self.T[dty]['k'] == 'float':
                    return ('y', dty, ('fop', 'Neg', v))
                return scale(v, -1)
            if r[1] == 'PtrMetadata':
                return self.seq_len(self.load(S, v))
            raise AnalysisError('unop %s' % r[1])
        if k == 'discr':
            v = self.read_place(S, fid, r[1])
            t = self.T[r[2]]
            if t['k'] != 'enum':
                return I0
            if v[0] == 't' or v[0] == 'mvd':
                return I0
            return self.discr_val(S, v, t)
        if k == 'agg':
            ops = tuple(self.operand(S, fid, o) for o in r[2])
            a = r[1]
            if a[0] == 'adt':
                t = self.T[a[1]]
                if t['k'] == 'union':
                    return ('un', a[1], a[3], ops[0] if ops else UNIT)
                return ('s', a[1], a[2], ops)
            if a[0] == 'tuple':
                return ('t', ops)
            if a[0] == 'array':
                return ('a', ops)
            if a[0] == 'closure':
                return ('clo', a[1], dty, ops)
            if a[0] == 'coroutine':
                return ('co', a[1], dty, ops)
            raise AnalysisError('agg %r' % (a,))
        if k == 'repeat':
            v = self.operand(S, fid, r[1])
            n = r[2]
            return ('a', (v,) * n) if n is not None and n <= 4096 else ('v', (('rep', v, I(n)),))
        if k == 'len':
            return self.seq_len(self.read_place(S, fid, r[1]))
        if k == 'nullop':
            return self.fresh(dty, 'nullop')
        raise AnalysisError('rvalue %r' % (r[:2],))

    # ------------------------------------------------------------ control flow
    def alert(self, S, kind, *info):
        S.ev(kind, *info)
        self.alerts.setdefault((kind, str(info[-1])), info)

    def where(self):
        return ' <- '.join('%s:%s' % (n, l) for n, l in reversed(self.stack[-4:]))

    def get_cfg(self, b):
        c = self.cfg.get(b['id'])
        if c:
            return c
        blocks = b['blocks']
        succ = {}
        for i, (st, t, cl) in enumerate(blocks):
            k = t[0]
            s = []
            if k == 'goto':
                s = [t[1]]
            elif k == 'switch':
                s = [x[1] for x in t[2]] + ([t[3]] if t[3] is not None else [])
            elif k == 'call':
                s = [t[4]] if t[4] is not None else []
            elif k == 'drop':
                s = [t[2]]
            elif k == 'assert':
                s = [t[5]]
            elif k == 'yield':
                s = [t[1]]
            succ[i] = s
        # DFS back edges -> natural loops
        order, state, back = [], {}, []
        stack = [(0, iter(succ[0]))]
        state[0] = 1
        while stack:
            n, it = stack[-1]
            for m in it:
                if state.get(m) == 1:
                    back.append((n, m))
                elif m not in state:
                    state[m] = 1
                    stack.append((m, iter(succ[m])))
                    break
            else:
                state[n] = 2
                order.append(n)
                stack.pop()
        preds = {}
        for n, ss in succ.items():
            if n in state:
                for m in ss:
                    preds.setdefault(m, []).append(n)
        loops = {}
        for n, h in back:
            L = loops.setdefault(h, {h})
            work = [n]
            while work:
                x = work.pop()
                if x not in L:
                    L.add(x)
                    work.extend(preds.get(x, []))
        c = self.cfg[b['id']] = (succ, loops)
        return c

    def run_body(self, S, inst, args, keep=False):
        """Analyse a body; outcomes [('ret'|'panic'|'div', S, value)]."""
        b = self.bodies[inst]
        if len(self.stack) > 60:
            raise AnalysisError('call depth at %s' % self.where())
        self.analysed.add(inst)
        fid = next(self.fcnt)
        self.rty[('Lb', fid)] = b
        for i, a in enumerate(args):
            S.mem[('L', fid, i + 1)] = a
        self.stack.append([b['name'], 0])
        try:
            outs = self.exec_region(b, fid, 0, S, None, None)
        finally:
            self.stack.pop()
        res = []
        for kind, st, val in outs:
            if kind == 'ret' and not keep:
                for k in [k for k in st.mem if k[0] == 'L' and k[1] == fid]:
                    del st.mem[k]
            res.append((kind, st, val))
        return self.dedupe(res)

    def dedupe(self, res):
        if len(res) < 2:
            return res
        out, seen = [], {}
        for kind, st, val in res:
            if kind == 'ret':
                key = (val, st.log, st.locks, frozenset(st.vs.items()), frozenset(st.rg.items()), frozenset(st.bt.items()),
                       st.ne, st.cons, frozenset((k, v) for k, v in st.mem.items()),
                       frozenset((k, m.ver, frozenset(m.entries.items()), m.delta) for k, m in st.maps.items()))
                if key in seen:
                    continue
                seen[key] = 1
            out.append((kind, st, val))
        return out

    def exec_region(self, b, fid, start, S, loop, head):
        """Execute blocks from start. With loop given, stop at the head ('back') and outside ('exit')."""
        succ, loops = self.get_cfg(b)
        work = [(start, S, True)]
        outs = []
        while work:
            bb, st, first = work.pop()
            if loop is not None:
                if bb == head and not first:
                    outs.append(('back', st, None))
                    continue
                if bb not in loop:
                    outs.append(('exit', st, bb))
                    continue
            if bb in loops and not (loop is not None and bb == head and first):
                if loop is None or bb != head:
                    outs_l = self.solve_mir_loop(b, fid, bb, loops[bb], st)
                    for kind, s2, val in outs_l:
                        if kind == 'exit':
                            work.append((val, s2, False))
                        else:
                            outs.append((kind, s2, val))
                    continue
            self.steps += 1
            if self.steps > self.max_steps or self.deadline and time.time() > self.deadline:
                raise AnalysisError('step limit at %s' % self.where())
            try:
                nxt = self.exec_block(b, fid, bb, st, head if loop is not None and self.leads(b, head, bb) else None)
            except (AnalysisError, IndexError, KeyError, TypeError, ValueError, AttributeError, AssertionError) as e:
                msg = str(e) if isinstance(e, AnalysisError) else 'internal %r' % (e,)
                if not getattr(e, 'at', None):
                    msg += ' [at %s bb%d]' % (self.where(), bb)
                if not self.soft:
                    ne = AnalysisError(msg)
                    ne.at = self.where()
                    raise ne from e
                # this path is beyond the analysis: give it up and go on with the others
                self.gaps[msg] = self.gaps.get(msg, 0) + 1
                outs.append(('unk', st, msg))
                continue
            for kind, s2, val in nxt:
                if kind == 'go':
                    work.append((val, s2, False))
                else:
                    outs.append((kind, s2, val))
        return outs

    def leads(self, b, head, bb):
        """Does the loop head lead to block bb by taking references only?"""
        for _ in range(4):
            stmts, t, _c = b['blocks'][head]
            if any(x[0] == 'a' and x[2][0] not in REFS for x in stmts):
                return False
            if bb == head:
                return True
            if t[0] != 'goto':
                return False
            head = t[1]
        return False

    def exec_block(self, b, fid, bb, S, head=None, start=0):
        stmts, t, cleanup = b['blocks'][bb]
        for n, s in enumerate(stmts[start:], start):
            if s[0] == 'a':
                self.stack[-1][1] = s[3][1]
                if s[2][0] == 'cast' and s[2][3] != self.U8 and len(s[2]) > 4 and s[2][4] == self.BOOL:
                    # a boolean taken as a number
                    f = self.fork(S, self.operand(S.copy(), fid, s[2][2]))
                    if len(f) > 1:
                        return [o for s2, _ in f for o in self.exec_block(b, fid, bb, s2, head, n)]
                root = ('L', fid, s[1][0])
                dty = b['locals'][s[1][0]] if len(s[1]) == 1 else self.place_ty(b, s[1])
                v = self.rvalue(S, fid, s[2], dty)
                if len(s[1]) == 1:
                    S.mem[root] = v
                else:
                    self.assign(S, fid, s[1], v)
            elif s[0] == 'sd':
                ref = self.place(S, fid, s[1])
                old = self.load(S, ref)
                if old[0] == 'y':
                    self.store(S, ref, self.expand(S, old, s[2]))
                elif old[0] == 's':
                    self.store(S, ref, old[:2] + (s[2],) + old[3:])
        k = t[0]
        if k == 'goto':
            return [('go', S, t[1])]
        if k == 'return':
            return [('ret', S, S.mem.get(('L', fid, 0), UNIT))]
        if k == 'unreachable':
            return []
        if k == 'switch':
            self.stack[-1][1] = t[5][1] if len(t) > 5 and t[5] else self.stack[-1][1]
            return self.do_switch(S, fid, t)
        if k == 'drop':
            self.stack[-1][1] = t[5][1]
            return self.do_drop(b, S, fid, t)
        if k == 'assert':
            self.stack[-1][1] = t[7][1]
            v = self.operand(S, fid, t[1])
            out = []
            for s2, r in self.fork(S, v):
                if r == t[2]:
                    out.append(('go', s2, t[5]))
                else:
                    out.append(('panic', s2, self.panic_info('assert:' + t[3])))
            return out
        if k == 'call':
            self.stack[-1][1] = t[7][1]
            self.callsites += 1
            args = [self.operand(S, fid, a) for a in t[2]]
            self.skip_ok, self.skip_fn = (len(self.stack), b['name']) if head is not None else (None, None)
            res = self.call(S, t[1], args, t[6])
            out = []
            for kind, s2, val in res:
                if kind == 'ret':
                    if t[4] is None:
                        continue
                    if len(t[3]) == 1:
                        s2.mem[('L', fid, t[3][0])] = val
                    else:
                        self.assign(s2, fid, t[3], val)
                    out.append(('go', s2, t[4]))
                elif kind == 'skip':
                    out.append(('go', s2, head))
                else:
                    out.append((kind, s2, val))
            return out
        if k == 'yield':
            return [('div', S, 'pending')]
        raise AnalysisError('terminator %r' % (t[0],))

    def place_ty(self, b, pl):
        """Static type of a place."""
        ty = b['locals'][pl[0]]
        var = 0
        for p in pl[1:]:
            if p == '*':
                ty = self.deref_ty(ty)
            elif p[0] == 'f':
                ty = p[2]
            elif p[0] == 'd':
                var = p[1]
            elif p[0] in ('i', 'ci'):
                ty = self.elem_ty(ty)
        return ty

    def assign(self, S, fid, pl, v):
        root = ('L', fid, pl[0])
        if root not in S.mem and pl[1] != '*':
            # piecewise initialisation of a local
            b = self.rty[('Lb', fid)]
            ty = b['locals'][pl[0]]
            f = self.fields(ty)
            if f is not None and self.T[ty]['k'] in ('struct', 'tuple', 'closure', 'coroutine'):
                S.mem[root] = ('s', ty, 0, (MVD,) * len(f)) if self.T[ty]['k'] == 'struct' else ('t', (MVD,) * len(f))
            elif self.T[ty]['k'] == 'union':
                S.mem[root] = ('un', ty, None, v)
                return
            else:
                S.mem[root] = MVD
        ref = self.place(S, fid, pl)
        cur = S.mem.get(ref[1])
        if cur is not None and cur[0] == 'un':
            S.mem[ref[1]] = ('un', cur[1], None, v)
            return
        if cur == MVD and ref[2]:
            b = self.rty[('Lb', fid)] if ref[1][0] == 'L' else None
            ty = self.root_type(S, ref[1])
            f = self.fields(ty) if ty is not None else None
            if f is not None:
                kk = self.T[ty]['k']
                S.mem[ref[1]] = ('s', ty, 0, (MVD,) * len(f)) if kk == 'struct' else ('t', (MVD,) * len(f))
        self.store(S, ref, v)

    def do_switch(self, S, fid, t):
        v = self.operand(S, fid, t[1]) if t[1][0] == 'c' else self.read_place(S, fid, t[1][1])
        cases = [(int(x[0]), x[1]) for x in t[2]]
        v = self.norm_int(S, v) if v[0] in ('i', 'l', 'y') else v
        if v[0] == 'i':
            for n, bb in cases:
                if n == v[1]:
                    return [('go', S, bb)]
            return [('go', S, t[3])] if t[3] is not None else []
        out = []
        if v[0] == 'y' and v[2][0] == 'discr':
            e = v[2][1]
            tt = self.T[e[1]]
            groups, taken = {}, set()
            dm = {int(x['d']): i for i, x in enumerate(tt['v'])}
            for n, bb in cases:
                if n in dm:
                    groups.setdefault(bb, set()).add(dm[n])
                    taken.add(dm[n])
            rest = set(dm.values()) - taken
            if rest and t[3] is not None:
                groups.setdefault(t[3], set()).update(rest)
            cur = self.variants(S, e)
            for bb, vs in groups.items():
                if not (cur & vs):
                    continue
                n = S.copy()
                if self.restrict(n, e, vs):
                    out.append(('go', n, bb))
            return out
        isb = self.T[t[4]]['k'] == 'bool' if isinstance(t[4], int) else (v[0] == 'y' and v[1] == self.BOOL)
        if isb:
            tgt = {0: None, 1: None}
            for n, bb in cases:
                tgt[n] = bb
            for n in (0, 1):
                if tgt[n] is None:
                    tgt[n] = t[3]
            for s2, r in self.fork(S, v):
                if tgt[int(r)] is not None:
                    out.append(('go', s2, tgt[int(r)]))
            return out
        rest = S.copy()
        alive = True
        for n, bb in cases:
            s2 = S.copy()
            if self.assume_eq(s2, v, I(n)):
                out.append(('go', s2, bb))
            if alive:
                alive = self.assume_ne(rest, v, I(n))
        if alive and t[3] is not None:
            out.append(('go', rest, t[3]))
        return out

    def panic_info(self, what):
        return {'what': what, 'fn': self.stack[-1][0] if self.stack else '?', 'line': self.stack[-1][1] if self.stack else 0,
                'stack': tuple((n, l) for n, l in self.stack)}

    # ------------------------------------------------------------ drops
    def needs_drop(self, ty):
        r = self._nd.get(ty)
        if r is not None:
            return r
        self._nd[ty] = False
        t = self.T[ty]
        k = t['k']
        r = False
        if k in ('tuple',):
            r = any(self.needs_drop(x) for x in t['el'])
        elif k in ('closure', 'coroutine'):
            r = any(self.needs_drop(x) for x in t['ups'])
        elif k == 'array':
            r = self.needs_drop(t['el'])
        elif k in ('struct', 'enum'):
            if 'drop' in t or t.get('path', '').endswith('MutexGuard') or t.get('path', '').endswith('RwLockReadGuard') \
                    or t.get('path', '').endswith('RwLockWriteGuard'):
                r = True
            elif t.get('path', '').startswith('std::sync::') or t.get('path', '').startswith('tokio::') or t.get('path', '').endswith('Arc'):
                r = False
            elif 'v' in t:
                r = any(self.needs_drop(f[1]) for v in t['v'] for f in v['f'])
            else:
                r = any(self.needs_drop(a) for a in t.get('args', ()))
        self._nd[ty] = r
        return r

    def do_drop(self, b, S, fid, t):
        ty = t[4]
        if not self.needs_drop(ty):
            if len(t[1]) == 1:
                root = ('L', fid, t[1][0])
                S.mem[root] = MVD
            return [('go', S, t[2])]
        root = ('L', fid, t[1][0])
        if root not in S.mem or S.mem[root] == MVD:
            return [('go', S, t[2])]
        ref = self.place(S, fid, t[1])
        out = []
        for kind, s2, val in self.drop_at(S, ref, ty):
            if kind == 'ret':
                if ref[1][0] in ('L', 'H'):
                    self.store(s2, ref, MVD)
                out.append(('go', s2, t[2]))
            else:
                out.append((kind, s2, val))
        return out

    def seq_states(self, states, f):
        """Apply f to every returning state, keeping other outcomes."""
        out = []
        for kind, s, v in states:
            if kind == 'ret':
                out.extend(f(s))
            else:
                out.append((kind, s, v))
        return out

    def drop_at(self, S, ref, ty):
        """Drop glue of the value at a place."""
        if not self.needs_drop(ty):
            return [('ret', S, UNIT)]
        v = self.load(S, ref)
        if v[0] == 'mvd':
            return [('ret', S, UNIT)]
        t = self.T[ty]
        k = t['k']
        if v[0] == 'guard':
            self.unlock(S, v)
            return [('ret', S, UNIT)]
        if k == 'tuple' or k in ('closure', 'coroutine'):
            sts = [('ret', S, UNIT)]
            els = t['el'] if k == 'tuple' else t['ups']
            for i, x in enumerate(els):
                if self.needs_drop(x):
                    sts = self.seq_states(sts, lambda s, i=i, x=x: self.drop_at(s, ('r', ref[1], ref[2] + (('f', i),)), x))
            return sts
        if k in ('struct', 'enum'):
            sts = [('ret', S, UNIT)]
            if 'drop' in t:
                sts = self.run_body(S, t['drop'], [ref])
            if 'v' in t:
                if k == 'struct':
                    for i, (n, x) in enumerate(t['v'][0]['f']):
                        if self.needs_drop(x):
                            sts = self.seq_states(sts, lambda s, i=i, x=x: self.drop_at(s, ('r', ref[1], ref[2] + (('f', i),)), x))
                    return sts

                def per(s):
                    out = []
                    vv = self.load(s, ref)
                    for s2, var in self.fork_variants(s, vv):
                        st2 = [('ret', s2, UNIT)]
                        for i, (n, x) in enumerate(t['v'][var]['f']):
                            if self.needs_drop(x):
                                st2 = self.seq_states(st2, lambda s3, i=i, x=x: self.drop_at(
                                    s3, ('r', ref[1], ref[2] + (('vf', var, i),)), x))
                        out.extend(st2)
                    return out
                return self.seq_states(sts, per)
            if t.get('path', '').endswith('HashMap'):
                return self.seq_states(sts, lambda s: self.drop_map(s, self.load(s, ref)))
            if t.get('path', '') in ('std::vec::Vec', 'std::boxed::Box'):
                return sts
            return sts
        return [('ret', S, UNIT)]

    def drop_map(self, S, m):
        import models
        return models.drop_all(self, S, m)

    def unlock(self, S, g):
        S.ev('unlock', g[2])
        S.locks = tuple(x for x in S.locks if x != g[2])

    # ------------------------------------------------------------ calls
    def local_default(self, ty):
        """Body of the crate's own implementation of Default for a type."""
        if self._dflt is None:
            self._dflt = {b['locals'][0]: i for i, b in self.bodies.items() if b['name'].endswith(' as std::default::Default>::default')}
        return self._dflt.get(ty)

    def call(self, S, cal, args, dty):
        decl, path = cal['decl'], cal.get('path', '')
        m = self.models.get(path) or self.models.get(decl)
        if m is not None:
            r = m(self, S, cal, args, dty)
            if r is not None:
                return r
        for pred, m in self.pmodels:
            if pred(cal, path, decl):
                r = m(self, S, cal, args, dty)
                if r is not None:
                    return r
        if cal.get('ctor') is not None:
            c = cal['ctor']
            return [('ret', S, ('s', c[0], c[1], tuple(args)))]
        if cal.get('inst') is not None and cal['inst'] in self.bodies:
            b = self.bodies[cal['inst']]
            if b['kind'] == 'closure' and len(args) == 2 and args[1][0] == 't' and decl.split('::')[-1] in ('call', 'call_mut', 'call_once'):
                return self.call_value(S, args[0], list(args[1][1]), dty)
            if sum(1 for n, _ in self.stack if n == b['name']) > 6:
                raise AnalysisError('recursion in %s' % b['name'])
            return self.run_body(S, cal['inst'], args)
        return self.unknown_call(S, cal, args, dty)

    def unknown_call(self, S, cal, args, dty):
        p = cal.get('path') or cal['decl']
        self.unknown[p] = self.unknown.get(p, 0) + 1
        if self.soft and not p.startswith(('std::fmt::', 'core::fmt::')) and not p.endswith('::display'):
            raise AnalysisError('no model of %s' % p)
        return [('ret', S, self.fresh(dty, p))]

    def call_value(self, S, f, args, dty=None):
        """Call a closure or function value."""
        if f[0] == 'r':
            fv = self.load(S, f)
        else:
            fv = f
        if fv[0] == 'r' and f[0] == 'r':
            return self.call_value(S, fv, args, dty)
        if fv[0] == 'clo':
            b = self.bodies[fv[1]]
            t1 = self.T[b['locals'][1]] if b['argc'] >= 1 else None
            if t1 is not None and t1['k'] == 'ref':
                me = f if f[0] == 'r' else self.alloc(S, fv, fv[2])
            else:
                me = fv
            if b['argc'] == 1 + len(args):
                return self.run_body(S, fv[1], [me] + list(args))
            if b['argc'] == 2 and len(args) != 1:
                return self.run_body(S, fv[1], [me, ('t', tuple(args))])
            raise AnalysisError('closure arity %s' % b['name'])
        if fv[0] == 'fn':
            cal = self.T[fv[1]].get('fn')
            if cal is None:
                raise AnalysisError('fn value %s' % self.T[fv[1]]['s'])
            if dty is None:
                dty = self.fn_ret(cal)
            return self.call(S, cal, list(args), dty)
        if fv[0] == 'pyfn':
            return fv[1](self, S, args)
        self.unknown['<fn value>'] = self.unknown.get('<fn value>', 0) + 1
        if dty is None or self.soft:
            raise AnalysisError('call of %r' % (fv[:2],))
        return [('ret', S, self.fresh(dty, 'fnval'))]

    def fn_ret(self, cal):
        if cal.get('inst') in self.bodies:
            return self.bodies[cal['inst']]['locals'][0]
        if cal.get('ctor'):
            return cal['ctor'][0]
        return None

    def ret_ty_of(self, S, f):
        fv = self.load(S, f) if f[0] == 'r' else f
        if fv[0] == 'clo':
            return self.bodies[fv[1]]['locals'][0]
        if fv[0] == 'fn':
            return self.fn_ret(self.T[fv[1]].get('fn') or {})
        return None

    # ------------------------------------------------------------ loops
    def solve_mir_loop(self, b, fid, head, blocks, S):
        where = (b['name'], head)

        def step(s):
            return self.exec_region(b, fid, head, s, blocks, head)
        n = self.const_trips(b, fid, blocks, S)
        if n is not None:
            outs, cur = [], [S]
            for _ in range(n + 1):
                nxt = []
                for s in cur:
                    for o in step(s.copy()):
                        if o[0] == 'back':
                            nxt.append(o[1])
                        else:
                            outs.append(o)
                cur = nxt
                if len(cur) > 3:
                    break
            if not cur:
                return outs
        return self.solve_loop(S, step, where)

    def const_trips(self, b, fid, blocks, S):
        """Trips of a loop over an iterator whose remaining length is a small constant."""
        import models
        best = None
        for i in blocks:
            for st in b['blocks'][i][0]:
                if st[0] == 'a' and st[2][0] == 'ref' and len(st[2][2]) == 1:
                    v = S.mem.get(('L', fid, st[2][2][0]))
                    if v is not None and v[0] == 'it':
                        try:
                            k = models.it_remaining(self, S, v, 64)
                        except (AnalysisError, IndexError, TypeError):
                            k = None
                        if k and k > 1 and (best is None or k > best):
                            best = k
        return best

    def solve_loop(self, S0, step, where):
        """Fixpoint over a loop. step(S) yields 'back' states and other outcomes."""
        lid = next(self.cnt)
        ent = S0
        phis = {}        # loc -> phi symbol (or MVD)
        cands = None     # candidate invariants (tested by Houdini)
        vsets = {}       # phi -> variant set
        bump = {}        # map id -> True
        dead = set()
        dropped = set()
        counters = None  # phis that only ever move by a phi-independent amount (None: not yet known)
        info = LoopInfo()
        info.lid, info.entry, info.where = lid, ent, where
        info.fn = self.stack[-1][0] if self.stack else '?'
        self.loops[lid] = info
        lifted = set()
        for rnd in range(40):
            for loc in lifted:
                r = self.load_loc(ent, loc)
                if r[0] == 'r' and (not r[2] or r[2][-1][0] != 'sl'):
                    info.entry = ent = ent.copy()
                    self.store_loc(ent, loc, ('r', r[1], r[2] + (('sl', I0, self.seq_len(self.load(ent, r))),)))
            H = ent.copy()
            for mid in bump:
                self.bump_map(H, mid, lid)
            for loc, ph in phis.items():
                self.store_loc(H, loc, ph)
                if ph[0] == 'y' and ph in vsets:
                    H.vs[ph] = vsets[ph]
            for loc in dead:
                self.store(H, ('r',) + loc, MVD)
            cset = self.loop_cands(ent, phis, lid, H, counters) if counters is not None else {}
            for cid, (a, bb) in cset.items():
                if cid not in dropped:
                    if not self.assume_le(H, a, bb):
                        raise AnalysisError('loop candidate contradiction %r' % (cid,))
            H.log = H.log + (('loop', lid),)
            hl = len(H.log)
            info.head = H.copy()
            save = (self.steps,)
            outs = step(H.copy())
            backs = [o for o in outs if o[0] == 'back']
            again = False
            for _, B, _v in backs:
                # ordinary locations
                lazy = [r for r in B.mem if r[0] in ('D', 'E') and r not in info.head.mem]
                for root in list(info.head.mem) + lazy:
                    bv = B.mem.get(root)
                    if bv is None:
                        continue
                    hv = info.head.mem.get(root)
                    if hv is None:
                        # storage of the entry state that had not been written before the loop
                        if root[0] == 'E':
                            hm = info.head.maps.get(root[1])
                            if hm is None or hm.ver != root[2] or root[3] not in hm.entries:
                                continue
                        hv = self.root_value(info.head, root)
                        if self.same(B, bv, hv):
                            continue
                    if bv == hv:
                        continue
                    for path, a, c in self.diff(hv, bv, ()):
                        loc = (root, path)
                        if a[0] == 'mvd' or c[0] == 'mvd':
                            if loc not in dead and a[0] != 'mvd':
                                dead.add(loc)
                                for k in [k for k in phis if k[0] == root and k[1][:len(path)] == path]:
                                    del phis[k]
                                again = True
                            continue
                        if loc in phis:
                            # widen variant sets
                            ph = phis[loc]
                            if ph[0] == 'y' and ph in vsets:
                                try:
                                    nv = self.variants(B, c)
                                except AnalysisError:
                                    nv = None
                                if nv is None or not nv <= vsets[ph]:
                                    if nv is None:
                                        del vsets[ph]
                                    else:
                                        vsets[ph] = vsets[ph] | nv
                                    again = True
                            continue
                        if a[0] == c[0] == 'r' and a[1] == c[1] and c[2] and c[2][-1][0] == 'sl' and a[2] == c[2][:-1] and loc not in lifted:
                            # a whole sequence is the part from its start to its end
                            lifted.add(loc)
                            again = True
                            continue
                        # a location below an existing phi cannot differ structurally; above: replace
                        for k in [k for k in phis if k[0] == root and k[1][:len(path)] == path]:
                            del phis[k]
                        ty = self.loc_type(info.head, root, path)
                        if ty is None:
                            ty = self.guess_ty(a) if self.guess_ty(a) is not None else self.guess_ty(c)
                        if ty is None and a[0] in ('i', 'l') :
                            ty = self.USIZE
                        if ty is None:
                            raise AnalysisError('untyped loop location %r: %r vs %r' % (loc, a, c))
                        t = self.T[ty]
                        if a[0] in ('it', 'fut', 'guard', 'r', 'box') or c[0] in ('it', 'fut', 'guard', 'box'):
                            if a[0] == 'r' or c[0] == 'r':
                                ph = ('y', ty, ('phi', lid, loc))
                            else:
                                raise AnalysisError('loop changes %r to %r' % (a[:3], c[:3]))
                        else:
                            ph = ('y', ty, ('phi', lid, loc))
                        if 'v' in t and t['k'] == 'enum':
                            try:
                                vsets[ph] = self.variants(ent, a) | self.variants(B, c)
                            except AnalysisError:
                                pass
                        phis[loc] = ph
                        again = True
                # maps
                for mid, bm in B.maps.items():
                    hm = info.head.maps.get(mid)
                    ch = False
                    if hm is None and locked_since(mid, lid):
                        pass      # contents of a lock taken in this iteration
                    elif hm is None:
                        # first touched inside the loop
                        for key, (p, ip) in bm.entries.items():
                            if p != ip or self.entry_changed(B, mid, bm.ver, key):
                                ch = True
                        if ch and bm.base is None:
                            ch = False
                    else:
                        for key, (p, ip) in bm.entries.items():
                            if key in hm.entries:
                                if hm.entries[key][0] != p:
                                    ch = True
                            elif p != ip or self.entry_changed(B, mid, bm.ver, key):
                                ch = True
                        if hm.ver != bm.ver:
                            ch = True
                    if ch and mid not in bump:
                        bump[mid] = True
                        for k in [k for k in phis if k[0][0] == 'E' and k[0][1] == mid]:
                            del phis[k]
                        again = True
                if B.locks != info.head.locks:
                    B.notes = B.notes + (('locks-change-in-loop', where),)
            if again:
                counters = None
                continue
            if counters is None:
                counters = set()
                for loc, ph in phis.items():
                    if ph[0] != 'y' or self.int_range(ph[1]) is None:
                        continue
                    ok = bool(backs)
                    for _, B, _v in backs:
                        bv = self.load_loc(B, loc)
                        if bv[0] not in ('i', 'l', 'y') or any(contains(x, ph) for x, _ in lin(sub(bv, ph))[1]):
                            ok = False
                    if ok:
                        counters.add(loc)
                if self.loop_cands(ent, phis, lid, H, counters):
                    continue
            # test candidates
            bad = set()
            for cid, (a, bb) in cset.items():
                if cid in dropped:
                    continue
                for _, B, _v in backs:
                    m = {}
                    for loc, ph in phis.items():
                        m[ph] = self.load_loc(B, loc)
                    m2 = dict(m)
                    for loc, ph in phis.items():
                        if ph[0] == 'y' and self.is_seq_ty(ph[1]):
                            m2[self.sym_len(ph)] = self.seq_len(m[ph])
                    m3 = {k: v for k, v in m2.items() if v[0] in ('i', 'l', 'y')}
                    a2, b2 = self.lsub(a, m3), self.lsub(bb, m3)
                    if not self.prove_le(B, a2, b2):
                        bad.add(cid)
                        break
            if bad:
                dropped |= bad
                continue
            info.backs = [B for _, B, _v in backs]
            info.phis = dict(phis)
            info.mlog = hl
            info.bumped = set(bump)
            info.idx = [(loc, ph) for loc, ph in phis.items() if ph[0] == 'y' and self.int_range(ph[1]) is not None]
            unk = [o for o in outs if o[0] == 'unk']
            # nothing is known after a loop with an iteration that was given up
            return unk or self.summarise(info, self.tied(info, [o for o in outs if o[0] != 'back']))
        raise AnalysisError('loop does not stabilise at %r' % (where,))

    def tied(self, info, outs):
        """A flag that is set exactly when a list is first extended says whether the list is empty: outcomes by cases."""
        if not info.backs:
            return outs
        lists, flags = [], []
        for loc, ph in info.phis.items():
            if ph[0] != 'y':
                continue
            v = self.load_loc(info.entry, loc)
            if self.is_seq_ty(ph[1]):
                if self.seq_len(v) == I0:
                    lists.append((loc, ph))
            elif v[0] == 's' and not v[3] and self.T[ph[1]]['k'] == 'enum' or v[0] == 'i' and self.T[ph[1]]['k'] == 'bool':
                flags.append((loc, ph, v))
        for loc, ph in lists:
            n = self.sym_len(ph)
            for floc, fph, a in flags:
                b = None
                for B in info.backs:
                    m, f = self.seq_len(self.load_loc(B, loc)), self.load_loc(B, floc)
                    if self.prove_eq(B, m, n):
                        if f != fph:
                            b = None
                            break
                    elif self.prove_le(B, add(n, I1), m) and f[0] == a[0] and f != a and (f[0] == 'i' or not f[3]) and b in (None, f):
                        b = f
                    else:
                        b = None
                        break
                if b is None:
                    continue
                res = []
                for o in outs:
                    for w, (lo, hi) in ((a, (n, I0)), (b, (I1, n))):
                        S = o[1].copy()
                        if not self.assume_le(S, lo, hi):
                            continue
                        if w[0] == 'i':
                            if S.bt.get(fph, bool(w[1])) != bool(w[1]):
                                continue
                            S.bt[fph] = bool(w[1])
                        else:
                            vs = S.vs.get(fph)
                            if vs is not None and w[2] not in vs:
                                continue
                            S.vs[fph] = frozenset((w[2],))
                        res.append((o[0], S) + tuple(o[2:]))
                outs = res
        return outs

    def summarise(self, info, outs):
        """What a list that every iteration extends holds when the loop has seen every position of a sequence."""
        if not info.backs or info.bumped:
            return outs
        for loc, ph in info.phis.items():
            if ph[0] != 'y' or not self.is_seq_ty(ph[1]):
                continue
            for iloc, iph in info.idx:
                try:
                    r = self.summary(info, loc, ph, iloc, iph)
                except (AnalysisError, IndexError, KeyError, TypeError):
                    r = None
                if r is None:
                    continue
                total, end = r
                m = {ph: total, self.sym_len(ph): self.seq_len(total)}
                hit = False
                for o in outs:
                    S = o[1]
                    if self.prove_eq(S, iph, end):
                        hit = True
                        for k, x in list(S.mem.items()):
                            if contains(x, ph):
                                S.mem[k] = subst(x, m)
                if hit:
                    self.sums.update(m)
                    outs = [(o[0], o[1], subst(o[2], m)) + tuple(o[3:]) if len(o) > 2 and isinstance(o[2], tuple) and contains(o[2], ph)
                            and self.prove_eq(o[1], iph, end) else o for o in outs]
                break
        return outs

    def summary(self, info, loc, ph, iloc, iph):
        import models
        ent, head = info.entry, info.head
        if self.load_loc(ent, iloc) != I0 or not iloc[1] or iloc[1][-1][0] != '#':
            return None
        itloc = (iloc[0], iloc[1][:-1])
        it = self.load_loc(ent, itloc)
        end = models.iter_end(self, ent, it)
        if end is None or it[1] not in ('sl', 'vi', 'rg', 'ch') or models.iter_end(self, head, self.load_loc(head, itloc)) != end:
            return None
        own = [x for x in info.phis.values() if x != iph]
        pieces = []
        for B in info.backs:
            if self.load_loc(B, iloc) != add(iph, I1):
                return None
            parts = self.seq_parts(self.load_loc(B, loc))
            if not parts or parts[0] != ('q', ph, I0, self.sym_len(ph)):
                return None
            piece = self.freeze(B, ('v', tuple(parts[1:])))
            if any(contains(piece, x) for x in own) or models.bv_depth(piece) and len(info.backs) > 1:
                return None
            facts = tuple(sorted(((y, vs) for y, vs in B.vs.items() if contains(y, iph) and head.vs.get(y) != vs), key=repr))
            if any(contains(y, iph) for y in B.bt if y not in head.bt):
                facts = None
            pieces.append((facts, B, piece))
        v0 = self.seq_parts(self.load_loc(ent, loc))
        first = pieces[0][2]
        bv = lambda k: ('y', self.USIZE, ('bv', k))
        if len(first[1]) == 1 and first[1][0][0] == 'e' and all(p[2] == first for p in pieces):
            k = models.bv_depth(first)
            tot = models.comp(self, ph[1], subst(first[1][0][1], {iph: bv(k)}), end, k)
        elif self.T[self.elem_ty(ph[1])]['s'] == 'u8' and all(f is not None for f, _, _ in pieces) and not models.bv_depth(first):
            src = ('n', end)
            if it[1] in ('sl', 'vi'):
                src = self.load(ent, it[2]) if it[1] == 'sl' else it[2]
                if not self.prove_eq(ent, it[4], self.seq_len(src)):
                    src = (src, it[3], it[4])
            cases = [(f, ('v', self.canon_seq(B, p))) for f, B, p in pieces]
            if len(cases) == 1 and not cases[0][0]:
                r = models.unstride(self, ent, cases[0][1], end, iph)
                if r is not None:
                    return ('v', self.simp_parts(ent, tuple(v0) + self.seq_parts(r))), end
            tot = ('y', ph[1], ('flat', src, subst(tuple(sorted(cases, key=repr)), {iph: bv(0)})))
        else:
            return None
        if not v0:
            return tot, end
        return ('v', self.simp_parts(ent, tuple(v0) + self.seq_parts(tot))), end

    def lsub(self, v, m):
        c, it = lin(v)
        r = I(c)
        for t, k in it:
            r = add(r, scale(m.get(t, t), k))
        return r

    def loop_cands(self, ent, phis, lid, H, counters):
        """Candidate inductive bounds: monotone counters, iterator positions, accumulated lengths."""
        out = {}
        ints, seqs = [], []
        for loc, ph in phis.items():
            if ph[0] != 'y':
                continue
            if self.int_range(ph[1]) is not None and self.T[ph[1]]['k'] == 'int':
                if loc not in counters:
                    if len(loc[1]) > 1 and loc[1][-1][0] == loc[1][-2][0] == '#':
                        # the start of a part of a sequence
                        e, end = self.load_loc(ent, loc), self.iter_end(ent, loc)
                        if end is not None and self.prove_le(ent, e, end):
                            out[('ge', loc)] = (e, ph)
                            out[('end', loc)] = (ph, end)
                    continue
                e = self.load_loc(ent, loc)
                if e[0] in ('i', 'l', 'y'):
                    out[('ge', loc)] = (e, ph)
                    out[('le', loc)] = (ph, e)
                    ints.append((loc, ph, e))
                    end = self.iter_end(ent, loc)
                    if end is not None and self.prove_le(ent, e, end):
                        out[('end', loc)] = (ph, end)
            elif self.is_seq_ty(ph[1]):
                e = self.load_loc(ent, loc)
                try:
                    seqs.append((loc, ph, self.seq_len(e)))
                except AnalysisError:
                    pass
        for loc, ph, n in seqs:
            L = self.sym_len(ph)
            out[('lenge', loc)] = (n, L)
            out[('lenle', loc)] = (L, n)
            for il, ip, ie in ints:
                d = add(n, sub(ip, ie))
                out[('lenle', loc, il)] = (L, d)
                out[('lenge', loc, il)] = (d, L)
        for (l1, p1, e1), (l2, p2, e2) in itertools.permutations(ints, 2):
            out[('idx', l1, l2)] = (sub(p1, e1), sub(p2, e2))
        return out

    def iter_end(self, S, loc):
        """Upper bound of an iterator position stored at loc."""
        root, path = loc
        if path and path[-1][0] == '#':
            v = self.root_value(S, root)
            for st in path[:-1]:
                v = v[st[1]] if st[0] == '#' else self.proj(S, v, st)
            import models
            return models.iter_end(self, S, v)
        return None

    def load_loc(self, S, loc):
        v = self.root_value(S, loc[0])
        for st in loc[1]:
            v = v[st[1]] if st[0] == '#' else self.proj(S, v, st)
        return v

    def store_loc(self, S, loc, v):
        S.mem[loc[0]] = self.upd(S, self.root_value(S, loc[0]), loc[1], v) if loc[1] else v

    def loc_type(self, S, root, path):
        ty = self.root_type(S, root)
        for st in path:
            if st[0] == '#':
                return self.USIZE
            ty = self.step_type(ty, st)
            if ty is None:
                return None
        return ty

    def entry_changed(self, S, mid, ver, key):
        root = ('E', mid, ver, key)
        v = S.mem.get(root)
        if v is None:
            return False
        init = self.init_elem(mid, ver, key)
        return not self.same(S, v, init)

    def same(self, S, v, init):
        """Is v structurally the (possibly expanded) initial symbol?"""
        if v == init:
            return True
        if v[0] == 's' and init[0] == 'y':
            if self.T[v[1]]['k'] == 'enum' and self.variants(S, init) != frozenset([v[2]]):
                return False
            for i, x in enumerate(v[3]):
                if not self.same(S, x, self.sym_field(S, init, v[2], i)):
                    return False
            return True
        if v[0] == 't' and init[0] == 't':
            return len(v[1]) == len(init[1]) and all(self.same(S, a, b) for a, b in zip(v[1], init[1]))
        if v[0] == 'map' or init[0] == 'map':
            return v == init
        return False

    def bump_map(self, S, mid, lid):
        m = S.maps.get(mid)
        if m is None:
            K, V = self.map_kv(mid)
            m = MapS(mid, 0, K, V)
        else:
            m = m.copy()
        m.ver = ('lp', lid, m.ver)
        m.entries = {}
        m.base = m.base if m.base is not None else ('grown', mid)
        m.delta = 0
        S.maps[mid] = m

    def map_kv(self, mid):
        if mid[0] == 'y':
            t = self.T[mid[1]]
            return t['args'][0], t['args'][1]
        return self.rty[('kv', mid)]

    def diff(self, a, b, path):
        if a == b:
            return
        if a[0] == b[0]:
            if a[0] == 's' and a[1] == b[1] and a[2] == b[2]:
                isenum = self.T[a[1]]['k'] == 'enum'
                for i, (x, y) in enumerate(zip(a[3], b[3])):
                    yield from self.diff(x, y, path + (('vf', a[2], i) if isenum else ('f', i),))
                return
            if a[0] == 't' and len(a[1]) == len(b[1]):
                for i, (x, y) in enumerate(zip(a[1], b[1])):
                    yield from self.diff(x, y, path + (('f', i),))
                return
            if a[0] in ('clo', 'co') and a[1] == b[1]:
                for i, (x, y) in enumerate(zip(a[3], b[3])):
                    yield from self.diff(x, y, path + (('f', i),))
                return
            if a[0] == 'it' and a[1] == b[1] and len(a) == len(b):
                for i in range(2, len(a)):
                    if a[i] != b[i]:
                        if isinstance(a[i], tuple) and isinstance(b[i], tuple) and a[i] and b[i]:
                            yield from self.diff(a[i], b[i], path + (('#', i),))
                        else:
                            yield path, a, b
                return
            # parts of the same sequence
            if a[0] == 'r' and a[1] == b[1] and a[2] and b[2] and a[2][-1][0] == b[2][-1][0] == 'sl' and a[2][:-1] == b[2][:-1]:
                for i in (1, 2):
                    yield from self.diff(a[2][-1][i], b[2][-1][i], path + (('#', 2), ('#', len(a[2]) - 1), ('#', i)))
                return
        # a symbol against its own expansion
        if a[0] == 'y' and b[0] == 's' and a[1] == b[1]:
            t = self.T[a[1]]
            if t['k'] == 'struct' and 'v' in t:
                for i, y in enumerate(b[3]):
                    yield from self.diff(self.sym_field(None, a, 0, i), y, path + (('f', i),))
                return
        yield path, a, b
