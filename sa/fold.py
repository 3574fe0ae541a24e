"""Loops as folds: which loop variables are provably the spec's accumulators.

A loop of the program is matched against a fold `acc := step(acc, item)` over a sequence by induction: some loop
variable counts positions from 0 to the length in steps of one, every accumulator starts at the fold's initial value
and every iteration takes it where the fold's step takes it.
"""
import itertools
import models
from engine import I, I0, I1, AnalysisError, add, sub
from world import explore, Dead


class Seq:
    """A sequence by its length and element function."""

    def __init__(self, E, S, value):
        self.E = E
        self.parts = E.simp_parts(S, E.seq_parts(value))
        self.n = E.parts_len(self.parts)

    def at(self, c, p):
        return self.E.index_parts(c.S, self.parts, p)


def loops_of(S, start=0):
    return [e[1] for e in S.log[start:] if e[0] == 'loop']


def positions(W, c, info, n):
    """Loop variables that run from 0 to n in steps of one, once per iteration."""
    E = W.E
    out = []
    for loc, ph in info.phis.items():
        if ph[0] != 'y' or E.int_range(ph[1]) is None or E.T[ph[1]]['k'] != 'int':
            continue
        e = E.load_loc(info.entry, loc)
        if e != I0 and not (e[0] in ('i', 'l', 'y') and E.prove_eq(info.entry, e, I0)):
            continue
        if not all(E.prove_eq(B, E.load_loc(B, loc), add(ph, I1)) for B in info.backs):
            continue
        if not E.prove_eq(c.S, ph, n):
            # at least n when the loop ends, and never more: no iteration starts at n
            if not (E.prove_le(c.S, n, ph) and E.prove_le(info.entry, I0, n) and all(E.prove_le(B, add(ph, I1), n) for B in info.backs)):
                continue
        out.append(ph)
    return out


def repetitions(W, c, info, n):
    """Does a loop variable count the iterations up from 0 to n, or down from n to 0?"""
    E = W.E
    if positions(W, c, info, n):
        return True
    for loc, ph in info.phis.items():
        if ph[0] == 'y' and E.int_range(ph[1]) is not None and E.T[ph[1]]['k'] == 'int':
            e = E.load_loc(info.entry, loc)
            if e[0] in ('i', 'l', 'y') and E.prove_eq(info.entry, e, n) and E.prove_eq(c.S, ph, I0) \
                    and all(E.prove_eq(B, E.load_loc(B, loc), sub(ph, I1)) for B in info.backs):
                return True
    return False


def same_kind(E, ph, v):
    if v[0] in ('i', 'l'):
        return E.int_range(ph[1]) is not None
    if v[0] in ('y', 's'):
        return ph[1] == v[1] or E.T[ph[1]]['k'] == E.T[v[1]]['k']
    if v[0] in ('v', 'a'):
        return E.is_seq_ty(ph[1])
    return True


def candidates(W, info, init, ps):
    """Locations that hold init when the loop is entered, and None for an accumulator that never changes."""
    E = W.E
    out = []

    def ok(ev):
        if ev == init:
            return True
        try:
            return all(E.truth(s, r) is True for s, r in models.eq(E, info.entry.copy(), ev, init))
        except (AnalysisError, KeyError, IndexError):
            return False
    if init[0] in ('s', 'y') and E.T[init[1]]['k'] == 'struct' and 'v' in E.T[init[1]] and not E.is_seq_ty(init[1]):
        roots = {loc[0] for loc in info.phis}

        def walk(loc, v, d):
            if v[0] in ('s', 'y') and v[1] == init[1]:
                if ok(v):
                    out.append(loc)
            elif v[0] == 's' and d < 3:
                k = E.T[v[1]]['k']
                for i, x in enumerate(v[3]):
                    if isinstance(x, tuple) and x and x[0] in ('s', 'y'):
                        walk((loc[0], loc[1] + ((('vf', v[2], i) if k == 'enum' else ('f', i)),)), x, d + 1)
        for r in sorted(roots, key=repr):
            try:
                walk((r, ()), E.root_value(info.entry, r), 0)
            except AnalysisError:
                pass
    else:
        for loc, ph in info.phis.items():
            if ph[0] != 'y' or ph in ps or not same_kind(E, ph, init):
                continue
            try:
                if ok(E.load_loc(info.entry, loc)):
                    out.append(loc)
            except (AnalysisError, KeyError, IndexError):
                pass
    return out + [None]


MEMO = {}


class NoFold(Exception):
    pass


def fold(W, c, seq, accs, step, lids=None, only=None, memo=None):
    """{acc: value after the loop}, lid; raises NoFold(reason)."""
    E = W.E
    if c.must_eq(seq.n, I0):
        return {a: v for a, v in accs.items()}, None, None
    reasons = []
    for lid in (loops_of(c.S) if lids is None else lids):
        info = E.loops[lid]
        ps = positions(W, c, info, seq.n)
        if not ps:
            continue
        cands = [[only[a]] if only else candidates(W, info, init, ps) for a, init in accs.items()]
        best = None
        for combo in itertools.product(*cands):
            used = [x for x in combo if x is not None]
            if len(set(used)) != len(used):
                continue
            for p in ps:
                k = None if memo is None else (lid, p, combo, memo)
                if k is not None and k in MEMO:
                    r = MEMO[k]
                else:
                    r = check(W, info, seq, p, dict(zip(accs, combo)), accs, step)
                    if k is not None:
                        MEMO[k] = r
                if r is None:
                    return ({a: (E.load_loc(info.head, x) if x is not None else accs[a]) for a, x in zip(accs, combo)}, lid,
                            {a: x for a, x in zip(accs, combo)})
                score = sum(x is not None for x in combo)
                if best is None or score > best[0]:
                    best = (score, r)
        if best:
            reasons.append('%s: %s' % (info.fn, best[1]))
    raise NoFold('; '.join(reasons) or 'no loop goes over all items')


def check(W, info, seq, p, m, accs, step):
    E = W.E
    for B in info.backs:
        def one(c):
            item = seq.at(c, p)
            vals = {a: (E.load_loc(info.head, x) if x is not None else accs[a]) for a, x in m.items()}
            new = step(c, item, vals, B)
            if isinstance(new, str):
                return new
            for a, v in new.items():
                got = E.load_loc(c.S, m[a]) if m[a] is not None else accs[a]
                if callable(v):
                    r = v(got)
                    if r is not True:
                        return '%s %s' % (a, r)
                elif not c.must_eq(got, v):
                    return '%s becomes %s instead of %s' % (a, W.show(got)[:200], W.show(v)[:200])
            return None
        for _, r in explore(W, B, one):
            if r is not None:
                return r
    return None


def exists(W, c, seq, pred, memo=None):
    """Is there an item with pred(c, item)?  True/False when the outcome decided it, else None."""
    E = W.E
    if c.must_eq(seq.n, I0):
        return False
    for lid in loops_of(c.S):
        info = E.loops[lid]
        for loc, ph in info.phis.items():
            if ph[0] != 'y' or E.int_range(ph[1]) is None or E.T[ph[1]]['k'] != 'int':
                continue
            if not E.prove_le(c.S, add(ph, I1), seq.n) or not E.prove_le(c.S, I0, ph):
                continue
            if all(r is True for _, r in explore(W, c.S, lambda c2: pred(c2, seq.at(c2, ph)))):
                return True
        for p in positions(W, c, info, seq.n):
            k = ('no', lid, p, memo)
            if memo is None or k not in MEMO:
                r = all(r is False for B in info.backs for _, r in explore(W, B, lambda c2: pred(c2, seq.at(c2, p))))
                MEMO[k] = r
            else:
                r = MEMO[k]
            if r:
                return False
        # a flag that remembers a hit, or a list or a count that grows with every hit
        for kind, init in (('bool', I0), ('list', ('v', ())), ('int', I0)):
            size = (lambda v: v) if kind == 'int' else E.seq_len

            def step(c2, item, vals, B):
                old = vals['f']
                hit = pred(c2, item)
                if kind == 'bool':
                    was = c2.cond(old)
                    return {'f': I1 if hit or was else I0}
                if hit:
                    return {'f': lambda v: E.prove_le(c2.S, add(size(old), I1), size(v)) or 'does not grow'}
                return {'f': old}
            for loc in candidates(W, info, init, ()):
                if loc is None or (init == I0 and E.T[info.phis[loc][1]]['k'] != kind):
                    continue
                try:
                    f, l2, _ = fold(W, c, seq, {'f': init}, step, [lid], {'f': loc}, memo and ('ex', kind, memo))
                except NoFold:
                    continue
                v = f['f']
                return c.cond(v) if kind == 'bool' else not c.le(size(v), I0)
    return None
