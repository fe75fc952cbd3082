"""Affine symbolic integers and conjunctions of linear constraints (a small convex-polyhedra domain).

Feasibility and entailment are decided by Fourier-Motzkin elimination with integer tightening; no external solver.
"""
from __future__ import annotations

from functools import lru_cache
from math import gcd


class Lin:
    """c + sum(coef * var), immutable."""
    __slots__ = ('t', 'c', '_h')

    def __init__(self, t=(), c=0):
        self.t = t if isinstance(t, tuple) else tuple(sorted((v, k) for v, k in t.items() if k))
        self.c = c
        self._h = hash((self.t, c))

    def __hash__(self): return self._h

    def __eq__(self, o): return isinstance(o, Lin) and self.t == o.t and self.c == o.c

    @staticmethod
    def var(name): return Lin(((name, 1),), 0)

    @property
    def is_const(self): return not self.t

    def vars(self): return [v for v, _ in self.t]

    def add(self, o):
        if isinstance(o, int): return Lin(self.t, self.c + o)
        d = dict(self.t)
        for v, k in o.t:
            d[v] = d.get(v, 0) + k
        return Lin(d, self.c + o.c)

    def neg(self): return Lin(tuple((v, -k) for v, k in self.t), -self.c)

    def sub(self, o):
        return self.add(-o if isinstance(o, int) else o.neg())

    def mul(self, k):
        if k == 0: return Lin((), 0)
        return Lin(tuple((v, c * k) for v, c in self.t), self.c * k)

    def div_exact(self, k): return Lin(tuple((v, c // k) for v, c in self.t), self.c // k)

    def subst(self, env):
        d, c = {}, self.c
        for v, k in self.t:
            if v in env:
                e = env[v]
                if isinstance(e, int): c += k * e
                else:
                    c += k * e.c
                    for v2, k2 in e.t: d[v2] = d.get(v2, 0) + k * k2
            else:
                d[v] = d.get(v, 0) + k
        return Lin(d, c)

    def __repr__(self):
        s = ''
        for v, k in self.t:
            s += ('+' if k > 0 and s else '-' if k < 0 else '') + ('' if abs(k) == 1 else f'{abs(k)}*') + str(v)
        if self.c or not s: s += (f'+{self.c}' if self.c > 0 and s else str(self.c))
        return s


def L(x):
    return x if isinstance(x, Lin) else Lin((), int(x))


def unlin(x):
    """Lin -> int when constant."""
    return x.c if isinstance(x, Lin) and not x.t else x


def _norm(l: Lin) -> Lin:
    g = 0
    for _, k in l.t: g = gcd(g, k)
    if g > 1:
        return Lin(tuple((v, k // g) for v, k in l.t), l.c // g)  # floor = integer tightening of  .. + c >= 0
    return l


@lru_cache(maxsize=200000)
def feasible(cons: frozenset) -> bool:
    """Is the conjunction of (l >= 0) satisfiable (over rationals, with integer tightening)?"""
    cs = set()
    for l in cons:
        l = _norm(l)
        if not l.t:
            if l.c < 0: return False
            continue
        cs.add(l)
    return _fm(cs)


def _dedupe(cs):
    best = {}
    for l in cs:
        if l.t not in best or best[l.t] > l.c: best[l.t] = l.c
    # contradiction check  a + c1 >= 0, -a + c2 >= 0  -> c1 + c2 >= 0
    for t, c in best.items():
        nt = tuple((v, -k) for v, k in t)
        if nt in best and best[nt] + c < 0: return None
    return {Lin(t, c) for t, c in best.items()}


def _fm(cs) -> bool:
    while True:
        cs = _dedupe(cs)
        if cs is None: return False
        if not cs: return True
        # choose the variable with the least growth
        pos, neg = {}, {}
        for l in cs:
            for v, k in l.t:
                (pos if k > 0 else neg).setdefault(v, []).append(l)
        allv = set(pos) | set(neg)
        one_sided = [v for v in allv if v not in pos or v not in neg]
        if one_sided:
            v = one_sided[0]
            drop = pos.get(v) or neg.get(v)
            cs = cs - set(drop)
            continue
        v = min(allv, key=lambda x: (len(pos[x]) * len(neg[x]), str(x)))
        new = set()
        for p in pos[v]:
            kp = dict(p.t)[v]
            for n in neg[v]:
                kn = -dict(n.t)[v]
                g = gcd(kp, kn)
                r = _norm(p.mul(kn // g).add(n.mul(kp // g)))
                if not r.t:
                    if r.c < 0: return False
                else:
                    new.add(r)
        cs = (cs - set(pos[v]) - set(neg[v])) | new
        if len(cs) > 4000: return True  # give up: treat as feasible


def relevant(cons, lins):
    """Connected component of constraints sharing variables with lins."""
    vs = set()
    for l in lins: vs.update(l.vars())
    rest = list(cons)
    out = []
    changed = True
    while changed:
        changed = False
        keep = []
        for l in rest:
            lv = l.vars()
            if not lv or any(v in vs for v in lv):
                out.append(l); vs.update(lv); changed = True
            else: keep.append(l)
        rest = keep
    return out


def entails(cons, l: Lin) -> bool:
    if not l.t: return l.c >= 0
    for c in cons:
        if c.t == l.t and c.c <= l.c: return True
    neg = l.neg().add(-1)
    if not isinstance(cons, (tuple, list, frozenset)): cons = tuple(cons)
    return not feasible(frozenset(relevant(cons, [l]) + [neg]))


@lru_cache(maxsize=20000)
def _project(cs, l):
    """Bounds of l under cs by elimination of every variable but z = l; 'fail' when the elimination grows too large."""
    z = '\0z'
    u = next((i for i, (v, k) in enumerate(l.t) if k in (1, -1)), None)
    zl = Lin(((z, 1),), 0)
    if u is None: cs = set(cs) | {zl.sub(l), l.sub(zl)}
    else:
        v, k = l.t[u]
        rest = Lin(l.t[:u] + l.t[u + 1:], l.c)
        e = zl.sub(rest).mul(k)
        cs = {_norm(c.subst({v: e})) for c in cs}
    while True:
        if any(not c.t and c.c < 0 for c in cs): return 'empty'
        cs = _dedupe([c for c in cs if c.t])
        if cs is None: return 'empty'
        pos, neg = {}, {}
        for c in cs:
            for v, k in c.t:
                if v != z: (pos if k > 0 else neg).setdefault(v, []).append(c)
        allv = set(pos) | set(neg)
        if not allv: break
        one = [v for v in allv if v not in pos or v not in neg]
        if one:
            cs = cs - set(pos.get(one[0]) or neg.get(one[0]))
            continue
        v = min(allv, key=lambda x: (len(pos[x]) * len(neg[x]), str(x)))
        new = set()
        for p in pos[v]:
            kp = dict(p.t)[v]
            for n in neg[v]:
                kn = -dict(n.t)[v]
                g = gcd(kp, kn)
                new.add(_norm(p.mul(kn // g).add(n.mul(kp // g))))
        cs = (cs - set(pos[v]) - set(neg[v])) | new
        if len(cs) > 4000: return 'fail'
    lo = hi = None
    for c in cs:
        k = dict(c.t).get(z, 0)
        if k > 0:       # k z + c >= 0
            x = -(c.c // k)
            lo = x if lo is None or x > lo else lo
        elif k < 0:
            x = c.c // -k
            hi = x if hi is None or x < hi else hi
    return lo, hi


def bounds(cons, l: Lin, limit=1 << 62):
    """(lo, hi) of l, None where unbounded."""
    if not l.t: return l.c, l.c
    r = _project(frozenset(relevant(cons, [l])), l)
    if r in ('fail', 'empty'): return _bounds_search(cons, l, limit)
    return tuple(None if x is None or abs(x) > limit else x for x in r)


def _bounds_search(cons, l: Lin, limit=1 << 62):
    if not l.t: return l.c, l.c
    rel = tuple(relevant(cons, [l]))

    def search(f):
        # largest k in [-limit, limit] such that f(k) (monotone: true for small k)
        if not f(-limit): return None
        lo, hi = -limit, limit
        if f(hi): return hi
        # gallop
        while hi - lo > 1:
            mid = (lo + hi) // 2
            if f(mid): lo = mid
            else: hi = mid
        return lo
    lo = search(lambda k: entails(rel, l.add(-k)))
    hi = search(lambda k: entails(rel, l.neg().add(-k)))
    return lo, (None if hi is None else -hi)


def model(cons, maxtries=4000):
    """A concrete integer model of the constraints (dict var->int), or None. Used only to print witnesses and to
    confirm that an abstract counterexample is not an artefact of the rational relaxation."""
    cons = [l for l in cons]
    vs = sorted({v for l in cons for v in l.vars()}, key=str)
    env = {}
    cur = cons
    tries = 0
    for v in vs:
        lv = Lin.var(v)
        if not feasible(frozenset(cur)): return None
        ok = False
        cands = [0, 1, 2, 3, 4, 5, 8, 16]
        lo, hi = bounds(cur, lv)
        if lo is not None: cands = [lo, lo + 1, lo + 2, lo + 3] + cands
        if hi is not None: cands += [hi, hi - 1]
        for k in cands:
            tries += 1
            if tries > maxtries: return None
            nc = [l.subst({v: k}) for l in cur]
            if any(not l.t and l.c < 0 for l in nc): continue
            if feasible(frozenset(nc)):
                env[v] = k; cur = nc; ok = True
                break
        if not ok: return None
    return env
