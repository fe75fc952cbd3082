"""Abstract strings and byte strings: concatenations of literals, runs of unknown bytes/characters over a character
set, repetitions with symbolic count, table images of finite variables and formatted symbolic numbers."""
from __future__ import annotations

import bisect
from .num import Lin, L, unlin, bounds, feasible, relevant
from .core import (P, Ctx, FV, Top, Unsupported, Cut, Infeasible, choose, ge0, lt, le, eq_int, surely_eq, surely_ge,
                   new_int, fv_norm, fv_groups, force, lsub, lin_sign_query)

MAXUNROLL = 3     # elements of a run of symbolic length that are enumerated one by one


# ---------------------------------------------------------------- character sets as interval lists
class CS:
    __slots__ = ('iv',)

    def __init__(self, iv=()):
        out = []
        for a, b in sorted(iv):
            if out and a <= out[-1][1] + 1:
                if b > out[-1][1]: out[-1] = (out[-1][0], b)
            else: out.append((a, b))
        self.iv = tuple(out)

    @staticmethod
    def of(points): return CS([(p, p) for p in points])

    def has(self, c):
        i = bisect.bisect_right(self.iv, (c, 1 << 60)) - 1
        return i >= 0 and self.iv[i][0] <= c <= self.iv[i][1]

    def union(self, o): return CS(self.iv + o.iv)

    def neg(self, top):
        out, prev = [], 0
        for a, b in self.iv:
            if a > prev: out.append((prev, a - 1))
            prev = b + 1
        if prev <= top: out.append((prev, top))
        return CS(out)

    def inter(self, o):
        out = []
        for a, b in self.iv:
            for c, d in o.iv:
                lo, hi = max(a, c), min(b, d)
                if lo <= hi: out.append((lo, hi))
        return CS(out)

    def __bool__(self): return bool(self.iv)
    def __eq__(self, o): return isinstance(o, CS) and self.iv == o.iv
    def __hash__(self): return hash(self.iv)
    def __repr__(self): return 'CS' + repr(self.iv)

    def subset(self, o): return self.inter(o) == self

    def points(self, limit=70000):
        for a, b in self.iv: yield from range(a, b + 1)


class Atom:
    """Run of unknown elements: all from the set `chars` (frozenset of host elements: ints for bytes, str for text)."""
    __slots__ = ('name', 'kind', 'chars', 'n')

    def __init__(self, name, kind, chars, n): self.name, self.kind, self.chars, self.n = name, kind, chars, n


# ---------------------------------------------------------------- parts
class Lit:
    __slots__ = ('v',)
    def __init__(self, v): self.v = v
    def key(self): return ('L', self.v)


class Run:
    __slots__ = ('atom', 'lo', 'hi', 'tab')
    def __init__(self, atom, lo, hi, tab=None): self.atom, self.lo, self.hi, self.tab = atom, lo, hi, tab
    def key(self): return ('R', self.atom, L(self.lo), L(self.hi), None if self.tab is None else tuple(sorted(self.tab.items(), key=str)))


class Rep:
    __slots__ = ('u', 'n')
    def __init__(self, u, n): self.u, self.n = u, n
    def key(self): return ('X', self.u, L(self.n))


class Tab:
    __slots__ = ('fv',)
    def __init__(self, fv): self.fv = fv
    def key(self): return ('T', self.fv.var, tuple(sorted(((k, v) for k, v in self.fv.tab.items()), key=str)))


class ChrP:
    __slots__ = ('cp', 'src')
    def __init__(self, cp, src=None): self.cp, self.src = cp, src
    def key(self): return ('C', L(self.cp))


class NumP:
    __slots__ = ('lin', 'base', 'width')
    def __init__(self, lin, base, width=0): self.lin, self.base, self.width = lin, base, width
    def key(self): return ('N', L(self.lin), self.base, self.width)


class Opq:
    """Opaque text: unknown content from a known character set (CS) and symbolic length."""
    __slots__ = ('name', 'n', 'cs')
    def __init__(self, name, n, cs=None): self.name, self.n, self.cs = name, n, cs
    def key(self): return ('O', self.name, L(self.n))


class SV:
    __slots__ = ('kind', 'parts')

    def __init__(self, kind, parts): self.kind, self.parts = kind, tuple(parts)
    def key(self): return (self.kind,) + tuple(p.key() for p in self.parts)

    def __repr__(self):
        out = []
        for p in self.parts:
            if isinstance(p, Lit): out.append(repr(p.v))
            elif isinstance(p, Run): out.append(f'<{p.atom}[{p.lo}:{p.hi}]{"" if p.tab is None else "*"}>')
            elif isinstance(p, Rep): out.append(f'<{p.u!r}*{p.n}>')
            elif isinstance(p, Tab):
                vs = sorted({str(v) for v in p.fv.tab.values()})
                out.append(f'<{p.fv.var}:{vs[:3]}{".." if len(vs) > 3 else ""}>')
            elif isinstance(p, ChrP): out.append(f'<chr {p.cp}>')
            elif isinstance(p, NumP): out.append(f'<{p.lin}:{p.width}{p.base}>')
            elif isinstance(p, Opq): out.append(f'<{p.name}:{p.n}>')
        return self.kind + '(' + '+'.join(out) + ')'


def empty(kind): return b'' if kind == 'b' else ''


def kind_of(x):
    if isinstance(x, bytes): return 'b'
    if isinstance(x, str): return 's'
    if isinstance(x, SV): return x.kind
    if isinstance(x, FV):
        v = next(iter(x.tab.values()))
        return kind_of(v)
    return None


def is_str(x): return isinstance(x, (str, bytes, SV)) or (isinstance(x, FV) and all(isinstance(v, (str, bytes)) for v in x.tab.values()))


def atom_sv(name, kind, chars, n=None, lo=0):
    """New unknown run. n: None -> symbolic length >= lo."""
    p = P()
    name = p.fresh(name)
    if n is None: n = new_int(f'|{name}|', lo)
    p.atoms[name] = Atom(name, kind, frozenset(chars), n)
    return mk(kind, [Run(name, 0, n)])


def _unit(kind, x, tab):
    if tab is not None: return tab[x]
    return bytes([x]) if kind == 'b' else x


def _src_kind(p): return P().atoms[p.atom].kind


def resolve_parts(parts):
    """Substitute refined atoms / finite variables."""
    p = P()
    out = []
    for q in parts:
        if isinstance(q, Run):
            if q.atom in p.bind:
                x = slice_(p.bind[q.atom], q.lo, q.hi)
                sub = resolve_parts(sv(x).parts)
                if q.tab is not None: sub = [map_part(s, q.tab, p.atoms[q.atom].kind) for s in sub]
                out += sub
                continue
            a = p.atoms[q.atom]
            n = lsub(q.hi, q.lo)
            if n.is_const and n.c == 0: continue
            if n.is_const and n.c == 1 and surely_eq(a.n, 1) :
                v = p.fresh(f'{q.atom}.0')
                p.dom[v] = a.chars
                p.bind[q.atom] = SV(a.kind, [Tab(FV(v, {c: _unit(a.kind, c, None) for c in a.chars}))])
                out += resolve_parts([q])
                continue
            if len(a.chars) == 1:
                u = _unit(a.kind, next(iter(a.chars)), q.tab)
                if u: out.append(Rep(u, unlin(n)))
                continue
            if q.tab is not None and all(q.tab[c] == _unit(a.kind, c, None) and type(q.tab[c]) is type(_unit(a.kind, c, None)) for c in a.chars):
                q = Run(q.atom, q.lo, q.hi)
            if q.tab is not None:
                us = {q.tab[c] for c in a.chars}
                if len(us) == 1:
                    u = us.pop()
                    if u: out.append(Rep(u, unlin(n)))
                    continue
            out.append(q)
        elif isinstance(q, Tab):
            v = fv_norm(q.fv)
            if isinstance(v, FV): out.append(Tab(v))
            elif v: out.append(Lit(v))
        elif isinstance(q, Rep):
            n = unlin(q.n)
            if isinstance(n, int):
                if n > 0: out.append(Lit(q.u * n))
            elif surely_eq(n, 0): pass
            else: out.append(q)
        elif isinstance(q, NumP):
            l = unlin(q.lin)
            if isinstance(l, int): out.append(Lit(format(l, f'0{q.width}{q.base}' if q.width else q.base)))
            else: out.append(q)
        elif isinstance(q, ChrP):
            c = unlin(q.cp)
            if isinstance(c, int): out.append(Lit(chr(c)))
            else: out.append(q)
        elif isinstance(q, Opq):
            n = unlin(q.n)
            if isinstance(n, int) and n == 0: continue
            out.append(q)
        elif isinstance(q, Lit):
            if q.v: out.append(q)
        else: out.append(q)
    # merge
    res = []
    for q in out:
        if res:
            l = res[-1]
            if isinstance(l, Lit) and isinstance(q, Lit):
                res[-1] = Lit(l.v + q.v)
                continue
            if isinstance(l, Run) and isinstance(q, Run) and l.atom == q.atom and l.tab == q.tab and surely_eq(l.hi, q.lo):
                res[-1] = Run(l.atom, l.lo, q.hi, l.tab)
                continue
            if isinstance(l, Rep) and isinstance(q, Rep) and l.u == q.u:
                res[-1] = Rep(l.u, unlin(L(l.n).add(L(q.n))))
                continue
        res.append(q)
    return res


def map_part(part, tab, src_kind):
    """Apply a per-element table to an (identity) part."""
    if isinstance(part, Lit):
        els = part.v
        r = None
        for e in els:
            u = tab[e]
            r = u if r is None else r + u
        return Lit(r if r is not None else b'')
    if isinstance(part, Run):
        assert part.tab is None
        return Run(part.atom, part.lo, part.hi, tab)
    if isinstance(part, Rep):
        u = None
        for e in part.u: u = tab[e] if u is None else u + tab[e]
        return Rep(u, part.n) if u else Lit(u)
    if isinstance(part, Tab):
        def one(v):
            r = None
            for e in v: r = tab[e] if r is None else r + tab[e]
            return r
        return Tab(FV(part.fv.var, {k: one(part.fv.tab[k]) for k in part.fv.tab if k in P().dom[part.fv.var]}))
    raise Unsupported('table over ' + type(part).__name__)


def mk(kind, parts):
    r = resolve_parts(parts)
    if not r: return empty(kind)
    if len(r) == 1:
        if isinstance(r[0], Lit): return r[0].v
    return SV(kind, r)


def sv(x):
    if isinstance(x, SV): return x
    if isinstance(x, bytes): return SV('b', [Lit(x)] if x else [])
    if isinstance(x, str): return SV('s', [Lit(x)] if x else [])
    if isinstance(x, FV): return SV(kind_of(x), [Tab(x)])
    raise Unsupported(f'not a string: {x!r}')


def norm(x):
    if isinstance(x, SV): return mk(x.kind, x.parts)
    if isinstance(x, FV): return fv_norm(x)
    return x


def concat(*xs):
    if all(isinstance(x, str) for x in xs): return ''.join(xs)
    k = next(kind_of(x) for x in xs if kind_of(x))
    parts = []
    for x in xs: parts += sv(x).parts
    return mk(k, parts)


# ---------------------------------------------------------------- lengths
def ndigits(lin, base):
    """Number of digits of lin >= 0 (partitions)."""
    b = {'d': 10, 'x': 16, 'X': 16, 'o': 8, 'b': 2}[base]
    lin = unlin(lin)
    if isinstance(lin, int): return len(format(lin, base))
    p = P()
    lo, hi = bounds(tuple(p.cons), lin, 1 << 70)
    lo = 0 if lo is None else max(lo, 0)
    kmin = len(format(lo, base))
    kmax = len(format(hi, base)) if hi is not None else (19 if b == 10 else 16)
    if kmax - kmin > 70: raise Unsupported('digits')
    opts = list(range(kmin, kmax + 1))
    if not opts: raise Infeasible()
    k = opts[choose(len(opts), f'digits of {lin!r}')]
    if k > 1: p.assume(lsub(lin, b ** (k - 1)))
    p.assume(lsub(b ** k - 1, lin))
    if k not in (kmin, kmax) and not feasible(frozenset(relevant(p.cons, [lin]))): raise Infeasible()     # the numbers in between may be no values at all
    return k


def part_len(q):
    if isinstance(q, Lit): return len(q.v)
    if isinstance(q, Run):
        n = lsub(q.hi, q.lo)
        if q.tab is None: return unlin(n)
        ls = {len(q.tab[c]) for c in P().atoms[q.atom].chars}
        if len(ls) == 1: return unlin(n.mul(ls.pop()))
        raise Unsupported('length of a run with units of different lengths')
    if isinstance(q, Rep): return unlin(L(q.n).mul(len(q.u)))
    if isinstance(q, Tab):
        v = fv_norm(q.fv)
        if not isinstance(v, FV): return len(v)
        by = {}
        for x in P().dom[v.var]: by.setdefault(len(v.tab[x]), []).append(x)
        if len(by) == 1: return next(iter(by))
        ks = sorted(by)
        k = ks[choose(len(ks), f'len {v.var}')]
        P().dom[v.var] = frozenset(by[k])
        return k
    if isinstance(q, ChrP): return 1
    if isinstance(q, NumP): return max(q.width, ndigits(q.lin, q.base))
    if isinstance(q, Opq): return q.n
    raise Unsupported('len ' + type(q).__name__)


def length(x):
    if isinstance(x, (str, bytes)): return len(x)
    x = norm(x)
    if isinstance(x, (str, bytes)): return len(x)
    n = L(0)
    for q in sv(x).parts: n = n.add(L(part_len(q)))
    return unlin(n)


# ---------------------------------------------------------------- slicing
def clamp(i, n):
    """Python slice bound normalisation for step 1."""
    if isinstance(i, int) and i >= 0: pass
    elif not ge0(L(i)):
        i = unlin(L(i).add(L(n)))
        if not ge0(L(i)): return 0
    if isinstance(i, int) and i == 0: return 0
    if not le(i, n): return n
    return unlin(L(i))


def slice_(x, a, b):
    if isinstance(x, (str, bytes)) and (a is None or isinstance(a, int)) and (b is None or isinstance(b, int)):
        return x[a:b]
    x = norm(x)
    k = kind_of(x)
    n = length(x)
    x = norm(x)
    a = 0 if a is None else clamp(a, n)
    b = n if b is None else clamp(b, n)
    if not lt(a, b): return empty(k)
    out = []
    pos = 0
    for q in sv(x).parts:
        ln = part_len(q)
        end = unlin(L(pos).add(L(ln)))
        # intersect [pos,end) with [a,b)
        if not lt(a, end):
            pos = end
            continue
        if not lt(pos, b): break
        s = 0 if le(a, pos) else unlin(lsub(a, pos))
        e = ln if le(end, b) else unlin(lsub(b, pos))
        out += slice_part(q, s, e, ln)
        pos = end
    return mk(k, out)


def small(x, n):
    """x in 0..n as a host integer (partitioned)."""
    if isinstance(x, int): return x
    for i in range(n + 1):
        if eq_int(x, i): return i
    raise Unsupported('position outside of its part')


def slice_part(q, s, e, ln):
    if isinstance(s, int) and s == 0 and surely_eq(e, ln): return [q]
    if isinstance(q, Lit):
        if isinstance(s, int) and isinstance(e, int): return [Lit(q.v[s:e])]
        if len(set(q.v)) == 1: return [Rep(q.v[:1], unlin(lsub(e, s)))]
        s, e = small(s, len(q.v)), small(e, len(q.v))
        return [Lit(q.v[s:e])]
    multi = isinstance(q, (Tab, Rep)) and not (isinstance(q, Rep) and len(set(q.u)) == 1)
    if multi and isinstance(ln, int) and ln <= 64: s, e = small(s, ln), small(e, ln)
    if isinstance(q, Run):
        if q.tab is None: u = 1
        else: u = len(q.tab[next(iter(P().atoms[q.atom].chars))])
        if u == 1: return [Run(q.atom, unlin(L(q.lo).add(L(s))), unlin(L(q.lo).add(L(e))), q.tab)]
        key = f'{q.atom}[{q.lo}:{q.hi}]{hash(tuple(sorted(q.tab.items())))}[{s}:{e}]'
        return [Opq(key, unlin(lsub(e, s)), part_chars(q))]
    if isinstance(q, Rep):
        if len(set(q.u)) == 1:
            return [Rep(q.u[:1], unlin(lsub(e, s)))]
        u = len(q.u)
        if isinstance(s, int) and isinstance(e, int):
            if s % u == 0 and e % u == 0: return [Rep(q.u, (e - s) // u)]
            return [Lit((q.u * (e // u + 1))[s:e])]
        a, d = mod_const(s, u), unlin(lsub(e, s))
        if a is not None and isinstance(d, int): return [Lit((q.u * (d // u + 2))[a:a + d])]
        b = mod_const(e, u)
        if a is not None and b is not None:
            s2 = L(s).add((u - a) % u)
            if not ge0(lsub(e, s2)): return [Lit(q.u[a:b])]
            mid = unlin(lsub(L(e).add(-b), s2).div_exact(u))
            return [Lit(q.u[a:] if a else q.u[:0]), Rep(q.u, mid), Lit(q.u[:b])]
        raise Unsupported('slice inside a repetition')
    if isinstance(q, Tab):
        if isinstance(s, int) and isinstance(e, int):
            return [Tab(FV(q.fv.var, {k: v[s:e] for k, v in q.fv.tab.items()}))]
    if isinstance(q, NumP):
        if isinstance(s, int) and isinstance(e, int) and isinstance(ln, int):
            return [Opq(f'digits({q.lin},{q.base},{q.width})[{s}:{e}]', e - s, DIGITS)]
    if isinstance(q, Opq):
        return [Opq(f'{q.name}[{s}:{e}]', unlin(lsub(e, s)), q.cs)]
    raise Unsupported('slice of ' + type(q).__name__)


def mod_const(x, u):
    """x mod u when every symbolic term is a multiple of u, else None."""
    if isinstance(x, int): return x % u
    return x.c % u if all(k % u == 0 for _, k in x.t) else None


DIGITS = CS([(48, 57), (65, 70), (97, 102)])


def split_atom(atom, i):
    """Refine run `atom` into head (i elements) + tail."""
    p = P()
    a = p.atoms[atom]
    h = p.fresh(atom + "'")
    t = p.fresh(atom + '"')
    p.atoms[h] = Atom(h, a.kind, a.chars, unlin(L(i)))
    p.atoms[t] = Atom(t, a.kind, a.chars, unlin(lsub(a.n, i)))
    p.bind[atom] = SV(a.kind, [Run(h, 0, p.atoms[h].n), Run(t, 0, p.atoms[t].n)])
    return h, t


def locate(x, pos):
    """(part, offset in part, start) of position pos in norm'ed x, or None at the end. pos <= len assumed."""
    x = norm(x)
    cur = 0
    for q in sv(x).parts:
        ln = part_len(q)
        end = unlin(L(cur).add(L(ln)))
        if surely_eq(pos, end) and not surely_eq(pos, cur):
            cur = end
            continue
        if lt(pos, end): return q, (0 if surely_eq(pos, cur) else unlin(lsub(pos, cur))), cur
        cur = end
    return None


def isolate(x, pos):
    """Refine the abstract state so that position pos of x starts a part (or is the end). Returns x normalised."""
    for _ in range(8):
        x = norm(x)
        r = locate(x, pos)
        if r is None: return norm(x), None
        q, off, start = r
        if isinstance(off, int) and off == 0: return norm(x), q
        if isinstance(q, Lit):
            if not isinstance(off, int): off = next((i for i in range(len(q.v)) if eq_int(off, i)), None)
            return norm(x), Lit(q.v[off:]) if off is not None else _bad('isolate')
        if isinstance(q, Run):
            if q.tab is not None and any(len(v) != 1 for v in q.tab.values()): _bad('isolate tab')
            split_atom(q.atom, unlin(L(q.lo).add(L(off))))
            continue
        if isinstance(q, Rep) and len(set(q.u)) == 1:
            return norm(x), Rep(q.u[:1], unlin(lsub(L(q.n).mul(len(q.u)), off)))
        if isinstance(q, Rep) and isinstance(off, int):
            return norm(x), Lit(q.u[off % len(q.u):])
        if isinstance(q, Tab) and not isinstance(off, int):
            n = part_len(q)
            if isinstance(n, int): off = next((i for i in range(n) if eq_int(off, i)), None)
            if off == 0: return norm(x), q
        if isinstance(q, Tab) and isinstance(off, int):
            return norm(x), Tab(FV(q.fv.var, {k: v[off:] for k, v in q.fv.tab.items()}))
        if isinstance(q, Opq):
            return norm(x), Opq(f'{q.name}[{off}:]', unlin(lsub(q.n, off)), q.cs)
        if isinstance(q, NumP):
            ln = part_len(q)
            return norm(x), Opq(f'digits({q.lin},{q.base},{q.width})[{off}:]', ln - off, DIGITS)
        _bad('isolate ' + type(q).__name__)
    _bad('isolate loop')


def _bad(w): raise Unsupported(w)


def first_elem(q):
    """First element of a part (host char/int, FV, or ChrP value); Runs get their first element split off."""
    if isinstance(q, Lit): return q.v[0]
    if isinstance(q, Tab):
        return fv_norm(FV(q.fv.var, {k: (v[0] if v else None) for k, v in q.fv.tab.items()}))
    if isinstance(q, Rep): return q.u[0]
    if isinstance(q, ChrP): return SV('s', [q])
    if isinstance(q, Run):
        a = P().atoms[q.atom]
        lo = unlin(L(q.lo))
        split = q.atom
        if not surely_eq(lo, 0):
            h, t = split_atom(q.atom, lo)
            split = t
        a = P().atoms[split]
        if not surely_eq(a.n, 1):
            h, t = split_atom(split, 1)
            split = h
        r = mk(P().atoms[q.atom].kind, [Run(q.atom, q.lo, unlin(L(q.lo).add(1)), q.tab)])
        r = sv(r)
        if len(r.parts) != 1: _bad('first_elem')
        return first_elem(r.parts[0])
    if isinstance(q, NumP) or isinstance(q, Opq): _bad('element of ' + type(q).__name__)
    _bad('first_elem ' + type(q).__name__)


def elem(x, i):
    """x[i] as int (bytes) or 1-char string value. i already known to be in range or raises IndexError via None."""
    n = length(x)
    if isinstance(i, int) and i < 0 or (not isinstance(i, int) and not ge0(L(i))): i = unlin(L(n).add(L(i)))
    if isinstance(i, int) and i < 0: return None
    if not ge0(L(i)): return None
    if not lt(i, n): return None
    x, q = isolate(x, i)
    e = first_elem(q)
    return e


def elements(x, limit=None):
    """All elements; partitions on the number of elements when it is symbolic (bounded)."""
    limit = MAXUNROLL if limit is None else limit
    x = norm(x)
    out = []
    if isinstance(x, (str, bytes)): return list(x)
    for q in sv(x).parts:
        if isinstance(q, Lit): out += list(q.v)
        elif isinstance(q, Tab):
            n = part_len(q)
            v = fv_norm(q.fv)
            if not isinstance(v, FV): out += list(v)
            else: out += [fv_norm(FV(v.var, {k: v.tab[k][j] for k in P().dom[v.var]})) for j in range(n)]
        elif isinstance(q, Rep):
            n = decide_count(q.n, limit)
            out += list(q.u * n)
        elif isinstance(q, ChrP): out.append(SV('s', [q]))
        elif isinstance(q, Run):
            n = decide_count(lsub(q.hi, q.lo), limit)
            for j in range(n):
                e = mk(P().atoms[q.atom].kind if q.tab is None else ('s' if isinstance(next(iter(q.tab.values())), str) else 'b'),
                       [Run(q.atom, unlin(L(q.lo).add(j)), unlin(L(q.lo).add(j + 1)), q.tab)])
                s = sv(e)
                if len(s.parts) != 1:
                    raise Unsupported('elements')
                pr = s.parts[0]
                if isinstance(pr, Run): out.append(first_elem(pr))
                elif isinstance(pr, (Lit, Tab)): out.append(first_elem(pr))
                else: raise Unsupported('elements')
        elif isinstance(q, NumP):
            raise Unsupported('iteration over digits')
        else: raise Unsupported('iteration over ' + type(q).__name__)
    return out


def decide_count(n, limit):
    n = unlin(L(n))
    if isinstance(n, int): return n
    lo, hi = bounds(tuple(P().cons), n, 1 << 20)
    lo = max(lo or 0, 0)
    if hi is not None and hi <= limit + lo: top = hi
    else: top = None
    opts = list(range(lo, min(hi, lo + limit) + 1 if hi is not None else lo + limit + 1))
    k = choose(len(opts) + (0 if top is not None else 1), f'count {n!r}')
    if k == len(opts): raise Cut('run longer than unroll bound')
    p = P()
    d = lsub(n, opts[k])
    from .num import feasible, relevant
    rel = list(relevant(p.cons, [d])) + [d, d.neg()]
    if not feasible(frozenset(rel)): raise Infeasible()
    p.cons += [d, d.neg()]
    return opts[k]


# ---------------------------------------------------------------- content queries
def part_chars(q):
    """Possible elements of a part as CS."""
    if isinstance(q, Lit): return CS.of([c if isinstance(c, int) else ord(c) for c in q.v])
    if isinstance(q, Run):
        a = P().atoms[q.atom]
        if q.tab is None: return CS.of([c if isinstance(c, int) else ord(c) for c in a.chars])
        return CS.of([c if isinstance(c, int) else ord(c) for x in a.chars for c in q.tab[x]])
    if isinstance(q, Rep): return CS.of([c if isinstance(c, int) else ord(c) for c in q.u])
    if isinstance(q, Tab): return CS.of([c if isinstance(c, int) else ord(c) for x in P().dom[q.fv.var] for c in q.fv.tab[x]])
    if isinstance(q, ChrP):
        lo, hi = bounds(tuple(P().cons), L(q.cp), 1 << 22)
        return CS([(0 if lo is None else max(lo, 0), 0x10ffff if hi is None else hi)])
    if isinstance(q, NumP):
        if q.base == 'd': return CS([(48, 57)])
        if q.base == 'x': return CS([(48, 57), (97, 102)])
        return CS([(48, 57), (65, 70)])
    if isinstance(q, Opq): return q.cs if q.cs is not None else CS([(0, 0x10ffff)])
    return CS([(0, 0x10ffff)])


def elem_in(e, cs):
    """Decide whether a single element (host char/int, FV, SV ChrP) belongs to cs."""
    if isinstance(e, int): return cs.has(e)
    if isinstance(e, str): return cs.has(ord(e))
    if isinstance(e, FV):
        yes = [x for x in P().dom[e.var] if cs.has(e.tab[x] if isinstance(e.tab[x], int) else ord(e.tab[x]))]
        if not yes: return False
        if len(yes) == len(P().dom[e.var]): return True
        c = choose(2, f'{e.var} in set')
        ys = frozenset(yes)
        if c == 0:
            P().dom[e.var] = ys
            return True
        P().dom[e.var] = P().dom[e.var] - ys
        return False
    if isinstance(e, SV):
        q = e.parts[0]
        if isinstance(q, ChrP):
            P().sync()
            my = part_chars(q)
            inter = my.inter(cs)
            if not inter: return False
            if my.subset(cs): return True
            pieces = [(iv, True) for iv in inter.iv] + [(iv, False) for iv in my.inter(cs.neg(0x10ffff)).iv]
            if len(pieces) > 24: raise Unsupported('character interval split')
            k = choose(len(pieces), 'char interval')
            (lo, hi), r = pieces[k]
            P().assume(lsub(q.cp, lo))
            P().assume(lsub(hi, q.cp))
            P().sync()
            return r
    raise Unsupported('elem_in')


def run_all_in(x, pos, q, cs):
    """For a multi-element part q located at position pos in x: decide whether all its elements are in cs.
    Returns ('all', None) | ('none', None)  | ('mixed', position of the first element (not in cs))."""
    ch = part_chars(q)
    if ch.subset(cs): return 'all', None
    if not ch.inter(cs): return 'none', None
    if isinstance(q, Lit):
        for i, c in enumerate(q.v):
            if not cs.has(c if isinstance(c, int) else ord(c)):
                return ('none', None) if i == 0 else ('mixed', i)
    if isinstance(q, Rep):
        for i, c in enumerate(q.u):
            if not cs.has(c if isinstance(c, int) else ord(c)): return ('none', None) if i == 0 else ('mixed', i)
    if isinstance(q, Tab):
        e = first_elem(q)
        return ('all', None) if elem_in(e, cs) else ('none', None)
    if isinstance(q, ChrP):
        return ('all', None) if elem_in(SV('s', [q]), cs) else ('none', None)
    if isinstance(q, Run):
        a = P().atoms[q.atom]
        p = P()

        def unit_ok(c):
            u = q.tab[c] if q.tab is not None else c
            if isinstance(u, int): return cs.has(u)
            if isinstance(u, str) and len(u) == 1: return cs.has(ord(u))
            if isinstance(u, bytes) and len(u) == 1: return cs.has(u[0])
            raise Unsupported('run_all_in units')
        yes = frozenset(c for c in a.chars if unit_ok(c))
        if not surely_eq(q.lo, 0) or not surely_eq(q.hi, a.n):
            # isolate the slice first
            at = q.atom
            if not surely_eq(q.hi, a.n): at, _ = split_atom(at, q.hi)
            if not surely_eq(q.lo, 0): split_atom(at, q.lo)
            return 'retry', None
        c = choose(2, f'{q.atom} all in set')
        if c == 0:
            n = p.fresh(q.atom + '~')
            p.atoms[n] = Atom(n, a.kind, yes, a.n)
            p.bind[q.atom] = SV(a.kind, [Run(n, 0, a.n)])
            return 'all', None
        h = new_int(f'|{q.atom}.pre|', 0)
        t = new_int(f'|{q.atom}.post|', 0)
        d = L(a.n).sub(h).sub(t).add(-1)
        p.assume(d)
        p.assume(d.neg())
        from .num import feasible
        if not feasible(frozenset(p.cons)): raise Infeasible()
        hn, en, tn = p.fresh(q.atom + '<'), p.fresh(q.atom + '!'), p.fresh(q.atom + '>')
        p.atoms[hn] = Atom(hn, a.kind, yes, h)
        p.atoms[tn] = Atom(tn, a.kind, a.chars, t)
        p.dom[en] = a.chars - yes
        p.bind[q.atom] = SV(a.kind, [Run(hn, 0, h), Tab(FV(en, {c: _unit(a.kind, c, None) for c in a.chars - yes})), Run(tn, 0, t)])
        return 'retry', None
    if isinstance(q, NumP) or isinstance(q, Opq):
        raise Unsupported('class test over ' + type(q).__name__)
    raise Unsupported('run_all_in')


# ---------------------------------------------------------------- equality
def equal(a, b):
    """Decide a == b (same kind)."""
    if isinstance(a, (str, bytes)) and isinstance(b, (str, bytes)): return a == b
    if kind_of(a) != kind_of(b): return False
    a, b = norm(a), norm(b)
    if isinstance(a, (str, bytes)) and isinstance(b, (str, bytes)): return a == b
    if sv(a).key() == sv(b).key(): return True
    for _ in range(200):
        a, b = norm(a), norm(b)
        A, B = list(sv(a).parts), list(sv(b).parts)
        while A and B and A[0].key() == B[0].key():
            A.pop(0)
            B.pop(0)
        for X in (A, B):
            while len(X) > 1 and isinstance(X[0], Run) and surely_eq(lsub(X[0].hi, X[0].lo), 0): X.pop(0)
        if A and B and A[0].key() == B[0].key():
            a, b = mk(kind_of(a), A), mk(kind_of(a), B)
            continue
        k = kind_of(a) or kind_of(b)
        a, b = mk(k, A), mk(k, B)
        A, B = list(sv(a).parts), list(sv(b).parts)
        if not A and not B: return True
        if not A or not B:
            return not ge0(lsub(length(a) if A else length(b), 1))
        # cheap rejections
        if isinstance(a, SV) and isinstance(b, SV) and len(A) == 1 and len(B) == 1 and isinstance(A[0], NumP) and isinstance(B[0], NumP) \
                and A[0].base == B[0].base and A[0].width == B[0].width:
            return eq_int(A[0].lin, B[0].lin)
        if isinstance(A[0], Lit) and isinstance(B[0], Lit):
            x, y = A[0].v, B[0].v
            n = min(len(x), len(y))
            if x[:n] != y[:n]: return False
            a, b = mk(k, ([Lit(x[n:])] if x[n:] else []) + A[1:]), mk(k, ([Lit(y[n:])] if y[n:] else []) + B[1:])
            continue
        if isinstance(A[0], Rep) and isinstance(B[0], Rep) and A[0].u == B[0].u:
            x, y = A[0], B[0]
            if le(x.n, y.n):
                A.pop(0)
                d = unlin(lsub(y.n, x.n))
                B[:1] = [] if isinstance(d, int) and d == 0 or surely_eq(d, 0) else [Rep(y.u, d)]
            else:
                B.pop(0)
                A[0] = Rep(x.u, unlin(lsub(x.n, y.n)))
            a, b = mk(k, A), mk(k, B)
            continue
        if isinstance(A[0], NumP) or isinstance(B[0], NumP):
            q = A[0] if isinstance(A[0], NumP) else B[0]
            x, y = num_head(A, q.base), num_head(B, q.base)
            if x is not None and y is not None:      # delimited numerals on both sides
                if x[0] is False or y[0] is False or not eq_int(x[0], y[0]): return False
                a, b = mk(k, x[1]), mk(k, y[1])
                continue
        if any(isinstance(q, (NumP, Opq)) for q in (A[0], B[0])):
            la, lb = length(a), length(b)
            if lin_sign_query(lsub(la, lb)) is False or lin_sign_query(lsub(lb, la)) is False: return False
            if not part_chars(A[0]).inter(part_chars(B[0])):
                return False
            if isinstance(A[0], NumP) and isinstance(b, str) and len(A) == 1 and A[0].base == 'd' and A[0].width == 0:
                return eq_int(A[0].lin, int(b)) if b.isdigit() and str(int(b)) == b else False
            if isinstance(B[0], NumP) and isinstance(a, str) and len(B) == 1 and B[0].base == 'd' and B[0].width == 0:
                return eq_int(B[0].lin, int(a)) if a.isdigit() and str(int(a)) == a else False
            raise Unsupported('equality with formatted numbers / opaque text')
        la, lb = length(a), length(b)
        if not eq_int(la, lb): return False
        if surely_eq(la, 0): return True
        r = _run_vs_rep(a, b)
        if r is not None: return r
        if _same_origin(A[0], B[0]):      # pieces of one run from the same position: the common part is equal
            if le(A[0].hi, B[0].hi): n = lsub(A[0].hi, A[0].lo)
            else: n = lsub(B[0].hi, B[0].lo)
            n = unlin(n)
            if not le(n, 0):
                a, b = slice_(a, n, None), slice_(b, n, None)
                continue
        ea, eb = first_elem(A[0]), first_elem(B[0])
        if not elem_eq(ea, eb): return False
        a, b = slice_(a, 1, None), slice_(b, 1, None)
    raise Unsupported('equality')


def num_head(parts, base):
    """(value, rest) of a canonical numeral at the start that surely ends where the next part starts; value False: surely no canonical numeral; None: not known."""
    digs = {'d': '0123456789', 'x': '0123456789abcdef', 'X': '0123456789ABCDEF', 'o': '01234567', 'b': '01'}[base]
    q, rest = parts[0], list(parts[1:])
    if isinstance(q, NumP):
        if q.base != base or q.width or not surely_ge(q.lin, 0): return None
        v = q.lin
    elif isinstance(q, Lit) and isinstance(q.v, str):
        i = 0
        while i < len(q.v) and q.v[i] in digs: i += 1
        d = q.v[:i]
        if i < len(q.v): return (int(d, {'d': 10, 'x': 16, 'X': 16, 'o': 8, 'b': 2}[base]) if d and (d == '0' or d[0] != '0') else False), [Lit(q.v[i:])] + rest
        if d and d[0] == '0' and d != '0': v = False
        else: v = int(d, {'d': 10, 'x': 16, 'X': 16, 'o': 8, 'b': 2}[base])
    else: return None
    if rest:
        r = rest[0]
        if isinstance(r, Lit) and r.v:
            if r.v[0] in digs: return None
        elif not isinstance(r, ChrP) or part_chars(r).inter(CS.of([ord(c) for c in digs])): return None     # may be empty / go on
    return v, rest


def _same_origin(q, r):
    return isinstance(q, Run) and isinstance(r, Run) and q.atom == r.atom and q.tab == r.tab and surely_eq(q.lo, r.lo)


def _run_vs_rep(a, b):
    """Strings of equal, positive, unknown length where one is a repetition of a single element and the other a run."""
    A, B = sv(a).parts, sv(b).parts
    if len(A) != 1 or len(B) != 1: return None
    if isinstance(A[0], Rep): A, B = B, A
    q, r = A[0], B[0]
    if not isinstance(r, Rep) or len(r.u) != 1 or not isinstance(q, Run): return None
    if not surely_ge(length(a), 1): return None
    at = P().atoms[q.atom]
    if not surely_eq(q.lo, 0) or not surely_eq(q.hi, at.n): return None
    u = r.u if isinstance(r.u, str) else r.u[0]
    yes = frozenset(c for c in at.chars if (q.tab[c] if q.tab is not None else c) in (u, r.u))
    if any(len(q.tab[c]) != 1 for c in at.chars) if q.tab is not None else False: return None
    if not yes: return False
    if yes == at.chars: return True
    p = P()
    if choose(2, f'{q.atom} repeats one element') == 0:
        n = p.fresh(q.atom + '~')
        p.atoms[n] = Atom(n, at.kind, yes, at.n)
        p.bind[q.atom] = SV(at.kind, [Run(n, 0, at.n)])
        return True
    return False        # not refined: some element differs


def elem_eq(a, b):
    if isinstance(a, (int, str)) and isinstance(b, (int, str)): return a == b
    if isinstance(a, FV) and isinstance(b, FV) and a.var == b.var and a.tab == b.tab: return True
    if isinstance(b, (int, str)): a, b = b, a
    if isinstance(a, (int, str)):
        return elem_in(b, CS.of([a if isinstance(a, int) else ord(a)]))
    if isinstance(a, SV) and isinstance(b, SV) and isinstance(a.parts[0], ChrP) and isinstance(b.parts[0], ChrP):
        return eq_int(a.parts[0].cp, b.parts[0].cp)
    if isinstance(a, FV):
        a = force(a)
        return elem_eq(a, b)
    if isinstance(b, FV): return elem_eq(a, force(b))
    raise Unsupported('elem_eq')


# ---------------------------------------------------------------- concretisation (witnesses)
def concretise(x, m):
    """Concrete host string at a model point."""
    if isinstance(x, (str, bytes)): return x
    x = sv(x)
    out = empty(x.kind)
    for q in x.parts: out += conc_part(q, m, x.kind)
    return out


def conc_part(q, m, kind):
    p = m.path
    if isinstance(q, Lit): return q.v
    if isinstance(q, Rep): return q.u * max(0, m.int(q.n))
    if isinstance(q, Tab):
        v = m.fv.get(q.fv.var)
        if v not in q.fv.tab: v = next(iter(q.fv.tab))
        return q.fv.tab[v]
    if isinstance(q, ChrP): return chr(m.int(q.cp))
    if isinstance(q, NumP): return format(m.int(q.lin), f'0{q.width}{q.base}' if q.width else q.base)
    if isinstance(q, Run):
        if q.atom in p.bind:
            full = concretise_atom(q.atom, m)
        else: full = concretise_atom(q.atom, m)
        seg = full[m.int(q.lo):m.int(q.hi)]
        if q.tab is None: return bytes(seg) if p.atoms[q.atom].kind == 'b' else ''.join(seg)
        r = empty(kind)
        for c in seg: r += q.tab.get(c, empty(kind))
        return r
    if isinstance(q, Opq): return ('\u2026' if kind == 's' else b'?') * max(0, m.int(q.n))
    raise Unsupported('concretise')


def concretise_atom(name, m):
    """list of elements"""
    p = m.path
    if name in p.bind:
        v = concretise(p.bind[name], m)
        return list(v)
    a = p.atoms[name]
    n = max(0, m.int(a.n))
    cs = sorted(a.chars)
    off = sum(map(ord, name)) % len(cs)
    return [cs[(off + i * 5) % len(cs)] for i in range(min(n, 100000))]
