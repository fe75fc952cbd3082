"""Regular expressions over abstract strings: a backtracking matcher that follows Python's leftmost-first semantics and
partitions the abstract input on the character-class tests it performs."""
from __future__ import annotations

import re
import re._parser as sp
import re._constants as sc
from functools import lru_cache
from .num import L, unlin
from .core import P, Unsupported, Cut, choose, ge0, lt, le, eq_int, surely_eq, lsub
from .strs import (CS, sv, norm, length, slice_, isolate, first_elem, elem_in, run_all_in, part_len, part_chars, kind_of,
                   Lit, Run, Rep, Tab, ChrP, NumP, Opq, concat, equal, empty, mk)


@lru_cache(maxsize=None)
def category(cat, is_bytes, ascii_only):
    name = {sc.CATEGORY_DIGIT: r'\d', sc.CATEGORY_NOT_DIGIT: r'\D', sc.CATEGORY_SPACE: r'\s', sc.CATEGORY_NOT_SPACE: r'\S',
            sc.CATEGORY_WORD: r'\w', sc.CATEGORY_NOT_WORD: r'\W'}[cat]
    if is_bytes:
        rx = re.compile(name.encode())
        return CS.of([c for c in range(256) if rx.match(bytes([c]))])
    iv = [(m.start(), m.end() - 1) for m in re.compile(name + '+', re.A if ascii_only else 0).finditer(''.join(map(chr, range(0x110000))))]
    return CS(iv)


class Rx:
    """Compiled pattern."""

    def __init__(self, pattern, flags=0):
        self.pattern = pattern
        try:
            self.host = re.compile(pattern, flags)
        except re.error as e:
            raise ValueError(str(e))
        self.flags = self.host.flags
        self.bytes = isinstance(pattern, bytes)
        self.top = 255 if self.bytes else 0x10ffff
        if self.flags & (re.I | re.L): self.unsupported = 'ignorecase'
        else: self.unsupported = None
        self.ast = list(sp.parse(pattern, flags))
        self.groups = self.host.groups
        self.groupindex = dict(self.host.groupindex)

    def single(self):
        """Every match is exactly one element and depends on that element only."""
        def ok(items):
            for op, av in items:
                if op in (sc.LITERAL, sc.NOT_LITERAL, sc.ANY, sc.IN): continue
                if op is sc.BRANCH and all(ok(b) for b in av[1]): continue
                if op is sc.SUBPATTERN and ok(av[3]): continue
                return False
            return True
        t = sp.parse(self.pattern, self.flags & ~re.U if self.bytes else self.flags)
        return t.getwidth() == (1, 1) and not self.unsupported and ok(t)

    # ------------------------------------------------------------ character sets
    def charset(self, op, av):
        """CS of a single-character node or None."""
        key = id(av) if op is sc.IN else None
        if op is sc.LITERAL: return CS.of([av])
        if op is sc.NOT_LITERAL: return CS.of([av]).neg(self.top)
        if op is sc.ANY:
            return CS([(0, self.top)]) if self.flags & re.S else CS.of([10]).neg(self.top)
        if op is sc.IN:
            c = self._cache.get(key) if hasattr(self, '_cache') else None
            if c is not None: return c
            neg = False
            r = CS()
            for o, a in av:
                if o is sc.NEGATE: neg = True
                elif o is sc.LITERAL: r = r.union(CS.of([a]))
                elif o is sc.RANGE: r = r.union(CS([a]))
                elif o is sc.CATEGORY: r = r.union(category(a, self.bytes, bool(self.flags & re.A)))
                else: raise Unsupported(f'regex class {o}')
            if neg: r = r.neg(self.top)
            if not hasattr(self, '_cache'): self._cache = {}
            self._cache[key] = r
            return r
        return None

    def closing(self):
        """Group numbers in the order in which a match closes them."""
        out = []

        def walk(items, rep):
            for op, av in items:
                if op is sc.SUBPATTERN:
                    walk(av[3], rep)
                    if av[0] is not None:
                        out.append(av[0])
                        if rep is not None: rep.append(av[0])
                elif op is sc.BRANCH:
                    for b in av[1]: walk(b, rep)
                elif op in (sc.MAX_REPEAT, sc.MIN_REPEAT, sc.POSSESSIVE_REPEAT):
                    mine = []
                    walk(av[2], mine)
                    if len(mine) > 1 and av[1] != 1: raise Unsupported('order of groups inside a repetition')
                    if rep is not None: rep += mine
                elif op in (sc.ASSERT, sc.ASSERT_NOT): walk(av[1], rep)
                elif op is sc.ATOMIC_GROUP: walk(av, rep)
                elif op is sc.GROUPREF_EXISTS:
                    walk(av[1], rep)
                    if av[2]: walk(av[2], rep)
        walk(self.ast, None)
        return out

    def first(self, nodes, inner=False):
        """(CS of possible first elements, nullable) of a node list; inner: at a position that is not the end of the subject."""
        r = CS()
        for op, av in nodes:
            f, nul = self.first1(op, av, inner)
            r = r.union(f)
            if not nul: return r, False
        return r, True

    def first1(self, op, av, inner=False):
        c = self.charset(op, av)
        if c is not None: return c, False
        if op in (sc.MAX_REPEAT, sc.MIN_REPEAT, getattr(sc, 'POSSESSIVE_REPEAT', None)):
            f, nul = self.first(av[2], inner)
            return f, nul or av[0] == 0
        if op is sc.SUBPATTERN: return self.first(av[3], inner)
        if op is sc.ATOMIC_GROUP: return self.first(av, inner)
        if op is sc.BRANCH:
            r, nul = CS(), False
            for b in av[1]:
                f, n = self.first(b, inner)
                r = r.union(f)
                nul = nul or n
            return r, nul
        if inner and op is sc.AT and av is sc.AT_END_STRING: return CS(), False
        if inner and op is sc.AT and av is sc.AT_END and not self.flags & re.M: return CS.of([10]), False
        if op in (sc.AT, sc.ASSERT, sc.ASSERT_NOT): return CS(), True
        return CS([(0, self.top)]), True

    # ------------------------------------------------------------ matching
    def match_at(self, subj, pos, full=False):
        """Match object at pos or None."""
        if self.unsupported: raise Unsupported(self.unsupported)
        subj0 = subj
        if isinstance(subj, (str, bytes)) and isinstance(pos, int):
            m = (self.host.fullmatch if full else self.host.match)(subj, pos)
            if m is None: return None
            return M(self, subj, [m.span(i) if m.start(i) >= 0 else None for i in range(self.groups + 1)])
        g = {}
        self.budget = 20000
        nodes = _cons(self.ast, (('END', full), None))
        end = self._m(subj, pos, nodes, g)
        if end is None: return None
        return M(self, subj0, [(pos, end)] + [g.get(i) for i in range(1, self.groups + 1)])

    def _m(self, x, pos, nodes, g):
        """nodes: cons list (node, rest). Returns end position or None; g holds the groups of the success path."""
        self.budget -= 1
        if self.budget < 0: raise Unsupported('regex budget')
        while True:
            (op, av), rest = nodes
            if op == 'END':
                if av:
                    if not surely_eq(pos, length(x)):
                        if lt(pos, length(x)): return None
                return pos
            if op == 'CLOSE':
                gi, start = av
                old = g.get(gi)
                g[gi] = (start, pos)
                r = self._m(x, pos, rest, g)
                if r is None:
                    if old is None: g.pop(gi, None)
                    else: g[gi] = old
                return r
            if op == 'LOOP':
                return self._loop(x, pos, av, rest, g)
            cs = self.charset(op, av)
            if cs is not None:
                r = self._one(x, pos, cs)
                if not r: return None
                pos = unlin(L(pos).add(1))
                nodes = rest
                continue
            if op is sc.SUBPATTERN:
                gi, af, df, sub = av
                if af or df: raise Unsupported('inline flags')
                nodes = _cons(sub, (('CLOSE', (gi, pos)), rest)) if gi is not None else _cons(sub, rest)
                continue
            if op is sc.BRANCH:
                for b in av[1]:
                    r = self._m(x, pos, _cons(b, rest), g)
                    if r is not None: return r
                return None
            if op is sc.AT:
                if av in (sc.AT_BEGINNING, sc.AT_BEGINNING_STRING):
                    if av is sc.AT_BEGINNING and self.flags & re.M: raise Unsupported('multiline anchor')
                    if not surely_eq(pos, 0): return None
                elif av is sc.AT_END_STRING:
                    if lt(pos, length(x)): return None
                elif av is sc.AT_END:
                    if self.flags & re.M: raise Unsupported('multiline anchor')
                    if lt(pos, length(x)):
                        rem = lsub(length(x), pos)
                        if not eq_int(rem, 1): return None
                        if not self._one(x, pos, CS.of([10])): return None
                else: raise Unsupported(f'anchor {av}')
                nodes = rest
                continue
            if op is sc.MAX_REPEAT or op is sc.MIN_REPEAT:
                lo, hi, body = av
                return self._repeat(x, pos, lo, hi, list(body), rest, g, op is sc.MAX_REPEAT)
            if op is sc.ASSERT or op is sc.ASSERT_NOT:
                d, sub = av
                if d != 1: raise Unsupported('look-behind')
                g2 = dict(g)
                r = self._m(x, pos, _cons(sub, (('END', False), None)), g2)
                if (r is not None) != (op is sc.ASSERT): return None
                if op is sc.ASSERT: g.update(g2)
                nodes = rest
                continue
            if op is sc.GROUPREF:
                sp_ = g.get(av)
                if sp_ is None: return None
                val = slice_(x, *sp_)
                ln = length(val)
                e = unlin(L(pos).add(L(ln)))
                if not le(e, length(x)): return None
                if not equal(slice_(x, pos, e), val): return None
                pos = e
                nodes = rest
                continue
            raise Unsupported(f'regex node {op}')

    def _one(self, x, pos, cs):
        if not lt(pos, length(x)): return False
        x, q = isolate(x, pos)
        if q is None: return False
        ch = part_chars(q)
        if not ch.inter(cs) and not isinstance(q, Tab): return False
        if isinstance(q, (NumP, Opq)):
            if ch.subset(cs): return True
            if isinstance(q, NumP) and q.width == 0 and q.base == 'd':
                pass
            raise Unsupported('class test over ' + type(q).__name__)
        return elem_in(first_elem(q), cs)

    def _repeat(self, x, pos, lo, hi, body, rest, g, greedy):
        single, grp = None, None
        if len(body) == 1:
            op, av = body[0]
            single = self.charset(op, av)
            if single is None and op is sc.SUBPATTERN and not av[1] and not av[2] and len(av[3]) == 1:
                single = self.charset(*av[3][0])
                grp = av[0]
        inf = hi is sc.MAXREPEAT
        if single is not None and greedy:
            return self._rep_single(x, pos, lo, None if inf else int(hi), single, grp, rest, g)
        return self._m(x, pos, (('LOOP', (lo, hi, body, 0, None, greedy)), rest), g)

    def _loop(self, x, pos, av, rest, g):
        lo, hi, body, count, last, greedy = av
        if last is not None and surely_eq(pos, last) and count >= lo:
            return self._m(x, pos, rest, g)
        if count > 40: raise Cut('regex repetition bound')
        can = hi is sc.MAXREPEAT or count < hi
        more = _cons(body, (('LOOP', (lo, hi, body, count + 1, pos, greedy)), rest))
        if count < lo:
            return self._m(x, pos, more, g)
        if greedy:
            if can:
                r = self._m(x, pos, more, g)
                if r is not None: return r
            return self._m(x, pos, rest, g)
        r = self._m(x, pos, rest, g)
        if r is not None: return r
        if can: return self._m(x, pos, more, g)
        return None

    def _rep_single(self, x, pos, lo, hi, cs, grp, rest, g):
        steps = [pos]          # candidate end positions (each step one element or one whole run)
        runs = {}              # index of step -> charset of the run consumed by it
        count = L(0)
        cur = pos
        n = length(x)
        guard = 0
        while True:
            guard += 1
            if guard > 400: raise Unsupported('regex repetition')
            if hi is not None and ge0(count.add(-hi)): break
            if not lt(cur, length(x)): break
            x2, q = isolate(x, cur)
            if q is None: break
            ln = part_len(q)
            if hi is not None or (isinstance(ln, int) and ln == 1) or (isinstance(q, Tab)):
                if not self._one(x, cur, cs): break
                cur = unlin(L(cur).add(1))
                count = count.add(1)
                steps.append(cur)
                continue
            st, w = run_all_in(x, cur, q, cs)
            if st == 'retry': continue
            if st == 'none': break
            if st == 'mixed':
                for i in range(w):
                    cur = unlin(L(cur).add(1))
                    count = count.add(1)
                    steps.append(cur)
                break
            # all
            if isinstance(q, Lit):
                for i in range(len(q.v)):
                    cur = unlin(L(cur).add(1))
                    count = count.add(1)
                    steps.append(cur)
            else:
                cur = unlin(L(cur).add(L(ln)))
                count = count.add(L(ln))
                runs[len(steps)] = (part_chars(q), ln)
                steps.append(cur)
        first, nul = self.first(_uncons(rest), True)
        i = len(steps) - 1
        while i >= 0:
            e = steps[i]
            cnt = lsub(e, pos)
            if not ge0(cnt.add(-lo)):
                return None
            ok = None
            if grp is not None and not surely_eq(e, pos):
                old = g.get(grp)
                g[grp] = (unlin(L(e).add(-1)), e)
                ok = self._m(x, e, rest, g)
                if ok is None:
                    if old is None: g.pop(grp, None)
                    else: g[grp] = old
            else:
                ok = self._m(x, e, rest, g)
            if ok is not None: return ok
            if i in runs:
                ch, ln = runs[i]
                if nul or first.inter(ch):
                    if not (surely_eq(ln, 1)):
                        raise Unsupported('regex backtracking into a run')
            i -= 1
        return None

    # ------------------------------------------------------------ searching
    def search(self, x, pos=0):
        if isinstance(x, (str, bytes)) and isinstance(pos, int):
            m = self.host.search(x, pos)
            if m is None: return None
            return M(self, x, [m.span(i) if m.start(i) >= 0 else None for i in range(self.groups + 1)])
        first, nul = self.first(self.ast)
        guard = 0
        anch = self.ast and self.ast[0] == (sc.AT, sc.AT_BEGINNING_STRING) or self.ast and self.ast[0] == (sc.AT, sc.AT_BEGINNING)
        while True:
            guard += 1
            if guard > 400: raise Unsupported('regex search')
            if nul or anch:
                m = self.match_at(x, pos)
                if m is not None: return m
                if anch: return None
                if not lt(pos, length(x)): return None
                x2, q = isolate(x, pos)
                if isinstance(q, (Run, Rep, Opq, NumP)) and not surely_eq(part_len(q), 1):
                    raise Unsupported('search of a nullable pattern in a run')
                pos = unlin(L(pos).add(1))
                continue
            if not lt(pos, length(x)): return None
            x2, q = isolate(x, pos)
            if q is None: return None
            ch = part_chars(q)
            if not ch.inter(first):
                pos = unlin(L(pos).add(L(part_len(q))))
                continue
            if isinstance(q, Lit) and len(q.v) > 1:
                c = q.v[0] if isinstance(q.v[0], int) else ord(q.v[0])
                if not first.has(c):
                    pos = unlin(L(pos).add(1))
                    continue
            elif isinstance(q, Run) and not surely_eq(part_len(q), 1):
                st, w = run_all_in(x, pos, q, first.neg(self.top))
                if st == 'retry': continue
                if st == 'all':
                    pos = unlin(L(pos).add(L(part_len(q))))
                    continue
            if isinstance(q, (NumP, Opq)) and self.no_start_in(x, pos, q, ch):
                pos = unlin(L(pos).add(L(part_len(q))))
                continue
            m = self.match_at(x, pos)
            if m is not None: return m
            x2, q = isolate(x, pos)
            if isinstance(q, (Rep, Opq, NumP)) and not surely_eq(part_len(q), 1):
                raise Unsupported('search in ' + type(q).__name__)
            if guard > 60: raise Cut('search steps')
            pos = unlin(L(pos).add(1))

    def no_start_in(self, x, pos, q, ch):
        """No match starts inside a part of unknown elements: the second element of a match can be neither in it nor behind it."""
        if len(self.ast) < 2: return False
        second = self.charset(*self.ast[1])
        if self.charset(*self.ast[0]) is None or second is None or ch.inter(second): return False
        end = unlin(L(pos).add(L(part_len(q))))
        if not lt(end, length(x)): return True
        _, nx = isolate(x, end)
        return nx is None or not part_chars(nx if not isinstance(nx, Lit) else Lit(nx.v[:1])).inter(second)

    def finditer(self, x, limit=60):
        pos = 0
        out = 0
        while True:
            if out > limit: raise Cut('matches bound')
            m = self.search(x, pos)
            if m is None: return
            out += 1
            yield m
            s, e = m.spans[0]
            if surely_eq(s, e):
                if not lt(e, length(x)): return
                # empty match: Python then tries a non-empty match at the same position
                raise Unsupported('empty matches')
            pos = e


def _cons(lst, tail):
    for n in reversed(list(lst)): tail = (n, tail)
    return tail


def _uncons(c):
    out = []
    while c is not None:
        n, c = c
        if n[0] == 'END':
            if n[1]: out.append((sc.AT, sc.AT_END_STRING))
            break
        if n[0] == 'CLOSE': continue
        if n[0] == 'LOOP':
            lo, hi, body, count, last, greedy = n[1]
            out.append((sc.MAX_REPEAT, (0, sc.MAXREPEAT, body)))
            continue
        out.append(n)
    return out


class M:
    """Match result."""

    def __init__(self, rx, subj, spans):
        self.rx, self.subj, self.spans = rx, subj, spans

    def idx(self, i):
        if isinstance(i, str): return self.rx.groupindex.get(i, -1)
        return i

    def group(self, i=0):
        s = self.spans[self.idx(i)]
        if s is None: return None
        return slice_(self.subj, s[0], s[1])


@lru_cache(maxsize=None)
def _template(repl, rx_host):
    t = sp.parse_template(repl, rx_host)
    return t


def expand(rx, repl, m):
    """Replacement template expansion."""
    t = _template(repl, rx.host)
    parts = []
    e = b'' if rx.bytes else ''
    for it in t:
        if isinstance(it, int):
            v = m.group(it)
            parts.append(e if v is None else v)
        else: parts.append(it)
    return concat(e, *parts)
