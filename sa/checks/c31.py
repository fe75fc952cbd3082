"""C31: formatted numbers have exactly the requested width and denote the number."""
import re
from .presets import *
from .. import rx
from ..num import Lin, L, unlin
from ..core import le, lt, Frac
from ..strs import NumP, Lit, Rep, length

RULE = ('the text derived for a symbolic decimal number has exactly the requested length; the number it shows differs from the given one by at most half a unit of the last digit shown (less than one unit where rounding up '
        'would need a digit more than there is room for); the sign is shown exactly for negative numbers; exponents are used, or the number is refused, exactly where the plain form has no room')
EXPLAIN = 'The formatter is derived for n/10^k with an unknown integer n per decade; the derived text is decoded piece by piece into digits and exponent and compared with n as an affine expression.'
BOUNDS = 'decimal numbers n/10^k of either sign with n < 10^12 and k <= 6 (thorough: n < 10^14, k <= 10), widths 1-8 (thorough: 1-12); both ready-made unit formatters'
ASSUME = ['decimal numbers are treated as exact; a number within rounding error of a limit (binary floating point) may take the neighbouring form']
MIN_PROVED = 400
AF, PU = 'pytermor.util.auto_float', 'pytermor.util.prefixed_unit'
SI = ['y', 'z', 'a', 'f', 'p', 'n', 'μ', 'm', '', 'k', 'M', 'G', 'T', 'P', 'E', 'Z', 'Y']


def number(src, k, lo, hi, neg):
    """(value, Lin numerator): the number n/10^k"""
    n = src.int('n', lo, hi)
    s = unlin(L(n).neg()) if neg else n
    return (s if not k else Frac(L(s), 10 ** k)), L(n)


class Shown:
    """Number denoted by a text: blanks, sign, digits (affine), decimals, exponent, unit."""

    def __init__(self, t):
        ps = []
        for q in strs.sv(norm(t)).parts:
            if isinstance(q, Lit): ps += list(q.v)
            elif isinstance(q, Rep) and isinstance(q.n, int) and len(q.u) == 1: ps += [q.u] * q.n
            elif isinstance(q, NumP) and q.base == 'd': ps.append(q)
            else: raise Undecided('piece of an unknown shape')
        i = 0
        def at(): return ps[i] if i < len(ps) else None
        def digit(): return isinstance(at(), NumP) or (isinstance(at(), str) and at().isdigit())
        self.lead = self.inner = 0
        self.sign = ''
        while at() == ' ': i, self.lead = i + 1, self.lead + 1
        if at() in ('-', '+'): self.sign, i = at(), i + 1
        while at() == ' ': i, self.inner = i + 1, self.inner + 1
        self.num, self.digits, self.dec, self.dot = L(0), 0, 0, False
        while digit() or (at() == '.' and not self.dot):
            q = at()
            i += 1
            if q == '.':
                self.dot = True
                continue
            n = 1 if isinstance(q, str) else strs.length(strs.mk('s', [q]))
            if not isinstance(n, int):
                if self.digits: raise Undecided('digits of unknown number')
                n = 1
            self.num = self.num.mul(10 ** n).add(L(int(q) if isinstance(q, str) else q.lin))
            self.digits += n
            if self.dot: self.dec += n
        self.exp = None
        rest = ''
        while at() is not None:
            if not isinstance(at(), str): raise Undecided('piece of an unknown shape')
            rest += at()
            i += 1
        m = re.match(r'e(-?\d+)(.*)$', rest)
        if m: self.exp, rest = int(m.group(1)), m.group(2)
        self.rest = rest


def near(w, s, n, den, wh, room):
    """|shown - n/den| at most half a unit of the last digit (one where the next digit would not fit)."""
    e = s.exp or 0
    # shown = num * 10^(e - dec);  compare num * 10^(e - dec) * den with n
    p = e - s.dec
    a, b, u = (s.num.mul(den * 10 ** p), n, den * 10 ** p) if p >= 0 else (s.num.mul(den), n.mul(10 ** -p), den)
    diff = a.sub(b)
    if le(diff.mul(2), u) and le(diff.mul(-2), u): w.true('half a unit of the last digit', True, where=wh)
    else:
        w.true('cut off below the next digit only', not s.dec and (bool(core.eq_int(s.num.add(1), 10 ** s.digits)) or (s.digits == 1 and bool(core.eq_int(s.num, 0)))) and s.digits >= room - len(str(s.exp) + 'e') * (s.exp is not None),
               lambda: f'{s.num}e{p} where {n}/{den} was given', wh)
        w.true('within one unit of the last digit', lt(diff, u) and lt(diff.neg(), u), lambda: f'{s.num}e{p} where {n}/{den} was given', wh)


def auto(repo, src, w, req, k, lo, hi, neg, expo):
    Lib(repo)
    f = repo.get(AF, 'format_auto_float')
    wh = (f.mod.file, f.node.lineno, f.qual)
    x, n = number(src, k, lo, hi, neg)
    den = 10 ** k
    room = req - neg
    big = bool(le(L(den * 10 ** room), n)) if room >= 0 else True   # integer part has more digits than there is room for
    small = bool(lt(n.mul(100), L(den))) and not bool(core.eq_int(n, 0))
    try: t = norm(repo.call(f, x, req) if expo else repo.call(f, x, req, False))
    except AExc as e:
        w.eq('refused with ValueError', e.value.cls.name, 'ValueError', wh)
        w.true('refused only without exponents', not expo, where=wh)
        w.true('refused only without room', big, lambda: f'{n}/{den} refused at {req}', wh)
        return
    if not expo and room > 0: w.true('no room refused', not big, lambda: f'{n}/{den} accepted at {req}: {t!r}', wh)
    w.eq('exactly as long as required', length(t), req, wh)
    if isinstance(t, str) and set(t) == {'!'}:
        e = exponent(n, den)
        w.true('overflow mark only without room for the exponent', room == 0 or len(f'e{e}') > room, lambda: f'{t!r} for {n}/{den}', wh)
        return
    s = Shown(t)
    w.eq('nothing behind the number', s.rest, '', wh)
    w.eq('sign', s.sign, '-' if neg and not core.surely_eq(n, 0) and not bool(core.eq_int(n, 0)) else '', wh)
    if s.exp is not None:
        w.true('exponents where allowed', expo, lambda: f'{t!r}', wh)
        w.true('exponents where needed', big or small, lambda: f'{t!r} for {n}/{den}', wh)
        w.eq('power of ten', s.exp, exponent(n, den), wh)
        if not s.digits:
            w.true('no digits only without room', len(f'e{s.exp}') >= room, lambda: f'{t!r}', wh)
            return
    elif expo and room > 1: w.true('plain form where it fits', not (big or small), lambda: f'{t!r} for {n}/{den}', wh)
    if not bool(core.eq_int(n, 0)):
        w.true('filled with digits', s.lead + s.inner <= 1, lambda: f'{t!r}', wh)
        near(w, s, n, den, wh, room)
    else: w.eq('zero', unlin(s.num), 0, wh)


def exponent(n, den):
    e = 0
    while le(L(den * 10 ** (e + 1)), n): e += 1
    while e <= 0 and lt(n.mul(10 ** -e), L(den)): e -= 1
    return e


def unit(repo, src, w, which, k, lo, hi, neg):
    """The ready-made unit formatters."""
    Lib(repo)
    name, base, room, u = {'metric': ('format_si_metric', 1000, 4, 'V'), 'binary': ('format_si_binary', 1024, 5, 'bps')}[which]
    f = repo.get(PU, name)
    wh = (f.mod.file, f.node.lineno, f.qual)
    x, n = number(src, k, lo, hi, neg)
    den = 10 ** k
    own = forced(src.pick('unit', (True, False)))
    t = norm(repo.call(f, x, u) if own else repo.call(f, x))
    if not own: u = {'metric': 'm', 'binary': 'b'}[which]
    w.true('fits', bool(le(length(t), room + 2 + len(u))), lambda: f'{t!r} is longer than {room} + 2 + {u!r}', wh)
    s = Shown(t)
    m = re.match(r' (\D*?)' + re.escape(u) + '$', s.rest)
    w.true('number, blank, prefix, unit', bool(m) and m.group(1) in SI and s.exp is None and not s.lead, lambda: f'{t!r}', wh)
    if not m or m.group(1) not in SI or s.exp is not None: return
    zero = bool(core.eq_int(n, 0))
    i = SI.index(m.group(1)) - 8
    nn, dd = (n, den * base ** i) if i >= 0 else (n.mul(base ** -i), den)
    if zero: w.true('zero', core.surely_eq(unlin(s.num), 0) and not i, lambda: f'{t!r}', wh)
    else:
        w.true('not above the next prefix', lt(nn, L(dd * base)), lambda: f'{t!r} for {n}/{den}', wh)
        if which == 'metric' or i: w.true('not below the previous prefix', le(L(dd), nn), lambda: f'{t!r} for {n}/{den}', wh)
    if which == 'binary' and not i:
        q = s.num.mul(den)
        w.true('whole units, cut off', not s.dot and le(q, n) and lt(n, q.add(den)), lambda: f'{t!r} for {n}/{den}', wh)
        w.true('sign', not s.sign if bool(core.eq_int(s.num, 0)) else (s.sign == '-') == bool(neg), lambda: f'{t!r}', wh)
        return
    if not zero:
        w.true('sign', (s.sign == '-') == bool(neg), lambda: f'{t!r}', wh)
        near(w, s, nn, dd, wh, room - neg)


def jobs(repo, tier):
    js = []
    rx.category(rx.sc.CATEGORY_SPACE, False, False)   # shared by the analyser processes
    deep = tier == 'thorough'
    top = 14 if deep else 12
    for req in range(1, 13 if deep else 9):
        for k in range(0, 11 if deep else 7):
            for d in range(-1, top):
                lo, hi = (0, 0) if d < 0 else (10 ** d, 10 ** (d + 1) - 1)
                if d < 0 and k: continue
                for neg in (0, 1):
                    if d < 0 and neg: continue
                    js.append(Job(f'{req} {"-" * neg}{d}/{k}', auto2, req, k, lo, hi, neg))
    for which in ('metric', 'binary'):
        for k in range(0, 11 if deep else 7):
            for d in range(-1, top):
                lo, hi = (0, 0) if d < 0 else (10 ** d, 10 ** (d + 1) - 1)
                if d < 0 and k: continue
                for neg in (0, 1):
                    if d < 0 and neg: continue
                    js.append(Job(f'{which} {"-" * neg}{d}/{k}', unit, which, k, lo, hi, neg))
    return js


def auto2(repo, src, w, req, k, lo, hi, neg):
    auto(repo, src, w, req, k, lo, hi, neg, forced(src.pick('exponents', (True, False))))
