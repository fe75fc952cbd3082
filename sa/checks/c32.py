"""C32: time deltas of whole seconds fit the width and name the right unit."""
import re
from .presets import *
from ..num import Lin, L, unlin
from ..core import le, lt, lsub
from ..strs import NumP, Lit, length

RULE = ('the text derived for a symbolic number of seconds is never longer than the requested width; the quantities it names add up to at most the given time and to more than the given time less one of the smallest '
        'named unit; the sign is shown exactly when the formatter supports it; a time above the limit of the largest unit, and only such a time, gives the overflow text')
EXPLAIN = 'Formatters are derived for an unknown integer (with symbolic quotients for the unit conversions); the derived text is decoded piece by piece into quantities and units and compared with the integer.'
BOUNDS = 'whole numbers of seconds below 10^15 in magnitude; the four registered formatters and every requested width'
ASSUME = ['seconds are whole numbers (fractions are outside: binary floating point is not modelled)']
MIN_PROVED = 100
MODU = 'pytermor.util.time_delta'
S, M, H, D, MO, Y = 1, 60, 3600, 86400, 2592000, 31104000
#       width: (units by name, largest allowed (unit, limit), negative, overflow)
FORMS = {3: ({'s': S, 'm': M, 'h': H, 'd': D}, (D, 99), False, 'ERR'),
         4: ({'s': S, 'm': M, 'h': H, 'd': D, 'M': MO, 'y': Y}, (Y, 99), False, 'ERRO'),
         6: ({'s': S, 'm': M, 'h': H, 'd': D, 'sec': S, 'min': M, 'hr': H, 'day': D, 'mon': MO, 'yr': Y}, (Y, 99), False, 'OVERFL'),
         10: ({'s': S, 'min': M, 'h': H, 'd': D, 'sec': S, 'secs': S, 'mins': M, 'hour': H, 'hours': H, 'day': D, 'days': D, 'month': MO, 'months': MO, 'year': Y, 'years': Y}, (Y, 999), True, 'OVERFLOW')}
PLURAL = {'sec', 'min', 'hour', 'day', 'month', 'year'}
RANGES = ((0, M), (M, H), (H, D), (D, MO), (MO, Y), (Y, 200 * Y), (200 * Y, 2000 * Y), (2000 * Y, 10 ** 15))


def tokens_of(t):
    """[(number, unit)] of a text, with the sign in front."""
    parts, sign = list(strs.sv(norm(t)).parts), ''
    items = []
    for q in parts:
        if isinstance(q, NumP): items.append(q)
        elif isinstance(q, Lit): items += re.findall(r'\d+|[A-Za-z]+|[^\w\s]|\s+', q.v)
        else: raise Undecided('piece of an unknown shape')
    if items and isinstance(items[0], str) and items[0] == '-': sign, items = '-', items[1:]
    out = []
    i = 0
    while i < len(items):
        if isinstance(items[i], str) and items[i].isspace():
            i += 1
            continue
        n = items[i]
        n = unlin(n.lin) if isinstance(n, NumP) else int(n) if n.isdigit() else None
        u = items[i + 1] if i + 1 < len(items) else None
        if isinstance(u, str) and u.isspace() and i + 2 < len(items): u, i = items[i + 2], i + 1
        out.append((n, u))
        i += 2
    return sign, out


def number(src, lo, hi, sign):
    v = src.int('seconds', lo) if hi is None else src.int('seconds', lo, hi - 1)
    return v, (v if sign > 0 else unlin(L(0).sub(L(v))))


def judge(w, width, mag, neg, t, wh):
    units, (big, limit), negatives, over = FORMS[width]
    w.true('not longer than the width', le(length(t), width), lambda: f'{t!r} is longer than {width}', wh)
    if norm(t) == over:
        w.ge('overflow only above the limit', unlin(L(mag).add(-(limit + 1) * big)), 0, wh)
        return
    w.ge('a time above the limit overflows', unlin(L((limit + 1) * big - 1).sub(L(mag))), 0, wh)
    sign, toks = tokens_of(t)
    w.true('sign', (sign == '-') == (neg and negatives), lambda: f'{t!r} for a {"negative" if neg else "positive"} time', wh)
    ok = bool(toks) and all(n is not None and u in units for n, u in toks)
    w.true('made of numbers and units', ok, lambda: f'{t!r}', wh)
    if not ok: return
    if width == 10:
        for n, u in toks[:1]:
            if len(toks) == 1 and len(u) > 1 and u.rstrip('s') in PLURAL: w.true('plural', u.endswith('s') != (core.surely_eq(n, 1) or core.eq_int(n, 1)), lambda: f'{t!r}', wh)
    total = L(0)
    last = None
    for n, u in toks:
        w.true('larger unit first', last is None or units[u] < last, lambda: f'{t!r}', wh)
        total, last = total.add(L(n).mul(units[u])), units[u]
    rest = unlin(L(mag).sub(total))
    w.ge('not more than the time', rest, 0, wh)
    w.ge('within one of the smallest unit', unlin(L(last - 1).sub(L(rest))), 0, wh)


def formatter(repo, src, w, width, lo, hi, sign):
    Lib(repo)
    v, s = number(src, lo, hi, sign)
    reg = repo.get(MODU, 'registry')
    f = repo.call(repo.attr(reg, 'get_by_max_len'), width)
    wh0 = repo.get(MODU, 'TimeDeltaFormatter').lookup('format_raw')
    wh = (wh0.mod.file, wh0.node.lineno, wh0.qual)
    w.true('registered width', isinstance(f, Inst), f'no formatter for {width}', wh)
    w.eq('its longest text', repo.attr(f, 'max_len'), width, wh)
    judge(w, width, v, sign < 0, repo.call(repo.attr(f, 'format'), s), wh)
    t = repo.call(repo.attr(f, 'format'), s, True)
    w.eq('padded to the width', length(t), width, wh)
    r = repo.call(repo.attr(f, 'format_raw'), s)
    lim = FORMS[width][1]
    if r is None: w.ge('nothing to show only above the limit', unlin(L(v).add(-(lim[1] + 1) * lim[0])), 0, wh)


def width_(repo, src, w, lo, hi, sign):
    """The function of the library picks a formatter that fits."""
    Lib(repo)
    v, s = number(src, lo, hi, sign)
    n = forced(src.pick('width', [None, 3, 4, 5, 6, 7, 9, 10, 11, 40]))
    fn = repo.get(MODU, 'format_time_delta')
    wh = (fn.mod.file, fn.node.lineno, fn.qual)
    best = max(k for k in FORMS if n is None or k <= n)
    judge(w, best, v, sign < 0, repo.call(fn, s, n) if n is not None else repo.call(fn, s), wh)


def narrow(repo, src, w):
    lib = Lib(repo)
    fn = repo.get(MODU, 'format_time_delta')
    n = src.int('width', None, 2)
    w.true('widths nothing fits are refused', lib.raises(fn, 10, n) == 'ValueError', 'accepted', (fn.mod.file, fn.node.lineno, fn.qual))


def jobs(repo, tier):
    js = []
    for i, (lo, hi) in enumerate(RANGES):
        for sg in (1, -1):
            lo_ = max(lo, 1) if sg < 0 else lo
            js += [Job(f'width {k} {lo_ * sg}..{hi and hi * sg}', formatter, k, lo_, hi, sg, time=20) for k in FORMS]
            js.append(Job(f'any width {lo_ * sg}..{hi and hi * sg}', width_, lo_, hi, sg, time=20))
    js.append(Job('too narrow', narrow))
    return js
