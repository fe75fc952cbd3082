"""C14: binary rows have the requested width and always make progress."""
from .common import *
from .c13 import split_sep
from ..strs import Lit, mod_const

RULE = ('every derived binary row except the last shows exactly the given number of bytes; without a given width the number of bytes is a positive multiple of four that is '
        'the same on each row, for every terminal width; the last row is padded by three columns per missing byte')
EXPLAIN = ('Row layouts are derived for symbolic column counts and symbolic terminal widths (the division is followed exactly as a floor constraint); the width of each '
           'derived row is recovered from its symbolic length.')
BOUNDS = 'inputs of at most 4 rows; explicit widths any positive number; terminal widths any positive number'
MIN_PROVED = 60


def explicit(repo, src, w, kind, chunks):
    t = token(src, kind)
    c = src.int('columns', 1)
    ch = None
    if chunks == 2:
        x = src.int('cut', 1)
        if not lt(x, t.n): return
        ch = [slice_(t.raw, 0, x), slice_(t.raw, x, None)]
    if lt(unlin(L(c).mul(3)), t.n): raise core.Cut('rows bound')
    layout_binary(repo, w, [t], conf(src, True, '', columns=c), c, ch, label='row of the requested width')


def lines(out):
    """Rows of the output (without line feeds)."""
    rows, cur = [], []
    for q in strs.sv(norm(out)).parts:
        if isinstance(q, Lit) and '\n' in q.v:
            ps = q.v.split('\n')
            for x in ps[:-1]:
                cur.append(Lit(x))
                rows.append(mk('s', cur))
                cur = []
            cur = [Lit(ps[-1])] if ps[-1] else []
        else: cur.append(q)
    return rows, mk('s', cur)


def auto(repo, src, w, n, columns, offsets, chunks=None, kind='PRI'):
    width = src.int('terminal width', 1)
    t = T(src, kind, n=n)
    kw = conf(src, True, '', columns=columns, no_offsets=not offsets)
    ch = None
    if chunks: ch = [slice_(t.raw, 0, chunks), slice_(t.raw, chunks, None)]
    out = strip_sgr(execute(repo, [t], kw, ch, width))
    wh = print_where(P())
    rows, rest = lines(out)
    prefix = 0
    w.eq('output ends with a row', rest, '', wh)
    if offsets:
        plain = []
        for r in rows:
            p, r2 = split_sep(r)
            if p is not None: prefix = unlin(L(length(p)).add(1)) if not plain else prefix
            w.true('offset present', p is not None, f'{r!r}', wh)
            plain.append(r2)
        rows = plain[:-2] if norm(plain[-1]) == '' and norm(plain[-2]) == '' else plain[:-1]
    seen = 0
    cols = None
    for i, r in enumerate(rows):
        ln = length(r)
        if i < len(rows) - 1: k = L(ln).add(-2)
        else: k = L(ln).add(-2).sub(L(n - seen) if isinstance(n - seen, int) else L(n - seen))
        d = 4 if i < len(rows) - 1 else 3
        if any(x % d for _, x in k.t) or k.c % d:
            w.true('row layout', False, f'row of {ln} characters', wh)
        k = unlin(k.div_exact(d))
        w.true('positive width', lt(0, k), f'{k} bytes in a row', wh)
        m = mod_const(k, 4)
        if m is None: raise Undecided(f'width {k}')
        w.true('width is a multiple of four', m == 0, f'{k} bytes in a row (modulo 4: {m})', wh)
        full = unlin(L(k).mul(4).add(L(prefix)).add(2))
        w.true('row fits the terminal', not lt(4, k) or le(full, width), f'row of {full} characters, terminal of {width} columns', wh)
        if cols is not None and not chunks: w.eq('same width on each row', k, cols, wh)
        cols = k
        if i < len(rows) - 1:
            if not isinstance(k, int): raise Undecided(f'several rows of {k}')
            seen += k
    w.true('all bytes shown', lt(seen, n) and le(unlin(L(n).sub(L(seen))), cols), f'{seen} bytes in full rows of {cols}, {n} to be shown', wh)


def jobs(repo, tier):
    js = []
    for k in ('SPC', 'PRI', 'BIN', 'NL'): js.append(Job(f'{k} requested width', explicit, k, 1, time=10))
    for k in ('SPC', 'PRI', 'NUL'): js.append(Job(f'{k} requested width, two reads', explicit, k, 2, time=7))
    for n in (1, 4, 5, 8, 9, 12):
        for c in (0, None):
            js.append(Job(f'{n} bytes, width {c}', auto, n, c, False, time=15))
            if n in (1, 5, 9): js.append(Job(f'{n} bytes, width {c}, offsets', auto, n, c, True, time=15))
    js += [Job('9 bytes, two reads', auto, 9, 0, False, 5, time=15), Job('6 bytes, two reads, offsets', auto, 6, None, True, 2, time=15)]
    if tier == 'thorough':
        for n in range(1, 40):
            for o in (False, True): js.append(Job(f'thorough {n} {o}', auto, n, 0, o, time=60))
        for k in RUNS: js += [Job(f'thorough {k} {c}', explicit, k, c, time=60) for c in (1, 2)]
    return js
