"""C16: byte and line limits are exact."""
from .common import *

RULE = ('with symbolic limits -B and -L, input length and read sizes, the derived output must show exactly the bytes of the documented prefix of the input')
EXPLAIN = ('The reader, parser and formatter are derived for runs of symbolic length delivered in up to three reads of symbolic sizes, with symbolic byte and line limits; '
           'the hex column and the text rows must be exactly those of the documented prefix.')
BOUNDS = 'up to 3 reads; up to 4 line feeds; binary rows of 4096 columns (one row)'
MIN_PROVED = 100
COLS = 4096


def expected(toks, B, Ln):
    """Number of processed bytes."""
    n = length(raw_of(toks))
    k = n
    if Ln is not None and not le(Ln, 0):
        at, seen = 0, 0
        for t in toks:
            if t.kind == 'NL':
                seen += 1
                if le(Ln, seen):
                    k = at
                    break
            at = unlin(L(at).add(L(t.n)))
    if B is not None and not le(B, 0) and lt(B, k): k = B
    return k


def split_reads(src, x, reads):
    n = length(x)
    cs = []
    for i in range(reads - 1):
        c = src.int(f'cut{i}', 1)
        if not lt(c, n) or cs and not lt(cs[-1], c): return None
        cs.append(c)
    out, at = [], 0
    for c in cs + [None]:
        out.append(slice_(x, at, c))
        at = c
    return out


def options(src, limits):
    kw = {}
    if 'B' in limits: kw['max_bytes'] = src.int('max_bytes', 0)
    if 'b' in limits: kw['max_bytes'] = forced(src.pick('max_bytes', [None, 0]))
    if 'L' in limits: kw['max_lines'] = src.int('max_lines', 0)
    if 'l' in limits: kw['max_lines'] = forced(src.pick('max_lines', [None, 0]))
    return kw


def binary(repo, src, w, kinds, limits, reads, buffer=None, hi=None):
    ts = [token(src, k, f't{i}', hi=hi) if k in RUNS else small(src, k, f't{i}') for i, k in enumerate(kinds)]
    x = raw_of(ts)
    if not le(length(x), COLS): return
    lim = options(src, limits)
    ch = split_reads(src, x, reads)
    if ch is None: return
    kw = conf(src, True, '', columns=COLS, **lim)
    if buffer: kw['buffer'] = src.int('buffer', 1)
    k = expected(ts, lim.get('max_bytes'), lim.get('max_lines'))
    if isinstance(k, FV): k = forced(k)
    t = tk.Tok('PRI', slice_(x, 0, k))
    layout_binary(repo, w, [t], kw, COLS, ch, label='exactly the bytes within the limits')


def text_(repo, src, w, kinds, limits, reads):
    """Rows in text mode: whole tokens up to the limit."""
    ts = [small(src, k, f't{i}') for i, k in enumerate(kinds)]
    x = raw_of(ts)
    lim = options(src, limits)
    ch = split_reads(src, x, reads)
    if ch is None: return
    kw = conf(src, False, '', marker=0, **lim)
    k = expected(ts, lim.get('max_bytes'), lim.get('max_lines'))
    shown, at = [], 0
    for t in ts:
        e = unlin(L(at).add(L(t.n)))
        if le(e, k): shown.append(t)
        elif lt(at, k):
            if t.kind != 'PRI': return
            shown.append(tk.Tok('PRI', slice_(t.raw, 0, unlin(lsub(k, at)))))
            break
        else: break
        at = e
    w.eq('rows within the limits', strip_sgr(execute(repo, ts, kw, ch)), text_out(repo, shown, Opts(kw)), print_where(P()))


def jobs(repo, tier):
    js = []
    for r in (1, 2, 3):
        js += [Job(f'PRI -B {r} reads', binary, ('PRI',), 'B', r, None, 5 if r > 1 else None, time=15), Job(f'PRI NL PRI -L {r} reads', binary, ('PRI', 'NL', 'PRI'), 'L', r, None, 4 if r > 1 else 40, time=20),
               Job(f'PRI NL NL PRI -B -L {r} reads', binary, ('PRI', 'NL', 'NL', 'PRI'), 'BL', r, None, 3 if r > 1 else 40, time=20)]
    js += [Job('SPC no limits', binary, ('SPC', 'NL', 'PRI'), 'bl', 2, None, 4, time=15), Job('PRI -B any buffer', binary, ('PRI',), 'B', 1, True, 3, time=20),
           Job('NL PRI NL -L any buffer', binary, ('NL', 'PRI', 'NL'), 'L', 1, True, 2, time=20), Job('PRI NL PRI -L -B text', text_, ('PRI', 'NL', 'PRI'), 'BL', 1, time=15),
           Job('NL SPC NL PRI -L text 2 reads', text_, ('NL', 'SPC', 'NL', 'PRI'), 'L', 2, time=15), Job('NL*4 -L', binary, ('NL',) * 4, 'L', 1, time=15), Job('NL*4 -L 2 reads', binary, ('NL',) * 4, 'L', 2, time=15),
           Job('UTF3b BIN -B 2 reads', binary, ('UTF3b', 'BIN'), 'B', 2, None, 2, time=15), Job('SGR0 NL FE -B 2 reads', binary, ('SGR0', 'NL', 'FE'), 'BL', 2, time=15),
           Job('PRI NL SPC -L text 3 reads', text_, ('PRI', 'NL', 'SPC'), 'L', 3, time=15), Job('PRI -B text 2 reads', text_, ('PRI',), 'B', 2, time=15)]
    for k in (*RUNS, 'CSI', 'UTF2', 'UTFC1', 'UTF3b', 'ESC', 'FE'):       # only line feeds count
        js.append(Job(f'{k} NL {k} NL PRI -L', binary, (k, 'NL', k, 'NL', 'PRI'), 'L', 1, None, 2, time=20))
    if tier == 'thorough':
        for r in (1, 2, 3):
            for ks in (('PRI', 'NL', 'PRI', 'NL', 'PRI'), ('NL', 'BIN', 'NL', 'UTF2', 'NL'), ('CTL', 'NL', 'CSI', 'NL')):
                js += [Job(f'thorough {" ".join(ks)} {l} {r}', binary, ks, l, r, None, 3, time=120) for l in ('B', 'L', 'BL')]
                js.append(Job(f'thorough text {" ".join(ks)} {r}', text_, ks, 'L', r, time=120))
    return js
