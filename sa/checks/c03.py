"""C03: the display does not depend on how the input is split into reads."""
from .common import *

RULE = ('for every way to split a token (or two neighbouring tokens) into reads, the derived styled display must equal the one derived for a single read')
EXPLAIN = ('The same abstract bytes go through the analysed pipeline twice, as one read and as several reads cut at symbolic positions; text and style of every '
           'character of the two derived outputs must be proved equal. An incomplete sequence at the end of the input must be displayed as the reference lexer requires.')
BOUNDS = 'two or three reads; escape sequence parameter runs up to 3 bytes when cut; runs of symbolic length cut once'
MIN_PROVED = 100


def two(repo, src, w, kinds, binary, cuts=1, hi=2):
    ts = [token(src, k, f't{i}', n=2) if k in RUNS else token(src, k, f't{i}', hi=hi) if k in ESCK else token(src, k, f't{i}') for i, k in enumerate(kinds)]
    x = raw_of(ts)
    kw = conf(src, binary, '', marker=2, no_offsets=False, columns=6) if binary else conf(src, binary, '', marker=2)
    n = length(x)
    cs = []
    for i in range(cuts):
        c = src.int(f'cut{i}', 1)
        if not lt(c, n): return
        if cs and not lt(cs[-1], c): return
        cs.append(c)
    chunks = []
    at = 0
    for c in cs + [None]:
        chunks.append(slice_(x, at, c))
        at = c
    whole = styled_list(execute(repo, ts, kw))
    parts = styled_list(execute(repo, ts, kw, chunks))
    same_styled(w, f'display of {" ".join(kinds)} in {cuts + 1} reads', parts, whole)


def run(repo, src, w, kind, binary):
    """A run of any length cut anywhere."""
    t = token(src, kind)
    c = src.int('cut', 1)
    if not lt(c, t.n): return
    kw = conf(src, binary, '', marker=0, columns=4096)
    if binary and not le(t.n, 4096): raise core.Cut('one row')
    whole = styled_list(execute(repo, [t], kw))
    parts = styled_list(execute(repo, [t], kw, [slice_(t.raw, 0, c), slice_(t.raw, c, None)]))
    same_styled(w, f'display of a cut run of {kind}', parts, whole)


def tail(repo, src, w, doms, before, cut, binary):
    """Incomplete sequence at the end, arriving in its own read."""
    bs = list(before) + [src.pick(f'b{i}', d) for i, d in enumerate(doms)]
    x = concat(b'', *[tk.one(b) for b in bs])
    toks = tk.lex(bs)
    kw = conf(src, binary, '', marker=0, columns=16)
    o = Opts(kw)
    styled = execute(repo, [], kw, [slice_(x, 0, cut), slice_(x, cut, None)] if cut else [x])
    if binary:
        n = length(x)
        w.eq('incomplete tail', strip_sgr(styled), concat(hexes(x), '   ' * (16 - n), '  ', binary_chars(repo, toks, o), '\n'))
    else: w.eq('incomplete tail', strip_sgr(styled), text_out(repo, toks, o))


A, HI, C = range(256), range(0x80, 0x100), range(0x80, 0xc0)


def jobs(repo, tier):
    js = []
    for k in ('UTF2', 'UTF2a', 'UTFC1', 'UTF3a', 'UTF3b', 'UTF3c', 'UTF4a', 'UTF4b', 'UTF4c', 'SGR0', 'FP', 'FE', 'FS', 'sgr1', 'CSI', 'NF', 'CSIm', 'ext5'):
        js.append(Job(f'{k} text', two, ('PRI', k), False, time=15))
        if k in ('UTF2', 'UTF3b', 'UTF4b', 'SGR0', 'FE', 'sgr1', 'CSI'): js.append(Job(f'{k} binary', two, (k, 'PRI'), True, 1, 1, time=15))
    for k in ('UTF3b', 'UTF4b', 'SGR0', 'NF', 'CSI'): js.append(Job(f'{k} text three reads', two, (k,), False, 2, time=15))
    for ks in (('BIN', 'UTF2'), ('UTF2', 'BIN'), ('CSI', 'UTF2'), ('NL', 'NL', 'PRI'), ('PRI', 'NL', 'SPC'), ('CTL', 'SGR0'), ('NUL', 'NUL', 'TAB'), ('BIN', 'BIN', 'PRI')):
        js.append(Job(' '.join(ks) + ' text', two, ks, False, 1, 1, time=15))
    for ks in (('BIN', 'PRI'), ('NUL', 'UTF2'), ('SPC', 'CTL', 'DEL')): js.append(Job(' '.join(ks) + ' binary', two, ks, True, 1, 1, time=15))
    for k in RUNS: js.append(Job(f'run of {k}', run, k, k in ('SPC', 'BIN'), time=8))
    js += [Job('tail lead', tail, [HI], b'a', 1, False, time=15), Job('tail lead cont', tail, [range(0xc2, 0x100), C], b'', 1, False, time=15),
           Job('tail lead cont cont', tail, [range(0xe0, 0xf5), C, C], b'', 2, False, time=20),
           Job('tail ESC', tail, [range(0x20, 0x80)], b'\x1b', 1, False, time=15), Job('tail CSI', tail, [range(0x20, 0x40)] * 2, b'\x1b[', 2, False, time=15),
           Job('tail nF', tail, [range(0x20, 0x30)] * 2, b'\x1b', 2, False, time=15), Job('tail lead binary', tail, [range(0xc2, 0x100), C], b'a', 2, True, time=15),
           Job('tail ESC binary', tail, [range(0x20, 0x40)], b'\x1b[', 2, True, time=15)]
    if tier == 'thorough':
        for a in KINDS:
            for b in KINDS:
                js.append(Job(f'thorough {a} {b} text', two, (a, b), False, 1, 1, time=60))
                js.append(Job(f'thorough {a} {b} binary', two, (a, b), True, 1, 1, time=60))
            js.append(Job(f'thorough {a} three reads', two, (a, 'PRI'), False, 2, 2, time=60))
    return js
