"""C15: text rows correspond one to one to input lines."""
from .common import *
from .c13 import split_sep
from .c14 import lines
from ..strs import Lit, NumP

RULE = ('the derived text-mode output must have one row per input line, each ending with one line feed and carrying the consecutive line number, and no row may be '
        'printed before the read that completes its line (or the end of input)')
EXPLAIN = ('Sequences of abstract tokens with and without line feeds are derived in text mode in one or several reads; the output is decomposed into rows by its line '
           'feeds, and the order of read and print events of the derivation gives the moment a row is displayed.')
BOUNDS = 'up to 4 lines of abstract tokens, and one literal input of 130 lines for the numbering'
MIN_PROVED = 60


def number(w, row, n, wh):
    p, rest = split_sep(row)
    w.true('line number present', p is not None, f'{row!r}', wh)
    s = norm(p)
    if not isinstance(s, str): raise Undecided(f'{s!r}')
    w.true('line number', s.strip() == str(n), f'{s!r} where {n} is required', wh)
    return rest


def rows(repo, w, toks, kw, chunks=None):
    o = Opts(kw)
    out = strip_sgr(execute(repo, toks, kw, chunks))
    wh = print_where(P())
    got, rest = lines(out)
    w.eq('every row ends with a line feed', rest, '', wh)
    line, exp = [], []
    for t in toks:
        line.append(t)
        if t.kind == 'NL':
            exp.append(line)
            line = []
    if line: exp.append(line)
    w.true('one row per line', len(got) == len(exp), f'{len(got)} rows for {len(exp)} lines', wh)
    for i, (r, l) in enumerate(zip(got, exp)):
        if o.numbers: r = number(w, r, i + 1, wh)
        e = concat('', *[display(t, o, text_of(repo, t, o)) for t in l])
        n = length(e)
        if l[-1].kind == 'NL': e = slice_(e, 0, unlin(L(n).add(-1)))
        w.eq('row shows its line', r, e, wh)


def whole(repo, src, w, kinds, axes):
    ts = [small(src, k, f't{i}') for i, k in enumerate(kinds)]
    kw = conf(src, False, axes, {t.cls for t in ts}, no_line_numbers=False)
    if 'o' in axes: kw['no_line_numbers'] = src.pick('no_line_numbers', TF)
    rows(repo, w, ts, kw)


def many(repo, src, w, n):
    ts = []
    for _ in range(n): ts += [tk.Tok('PRI', b'x'), tk.Tok('NL', b'\n')]
    rows(repo, w, ts, conf(src, False, '', no_line_numbers=False))


def reads(repo, src, w, kinds, cuts):
    """Rows of several reads; order of reads and prints. `cuts`: tokens after which the next read begins."""
    ts = [small(src, k, f't{i}') for i, k in enumerate(kinds)]
    kw = conf(src, False, '', no_line_numbers=False)
    chunks, cur, ends = [], b'', []
    for i, t in enumerate(ts):
        cur = concat(cur, t.raw)
        if i in cuts:
            chunks.append(cur)
            cur = b''
            ends.append(sum(1 for x in ts[:i + 1] if x.kind == 'NL'))
    if cuts and cuts[-1] != len(ts) - 1 or not cuts:
        chunks.append(cur)
        ends.append(sum(1 for x in ts if x.kind == 'NL'))
    start = len(P().events)
    rows(repo, w, ts, kw, chunks)
    nread, shown = 0, 0
    for ev in P().events[start:]:
        if ev[0] == 'io' and ev[1][0] == 'read': nread += 1
        elif ev[0] == 'print' and nread <= len(chunks):
            s = strip_sgr(ev[1])
            n = length(s)
            if isinstance(n, int) and n == 0: continue
            full, rest = lines(s)
            shown += len(full)
            done = ends[nread - 1] if nread else 0
            part = 0 if isinstance(length(rest), int) and length(rest) == 0 else 1
            w.true('row displayed when its line is complete', shown + part <= done or shown == done and not part,
                   f'{shown + part} rows displayed after {nread} reads with {done} complete lines', ev[2][1:])


def jobs(repo, tier):
    js = []
    for ks in (('PRI',), ('PRI', 'NL'), ('NL',), ('NL', 'NL', 'NL'), ('PRI', 'NL', 'SPC', 'NL'), ('CTL', 'NL', 'sgr1'), ('TAB', 'CR', 'NL', 'VT'), ('FF', 'NL', 'BIN', 'NL'),
               ('UTF2', 'NL', 'PRI'), ('NL', 'CSI', 'NL'), ('SGR0', 'NL', 'NUL', 'ESC'), ('CR', 'NL', 'CR'), ('UTFC1', 'NL')):
        js.append(Job(' '.join(ks), whole, ks, 'mo' if len(ks) < 4 else 'o', time=15))
    for ks in (('PRI', 'NL', 'PRI'), ('SPC', 'NL', 'NL'), ('NL', 'CTL')): js.append(Job(' '.join(ks) + ' options', whole, ks, 'mndcfi' if ks[1] == 'CTL' else 'dcfix', time=15))
    for ks, cs in ((('PRI', 'PRI', 'NL', 'PRI'), (0, 1)), (('PRI', 'NL', 'PRI', 'NL'), (0, 1, 2)), (('NL', 'PRI', 'NL'), (0, 1)), (('PRI', 'NL', 'SPC', 'BIN'), (1, 2)), (('CTL', 'UTF2', 'NL', 'NL', 'PRI'), (1, 3)),
                   (('PRI', 'SPC', 'PRI'), (0, 1)), (('FE', 'NL', 'FE'), (0,)), (('NL', 'NL'), (0, 1)), (('PRI', 'NL'), (1,))):
        js.append(Job('reads ' + ' '.join(ks) + f' {cs}', reads, ks, cs, time=15))
    js.append(Job('130 lines', many, 130, time=60))
    if tier == 'thorough':
        for a in KINDS:
            for b in KINDS:
                js.append(Job(f'thorough {a} NL {b}', whole, (a, 'NL', b), 'mncf', time=60))
                js.append(Job(f'thorough reads {a} {b} NL', reads, (a, b, 'NL', a), (0, 1, 2), time=60))
    return js
