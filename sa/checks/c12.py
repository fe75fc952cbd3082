"""C12: every output row opens and closes its own styles."""
from .common import *

RULE = ('at the end of every derived output row the style state must be empty, padding and separators must be unstyled, and every byte must be displayed in the same '
        'style as when it is not split by rows')
EXPLAIN = ('The style state machine of the terminal is run over the derived output (an abstract string with literal style sequences); its state at each row end, in the '
           'padding and under each symbol is compared with the derivation in one wide row.')
BOUNDS = 'tokens of up to 5 bytes over rows of 1 to 4 columns; runs of symbolic length up to 2 rows'
MIN_PROVED = 100


def narrow(repo, src, w, kinds, cols, axes='', total=5, **kw):
    ts = [token(src, k, f't{i}', n=kw.get('n', 3)) if k in RUNS else token(src, k, f't{i}', hi=1) if k in ESCK else token(src, k, f't{i}') for i, k in enumerate(kinds)]
    base = conf(src, True, axes, {t.cls for t in ts})
    one = styled_list(execute(repo, ts, {**base, 'columns': 64}))
    n = length(raw_of(ts))
    n = n if isinstance(n, int) else small_int(n)
    hexw, rest = cut(one, 3 * n)
    pad, rest = cut(rest, 3 * (64 - n) + 2)
    for x, s in pad: w.true('padding is unstyled', not s, f'{x!r} has style {s}', print_where(P()))
    sym, _ = cut(rest, n)
    out = execute(repo, ts, {**base, 'columns': cols})
    w.true('styles closed at the end', not end_style(out), f'{end_style(out)} left open', print_where(P()))
    at = 0
    hx, sy = [], []
    st = styled_list(out)
    while at < n:
        k = min(cols, n - at)
        h, st = cut(st, 3 * k)
        p, st = cut(st, 3 * (cols - k) + 2)
        s, st = cut(st, k)
        nl, st = cut(st, 1)
        w.eq('row end', text(nl), '\n', print_where(P()))
        for x, y in p + nl: w.true('nothing styled between columns and rows', not y, f'{x!r} has style {y}', print_where(P()))
        hx.append(h)
        sy.append(s)
        at += k
    same_styled(w, 'style of the hex pairs', join(*hx), hexw)
    same_styled(w, 'style of the symbols', join(*sy), sym)


def small_int(n):
    for k in range(0, 40):
        if le(n, k): return k
    raise core.Cut('length')


def prefixes(repo, src, w, kinds, cols):
    """Offsets look the same on every row and their style does not reach the hex column."""
    ts = [token(src, k, f't{i}', n=3) if k in RUNS else token(src, k, f't{i}', hi=1) if k in ESCK else token(src, k, f't{i}') for i, k in enumerate(kinds)]
    base = conf(src, True, '', columns=cols)
    bare = styled_list(execute(repo, ts, base))
    st = styled_list(execute(repo, ts, {**base, 'no_offsets': False}))
    n = small_int(length(raw_of(ts)))
    first, rows = None, []
    for at in range(0, n, cols):
        p, st = cut(st, 9)
        look = [(length(x), s) for x, s in p]
        w.true('prefix of 9 characters', isinstance(text(p), str) and text(p)[-1:] == '│', f'{text(p)!r}', print_where(P()))
        w.true('prefix styled as on the first row', first is None or [s for _, s in p] == first, f'{show_st(p)}', print_where(P()))
        first = [s for _, s in p]
        r, st = cut(st, 4 * cols + 3 if n - at >= cols else 3 * cols + 2 + n - at + 1)
        b, bare = cut(bare, length(text(r)))
        for i in (3 * cols + 1, 1, None):
            x, r = cut(r, i) if i else (r, [])
            y, b = cut(b, i) if i else (b, [])
            if i != 1: same_styled(w, 'row after its prefix', x, y)
            else: w.eq('column separator', text(x), '│', print_where(P()))


def text_rows(repo, src, w, kinds, axes):
    ts = [small(src, k, f't{i}', hi=1 if k in ESCK else 2) for i, k in enumerate(kinds)]
    kw = conf(src, False, axes, {t.cls for t in ts})
    out = execute(repo, ts, kw)
    w.true('styles closed at the end', not end_style(out), f'{end_style(out)} left open', print_where(P()))
    # every row of its own: the tokens of one line displayed alone look the same
    lines, line = [], []
    for t in ts:
        line.append(t)
        if t.kind == 'NL':
            lines.append(line)
            line = []
    if line: lines.append(line)
    alone = [styled_list(execute(repo, l, kw)) for l in lines]
    same_styled(w, 'row displayed alone', styled_list(out), join(*alone))


def boundary(repo, src, w, kinds, axes):
    """State of the terminal directly before and after each line feed of a text mode row."""
    ts = [small(src, k, f't{i}', hi=1 if k in ESCK else 2) for i, k in enumerate(kinds)]
    kw = conf(src, False, axes, {t.cls for t in ts}, no_line_numbers=False)
    start = len(P().events)
    execute(repo, ts, kw)
    st = tk.State()
    for ev in P().events[start:]:
        if ev[0] != 'print': continue
        out = []
        for q in strs.sv(norm(ev[1])).parts:
            if isinstance(q, strs.Lit): st.lit(q.v, out)
            elif st.esc is not None:
                if not isinstance(q, (strs.Tab, strs.NumP)): raise core.Unsupported('style of unknown shape')
                st.esc.append(q)
        w.true('styles closed at the end of the row', not st.key() and st.esc is None, f'{st.key()} left open', ev[2][1:])


def jobs(repo, tier):
    js = []
    for k in ('CTL', 'SPC', 'BIN', 'NUL', 'PRI', 'sgr1', 'FE', 'SGR0', 'CSI', 'UTF3b', 'UTF4b', 'NF', 'ext5'):
        for c in (1, 2): js.append(Job(f'{k} columns={c}', narrow, (k,), c, 'd' if k.startswith('UTF') else '', time=10))
    for ks in (('CTL', 'PRI'), ('BIN', 'UTF2', 'NL'), ('sgr1', 'SPC'), ('CSI', 'CTL'), ('PRI', 'SGR0', 'NUL'), ('SPC', 'ESC', 'CTL'), ('UTF2', 'UTF3b'), ('TAB', 'SPC')):
        js.append(Job(' '.join(ks) + ' columns=3', narrow, ks, 3, '', time=12))
    for k in ('CTL', 'SPC', 'BIN', 'SGR0', 'FE', 'NL', 'UTF2'): js.append(Job(f'{k} focus', narrow, (k,), 1, 'fi', time=12))
    for ks in (('CTL', 'NL', 'PRI'), ('sgr1', 'NL', 'CTL', 'NL'), ('CSI', 'NL', 'SPC'), ('SPC', 'NL', 'NL', 'BIN'), ('UTF2', 'NL', 'SGR0'), ('NL', 'FE', 'NL'), ('PRI', 'sgr1')):
        js.append(Job('text ' + ' '.join(ks), text_rows, ks, 'm' if len(ks) < 4 else '', time=15))
        js.append(Job('rows ' + ' '.join(ks), boundary, ks, 'mf' if len(ks) < 4 else '', time=15))
    for ks in (('CTL',), ('SPC', 'UTF3b'), ('FE', 'BIN'), ('sgr1',), ('NL', 'NUL')): js.append(Job('prefix ' + ' '.join(ks), prefixes, ks, 2, time=12))
    if tier == 'thorough':
        for a in KINDS + ['sgr1', 'ext5']:
            for c in (1, 2, 3, 4): js.append(Job(f'thorough {a} {c}', narrow, (a,), c, 'dfi', time=60))
            for b in KINDS + ['sgr1', 'ext5']:
                js.append(Job(f'thorough {a} {b} columns=3', narrow, (a, b), 3, '', time=60))
                js.append(Job(f'thorough rows {a} NL {b}', boundary, (a, 'NL', b), 'mnf', time=60))
    return js
