"""C13: displayed offsets are exact and complete."""
from .common import *
from ..strs import NumP, Lit

RULE = ('the number printed in front of each derived binary-mode row must denote exactly the number of bytes shown on the earlier rows, and the total at the end the '
        'number of bytes shown, in the documented base, for symbolic row widths and input lengths (offsets of any magnitude)')
EXPLAIN = ('Rows are derived for runs of symbolic length with a symbolic column count, so that offsets are affine expressions of unbounded magnitude; the printed digits '
           '(an abstract numeral with base and width) must carry the same affine expression.')
BOUNDS = 'up to 3 rows per derivation with symbolic widths up to 10^9; sequences of small tokens over narrow rows and 2-3 reads'
MIN_PROVED = 60


def split_sep(x):
    """(text before the first separator, text after it)"""
    parts = list(strs.sv(norm(x)).parts)
    for i, q in enumerate(parts):
        if isinstance(q, Lit) and '│' in q.v:
            a, b = q.v.split('│', 1)
            return mk('s', parts[:i] + [Lit(a)]), mk('s', [Lit(b)] + parts[i + 1:])
        if not isinstance(q, (Lit, NumP)): break
    return None, x


def offset(w, label, prefix, exp, o):
    """The prefix must be the documented numeral of `exp`."""
    wh = print_where(P())
    w.true(label + ': present', prefix is not None, 'no offset in front of the row', wh)
    parts = list(strs.sv(norm(prefix)).parts)
    lit = ''
    while parts and isinstance(parts[0], Lit): lit += parts.pop(0).v
    t = lit.strip(' ')
    if not o.decimal:
        w.true(label + ': hexadecimal with 0x', t.startswith('0x'), f'{norm(prefix)!r}', wh)
        t = t[2:]
    if not parts:
        w.true(label + ': digits', t != '' and all(c in ('0123456789' if o.decimal else '0123456789abcdef') for c in t), f'{lit!r}', wh)
        w.eq(label, int(t, 10 if o.decimal else 16), exp, wh)
        return
    if len(parts) != 1 or not isinstance(parts[0], NumP): raise Undecided(f'prefix {prefix!r}')
    q = parts[0]
    w.true(label + ': only zeros before the digits', not t.strip('0'), f'{prefix!r}', wh)
    w.true(label + ': base', q.base == ('d' if o.decimal else 'x'), f'base {q.base}', wh)
    w.eq(label, unlin(q.lin), exp, wh)


def rows(repo, src, w, toks, kw, cols, chunks=None, limit=None):
    o = Opts(kw)
    out = strip_sgr(execute(repo, toks, kw, chunks))
    n = length(raw_of(toks)) if limit is None else limit
    at = 0
    k = 0
    while lt(at, n):
        if k >= 4: raise core.Cut('rows bound')
        end = unlin(L(at).add(L(cols)))
        if not le(end, n): end = n
        p, out = split_sep(out)
        offset(w, 'offset of a row', p, at, o)
        m = unlin(L(cols).mul(3).add(3).add(lsub(end, at)))
        w.true('row complete', le(m, length(out)), f'{out!r} is shorter than a row', print_where(P()))
        w.eq('row end', slice_(out, unlin(L(m).add(-1)), m), '\n', print_where(P()))
        out = slice_(out, m, None)
        at = end
        k += 1
    p, out = split_sep(out)
    offset(w, 'total', p, n, o)
    w.eq('nothing after the total', out, '\n', print_where(P()))


def wide(repo, src, w, kind, decimal, nrows, chunks=1):
    """Symbolic row width: offsets of any magnitude."""
    c = src.int('columns', 1, 10 ** 9)
    t = token(src, kind)
    if not le(t.n, unlin(L(c).mul(nrows))) or nrows > 1 and le(t.n, unlin(L(c).mul(nrows - 1))): return
    kw = conf(src, True, '', columns=c, no_offsets=False, decimal_offsets=decimal)
    ch = None
    if chunks == 2:
        x = src.int('cut', 1)
        if not lt(x, t.n): return
        ch = [slice_(t.raw, 0, x), slice_(t.raw, x, None)]
    rows(repo, src, w, [t], kw, c, ch)


def seq(repo, src, w, kinds, cols, axes, cut=None):
    ts = [token(src, k, f't{i}', n=3) if k in RUNS else token(src, k, f't{i}', hi=1) if k in ESCK else token(src, k, f't{i}') for i, k in enumerate(kinds)]
    kw = conf(src, True, 'b' + axes, {t.cls for t in ts}, columns=cols, no_offsets=False)
    x = raw_of(ts)
    ch = None
    if cut is not None:
        if not lt(cut, length(x)): return
        ch = [slice_(x, 0, cut), slice_(x, cut, None)]
    rows(repo, src, w, ts, kw, cols, ch)


def limited(repo, src, w, decimal):
    """Total with -B: the bytes displayed, not the bytes available."""
    t = token(src, 'SPC')
    lim = src.int('max_bytes', 1)
    kw = conf(src, True, '', columns=1000, no_offsets=False, decimal_offsets=decimal, max_bytes=lim)
    if not le(t.n, 1000): return
    n = lim if le(lim, t.n) else t.n
    rows(repo, src, w, [T(src, 'SPC', 'shown', n=n)] if False else [t], kw, 1000, None, n)


def absent(repo, src, w, kind):
    t = small(src, kind)
    kw = conf(src, True, 'b', columns=2)
    out = strip_sgr(execute(repo, [t], kw))
    p, _ = split_sep(out)
    w.true('no offsets with --no-offsets', p is None, f'{p!r} printed', print_where(P()))


def debugged(repo, src, w, lv):
    """Debug mode prints offsets even with --no-offsets."""
    t = tk.Tok('PRI', b'zq')
    kw = conf(src, True, '', columns=2, debug=lv)
    n = len(P().events)
    execute(repo, [t], kw)
    found = False
    for ev in P().events[n:]:
        if ev[0] != 'print': continue
        s = norm(strip_sgr(ev[1]))
        if not isinstance(s, str): raise Undecided(repr(s))
        for row in s.split('\n'):
            if '7a 71' in row and 'zq' in row:
                w.true('offsets shown in debug mode', row.startswith('  0x0000│'), f'{row!r} has no offset', ev[2][1:])
                found = True
    w.true('row shown in debug mode', found)


def jobs(repo, tier):
    js = []
    for d in (False, True):
        n = 'decimal' if d else 'hexadecimal'
        js += [Job(f'{n} one row', wide, 'SPC', d, 1, time=20), Job(f'{n} two rows', wide, 'SPC', d, 2, time=30), Job(f'{n} two reads', wide, 'NUL', d, 2, 2, time=30), Job(f'{n} limited', limited, d, time=15)]
    for ks, c in ((('PRI', 'UTF2', 'CTL'), 3), (('BIN', 'sgr1'), 4), (('UTF3b', 'UTF4b', 'NL'), 2), (('CSI', 'SPC'), 4), (('ESC', 'NUL', 'DEL'), 3)):
        js.append(Job(f'{" ".join(ks)} columns={c}', seq, ks, c, '', time=12))
        for cut in (1, 4): js.append(Job(f'{" ".join(ks)} columns={c} cut={cut}', seq, ks, c, '', cut, time=12))
    for k in ('SPC', 'CTL', 'SGR0', 'BIN', 'NL'): js.append(Job(f'{k} options', seq, (k,), 2, 'dfi', time=10))
    for k in ('PRI', 'CSI', 'BIN'): js.append(Job(f'{k} without offsets', absent, k, time=10))
    for lv in (1, 3): js.append(Job(f'debug {lv}', debugged, lv, time=10))
    js += [Job(f'{n} three rows', wide, 'SPC', d, 3, time=20) for d, n in ((False, 'hexadecimal'), (True, 'decimal'))]
    if tier == 'thorough':
        for d in (False, True):
            js += [Job(f'{k} {r} rows {d}', wide, k, d, r, ch, time=200) for k in ('SPC', 'DEL') for r in (1, 2, 3) for ch in (1, 2)]
        for a in KINDS:
            for b in KINDS: js.append(Job(f'thorough {a} {b}', seq, (a, b), 3, '', time=30))
    return js
