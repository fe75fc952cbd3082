"""C09: focus and ignore options affect exactly their own class."""
from .common import *

RULE = ('the styled display derived with one class ignored / focused must be the documented one for tokens of that class (dim cross per byte / highlighted marker, same '
        'text) and equal to the one derived with default settings for tokens of every other class')
EXPLAIN = ('For every token kind and every option --focus-X / --ignore-X the pipeline is derived with and without the option; text and style state of each character are compared.')
BOUNDS = 'runs up to 2 bytes in binary mode; escape sequence runs up to 2 bytes'
MIN_PROVED = 150


def others(repo, src, w, kind, binary, lv):
    """Options of the other classes change nothing."""
    t = small(src, kind, hi=1 if kind in ESCK else 2)
    base = conf(src, binary, '', marker=lv, columns=16)
    dflt = styled_list(execute(repo, [t], base))
    which = src.pick('option', [(v, c) for v in ('ignore_', 'focus_') for c in CLASSES if c != t.cls])
    v, c = core.force(which) if isinstance(which, FV) else which
    st = styled_list(execute(repo, [t], {**base, v + c: True}))
    same_styled(w, f'display of {t.cls} with {v}{c}', st, dflt)


def highlighted(s):
    d = dict(s)
    return 'inv' in d or 'bg' in d


def body(out, t, binary):
    """Styled characters of the token itself."""
    st = styled_list(out)
    n = length(text(st))
    if binary:
        _, b = cut(st, 50)
        a, nl = cut(b, t.n)
    else: a, nl = cut(st, unlin(lsub(n, 1)))
    return a, nl


def own(repo, src, w, kind, binary, lv, colored=False):
    t = small(src, kind, hi=1 if kind in ESCK else 2)
    base = conf(src, binary, '', marker=lv, columns=16, color_markers=colored)
    o = Opts(base)
    dflt, nl0 = body(execute(repo, [t], base), t, binary)
    ign, nl1 = body(execute(repo, [t], {**base, 'ignore_' + t.cls: True}), t, binary)
    w.eq('ignored: row ends', text(nl1), '\n')
    w.eq('ignored: one cross per byte', text(ign), rep('×', t.n))
    for x, s in ign: w.true('ignored: dim', 'dim' in dict(s), f'{x!r} has style {s}', print_where(P()))
    both, nl2 = body(execute(repo, [t], {**base, 'ignore_' + t.cls: True, 'focus_' + t.cls: True}), t, binary)
    w.eq('ignored and focused: row ends', text(nl2), '\n')
    w.eq('ignored and focused: one cross per byte', text(both), rep('×', t.n))
    for x, s in both: w.true('ignored and focused: dim', 'dim' in dict(s), f'{x!r} has style {s}', print_where(P()))
    foc, nl2 = body(execute(repo, [t], {**base, 'focus_' + t.cls: True}), t, binary)
    w.eq('focused: row ends', text(nl2), '\n')
    kw = {**base, 'focus_' + t.cls: True}
    exp = display(t, Opts(kw), text_of(repo, t, Opts(kw)))
    if kind == 'NL' and not binary: exp = '↵'
    w.eq('focused: same text', text(foc), exp)
    w.true('focused: marker highlighted', any(highlighted(st) for _, st in foc), f'{show_st(foc)}', print_where(P()))
    if lv == 0 or binary or t.cls != 'esc' and t.kind != 'CTL':
        for x, s in foc:
            if text_is_pad(x): continue
            w.true('focused: every marker highlighted', highlighted(s), f'{x!r} has style {s} in {show_st(foc)}', print_where(P()))


def text_is_pad(x): return isinstance(x, str) and set(x) <= set('\t')


def jobs(repo, tier):
    js = []
    for k in ('PRI', 'SPC', 'TAB', 'NL', 'CTL', 'NUL', 'ESC', 'BIN', 'UTF2', 'UTFC1', 'CSI', 'SGR0', 'FE', 'sgr1', 'NF'):
        js.append(Job(f'others text {k}', others, k, False, 1, time=12))
        if k in ('PRI', 'SPC', 'NL', 'CTL', 'BIN', 'UTF2', 'SGR0'): js.append(Job(f'others binary {k}', others, k, True, 1, time=12))
    for k in ('PRI', 'SPC', 'TAB', 'NL', 'VT', 'FF', 'CR', 'CTL', 'NUL', 'BS', 'DEL', 'ESC', 'BIN', 'UTF2', 'UTFC1', 'CSI', 'CSIm', 'SGR0', 'NF', 'FP', 'FE', 'FS', 'sgr1', 'ext5'):
        for lv in (0, 1):
            if lv == 0 and k in ('PRI', 'SPC', 'TAB', 'NL', 'VT', 'FF', 'CR', 'NUL', 'BS', 'DEL', 'BIN'): continue
            js.append(Job(f'own text {k} {lv}', own, k, False, lv, time=10))
        if k in ('PRI', 'SPC', 'TAB', 'NL', 'CTL', 'ESC', 'BIN', 'UTF2', 'CSI', 'SGR0', 'sgr1', 'NUL', 'DEL'): js.append(Job(f'own binary {k}', own, k, True, 0, time=10))
    for k in ('SGR0', 'CSI'): js.append(Job(f'own text {k} colour', own, k, False, 0, True, time=10))
    if tier == 'thorough':
        for k in KINDS + ['sgr1', 'ext5', 'ext2']:
            for lv in (0, 1, 2):
                for b in (False, True):
                    js.append(Job(f'thorough others {k} {lv} {b}', others, k, b, lv, time=60))
                    js.append(Job(f'thorough own {k} {lv} {b}', own, k, b, lv, time=60))
    return js
