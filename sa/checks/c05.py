"""C05: the marker of a token depends only on the token and the options."""
from .common import *

RULE = ('the styled display derived for the sequence A B must be the styled display derived for A followed by the one derived for B, '
        'for every pair of token kinds, marker level and separator option')
EXPLAIN = ('Three derivations of the analysed pipeline with the same abstract tokens: both tokens in one input (queued together), and each of them alone. '
           'The text and the style state of every character of the joint output must be proved equal to the concatenation.')
BOUNDS = 'runs in a pair are bounded to 2 bytes where both are runs; histories of length 2 and 3'
MIN_PROVED = 100


def pair(repo, src, w, kinds, axes):
    ts = [small(src, k, f't{i}', hi=1 if k == 'CTL' else 2) for i, k in enumerate(kinds)]
    kw = conf(src, False, axes)
    joint = styled_list(execute(repo, ts + [T(src, 'NL')], kw))
    parts = []
    for t in ts:
        one = execute(repo, [t], kw)
        if t.kind != 'NL':
            st = styled_list(one)
            n = unlin(lsub(length(text(st)), 1))
            st, nl = cut(st, n)
            w.eq('row ends with a line feed', text(nl), '\n')
        else: st = styled_list(one)
        parts.append(st)
    parts.append(styled_list(execute(repo, [T(src, 'NL')], kw)))
    same_styled(w, 'display of ' + ' after '.join(reversed(kinds)), joint, join(*parts))


def binary(repo, src, w, kinds, axes):
    """One wide row: symbols and hex pairs of B are the same with and without A before it."""
    ts = [small(src, k, f't{i}') for i, k in enumerate(kinds)]
    kw = conf(src, True, axes, columns=64)
    joint = styled_list(execute(repo, ts, kw))
    rows = [styled_list(execute(repo, [t], kw)) for t in ts]
    hx, sy = [], []
    for t, r in zip(ts, rows):
        a, b = cut(r, unlin(L(t.n).mul(3)))
        hx.append(a)
        _, c = cut(b, unlin(L(64).sub(L(t.n)).mul(3).add(2)))
        c, nl = cut(c, t.n)
        w.eq('row ends with a line feed', text(nl), '\n')
        sy.append(c)
    n = length(raw_of(ts))
    a, b = cut(joint, unlin(L(n).mul(3)))
    same_styled(w, 'hex pairs', a, join(*hx))
    _, c = cut(b, unlin(L(64).sub(L(n)).mul(3).add(2)))
    c, _ = cut(c, n)
    same_styled(w, 'symbols', c, join(*sy))


def jobs(repo, tier):
    js = []
    for a in ('PRI', 'SPC', 'TAB', 'NL', 'CTL', 'NUL', 'ESC', 'BIN', 'UTF2', 'CSI', 'SGR0', 'NF', 'FE', 'sgr1'):
        if a != 'ESC': js.append(Job(f'{a} then CTL', pair, (a, 'CTL'), 'm' if a in ('PRI', 'CTL', 'sgr1') else '', time=10))
        if a in ('PRI', 'UTF2', 'CTL', 'CSI', 'SGR0', 'BIN'): js.append(Job(f'{a} then SGR0', pair, (a, 'SGR0'), '', time=10))
        if a != 'CSI': js.append(Job(f'{a} then CSI', pair, (a, 'CSI'), '', time=10))
        js.append(Job(f'{a} then sgr1', pair, (a, 'sgr1'), '', time=10))
    for p in (('sgr1', 'PRI'), ('sgr1', 'sgr1', 'PRI'), ('UTF2', 'UTF2a'), ('ext5', 'sgr1'), ('ext5', 'BIN'), ('CSI', 'PRI'), ('UTF3b', 'BIN')):
        js.append(Job(' then '.join(p) + ', separators', pair, p, 'n', time=15))
    for p in (('sgr1', 'SPC'), ('UTF2', 'PRI'), ('CTL', 'CSI'), ('SGR0', 'BIN'), ('sgr1', 'sgr1'), ('NUL', 'TAB'), ('FP', 'FE'), ('ESC', 'UTF2')):
        js.append(Job('binary ' + ' then '.join(p), binary, p, 'd', time=20))
    for p in (('sgr1', 'sgr1'), ('sgr1', 'CSI'), ('SGR0', 'sgr1'), ('ext5', 'sgr1')):
        js.append(Job(' then '.join(p) + ', coloured markers', pair, p, 'c', time=12))
    for p in (('sgr1', 'sgr1'), ('sgr1', 'SGR0')):
        js.append(Job('binary ' + ' then '.join(p) + ', coloured markers', binary, p, 'c', time=12))
    if tier == 'thorough':
        for a in KINDS:
            for b in KINDS + ['sgr1', 'ext5', 'ext2']:
                js.append(Job(f'thorough {a} then {b}', pair, (a, b), 'mncf', time=60))
                js.append(Job(f'thorough binary {a} then {b}', binary, (a, b), 'dcf', time=60))
    return js
