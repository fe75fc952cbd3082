"""C28: style-aware padding counts visible characters only."""
from .presets import *

RULE = ('the value derived for each justification is the original string with max(0, width - visible length) fill characters on its side(s); an odd remainder of centring goes to the left')
EXPLAIN = ('Justification is derived for strings made of runs of symbolic content and length, style sequences with parameters of symbolic content and length, and symbolic (also negative) widths; '
           'the result must be equal to the padded string as a symbolic term.')
BOUNDS = 'up to 5 pieces per string; lengths, parameters and widths unbounded'
MIN_PROVED = 150
CH = [chr(c) for c in [*range(0, 0x250), 0x2028, 0x65e5, 0x1f600] if c != 0x1b]
FILL = (None, '.', ' ', '0', '日')


def build(src, shape):
    """r run without escape characters, s style sequence, e empty-parameter style sequence, x escape character that starts nothing"""
    parts, n = [], 0
    for i, c in enumerate(shape):
        if c == 'r':
            t = src.run(f't{i}', CH, kind='s', lo=0)
            n = unlin(L(n).add(L(length(t))))
        elif c == 's': t = concat('\x1b[', src.run(f'p{i}', list('0123456789;'), kind='s', lo=0), 'm')
        elif c == 'e': t = forced(src.pick(f'e{i}', ('\x1b[m', '\x1b[0m', '\x1b[1;31m', '\x1b[38;2;1;22;255m')))
        else:
            t = forced(src.pick(f'x{i}', ('\x1bm', '\x1b1m', '[1m')))
            n = unlin(L(n).add(len(t)))
        parts.append(t)
    return concat('', *parts), n


def pad(repo, src, w, func, shape):
    lib = Lib(repo)
    f = repo.get('pytermor.util.stdlib_ext', func)
    wh = (f.mod.file, f.node.lineno, f.qual)
    s, n = build(src, shape)
    width = src.int('width')
    fill = forced(src.pick('fill', FILL))
    got = norm(repo.call(f, s, width) if fill is None else repo.call(f, s, width, fill))
    miss = lsub(width, n)
    if le(miss, 0):
        w.eq('nothing added to a wide string', got, s, wh)
        return
    miss = unlin(miss)
    if func == 'center_sgr':
        right = core.new_int('half', 0)
        P().assume(lsub(miss, L(right).mul(2)))
        P().assume(lsub(L(right).mul(2).add(1), miss))
        left = unlin(lsub(miss, right))
    else: left, right = (0, miss) if func == 'ljust_sgr' else (miss, 0)
    c = fill or ' '
    w.eq('length of the result', length(got), unlin(L(length(s)).add(L(miss))), wh)
    w.eq('fill characters on the proper side(s)', got, concat(rep(c, left), s, rep(c, right)), wh)


def jobs(repo, tier):
    js = []
    for f in ('ljust_sgr', 'rjust_sgr', 'center_sgr'):
        for sh in ('', 'r', 's', 'rs', 'sr', 'srs', 'rsr', 'ere', 'es', 'xr', 'rxr', 'srsrs', 'eres'): js.append(Job(f'{f} {sh}', pad, f, sh, time=15))
    if tier == 'thorough':
        for f in ('ljust_sgr', 'rjust_sgr', 'center_sgr'):
            for sh in ('rsrsrsr', 'xsx', 'sssr', 'rxsxr'): js.append(Job(f'thorough {f} {sh}', pad, f, sh, time=100))
    return js
