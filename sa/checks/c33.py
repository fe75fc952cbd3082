"""C33: the closest colour is the nearest by sRGB distance."""
from .presets import *
from ..num import Lin, L, unlin
from ..core import lsub

RULE = ('for an unknown colour value, no registered colour may be nearer (sum of the squared channel differences) than the one derived as the closest; of several candidates asked for, each is at least as near as every '
        'colour left out and they are ordered by distance; the value of a registered colour gives this colour')
EXPLAIN = ('The search is derived for an integer made of unknown channels: the squares are expanded into symbolic monomials, which cancel when two distances are compared, and the order of the candidates is partitioned; '
           'the distances the property speaks about are built independently from the registered values.')
BOUNDS = 'all 2^24 values against the 16 and the 256 presets; several candidates and the cached lookup along lines of the colour cube (one unknown channel, the others fixed)'
MIN_PROVED = 200
MODU = 'pytermor.color'


def setup(repo, cls):
    lib = Lib(repo)
    c = repo.get(MODU, cls)
    ap = repo.attr(c, '_approximator')
    f = repo.get(MODU, 'Approximator').lookup('approximate')
    cols = [(core.fv_norm(repo.attr(v, 'hex_value')), v) for v in lib.presets(repo.get(MODU, 'Colors')).values() if isinstance(v, Inst) and v.cls is c]
    return c, ap, (f.mod.file, f.node.lineno, f.qual), [x for x in cols if x[0] is not None]


def nearness(v, u, chans):
    """distance of u less distance of v, times one (the squares of the unknown channels cancel)"""
    d = L(0)
    for s, x in zip((16, 8, 0), chans):
        a, b = u >> s & 255, v >> s & 255
        d = d.add(a * a - b * b).sub(L(x).mul(2 * (a - b)))
    return unlin(d)


def value(src, free, fixed):
    ch = [src.int('rgb'[i], 0, 255) if i in free else fixed[i] for i in range(3)]
    v = L(0)
    for x, k in zip(ch, (65536, 256, 1)): v = v.add(L(x).mul(k))
    return ch, unlin(v)


def nearest(repo, src, w, cls, free, fixed):
    c, ap, wh, cols = setup(repo, cls)
    fixed = forced(src.pick('fixed', fixed)) if fixed else None
    ch, v = value(src, free, fixed)
    got = repo.I.iter_list(repo.call(repo.attr(ap, 'approximate'), v))
    w.true('one candidate', len(got) == 1 and isinstance(got[0], Inst) and got[0].cls is c, lambda: f'{got!r}', wh)
    x = core.fv_norm(repo.attr(got[0], 'hex_value'))
    w.true('a registered colour', x in [k for k, _ in cols], lambda: f'{x!r}', wh)
    for k, _ in cols: w.ge('no registered colour is nearer', nearness(x, k, ch), 0, wh)


def several(repo, src, w, n, fixed):
    c, ap, wh, cols = setup(repo, 'ColorIndexed16')
    ch, v = value(src, (0,), forced(src.pick('fixed', fixed)))
    got = repo.I.iter_list(repo.call(repo.attr(ap, 'approximate'), v, n))
    w.true('as many as asked for', len(got) == min(n, len({k for k, _ in cols})), lambda: f'{len(got)} of {n}', wh)
    xs = [core.fv_norm(repo.attr(g, 'hex_value')) for g in got]
    w.true('different colours', len(set(xs)) == len(xs), lambda: f'{xs!r}', wh)
    for a, b in zip(xs, xs[1:]): w.ge('nearest first', nearness(a, b, ch), 0, wh)
    for k, _ in cols:
        if k not in xs: w.ge('no colour left out is nearer', nearness(xs[-1], k, ch), 0, wh)


def lookup(repo, src, w, cls, free, fixed):
    """Through the public lookup (any cache included)."""
    c, ap, wh, cols = setup(repo, cls)
    ch, v = value(src, free, forced(src.pick('fixed', fixed)))
    x = core.fv_norm(repo.attr(repo.call(repo.attr(c, 'find_closest'), v), 'hex_value'))
    if isinstance(x, FV): x = forced(x)
    if isinstance(x, Lin): raise Undecided('value of the result')
    for k, _ in cols: w.ge('no registered colour is nearer', nearness(x, k, ch), 0, wh)


def exact(repo, src, w, cls):
    """The value of a preset gives a colour of this value."""
    c, ap, wh, cols = setup(repo, cls)
    k = forced(src.pick('preset', sorted({k for k, _ in cols})))
    g = repo.call(repo.attr(c, 'find_closest'), k)
    w.true('a registered value is its own nearest', core.fv_norm(repo.attr(g, 'hex_value')) == k, lambda: f'{k:06x} gives {g!r}', wh)


LINES = [(a, b, c) for a in (0, 95, 128, 200) for b in (8, 102, 135, 255) for c in (0, 7, 130, 250)]


def jobs(repo, tier):
    js = [Job(f'16 colours, red {lo}', nearest, 'ColorIndexed16', (0, 1, 2), None, time=60) for lo in ('any',)]
    js += [Job(f'16 colours along {"rgb"[i]}', nearest, 'ColorIndexed16', (i,), LINES, time=30) for i in range(3)]
    js += [Job(f'256 colours along {"rgb"[i]} {n}', nearest, 'ColorIndexed256', (i,), LINES[n::8], time=40) for i in range(3) for n in (0,)]
    js += [Job('256 colours', nearest, 'ColorIndexed256', (0, 1, 2), None, time=60)]
    js += [Job('lookup 16 colours', lookup, 'ColorIndexed16', (0,), LINES[::5], time=30), Job('three candidates', several, 3, LINES[::9], time=30), Job('all candidates', several, 40, LINES[:1], time=20),
           Job('presets 16', exact, 'ColorIndexed16'), Job('presets 256', exact, 'ColorIndexed256', time=30)]
    return js
