"""C23: the closing sequence undoes exactly what the opening one set."""
from .presets import *

RULE = ('the parameters derived for the closing sequence of an opening sequence are, as a set, the standard counterparts of the attributes and colours the opening sequence sets; '
        'the opening sequence is the same before and after')
EXPLAIN = ('The composition of closing sequences is derived for every single parameter 0-300, for pairs and triples of attributes, and for extended colours with symbolic operands '
           'in front of, behind and between attributes; the result is compared with an independent table of the standard.')
BOUNDS = 'sequences of up to 11 parameters'
MIN_PROVED = 1500


def close(lib, w, opening, label):
    sp = lib.span(*opening)
    op = lib.params(lib.opening(sp))
    w.true('opening sequence kept', len(op) == len(opening) and all(a is b or core.surely_eq(a, b) if not isinstance(a, FV) else True for a, b in zip(op, opening)), f'{op} for {opening}')
    cl = lib.ints(lib.closing(sp))
    exp = closing(list(opening))
    w.true(label, set(cl) == exp, f'opening {opening} is closed by {sorted(set(cl))}, required are {sorted(exp)}')


def single(repo, src, w, lo, hi):
    lib = Lib(repo)
    p = forced(src.pick('param', [x for x in range(lo, hi) if x not in EXT]))
    close(lib, w, [p], 'counterpart of a single parameter')
    seq = lib.seq(p)
    sp = lib.span(seq)
    w.true('same from a sequence', set(lib.ints(lib.closing(sp))) == closing([p]), f'{p}')
    w.true('the sequence passed in is unchanged', lib.ints(seq) == [p], f'{lib.params(seq)}')


SOME = (1, 4, 7, 21, 31, 107, 0, 5, 58)


def pairs(repo, src, w, first):
    lib = Lib(repo)
    a = forced(src.pick('first', SOME if first else range(0, 109)))
    b = forced(src.pick('second', range(0, 109) if first else SOME))
    if a in EXT or b in EXT: return
    close(lib, w, [a, b], 'counterparts of two parameters')


def triples(repo, src, w):
    lib = Lib(repo)
    d = (1, 3, 4, 21, 9, 36, 103, 5, 2, 0)
    ps = [forced(src.pick(f'p{i}', d)) for i in range(3)]
    close(lib, w, ps, 'counterparts of three parameters')


def extended(repo, src, w, shape):
    """shape: a attribute, e extended colour with symbolic operands"""
    lib = Lib(repo)
    ps, n = [], 0
    for i, c in enumerate(shape):
        if c == 'a': ps.append(forced(src.pick(f'attr{i}', (1, 2, 4, 33, 44, 97, 53))))
        else:
            ps.append(forced(src.pick(f'ground{i}', (38, 48))))
            m = 5 if c == '5' else 2 if c == '2' else forced(src.pick(f'mode{i}', (5, 2)))
            ps.append(m)
            for k in range(1 if m == 5 else 3): ps.append(src.pick(f'operand{i}.{k}', range(256)))
    close(lib, w, ps, 'counterparts with extended colours')


def helpers(repo, src, w, mode, bg):
    """Sequences made by the colour helpers."""
    lib = Lib(repo)
    ps = [src.pick(f'v{i}', range(256)) for i in range(1 if mode == 5 else 3)]
    s = repo.call(repo.attr(lib.SGR, 'init_color_indexed' if mode == 5 else 'init_color_rgb'), *ps, bg)
    a = forced(src.pick('attr', (1, 4, 7, 31, 45)))
    joint = repo.call(repo.attr(s, '__add__'), lib.seq(a))
    before = snap(lib, joint)
    sp = lib.span(joint)
    cl = lib.ints(lib.closing(sp))
    w.true('counterparts with colour helpers', set(cl) == {49 if bg else 39, CLOSE[a]}, f'{cl}')
    w.true('the sequence passed in is unchanged', snap(lib, joint) == before, f'{lib.params(joint)}')


def names(repo, src, w):
    lib = Lib(repo)
    n = forced(src.pick('name', sorted(ATTRS) + sorted(FG) + sorted(BG)))
    c = forced(src.pick('case', (str.lower, str.upper)))
    sp = lib.span(c(n))
    w.true('counterpart of a named parameter', set(lib.ints(lib.closing(sp))) == {CLOSE[CODES[n]]}, f'{n} is closed by {lib.params(lib.closing(sp))}')
    pre = lib.presets(lib.Spans).get(n)
    if pre is not None:
        w.true('counterpart of a preset', set(lib.ints(lib.closing(pre))) == {CLOSE[CODES[n]]}, f'Spans.{n} is closed by {lib.params(lib.closing(pre))}')


def empty(repo, src, w):
    lib = Lib(repo)
    w.true('nothing to close', lib.ints(lib.closing(lib.span())) == [], '')
    w.true('nothing to close', lib.ints(lib.closing(lib.span(repo.get('pytermor', 'NOOP_SEQ')))) == [], '')
    w.true('a reset sets nothing', lib.ints(lib.closing(lib.span(0))) == [], '')


def many(repo, src, w):
    lib = Lib(repo)
    k = forced(src.pick('rotation', range(11)))
    ps = [1, 2, 3, 4, 5, 7, 8, 9, 53, 31, 102]
    close(lib, w, ps[k:] + ps[:k], 'counterparts of all attributes')


def jobs(repo, tier):
    js = [Job(f'single {lo}', single, lo, lo + 75, time=15) for lo in (0, 75, 150, 225)]
    js += [Job('pairs', pairs, False, time=30), Job('pairs mirrored', pairs, True, time=30), Job('triples', triples, time=20), Job('names', names), Job('empty', empty), Job('many', many)]
    for sh in ('e', 'ea', 'ae', 'aea', 'ee', 'aeae', '552', '225', 'a5a5a'): js.append(Job('extended ' + sh, extended, sh, time=15))
    for m in (5, 2):
        for bg in (False, True): js.append(Job(f'helpers {m} {bg}', helpers, m, bg, time=15))
    if tier == 'thorough':
        for sh in ('eee', 'aaeaa', 'eaeae', 'aeeaee'): js.append(Job('thorough ' + sh, extended, sh, time=120, max_paths=100000))
    return js
