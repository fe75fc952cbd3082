"""C26: style sequences assemble to well-formed SGR codes."""
import ast
from .presets import *

RULE = ('the text derived for a sequence with parameters p1..pn is ESC [ p1;..;pn m (empty for none, ESC [ m for a single zero); every combination carries the parameters of its operands in order; '
        'the colour helpers accept exactly 0-255 per channel and keep the order of the channels')
EXPLAIN = ('Sequences are derived for symbolic parameters of unbounded magnitude (the assembled text is an abstract numeral per parameter), for names and for existing sequences as arguments; '
           'colour helpers for symbolic integers over the whole range with the partition into accepted and rejected values taken from the derived guards.')
BOUNDS = 'up to 8 parameters per sequence, up to 3 sequences per combination; parameter values unbounded'
MIN_PROVED = 400
ADD = ast.Add()


def digits(p): return str(p) if isinstance(p, int) else mk('s', [NumP(L(p), 'd', 0)])


def code(ps):
    """The text that a list of parameters must assemble to."""
    if not ps: return ''
    if len(ps) == 1 and (ps[0] == 0 if isinstance(ps[0], int) else core.eq_int(ps[0], 0)): return '\x1b[m'
    out = ['\x1b[']
    for i, p in enumerate(ps):
        if isinstance(p, FV): p = core.force(p)
        out += [';'] * (i > 0) + [digits(p)]
    return concat(*out, 'm')


def holds(lib, w, o, ps, what):
    got = lib.params(o)
    w.true(what + ': number of parameters', len(got) == len(ps), f'{got} for {ps}')
    for i, (a, b) in enumerate(zip(got, ps)): w.eq(f'{what}: parameter {i + 1 if i < 3 else "n"}', a, b)
    w.eq(what + ': assembled', lib.text(o), code(ps))
    w.eq(what + ': as text', norm(lib.repo.I.call(lib.repo.attr(o, '__str__'), [], {})), code(ps))
    w.eq(what + ': no visible length', lib.repo.call(lib.repo.attr(o, '__len__')), 0)


def ints(src, n, tag='p', lo=0): return [src.int(f'{tag}{i}', lo) for i in range(n)]


def plain(repo, src, w, n):
    lib = Lib(repo)
    ps = ints(src, n)
    holds(lib, w, lib.seq(*ps), ps, 'sequence')


def small_values(repo, src, w):
    lib = Lib(repo)
    p = forced(src.pick('param', range(0, 300)))
    holds(lib, w, lib.seq(p), [p], 'single parameter')


def combined(repo, src, w, na, nb, op):
    lib = Lib(repo)
    lo = 200 if op == 'span' else 0
    pa, pb = ints(src, na, 'a', lo), ints(src, nb, 'b', lo)
    a, b = lib.seq(*pa), lib.seq(*pb)
    I = repo.I
    if op == 'sum': r = I.binop(ADD, a, b)
    elif op == 'in place': r = repo.call(repo.attr(a, '__iadd__'), b)
    elif op == 'radd': r = repo.call(repo.attr(b, '__radd__'), a)
    elif op == 'constructor': r = lib.seq(a, b)
    elif op == 'three': r = I.binop(ADD, I.binop(ADD, a, b), a)
    elif op == 'span': r = lib.opening(lib.span(a, b))
    holds(lib, w, r, pa + pb + (pa if op == 'three' else []), f'combination ({op})')
    if r is not a: holds(lib, w, a, pa, 'left operand afterwards')
    if r is not b: holds(lib, w, b, pb, 'right operand afterwards')


NAMES = sorted(set(CODES) | {'COLOR_EXTENDED', 'BG_COLOR_EXTENDED'})


def names(repo, src, w):
    lib = Lib(repo)
    n = forced(src.pick('name', NAMES))
    c = forced(src.pick('case', (str.lower, str.upper, str.title)))
    p = src.int('p', 0)
    v = CODES.get(n, {'C': 38, 'B': 48}[n[0]] if n.endswith('EXTENDED') else None)
    holds(lib, w, lib.seq(c(n)), [v], 'named parameter')
    holds(lib, w, lib.seq(p, c(n), p), [p, v, p], 'named parameter between numbers')
    q = lib.seq(p, 7)
    holds(lib, w, lib.seq(q, c(n), q, 3), [p, 7, v, p, 7, 3], 'mixed arguments')


def unknown(repo, src, w):
    lib = Lib(repo)
    n = forced(src.pick('name', ('no_such_code', '', 'resolve', 'red ', '31')))
    e = lib.raises(lib.SGR, n)
    w.true('unknown name rejected', e in ('KeyError', 'ValueError'), f'{n!r}: {e}')
    e = lib.raises(lib.SGR, 1, None)
    w.true('argument of a wrong type rejected', e == 'TypeError', f'None: {e}')
    e = lib.raises(repo.attr(lib.seq(1), '__add__'), 'red')
    w.true('addition of something else rejected', e == 'TypeError', f'{e}')


def indexed(repo, src, w, bg):
    lib = Lib(repo)
    v = src.int('index')
    f = repo.attr(lib.SGR, 'init_color_indexed')
    k = forced(src.pick('how', ('keyword', 'position') if bg else ('keyword', 'position', 'default')))
    a, kw = ([v], {'bg': bg}) if k == 'keyword' else ([v, bg], {}) if k == 'position' else ([v], {})
    rgb(lib, w, f, a, kw, [v], [48 if bg else 38, 5, v], 'indexed colour')


def rgb(lib, w, f, a, kw, vals, exp, what):
    try: r, e = lib.repo.call(f, *a, **kw), None
    except AExc as x: r, e = None, x.value.cls.name
    ok = all(le(0, x) and le(x, 255) for x in vals)
    if e is None:
        w.true(what + ': only 0-255 accepted', ok, f'{vals} accepted')
        holds(lib, w, r, exp, what)
    else:
        w.true(what + ': 0-255 accepted', not ok, f'{vals} rejected with {e}')
        w.true(what + ': rejected with a value error', e == 'ValueError', e)


def channels(repo, src, w, bg, free):
    """free: the channels that range over all integers; the others over 0-255"""
    lib = Lib(repo)
    vs = [src.int(n) if n in free else src.int(n, 0, 255) for n in 'rgb']
    rgb(lib, w, repo.attr(lib.SGR, 'init_color_rgb'), vs, {'bg': bg}, vs, [48 if bg else 38, 2] + vs, 'true colour')


def split_rgb(repo, src, w, bg):
    """Colours given as one number."""
    lib = Lib(repo)
    r, g, b = (src.int(n, 0, 255) for n in 'rgb')
    v = unlin(L(r).mul(65536).add(L(g).mul(256)).add(L(b)))
    C = repo.get('pytermor.color', 'Color')
    w.eq('number of three channels', repo.call(repo.attr(C, 'rgb_channels_to_hex_value'), r, g, b), v)
    t = repo.I.iter_list(repo.call(repo.attr(C, 'hex_value_to_rgb_channels'), v))
    w.true('three channels', len(t) == 3, f'{t}')
    for n, x, y in zip('rgb', t, (r, g, b)): w.eq('channel ' + n, x, y)
    o = repo.call(repo.get('pytermor.color', 'ColorRGB'), v)
    holds(lib, w, repo.call(repo.attr(o, 'to_sgr'), bg=bg), [48 if bg else 38, 2, r, g, b], 'colour object')
    w.eq('value kept', repo.attr(o, 'hex_value'), v)


def corners(repo, src, w, bg):
    """Colours given as one number, over a grid of channel values."""
    lib = Lib(repo)
    d = (0, 1, 127, 128, 254, 255)
    r, g, b = (forced(src.pick(n, d)) for n in 'rgb')
    v = r << 16 | g << 8 | b
    o = repo.call(repo.get('pytermor.color', 'ColorRGB'), v)
    holds(lib, w, repo.call(repo.attr(o, 'to_sgr'), bg=bg), [48 if bg else 38, 2, r, g, b], 'colour object')
    t = repo.I.iter_list(repo.call(repo.attr(repo.get('pytermor.color', 'Color'), 'hex_value_to_rgb_channels'), v))
    w.true('channels of a number', list(t) == [r, g, b], f'{v:06x}: {t}')
    x = repo.call(repo.attr(repo.get('pytermor.color', 'Color'), 'rgb_channels_to_hex_value'), r, g, b)
    w.eq('number of three channels', x, v)


def objects(repo, src, w, bg):
    """Indexed colours as objects."""
    lib = Lib(repo)
    i = src.int('index', 0, 255)
    v = forced(src.pick('value', (0, 0x123456, 0xffffff)))
    o = repo.call(repo.get('pytermor.color', 'ColorIndexed256'), v, i)
    holds(lib, w, repo.call(repo.attr(o, 'to_sgr'), bg=bg), [48 if bg else 38, 5, i], 'indexed colour object')
    f, b = src.int('fg', 1), src.int('bgc', 1)
    o = repo.call(repo.get('pytermor.color', 'ColorIndexed16'), v, f, b)
    holds(lib, w, repo.call(repo.attr(o, 'to_sgr'), bg=bg), [b if bg else f], 'basic colour object')
    for c in ('ColorRGB',):
        n = repo.call(repo.get('pytermor.color', c))
        holds(lib, w, repo.call(repo.attr(n, 'to_sgr'), bg=bg), [], 'no colour')


def spans(repo, src, w, how, kind):
    lib = Lib(repo)
    ps, cs = ints(src, 2, 'o'), ints(src, 1, 'c')
    a, c = lib.seq(*ps), lib.seq(*cs)
    t = {'run': lambda: src.run('text', [chr(c) for c in range(0, 0x250)], kind='s', lo=0), 'none': lambda: None, 'number': lambda: src.int('number', 0)}[kind]()
    body = '' if t is None else digits(t) if kind == 'number' else t
    ie = repo.attr(lib.Span, 'init_explicit')
    if how == 'both': sp, op, cl = repo.call(ie, a, c), code(ps), code(cs)
    elif how == 'opening': sp, op, cl = repo.call(ie, a), code(ps), ''
    elif how == 'closing': sp, op, cl = repo.call(ie, closing_seq=c), '', code(cs)
    elif how == 'reset': sp, op, cl = repo.call(ie, a, c, True), code(ps), '\x1b[m'
    elif how == 'empty': sp, op, cl = lib.span(), '', ''
    elif how == 'noop': sp, op, cl = repo.get('pytermor', 'NOOP_SPAN'), '', ''
    for n in ('wrap', '__call__'):
        w.eq(f'wrapped text ({how})', norm(repo.call(repo.attr(sp, n), t) if t is not None else repo.call(repo.attr(sp, n))), concat(op, body, cl))
    w.eq('opening text', norm(repo.attr(sp, 'opening_str')), op)
    w.eq('closing text', norm(repo.attr(sp, 'closing_str')), cl)


def equality(repo, src, w, na, nb):
    """Equality of sequences is equality of their parameters; equal sequences have equal hashes."""
    lib = Lib(repo)
    d = (0, 1, 31)
    pa, pb = ([forced(src.pick(f'{t}{i}', d)) for i in range(n)] for t, n in (('a', na), ('b', nb)))
    a, b = lib.seq(*pa), lib.seq(*pb)
    r = repo.call(repo.attr(a, '__eq__'), b)
    w.true('equality', r is (pa == pb), f'{pa} == {pb} is {r}')
    if pa == pb:
        w.true('hash', repo.call(repo.attr(a, '__hash__')) == repo.call(repo.attr(b, '__hash__')), f'{pa}')
    w.true('equality with something else', repo.call(repo.attr(a, '__eq__'), '\x1b[m') is False, f'{pa}')


def jobs(repo, tier):
    js = [Job(f'plain {n}', plain, n) for n in range(7)] + [Job('small values', small_values), Job('names', names, time=25), Job('unknown', unknown)]
    for op in ('sum', 'in place', 'radd', 'constructor', 'three', 'span'):
        for na, nb in ((0, 0), (0, 1), (1, 0), (1, 1), (2, 1), (1, 3)):
            if op == 'span' and na + nb == 0: continue
            js.append(Job(f'combined {op} {na} {nb}', combined, na, nb, op, time=15))
    for bg in (False, True):
        js.append(Job(f'indexed {bg}', indexed, bg))
        for f in ('r', 'g', 'b', 'rgb'): js.append(Job(f'channels {f} {bg}', channels, bg, f))
        js += [Job(f'split {bg}', split_rgb, bg), Job(f'corners {bg}', corners, bg, time=15), Job(f'objects {bg}', objects, bg)]
    for how in ('both', 'opening', 'closing', 'reset', 'empty', 'noop'):
        for k in ('run', 'none', 'number'): js.append(Job(f'spans {how} {k}', spans, how, k))
    for na in range(3):
        for nb in range(3): js.append(Job(f'equality {na} {nb}', equality, na, nb))
    if tier == 'thorough':
        js += [Job(f'thorough plain {n}', plain, n, time=60) for n in (8, 12, 16)]
        js += [Job(f'thorough combined {op} {n}', combined, n, n, op, time=60) for op in ('sum', 'three', 'constructor') for n in (3, 4)]
    return js
