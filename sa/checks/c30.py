"""C30: string filters touch exactly what they name."""
import re
from .presets import *
from .common import TF

RULE = ('the text derived for each filter is the input with exactly the named pieces replaced (complete style sequences, bytes 0x80-0xff, whitespace characters with line feeds kept) and nothing else; '
        'a chain of filters is their composition in the order given')
EXPLAIN = ('Filters are derived for strings made of runs of symbolic content and length over the characters a filter names and over all others, and for all strings of up to six elements over the classes its '
           'pattern can distinguish; the required result is built from the structure of the input, or by an independent decoder for the short strings.')
BOUNDS = 'up to 5 pieces of unbounded length, or 6 single elements'
MIN_PROVED = 400
MODU = 'pytermor.util.string_filter'
REST = [chr(c) for c in [*range(0, 0x250), 0x2028, 0x65e5, 0x1f600, 0xdc80] if c != 0x1b]
WS = [c for c in map(chr, [9, 10, 11, 12, 13, 28, 29, 30, 31, 32, 0x85, 0xa0, 0x1680, *range(0x2000, 0x200b), 0x2028, 0x2029, 0x202f, 0x205f, 0x3000])]
NOWS = [chr(c) for c in [*range(0, 0x250), 0x180e, 0x200b, 0x2060, 0xfeff, 0x65e5, 0x1f600] if chr(c) not in WS]


def filt(repo, name, *a):
    c = repo.get(MODU, name)
    f = c.lookup('__init__')
    return repo.call(c, *a), (f.mod.file, f.node.lineno, name)


def apply(repo, w, f, wh, s, exp, what):
    w.eq(what, norm(repo.call(repo.attr(f, 'apply'), s)), exp, wh)
    w.eq(what + ' (called)', norm(repo.call(f, s)), exp, wh)
    w.eq(what + ' (in a chain)', norm(repo.call(repo.get(MODU, 'apply_filters'), s, f)), exp, wh)


REPL = ('', '<>', r'E\2\3\5', r'|\3|')


def sgr(repo, src, w, shape, name):
    """r anything but escape characters, s style sequence with parameters of any content, e style sequence, x nearly a style sequence"""
    Lib(repo)
    k = forced(src.pick('replacement', (None,) + REPL))
    f, wh = filt(repo, name, *([] if k is None else [k]))
    ins, exp = [], []
    for i, c in enumerate(shape):
        if c == 'r': x = y = src.run(f't{i}', REST, kind='s', lo=0)
        elif c == 'x':
            x = y = forced(src.pick(f'x{i}', ('\x1b', '\x1bm', '\x1b1m', '\x1b(0', '\x1b[\x1b', '\x1b[1;\n\n', '\x1b]0;m\x07') + (('\x1b[2J', '\x1b[?25h', '\x1b[38:5:1m') if name == 'ReplaceSGR' else ())))
            if x == '\x1b[\x1b' and i + 1 < len(shape) and shape[i + 1] == 'r': x = y = '\x1b[\x1b\n'
            if x == '\x1b' and i + 1 < len(shape) and shape[i + 1] == 'r': x = y = '\x1b\n'
        else:
            p = src.run(f'p{i}', list('0123456789;'), kind='s', lo=0) if c == 's' else forced(src.pick(f'e{i}', ('', '0', '1;4', '38;2;0;12;255')))
            t = 'm'
            if name == 'ReplaceCSI' and c == 'c': pass
            x = concat('\x1b[', p, t)
            y = {None: '', '': '', '<>': '<>', REPL[2]: concat('E[', p, t), REPL[3]: concat('|', p, '|')}[k]
        ins.append(x)
        exp.append(y)
    apply(repo, w, f, wh, concat('', *ins), concat('', *exp), 'style sequences replaced and nothing else')


def control(repo, src, w, shape):
    """Control sequences of every kind (r text, c control sequence)."""
    Lib(repo)
    f, wh = filt(repo, 'ReplaceCSI', '<>')
    ins, exp = [], []
    for i, c in enumerate(shape):
        if c == 'r': x = y = src.run(f't{i}', REST, kind='s', lo=0)
        else:
            p = src.run(f'p{i}', list('0123456789:;<=>?'), kind='s', lo=0)
            t = src.run(f'f{i}', [chr(z) for z in range(0x40, 0x7b) if not 0x5b <= z <= 0x60], n=1, kind='s')
            x, y = concat('\x1b[', p, t), '<>'
        ins.append(x)
        exp.append(y)
    apply(repo, w, f, wh, concat('', *ins), concat('', *exp), 'control sequences replaced and nothing else')


ALPHA = ('\x1b', '[', '1', ';', 'm', 'x')


def short(repo, src, w, first, n):
    """All short strings over the classes of elements."""
    Lib(repo)
    f, wh = filt(repo, 'ReplaceSGR', '<>')
    s = '\x1b' * (first != 'x') + first + ''.join(forced(src.pick(f'c{i}', ALPHA)) for i in range(n))
    out, i = '', 0
    while i < len(s):       # independent decoder
        if s[i:i + 2] == '\x1b[':
            j = i + 2
            while j < len(s) and s[j] in '0123456789;': j += 1
            if j < len(s) and s[j] == 'm':
                out, i = out + '<>', j + 1
                continue
        out, i = out + s[i], i + 1
    w.eq('style sequences replaced and nothing else', norm(repo.call(repo.attr(f, 'apply'), s)), out, wh)


def bytes_(repo, src, w, shape):
    """a ASCII, h other bytes"""
    Lib(repo)
    k = forced(src.pick('replacement', (None, b'.', b'', b'??')))
    f, wh = filt(repo, 'ReplaceNonAsciiBytes', *([] if k is None else [k]))
    ins, exp = [], []
    u = b'?' if k is None else k
    for i, c in enumerate(shape):
        x = src.run(f't{i}', range(0, 128) if c == 'a' else range(128, 256), kind='b', lo=0)
        ins.append(x)
        exp.append(x if c == 'a' else repb(u, length(x)))
    apply(repo, w, f, wh, concat(b'', *ins), concat(b'', *exp), 'bytes 0x80-0xff replaced and nothing else')


def repb(u, n):
    if not u: return b''
    return u * n if isinstance(n, int) else mk('b', [strs.Rep(u, n)]) if not le(n, 0) else b''


def every_byte(repo, src, w):
    Lib(repo)
    f, wh = filt(repo, 'ReplaceNonAsciiBytes')
    b = forced(src.pick('byte', range(256)))
    apply(repo, w, f, wh, b'a' + bytes([b]) * 2, b'a' + (bytes([b]) if b < 128 else b'?') * 2, 'every byte')


def white(repo, src, w, shape):
    """w whitespace but no line feed, n line feed, t anything else"""
    Lib(repo)
    k = forced(src.pick('replacement', (None, '_', '')))
    f, wh = filt(repo, 'VisualuzeWhitespace', *([] if k is None else [k]))
    u = '·' if k is None else k
    ins, exp = [], []
    for i, c in enumerate(shape):
        if c == 'n': x, y = '\n', u + '\n'
        elif c == 't': x = y = src.run(f't{i}', NOWS, kind='s', lo=0)
        else:
            x = src.run(f'w{i}', [z for z in WS if z != '\n'], kind='s', lo=0)
            y = rep(u, length(x)) if u and not le(length(x), 0) else ''
        ins.append(x)
        exp.append(y)
    apply(repo, w, f, wh, concat('', *ins), concat('', *exp), 'whitespace replaced and line feeds kept')


def every_char(repo, src, w, part):
    Lib(repo)
    f, wh = filt(repo, 'VisualuzeWhitespace')
    c = forced(src.pick('char', [chr(z) for z in range(0xc0)] if not part else [chr(z) for z in range(0xc0, 0x180)] + [z for z in WS if ord(z) > 0xff] + ['\u180e', '\u200b', '\u2060', '\ufeff', '\u3001']))
    y = '·\n' if c == '\n' else '·' if c in WS else c
    apply(repo, w, f, wh, c + 'a' + c, y + 'a' + y, 'every character')


def given(repo, src, i, name):
    """Filters may be given as classes or as instances."""
    c = repo.get(MODU, name)
    return c if forced(src.pick(f'class{i}', TF)) else repo.call(c)


def many(repo, src, w):
    """More pieces than any fixed bound in sight."""
    Lib(repo)
    n = forced(src.pick('pieces', (300, 5000)))
    for name, a, b in (('ReplaceSGR', 'x\x1b[1m', 'x'), ('ReplaceCSI', '\x1b[1m', ''), ('ReplaceNonAsciiBytes', b'a\xff', b'a?'), ('VisualuzeWhitespace', ' a', '·a'), ('VisualuzeWhitespace', '\n', '·\n')):
        f, wh = filt(repo, name)
        w.eq(f'{name}: every piece', norm(repo.call(repo.attr(f, 'apply'), a * n)), b * n, wh)


def chain(repo, src, w, n):
    """Order of a chain."""
    Lib(repo)
    SF = repo.get(MODU, 'StringFilter')
    af = repo.get(MODU, 'apply_filters')
    wh = (af.mod.file, af.node.lineno, af.qual)
    made = {'ab': ('a', 'b'), 'bc': ('b', 'c'), 'ca': ('c', 'a+'), 'dbl': ('[abc]', r'\g<0>\g<0>'), 'dot': ('·', 'b'), 'mz': ('m', 'z'), 'sgr': None, 'ws': None}
    t = forced(src.pick('text', ('abc', 'a b\x1b[1mc\n', '')))
    fs, exp = [], t
    for i in range(n):
        k = forced(src.pick(f'filter{i}', sorted(made)))
        if k == 'sgr': fs, exp = fs + [given(repo, src, i, 'ReplaceSGR')], re.sub('\x1b\\[[0-9;]*m', '', exp)
        elif k == 'ws': fs, exp = fs + [given(repo, src, i, 'VisualuzeWhitespace')], re.sub('(\n)|\\s', '·\\1', exp)
        else: fs, exp = fs + [repo.call(SF, *made[k])], re.sub(*made[k], exp)
    w.eq('filters applied in the order given', norm(repo.call(af, t, *fs)), exp, wh)


def custom(repo, src, w):
    """Compiled patterns and functions as replacements; patterns over bytes."""
    Lib(repo)
    SF = repo.get(MODU, 'StringFilter')
    wh = (SF.lookup('__init__').mod.file, SF.lookup('__init__').node.lineno, 'StringFilter')
    a, b = (src.run(n, [chr(c) for c in range(0x20, 0x7f) if chr(c) != 'q'], kind='s', lo=0) for n in 'ab')
    w.eq('own filter', norm(repo.call(repo.attr(repo.call(SF, 'q', '<q>'), 'apply'), concat(a, 'q', b))), concat(a, '<q>', b), wh)
    w.eq('filter without matches', norm(repo.call(repo.attr(repo.call(SF, 'q', '<q>'), 'apply'), concat(a, b))), concat(a, b), wh)
    x = src.run('x', [c for c in range(256) if c != 0x41], kind='b', lo=0)
    w.eq('own filter over bytes', norm(repo.call(repo.attr(repo.call(SF, b'A', b'BB'), 'apply'), concat(x, b'A', x))), concat(x, b'BB', x), wh)


def empty(repo, src, w):
    Lib(repo)
    af = repo.get(MODU, 'apply_filters')
    t = src.run('text', REST, kind='s', lo=0)
    w.eq('no filters', norm(repo.call(af, t)), t, (af.mod.file, af.node.lineno, af.qual))


def jobs(repo, tier):
    js = []
    for sh in ('', 'r', 's', 'rs', 'sr', 'srs', 'rsr', 'ss', 'ese', 'x', 'xs', 'xr', 'sx', 'rxr', 'xsx'):
        js.append(Job(f'sgr {sh}', sgr, sh, 'ReplaceSGR', time=15))
        js.append(Job(f'csi {sh}', sgr, sh, 'ReplaceCSI', time=15))
    for sh in ('c', 'rc', 'cr', 'rcr', 'cc'): js.append(Job(f'control {sh}', control, sh, time=12))
    for f in ('x', '[', '[1', '[1;'): js.append(Job(f'short {f!r}', short, f, 4, time=20))
    for sh in ('', 'a', 'h', 'ah', 'ha', 'aha', 'hah'): js.append(Job(f'bytes {sh}', bytes_, sh))
    for sh in ('', 't', 'w', 'n', 'tw', 'wt', 'twt', 'wn', 'nw', 'tnt', 'nn', 'twnt'): js.append(Job(f'white {sh}', white, sh))
    js += [Job('every byte', every_byte), Job('characters below 0xc0', every_char, 0), Job('characters above', every_char, 1), Job('chain 1', chain, 1), Job('chain 2', chain, 2), Job('chain 3', chain, 3, time=30), Job('many pieces', many, time=20), Job('custom', custom), Job('no filters', empty)]
    if tier == 'thorough':
        js += [Job(f'thorough short {f!r}', short, f, 6, time=200, max_paths=100000) for f in ('x', '[', '[1')]
        js += [Job(f'thorough sgr {sh}', sgr, sh, 'ReplaceSGR', time=60) for sh in ('rsrsr', 'xsxr', 'srsrs')]
    return js
