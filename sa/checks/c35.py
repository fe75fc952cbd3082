"""C35: styles keep exactly what they were constructed with, inherit the rest and change only on request."""
import ast
from .presets import *
from ..num import Lin, L, unlin
from ..core import lt
from ..strs import CS, Run, atom_sv

RULE = ('a style carries the attributes and colours given to it, those left out come from the parent (else none), False counts as given; the parent, its colours and the presets stay as they were; names of colours are '
        'resolved without regard to case, integers give true colours, unknown names are refused; swapping swaps exactly the two colours; picking a foreground depends on the brightness of the background only')
EXPLAIN = 'Construction is derived for every kind of colour argument and all values of an attribute on both sides; integer colours have unknown channels, names unknown letter case.'
BOUNDS = 'one attribute varied at a time over own x parent x grandparent values (three patterns for the others); every preset name in every letter case; all 2^24 integer colours'
MIN_PROVED = 300
REN, COL = 'pytermor.render', 'pytermor.color'
ATTR = ('blink', 'bold', 'crosslined', 'dim', 'double_underlined', 'inversed', 'italic', 'overlined', 'underlined')
NAMED = ('RED', 'GREY_93', 'HI_CYAN', 'TRUE_BLACK', 'NAVY_BLUE')


class S:
    def __init__(self, repo):
        self.repo, self.lib = repo, Lib(repo)
        self.Style, self.Colors, self.noop = repo.get(REN, 'Style'), repo.get(COL, 'Colors'), repo.get(COL, 'NOOP_COLOR')
        f = self.Style.lookup('__init__')
        self.wh = (f.mod.file, f.node.lineno, f.qual)
        self.RGB = repo.get(COL, 'ColorRGB')

    def colour(self, src, kind, name):
        """(argument, expected colour object or value)"""
        if kind is None: return None, None
        if kind == 'noop': return self.noop, ('is', self.noop)
        if kind == 'preset':
            v = self.repo.attr(self.Colors, forced(src.pick(name, NAMED)))
            return v, ('is', v)
        if kind == 'name':
            n = forced(src.pick(name, NAMED))
            return n.lower(), ('is', self.repo.attr(self.Colors, n))
        if kind == 'int':
            v = channels(src, name)
            return v, ('rgb', v)
        v = channels(src, name)
        o = self.repo.call(self.RGB, v)
        return o, ('is', o)

    def is_colour(self, w, what, got, want):
        got = core.fv_norm(got) if isinstance(got, FV) else got
        if want is None: want = ('is', self.noop)
        if want[0] == 'is': w.true(what, got is want[1], lambda: f'{got!r} where {want[1]!r} was given', self.wh)
        else:
            w.true(what + ' is a true colour', isinstance(got, Inst) and got.cls is self.RGB, lambda: f'{got!r}', self.wh)
            w.eq(what, self.repo.attr(got, 'hex_value'), want[1], self.wh)

    def attr(self, st, n):
        v = self.repo.attr(st, n)
        return core.force(v) if isinstance(v, FV) else v


def channels(src, name):
    v = L(0)
    for c, k in zip('rgb', (65536, 256, 1)): v = v.add(L(src.int(name + c, 0, 255)).mul(k))
    return unlin(v)


PATTERN = {'unset': lambda i: None, 'set': lambda i: True, 'mixed': lambda i: (True, None, False)[i % 3]}


def attribute(repo, src, w, attr, generations):
    """One attribute over own and inherited values."""
    s = S(repo)
    dom = ('a', None, '') if attr == 'class_name' else (True, None, False)
    pats = [forced(src.pick(f'others {g}', list(PATTERN) if g < 2 else ['unset'])) for g in range(generations)]
    vals = [forced(src.pick(f'{attr} {g}', dom)) for g in range(generations)]
    st, kws, styles = None, [], []
    for g in reversed(range(generations)):
        kw = {n: PATTERN[pats[g]](i) for i, n in enumerate(ATTR) if n != attr}
        kw[attr] = vals[g]
        before = [snap(s.lib, x) for x in styles]
        st = repo.call(s.Style, **(dict(kw, inherit=st) if st is not None else kw))
        for b, x in zip(before, styles): w.true('the parent is left as it was', snap(s.lib, x) == b, lambda: f'{b!r} became {snap(s.lib, x)!r}', s.wh)
        kws.insert(0, kw)
        styles.append(st)
        for n in ATTR + ('class_name',):
            want = next((k[n] for k in kws if k.get(n) is not None), None)
            w.eq(f'{n}: own value, else inherited', s.attr(st, n), want, s.wh)
    s.is_colour(w, 'foreground unset', repo.attr(st, 'fg'), None)


KIND = (None, 'noop', 'preset', 'name', 'int', 'object')


def colours(repo, src, w, own, parent):
    s = S(repo)
    args = {}
    want = {}
    for who, kind in (('parent', parent), ('own', own)):
        for f in ('fg', 'bg'):
            k = kind if f == 'fg' else forced(src.pick(f'{who} {f} kind', (None, 'preset', 'int', 'noop')))
            args[who, f], want[who, f] = s.colour(src, k, f'{who} {f}')
    P_ = repo.call(s.Style, fg=args['parent', 'fg'], bg=args['parent', 'bg'], bold=True)
    for f in ('fg', 'bg'): s.is_colour(w, f'{f} as given', repo.attr(P_, f), want['parent', f])
    before, pres = snap(s.lib, P_), {n: snap(s.lib, repo.attr(s.Colors, n)) for n in NAMED}
    pf, pb = repo.attr(P_, 'fg'), repo.attr(P_, 'bg')
    st = repo.call(s.Style, inherit=P_, fg=args['own', 'fg'], bg=args['own', 'bg'])
    for f, pv in (('fg', pf), ('bg', pb)):
        s.is_colour(w, f'{f}: own value, else the parent\'s', repo.attr(st, f), want['own', f] if args['own', f] is not None else ('is', core.fv_norm(pv) if isinstance(pv, FV) else pv))
    w.eq('attribute inherited next to colours', s.attr(st, 'bold'), True, s.wh)
    for x in (st, P_):
        a, b, rest = repo.attr(x, 'fg'), repo.attr(x, 'bg'), [s.attr(x, n) for n in ATTR]
        r = repo.call(repo.attr(x, 'flip'))
        w.true('flip returns the style itself', r is x, where=s.wh)
        w.true('flip swaps the colours', repo.attr(x, 'fg') is b and repo.attr(x, 'bg') is a, lambda: f'{a!r} on {b!r} became {repo.attr(x, "fg")!r} on {repo.attr(x, "bg")!r}', s.wh)
        w.true('flip keeps the attributes', [s.attr(x, n) for n in ATTR] == rest, where=s.wh)
        if x is st: w.true('the parent is left as it was', snap(s.lib, P_) == before, lambda: f'{snap(s.lib, P_)!r}', s.wh)
    for n in NAMED: w.true('presets are left as they were', snap(s.lib, repo.attr(s.Colors, n)) == pres[n], lambda: n, s.wh)


def assign(repo, src, w, kind):
    """Setting the colours afterwards."""
    s = S(repo)
    st = repo.call(s.Style, fg='blue', bg=0x010203, bold=True)
    f = forced(src.pick('side', ('fg', 'bg')))
    o = 'bg' if f == 'fg' else 'fg'
    other = repo.attr(st, o)
    a, want = s.colour(src, kind, 'new')
    repo.I.setattr_(st, f, a)
    s.is_colour(w, f'{f} assigned', repo.attr(st, f), want)
    w.true('only this colour changes', repo.attr(st, o) is other, where=s.wh)
    w.eq('attributes stay', s.attr(st, 'bold'), True, s.wh)


def autopick(repo, src, w, kind):
    s = S(repo)
    f = s.Style.lookup('autopick_fg')
    wh = (f.mod.file, f.node.lineno, f.qual)
    ch = None
    if kind == 'none': bg = None
    elif kind == 'preset':
        bg = repo.attr(s.Colors, forced(src.pick('background', sorted(s.lib.presets(s.Colors)))))
        h = core.fv_norm(repo.attr(bg, 'hex_value'))
        ch = None if h is None else [h >> k & 255 for k in (16, 8, 0)]
    else:
        ch = [src.int(c, 0, 255) for c in 'rgb']
        bg = repo.call(s.RGB, unlin(L(ch[0]).mul(65536).add(L(ch[1]).mul(256)).add(L(ch[2]))))
    st = repo.call(s.Style, fg='red', bg=bg, italic=True)
    b0, f0 = repo.attr(st, 'bg'), repo.attr(st, 'fg')
    r = repo.call(repo.attr(st, 'autopick_fg'))
    w.true('returns the style itself', r is st, where=wh)
    w.true('the background stays', repo.attr(st, 'bg') is b0, where=wh)
    got = repo.attr(st, 'fg')
    dark, light = repo.attr(s.Colors, 'RGB_GREY_4'), repo.attr(s.Colors, 'RGB_GREY_80')
    if ch is None:
        w.true('nothing picked without a background', got is f0, lambda: f'{got!r}', wh)
        return
    w.true('one of the two greys', got is dark or got is light, lambda: f'{got!r}', wh)
    if got is dark:
        if all(isinstance(c, int) for c in ch): w.true('dark text on a bright background only', max(ch) >= 115, lambda: f'{ch} is dark', wh)
        else: w.true('dark text on a bright background only', any(not bool(lt(c, 115)) for c in ch), lambda: f'all channels below 115', wh)
    else:
        for c in ch: w.ge('bright text on a dark background only', unlin(L(114).sub(L(c))), 0, wh)


def names(repo, src, w, reg, part):
    """Every preset by its name in any letter case; unknown names refused."""
    s = S(repo)
    R_ = repo.get(COL if reg == 'Colors' else REN, reg)
    f = repo.get('pytermor.common', 'Registry').lookup('resolve')
    f = getattr(f, 'func', f)
    wh = s.wh
    ps = s.lib.presets(R_)
    keys = sorted(ps)
    n = forced(src.pick('name', keys[part::4]))
    case = forced(src.pick('case', ('lower', 'upper', 'title', 'swapped')))
    t = {'lower': n.lower(), 'upper': n, 'title': n.title(), 'swapped': ''.join(c.lower() if i % 2 else c for i, c in enumerate(n))}[case]
    w.true('resolved by name in any letter case', repo.call(repo.attr(R_, 'resolve'), t) is ps[n], lambda: t, wh)
    bad = n + 'Q'
    if bad not in ps: w.eq('an unknown name is refused', s.lib.raises(repo.attr(R_, 'resolve'), bad.lower()), 'KeyError', wh)
    if n[:-1] not in ps: w.eq('an unknown name is refused', s.lib.raises(repo.attr(R_, 'resolve'), n[:-1]), 'KeyError', wh)
    if reg == 'Colors':
        st = repo.call(s.Style, fg=t, bg=n)
        w.true('colour by name', repo.attr(st, 'fg') is ps[n] and repo.attr(st, 'bg') is ps[n], lambda: t, wh)
        if bad not in ps:
            w.eq('an unknown colour is refused', s.lib.raises(s.Style, fg=bad), 'KeyError', wh)
            w.eq('an unknown colour is refused', s.lib.raises(s.Style, bg=bad), 'KeyError', wh)


def shown(repo, src, w, part):
    """repr lists the colours and exactly the attributes that are set; colours show their value."""
    s = S(repo)
    kw = {}
    for i, n in enumerate(ATTR): kw[n] = forced(src.pick(n, (True, False) if i % 3 == part else (None,) if i % 3 == (part + 1) % 3 else (True,)))
    k = forced(src.pick('colour', (None, 'int', 'preset')))
    a, want = s.colour(src, k, 'fg')
    st = repo.call(s.Style, fg=a, class_name='zz', **kw)
    t = norm(repo.call(s.Style.lookup('__repr__'), st))
    tail = ''.join(f', {n}' for n in sorted(ATTR) if kw[n])
    fg = 'no fg' if k is None else concat('fg=', hex6(repo, want))
    w.eq('representation of the style', t, concat('Style[', fg, ', no bg', tail, ']'), s.wh)


def hex6(repo, want):
    v = want[1] if want[0] == 'rgb' else core.fv_norm(repo.attr(want[1], 'hex_value'))
    return f'{v:06x}' if isinstance(v, int) else strs.mk('s', [strs.NumP(L(v), 'x', 6)])


def value_text(repo, src, w):
    s = S(repo)
    v = channels(src, 'v')
    p = forced(src.pick('prefix', ('default', None, '', '#', 'fg=')))
    c = repo.call(s.RGB, v)
    t = repo.call(repo.attr(c, 'format_value')) if p == 'default' else repo.call(repo.attr(c, 'format_value'), p)
    w.eq('six hexadecimal digits after the prefix', t, concat('0x' if p == 'default' else p or '', hex6(repo, ('rgb', v))), s.wh)
    w.eq('label of no colour', norm(repo.call(repo.attr(s.noop, 'format_value'), '#', 'none')), 'none', s.wh)
    w.eq('label of no colour', norm(repo.call(repo.attr(s.noop, 'format_value'))), '~', s.wh)
    w.eq('value kept', repo.attr(c, 'hex_value'), v, s.wh)


def channel(repo, src, w):
    """Values and channels of true colours convert into each other."""
    s = S(repo)
    C_ = repo.get(COL, 'Color')
    c = [src.int(x, 0, 255) for x in 'rgb']
    v = unlin(L(c[0]).mul(65536).add(L(c[1]).mul(256)).add(L(c[2])))
    got = repo.call(repo.attr(C_, 'hex_value_to_rgb_channels'), v)
    w.true('three channels', isinstance(got, tuple) and len(got) == 3, where=s.wh)
    for a, b, n in zip(got, c, ('red', 'green', 'blue')): w.eq(f'{n} channel', a, b, s.wh)
    w.eq('value of the channels', repo.call(repo.attr(C_, 'rgb_channels_to_hex_value'), *c), v, s.wh)
    for f in ('hex_value_to_rgb_channels', 'hex_value_to_hsv_channels'):
        for x in ('ff0000', None, 1.5): w.eq('something other than an integer is refused', s.lib.raises(repo.attr(C_, f), x), 'TypeError', s.wh)


def same(repo, src, w):
    """Colours are equal exactly when of one kind and value."""
    s = S(repo)
    A, B = repo.get(COL, 'ColorIndexed16'), repo.get(COL, 'ColorIndexed256')
    x, y = channels(src, 'x'), channels(src, 'y')
    a, b = repo.call(s.RGB, x), repo.call(s.RGB, y)
    if repo.I.truth(repo.I.compare(ast.Eq(), a, b)): w.eq('equal true colours have one value', x, y, s.wh)
    else: w.true('true colours of one value are equal', not bool(core.eq_int(x, y)), where=s.wh)


def jobs(repo, tier):
    js = [Job(f'attribute {a} {g}', attribute, a, g, time=40) for a in ATTR + ('class_name',) for g in (1, 2)]
    js += [Job(f'attribute {a} 3', attribute, a, 3, time=40) for a in (ATTR + ('class_name',) if tier == 'thorough' else ('bold', 'underlined', 'class_name'))]
    js += [Job(f'colours {a} over {b}', colours, a, b, time=40) for a in KIND for b in KIND]
    js += [Job(f'assign {k}', assign, k) for k in KIND]
    js += [Job(f'autopick {k}', autopick, k, time=40) for k in ('none', 'preset', 'rgb')]
    js += [Job(f'names {r} {p}', names, r, p, time=40) for r in ('Colors', 'Styles') for p in range(4)]
    js += [Job(f'representation {p}', shown, p, time=40) for p in range(3)] + [Job('value text', value_text), Job('equality', same), Job('channels', channel)]
    return js
