"""C27: renderers keep the text and obey style suppression."""
from .presets import *
from ..strs import NumP, Lit

RULE = ('in the output derived for every renderer the text is complete and in order; every character lies under exactly the attributes and colours of its style and nothing stays open at the end; '
        'with styles suppressed the terminal renderers add nothing, with styles forced always, otherwise as the terminal test says; compatibility modes confine the colour codes')
EXPLAIN = ('Renderers are derived for texts of symbolic content and length (with every kind of line break), for all subsets of attributes and for colours of all three kinds (symbolic channels included); '
           'the output is decoded by an independent model of the style state of a terminal (or tmux, or of CSS declarations).')
BOUNDS = 'up to 3 lines per text and 4 pieces per composed text; colours of the fixed palettes by representatives'
MIN_PROVED = 3000
FLAGS = {'blink': 5, 'bold': 1, 'crosslined': 9, 'dim': 2, 'double_underlined': 21, 'inversed': 7, 'italic': 3, 'overlined': 53, 'underlined': 4}
BREAKS = ('\n', '\r\n', '\r', '\x0b', '\x0c', '\x1c', '\x1d', '\x1e', '\x85', '\u2028', '\u2029')
OFF = {}
for _c, _o in CLOSE.items():
    if _c in ATTRS.values(): OFF.setdefault(_o, set()).add(_c)
PLAINCH = [chr(c) for c in [*range(0x20, 0x250), 0x65e5, 0x1f600] if c not in (0x23, 0x7c, 0x85, 0x1dd)]
TERM = ('SgrRenderer', 'TmuxRenderer')
ALL = TERM + ('DebugRenderer', 'NoOpRenderer', 'HtmlRenderer')


# ---------------------------------------------------------------- models of the output
def pieces(out, start, end):
    """Split into ('t', text) and ('c', [body parts])."""
    res, body = [], None
    for q in strs.sv(norm(out)).parts:
        if isinstance(q, strs.Tab) and body is not None: q = Lit(core.force(q.fv))
        if not isinstance(q, Lit):
            if body is not None: body.append(q)
            else: res.append(('t', mk('s', [q])))
            continue
        s, i = q.v, 0
        while i < len(s):
            if body is None:
                j = s.find(start, i)
                if j < 0: j = len(s)
                if j > i: res.append(('t', s[i:j]))
                if j < len(s): body, j = [], j + len(start)
            else:
                j = s.find(end, i)
                if j < 0: j = len(s)
                if j > i: body.append(Lit(s[i:j]))
                if j < len(s):
                    res.append(('c', body))
                    body, j = None, j + len(end)
            i = j
    if body is not None: res.append(('t', start))
    return res


def params(body):
    ps, cur = [], []

    def flush():
        if len(cur) == 1 and isinstance(cur[0], NumP): ps.append(unlin(cur[0].lin))
        elif all(isinstance(x, str) for x in cur): ps.append(int(''.join(cur) or '0') if ''.join(cur).isdigit() or not cur else ''.join(cur))
        else: raise Undecided('parameter of an unknown shape')
        cur.clear()
    for q in body:
        if isinstance(q, NumP): cur.append(q)
        elif isinstance(q, Lit):
            for i, x in enumerate(q.v.split(';')):
                if i: flush()
                if x: cur.append(x)
        else: raise Undecided('style sequence of an unknown shape')
    flush()
    return ps


def sgr(out):
    """[(text, attributes, foreground, background)], style in force at the end, all codes"""
    at, col, res, codes = set(), {38: None, 48: None}, [], []
    for kind, x in pieces(out, '\x1b[', 'm'):
        if kind == 't':
            res.append((x, frozenset(at), col[38], col[48]))
            continue
        ps = params(x)
        codes.append(ps)
        i = 0
        while i < len(ps):
            p = ps[i]
            if not isinstance(p, int): raise Undecided('unknown parameter')
            if p == 0: at.clear(), col.update({38: None, 48: None})
            elif p in EXT and i + 1 < len(ps):
                n = 1 if ps[i + 1] == 5 else 3
                col[p] = tuple(ps[i + 1:i + 2 + n])
                i += 1 + n
            elif p in FG.values(): col[38] = (p,)
            elif p in BG.values(): col[48] = (p - 10,)
            elif p == 39: col[38] = None
            elif p == 49: col[48] = None
            elif p in OFF: at -= OFF[p]
            else: at.add(p)
            i += 1
    return res, (frozenset(at), col[38], col[48]), codes


def tmux(out):
    at, col, res, codes = set(), {'fg': None, 'bg': None}, [], []
    name = {v: k for k, v in TMUX.items()}
    off = {'bold': 1, 'dim': 2, 'italics': 3, 'underscore': 4, 'blink': 5, 'reverse': 7, 'hidden': 8, 'strikethrough': 9, 'double-underscore': 21, 'overline': 53}
    for kind, x in pieces(out, '#[', ']'):
        if kind == 't':
            res.append((x, frozenset(at), col['fg'], col['bg']))
            continue
        codes.append(x)
        t = ''.join(q.v if isinstance(q, Lit) else '\0' for q in x)
        nums = [q for q in x if not isinstance(q, Lit)]
        for d in t.replace(',', ' ').split():
            if d == 'default': at.clear(), col.update(fg=None, bg=None)
            elif d[:3] in ('fg=', 'bg='):
                v = d[3:]
                if v == 'default': col[d[:2]] = None
                elif v == '#\0': col[d[:2]] = ('hex', nums.pop(0))
                elif v[:1] == '#': col[d[:2]] = (2,) + tuple(bytes.fromhex(v[1:]))
                elif v == 'color\0': col[d[:2]] = (5, unlin(nums.pop(0).lin))
                elif v[:5] in ('color', 'colour'): col[d[:2]] = (5, int(v.lstrip('colur')))
                elif f'{d}' in name: col[d[:2]] = (CODES[name['fg=' + v]],)
                else: col[d[:2]] = (v,)
            elif d[:2] == 'no' and d[2:] in off: at.discard(off[d[2:]])
            elif d in off: at.add(off[d])
            else: at.add(d)
    return res, (frozenset(at), col['fg'], col['bg']), codes


def debug_codes(out):
    """The debug renderer shows the same sequences between bars."""
    o = []
    for kind, x in pieces(out, '|ǝ', '|'): o += [x] if kind == 't' else ['\x1b[', mk('s', x) if x else '', 'm']
    return concat(*o)


# ---------------------------------------------------------------- expectations
def same_colour(a, b):
    """a derived, b required"""
    if a is None or b is None: return a is b
    if a[0] == 'hex':
        q = a[1]
        return b[0] == 2 and q.base == 'x' and q.width == 0 - 6 or b[0] == 2 and core.eq_int(q.lin, unlin(L(b[1]).mul(65536).add(L(b[2]).mul(256)).add(L(b[3]))))
    return len(a) == len(b) and all(x == y if isinstance(x, (int, str)) and isinstance(y, (int, str)) else core.eq_int(x, y) for x, y in zip(a, b))


def is_break(x): return isinstance(x, str) and all(c in ''.join(BREAKS) for c in x)


def styled(w, what, model, out, runs):
    """runs: [(text, attributes, fg, bg)] required"""
    res, end, codes = model(out)
    w.eq(f'{what}: text complete and in order', concat('', *[x[0] for x in res]), concat('', *[r[0] for r in runs]))
    todo = [(norm(t), st) for t, *st in runs]
    for x, at, fg, bg in res:
        n = length(x)
        if isinstance(n, int) and n == 0 or not isinstance(n, int) and le(n, 0): continue
        while todo and le(length(todo[0][0]), 0): todo.pop(0)
        t, (ra, rf, rb) = todo[0]
        if not is_break(x):
            w.true(f'{what}: attributes of the style', at == frozenset(ra), f'attributes {sorted(map(str, at))} where {sorted(ra)} are required')
            w.true(f'{what}: foreground of the style', same_colour(fg, rf), f'foreground {fg} where {rf} is required')
            w.true(f'{what}: background of the style', same_colour(bg, rb), f'background {bg} where {rb} is required')
        if not le(n, length(t)): raise Undecided('pieces of the output do not align with the text')
        todo[0] = (slice_(t, n, None), (ra, rf, rb))
    w.true(f'{what}: nothing left open', end == (frozenset(), None, None), f'{end} after the text')
    return codes


def nearest(v, table):
    """Codes of the palette closest to the value."""
    d = {c: sum((((v >> s) & 255) - ((x >> s) & 255)) ** 2 for s in (16, 8, 0)) for c, x in table.items()}
    m = min(d.values())
    return {c for c, x in d.items() if x == m}


BASE = [0x000000, 0x800000, 0x008000, 0x808000, 0x000080, 0x800080, 0x008080, 0xc0c0c0, 0x808080, 0xff0000, 0x00ff00, 0xffff00, 0x0000ff, 0xff00ff, 0x00ffff, 0xffffff]
P16 = {(30 + i if i < 8 else 82 + i): v for i, v in enumerate(BASE)}
P256 = {c: xterm(c) for c in range(16, 256)}


def allowed(c, mode):
    """Colours the output may have for a colour of the style: set of tuples. c: None | ('16', code, value) | ('256', code, value) | ('rgb', value)"""
    if c is None: return {None}
    if c[0] == '16': return {(c[1],)}
    if mode == '16': return {(x,) for x in nearest(c[-1], P16)}
    if c[0] == '256': return {(5, c[1])}
    if mode == '256': return {(5, x) for x in nearest(c[1], P256)}
    return {(2, c[1] >> 16, c[1] >> 8 & 255, c[1] & 255)}


MODES = {'full': (False, False), '256': (True, False), '16': (False, True), 'both': (True, True)}


class W:
    """Obligations that are reported at the method analysed."""
    def __init__(self, w, cls, meth='render'):
        f = cls.lookup(meth)
        f = getattr(f, 'f', f)
        self.w, self.wh = w, (f.mod.file, f.node.lineno, f.qual) if hasattr(f, 'node') else None

    def true(self, label, ok, detail='', where=None): self.w.true(label, ok, detail, where or self.wh)
    def eq(self, label, a, b, where=None): self.w.eq(label, a, b, where or self.wh)


class R:
    def __init__(self, repo):
        self.repo, self.lib = repo, Lib(repo)
        self.C = self.lib.presets(repo.get('pytermor.color', 'Colors'))
        self.Style = repo.get('pytermor.render', 'Style')
        self.Text = repo.get('pytermor.render', 'Text')

    def cls(self, n): return self.repo.get('pytermor.render', n)

    def set_up(self, n, force, mode='full', how='keywords'):
        f = self.repo.attr(self.cls(n), 'set_up')
        a, b = MODES[mode]
        if how == 'keywords': self.repo.call(f, force_styles=force, compatibility_256_colors=a, compatibility_16_colors=b)
        else: self.repo.call(f, force, a, b)

    def render(self, n, t, st=None):
        f = self.repo.attr(self.cls(n), 'render')
        return norm(self.repo.call(f, t) if st is None else self.repo.call(f, t, st))

    def colour(self, key):
        """(argument for a style, description)"""
        if key is None: return None, None
        kind, x = key
        if kind == 'rgb': return x, ('rgb', x)
        if kind == 'preset':
            v = self.C[x]
            if v.cls.name == 'ColorIndexed16': return v, ('16', FG[{'GREY': 'GRAY'}.get(x, x)], norm(self.repo.attr(v, 'hex_value')))
            if v.cls.name == 'ColorIndexed256':
                return v, ('256', self.lib.ints(self.repo.call(self.repo.attr(v, 'to_sgr')))[2], norm(self.repo.attr(v, 'hex_value')))
            return v, ('rgb', norm(self.repo.attr(v, 'hex_value')))
        if kind == 'name':
            return x.lower(), self.colour(('preset', x))[1]
        if kind == 'noop': return self.repo.get('pytermor', 'NOOP_COLOR'), None


MODEL = {'SgrRenderer': sgr, 'TmuxRenderer': tmux, 'DebugRenderer': lambda o: sgr(debug_codes(o))}


def attributes(repo, src, w, renderer, half):
    """All subsets of attributes."""
    r = R(repo)
    w = W(w, r.cls(renderer))
    if renderer in TERM: r.set_up(renderer, True)
    fl = list(FLAGS)
    on = {}
    for i, n in enumerate(fl):
        on[n] = half if i == 0 else forced(src.pick(n, (True, None) if n == 'bold' else (True, False)))
    st = repo.call(r.Style, **on)
    out = r.render(renderer, 'x', st)
    styled(w, renderer, MODEL[renderer], out, [('x', {FLAGS[n] for n in fl if on[n]}, None, None)])


COLOURS_ = [None, ('noop', 0), ('preset', 'RED'), ('preset', 'GREY'), ('preset', 'HI_CYAN'), ('name', 'HI_WHITE'), ('preset', 'BLACK'), ('preset', 'NAVY_BLUE'), ('preset', 'GREY_0'), ('preset', 'ORANGE_3'), ('preset', 'GREY_93'),
            ('rgb', 0), ('rgb', 1), ('rgb', 0x123456), ('rgb', 0xfedcba), ('rgb', 0xffffff), ('rgb', 0x800000), ('rgb', 0xc0c0c1), ('rgb', 0x5f8700)]


def colours(repo, src, w, renderer, mode, part):
    """Colours of all kinds in all compatibility modes."""
    r = R(repo)
    w = W(w, r.cls(renderer))
    inherit = renderer == 'TmuxRenderer' and part == 1
    if renderer in TERM: r.set_up('SgrRenderer' if inherit else renderer, True, mode, 'positions' if part else 'keywords')
    f = forced(src.pick('foreground', COLOURS_))
    b = forced(src.pick('background', COLOURS_ if f in COLOURS_[:3] else COLOURS_[part::5]))
    (fa, fd), (ba, bd) = r.colour(f), r.colour(b)
    bold = part == 0
    st = repo.call(r.Style, fg=fa, bg=ba, bold=bold)
    out = r.render(renderer, 'x', st)
    res, end, codes = MODEL[renderer](out)
    m = 'full' if renderer == 'DebugRenderer' else '16' if mode == 'both' else mode
    w.eq(f'{renderer}: text complete and in order', concat('', *[x[0] for x in res]), 'x')
    for x, at, fg, bg in res:
        if x != 'x': continue
        w.true(f'{renderer}: attributes of the style', at == ({1} if bold else set()), f'{at}')
        for wh, got, d in (('foreground', fg, fd), ('background', bg, bd)):
            ok = got in allowed(d, m)
            w.true(f'{renderer}: {wh} of the style ({mode} colours)', ok, f'{wh} {got} where one of {sorted(map(str, allowed(d, m)))} is required')
    w.true(f'{renderer}: nothing left open', end == (frozenset(), None, None), f'{end} after the text')


def any_rgb(repo, src, w, renderer, bg):
    """Every true colour."""
    r = R(repo)
    w = W(w, r.cls(renderer))
    if renderer in TERM: r.set_up(renderer, True)
    ch = [src.int(n, 0, 255) for n in 'rgb']
    v = unlin(L(ch[0]).mul(65536).add(L(ch[1]).mul(256)).add(L(ch[2])))
    c = repo.call(repo.get('pytermor.color', 'ColorRGB'), v)
    st = repo.call(r.Style, **{'bg' if bg else 'fg': c})
    out = r.render(renderer, 'x', st)
    styled(w, renderer, MODEL[renderer], out, [('x', set(), None if bg else (2, *ch), (2, *ch) if bg else None)])


def body(src, shape):
    """Text: r run, b line break"""
    return concat('', *[src.run(f't{i}', PLAINCH, kind='s', lo=0, hi=None) if c == 'r' else forced(src.pick(f'break{i}', BREAKS if shape.count('b') == 1 else ('\n', '\r\n', '\u2028'))) for i, c in enumerate(shape)])


STYLES = {'none': dict(), 'bold': dict(bold=True), 'all': dict(bold=True, underlined=True, italic=True, fg='red', bg=0x102030)}


def want(style):
    return {'none': (set(), None, None), 'bold': ({1}, None, None), 'all': ({1, 3, 4}, (31,), (2, 16, 32, 48))}[style]


def texts(repo, src, w, renderer, shape, style):
    """Texts of any content."""
    r = R(repo)
    w = W(w, r.cls(renderer))
    if renderer in TERM: r.set_up(renderer, True)
    t = body(src, shape)
    st = repo.call(r.Style, **STYLES[style])
    out = r.render(renderer, t, st)
    if renderer == 'NoOpRenderer':
        w.eq('NoOpRenderer: text as it is', out, t)
        return
    if renderer == 'HtmlRenderer':
        html(w, out, t)
        return
    styled(w, renderer, MODEL[renderer], out, [(t, *want(style))])
    if style == 'none': w.eq(f'{renderer}: nothing added without a style', out, t)


def html(w, out, t, decl=None, cls=None):
    out = norm(out)
    first = strs.sv(out).parts[0]
    if not isinstance(first, Lit) or '>' not in first.v: raise Undecided('start of the markup')
    k = first.v.index('>') + 1
    w.true('HtmlRenderer: markup around the text', first.v.startswith('<span'), f'{first.v!r}')
    w.eq('HtmlRenderer: text complete and in order', slice_(out, k, None), concat(t, '</span>'))
    import re
    tag = first.v[:k]
    m = re.search(r' style="([^"]*)"', tag)
    got = {}
    for d in (m.group(1) if m else '').split(';'):
        if ':' in d:
            n, v = d.split(':', 1)
            got.setdefault(n.strip(), set()).update(v.split())
    c = re.search(r' class="([^"]*)"', tag)
    w.true('HtmlRenderer: class', (c.group(1) if c else None) == cls, f'{tag!r}')
    for n, v in (decl or {}).items():
        w.true(f'HtmlRenderer: {n}', got.get(n, set()) == v if n in ('color', 'background-color') else v <= got.get(n, set()), f'{tag!r}, required for {n}: {sorted(v)}')
    if decl is not None:
        for n in ('text-decoration', 'font-weight', 'font-style', 'color', 'background-color'):
            extra = got.get(n, set()) - decl.get(n, set())
            w.true(f'HtmlRenderer: nothing else in {n}', not extra, f'{tag!r}')
        for n, f in (('border', 'border'), ('filter', 'filter')):
            if n not in decl: w.true(f'HtmlRenderer: no {n}', not got.get(n), f'{tag!r}')


def markup(repo, src, w, part):
    """Every attribute and colour as a declaration."""
    r = R(repo)
    w = W(w, r.cls('HtmlRenderer'))
    on = {n: (forced(src.pick(n, (True, False))) if i % 2 == part or n in ('inversed', 'underlined', 'double_underlined') else False) for i, n in enumerate(FLAGS)}
    fg = forced(src.pick('fg', (None, ('rgb', 0x00a0ff), ('preset', 'RED'))))
    bg = forced(src.pick('bg', (None, ('rgb', 0x1), ('preset', 'GREY_93'))))
    cls = None if on['bold'] else 'abc'
    st = repo.call(r.Style, fg=r.colour(fg)[0], bg=r.colour(bg)[0], class_name=cls, **on)
    hx = lambda c: set() if c is None else {f'#{(r.colour(c)[1][-1]):06x}'}
    decl = {'color': hx(fg), 'background-color': hx(bg)}
    if on['inversed']: decl['color'], decl['background-color'] = decl['background-color'], decl['color']
    td = {v for n, v in (('crosslined', 'line-through'), ('overlined', 'overline'), ('underlined', 'underline')) if on[n]}
    if on['double_underlined']: td |= {'underline', 'double'}
    if td: decl['text-decoration'] = td
    if on['bold']: decl['font-weight'] = {'700'}
    if on['italic']: decl['font-style'] = {'italic'}
    if on['blink']: decl['border'] = {'1px', 'dotted'}
    if on['dim']: decl['filter'] = {'saturate(0.5)', 'brightness(0.75)'}
    html(w, r.render('HtmlRenderer', 'x', st), 'x', decl, cls)


def gate(repo, src, w, renderer, through):
    """Suppression of styles."""
    r = R(repo)
    w = W(w, r.cls(renderer))
    force = forced(src.pick('force', (None, True, False, 'default')))
    tty = forced(src.pick('terminal', (False, True)))
    mode = forced(src.pick('mode', ('full', '256', '16')))
    repo.lib.isatty = tty
    try:
        if force != 'default': r.set_up(through, force, mode)
        style = forced(src.pick('style', ('none', 'bold', 'all')))
        t = src.run('text', [chr(c) for c in range(0, 0x250) if c not in (10, 13, 11, 12, 28, 29, 30, 0x85)], kind='s', lo=1)
        st = repo.call(r.Style, **STYLES[style])
        out = r.render(renderer, t, st)
        on = force is True or force in (False, 'default') and tty
        if on and style != 'none':
            w.true(f'{renderer}: styles are emitted', not strs.equal(out, t), f'nothing added (force {force}, terminal {tty})')
        else: w.eq(f'{renderer}: no style code when suppressed', out, t)
        f = repo.call(repo.attr(r.cls(renderer), 'is_sgr_usage_allowed'))
        w.true(f'{renderer}: styles allowed', f is on, f'{f} (force {force}, terminal {tty})')
        again = r.render(renderer, t, st)
        w.eq(f'{renderer}: same result again', again, out)
    finally: repo.lib.isatty = False


def own_codes(repo, src, w, renderer):
    """Texts that contain style sequences themselves."""
    r = R(repo)
    w = W(w, r.cls(renderer))
    if renderer in TERM: r.set_up(renderer, forced(src.pick('force', (True, None))))
    a, b = (src.run(n, PLAINCH, kind='s', lo=0) for n in 'ab')
    s = forced(src.pick('sequence', ('\x1b[1;31m', '\x1b[0m', '\x1b[m', '\x1b[2J', '\x1b', '#[bold]')))
    t = concat(a, s, b)
    out = r.render(renderer, t, repo.get('pytermor', 'NOOP_STYLE'))
    if renderer == 'HtmlRenderer': html(w, out, t)
    else: w.eq(f'{renderer}: text kept', out, t)
    if renderer != 'HtmlRenderer': w.eq(f'{renderer}: text kept', r.render(renderer, t), t)


def objects(repo, src, w, renderer):
    """Arguments that are no strings."""
    r = R(repo)
    w = W(w, r.cls(renderer))
    if renderer in TERM: r.set_up(renderer, None)
    n = src.int('number', 0)
    x = forced(src.pick('argument', ('symbolic', 0, 7, False, None, 1.5)))
    v = n if x == 'symbolic' else x
    t = mk('s', [NumP(L(n), 'd', 0)]) if x == 'symbolic' else str(x)
    st = repo.call(r.Style)
    out = r.render(renderer, v, st)
    if renderer == 'HtmlRenderer': html(w, out, t)
    else: w.eq(f'{renderer}: number as text', out, t)
    if x is not None:
        repo.call(repo.attr(r.cls('RendererManager'), 'set_up'), r.cls('NoOpRenderer'))
        w.eq('text object of a value that is no string', norm(repo.call(repo.attr(repo.call(r.Text, v, st), 'render'))), t)
        w.eq('style applied to a value that is no string', norm(repo.call(repo.attr(st, 'render'), v)), t)


def manager(repo, src, w):
    """The default renderer is the one set up."""
    r = R(repo)
    n = forced(src.pick('renderer', (None,) + ALL))
    f = repo.attr(r.cls('RendererManager'), 'set_up')
    before = forced(src.pick('before', (None, 'NoOpRenderer', 'TmuxRenderer')))
    if before: repo.call(f, r.cls(before))
    repo.call(f, *([] if n is None else [r.cls(n)]))
    eff = n or 'SgrRenderer'
    w.true('default renderer', repo.call(repo.attr(r.cls('RendererManager'), 'get_default')) is r.cls(eff), f'{n}')
    r.set_up('SgrRenderer', True)
    t = src.run('text', PLAINCH, kind='s', lo=1)
    st = repo.call(r.Style, **STYLES['all'])
    exp = r.render(eff, t, st)
    x = repo.call(r.Text, t, st)
    for what, got in (('render', repo.call(repo.attr(x, 'render'))), ('as text', repo.I.call(repo.attr(x, '__str__'), [], {})), ('style', repo.call(repo.attr(st, 'render'), t)),
                      ('text of a style', repo.call(repo.attr(repo.call(repo.attr(st, 'text'), t), 'render')))):
        w.eq(f'default renderer is used ({what})', norm(got), exp)
    w.eq('text without styles', norm(repo.call(repo.attr(x, 'raw'))), t)


def composed(repo, src, w, ops):
    """Texts put together. a append text object, A append string, p prepend text object, P prepend string, + += r: operators"""
    import ast
    r = R(repo)
    w = W(w, r.Text, '_render_using')
    r.set_up('SgrRenderer', True)
    STS = ['bold', 'all', 'none']
    k = [0]

    def new(st):
        k[0] += 1
        return src.run(f't{k[0]}', PLAINCH, kind='s', lo=0)
    t = new('all')
    x = repo.call(r.Text, t, repo.call(r.Style, **STYLES['all']))
    runs = [(t, *want('all'))]
    for i, o in enumerate(ops):
        t = new(None)
        if o in 'ap+ir':
            s = STS[i % 3]
            y = repo.call(r.Text, t, repo.call(r.Style, **STYLES[s]))
            if i < 2: y = repo.call(repo.attr(y, '__add__'), 'z')
            run = [(t, *want(s))] + ([('z', set(), None, None)] if i < 2 else [])
        else: y, run = t, [(t, set(), None, None)]
        keep = norm(repo.call(repo.attr(y, 'raw'))) if not strs.is_str(y) else None
        if o in 'aA': repo.call(repo.attr(x, 'append'), y)
        elif o in 'pP': repo.call(repo.attr(x, 'prepend'), y)
        elif o in '+S': x = repo.I.binop(ast.Add(), x, y)
        elif o in 'iI': x = repo.call(repo.attr(x, '__iadd__'), y)
        elif o in 'rR': x = repo.call(repo.attr(x, '__radd__'), y)
        runs = run + runs if o in 'pPrR' else runs + run
        if keep is not None: w.eq('text added keeps its content', norm(repo.call(repo.attr(y, 'raw'))), keep)
    raw = concat('', *[z[0] for z in runs])
    w.eq('composed text: content', norm(repo.call(repo.attr(x, 'raw'))), raw)
    w.eq('composed text: length', repo.call(repo.attr(x, '__len__')), length(raw))
    repo.call(repo.attr(r.cls('RendererManager'), 'set_up'))
    out = norm(repo.call(repo.attr(x, 'render')))
    styled(w, 'composed text', sgr, out, runs)


def padded(repo, src, w):
    """Formatting of a text pads what is visible."""
    r = R(repo)
    r.set_up('SgrRenderer', True)
    spec = forced(src.pick('spec', ('', '>5', '<5', '^5', '*>4', '.2', '5s')))
    t = forced(src.pick('text', ('', 'a', 'abc', 'abcdef')))
    s = forced(src.pick('style', ('none', 'all')))
    x = repo.call(r.Text, t, repo.call(r.Style, **STYLES[s]))
    out = norm(repo.call(repo.attr(x, '__format__'), spec))
    styled(w, 'formatted text', sgr, out, [(format(t, spec), *want(s))])


def jobs(repo, tier):
    js = []
    for n in MODEL:
        for h in (True, False): js.append(Job(f'attributes {n} {h}', attributes, n, h, time=25))
        for bg in (False, True): js.append(Job(f'any rgb {n} {bg}', any_rgb, n, bg, time=15))
        for m in MODES if n in TERM else ('full',):
            for p in (0, 1): js.append(Job(f'colours {n} {m} {p}', colours, n, m, p, time=25))
    for n in ALL:
        for sh in ('', 'r', 'rb', 'rbr', 'br', 'rbbr', 'rbrbr'):
            for s in STYLES: js.append(Job(f'texts {n} {sh} {s}', texts, n, sh, s, time=15))
        if n != 'DebugRenderer': js.append(Job(f'own codes {n}', own_codes, n))
        js.append(Job(f'objects {n}', objects, n))
    for p in (0, 1): js.append(Job(f'markup {p}', markup, p, time=25))
    for n, th in (('SgrRenderer', 'SgrRenderer'), ('TmuxRenderer', 'TmuxRenderer'), ('TmuxRenderer', 'SgrRenderer')): js.append(Job(f'gate {n} {th}', gate, n, th, time=20))
    js += [Job('manager', manager, time=15), Job('padded', padded, time=15)]
    for o in ('a', 'A', 'p', 'P', '+', 'S', 'i', 'I', 'r', 'R', 'aA', 'Aa', 'pa', 'aP', '+r', 'RS', 'pP', 'apA', 'iRp'): js.append(Job(f'composed {o}', composed, o, time=12))
    if tier == 'thorough':
        js += [Job(f'thorough composed {a}{b}{c}', composed, a + b + c, time=60) for a in 'aPr' for b in 'ApS' for c in 'iRa']
    return js
