"""C24: the registries of presets agree with the standard and with each other."""
from .presets import *

RULE = ('every constant of the registries, propagated from its initialiser, denotes the standard parameter of its name; presets of one name agree; the 256-colour presets cover 16-255 exactly once '
        'with the xterm palette; tmux styles match the attribute they translate')
EXPLAIN = ('Class bodies of the registries are derived by constant propagation (the initialisers are calls into the analysed classes); each resulting constant is compared with an independent table.')
BOUNDS = 'none: all constants of all registries'
MIN_PROVED = 900


def where(repo, mod, cls, name):
    """Source position of the constant."""
    import ast
    m = repo.load(mod)
    for n in ast.walk(m.tree) if m.tree is not None else ():
        if isinstance(n, ast.ClassDef) and n.name == cls.name:
            for a in n.body:
                if isinstance(a, (ast.Assign, ast.AnnAssign)) and any(isinstance(x, ast.Name) and x.id == name for x in (a.targets if isinstance(a, ast.Assign) else [a.target])):
                    return (m.file, a.lineno, f'{cls.name}.{name}')
            return (m.file, n.lineno, cls.name)
    return (m.file, 0, cls.name)


ALIAS = {'BLINK_DEFAULT': 'BLINK_SLOW', 'GREY': 'GRAY', 'BG_GREY': 'BG_GRAY'}


def std(name): return CODES.get(ALIAS.get(name, name))


def codes(repo, src, w):
    lib = Lib(repo)
    pre = lib.presets(lib.IntCodes)
    n = 0
    for name, v in pre.items():
        wh = where(repo, 'pytermor.ansi', lib.IntCodes, name)
        if isinstance(v, bool) or not isinstance(v, int): continue
        if name in ('COLOR_EXTENDED', 'BG_COLOR_EXTENDED', 'EXTENDED_MODE_256', 'EXTENDED_MODE_RGB'): s = {'C': 38, 'B': 48, 'E': 5}[name[0]] if name != 'EXTENDED_MODE_RGB' else 2
        else: s = std(name)
        if s is None: continue
        n += 1
        w.true('code of a named parameter', v == s, f'IntCodes.{name} is {v}, the standard parameter is {s}', wh)
        r = repo.call(repo.attr(lib.IntCodes, 'resolve'), name.lower())
        w.true('lookup by name', r == s, f'{name.lower()!r} resolves to {r}', wh)
    w.true('all standard parameters named', set(CODES) - {'BLINK_DEFAULT'} <= set(pre), f'not found: {sorted(set(CODES) - set(pre))}', where(repo, 'pytermor.ansi', lib.IntCodes, ''))
    exp = {'LIST_COLORS': range(30, 39), 'LIST_BG_COLORS': range(40, 49), 'LIST_HI_COLORS': range(90, 98), 'LIST_BG_HI_COLORS': range(100, 108),
           'LIST_ALL_COLORS': [*range(30, 39), *range(40, 49), *range(90, 98), *range(100, 108)]}
    for name, e in exp.items():
        if name in pre:
            got = sorted(repo.I.iter_list(pre[name]))
            w.true('list of colour codes', got == sorted(e), f'IntCodes.{name} is {got}', where(repo, 'pytermor.ansi', lib.IntCodes, name))
    if n < 40: raise Undecided('registry of codes')


def sequences(repo, src, w):
    lib = Lib(repo)
    n = 0
    for reg, cls in (('Seqs', lib.Seqs), ('Spans', lib.Spans)):
        pre = lib.presets(cls)
        for name, v in pre.items():
            s = std(name)
            if s is None or not isinstance(v, Inst): continue
            n += 1
            wh = where(repo, 'pytermor.ansi', cls, name)
            o = v if reg == 'Seqs' else lib.opening(v)
            ps = lib.ints(o)
            w.true('preset denotes the standard parameter', ps == [s], f'{reg}.{name} is {ps}, the standard parameter is {s}', wh)
            w.true('preset assembles to the standard sequence', lib.text(o) == (f'\x1b[{s}m' if s else '\x1b[m'), f'{reg}.{name} is {lib.text(o)!r}', wh)
            r = repo.call(repo.attr(cls, 'resolve'), name.lower())
            w.true('lookup by name', r is v, f'{name.lower()!r} resolves to {r!r}', wh)
            if reg == 'Spans': w.true('closing sequence of the preset', set(lib.ints(lib.closing(v))) == ({CLOSE[s]} if s in CLOSE else set()), f'{name} is closed by {lib.params(lib.closing(v))}', wh)
        miss = sorted((set(CODES) if reg == 'Seqs' else set(ATTRS) | set(FG) | set(BG)) - set(pre))
        w.true('all standard parameters have a preset', not miss, f'{reg}: not found: {miss}', where(repo, 'pytermor.ansi', cls, ''))
    if n < 80: raise Undecided('registries of sequences')
    w.true('empty preset', lib.ints(repo.get('pytermor', 'NOOP_SEQ')) == [] and lib.text(repo.get('pytermor', 'NOOP_SEQ')) == '', 'NOOP_SEQ')
    w.true('empty preset', lib.text(lib.opening(repo.get('pytermor', 'NOOP_SPAN'))) == '' == lib.text(lib.closing(repo.get('pytermor', 'NOOP_SPAN'))), 'NOOP_SPAN')


def colours(repo, src, w):
    lib = Lib(repo)
    cls = repo.get('pytermor.color', 'Colors')
    c16, c256 = repo.get('pytermor.color', 'ColorIndexed16'), repo.get('pytermor.color', 'ColorIndexed256')
    pre = lib.presets(cls)
    seen, n16 = {}, 0
    for name, v in pre.items():
        if not isinstance(v, Inst): continue
        wh = where(repo, 'pytermor.color', cls, name)
        fg = lib.ints(repo.call(repo.attr(v, 'to_sgr')))
        f2 = lib.ints(repo.call(repo.attr(v, 'to_sgr'), False))
        bg = lib.ints(repo.call(repo.attr(v, 'to_sgr'), True))
        w.true('foreground by default', fg == f2, f'Colors.{name}', wh)
        rgb = norm(repo.attr(v, 'hex_value'))
        if v.cls is c16:
            s = std(name)
            if s is None: continue
            n16 += 1
            w.true('16-colour preset', fg == [s] and bg == [s + 10], f'Colors.{name}: foreground {fg}, background {bg}, standard parameters are {s} and {s + 10}', wh)
        elif v.cls is c256:
            ok = len(fg) == 3 and fg[:2] == [38, 5] and bg == [48, 5, fg[2]]
            w.true('indexed colour sequence', ok, f'Colors.{name}: {fg}, {bg}', wh)
            code = fg[2]
            w.true('index is in the palette and used once', 16 <= code <= 255 and code not in seen, f'Colors.{name}: index {code}' + (f' is used by {seen[code]} too' if code in seen else ''), wh)
            seen[code] = name
            w.true('value of the xterm palette', rgb == xterm(code), f'Colors.{name}: index {code} has value {rgb:06x}, the palette says {xterm(code):06x}', wh)
        else:
            ch = [rgb >> 16 & 255, rgb >> 8 & 255, rgb & 255] if isinstance(rgb, int) else None
            w.true('true colour sequence', fg == [38, 2] + ch and bg == [48, 2] + ch, f'Colors.{name}: {fg}, {bg}, value {rgb}', wh)
        r = repo.call(repo.attr(cls, 'resolve'), name.lower())
        w.true('lookup by name', r is v, f'{name.lower()!r} resolves to {r!r}', wh)
    w.true('all indexes covered', set(seen) == set(range(16, 256)), f'missing: {sorted(set(range(16, 256)) - set(seen))[:8]}', where(repo, 'pytermor.color', cls, ''))
    if n16 < 16: w.true('sixteen standard colours', False, f'{n16} presets of standard colours', where(repo, 'pytermor.color', cls, ''))


def tmux(repo, src, w):
    lib = Lib(repo)
    cls = repo.get('pytermor.render', 'TmuxRenderer')
    rd = repo.attr(cls, '_sgr_to_tmux_style')
    wh = where(repo, 'pytermor.render', cls, 'SGR_TO_TMUX_MAP')
    for name, code in sorted(CODES.items()):
        t = norm(repo.call(rd, lib.seq(code)))
        w.true('tmux style of an attribute', isinstance(t, str) and t.startswith('#[') and t.endswith(']') and set(t[2:-1].replace(',', ' ').split()) == set(TMUX[name].split()),
               f'{name} ({code}) becomes {t!r}, required is #[{TMUX[name]}]', wh)
    w.true('tmux style of the empty sequence', norm(repo.call(rd, lib.seq())) == '', '', wh)


def tmux_colours(repo, src, w, bg, mode):
    lib = Lib(repo)
    rd = repo.attr(repo.get('pytermor.render', 'TmuxRenderer'), '_sgr_to_tmux_style')
    k = 'bg' if bg else 'fg'
    if mode == 5:
        n = forced(src.pick('index', range(256)))
        t = norm(repo.call(rd, lib.seq(48 if bg else 38, 5, n)))
        w.true('tmux style of an indexed colour', t in (f'#[{k}=color{n}]', f'#[{k}=colour{n}]'), f'{n} becomes {t!r}')
        return
    d = (0, 1, 15, 16, 128, 255)
    c = [forced(src.pick(x, d)) for x in 'rgb']
    t = norm(repo.call(rd, lib.seq(48 if bg else 38, 2, *c)))
    w.true('tmux style of a true colour', isinstance(t, str) and t.lower() == '#[%s=#%02x%02x%02x]' % (k, *c), f'{c} becomes {t!r}')


def jobs(repo, tier):
    js = [Job('codes', codes), Job('sequences and spans', sequences), Job('colours', colours, time=60), Job('tmux attributes', tmux)]
    for bg in (False, True): js += [Job(f'tmux colours {m} {bg}', tmux_colours, bg, m, time=20) for m in (5, 2)]
    return js
