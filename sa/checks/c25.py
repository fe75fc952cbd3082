"""C25: using presets never modifies them."""
from .presets import *

RULE = ('no operation on sequences, spans, colours or styles has an effect on the state of its operands: the abstract state of every preset of every registry is the same '
        'before and after each operation of the library and whole runs of the application')
EXPLAIN = ('Each operation is derived for presets chosen from the registries; the abstract heap states of all presets (fields, parameter lists, identity under their name) before and after are compared. '
           'A change is attributed to the function that was analysed last before it.')
BOUNDS = 'operands: all presets in single operations, representatives in binary operations'
MIN_PROVED = 300
TEXTS = ('a', 'a\nb\n', '')


class Guard:
    def __init__(self, repo, w):
        self.lib, self.w, self.repo = Lib(repo), w, repo
        self.regs = [('Seqs', self.lib.Seqs), ('Spans', self.lib.Spans), ('Colors', repo.get('pytermor.color', 'Colors')), ('Styles', repo.get('pytermor.render', 'Styles'))]
        self.single = {n: repo.get('pytermor', n) for n in ('NOOP_SEQ', 'NOOP_SPAN', 'NOOP_COLOR', 'NOOP_STYLE')}
        self.before = self.state()
        self.obj = {r: self.lib.presets(c) for r, c in self.regs}

    def state(self):
        out = {}
        for r, c in self.regs:
            for n, v in self.lib.presets(c).items(): out[f'{r}.{n}'] = (id(v), snap(self.lib, v))
        for n, v in self.single.items(): out[n] = (id(v), snap(self.lib, v))
        return out

    def check(self, what):
        after = self.state()
        if set(after) != set(self.before):
            self.w.true(f'presets unchanged by {what}', False, f'registries changed: {sorted(set(after) ^ set(self.before))[:4]}')
        ch = [n for n in after if after[n] != self.before[n]]
        self.w.true(f'presets unchanged by {what}', not ch, f'{ch[0]}: {self.before[ch[0]][1]} before, {after[ch[0]][1]} after' if ch else '')

    def run(self, what, f, *a, **k):
        try: r = self.repo.call(f, *a, **k)
        except AExc as e:
            if e.value.cls.name not in ('TypeError', 'ValueError', 'KeyError', 'RuntimeError', 'NotImplementedError', 'LogicError'): raise
            r = None
        self.check(what)
        return r


def meth(repo, o, n): return repo.attr(o, n)


def has(repo, o, n):
    from ..interp import MISSING
    return repo.I.getattr_opt(o, n) is not MISSING


def one_seq(repo, src, w):
    g = Guard(repo, w)
    s = g.obj['Seqs']
    o = s[forced(src.pick('sequence', sorted(s)))]
    for n in ('assemble', '__str__', '__repr__', '__len__', '__hash__'):
        if has(repo, o, n): g.run(n, meth(repo, o, n))
    for n in ('params', 'is_color_extended'):
        repo.attr(o, n)
        g.check(n)
    sp = g.run('Span', g.lib.Span, o)
    g.run('wrap', meth(repo, sp, 'wrap'), 'text')
    g.run('SequenceSGR', g.lib.SGR, o)
    g.run('explicit span', repo.attr(g.lib.Span, 'init_explicit'), o, o)
    g.run('explicit span', repo.attr(g.lib.Span, 'init_explicit'), o, None, True)
    for n in ('opening_str', 'closing_str', 'opening_seq', 'closing_seq'): repo.attr(sp, n)
    g.check('span parts')
    d = repo.I.call(repo.get('pytermor.render', 'TmuxRenderer._sgr_to_tmux_style'), [o], {})
    g.check('tmux')


PAIRS = ('RESET', 'BOLD', 'RED', 'BG_GRAY', 'OVERLINED_OFF', 'BLINK_DEFAULT')


def two_seqs(repo, src, w):
    g = Guard(repo, w)
    s = {**g.obj['Seqs'], 'NOOP': g.single['NOOP_SEQ']}
    a = s[forced(src.pick('left', PAIRS + ('NOOP',)))]
    b = s[forced(src.pick('right', sorted(s)))]
    for n in ('__add__', '__radd__', '__iadd__', '__eq__'):
        if has(repo, a, n):
            r = g.run(n, meth(repo, a, n), b)
            if n != '__eq__' and r is not None:
                g.run('repeated ' + n, meth(repo, r, n), a)
    g.run('SequenceSGR of two', g.lib.SGR, a, b, a)
    g.run('Span of two', g.lib.Span, a, b)
    x = g.run('Span of a sum', g.lib.Span, repo.call(meth(repo, a, '__add__'), b))
    g.run('explicit span', repo.attr(g.lib.Span, 'init_explicit'), a, b)
    g.run('explicit span', repo.attr(g.lib.Span, 'init_explicit'), a, b, True)


def spans(repo, src, w):
    g = Guard(repo, w)
    s = g.obj['Spans']
    o = s[forced(src.pick('span', sorted(s)))]
    t = forced(src.pick('text', (None,) + TEXTS))
    for n in ('wrap', '__call__'): g.run(n, meth(repo, o, n), t)
    for n in ('opening_str', 'closing_str', 'opening_seq', 'closing_seq'): repo.attr(o, n)
    g.check('span parts')
    g.run('repr', meth(repo, o, '__repr__'))
    g.run('comparison', meth(repo, o, '__eq__'), s['RED'])
    oq = repo.attr(o, 'opening_seq')
    for n in ('__add__', '__iadd__'):
        if has(repo, oq, n): g.run('combining the opening sequence', meth(repo, oq, n), g.obj['Seqs']['BOLD'])
    g.run('explicit span', repo.attr(g.lib.Span, 'init_explicit'), repo.attr(o, 'opening_seq'), repo.attr(o, 'closing_seq'), True)


def colours(repo, src, w, part):
    g = Guard(repo, w)
    s = g.obj['Colors']
    names = sorted(n for n in s if isinstance(s[n], Inst))
    o = s[forced(src.pick('colour', names[part::6]))]
    for bg in (False, True): g.run('to_sgr', meth(repo, o, 'to_sgr'), bg)
    g.run('format_value', meth(repo, o, 'format_value'))
    g.run('repr', meth(repo, o, '__repr__'))
    g.run('comparison', meth(repo, o, '__eq__'), s['RED'])
    v = repo.attr(o, 'hex_value')
    for f in ('hex_value_to_hsv_channels', 'hex_value_to_rgb_channels'):
        try: g.run(f, meth(repo, o, f), v)
        except Unsupported: pass
    for c in ('ColorIndexed16', 'ColorIndexed256'):
        r = g.run('closest colour', repo.attr(repo.get('pytermor.color', c), 'find_closest'), v)
        if isinstance(r, Inst): g.run('to_sgr', meth(repo, r, 'to_sgr'), True)
    st = g.run('Style', repo.get('pytermor.render', 'Style'), fg=o, bg=s['HI_BLUE'])
    if st is not None:
        g.run('flip', meth(repo, st, 'flip'))
        g.run('rendering', repo.attr(repo.get('pytermor.render', 'DebugRenderer'), 'render'), 'x', st)
        g.run('autopick', meth(repo, st, 'autopick_fg'))


RENDERERS = ('SgrRenderer', 'TmuxRenderer', 'NoOpRenderer', 'HtmlRenderer', 'DebugRenderer')


def rendering(repo, src, w, renderer):
    g = Guard(repo, w)
    rc = repo.get('pytermor.render', renderer)
    sgr = repo.get('pytermor.render', 'SgrRenderer')
    st = g.obj['Styles']
    n = forced(src.pick('style', sorted(st) + ['NOOP', 'own']))
    modes = forced(src.pick('mode', ((True, False, False), (True, True, False), (True, False, True), (None, False, False))))
    repo.call(repo.attr(sgr, 'set_up'), *modes)
    if n == 'own':
        c = g.obj['Colors']
        o = repo.call(repo.get('pytermor.render', 'Style'), None, c['TRUE_WHITE'], c['NAVY_BLUE'], True, True, True, True, True, True, True, True, True, 'cls')
    else: o = g.single['NOOP_STYLE'] if n == 'NOOP' else st[n]
    for t in TEXTS: g.run(f'{renderer}.render', repo.attr(rc, 'render'), t, o)
    repo.call(repo.attr(repo.get('pytermor.render', 'RendererManager'), 'set_up'), rc)
    tx = g.run('Text', repo.get('pytermor.render', 'Text'), 'abc', o)
    t2 = g.run('Text', repo.get('pytermor.render', 'Text'), 'd', st['ERROR'])
    g.run('concatenation', meth(repo, tx, '__add__'), t2)
    g.run('concatenation', meth(repo, tx, '__radd__'), 'x')
    g.run('render', meth(repo, tx, 'render'))
    g.run('Style.render', meth(repo, o, 'render'), 'y')
    g.run('Style.text', meth(repo, o, 'text'), 'y')


def inherit(repo, src, w):
    g = Guard(repo, w)
    S = repo.get('pytermor.render', 'Style')
    st = g.obj['Styles']
    o = st[forced(src.pick('parent', sorted(st)))]
    k = g.run('inheriting', S, o)
    k2 = g.run('inheriting', S, o, fg='hi_green', bold=True)
    for x in (k, k2):
        g.run('flip of an heir', meth(repo, x, 'flip'))
        repo.I.setattr_(x, 'fg', 'blue')
        repo.I.setattr_(x, 'bold', False)
        g.check('changing an heir')
        g.run('autopick of an heir', meth(repo, x, 'autopick_fg'))
    g.run('repr', meth(repo, o, '__repr__'))


def application(repo, src, w, kinds, binary, axes):
    g = Guard(repo, w)
    ts = [small(src, k, f't{i}', hi=1) for i, k in enumerate(kinds)]
    kw = conf(src, binary, axes, columns=8, no_offsets=False, no_line_numbers=False)
    for r in range(2):
        run_app(repo, [raw_of(ts)], kw)
        g.check('a run of the application')


def jobs(repo, tier):
    js = [Job('one sequence', one_seq, time=15), Job('two sequences', two_seqs, time=20), Job('spans', spans, time=15), Job('inheriting', inherit, time=10)]
    js += [Job(f'colours {i}', colours, i, time=25) for i in range(6)]
    js += [Job(f'rendering {r}', rendering, r, time=15) for r in RENDERERS]
    for ks in (('sgr1', 'PRI'), ('CTL', 'sgr2'), ('CSI', 'UTF2', 'BIN'), ('ext5', 'NL', 'SGR0')):
        for b in (False, True): js.append(Job(f'application {" ".join(ks)} {b}', application, ks, b, 'mc' if not b else 'd', time=12))
    for lv in (1, 4): js.append(Job(f'application debug {lv}', lambda repo, src, w, lv: debug(repo, src, w, lv), lv, time=12))
    return js


def debug(repo, src, w, lv):
    g = Guard(repo, w)
    ts = [small(src, k, f't{i}', hi=1) for i, k in enumerate(('sgr1', 'CTL', 'NL'))]
    b = forced(src.pick('binary', [False, True]))
    run_app(repo, [raw_of(ts)], conf(src, b, '', columns=8, debug=lv, no_offsets=False))
    g.check('a run in debug mode')
