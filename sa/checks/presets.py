"""Independent tables of the standard (ECMA-48 8.3.117, bright colour extension, xterm palette, tmux styles) and access to the library's style objects."""
from .common import *
from ..interp import AExc, Inst, Cls, AList, ADict, Prop

COLOURS = ('BLACK', 'RED', 'GREEN', 'YELLOW', 'BLUE', 'MAGENTA', 'CYAN', 'WHITE')
ATTRS = {'BOLD': 1, 'DIM': 2, 'ITALIC': 3, 'UNDERLINED': 4, 'BLINK_SLOW': 5, 'BLINK_FAST': 6, 'INVERSED': 7, 'HIDDEN': 8, 'CROSSLINED': 9, 'DOUBLE_UNDERLINED': 21, 'OVERLINED': 53}
OFFS = {'BOLD_DIM_OFF': 22, 'ITALIC_OFF': 23, 'UNDERLINED_OFF': 24, 'BLINK_OFF': 25, 'INVERSED_OFF': 27, 'HIDDEN_OFF': 28, 'CROSSLINED_OFF': 29, 'COLOR_OFF': 39, 'BG_COLOR_OFF': 49, 'OVERLINED_OFF': 55}
FG = {}
for _i, _n in enumerate(COLOURS):
    FG[_n] = 30 + _i
    FG['HI_' + _n if _i else 'GRAY'] = 90 + _i
BG = {'BG_' + n: c + 10 for n, c in FG.items()}
CODES = {'RESET': 0, **ATTRS, **OFFS, **FG, **BG}
CLOSE = {1: 22, 2: 22, 3: 23, 4: 24, 21: 24, 5: 25, 6: 25, 7: 27, 8: 28, 9: 29, 53: 55, **{c: 39 for c in FG.values()}, **{c: 49 for c in BG.values()}}
EXT = {38: 39, 48: 49}
TMUX = {'RESET': 'default', 'BOLD': 'bold', 'DIM': 'dim', 'ITALIC': 'italics', 'UNDERLINED': 'underscore', 'BLINK_SLOW': 'blink', 'BLINK_FAST': 'blink', 'INVERSED': 'reverse', 'HIDDEN': 'hidden',
        'CROSSLINED': 'strikethrough', 'DOUBLE_UNDERLINED': 'double-underscore', 'OVERLINED': 'overline', 'BOLD_DIM_OFF': 'nobold nodim', 'ITALIC_OFF': 'noitalics',
        'UNDERLINED_OFF': 'nounderscore nodouble-underscore', 'BLINK_OFF': 'noblink', 'INVERSED_OFF': 'noreverse', 'HIDDEN_OFF': 'nohidden', 'CROSSLINED_OFF': 'nostrikethrough',
        'OVERLINED_OFF': 'nooverline', 'COLOR_OFF': 'fg=default', 'BG_COLOR_OFF': 'bg=default'}
for _i, _n in enumerate(COLOURS):
    for _bg, _k in (('', 'fg'), ('BG_', 'bg')):
        TMUX[_bg + _n] = f'{_k}={_n.lower()}'
        TMUX[_bg + ('HI_' + _n if _i else 'GRAY')] = f'{_k}=bright{_n.lower()}'


def xterm(code):
    """RGB value of an entry of the 256-colour palette (16-255)."""
    if code >= 232:
        v = 8 + 10 * (code - 232)
        return v << 16 | v << 8 | v
    lv = (0, 0x5f, 0x87, 0xaf, 0xd7, 0xff)
    c = code - 16
    return lv[c // 36] << 16 | lv[c // 6 % 6] << 8 | lv[c % 6]


def closing(params):
    """Codes that must be in the closing sequence for an opening sequence (a set)."""
    out, i, n = set(), 0, len(params)
    while i < n:
        p = core.force(params[i]) if isinstance(params[i], FV) else params[i]
        if p in EXT and i + 1 < n and params[i + 1] in (5, 2):
            out.add(EXT[p])
            i += 3 if params[i + 1] == 5 else 5
            continue
        if p in CLOSE: out.add(CLOSE[p])
        i += 1
    return out


class Lib:
    """The analysed style library."""

    def __init__(self, repo):
        self.repo = repo
        repo.lib.handling.clear()
        P().memo.setdefault('termwidth', 80)
        self.SGR = repo.get('pytermor.ansi', 'SequenceSGR')
        self.Span = repo.get('pytermor.ansi', 'Span')
        self.Seqs = repo.get('pytermor.ansi', 'Seqs')
        self.Spans = repo.get('pytermor.ansi', 'Spans')
        self.IntCodes = repo.get('pytermor.ansi', 'IntCodes')

    def seq(self, *ps): return self.repo.call(self.SGR, *ps)
    def span(self, *ps): return self.repo.call(self.Span, *ps)

    def params(self, o):
        """Parameters of a sequence (list of integers)."""
        return [core.fv_norm(x) for x in self.repo.I.iter_list(self.repo.attr(o, 'params'))]

    def ints(self, o): return [core.force(x) if isinstance(x, FV) else x for x in self.params(o)]
    def text(self, o): return norm(self.repo.call(self.repo.attr(o, 'assemble')))
    def opening(self, sp): return self.repo.attr(sp, 'opening_seq')
    def closing(self, sp): return self.repo.attr(sp, 'closing_seq')

    def presets(self, cls):
        """Public constants of a registry class: name -> value."""
        out = {}
        for c in reversed(cls.mro):
            if c.name in ('object', 'Registry', 'Generic'): continue
            for n, v in c.d.items():
                if isinstance(n, str) and n.isupper() and not n.startswith('_'): out[n] = v
        return out

    def raises(self, f, *a, **k):
        """Name of the exception class raised by the call, or None."""
        try: self.repo.call(f, *a, **k)
        except AExc as e: return e.value.cls.name
        return None


def snap(lib, v, depth=0):
    """Structural value of a style object (for comparisons before / after)."""
    v = core.fv_norm(v) if isinstance(v, FV) else v
    if isinstance(v, Inst):
        if depth > 4: return '...'
        return (v.cls.name, tuple(sorted((str(k), snap(lib, x, depth + 1)) for k, x in v.d.items())))
    if isinstance(v, (AList, list, tuple)):
        return ('seq',) + tuple(snap(lib, x, depth + 1) for x in (lib.repo.I.iter_list(v) if isinstance(v, AList) else v))
    if isinstance(v, ADict): return ('map',) + tuple((snap(lib, a, depth + 1), snap(lib, b, depth + 1)) for a, b in v.m.values())
    if isinstance(v, (int, str, bytes, float, type(None))): return v
    return repr(v)
