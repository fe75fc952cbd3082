"""Scenario building blocks shared by the display properties."""
from __future__ import annotations

from .. import core, strs, tokens
from ..core import FV, Lin, force, fv_norm, lsub, lt, le, P
from ..num import L, unlin
from ..ob import Job, Src, Want, Fail, Undecided
from ..repo import prints
from ..strs import concat, length, slice_, norm, mk, NumP
from ..tokens import T, Tok, display, strip_sgr, walk, CLASSES, KINDS, sgr, sgr_ext, hexes, rep
from .. import tokens as tk

TF = [True, False]
RUNS = ('PRI', 'SPC', 'TAB', 'VT', 'FF', 'CR', 'CTL', 'NUL', 'BS', 'DEL', 'BIN')      # kinds of unbounded length
UTFS = tuple(k for k in KINDS if k.startswith('UTF'))
ESCK = ('CSI', 'CSIm', 'SGR0', 'NF', 'FP', 'FE', 'FS')
SGRS = ('sgr1', 'sgr2', 'ext5', 'ext2')


def forced(v):
    v = fv_norm(v) if isinstance(v, FV) else v
    return force(v) if isinstance(v, FV) else v


class Opts:
    """Documented meaning of the options of a scenario; abstract options are partitioned only when they matter."""

    def __init__(self, kw):
        self.kw = kw
        self.binary = kw.get('binary', False)
        self._level = None

    @property
    def level(self):
        if self._level is None:
            m = self.kw.get('marker', 0)
            self._level = 0 if le(m, 0) else 2 if le(2, m) else 1
        return self._level

    @property
    def nosep(self): return forced(self.kw.get('no_separators', False))
    @property
    def decode(self): return bool(forced(self.kw.get('decode')))

    def ignored(self, c): return bool(forced(self.kw.get('ignore_' + c, False)))
    def focused(self, c): return bool(forced(self.kw.get('focus_' + c, False)))
    @property
    def offsets(self): return not forced(self.kw.get('no_offsets', False)) or bool(forced(self.kw.get('debug', 0)))
    @property
    def decimal(self): return bool(forced(self.kw.get('decimal_offsets', False)))
    @property
    def numbers(self): return not forced(self.kw.get('no_line_numbers', False))


def conf(src, binary, axes='', own=(), **kw):
    """Settings of a scenario. axes: which options are abstract -
    m marker level, n separators, d decode, c colour markers, f focus of `own`, i ignore of `own`, x focus/ignore of the other classes,
    o offsets / line numbers, b base of offsets, w columns."""
    r = {'filename': '-', 'binary': binary, 'text': not binary, 'no_line_numbers': True, 'no_offsets': True, 'marker': 1}
    if 'm' in axes: r['marker'] = src.int('marker')
    if 'n' in axes: r['no_separators'] = src.pick('no_separators', TF)
    if 'd' in axes: r['decode'] = src.pick('decode', [True, False, None])
    if 'c' in axes: r['color_markers'] = src.pick('color_markers', TF)
    if 'o' in axes: r['no_line_numbers'] = r['no_offsets'] = src.pick('no_offsets', TF)
    if 'b' in axes: r['decimal_offsets'] = src.pick('decimal_offsets', TF)
    if 'f' in axes or 'i' in axes:
        for c in own:
            if 'i' in axes: r['ignore_' + c] = src.pick('ignore_' + c, TF)
            if 'f' in axes: r['focus_' + c] = src.pick('focus_' + c, TF)
    if 'x' in axes:
        xi, xf = src.pick('ignore_others', TF), src.pick('focus_others', TF)
        for c in CLASSES:
            if c not in own:
                r['ignore_' + c] = xi
                r['focus_' + c] = xf
    r.update(kw)
    return r


def token(src, kind, name='t', **kw):
    if kind == 'sgr1': return sgr(src, name, 1)
    if kind == 'sgr2': return sgr(src, name, 2, dom=(1, 4, 7, 22, 31, 39, 49, 95, 107))
    if kind == 'sgr3': return sgr(src, name, 3, dom=(0, 1, 7, 38 + 1, 44, 97))
    if kind == 'ext5': return sgr_ext(src, name, 5, 38)
    if kind == 'ext5b': return sgr_ext(src, name, 5, 48, (1,), (4,))
    if kind == 'ext2': return sgr_ext(src, name, 2, 48, doms=[range(256), (7, 255), (0, 100)])
    if kind == 'ext2b': return sgr_ext(src, name, 2, 38, (4,), (1,), doms=[(16, 200), range(256), (9,)])
    if kind == 'ext2c': return sgr_ext(src, name, 2, 38, (), (7, 24), doms=[(0, 99), (250,), range(256)])
    return T(src, kind, name, **kw)


def class_of(kind):
    if kind.startswith('UTF'): return 'utf8'
    if kind in ESCK or kind.startswith(('sgr', 'ext')): return 'esc'
    return tk.CLASS[kind]


def text_of(repo, t, o):
    if t.kind != 'UTF': return None
    if not hasattr(t, '_txt'):
        t._txt = '▯' if t.c1 else repo.call(repo.attr(t.raw, 'decode'), 'utf-8')
    if o.binary: return concat(rep('_', unlin(lsub(t.n, 1))), t._txt)
    return t._txt


def pad2(n): return f'{n:2d}' if isinstance(n, int) else mk('s', [NumP(n, 'd', 2)])


def text_out(repo, toks, o, first_line=1):
    """Documented text-mode output (without styles) of consecutive tokens up to the end of input."""
    out, line, open_ = '', first_line, False
    for t in toks:
        if not open_ and core.le(t.n, 0): continue
        if not open_:
            if o.numbers: out = concat(out, pad2(line), '│')
            open_ = True
        out = concat(out, display(t, o, text_of(repo, t, o)))
        if t.kind == 'NL':
            open_ = False
            line += 1
    if open_: out = concat(out, '\n')
    return out


def binary_chars(repo, toks, o):
    return concat('', *[display(t, o, text_of(repo, t, o)) for t in toks])


def offset_text(n, o):
    """Row prefix / total of offset n."""
    if o.decimal: return mk('s', [NumP(L(n), 'd', 0)]) if not isinstance(n, int) else str(n)
    return concat('0x', mk('s', [NumP(L(n), 'x', 0)]) if not isinstance(n, int) else f'{n:x}')


def binary_rows(raw, chars, cols, max_rows=6):
    """[(offset, row text without prefix)]"""
    total = length(raw)
    pos, rows = 0, []
    while lt(pos, total):
        if len(rows) > max_rows: raise core.Cut('rows bound')
        end = unlin(L(pos).add(L(cols)))
        if not le(end, total):
            miss = unlin(lsub(end, total))
            end = total
        else: miss = 0
        rows.append((pos, concat(hexes(slice_(raw, pos, end)), rep('   ', miss)), slice_(chars, pos, end)))
        pos = end
    return rows


def execute(repo, toks, kw, chunks=None, width=80):
    """Derive the output of a whole run -> text with styles."""
    n = len(P().events)
    repo.run_stream(chunks if chunks is not None else [concat(b'', *[t.raw for t in toks])], width=width, **kw)
    return out_of(P(), n)


def out_of(path, start=0):
    o = ''
    for ev in path.events[start:]:
        if ev[0] == 'print' and ev[2][0] != 'stderr': o = concat(o, ev[1])
    return o


def print_where(path):
    for ev in reversed(path.events):
        if ev[0] == 'print': return ev[2][1:]
    return None


def check_text(repo, w, toks, kw, label='text rows', chunks=None):
    o = Opts(kw)
    styled = execute(repo, toks, kw, chunks)
    w.eq(label, strip_sgr(styled), text_out(repo, toks, o))
    return styled


def check_binary(repo, w, toks, kw, cols, label='binary rows', chunks=None, width=80):
    """Rows without prefixes (offsets off)."""
    o = Opts(kw)
    styled = execute(repo, toks, kw, chunks, width)
    rows = binary_rows(concat(b'', *[t.raw for t in toks]), binary_chars(repo, toks, o), cols)
    w.eq(label, strip_sgr(styled), concat('', *[concat(h, '  ', c, '\n') for _, h, c in rows]))
    return styled


def layout_binary(repo, w, toks, kw, cols, chunks=None, width=80, label='hex column', first=0):
    """Rows without prefixes: hex column exact, as many symbols as bytes, one line feed per row and nothing else."""
    styled = execute(repo, toks, kw, chunks, width)
    out = strip_sgr(styled)
    raw = concat(b'', *[t.raw for t in toks])
    total, n = length(out), length(raw)
    pos, at = 0, 0
    while lt(at, n):
        end = unlin(L(at).add(L(cols)))
        if le(end, n): miss = 0
        else: miss, end = unlin(lsub(end, n)), n
        k = unlin(lsub(end, at))
        h = concat(hexes(slice_(raw, at, end)), rep('   ', miss), '  ')
        e1 = unlin(L(pos).add(L(length(h))))
        e2 = unlin(L(e1).add(L(k)).add(1))
        w.true('row complete', le(e2, total), f'output has {total} characters, the row of bytes {at}..{end} ends at {e2}', print_where(P()))
        w.eq(label, slice_(out, pos, e1), h, print_where(P()))
        w.eq('one symbol per byte', slice_(out, unlin(L(e2).add(-1)), e2), '\n', print_where(P()))
        pos, at = e2, end
    w.eq('no other output', pos, total, print_where(P()))
    return styled, out


# ---------------------------------------------------------------- styled strings
def styled_list(x):
    """[(text, style)] with neighbours of equal style merged and empty pieces left out."""
    out = []
    for t, s in walk(x):
        n = length(t)
        if isinstance(n, int) and n == 0 or not isinstance(n, int) and le(n, 0): continue
        if out and out[-1][1] == s: out[-1] = (concat(out[-1][0], t), s)
        else: out.append((t, s))
    return out


def end_style(x):
    """Style state in force after the last character."""
    return walk(x)[-1][1]


def cut(st, n):
    """Styled list split at character n."""
    a, b = [], []
    pos = 0
    for t, s in st:
        k = length(t)
        e = unlin(L(pos).add(L(k)))
        if b or le(n, pos): b.append((t, s))
        elif le(e, n): a.append((t, s))
        else:
            m = unlin(lsub(n, pos))
            a.append((slice_(t, 0, m), s))
            b.append((slice_(t, m, None), s))
        pos = e
    return a, b


def join(*lists):
    out = []
    for st in lists:
        for t, s in st:
            if out and out[-1][1] == s: out[-1] = (concat(out[-1][0], t), s)
            else: out.append((t, s))
    return out


def text(st): return concat('', *[t for t, _ in st])


def same_styled(w, label, a, b):
    wh = print_where(P())
    w.eq(label + ': text', text(a), text(b), wh)
    if [s for _, s in a] != [s for _, s in b]:
        w.true(label + ': styles', False, f'{show_st(a)} where {show_st(b)} is required', wh)
    for (x, _), (y, _) in zip(a, b): w.eq(label + ': styles', x, y, wh)
    w.true(label, True)


def show_st(st): return ' '.join(f'{t!r:.40}<{",".join(map(str, s))}>' for t, s in st)[:300]


def raw_of(toks): return concat(b'', *[t.raw for t in toks])


def small(src, k, name='t', hi=2): return token(src, k, name, hi=hi) if k in RUNS + ESCK else token(src, k, name)


# ---------------------------------------------------------------- whole application
def run_app(repo, chunks, kw, fault=None, width=80, name='-', argv=None):
    """Derive App().run(). fault: (kind, index, exception class, message) with kind open / read.
    -> (exit codes, events of the run, escaping exception class or None)"""
    from ..interp import AExc
    from .. import argp
    I, lib = repo.I, repo.lib
    lib.handling.clear()
    if width is not None: P().memo['termwidth'] = width
    it, cnt = list(chunks), [0]

    def hook(parser, ns, args):
        if argv is not None: return argp.parse(I, parser, ns, argv if args is None else I.iter_list(args))
        for k, v in {**kw, 'filename': name}.items(): I.setattr_(ns, k, v)
        return ns

    def rd(o, n):
        i = cnt[0]
        cnt[0] += 1
        if fault and fault[0] == 'read' and fault[1] == i: I.raise_(fault[2], *fault[3])
        if not it: return b''
        x = it.pop(0)
        if n is None or isinstance(n, int) and (n < 0 or n >= 128) or le(length(x), n): return x
        it.insert(0, slice_(x, n, None))
        return slice_(x, 0, n)

    def opener(nm, mode):
        if fault and fault[0] == 'open': I.raise_(fault[2], *fault[3])
        return repo.file_of(nm)
    lib.parse_args_hook, lib.io_read, lib.open_hook = hook, rd, opener
    I.setattr_(I.getattr_(lib.stdin, 'buffer'), 'closed', False)
    start = len(P().events)
    app = repo.call(repo.get('kolombos.app', 'App'))
    esc = None
    try: repo.call(repo.attr(app, 'run'))
    except AExc as e:
        if e.value.cls.name != 'SystemExit': esc = e.value.cls.name
    evs = P().events[start:]
    return [ev[1] for ev in evs if ev[0] == 'exit'], evs, esc


def stream(evs, name):
    o = ''
    for ev in evs:
        if ev[0] == 'print' and (ev[2][0] == name): o = concat(o, ev[1])
    return o
