"""Abstract tokens of the documented grammar and the documented display of each of them (the oracle)."""
from __future__ import annotations

from . import strs, core
from .core import FV, P, fv_norm
from .strs import SV, Run, Rep, Tab, Lit, mk, concat, length, norm

PRINTABLE = range(0x21, 0x7f)
GENERIC = [b for b in range(0x20) if b not in (0, 8, 0x1b) and not 9 <= b <= 13]
SINGLE = {0x00: 'Ø', 0x08: '←', 0x7f: '→', 0x09: '⇥', 0x0b: '⤓', 0x0c: '↡', 0x0d: '⇤', 0x20: '␣'}
CARET = {b: chr(b + 0x40) for b in GENERIC}
PARAM, INTER, FINAL = range(0x30, 0x40), range(0x20, 0x30), range(0x40, 0x7f)

CLASS = {'PRI': 'printable', 'SPC': 'space', 'TAB': 'space', 'NL': 'space', 'VT': 'space', 'FF': 'space', 'CR': 'space', 'CTL': 'control', 'NUL': 'control',
         'BS': 'control', 'DEL': 'control', 'ESC': 'control', 'BIN': 'binary', 'UTF': 'utf8', 'CSI': 'esc', 'SGR': 'esc', 'SGR0': 'esc', 'NF': 'esc',
         'FP': 'esc', 'FE': 'esc', 'FS': 'esc'}
CODE = {'SPC': 0x20, 'TAB': 9, 'NL': 10, 'VT': 11, 'FF': 12, 'CR': 13, 'NUL': 0, 'BS': 8, 'DEL': 0x7f, 'ESC': 0x1b}
LABEL = {'SPC': '␣', 'TAB': '⇥', 'NL': '↵', 'VT': '⤓', 'FF': '↡', 'CR': '⇤', 'CTL': 'Ɐ', 'NUL': 'Ø', 'BS': '←', 'DEL': '→', 'ESC': '∌',
         'CSI': 'Ͻ', 'SGR': 'ǝ', 'SGR0': 'θ', 'NF': 'ꟻ', 'FP': 'ꟼ', 'FE': 'Ǝ', 'FS': 'Ꙅ', 'BIN': 'Ḇ'}
CLASSES = ('control', 'esc', 'space', 'utf8', 'binary', 'printable')
ESCS = ('CSI', 'SGR', 'SGR0', 'NF', 'FP', 'FE', 'FS')


class Tok:
    """raw: bytes of the token (abstract); n: their number."""

    def __init__(self, kind, raw, text=None, brief=None, params=None):
        self.kind, self.raw, self.text, self.brief, self.params = kind, raw, text, brief, params
        self.n = length(raw)
        self.cls = CLASS[kind]


def T(src, kind, name='t', lo=1, hi=None, n=None):
    """Abstract token of a kind; runs have symbolic length."""
    def run(suffix, chars, lo=lo, n=n, hi=hi): return src.run(name + suffix, chars, n, lo, hi)
    if kind == 'PRI': return Tok(kind, run('', PRINTABLE))
    if kind == 'CTL': return Tok(kind, run('', GENERIC))
    if kind in ('SPC', 'TAB', 'VT', 'FF', 'CR', 'NUL', 'BS', 'DEL'): return Tok(kind, run('', [CODE[kind]]))
    if kind in ('NL', 'ESC'): return Tok(kind, bytes([CODE[kind]]))
    if kind == 'BIN': return Tok(kind, run('', list(range(0x80, 0xc2)) + list(range(0xf5, 0x100))))
    if kind.startswith('UTF'):
        shapes = {'UTF2': ([range(0xc3, 0xe0)], 1), 'UTF2a': ([[0xc2], range(0xa0, 0xc0)], 0), 'UTFC1': ([[0xc2], range(0x80, 0xa0)], 0),
                  'UTF3a': ([[0xe0], range(0xa0, 0xc0)], 1), 'UTF3b': ([[*range(0xe1, 0xed), 0xee, 0xef]], 2),
                  'UTF3c': ([[0xed], range(0x80, 0xa0)], 1), 'UTF4a': ([[0xf0], range(0x90, 0xc0)], 2), 'UTF4b': ([range(0xf1, 0xf4)], 3),
                  'UTF4c': ([[0xf4], range(0x80, 0x90)], 2)}
        heads, conts = shapes[kind]
        bs = [src.byte(f'{name}.{i}', h) for i, h in enumerate(heads)]
        bs += [src.byte(f'{name}.{len(heads) + i}', range(0x80, 0xc0)) for i in range(conts)]
        t = Tok('UTF', concat(*bs))
        t.c1 = kind == 'UTFC1'
        return t
    if kind == 'CSI':
        fin = [c for c in FINAL if c != 0x6d]
        return Tok(kind, concat(b'\x1b[', src.run(name + 'p', PARAM, lo=0, hi=hi), src.run(name + 'i', INTER, lo=0, hi=hi), src.byte(name + 'f', fin)))
    if kind == 'CSIm':      # CSI ... m with private parameters is no colour sequence
        return Tok('CSI', concat(b'\x1b[', src.byte(name + 'q', b'<=>?'), src.run(name + 'p', PARAM, lo=0, hi=hi), b'm'))
    if kind == 'SGR0': return Tok('SGR0', concat(b'\x1b[', src.pick(name, [b'', b'0'], lambda x: x), b'm'))
    if kind == 'NF': return Tok(kind, concat(b'\x1b', src.run(name + 'i', INTER, lo=1, hi=hi), src.byte(name + 'f', range(0x30, 0x7f))))
    if kind == 'FP': return Tok(kind, concat(b'\x1b', src.byte(name, range(0x30, 0x40))))
    if kind == 'FE': return Tok(kind, concat(b'\x1b', src.byte(name, [c for c in range(0x40, 0x60) if c != 0x5b])))
    if kind == 'FS': return Tok(kind, concat(b'\x1b', src.byte(name, range(0x60, 0x7f))))
    raise KeyError(kind)


def sgr(src, name, count, dom=range(1, 110), texts=None):
    """ESC [ p1 ; ... ; pn m with unknown attribute codes (no extended colours)."""
    ps = [src.pick(f'{name}{i}', [x for x in dom if x not in (38, 48)]) for i in range(count)]
    raw = concat(b'\x1b[', *sum([[b';', num_bytes(p)] for p in ps], [])[1:], b'm')
    return Tok('SGR', raw, params=ps, brief=joined([num_text(p) for p in ps]))


def sgr_ext(src, name, mode, base, before=(), after=(), doms=None):
    """Extended colour with unknown operands: mode 5 or 2, base 38 or 48."""
    k = 1 if mode == 5 else 3
    ops = [src.pick(f'{name}o{i}', (doms or [range(256)] * 3)[i]) for i in range(k)]
    raw = concat(b'\x1b[', b''.join(b'%d;' % x for x in before), b'%d;%d' % (base, mode), *sum([[b';', num_bytes(p)] for p in ops], []),
                 b''.join(b';%d' % x for x in after), b'm')
    head = 'F' if base == 38 else 'B'
    name_ = concat(head, num_text(ops[0])) if mode == 5 else concat(head, *[img(p, lambda x: f'{x:02X}') for p in ops])
    return Tok('SGR', raw, params=[*before, base, mode, *ops, *after], brief=joined([str(x) for x in before] + [name_] + [str(x) for x in after]))


def img(v, f):
    if isinstance(v, FV):
        r = fv_norm(FV(v.var, {x: f(y) for x, y in v.tab.items()}))
        return mk(strs.kind_of(r), [Tab(r)]) if isinstance(r, FV) else r
    return f(v)


def num_bytes(p): return img(p, lambda x: str(x).encode())
def num_text(p): return img(p, str)


def joined(xs):
    out = []
    for x in xs: out += ['･', x]
    return concat(*(out[1:] or ['']))


# ---------------------------------------------------------------- per-byte images
def chars_of(b):
    """bytes (ASCII) -> the same characters."""
    return each(b, {c: chr(c) for c in range(0x80)})


def each(b, tab):
    """Concatenation of tab[x] for every byte x of the abstract byte string."""
    if isinstance(b, bytes): return ''.join(tab[x] for x in b)
    b = norm(b)
    if isinstance(b, bytes): return ''.join(tab[x] for x in b)
    out = []
    for q in strs.sv(b).parts:
        if isinstance(q, Rep): out.append(Rep(''.join(tab[x] for x in q.u), q.n))
        elif isinstance(q, Run): out.append(Run(q.atom, q.lo, q.hi, {c: tab[c] for c in P().atoms[q.atom].chars}))
        elif isinstance(q, Tab):
            out.append(Tab(FV(q.fv.var, {k: ''.join(tab[x] for x in q.fv.tab[k]) for k in P().dom[q.fv.var]})))
        else: out.append(Lit(''.join(tab[x] for x in q.v)))
    return mk('s', out)


def rep(u, n): return mk('s', [Rep(u, n)]) if not isinstance(n, int) else u * n


HEX = {b: f' {b:02x}' for b in range(256)}


def hexes(raw): return each(raw, HEX)


def display(tok, o, decoded=None):
    """Documented text (styles left out) of the token. decoded: text of a UTF-8 token."""
    k = tok.kind
    if o.ignored(tok.cls):
        if k == 'NL' and not o.binary: return '×\n'
        return rep('×', tok.n)
    if k == 'PRI': return chars_of(tok.raw)
    if k == 'SPC': return rep('·' if o.focused('space') else '␣', tok.n)
    if k == 'TAB': return rep('⇥' if o.binary else '⇥\t', tok.n)
    if k == 'NL': return '↵' if o.binary else '↵\n'
    if k == 'CTL':
        if o.binary or o.level == 0: return rep('Ɐ', tok.n)
        if o.level == 1: return each(tok.raw, {b: 'Ɐ' + CARET[b] for b in GENERIC})
        return each(tok.raw, {b: f'Ɐ{b:02x}' for b in GENERIC})
    if k == 'BIN': return rep('▯' if o.binary else 'Ḇ', tok.n)
    if k == 'UTF':
        if not o.binary: return decoded
        if not o.decode: return rep('▯', tok.n)
        return decoded
    if k in ESCS:
        rest = strs.slice_(tok.raw, 1, None)
        if o.binary: return concat(LABEL[k], chars_of(rest))
        if o.level == 0: return LABEL[k]
        if o.level == 1: body = concat(LABEL[k], tok.brief if k == 'SGR' else '')
        else: body = concat(LABEL[k], chars_of(rest))
        return body if o.nosep else concat('⢸', body, '⡇')
    return rep(LABEL[k], tok.n)


KINDS = ['PRI', 'SPC', 'TAB', 'NL', 'VT', 'FF', 'CR', 'CTL', 'NUL', 'BS', 'DEL', 'ESC', 'BIN', 'UTF2', 'UTF2a', 'UTFC1', 'UTF3a', 'UTF3b', 'UTF3c', 'UTF4a',
         'UTF4b', 'UTF4c', 'CSI', 'CSIm', 'SGR0', 'NF', 'FP', 'FE', 'FS']


# ---------------------------------------------------------------- styles
def strip_sgr(x):
    """Text without style sequences (ESC [ digits and ; m)."""
    return concat('', *[t for t, _ in walk(x)])


def walk(x):
    """[(text part, frozen style state)] of an abstract output string."""
    out = []
    st = State()
    for q in strs.sv(norm(x)).parts:
        if isinstance(q, Lit):
            st.lit(q.v, out)
        elif isinstance(q, Tab):
            dom = P().dom[q.fv.var]
            ks = sorted(dom, key=lambda z: (str(type(z)), repr(z)))
            if st.esc is None and not any('\x1b' in q.fv.tab[k] for k in ks):
                out.append((mk('s', [q]), st.key()))
            elif st.esc is not None and all(set(q.fv.tab[k]) <= set('0123456789;') for k in ks):
                st.esc.append(q)
            else:
                v = core.force(q.fv)
                st.lit(v, out)
        elif isinstance(q, (strs.NumP, strs.ChrP)):
            if st.esc is not None:
                if isinstance(q, strs.ChrP): raise core.Unsupported('unknown character in a style sequence')
                st.esc.append(q)
            else: out.append((mk('s', [q]), st.key()))
        elif isinstance(q, (Run, Rep, strs.Opq)):
            if st.esc is not None:
                cs = strs.part_chars(q)
                if cs.subset(strs.CS([(0x30, 0x3b)])): st.esc.append(q)
                else: raise core.Unsupported('run in a style sequence')
            elif isinstance(q, Rep) and '\x1b' in q.u: raise core.Unsupported('repeated styles')
            else: out.append((mk('s', [q]), st.key()))
        else: raise core.Unsupported('part')
    if st.esc is not None: out.append(('\x1b' + repr(st.esc), st.key()))
    st.out_end = st.key()
    out.append(('', st.key()))
    return out


RESET = {22: ('bold', 'dim'), 23: ('italic',), 24: ('under',), 25: ('blink',), 27: ('inv',), 28: ('hid',), 29: ('cross',), 39: ('fg',), 49: ('bg',), 55: ('over',)}
SETS = {1: 'bold', 2: 'dim', 3: 'italic', 4: 'under', 5: 'blink', 6: 'blink', 7: 'inv', 8: 'hid', 9: 'cross', 21: 'under', 53: 'over'}


class State:
    """Terminal style state while walking over an output string."""

    def __init__(self):
        self.attr = {}
        self.esc = None

    def key(self): return tuple(sorted(self.attr.items(), key=str))

    def lit(self, v, out):
        buf = ''
        i = 0
        while i < len(v):
            c = v[i]
            if self.esc is not None:
                if isinstance(self.esc, list) and self.esc and self.esc[0] == 'E' and len(self.esc) == 1:
                    if c == '[':
                        self.esc.append('[')
                        i += 1
                        continue
                    buf += '\x1b'
                    self.esc = None
                    continue
                if c in '0123456789;':
                    self.esc.append(c)
                    i += 1
                    continue
                if c == 'm':
                    self.apply(self.esc[2:])
                    self.esc = None
                    i += 1
                    continue
                # no style sequence: keep its text
                if all(isinstance(z, str) for z in self.esc): buf += '\x1b' + ''.join(self.esc[1:])
                else: raise core.Unsupported('not a style sequence')
                self.esc = None
                continue
            if c == '\x1b':
                if buf: out.append((buf, self.key()))
                buf = ''
                self.esc = ['E']
            else: buf += c
            i += 1
        if buf: out.append((buf, self.key()))

    def apply(self, items):
        params, cur = [], []
        for z in items:
            if z == ';':
                params.append(cur)
                cur = []
            else: cur.append(z)
        params.append(cur)
        vals = []
        for p in params:
            if all(isinstance(z, str) for z in p): vals.append(int(''.join(p) or '0'))
            elif len(p) == 1 and isinstance(p[0], Tab): vals.append(p[0])
            else: vals.append(tuple(z if isinstance(z, str) else z.key() for z in p))
        i = 0
        while i < len(vals):
            p = vals[i]
            if isinstance(p, Tab):
                if i and vals[i - 1] in (38, 48): raise core.Unsupported('unknown colour mode')
                p = int(core.force(p.fv) or '0')
            if isinstance(p, tuple): raise core.Unsupported('style parameter')
            if p == 0: self.attr.clear()
            elif p in (38, 48):
                m = vals[i + 1] if i + 1 < len(vals) else None
                k = 3 if m == 5 else 5 if m == 2 else 1
                ops = [v if isinstance(v, int) else (v.key() if isinstance(v, Tab) else v) for v in vals[i:i + k]]
                if k > 1: self.attr['fg' if p == 38 else 'bg'] = tuple(ops)
                i += k
                continue
            elif p in SETS: self.attr[SETS[p]] = p
            elif p in RESET:
                for a in RESET[p]: self.attr.pop(a, None)
            elif 30 <= p <= 37 or 90 <= p <= 97: self.attr['fg'] = p
            elif 40 <= p <= 47 or 100 <= p <= 107: self.attr['bg'] = p
            i += 1


# ---------------------------------------------------------------- reference lexer
def isin(x, s):
    """Membership of an unknown byte (partitions it)."""
    if isinstance(x, FV):
        x = fv_norm(x)
    if isinstance(x, FV): return strs.elem_in(x, strs.CS.of(s))
    return x in s


def one(x):
    """Byte string of one (unknown) byte."""
    return mk('b', [Tab(FV(x.var, {k: bytes([v]) for k, v in x.tab.items()}))]) if isinstance(x, FV) else bytes([x])


UTF8 = [([*range(0xc2, 0xe0)], []), ([0xe0], [*range(0xa0, 0xc0)]), ([*range(0xe1, 0xed), 0xee, 0xef], [*range(0x80, 0xc0)]), ([0xed], [*range(0x80, 0xa0)]),
        ([0xf0], [*range(0x90, 0xc0)]), ([0xf1, 0xf2, 0xf3], [*range(0x80, 0xc0)]), ([0xf4], [*range(0x80, 0x90)])]
CONT = [*range(0x80, 0xc0)]


def lex(bs):
    """Documented tokens of a list of (unknown) bytes; runs come as one token per byte."""
    out, i, n = [], 0, len(bs)

    def emit(kind, k, **kw):
        t = Tok(kind, concat(*[one(x) for x in bs[i:i + k]]), **kw)
        out.append(t)
        return i + k
    while i < n:
        b = bs[i]
        if isin(b, PRINTABLE): i = emit('PRI', 1)
        elif isin(b, range(0x80, 0x100)):
            k = utf8_len(bs, i)
            if k:
                j = emit('UTF', k)
                out[-1].c1 = k == 2 and isin(bs[i], [0xc2]) and isin(bs[i + 1], range(0x80, 0xa0))
                i = j
            else: i = emit('BIN', 1)
        elif isin(b, GENERIC): i = emit('CTL', 1)
        elif isin(b, [0x1b]): i = esc(bs, i, emit)
        else:
            for k in ('SPC', 'TAB', 'NL', 'VT', 'FF', 'CR', 'NUL', 'BS', 'DEL'):
                if isin(b, [CODE[k]]):
                    i = emit(k, 1)
                    break
            else: raise AssertionError
    return out


def utf8_len(bs, i):
    n = len(bs)
    for k, heads in enumerate(UTF8):
        if isin(bs[i], heads[0]):
            ln = 2 if k == 0 else 3 if k < 4 else 4
            if i + ln > n: return 0
            if ln > 2 and not isin(bs[i + 1], heads[1]): return 0
            for j in range(1 if ln == 2 else 2, ln):
                if not isin(bs[i + j], CONT): return 0
            return ln
    return 0


def esc(bs, i, emit):
    n = len(bs)
    if i + 1 >= n: return emit('ESC', 1)
    c = bs[i + 1]
    if isin(c, [0x5b]):
        j = i + 2
        while j < n and isin(bs[j], PARAM): j += 1
        p = j
        while j < n and isin(bs[j], INTER): j += 1
        if j < n and isin(bs[j], FINAL):
            if j == p and isin(bs[j], [0x6d]) and all(isin(x, range(0x30, 0x3c)) for x in bs[i + 2:p]):
                ps = bs[i + 2:p]
                if not ps or len(ps) == 1 and isin(ps[0], [0x30]): return emit('SGR0', j + 1 - i)
                return emit('SGR', j + 1 - i)
            return emit('CSI', j + 1 - i)
        return emit('FE', 2)
    if isin(c, INTER):
        j = i + 2
        while j < n and isin(bs[j], INTER): j += 1
        if j < n and isin(bs[j], range(0x30, 0x7f)): return emit('NF', j + 1 - i)
        return emit('ESC', 1)
    if isin(c, range(0x30, 0x40)): return emit('FP', 2)
    if isin(c, range(0x40, 0x60)): return emit('FE', 2)
    if isin(c, range(0x60, 0x7f)): return emit('FS', 2)
    return emit('ESC', 1)
