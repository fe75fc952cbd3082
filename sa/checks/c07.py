"""C07: input never reaches the terminal as raw control codes."""
from .common import *

RULE = ('the character sets of every part of the derived output (style sequences of the markers left out) must not contain C0, ESC, DEL, C1 or surrogate code points, '
        'except the line feed at the end of a row and, in text mode, a tab directly after its own marker; sequences must appear as their marker')
EXPLAIN = ('The derived output of unknown bytes and of every token kind, under abstract options, is decomposed into parts; the set of possible characters of each part '
           '(image of the character class under the analysed transformation) is intersected with the forbidden code points.')
BOUNDS = 'up to 2 completely unknown bytes (3 in UTF-8 shape); runs unbounded in text mode'
MIN_PROVED = 200

FORBIDDEN = strs.CS.of([*range(0x20), *range(0x7f, 0xa0), *range(0xd800, 0xe000)])


def pieces(x):
    for t, _ in walk(x):
        for q in strs.sv(norm(t)).parts: yield q


def clean(w, styled, binary, what):
    wh = print_where(P())
    prev = None
    for q in pieces(styled):
        if isinstance(q, strs.Lit):
            for i, c in enumerate(q.v):
                before = q.v[i - 1] if i else prev
                if c == '\n': pass
                elif c == '\t' and not binary and before == '⇥': pass
                else: w.true(what, not FORBIDDEN.has(ord(c)), f'character {ord(c):#x} in the output', wh)
            if q.v: prev = q.v[-1]
        elif isinstance(q, Rep) and q.u == '⇥\t' and not binary: prev = '\t'
        else:
            bad = strs.part_chars(q).inter(FORBIDDEN)
            if bad and isinstance(q, strs.Tab):         # partition by the value of the character
                v = core.force(q.fv)
                w.true(what, not any(FORBIDDEN.has(ord(c)) for c in v if not (c in '\t\n' and ok_ctl(v, prev, binary))), f'{v!r} in the output', wh)
                prev = v[-1:]
                continue
            if bad and not (isinstance(q, strs.Run) and all(ok_ctl(v, None, binary) for v in (q.tab.values() if q.tab else map(chr, P().atoms[q.atom].chars)))):
                w.true(what, False, f'characters {bad} may be in the output', wh)
            prev = None
    w.true(what, True)


def ok_ctl(v, before, binary):
    """The only control characters of v are line feeds and tabs that follow their marker."""
    for i, c in enumerate(v):
        b = v[i - 1] if i else before
        if FORBIDDEN.has(ord(c)) and c != '\n' and not (c == '\t' and b == '⇥' and not binary): return False
    return True


from ..strs import Rep


def raw(repo, src, w, doms, before, after, binary, level=0):
    bs = list(before) + [src.pick(f'b{i}', d) for i, d in enumerate(doms)] + list(after)
    kw = conf(src, binary, '', marker=level, columns=16, decode=True)
    styled = execute(repo, [], kw, [concat(b'', *[tk.one(b) for b in bs])])
    clean(w, styled, binary, 'no raw control codes')
    if binary:      # nothing hidden inside style sequences either
        n = len(bs)
        w.eq('sequences appear as markers', length(strip_sgr(styled)), 48 + 2 + n + 1, print_where(P()))


def kind(repo, src, w, k, binary, axes):
    t = small(src, k, hi=2) if binary or k in ESCK else token(src, k)
    kw = conf(src, binary, axes, [t.cls], columns=16)
    o = Opts(kw)
    styled = execute(repo, [t], kw)
    clean(w, styled, binary, f'no raw control codes for {k}')
    if t.cls == 'esc':
        if not binary: w.eq('sequence appears as its marker', strip_sgr(styled), text_out(repo, [t], o), print_where(P()))
        else: w.eq('sequence appears as its marker', length(strip_sgr(styled)), unlin(L(48 + 2 + 1).add(L(t.n))), print_where(P()))


A, HI = range(256), range(0x80, 0x100)


def jobs(repo, tier):
    js = []
    for b, n in ((False, 'text'), (True, 'binary')):
        js += [Job(f'{n} any', raw, [A], b'', b'', b), Job(f'{n} any any', raw, [A, A], b'', b'', b, time=25), Job(f'{n} C2-F4 conts', raw, [range(0xc2, 0xf5), HI], b'', b'\x80', b, time=15),
               Job(f'{n} ESC any', raw, [A], b'\x1b', b'm', b, time=15), Job(f'{n} CSI any m', raw, [A], b'\x1b[', b'm', b, 2, time=15)]
        for k in KINDS + ['sgr1', 'ext5']:
            ax = 'mndcfi' if not b else 'dcfi'
            if k in ('CSI', 'CSIm', 'NF', 'CTL'): ax = 'mi'
            if k in ('SGR0', 'sgr1', 'ext5'): ax = 'mcfi'
            if b and k in ('PRI', 'VT', 'FF', 'CR', 'UTF2a', 'UTF3c', 'UTF4a', 'UTF4b', 'FS', 'FP', 'NUL', 'BS'): continue
            js.append(Job(f'{n} {k}', kind, k, b, ax, time=10))
    if tier == 'thorough':
        for b, n in ((False, 'text'), (True, 'binary')):
            js += [Job(f'{n} any any any', raw, [A, A, A], b'', b'', b, 2, max_paths=100000, time=600), Job(f'{n} ESC any any', raw, [A, A], b'\x1b', b'', b, 2, max_paths=100000, time=300),
                   Job(f'{n} CSI any any m', raw, [A, A], b'\x1b[', b'm', b, 2, max_paths=100000, time=300)]
            for k in KINDS + ['sgr1', 'sgr2', 'ext5', 'ext2']: js.append(Job(f'{n} {k} all', kind, k, b, 'mndcfix', time=200))
    return js
