"""C01: tokens cover all bytes of the input exactly once and in order."""
from .common import *
from . import c16

RULE = ('the hex column derived for unknown bytes must be exactly the input bytes in order (nothing skipped, repeated, moved or left behind), and the '
        'markers that carry bytes (level 2, binary symbols) must carry exactly the bytes of their own token')
EXPLAIN = ('Completely unknown bytes (partitioned by the tests of the analysed regular expressions) and sequences of abstract tokens with symbolic run '
           'lengths are followed from the reader through the parser and the segment buffer to the printed row; the derived hex column and the byte-carrying markers '
           'are compared with the input element by element.')
BOUNDS = 'up to 3 completely unknown bytes; sequences of up to 4 tokens; runs in sequences up to 2 bytes, single runs unbounded'
MIN_PROVED = 100


def raw(repo, src, w, doms, before=b'', after=b''):
    bs = [src.pick(f'b{i}', d) for i, d in enumerate(doms)]
    x = concat(before, *[tk.one(b) for b in bs], after)
    t = tk.Tok('PRI', x)        # only its bytes matter
    n = length(x)
    layout_binary(repo, w, [t], conf(src, True, '', columns=16), 16)


def seq(repo, src, w, kinds, axes=''):
    ts = [small(src, k, f't{i}') for i, k in enumerate(kinds)]
    kw = conf(src, True, axes, columns=32)
    styled, out = layout_binary(repo, w, ts, kw, 32)
    w.eq('bytes carried by the symbols', strip_sgr(styled), concat(hexes(raw_of(ts)), rep('   ', unlin(L(32).sub(L(length(raw_of(ts)))))), '  ',
                                                                   binary_chars(repo, ts, Opts(kw)), '\n'))


def text_seq(repo, src, w, kinds):
    ts = [small(src, k, f't{i}') for i, k in enumerate(kinds)]
    check_text(repo, w, ts, conf(src, False, '', marker=2), 'bytes carried by the markers')


def split(repo, src, w, kinds):
    """Input that arrives in two reads, the second one beginning anywhere."""
    ts = [token(src, k, f't{i}', n=2) if k in RUNS else small(src, k, f't{i}') for i, k in enumerate(kinds)]
    x = raw_of(ts)
    c = src.int('cut', 1)
    if not lt(c, length(x)): return
    layout_binary(repo, w, ts, conf(src, True, '', columns=32), 32, chunks=[slice_(x, 0, c), slice_(x, c, None)])


def long_run(repo, src, w, kinds):
    """Runs of any length in one read."""
    check_text(repo, w, [token(src, k, f't{i}') for i, k in enumerate(kinds)], conf(src, False, '', marker=2), 'bytes carried by the markers')


def long_split(repo, src, w, kinds, binary):
    """Escape sequences with parameters of any length, cut anywhere."""
    ts = [token(src, k, f't{i}') for i, k in enumerate(kinds)]
    x = raw_of(ts)
    c = src.int('cut', 1)
    if not lt(c, length(x)): return
    ch = [slice_(x, 0, c), slice_(x, c, None)]
    if binary:
        if not le(length(x), 4096): return
        layout_binary(repo, w, ts, conf(src, True, '', columns=4096), 4096, chunks=ch)
    else: check_text(repo, w, ts, conf(src, False, '', marker=2), 'bytes carried by the markers', ch)


def limited(repo, src, w, kinds, reads):
    """The byte limit ends the input inside a read: what is left of that read is the last thing the parser gets."""
    c16.binary(repo, src, w, kinds, 'B', reads, None, 2)


A, HI = range(256), range(0x80, 0x100)


def jobs(repo, tier):
    js = [Job('any 1', raw, [A]), Job('any 2', raw, [A, A], time=40), Job('high high any', raw, [HI, HI, A], time=25),
          Job('ESC any any', raw, [A, A], b'\x1b', time=20), Job('CSI any any', raw, [A, A], b'\x1b[', time=20), Job('E0-FF high high printable', raw, [range(0xe0, 0x100), HI, HI], b'', b'z', time=25),
          Job('printable any NL', raw, [A], b'a', b'\n')]
    for ks in (('PRI', 'BIN', 'PRI'), ('UTF2', 'BIN', 'UTF3b', 'NL'), ('CTL', 'NUL', 'BS', 'DEL'), ('SPC', 'TAB', 'NL', 'CR'), ('VT', 'FF', 'ESC', 'UTF4b'),
               ('CSI', 'sgr1', 'PRI'), ('NF', 'FP', 'FE', 'FS'), ('SGR0', 'SPC', 'CSIm'), ('BIN', 'ESC', 'CTL', 'PRI')):
        js.append(Job('binary ' + ' '.join(ks), seq, ks, time=20))
        js.append(Job('text ' + ' '.join(ks), text_seq, ks, time=20))
    for ks in (('PRI', 'BIN', 'SPC'), ('UTF2', 'UTF4b'), ('SGR0', 'FE', 'PRI'), ('CTL', 'UTF3b', 'BIN'), ('NL', 'CR', 'NL', 'PRI'), ('sgr1', 'NUL')):
        js.append(Job('two reads ' + ' '.join(ks), split, ks, time=25))
    for k in RUNS: js.append(Job(f'run of {k}', long_run, (k,), time=6))
    js += [Job('runs PRI BIN', long_run, ('PRI', 'BIN'), time=10), Job('runs SPC CTL', long_run, ('SPC', 'CTL'), time=10)]
    for k in ('CSI', 'NF', 'CSIm'): js += [Job(f'long {k} in two reads, {"binary" if b else "text"}', long_split, (k,), b, time=15) for b in (False, True)]
    for ks in (('PRI', 'SPC'), ('SPC', 'NL', 'PRI'), ('BIN', 'UTF2', 'CTL'), ('TAB', 'ESC'), ('SGR0', 'NUL')):
        js += [Job(f'-B {" ".join(ks)} {r} reads', limited, ks, r, time=15) for r in (1, 2)]
    if tier == 'thorough':
        js += [Job('any any any', raw, [A, A, A], max_paths=100000, time=850), Job('ESC any any any', raw, [A, A, A], b'\x1b', max_paths=100000, time=600)]
        for a in KINDS:
            for b in KINDS:
                js.append(Job(f'thorough {a} {b}', seq, (a, b), 'd', time=60))
                js.append(Job(f'thorough two reads {a} {b}', split, (a, b), time=60))
    return js
