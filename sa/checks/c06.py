"""C06: in binary mode the hex column and the symbol column stay in step for every byte."""
from .common import *

RULE = ('for every token kind, option combination, run length and column count the derived binary-mode output must consist, per row, of the exact '
        'hex pairs of its bytes followed by exactly one symbol per byte')
EXPLAIN = ('Abstract tokens (unknown bytes, symbolic lengths) go through the analysed pipeline in binary mode with symbolic options and column count; the '
           'derived output string is decomposed at the positions the layout requires and each piece must be proved equal / of the exact length.')
BOUNDS = 'rows per input are cut at 4 with a symbolic column count; escape sequence parameter runs are bounded to 3 bytes with options abstract'
MIN_PROVED = 50


def one(repo, src, w, kind, axes, cols):
    t = token(src, kind, hi=3 if kind in ESCK else None)
    c = src.int('columns', 1) if cols is None else cols
    layout_binary(repo, w, [t], conf(src, True, axes, [t.cls], columns=c), c)


def seq(repo, src, w, kinds, axes, cols):
    ts = [token(src, k, f't{i}', hi=2) if k in RUNS + ESCK else token(src, k, f't{i}') for i, k in enumerate(kinds)]
    c = src.int('columns', 1) if cols is None else cols
    layout_binary(repo, w, ts, conf(src, True, axes, {t.cls for t in ts}, columns=c), c)


PAIRS = (('PRI', 'UTF2'), ('UTF3b', 'BIN'), ('BIN', 'UTF4b'), ('CTL', 'ESC'), ('CSI', 'NL'), ('sgr1', 'PRI'), ('SGR0', 'UTF2'), ('NF', 'SPC'), ('UTFC1', 'TAB'),
         ('TAB', 'NL'), ('NL', 'NL'), ('DEL', 'FS'))


def jobs(repo, tier):
    js = []
    for k in ('ext2', 'ext5', 'sgr2', 'sgr1', 'CSI', 'NF'): js.append(Job(f'{k} columns=5', one, k, 'md', 5, time=30))
    for k in KINDS:
        if k in ('CSI', 'NF', 'CSIm'): js.append(Job(f'{k} options', one, k, 'f', 16, time=30))
        else: js.append(Job(f'{k} any columns', one, k, 'd', None, time=30))
        js.append(Job(f'{k} options', one, k, 'mndcfi', 4, time=30))
    for p in PAIRS: js.append(Job('seq ' + ' '.join(p), seq, p, 'd', None, time=30))
    if tier == 'thorough':
        for k in KINDS: js.append(Job(f'{k} all', one, k, 'mndcfix', None, time=300))
        for a in KINDS:
            for b in KINDS: js.append(Job(f'seq {a} {b}', seq, (a, b), 'di', 3, time=60))
    return js
