"""C10: printable text and decoded UTF-8 are shown verbatim."""
from .common import *

RULE = ('the derived display of printable bytes must be the same characters, of a UTF-8 sequence the character it encodes (right-aligned and padded with "_" in decoded '
        'binary mode, placeholders without --decode), whatever the other options are')
EXPLAIN = ('Runs of unknown printable bytes of symbolic length and UTF-8 sequences of every RFC 3629 shape with unknown bytes are derived through the whole pipeline; the '
           'output must equal the identity image of the bytes and the symbolic code point (an affine expression of the unknown bytes).')
BOUNDS = 'none for text mode; binary rows of 16 columns with at most 3 rows'
MIN_PROVED = 100


def text_(repo, src, w, kinds, axes):
    ts = [token(src, k, f't{i}') for i, k in enumerate(kinds)]
    kw = conf(src, False, axes, [c for c in {t.cls for t in ts}])
    check_text(repo, w, ts, kw, 'text display of ' + ' '.join(kinds))


def binary(repo, src, w, kinds, axes, cols=16):
    ts = [token(src, k, f't{i}', hi=40) if k == 'PRI' else token(src, k, f't{i}') for i, k in enumerate(kinds)]
    check_binary(repo, w, ts, conf(src, True, axes, [c for c in {t.cls for t in ts}], columns=cols), cols, 'binary display of ' + ' '.join(kinds))


def split(repo, src, w, kind, cols):
    """A decoded character that is cut by the end of the row stays in the columns of its bytes."""
    ts = [T(src, 'PRI', 'p', n=cols - 1), token(src, kind)]
    check_binary(repo, w, ts, conf(src, True, 'd', columns=cols), cols, f'{kind} at the end of a row')


def jobs(repo, tier):
    js = []
    U = ('UTF2', 'UTF2a', 'UTFC1', 'UTF3a', 'UTF3b', 'UTF3c', 'UTF4a', 'UTF4b', 'UTF4c')
    js.append(Job('text PRI', text_, ('PRI',), 'mndcfx', time=15))
    js.append(Job('binary PRI', binary, ('PRI',), 'mdf', time=15))
    js.append(Job('binary PRI all', binary, ('PRI',), 'x', 64, time=15))
    for k in U:
        js.append(Job(f'text {k}', text_, (k,), 'mndcfx', time=15))
        js.append(Job(f'binary {k}', binary, (k,), 'mndcfx', time=15))
        js.append(Job(f'cut {k}', split, k, 3, time=15))
    for ks in (('UTF2', 'UTF3b'), ('PRI', 'UTF2a', 'PRI'), ('UTF3a', 'UTF4b', 'UTF2'), ('UTF2', 'UTF2'), ('UTF3c', 'PRI')):
        js.append(Job('text ' + ' '.join(ks), text_, ks, 'd', time=15))
        js.append(Job('binary ' + ' '.join(ks), binary, ks, 'd', time=15))
    if tier == 'thorough':
        for k in U + ('PRI',):
            js.append(Job(f'all text {k}', text_, (k,), 'mndcfix', time=200))
            js.append(Job(f'all binary {k}', binary, (k,), 'mndcfix', time=200))
            for c in (1, 2, 4, 5): js.append(Job(f'cut {k} {c}', split, k, c, time=60))
            for k2 in U + ('PRI',): js.append(Job(f'pair {k} {k2}', binary, (k, k2), 'df', time=60))
    return js
