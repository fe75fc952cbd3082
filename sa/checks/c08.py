"""C08: marker details of every token kind in text mode, and the verbatim display in binary mode."""
from .common import *

RULE = ('for every token kind, abstract interpretation of the whole pipeline must derive exactly the documented text of the token '
        'for every marker level, separator option and run length')
EXPLAIN = ('Each scenario feeds one abstract token (bytes of every element unknown within its class, run lengths and marker level symbolic integers) '
           'through the analysed runner, reader, parser, templates, segment buffer, formatter and console, and demands that the derived output string '
           'equals the documented display element by element.')
BOUNDS = 'runs of generic control characters longer than 3 at levels 1 and 2, and more than 4 binary rows per token, are cut'
MIN_PROVED = 50


def text(repo, src, w, kind):
    t = token(src, kind)
    check_text(repo, w, [t], conf(src, False, 'mn', [t.cls]), f'text display of {kind}')


def colour(repo, src, w, kind):
    t = token(src, kind)
    check_text(repo, w, [t], conf(src, False, 'mn', [t.cls], color_markers=True), f'text display of {kind} with coloured markers')


def binary(repo, src, w, kind):
    t = token(src, kind, hi=5)
    check_binary(repo, w, [t], conf(src, True, 'mn', [t.cls], columns=16), 16, f'binary display of {kind}')


def seq(repo, src, w, kinds, axes):
    """Details and separators stay with their own marker in a sequence of tokens."""
    ts = [token(src, k, f't{i}', hi=2) if k in RUNS + ESCK else token(src, k, f't{i}') for i, k in enumerate(kinds)]
    check_text(repo, w, ts, conf(src, False, axes), 'text display of ' + ' '.join(kinds))


def jobs(repo, tier):
    js = []
    for k in ('CTL', 'NUL', 'BS', 'DEL', 'ESC', 'NL', 'TAB', 'VT', 'FF', 'CR', 'SPC', 'PRI', 'BIN', 'UTF2', *ESCK, 'sgr2', 'ext5', 'ext2', 'ext5b'):
        js.append(Job(f'text {k}', text, k, time=40))
    for k in ('sgr1', 'sgr2', 'ext5', 'SGR0', 'CSI', 'CTL'):
        js.append(Job(f'colour {k}', colour, k, time=40 if tier == 'quick' else 400))
    js += [Job('text sgr1', text, 'sgr1', time=40), Job('text sgr3', text, 'sgr3', time=40), Job('text ext2b', text, 'ext2b', time=40), Job('text ext2c', text, 'ext2c', time=40)]
    for k in ('CTL', *ESCK, 'sgr1', 'ext5', 'ESC', 'DEL', 'NUL'):
        js.append(Job(f'binary {k}', binary, k, time=40))
    for ks in (('PRI', 'CSI', 'CTL'), ('CTL', 'sgr1', 'PRI'), ('SGR0', 'NF', 'NL'), ('CTL', 'FP', 'ESC'), ('sgr1', 'sgr1', 'CSI'), ('CSI', 'NL', 'CTL')):
        js.append(Job('seq ' + ' '.join(ks), seq, ks, 'mn', time=30))
    return js
