"""C04: no input and no combination of accepted options aborts the run."""
from .common import *

RULE = ('no derivation of the analysed pipeline may end in an exception, for any token kind, any colour parameter bytes and any combination of accepted options, '
        'and every byte must have been displayed when it ends')
EXPLAIN = ('Each abstract token is converted with all options abstract at once (marker level any integer, separators, decode, colour markers, focus and ignore of its own '
           'class and of the others, debug level, offsets), in both modes; colour sequences are additionally made of unknown parameter bytes. A raised exception on any '
           'partition, or an output that does not contain every byte, is a violation.')
BOUNDS = 'colour sequences with up to 3 unknown parameter bytes; escape sequence runs up to 3 bytes; debug levels 0-4'
MIN_PROVED = 100


def text_(repo, src, w, kind, axes):
    t = small(src, kind, hi=3)
    check_text(repo, w, [t], conf(src, False, axes, [t.cls]), f'display of {kind}')


def binary(repo, src, w, kind, axes):
    t = small(src, kind, hi=3)
    layout_binary(repo, w, [t], conf(src, True, axes, [t.cls], columns=4), 4)


def bytes_of(doms, src):
    return [src.pick(f'b{i}', d) for i, d in enumerate(doms)]


def params(repo, src, w, doms, before, binary, level):
    """Colour sequence of unknown parameter bytes; every byte must arrive in the output."""
    bs = list(b'\x1b[' + before) + bytes_of(doms, src) + list(b'm')
    x = concat(*[tk.one(b) for b in bs])
    t = tk.Tok('SGR', x)
    kw = conf(src, binary, 'c' if not binary else '', marker=level, columns=32)
    if binary: layout_binary(repo, w, [t], kw, 32)
    else:
        styled = execute(repo, [t], kw)
        w.eq('row complete', slice_(styled, unlin(L(length(styled)).add(-1)), None), '\n')


def debug(repo, src, w, kind, binary):
    t = small(src, kind, hi=2)
    lv = src.pick('debug', [1, 2, 3, 4])
    kw = conf(src, binary, '', debug=lv, columns=8)
    styled = execute(repo, [t], kw, width=80)
    w.true('ends normally', True)


def full_read(repo, src, w, units):
    """Tokens as many as a whole read can hold: the parser has to take them all."""
    unit = forced(src.pick('unit', units))
    data = unit * (4096 // len(unit))
    repo.settings(**conf(src, False, ''))
    pb, sb = repo.call(repo.get('kolombos.byteio', 'ParserBuffer')), repo.call(repo.get('kolombos.byteio.segment', 'SegmentBuffer'))
    parser = repo.call(repo.get('kolombos.byteio', 'Parser'), pb, sb, repo.call(repo.get('kolombos.byteio.template', 'TemplateRegistry')))
    repo.call(repo.attr(pb, 'append_raw'), data, False)
    repo.call(repo.attr(parser, 'parse'), 0)
    w.eq('bytes taken by the parser', repo.attr(sb, 'data_len'), len(data))


def jobs(repo, tier):
    js = []
    for k in KINDS + ['sgr1', 'ext5']:
        js.append(Job(f'text {k}', text_, k, 'mndcfix' if k not in ('CSI', 'NF', 'CSIm', 'CTL') else 'mfi', time=10))
        if k in ('SPC', 'NL', 'CTL', 'BIN', 'UTF2', 'UTFC1', 'UTF4b', 'ESC', 'SGR0', 'FE', 'sgr1', 'PRI'): js.append(Job(f'binary {k}', binary, k, 'ndcfix', time=10))
        if k in ('SPC', 'NL', 'CTL', 'BIN', 'UTF2', 'ESC', 'SGR0', 'CSI', 'PRI', 'ext5'):
            js.append(Job(f'debug text {k}', debug, k, False, time=12))
            if k in ('CTL', 'BIN', 'UTF2', 'CSI'): js.append(Job(f'debug binary {k}', debug, k, True, time=12))
    D = range(0x30, 0x3c)
    for lv in (1,):
        js += [Job(f'params 1 level {lv}', params, [D], b'', False, lv, time=15), Job(f'params 2 level {lv}', params, [D, D], b'', False, lv, time=20),
               Job(f'params 38;? level {lv}', params, [D, D], b'38;', False, lv, time=20), Job(f'params 48;5;? level {lv}', params, [D, D], b'48;5;', False, lv, time=20),
               Job(f'params 38;2;? level {lv}', params, [D], b'38;2;1;2', False, lv, time=20), Job(f'params large level {lv}', params, [D, range(0x30, 0x3a)], b'1', False, lv, time=20)]
    for pre in (b'38;5;1234567', b'48;2;70000;1;', b'99999999', b'1:' + b'9' * 30):
        js.append(Job(f'params long {pre[:12].decode()}', params, [range(0x30, 0x3a)], pre, False, 1, time=20))
    js.append(Job('full read', full_read, [b'a ', b'\n', b'\x80\xc2\x80'] if tier == 'quick' else [b'a ', b'\n', b'\x01\n', b'\x80\xc2\x80', b'\x1b7'], time=60))
    js.append(Job('params 2 binary', params, [D, D], b'', True, 0, time=20))
    if tier == 'thorough':
        for k in KINDS + ['sgr1', 'sgr2', 'ext5', 'ext2']:
            js.append(Job(f'all text {k}', text_, k, 'mndcfix', time=300))
            js.append(Job(f'all binary {k}', binary, k, 'mndcfix', time=300))
        for pre in (b'', b'38;', b'38;5;', b'48;2;', b'1;38;', b'0;'):
            js.append(Job(f'params 3 after {pre.decode()}', params, [D, D, D], pre, False, 1, max_paths=100000, time=600))
    return js
