"""C02: classification of unknown bytes against the documented grammar."""
from .common import *

RULE = ('for every combination of unknown bytes the derived text-mode display must show the markers of the documented token classes '
        '(reference lexer of ECMA-48 / RFC 3629 applied to the same abstract bytes)')
EXPLAIN = ('Inputs are sequences of completely unknown bytes (finite-domain values over 0..255, partitioned by the tests of the analysed regular '
           'expressions) and of abstract tokens with unbounded runs; the derived display is compared with the display required by a reference lexer.')
BOUNDS = 'sequences of up to 4 unknown bytes (leading byte constrained per scenario); token runs are unbounded'
MIN_PROVED = 200


def raw(repo, src, w, doms, before, after):
    bs = list(before) + [src.pick(f'b{i}', d) for i, d in enumerate(doms)] + list(after)
    kw = conf(src, False, '', marker=0)
    o = Opts(kw)
    styled = execute(repo, [], kw, [concat(b'', *[tk.one(b) for b in bs])])
    toks = tk.lex(bs)
    w.eq('markers of the documented classes', strip_sgr(styled), text_out(repo, toks, o))


def kinds(repo, src, w, ks):
    ts = [token(src, k, f't{i}', hi=3) if k in ESCK and len(ks) > 1 else token(src, k, f't{i}') for i, k in enumerate(ks)]
    check_text(repo, w, ts, conf(src, False, '', marker=0), 'markers of ' + ' '.join(ks))


A = range(256)
HI = range(0x80, 0x100)


def jobs(repo, tier):
    js = [Job('any 1', raw, [A], b'', b''), Job('any 2', raw, [A, A], b'', b'', time=60), Job('printable any 1', raw, [A], b'a', b'z'),
          Job('high any any', raw, [range(0x80, 0xf0), A, A], b'', b'', time=60),
          Job('E0-EF any any then printable', raw, [range(0xe0, 0xf0), HI, HI], b'', b'z', time=60),
          Job('F0-FF any high high', raw, [range(0xf0, 0x100), A, HI, HI], b'', b'', time=60),
          Job('F0-FF high high any', raw, [range(0xf0, 0x100), HI, HI, A], b'', b'', time=60),
          Job('F0-FF any any any', raw, [range(0xf0, 0x100), A, A, A], b'', b'', time=60 if tier == 'quick' else 600),
          Job('invalid then lead', raw, [[*range(0x80, 0xc2), *range(0xf5, 0x100)], range(0xc0, 0xf0), A], b'', b'', time=60),
          Job('ESC any', raw, [A], b'\x1b', b''), Job('ESC any any', raw, [A, A], b'\x1b', b'', time=60),
          Job('ESC 20-2f any any', raw, [range(0x20, 0x30), A, A], b'\x1b', b'', time=60),
          Job('CSI any', raw, [A], b'\x1b[', b''), Job('CSI any any', raw, [A, A], b'\x1b[', b'', time=60),
          Job('CSI 30-3f any any', raw, [range(0x30, 0x40), A, A], b'\x1b[', b'', time=60),
          Job('CSI 20-2f any any', raw, [range(0x20, 0x30), A, A], b'\x1b[', b'', time=60),
          Job('CSI any m', raw, [range(0x20, 0x80)], b'\x1b[', b'm', time=60), Job('CSI any any m', raw, [range(0x20, 0x40)] * 2, b'\x1b[', b'm', time=60),
          Job('ESC ESC any any', raw, [A, A], b'\x1b\x1b', b'', time=60),
          Job('CSI digit any m', raw, [range(0x20, 0x40)], b'\x1b[1', b'm', time=60)]
    for k in KINDS: js.append(Job(f'kind {k}', kinds, (k,), time=30))
    for k in SGRS: js.append(Job(f'kind {k}', kinds, (k,), time=30))
    for p in (('PRI', 'SPC', 'PRI'), ('BIN', 'UTF2', 'BIN'), ('CTL', 'NUL', 'CTL'), ('BIN', 'PRI', 'UTF3b'), ('ESC', 'ESC', 'CTL'), ('CSI', 'PRI'), ('NF', 'BIN'),
              ('TAB', 'CR', 'NL'), ('UTF4b', 'UTF2a', 'UTF3a'), ('VT', 'FF', 'BS', 'DEL'), ('BIN', 'UTF4a', 'BIN'), ('sgr1', 'PRI'), ('ESC', 'NUL'), ('ESC', 'UTF2')):
        js.append(Job('kinds ' + ' '.join(p), kinds, p, time=40))
    if tier == 'thorough':
        js += [Job('any 3', raw, [A, A, A], b'', b'', max_paths=100000, time=850), Job('ESC any any any', raw, [A, A, A], b'\x1b', b'', max_paths=100000, time=850),
               Job('CSI any any any', raw, [A, A, A], b'\x1b[', b'', max_paths=100000, time=850),
               Job('high high high any', raw, [HI, HI, HI, A], b'', b'', max_paths=100000, time=850)]
        for a in KINDS:
            for b in KINDS:
                js.append(Job(f'kinds {a} {b}', kinds, (a, b), time=60))
    return js
