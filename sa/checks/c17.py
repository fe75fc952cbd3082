"""C17: input is delivered in order, ended once and always closed."""
from .common import *
from .c16 import expected, split_reads
from ..interp import AExc, Builtin

RULE = ('on every path through the reader: deliveries are consecutive, each with the offset of its first byte, an end-of-input delivery comes once and last, '
        'the file is opened for binary reading exactly once and closed on every exit')
EXPLAIN = ('The reader is derived with a recording delivery callback for reads of symbolic sizes and symbolic limits, every file name class and every exit (end of input, limit, '
           'interrupt or error in any read or delivery); typestate of the input object (open, read*, close) and of the deliveries is decided on every derived path.')
BOUNDS = 'up to 3 reads; faults at every read and delivery of those'
MIN_PROVED = 300


def drive(repo, src, chunks, kw, fault=None, name='-', debug=False):
    """-> (deliveries, events of the input object, exception class name or None)"""
    I, lib = repo.I, repo.lib
    lib.handling.clear()
    repo.settings(filename=name, **kw)
    it = list(chunks)
    log, got = [], []
    count = {'read': 0, 'callback': 0}

    def step(what):
        i = count[what]
        count[what] += 1
        if fault and fault[0] == what and fault[1] == i:
            log.append(('fault', what))
            I.raise_(fault[2], 'fault')

    def rd(o, n):
        step('read')
        log.append(('read', o))
        if not it: return b''
        x = it.pop(0)
        if n is None or isinstance(n, int) and (n < 0 or n >= 128) or core.le(length(x), n): return x
        it.insert(0, slice_(x, n, None))
        return slice_(x, 0, n)

    def opener(nm, mode):
        log.append(('open', nm, mode))
        if fault and fault[0] == 'open': I.raise_(fault[2], 'fault')
        return repo.file_of(nm)

    def deliver(a, k):
        vals = list(a) + [None] * (3 - len(a))
        for j, key in enumerate(('raw_input', 'offset', 'finish')):
            if vals[j] is None and key in k: vals[j] = k[key]
        if any(v is None for v in vals): raise core.Unsupported('delivery protocol')
        step('callback')
        got.append(tuple(vals))
        log.append(('deliver',))
    lib.io_read, lib.open_hook = rd, opener
    sb = I.getattr_(lib.stdin, 'buffer')
    I.setattr_(sb, 'closed', False)
    start = len(P().events)
    err = None
    reader = repo.call(repo.get('kolombos.byteio', 'Reader'), name, Builtin('callback', deliver))
    try: repo.call(repo.attr(reader, 'read'))
    except AExc as e: err = e.value.cls.name if hasattr(e.value, 'cls') else str(e.value)
    for ev in P().events[start:]:
        if ev[0] == 'io' and ev[1][0] == 'close': log.append(('close', ev[1][1]))
    return got, log, err, sb


def check_input(w, log, sb, name, wh):
    opens = [e for e in log if e[0] == 'open']
    reads = [e for e in log if e[0] == 'read']
    closes = [e for e in log if e[0] == 'close']
    if name in (None, '', '-'):
        w.true('standard input is read when no name is given', not opens and all(e[1] is sb for e in reads), f'{log}', wh)
        obj = sb
    else:
        w.true('the named file is opened once', len(opens) == 1 and isinstance(opens[0][1], type(name)) and opens[0][1] == name, f'{opens}', wh)
        w.true('opened for binary reading only', opens[0][2] in ('rb', 'br'), f'mode {opens[0][2]!r}', wh)
        if len(reads) and not all(e[1] is reads[0][1] and e[1] is not sb for e in reads): w.true('reads come from the opened file', False, str(log), wh)
        obj = reads[0][1] if reads else None
    if obj is not None:
        w.true('closed on exit', obj.d.get('closed') is True and any(e[1] is obj for e in closes), f'input left open after {[e[0] for e in log]}', wh)
    w.true('opened file is used', bool(reads) or any(e[0] == 'fault' for e in log), '', wh)


def deliveries(w, got, wh, complete=True):
    at = 0
    for i, (d, off, fin) in enumerate(got):
        w.eq('offset of the first byte', off, at, wh)
        f = forced(fin) if isinstance(fin, FV) else fin
        last = i == len(got) - 1
        if complete: w.true('end of input is signalled once, last', bool(f) == last, f'delivery {i + 1} of {len(got)} has finish={f}', wh)
        else: w.true('nothing follows the end of input', last or not f, f'delivery {i + 1} of {len(got)} has finish={f}', wh)
        at = unlin(L(at).add(L(length(d))))
    if complete: w.true('end of input is signalled once, last', len(got) > 0, 'no delivery at all', wh)
    return concat(b'', *[d for d, _, _ in got])




def plain(repo, src, w, kinds, limits, reads, name):
    ts = [token(src, k, f't{i}', hi=3) if k in RUNS and reads > 1 else token(src, k, f't{i}') for i, k in enumerate(kinds)]
    x = raw_of(ts)
    ch = split_reads(src, x, reads) if reads else []
    if ch is None: return
    kw = {}
    if 'B' in limits: kw['max_bytes'] = src.int('max_bytes', 0)
    if 'L' in limits: kw['max_lines'] = src.int('max_lines', 0)
    if 'f' in limits: kw['buffer'] = src.int('buffer', 1)
    got, log, err, sb = drive(repo, src, ch, kw, None, name)
    w.true('no error', err is None, f'{err} raised')
    check_input(w, log, sb, name, None)
    data = deliveries(w, got, None)
    k = expected(ts, kw.get('max_bytes'), kw.get('max_lines')) if reads else 0
    w.eq('consecutive chunks of the input', data, slice_(x, 0, k) if reads else b'')


def names(repo, src, w):
    name = forced(src.pick('name', [None, '', '-', 'a', '--', 'file name', '-a', '/x/y', '0', ' ', ' -', '\n']))
    got, log, err, sb = drive(repo, src, [b'ab'], {}, None, name)
    w.true('no error', err is None, f'{err} raised')
    check_input(w, log, sb, name, None)
    w.eq('consecutive chunks of the input', deliveries(w, got, None), b'ab')


def faults(repo, src, w, name, n):
    """Interrupt or error at every read and every delivery."""
    at = forced(src.pick('fault', [('open', 0)] * (name != '-') + [(k, i) for k in ('read', 'callback') for i in range(n + 1)]))
    exc = forced(src.pick('exception', ['KeyboardInterrupt', 'OSError', 'RuntimeError', 'ValueError', 'EOFError']))
    x = src.run('data', frozenset(range(256)), 2 * n)
    ch = [slice_(x, 2 * i, 2 * i + 2) for i in range(n)]
    B = src.int('max_bytes', 0)
    got, log, err, sb = drive(repo, src, ch, {'max_bytes': B}, at + (exc,), name)
    hit = any(e[0] == 'fault' for e in log) or at[0] == 'open'
    if at[0] != 'open': check_input(w, log, sb, name, None)
    if hit and exc != 'KeyboardInterrupt': w.true('errors are not discarded', err == exc, f'{exc} in {at[0]} became {err}')
    elif hit and at[0] != 'open' or not hit: w.true('no other error', err is None, f'{err} raised')
    deliveries(w, got, None, complete=not hit)


def jobs(repo, tier):
    js = [Job('names', names, time=10)]
    for nm in ('-', 'f.bin'):
        js += [Job(f'{nm}: empty input', plain, (), '', 0, nm), Job(f'{nm}: one read', plain, ('PRI',), '', 1, nm), Job(f'{nm}: three reads', plain, ('PRI', 'NL', 'BIN'), '', 3, nm),
               Job(f'{nm}: three reads -B', plain, ('PRI',), 'B', 3, nm, time=15), Job(f'{nm}: one read -B -L', plain, ('PRI', 'NL', 'PRI', 'NL'), 'BL', 1, nm, time=15),
               Job(f'{nm}: three reads -L', plain, ('PRI', 'NL', 'BIN', 'NL'), 'L', 3, nm, time=15), Job(f'{nm}: any buffer', plain, ('PRI',), 'f', 2, nm, time=15)]
        js += [Job(f'{nm}: faults in {n} reads', faults, nm, n, time=20) for n in (1, 2, 3)]
    if tier == 'thorough':
        for r in (1, 2, 3):
            js += [Job(f'thorough {r} reads {l}', plain, ks, l, r, 'f', time=120) for l in ('B', 'L', 'BL', 'BLf') for ks in (('NL', 'PRI', 'NL'), ('PRI', 'NL', 'UTF2', 'NL', 'BIN'))]
        js.append(Job('thorough faults', faults, '-', 6, time=200))
    return js
