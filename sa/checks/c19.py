"""C19: failures are reported on standard error with exit status 1, success with 0."""
from .common import *

RULE = ('on every path of a whole run: exactly one exit, with status 0 and nothing on standard error when the run completes, with status 1 after the error text went to standard error when anything fails; '
        'rows completed before the failure are written')
EXPLAIN = ('App.run is derived from the source, including the reader, parser, formatter and the top-level handler, with failures of several classes injected into opening, every read, '
           'the parser, the formatter and the auxiliary modes; the exit events and the text sent to either stream are decided on every derived path.')
BOUNDS = 'up to 3 reads; failure classes OSError (3 kinds), ValueError, RuntimeError, KeyError, MemoryError, RecursionError, UnicodeDecodeError and the errors of the application'
MIN_PROVED = 300
ERRORS = ['OSError', 'FileNotFoundError', 'IsADirectoryError', 'PermissionError', 'ValueError', 'RuntimeError', 'KeyError', 'MemoryError', 'RecursionError', 'NotImplementedError', 'TypeError', 'AssertionError', 'EOFError']


def status(codes):
    c = codes[-1] if codes else None
    return 0 if c is None else c


def finish(w, codes, evs, esc, failed, what):
    """Typestate of the end of the run."""
    w.true('error is handled', esc is None, f'{what}: {esc} escapes from the application')
    if failed:
        w.true('exit status 1 after a failure', status(codes) == 1 and len(codes) == 1, f'{what}: exit status {codes}')
        err = stream(evs, 'stderr')
        w.true('error is reported on standard error', not (isinstance(err, str) and not err.strip()), f'{what}: nothing on standard error')
        order = [ev[0] if ev[0] != 'print' else ev[2][0] for ev in evs]
        w.true('message before the exit', 'exit' in order and 'stderr' in order[:order.index('exit')], f'{what}: {order[-6:]}')
        return err
    w.true('exit status 0 after success', status(codes) == 0 and len(codes) <= 1, f'{what}: exit status {codes}')
    err = stream(evs, 'stderr')
    w.eq('nothing on standard error', err, '')


def success(repo, src, w, kinds, binary, axes, debug):
    ts = [small(src, k, f't{i}') for i, k in enumerate(kinds)]
    kw = conf(src, binary, axes, columns=16 if binary else None)
    if debug: kw['debug'] = src.int('debug', 0, 2)
    codes, evs, esc = run_app(repo, [raw_of(ts)] if ts else [], kw)
    finish(w, codes, evs, esc, False, 'complete run')




def failure(repo, src, w, binary, debug):
    """A failure while opening or in any read; lines and rows completed before are written."""
    at = forced(src.pick('fault', [('open', 0), ('read', 0), ('read', 1), ('read', 2)]))
    exc = forced(src.pick('exception', ERRORS))
    a = T(src, 'PRI', 'a', n=4) if False else tk.Tok('PRI', src.run('a', frozenset(range(0x21, 0x7f)), 4))
    b = tk.Tok('PRI', src.run('b', frozenset(range(0x21, 0x7f)), 4))
    nl = T(src, 'NL', 'nl')
    lines = [[a, nl], [b, nl]]
    kw = conf(src, binary, '', columns=5 if binary else None)
    if debug: kw['debug'] = src.int('debug', 1, 2)
    codes, evs, esc = run_app(repo, [raw_of(l) for l in lines], kw, at + (exc, ('the reason is 42',)), name='f.bin')
    err = finish(w, codes, evs, esc, True, f'{exc} in {at[0]} {at[1]}')
    if debug:
        w.true('the report tells the reason', 'the reason is 42' in plain(err), f'{exc}: {plain(err)!r} is reported')
    else:
        w.true('the report tells the reason', 'the reason is 42' in plain(err), f'{exc}: {plain(err)!r} is reported')
        w.true('the report names the error', exc in plain(err), f'{exc}: {plain(err)!r} is reported')
        done = [] if at[0] == 'open' else sum(lines[:at[1]], [])
        out = plain_rows(evs)
        if binary:
            rows = binary_rows(raw_of(done), binary_chars(repo, done, Opts(kw)), 5)
            exp = concat('', *[concat(h, '  ', c, '\n') for _, h, c in rows])
        else: exp = text_out(repo, done, Opts(kw))
        n = length(exp)
        w.eq('rows completed before the failure are written', slice_(strip_sgr(out), 0, n), exp)


def plain(err):
    e = strip_sgr(err)
    return e if isinstance(e, str) else ''


def plain_rows(evs):
    """Standard output up to the error report."""
    o = ''
    for ev in evs:
        if ev[0] == 'print':
            if ev[2][0] == 'stderr': break
            o = concat(o, ev[1])
    return o


def internal(repo, src, w, where, debug):
    """Failure inside a component."""
    from ..interp import Builtin
    mod, path = where
    exc = forced(src.pick('exception', ['ValueError', 'RuntimeError', 'KeyError', 'IndexError', 'TypeError', 'ZeroDivisionError', 'RecursionError', 'ArgumentError']))
    cls, _, meth = path.rpartition('.')
    c = repo.get(mod, cls)
    repo.get(mod, path)
    E = repo.get('kolombos', 'ArgumentError') if exc == 'ArgumentError' else exc

    def boom(a, k): repo.I.raise_(E, 'the reason is 42')
    core.touch(c)
    from ..interp import SM
    old = c.d[meth]
    c.d[meth] = SM(Builtin(meth, boom)) if isinstance(old, SM) else Builtin(meth, boom)
    try:
        codes, evs, esc = run_app(repo, [b'ab\ncd\n'], {**conf(src, False, ''), 'debug': src.int('debug', 1, 2) if debug else 0})
        err = finish(w, codes, evs, esc, True, f'{exc} in {path}')
        w.true('the report tells the reason', 'the reason is 42' in plain(err), f'{exc}: {plain(err)!r} is reported')
    finally: c.d[meth] = old


def silent(repo, src, w, binary, debug):
    """Errors that carry no message are reported by name."""
    at = forced(src.pick('fault', [('open', 0), ('read', 1)]))
    exc = forced(src.pick('exception', ERRORS))
    args = forced(src.pick('arguments', [(), ('',)]))
    codes, evs, esc = run_app(repo, [b'ab\ncd\n'], {**conf(src, binary, '', columns=4 if binary else None), 'debug': src.int('debug', 1, 2) if debug else 0}, at + (exc, args), name='f.bin')
    err = finish(w, codes, evs, esc, True, f'{exc} without a message in {at[0]} {at[1]}')
    w.true('the report names the error', exc in plain(err), f'{exc}{args}: {plain(err)!r} is reported')


def modes(repo, src, w):
    kw = forced(src.pick('mode', [('legend',), ('version',), ('demo',)]))
    codes, evs, esc = run_app(repo, [], {k: True for k in kw} | {'text': False, 'binary': False}, name=None)
    finish(w, codes, evs, esc, False, str(kw))


def jobs(repo, tier):
    js = []
    for b in (False, True):
        m = 'binary' if b else 'text'
        js += [Job(f'{m} empty', success, (), b, '', False), Job(f'{m} PRI NL', success, ('PRI', 'NL'), b, 'o', True, time=15), Job(f'{m} CTL UTF2 sgr1', success, ('CTL', 'UTF2', 'sgr1'), b, 'm', False, time=15),
               Job(f'{m} BIN CSI', success, ('BIN', 'CSI'), b, 'd', False, time=15), Job(f'{m} failure', failure, b, False, time=25), Job(f'{m} failure debug', failure, b, True, time=25)]
    for mod, p in (('kolombos.byteio', 'Parser.parse'), ('kolombos.byteio.segment', 'SegmentBuffer.attach'), ('kolombos.byteio.formatter', 'TextFormatter.format'), ('kolombos.runner', 'RunnerFactory.create'),
                   ('kolombos.byteio', 'ParserBuffer.append_raw')):
        js += [Job(f'error in {p}', internal, (mod, p), False, time=10), Job(f'error in {p} debug', internal, (mod, p), True, time=10)]
    for dbg in (False, True): js.append(Job(f'errors without a message{" debug" if dbg else ""}', silent, dbg, dbg, time=20))
    js.append(Job('modes', modes, time=25))
    if tier == 'thorough':
        for b in (False, True):
            js += [Job(f'thorough {k} {b}', success, ('PRI', k, 'NL'), b, 'mnco', True, time=60) for k in KINDS]
    return js
