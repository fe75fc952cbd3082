"""C22: auxiliary modes run as documented."""
import os

from .common import *

RULE = ('the run derived for --legend / --version / --demo (precedence in that order) reads no input and prints the packaged legend without comment lines / both packaged versions / '
        'equals the run on the packaged sample in binary mode, decoded, 16 columns, unless those options are given; any other run equals the run in the selected mode, text by default')
EXPLAIN = ('Whole runs are derived for every combination of the three mode options with an operating mode, from command lines and from settings; what they print, open and read is compared '
           'with the packaged resources, the version constants, and with a second derived run on the packaged sample with the implied options written out. The sample itself is abstract.')
BOUNDS = 'sample and input: abstract tokens of up to 4 rows'
MIN_PROVED = 150


def legend_text(repo):
    with open(os.path.join(repo.I.roots['kolombos'], 'legend.ansi'), encoding='utf-8', newline='') as f: s = f.read()
    return ''.join(l for l in s.splitlines(keepends=True) if not l.startswith('#'))


def inputs(evs):
    return [ev for ev in evs if ev[0] == 'open' or ev[0] == 'io' and ev[1][0] == 'read']


def plain(x):
    x = norm(x)
    return norm(strip_sgr(x)) if not isinstance(x, str) else __import__('re').sub('\x1b\\[[0-9;]*m', '', x)


def check_legend(repo, w, evs):
    out = norm(stream(evs, 'stdout'))
    wh = next((ev[2][1:] for ev in evs if ev[0] == 'print'), None)
    exp = legend_text(repo)
    if not isinstance(out, str): raise Undecided('legend output')
    n = next((i for i, (a, b) in enumerate(zip(out, exp)) if a != b), min(len(out), len(exp)))
    w.true('legend: every line shown, comments left out', out[:len(exp)] == exp, f'output and packaged legend differ at character {n}: {out[n:n + 30]!r} instead of {exp[n:n + 30]!r}', wh)
    w.true('legend: nothing else shown', not out[len(exp):].strip(), f'{out[len(exp):][:60]!r} after the legend', wh)


def check_version(repo, w, evs):
    out = plain(stream(evs, 'stdout'))
    if not isinstance(out, str): raise Undecided('version output')
    wh = next((ev[2][1:] for ev in evs if ev[0] == 'print'), None)
    for name, mod in (('kolombos', 'kolombos.version'), ('pytermor', 'pytermor')):
        v = norm(repo.get(mod, '__version__'))
        lines = [l for l in out.splitlines() if name in l]
        w.true(f'version of {name} shown', any(v in l.split() or v in l.replace('v' + v, v).split() for l in lines), f'no line with {name} and {v} in {out!r}', wh)


def packaged(repo, src, w):
    v = norm(repo.get('kolombos.version', '__version__'))
    try:
        with open(os.path.join(os.path.dirname(repo.I.roots['kolombos']), 'setup.cfg')) as f: m = __import__('re').search(r'(?m)^version\s*=\s*([\w.]+)\s*$', f.read())
    except OSError: m = None
    if m: w.true('the version constant is the version of the package', v == m.group(1), f'{v!r} in the source, {m.group(1)!r} in setup.cfg')


def check_demo(repo, w, evs, ch, kw):
    path = [ev[1][0] for ev in evs if ev[0] == 'open']
    wh = next((ev[2] for ev in evs if ev[0] == 'open'), None)
    w.true('demo: the packaged sample is opened', len(path) == 1 and isinstance(path[0], str) and path[0].endswith(os.path.join('kolombos', 'demo.bin')), f'opened: {path}', wh)
    full = {k: v for k, v in kw.items() if k not in ('demo', 'legend', 'version')}
    if not full.get('text'): full['binary'] = True
    if full.get('decode') is None: full['decode'] = True
    if full.get('columns') is None: full['columns'] = 16
    _, e2, _ = run_app(repo, list(ch), full, name=path[0] if path else 'x')
    a, b = stream(evs, 'stdout'), stream(e2, 'stdout')
    n = unlin(lsub(length(b), 1))        # both end with the empty line of the exit
    w.true('demo: the whole sample is shown', le(n, length(a)), 'less output than for the sample', print_where(P()))
    w.eq('demo: binary mode, decoded, 16 columns unless given', slice_(a, 0, n), slice_(b, 0, n), print_where(P()))
    w.eq('demo: same errors', stream(evs, 'stderr'), stream(e2, 'stderr'))


def data(src):
    ts = [small(src, 'UTF2', 'u'), T(src, 'PRI', n=9, name='p'), small(src, 'CTL', 'c', hi=1), T(src, 'SPC', n=6, name='s'), T(src, 'NL')]
    return [raw_of(ts)]


def modes(repo, src, w, which):
    kw = dict(which)
    m = forced(src.pick('mode', ['', 'text', 'binary']))
    if m: kw[m] = True
    ch = data(src)
    codes, evs, esc = run_app(repo, ch, kw, name=None if kw.get('demo') else '-')
    w.true('successful', codes == [0] and esc is None, f'exit status {codes}, {esc}: {stream(evs, "stderr")!r}')
    if kw.get('legend') or kw.get('version'):
        ins = inputs(evs)
        w.true('no input is read', not ins, f'{ins[0] if ins else ""}')
        (check_legend if kw.get('legend') else check_version)(repo, w, evs)
    elif kw.get('demo'): check_demo(repo, w, evs, ch, kw)


NOISE = [()] + [((f'{a}_{c}', True),) for a in ('focus', 'ignore') for c in CLASSES] + [((k, True),) for k in ('no_separators', 'color_markers', 'decimal_offsets', 'no_line_numbers', 'no_offsets')] + [
    (('marker', 2),), (('max_lines', 1),), (('max_bytes', 3),)]


def demo(repo, src, w, col, dec, mode, axes):
    kw = {'demo': True}
    if col is not None: kw['columns'] = src.int('columns', 0, 40) if col == 'any' else col
    if dec is not None: kw['decode'] = dec
    if mode: kw[mode] = True
    if 'o' in axes: kw['no_offsets'] = True
    if 'B' in axes: kw['max_bytes'] = 5
    if 'm' in axes: kw['marker'] = 1
    if 'n' in axes: kw.update(forced(src.pick('other option', NOISE)))
    ch = [b'\xd0\xb6 ab\x1b[1;32mc\x00\n\xff\t0123456789\x1b(B\r'] if 'n' in axes else data(src)
    codes, evs, esc = run_app(repo, ch, kw, name=None)
    w.true('successful', codes == [0] and esc is None, f'exit status {codes}, {esc}: {stream(evs, "stderr")!r}')
    check_demo(repo, w, evs, ch, kw)


def processing(repo, src, w, mode, name):
    """No auxiliary option: the input is processed in the selected mode, text by default."""
    ch = data(src)
    kw = {mode: True} if mode else {}
    if mode == 'binary': kw['columns'] = 8
    codes, evs, esc = run_app(repo, list(ch), kw, name=name)
    w.true('successful', codes == [0] and esc is None, f'exit status {codes}, {esc}: {stream(evs, "stderr")!r}')
    o = [ev[1][0] for ev in evs if ev[0] == 'open']
    w.true('the given file is processed', o == ([name] if name not in (None, '-') else []), f'opened: {o}')
    r = b''
    for ev in evs:
        if ev[0] == 'io' and ev[1][0] == 'read': r = concat(r, ev[1][3])
    w.eq('the input is read', r, ch[0])
    out = strip_sgr(stream(evs, 'stdout'))
    tx = strip_sgr(stream(run_app(repo, list(ch), {'text': True, **kw, 'binary': False} if mode != 'binary' else {'binary': True, 'text': False, **kw}, name=name)[1], 'stdout'))
    w.eq('selected mode (text by default)', out, tx, print_where(P()))
    rows = sum(1 for q in strs.sv(norm(out)).parts if isinstance(q, strs.Lit) for c in q.v if c == '\n') - 1     # the exit prints one
    w.true('mode of the display', rows == (4 if mode == 'binary' else 1), f'{rows} rows', print_where(P()))


def command(repo, src, w, argv, exp):
    """The same through the command line."""
    ch = data(src)
    codes, evs, esc = run_app(repo, ch, {}, name=None, argv=argv)
    w.true('successful', codes == [0] and esc is None, f'exit status {codes}, {esc}: {stream(evs, "stderr")!r}')
    if exp == 'legend': check_legend(repo, w, evs)
    elif exp == 'version': check_version(repo, w, evs)
    else: check_demo(repo, w, evs, ch, exp)


def jobs(repo, tier):
    js = [Job('packaged version', packaged)]
    A = ('legend', 'version', 'demo')
    for i in range(1, 8):
        ks = [k for j, k in enumerate(A) if i >> j & 1]
        js.append(Job('mode ' + ' '.join(ks), modes, {k: True for k in ks}, time=15))
    for col in (None, 0, 1, 8, 'any'):
        js.append(Job(f'demo columns {col}', demo, col, None, '', 'o' if col else '', time=12))
    for dec in (True, False): js.append(Job(f'demo decode {dec}', demo, None, dec, '', '', time=12))
    js += [Job('demo text', demo, None, None, 'text', 'm', time=12), Job('demo text undecoded', demo, 5, False, 'text', '', time=12), Job('demo binary limit', demo, None, None, 'binary', 'B', time=12)]
    for m in ('', 'text', 'binary'): js.append(Job(f'demo {m} with other options', demo, None, None, m, 'n', time=20))
    for m in ('', 'text', 'binary'):
        for n in ('-', 'f.txt'): js.append(Job(f'processing {m or "default"} {n}', processing, m, n, time=12))
    for argv, exp in ((['-l'], 'legend'), (['--legend'], 'legend'), (['-v'], 'version'), (['--version'], 'version'), (['-M'], {}), (['--demo'], {}), (['-M', '-w', '8'], {'columns': 8}),
                      (['--demo', '--columns=0'], {'columns': 0}), (['-M', '-t'], {'text': True}), (['-M', '-d'], {'decode': True}), (['-M', '-b', '-w32'], {'binary': True, 'columns': 32})):
        js.append(Job('command ' + ' '.join(argv), command, argv, exp if isinstance(exp, str) else {'demo': True, **exp}, time=12))
    return js
