"""C20: debug mode only adds diagnostics."""
from .common import *

RULE = ('non-interference: the rows, totals, exit status and the use of the input derived for debug levels 1-4 equal those derived for level 0 once diagnostics '
        '(output sent from a debug function) are left out; level 0 sends no diagnostics')
EXPLAIN = ('Two derivations of a whole run for the same abstract input and options, one without and one with a debug level; output is separated by the call path it is sent through.')
BOUNDS = 'inputs of up to 4 tokens, one or two reads; explicit row width'
MIN_PROVED = 300


def diagnostic(ev):
    """Sent by a debug function (the call path is part of the event)."""
    names = [str(x) for x in (ev[3] if len(ev) > 3 else ())]
    return any('debug' in n.lower() for n in names)


def data_rows(evs):
    return [ev[1] for ev in evs if ev[0] == 'print' and ev[2][0] == 'stdout' and not diagnostic(ev)]


def row(text):
    """(prefix without padding, rest) of an output text."""
    t = strip_sgr(text)
    pre = []
    parts = list(strs.sv(t).parts)
    for i, q in enumerate(parts):
        if isinstance(q, strs.Lit):
            p, s, r = q.v.partition('│')
            if p.strip(): pre.append(p.strip())
            if s: return tuple(pre), mk('s', ([strs.Lit(r)] if r else []) + parts[i + 1:])
        elif isinstance(q, NumP): pre.append((L(q.lin), q.base))
        else: break
    return (), t


def number(pre):
    """(notation, value) of a prefix."""
    lits = ''.join(x for x in pre if isinstance(x, str))
    nums = [x for x in pre if not isinstance(x, str)]
    hexa = lits.startswith('0x')
    if len(nums) == 1 and lits in ('', '0x'): return hexa, unlin(nums[0][0])
    if not nums:
        try: return hexa, int(lits, 16 if hexa else 10)
        except ValueError: pass
    return pre, None


def same_run(repo, src, w, kinds, binary, axes, name, limits='', cutn=None, hi=2, toks=None, **opts):
    ts = toks if toks is not None else [small(src, k, f't{i}', hi=hi) for i, k in enumerate(kinds)]
    x = raw_of(ts)
    ch = [x] if ts else []
    if cutn: ch = [slice_(x, 0, cutn), slice_(x, cutn, None)]
    kw = conf(src, binary, axes, columns=4 if binary else None, no_offsets=False, no_line_numbers=False)
    kw.update(opts)
    if 'B' in limits: kw['max_bytes'] = src.int('max_bytes', 1, 4)
    if 'L' in limits: kw['max_lines'] = src.int('max_lines', 1, 2)
    level = forced(src.pick('debug', [1, 2, 3, 4]))
    c0, e0, x0 = run_app(repo, list(ch), {**kw, 'debug': 0}, name=name)
    s0 = state(repo)
    c1, e1, x1 = run_app(repo, list(ch), {**kw, 'debug': level}, name=name)
    s1 = state(repo)
    w.true('no failure', x0 is None and x1 is None, f'{x0 or x1} escapes')
    w.true('same exit status', c0 == c1, f'exit status {c0} without, {c1} with debug level {level}: {stream(e1, "stderr")!r}')
    w.eq('same errors', stream(e1, 'stderr'), stream(e0, 'stderr'))
    noise = [ev for ev in e0 if ev[0] == 'print' and diagnostic(ev)]
    w.true('no diagnostics without debug mode', not noise, f'{noise[0][1]!r} is printed' if noise else '', noise[0][2][1:] if noise else None)
    a, b = data_rows(e0), data_rows(e1)
    ra, rb = concat('', *[row(t)[1] for t in a]), concat('', *[row(t)[1] for t in b])
    w.eq(f'same rows with a debug level', rb, ra)
    w.true('same number of rows', len(a) == len(b), f'{len(a)} and {len(b)} outputs')
    for s, t in zip(a, b):
        p, q = number(row(s)[0]), number(row(t)[0])
        if p[1] is None or q[1] is None: w.true('same offsets and line numbers', p == q, f'{p!r} and {q!r}')
        else:
            w.true('same offsets and line numbers', p[0] == q[0], f'{p!r} and {q!r}')
            w.eq('same offsets and line numbers', p[1], q[1])
    r0, r1 = reads(e0), reads(e1)
    w.eq('same input consumed', r1, r0)
    compare_settings(w, s0, s1, level)


def state(repo):
    """Values of all settings after a run."""
    s = repo.attr(repo.get('kolombos.settings', 'SettingsManager'), 'app_settings')
    return {k: v for k, v in s.d.items() if k != 'debug'}


def compare_settings(w, a, b, level):
    w.true('same settings', set(a) == set(b), f'{set(a) ^ set(b)} differs with debug level {level}')
    for k in a:
        v, x = (forced(q) if isinstance(q, FV) else q for q in (a[k], b[k]))
        if isinstance(v, (strs.SV, str, bytes, int, Lin)) and isinstance(x, (strs.SV, str, bytes, int, Lin)): w.eq(f'option {k} after the run', x, v)
        else: w.true(f'option {k} after the run', v == x or v is x, f'{x!r} with debug level {level}, {v!r} without')


def effective(repo, src, w):
    """What the options amount to (the offset column alone depends on debug mode)."""
    I = repo.I
    cls = repo.get('kolombos.settings', 'Settings')
    level = forced(src.pick('debug', [1, 2, 3, 4]))
    kw = {'marker': src.int('marker'), 'binary': src.pick('binary', TF), 'text': src.pick('text', TF)}
    for c in CLASSES: kw['ignore_' + c], kw['focus_' + c] = src.pick('ignore_' + c, TF), src.pick('focus_' + c, TF)
    cc = repo.get('kolombos.byteio.const', 'CharClass')
    got = []
    for lv in (0, level):
        s = repo.settings(debug=lv, **kw)
        got.append([repo.attr(s, p) for p in ('read_mode', 'effective_marker_details')] + [repo.call(repo.attr(s, 'get_char_class_display_mode'), m) for m in I.iter_list(cc)])
    for x, y in zip(*got): w.true('same effective settings', x is y or x == y, f'{x!r} without, {y!r} with debug level {level}')


def long_chunk(repo, src, w, kind, n, binary):
    """A read longer than any line of diagnostics."""
    same_run(repo, src, w, (), binary, '', '-', toks=[tk.Tok('PRI', kind * n)])


def detailed(repo, src, w, kinds, m): same_run(repo, src, w, kinds, False, '', '-', hi=1, marker=m)


def many_lines(repo, src, w, n):
    same_run(repo, src, w, (), False, '', '-', toks=[tk.Tok('PRI', b'\n' * n)])


def reads(evs):
    x = b''
    for ev in evs:
        if ev[0] == 'io' and ev[1][0] == 'read' and len(ev[1]) > 3: x = concat(x, ev[1][3])
    return x


def jobs(repo, tier):
    js = [Job('text empty', same_run, (), False, '', '-', time=10), Job('binary empty', same_run, (), True, '', '-', time=10)]
    for i, ks in enumerate((('PRI', 'NL', 'SPC'), ('CTL', 'NL'), ('sgr1', 'PRI'), ('UTF2', 'BIN'), ('SGR0', 'CSI'), ('NUL', 'ESC'), ('FE', 'TAB'), ('NL', 'NL', 'PRI', 'NL'), ('NF', 'DEL'), ('UTF4b', 'PRI'))):
        for b in (False, True):
            m = 'binary' if b else 'text'
            js.append(Job(f'{m} {" ".join(ks)}', same_run, ks, b, '', '-' if i % 2 else 'f', hi=1, time=8) if False else Job(f'{m} {" ".join(ks)}', same_run, ks, b, '', '-' if i % 2 else 'f', '', None, 1, time=8))
    js += [Job('text -B', same_run, ('PRI', 'NL', 'PRI'), False, '', 'f', 'B', time=8), Job('text -L', same_run, ('PRI', 'NL', 'PRI', 'NL'), False, '', '-', 'L', time=8),
           Job('binary -B', same_run, ('PRI', 'NL'), True, '', 'f', 'B', time=8), Job('binary two reads', same_run, ('UTF2', 'CSI'), True, 'd', '-', '', 1, time=8),
           Job('text two reads', same_run, ('CSI', 'PRI'), False, '', 'f', '', 1, 1, time=8), Job('text details', same_run, ('sgr1', 'CTL'), False, 'm', '-', '', None, 1, time=8)]
    js += [Job('effective settings', effective, time=15), Job('long read BIN text', long_chunk, b'\xf8', 100, False, time=10), Job('long read BIN binary', long_chunk, b'\xfa\x81', 40, True, time=10),
           Job('long read PRI', long_chunk, b'~', 300, False, time=10), Job('many lines', many_lines, 24, time=12)]
    for m in (0, 1, 2):
        for ks in (('CTL', 'SPC'), ('CSI',), ('sgr1',), ('NF', 'UTF2')): js.append(Job(f'text level {m} {" ".join(ks)}', detailed, ks, m, time=6))
    if tier == 'thorough':
        for b in (False, True):
            js += [Job(f'thorough {a} {c} {b}', same_run, ('PRI', a, 'NL', c), b, 'mncd', 'f', '', None, 1, time=100) for a in KINDS[::2] for c in KINDS[1::2]]
    return js
