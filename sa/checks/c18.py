"""C18: command-line options reach the settings they document."""
import ast

from .common import *
from ..interp import AExc, Builtin, SM, AList, Func, Prop
from .. import argp

RULE = ('constant propagation through the option table: the settings left after the command line is processed differ from the documented defaults exactly as the options given document, '
        'contradictory options are rejected, and every setting read by the code has an option')
EXPLAIN = ('The construction of the argument parser and the handling of the command line are derived from the source with a model of argparse; the resulting settings are compared '
           'with the documentation (README, help) for every option, long and short, symbolic option values, every pair of options, and the no-option case. '
           'A query over the syntax tree collects the settings that the code reads.')
BOUNDS = 'command lines of up to two options (three in the thorough tier) plus a file name'
MIN_PROVED = 1000
ASSUME = ['argparse behaves as documented (modelled: store, store_true, count, nargs=?, mutually exclusive groups, abbreviations)']

FLAGS = [('-t', '--text', 'text'), ('-b', '--binary', 'binary'), ('-l', '--legend', 'legend'), ('-v', '--version', 'version'), ('-M', '--demo', 'demo'),
         ('-d', '--decode', 'decode'), (None, '--color-markers', 'color_markers'), (None, '--no-separators', 'no_separators'), (None, '--no-line-numbers', 'no_line_numbers'),
         (None, '--decimal-offsets', 'decimal_offsets'), (None, '--no-offsets', 'no_offsets')]
for low, up, n in (('s', 'S', 'space'), ('c', 'C', 'control'), ('p', 'P', 'printable'), ('e', 'E', 'esc'), ('u', 'U', 'utf8'), ('i', 'I', 'binary')):
    FLAGS += [('-' + low, '--focus-' + n, 'focus_' + n), ('-' + up, '--ignore-' + n, 'ignore_' + n)]
VALUES = [('-f', '--buffer', 'buffer'), ('-L', '--max-lines', 'max_lines'), ('-B', '--max-bytes', 'max_bytes'), ('-m', '--marker', 'marker'), ('-w', '--columns', 'columns')]
DESTS = [d for *_, d in FLAGS + VALUES] + ['debug', 'filename']
CLASH = [{'focus_' + n, 'ignore_' + n} for n in CLASSES] + [{'text', 'binary'}, {'decimal_offsets', 'no_offsets'}, {'filename', 'demo'}]
UNSPEC = [{'text', 'legend'}, {'binary', 'legend'}]        # neither documented as contradictory nor as compatible
OPTION = {}
for s, l, d in FLAGS:
    for o in (s, l):
        if o: OPTION[o] = (d, True)


class Stop(Exception):
    pass


def command_line(repo, argv):
    """Settings after the application has processed argv, or ('exit', code)."""
    I, lib = repo.I, repo.lib
    lib.handling.clear()
    core.P().memo['termwidth'] = 80
    lib.parse_args_hook = lambda parser, ns, args: argp.parse(I, parser, ns, argv if args is None else I.iter_list(args))
    fac = repo.get('kolombos.runner', 'RunnerFactory')
    repo.get('kolombos.runner', 'RunnerFactory.create')

    def stop(a, k): raise Stop()
    core.touch(fac)
    old = fac.d['create']
    fac.d['create'] = SM(Builtin('create', stop))
    n = len(P().events)
    app = repo.call(repo.get('kolombos.app', 'App'))
    try: repo.call(repo.attr(app, 'run'))
    except Stop: return repo.attr(repo.get('kolombos.settings', 'SettingsManager'), 'app_settings')
    except AExc as e:
        if e.value.cls.name != 'SystemExit': raise
        codes = [ev[1] for ev in P().events[n:] if ev[0] == 'exit']
        return ('exit', codes[-1] if codes else None)
    finally:
        fac.d['create'] = old
        I.stack.clear()
    raise Undecided('the run did not reach the choice of a mode')


def falsy(v):
    v = forced(v) if isinstance(v, FV) else v
    return v is None or v is False or isinstance(v, int) and v == 0 or v == ''


def state(repo, s): return {d: repo.attr(s, d) for d in DESTS}


def compare(w, repo, s, exp, what):
    """exp: dest -> value of the options given; all others keep their documented defaults (off, 0, none)."""
    w.true('command line accepted', not isinstance(s, tuple), f'{what} is rejected ({s})')
    for d, v in state(repo, s).items():
        if d in exp:
            e = exp[d]
            if isinstance(e, bool): w.true(f'option sets {d}', v is True, f'{what}: {d} = {v!r}, {e!r} is documented')
            else: w.eq(f'option sets {d}', v, e)
        else: w.true(f'{d} keeps its default', falsy(v), f'{what}: {d} = {v!r} though it is not given')
    rm = repo.attr(s, 'read_mode')
    want = 'BINARY' if exp.get('binary') else 'TEXT'
    w.true('mode', rm is repo.attr(repo.get('kolombos.byteio', 'ReadMode'), want), f'{what}: mode {rm!r}')


def single(repo, src, w):
    o = forced(src.pick('option', sorted(OPTION)))
    compare(w, repo, command_line(repo, [o]), dict([OPTION[o]]), o)


def none(repo, src, w):
    compare(w, repo, command_line(repo, []), {}, 'no options')
    name = forced(src.pick('name', ['-', 'x', 'a b', 'f.txt', '/p/q', '-1']))
    compare(w, repo, command_line(repo, [name]), {'filename': name}, f'{name!r}')
    compare(w, repo, command_line(repo, ['--', '-b']), {'filename': '-b'}, '-- -b')


def valued(repo, src, w, form):
    s, l, d = forced(src.pick('option', VALUES))
    n = src.int('n', 0)
    text = mk('s', [NumP(n, 'd', 0)]) if not isinstance(n, int) else str(n)
    o = s if 'short' in form else l
    got = command_line(repo, [o, text])
    compare(w, repo, got, {d: n}, f'{o} <n>')


def attached(repo, src, w):
    s, l, d = forced(src.pick('option', VALUES))
    n = forced(src.pick('n', [0, 1, 2, 16, 300, 4096]))
    form = forced(src.pick('form', ['{s}{n}', '{l}={n}', '{s}={n}']))
    a = form.format(s=s, l=l, n=n)
    compare(w, repo, command_line(repo, [a]), {d: n}, a)


def bad(repo, src, w):
    """A value that is not a number, an unknown option, a second file."""
    a = forced(src.pick('argv', [('-f', 'x'), ('-L', '1.5'), ('-B', ''), ('-m', 'a'), ('-w', '1k'), ('-f',), ('--max-bytes',), ('-z',), ('--nothing',), ('a', 'b'), ('-x', 'a'), ('-b', '-t'), ('--focus', '1')]))
    got = command_line(repo, list(a))
    w.true('invalid command line is rejected', isinstance(got, tuple) and got[1] not in (0, None), f'{a} is accepted')


def debug(repo, src, w):
    k = forced(src.pick('levels', [1, 2, 3, 4]))
    form = forced(src.pick('form', [('-' + 'D' * k,), ('-D',) * k, ('--debug',) * k]))
    compare(w, repo, command_line(repo, list(form)), {'debug': k}, f'{form}')


def several(repo, src, w, first, n):
    """Options together: rejected when contradictory, otherwise each has its effect."""
    opts = [first]
    pool = sorted(l for _, l, _ in FLAGS) + ['--buffer', '--max-lines', '--max-bytes', '--marker', '--columns', 'FILE', '--debug']
    for i in range(n - 1): opts.append(forced(src.pick(f'o{i}', pool)))
    if len(set(opts)) < len(opts): return
    exp, argv = {}, []
    for i, o in enumerate(opts):
        if o == 'FILE':
            exp['filename'] = 'some file'
            argv.append('some file')
        elif o == '--debug':
            exp['debug'] = 1
            argv.append(o)
        elif o in OPTION:
            exp[OPTION[o][0]] = True
            argv.append(o)
        else:
            exp[o[2:].replace('-', '_')] = 7 + i
            argv += [o, str(7 + i)]
    got = command_line(repo, argv)
    given = set(exp)
    if any(c <= given for c in CLASH):
        w.true('contradictory options are rejected', isinstance(got, tuple) and got[1] not in (0, None), f'{argv} is accepted')
    elif any(c <= given for c in UNSPEC): return
    else: compare(w, repo, got, exp, ' '.join(argv))


def buffer_size(repo, src, w, name):
    """Documented read size: 4096, 128 in debug mode, or the size given."""
    sizes = []
    lib = repo.lib
    lib.handling.clear()
    kind = forced(src.pick('kind', ['default', 'debug', 'given']))
    kw = {'filename': name, 'debug': src.int('debug', 1, 4) if kind == 'debug' else 0, 'buffer': src.int('buffer', 1) if kind == 'given' else forced(src.pick('no_buffer', [None, 0]))}
    if kind == 'given': kw['debug'] = src.int('debug', 0, 4)
    repo.settings(**kw)
    core.P().memo['termwidth'] = 80

    def rd(o, n):
        sizes.append(n)
        return b''
    lib.io_read = rd
    lib.open_hook = lambda nm, mode: repo.file_of(nm)
    repo.I.setattr_(repo.I.getattr_(lib.stdin, 'buffer'), 'closed', False)
    reader = repo.call(repo.get('kolombos.byteio', 'Reader'), name, Builtin('callback', lambda a, k: None))
    repo.call(repo.attr(reader, 'read'))
    w.true('input is read', len(sizes) > 0)
    for n in sizes: w.eq('read size', n, {'default': 4096, 'debug': 128, 'given': kw['buffer']}[kind])


def read_settings(repo, src, w):
    """Every setting that the code reads can be set by an option or is assigned by the code itself."""
    sets = repo.get('kolombos.settings', 'Settings')
    own, reads, assigned = set(), {}, set()
    for mod in repo.I.mods.values():
        if not mod.file or not mod.name.startswith('kolombos'): continue
        tree = ast.parse(open(mod.file, encoding='utf-8').read())
        for cls in ast.walk(tree):
            if isinstance(cls, ast.ClassDef) and mod.name == 'kolombos.settings' and cls.name == sets.name:
                for f in cls.body:
                    if isinstance(f, ast.FunctionDef) and f.name == '__init__':
                        for x in ast.walk(f):
                            if isinstance(x, ast.Attribute) and isinstance(x.ctx, ast.Store) and isinstance(x.value, ast.Name) and x.value.id == f.args.args[0].arg:
                                own.add(x.attr)
                                x._own = True
        for x in ast.walk(tree):
            if not isinstance(x, ast.Attribute) or getattr(x, '_own', False): continue
            base = ast.unparse(x.value)
            if isinstance(x.ctx, ast.Load) and (base.endswith('app_settings') or base in ('self', 'aps', 'settings') and mod.name == 'kolombos.settings' or base == 'aps'):
                reads.setdefault(x.attr, (mod.file, x.lineno, mod.name))
            elif isinstance(x.ctx, ast.Store): assigned.add(x.attr)
    own = {a for a in own if not a.startswith('_')}
    w.true('settings found', len(own) >= 20 and len(reads) >= 10, f'{len(own)} settings, {len(reads)} read')
    P().memo['termwidth'] = 80
    parser = repo.call(repo.get('kolombos', 'AppArgumentParser'))
    dests = {a.dest for a in argp.actions(parser)[0]}
    for a in sorted(own):
        if a in reads: w.true('setting has an option', a in dests or a in assigned, f'{a} is read but no option sets it', reads[a])
    for n in CLASSES:
        for p in ('focus_', 'ignore_'): w.true('setting has an option', p + n in dests, f'{p}{n} has no option')
    for s, l, d in FLAGS + VALUES + [('-D', '--debug', 'debug')]:
        w.true('documented option has a setting', d in own, f'{l}: no setting {d}')


def jobs(repo, tier):
    js = [Job('single options', single, time=20), Job('none', none, time=10), Job('short value', valued, 'short', time=10), Job('long value', valued, 'long', time=10), Job('attached values', attached, time=15),
          Job('invalid', bad, time=10), Job('debug levels', debug, time=15), Job('read size', buffer_size, '-', time=10), Job('read size of a file', buffer_size, 'f', time=10), Job('settings read', read_settings, time=10)]
    firsts = sorted(l for _, l, _ in FLAGS) + ['--buffer', '--max-lines', '--max-bytes', '--marker', '--columns', 'FILE', '--debug']
    js += [Job(f'{f} and another', several, f, 2, time=20) for f in firsts]
    if tier == 'thorough': js += [Job(f'{f} and two others', several, f, 3, time=200) for f in firsts]
    return js
