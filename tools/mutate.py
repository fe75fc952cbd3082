#!/usr/bin/env python3
"""Mutation campaign (development aid, not a check): small syntactic mutants of kolombos and pytermor that pass the
stable tests, sorted by whether they differ from the original on a corpus of command lines, each run against the checks.

usage: mutate.py gen OUTDIR [--every N] [--offset K] [--files substr]   writes OUTDIR/list.jsonl (survivors of the tests, with 'differs')
       mutate.py check OUTDIR [-c C01,C02] [--all]                      runs checks (fastest first, stops at the first alarm)
"""
import ast, concurrent.futures as cf, hashlib, json, os, shutil, subprocess, sys, tempfile, time

REPO = '/repo'
PY = '/opt/venv/bin/python'
CMP = {ast.Lt: '<=', ast.LtE: '<', ast.Gt: '>=', ast.GtE: '>', ast.Eq: '!=', ast.NotEq: '==', ast.Is: 'is not', ast.IsNot: 'is', ast.In: 'not in', ast.NotIn: 'in'}
BIN = {ast.Add: '-', ast.Sub: '+', ast.Mult: '+', ast.FloorDiv: '%', ast.Mod: '//', ast.Div: '*', ast.BitOr: '&', ast.BitAnd: '|', ast.LShift: '>>', ast.RShift: '<<'}


def offsets(src):
    out, p = [0], 0
    for line in src.encode().splitlines(True):
        p += len(line); out.append(p)
    return out


def mutants(path):
    src = open(path).read(); raw = src.encode(); tree = ast.parse(src); off = offsets(src)
    span = lambda n: (off[n.lineno - 1] + n.col_offset, off[n.end_lineno - 1] + n.end_col_offset)
    text = lambda n: raw[slice(*span(n))].decode()
    skip = set(); parent = {}
    for n in ast.walk(tree):
        for c in ast.iter_child_nodes(n): parent[c] = n
        if isinstance(n, (ast.FunctionDef, ast.ClassDef, ast.Module)) and n.body and isinstance(n.body[0], ast.Expr) and isinstance(n.body[0].value, ast.Constant):
            skip.add(n.body[0]); skip.add(n.body[0].value)
        if isinstance(n, (ast.arg, ast.AnnAssign, ast.FunctionDef)):
            for a in (getattr(n, 'annotation', None), getattr(n, 'returns', None)):
                if a is not None: skip.update(ast.walk(a))
        if isinstance(n, (ast.Import, ast.ImportFrom, ast.Raise)): skip.update(ast.walk(n))
        if isinstance(n, ast.JoinedStr): skip.update(c for c in n.values if isinstance(c, ast.Constant))
    for n in ast.walk(tree):
        if n in skip: continue
        def m(kind, new, node=n): return dict(line=node.lineno, kind=kind, span=span(node), old=text(node), new=new)
        if isinstance(n, ast.Compare) and len(n.ops) == 1:
            yield m('cmp', f"({text(n.left)} {CMP[type(n.ops[0])]} {text(n.comparators[0])})")
        elif isinstance(n, ast.BinOp) and type(n.op) in BIN:
            yield m('bin', f"({text(n.left)} {BIN[type(n.op)]} {text(n.right)})")
        elif isinstance(n, ast.BoolOp):
            op = ' and ' if isinstance(n.op, ast.Or) else ' or '
            yield m('bool', '(' + op.join(text(v) for v in n.values) + ')')
            yield m('bool-drop', '(' + text(n.values[0]) + ')')
        elif isinstance(n, ast.UnaryOp) and isinstance(n.op, ast.Not):
            yield m('not', text(n.operand))
        elif isinstance(n, ast.Constant):
            if isinstance(n.value, bool): yield m('const', str(not n.value))
            elif isinstance(n.value, int): yield m('const', str(n.value + 1)); yield m('const-', str(n.value - 1))
            elif isinstance(n.value, str) and n.value and not isinstance(parent.get(n), ast.JoinedStr):
                v = n.value
                yield m('str', repr(v[:-1]))
                if v.isascii() and v.swapcase() != v: yield m('strcase', repr(v.swapcase()))
            elif isinstance(n.value, bytes) and n.value: yield m('bytes', repr(n.value[:-1]))
        elif isinstance(n, (ast.If, ast.While)):
            yield m('neg', f"(not ({text(n.test)}))", n.test)
        elif isinstance(n, ast.IfExp):
            yield m('ifexp', f"({text(n.orelse)})"); yield m('ifexp2', f"({text(n.body)})")
        elif isinstance(n, (ast.Expr, ast.Assign, ast.AugAssign)) and not isinstance(parent[n], (ast.Module, ast.ClassDef)):
            yield m('del', 'pass')
        elif isinstance(n, ast.Return) and n.value is not None:
            yield m('ret', 'return None')
        elif isinstance(n, (ast.Break, ast.Continue)):
            yield m('jump', 'pass')
        elif isinstance(n, ast.Slice):
            if n.lower is not None and n.upper is not None: yield m('slice', f"{text(n.lower)}:")
        elif isinstance(n, ast.Call):
            if len(n.args) == 2 and not n.keywords and not any(isinstance(a, ast.Starred) for a in n.args):
                yield m('swap', f"{text(n.func)}({text(n.args[1])}, {text(n.args[0])})")
            if n.keywords and n.keywords[-1].arg and parent.get(n).__class__ is not ast.keyword:
                k = n.keywords[-1]
                yield m('kwdrop', f"{text(n.func)}({', '.join([text(a) for a in n.args] + [f'{x.arg}={text(x.value)}' if x.arg else '**' + text(x.value) for x in n.keywords[:-1]])})")
        elif isinstance(n, ast.Attribute) and isinstance(n.value, ast.Name) and n.value.id in ('DisplayMode', 'MarkerDetailsEnum', 'ReadMode'):
            other = {'DEFAULT': 'FOCUSED', 'FOCUSED': 'DEFAULT', 'IGNORED': 'DEFAULT', 'NO_DETAILS': 'BRIEF_DETAILS', 'BRIEF_DETAILS': 'FULL_DETAILS', 'FULL_DETAILS': 'BRIEF_DETAILS', 'TEXT': 'BINARY', 'BINARY': 'TEXT'}
            if n.attr in other: yield m('enum', f"{n.value.id}.{other[n.attr]}")


def make(d, mu):
    shutil.copytree(REPO + '/kolombos', d + '/kolombos', ignore=shutil.ignore_patterns('__pycache__'))
    shutil.copytree(REPO + '/pytermor', d + '/pytermor', ignore=shutil.ignore_patterns('__pycache__'))
    if mu is None: return True
    p = os.path.join(d, mu['file']); raw = open(p, 'rb').read(); a, b = mu['span']
    new = raw[:a] + mu['new'].encode() + raw[b:]
    try: ast.parse(new)
    except SyntaxError: return False
    open(p, 'wb').write(new)
    return True


CORPUS_DATA = None
def corpus():
    data = [bytes(range(256)), b'', b'abc def\n\nx  y\r\n' * 9, b'\x1b[1;31mred\x1b[0m \x1b[38;5;200mz\x1b[48;2;1;2;3mq\x1b[m\x1b[5Ax\x1b(B\x1b7\x1b#8\x1b]0;t\x07 end\n',
            'привет ёж 🚀 ㌕ é\n\x00\x1f\x7f\x85'.encode() + b'\xff\xc3\n\t\x0b\x0c \n',
            (b'\x1b[7m0123456789\x00\x00\x1b[27m  \n\t' + 'ж'.encode() + b'\xe2\x82') * 60]
    opts = [[], ['-t'], ['-b'], ['-m', '0'], ['-m', '2'], ['-t', '-m', '1'], ['-t', '-m', '2'], ['-b', '-w', '5'], ['-b', '-w', '33'], ['-t', '-d'], ['-b', '-d'], ['-b', '-d', '-w', '3'],
            ['-t', '-S'], ['-t', '-c'], ['-t', '-i'], ['-t', '-u'], ['-t', '-e'], ['-b', '-S', '-c'], ['-t', '-s'], ['-t', '-s', '-S'], ['-t', '-i', '-I'] , ['-t', '-s', '-m', '2'],
            ['-t', '-B', '7'], ['-b', '-B', '7'], ['-t', '-L', '2'], ['-b', '-L', '2'], ['-t', '-f', '3'], ['-b', '-f', '5'], ['-t', '--color-markers'], ['-t', '--no-line-numbers'], ['-b', '--no-offsets'],
            ['-t', '-D'], ['-b', '-DDD'], ['--decimal-offsets', '-b'], ['-t', '--no-separators'], ['-b', '-s', '-e', '-u'], ['-t', '-p'], ['-b', '-P'], ['-U', '-t'], ['-C', '-t'], ['-E', '-t'], ['-I', '-b'],
            ['-t', '-m', '2', '--color-markers'], ['-t', '-e', '-m', '1', '--no-separators'], ['-b', '-E'], ['-bU', '-d']]
    once = [['--version'], ['--legend'], ['--help'], ['--demo'], ['--demo', '-b'], ['--legend', '-b'], ['/nonexistent'], ['-B', 'x'], ['-m', '5'], ['-w', '-1'], []]
    runs = [(o, data[i % len(data)]) for j, o in enumerate(opts) for i in ((j, j + 3) if j > 5 else range(6))]
    return runs + [(o, b'q') for o in once]


DRIVER = """
import os, pickle, signal, sys, tempfile
runs = pickle.load(open(sys.argv[1], 'rb')); out = []
import kolombos.__main__ as m, kolombos.app
def one(o, data):
    fi, fo, fe = (tempfile.TemporaryFile() for _ in range(3))
    fi.write(data); fi.flush(); fi.seek(0)
    pid = os.fork()
    if not pid:
        for n, f in enumerate((fi, fo, fe)): os.dup2(f.fileno(), n)
        sys.stdin, sys.stdout, sys.stderr = open(0, encoding='utf8'), open(1, 'w', encoding='utf8'), open(2, 'w', encoding='utf8')
        sys.argv = ['kolombos', *o]; signal.alarm(4); rc = 0
        try: kolombos.app.App().run()
        except SystemExit as e: rc = e.code if isinstance(e.code, int) else 0 if e.code is None else 1
        except BaseException as e: rc = type(e).__name__
        try: sys.stdout.flush(); sys.stderr.flush()
        except BaseException: pass
        os.write(2, b'@%s' % str(rc).encode()); os._exit(0)
    st = os.waitpid(pid, 0)[1]
    fo.seek(0); fe.seek(0)
    return st, fo.read(), fe.read()
for o, d in runs:
    r = one(o, d); out.append(r)
    if sum(1 for x in out if x[0]) > 1: break
pickle.dump(out, open(sys.argv[2], 'wb'))
"""

def behaviour(d):
    import pickle
    pickle.dump(corpus(), open(d + '/in.pkl', 'wb')); open(d + '/driver.py', 'w').write(DRIVER)
    env = dict(os.environ, PYTHONDONTWRITEBYTECODE='1', LANG='C.UTF-8', PYTHONPATH=d, COLUMNS='120', PYTHONWARNINGS='ignore')
    p = subprocess.run([PY, '-P', d + '/driver.py', d + '/in.pkl', d + '/out.pkl'], cwd='/tmp', env=env, capture_output=True)
    if p.returncode: return ['fail']
    return [tuple(x.replace(d.encode(), b'D') if isinstance(x, bytes) else x for x in t) for t in pickle.load(open(d + '/out.pkl', 'rb'))]


def stable(d):
    shutil.copytree(REPO + '/tests', d + '/tests') if os.path.isdir(REPO + '/tests') else None
    for f in ('pyproject.toml', 'setup.cfg', 'README.md', 'setup.py'):
        if os.path.exists(f'{REPO}/{f}'): shutil.copy(f'{REPO}/{f}', d)
    env = dict(os.environ, PYTHONDONTWRITEBYTECODE='1', PYTHONHASHSEED='0', LANG='C.UTF-8', LC_ALL='C.UTF-8', TERM='xterm', PYTHONPATH=d)
    reps = d + '/reps'; os.mkdir(reps)
    for name, args in (('unit', ['tests']), ('doctest', ['--doctest-modules', 'kolombos', 'pytermor'])):
        try: subprocess.run([PY, '-m', 'pytest', '-q', '-x' if False else '-q', '-p', 'no:cacheprovider', '--timeout=20', '--continue-on-collection-errors', '-o', 'junit_family=xunit2', f'--junitxml={reps}/{name}.xml', *args], cwd=d, env=env, capture_output=True, timeout=150)
        except subprocess.TimeoutExpired: return False
    subprocess.run([PY, '/opt/vp/results.py', d + '/o.json', f'junit:{reps}/*.xml'], capture_output=True)
    try: got = json.load(open(d + '/o.json'))
    except OSError: return False
    base = json.load(open('/opt/vp/BASELINE.json'))
    return names(base, True) <= names(got, False)


def names(o, base): return set(o['stable'] if base else o['passed'])


def job(mu):
    d = tempfile.mkdtemp(prefix='mc.')
    try:
        if not make(d, mu): return None
        if not stable(d): return None
        if mu['file'].startswith('pytermor/util') or mu['file'].startswith('pytermor/'):
            b = behaviour(d) if os.environ.get('MC_PT') else None
        else: b = behaviour(d)
        mu = dict(mu)
        mu['differs'] = None if b is None else [i for i, (x, y) in enumerate(zip(b, BASE)) if x != y][:5] or ([] if len(b) == len(BASE) else [-1])
        return mu
    finally: shutil.rmtree(d)


BASE = None
def gen(out, every, offset, files):
    global BASE
    os.makedirs(out, exist_ok=True)
    ms = []
    for pkg in ('kolombos', 'pytermor'):
        for dp, _, fs in sorted(os.walk(f'{REPO}/{pkg}')):
            for f in sorted(fs):
                p = os.path.join(dp, f)
                if f.endswith('.py') and (not files or any(s in p for s in files.split(','))):
                    for mu in mutants(p): ms.append(dict(mu, file=os.path.relpath(p, REPO)))
    for mu in ms: mu['id'] = hashlib.sha1(json.dumps([mu['file'], mu['span'], mu['new']]).encode()).hexdigest()[:8]
    ms.sort(key=lambda m: m['id'])
    ms = ms[offset::every]
    print(len(ms), 'mutants', flush=True)
    d = tempfile.mkdtemp(prefix='mc.'); make(d, None)
    BASE = behaviour(d)
    again = behaviour(d)
    print('unstable corpus entries', [i for i, (x, y) in enumerate(zip(BASE, again)) if x != y])
    assert stable(d), 'tests fail on the original'
    shutil.rmtree(d)
    with cf.ProcessPoolExecutor(int(os.environ.get('MC_J', 8))) as ex, open(out + '/list.jsonl', 'w') as fo:
        n = 0
        for f in cf.as_completed([ex.submit(job, m) for m in ms]):
            if r := f.result(): n += 1; fo.write(json.dumps(r) + '\n'); fo.flush()
        print(n, 'pass the tests')


ORDER = None
def check(out, only, everything):
    done = set()
    rp = out + '/results.jsonl'
    if os.path.exists(rp): done = {json.loads(l)['id'] for l in open(rp)}
    times = json.load(open('/tmp/mc/times.json')) if os.path.exists('/tmp/mc/times.json') else {}
    for l in open(out + '/list.jsonl'):
        mu = json.loads(l)
        if mu['id'] in done or (mu['differs'] == [] and not everything): continue
        d = tempfile.mkdtemp(prefix='mc.'); make(d, mu)
        ids = only or [f'C{i:02}' for i in (range(23, 31) if mu['file'].startswith('pytermor') else range(1, 23))]
        ids = sorted(ids, key=lambda c: times.get(c, 30)); caught = None; log = []; und = {}
        for c in ids:
            t = time.time()
            p = subprocess.run([sys.executable, '-m', 'sa.run', c], cwd=os.environ.get('MC_VERIF', '/verif'), env=dict(os.environ, SA_REPO=d), capture_output=True, text=True)
            times.setdefault(c, round(time.time() - t, 1))
            if p.returncode:
                caught = c; v = [x for x in p.stdout.splitlines() if 'VIOLATION' in x or p.returncode == 2]
                log = [p.returncode, (v or [''])[-1 if p.returncode == 2 else 0].replace(d, '')[:250]]; break
            s = [w for w in p.stdout.split() if w.startswith('undecided=')]
            und[c] = s[-1][10:] if s else '?'
        shutil.rmtree(d)
        json.dump(times, open('/tmp/mc/times.json', 'w'))
        with open(rp, 'a') as fo: fo.write(json.dumps(dict(mu, caught=caught, log=log, undecided=und)) + '\n')
        print(mu['id'], caught, log[:1], mu['file'], mu['line'], mu['kind'], repr(mu['old'][:40]), '->', repr(mu['new'][:40]), 'differs' if mu['differs'] else 'same' if mu['differs'] == [] else '', flush=True)


if __name__ == '__main__':
    a = sys.argv[1:]
    opt = lambda n, dflt: a[a.index(n) + 1] if n in a else dflt
    if a[0] == 'gen': gen(a[1], int(opt('--every', 1)), int(opt('--offset', 0)), opt('--files', ''))
    else: check(a[1], opt('-c', '').split(',') if '-c' in a else None, '--all' in a)
