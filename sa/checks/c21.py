"""C21: the application has no side effects besides its output."""
import ast
import os

from .common import *

RULE = ('effect analysis: no construct of the packages refers to an operation that writes, creates, renames or deletes files, starts processes, opens connections or changes the environment; '
        'files are opened in read modes only; text is printed to standard output or standard error only')
EXPLAIN = ('Every name, attribute, import, call, subscript store and print of every module is resolved through imports, aliases and constant getattr / import calls to a qualified name and classified by its effect; '
           'in addition whole runs of every mode are derived by abstract interpretation and their effect events must be reads and prints. '
           'The classifier is tested on snippets with known effects in every run.')
BOUNDS = 'all source files of both packages; derived runs of every mode'
MIN_PROVED = 300
ASSUME = ['standard library functions outside the effect table have no lasting effect']

BAD_MODULES = {'subprocess', 'socket', 'http', 'urllib', 'ftplib', 'smtplib', 'telnetlib', 'xmlrpc', 'socketserver', 'ssl', 'asyncio', 'multiprocessing', 'concurrent', 'ctypes', 'tempfile',
               'sqlite3', 'shelve', 'dbm', 'webbrowser', 'pty', 'mmap', 'fcntl', 'resource', 'syslog', 'zipfile', 'tarfile', 'gzip', 'bz2', 'lzma', 'requests', 'ensurepip', 'venv', 'nntplib', 'imaplib', 'poplib', 'posix', 'runpy'}
BAD_MODULE_OK = {'urllib.parse', 'subprocess.PIPE', 'ctypes.c_int', 'tempfile.gettempdir', 'urllib', 'http'}
OS_OK = {'path', 'environ', 'getenv', 'sep', 'linesep', 'name', 'pathsep', 'altsep', 'extsep', 'curdir', 'pardir', 'devnull', 'fspath', 'PathLike', 'get_terminal_size', 'terminal_size', 'getcwd', 'stat', 'lstat', 'fstat', 'stat_result',
         'access', 'R_OK', 'W_OK', 'X_OK', 'F_OK', 'isatty', 'listdir', 'scandir', 'walk', 'readlink', 'cpu_count', 'getpid', 'getppid', 'getuid', 'geteuid', 'getgid', 'uname', 'times', 'strerror', 'urandom', 'fsencode', 'fsdecode', 'error',
         'O_RDONLY', 'read', 'close', 'lseek', 'SEEK_SET', 'SEEK_CUR', 'SEEK_END', 'ttyname', 'EX_OK', 'get_exec_path', 'supports_fd'}
SHUTIL_OK = {'get_terminal_size', 'which', 'disk_usage', 'Error'}
SYS_BAD = {'path.append', 'path.insert', 'path.extend'}
METHODS = {'write_text', 'write_bytes', 'unlink', 'mkdir', 'rmdir', 'touch', 'symlink_to', 'hardlink_to', 'chmod', 'lchmod', 'makedirs', 'rmtree', 'copyfile', 'copytree', 'removedirs', 'putenv', 'unsetenv', 'Popen', 'check_output',
           'check_call', 'urlopen', 'truncate', 'sendall', 'connect'}
ENV_METHODS = {'update', 'pop', 'setdefault', 'clear', 'popitem', '__setitem__', '__delitem__'}


class Scan(ast.NodeVisitor):
    """Collects (rule, node, message) for one module."""

    def __init__(self, tree, modname='', package=True, decl=()):
        self.alias, self.found, self.count, self.unknown = {}, [], 0, []
        self.funcs, self.decl = [], set(decl)
        for n in ast.walk(tree):
            if isinstance(n, ast.Import):
                for a in n.names: self.alias[a.asname or a.name.split('.')[0]] = a.name if a.asname else a.name.split('.')[0]
            elif isinstance(n, ast.ImportFrom) and not n.level:
                for a in n.names: self.alias[a.asname or a.name] = f'{n.module}.{a.name}'
            elif isinstance(n, (ast.FunctionDef, ast.AsyncFunctionDef, ast.ClassDef)): self.decl.add(n.name)
        self.local = {}
        for n in ast.walk(tree):        # simple aliases: x = os.remove, x = __import__('os')
            if isinstance(n, ast.Assign) and len(n.targets) == 1 and isinstance(n.targets[0], ast.Name):
                q = self.qual(n.value)
                if q: self.local.setdefault(n.targets[0].id, q)
        self.consts = {}
        for n in ast.walk(tree):
            if isinstance(n, ast.Assign) and len(n.targets) == 1 and isinstance(n.targets[0], ast.Name) and isinstance(n.value, ast.Constant) and isinstance(n.value.value, str):
                self.consts.setdefault(n.targets[0].id, set()).add(n.value.value)
        self.tree = tree
        self.visit(tree)

    def qual(self, e):
        """Qualified name of an expression that denotes a module or library object."""
        if isinstance(e, ast.Name): return self.alias.get(e.id) or getattr(self, 'local', {}).get(e.id) or (e.id if e.id in ('open', 'exec', 'eval', 'compile', '__import__', 'print', 'input') and e.id not in self.decl else None)
        if isinstance(e, ast.Attribute):
            b = self.qual(e.value)
            return f'{b}.{e.attr}' if b else None
        if isinstance(e, ast.Call):
            f = e.func
            if isinstance(f, ast.Name) and f.id == 'getattr' and len(e.args) >= 2 and isinstance(e.args[1], ast.Constant):
                b = self.qual(e.args[0])
                return f'{b}.{e.args[1].value}' if b else None
            if (isinstance(f, ast.Name) and f.id == '__import__' or self.qual(f) == 'importlib.import_module') and e.args and isinstance(e.args[0], ast.Constant): return str(e.args[0].value)
            if self.qual(f) in ('pathlib.Path', 'pathlib.PurePath', 'pathlib.PosixPath'): return 'pathlib.Path()'
        return None

    def bad(self, node, msg): self.found.append((msg, node, '.'.join(self.funcs) or '<module>'))

    def effect(self, q):
        """Reason why the library object q must not be referred to, or None."""
        top, _, rest = q.partition('.')
        if top == 'builtins': return self.effect(rest) if rest else None
        if top in BAD_MODULES:
            if q in BAD_MODULE_OK or any(q.startswith(x + '.') for x in ('urllib.parse',)) or not rest: return None
            return f'{q} can start processes, open connections or change files'
        if top == 'os' and rest:
            n = rest.split('.')[0]
            if n not in OS_OK: return f'{q} changes the file system, processes or the environment'
            if n == 'environ' and rest.split('.')[-1] in ENV_METHODS: return f'{q} changes the environment'
        if top == 'shutil' and rest and rest.split('.')[0] not in SHUTIL_OK: return f'{q} changes files'
        if top == 'logging' and rest in ('FileHandler', 'handlers.RotatingFileHandler', 'handlers.SocketHandler'): return f'{q} writes files'
        if top == 'signal' and rest in ('pthread_kill', 'raise_signal', 'alarm', 'setitimer', 'signal'): return None
        return None

    def visit_FunctionDef(self, n):
        self.funcs.append(n.name)
        self.generic_visit(n)
        self.funcs.pop()
    visit_AsyncFunctionDef = visit_ClassDef = visit_FunctionDef

    def visit_ImportFrom(self, n):
        if not n.level:
            for a in n.names:
                self.count += 1

    def visit_Name(self, n):
        self.count += 1
        q = self.alias.get(n.id) or self.local.get(n.id)
        if q and isinstance(n.ctx, ast.Load):
            r = self.effect(q)
            if r: self.bad(n, r)

    def visit_Attribute(self, n):
        self.count += 1
        q = self.qual(n)
        r = self.effect(q) if q else None
        if r: self.bad(n, r)
        elif n.attr in METHODS and n.attr not in self.decl and isinstance(n.ctx, ast.Load): self.bad(n, f'.{n.attr} changes files, processes or connections')
        if isinstance(n.ctx, (ast.Store, ast.Del)) and q and q.startswith('os.'): self.bad(n, f'assignment to {q}')
        self.generic_visit(n)

    def visit_Subscript(self, n):
        self.count += 1
        if isinstance(n.ctx, (ast.Store, ast.Del)) and self.qual(n.value) == 'os.environ': self.bad(n, 'the environment is changed')
        self.generic_visit(n)

    def visit_Call(self, n):
        self.count += 1
        q = self.qual(n.func)
        if q is None and isinstance(n.func, ast.Call): q = self.qual(n.func)
        if isinstance(n.func, ast.Call) or q:
            r = self.effect(q) if q else None
            if r and not isinstance(n.func, (ast.Name, ast.Attribute)): self.bad(n, r)
        if q in ('open', 'io.open', 'codecs.open', 'builtins.open', 'pathlib.Path().open', 'os.open', 'os.fdopen') or isinstance(n.func, ast.Attribute) and n.func.attr == 'open' and 'open' not in self.decl: self.opening(n, q)
        if q in ('exec', 'eval', 'builtins.exec', 'builtins.eval', '__import__', 'importlib.import_module') and not (n.args and isinstance(n.args[0], ast.Constant)): self.unknown.append(n)
        if q == 'logging.basicConfig' and any(k.arg == 'filename' for k in n.keywords): self.bad(n, 'log messages are written to a file')
        if q in ('print', 'builtins.print'):
            for k in n.keywords:
                if k.arg == 'file':
                    t = self.qual(k.value)
                    if t not in ('sys.stdout', 'sys.stderr', 'sys.__stdout__', 'sys.__stderr__') and not (isinstance(k.value, ast.Constant) and k.value.value is None):
                        if isinstance(k.value, ast.Call) and self.qual(k.value.func) == 'open': pass       # judged by the open rule
                        else: self.unknown.append(n)
        self.generic_visit(n)

    def opening(self, n, q):
        i = 0 if q not in ('open', 'io.open', 'codecs.open', 'builtins.open') else 1
        if q in ('os.open', 'os.fdopen'): return
        m = n.args[i] if len(n.args) > i else next((k.value for k in n.keywords if k.arg == 'mode'), None)
        if m is None: return
        vals = {m.value} if isinstance(m, ast.Constant) else self.consts.get(m.id) if isinstance(m, ast.Name) else None
        if isinstance(m, ast.IfExp) and isinstance(m.body, ast.Constant) and isinstance(m.orelse, ast.Constant): vals = {m.body.value, m.orelse.value}
        if vals is None: self.unknown.append(n)
        elif any(isinstance(v, str) and set(v) & set('wax+') for v in vals): self.bad(n, f'file is opened for writing ({"/".join(sorted(map(str, vals)))})')


SNIPPETS = ['import os\nos.remove("x")', 'from os import rename as r\nr("a", "b")', 'import subprocess as s\ns.run("x")', 'open("x", "w")', 'open("x", mode="ab")', 'import os\nos.environ["A"] = "1"', 'import os\ndel os.environ["A"]',
            'import os\nos.environ.update(a="1")', 'import shutil\nshutil.rmtree("x")', 'from pathlib import Path\nPath("x").write_text("y")', 'import os\ngetattr(os, "system")("x")', '__import__("os").unlink("x")',
            'import socket\nsocket.socket()', 'def f():\n  import tempfile\n  tempfile.mkstemp()', 'import os\nf = os.remove\nf("x")', 'import io\nio.open("x", "r+")', 'M = "w"\nopen("x", M)', 'from pathlib import Path\nPath("x").open("w")',
            'import importlib\nimportlib.import_module("subprocess").call("x")', 'import os\nos.putenv("a", "b")', 'from urllib.request import urlopen\nurlopen("x")', 'import os as o\no.system("x")', 'from os import environ\nenviron.pop("A")']
CLEAN = ['import os\nos.path.join("a")', 'open("x", "rb")', 'open("x")', 'import shutil\nshutil.get_terminal_size()', 'import sys\nprint("x", file=sys.stderr)', 'import os\nx = os.environ.get("A")', 'from os.path import join\njoin("a", "b")', 'x = "a".replace("a", "b")']


def selftest(repo, src, w):
    for s in SNIPPETS: w.true('self-test: effect is recognised', bool(Scan(ast.parse(s)).found), s)
    for s in CLEAN: w.true('self-test: no false alarm', not Scan(ast.parse(s)).found, s)


def files(root):
    out = []
    for pkg in ('kolombos', 'pytermor'):
        for d, _, fs in sorted(os.walk(os.path.join(root, pkg))):
            out += [os.path.join(d, f) for f in sorted(fs) if f.endswith('.py')]
    return out


def module(repo, src, w, f, decl):
    sc = Scan(ast.parse(open(f, encoding='utf-8').read()), decl=decl)
    for msg, n, fn in sc.found: w.true('no side effects: ' + msg, False, f'{ast.unparse(n)[:120]}', (f, n.lineno, fn))
    w.proved += sc.count
    for n in sc.unknown: raise Undecided(f'{f}:{n.lineno}: {ast.unparse(n)[:80]}')


ALLOWED_IO = {'read', 'close', 'seekable', 'tell', 'flush', 'fileno', 'isatty', 'readable', 'seek', 'peek', 'readline'}


def runs(repo, src, w, mode, kw, fault=None):
    n = len(P().events)
    try: run_app(repo, [b'a\x1b[1mb\n\xd0\xb9\x00\xff'], {**kw}, fault, name='f.bin')
    except core.Unsupported: judge(w, P().events[n:])
    judge(w, P().events[n:])


def judge(w, evs):
    for ev in evs:
        k, d = ev[0], ev[1]
        wh = ev[2][1:] if k == 'print' and isinstance(ev[2], tuple) and len(ev[2]) == 4 else ev[2] if len(ev) > 2 else None
        if k == 'effect': w.true('no side effects: ' + str(d), False, str(d), wh)
        elif k == 'print': w.true('prints go to the standard streams', ev[2][0] in ('stdout', 'stderr'), str(ev[2][0]), wh)
        elif k == 'open': w.true('files are opened for reading', isinstance(d[1], str) and not set(d[1]) & set('wax+'), str(d), wh)
        elif k == 'io': w.true('input is only read', d[0] in ALLOWED_IO, str(d[0]), wh)
        else: w.true('known event', True)


def jobs(repo, tier):
    decl = set()
    fs = files(repo.root)
    trees = {f: ast.parse(open(f, encoding='utf-8').read()) for f in fs}
    for t in trees.values():
        for n in ast.walk(t):
            if isinstance(n, (ast.FunctionDef, ast.ClassDef)): decl.add(n.name)
    decl -= {'open'}
    js = [Job('self-test', selftest)] + [Job(os.path.relpath(f, repo.root), module, f, frozenset(decl)) for f in fs]
    for b in (False, True):
        js += [Job(f'run {"binary" if b else "text"} debug {d}', runs, 'x', {**conf(None, b, '', columns=4 if b else None), 'debug': d}, time=20) for d in (0, 4)]
    for m in ('legend', 'version', 'demo'): js.append(Job('run ' + m, runs, m, {m: True}, time=25))
    js += [Job('run with a failure', runs, 'x', {}, ('read', 1, 'OSError', ('x',)), time=20), Job('run with a failure to open', runs, 'x', {'debug': 1}, ('open', 0, 'OSError', ('x',)), time=20)]
    return js
