"""Loads the analysed packages (abstractly) and offers access to their entities."""
from __future__ import annotations

import os
import sys
import warnings
from . import core, strs
from .core import Path, Ctx
from .interp import Interp, Mod, Cls, AExc

warnings.filterwarnings("ignore", category=SyntaxWarning)
REPO = os.environ.get('SA_REPO', '/repo')


class AnchorError(Exception):
    """The code under analysis has lost a construct the rule is anchored in."""


class Repo:
    def __init__(self, root=None):
        self.root = root or REPO
        sys.setrecursionlimit(20000)
        self.I = Interp({'kolombos': os.path.join(self.root, 'kolombos'), 'pytermor': os.path.join(self.root, 'pytermor')})
        self.lib = self.I.lib
        self.base = Path()
        self.base.limit = 5_000_000
        Ctx.cur = self.base
        for p in ('kolombos', 'pytermor'):
            if not os.path.isdir(os.path.join(self.root, p)): raise AnchorError(f'package {p} is missing')
        self.load_errors = []

    def load(self, name):
        saved = Ctx.cur
        Ctx.cur = self.base
        try: return self.I.load(name)
        finally: Ctx.cur = saved

    def get(self, mod, path):
        """Entity 'A.b' of module mod."""
        try: v = self.load(mod)
        except AExc as e: raise AnchorError(f'{mod}: {e}')
        for n in path.split('.'):
            v2 = self.I.getattr_opt(v, n)
            from .interp import MISSING
            if v2 is MISSING: raise AnchorError(f'{mod}: {path} not found')
            v = v2
        return v

    # ------------------------------------------------------------ settings / pipelines
    def call(self, f, *a, **k): return self.I.call(f, list(a), k)

    def attr(self, o, n): return self.I.getattr_(o, n)

    def settings(self, **kw):
        """Fresh Settings object installed as the effective settings; values may be abstract."""
        SM = self.get('kolombos.settings', 'SettingsManager')
        self.call(self.attr(SM, 'init'))
        s = self.attr(SM, 'app_settings')
        for k, v in kw.items(): self.I.setattr_(s, k, v)
        return s

    def file_of(self, name='<file>'):
        from .interp import Inst
        return Inst(self.lib.FileCls, {'closed': False, 'name': name, 'mode': 'rb', '\0name': name})

    def run_stream(self, chunks, width=80, **kw):
        """Run the byte I/O runner over the given read results (the last one is followed by end of file)."""
        self.lib.handling.clear()
        if width is not None: core.P().memo['termwidth'] = width
        s = self.settings(**kw)
        it = list(chunks)

        def rd(o, n):
            if not it: return b''
            x = it.pop(0)
            if n is None or isinstance(n, int) and (n < 0 or n >= 128): return x      # reads may return less than asked for
            if core.le(strs.length(x), n): return x
            it.insert(0, strs.slice_(x, n, None))
            return strs.slice_(x, 0, n)
        self.lib.io_read = rd
        self.lib.open_hook = lambda name, mode: self.file_of(name)
        self.I.setattr_(self.I.getattr_(self.lib.stdin, 'buffer'), 'closed', False)      # a new process per run
        runner = self.call(self.get('kolombos.runner', 'ByteIoRunner'))
        self.call(self.attr(runner, 'run'))
        return s


def prints(path):
    """Concatenated text sent to standard output / standard error."""
    from .strs import concat
    o, e = '', ''
    for ev in path.events:
        if ev[0] == 'print':
            if ev[2][0] == 'stderr': e = concat(e, ev[1])
            else: o = concat(o, ev[1])
    return o, e
