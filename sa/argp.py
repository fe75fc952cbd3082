"""Model of argparse: parsing of a command line against the recorded argument definitions."""
from __future__ import annotations

import re
from . import core, strs
from .core import Unsupported
from .interp import AExc, AList, MISSING

NEG = re.compile(r'^-\d+$|^-\d*\.\d+$')


class Act:
    def __init__(self, names, kw, mutex, where):
        self.kw, self.mutex, self.where = dict(kw), mutex, where
        self.names = [n for n in names if isinstance(n, str) and n.startswith('-')]
        if len(self.names) != len(names) and self.names: raise Unsupported('argument names')
        self.action = self.kw.get('action', 'store')
        if not isinstance(self.action, str): raise Unsupported('custom argparse action')
        if self.names:
            longs = [n for n in self.names if n.startswith('--')]
            self.dest = self.kw.get('dest') or (longs or self.names)[0].lstrip('-').replace('-', '_')
        else: self.dest = self.kw.get('dest') or (names[0] if names else None)
        self.nargs = self.kw.get('nargs')
        if self.action in ('store_true', 'store_false'): self.const, self.default = self.action == 'store_true', self.kw.get('default', self.action == 'store_false')
        else: self.const, self.default = self.kw.get('const'), self.kw.get('default')
        if self.action == 'help': self.dest, self.default = self.kw.get('dest', 'help'), self.kw.get('default', '==SUPPRESS==')
        if self.action not in ('store', 'store_true', 'store_false', 'store_const', 'count', 'help', 'version'): raise Unsupported('argparse action ' + self.action)
        if self.action == 'store' and self.nargs not in (None, '?'): raise Unsupported(f'nargs {self.nargs}')
        if self.names and self.nargs == '?': raise Unsupported('optional option argument')
        if self.kw.get('required'): raise Unsupported('required option')

    @property
    def takes(self): return self.action == 'store'


def actions(parser):
    out = [Act(*r) for r in parser.d['\0args'].v]
    kw = dict(parser.d.get('\0kw', ()))
    if kw.get('add_help', True): out.append(Act(('-h', '--help'), (('action', 'help'),), None, None))
    for x in ('fromfile_prefix_chars', 'argument_default', 'parents', 'conflict_handler'):
        if kw.get(x): raise Unsupported('ArgumentParser ' + x)
    if kw.get('prefix_chars', '-') != '-': raise Unsupported('prefix_chars')
    return out, kw.get('allow_abbrev', True)


def _exit(I, code):
    I.lib.event('exit', code)
    I.raise_('SystemExit', code)


def parse(I, parser, ns, argv):
    """Parse argv into ns; raises SystemExit like argparse does."""
    acts, abbrev = actions(parser)
    if ns is None: raise Unsupported('parse_args without a namespace')
    opt = {}
    for a in acts:
        for n in a.names:
            if n in opt: I.raise_(I.lib.B['argparse.ArgumentError'], f'conflicting option string: {n}')
            opt[n] = a
    for _, mutex, _, required in parser.d['\0groups'].v:
        if required: raise Unsupported('required group')

    def error(msg):
        core.P().events.append(('print', f'error: {msg}\n', ('stderr',) + tuple(I.where()), ()))
        _exit(I, 2)

    for a in acts:
        if a.dest == '==SUPPRESS==' or isinstance(a.default, str) and a.default == '==SUPPRESS==': continue
        if I.getattr_opt(ns, a.dest) is MISSING: I.setattr_(ns, a.dest, a.default)
    for k, v in parser.d.get('\0defaults', ()):
        if I.getattr_opt(ns, k) is MISSING: I.setattr_(ns, k, v)

    def value(a, s):
        t = a.kw.get('type')
        if t is not None:
            try: s = I.call(t, [s])
            except AExc as e:
                B = I.lib.B
                if isinstance(e.value.cls, object) and (e.value.cls.is_sub(B['ArgumentTypeError']) or e.value.cls.is_sub(B['ValueError']) or e.value.cls.is_sub(B['TypeError'])):
                    error(f'argument {"/".join(a.names) or a.dest}: invalid value')
                raise
        ch = a.kw.get('choices')
        if ch is not None and not I.truth(I.contains(s, ch)): error('invalid choice')
        return s

    seen, seen_nd = [], []

    def take(a, vals, name):
        nonlocal ns
        if a.takes:
            v = value(a, vals[0]) if vals else a.default
            if not vals and isinstance(v, str): v = value(a, v)
        else: v = []
        if v is not a.default or not a.takes:
            for b in seen_nd:
                if b is not a and b.mutex is not None and b.mutex == a.mutex: error(f'argument {name}: not allowed with argument {"/".join(b.names) or b.dest}')
            seen_nd.append(a)
        if a.action == 'store':
            if vals or a.nargs == '?': I.setattr_(ns, a.dest, v)
        elif a.action in ('store_true', 'store_false', 'store_const'): I.setattr_(ns, a.dest, a.const)
        elif a.action == 'count':
            c = I.getattr_opt(ns, a.dest)
            I.setattr_(ns, a.dest, (0 if c in (None, MISSING) else c) + 1)
        elif a.action == 'help':
            core.P().events.append(('print', 'usage', ('stdout',) + tuple(I.where()), ()))
            _exit(I, 0)
        elif a.action == 'version': _exit(I, 0)

    def classify(s):
        """None for a plain argument, else (action, name, explicit value or None)"""
        if not isinstance(s, str): return None
        if not s or s[0] != '-' or s == '-': return None
        if s in opt: return opt[s], s, None
        if '=' in s:
            n, _, v = s.partition('=')
            if n in opt: return opt[n], n, v
        hits = []
        if s.startswith('--'):
            n, eq, v = s.partition('=')
            if abbrev: hits = [(opt[o], o, v if eq else None) for o in opt if o.startswith(n)]
        else:
            hits = [(opt[o], o, s[2:]) for o in opt if o == s[:2]] + [(opt[o], o, None) for o in opt if abbrev and o.startswith(s)]
        if len(hits) > 1: error(f'ambiguous option: {s}')
        if hits: return hits[0]
        if NEG.match(s) and not any(NEG.match(o) for o in opt): return None
        if ' ' in s: return None
        return (None, s, None)

    args = list(argv)
    kinds = []
    raw = False
    for s in args:
        if raw: kinds.append('A')
        elif isinstance(s, str) and s == '--':
            kinds.append('-')
            raw = True
        else:
            c = classify(s)
            kinds.append('A' if c is None else c)
    pos = [a for a in acts if not a.names]
    extras = []
    i = 0
    while i < len(args):
        k = kinds[i]
        if k == '-':
            i += 1
            continue
        if k == 'A':
            if pos:
                a = pos.pop(0)
                take(a, [args[i]], a.dest)
            else: extras.append(args[i])
            i += 1
            continue
        a, name, val = k
        i += 1
        if a is None:
            extras.append(name)
            continue
        while not a.takes and val is not None and not name.startswith('--') and val != '':
            take(a, [], name)                               # flags written together
            name, val = '-' + val[0], val[1:] or None
            if name not in opt: error(f'ignored explicit argument')
            a = opt[name]
        if not a.takes:
            if val is not None: error(f'argument {name}: ignored explicit argument')
            take(a, [], name)
        elif val is not None:
            if not name.startswith('--') and isinstance(val, str) and val.startswith('=') : val = val[1:]
            take(a, [val], name)
        elif i < len(args) and kinds[i] == 'A':
            take(a, [args[i]], name)
            i += 1
        else: error(f'argument {name}: expected one argument')
    for a in pos:
        if a.nargs != '?': error('the following arguments are required')
        take(a, [], a.dest)
    if extras: error('unrecognized arguments: ' + ' '.join(map(str, extras)))
    return ns
