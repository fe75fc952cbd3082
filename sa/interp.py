"""Abstract interpreter for the Python subset used by the analysed packages.

The source files are parsed (never imported or executed); every construct has a transfer function over the abstract
values of core.py / strs.py.  Conditions that are not decided partition the trace (core.choose)."""
from __future__ import annotations

import ast
import os
import re
from fractions import Fraction
from .num import Lin, L, unlin, bounds
from . import core
from .core import (Obj, touch, FV, Top, Frac, Unsupported, Cut, Infeasible, P, choose, ge0, lt, le, eq_int, fv_map, fv_norm,
                   force, new_int, surely_eq, lsub, fv_groups, lin_sign_query)
from . import strs
from .rx import M as RxM
from .strs import SV, Lit, NumP, ChrP, Tab, Rep, Run, Opq, CS, concat, kind_of, is_str, mk, sv


class AExc(Exception):
    """Exception of the analysed program."""

    def __init__(self, value, where=None):
        self.value = value
        self.where = where

    def __str__(self):
        try: return f'{self.value.cls.name}'
        except AttributeError: return 'exception'


class _Break(Exception): pass
class _Continue(Exception): pass


class _Return(Exception):
    def __init__(self, v): self.v = v


# ---------------------------------------------------------------- heap objects
class Inst(Obj):
    __slots__ = ('cls', 'd', 'payload', 'ident')
    N = 0

    def __init__(self, cls, d=None, payload=None):
        self.cls, self.d, self.payload = cls, d if d is not None else {}, payload
        self.ep = core.J.cur

    def _save(self): return (self.cls, dict(self.d), self.payload.copy() if isinstance(self.payload, (list, dict)) else self.payload)
    def _restore(self, s): self.cls, self.d, self.payload = s
    def __repr__(self): return f'<{self.cls.name}>'


class Cls(Obj):
    __slots__ = ('name', 'bases', 'd', 'mro', 'mod', 'host', 'qual', 'slots', 'kind', 'lineno')

    def __init__(self, name, bases=(), d=None, mod='builtins', host=None):
        self.name, self.bases, self.d, self.mod, self.host = name, tuple(bases), d if d is not None else {}, mod, host
        self.ep = core.J.cur
        self.kind = None
        self.qual = name
        self.mro = c3(self)

    def _save(self): return dict(self.d)
    def _restore(self, s): self.d = s
    def __repr__(self): return f'<class {self.name}>'

    def lookup(self, name):
        for c in self.mro:
            if name in c.d: return c.d[name]
        return MISSING

    def is_sub(self, o): return o in self.mro


def c3(cls):
    seqs = [list(b.mro) for b in cls.bases] + [list(cls.bases)]
    out = [cls]
    while True:
        seqs = [s for s in seqs if s]
        if not seqs: return out
        for s in seqs:
            c = s[0]
            if not any(c in t[1:] for t in seqs): break
        else: raise Unsupported('inconsistent MRO')
        out.append(c)
        for s in seqs:
            if s[0] is c: s.pop(0)


class Frame(Obj):
    """Local variables of a function activation (also class bodies)."""
    __slots__ = ('vars', 'func', 'parent', 'mod', 'kind', 'clscell', 'node', 'globals_', 'nonlocals_', 'yields', 'curexc', 'locals_')

    def __init__(self, func, parent, mod, kind='func'):
        self.vars, self.func, self.parent, self.mod, self.kind = {}, func, parent, mod, kind
        self.ep = core.J.cur
        self.clscell = None
        self.node = None
        self.globals_ = self.nonlocals_ = ()
        self.yields = None
        self.curexc = None
        self.locals_ = None

    def _save(self): return dict(self.vars)
    def _restore(self, s): self.vars = s


class Func:
    __slots__ = ('name', 'node', 'closure', 'mod', 'defaults', 'kwdefaults', 'clscell', 'qual', 'attrs', 'info')

    def __init__(self, name, node, closure, mod): self.name, self.node, self.closure, self.mod = name, node, closure, mod

    def __repr__(self): return f'<function {self.qual}>'


class Bound:
    __slots__ = ('func', 'self_')
    def __init__(self, func, self_): self.func, self.self_ = func, self_


class Builtin:
    __slots__ = ('name', 'fn', 'attrs')
    def __init__(self, name, fn): self.name, self.fn, self.attrs = name, fn, None
    def __repr__(self): return f'<builtin {self.name}>'


class Mod(Obj):
    __slots__ = ('name', 'd', 'file', 'tree', 'lib', 'pkg')

    def __init__(self, name, file=None):
        self.name, self.d, self.file = name, {}, file
        self.ep = core.J.cur
        self.lib = None
        self.tree = None
        self.pkg = False

    def _save(self): return dict(self.d)
    def _restore(self, s): self.d = s
    def __repr__(self): return f'<module {self.name}>'


SORTER = None       # set by the interpreter


class AList(Obj):
    __slots__ = ('_v', 'pend', 'kind', 'maxlen')

    def __init__(self, v=(), kind='list', maxlen=None):
        self._v = list(v)
        self.pend = []          # items not yet enumerated: ('one', x) | ('all', abstract string)
        self.kind = kind
        self.maxlen = maxlen
        self.ep = core.J.cur

    @property
    def v(self):
        if self.pend:
            touch(self)
            pend, self.pend = self.pend, []
            if pend[0][0] == 'sorted':
                self.pend = pend
                SORTER.sort_first(self, 1 << 30)
                return self._v
            for i, (k, x) in enumerate(pend):
                if k == 'one': self._v.append(x)
                else: self._v.extend(strs.elements(x))
        return self._v

    @v.setter
    def v(self, x):
        self._v = x
        self.pend = []

    def _save(self): return (list(self._v), list(self.pend))
    def _restore(self, s): self._v, self.pend = s
    def __repr__(self): return f'<{self.kind} of {len(self.v)}>'


class ADict(Obj):
    """Insertion ordered dict. m: token -> (key, value)."""
    __slots__ = ('m', 'default')

    def __init__(self, items=(), default=None):
        self.m = {}
        self.default = default
        self.ep = core.J.cur

    def _save(self): return dict(self.m)
    def _restore(self, s): self.m = s
    def __repr__(self): return f'<dict of {len(self.m)}>'


class ASet(Obj):
    __slots__ = ('m', 'frozen')

    def __init__(self, frozen=False):
        self.m = {}
        self.frozen = frozen
        self.ep = core.J.cur

    def _save(self): return dict(self.m)
    def _restore(self, s): self.m = s


class Prop:
    __slots__ = ('fget', 'fset', 'fdel', 'cached')
    def __init__(self, fget=None, fset=None, fdel=None, cached=False): self.fget, self.fset, self.fdel, self.cached = fget, fset, fdel, cached


class SM:
    __slots__ = ('f',)
    def __init__(self, f): self.f = f


class CM:
    __slots__ = ('f',)
    def __init__(self, f): self.f = f


class Iter(Obj):
    __slots__ = ('it', 'pos', 'src')

    def __init__(self, items):
        self.it = items     # list
        self.pos = 0
        self.ep = core.J.cur

    def _save(self): return self.pos
    def _restore(self, s): self.pos = s


class SuperObj:
    __slots__ = ('cls', 'self_')
    def __init__(self, cls, self_): self.cls, self.self_ = cls, self_


class DictView:
    __slots__ = ('d', 'what')
    def __init__(self, d, what): self.d, self.what = d, what


class NSView:
    """__dict__ of an object."""
    __slots__ = ('o',)
    def __init__(self, o): self.o = o


MISSING = type('MISSING', (), {'__repr__': lambda s: 'MISSING'})()
NUM = (int, float)
PRIM = (int, float, str, bytes, bool, type(None))


def fold_info(s, func):
    """(accumulator, temporaries) of a loop that only appends to one string variable; False otherwise."""
    body = s.body
    stored, aug, loads = set(), set(), []
    inside = set()
    for st in body:
        for n in ast.walk(st):
            inside.add(id(n))
            if isinstance(n, (ast.Break, ast.Return, ast.Yield, ast.YieldFrom, ast.Await, ast.Global, ast.Nonlocal, ast.FunctionDef, ast.Lambda,
                              ast.Delete, ast.Try, ast.With)): return False
            if isinstance(n, ast.AugAssign):
                if isinstance(n.target, ast.Name) and isinstance(n.op, ast.Add): aug.add(n.target.id)
            if isinstance(n, ast.Name):
                if isinstance(n.ctx, ast.Store): stored.add(n.id)
                else: loads.append(n.id)
    for n in ast.walk(s.target):
        inside.add(id(n))
        if isinstance(n, ast.Name): stored.add(n.id)
    if len(aug) != 1: return False
    acc = next(iter(aug))
    if acc in loads: return False
    n_acc = sum(1 for st in body for n in ast.walk(st) if isinstance(n, ast.Name) and n.id == acc)
    n_aug = sum(1 for st in body for n in ast.walk(st) if isinstance(n, ast.AugAssign) and isinstance(n.target, ast.Name) and n.target.id == acc)
    if n_acc != n_aug: return False
    temps = stored - {acc}
    if func is not None:
        for n in ast.walk(func):
            if isinstance(n, ast.Name) and n.id in temps and id(n) not in inside: return False
    return acc, temps


class Cfg:
    loop_bound = 4        # undecided iterations of one loop activation
    rounds = 4000         # iterations of one activation of a while loop (the scenarios need less than a tenth of it)
    max_depth = 220


def decimal_ratio(v):
    """The decimal a float is written as, if it has at most 15 significant digits."""
    m = re.fullmatch(r'(-?)(\d+)(?:\.(\d+))?(?:e(-?\d+))?', repr(v))
    if not m: return None
    digits = m[2] + (m[3] or '')
    if len(digits.strip('0')) > 15: return None
    x = Fraction(m[1] + digits) * Fraction(10) ** (int(m[4] or 0) - len(m[3] or ''))
    return x.numerator, x.denominator


class Interp:
    def __init__(self, roots):
        """roots: dict package name -> directory"""
        self.roots = roots
        self.mods = {}
        self.stack = []           # frames
        from . import lib
        global SORTER
        SORTER = self.lib = lib.Lib(self)
        self.B = self.lib.builtins
        self.funcs_seen = set()
        self.last_func = None
        core.Ctx.locate = staticmethod(self.where)
        self.sites = 0

    # ------------------------------------------------------------ modules
    def load(self, name):
        if name in self.mods: return self.mods[name]
        top = name.split('.')[0]
        if top not in self.roots:
            m = self.lib.module(name)
            if m is None: raise Unsupported(f'module {name}')
            self.mods[name] = m
            return m
        parent = None
        if '.' in name:
            parent = self.load(name.rsplit('.', 1)[0])
            if name in self.mods: return self.mods[name]
        rel = name.split('.')[1:]
        base = os.path.join(self.roots[top], *rel)
        if os.path.isdir(base):
            file, pkg = os.path.join(base, '__init__.py'), True
        else: file, pkg = base + '.py', False
        if not os.path.exists(file):
            self.raise_('ModuleNotFoundError', f'No module named {name!r}')
        m = Mod(name, file)
        m.pkg = pkg
        self.mods[name] = m
        m.d['__name__'] = name
        m.d['__file__'] = file
        m.d['__doc__'] = None
        with open(file, encoding='utf-8') as f: src = f.read()
        m.tree = ast.parse(src, file)
        if parent is not None:
            parent.d[name.rsplit('.', 1)[1]] = m
        fr = Frame(None, None, m, 'module')
        fr.vars = m.d
        self.stack.append(fr)
        try: self.block(m.tree.body, fr)
        finally: self.stack.pop()
        return m

    def imp_name(self, mod, node_module, level):
        if level == 0: return node_module
        parts = mod.name.split('.')
        if not mod.pkg: parts = parts[:-1]
        parts = parts[:len(parts) - (level - 1)]
        return '.'.join(parts + ([node_module] if node_module else []))

    # ------------------------------------------------------------ errors
    def raise_(self, cls, *args):
        c = self.B[cls] if isinstance(cls, str) else cls
        e = Inst(c, {'args': tuple(args), '__cause__': None, '__traceback__': None, '__context__': None})
        raise AExc(e, self.where())

    def where(self):
        for fr in reversed(self.stack):
            if fr.node is not None and fr.mod.file:
                return (fr.mod.file, getattr(fr.node, 'lineno', 0), fr.func.qual if fr.func else '<module>')
        return ('?', 0, '?')

    def trace(self):
        return [(fr.func.qual if fr.func else fr.mod.name, getattr(fr.node, 'lineno', 0), fr.mod.file) for fr in self.stack if fr.mod]

    # ------------------------------------------------------------ statements
    def block(self, body, fr):
        for s in body: self.stmt(s, fr)

    def stmt(self, s, fr):
        fr.node = s
        p = core.Ctx.cur
        if p is not None:
            p.steps += 1
            if p.steps > p.limit: self.endless(fr)
        m = getattr(self, 's_' + type(s).__name__, None)
        if m is None: raise Unsupported(f'statement {type(s).__name__}')
        m(s, fr)

    def endless(self, fr):
        P().at = (fr.mod.file if fr.mod else None, getattr(fr.node, 'lineno', 0), fr.func.qual if fr.func else None)
        raise Cut('endless')

    def s_Expr(self, s, fr):
        if isinstance(s.value, ast.Constant): return
        self.ev(s.value, fr)

    def s_Pass(self, s, fr): pass

    def s_Assign(self, s, fr):
        v = self.ev(s.value, fr)
        for t in s.targets: self.assign(t, v, fr)

    def s_AnnAssign(self, s, fr):
        if fr.kind == 'class' and isinstance(s.target, ast.Name):
            fr.vars.setdefault('__annotations__', ADict())
            an = fr.vars['__annotations__']
            touch(an)
            an.m[s.target.id] = (s.target.id, None)
        if s.value is not None: self.assign(s.target, self.ev(s.value, fr), fr)

    def s_AugAssign(self, s, fr):
        t = s.target
        if isinstance(t, ast.Name): cur = self.name(t.id, fr)
        elif isinstance(t, ast.Attribute):
            o = self.ev(t.value, fr)
            cur = self.getattr_(o, t.attr)
        elif isinstance(t, ast.Subscript):
            o = self.ev(t.value, fr)
            k = self.index(t.slice, fr)
            cur = self.getitem(o, k)
        else: raise Unsupported('augmented target')
        rhs = self.ev(s.value, fr)
        fr.node = s
        v = self.iop(s.op, cur, rhs)
        if isinstance(t, ast.Name): self.assign(t, v, fr)
        elif isinstance(t, ast.Attribute): self.setattr_(o, t.attr, v)
        else: self.setitem(o, k, v)

    def iop(self, op, a, b):
        a = self.strip(a)
        if isinstance(a, AList) and isinstance(op, ast.Add):
            items = self.iter_list(b)
            touch(a)
            a.v.extend(items)
            return a
        if isinstance(a, ASet) and isinstance(op, (ast.BitOr, ast.Sub, ast.BitAnd)) and not a.frozen:
            r = self.binop(op, a, b)
            touch(a)
            a.m = r.m
            return a
        if isinstance(a, Inst):
            nm = {ast.Add: '__iadd__', ast.Sub: '__isub__', ast.Mult: '__imul__', ast.BitOr: '__ior__', ast.BitAnd: '__iand__'}.get(type(op))
            if nm:
                f = a.cls.lookup(nm)
                if f is not MISSING:
                    r = self.call(self.bind(f, a), [b])
                    if r is not NotImplemented: return r
        return self.binop(op, a, b)

    def s_Return(self, s, fr):
        raise _Return(None if s.value is None else self.ev(s.value, fr))

    def s_If(self, s, fr):
        if self.truth(self.ev(s.test, fr), s.test): self.block(s.body, fr)
        else: self.block(s.orelse, fr)

    def s_While(self, s, fr):
        und = rounds = 0
        while True:
            fr.node = s
            rounds += 1
            if rounds > Cfg.rounds: self.endless(fr)
            n0 = len(P().trail) if P() else 0
            c = self.truth(self.ev(s.test, fr), s.test)
            if not c:
                self.block(s.orelse, fr)
                return
            try: self.block(s.body, fr)
            except _Break: return
            except _Continue: pass
            if P():
                if len(P().trail) > n0:
                    und += 1
                    if und > Cfg.loop_bound: raise Cut('loop bound')

    def fold(self, s, it, fr):
        """for x in <run of symbolic length>: acc += f(x)  with an effect-free f  ->  acc + image of the run."""
        it = strs.norm(it) if isinstance(it, SV) else it
        if not isinstance(it, SV) or s.orelse or fr.func is None or fr.kind == 'comp': return False
        if not any(isinstance(q, (Run, Rep)) and not isinstance(unlin(L(lsub(q.hi, q.lo)) if isinstance(q, Run) else L(q.n)), int) for q in it.parts):
            return False
        info = getattr(s, '_fold', None)
        if info is None: info = s._fold = fold_info(s, fr.func.node)
        if not info: return False
        acc, temps = info
        if acc not in fr.vars or not isinstance(fr.vars[acc], (str, bytes, SV)): return False
        zero = '' if kind_of(fr.vars[acc]) == 's' else b''

        def body(val):
            cf = Frame(fr.func, fr.parent, fr.mod, fr.kind)
            cf.clscell, cf.globals_, cf.nonlocals_, cf.curexc = fr.clscell, fr.globals_, fr.nonlocals_, fr.curexc
            cf.node = fr.node
            cf.vars = {k: v for k, v in fr.vars.items() if k not in temps}
            cf.vars[acc] = zero
            self.assign(s.target, val, cf)
            try: self.block(s.body, cf)
            except _Continue: pass
            return cf.vars[acc]
        try: m = self.image(it, body)
        except (_Break, _Return): return False
        if m is None: return False
        r = self.lib.join_mapped(m, zero)
        if r is None: return False
        self.setname(acc, concat(fr.vars[acc], r), fr)
        return True

    def s_For(self, s, fr):
        it = self.ev(s.iter, fr)
        if isinstance(it, SV) and self.fold(s, it, fr): return
        for v in self.iter_live(it):
            self.assign(s.target, v, fr)
            try: self.block(s.body, fr)
            except _Break: return
            except _Continue: continue
        self.block(s.orelse, fr)

    def s_Break(self, s, fr): raise _Break()
    def s_Continue(self, s, fr): raise _Continue()

    def s_FunctionDef(self, s, fr):
        f = self.mkfunc(s, fr)
        for d in reversed(s.decorator_list):
            dv = self.ev(d, fr)
            f = self.call(dv, [f])
        self.setname(s.name, f, fr)

    s_AsyncFunctionDef = None

    def mkfunc(self, s, fr, name=None):
        f = Func(name or getattr(s, 'name', '<lambda>'), s, fr, fr.mod)
        a = s.args
        f.defaults = [self.ev(d, fr) for d in a.defaults]
        f.kwdefaults = {k.arg: self.ev(d, fr) for k, d in zip(a.kwonlyargs, a.kw_defaults) if d is not None}
        f.clscell = fr.clscell
        f.attrs = {}
        q = fr
        pre = ''
        if fr.kind == 'class': pre = fr.vars.get('__qualname__', '') + '.'
        elif fr.func is not None: pre = fr.func.qual + '.'
        f.qual = pre + f.name
        f.info = None
        return f

    def s_ClassDef(self, s, fr):
        bases = []
        for b in s.bases:
            bv = self.strip(self.ev(b, fr))
            if isinstance(bv, (tuple,)): continue
            bases.append(bv)
        bases = [self.lib.as_class(b) for b in bases]
        bases = [b for b in bases if b is not None]
        # drop duplicates / Generic before others
        gen = self.B['Generic']
        if gen in bases and len(bases) > 1:
            if any(gen in b.mro for b in bases if b is not gen): bases = [b for b in bases if b is not gen]
        if not bases: bases = [self.B['object']]
        kw = {k.arg: self.ev(k.value, fr) for k in s.keywords}
        cf = Frame(fr.func, fr, fr.mod, 'class')
        cell = {}
        cf.clscell = cell
        pre = ''
        if fr.kind == 'class': pre = fr.vars.get('__qualname__', '') + '.'
        cf.vars['__qualname__'] = pre + s.name
        cf.vars['__module__'] = fr.mod.name
        doc = ast.get_docstring(s)
        cf.vars['__doc__'] = doc
        self.stack.append(cf)
        try: self.block(s.body, cf)
        finally: self.stack.pop()
        ns = dict(cf.vars)
        cls = Cls(s.name, bases, ns, fr.mod.name)
        cls.qual = pre + s.name
        cls.lineno = s.lineno
        cell['c'] = cls
        self.lib.finish_class(cls, kw)
        for b in cls.mro[1:]:
            if '__init_subclass__' in b.d:
                f = b.d['__init_subclass__']
                f = f.f if isinstance(f, CM) else f
                self.call(f, [cls], {k: v for k, v in kw.items() if k != 'metaclass'})
                break
        out = cls
        for d in reversed(s.decorator_list): out = self.call(self.ev(d, fr), [out])
        self.setname(s.name, out, fr)

    def s_Import(self, s, fr):
        for a in s.names:
            m = self.load(a.name)
            if a.asname: self.setname(a.asname, m, fr)
            else: self.setname(a.name.split('.')[0], self.load(a.name.split('.')[0]), fr)

    def s_ImportFrom(self, s, fr):
        if s.module == '__future__': return
        name = self.imp_name(fr.mod, s.module, s.level)
        m = self.load(name)
        for a in s.names:
            if a.name == '*':
                al = m.d.get('__all__')
                names = [x for x in al.v] if isinstance(al, AList) else [k for k in m.d if not k.startswith('_')]
                for k in names: self.setname(k, m.d[k], fr)
                continue
            if a.name in m.d: v = m.d[a.name]
            else:
                v = self.lib.mod_attr(m, a.name)
                if v is MISSING:
                    if m.lib is None and m.pkg:
                        try: v = self.load(name + '.' + a.name)
                        except AExc: self.raise_('ImportError', f'cannot import name {a.name!r} from {name!r}')
                    else: self.raise_('ImportError', f'cannot import name {a.name!r} from {name!r}')
            self.setname(a.asname or a.name, v, fr)

    def s_Global(self, s, fr): pass
    def s_Nonlocal(self, s, fr): pass

    def s_Delete(self, s, fr):
        for t in s.targets:
            if isinstance(t, ast.Name):
                touch(fr)
                fr.vars.pop(t.id, None)
            elif isinstance(t, ast.Attribute):
                o = self.ev(t.value, fr)
                touch(o)
                if t.attr not in o.d: self.raise_('AttributeError', t.attr)
                del o.d[t.attr]
            elif isinstance(t, ast.Subscript):
                o = self.ev(t.value, fr)
                self.delitem(o, self.index(t.slice, fr))
            else: raise Unsupported('del')

    def s_Assert(self, s, fr):
        if not self.truth(self.ev(s.test, fr), s.test):
            msg = [] if s.msg is None else [self.ev(s.msg, fr)]
            self.raise_('AssertionError', *msg)

    def s_Raise(self, s, fr):
        if s.exc is None:
            f = fr
            while f is not None and f.curexc is None: f = f.parent if f.kind == 'comp' else None
            e = f.curexc if f is not None else (self.lib.handling[-1] if self.lib.handling else None)
            if e is None: self.raise_('RuntimeError', 'No active exception to reraise')
            raise AExc(e, self.where())
        e = self.strip(self.ev(s.exc, fr))
        if isinstance(e, Cls): e = self.call(e, [])
        if not isinstance(e, Inst) or not e.cls.is_sub(self.B['BaseException']):
            if e is NotImplemented or e is NotImplemented: self.raise_('TypeError', 'exceptions must derive from BaseException')
            self.raise_('TypeError', 'exceptions must derive from BaseException')
        if s.cause is not None:
            c = self.ev(s.cause, fr)
            touch(e)
            e.d['__cause__'] = c
        if self.lib.handling and '__context__' in e.d and e.d['__context__'] is None:
            touch(e)
            e.d['__context__'] = self.lib.handling[-1]
        raise AExc(e, self.where())

    def s_Try(self, s, fr):
        def body():
            try:
                self.block(s.body, fr)
            except AExc as x:
                for h in s.handlers:
                    if h.type is None: ok = True
                    else:
                        t = self.strip(self.ev(h.type, fr))
                        ts = list(t) if isinstance(t, tuple) else [t]
                        ok = any(x.value.cls.is_sub(c) for c in ts)
                    if ok:
                        touch(fr)
                        if h.name: self.setname(h.name, x.value, fr)
                        prev = fr.curexc
                        fr.curexc = x.value
                        self.lib.handling.append(x.value)
                        self.lib.caught(x, h, fr)
                        try: self.block(h.body, fr)
                        finally:
                            self.lib.handling.pop()
                            fr.curexc = prev
                        if h.name: fr.vars.pop(h.name, None)
                        return
                raise
            else:
                self.block(s.orelse, fr)
        if not s.finalbody: return body()
        try:
            body()
        except (AExc, _Return, _Break, _Continue):
            self.block(s.finalbody, fr)
            raise
        self.block(s.finalbody, fr)

    def s_With(self, s, fr):
        self._with(s.items, s.body, fr)

    def _with(self, items, body, fr):
        if not items: return self.block(body, fr)
        it = items[0]
        cm = self.strip(self.ev(it.context_expr, fr))
        enter = self.getattr_(cm, '__enter__')
        exit_ = self.getattr_(cm, '__exit__')
        v = self.call(enter, [])
        if it.optional_vars is not None: self.assign(it.optional_vars, v, fr)
        try:
            self._with(items[1:], body, fr)
        except AExc as x:
            r = self.call(exit_, [x.value.cls, x.value, None])
            if self.truth(r): return
            raise
        except (_Return, _Break, _Continue):
            self.call(exit_, [None, None, None])
            raise
        self.call(exit_, [None, None, None])

    def s_Match(self, s, fr):
        subj = self.ev(s.subject, fr)
        for c in s.cases:
            if self.pattern(c.pattern, subj, fr):
                if c.guard is None or self.truth(self.ev(c.guard, fr)):
                    return self.block(c.body, fr)

    def pattern(self, p, v, fr):
        if isinstance(p, ast.MatchValue): return self.truth(self.eq(v, self.ev(p.value, fr)))
        if isinstance(p, ast.MatchSingleton): return self.is_(v, p.value)
        if isinstance(p, ast.MatchOr): return any(self.pattern(q, v, fr) for q in p.patterns)
        if isinstance(p, ast.MatchAs):
            if p.pattern is not None and not self.pattern(p.pattern, v, fr): return False
            if p.name: self.setname(p.name, v, fr)
            return True
        if isinstance(p, ast.MatchClass):
            if not self.truth(self.lib.isinstance_(v, self.ev(p.cls, fr))): return False
            if p.patterns:
                if len(p.patterns) == 1 and self.ev(p.cls, fr) in [self.B[n] for n in ('str', 'bytes', 'int', 'float', 'bool', 'list', 'tuple', 'dict', 'set', 'frozenset')]:
                    return self.pattern(p.patterns[0], v, fr)
                raise Unsupported('positional class pattern')
            for a, q in zip(p.kwd_attrs, p.kwd_patterns):
                if not self.pattern(q, self.getattr_(v, a), fr): return False
            return True
        if isinstance(p, ast.MatchSequence):
            v = self.strip(v)
            if not isinstance(v, (tuple, AList)): return False
            items = list(v) if isinstance(v, tuple) else v.v
            st = next((i for i, q in enumerate(p.patterns) if isinstance(q, ast.MatchStar)), None)
            if st is not None:
                after = len(p.patterns) - st - 1
                if len(items) < st + after: return False
                cut = len(items) - after
                if not all(self.pattern(q, x, fr) for q, x in zip(p.patterns[:st], items[:st])): return False
                if p.patterns[st].name: self.setname(p.patterns[st].name, AList(items[st:cut]), fr)
                return all(self.pattern(q, x, fr) for q, x in zip(p.patterns[st + 1:], items[cut:]))
            return len(items) == len(p.patterns) and all(self.pattern(q, x, fr) for q, x in zip(p.patterns, items))
        if isinstance(p, ast.MatchMapping):
            v = self.strip(v)
            if not isinstance(v, ADict): return False
            used = []
            for k, q in zip(p.keys, p.patterns):
                kv = self.ev(k, fr)
                if not self.truth(self.contains(v, kv)): return False
                used.append(kv)
                if not self.pattern(q, self.getitem(v, kv), fr): return False
            if p.rest:
                d = ADict()
                for k, x in v.m.values():
                    if not any(self.truth(self.eq(k, u)) for u in used): self.dict_set(d, k, x)
                self.setname(p.rest, d, fr)
            return True
        raise Unsupported('match pattern')

    # ------------------------------------------------------------ names
    def finfo(self, node):
        i = getattr(node, '_sa_info', None)
        if i is None:
            i = node._sa_info = _FInfo(node)
        return i

    def name(self, n, fr):
        f = fr
        first = True
        if fr.kind == 'module':
            if n in fr.vars: return fr.vars[n]
        else:
            while f is not None and f.kind != 'module':
                if f.kind == 'class' and not first:
                    f = f.parent
                    continue
                if n in f.globals_: break
                if n in f.vars and not (f.kind == 'func' and n in f.nonlocals_): return f.vars[n]
                if f.kind == 'func' and f.locals_ is not None and n in f.locals_ and n not in f.nonlocals_:
                    self.raise_('UnboundLocalError', f'cannot access local variable {n!r}')
                first = f.kind == 'comp' and first
                f = f.parent
            if n in fr.mod.d: return fr.mod.d[n]
        if n in self.B: return self.B[n]
        self.raise_('NameError', f'name {n!r} is not defined')

    def setname(self, n, v, fr):
        if fr.kind == 'func':
            if n in fr.globals_:
                touch(fr.mod)
                fr.mod.d[n] = v
                return
            if n in fr.nonlocals_:
                f = fr.parent
                while f is not None and not (f.kind == 'func' and n in f.vars): f = f.parent
                if f is None: raise Unsupported('nonlocal')
                touch(f)
                f.vars[n] = v
                return
        if fr.kind == 'module':
            touch(fr.mod)
            fr.mod.d[n] = v
            fr.vars = fr.mod.d
            return
        if fr.kind == 'comp' and fr.vars.get('\0targets') is not None and n not in fr.vars['\0targets']:
            return self.setname(n, v, fr.parent)   # walrus
        touch(fr)
        fr.vars[n] = v

    def assign(self, t, v, fr):
        if isinstance(t, ast.Name): self.setname(t.id, v, fr)
        elif isinstance(t, ast.Attribute): self.setattr_(self.ev(t.value, fr), t.attr, v)
        elif isinstance(t, ast.Subscript): self.setitem(self.ev(t.value, fr), self.index(t.slice, fr), v)
        elif isinstance(t, (ast.Tuple, ast.List)):
            items = self.iter_list(v)
            star = [i for i, e in enumerate(t.elts) if isinstance(e, ast.Starred)]
            if star:
                i = star[0]
                after = len(t.elts) - i - 1
                if len(items) < len(t.elts) - 1: self.raise_('ValueError', 'not enough values to unpack')
                for e, x in zip(t.elts[:i], items): self.assign(e, x, fr)
                self.assign(t.elts[i].value, AList(items[i:len(items) - after]), fr)
                for e, x in zip(t.elts[i + 1:], items[len(items) - after:]): self.assign(e, x, fr)
                return
            if len(items) != len(t.elts): self.raise_('ValueError', 'wrong number of values to unpack')
            for e, x in zip(t.elts, items): self.assign(e, x, fr)
        else: raise Unsupported('assignment target')

    # ------------------------------------------------------------ expressions
    def ev(self, e, fr):
        p = core.Ctx.cur
        if p is not None: p.steps += 1
        return getattr(self, 'e_' + type(e).__name__)(e, fr)

    def __getattr__(self, n):
        if n.startswith('e_'): raise Unsupported('expression ' + n[2:])
        raise AttributeError(n)

    def e_Constant(self, e, fr): return e.value
    def e_Name(self, e, fr): return self.name(e.id, fr)

    def e_Attribute(self, e, fr):
        o = self.ev(e.value, fr)
        return self.getattr_(o, e.attr)

    def e_Tuple(self, e, fr): return tuple(self.seq(e.elts, fr))
    def e_List(self, e, fr): return AList(self.seq(e.elts, fr))

    def e_Set(self, e, fr):
        s = ASet()
        for x in self.seq(e.elts, fr): self.set_add(s, x)
        return s

    def seq(self, elts, fr):
        out = []
        for x in elts:
            if isinstance(x, ast.Starred): out += self.iter_list(self.ev(x.value, fr))
            else: out.append(self.ev(x, fr))
        return out

    def e_Dict(self, e, fr):
        d = ADict()
        for k, v in zip(e.keys, e.values):
            if k is None:
                o = self.strip(self.ev(v, fr))
                for kk, vv in self.dict_items(o): self.dict_set(d, kk, vv)
            else:
                kv = self.ev(k, fr)
                self.dict_set(d, kv, self.ev(v, fr))
        return d

    def e_UnaryOp(self, e, fr):
        v = self.ev(e.operand, fr)
        if isinstance(e.op, ast.Not): return not self.truth(v, e.operand)
        if isinstance(v, Top): return v
        if isinstance(v, FV): return fv_map(lambda x: self.unary(e.op, x), v)
        return self.unary(e.op, v)

    def unary(self, op, v):
        if isinstance(v, Inst):
            nm = {ast.USub: '__neg__', ast.UAdd: '__pos__', ast.Invert: '__invert__'}[type(op)]
            f = v.cls.lookup(nm)
            if f is not MISSING: return self.call(self.bind(f, v), [])
        if isinstance(op, ast.USub):
            if isinstance(v, Lin): return unlin(v.neg())
            if isinstance(v, NUM): return -v
            if isinstance(v, Frac): return Frac(L(v.num).neg(), v.den)
        if isinstance(op, ast.UAdd) and isinstance(v, (int, float, Lin)): return +v if isinstance(v, NUM) else v
        if isinstance(op, ast.Invert):
            if isinstance(v, int): return ~v
            if isinstance(v, Lin): return unlin(v.neg().add(-1))
        if isinstance(v, PRIM): self.raise_('TypeError', 'bad operand type for unary operator')
        raise Unsupported('unary')

    def e_BinOp(self, e, fr):
        a = self.ev(e.left, fr)
        b = self.ev(e.right, fr)
        return self.binop(e.op, a, b)

    def e_BoolOp(self, e, fr):
        v = None
        for i, x in enumerate(e.values):
            v = self.ev(x, fr)
            if i == len(e.values) - 1: return v
            t = self.truth(v, x)
            if isinstance(e.op, ast.And) and not t: return v if not isinstance(v, FV) else fv_norm(v)
            if isinstance(e.op, ast.Or) and t: return v if not isinstance(v, FV) else fv_norm(v)
        return v

    def e_IfExp(self, e, fr):
        return self.ev(e.body if self.truth(self.ev(e.test, fr), e.test) else e.orelse, fr)

    def e_Lambda(self, e, fr): return self.mkfunc(e, fr, '<lambda>')

    def e_NamedExpr(self, e, fr):
        v = self.ev(e.value, fr)
        self.assign(e.target, v, fr)
        return v

    def e_Starred(self, e, fr): raise Unsupported('starred')

    def e_JoinedStr(self, e, fr):
        parts = []
        for v in e.values:
            if isinstance(v, ast.Constant): parts.append(v.value)
            else: parts.append(self.e_FormattedValue(v, fr))
        return concat('', *parts)

    def e_FormattedValue(self, v, fr):
        x = self.ev(v.value, fr)
        if v.conversion == 115: x = self.lib.str_(x)
        elif v.conversion == 114: x = self.lib.repr_(x)
        elif v.conversion == 97: x = self.lib.repr_(x)
        spec = '' if v.format_spec is None else self.ev(v.format_spec, fr)
        return self.lib.format_(x, spec)

    def e_Compare(self, e, fr):
        l = self.ev(e.left, fr)
        r = True
        for i, (op, c) in enumerate(zip(e.ops, e.comparators)):
            rv = self.ev(c, fr)
            r = self.compare(op, l, rv)
            if i == len(e.ops) - 1: return r
            if not self.truth(r): return False
            l = rv
        return r

    def e_Call(self, e, fr):
        f = self.ev(e.func, fr)
        args, kw = [], {}
        for a in e.args:
            if isinstance(a, ast.Starred): args += self.iter_list(self.ev(a.value, fr))
            else: args.append(self.ev(a, fr))
        for k in e.keywords:
            if k.arg is None:
                for kk, vv in self.dict_items(self.strip(self.ev(k.value, fr))): kw[kk] = vv
            else: kw[k.arg] = self.ev(k.value, fr)
        fr.node = e
        return self.call(f, args, kw)

    def e_Subscript(self, e, fr):
        o = self.ev(e.value, fr)
        o = self.strip(o)
        if isinstance(o, Cls) and o.lookup('__class_getitem__') is MISSING and o.kind != 'enum': return o   # generic alias
        if isinstance(o, Builtin) and o.name.startswith('typing.'): return o
        k = self.index(e.slice, fr)
        return self.getitem(o, k)

    def index(self, s, fr):
        if isinstance(s, ast.Slice):
            return slice(None if s.lower is None else self.ev(s.lower, fr), None if s.upper is None else self.ev(s.upper, fr),
                         None if s.step is None else self.ev(s.step, fr))
        return self.ev(s, fr)

    def e_Slice(self, s, fr): return self.index(s, fr)

    # comprehensions
    def e_ListComp(self, e, fr): return AList(self.comp(e, e.elt, fr))

    def e_GeneratorExp(self, e, fr):
        return self.comp_table(e, fr)

    def e_SetComp(self, e, fr):
        s = ASet()
        for x in self.comp(e, e.elt, fr): self.set_add(s, x)
        return s

    def e_DictComp(self, e, fr):
        d = ADict()
        for k, v in self.comp(e, ast.Tuple([e.key, e.value], ast.Load()), fr): self.dict_set(d, k, v)
        return d

    def comp(self, e, elt, fr):
        cf = Frame(fr.func, fr, fr.mod, 'comp')
        cf.clscell = fr.clscell
        cf.vars['\0targets'] = {n.id for g in e.generators for n in ast.walk(g.target) if isinstance(n, ast.Name)}
        out = []

        def go(i):
            if i == len(e.generators):
                out.append(self.ev(elt, cf))
                return
            g = e.generators[i]
            it = self.ev(g.iter, fr if i == 0 else cf)
            if i == 0 and isinstance(e, ast.ListComp) and len(e.generators) == 1:
                t = self.tabulate(e, it, fr)
                if t is not None:
                    out.append(t)
                    return
            for v in self.iter_live(it):
                self.assign(g.target, v, cf)
                if all(self.truth(self.ev(c, cf), c) for c in g.ifs): go(i + 1)
        go(0)
        if len(out) == 1 and isinstance(out[0], MappedRun): return out
        return out

    def comp_table(self, e, fr):
        it = self.ev(e.generators[0].iter, fr)
        t = self.tabulate(e, it, fr) if len(e.generators) == 1 else None
        if t is not None: return t
        return LazyIter(lambda: self.comp_live(e, it, fr))

    def comp_live(self, e, first, fr):
        """The elements of a generator expression, each computed when asked for."""
        cf = Frame(fr.func, fr, fr.mod, 'comp')
        cf.clscell = fr.clscell
        cf.vars['\0targets'] = {n.id for g in e.generators for n in ast.walk(g.target) if isinstance(n, ast.Name)}

        def go(i):
            g = e.generators[i]
            for v in self.iter_live(first if i == 0 else self.ev(g.iter, cf)):
                self.assign(g.target, v, cf)
                if all(self.truth(self.ev(c, cf), c) for c in g.ifs):
                    if i + 1 == len(e.generators): yield self.ev(e.elt, cf)
                    else: yield from go(i + 1)
        return go(0)

    def tabulate(self, e, it, fr):
        """[f(b) for b in <run of symbolic length>] with an effect-free f -> element-wise image of the run."""
        it = strs.norm(it) if isinstance(it, (SV, FV)) else it
        if not isinstance(it, SV): return None
        g = e.generators[0]
        if g.ifs: return None
        if not any(isinstance(q, (Run, Rep)) and not isinstance(unlin(L(lsub(q.hi, q.lo)) if isinstance(q, Run) else L(q.n)), int) for q in it.parts):
            return None
        targets = {n.id for n in ast.walk(g.target) if isinstance(n, ast.Name)}

        def body(val):
            cf = Frame(fr.func, fr, fr.mod, 'comp')
            cf.clscell = fr.clscell
            cf.vars['\0targets'] = targets
            self.assign(g.target, val, cf)
            return self.ev(e.elt, cf)
        return self.image(it, body)

    def image(self, it, body):
        """Element-wise image of an abstract string under an effect-free body, or None."""
        parts = []
        for q in it.parts:
            if isinstance(q, Run):
                a = P().atoms[q.atom]
                src = q.tab
                tab = {}

                def gen():
                    els = {c: (c if src is None else (src[c] if isinstance(src[c], str) else src[c][0])) for c in a.chars}
                    x = core.new_fv('elem', a.chars)
                    x = FV(x.var, els) if isinstance(x, FV) else els[next(iter(a.chars))]
                    gen.var = x.var if isinstance(x, FV) else None
                    return body(fv_norm(x) if isinstance(x, FV) else x)
                try: res = core.local_explore(gen)
                except core.NotPure: return None
                for sub, (k, v) in res:
                    if k == 'exc':
                        return None
                    var = next((n for n in sub.dom if n.startswith('elem') and n not in P().dom), None)
                    dom = sub.dom[var] if var else a.chars
                    for c in dom:
                        if isinstance(v, FV) and v.var == var: tab[c] = v.tab[c]
                        elif isinstance(v, SV) and all(isinstance(pt, (Lit, Tab)) for pt in v.parts) and all(
                                isinstance(pt, Lit) or pt.fv.var == var for pt in v.parts):
                            r = '' if v.kind == 's' else b''
                            for pt in v.parts: r += pt.v if isinstance(pt, Lit) else pt.fv.tab[c]
                            tab[c] = r
                        elif isinstance(v, (str, bytes, int)): tab[c] = v
                        else: return None
                if set(tab) != set(a.chars): return None
                parts.append((q, tab))
            elif isinstance(q, Rep) and len(set(q.u)) == 1:
                try: res = core.local_explore(lambda: body(q.u[0]))
                except core.NotPure: return None
                if len(res) != 1 or res[0][1][0] == 'exc' or not isinstance(res[0][1][1], (str, bytes)): return None
                parts.append((q, res[0][1][1]))
            else:
                items = []
                for el in strs.elements(mk(it.kind, [q])): items.append(body(el))
                parts.append((None, items))
        return MappedRun(it.kind, parts)

    # ------------------------------------------------------------ calls
    def bind(self, f, inst):
        if isinstance(f, (Func, Builtin)): return Bound(f, inst)
        if isinstance(f, SM): return f.f
        if isinstance(f, CM): return Bound(f.f, inst.cls if isinstance(inst, Inst) else inst)
        return f

    def call(self, f, args, kw=None):
        kw = kw or {}
        f = self.strip(f)
        if isinstance(f, Bound): return self.call(f.func, [f.self_] + list(args), kw)
        if isinstance(f, Builtin):
            return f.fn(list(args), dict(kw))
        if isinstance(f, Func): return self.call_func(f, args, kw)
        if isinstance(f, Cls): return self.instantiate(f, args, kw)
        if isinstance(f, (SM,)): return self.call(f.f, args, kw)
        if isinstance(f, Inst):
            c = f.cls.lookup('__call__')
            if c is not MISSING: return self.call(self.bind(c, f), args, kw)
            self.raise_('TypeError', f'{f.cls.name!r} object is not callable')
        if isinstance(f, Top):
            P().inexact('call of unknown: ' + f.why)
            return Top(f.why)
        if isinstance(f, (PRIM, AList, ADict, tuple)): self.raise_('TypeError', 'object is not callable')
        raise Unsupported(f'call of {f!r}')

    def call_func(self, f, args, kw):
        if len(self.stack) > Cfg.max_depth:
            self.raise_('RecursionError', 'maximum recursion depth exceeded')
        hook = self.lib.hooks.get((f.mod.name, f.qual)) if self.lib.hooks else None
        if hook: return hook(self, f, args, kw)
        if f.mod.name != 'saprelude': self.funcs_seen.add((f.mod.name, f.qual))
        self.last_func = f
        node = f.node
        info = self.finfo(node)
        fr = Frame(f, f.closure, f.mod, 'func')
        fr.clscell = f.clscell
        fr.globals_, fr.nonlocals_, fr.locals_ = info.globals_, info.nonlocals_, info.locals_
        self.bind_args(f, node.args, args, kw, fr)
        if self.lib.watch: self.lib.watch(f, args, kw)
        fr.node = node
        if info.is_gen: return GenObj(self, f, fr)
        self.stack.append(fr)
        try:
            if isinstance(node, ast.Lambda): return self.ev(node.body, fr)
            try: self.block(node.body, fr)
            except _Return as r: return r.v
            return None
        finally:
            self.stack.pop()

    def e_Yield(self, e, fr): raise Unsupported('yield inside an expression')
    def e_YieldFrom(self, e, fr): raise Unsupported('yield inside an expression')

    # ------------------------------------------------------------ bodies of generators
    # Run as host generators, one statement after another: what stands between two yields takes place when the consumer
    # asks for the next element, as in the analysed program.
    def gblock(self, body, fr):
        for s in body:
            if not _yields(s): self.stmt(s, fr)
            else: yield from self.gstmt(s, fr)

    def gyield(self, v, fr):
        if isinstance(v, ast.Yield):
            x = None if v.value is None else self.ev(v.value, fr)
            return (yield x)
        src = self.strip(self.ev(v.value, fr))
        if isinstance(src, GenObj):
            while True:
                try: x = src.step()
                except _Done: return src.result
                yield x
        for x in self.iter_live(src): yield x
        return None

    def gvalue(self, v, fr):
        if isinstance(v, (ast.Yield, ast.YieldFrom)): return (yield from self.gyield(v, fr))
        if v is not None and _yields(v): raise Unsupported('yield inside an expression')
        return None if v is None else self.ev(v, fr)

    def gstmt(self, s, fr):
        fr.node = s
        p = core.Ctx.cur
        if p is not None:
            p.steps += 1
            if p.steps > p.limit: self.endless(fr)
        if isinstance(s, ast.Expr): yield from self.gvalue(s.value, fr)
        elif isinstance(s, ast.Assign):
            v = yield from self.gvalue(s.value, fr)
            for t in s.targets: self.assign(t, v, fr)
        elif isinstance(s, ast.Return):
            v = yield from self.gvalue(s.value, fr)
            raise _Return(v)
        elif isinstance(s, ast.If):
            if _yields(s.test): raise Unsupported('yield inside an expression')
            yield from self.gblock(s.body if self.truth(self.ev(s.test, fr), s.test) else s.orelse, fr)
        elif isinstance(s, ast.For):
            it = self.ev(s.iter, fr)
            for v in self.iter_live(it):
                self.assign(s.target, v, fr)
                try: yield from self.gblock(s.body, fr)
                except _Break: return
                except _Continue: continue
            yield from self.gblock(s.orelse, fr)
        elif isinstance(s, ast.While):
            if _yields(s.test): raise Unsupported('yield inside an expression')
            und = rounds = 0
            while True:
                fr.node = s
                rounds += 1
                if rounds > Cfg.rounds: self.endless(fr)
                n0 = len(P().trail) if P() else 0
                if not self.truth(self.ev(s.test, fr), s.test):
                    yield from self.gblock(s.orelse, fr)
                    return
                try: yield from self.gblock(s.body, fr)
                except _Break: return
                except _Continue: pass
                if P() and len(P().trail) > n0:
                    und += 1
                    if und > Cfg.loop_bound: raise Cut('loop bound')
        elif isinstance(s, ast.With): yield from self.gwith(s.items, s.body, fr)
        elif isinstance(s, ast.Try): yield from self.gtry(s, fr)
        else: raise Unsupported(f'yield inside {type(s).__name__}')

    def gwith(self, items, body, fr):
        if not items:
            yield from self.gblock(body, fr)
            return
        it = items[0]
        cm = self.strip(self.ev(it.context_expr, fr))
        enter = self.getattr_(cm, '__enter__')
        exit_ = self.getattr_(cm, '__exit__')
        v = self.call(enter, [])
        if it.optional_vars is not None: self.assign(it.optional_vars, v, fr)
        try: yield from self.gwith(items[1:], body, fr)
        except AExc as x:
            if self.truth(self.call(exit_, [x.value.cls, x.value, None])): return
            raise
        except (_Return, _Break, _Continue):
            self.call(exit_, [None, None, None])
            raise
        self.call(exit_, [None, None, None])

    def gtry(self, s, fr):
        def body():
            try: yield from self.gblock(s.body, fr)
            except AExc as x:
                for h in s.handlers:
                    if h.type is None: ok = True
                    else:
                        t = self.strip(self.ev(h.type, fr))
                        ok = any(x.value.cls.is_sub(c) for c in (list(t) if isinstance(t, tuple) else [t]))
                    if ok:
                        if any(_yields(q) for q in h.body): raise Unsupported('yield in an exception handler')
                        if h.name: self.setname(h.name, x.value, fr)
                        prev = fr.curexc
                        fr.curexc = x.value
                        self.lib.handling.append(x.value)
                        self.lib.caught(x, h, fr)
                        try: self.block(h.body, fr)
                        finally:
                            self.lib.handling.pop()
                            fr.curexc = prev
                        if h.name: fr.vars.pop(h.name, None)
                        return
                raise
            else: yield from self.gblock(s.orelse, fr)
        if not s.finalbody:
            yield from body()
            return
        try: yield from body()
        except (AExc, _Return, _Break, _Continue):
            yield from self.gblock(s.finalbody, fr)
            raise
        yield from self.gblock(s.finalbody, fr)

    def bind_args(self, f, a, args, kw, fr):
        v = fr.vars
        pos = [x.arg for x in a.posonlyargs + a.args]
        args = list(args)
        kw = dict(kw)
        if len(args) > len(pos):
            if a.vararg: v[a.vararg.arg] = tuple(args[len(pos):])
            else: self.raise_('TypeError', f'{f.qual}() takes {len(pos)} positional arguments but {len(args)} were given')
        elif a.vararg: v[a.vararg.arg] = ()
        for n, x in zip(pos, args): v[n] = x
        nd = len(f.defaults)
        for i, n in enumerate(pos):
            if n in v and i < len(args):
                if n in kw and n not in [x.arg for x in a.posonlyargs]: self.raise_('TypeError', f'{f.qual}() got multiple values for argument {n!r}')
                continue
            if n in kw: v[n] = kw.pop(n)
            elif i >= len(pos) - nd: v[n] = f.defaults[i - (len(pos) - nd)]
            else: self.raise_('TypeError', f'{f.qual}() missing required positional argument: {n!r}')
        for x in a.kwonlyargs:
            if x.arg in kw: v[x.arg] = kw.pop(x.arg)
            elif x.arg in f.kwdefaults: v[x.arg] = f.kwdefaults[x.arg]
            else: self.raise_('TypeError', f'{f.qual}() missing required keyword-only argument: {x.arg!r}')
        if a.kwarg:
            d = ADict()
            for k, x in kw.items(): d.m[k] = (k, x)
            v[a.kwarg.arg] = d
        elif kw: self.raise_('TypeError', f'{f.qual}() got an unexpected keyword argument {next(iter(kw))!r}')

    def instantiate(self, c, args, kw):
        ctor = self.lib.ctor(c)
        if ctor is not None: return ctor(args, kw)
        new = c.lookup('__new__')
        if new is not MISSING and not isinstance(new, Builtin):
            # found through the class: static by default, a classmethod is bound to the class in addition
            fn = new.f if isinstance(new, SM) else new
            if isinstance(fn, CM): o = self.call(Bound(fn.f, c), [c] + list(args), kw)
            else: o = self.call(fn, [c] + list(args), kw)
            if not (isinstance(o, Inst) and o.cls.is_sub(c)): return o
        else:
            o = Inst(c)
            self.lib.new_payload(o, args, kw)
        init = c.lookup('__init__')
        if init is not MISSING: self.call(self.bind(init, o), args, kw)
        elif args or kw:
            if not self.lib.default_init(o, args, kw): self.raise_('TypeError', f'{c.name}() takes no arguments')
        return o

    # ------------------------------------------------------------ attributes
    def strip(self, v):
        """Force finite-domain values that denote heap objects."""
        if isinstance(v, FV):
            v = fv_norm(v)
            if isinstance(v, FV) and not all(isinstance(x, PRIM) for x in v.tab.values()): return force(v)
        return v

    def getattr_(self, o, n):
        r = self.getattr_opt(o, n)
        if r is MISSING:
            tn = self.lib.type_name(o)
            self.raise_('AttributeError', f'{tn!r} object has no attribute {n!r}')
        return r

    def getattr_opt(self, o, n):
        if isinstance(o, FV):
            o = self.strip(o)
        if isinstance(o, Inst):
            if n == '__class__': return o.cls
            if n == '__dict__': return NSView(o)
            c = o.cls.lookup(n)
            if isinstance(c, Prop) and not (c.cached and n in o.d):
                if c.cached:
                    v = self.call(c.fget, [o])
                    touch(o)
                    o.d[n] = v
                    return v
                if c.fget is None: self.raise_('AttributeError', f'unreadable attribute {n}')
                return self.call(c.fget, [o])
            if n in o.d: return o.d[n]
            if c is not MISSING:
                if isinstance(c, (Func, Builtin, SM, CM)): return self.bind(c, o)
                if isinstance(c, Inst) and c.cls.lookup('__get__') is not MISSING:
                    return self.call(self.bind(c.cls.lookup('__get__'), c), [o, o.cls])
                return c
            r = self.lib.inst_attr(o, n)
            if r is not MISSING: return r
            ga = o.cls.lookup('__getattr__')
            if ga is not MISSING: return self.call(self.bind(ga, o), [n])
            return MISSING
        if isinstance(o, Cls):
            if n == '__name__': return o.name
            if n == '__qualname__': return o.qual
            if n == '__mro__': return tuple(o.mro)
            if n == '__bases__': return o.bases
            if n == '__class__': return self.B['type']
            if n == '__dict__': return NSView(o)
            r = self.lib.class_attr(o, n)
            if r is not MISSING: return r
            c = o.lookup(n)
            if c is MISSING: return MISSING
            if isinstance(c, SM): return c.f
            if isinstance(c, CM): return Bound(c.f, o)
            return c
        if isinstance(o, Mod):
            if n in o.d: return o.d[n]
            r = self.lib.mod_attr(o, n)
            if r is MISSING and o.lib is None and o.pkg and (o.name + '.' + n) in self.mods: return self.mods[o.name + '.' + n]
            return r
        if isinstance(o, SuperObj):
            inst = o.self_
            mro = inst.cls.mro if isinstance(inst, Inst) else inst.mro
            i = mro.index(o.cls)
            for c in mro[i + 1:]:
                if n in c.d:
                    f = c.d[n]
                    if isinstance(f, Prop): return self.call(f.fget, [inst])
                    if isinstance(f, (Func, Builtin)): return Bound(f, inst)
                    if isinstance(f, CM): return Bound(f.f, inst.cls if isinstance(inst, Inst) else inst)
                    if isinstance(f, SM): return f.f
                    return f
            return self.lib.super_attr(o, n)
        if isinstance(o, Func):
            if n in o.attrs: return o.attrs[n]
            if n == '__name__': return o.name
            if n == '__qualname__': return o.qual
            if n == '__doc__': return ast.get_docstring(o.node) if not isinstance(o.node, ast.Lambda) else None
            if n == '__module__': return o.mod.name
            if n in o.attrs: return o.attrs[n]
            if hasattr(_Done.__init__, n) or n in ('__code__', '__defaults__', '__kwdefaults__', '__globals__', '__closure__', '__annotations__', '__dict__'):
                raise Unsupported(f'attribute {n} of a function')
            return MISSING
        if isinstance(o, Bound):
            if n == '__self__': return o.self_
            if n == '__func__': return o.func
            return self.getattr_opt(o.func, n)
        if isinstance(o, Prop):
            if n == 'setter': return Builtin('setter', lambda a, k: Prop(o.fget, a[0], o.fdel))
            if n == 'getter': return Builtin('getter', lambda a, k: Prop(a[0], o.fset, o.fdel))
            if n == 'deleter': return Builtin('deleter', lambda a, k: Prop(o.fget, o.fset, a[0]))
            if n == 'fget': return o.fget
            return MISSING
        if isinstance(o, Top):
            return Top(o.why)
        return self.lib.value_attr(o, n)

    def setattr_(self, o, n, v):
        o = self.strip(o)
        if isinstance(o, Inst):
            c = o.cls.lookup(n)
            if isinstance(c, Prop) and not c.cached:
                if c.fset is None: self.raise_('AttributeError', f"property {n!r} of {o.cls.name!r} object has no setter")
                self.call(c.fset, [o, v])
                return
            sa = o.cls.lookup('__setattr__')
            if isinstance(sa, Func):
                self.call(sa, [o, n, v])
                return
            if self.lib.setattr_hook(o, n, v): return
            touch(o)
            o.d[n] = v
            return
        if isinstance(o, (Cls, Mod)):
            touch(o)
            o.d[n] = v
            return
        if isinstance(o, Func):
            o.attrs[n] = v
            return
        if isinstance(o, PRIM + (SV, tuple, AList, ADict)): self.raise_('AttributeError', f'cannot set {n}')
        raise Unsupported(f'setattr on {o!r}')

    # ------------------------------------------------------------ truth and comparison
    def truth(self, v, node=None):
        if v is True or v is False or v is None: return bool(v)
        if isinstance(v, (int, float, str, bytes, tuple, range)): return bool(v)
        if isinstance(v, FV):
            v = fv_norm(v)
            if not isinstance(v, FV): return self.truth(v)
            t = {}
            for x in sorted(P().dom[v.var], key=lambda z: (str(type(z)), repr(z)) if not isinstance(z, int) else ('', z)):
                t[x] = self.truth(v.tab[x])
            yes = frozenset(x for x in t if t[x])
            if len(yes) == len(t): return True
            if not yes: return False
            c = choose(2, f'{v.var} true')
            P().dom[v.var] = yes if c == 0 else P().dom[v.var] - yes
            return c == 0
        if isinstance(v, Lin): return not eq_int(v, 0)
        if isinstance(v, Frac): return not eq_int(v.num, 0)
        if isinstance(v, SV): return bool(ge0(L(strs.length(v)).add(-1)))
        if isinstance(v, AList): return bool(v.v)
        if isinstance(v, (ADict, ASet)): return bool(v.m)
        if isinstance(v, Inst):
            f = v.cls.lookup('__bool__')
            if f is not MISSING: return self.truth(self.call(self.bind(f, v), []))
            f = v.cls.lookup('__len__')
            if f is not MISSING: return self.truth(self.call(self.bind(f, v), []))
            return self.lib.inst_truth(v)
        if isinstance(v, Top):
            P().inexact('branch on unknown: ' + v.why)
            return choose(2, 'unknown ' + v.why) == 0
        if isinstance(v, DictView): return bool(v.d.m)
        return True

    def is_(self, a, b):
        if isinstance(a, FV) or isinstance(b, FV):
            return fv_map(lambda x, y: self.is_(x, y), a, b)
        if a is b: return True
        if isinstance(a, bool) or isinstance(b, bool) or a is None or b is None: return False
        if isinstance(a, Top) or isinstance(b, Top): return Top('identity')
        if isinstance(a, (int, str, bytes)) and isinstance(b, (int, str, bytes)): return type(a) is type(b) and a == b
        if isinstance(a, Bound) and isinstance(b, Bound): return False
        return False

    def eq(self, a, b):
        """a == b: host bool or FV of bools."""
        if isinstance(a, Top) or isinstance(b, Top): return Top('comparison')
        if isinstance(a, core.Root) and isinstance(b, core.Root): a, b = a.arg, b.arg
        if isinstance(a, PRIM) and isinstance(b, PRIM): return a == b
        if isinstance(a, FV) or isinstance(b, FV):
            a, b = fv_norm(a), fv_norm(b)
            if isinstance(a, FV) or isinstance(b, FV):
                if (isinstance(a, PRIM) or isinstance(a, FV)) and (isinstance(b, PRIM) or isinstance(b, FV)):
                    return fv_map(lambda x, y: self.truth(self.eq(x, y)), a, b)
                if is_str(a) and is_str(b): return strs.equal(a, b)
                if isinstance(a, FV): a = force(a)
                if isinstance(b, FV): b = force(b)
            return self.eq(a, b)
        if isinstance(a, (int, Lin)) and isinstance(b, (int, Lin)): return eq_int(a, b)
        if isinstance(a, Frac) or isinstance(b, Frac) or isinstance(a, Lin) and isinstance(b, float) or isinstance(b, Lin) and isinstance(a, float):
            x, y = self.to_frac(a), self.to_frac(b)
            if x is not None and y is not None: return eq_int(L(x.num).mul(y.den), L(y.num).mul(x.den))
            return False
        if is_str(a) and is_str(b): return strs.equal(a, b)
        if isinstance(a, DictView): a = self.lib.mkset(self.iter_list(a))
        if isinstance(b, DictView): b = self.lib.mkset(self.iter_list(b))
        if isinstance(a, Inst) or isinstance(b, Inst):
            return self.inst_eq(a, b)
        if isinstance(a, tuple) and isinstance(b, tuple) or isinstance(a, AList) and isinstance(b, AList):
            x = a if isinstance(a, tuple) else a.v
            y = b if isinstance(b, tuple) else b.v
            if len(x) != len(y): return False
            return all(p is q or self.truth(self.eq(p, q)) for p, q in zip(list(x), list(y)))
        if isinstance(a, ADict) and isinstance(b, ADict):
            if len(a.m) != len(b.m): return False
            for k, v in a.m.values():
                w = self.dict_get(b, k)
                if w is MISSING or not self.truth(self.eq(v, w)): return False
            return True
        if isinstance(a, ASet) and isinstance(b, ASet):
            return len(a.m) == len(b.m) and all(self.contains(b, k) for k in a.m.values())
        if isinstance(a, Bound) and isinstance(b, Bound): return a.func is b.func and a.self_ is b.self_
        if isinstance(a, range) and isinstance(b, range): return a == b
        return a is b

    def inst_eq(self, a, b):
        for x, y in ((a, b), (b, a)):
            if isinstance(x, Inst):
                f = x.cls.lookup('__eq__')
                if f is not MISSING:
                    r = self.call(self.bind(f, x), [y])
                    if r is not NotImplemented: return r
                r = self.lib.inst_eq(x, y)
                if r is not NotImplemented: return r
        return a is b

    def to_frac(self, v):
        if isinstance(v, Frac): return v
        if isinstance(v, (int, Lin)): return Frac(v, 1)
        if isinstance(v, float):
            n, d = v.as_integer_ratio()
            if d > 1 and d.bit_length() > 50:         # a short decimal stands for the decimal, not for its binary neighbour
                x = decimal_ratio(v)
                if x is not None: return Frac(*x)
            return Frac(n, d)
        return None

    CMP = {ast.Lt: '__lt__', ast.LtE: '__le__', ast.Gt: '__gt__', ast.GtE: '__ge__'}
    RCMP = {ast.Lt: '__gt__', ast.LtE: '__ge__', ast.Gt: '__lt__', ast.GtE: '__le__'}

    def compare(self, op, a, b):
        if isinstance(op, ast.Is): return self.is_(a, b)
        if isinstance(op, ast.IsNot): return self.neg(self.is_(a, b))
        if isinstance(op, ast.Eq): return self.eq(a, b)
        if isinstance(op, ast.NotEq):
            if isinstance(a, Inst):
                f = a.cls.lookup('__ne__')
                if isinstance(f, Func): return self.call(self.bind(f, a), [b])
            return self.neg(self.eq(a, b))
        if isinstance(op, ast.In): return self.contains(b, a)
        if isinstance(op, ast.NotIn): return self.neg(self.contains(b, a))
        return self.order(op, a, b)

    def neg(self, v):
        if isinstance(v, FV): return fv_map(lambda x: not x, v)
        if isinstance(v, Top): return v
        return not self.truth(v)

    def order(self, op, a, b):
        if isinstance(a, Top) or isinstance(b, Top): return Top('comparison')
        if isinstance(a, FV) or isinstance(b, FV):
            a, b = fv_norm(a), fv_norm(b)
            if isinstance(a, (FV,) + PRIM) and isinstance(b, (FV,) + PRIM):
                return fv_map(lambda x, y: self.truth(self.order(op, x, y)) if not (isinstance(x, FV) or isinstance(y, FV)) else None, a, b) \
                    if (isinstance(a, FV) or isinstance(b, FV)) else self.order(op, a, b)
            if isinstance(a, FV) and not is_str(a): a = force(a)
            if isinstance(b, FV) and not is_str(b): b = force(b)
        if isinstance(a, NUM) and isinstance(b, NUM) or isinstance(a, str) and isinstance(b, str) or isinstance(a, bytes) and isinstance(b, bytes):
            return {ast.Lt: a < b, ast.LtE: a <= b, ast.Gt: a > b, ast.GtE: a >= b}[type(op)]
        if isinstance(a, (int, float, Lin, Frac)) and isinstance(b, (int, float, Lin, Frac)):
            import math
            for x, y, sgn in ((a, b, 1), (b, a, -1)):
                if isinstance(y, float) and math.isinf(y):
                    big = (y > 0) == (sgn == 1)     # a < b surely
                    return {ast.Lt: big, ast.LtE: big, ast.Gt: not big, ast.GtE: not big}[type(op)]
            x, y = self.to_frac(a), self.to_frac(b)
            l, r = L(x.num).mul(y.den), L(y.num).mul(x.den)
            if isinstance(op, ast.Lt): return lt(l, r)
            if isinstance(op, ast.LtE): return le(l, r)
            if isinstance(op, ast.Gt): return lt(r, l)
            return le(r, l)
        if isinstance(a, Inst) or isinstance(b, Inst):
            if isinstance(a, Inst):
                f = a.cls.lookup(self.CMP[type(op)])
                if f is not MISSING:
                    r = self.call(self.bind(f, a), [b])
                    if r is not NotImplemented: return r
            if isinstance(b, Inst):
                f = b.cls.lookup(self.RCMP[type(op)])
                if f is not MISSING:
                    r = self.call(self.bind(f, b), [a])
                    if r is not NotImplemented: return r
            self.raise_('TypeError', 'unorderable types')
        if is_str(a) and is_str(b): return self.lib.str_order(op, a, b)
        if isinstance(a, tuple) and isinstance(b, tuple) or isinstance(a, AList) and isinstance(b, AList):
            x = a if isinstance(a, tuple) else a.v
            y = b if isinstance(b, tuple) else b.v
            for p, q in zip(x, y):
                if self.truth(self.eq(p, q)): continue
                return self.order(op, p, q)
            return self.order(op, len(x), len(y))
        if isinstance(a, ASet) and isinstance(b, ASet):
            sub = all(self.truth(self.contains(b, k)) for k in a.m.values())
            sup = all(self.truth(self.contains(a, k)) for k in b.m.values())
            return {ast.Lt: sub and not sup, ast.LtE: sub, ast.Gt: sup and not sub, ast.GtE: sup}[type(op)]
        self.raise_('TypeError', 'unorderable types')

    def contains(self, c, x):
        c = self.strip(c)
        if isinstance(c, Top) or isinstance(x, Top): return Top('membership')
        if isinstance(c, NSView): return x in c.o.d
        if isinstance(c, DictView):
            if c.what == 'keys': c = c.d
            else: c = AList(self.iter_list(c))
        if isinstance(c, (AList, tuple, Iter)):
            items = c.v if isinstance(c, AList) else list(c) if isinstance(c, tuple) else self.iter_list(c)
            if isinstance(x, FV) and all(isinstance(i, PRIM) for i in items):
                return fv_map(lambda y: y in items, x)
            if isinstance(x, Lin) and items and all(isinstance(i, int) for i in items): return self.lin_in(x, items)
            for i in list(items):
                if i is x or self.truth(self.eq(i, x)): return True
            return False
        if isinstance(c, (ADict, ASet)):
            m = c.m
            if isinstance(x, FV):
                return fv_map(lambda y: self.find_key(m, y) is not MISSING, x)
            if isinstance(x, Lin):
                ks = [(k[0] if isinstance(c, ADict) else k) for k in m.values()]
                if all(isinstance(k, (int, str, bytes, tuple, type(None))) for k in ks):
                    return self.lin_in(x, [k for k in ks if isinstance(k, int)])
            return self.find_key(m, x) is not MISSING
        if is_str(c) or isinstance(c, FV):
            return self.lib.str_contains(c, x)
        if isinstance(c, range):
            if isinstance(x, int): return x in c
            if isinstance(x, FV): return fv_map(lambda y: y in c, x)
            if isinstance(x, Lin) and c.step == 1:
                return le(c.start, x) and lt(x, c.stop)
            if isinstance(x, Lin): return self.lin_in(x, list(c))
            return False
        if isinstance(c, Inst):
            f = c.cls.lookup('__contains__')
            if f is not MISSING: return self.truth(self.call(self.bind(f, c), [x]))
            r = self.lib.inst_contains(c, x)
            if r is not MISSING: return r
            return any(self.truth(self.eq(i, x)) for i in self.iter_list(c))
        if isinstance(c, Cls) and c.kind == 'enum': return any(i is x for i in self.iter_list(c))
        self.raise_('TypeError', 'argument is not iterable')

    def lin_in(self, x, ints):
        cs = CS.of(set(ints))
        lo, hi = bounds(tuple(P().cons), x, 1 << 40)
        pieces = []
        prev = None
        for a, b in cs.iv:
            pieces.append((prev, a - 1, False))
            pieces.append((a, b, True))
            prev = b + 1
        pieces.append((prev, None, False))
        opts = []
        for a, b, r in pieces:
            if a is not None and b is not None and a > b: continue
            if lo is not None and b is not None and b < lo: continue
            if hi is not None and a is not None and a > hi: continue
            opts.append((a, b, r))
        if all(not o[2] for o in opts): return False
        if all(o[2] for o in opts) and opts: pass
        a, b, r = opts[choose(len(opts), f'{x!r} in set')]
        if a is not None: P().assume(lsub(x, a))
        if b is not None: P().assume(lsub(b, x))
        from .num import feasible, relevant
        if not feasible(frozenset(relevant(P().cons, [x]))): raise Infeasible()
        return r

    # ------------------------------------------------------------ dict / set keys
    def token(self, k):
        """Hashable host token for a key or MISSING when symbolic."""
        if isinstance(k, PRIM): return k
        if isinstance(k, tuple):
            t = tuple(self.token(x) for x in k)
            return MISSING if any(x is MISSING for x in t) else ('t',) + t
        if isinstance(k, (Cls, Func, Mod, Builtin)): return ('o', id(k))
        if isinstance(k, ASet) and k.frozen: return ('fs',) + tuple(sorted(map(str, k.m)))
        if isinstance(k, Inst):
            h = k.cls.lookup('__hash__')
            if h is MISSING:
                if k.cls.lookup('__eq__') is not MISSING and not self.lib.hashable(k): self.raise_('TypeError', f'unhashable type: {k.cls.name!r}')
                return ('o', id(k))
            if h is None: self.raise_('TypeError', f'unhashable type: {k.cls.name!r}')
            if isinstance(h, Builtin): return ('o', id(k))
            hv = self.call(self.bind(h, k), [])
            if isinstance(hv, int): return ('h', hv)
            return MISSING
        if isinstance(k, (AList, ADict, ASet)): self.raise_('TypeError', f'unhashable type')
        if isinstance(k, Bound): return ('b', id(k.func), id(k.self_))
        return MISSING

    def find_key(self, m, k):
        """token in m equal to k, or MISSING."""
        if not m: return MISSING
        if isinstance(k, FV): k = force(k)
        t = self.token(k)
        if t is not MISSING:
            if isinstance(t, tuple) and t and t[0] == 'h':
                for tt, e in m.items():
                    if isinstance(tt, tuple) and tt[:2] == t:
                        kk = e[0] if isinstance(e, tuple) and len(e) == 2 and type(m) is dict and not isinstance(e, Inst) else e
                        if kk is k or self.truth(self.eq(kk, k)): return tt
                return MISSING
            if t in m:
                return t
            if not any(isinstance(tt, tuple) and tt and tt[0] == 's' for tt in m): return MISSING
        for tt, e in list(m.items()):
            if t is not MISSING and not (isinstance(tt, tuple) and tt and tt[0] == 's'): continue
            kk = e[0] if isinstance(e, tuple) else e
            if self.truth(self.eq(kk, k)): return tt
        return MISSING

    def new_token(self, m, k):
        t = self.token(k)
        if t is MISSING: return ('s', len(m), object())
        if isinstance(t, tuple) and t and t[0] == 'h': return t + (len(m), object())
        return t

    def dict_get(self, d, k):
        if isinstance(k, Lin) and len(d.m) > 8:
            ints = {t: e for t, e in d.m.items() if isinstance(t, int)}
            if not self.lin_in(k, list(ints)) if ints else True: return MISSING
            lo, hi = bounds(tuple(P().cons), k, 1 << 40)
            opts = [t for t in ints if (lo is None or t >= lo) and (hi is None or t <= hi)]
            t = opts[choose(len(opts), f'key {k!r}')]
            P().assume(lsub(k, t))
            P().assume(lsub(t, k))
            return ints[t][1]
        t = self.find_key(d.m, k)
        return MISSING if t is MISSING else d.m[t][1]

    def dict_set(self, d, k, v):
        if isinstance(k, FV): k = force(k)
        t = self.find_key(d.m, k)
        touch(d)
        if t is MISSING:
            d.m[self.new_token(d.m, k)] = (k, v)
        else: d.m[t] = (d.m[t][0], v)

    def dict_del(self, d, k):
        t = self.find_key(d.m, k)
        if t is MISSING: self.raise_('KeyError', k)
        touch(d)
        return d.m.pop(t)[1]

    def dict_items(self, d):
        if isinstance(d, ADict): return list(d.m.values())
        if isinstance(d, NSView): return [(k, v) for k, v in d.o.d.items()]
        if isinstance(d, Inst) and isinstance(d.payload, ADict): return list(d.payload.m.values())
        raise Unsupported('mapping expected')

    def set_add(self, s, k):
        if isinstance(k, FV): k = force(k)
        t = self.find_key({tt: (kk,) for tt, kk in s.m.items()}, k) if s.m else MISSING
        if t is MISSING:
            touch(s)
            s.m[self.new_token(s.m, k)] = k

    # ------------------------------------------------------------ items
    def getitem(self, o, k):
        o = self.strip(o)
        if isinstance(o, Top): return o
        if isinstance(o, (AList, tuple)):
            if isinstance(o, AList) and o.pend and o.pend[0][0] == 'sorted':
                n = k + 1 if isinstance(k, int) and k >= 0 else k.stop if isinstance(k, slice) and isinstance(k.stop, int) and k.stop >= 0 and k.step is None and (k.start is None or isinstance(k.start, int) and k.start >= 0) else None
                if n is not None:
                    f = self.lib.sort_first(o, n)
                    if isinstance(k, slice): return AList(f[k], o.kind)
                    if k < len(f): return f[k]
            items = o.v if isinstance(o, AList) else o
            if isinstance(k, slice):
                r = list(items)[self.host_slice(k, len(items))]
                return tuple(r) if isinstance(o, tuple) else AList(r, o.kind)
            return items[self.list_index(k, len(items))]
        if isinstance(o, ADict):
            if isinstance(k, FV):
                vals = fv_map(lambda y: self._dget(o, y), k)
                return vals
            v = self.dict_get(o, k)
            if v is MISSING:
                if o.default is not None:
                    v = self.call(o.default, [])
                    self.dict_set(o, k, v)
                    return v
                self.raise_('KeyError', k)
            return v
        if is_str(o) or isinstance(o, FV):
            if isinstance(k, slice):
                if k.step is not None: return self.lib.str_step_slice(o, k)
                a, b = [force(x) if isinstance(x, FV) else x for x in (k.start, k.stop)]
                for x in (a, b):
                    if not isinstance(x, (int, Lin, type(None))): self.raise_('TypeError', 'slice indices must be integers')
                return strs.slice_(o, a, b)
            k = force(k) if isinstance(k, FV) else k
            if not isinstance(k, (int, Lin)): self.raise_('TypeError', 'indices must be integers')
            r = strs.elem(o, k)
            if r is None: self.raise_('IndexError', 'index out of range')
            return r
        if isinstance(o, range):
            if isinstance(k, slice): return o[k]
            return o[self.list_index(k, len(o))]
        if isinstance(o, NSView):
            if k not in o.o.d: self.raise_('KeyError', k)
            return o.o.d[k]
        if isinstance(o, Inst):
            f = o.cls.lookup('__getitem__')
            if f is not MISSING: return self.call(self.bind(f, o), [k])
            r = self.lib.inst_getitem(o, k)
            if r is not MISSING: return r
            self.raise_('TypeError', 'object is not subscriptable')
        if isinstance(o, Cls):
            r = self.lib.class_getitem(o, k)
            if r is not MISSING: return r
            return o
        if isinstance(o, Builtin): return o
        if o is None or isinstance(o, NUM): self.raise_('TypeError', 'object is not subscriptable')
        if isinstance(o, DictView): self.raise_('TypeError', 'object is not subscriptable')
        if isinstance(o, RxM): return self.call(self.getattr_(o, '__getitem__'), [k])
        raise Unsupported(f'subscript of {o!r}')

    def _dget(self, o, y):
        v = self.dict_get(o, y)
        if v is MISSING:
            if o.default is not None: raise Unsupported('default dict with symbolic key')
            self.raise_('KeyError', y)
        return v

    def host_slice(self, k, n):
        def f(x):
            if isinstance(x, FV): x = force(x)
            if isinstance(x, Lin):
                for i in range(-n - 1, n + 2):
                    if i == -n - 1:
                        if le(x, i): return i
                    elif i == n + 1: return i
                    elif eq_int(x, i): return i
            return x
        return slice(f(k.start), f(k.stop), f(k.step))

    def list_index(self, k, n):
        if isinstance(k, FV): k = force(k)
        if isinstance(k, bool): k = int(k)
        if isinstance(k, Lin):
            for i in range(-n, n):
                if eq_int(k, i): return i
            self.raise_('IndexError', 'index out of range')
        if not isinstance(k, int): self.raise_('TypeError', 'indices must be integers or slices')
        if not -n <= k < n: self.raise_('IndexError', 'index out of range')
        return k

    def setitem(self, o, k, v):
        o = self.strip(o)
        if isinstance(o, AList):
            touch(o)
            if isinstance(k, slice): o.v[self.host_slice(k, len(o.v))] = self.iter_list(v)
            else: o.v[self.list_index(k, len(o.v))] = v
            return
        if isinstance(o, ADict): return self.dict_set(o, k, v)
        if isinstance(o, NSView):
            touch(o.o)
            o.o.d[k] = v
            return
        if isinstance(o, Inst):
            f = o.cls.lookup('__setitem__')
            if f is not MISSING: return self.call(self.bind(f, o), [k, v])
            if self.lib.inst_setitem(o, k, v): return
        self.raise_('TypeError', 'object does not support item assignment')

    def delitem(self, o, k):
        o = self.strip(o)
        if isinstance(o, AList):
            touch(o)
            if isinstance(k, slice): del o.v[self.host_slice(k, len(o.v))]
            else: del o.v[self.list_index(k, len(o.v))]
            return
        if isinstance(o, ADict):
            self.dict_del(o, k)
            return
        if isinstance(o, Inst):
            f = o.cls.lookup('__delitem__')
            if f is not MISSING:
                self.call(self.bind(f, o), [k])
                return
        raise Unsupported('del item')

    # ------------------------------------------------------------ iteration
    def iter_live(self, it):
        """Host generator over elements; observes mutation of lists during the iteration."""
        it = self.strip(it)
        if isinstance(it, AList):
            i = 0
            n0 = len(it.v)
            while i < len(it.v):
                yield it.v[i]
                i += 1
                if it.kind == 'deque' and len(it.v) != n0: self.raise_('RuntimeError', 'deque mutated during iteration')
            return
        if isinstance(it, ADict) or isinstance(it, DictView):
            d = it if isinstance(it, ADict) else it.d
            n0 = len(d.m)
            for x in self.iter_list(it):
                yield x
                if len(d.m) != n0: self.raise_('RuntimeError', 'dictionary changed size during iteration')
            return
        if isinstance(it, Iter):
            while it.pos < len(it.it):
                touch(it)
                it.pos += 1
                yield it.it[it.pos - 1]
            return
        if isinstance(it, Inst):
            f = it.cls.lookup('__iter__')
            if f is not MISSING:
                r = self.call(self.bind(f, it), [])
                if isinstance(r, Inst):
                    nx = self.getattr_(r, '__next__')
                    k = 0
                    while True:
                        n0 = len(P().trail) if P() else 0
                        try: v = self.call(nx, [])
                        except AExc as e:
                            if e.value.cls.is_sub(self.B['StopIteration']): return
                            raise
                        yield v
                        if P() and len(P().trail) > n0:
                            k += 1
                            if k > Cfg.loop_bound: raise Cut('loop bound')
                else:
                    yield from self.iter_live(r)
                return
        if isinstance(it, LazyIter):
            for v in it.gen(): yield v
            return
        yield from self.iter_list(it)

    def iter_list(self, it):
        it = self.strip(it)
        if isinstance(it, AList): return list(it.v)
        if isinstance(it, tuple): return list(it)
        if isinstance(it, range):
            return list(it)
        if isinstance(it, Iter):
            touch(it)
            r = it.it[it.pos:]
            it.pos = len(it.it)
            return list(r)
        if isinstance(it, LazyIter): return list(it.gen())
        if isinstance(it, (str, bytes)): return list(it)
        if isinstance(it, (SV, FV)): return strs.elements(it)
        if isinstance(it, ADict): return [k for k, v in it.m.values()]
        if isinstance(it, ASet): return list(it.m.values())
        if isinstance(it, DictView):
            if it.what == 'keys': return [k for k, v in it.d.m.values()]
            if it.what == 'values': return [v for k, v in it.d.m.values()]
            return [(k, v) for k, v in it.d.m.values()]
        if isinstance(it, NSView): return list(it.o.d.keys())
        if isinstance(it, MappedRun):
            raise Unsupported('iteration over an element-wise image')
        if isinstance(it, Cls):
            r = self.lib.class_iter(it)
            if r is not None: return r
        if isinstance(it, Inst):
            if it.cls.lookup('__iter__') is not MISSING: return list(self.iter_live(it))
            r = self.lib.inst_iter(it)
            if r is not None: return r
            if it.cls.lookup('__getitem__') is not MISSING:
                out = []
                while True:
                    try: out.append(self.getitem(it, len(out)))
                    except AExc as e:
                        if e.value.cls.is_sub(self.B['IndexError']): return out
                        raise
        if isinstance(it, Top): raise Unsupported('iteration over unknown: ' + it.why)
        if isinstance(it, PRIM + (Inst, Lin, Func, Bound, Cls)): self.raise_('TypeError', f'object is not iterable')
        raise Unsupported(f'iteration over {it!r}')

    # ------------------------------------------------------------ binary operators
    BIN = {ast.Add: ('__add__', '__radd__'), ast.Sub: ('__sub__', '__rsub__'), ast.Mult: ('__mul__', '__rmul__'),
           ast.Div: ('__truediv__', '__rtruediv__'), ast.FloorDiv: ('__floordiv__', '__rfloordiv__'), ast.Mod: ('__mod__', '__rmod__'),
           ast.Pow: ('__pow__', '__rpow__'), ast.BitOr: ('__or__', '__ror__'), ast.BitAnd: ('__and__', '__rand__'),
           ast.BitXor: ('__xor__', '__rxor__'), ast.LShift: ('__lshift__', '__rlshift__'), ast.RShift: ('__rshift__', '__rrshift__'),
           ast.MatMult: ('__matmul__', '__rmatmul__')}
    import operator as _o
    HOST = {ast.Add: _o.add, ast.Sub: _o.sub, ast.Mult: _o.mul, ast.Div: _o.truediv, ast.FloorDiv: _o.floordiv, ast.Mod: _o.mod,
            ast.Pow: _o.pow, ast.BitOr: _o.or_, ast.BitAnd: _o.and_, ast.BitXor: _o.xor, ast.LShift: _o.lshift, ast.RShift: _o.rshift}

    def binop(self, op, a, b):
        t = type(op)
        if isinstance(a, Top) or isinstance(b, Top):
            return a if isinstance(a, Top) else b
        if isinstance(a, PRIM) and isinstance(b, PRIM):
            if t is ast.Mod and isinstance(a, (str, bytes)): return self.lib.percent(a, b)
            try: return self.HOST[t](a, b)
            except ZeroDivisionError as e: self.raise_('ZeroDivisionError', str(e))
            except TypeError as e: self.raise_('TypeError', str(e))
            except (OverflowError, MemoryError) as e: self.raise_('OverflowError', str(e))
            except ValueError as e: self.raise_('ValueError', str(e))
        a, b = self.strip(a), self.strip(b)
        if t is ast.Mod and is_str(a) and not (isinstance(a, FV) and not is_str(a)): return self.lib.percent(a, b)
        if t is ast.Add and is_str(a) and is_str(b):
            if kind_of(a) != kind_of(b): self.raise_('TypeError', 'can only concatenate same kind of string')
            return concat(a, b)
        if t is ast.Mult and (is_str(a) and isinstance(b, (int, Lin)) or is_str(b) and isinstance(a, (int, Lin))):
            s, n = (a, b) if is_str(a) else (b, a)
            return self.lib.str_mul(s, n)
        if isinstance(a, FV) or isinstance(b, FV):
            if isinstance(a, (FV,) + PRIM) and isinstance(b, (FV,) + PRIM):
                return fv_map(lambda x, y: self.binop(op, x, y), a, b)
            if isinstance(a, FV) and not isinstance(b, Inst): return self.binop(op, force(a), b)
            if isinstance(b, FV) and not isinstance(a, Inst): return self.binop(op, a, force(b))
        if isinstance(a, (int, float, Lin, Frac)) and isinstance(b, (int, float, Lin, Frac)): return self.lib.arith(op, a, b)
        if isinstance(a, Inst) or isinstance(b, Inst):
            l, r = self.BIN[t]
            if isinstance(a, Inst):
                f = a.cls.lookup(l)
                if f is not MISSING:
                    v = self.call(self.bind(f, a), [b])
                    if v is not NotImplemented: return v
            if isinstance(b, Inst):
                f = b.cls.lookup(r)
                if f is not MISSING:
                    v = self.call(self.bind(f, b), [a])
                    if v is not NotImplemented: return v
            v = self.lib.inst_binop(op, a, b)
            if v is not MISSING: return v
            self.raise_('TypeError', 'unsupported operand types')
        if t is ast.Add:
            if isinstance(a, AList) and isinstance(b, AList): return AList(a.v + b.v, a.kind)
            if isinstance(a, tuple) and isinstance(b, tuple): return a + b
        if t is ast.Mult:
            for x, y in ((a, b), (b, a)):
                if isinstance(x, (AList, tuple)) and isinstance(y, (int, Lin)):
                    n = strs.decide_count(y, 3) if isinstance(y, Lin) else y
                    return AList(x.v * n) if isinstance(x, AList) else x * n
        if t is ast.BitOr:
            if isinstance(a, ADict) and isinstance(b, ADict):
                d = ADict()
                for k, v in list(a.m.values()) + list(b.m.values()): self.dict_set(d, k, v)
                return d
            if isinstance(a, (Cls, type(None))) and isinstance(b, (Cls, type(None))): return (a, b)
        x, y = a, b
        if isinstance(x, DictView): x = self.lib.mkset(self.iter_list(x))
        if isinstance(y, DictView): y = self.lib.mkset(self.iter_list(y))
        if isinstance(x, ASet) and isinstance(y, ASet):
            r = ASet()
            inb = lambda s, k: self.truth(self.contains(s, k))
            if t is ast.BitOr: its = list(x.m.values()) + list(y.m.values())
            elif t is ast.BitAnd: its = [k for k in x.m.values() if inb(y, k)]
            elif t is ast.Sub: its = [k for k in x.m.values() if not inb(y, k)]
            elif t is ast.BitXor: its = [k for k in x.m.values() if not inb(y, k)] + [k for k in y.m.values() if not inb(x, k)]
            else: raise Unsupported('set operator')
            for k in its: self.set_add(r, k)
            return r
        if isinstance(a, (Func, Bound, Cls)) or isinstance(b, (Func, Bound, Cls)): pass
        self.raise_('TypeError', f'unsupported operand type(s): {self.lib.type_name(a)} and {self.lib.type_name(b)}')


class MappedRun:
    """Element-wise image of a string with runs of symbolic length: list of (part, table|unit) | (None, [items])."""
    __slots__ = ('kind', 'parts')
    def __init__(self, kind, parts): self.kind, self.parts = kind, parts


class LazyIter(Obj):
    """An iterator of which the elements are computed when asked for; `again`: an iterable, each iteration of which starts anew."""
    __slots__ = ('src', 'host', 'again')

    def __init__(self, gen, again=False):
        self.src, self.again, self.host = gen, again, None
        self.ep = core.J.cur

    def _save(self): return None
    def _restore(self, s): self.host = _spent()

    def gen(self):
        if self.again: return self.src()
        touch(self)
        if self.host is None: self.host = self.src()
        return self.host


def _spent():
    raise Unsupported('an iterator consumed under another assumption')
    yield


class _Done(Exception): pass


class GenObj(LazyIter):
    """A generator: the frame of its function, suspended between two elements."""
    __slots__ = ('I', 'f', 'fr', 'body', 'result', 'state')

    def __init__(self, I, f, fr):
        super().__init__(self.walk)
        self.I, self.f, self.fr, self.result, self.state = I, f, fr, None, 'new'
        self.body = I.gblock(f.node.body, fr)

    def step(self, send=None, throw=None):
        touch(self)
        if self.host is not None and self.state == 'broken': raise Unsupported('an iterator consumed under another assumption')
        if self.state == 'done':
            if throw is not None: raise throw
            raise _Done()
        if self.state == 'running': self.I.raise_('ValueError', 'generator already executing')
        if self.state == 'new' and throw is not None:
            self.state = 'done'
            raise throw
        self.state = 'running'
        self.I.stack.append(self.fr)
        depth = len(self.I.stack)
        try:
            v = self.body.throw(throw) if throw is not None else self.body.send(send)
            self.state = 'open'
            return v
        except StopIteration: self.state = 'done'
        except _Return as r:
            self.state, self.result = 'done', r.v
        except AExc as x:
            self.state = 'done'
            if x.value.cls.is_sub(self.I.B['StopIteration']): self.I.raise_('RuntimeError', 'generator raised StopIteration')
            raise
        except BaseException:
            self.state = 'done'
            raise
        finally:
            del self.I.stack[depth - 1:]
        raise _Done()

    def _restore(self, s): self.state, self.host = 'broken', ()

    def gen(self): return self.walk()

    def walk(self):
        while True:
            try: v = self.step()
            except _Done: return
            yield v

    def close(self):
        if self.state != 'open': 
            self.state = 'done'
            return
        I = self.I
        e = AExc(Inst(I.B['GeneratorExit'], {'args': (), '__cause__': None, '__traceback__': None, '__context__': None}), I.where())
        try: self.step(throw=e)
        except _Done: return
        except AExc as x:
            if x.value.cls.is_sub(I.B['GeneratorExit']) or x.value.cls.is_sub(I.B['StopIteration']): return
            raise
        I.raise_('RuntimeError', 'generator ignored GeneratorExit')


def _yields(n):
    r = getattr(n, '_sa_yields', None)
    if r is None:
        r = isinstance(n, (ast.Yield, ast.YieldFrom))
        if not r:
            for c in ast.iter_child_nodes(n):
                if isinstance(c, (ast.FunctionDef, ast.Lambda, ast.ClassDef, ast.AsyncFunctionDef)): continue
                if _yields(c):
                    r = True
                    break
        n._sa_yields = r
    return r


class _FInfo:
    def __init__(self, node):
        self.locals_, self.globals_, self.nonlocals_ = set(), set(), set()
        self.is_gen = False
        if isinstance(node, ast.Lambda):
            body = [node.body]
        else: body = node.body
        a = node.args
        for x in a.posonlyargs + a.args + a.kwonlyargs: self.locals_.add(x.arg)
        if a.vararg: self.locals_.add(a.vararg.arg)
        if a.kwarg: self.locals_.add(a.kwarg.arg)
        for b in body: self.walk(b)
        self.locals_ -= self.globals_ | self.nonlocals_

    def walk(self, n, comp=False):
        if isinstance(n, (ast.FunctionDef, ast.ClassDef, ast.AsyncFunctionDef)):
            self.locals_.add(n.name)
            for d in n.decorator_list: self.walk(d)
            return
        if isinstance(n, ast.Lambda): return
        if isinstance(n, ast.Global): self.globals_.update(n.names)
        elif isinstance(n, ast.Nonlocal): self.nonlocals_.update(n.names)
        elif isinstance(n, (ast.Yield, ast.YieldFrom)): self.is_gen = True
        elif isinstance(n, ast.NamedExpr): self.locals_.add(n.target.id)
        elif isinstance(n, ast.Name) and isinstance(n.ctx, (ast.Store, ast.Del)) and not comp: self.locals_.add(n.id)
        elif isinstance(n, ast.ExceptHandler) and n.name: self.locals_.add(n.name)
        elif isinstance(n, (ast.Import, ast.ImportFrom)):
            for al in n.names: self.locals_.add((al.asname or al.name).split('.')[0])
        elif isinstance(n, (ast.MatchAs, ast.MatchStar)) and n.name: self.locals_.add(n.name)
        c2 = comp or isinstance(n, (ast.ListComp, ast.SetComp, ast.DictComp, ast.GeneratorExp))
        for c in ast.iter_child_nodes(n): self.walk(c, c2)
