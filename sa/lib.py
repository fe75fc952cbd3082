"""Models of the builtins used by the analysed packages."""
from __future__ import annotations

import ast
import builtins
import collections
import math
import re
from .num import Lin, L, unlin, bounds
from . import core, strs
from .core import (FV, Top, Frac, Unsupported, Cut, P, choose, ge0, lt, le, eq_int, fv_map, fv_norm, force, new_int, surely_eq,
                   surely_ge, lsub, touch)
from .strs import SV, Lit, NumP, ChrP, Tab, CS, concat, kind_of, is_str, mk, sv
from .rx import Rx, M
from .libstr import StrOps, as_fv, Opq_text
from .interp import (Inst, Cls, Frame, Func, Bound, Builtin, Mod, AList, ADict, ASet, Prop, SM, CM, Iter, SuperObj, DictView,
                     NSView, MappedRun, LazyIter, GenObj, MISSING, NUM, PRIM, AExc)
from . import interp
from .libmods import LibMods

EXC = {'BaseException': 'object', 'Exception': 'BaseException', 'KeyboardInterrupt': 'BaseException', 'SystemExit': 'BaseException',
       'GeneratorExit': 'BaseException', 'ArithmeticError': 'Exception', 'ZeroDivisionError': 'ArithmeticError',
       'OverflowError': 'ArithmeticError', 'FloatingPointError': 'ArithmeticError', 'AssertionError': 'Exception', 'AttributeError': 'Exception',
       'ImportError': 'Exception', 'ModuleNotFoundError': 'ImportError', 'LookupError': 'Exception', 'IndexError': 'LookupError',
       'KeyError': 'LookupError', 'NameError': 'Exception', 'UnboundLocalError': 'NameError', 'OSError': 'Exception',
       'FileNotFoundError': 'OSError', 'PermissionError': 'OSError', 'IsADirectoryError': 'OSError', 'InterruptedError': 'OSError',
       'BrokenPipeError': 'OSError', 'BlockingIOError': 'OSError', 'EOFError': 'Exception', 'MemoryError': 'Exception', 'BufferError': 'Exception',
       'RuntimeError': 'Exception', 'RecursionError': 'RuntimeError', 'NotImplementedError': 'RuntimeError', 'StopIteration': 'Exception',
       'StopAsyncIteration': 'Exception', 'SyntaxError': 'Exception', 'SystemError': 'Exception', 'TypeError': 'Exception',
       'ValueError': 'Exception', 'UnicodeError': 'ValueError', 'UnicodeDecodeError': 'UnicodeError', 'UnicodeEncodeError': 'UnicodeError',
       'UnicodeTranslateError': 'UnicodeError', 'Warning': 'Exception', 'UserWarning': 'Warning', 'DeprecationWarning': 'Warning',
       'RuntimeWarning': 'Warning', 'UnsupportedOperation': 'OSError'}


class Lib(StrOps, LibMods):
    def reset(self):
        """Forget per-partition state."""
        self.handling = []
        self.hooks = {}
        self.watch = None
        self.io_read = None
        self.open_hook = None
        self.parse_args_hook = None
        self.isatty = False

    def __init__(self, interp):
        self.I = interp
        self.rxcache = {}
        self.handling = []
        self.hooks = {}
        self.watch = None
        self.io_read = None        # fn(file Inst, n) -> value
        self.open_hook = None      # fn(name, mode) -> Inst
        self.parse_args_hook = None
        self.isatty = False
        self.mods_cache = {}
        B = self.B = self.builtins = {}
        obj = Cls('object')
        B['object'] = obj
        for n in ('type', 'int', 'float', 'str', 'bytes', 'list', 'dict', 'tuple', 'set', 'frozenset', 'bool', 'range', 'slice', 'property',
                  'super', 'classmethod', 'staticmethod', 'NoneType', 'function', 'module', 'Match', 'Pattern', 'Generic', 'Protocol', 'bytearray',
                  'generator', 'method', 'complex', 'memoryview', 'NotImplementedType', 'ellipsis', 'deque', 'defaultdict', 'OrderedDict', 'Sized', 'Callable', 'Iterable',
                  'Enum', 'Namespace', 'TextIO'):
            bases = (obj,)
            if n == 'bool': bases = (B['int'],)
            if n in ('defaultdict', 'OrderedDict'): bases = (B['dict'],)
            B[n] = Cls(n, bases)
        B['bool'].kind = 'final'
        for n, b in EXC.items():
            B[n] = Cls(n, (B[b],))
            B[n].kind = 'exc'
        B['IOError'] = B['EnvironmentError'] = B['OSError']
        B['Enum'].kind = 'enumbase'
        B['IntEnum'] = Cls('IntEnum', (B['Enum'],))
        B['IntEnum'].kind = 'enumbase'
        B['NotImplemented'] = NotImplemented
        B['Ellipsis'] = ...
        B['__debug__'] = True
        B['__name__'] = 'builtins'
        self.ctors = {}
        for n in dir(self):
            if n.startswith('b_'): B[n[2:]] = Builtin(n[2:], getattr(self, n))
            elif n.startswith('c_'): self.ctors[B[n[2:]]] = getattr(self, n)
        self.setup_mods()

    # ------------------------------------------------------------ classes
    def as_class(self, v):
        if isinstance(v, Cls): return v
        if isinstance(v, Builtin):
            if v.name in ('typing.Generic', 'typing.Protocol'): return self.B['Generic']
            if v.name.startswith('typing.'): return None
        raise Unsupported(f'base class {v!r}')

    def finish_class(self, cls, kw):
        if any(b.kind in ('enumbase', 'enum') for b in cls.mro[1:]):
            self.make_enum(cls)
            return
        for b in cls.mro[1:]:
            if b.kind == 'exc':
                cls.kind = 'exc'
                break
        mc = kw.get('metaclass')
        if isinstance(mc, Cls) and mc.name == 'ABCMeta': cls.d['\0abc'] = True
        for n in ('__init_subclass__', '__class_getitem__'):
            if isinstance(cls.d.get(n), Func): cls.d[n] = CM(cls.d[n])
        if '__eq__' in cls.d and '__hash__' not in cls.d: cls.d['__hash__'] = None
        for k, v in list(cls.d.items()):
            if isinstance(v, Inst):
                f = v.cls.lookup('__set_name__')
                if f is not MISSING: self.I.call(self.I.bind(f, v), [cls, k])

    def make_enum(self, cls):
        I = self.I
        cls.kind = 'enum'
        members = {}
        for n, v in list(cls.d.items()):
            if n.startswith('_') and n.endswith('_') or n.startswith('__'): continue
            if isinstance(v, (Func, Prop, SM, CM, Builtin, Cls)): continue
            for mn, m in members.items():
                if isinstance(v, PRIM + (tuple,)) and isinstance(m.d['_value_'], PRIM + (tuple,)) and v == m.d['_value_'] and not isinstance(v, bool) == isinstance(m.d['_value_'], int):
                    pass
            dup = None
            if isinstance(v, Inst) and v.cls is self.B.get('enum.auto'):
                v = len(members) + 1
            for m in members.values():
                if I.eq(v, m.d['_value_']) is True: dup = m
            if dup is not None:
                cls.d[n] = dup
                continue
            m = Inst(cls, {'_name_': n, '_value_': v, 'name': n, 'value': v})
            init = cls.lookup('__init__')
            if isinstance(init, Func): I.call(Bound(init, m), list(v) if isinstance(v, tuple) else [v])
            members[n] = m
            cls.d[n] = m
        cls.d['_member_map_'] = members

    def members(self, cls):
        for c in cls.mro:
            if '_member_map_' in c.d: return c.d['_member_map_']
        return {}

    def ctor(self, c):
        f = self.ctors.get(c)
        if f is not None: return f
        if c.kind == 'enum':
            def look(a, k):
                v = a[0]
                if isinstance(v, FV): return fv_map(lambda x: look([x], {}), v)
                if isinstance(v, Inst) and v.cls is c: return v
                for m in self.members(c).values():
                    if self.I.truth(self.I.eq(m.d['_value_'], v)): return m
                self.I.raise_('ValueError', f'invalid value for {c.name}')
            return look
        if self.is_abstract(c): self.I.raise_('TypeError', f"Can't instantiate abstract class {c.name}")
        return None

    def is_abstract(self, c):
        # only classes whose metaclass is ABCMeta refuse instantiation
        if not any(k.d.get('\0abc') for k in c.mro): return False
        seen = set()
        for k in c.mro:
            for n, v in k.d.items():
                if n in seen: continue
                seen.add(n)
                f = v.fget if isinstance(v, Prop) else v.f if isinstance(v, (SM, CM)) else v
                if isinstance(f, Func) and f.attrs.get('__isabstractmethod__'): return True
        return False

    def new_payload(self, o, args, kw):
        m = o.cls.mro
        B = self.B
        if B['dict'] in m: o.payload = ADict()
        elif B['list'] in m: o.payload = AList()
        elif o.cls.kind == 'exc':
            o.d = {'args': tuple(args), '__cause__': None, '__traceback__': None, '__context__': None}
        elif B['str'] in m or B['int'] in m or B['bytes'] in m or B['tuple'] in m: raise Unsupported('subclass of an immutable builtin')

    def default_init(self, o, args, kw):
        if o.cls.kind == 'exc': return True
        if isinstance(o.payload, ADict):
            d = self.c_dict(args, kw)
            touch(o.payload)
            o.payload.m = d.m
            return True
        if isinstance(o.payload, AList):
            touch(o.payload)
            o.payload.v = self.I.iter_list(args[0]) if args else []
            return True
        return False

    def caught(self, x, h, fr):
        p = P()
        if p is not None: p.events.append(('caught', x.value, (fr.mod.file, h.lineno, fr.func.qual if fr.func else '<module>')))

    def hashable(self, o): return o.cls.lookup('__hash__') not in (None,)

    # ------------------------------------------------------------ type tests
    def type_of(self, v):
        B = self.B
        if isinstance(v, FV): v = next(iter(v.tab.values()))
        if v is None: return B['NoneType']
        if v is NotImplemented: return B['NotImplementedType']
        if isinstance(v, bool): return B['bool']
        if isinstance(v, (int, Lin)): return B['int']
        if isinstance(v, (float, Frac)): return B['float']
        if isinstance(v, (str, bytes, SV)): return B['str' if kind_of(v) == 's' else 'bytes']
        if isinstance(v, Inst): return v.cls
        if isinstance(v, Cls): return B['type']
        if isinstance(v, AList): return B['deque' if v.kind == 'deque' else 'bytearray' if v.kind == 'bytearray' else 'list']
        if isinstance(v, tuple): return B['tuple']
        if isinstance(v, ADict): return B['defaultdict' if v.default is not None else 'dict']
        if isinstance(v, ASet): return B['frozenset' if v.frozen else 'set']
        if isinstance(v, range): return B['range']
        if isinstance(v, (Func, Builtin)): return B['function']
        if isinstance(v, Bound): return B['method']
        if isinstance(v, Mod): return B['module']
        if isinstance(v, Rx): return B['Pattern']
        if isinstance(v, M): return B['Match']
        if isinstance(v, (Iter, LazyIter)): return B['generator']
        if isinstance(v, NSView): return B['dict']
        if isinstance(v, Prop): return B['property']
        if isinstance(v, (DictView, SuperObj, MappedRun)): return B['object']
        if v is ...: return B['ellipsis']
        if isinstance(v, slice): return B['slice']
        raise Unsupported(f'type of {type(v).__name__}')

    def type_name(self, v):
        if isinstance(v, Top): return 'unknown'
        return self.type_of(v).name

    TYPING = {'List': 'list', 'Dict': 'dict', 'Tuple': 'tuple', 'Set': 'set', 'FrozenSet': 'frozenset', 'Match': 'Match', 'Pattern': 'Pattern',
              'Deque': 'deque', 'Type': 'type', 'Text': 'str'}

    def isinstance_(self, v, c):
        if isinstance(c, FV): c = self.I.strip(c)
        if isinstance(v, Top): return Top('isinstance')
        if isinstance(c, tuple):
            rs = [self.isinstance_(v, x) for x in c]
            if any(r is True for r in rs): return True
            rs = [r for r in rs if r is not False]
            if not rs: return False
            out = rs[0]
            for r in rs[1:]: out = fv_map(lambda a, b: a or b, out, r)
            return out
        if c is None: c = self.B['NoneType']
        if isinstance(v, FV):
            v = self.I.strip(v)
            if isinstance(v, FV): return fv_map(lambda x: self.isinstance_(x, c), v)
        if isinstance(c, Builtin) and c.name.startswith('typing.'):
            n = c.name[7:]
            if n in self.TYPING: c = self.B[self.TYPING[n]]
            elif n == 'Callable': return self.b_callable([v], {})
            elif n == 'Any': return True
            elif n == 'Sized': c = self.B['Sized']
            elif n == 'Iterable': c = self.B['Iterable']
            else: raise Unsupported('isinstance of ' + c.name)
        if isinstance(c, Builtin): self.I.raise_('TypeError', 'isinstance() arg 2 must be a type')
        if not isinstance(c, Cls): raise Unsupported('isinstance with ' + type(c).__name__)
        if c is self.B['Callable']: return self.b_callable([v], {})
        if c is self.B['Sized'] and not isinstance(v, Inst): return isinstance(v, (str, bytes, SV, AList, tuple, ADict, ASet, range))
        if c is self.B['Sized']: return v.cls.lookup('__len__') is not MISSING
        if c is self.B['Iterable']:
            if isinstance(v, Inst): return v.cls.lookup('__iter__') is not MISSING
            return isinstance(v, (str, bytes, SV, AList, tuple, ADict, ASet, range, Iter, LazyIter))
        return self.type_of(v).is_sub(c)

    # ------------------------------------------------------------ attribute hooks
    def inst_attr(self, o, n):
        if o.cls.kind == 'exc':
            if n in ('with_traceback',): return Builtin(n, lambda a, k: o)
            if n == 'add_note': return Builtin(n, lambda a, k: None)
            if n == 'value' and o.cls.is_sub(self.B['StopIteration']): return o.d['args'][0] if o.d['args'] else None
            if n == '__suppress_context__': return o.d.get('__cause__') is not None
            for h in o.cls.mro:
                t = getattr(builtins, h.name, None)
                if isinstance(t, type) and issubclass(t, BaseException) and hasattr(t, n): raise Unsupported(f'attribute {n} of {h.name}')
        if isinstance(o.payload, (ADict, AList)): return self.value_attr(o.payload, n)
        if n == '__class__': return o.cls
        if n == '__dir__': return Builtin('__dir__', lambda a, k: self.dir_(o))
        if n == '__doc__': return None
        if n == '__module__': return o.cls.mod
        if n == '__hash__': return Builtin('__hash__', lambda a, k: id(o))
        if n in ('__eq__', '__ne__'): return Builtin(n, lambda a, k: (a[0] is o) == (n == '__eq__') if a[0] is o else NotImplemented)
        if n == '__repr__' or n == '__str__': return Builtin(n, lambda a, k: self.repr_(o))
        if n == '__setattr__': return Builtin(n, lambda a, k: self.raw_set(o, a[0], a[1]))
        if n == '__format__': return Builtin(n, lambda a, k: self.format_(o, a[0]))
        return MISSING

    def raw_set(self, o, n, v):
        touch(o)
        o.d[n] = v

    def dir_(self, o):
        names = set()
        if isinstance(o, Inst):
            names.update(o.d)
            for c in o.cls.mro: names.update(c.d)
        elif isinstance(o, Cls):
            for c in o.mro: names.update(c.d)
        elif isinstance(o, Mod): names.update(o.d)
        names |= {'__class__', '__delattr__', '__dict__', '__dir__', '__doc__', '__eq__', '__format__', '__ge__', '__getattribute__', '__getstate__', '__gt__', '__hash__',
                  '__init__', '__init_subclass__', '__le__', '__lt__', '__module__', '__ne__', '__new__', '__reduce__', '__reduce_ex__',
                  '__repr__', '__setattr__', '__sizeof__', '__str__', '__subclasshook__', '__weakref__'}
        return AList(sorted(n for n in names if not n.startswith('\0')))

    def class_attr(self, c, n):
        if c.kind == 'enum' and n == '__members__':
            d = ADict()
            for k, m in self.members(c).items(): self.I.dict_set(d, k, m)
            return d
        if c is self.B['int'] and n == 'from_bytes': return Builtin('int.from_bytes', self.int_from_bytes)
        if c is self.B['bytes'] and n == 'fromhex': return Builtin('bytes.fromhex', lambda a, k: self.host_call(b'', 'fromhex', [force(a[0]) if isinstance(a[0], FV) else a[0]], {}))
        if n == 'maketrans' and c is self.B['bytes']:
            return Builtin('bytes.maketrans', lambda a, k: bytes.maketrans(*a) if all(isinstance(x, bytes) for x in a) else self.unsup('maketrans').fn(a, k))
        if n == 'maketrans' and c is self.B['str']:
            def mt(a, k):
                if len(a) == 1:
                    d = ADict()
                    for key, v in self.I.dict_items(a[0]): self.I.dict_set(d, ord(key) if isinstance(key, str) else key, v)
                    return d
                if not all(isinstance(x, str) for x in a): raise Unsupported('maketrans')
                d = ADict()
                for key, v in str.maketrans(*a).items(): self.I.dict_set(d, key, v)
                return d
            return Builtin('str.maketrans', mt)
        if c is self.B['dict'] and n == 'fromkeys':
            def fk(a, k):
                d = ADict()
                for x in self.I.iter_list(a[0]): self.I.dict_set(d, x, a[1] if len(a) > 1 else None)
                return d
            return Builtin('dict.fromkeys', fk)
        if n == '__subclasses__': raise Unsupported('__subclasses__')
        if n == '__doc__' and '__doc__' not in c.d: return None
        if n == '__module__' and '__module__' not in c.d: return c.mod
        if n == '__annotations__' and '__annotations__' not in c.d: return ADict()
        if n == 'mro': return Builtin('mro', lambda a, k: AList(c.mro))
        if c in (self.B['str'], self.B['bytes'], self.B['list'], self.B['dict'], self.B['int'], self.B['tuple'], self.B['set']) and n not in c.d \
                and not n.startswith('__'):
            def um(a, k):
                m = self.value_attr(a[0], n)
                if m is MISSING: self.I.raise_('AttributeError', n)
                return self.I.call(m, a[1:], k)
            return Builtin(f'{c.name}.{n}', um)
        if n.startswith('__') and c.lookup(n) is MISSING and n not in ('__init__', '__setattr__', '__new__', '__repr__', '__str__', '__eq__', '__hash__'):
            t = getattr(builtins, c.name, None) if self.B.get(c.name) is c else None
            if isinstance(t, type) and hasattr(t, n): raise Unsupported(f'{c.name}.{n}')
        if c.lookup(n) is MISSING:
            if n == '__init__': return Builtin('__init__', lambda a, k: None)
            if n == '__setattr__': return Builtin(n, lambda a, k: self.raw_set(a[0], a[1], a[2]))
            if n == '__new__': return Builtin('__new__', lambda a, k: self.obj_new(a[0]))
            if n in ('__repr__', '__str__'): return Builtin(n, lambda a, k: self.str_(a[0]) if n == '__str__' else self.repr_(a[0]))
            if n == '__eq__': return Builtin(n, lambda a, k: a[0] is a[1] or NotImplemented)
            if n == '__hash__': return Builtin(n, lambda a, k: id(a[0]))
        return MISSING

    def obj_new(self, c):
        if self.is_abstract(c): self.I.raise_('TypeError', f"Can't instantiate abstract class {c.name}")
        o = Inst(c)
        self.new_payload(o, [], {})
        return o

    def super_attr(self, s, n):
        o = s.self_
        if n == '__init__':
            def init(a, k):
                if isinstance(o, Inst) and o.cls.kind == 'exc':
                    touch(o)
                    o.d['args'] = tuple(a)
                elif isinstance(o, Inst) and o.payload is not None: self.default_init(o, a, k)
                elif a or k: self.I.raise_('TypeError', 'object.__init__() takes exactly one argument')
            return Builtin('__init__', init)
        if n == '__init_subclass__': return Builtin(n, lambda a, k: None)
        if n == '__new__': return Builtin('__new__', lambda a, k: self.obj_new(a[0]))
        if n in ('__enter__', '__exit__'): return MISSING
        if isinstance(o, Inst):
            if n == '__getattribute__':
                return Builtin(n, lambda a, k: self.I.getattr_(o, a[0]))
            if n == '__str__' and o.cls.kind == 'exc': return Builtin(n, lambda a, k: self.inst_str(o))
            if n == '__repr__': return Builtin(n, lambda a, k: f'<{o.cls.mod}.{o.cls.qual} object at 0x7f0000000000>')
            if n == '__str__': return Builtin(n, lambda a, k: self.repr_(o))
            return self.inst_attr(o, n)
        return MISSING

    def setattr_hook(self, o, n, v):
        return False

    def inst_truth(self, v):
        if v.payload is not None: return self.I.truth(v.payload)
        return True

    def inst_eq(self, a, b):
        if a.cls.kind == 'enum': return a is b
        if isinstance(a.payload, (ADict, AList)): return self.I.eq(a.payload, b.payload if isinstance(b, Inst) else b)
        return NotImplemented

    def inst_contains(self, c, x):
        if c.payload is not None: return self.I.contains(c.payload, x)
        return MISSING

    def inst_getitem(self, o, k):
        if isinstance(o.payload, ADict):
            v = self.I.dict_get(o.payload, k)
            if v is MISSING:
                ms = o.cls.lookup('__missing__')
                if ms is not MISSING: return self.I.call(self.I.bind(ms, o), [k])
                self.I.raise_('KeyError', k)
            return v
        if o.payload is not None: return self.I.getitem(o.payload, k)
        return MISSING

    def inst_setitem(self, o, k, v):
        if o.payload is not None:
            self.I.setitem(o.payload, k, v)
            return True
        return False

    def inst_iter(self, o):
        if o.payload is not None: return self.I.iter_list(o.payload)
        return None

    def inst_binop(self, op, a, b): return MISSING

    def inst_str(self, v):
        if v.cls.kind == 'exc':
            a = v.d.get('args', ())
            if v.cls.is_sub(self.B['KeyError']) and len(a) == 1: return self.repr_(a[0])
            if not a: return ''
            if len(a) == 1: return self.str_(a[0])
            return self.repr_(a)
        if v.cls.kind == 'enum': return v.cls.name + '.' + v.d['_name_']
        return None

    def inst_repr(self, v):
        if v.cls.kind == 'exc':
            a = v.d.get('args', ())
            return concat(v.cls.name + '(', *self.commas([self.repr_(x) for x in a]), ')')
        if v.cls.kind == 'enum': return concat('<' + v.cls.name + '.' + v.d['_name_'] + ': ', self.repr_(v.d['_value_']), '>')
        if v.payload is not None: return self.repr_(v.payload)
        return None

    def class_getitem(self, c, k):
        if c.kind == 'enum':
            m = self.members(c)
            if k in m: return m[k]
            self.I.raise_('KeyError', k)
        return MISSING

    def class_iter(self, c):
        if c.kind == 'enum': return list(self.members(c).values())
        return None

    # ------------------------------------------------------------ attributes of builtin values
    def value_attr(self, o, n):
        r = self.value_attr_(o, n)
        if r is MISSING:
            t = tuple if isinstance(o, tuple) else dict if isinstance(o, ADict) else {'deque': collections.deque}.get(o.kind, list) if isinstance(o, AList) else \
                (frozenset if o.frozen else set) if isinstance(o, ASet) and hasattr(o, 'frozen') else set if isinstance(o, ASet) else \
                bool if isinstance(o, bool) else int if isinstance(o, (int, Lin)) else float if isinstance(o, (float, Frac)) else re.Match if isinstance(o, M) else \
                re.Pattern if isinstance(o, Rx) else type((x for x in ())) if isinstance(o, (Iter, LazyIter)) else slice if isinstance(o, slice) else \
                range if isinstance(o, range) else type(len) if isinstance(o, Builtin) else type({}.items()) if isinstance(o, DictView) else None
            if isinstance(o, Builtin) or t is not None and hasattr(t, n): raise Unsupported(f'attribute {n} of {t.__name__}')
        return r

    def value_attr_(self, o, n):
        if isinstance(o, FV):
            if is_str(o): return self.str_method(o, n)
            o = force(o)
            return self.I.getattr_opt(o, n)
        if isinstance(o, (str, bytes, SV)): return self.str_method(o, n)
        if isinstance(o, Rx): return self.rx_method(o, n)
        if isinstance(o, M): return self.m_method(o, n)
        if n == '__class__': return self.type_of(o)
        if isinstance(o, AList): return self.list_method(o, n)
        if isinstance(o, (ADict, NSView)): return self.dict_method(o, n)
        if isinstance(o, ASet): return self.set_method(o, n)
        if isinstance(o, tuple):
            if n == 'index':
                def ix(a, k):
                    for i, x in enumerate(o):
                        if self.I.truth(self.I.eq(x, a[0])): return i
                    self.I.raise_('ValueError', 'tuple.index(x): x not in tuple')
                return Builtin(n, ix)
            if n == 'count': return Builtin(n, lambda a, k: sum(1 for x in o if self.I.truth(self.I.eq(x, a[0]))))
            return MISSING
        if isinstance(o, (int, Lin, bool)):
            if n == '__class__': return self.type_of(o)
            if n == 'to_bytes': return Builtin(n, lambda a, k: self.int_to_bytes(o, a, k))
            if n == 'bit_length': return Builtin(n, lambda a, k: o.bit_length() if isinstance(o, int) else _u('bit_length'))
            if n in ('real', 'numerator'): return o
            if n == 'is_integer': return Builtin(n, lambda a, k: True)
            if n == '__format__': return Builtin(n, lambda a, k: self.format_(o, a[0]))
            return MISSING
        if isinstance(o, float):
            if n == 'is_integer': return Builtin(n, lambda a, k: o.is_integer())
            return MISSING
        if isinstance(o, (Iter, LazyIter)):
            if n == '__next__': return Builtin(n, lambda a, k: self.b_next([o], {}))
            if n == '__iter__': return Builtin(n, lambda a, k: o)
            if isinstance(o, GenObj):
                if n == 'close': return Builtin(n, lambda a, k: o.close())
                if n in ('send', 'throw'):
                    def go(a, k):
                        try:
                            if n == 'send': return o.step(send=a[0])
                            e = a[0] if isinstance(a[0], Inst) else self.I.call(a[0], a[1:2])
                            return o.step(throw=AExc(e, self.I.where()))
                        except interp._Done: self.I.raise_('StopIteration', *([] if o.result is None else [o.result]))
                    return Builtin(n, go)
                return MISSING
            if n == 'close': return Builtin(n, lambda a, k: None)
            return MISSING
        if isinstance(o, slice): return {'start': o.start, 'stop': o.stop, 'step': o.step}.get(n, MISSING)
        if isinstance(o, range) and n in ('start', 'stop', 'step'): return getattr(o, n)
        if isinstance(o, Builtin):
            if n == '__name__': return o.name
            return (o.attrs or {}).get(n, MISSING)
        return MISSING

    def list_method(self, o, n):
        I = self.I

        def M_(f): return Builtin('list.' + n, f)

        def mut():
            touch(o)
            return o.v

        def trim(left):
            if o.maxlen is not None:
                while len(o.v) > o.maxlen: o.v.pop(0 if left else -1)
        if n == 'append':
            def ap(a, k):
                if o.pend and o.pend[0][0] == 'sorted': o.v
                if o.pend:
                    touch(o)
                    o.pend.append(('one', a[0]))
                    return
                mut().append(a[0])
                trim(True)
            return M_(ap)
        if n == 'appendleft':
            def apl(a, k):
                mut().insert(0, a[0])
                trim(False)
            return M_(apl)
        if n == 'extend':
            def ex(a, k):
                if o.maxlen is None:
                    x = strs.norm(a[0]) if isinstance(a[0], SV) else a[0]
                    if isinstance(x, SV) and not isinstance(strs.length(x), int):
                        touch(o)
                        o.pend.append(('all', x))
                        return
                items = I.iter_list(a[0])
                mut().extend(items)
                trim(True)
            return M_(ex)
        if n == 'extendleft': return M_(lambda a, k: [mut().insert(0, x) for x in I.iter_list(a[0])] and None)
        if n == 'insert':
            def ins(a, k):
                i = a[0] if isinstance(a[0], int) else I.host_slice(slice(a[0], None), len(o.v)).start
                mut().insert(i, a[1])
            return M_(ins)
        if n == 'pop':
            def pop(a, k):
                if not o.v: I.raise_('IndexError', 'pop from empty list')
                return mut().pop(I.list_index(a[0], len(o.v)) if a else -1)
            return M_(pop)
        if n == 'popleft':
            def popl(a, k):
                if not o.v: I.raise_('IndexError', 'pop from an empty deque')
                return mut().pop(0)
            return M_(popl)
        if n == 'clear':
            def cl(a, k): mut().clear()
            return M_(cl)
        if n == 'copy': return M_(lambda a, k: AList(o.v, o.kind))
        if n == 'reverse':
            def rv(a, k): mut().reverse()
            return M_(rv)
        if n in ('index', 'remove', 'count'):
            def fi(a, k):
                c = 0
                for i, x in enumerate(list(o.v)):
                    if x is a[0] or I.truth(I.eq(x, a[0])):
                        if n == 'index': return i
                        if n == 'remove':
                            mut().pop(i)
                            return None
                        c += 1
                if n == 'count': return c
                I.raise_('ValueError', f'list.{n}(x): x not in list')
            return M_(fi)
        if n == 'sort':
            def srt(a, k):
                t = AList()
                r = self.sorted_(o.v, k.get('key'), k.get('reverse', False), t)
                mut()[:] = r
                o.pend = t.pend
            return M_(srt)
        if n == 'rotate':
            def rot(a, k):
                v = mut()
                if v:
                    i = a[0] % len(v) if a else 1
                    v[:] = v[-i:] + v[:-i]
            return M_(rot)
        if n == '__len__': return M_(lambda a, k: self.b_len([o], {}))
        if n == '__iter__': return M_(lambda a, k: Iter(list(o.v)))
        if n == 'maxlen': return o.maxlen
        if n == '__contains__': return M_(lambda a, k: I.contains(o, a[0]))
        if n == '__getitem__': return M_(lambda a, k: I.getitem(o, a[0]))
        return MISSING

    def dict_method(self, o, n):
        I = self.I

        def M_(f): return Builtin('dict.' + n, f)
        if isinstance(o, NSView):
            d = ADict()
            for k, v in o.o.d.items():
                if not k.startswith('\0'): I.dict_set(d, k, v)
            if n in ('update', 'pop', 'setdefault', 'clear'):
                if n == 'update':
                    def up(a, k):
                        touch(o.o)
                        for kk, vv in (I.dict_items(a[0]) if a else []): o.o.d[kk] = vv
                        o.o.d.update(k)
                    return M_(up)
                raise Unsupported('__dict__.' + n)
            o = d
        if n == 'get':
            def get(a, k):
                dv = a[1] if len(a) > 1 else k.get('default')
                if isinstance(a[0], FV):
                    def g1(y):
                        r = I.dict_get(o, y)
                        return dv if r is MISSING else r
                    return fv_map(g1, a[0])
                v = I.dict_get(o, a[0])
                return dv if v is MISSING else v
            return M_(get)
        if n in ('keys', 'values', 'items'): return M_(lambda a, k: DictView(o, n))
        if n == 'update':
            def up(a, k):
                if a:
                    src = I.strip(a[0])
                    its = I.dict_items(src) if isinstance(src, (ADict, NSView, Inst)) else [tuple(I.iter_list(x)) for x in I.iter_list(src)]
                    for kk, vv in its: I.dict_set(o, kk, vv)
                for kk, vv in k.items(): I.dict_set(o, kk, vv)
            return M_(up)
        if n == 'setdefault':
            def sd(a, k):
                v = I.dict_get(o, a[0])
                if v is MISSING:
                    v = a[1] if len(a) > 1 else None
                    I.dict_set(o, a[0], v)
                return v
            return M_(sd)
        if n == 'pop':
            def pp(a, k):
                key = force(a[0]) if isinstance(a[0], FV) else a[0]
                if I.find_key(o.m, key) is MISSING:
                    if len(a) > 1: return a[1]
                    I.raise_('KeyError', key)
                return I.dict_del(o, key)
            return M_(pp)
        if n == 'popitem':
            def pi(a, k):
                if not o.m: I.raise_('KeyError', 'popitem(): dictionary is empty')
                touch(o)
                t = list(o.m)[-1]
                return o.m.pop(t)
            return M_(pi)
        if n == 'clear':
            def cl(a, k):
                touch(o)
                o.m = {}
            return M_(cl)
        if n == 'copy':
            def cp(a, k):
                d = ADict(default=o.default)
                d.m = dict(o.m)
                return d
            return M_(cp)
        if n == '__contains__': return M_(lambda a, k: I.contains(o, a[0]))
        if n == '__getitem__': return M_(lambda a, k: I.getitem(o, a[0]))
        if n == '__len__': return M_(lambda a, k: len(o.m))
        return MISSING

    def set_method(self, o, n):
        I = self.I

        def M_(f): return Builtin('set.' + n, f)
        if n == 'add': return M_(lambda a, k: I.set_add(o, a[0]))
        if n in ('discard', 'remove'):
            def rm(a, k):
                t = I.find_key({tt: (kk,) for tt, kk in o.m.items()}, a[0])
                if t is MISSING:
                    if n == 'remove': I.raise_('KeyError', a[0])
                    return None
                touch(o)
                o.m.pop(t)
            return M_(rm)
        if n == 'update':
            def up(a, k):
                for s in a:
                    for x in I.iter_list(s): I.set_add(o, x)
            return M_(up)
        if n == 'clear':
            def cl(a, k):
                touch(o)
                o.m = {}
            return M_(cl)
        if n == 'copy':
            return M_(lambda a, k: self.mkset(list(o.m.values())))
        ops = {'union': ast.BitOr, 'intersection': ast.BitAnd, 'difference': ast.Sub, 'symmetric_difference': ast.BitXor}
        if n in ops: return M_(lambda a, k: I.binop(ops[n](), o, a[0] if isinstance(a[0], ASet) else self.mkset(I.iter_list(a[0]))))
        if n in ('issubset', 'issuperset', 'isdisjoint'):
            def rel(a, k):
                b = a[0] if isinstance(a[0], ASet) else self.mkset(I.iter_list(a[0]))
                if n == 'issubset': return all(I.truth(I.contains(b, x)) for x in o.m.values())
                if n == 'issuperset': return all(I.truth(I.contains(o, x)) for x in b.m.values())
                return not any(I.truth(I.contains(b, x)) for x in o.m.values())
            return M_(rel)
        if n == 'pop':
            def pop(a, k):
                if not o.m: I.raise_('KeyError', 'pop from an empty set')
                if len(o.m) > 1: raise Unsupported('set.pop')
                touch(o)
                return o.m.pop(next(iter(o.m)))
            return M_(pop)
        return MISSING

    def mkset(self, items, frozen=False):
        s = ASet(frozen)
        for x in items: self.I.set_add(s, x)
        return s


def _u(w): raise Unsupported(w)


from . import libfun  # noqa: E402  (functions of the builtins namespace are attached to Lib)
libfun.attach(Lib)
