"""Models of the standard library modules used by the analysed packages."""
from __future__ import annotations

import ast
import itertools
import math
import os
import re as hre
from .num import Lin, L, unlin
from . import core, strs
from .core import (FV, Top, Frac, Unsupported, P, choose, ge0, lt, le, eq_int, fv_map, fv_norm, force, new_int, surely_eq, lsub, touch)
from .strs import SV, concat, kind_of, is_str
from .rx import Rx
from .interp import (Inst, Cls, Func, Bound, Builtin, Mod, AList, ADict, ASet, Prop, SM, CM, Iter, LazyIter, MISSING, PRIM, AExc)

KNOWN = {'re', 'sys', 'os', 'os.path', 'math', 'functools', 'itertools', 'collections', 'collections.abc', 'typing', 'abc', 'enum', 'dataclasses', 'copy', 'argparse',
         'textwrap', 'traceback', 'shutil', 'importlib', 'importlib.resources', 'logging', 'contextlib', 'operator', 'io', 'termios', 'string', 'types',
         'unicodedata', 'time', 'datetime', 'random', 'subprocess', 'socket', 'signal', 'threading', 'tempfile', 'pathlib', 'json', 'struct', 'codecs',
         'warnings', 'inspect', 'atexit', 'locale', 'platform', 'weakref', 'bisect', 'heapq', 'numbers', 'decimal', 'fractions', 'select', 'errno',
         'builtins', 'ctypes', 'multiprocessing', 'asyncio', 'urllib', 'urllib.request', 'http', 'pickle', 'gc', 'uuid', 'hashlib', 'glob', 'statistics'}


class LibMods:
    def setup_mods(self):
        B = self.B
        I = self.I
        self.M = {}

        def fn(name, f): return Builtin(name, f)
        R = {}
        # -- re
        flags = {'I': 2, 'IGNORECASE': 2, 'M': 8, 'MULTILINE': 8, 'S': 16, 'DOTALL': 16, 'X': 64, 'VERBOSE': 64, 'A': 256, 'ASCII': 256, 'U': 32, 'UNICODE': 32}
        re_ = dict(flags)
        re_.update(Match=B['Match'], Pattern=B['Pattern'])
        B['re.error'] = Cls('error', (B['Exception'],), mod='re')
        B['re.error'].kind = 'exc'
        re_['error'] = B['re.error']

        def comp(p, flags=0):
            if isinstance(p, Rx): return p
            p = strs.norm(p)
            if isinstance(p, FV): p = force(p)
            if isinstance(p, SV):
                from .libstr import as_fv
                p = as_fv(p)
                if isinstance(p, FV): p = force(p)
            if not isinstance(p, (str, bytes)): raise Unsupported('symbolic pattern')
            try: return self.rx(p, flags)
            except hre.error as e: I.raise_(B['re.error'], str(e))

        re_['compile'] = fn('re.compile', lambda a, k: comp(a[0], a[1] if len(a) > 1 else k.get('flags', 0)))

        def viare(n, npos):
            def f(a, k):
                k = dict(k)
                a = list(a)
                pat = a.pop(0) if a else k.pop('pattern')
                fl = k.pop('flags', 0)
                if len(a) > npos: fl = a.pop(npos)
                if n in ('sub', 'subn', 'split') :
                    pass
                if 'string' in k and n not in ('sub', 'subn'): a.append(k.pop('string'))
                return I.call(self.rx_method(comp(pat, fl), n), a, k)
            return fn('re.' + n, f)
        for n, c in (('match', 1), ('fullmatch', 1), ('search', 1), ('finditer', 1), ('findall', 1), ('sub', 3), ('subn', 3), ('split', 2)): re_[n] = viare(n, c)
        re_['escape'] = fn('re.escape', lambda a, k: hre.escape(a[0]) if isinstance(a[0], (str, bytes)) else _u('re.escape'))
        R['re'] = re_
        # -- sys
        out = Inst(Cls('TextIOWrapper', (B['object'],)), {'\0name': 'stdout', 'encoding': 'utf-8', 'closed': False})
        err = Inst(out.cls, {'\0name': 'stderr', 'encoding': 'utf-8', 'closed': False})
        inp = Inst(out.cls, {'\0name': 'stdin', 'encoding': 'utf-8', 'closed': False})
        self.stdout, self.stderr, self.stdin = out, err, inp

        def wr(a, k):
            P().events.append(('print', self.str_(a[1]), (a[0].d['\0name'],) + tuple(I.where()), tuple(x[0] for x in I.trace())))
            return 0
        out.cls.d.update(write=fn('write', wr), flush=fn('flush', lambda a, k: None),
                         isatty=fn('isatty', lambda a, k: self.isatty), fileno=fn('fileno', lambda a, k: self.event('effect', 'fileno') or 0),
                         read=fn('read', lambda a, k: self.event('effect', 'stdin.read') or self.opq('stdin')))
        self.FileCls = Cls('BufferedReader', (B['object'],))
        self.FileCls.d.update(self.file_methods())
        self.stdin_buffer = Inst(self.FileCls, {'closed': False, 'name': '<stdin>', '\0name': '<stdin>', 'mode': 'rb'})
        inp.d['buffer'] = self.stdin_buffer

        def sys_exit(a, k):
            self.event('exit', a[0] if a else None)
            I.raise_('SystemExit', *(a or [None]))
        R['sys'] = dict(stdout=out, stderr=err, stdin=inp, maxsize=(1 << 63) - 1, argv=AList(['kolombos']), platform='linux', byteorder='little',
                        version_info=(3, 12, 3, 'final', 0), exit=fn('sys.exit', sys_exit), version='3.12.3', executable='/usr/bin/python3',
                        exc_info=fn('exc_info', lambda a, k: (None, None, None) if not self.handling else (self.handling[-1].cls, self.handling[-1], None)))
        # -- os
        path = {}
        for n in ('join', 'dirname', 'basename', 'abspath', 'realpath', 'normpath', 'splitext'):
            def hp(a, k, n=n):
                if not all(isinstance(x, str) for x in a): return self.opq('path')
                return getattr(os.path, n)(*a) if n in ('join', 'dirname', 'basename', 'normpath', 'splitext') else os.path.normpath(a[0])
            path[n] = fn('os.path.' + n, hp)
        for n in ('exists', 'isfile', 'isdir', 'getsize'): path[n] = self.effect('os.path.' + n)
        R['os.path'] = path
        R['os'] = dict(name='posix', sep='/', linesep='\n', devnull='/dev/null', pathsep=':',
                       environ=ADict())
        # -- math
        mt = dict(pi=math.pi, e=math.e, inf=math.inf, nan=math.nan, tau=math.tau)

        def flo(a, k, up=False):
            v = I.strip(a[0])
            if isinstance(v, FV): return fv_map(lambda x: flo([x], {}, up), v)
            if isinstance(v, (int, float)):
                try: return math.ceil(v) if up else math.floor(v)
                except (OverflowError, ValueError) as e: I.raise_(type(e).__name__, str(e))
            if isinstance(v, Lin): return v
            if isinstance(v, core.Log10): return self.decade(v.arg, up)
            if isinstance(v, Frac):
                if up: return unlin(L(self.floordiv(L(v.num).neg(), v.den)).neg())
                return self.floordiv(v.num, v.den)
            if isinstance(v, Top): return v
            I.raise_('TypeError', 'must be real number')
        mt['floor'] = fn('math.floor', flo)
        mt['ceil'] = fn('math.ceil', lambda a, k: flo(a, k, True))
        mt['trunc'] = fn('math.trunc', lambda a, k: fv_map(math.trunc, a[0]) if isinstance(a[0], FV) else math.trunc(a[0]) if isinstance(a[0], (int, float)) else self.trunc(a[0]))
        for n in ('sqrt', 'log10', 'log', 'log2', 'pow', 'fabs', 'isclose', 'isnan', 'isinf', 'copysign', 'gcd', 'fmod', 'exp', 'sin', 'cos', 'modf', 'hypot', 'cbrt'):
            def hm(a, k, n=n):
                a = [I.strip(x) for x in a]
                if not all(isinstance(x, (int, float, FV)) for x in a):
                    if n == 'isclose' and len(a) == 2 and all(isinstance(x, (int, Lin)) for x in a):
                        d, rel, tol = lsub(a[0], a[1]), k.get('rel_tol', 1e-9), k.get('abs_tol', 0.0)
                        if isinstance(rel, (int, float)) and isinstance(tol, (int, float)) and 0 <= rel < 1 and tol >= 0:
                            if 0 in a or all(le(x, int(1 / rel) - 1 if rel else 1 << 60) and le(1 - int(1 / rel) if rel else -(1 << 60), x) for x in a): return le(d, int(tol)) and le(-int(tol), d)
                    if n == 'log10' and len(a) == 1 and isinstance(a[0], (Lin, Frac)): return self.log10(a[0])
                    if n == 'fabs' and isinstance(a[0], Frac): return self.b_abs([a[0]], {})
                    if n == 'sqrt' and len(a) == 1: return self.root(a[0])
                    if n == 'fabs' and isinstance(a[0], Lin): return a[0] if ge0(a[0]) else unlin(L(0).sub(a[0]))
                    raise Unsupported('math.' + n + ' of a symbol')

                def one(*z):
                    try: return getattr(math, n)(*z, **k)
                    except (ValueError, OverflowError) as e: I.raise_(type(e).__name__, str(e))
                return fv_map(one, *a)
            mt[n] = fn('math.' + n, hm)
        R['math'] = mt

        def nsm(a, k, rev=False):
            t = AList()
            t._v = self.sorted_(I.iter_list(a[1]), a[2] if len(a) > 2 else k.get('key'), rev, t)
            return I.getitem(t, slice(None, a[0], None))
        R['heapq'] = dict(nsmallest=fn('heapq.nsmallest', nsm), nlargest=fn('heapq.nlargest', lambda a, k: nsm(a, k, True)))
        # -- functools
        ft = {}

        def reduce_(a, k):
            items = I.iter_list(a[1])
            if len(a) > 2: acc = a[2]
            else:
                if not items: I.raise_('TypeError', 'reduce() of empty iterable with no initial value')
                acc = items.pop(0)
            for x in items: acc = I.call(a[0], [acc, x])
            return acc
        ft['reduce'] = fn('functools.reduce', reduce_)
        ft['partial'] = fn('functools.partial', lambda a, k: Builtin('partial', lambda b, kk: I.call(a[0], a[1:] + b, {**k, **kk})))
        def wrapped(w, f):
            if isinstance(w, Func):
                for n in ('__name__', '__qualname__', '__doc__'): w.attrs[n] = I.getattr_(f, n) if n == '__name__' or isinstance(f, Func) else None
            w_attrs = getattr(w, 'attrs', None)
            if w_attrs is not None and isinstance(f, Func): w_attrs['__wrapped__'] = f
            return w
        ft['wraps'] = fn('functools.wraps', lambda a, k: Builtin('wraps', lambda b, kk: wrapped(b[0], a[0])))
        ft['cached_property'] = fn('functools.cached_property', lambda a, k: Prop(a[0], cached=True))

        def cache(a, k):
            f = a[0]
            store = ADict()

            def call(b, kk):
                key = tuple(b) + tuple(sorted(kk.items()))
                v = I.dict_get(store, key)
                if v is MISSING:
                    v = I.call(f, b, kk)
                    I.dict_set(store, key, v)
                return v
            if isinstance(f, Func):
                w = Builtin(f.name, call)
                return w
            return Builtin('cached', call)
        ft['cache'] = fn('functools.cache', cache)
        ft['lru_cache'] = fn('functools.lru_cache', lambda a, k: cache(a, {}) if a and isinstance(a[0], (Func, Builtin)) else Builtin('lru_cache', cache))
        ft['total_ordering'] = fn('functools.total_ordering', lambda a, k: a[0])
        R['functools'] = ft
        # -- itertools
        it = {}
        lz = lambda g: LazyIter(g)
        it['chain'] = fn('itertools.chain', lambda a, k: lz(lambda: (x for s in a for x in I.iter_live(s))))
        it['count'] = fn('itertools.count', lambda a, k: lz(lambda: itertools.count(*a)))
        it['repeat'] = fn('itertools.repeat', lambda a, k: Iter([a[0]] * a[1]) if len(a) > 1 and isinstance(a[1], int) else lz(lambda: itertools.repeat(a[0])))
        it['islice'] = fn('itertools.islice', lambda a, k: lz(lambda: itertools.islice(I.iter_live(a[0]), *[x if x is None else _int(x) for x in a[1:]])))
        it['takewhile'] = fn('itertools.takewhile', lambda a, k: lz(lambda: itertools.takewhile(lambda x: I.truth(I.call(a[0], [x])), I.iter_live(a[1]))))
        it['dropwhile'] = fn('itertools.dropwhile', lambda a, k: lz(lambda: itertools.dropwhile(lambda x: I.truth(I.call(a[0], [x])), I.iter_live(a[1]))))
        it['product'] = fn('itertools.product', lambda a, k: Iter(list(itertools.product(*[I.iter_list(x) for x in a], **k))))
        it['zip_longest'] = fn('itertools.zip_longest', lambda a, k: Iter(list(itertools.zip_longest(*[I.iter_list(x) for x in a], fillvalue=k.get('fillvalue')))))
        it['accumulate'] = fn('itertools.accumulate', lambda a, k: Iter(list(itertools.accumulate(I.iter_list(a[0]), (lambda x, y: I.call(a[1], [x, y])) if len(a) > 1 else (lambda x, y: I.binop(ast.Add(), x, y))))))
        it['chain'].attrs = {'from_iterable': fn('chain.from_iterable', lambda a, k: lz(lambda: (x for s in I.iter_live(a[0]) for x in I.iter_live(s))))}
        it['starmap'] = fn('itertools.starmap', lambda a, k: lz(lambda: (I.call(a[0], I.iter_list(x)) for x in I.iter_live(a[1]))))
        it['pairwise'] = fn('itertools.pairwise', lambda a, k: lz(lambda: itertools.pairwise(I.iter_live(a[0]))))
        it['compress'] = fn('itertools.compress', lambda a, k: lz(lambda: (x for x, c in zip(I.iter_live(a[0]), I.iter_live(a[1])) if I.truth(c))))
        it['filterfalse'] = fn('itertools.filterfalse', lambda a, k: lz(lambda: (x for x in I.iter_live(a[1]) if not I.truth(x if a[0] is None else I.call(a[0], [x])))))
        it['cycle'] = fn('itertools.cycle', lambda a, k: lz(lambda: itertools.cycle(I.iter_live(a[0]))))
        it['combinations'] = fn('itertools.combinations', lambda a, k: Iter(list(itertools.combinations(I.iter_list(a[0]), a[1]))))
        it['permutations'] = fn('itertools.permutations', lambda a, k: Iter(list(itertools.permutations(I.iter_list(a[0]), *a[1:]))))

        def group(a, k):
            key = a[1] if len(a) > 1 else k.get('key')
            items = I.iter_list(a[0])

            def gen():
                i = 0
                while i < len(items):
                    v = items[i] if key is None else I.call(key, [items[i]])
                    j = i + 1
                    while j < len(items) and I.truth(I.eq(items[j] if key is None else I.call(key, [items[j]]), v)): j += 1
                    yield (v, Iter(items[i:j]))
                    i = j
            return lz(gen)
        it['groupby'] = fn('itertools.groupby', group)
        for n in ('combinations_with_replacement',): it[n] = self.unsup('itertools.' + n)
        R['itertools'] = it
        R['collections'] = dict(deque=B['deque'], defaultdict=B['defaultdict'], OrderedDict=B['OrderedDict'],
                                namedtuple=self.unsup('namedtuple'))
        R['collections.abc'] = {n: self.typ(n) for n in ('Iterable', 'Sized', 'Callable', 'Sequence', 'Mapping', 'Iterator', 'Generator', 'Collection', 'Hashable')}
        R['typing'] = {'TYPE_CHECKING': False, 'cast': fn('cast', lambda a, k: a[1]), 'Generic': B['Generic'], 'TypeVar': fn('TypeVar', lambda a, k: None),
                       'overload': fn('overload', lambda a, k: a[0]), 'NamedTuple': self.unsup('NamedTuple'), 'final': fn('final', lambda a, k: a[0]),
                       'Sized': B['Sized'], 'Protocol': B['Generic'], 'Callable': B['Callable'], 'Iterable': B['Iterable'],
                       'NewType': fn('NewType', lambda a, k: Builtin('newtype', lambda b, kk: b[0]))}
        abcm = Cls('ABCMeta', (B['type'],))
        abc = Cls('ABC', (B['object'],), {'\0abc': True})

        def absm(a, k):
            if isinstance(a[0], Func): a[0].attrs['__isabstractmethod__'] = True
            elif isinstance(a[0], (SM, CM)) and isinstance(a[0].f, Func): a[0].f.attrs['__isabstractmethod__'] = True
            elif isinstance(a[0], Prop) and isinstance(a[0].fget, Func): a[0].fget.attrs['__isabstractmethod__'] = True
            return a[0]
        R['abc'] = dict(ABCMeta=abcm, ABC=abc, abstractmethod=fn('abstractmethod', absm))
        auto = Cls('auto', (B['object'],))
        B['enum.auto'] = auto
        R['enum'] = dict(Enum=B['Enum'], IntEnum=B['IntEnum'], auto=auto, unique=fn('unique', lambda a, k: a[0]), Flag=self.unsup('Flag'))
        # -- dataclasses
        fieldc = Cls('Field', (B['object'],))
        B['dataclasses.Field'] = fieldc

        def field(a, k): return Inst(fieldc, dict(k))

        def dc(a, k):
            if a: return self.dataclass(a[0], k)
            return Builtin('dataclass', lambda b, kk: self.dataclass(b[0], k))
        R['dataclasses'] = dict(dataclass=fn('dataclass', dc), field=fn('field', field), fields=self.unsup('fields'), replace=fn('replace', self.dc_replace), asdict=self.unsup('asdict'))
        R['copy'] = dict(copy=fn('copy.copy', lambda a, k: self.copy_(a[0])), deepcopy=fn('copy.deepcopy', lambda a, k: self.deepcopy(a[0], {})))
        # -- argparse
        ns = B['Namespace']

        def ns_init(a, k):
            o = a[0]
            touch(o)
            for n, v in k.items(): self.I.setattr_(o, n, v)
        ns.d['__init__'] = fn('Namespace.__init__', ns_init)
        ap = Cls('ArgumentParser', (B['object'],), mod='argparse')
        self.ArgumentParser = ap
        grp = Cls('_ArgumentGroup', (B['object'],), mod='argparse')

        def ap_init(a, k):
            o = a[0]
            touch(o)
            o.d.update({'prog': k.get('prog', 'kolombos'), 'usage': k.get('usage'), 'epilog': k.get('epilog'), 'description': k.get('description'),
                        'formatter_class': k.get('formatter_class'), '\0args': AList(), '\0groups': AList(), '\0kw': tuple(sorted(k.items(), key=lambda x: x[0])),
                        '\0mutex': None})
        ap.d['__init__'] = fn('ArgumentParser.__init__', ap_init)

        def add_argument(a, k):
            o = a[0]
            root = o.d.get('\0root', o)
            names = tuple(a[1:])
            act = Inst(Cls('Action', (B['object'],)), {'option_strings': AList([n for n in names if isinstance(n, str) and n.startswith('-')])})
            lst = root.d['\0args']
            touch(lst)
            mux = o.d.get('\0mutex')
            lst.v.append((names, tuple(sorted(k.items(), key=lambda x: x[0])), mux, tuple(I.where())))
            return act

        def add_group(mutex):
            def f(a, k):
                o = a[0]
                root = o.d.get('\0root', o)
                gl = root.d['\0groups']
                touch(gl)
                gid = len(gl.v)
                g = Inst(grp, {'\0root': root, '\0mutex': gid if mutex else o.d.get('\0mutex')})
                gl.v.append((gid, mutex, a[1] if len(a) > 1 else k.get('title'), k.get('required', False)))
                return g
            return f
        for c in (ap, grp):
            c.d['add_argument'] = fn('add_argument', add_argument)
            c.d['add_argument_group'] = fn('add_argument_group', add_group(False))
            c.d['add_mutually_exclusive_group'] = fn('add_mutually_exclusive_group', add_group(True))

        def parse_args(a, k):
            if self.parse_args_hook is None: raise Unsupported('parse_args')
            return self.parse_args_hook(a[0], k.get('namespace'), k.get('args', a[1] if len(a) > 1 else None))
        ap.d['parse_args'] = fn('parse_args', parse_args)

        def set_defaults(a, k):
            o = a[0]
            touch(o)
            o.d['\0defaults'] = tuple(sorted(k.items()))
        ap.d['set_defaults'] = fn('set_defaults', set_defaults)
        for n in ('format_help', 'print_help', 'print_usage', 'error', 'exit', '_get_formatter', 'add_subparsers', 'format_usage', 'parse_known_args'):
            ap.d[n] = self.unsup('ArgumentParser.' + n)
        hf = Cls('HelpFormatter', (B['object'],), mod='argparse')
        for n in ('__init__', 'start_section', 'end_section', 'add_text', 'add_usage', '_format_text', 'format_help', '_add_item'):
            hf.d[n] = self.unsup('HelpFormatter.' + n)
        ate = Cls('ArgumentTypeError', (B['Exception'],), mod='argparse')
        ate.kind = 'exc'
        B['ArgumentTypeError'] = ate
        B['argparse.ArgumentError'] = Cls('ArgumentError', (B['Exception'],), mod='argparse')
        B['argparse.ArgumentError'].kind = 'exc'
        R['argparse'] = dict(Namespace=ns, ArgumentParser=ap, HelpFormatter=hf, Action=Cls('Action', (B['object'],)), ArgumentTypeError=ate, SUPPRESS='==SUPPRESS==',
                             ArgumentError=B['argparse.ArgumentError'], RawTextHelpFormatter=hf, RawDescriptionHelpFormatter=hf, REMAINDER='...', OPTIONAL='?', ZERO_OR_MORE='*', ONE_OR_MORE='+')
        import textwrap

        def tw(n):
            def f(a, k):
                if all(isinstance(x, (str, int)) for x in list(a) + list(k.values())):
                    r = getattr(textwrap, n)(*a, **k)
                    return AList(r) if isinstance(r, list) else r
                return self.opq('textwrap')
            return fn('textwrap.' + n, f)
        R['textwrap'] = {n: tw(n) for n in ('dedent', 'indent', 'wrap', 'fill', 'shorten')}
        def fmt_exc(a, k):
            e = a[1] if len(a) > 1 else a[0] if a else k.get('value')
            if not isinstance(e, Inst): return AList(['Traceback (most recent call last):\n', self.opq('traceback'), self.opq('error')])
            return AList(['Traceback (most recent call last):\n', '  File "kolombos", line 0, in run\n', concat(e.cls.name, ': ', self.str_(e), '\n')])
        R['traceback'] = dict(format_exception=fn('traceback.format_exception', fmt_exc),
                              print_exc=fn('traceback.print_exc', lambda a, k: self.event('print', 'traceback')),
                              format_exc=fn('traceback.format_exc', lambda a, k: self.opq('traceback')))
        ts = Cls('terminal_size', (B['object'],))

        def tsz(a, k):
            p = P()
            w = p.memo.get('termwidth')
            if w is None:
                w = core.env('terminal_width', lambda: new_int('terminal_width', 0))
                p.memo['termwidth'] = w
            return Inst(ts, {'columns': w, 'lines': 24})
        R['shutil'] = dict(get_terminal_size=fn('shutil.get_terminal_size', tsz))
        R['importlib'] = {}
        R['importlib.resources'] = dict(read_text=fn('resources.read_text', self.res_text), path=fn('resources.path', self.res_path),
                                        read_binary=fn('resources.read_binary', lambda a, k: self.res_text(a, k, True)))
        nullh = Cls('NullHandler', (B['object'],))
        lg = Cls('Logger', (B['object'],))

        def logf(a, k): self.event('log', a[-1] if a else None)
        for n in ('debug', 'info', 'warning', 'error', 'exception', 'critical', 'addHandler', 'setLevel', 'log'): lg.d[n] = fn('log.' + n, logf if n not in ('addHandler', 'setLevel') else (lambda a, k: None))
        lgi = Inst(lg)
        R['logging'] = dict(getLogger=fn('getLogger', lambda a, k: lgi), NullHandler=nullh, DEBUG=10, INFO=20, WARNING=30, ERROR=40)
        for n in ('debug', 'info', 'warning', 'error', 'exception', 'critical'): R['logging'][n] = fn('logging.' + n, logf)
        sup = Cls('suppress', (B['object'],))

        def sup_enter(a, k): return None

        def sup_exit(a, k): return a[1] is not None and any(a[1].is_sub(c) for c in a[0].d['cs'])

        def sup_init(a, k):
            touch(a[0])
            a[0].d['cs'] = tuple(a[1:])
        sup.d.update(__init__=fn('__init__', sup_init), __enter__=fn('__enter__', sup_enter), __exit__=fn('__exit__', sup_exit))
        nullc = Cls('nullcontext', (B['object'],))

        def null_init(a, k):
            touch(a[0])
            a[0].d['enter_result'] = a[1] if len(a) > 1 else k.get('enter_result')
        nullc.d.update(__init__=fn('__init__', null_init), __enter__=fn('__enter__', lambda a, k: a[0].d['enter_result']), __exit__=fn('__exit__', lambda a, k: None))
        R['contextlib'] = dict(suppress=sup, contextmanager=fn('contextmanager', lambda a, k: self.contextmanager(a[0])), nullcontext=nullc, ExitStack=self.unsup('ExitStack'), closing=self.unsup('closing'))
        opm = {'add': ast.Add, 'sub': ast.Sub, 'mul': ast.Mult, 'or_': ast.BitOr, 'and_': ast.BitAnd, 'floordiv': ast.FloorDiv, 'mod': ast.Mod, 'xor': ast.BitXor}
        op = {n: fn('operator.' + n, lambda a, k, c=c: I.binop(c(), a[0], a[1])) for n, c in opm.items()}
        cmpm = {'eq': ast.Eq, 'ne': ast.NotEq, 'lt': ast.Lt, 'le': ast.LtE, 'gt': ast.Gt, 'ge': ast.GtE, 'is_': ast.Is, 'is_not': ast.IsNot}
        op.update({n: fn('operator.' + n, lambda a, k, c=c: I.compare(c(), a[0], a[1])) for n, c in cmpm.items()})
        op['attrgetter'] = fn('attrgetter', lambda a, k: Builtin('attrgetter', lambda b, kk: I.getattr_(b[0], a[0]) if len(a) == 1 else tuple(I.getattr_(b[0], n) for n in a)))
        op['itemgetter'] = fn('itemgetter', lambda a, k: Builtin('itemgetter', lambda b, kk: I.getitem(b[0], a[0]) if len(a) == 1 else tuple(I.getitem(b[0], n) for n in a)))
        op['methodcaller'] = fn('methodcaller', lambda a, k: Builtin('methodcaller', lambda b, kk: I.call(I.getattr_(b[0], a[0]), a[1:], k)))
        op['not_'] = fn('not_', lambda a, k: not I.truth(a[0]))
        op['contains'] = fn('contains', lambda a, k: I.contains(a[0], a[1]))
        R['operator'] = op
        import string
        R['string'] = {n: getattr(string, n) for n in ('ascii_letters', 'ascii_lowercase', 'ascii_uppercase', 'digits', 'hexdigits', 'octdigits', 'printable', 'punctuation', 'whitespace')}
        R['types'] = dict(SimpleNamespace=ns, MappingProxyType=fn('MappingProxyType', lambda a, k: a[0]))
        R['io'] = dict(UnsupportedOperation=B['UnsupportedOperation'])
        R['warnings'] = dict(warn=fn('warnings.warn', logf))
        import unicodedata
        def ucd(n):
            def run(a, k):
                a = [strs.norm(x) if isinstance(x, (SV, FV)) else x for x in a]
                if all(isinstance(x, (str, int, FV)) or x is None for x in a): return fv_map(lambda *z: getattr(unicodedata, n)(*z), *a)
                i = next((i for i, x in enumerate(a) if isinstance(x, SV)), None)
                if i is not None and len(a[i].parts) == 1 and isinstance(a[i].parts[0], strs.ChrP) and all(isinstance(x, (str, int)) for j, x in enumerate(a) if j != i):
                    return self.char_fn(('unicodedata', n, *a[:i], *a[i + 1:]), lambda c: getattr(unicodedata, n)(*a[:i], c, *a[i + 1:]), a[i])
                return _u('unicodedata')
            return run
        R['unicodedata'] = {n: fn('unicodedata.' + n, ucd(n))
                            for n in ('category', 'name', 'east_asian_width', 'combining', 'normalize', 'bidirectional', 'decomposition', 'mirrored', 'is_normalized')}
        R['builtins'] = B
        R['termios'] = {}
        self.R = R

    # ------------------------------------------------------------ access
    def typ(self, n): return Builtin('typing.' + n, lambda a, k: None)
    def contextmanager(self, f):
        from . import interp
        I = self.I
        c = Cls('_GeneratorContextManager', (self.B['object'],))

        def enter(a, k):
            try: return a[0].d['g'].step()
            except interp._Done: I.raise_('RuntimeError', "generator didn't yield")

        def leave(a, k):
            g = a[0].d['g']
            if a[1] is None:
                try: g.step()
                except interp._Done: return False
                I.raise_('RuntimeError', "generator didn't stop")
            try: g.step(throw=AExc(a[2], I.where()))
            except interp._Done: return True
            except AExc as x:
                if x.value is a[2]: return False
                raise
            I.raise_('RuntimeError', "generator didn't stop after throw()")
        c.d.update(__enter__=Builtin('__enter__', enter), __exit__=Builtin('__exit__', leave))

        def make(a, k):
            g = I.call(f, a, k)
            if not isinstance(g, interp.GenObj): raise Unsupported('contextmanager of a plain function')
            return Inst(c, {'g': g})
        return Builtin(I.getattr_(f, '__name__'), make)

    def prelude(self, n):
        """A library entity defined in terms of simpler ones (sa/prelude)."""
        I = self.I
        I.roots.setdefault('saprelude', os.path.join(os.path.dirname(os.path.abspath(__file__)), 'prelude'))
        stack, I.stack = I.stack, []
        try: return I.getattr_(I.load('saprelude'), n)
        finally: I.stack = stack

    def unsup(self, n): return Builtin(n, lambda a, k: _u('call of ' + n))

    def opq(self, name):
        from .libstr import Opq_text
        return Opq_text(name)

    def module(self, name):
        m = self.mods_cache.get(name)
        if m is not None: return m
        if name not in KNOWN and name not in self.R: return None
        m = Mod(name)
        m.lib = name
        m.d = dict(self.R.get(name, {}))
        m.d['__name__'] = name
        self.mods_cache[name] = m
        if '.' in name:
            par = self.module(name.rsplit('.', 1)[0])
            par.d[name.rsplit('.', 1)[1]] = m
        for k in self.R:
            if k.startswith(name + '.') and '.' not in k[len(name) + 1:]: self.module(k)
        return m

    def mod_attr(self, m, n):
        if m.lib is None: return MISSING
        if n in m.d: return m.d[n]
        if (m.lib, n) in PRELUDE:
            m.d[n] = self.prelude(PRELUDE[m.lib, n])
            return m.d[n]
        if m.lib == 'typing':
            c = self.B.get(self.TYPING.get(n, ''))
            v = Builtin('typing.' + n, (lambda a, k: self.I.call(c, a, k)) if c is not None else (lambda a, k: None))
            m.d[n] = v
            return v
        if n.startswith('__'): return MISSING
        import importlib
        try: host = importlib.import_module(m.lib) if m.lib in SAFE_IMPORT else None
        except ImportError: host = None
        if host is not None and not hasattr(host, n): return MISSING
        v = self.effect(f'{m.lib}.{n}')
        m.d[n] = v
        return v

    # ------------------------------------------------------------ files and resources
    def file_methods(self):
        I = self.I

        def read(a, k):
            o = a[0]
            n = a[1] if len(a) > 1 else -1
            if I.truth(o.d.get('closed', False)): I.raise_('ValueError', 'read of closed file')
            if self.io_read is None: raise Unsupported('read')
            v = self.io_read(o, n)
            self.event('io', ('read', o, n, v))
            return v

        def close(a, k):
            o = a[0]
            touch(o)
            o.d['closed'] = True
            self.event('io', ('close', o))

        def meth(n, res):
            def f(a, k):
                self.event('io', (n, a[0]) + tuple(a[1:]))
                return res() if callable(res) else res
            return Builtin('file.' + n, f)
        return dict(read=Builtin('file.read', read), read1=Builtin('file.read1', read), close=Builtin('file.close', close),
                    seekable=meth('seekable', lambda: core.env('seekable', lambda: core.new_fv('seekable', [False, True]))), tell=meth('tell', lambda: core.env('file_position', lambda: new_int('file_position', 0))), flush=meth('flush', None),
                    fileno=meth('fileno', 0), isatty=meth('isatty', lambda: core.env('tty', lambda: core.new_fv('tty', [False, True]))), readable=meth('readable', True),
                    __enter__=Builtin('__enter__', lambda a, k: a[0]), __exit__=Builtin('__exit__', lambda a, k: close(a[:1], {})),
                    write=Builtin('file.write', lambda a, k: self.event('effect', 'file.write')),
                    truncate=Builtin('file.truncate', lambda a, k: self.event('effect', 'file.truncate')),
                    seek=meth('seek', lambda: core.env('file_position', lambda: new_int('file_position', 0))), peek=Builtin('file.peek', lambda a, k: _u('peek')),
                    readline=Builtin('file.readline', lambda a, k: _u('readline')), readinto=Builtin('file.readinto', lambda a, k: _u('readinto')))

    def res_file(self, a):
        pkg, name = a[0], a[1]
        if isinstance(pkg, Mod): pkg = pkg.name
        top = pkg.split('.')[0]
        if top not in self.I.roots: raise Unsupported('resource')
        return os.path.join(self.I.roots[top], *pkg.split('.')[1:], name)

    def res_text(self, a, k, binary=False):
        f = self.res_file(a)
        self.event('resource', os.path.basename(f))
        try:
            with open(f, 'rb') as h: d = h.read()
        except OSError: self.I.raise_('FileNotFoundError', f)
        if binary: return d
        try: return d.decode('utf-8').replace('\r\n', '\n')
        except UnicodeDecodeError as e: self.I.raise_('UnicodeDecodeError', str(e))

    def res_path(self, a, k):
        f = self.res_file(a)
        self.event('resource', os.path.basename(f))
        cm = Inst(Cls('cm', (self.B['object'],)))
        cm.cls.d['__enter__'] = Builtin('__enter__', lambda x, y: f)
        cm.cls.d['__exit__'] = Builtin('__exit__', lambda x, y: None)
        return cm

    # ------------------------------------------------------------ dataclasses, copy
    def dc_fields(self, cls):
        out = {}
        for c in reversed(cls.mro):
            an = c.d.get('__annotations__')
            if not c.d.get('\0dc') or not isinstance(an, ADict): continue
            for k, _ in an.m.values(): out[k] = c.d.get('\0dcdef', {}).get(k, MISSING)
        return out

    def dataclass(self, cls, kw):
        I = self.I
        an = cls.d.get('__annotations__')
        names = [k for k, _ in an.m.values()] if isinstance(an, ADict) else []
        touch(cls)
        defs = {}
        for n in names:
            if n in cls.d:
                defs[n] = cls.d[n]
                if isinstance(cls.d[n], Inst) and cls.d[n].cls is self.B['dataclasses.Field']:
                    if 'default' in cls.d[n].d: cls.d[n] = cls.d[n].d['default']
                    else: del cls.d[n]
        cls.d['\0dc'] = True
        cls.d['\0dcdef'] = defs

        def opt(f, name, dv):
            if isinstance(f, Inst) and f.cls is self.B['dataclasses.Field']: return f.d.get(name, dv)
            return dv

        def init(a, k):
            o = a[0]
            fs = self.dc_fields(o.cls)
            order = [n for n in fs if I.truth(opt(fs[n], 'init', True))]
            vals = {}
            if len(a) - 1 > len(order): I.raise_('TypeError', '__init__() takes too many positional arguments')
            for n, v in zip(order, a[1:]): vals[n] = v
            for n, v in k.items():
                if n not in order: I.raise_('TypeError', f'__init__() got an unexpected keyword argument {n!r}')
                if n in vals: I.raise_('TypeError', f'multiple values for argument {n!r}')
                vals[n] = v
            for n, f in fs.items():
                if n in vals: v = vals[n]
                elif f is MISSING: I.raise_('TypeError', f'__init__() missing 1 required positional argument: {n!r}')
                elif isinstance(f, Inst) and f.cls is self.B['dataclasses.Field']:
                    if 'default' in f.d: v = f.d['default']
                    elif 'default_factory' in f.d: v = I.call(f.d['default_factory'], [])
                    elif n not in order: continue
                    else: I.raise_('TypeError', f'__init__() missing 1 required positional argument: {n!r}')
                else: v = f
                if kw.get('frozen'): self.raw_set(o, n, v)
                else: I.setattr_(o, n, v)
            pi = o.cls.lookup('__post_init__')
            if pi is not MISSING: I.call(I.bind(pi, o), [])

        def eq(a, k):
            x, y = a
            if not isinstance(y, Inst) or x.cls is not y.cls: return NotImplemented
            return all(I.truth(I.eq(I.getattr_(x, n), I.getattr_(y, n))) for n, f in self.dc_fields(x.cls).items() if I.truth(opt(f, 'compare', True)))

        def rep(a, k):
            x = a[0]
            its = [concat(n, '=', self.repr_(I.getattr_(x, n))) for n, f in self.dc_fields(x.cls).items() if I.truth(opt(f, 'repr', True))]
            return concat(x.cls.qual + '(', *self.commas(its), ')')
        if kw.get('init', True) and '__init__' not in cls.d: cls.d['__init__'] = Builtin('__init__', init)
        if kw.get('eq', True) and '__eq__' not in cls.d:
            cls.d['__eq__'] = Builtin('__eq__', eq)
            if '__hash__' not in cls.d and not kw.get('frozen') and not kw.get('unsafe_hash'): cls.d['__hash__'] = None
        if kw.get('repr', True) and '__repr__' not in cls.d: cls.d['__repr__'] = Builtin('__repr__', rep)
        if kw.get('frozen'):
            def sa(a, k): I.raise_('AttributeError', f'cannot assign to field {a[1]!r}')
            cls.d['\0frozen'] = True
        return cls

    def dc_replace(self, a, k):
        o = a[0]
        vals = {n: self.I.getattr_(o, n) for n in self.dc_fields(o.cls)}
        vals.update(k)
        return self.I.call(o.cls, [], vals)

    def copy_(self, v):
        v = self.I.strip(v)
        if isinstance(v, Inst):
            f = v.cls.lookup('__copy__')
            if f is not MISSING: return self.I.call(self.I.bind(f, v), [])
            if v.cls.kind == 'enum': return v
            o = Inst(v.cls, dict(v.d))
            if isinstance(v.payload, ADict):
                o.payload = ADict()
                o.payload.m = dict(v.payload.m)
            elif isinstance(v.payload, AList): o.payload = AList(v.payload.v)
            return o
        if isinstance(v, AList): return AList(v.v, v.kind, v.maxlen)
        if isinstance(v, ADict):
            d = ADict(default=v.default)
            d.m = dict(v.m)
            return d
        if isinstance(v, ASet):
            s = ASet(v.frozen)
            s.m = dict(v.m)
            return s
        return v

    def deepcopy(self, v, memo):
        v = self.I.strip(v)
        if id(v) in memo: return memo[id(v)]
        if isinstance(v, Inst) and v.cls.kind != 'enum':
            f = v.cls.lookup('__deepcopy__')
            if f is not MISSING: return self.I.call(self.I.bind(f, v), [ADict()])
            o = memo[id(v)] = Inst(v.cls)
            o.d = {k: self.deepcopy(x, memo) for k, x in v.d.items()}
            if v.payload is not None: o.payload = self.deepcopy(v.payload, memo)
            return o
        if isinstance(v, AList):
            o = memo[id(v)] = AList([], v.kind, v.maxlen)
            o.v = [self.deepcopy(x, memo) for x in v.v]
            return o
        if isinstance(v, tuple): return tuple(self.deepcopy(x, memo) for x in v)
        if isinstance(v, ADict):
            o = memo[id(v)] = ADict(default=v.default)
            for k, x in v.m.values(): self.I.dict_set(o, self.deepcopy(k, memo), self.deepcopy(x, memo))
            return o
        if isinstance(v, ASet): return self.copy_(v)
        return v


PRELUDE = {('io', 'StringIO'): 'StringIO', ('io', 'BytesIO'): 'BytesIO', ('collections', 'Counter'): 'Counter', ('bisect', 'bisect_left'): 'bisect_left',
           ('bisect', 'bisect_right'): 'bisect_right', ('bisect', 'bisect'): 'bisect_right', ('bisect', 'insort'): 'insort', ('bisect', 'insort_right'): 'insort',
           ('bisect', 'insort_left'): 'insort_left', ('itertools', 'tee'): 'tee', ('itertools', 'batched'): 'batched'}
SAFE_IMPORT = {'re', 'sys', 'os', 'os.path', 'math', 'functools', 'itertools', 'collections', 'collections.abc', 'abc', 'enum', 'dataclasses', 'copy', 'argparse', 'textwrap',
               'traceback', 'shutil', 'importlib', 'importlib.resources', 'logging', 'contextlib', 'operator', 'io', 'termios', 'string', 'types', 'unicodedata',
               'time', 'datetime', 'random', 'signal', 'struct', 'warnings', 'inspect'}


def _int(x):
    if isinstance(x, FV): x = force(x)
    if not isinstance(x, int): raise Unsupported('symbolic bound')
    return x


def _u(w): raise Unsupported(w)
