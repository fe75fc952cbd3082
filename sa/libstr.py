"""Transfer functions of str / bytes methods, formatting and regular expression objects over abstract strings."""
from __future__ import annotations

import string
from .num import Lin, L, unlin, bounds
from . import strs, core
from .core import (FV, Top, Frac, Unsupported, Cut, P, choose, ge0, lt, le, eq_int, fv_map, fv_norm, force, new_int, surely_eq, lsub)
from .strs import SV, Lit, NumP, ChrP, Tab, Rep, Run, Opq, CS, concat, kind_of, is_str, mk, sv
from .rx import Rx, M, expand
from . import rx as rxm

HOST_OK = {'upper', 'lower', 'strip', 'lstrip', 'rstrip', 'split', 'rsplit', 'splitlines', 'replace', 'startswith', 'endswith', 'ljust',
           'rjust', 'center', 'zfill', 'encode', 'decode', 'find', 'rfind', 'index', 'rindex', 'count', 'isdigit', 'isalpha', 'isalnum',
           'isspace', 'isupper', 'islower', 'isprintable', 'isascii', 'isdecimal', 'isnumeric', 'isidentifier', 'title', 'capitalize',
           'casefold', 'swapcase', 'partition', 'rpartition', 'expandtabs', 'translate', 'hex', 'removeprefix', 'removesuffix',
           'fromhex', 'istitle'}

PER_CHAR = {'upper', 'lower', 'title', 'capitalize', 'casefold', 'swapcase', 'isdigit', 'isalpha', 'isalnum', 'isspace', 'isupper', 'islower', 'isprintable',
            'isascii', 'isdecimal', 'isnumeric', 'isidentifier', 'istitle'}
IMAGES = {}


def as_fv(x):
    """SV made of literals and tables of one variable -> FV of host strings."""
    x = strs.norm(x)
    if not isinstance(x, SV): return x
    var = None
    for q in x.parts:
        if isinstance(q, Lit): continue
        if isinstance(q, Tab):
            if var is None: var = q.fv.var
            elif var != q.fv.var: return x
        else: return x
    if var is None: return x
    tab = {}
    for p in P().dom[var]:
        r = b'' if x.kind == 'b' else ''
        for q in x.parts: r += q.v if isinstance(q, Lit) else q.fv.tab[p]
        tab[p] = r
    return FV(var, tab)


class StrOps:
    """Mixin of Lib."""

    # ------------------------------------------------------------ conversion to text
    def str_(self, v):
        I = self.I
        if isinstance(v, str): return v
        if isinstance(v, (SV, FV)) and is_str(v):
            if kind_of(v) == 's': return v
            return self.repr_(v)
        if isinstance(v, FV): return fv_map(self.str_, I.strip(v)) if isinstance(I.strip(v), FV) else self.str_(I.strip(v))
        if isinstance(v, bool) or v is None: return str(v)
        if isinstance(v, (int, float, bytes, range)): return str(v)
        if isinstance(v, Lin): return self.fmt_int(v, 'd')
        if isinstance(v, Top): return Opq_text('str(' + v.why + ')')
        if isinstance(v, Frac): return Opq_text('float')
        from .interp import Inst, Cls, MISSING, AList, ADict, ASet, Bound, Builtin
        if isinstance(v, Inst):
            f = v.cls.lookup('__str__')
            if f is not MISSING: return I.call(I.bind(f, v), [])
            r = self.inst_str(v)
            if r is not None: return r
        return self.repr_(v)

    def repr_(self, v):
        I = self.I
        from .interp import Inst, Cls, MISSING, AList, ADict, ASet, Func, Bound, Builtin, Mod
        if isinstance(v, FV):
            v = I.strip(v)
            if isinstance(v, FV): return fv_map(lambda x: repr(x), v)
            return self.repr_(v)
        if v is None or isinstance(v, (str, bytes, int, float, range)): return repr(v)
        if isinstance(v, Lin): return self.fmt_int(v, 'd')
        if isinstance(v, SV):
            f = as_fv(v)
            if isinstance(f, FV): return fv_map(repr, f)
            return Opq_text('repr')
        if isinstance(v, (Top, Frac)): return Opq_text('repr')
        if isinstance(v, AList):
            return concat('deque([' if v.kind == 'deque' else '[', *self.commas([self.repr_(x) for x in v.v]), '])' if v.kind == 'deque' else ']')
        if isinstance(v, tuple):
            if len(v) == 1: return concat('(', self.repr_(v[0]), ',)')
            return concat('(', *self.commas([self.repr_(x) for x in v]), ')')
        if isinstance(v, ADict):
            return concat('{', *self.commas([concat(self.repr_(k), ': ', self.repr_(x)) for k, x in v.m.values()]), '}')
        if isinstance(v, ASet):
            if not v.m: return 'set()'
            return concat('{', *self.commas([self.repr_(k) for k in v.m.values()]), '}')
        if isinstance(v, Inst):
            f = v.cls.lookup('__repr__')
            if f is not MISSING: return I.call(I.bind(f, v), [])
            r = self.inst_repr(v)
            if r is not None: return r
            return f'<{v.cls.mod}.{v.cls.qual} object at 0x7f0000000000>'
        if isinstance(v, Cls): return f"<class '{v.mod}.{v.qual}'>" if v.mod != 'builtins' else f"<class '{v.name}'>"
        if isinstance(v, Func): return f'<function {v.qual} at 0x7f0000000000>'
        if isinstance(v, (Bound, Builtin, Mod)): return f'<{type(v).__name__}>'
        if isinstance(v, (Rx, M)): return Opq_text('repr')
        raise Unsupported(f'repr of {type(v).__name__}')

    @staticmethod
    def commas(xs):
        out = []
        for i, x in enumerate(xs):
            if i: out.append(', ')
            out.append(x)
        return out

    def fmt_int(self, v, base, width=0, fill=' ', align='>', sign='-', alt=False):
        """Formatted integer text."""
        v = unlin(v)
        if isinstance(v, int):
            spec = (fill + align if align != '=' or fill != '0' else '') if width else ''
            if align == '=' and fill == '0': return format(v, f'{"#" if alt else ""}0{width}{base}')
            return format(v, f'{spec}{"#" if alt else ""}{width or ""}{base}')
        neg = not ge0(L(v))
        a = v if not neg else unlin(L(v).neg())
        pre = ('-' if neg else '') + ({'x': '0x', 'X': '0X', 'o': '0o', 'b': '0b'}.get(base, '') if alt else '')
        if align == '=' and fill == '0':
            w = max(0, width - len(pre))
            return concat(pre, mk('s', [NumP(a, base, w)]))
        body = concat(pre, mk('s', [NumP(a, base, 0)]))
        if not width: return body
        return self.pad(body, width, fill, align if align != '=' else '>')

    def pad(self, s, width, fill, align):
        n = strs.length(s)
        if not lt(n, width): return s
        miss = unlin(lsub(width, n))
        if align == '<': return concat(s, self.str_mul(fill, miss))
        if align == '>': return concat(self.str_mul(fill, miss), s)
        if isinstance(miss, int): l = miss // 2
        else: l = self.floordiv(miss, 2)
        return concat(self.str_mul(fill, l), s, self.str_mul(fill, unlin(lsub(miss, l))))

    SPEC = None

    def format_(self, v, spec=''):
        I = self.I
        from .interp import Inst, MISSING
        if isinstance(v, FV): v = I.strip(v)
        if isinstance(v, Inst):
            f = v.cls.lookup('__format__')
            if f is not MISSING: return I.call(I.bind(f, v), [spec])
            if spec == '': return self.str_(v)
            I.raise_('TypeError', f'unsupported format string passed to {v.cls.name}.__format__')
        if not isinstance(spec, str):
            spec = strs.norm(spec)
            if isinstance(spec, FV): spec = force(spec)
            if not isinstance(spec, str): raise Unsupported('symbolic format specification')
        if spec == '': return self.str_(v)
        if isinstance(v, (int, float, str)) or v is None:
            try: return format(v, spec)
            except ValueError as e: I.raise_('ValueError', str(e))
            except TypeError as e: I.raise_('TypeError', str(e))
        if isinstance(v, FV): return fv_map(lambda x: self.format_(x, spec), v)
        if isinstance(v, Top): return Opq_text('format(' + v.why + ')')
        import re
        m = re.fullmatch(r'(?:(.)?([<>=^]))?([+\- ])?(#)?(0)?(\d+)?([_,])?(?:\.(\d+))?([a-zA-Z%])?', spec, re.S)
        if not m: raise Unsupported('format specification')
        fill, align, sign, alt, zero, width, grp, prec, typ = m.groups()
        width = int(width) if width else 0
        if grp: raise Unsupported('digit grouping')
        if isinstance(v, (SV,)):
            if typ not in (None, 's'): I.raise_('ValueError', f'Unknown format code {typ!r} for object of type str')
            if v.kind != 's': I.raise_('TypeError', 'unsupported format string passed to bytes.__format__')
            if prec is not None: v = strs.slice_(v, 0, int(prec))
            return self.pad(v, width, fill or (zero and '0') or ' ', align or '<') if width else v
        if isinstance(v, Lin):
            if typ in (None, 'd', 'x', 'X', 'o', 'b') and sign in (None, '-'):
                if zero and not align: fill, align = '0', '='
                return self.fmt_int(v, typ or 'd', width, fill or ' ', align or '>', sign, bool(alt))
            if typ in ('f', 'F') and not alt:
                if zero and not align: fill, align = '0', '='
                return self.fmt_fixed(v, 6 if prec is None else int(prec), width, fill or ' ', align or '>', sign, alt)
            if typ == 's': I.raise_('ValueError', "Unknown format code 's' for object of type 'int'")
            raise Unsupported('integer format ' + spec)
        if isinstance(v, Frac):
            if typ in ('f', 'F') and not alt:
                if zero and not align: fill, align = '0', '='
                return self.fmt_fixed(v, 6 if prec is None else int(prec), width, fill or ' ', align or '>', sign, alt)
            return Opq_text('float')
        I.raise_('TypeError', 'unsupported format string')

    def str_format(self, s, args, kw):
        if not isinstance(s, str): raise Unsupported('format of symbolic template')
        I = self.I
        out = []
        auto = 0
        try: items = list(string.Formatter().parse(s))
        except ValueError as e: I.raise_('ValueError', str(e))
        for lit, field, spec, conv in items:
            if lit: out.append(lit)
            if field is None: continue
            import _string
            first, rest = _string.formatter_field_name_split(field)
            if first == '':
                first = auto
                auto += 1
            if isinstance(first, int):
                if first >= len(args): I.raise_('IndexError', 'Replacement index out of range')
                v = args[first]
            else:
                if first not in kw: I.raise_('KeyError', first)
                v = kw[first]
            for is_attr, n in rest: v = I.getattr_(v, n) if is_attr else I.getitem(v, n)
            if conv == 's': v = self.str_(v)
            elif conv in ('r', 'a'): v = self.repr_(v)
            if spec and '{' in spec: spec = self.str_format(spec, args[auto:] if auto else args, kw)
            out.append(self.format_(v, spec or ''))
        return concat('', *out)

    def percent(self, a, b):
        I = self.I
        if isinstance(a, (str, bytes)):
            args = b if isinstance(b, tuple) else (b,)
            if all(isinstance(x, (int, float, str, bytes)) or x is None for x in args):
                try: return a % (tuple(args) if isinstance(b, tuple) else b)
                except TypeError as e: I.raise_('TypeError', str(e))
                except ValueError as e: I.raise_('ValueError', str(e))
            import re
            out, i, pos = [], 0, 0
            if isinstance(a, bytes): raise Unsupported('bytes %')
            if '%(' in a:
                got = []

                def named(m):
                    got.append(I.getitem(b, m.group(1)))
                    return '%'
                a = re.sub(r'%\((\w+)\)', named, a)
                args = tuple(got)
                if all(isinstance(x, (int, float, str, bytes)) or x is None for x in args): return self.percent(a, args)
            if '%' in re.sub(r'%(-)?(0)?(\d+)?([sdxXr%])', '', a): raise Unsupported('% format ' + a)
            for m in re.finditer(r'%(-)?(0)?(\d+)?([sdxXr%])', a):
                out.append(a[pos:m.start()])
                pos = m.end()
                if m.group(4) == '%':
                    out.append('%')
                    continue
                if i >= len(args): I.raise_('TypeError', 'not enough arguments for format string')
                v = args[i]
                i += 1
                w = int(m.group(3) or 0)
                t = m.group(4)
                if t in 'sr':
                    s = self.str_(v) if t == 's' else self.repr_(v)
                    out.append(self.pad(s, w, ' ', '<' if m.group(1) else '>') if w else s)
                else: out.append(self.format_(v, ('<' if m.group(1) else '') + ('0' if m.group(2) else '') + (m.group(3) or '') + t))
            out.append(a[pos:])
            if '%' in ''.join(x for x in out if isinstance(x, str)).replace('%%', '') and False: raise Unsupported('% format')
            if i != len(args): I.raise_('TypeError', 'not all arguments converted during string formatting')
            return concat('', *out)
        raise Unsupported('% on symbolic string')

    def str_mul(self, s, n):
        n = unlin(n)
        if isinstance(n, int):
            if isinstance(s, (str, bytes)): return s * n
            if n <= 0: return strs.empty(kind_of(s))
            return concat(*([s] * n)) if n < 64 else _bad('repetition')
        s = strs.norm(s)
        if isinstance(s, FV): s = force(s)
        if not isinstance(s, (str, bytes)): raise Unsupported('symbolic repetition of a symbolic string')
        if not s: return s
        if not ge0(L(n)): return s[:0]
        return mk(kind_of(s), [Rep(s, n)])

    def str_order(self, op, a, b):
        """Lexicographic order; decided on the first elements."""
        import ast
        I = self.I
        a, b = strs.norm(a), strs.norm(b)
        fa, fb = as_fv(a), as_fv(b)
        if not isinstance(fa, SV) and not isinstance(fb, SV): return I.order(op, fa, fb) if (fa is not a or fb is not b or not isinstance(a, SV)) else None
        strict = isinstance(op, (ast.Lt, ast.Gt))
        if isinstance(op, (ast.Gt, ast.GtE)): a, b = b, a
        # a < b / a <= b
        for _ in range(40):
            a, b = strs.norm(a), strs.norm(b)
            if isinstance(a, (str, bytes)) and isinstance(b, (str, bytes)): return a < b if strict else a <= b
            if not ge0(L(strs.length(a)).add(-1)):
                return True if not strict else bool(ge0(L(strs.length(b)).add(-1)))
            if not ge0(L(strs.length(b)).add(-1)): return False
            ea, eb = strs.elem(a, 0), strs.elem(b, 0)
            ca, cb = self.ord_of(ea), self.ord_of(eb)
            if eq_int(ca, cb):
                a, b = strs.slice_(a, 1, None), strs.slice_(b, 1, None)
                continue
            return bool(lt(ca, cb))
        raise Cut('string order')

    def ord_of(self, e):
        if isinstance(e, int): return e
        if isinstance(e, str): return ord(e)
        if isinstance(e, FV):
            v = force(e)
            return v if isinstance(v, int) else ord(v)
        if isinstance(e, SV) and len(e.parts) == 1:
            q = e.parts[0]
            if isinstance(q, ChrP): return q.cp
            if isinstance(q, Tab): return self.ord_of(force(q.fv))
        raise Unsupported('ord')

    def str_contains(self, c, x):
        I = self.I
        if isinstance(c, FV) and not is_str(c): return I.contains(force(c), x)
        if kind_of(c) == 'b' and isinstance(x, (int, FV, Lin)) and not is_str(x):
            if isinstance(x, FV): x = force(x)
            if not isinstance(x, int): raise Unsupported('byte membership')
            x = bytes([x])
        if not is_str(x) or kind_of(x) != kind_of(c): I.raise_('TypeError', "'in <string>' requires string as left operand")
        c, x = strs.norm(c), strs.norm(x)
        if isinstance(c, (str, bytes)) and isinstance(x, (str, bytes)): return x in c
        if isinstance(c, (str, bytes)):
            f = as_fv(x)
            if isinstance(f, FV): return fv_map(lambda y: y in c, f)
            if strs.length(x) == 1:
                if len(c) and isinstance(c, str): return bool(strs.elem_in(strs.elem(x, 0), CS.of([ord(z) for z in c])))
            raise Unsupported('membership of a symbolic string')
        f = as_fv(c)
        if isinstance(f, FV) and isinstance(x, (str, bytes)): return fv_map(lambda y: x in y, f)
        r = self.find(c, x)
        return r is not None

    def find(self, c, x, start=0):
        """Position of the first occurrence of x (host string) in c, or None."""
        if isinstance(x, FV): x = force(x)
        x = strs.norm(x)
        if not isinstance(x, (str, bytes)): raise Unsupported('search of a symbolic string')
        if not x: return start
        import re
        m = self.rx(re.escape(x)).search(c, start)
        return None if m is None else m.spans[0][0]

    def rx(self, pat, flags=0):
        k = (pat, flags)
        r = self.rxcache.get(k)
        if r is None: r = self.rxcache[k] = Rx(pat, flags)
        return r

    def str_step_slice(self, o, k):
        o = as_fv(strs.norm(o))
        if isinstance(o, (str, bytes)) and all(x is None or isinstance(x, int) for x in (k.start, k.stop, k.step)): return o[k]
        if isinstance(o, FV) and all(x is None or isinstance(x, int) for x in (k.start, k.stop, k.step)): return fv_map(lambda s: s[k], o)
        if k.step == 1: return strs.slice_(o, k.start, k.stop)
        raise Unsupported('extended slice')

    # ------------------------------------------------------------ encode / decode
    def map_elems(self, x, f, outkind):
        """Element-wise image of a string through a host function of one element."""
        x = strs.norm(x)
        if isinstance(x, (str, bytes)): x = sv(x)
        parts = []
        for q in sv(x).parts:
            if isinstance(q, Lit):
                for e in q.v: parts.append(Lit(f(e)))
            elif isinstance(q, Run):
                a = P().atoms[q.atom]
                if q.tab is None: tab = {c: f(c) for c in a.chars}
                else:
                    tab = {}
                    for c in a.chars:
                        r = None
                        for e in q.tab[c]: r = f(e) if r is None else r + f(e)
                        tab[c] = r if r is not None else strs.empty(outkind)
                us = set(tab.values())
                if len(us) == 1:        # constant image: content no longer matters, only length
                    u = us.pop()
                    if len(u): parts.append(Rep(u, unlin(lsub(q.hi, q.lo))))
                else: parts.append(Run(q.atom, q.lo, q.hi, tab))
            elif isinstance(q, Rep):
                u = strs.empty(outkind)
                for e in q.u: u += f(e)
                if u: parts.append(Rep(u, q.n))
            elif isinstance(q, Tab):
                tab = {}
                for k in P().dom[q.fv.var]:
                    r = strs.empty(outkind)
                    for e in q.fv.tab[k]: r += f(e)
                    tab[k] = r
                parts.append(Tab(FV(q.fv.var, tab)))
            elif isinstance(q, ChrP):
                if strs.elem_in(SV('s', [q]), CS([(0, 127)])):
                    lo, hi = bounds(tuple(P().cons), L(q.cp), 1 << 22)
                    raise Unsupported('ascii range of a decoded character')
                u = f('\u0100')
                if f('\u2588') != u or f('\U0001f600') != u: raise Unsupported('non-uniform image')
                parts.append(Lit(u))
            elif isinstance(q, NumP):
                if all(f(c) == (c if outkind == 's' else c.encode()) for c in '0123456789abcdefABCDEF'):
                    if outkind == 's': parts.append(q)
                    else:
                        parts.append(Opq(f'num({q.lin},{q.base},{q.width})', strs.part_len(q), strs.DIGITS))
                else: raise Unsupported('image of formatted number')
            elif isinstance(q, Opq):
                parts.append(Opq(f'map({q.name})', q.n, None))
                P().inexact('element-wise image of opaque text')
            else: raise Unsupported('map_elems')
        return mk(outkind, parts)

    def encode(self, x, enc, errors):
        I = self.I
        full, enc = enc, enc.lower().replace('-', '').replace('_', '')
        if isinstance(x, str):
            try: return x.encode(full, errors)
            except UnicodeEncodeError as e: I.raise_('UnicodeEncodeError', str(e))
            except LookupError as e:
                if known_codec(full): raise Unsupported('codec ' + full)
                I.raise_('LookupError', str(e))
        if enc in ('ascii', 'usascii', 'latin1', 'iso88591') or enc == 'utf8':
            top = {'ascii': 127, 'usascii': 127, 'latin1': 255, 'iso88591': 255}.get(enc, 0x10ffff)
            if errors == 'strict' and enc != 'utf8':
                chars = CS()
                for q in sv(strs.norm(x)).parts: chars = chars.union(strs.part_chars(q))
                if not chars.subset(CS([(0, top)])): raise Unsupported('strict encoding of non-ascii')
            return self.map_elems(x, lambda c: c.encode(enc, errors), 'b')
        raise Unsupported('encoding ' + enc)

    def decode(self, x, enc, errors):
        I = self.I
        full, enc = enc, enc.lower().replace('-', '').replace('_', '')
        if isinstance(x, FV): x = sv(x)
        if isinstance(x, bytes):
            try: return x.decode(full, errors)
            except UnicodeDecodeError as e: I.raise_('UnicodeDecodeError', str(e))
            except LookupError as e:
                if known_codec(full): raise Unsupported('codec ' + full)
                I.raise_('LookupError', str(e))
        if enc in ('ascii', 'usascii', 'latin1', 'iso88591'):
            f = as_fv(x)
            if isinstance(f, FV): return fv_map(lambda b: self.decode(b, enc, errors), f)
            if errors == 'strict' and enc in ('ascii', 'usascii'):
                x = strs.norm(x)
                for q in sv(x).parts:
                    if not strs.part_chars(q).subset(CS([(0, 127)])):
                        # some byte may be out of range
                        e = self.elements_in(x, CS([(0, 127)]))
                        if not e: I.raise_('UnicodeDecodeError', "'ascii' codec can't decode byte")
                        break
            return self.map_elems(x, lambda b: bytes([b]).decode(enc, errors if errors != 'strict' else 'replace'), 's')
        if enc == 'utf8': return self.decode_utf8(x, errors)
        raise Unsupported('encoding ' + enc)

    def elements_in(self, x, cs):
        """Decide whether all elements of x are in cs."""
        pos = 0
        for _ in range(200):
            x = strs.norm(x)
            if not lt(pos, strs.length(x)): return True
            x2, q = strs.isolate(x, pos)
            if q is None: return True
            st, w = strs.run_all_in(x, pos, q, cs)
            if st == 'retry': continue
            if st in ('none', 'mixed'): return False
            pos = unlin(L(pos).add(L(strs.part_len(q))))
        raise Cut('elements_in')

    # CPython's UTF-8 decoder as a table of allowed second bytes
    SECOND = [(0xc2, 0xdf, 0x80, 0xbf, 1), (0xe0, 0xe0, 0xa0, 0xbf, 2), (0xe1, 0xec, 0x80, 0xbf, 2), (0xed, 0xed, 0x80, 0x9f, 2),
              (0xee, 0xef, 0x80, 0xbf, 2), (0xf0, 0xf0, 0x90, 0xbf, 3), (0xf1, 0xf3, 0x80, 0xbf, 3), (0xf4, 0xf4, 0x80, 0x8f, 3)]

    def decode_utf8(self, x, errors):
        I = self.I
        out = []
        pos = 0
        bad = {'replace': '\ufffd', 'ignore': ''}.get(errors)

        def err():
            if bad is None: I.raise_('UnicodeDecodeError', "'utf-8' codec can't decode bytes")
            out.append(bad)
        for _ in range(400):
            x = strs.norm(x)
            if not lt(pos, strs.length(x)): return concat('', *out)
            x2, q = strs.isolate(x, pos)
            ch = strs.part_chars(q)
            if ch.subset(CS([(0, 127)])) or (ch.subset(CS([(0x80, 0xc1), (0xf5, 0xff)])) and bad is not None):
                n = strs.part_len(q)
                out.append(self.map_elems(mk('b', [q]), (lambda b: chr(b)) if ch.subset(CS([(0, 127)])) else (lambda b: bad), 's'))
                pos = unlin(L(pos).add(L(n)))
                continue
            if isinstance(q, Run) and not surely_eq(strs.part_len(q), 1):
                st, w = strs.run_all_in(x, pos, q, CS([(0, 127)]) if ch.inter(CS([(0, 127)])) else CS([(0x80, 0xc1), (0xf5, 0xff)]))
                if st in ('retry', 'all'): continue
                if st == 'none' and not isinstance(q, (Tab,)) : pass
            e = strs.elem(x, pos)
            if strs.elem_in(e, CS([(0, 127)])):
                e = strs.elem(x, pos)
                out.append(self.chr_of(e))
                pos = unlin(L(pos).add(1))
                continue
            lead = None
            for lo, hi, slo, shi, n in self.SECOND:
                if strs.elem_in(strs.elem(x, pos), CS([(lo, hi)])):
                    lead = (slo, shi, n)
                    break
            if lead is None:
                err()
                pos = unlin(L(pos).add(1))
                continue
            slo, shi, n = lead
            got = [strs.elem(x, pos)]
            ok = True
            p2 = unlin(L(pos).add(1))
            for k in range(n):
                x = strs.norm(x)
                if not lt(p2, strs.length(x)):
                    ok = False
                    break
                a, b = (slo, shi) if k == 0 else (0x80, 0xbf)
                if not strs.elem_in(strs.elem(x, p2), CS([(a, b)])):
                    ok = False
                    break
                got.append(None)
                p2 = unlin(L(p2).add(1))
            if not ok:
                err()
                pos = p2
                continue
            els = [strs.elem(x, unlin(L(pos).add(i))) for i in range(n + 1)]
            out.append(self.utf8_char(els))
            pos = p2
        raise Cut('utf8 decoding')

    def chr_of(self, e):
        if isinstance(e, int): return chr(e)
        if isinstance(e, FV): return fv_map(chr, e)
        raise Unsupported('chr')

    def utf8_char(self, els):
        if all(isinstance(e, int) for e in els): return bytes(els).decode('utf-8')
        n = len(els) - 1
        vs = [fv_norm(e) for e in els]
        if sum(isinstance(v, FV) for v in vs) == 1 or len({v.var for v in vs if isinstance(v, FV)}) == 1:
            return fv_map(lambda *b: bytes(b).decode('utf-8'), *vs) if len({v.var for v in vs if isinstance(v, FV)}) == 1 else None
        cp = L(0)
        masks = {1: 0x1f, 2: 0x0f, 3: 0x07}
        for i, v in enumerate(vs):
            base = {1: 0xc0, 2: 0xe0, 3: 0xf0}[n] if i == 0 else 0x80
            sh = 6 * (n - i)
            if isinstance(v, int): t = L((v - base) << sh)
            else: t = L(self.twin(v)).add(-base).mul(1 << sh)
            cp = cp.add(t)
        return mk('s', [ChrP(unlin(cp))])

    def twin(self, v):
        """Affine integer that denotes the value of a finite-domain variable with integer values."""
        p = P()
        ident = all(k == x for k, x in v.tab.items())
        key = ('twin', v.var, None if ident else tuple(sorted(v.tab.items())))
        t = p.memo.get(key)
        if t is None:
            name = p.fresh('val(' + str(v.var) + ')')
            t = Lin.var(name)
            p.memo[key] = t
            p.twins = getattr(p, 'twins', {})
            p.twins[name] = (v.var, v.tab)
        vals = [v.tab[x] for x in p.dom[v.var]]
        p.assume(t.add(-min(vals)))
        p.assume(L(max(vals)).sub(t))
        return t

    # ------------------------------------------------------------ methods
    def str_method(self, o, n):
        """Bound builtin method of a str/bytes value, or MISSING."""
        from .interp import Builtin, MISSING
        k = kind_of(o)
        if n in ('__class__',): return self.B['str' if k == 's' else 'bytes']
        if n == '__doc__': return None
        if not hasattr(bytes if k == 'b' else str, n): return MISSING
        return Builtin(f'{"str" if k == "s" else "bytes"}.{n}', lambda a, kw: self.call_str(o, n, a, kw))

    def call_str(self, o, n, a, kw):
        I = self.I
        o = strs.norm(o)
        if n == 'join': return self.join(o, a[0])
        if n == 'format': return self.str_format(o, a, kw)
        if n == '__format__': return self.format_(o, a[0] if a else '')
        if n == '__len__': return strs.length(o)
        if n == '__str__': return self.str_(o)
        if n == '__repr__': return self.repr_(o)
        if n == '__add__': return concat(o, a[0])
        if n == '__contains__': return self.str_contains(o, a[0])
        if n == '__getitem__': return I.getitem(o, a[0])
        if n == '__eq__': return I.eq(o, a[0])
        if n == '__iter__':
            from .interp import Iter
            return Iter(strs.elements(o))
        a = [strs.norm(x) if isinstance(x, (SV, FV)) else x for x in a]
        kw = {q: (strs.norm(x) if isinstance(x, (SV, FV)) else x) for q, x in kw.items()}
        if n in ('encode', 'decode'):
            enc = a[0] if a else kw.get('encoding', 'utf-8')
            err = a[1] if len(a) > 1 else kw.get('errors', 'strict')
            if isinstance(enc, str) and isinstance(err, str): return (self.encode if n == 'encode' else self.decode)(o, enc, err)
        from .interp import AList
        host = lambda v: isinstance(v, (str, bytes, int, type(None))) or isinstance(v, tuple) and all(isinstance(z, (str, bytes)) for z in v)
        if n not in HOST_OK: raise Unsupported('string method ' + n)
        if n == 'translate': return self.translate(o, a, kw)
        if host(o) and all(host(x) for x in a) and all(host(x) for x in kw.values()):
            return self.host_call(o, n, a, kw)
        if n in ('rjust', 'ljust', 'center'):
            fill = a[1] if len(a) > 1 else (' ' if kind_of(o) == 's' else b' ')
            if isinstance(a[0], FV): a[0] = force(a[0])
            if not isinstance(a[0], (int, Lin)): I.raise_('TypeError', 'integer argument expected')
            if not isinstance(fill, (str, bytes)): raise Unsupported('symbolic fill')
            if len(fill) != 1: I.raise_('TypeError', 'The fill character must be exactly one character long')
            if n == 'center' and not (isinstance(a[0], int) and isinstance(o, (str, bytes))):
                # CPython: left = pad/2 + (pad & width & 1)
                ln = strs.length(o)
                if not lt(ln, a[0]): return o
                miss = unlin(lsub(a[0], ln))
                half = self.floordiv(miss, 2)
                odd = unlin(L(miss).sub(L(half).mul(2)))
                wod = unlin(L(a[0]).sub(L(self.floordiv(a[0], 2)).mul(2)))
                l = half
                if not eq_int(odd, 0) and not eq_int(wod, 0): l = unlin(L(half).add(1))
                return concat(self.str_mul(fill, l), o, self.str_mul(fill, unlin(lsub(miss, l))))
            return self.pad(o, a[0], fill, {'rjust': '>', 'ljust': '<', 'center': '^'}[n])
        fo = as_fv(o)
        if isinstance(fo, FV) and all(host(x) or isinstance(x, FV) for x in a):
            return self.fv_result(lambda *z: self.host_call(z[0], n, list(z[1:]), kw), fo, *a)
        if host(fo) and any(isinstance(as_fv(x), FV) for x in a) and all(host(x) or isinstance(as_fv(x), FV) for x in a):
            return self.fv_result(lambda *z: self.host_call(z[0], n, list(z[1:]), kw), fo, *[x if host(x) else as_fv(x) for x in a])
        if n in PER_CHAR and not a and not kw and isinstance(o, SV) and len(o.parts) == 1 and isinstance(o.parts[0], ChrP):
            return self.char_fn(n, lambda c: getattr(c, n)(), o)
        m = getattr(self, 'sm_' + n, None)
        if m is None: raise Unsupported('string method ' + n + ' of a symbolic string')
        return m(o, *a, **kw)

    def translate(self, o, a, kw):
        from .interp import ADict
        t = a[0]
        if kind_of(o) == 'b':
            dele = a[1] if len(a) > 1 else kw.get('delete', b'')
            if not (t is None or isinstance(t, bytes) and len(t) == 256) or not isinstance(dele, bytes): raise Unsupported('translation table')
            return self.map_elems(o, lambda b: b'' if b in dele else bytes([b if t is None else t[b]]), 'b')
        if not isinstance(t, ADict): raise Unsupported('translation table')
        m = {}
        for k, v in t.m.values():
            if not isinstance(k, int) or not isinstance(v, (int, str, type(None))): raise Unsupported('translation table')
            m[k] = '' if v is None else chr(v) if isinstance(v, int) else v
        if isinstance(o, str): return o.translate(m)
        out = []
        for q in sv(o).parts:
            x = mk('s', [q])
            if isinstance(q, ChrP): out.append(self.char_fn(('translate', tuple(sorted(m.items()))), lambda c: m.get(ord(c), c), x))
            elif isinstance(q, NumP) and not any(chr(k) in '0123456789abcdefABCDEFx-' for k in m): out.append(x)
            elif isinstance(q, (Lit, Run, Rep, Tab)): out.append(self.map_elems(x, lambda c: m.get(ord(c), c), 's'))
            else: raise Unsupported('translate')
        return concat('', *out)

    def char_fn(self, key, f, o):
        """Image of a single unknown character under a function of the host: one partition per range of code points with
        a common image (a constant, or a constant distance). Of very many ranges some are visited, the others are undecided."""
        if key not in IMAGES:
            rs = []
            for c in range(0x110000):
                if 0xd800 <= c < 0xe000: continue
                try: v = f(chr(c))
                except ValueError: v = Unsupported
                im = ('d', ord(v) - c) if isinstance(v, str) and len(v) == 1 else ('v', v)
                if rs and rs[-1][1] == c - 1 and rs[-1][2] == im and type(rs[-1][2][1]) is type(im[1]): rs[-1][1] = c
                else: rs.append([c, c, im])
            IMAGES[key] = rs
        P().sync()
        q = o.parts[0]
        pieces = [(max(lo, a), min(hi, b), im) for a, b, im in IMAGES[key] for lo, hi in strs.part_chars(q).iv if max(lo, a) <= min(hi, b)]
        rest = len(pieces) > 24
        if rest:
            big = sorted(pieces, key=lambda x: x[0] - x[1])[:8]
            other = [x for x in pieces if x not in big]
            pieces = big + other[::max(1, len(other) // 16)][:16]
        k = choose(len(pieces) + rest, 'char image')
        if k == len(pieces): raise Unsupported('remaining character ranges')
        lo, hi, (kind, v) = pieces[k]
        P().assume(lsub(q.cp, lo))
        P().assume(lsub(hi, q.cp))
        P().sync()
        if v is Unsupported: raise Unsupported('character without an image')
        if kind == 'v': return v
        return mk('s', [ChrP(unlin(L(q.cp).add(v)))])

    def fv_result(self, f, *args):
        """fv_map for functions that may return lists (partitions on the length of the list)."""
        from .interp import AList
        r = fv_map(f, *args)
        if isinstance(r, FV) and any(isinstance(v, (AList, tuple)) for v in r.tab.values()):
            by = {}
            for x in P().dom[r.var]: by.setdefault(len(r.tab[x].v if isinstance(r.tab[x], AList) else r.tab[x]), []).append(x)
            ks = sorted(by)
            k = ks[choose(len(ks), f'{r.var} list length')]
            P().dom[r.var] = frozenset(by[k])
            first = r.tab[by[k][0]]
            items = [fv_norm(FV(r.var, {x: (r.tab[x].v if isinstance(r.tab[x], AList) else r.tab[x])[i] for x in by[k]})) for i in range(k)]
            return AList(items) if isinstance(first, AList) else tuple(items)
        return r

    def host_call(self, o, n, a, kw):
        from .interp import AList
        I = self.I
        try: r = getattr(o, n)(*a, **kw)
        except (TypeError, ValueError, IndexError, LookupError, UnicodeError, OverflowError) as e:
            nm = type(e).__name__
            I.raise_(nm if nm in self.B else 'ValueError', str(e))
        return AList(r) if isinstance(r, list) else r

    def join(self, sep, it):
        from .interp import AList, MappedRun, Iter, LazyIter
        I = self.I
        it = I.strip(it)
        items = None
        if isinstance(it, MappedRun): items = [it]
        if is_str(it) and kind_of(it) == 's' and isinstance(sep, str) and sep == '': return it
        if is_str(it): items = strs.elements(it) if kind_of(it) == 's' else I.raise_('TypeError', 'sequence item 0: expected str instance, int found')
        if items is None: items = I.iter_list(it)
        if any(isinstance(x, MappedRun) for x in items):
            if len(items) != 1: raise Unsupported('join of mixed images')
            mr = items[0]
            parts = []
            outk = kind_of(sep)
            seq = []
            for q, t in mr.parts:
                if q is None: seq += [('item', x) for x in t]
                elif isinstance(q, Run):
                    vals = list(t.values())
                    if not all(isinstance(v, (str if outk == 's' else bytes)) for v in vals): I.raise_('TypeError', 'sequence item: expected str instance')
                    seq.append(('run', q, t))
                else: seq.append(('rep', q, t))
            if sep != ('' if outk == 's' else b''):
                if not isinstance(sep, (str, bytes)): raise Unsupported('symbolic separator')
                return self.join_sep(seq, sep, outk)
            return self.seq_parts(seq, outk)
        out = []
        for i, x in enumerate(items):
            if isinstance(x, FV): x = I.strip(x)
            if not is_str(x) or kind_of(x) != kind_of(sep):
                if isinstance(x, Top): raise Unsupported('join of unknown')
                I.raise_('TypeError', f'sequence item {i}: expected str instance, {self.type_name(x)} found')
            if i: out.append(sep)
            out.append(x)
        if not out: return strs.empty(kind_of(sep))
        return concat(strs.empty(kind_of(sep)), *out)

    def join_sep(self, seq, sep, outk):
        parts, first = [], True
        for e in seq:
            if e[0] == 'item':
                if not is_str(e[1]) or kind_of(e[1]) != outk: self.I.raise_('TypeError', 'sequence item: expected str instance')
                parts += ([] if first else [Lit(sep)]) + list(sv(e[1]).parts)
                first = False
            elif e[0] == 'run':
                q, t = e[1:]
                lo = q.lo
                if first:
                    if not ge0(lsub(q.hi, q.lo).add(-1) if not isinstance(lsub(q.hi, q.lo), int) else Lin((), lsub(q.hi, q.lo) - 1)): continue
                    parts.append(Run(q.atom, lo, unlin(L(lo).add(1)), t))
                    lo = unlin(L(lo).add(1))
                    first = False
                parts.append(Run(q.atom, lo, q.hi, {c: sep + v for c, v in t.items()}))
            else:
                q, t = e[1:]
                n = L(q.n).mul(len(q.u))
                if first:
                    if not ge0(n.add(-1)): continue
                    parts += list(sv(t).parts)
                    n = n.add(-1)
                    first = False
                if not isinstance(t, (str, bytes)): raise Unsupported('join of a symbolic image')
                parts.append(Rep(sep + t, unlin(n)))
        return mk(outk, parts) if parts else strs.empty(outk)

    def seq_parts(self, seq, outk):
        parts = []
        for s in seq:
            if s[0] == 'item':
                if not is_str(s[1]): self.I.raise_('TypeError', 'sequence item: expected str instance')
                parts += list(sv(s[1]).parts)
            elif s[0] == 'run':
                q = s[1]
                parts.append(Run(q.atom, q.lo, q.hi, s[2]))
            else:
                q = s[1]
                if s[2]: parts.append(Rep(s[2], unlin(L(q.n).mul(len(q.u)))))
        return mk(outk, parts)

    def join_mapped(self, m, zero):
        """Concatenation of the images, or None when they are not strings of the kind of `zero`."""
        t0 = type(zero)
        seq = []
        for q, t in m.parts:
            if q is None:
                if not all(is_str(x) and kind_of(x) == kind_of(zero) for x in t): return None
                seq += [('item', x) for x in t]
            elif isinstance(q, Run):
                if not all(isinstance(v, t0) for v in t.values()): return None
                seq.append(('run', q, t))
            else:
                if not isinstance(t, t0): return None
                seq.append(('rep', q, t))
        return self.seq_parts(seq, kind_of(zero))

    # methods over symbolic strings
    def sm_startswith(self, o, pre, *r):
        if r: raise Unsupported('startswith with bounds')
        if isinstance(pre, tuple): return any(self.sm_startswith(o, p) for p in pre)
        n = strs.length(pre)
        if not le(n, strs.length(o)): return False
        return bool(strs.equal(strs.slice_(o, 0, n), pre))

    def sm_endswith(self, o, suf, *r):
        if r: raise Unsupported('endswith with bounds')
        if isinstance(suf, tuple): return any(self.sm_endswith(o, p) for p in suf)
        n = strs.length(suf)
        ln = strs.length(o)
        if not le(n, ln): return False
        if isinstance(n, int) and n == 0: return True
        # identical trailing parts
        return bool(strs.equal(strs.slice_(o, unlin(lsub(ln, n)), None), suf))

    def sm_removeprefix(self, o, pre): return strs.slice_(o, strs.length(pre), None) if self.sm_startswith(o, pre) else o
    def sm_removesuffix(self, o, s): return strs.slice_(o, 0, unlin(lsub(strs.length(o), strs.length(s)))) if self.sm_endswith(o, s) else o

    def sm_replace(self, o, old, new, count=-1):
        if isinstance(count, Lin) or not isinstance(count, int): raise Unsupported('replace count')
        old = strs.norm(old)
        if not isinstance(old, (str, bytes)) or not old: raise Unsupported('replace of symbolic substring')
        if len(old) == 1 and count == -1 and isinstance(new, (str, bytes)):
            return self.map_elems(o, lambda c: new if (c == old or isinstance(c, int) and bytes([c]) == old) else (c if isinstance(c, str) else bytes([c])), kind_of(o))
        import re
        return self.sub(self.rx(re.escape(old)), lambda m: new, o, max(0, count))[0]

    def sm_find(self, o, x, start=0, end=None):
        if end is not None: o = strs.slice_(o, 0, end)
        if isinstance(x, int): x = bytes([x])
        r = self.find(o, x, start)
        return -1 if r is None else r

    def sm_index(self, o, x, *r):
        v = self.sm_find(o, x, *r)
        if isinstance(v, int) and v == -1: self.I.raise_('ValueError', 'substring not found')
        return v

    def sm_count(self, o, x):
        import re
        if isinstance(x, int): x = bytes([x])
        if not isinstance(x, (str, bytes)): raise Unsupported('count')
        n = 0
        for m in self.rx(re.escape(x)).finditer(o): n += 1
        return n

    def sm_hex(self, o, sep='', *r):
        if r or not isinstance(sep, str) : raise Unsupported('hex')
        if sep == '': return self.map_elems(o, lambda b: f'{b:02x}', 's')
        return Opq_text('hex')

    def _strip(self, o, chars, left, right):
        if chars is None: cs = rxm.category(rxm.sc.CATEGORY_SPACE, kind_of(o) == 'b', False)
        else:
            if not isinstance(chars, (str, bytes)): raise Unsupported('strip set')
            cs = CS.of([c if isinstance(c, int) else ord(c) for c in chars])
        if left:
            for _ in range(60):
                o = strs.norm(o)
                if not lt(0, strs.length(o)): return o
                x2, q = strs.isolate(o, 0)
                st, w = strs.run_all_in(o, 0, q, cs)
                if st == 'retry': continue
                if st == 'none': break
                if st == 'mixed':
                    o = strs.slice_(o, w, None)
                    break
                o = strs.slice_(o, strs.part_len(q), None)
        if right:
            for _ in range(60):
                o = strs.norm(o)
                n = strs.length(o)
                if not lt(0, n): return o
                q = sv(o).parts[-1]
                ch = strs.part_chars(q)
                if not ch.inter(cs): break
                if isinstance(q, Lit):
                    l = len(q.v)
                    k = l
                    while k and cs.has(q.v[k - 1] if isinstance(q.v[k - 1], int) else ord(q.v[k - 1])): k -= 1
                    o = strs.slice_(o, 0, unlin(lsub(n, l - k)))
                    if k: break
                    continue
                if ch.subset(cs):
                    o = strs.slice_(o, 0, unlin(lsub(n, strs.part_len(q))))
                    continue
                if isinstance(q, (Tab, ChrP)) or surely_eq(strs.part_len(q), 1):
                    e = strs.elem(o, unlin(lsub(n, 1)))
                    if not strs.elem_in(e, cs): break
                    o = strs.slice_(o, 0, unlin(lsub(n, 1)))
                    continue
                if isinstance(q, Run) and surely_eq(q.hi, P().atoms[q.atom].n):
                    # split off the last element
                    strs.split_atom(q.atom, unlin(lsub(q.hi, 1)))
                    continue
                raise Unsupported('rstrip of ' + type(q).__name__)
        return o

    def sm_strip(self, o, chars=None): return self._strip(o, chars, True, True)
    def sm_lstrip(self, o, chars=None): return self._strip(o, chars, True, False)
    def sm_rstrip(self, o, chars=None): return self._strip(o, chars, False, True)

    def sm_split(self, o, sep=None, maxsplit=-1):
        from .interp import AList
        if sep is None: raise Unsupported('split on whitespace of a symbolic string')
        import re
        sep = strs.norm(sep)
        if not isinstance(sep, (str, bytes)) or not sep or maxsplit != -1: raise Unsupported('split')
        out, pos = [], 0
        for m in self.rx(re.escape(sep)).finditer(o):
            out.append(strs.slice_(o, pos, m.spans[0][0]))
            pos = m.spans[0][1]
        out.append(strs.slice_(o, pos, None))
        return AList(out)

    def sm_splitlines(self, o, keepends=False):
        from .interp import AList
        pat = '\r\n|[\n\r\x0b\x0c\x1c\x1d\x1e\x85\u2028\u2029]' if kind_of(o) == 's' else b'\r\n|[\n\r]'
        keepends = self.I.truth(keepends)
        out, pos = [], 0
        for m in self.rx(pat).finditer(o):
            out.append(strs.slice_(o, pos, m.spans[0][1] if keepends else m.spans[0][0]))
            pos = m.spans[0][1]
        if lt(pos, strs.length(o)): out.append(strs.slice_(o, pos, None))
        return AList(out)

    def _case(self, o, f):
        return self.map_elems(o, f, kind_of(o))

    def sm_upper(self, o): return self._case(o, lambda c: c.upper() if isinstance(c, str) else bytes([c]).upper())
    def sm_lower(self, o): return self._case(o, lambda c: c.lower() if isinstance(c, str) else bytes([c]).lower())

    def sm_isdigit(self, o):
        if not ge0(L(strs.length(o)).add(-1)): return False
        cs = CS([(48, 57)]) if kind_of(o) == 'b' else rxm.category(rxm.sc.CATEGORY_DIGIT, False, False)
        return self.elements_in(o, cs)

    def sm_isascii(self, o): return self.elements_in(o, CS([(0, 127)]))

    def sm_zfill(self, o, w): return self.pad(o, w, '0' if kind_of(o) == 's' else b'0', '>')

    # ------------------------------------------------------------ regular expression objects
    def sub(self, rx, repl, x, count=0):
        I = self.I
        out, pos, n = [], 0, 0
        x = strs.norm(x)
        e = b'' if rx.bytes else ''
        if isinstance(x, (str, bytes)) and isinstance(repl, (str, bytes)):
            try: return rx.host.subn(repl, x, count)
            except (rxm.re.error, IndexError) as er: I.raise_('ValueError', str(er))
        if isinstance(x, FV) or isinstance(as_fv(x), FV):
            if isinstance(repl, (str, bytes)):
                f = as_fv(x)
                return fv_map(lambda s: rx.host.sub(repl, s, count), f), None
        if isinstance(x, FV): x = sv(x)
        if isinstance(x, SV) and isinstance(repl, (str, bytes)) and not count and rx.single():     # each element is replaced on its own
            try: return self.map_elems(x, lambda c: rx.host.sub(repl, c if isinstance(c, (str, bytes)) else bytes([c])), kind_of(x)), None
            except (Unsupported, rxm.re.error, IndexError): pass
        if isinstance(x, SV) and isinstance(repl, (str, bytes)) and count and rx.single():
            r = self.sub_count(rx, repl, x, count)
            if r is not None: return r, None
        if isinstance(x, (str, bytes)):
            it = (M(rx, x, [m.span(i) if m.start(i) >= 0 else None for i in range(rx.groups + 1)]) for m in rx.host.finditer(x))
        else: it = rx.finditer(x)
        for m in it:
            if count and n >= count: break
            s, t = m.spans[0]
            out.append(strs.slice_(x, pos, s))
            if isinstance(repl, (str, bytes)): out.append(expand(rx, repl, m))
            elif isinstance(repl, (SV, FV)): out.append(repl)
            else: out.append(repl(m))
            pos = t
            n += 1
        out.append(strs.slice_(x, pos, None))
        return concat(e, *out), n

    def sub_count(self, rx, repl, x, count):
        """At most count replacements of single elements; every part of x consists of matches only or contains none."""
        def f(c): return rx.host.sub(repl, c if isinstance(c, (str, bytes)) else bytes([c]))

        def hit(c): return rx.host.fullmatch(c if isinstance(c, (str, bytes)) else bytes([c])) is not None
        pieces, out, left = [], [], count
        for q in x.parts:
            if isinstance(q, Lit): pieces += [(Lit(q.v[i:i + 1]), hit(q.v[i:i + 1])) for i in range(len(q.v))]
            elif isinstance(q, (Run, Rep)):
                if isinstance(q, Rep): hs = {hit(q.u[i:i + 1]) for i in range(len(q.u))}
                else:
                    cs = P().atoms[q.atom].chars
                    us = [c for c in cs] if q.tab is None else [e for c in cs for e in (q.tab[c][i:i + 1] for i in range(len(q.tab[c])))]
                    hs = {hit(c) for c in us}
                if len(hs) != 1: return None
                pieces.append((q, hs.pop()))
            else: return None
        k = kind_of(x)
        for q, h in pieces:
            if not h or le(left, 0):
                out.append(mk(k, [q]))
                continue
            n, v = strs.part_len(q), mk(k, [q])
            if le(n, left):
                out.append(self.map_elems(v, f, k))
                left = unlin(lsub(left, n))
            else:
                out += [self.map_elems(strs.slice_(v, 0, left), f, k), strs.slice_(v, left, None)]
                left = 0
        return concat(strs.empty(k), *out)

    def rx_method(self, r, n):
        from .interp import Builtin, MISSING, Iter, AList, LazyIter
        I = self.I
        if n == 'pattern': return r.pattern
        if n == 'flags': return int(r.flags)
        if n == 'groups': return r.groups
        if n == '__class__': return self.B['Pattern']

        def chk(x):
            x = self.plain_bytes(x)
            if not is_str(x): I.raise_('TypeError', 'expected string or bytes-like object')
            if (kind_of(x) == 'b') != r.bytes: I.raise_('TypeError', 'cannot use a string pattern on a bytes-like object')
            if isinstance(x, FV): return sv(x)
            return x
        if n in ('match', 'fullmatch'): return Builtin(n, lambda a, k: r.match_at(chk(a[0]), a[1] if len(a) > 1 else 0, n == 'fullmatch'))
        if n == 'search': return Builtin(n, lambda a, k: r.search(chk(a[0]), a[1] if len(a) > 1 else 0))
        if n in ('sub', 'subn'):
            def sub(a, k):
                repl = a[0] if a else k['repl']
                x = chk(a[1] if len(a) > 1 else k['string'])
                cnt = a[2] if len(a) > 2 else k.get('count', 0)
                if not is_str(repl): f = lambda m: I.call(repl, [m])
                else: f = strs.norm(repl)
                v, c = self.sub(r, f, x, cnt)
                return v if n == 'sub' else (v, c)
            return Builtin(n, sub)
        if n == 'finditer': return Builtin(n, lambda a, k: LazyIter(lambda: r.finditer(chk(a[0]))))
        if n == 'findall':
            def fa(a, k):
                out = []
                e = b'' if r.bytes else ''
                for m in r.finditer(chk(a[0])):
                    if r.groups == 0: out.append(m.group(0))
                    elif r.groups == 1: out.append(m.group(1) if m.group(1) is not None else e)
                    else: out.append(tuple(m.group(i) if m.group(i) is not None else e for i in range(1, r.groups + 1)))
                return AList(out)
            return Builtin(n, fa)
        if n == 'split':
            def spl(a, k):
                x = chk(a[0])
                out, pos = [], 0
                for m in r.finditer(x):
                    out.append(strs.slice_(x, pos, m.spans[0][0]))
                    out += [m.group(i) for i in range(1, r.groups + 1)]
                    pos = m.spans[0][1]
                out.append(strs.slice_(x, pos, None))
                return AList(out)
            return Builtin(n, spl)
        return MISSING

    def plain_bytes(self, x):
        """The content of a bytearray."""
        from .interp import Inst
        if isinstance(x, Inst) and x.cls.is_sub(self.B['bytearray']): return self.c_bytes([x], {})
        return x

    def m_method(self, m, n):
        from .interp import Builtin, MISSING, ADict
        I = self.I

        def grp(i):
            if isinstance(i, Lin) or isinstance(i, FV): raise Unsupported('symbolic group')
            j = m.idx(i)
            if not isinstance(j, int) or not 0 <= j < len(m.spans): I.raise_('IndexError', 'no such group')
            return j

        def group(a, k):
            if not a: return m.group(0)
            if len(a) == 1: return m.group(grp(a[0]))
            return tuple(m.group(grp(x)) for x in a)
        if n == 'group': return Builtin(n, group)
        if n == '__getitem__': return Builtin(n, group)
        if n == 'groups':
            return Builtin(n, lambda a, k: tuple((a[0] if a else k.get('default')) if m.spans[i] is None else m.group(i) for i in range(1, len(m.spans))))
        if n == 'groupdict':
            def gd(a, k):
                d = ADict()
                for nm, i in m.rx.groupindex.items(): I.dict_set(d, nm, m.group(i))
                return d
            return Builtin(n, gd)
        if n == 'start': return Builtin(n, lambda a, k: -1 if m.spans[grp(a[0] if a else 0)] is None else m.spans[grp(a[0] if a else 0)][0])
        if n == 'end': return Builtin(n, lambda a, k: -1 if m.spans[grp(a[0] if a else 0)] is None else m.spans[grp(a[0] if a else 0)][1])
        if n == 'span': return Builtin(n, lambda a, k: (-1, -1) if m.spans[grp(a[0] if a else 0)] is None else tuple(m.spans[grp(a[0] if a else 0)]))
        if n == 'string': return m.subj
        if n == 're': return m.rx
        if n == 'pos': return 0
        if n in ('lastindex', 'lastgroup'):
            last = None
            for i in m.rx.closing():
                if m.spans[i] is not None: last = i
            if n == 'lastindex': return last
            names = {i: nm for nm, i in m.rx.groupindex.items()}
            return names.get(last)
        if n == '__class__': return self.B['Match']
        return MISSING


def Opq_text(name, kind='s'):
    p = P()
    n = p.fresh('text:' + name)
    ln = new_int(f'|{n}|', 0)
    return SV(kind, [Opq(n, ln, None)])


def Opq_text_n(name, n, x): return x
def _bad(w): raise Unsupported(w)


def known_codec(n):
    import codecs
    try: return codecs.lookup(n) is not None
    except (LookupError, ValueError): return False
