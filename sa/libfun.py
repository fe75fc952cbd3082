"""Builtin functions and constructors (attached to lib.Lib)."""
from __future__ import annotations

import ast
import functools
import math
from .num import Lin, L, unlin, bounds
from . import core, strs
from .core import (FV, Top, Frac, Unsupported, Cut, P, choose, ge0, lt, le, eq_int, fv_map, fv_norm, force, new_int, surely_eq,
                   surely_ge, lsub, touch)
from .strs import SV, Lit, NumP, ChrP, Tab, Run, Rep, CS, concat, kind_of, is_str, mk, sv
from .libstr import as_fv, Opq_text
from .interp import (Inst, Cls, Func, Bound, Builtin, Mod, AList, ADict, ASet, Prop, SM, CM, Iter, SuperObj, DictView,
                     NSView, MappedRun, LazyIter, GenObj, MISSING, PRIM, AExc)

NUMT = (int, float, Lin, Frac)
from fractions import Fraction as math_Fraction


def same_kind(ks): return all(isinstance(k, (int, Lin)) for k in ks) or all(isinstance(k, core.Root) for k in ks)


class Fns:
    # ------------------------------------------------------------ arithmetic
    def floordiv(self, x, k):
        """floor(x / k) for a positive constant k."""
        x = unlin(x)
        if isinstance(x, int): return x // k
        if k == 1: return x
        if x.c % k == 0 and all(c % k == 0 for _, c in x.t): return unlin(Lin(tuple((v, c // k) for v, c in x.t), x.c // k))
        g = math.gcd(k, *(c for _, c in x.t))
        if g > 1: x, k = Lin(tuple((v, c // g) for v, c in x.t), x.c // g), k // g     # floor(x / gk) = floor(floor(x / g) / k)
        p = P()
        div, rem = Lin(tuple((v, c // k) for v, c in x.t if c % k == 0), x.c // k), Lin(tuple((v, c) for v, c in x.t if c % k), x.c % k)
        lo, hi = bounds(tuple(p.cons), rem, 1 << 40)       # k*A + R: the floor is A + R // k
        if lo is not None and hi is not None and lo // k == hi // k: return unlin(div.add(lo // k))
        key = ('fd', x, k)
        q = p.memo.get(key)
        if q is None:
            q = new_int(f'({x!r})//{k}')
            p.memo[key] = q
            p.assume(lsub(x, q.mul(k)))
            p.assume(q.mul(k).add(k - 1).sub(x))
        return q

    def divmod_var(self, a, b):
        """quotient and remainder of a by a symbolic b > 0 (non-linear: relational facts only)."""
        p = P()
        key = ('dm', L(a), L(b))
        r = p.memo.get(key)
        if r is not None: return r
        if lt(b, 0) or eq_int(b, 0):
            if eq_int(b, 0): self.I.raise_('ZeroDivisionError', 'integer division or modulo by zero')
            raise Unsupported('division by a negative symbol')
        if ge0(L(a)):
            if lt(a, b): r = (0, unlin(L(a)))
            elif lt(a, unlin(L(b).mul(2))): r = (1, unlin(lsub(a, b)))
            else:
                q = new_int('quot', 2)
                m = new_int('rem', 0)
                p.assume(lsub(b, m).add(-1))
                p.assume(lsub(a, m).sub(q))
                p.inexact('non-linear division')
                r = (q, m)
        else: raise Unsupported('division of a negative symbol')
        p.memo[key] = r
        return r

    @staticmethod
    def sum_of_squares(x):
        """x >= 0 by completing the squares."""
        p, d = P(), dict(x.t)
        rest = math_Fraction(x.c)
        for k, q in list(p.memo.items()):
            if not (isinstance(k, tuple) and k[0] == 'square'): continue
            a = d.pop(q.t[0][0], 0)
            if a < 0: return False
            if a: rest -= math_Fraction(d.pop(k[1], 0) ** 2, 4 * a)
        return not d and rest >= 0

    def log10(self, v):
        """Decimal logarithm; the numbers are bounded so that rounding of the logarithm cannot move it over a power of ten."""
        x = self.I.to_frac(v)
        if not lt(0, L(x.num)): self.I.raise_('ValueError', 'math domain error')
        hi = bounds(tuple(P().cons), L(x.num), 1 << 50)[1]
        if hi is None or hi >= 10 ** 14 or x.den >= 10 ** 30: raise Unsupported('logarithm of an unbounded number')
        return core.Log10(x)

    def decade(self, x, up=False):
        n = L(x.num)
        for k in range(-31, 16):
            a, b = (n.mul(10 ** -k), L(x.den)) if k < 0 else (n, L(x.den * 10 ** k))
            if up:
                if le(a, b): return k
            elif lt(a, b): return k - 1
        raise Unsupported('logarithm out of range')

    def fmt_fixed(self, v, prec, width, fill, align, sign, alt, up=False):
        """Fixed-point text of a number; a tie goes either way (marked as inexact)."""
        x = self.I.to_frac(v)
        neg = lt(L(x.num), 0)
        n, d = (L(x.num).neg() if neg else L(x.num)).mul(10 ** prec), x.den
        g = math.gcd(d, n.c, *(k for _, k in n.t))
        if g > 1: n, d = Lin(tuple((v, k // g) for v, k in n.t), n.c // g), d // g
        hi = bounds(tuple(P().cons), n, 1 << 52)[1]
        if hi is None or hi >= 1 << 50: raise Unsupported('fixed-point text of an unbounded number')
        if d == 1: q = n
        else:
            q = L(self.floordiv(n.mul(2).add(d), 2 * d))
            if eq_int(n.mul(2).add(d).sub(q.mul(2 * d)), 0):
                P().inexact('tie in rounding')
                if choose(2, 'tie'): q = q.add(-1)
        if prec:
            a = self.floordiv(q, 10 ** prec)
            t = concat(self.fmt_int(unlin(L(a)), 'd', 0, ' ', '>', None, False), '.', self.fmt_int(unlin(q.sub(L(a).mul(10 ** prec))), 'd', prec, '0', '=', None, False))
        else: t = self.fmt_int(unlin(q), 'd', 0, ' ', '>', None, False)
        s = '-' if neg else sign if sign in ('+', ' ') else ''
        if align == '=' and width: return concat(s, self.pad(t, width - len(s), fill, '>'))
        t = concat(s, t)
        return self.pad(t, width, fill, align) if width else t

    def quotient(self, t, d):
        """A quotient by an unknown number: an unknown real."""
        if t is not ast.Div or not isinstance(d, Lin): raise Unsupported('division by a symbol')
        if eq_int(d, 0): self.I.raise_('ZeroDivisionError', 'division by zero')
        P().inexact('division by a symbol')
        return Top('quotient')

    def root(self, x):
        if isinstance(x, Lin) and (self.sum_of_squares(x) or ge0(x)):
            hi = bounds(tuple(P().cons), x, 1 << 51)[1]
            if hi is not None and hi < 1 << 50: return core.Root(x)
        raise Unsupported('square root of a symbol')

    def square(self, x, y):
        """(a v + b)(c v + d) with a symbol for v * v."""
        (v, a), b, (_, c), d = x.t[0], x.c, y.t[0], y.c
        p = P()
        lo, hi = bounds(tuple(p.cons), Lin.var(v), 1 << 20)
        if lo is None or hi is None or hi - lo <= 6: return None
        key = ('square', v)
        q = p.memo.get(key)
        if q is None:
            q = new_int(f'{v}^2')
            p.memo[key] = q
            p.inexact('non-linear multiplication')
            p.assume(q.add(-(0 if lo <= 0 <= hi else min(lo * lo, hi * hi))))
            p.assume(q.neg().add(max(lo * lo, hi * hi)))
        return unlin(q.mul(a * c).add(Lin(((v, a * d + b * c),), 0)).add(b * d))

    def arith(self, op, a, b):
        I = self.I
        t = type(op)
        if t is ast.Pow and b == 0.5 and isinstance(a, Lin): return self.root(a)
        if isinstance(a, float) or isinstance(b, float):
            if isinstance(a, (int, float)) and isinstance(b, (int, float)): return I.HOST[t](a, b)
            f = a if isinstance(a, float) else b
            if math.isinf(f) or math.isnan(f): raise Unsupported('infinite float arithmetic')
            if f == int(f):
                # exact conversion is only done for additive / multiplicative use
                if isinstance(a, float): a = Frac(int(a), 1)
                else: b = Frac(int(b), 1)
        if isinstance(a, Frac) or isinstance(b, Frac) or isinstance(a, float) or isinstance(b, float):
            x, y = I.to_frac(a), I.to_frac(b)
            if t in (ast.Add, ast.Sub):
                n1, n2 = L(x.num).mul(y.den), L(y.num).mul(x.den)
                return self.frac(n1.add(n2) if t is ast.Add else n1.sub(n2), x.den * y.den)
            if t is ast.Mult:
                if isinstance(unlin(x.num), int): x, y = y, x
                if not isinstance(unlin(y.num), int): raise Unsupported('non-linear multiplication')
                return self.frac(L(x.num).mul(unlin(y.num)), x.den * y.den)
            if t in (ast.Div, ast.FloorDiv):
                d = unlin(y.num)
                if not isinstance(d, int): return self.quotient(t, d)
                if d == 0: I.raise_('ZeroDivisionError', 'float division by zero')
                n = L(x.num).mul(y.den)
                if d < 0: n, d = n.neg(), -d
                r = self.frac(n, x.den * d)
                if t is ast.Div: return r
                return Frac(L(self.floordiv(r.num, r.den)), 1)
            raise Unsupported('float arithmetic')
        if t is ast.Add: return unlin(L(a).add(L(b)))
        if t is ast.Sub: return unlin(lsub(a, b))
        if t is ast.Mult:
            if isinstance(a, int): return unlin(L(b).mul(a))
            if isinstance(b, int): return unlin(L(a).mul(b))
            x, y = L(a), L(b)
            if len(x.t) == len(y.t) == 1 and x.t[0][0] == y.t[0][0]:
                r = self.square(x, y)
                if r is not None: return r
            for u, v in ((x, y), (y, x)):
                lo, hi = bounds(tuple(P().cons), u, 1 << 40)
                if lo is not None and hi is not None and hi - lo <= 6:
                    for k in range(lo, hi + 1):
                        if eq_int(u, k): return unlin(v.mul(k))
            # non-linear: keep sign information only
            key = ('mul',) + tuple(sorted((x, y), key=repr))
            r = P().memo.get(key)
            if r is None:
                r = new_int('prod')
                P().memo[key] = r
                P().inexact('non-linear multiplication')
                if surely_ge(x, 0) and surely_ge(y, 0):
                    P().assume(r)
                    if surely_ge(x, 1): P().assume(lsub(r, y))
                    if surely_ge(y, 1): P().assume(lsub(r, x))
            return r
        if t is ast.Div:
            b = unlin(b)
            if isinstance(b, int):
                if b == 0: I.raise_('ZeroDivisionError', 'division by zero')
                return self.frac(L(a) if b > 0 else L(a).neg(), abs(b))
            return self.quotient(t, b)
        if t in (ast.FloorDiv, ast.Mod):
            b = unlin(b)
            if isinstance(b, int):
                if b == 0: I.raise_('ZeroDivisionError', 'integer division or modulo by zero')
                if b < 0:
                    if t is ast.FloorDiv: return self.floordiv(L(a).neg(), -b)
                    raise Unsupported('modulo by a negative number')
                q = self.floordiv(a, b)
                return q if t is ast.FloorDiv else unlin(lsub(a, L(q).mul(b)))
            q, r = self.divmod_var(a, b)
            return q if t is ast.FloorDiv else r
        if t is ast.LShift and isinstance(b, int): return unlin(L(a).mul(1 << b))
        if t is ast.RShift and isinstance(b, int): return self.floordiv(a, 1 << b)
        if t is ast.BitAnd:
            if isinstance(a, int): a, b = b, a
            if isinstance(b, int) and b >= 0 and (b & (b + 1)) == 0:
                return unlin(lsub(a, L(self.floordiv(a, b + 1)).mul(b + 1)))
            if isinstance(b, int) and b > 0:
                # bits shifted to the left: (a >> s) & mask << s
                s = (b & -b).bit_length() - 1
                m = b >> s
                if (m & (m + 1)) == 0:
                    h = self.floordiv(a, 1 << s)
                    return unlin(lsub(h, L(self.floordiv(h, m + 1)).mul(m + 1)).mul(1 << s))
        if t is ast.BitOr:
            for x, y in ((a, b), (b, a)):
                lo, hi = bounds(tuple(P().cons), L(y), 1 << 40)
                if lo is not None and lo >= 0 and hi is not None:
                    k = 1 << hi.bit_length()
                    if not isinstance(x, int):
                        if x.c % k == 0 and all(c % k == 0 for _, c in x.t): return unlin(L(x).add(L(y)))
                    elif x % k == 0: return unlin(L(x).add(L(y)))
        if t is ast.Pow:
            if isinstance(b, int) and b in (0, 1): return 1 if b == 0 else a
            if b == 2 and isinstance(a, Lin) and len(a.t) == 1: return self.arith(ast.Mult(), a, a)
            if isinstance(a, int) and isinstance(b, Lin):
                lo, hi = bounds(tuple(P().cons), b, 1 << 12)
                if lo is not None and hi is not None and hi - lo <= 12:
                    for k in range(lo, hi + 1):
                        if eq_int(b, k): return a ** k
        raise Unsupported(f'integer operator {t.__name__}')

    @staticmethod
    def frac(n, d):
        n = L(n)
        if n.is_const:
            return n.c / d
        g = d
        for _, c in n.t: g = math.gcd(g, c)
        g = math.gcd(g, n.c)
        if g > 1: n, d = Lin(tuple((v, c // g) for v, c in n.t), n.c // g), d // g
        return Frac(n, d)

    def trunc(self, x):
        if isinstance(x, Frac):
            if x.den == 1: return unlin(x.num)
            if ge0(L(x.num)): return self.floordiv(x.num, x.den)
            q = self.floordiv(L(x.num).neg(), x.den)
            return unlin(L(q).neg())
        return x

    # ------------------------------------------------------------ constructors
    def c_object(self, a, k): return Inst(self.B['object'])

    def c_type(self, a, k):
        if len(a) == 1: return self.type_of(self.I.strip(a[0]))
        c = Cls(a[0], [self.as_class(b) for b in a[1]], {kk: v for kk, v in self.I.dict_items(a[2])}, self.I.stack[-1].mod.name)
        self.finish_class(c, {})
        return c

    def c_int(self, a, k):
        I = self.I
        if not a: return 0
        v = a[0]
        base = a[1] if len(a) > 1 else k.get('base', 10)
        v = I.strip(strs.norm(v) if isinstance(v, (SV, FV)) else v)
        if isinstance(v, Top): return v
        if isinstance(v, SV): v = as_fv(v)
        if isinstance(v, FV): return fv_map(lambda x: self.c_int([x] + a[1:], k), v)
        if isinstance(v, Lin): return v
        if isinstance(v, Frac): return self.trunc(v)
        if isinstance(v, (int, float)):
            try: return int(v)
            except (ValueError, OverflowError) as e: I.raise_(type(e).__name__, str(e))
        if isinstance(v, (str, bytes)):
            try: return int(v, base)
            except ValueError as e: I.raise_('ValueError', str(e))
        if isinstance(v, SV):
            if len(v.parts) == 1 and isinstance(v.parts[0], NumP) and v.parts[0].base == {10: 'd', 16: 'x', 8: 'o', 2: 'b'}.get(base): return v.parts[0].lin
            digs = CS([(48, 57)])
            if base == 10 and all(strs.part_chars(q).subset(digs) for q in v.parts):
                if not lt(0, strs.length(v)): I.raise_('ValueError', "invalid literal for int() with base 10: ''")
                p = P()
                key = ('int', strs.norm(v).key())
                r = p.memo.get(key)
                if r is None:
                    # most significant first; exact when every part has a bounded, fixed number of digits
                    n = strs.length(v)
                    r = None
                    if isinstance(n, int) and n <= 6:
                        els = strs.elements(v, 6)
                        if all(isinstance(e, (FV, str, int)) for e in els):
                            r = L(0)
                            for e in els:
                                d = fv_map(lambda x: x - 48 if isinstance(x, int) else int(x), e)
                                r = r.mul(10).add(L(d) if isinstance(d, int) else self.twin(d))
                            r = unlin(r)
                    if r is None:
                        r = new_int('number', 0)
                        p.inexact('value of a digit run')
                    p.memo[key] = r
                return r
            raise Unsupported('int() of symbolic text')
        if isinstance(v, Inst):
            for n in ('__int__', '__index__'):
                f = v.cls.lookup(n)
                if f is not MISSING: return I.call(I.bind(f, v), [])
        I.raise_('TypeError', "int() argument must be a string, a bytes-like object or a real number")

    def c_float(self, a, k):
        I = self.I
        v = I.strip(a[0]) if a else 0.0
        if isinstance(v, FV): return fv_map(lambda x: self.c_float([x], {}), v)
        if isinstance(v, (int, float, str)):
            try: return float(v)
            except (ValueError, OverflowError) as e: I.raise_(type(e).__name__, str(e))
        if isinstance(v, Lin): return Frac(v, 1)
        if isinstance(v, (Frac, Top)): return v
        if isinstance(v, Inst):
            f = v.cls.lookup('__float__')
            if f is not MISSING: return I.call(I.bind(f, v), [])
        I.raise_('TypeError', 'float() argument')

    def c_bool(self, a, k):
        if not a: return False
        v = a[0]
        if isinstance(v, FV):
            v = fv_norm(v)
            if isinstance(v, FV) and all(isinstance(x, PRIM) for x in v.tab.values()): return fv_map(bool, v)
        return self.I.truth(v)

    def c_str(self, a, k):
        if not a: return ''
        if len(a) > 1 or k: return self.call_str(a[0], 'decode', a[1:], k)
        return self.str_(a[0])

    def c_bytes(self, a, k):
        I = self.I
        if not a: return b''
        v = I.strip(a[0])
        if isinstance(v, (str, SV)) and kind_of(v) == 's':
            if len(a) < 2 and 'encoding' not in k: I.raise_('TypeError', 'string argument without an encoding')
            return self.call_str(v, 'encode', a[1:], k)
        if is_str(v): return v
        if isinstance(v, Inst) and v.cls.lookup('__bytes__') is not MISSING: return I.call(I.bind(v.cls.lookup('__bytes__'), v), [])
        if isinstance(v, int):
            if v < 0: I.raise_('ValueError', 'negative count')
            return bytes(v)
        if isinstance(v, Lin): return mk('b', [Rep(b'\0', v)])
        items = I.iter_list(v)
        out = []
        for x in items:
            x = fv_norm(x) if isinstance(x, FV) else x
            if isinstance(x, Lin): raise Unsupported('bytes of symbolic integers')
            def one(y):
                if not isinstance(y, int): I.raise_('TypeError', 'integer expected')
                if not 0 <= y < 256: I.raise_('ValueError', 'bytes must be in range(0, 256)')
                return bytes([y])
            out.append(fv_map(one, x))
        return concat(b'', *out)

    def c_memoryview(self, a, k): raise Unsupported('memoryview')
    def c_complex(self, a, k): raise Unsupported('complex')
    def c_bytearray(self, a, k): return self.I.call(self.prelude('bytearray_'), a, k)
    def c_list(self, a, k): return AList(self.I.iter_list(a[0]) if a else [])
    def c_tuple(self, a, k): return tuple(self.I.iter_list(a[0]) if a else [])
    def c_set(self, a, k): return self.mkset(self.I.iter_list(a[0]) if a else [])
    def c_frozenset(self, a, k): return self.mkset(self.I.iter_list(a[0]) if a else [], True)

    def c_dict(self, a, k):
        I = self.I
        d = ADict()
        if a:
            s = I.strip(a[0])
            its = I.dict_items(s) if isinstance(s, (ADict, NSView)) or isinstance(s, Inst) and s.payload is not None else [tuple(I.iter_list(x)) for x in I.iter_list(s)]
            for kk, v in its: I.dict_set(d, kk, v)
        for kk, v in k.items(): I.dict_set(d, kk, v)
        return d

    c_OrderedDict = c_dict

    def c_defaultdict(self, a, k):
        d = self.c_dict(a[1:], k)
        d.default = a[0] if a else None
        return d

    def c_deque(self, a, k): return AList(self.I.iter_list(a[0]) if a and a[0] is not None else [], 'deque', a[1] if len(a) > 1 else k.get('maxlen'))

    def c_range(self, a, k):
        a = [force(x) if isinstance(x, FV) else x for x in a]
        if all(isinstance(x, int) for x in a):
            try: return range(*a)
            except ValueError as e: self.I.raise_('ValueError', str(e))
        if any(isinstance(x, Top) for x in a): raise Unsupported('range of unknown')
        if not all(isinstance(x, (int, Lin)) for x in a): self.I.raise_('TypeError', 'integer expected')
        lo, hi, st = (0, a[0], 1) if len(a) == 1 else (a[0], a[1], a[2] if len(a) > 2 else 1)

        def gen():
            i = lo
            n = 0
            from .interp import Cfg
            while (lt(i, hi) if (isinstance(st, Lin) or st > 0) else lt(hi, i)):
                yield i
                i = unlin(L(i).add(L(st)))
                n += 1
                if n > Cfg.loop_bound * 3: raise Cut('loop bound')
        if isinstance(st, Lin) and not lt(0, st):
            if eq_int(st, 0): self.I.raise_('ValueError', 'range() arg 3 must not be zero')
            raise Unsupported('negative symbolic step')
        return LazyIter(gen, True)

    def c_slice(self, a, k):
        return slice(*a)

    def c_property(self, a, k):
        a = a + [None] * 3
        return Prop(k.get('fget', a[0]), k.get('fset', a[1]), k.get('fdel', a[2]))

    def c_classmethod(self, a, k): return CM(a[0])
    def c_staticmethod(self, a, k): return SM(a[0])

    def c_super(self, a, k):
        if a:
            return SuperObj(a[0], a[1])
        for fr in reversed(self.I.stack):
            if fr.kind == 'func' and fr.func is not None and not isinstance(fr.func.node, ast.Lambda):
                if not fr.clscell or 'c' not in fr.clscell: break
                args = fr.func.node.args
                first = (args.posonlyargs + args.args)[0].arg
                return SuperObj(fr.clscell['c'], fr.vars[first])
        self.I.raise_('RuntimeError', 'super(): no arguments')

    # ------------------------------------------------------------ functions
    def b_len(self, a, k):
        I = self.I
        v = I.strip(a[0])
        if isinstance(v, Top): return Top('len')
        if isinstance(v, FV):
            if not is_str(v): I.raise_('TypeError', 'object has no len()')
            return fv_map(len, v)
        if is_str(v):
            f = as_fv(v)
            if isinstance(f, FV): return fv_map(len, f)
            return strs.length(v)
        if isinstance(v, AList):
            if any(isinstance(x, MappedRun) for x in v.v): raise Unsupported('length of an element-wise image')
            return len(v.v)
        if isinstance(v, (tuple, range)): return len(v)
        if isinstance(v, (ADict, ASet)): return len(v.m)
        if isinstance(v, DictView): return len(v.d.m)
        if isinstance(v, NSView): return len(v.o.d)
        if isinstance(v, Inst):
            f = v.cls.lookup('__len__')
            if f is not MISSING: return I.call(I.bind(f, v), [])
            if v.payload is not None: return self.b_len([v.payload], {})
        if isinstance(v, Cls) and v.kind == 'enum': return len(self.members(v))
        I.raise_('TypeError', f'object of type {self.type_name(v)!r} has no len()')

    def b_isinstance(self, a, k): return self.isinstance_(a[0], a[1])

    def b_issubclass(self, a, k):
        cs = a[1] if isinstance(a[1], tuple) else (a[1],)
        return any(isinstance(c, Cls) and a[0].is_sub(c) for c in cs)

    def b_callable(self, a, k):
        v = self.I.strip(a[0])
        if isinstance(v, (Func, Bound, Builtin, Cls, SM)): return True
        if isinstance(v, Inst): return v.cls.lookup('__call__') is not MISSING
        return False

    def name_arg(self, n):
        n = strs.norm(n) if isinstance(n, (SV, FV)) else n
        if isinstance(n, SV): n = as_fv(n)
        if isinstance(n, FV): n = force(n)
        if not isinstance(n, str): self.I.raise_('TypeError', 'attribute name must be string')
        return n

    def b_getattr(self, a, k):
        n = self.name_arg(a[1])
        if len(a) > 2:
            try: r = self.I.getattr_opt(a[0], n)
            except AExc as e:
                if e.value.cls.is_sub(self.B['AttributeError']): return a[2]
                raise
            return a[2] if r is MISSING else r
        return self.I.getattr_(a[0], n)

    def b_hasattr(self, a, k):
        n = self.name_arg(a[1])
        try: return self.I.getattr_opt(a[0], n) is not MISSING
        except AExc as e:
            if e.value.cls.is_sub(self.B['AttributeError']): return False
            raise

    def b_setattr(self, a, k): self.I.setattr_(a[0], self.name_arg(a[1]), a[2])

    def b_delattr(self, a, k):
        o, n = a[0], self.name_arg(a[1])
        if n not in o.d: self.I.raise_('AttributeError', n)
        touch(o)
        del o.d[n]

    def b_max(self, a, k): return self.minmax(a, k, True)
    def b_min(self, a, k): return self.minmax(a, k, False)

    def minmax(self, a, k, mx):
        I = self.I
        items = I.iter_list(a[0]) if len(a) == 1 else list(a)
        if not items:
            if 'default' in k: return k['default']
            I.raise_('ValueError', 'max() arg is an empty sequence' if mx else 'min() arg is an empty sequence')
        key = k.get('key')
        kf = (lambda x: I.call(key, [x])) if key is not None else (lambda x: x)
        if all(isinstance(x, (int, FV)) for x in items) and key is None and sum(isinstance(x, FV) for x in items) <= 1 and \
                all(isinstance(z, (int, bool)) for x in items if isinstance(x, FV) for z in x.tab.values()):
            return fv_map(lambda *z: (max if mx else min)(z), *items)
        if len(items) > 4:
            ks = [kf(x) for x in items]
            if same_kind(ks): return items[self.first_of(ks, mx)]
            best, bk = items[0], ks[0]
            for x, xk in zip(items[1:], ks[1:]):
                if I.truth(I.order(ast.Gt() if mx else ast.Lt(), xk, bk)): best, bk = x, xk
            return best
        best, bk = items[0], kf(items[0])
        for x in items[1:]:
            xk = kf(x)
            c = I.order(ast.Gt() if mx else ast.Lt(), xk, bk)
            if I.truth(c): best, bk = x, xk
        return best

    def b_sum(self, a, k):
        v = a[1] if len(a) > 1 else k.get('start', 0)
        for x in self.I.iter_list(a[0]): v = self.I.binop(ast.Add(), v, x)
        return v

    def b_abs(self, a, k):
        v = self.I.strip(a[0])
        if isinstance(v, FV): return fv_map(abs, v)
        if isinstance(v, (int, float)): return abs(v)
        if isinstance(v, Lin): return v if ge0(v) else unlin(v.neg())
        if isinstance(v, Frac): return v if ge0(L(v.num)) else Frac(L(v.num).neg(), v.den)
        if isinstance(v, Top): return v
        raise Unsupported('abs')

    def b_pow(self, a, k):
        if len(a) > 2: return pow(*a) if all(isinstance(x, int) for x in a) else _u3()
        return self.I.binop(ast.Pow(), a[0], a[1])

    def b_divmod(self, a, k): return (self.I.binop(ast.FloorDiv(), a[0], a[1]), self.I.binop(ast.Mod(), a[0], a[1]))

    def b_round(self, a, k):
        if all(isinstance(x, (int, float)) for x in a): return round(*a)
        v = a[0]
        if isinstance(v, FV): return fv_map(lambda x: round(x, *a[1:]), v)
        if isinstance(v, Lin): return v
        if isinstance(v, Frac) and len(a) == 1:
            n, d = L(v.num).mul(2).add(v.den), 2 * v.den
            q = self.floordiv(n, d)
            if eq_int(unlin(L(q).mul(d)), unlin(n)):       # exactly half way: to the even neighbour
                if not eq_int(unlin(L(self.floordiv(q, 2)).mul(2)), q): return unlin(L(q).add(-1))
            return q
        raise Unsupported('round')

    def b_chr(self, a, k):
        v = self.I.strip(a[0])
        if isinstance(v, FV): return fv_map(lambda x: self.b_chr([x], {}), v)
        if isinstance(v, int):
            if not 0 <= v < 0x110000: self.I.raise_('ValueError', 'chr() arg not in range(0x110000)')
            return chr(v)
        if isinstance(v, Lin):
            if not (ge0(v) and le(v, 0x10ffff)): self.I.raise_('ValueError', 'chr() arg not in range(0x110000)')
            return mk('s', [ChrP(v)])
        self.I.raise_('TypeError', 'integer expected')

    def b_ord(self, a, k):
        v = strs.norm(a[0]) if isinstance(a[0], (SV, FV)) else a[0]
        if not is_str(v): self.I.raise_('TypeError', 'ord() expected string of length 1')
        f = as_fv(v)
        if isinstance(f, FV): return fv_map(lambda x: self.b_ord([x], {}), f)
        v = f
        if isinstance(v, (str, bytes)):
            if len(v) != 1: self.I.raise_('TypeError', 'ord() expected a character')
            return ord(v)
        if not eq_int(strs.length(v), 1): self.I.raise_('TypeError', 'ord() expected a character')
        e = strs.elem(v, 0)
        if isinstance(e, int): return e
        if isinstance(e, str): return ord(e)
        if isinstance(e, FV): return fv_map(lambda x: x if isinstance(x, int) else ord(x), e)
        if isinstance(e, SV) and isinstance(e.parts[0], ChrP): return e.parts[0].cp
        raise Unsupported('ord')

    def base_fmt(self, v, b):
        v = self.I.strip(v)
        if isinstance(v, FV): return fv_map(lambda x: self.base_fmt(x, b), v)
        return self.fmt_int(v, b, alt=True)

    def b_hex(self, a, k): return self.base_fmt(a[0], 'x')
    def b_oct(self, a, k): return self.base_fmt(a[0], 'o')
    def b_bin(self, a, k): return self.base_fmt(a[0], 'b')
    def b_format(self, a, k): return self.format_(a[0], a[1] if len(a) > 1 else '')
    def b_repr(self, a, k): return self.repr_(a[0])
    def b_ascii(self, a, k):
        r = self.repr_(a[0])
        if not isinstance(r, str): raise Unsupported('ascii of a symbol')
        return ascii(r)[1:-1].replace('\\\\', '\\') if not r.isascii() else r
    def b_id(self, a, k): return id(a[0])

    def b_hash(self, a, k):
        v = a[0]
        if isinstance(v, Inst):
            h = v.cls.lookup('__hash__')
            if isinstance(h, Func): return self.I.call(Bound(h, v), [])
            if h is None: self.I.raise_('TypeError', 'unhashable type')
        return Top('hash')

    def b_enumerate(self, a, k):
        st = a[1] if len(a) > 1 else k.get('start', 0)
        src = a[0]

        def gen():
            i = st
            for x in self.I.iter_live(src):
                yield (i, x)
                i = unlin(L(i).add(1)) if isinstance(i, Lin) else i + 1
        return LazyIter(gen)

    def b_zip(self, a, k):
        def gen():
            its = [self.I.iter_live(x) for x in a]
            while its:
                row = []
                for it in its:
                    try: row.append(next(it))
                    except StopIteration:
                        return
                yield tuple(row)
        return LazyIter(gen)

    def b_map(self, a, k):
        f = a[0]
        if len(a) == 2: return LazyIter(lambda: (self.I.call(f, [x]) for x in self.I.iter_live(a[1])))
        return LazyIter(lambda: (self.I.call(f, list(x)) for x in self.b_zip(a[1:], {}).gen()))

    def b_filter(self, a, k):
        f = a[0]
        return LazyIter(lambda: (x for x in self.I.iter_live(a[1]) if self.I.truth(x if f is None else self.I.call(f, [x]))))

    def b_reversed(self, a, k):
        v = self.I.strip(a[0])
        if isinstance(v, Inst):
            f = v.cls.lookup('__reversed__')
            if f is not MISSING: return self.I.call(self.I.bind(f, v), [])
        return Iter(list(reversed(self.I.iter_list(v))))

    @staticmethod
    def first_of(ks, largest=False):
        """Index of the first of the smallest (largest) keys."""
        ks = [k.arg if isinstance(k, core.Root) else k for k in ks]
        if len(ks) == 1: return 0
        def d(a, b): return lsub(b, a) if not largest else lsub(a, b)       # a comes before b: d > 0
        return core.select([[d(k, x).add(0 if j > i else -1) for j, x in enumerate(ks) if j != i] for i, k in enumerate(ks)], 'order of the keys')

    def sort_first(self, o, n):
        """The first n elements of a list whose sorting has been put off."""
        kind, ks, rev = o.pend[0]
        done = list(o._v)
        ks = list(ks)
        while ks and len(done) < n:
            i = self.first_of([q[0] for q in ks], rev)
            done.append(ks.pop(i)[1])
        touch(o)
        o._v, o.pend = done, [(kind, ks, rev)] if ks else []
        return done

    def sorted_(self, items, key=None, reverse=False, lazy=None):
        I = self.I
        ks = [(I.call(key, [x]) if key is not None else x, x) for x in items]
        if all(isinstance(q[0], (int, float)) for q in ks) or all(isinstance(q[0], str) for q in ks) or all(isinstance(q[0], bytes) for q in ks):
            r = sorted(ks, key=lambda q: q[0], reverse=I.truth(reverse))
            return [x for _, x in r]
        out = []
        reverse = I.truth(reverse)
        if lazy is not None and len(ks) > 2 and same_kind([q[0] for q in ks]):
            lazy.pend = [('sorted', ks, reverse)]
            return []
        for q in ks:    # stable insertion
            i = len(out)
            while i > 0 and I.truth(I.order(ast.Lt(), *((out[i - 1][0], q[0]) if reverse else (q[0], out[i - 1][0])))): i -= 1
            out.insert(i, q)
        return [x for _, x in out]

    def b_sorted(self, a, k):
        r = AList()
        r._v = self.sorted_(self.I.iter_list(a[0]), k.get('key'), k.get('reverse', False), r)
        return r

    def b_any(self, a, k):
        for x in self.I.iter_live(a[0]):
            if self.I.truth(x): return True
        return False

    def b_all(self, a, k):
        for x in self.I.iter_live(a[0]):
            if not self.I.truth(x): return False
        return True

    def b_iter(self, a, k):
        v = self.I.strip(a[0])
        if len(a) > 1:
            def gen():
                from .interp import Cfg
                for _ in range(Cfg.loop_bound * 3):
                    x = self.I.call(a[0], [])
                    if self.I.truth(self.I.eq(x, a[1])): return
                    yield x
                raise Cut('loop bound')
            return LazyIter(gen)
        if isinstance(v, LazyIter) and v.again: return LazyIter(v.src)
        if isinstance(v, (Iter, LazyIter)): return v
        if isinstance(v, Inst) and v.cls.lookup('__iter__') is not MISSING: return self.I.call(self.I.bind(v.cls.lookup('__iter__'), v), [])
        return Iter(self.I.iter_list(v))

    def b_next(self, a, k):
        it = a[0]
        if isinstance(it, Inst):
            f = it.cls.lookup('__next__')
            try: return self.I.call(self.I.bind(f, it), [])
            except AExc as e:
                if len(a) > 1 and e.value.cls.is_sub(self.B['StopIteration']): return a[1]
                raise
        if isinstance(it, LazyIter):
            if it.again: self.I.raise_('TypeError', "'range' object is not an iterator")
            for x in it.gen(): return x
            if len(a) > 1: return a[1]
            self.I.raise_('StopIteration', *([it.result] if isinstance(it, GenObj) and it.result is not None else []))
        if not isinstance(it, Iter): self.I.raise_('TypeError', 'object is not an iterator')
        if it.pos >= len(it.it):
            if len(a) > 1: return a[1]
            self.I.raise_('StopIteration')
        touch(it)
        it.pos += 1
        return it.it[it.pos - 1]

    def b_dir(self, a, k): return self.dir_(a[0])
    def b_vars(self, a, k): return NSView(a[0])

    def b_print(self, a, k):
        sep = k.get('sep', ' ')
        end = k.get('end', '\n')
        if sep is None: sep = ' '
        if end is None: end = '\n'
        parts = []
        for i, x in enumerate(a):
            if i: parts.append(sep)
            parts.append(self.str_(x))
        parts.append(end)
        f = k.get('file')
        dst = 'stdout'
        if isinstance(f, Inst):
            w = f.cls.lookup('write')
            if isinstance(w, Func):
                self.I.call(self.I.bind(w, f), [concat('', *parts)])
                return
            dst = f.d.get('\0name', 'file')
        P().events.append(('print', concat('', *parts), (dst,) + tuple(self.I.where()), tuple(x[0] for x in self.I.trace())))

    def b_input(self, a, k):
        self.event('input', None)
        return Opq_text('input')

    def b_exit(self, a, k):
        self.event('exit', a[0] if a else None)
        self.I.raise_('SystemExit', *(a or [None]))

    b_quit = b_exit

    def b_open(self, a, k):
        name = a[0] if a else k['file']
        mode = a[1] if len(a) > 1 else k.get('mode', 'r')
        self.event('open', (name, mode))
        if self.open_hook is None: raise Unsupported('open')
        return self.open_hook(name, mode)

    def event(self, kind, data):
        P().events.append((kind, data, tuple(self.I.where()), tuple(x[0] for x in self.I.trace())))

    def effect(self, name):
        def f(a, k):
            self.event('effect', name)
            raise Unsupported('call of ' + name)
        return Builtin(name, f)

    def b___import__(self, a, k): raise Unsupported('__import__')
    def b_eval(self, a, k): raise Unsupported('eval')
    def b_exec(self, a, k): raise Unsupported('exec')
    def b_globals(self, a, k): raise Unsupported('globals')
    def b_locals(self, a, k): raise Unsupported('locals')

    def int_from_bytes(self, a, k):
        v = strs.norm(a[0]) if isinstance(a[0], (SV, FV)) else a[0]
        order = a[1] if len(a) > 1 else k.get('byteorder', 'big')
        if isinstance(v, AList): v = self.c_bytes([v], {})
        f = as_fv(v) if isinstance(v, SV) else v
        if isinstance(f, bytes): return int.from_bytes(f, order, signed=bool(k.get('signed', False)))
        if isinstance(f, FV): return fv_map(lambda b: int.from_bytes(b, order), f)
        if isinstance(v, SV):
            els = strs.elements(v, 4)
            if order == 'little': els = els[::-1]
            r = L(0)
            for e in els: r = r.mul(256).add(L(e) if isinstance(e, int) else self.twin(e))
            return unlin(r)
        raise Unsupported('int.from_bytes')

    def int_to_bytes(self, o, a, k):
        n = a[0] if a else k.get('length', 1)
        order = a[1] if len(a) > 1 else k.get('byteorder', 'big')
        if isinstance(o, int):
            try: return o.to_bytes(n, order)
            except OverflowError as e: self.I.raise_('OverflowError', str(e))
        raise Unsupported('to_bytes')


def _bad_iter(): raise Unsupported('second use of a lazy iterator')


def attach(cls):
    for n, v in vars(Fns).items():
        if not n.startswith('__'): setattr(cls, n, v)


def _u3(): raise Unsupported('pow with a modulus')
