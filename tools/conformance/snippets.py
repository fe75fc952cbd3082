"""Constructs an edit of the analysed code may use; each t_* must mean the same to the engine and to CPython."""
from __future__ import annotations
import re
import itertools
import functools
import operator
import collections
import bisect
import math
import enum
import typing as t
import dataclasses
from dataclasses import dataclass, field
from collections import deque, OrderedDict, defaultdict, namedtuple, Counter, ChainMap
from functools import reduce, partial, lru_cache, cached_property
from itertools import chain, islice, takewhile, dropwhile, groupby, zip_longest, accumulate, starmap, count, repeat, cycle, product
from contextlib import suppress, contextmanager, nullcontext
from abc import ABC, abstractmethod
from io import StringIO, BytesIO
from types import SimpleNamespace, MappingProxyType
from textwrap import wrap, dedent


def t_match_case(b=b'a', x=[1, 2, 3], p={'k': 5}):
    r = []
    for v in (0, 1, 'a', b'a', [1, 2, 3], (1,), {'k': 5, 'z': 1}, None, True, 2.5):
        match v:
            case None: r.append('none')
            case True: r.append('true')
            case 0 | 1: r.append('01')
            case str(): r.append('str')
            case bytes() as q: r.append(q)
            case [a, *rest]: r.append((a, rest))
            case {'k': kk, **oth}: r.append((kk, oth))
            case float(z) if z > 2: r.append(z)
            case _: r.append('?')
    return r

def t_walrus(d=[3, 4, 5]):
    it = iter(d); out = []
    while (x := next(it, None)) is not None: out.append(x)
    return out, [y for z in d if (y := z * 2) > 6]

def t_comp(n=4): return {i: [j for j in range(i)] for i in range(n)}, {i % 2 for i in range(n)}, tuple(i for i in range(n)), sum(i * i for i in range(n))
def t_strmeth(s='Hello, World'): return (s.upper(), s.lower(), s.title(), s.swapcase(), s.center(20, '*'), s.ljust(15) + '|', s.rjust(15), s.zfill(15), s.find('o'), s.rfind('o'), s.index('W'), s.count('l'), s.replace('l', 'L', 2), s.partition(', '), s.rpartition('o'), s.split(','), s.rsplit('o', 1), s.startswith(('He', 'x')), s.endswith('ld'), s.casefold(), s.removeprefix('He'), s.removesuffix('ld'), s.isalpha(), s.isdigit(), s.encode('utf8'), s.expandtabs(), s[::-1], s[-3:], s[2:8:2], s * 2, 'lo' in s, s.strip('Hd'), s.translate(str.maketrans('lo', 'xy')), s.translate({ord('l'): None}))
def t_bytesmeth(s=b'Hello\x00\xff'): return (s.hex(), s.hex(' '), list(s), s[0], s[1:3], s.find(b'l'), s.rfind(b'l'), s.count(b'l'), s.replace(b'l', b'LL'), s.split(b'l'), s.partition(b'l'), s.startswith(b'H'), s.decode('latin-1'), s.decode('utf8', 'replace'), s.decode('utf8', errors='ignore'), s.ljust(9, b'.'), bytes(reversed(s)), bytes([1, 2]), bytes(3), bytes.fromhex('00ff'), s + b'x', s * 2, b'l' in s, 0x6c in s, int.from_bytes(s[:2], 'big'), (258).to_bytes(2, 'little'), bytearray(s), b'%02x|%s' % (5, b'z'), b' '.join([b'a', b'b']), max(s), min(s), s.translate(None, b'l'), s.isalpha(), s.upper())
def t_bytearray(): 
    b = bytearray(b'abc'); b.append(100); b += b'ef'; b.extend([1, 2]); del b[0]; b[0] = 65; b[1:2] = b'XYZ'
    p = b.pop(); b.insert(0, 9); b.reverse(); q = bytes(b); b.clear()
    return p, q, bytes(b), len(b)
def t_memoryview(): m = memoryview(b'abcdef'); return bytes(m[1:3]), m[0], len(m), m.tobytes(), m[2:].hex()
def t_fmt(a=5, s='x', f=3.14159): return f'{a:>4}|{a:<4}|{a:^5}|{a:04d}|{a:x}|{a:#x}|{a:08b}|{a:+d}|{s!r:>6}|{f:.2f}|{f:8.3f}|{f:e}|{a:,}|{s:*^7}|{a!s}|{a=}|{s:{a}}|{a:02X}|{255:#04x}|{10000:_}', '%d %5s %-5s| %05.1f %x %X %o %r %% %c %3d' % (a, s, s, f, 255, 255, 8, s, 'c', 4), '{} {1} {k:>3}'.replace('{}', '{0}').format(a, s, k=7), '%(a)s-%(b)04d' % {'a': 1, 'b': 2}, format(a, '03'), '{0.__class__.__name__}'.format(a), '{:>{w}}'.format('q', w=4)
def t_num(a=-7, b=2): return a // b, a % b, divmod(a, b), a ** b, a & 0xff, a | b, a ^ b, a << b, a >> 1, ~a, abs(a), round(2.5), round(3.456, 2), int('12'), int('ff', 16), int('0b11', 0), float('1.5'), bin(5), hex(255), oct(8), chr(65), ord('A'), max(a, b), min([a, b]), pow(2, 5, 7), math.ceil(1.2), math.floor(-1.2), math.log10(100), math.sqrt(16), math.gcd(12, 8), int(-3.7), (5).bit_length(), math.trunc(2.7), bool(a), a < b <= 2 < 3, 7 / 2, complex is not None, math.inf > 5, int.bit_count(7)
def t_seq(a=[5, 3, 9, 1]): 
    b = sorted(a); c = sorted(a, key=lambda x: -x); d = list(reversed(a)); e = a[:]; e.sort(reverse=True); e.append(4); e.extend((7, 8)); e.insert(1, 0); e.remove(4); f = e.pop(); g = e.pop(0); e[1:3] = []; del e[-1]
    return b, c, d, e, f, g, a.index(9), a.count(3), a + [1], a * 2, 9 in a, any(x > 8 for x in a), all(a), list(zip(a, b)), list(enumerate(a, 1)), list(map(str, a)), list(filter(lambda x: x > 3, a)), min(a, key=lambda x: abs(x - 4)), max(a, default=0), sum(a, 10), [*a, *b], (*a,), a[-2:], a[::2], a == [5, 3, 9, 1], [1, 2] < [1, 3], list(range(10, 0, -3)), range(5)[2], len(range(3, 9, 2)), 4 in range(0, 9, 2), slice(1, 3).indices(10)
def t_dict(): 
    d = {'a': 1, 'b': 2}; d['c'] = 3; d.update(x=5); d.update({'y': 6}); d.setdefault('z', []).append(1); e = d.pop('a'); f = d.pop('q', None); g = dict(d, k=1); h = {**d, 'b': 9}; i = d | {'m': 1}; d |= {'n': 2}; j = dict(zip('ab', (1, 2))); k = dict.fromkeys('ab', 0); l = list(d.items()); m = d.get('nope', 7); n = sorted(d.keys()); del d['c']; o = 'c' in d; q = next(iter(d)); r = d.popitem(); s = {v: k for k, v in j.items()}; u = d.keys() & {'b'}; v = d.copy(); d.clear()
    return e, f, g, h, i, j, k, l, m, n, o, q, r, s, u, v, d, list(reversed(j)), len(g), j == {'b': 2, 'a': 1}, j.keys() == k.keys(), min(j.values())
def t_set(): a = {1, 2, 3}; b = frozenset([2, 3, 4]); a.add(5); a.discard(9); a.update([7]); return a | b, a & b, a - b, a ^ b, 2 in a, b <= {2, 3, 4, 5}, a.isdisjoint({9}), sorted(a.union([8])), len(a), a.issuperset({1}), b.difference([2]), {1} < {1, 2}
def t_deque(): d = deque([1, 2], maxlen=3); d.append(3); d.append(4); d.appendleft(0); x = d.popleft(); d.rotate(1); d.extend([8]); return x, list(d), len(d), d[0], d[-1], d.maxlen
def t_coll(): 
    c = Counter('abca'); dd = defaultdict(list); dd['a'].append(1); P = namedtuple('P', 'x y'); p = P(1, y=2); o = OrderedDict(a=1); o.move_to_end('a'); cm = ChainMap({'a': 1}, {'b': 2})
    return c['a'], c['z'], c.most_common(1), dict(dd), p.x, p._replace(x=5), p._asdict(), tuple(p), list(o), cm['b'], 'z' in dd
def t_itertools(): return list(chain([1], (2,))), list(chain.from_iterable([[1], [2, 3]])), list(islice(count(3), 3)), list(takewhile(lambda x: x < 3, [1, 2, 5])), list(dropwhile(lambda x: x < 3, [1, 2, 5, 1])), [(k, list(g)) for k, g in groupby('aabbc')], list(zip_longest('ab', 'c', fillvalue='-')), list(accumulate([1, 2, 3])), list(starmap(operator.add, [(1, 2)])), list(repeat(1, 2)), list(islice(cycle('ab'), 5)), list(product('ab', repeat=2)), list(itertools.pairwise([1, 2, 3])), [list(x) for x in itertools.tee([1, 2])], list(itertools.compress('abc', [1, 0, 1])), list(itertools.filterfalse(bool, [0, 1])), list(itertools.combinations('abc', 2)), list(itertools.permutations([1, 2]))
def t_functools(): return reduce(lambda a, b: a + b, [1, 2, 3], 10), partial(int, base=2)('101'), operator.itemgetter(1)([5, 6]), operator.attrgetter('real')(5), operator.methodcaller('upper')('a'), operator.or_(1, 2), operator.mul(3, 4), bisect.bisect_left([1, 3, 5], 3), bisect.bisect([1, 3, 5], 3), operator.itemgetter(0, 2)('abc'), functools.reduce(operator.add, 'ab'), operator.not_(1), operator.contains([1], 1)
def t_gen():
    def g(n):
        got = []
        try:
            for i in range(n):
                x = yield i
                if x: got.append(x)
        finally: got.append('end')
        return got
    def h(): r = yield from g(2); yield r
    a = g(3); s = [next(a), a.send('q'), next(a)]
    try: next(a)
    except StopIteration as e: s.append(e.value)
    b = g(5); next(b); b.close()
    return s, list(h()), list(x for x in (i for i in g(2)))
def t_exc():
    r = []
    try: 1 / 0
    except (ValueError, ZeroDivisionError) as e: r.append(type(e).__name__)
    else: r.append('no')
    finally: r.append('fin')
    try:
        try: {}['x']
        except KeyError as e: raise ValueError('v', 2) from e
    except ValueError as e: r += [e.args, repr(e.__cause__), str(e)]
    with suppress(IndexError): [][1]
    class E(Exception):
        def __init__(self, m): super().__init__(m); self.m = m
        def __str__(self): return 'E:' + self.m
    try: raise E('z')
    except Exception as e: r.append(str(e)); r.append(repr(e)); r.append(isinstance(e, E))
    def f():
        try: return 1
        finally: r.append('f')
    f()
    for i in range(3):
        try:
            if i == 1: continue
            if i == 2: break
        finally: r.append(i)
    else: r.append('never')
    try: assert False, 'msg'
    except AssertionError as e: r.append(str(e))
    try: int('z')
    except ValueError: r.append('int')
    try: 'a'.index('b')
    except ValueError as e: r.append(str(e))
    try: next(iter([]))
    except StopIteration: r.append('stop')
    try: b'\xff'.decode()
    except UnicodeDecodeError as e: r.append((e.start, e.end, e.reason, e.object))
    try: raise KeyError('k')
    except LookupError as e: r.append(str(e))
    return r
def t_ctx():
    r = []
    @contextmanager
    def cm(x):
        r.append('in'); 
        try: yield x
        finally: r.append('out')
    with cm(1) as a, cm(2) as b: r.append((a, b))
    class C:
        def __enter__(self): r.append('E'); return self
        def __exit__(self, t, v, tb): r.append(t.__name__ if t else None); return True
    with C() as c: raise ValueError
    with nullcontext(5) as z: r.append(z)
    return r
def t_class():
    class A:
        n = 0
        __slots__ = ('v',)
        def __init__(self, v): self.v = v; A.n += 1
        @property
        def p(self): return self.v
        @p.setter
        def p(self, x): self.v = x
        @classmethod
        def mk(cls, v=3): return cls(v)
        @staticmethod
        def st(a): return a + 1
        def __eq__(self, o): return isinstance(o, A) and self.v == o.v
        def __hash__(self): return hash(self.v)
        def __lt__(self, o): return self.v < o.v
        def __len__(self): return self.v
        def __getitem__(self, i): return self.v + i if not isinstance(i, slice) else (i.start, i.stop)
        def __contains__(self, x): return x == self.v
        def __call__(self, *a, **k): return a, k
        def __iter__(self): yield from range(self.v)
        def __add__(self, o): return A(self.v + o)
        def __radd__(self, o): return A(self.v + o)
        def __iadd__(self, o): self.v += o; return self
        def __bool__(self): return self.v > 0
        def __repr__(self): return f'A({self.v})'
        def __str__(self): return 'a%d' % self.v
        def __format__(self, s): return f'<{s}>'
    a = A.mk(); a.p = 5; b = a + 1; c = 2 + a; a += 3
    class B(A):
        x: int = 7
        def __init__(self, *a): super().__init__(*a); 
        def p2(self): return super().p
        def __getattr__2(self, n): return n
    d = B(2)
    return repr(a), str(b), f'{c:q}', A.st(1), a == A(8), a != b, a < b, len(a), a[2], a[1:2], 8 in a, a(1, k=2), list(A(3)), bool(A(0)), A.n, d.p2(), d.x, isinstance(d, A), issubclass(B, A), type(d).__name__, B.__mro__[1].__name__, sorted([A(3), A(1)]), {A(1): 2}[A(1)], hasattr(a, 'zz'), getattr(a, 'v', 0), getattr(a, 'zz', 9), callable(a), sum(A(3)), max(A(4)), [*A(2)], dict(x=a)['x'].v
def t_getattr():
    class G:
        def __init__(self): self.a = 1
        def __getattr__(self, n): return n + '!'
        def __setattr__(self, n, v): object.__setattr__(self, n, v * 2)
    g = G(); g.b = 4; setattr(g, 'c', 5); vars(g)['d'] = 6
    return g.a, g.b, g.c, g.d, g.zz, sorted(g.__dict__.items())
def t_dc():
    @dataclass
    class D:
        a: int
        b: list = field(default_factory=list)
        c: str = 'x'
        def __post_init__(self): self.z = self.a + 1
    @dataclass(frozen=True)
    class F:
        a: int = 1
    d = D(1); d.b.append(2); e = dataclasses.replace(d, a=5)
    r = [d, e == D(5, [2]), e.z, dataclasses.asdict(d), [f.name for f in dataclasses.fields(d)]]
    try: F().a = 3
    except dataclasses.FrozenInstanceError: r.append('frozen')
    r.append(F() == F(1)); r.append(hash(F()) == hash(F(1)))
    return repr(r)
def t_enum():
    class C(enum.Enum):
        A = 1
        B = 'b'
        @property
        def q(self): return self.value
    class I(enum.IntEnum):
        X = 1
        Y = 2
    class Fl(enum.Flag):
        P = enum.auto()
        Q = enum.auto()
    return C.A.name, C('b').name, C['A'].q, [x.name for x in C], C.A is C.A, C.A == 1, I.X + 1, I.Y > I.X, len(C), I(2).name, bool(Fl.P & Fl.Q), (Fl.P | Fl.Q).value, Fl.P in (Fl.P | Fl.Q), isinstance(C.A, C), str(C.A), C.A in (C.A, C.B)
def t_func(*args, **kw):
    def f(a, b=2, *c, d, e=5, **k): return a, b, c, d, e, k
    def g(a, /, b, *, c): return a, b, c
    x = [1, 2, 3]; n = 0
    def inc():
        nonlocal n
        n += 1
        return n
    inc(); inc()
    def deco(fn):
        @functools.wraps(fn)
        def w(*a, **k): return ('w', fn(*a, **k))
        return w
    @deco
    def h(x): 'doc'; return x
    fs = [lambda i=i: i for i in range(3)]
    return f(1, d=4), f(*x, d=0, **{'z': 9}), g(1, 2, c=3), n, h(3), h.__name__, [q() for q in fs], (lambda *a, k=1: (a, k))(1, 2, k=3), f.__name__, f.__defaults__
def t_unpack(): a, (b, *c), d = 1, (2, 3, 4), 5; (e, f), g = [(1, 2), 3]; x = y = []; x.append(1); h, i = i2, h2 = 1, 2; *j, k = 'abc'; return a, b, c, d, e, f, g, y, h, i, j, k
def t_loop():
    r = []
    for i in range(5):
        if i == 3: break
    else: r.append('x')
    for i in (): pass
    else: r.append('e')
    while True:
        i -= 1
        if i < 0: break
        if i == 1: continue
        r.append(i)
    while i < 2: i += 1
    else: r.append('we')
    for i, (a, b) in enumerate([(1, 2), (3, 4)]): r.append((i, a, b))
    for a, *b in [[1, 2, 3]]: r.append(b)
    return r
def t_re(s='aa1bb22', b=b'\x1b[31mz'):
    m = re.match(r'(a+)(\d)(x)?', s); p = re.compile(rb'\x1b\[(?P<p>[\d;]*)(?P<t>[a-zA-Z])')
    n = p.search(b)
    return m.group(), m[1], m.group(1, 2), m.groups(), m.groups(''), m.span(2), m.start(), m.end(1), m.lastindex, n['p'], n.groupdict(), n.lastgroup, re.findall(r'\d', s), re.findall(r'(\w)(\d)', s), re.sub(r'\d', '#', s), re.sub(r'(\d)', r'<\1>', s, count=1), re.sub(r'\d', lambda q: str(int(q[0]) + 1), s), re.subn('b', '', s), re.split(r'\d', s), re.split(r'(\d)', s), [q.start() for q in re.finditer('b', s)], re.fullmatch(r'\w+', s) is not None, re.escape('a.b'), bool(re.search('zz', s)), p.pattern, p.groups, p.groupindex['t'], p.match(b, 1), re.compile('B', re.I).search(s).pos, re.compile('b').match(s, 3).start(), m.expand(r'\2\1'), m.re.pattern, m.string, [q.lastindex for q in re.finditer(r'(a)|(b)|(\d)', s)], re.compile(r'(?s).{2}').findall(s), m.regs, n.end()
def t_io():
    s = StringIO(); s.write('ab'); print('x', 1, sep='-', end='!', file=s); b = BytesIO(b'abc\ndef'); r = b.read(2); l = b.readline(); s2 = StringIO('q\nw\n')
    return s.getvalue(), r, l, b.read(), b.tell(), list(s2), s2.read()
def t_misc(): return isinstance(1, (int, str)), type('a') is str, id(None) == id(None), list(map(lambda a, b: a + b, [1], [2])), SimpleNamespace(a=1).a, MappingProxyType({'a': 1})['a'], repr('a\n\x1b'), repr(b'\x00a'), ascii('é'), hash('a') == hash('a'), str(1.0), str(None), repr([1, 'a', (2,)]), repr({'a': {1}}), eval is not None, [] or 'x', 0 and 1, not [], 1 if [] else 2, None is None, ... is Ellipsis, sorted('bca'), ''.join(sorted('bca', reverse=True)), list('ab'), tuple('ab'), set('a'), str(b'a', 'ascii'), int(True), sum([[1], [2]], []), divmod(7, 3), wrap('aaa bbb ccc', 7), iter([1]).__next__(), [].__len__(), (1).__add__(2), 'a'.__add__('b'), str.join(',', 'ab'), list.__len__([1]), bytes.decode(b'a'), dict.get({1: 2}, 1), str.upper('q'), globals()['re'].__name__, t_loop.__class__.__name__, list(iter(lambda it=iter([1, 2, 0]): next(it), 0)), type(1).__name__, (1).real, 5 .__str__()
def t_lru():
    n = []
    @lru_cache(maxsize=None)
    def f(x): n.append(x); return x * 2
    f(1); f(1); f(2)
    class C:
        @cached_property
        def p(self): n.append('p'); return 5
    c = C(); c.p; c.p
    return n, f(1)
def t_super():
    class A:
        def __init_subclass__(cls, tag=None, **k): cls.tag = tag
        def __new__(cls, *a): o = super().__new__(cls); o.new = True; return o
        def hi(self): return 'A'
    class M:
        def hi(self): return 'M' + super().hi()
    class B(M, A, tag=3):
        def hi(self): return 'B' + super().hi()
    class Abs(ABC):
        @abstractmethod
        def q(self): ...
    try: Abs(); r = 'made'
    except TypeError: r = 'abstract'
    return B().hi(), B.tag, B().new, r, B.hi(B()), [c.__name__ for c in B.__mro__], type('Dyn', (A,), {'z': 1}).z
def t_strsub():
    class S(str):
        def x(self): return self + '!'
    class L(list):
        def first(self): return self[0]
    class D(dict):
        def __missing__(self, k): return k * 2
    class N(int): pass
    d = D(a=1)
    return S('a').x(), S('a').upper(), len(S('abc')), L([4, 5]).first(), d['a'], d['q'], N(4) + 1, isinstance(S('a'), str), S('a') == 'a'
def t_bitflags(x=0xe2): return [i for i in range(8) if x >> i & 1], x & ~0x0f, (x & 0xc0) >> 6, f'{x:08b}', int(f'{x:b}', 2), x.bit_length()
def t_try_nested():
    def f(x):
        try:
            try: return {1: 'a'}[x]
            except KeyError:
                if x == 2: return 'two'
                raise
            finally:
                if x == 4: return 'fin'
        except KeyError as e: return f'ke{e}'
        else: return 'else'
    return [f(i) for i in (1, 2, 3, 4)]
def t_star(a=(1, 2)): return [*a, 3], {*a}, {**{'a': 1}}, print(*a, end='') , max(*a), (*a, *a), f'{a!r}', [x for a in [[1, 2], [3]] for x in a if x != 2]
def t_typing(): 
    T = t.TypeVar('T'); X = t.Union[int, str]; Y = t.Optional[int]
    class G(t.Generic[T]):
        def __init__(self, x: T): self.x = x
    class NT(t.NamedTuple):
        a: int
        b: str = 'q'
    class TD(t.TypedDict):
        a: int
    return G[int](3).x, NT(1), NT(1).b, TD(a=1), t.cast(int, 'a'), t.TYPE_CHECKING
def t_del():
    x = [1, 2, 3]; del x[1]; d = {'a': 1, 'b': 2}; del d['a']
    class A: pass
    a = A(); a.q = 1; del a.q; y = 5; del y
    return x, d, hasattr(a, 'q')
def t_global():
    global GG
    GG = 4
    def f(): return GG + 1
    return f()
def t_strfmt2(v=[('a', 1), ('bb', 22)]): return '\n'.join(f'{k:<{max(len(k) for k, _ in v)}} = {n:>3d}' for k, n in v), 'a' 'b', 'x' if v else 'y', "%s" % ((1, 2),), '%s %s' % (1, [2]), '{:%}'.format(0.5), f"{'q':>3}{1 + 1}{{}}", f'{1.5:g} {1e10:g} {3.0:.0f} {123456:.3g}', f'{True} {None} {b"a"}', '{a[k]} {b.real}'.format(a={'k': 1}, b=3)
def t_cmp(): return (1, 2) < (1, 3), 'a' < 'b', [1] == [1.0], None == 0, 1 == True, 'a' != b'a', {1: 2} == {1: 2.0}, (1,) + (2,), b'a' < b'b', 1 < 2 > 0, 1 in (1, 2) and 3 not in [4], not 1 == 2, 5 is not None, float('nan') != float('nan'), -1 % 256, -1 & 0xff, 2 ** -1, 10 // 3.0, round(-0.5), int(1e3), min('b', 'a'), sorted([(2, 'a'), (1, 'b')]), max([3, 1], [3, 2])
def t_slice_assign(): 
    a = list(range(6)); a[::2] = [9, 9, 9]; b = a[:]; b[2:2] = [7]; c = a[slice(1, None, 2)]; del a[1:3]; a[-1] += 5; d = [[0] * 2 for _ in range(2)]; d[0][1] = 3; a[0], a[1] = a[1], a[0]; return a, b, c, d
def t_suppress_gen():
    def chunks(it, n):
        it = iter(it)
        while c := list(islice(it, n)): yield c
    def rec(n): 
        if n: yield n; yield from rec(n - 1)
    return list(chunks(range(7), 3)), list(rec(3)), dict(enumerate('ab')), next((x for x in [1, 2] if x > 1), None), sum(1 for _ in 'abc'), list(zip(*[iter('abcd')] * 2)), any([]), all([])
def t_bytes_iter(s=b'\x00\x7f\x80\xff'): return [f'{b:02x}' for b in s], ''.join(map(chr, s)), ' '.join('%02X' % b for b in s), [s[i:i + 1] for i in range(len(s))], bytes(b ^ 0xff for b in s), s.decode('cp437'), s.decode('ascii', errors='backslashreplace'), s.rstrip(b'\xff'), [*s[::-1]], b''.join(s[i:i+1] for i in (0, 2)), s.splitlines(), s.index(0x7f), b'ab'.zfill(4), b'a,b'.rpartition(b','), b' x '.strip(), bytes.maketrans(b'a', b'b')[97], s.endswith((b'\xff', b'z')), list(enumerate(b'ab')), b'\n'.isspace(), b'ab'.title(), b'A' == bytes((65,)), b'a1'.isalnum()
def t_text_lines(s='a\nb\r\nc\x0bd\n'): return s.splitlines(), s.splitlines(True), s.splitlines(keepends=True), s.split('\n'), s.split(), s.rstrip('\n'), s.count('\n'), s.isprintable(), [c.isprintable() for c in s], s.encode('unicode_escape'), s.rindex('\n'), s.isspace(), s.isascii(), 'é'.encode(), 'é'.isalpha(), 'ß'.upper(), 'a\tb'.expandtabs(4), s.find('zz', 2), s.startswith('b', 2), 'aXbX'.split('X'), ' a b '.split(' '), 'abc'.rjust(2), 'a-b-c'.rsplit('-', 1), 'ab'.join('123'), 'x'.isidentifier(), '12'.isdecimal(), '½'.isnumeric(), 'aB'.istitle()
