"""C29: closest-colour lookups are never stale, whatever was looked up or registered before."""
from .presets import *
from .common import TF

RULE = ('in every history of registrations and lookups each lookup yields a registered colour of its own class at the smallest distance among all colours registered so far; a repeated lookup, and the same lookup '
        'in the history without the earlier lookups, yield the same colour')
EXPLAIN = ('Histories of registrations (same value, near value, duplicate, no value) and lookups (value of a preset, other values) are analysed through the public constructors and find_closest of both palette '
           'classes and on an own approximator; distances are computed from a table of registered colours kept by the analysis itself.')
BOUNDS = 'histories of up to 5 operations; three lookup values, four registered values'
MIN_PROVED = 400
MODU = 'pytermor.color'

LOOK = (0x123456, 0x000001, 0xff0000)
REG = (0x123456, 0x123457, 0xff0000, 0x020000, None)


def dist(a, b):
    return sum(((a >> s & 255) - (b >> s & 255)) ** 2 for s in (0, 8, 16))


class Palette:
    def __init__(self, repo, cls):
        self.repo, self.lib = repo, Lib(repo)
        self.cls, self.cname = repo.get(MODU, cls), cls
        f = self.cls.lookup('find_closest')
        f = getattr(f, 'f', f)
        self.wh = (f.mod.file, f.node.lineno, f.qual)
        self.start = [v for v in self.lib.presets(repo.get(MODU, 'Colors')).values() if isinstance(v, Inst) and v.cls is self.cls]
        self.n = 0

    def hexv(self, c): return core.fv_norm(self.repo.attr(c, 'hex_value'))

    def make(self, v):
        self.n += 1
        if self.cname == 'ColorIndexed16': return self.repo.call(self.cls, v, 30 + self.n % 8, 40 + self.n % 8)
        return self.repo.call(self.cls, v, 16 + self.n)

    def find(self, v): return self.repo.call(self.repo.attr(self.cls, 'find_closest'), v)


def history(repo, src, w, cls, n, regs, first):
    """Interleavings of registrations and lookups."""
    ops = [('look', v) for v in LOOK] + [('reg', v) for v in regs]
    p = Palette(repo, cls)
    h = [ops[first]] if first is not None else []
    while len(h) < n: h.append(forced(src.pick(f'op{len(h)}', ops)))
    if first is None: h.append(('look', forced(src.pick('last', LOOK))))
    old = core.checkpoint()
    known = [p.hexv(c) for c in p.start]
    got = []
    for op, v in h:
        if op == 'reg':
            c = p.make(v)
            if v is not None: known.append(v)
            continue
        c = p.find(v)
        x = p.hexv(c)
        w.true('a colour of this palette', isinstance(c, Inst) and c.cls is p.cls, lambda: f'after {h!r}: lookup of {v:06x} gives {c!r}', p.wh)
        w.true('a registered colour', x in known, lambda: f'after {h!r}: lookup of {v:06x} gives {x!r}, which was never registered', p.wh)
        if x in known:
            best = min(dist(v, k) for k in known)
            w.true('nearest of all registered so far', dist(v, x) == best, lambda: f'in {h!r}: lookup of {v:06x} gives {x:06x}, nearer: {[hex(k) for k in known if dist(v, k) == best]}', p.wh)
        again = p.find(v)
        w.true('repeated lookup agrees', snap(p.lib, again) == snap(p.lib, c), lambda: f'in {h!r}: repeated lookup of {v:06x} gives {again!r}', p.wh)
        got.append(snap(p.lib, c))
    # the last lookup in a history without the earlier ones
    if h[-1][0] == 'look':
        core.rollback(old)
        p.n = 0
        for op, v in h[:-1]:
            if op == 'reg': p.make(v)
        c = snap(p.lib, p.find(h[-1][1]))
        w.true('earlier lookups do not matter', c == got[-1], lambda: f'{h!r}: last lookup gives {got[-1]!r}, without earlier lookups {c!r}', p.wh)


def isolation(repo, src, w):
    """Palettes do not share registrations."""
    a, b = Palette(repo, 'ColorIndexed16'), Palette(repo, 'ColorIndexed256')
    v = forced(src.pick('value', LOOK))
    before = forced(src.pick('looked up before', (False, True)))
    p, q = (a, b) if forced(src.pick('palette', (0, 1))) else (b, a)
    o = snap(p.lib, q.find(v)) if before else None
    old = core.checkpoint()
    ref = snap(p.lib, q.find(v))
    core.rollback(old)
    p.make(v)
    got = q.find(v)
    w.true('registrations of the other palette do not matter', snap(p.lib, got) == ref and o in (None, ref), lambda: f'{v:06x}: {got!r}', q.wh)
    w.true('own palette takes it', p.hexv(p.find(v)) == v, lambda: f'{p.find(v)!r}', p.wh)


def fresh(repo, src, w, n):
    """An approximator of its own, starting empty."""
    L_ = Lib(repo)
    A = repo.get(MODU, 'Approximator')
    f = A.lookup('find_closest')
    wh = (f.mod.file, f.node.lineno, f.qual)
    p = Palette(repo, 'ColorIndexed16')
    colours = {v: p.make(v) for v in REG}
    a = repo.call(A)
    noop = repo.get(MODU, 'NOOP_COLOR_INDEXED')
    ops = [('look', LOOK[0]), ('look', LOOK[2])] + [('reg', v) for v in REG]
    known, h = [], []
    for i in range(n):
        op, v = forced(src.pick(f'op{i}', ops)) if i < n - 1 else ('look', LOOK[0])
        h.append((op, v))
        if op == 'reg':
            repo.call(repo.attr(a, 'add_to_map'), colours[v])
            if v is not None: known.append(v)
            continue
        c = repo.call(repo.attr(a, 'find_closest'), v)
        if not known: w.true('nothing registered', c is noop or snap(L_, c) == snap(L_, noop), lambda: f'{h!r}: {c!r}', wh)
        else:
            x = p.hexv(c)
            w.true('nearest of all registered so far', x in known and dist(v, x) == min(dist(v, k) for k in known), lambda: f'{h!r}: {c!r}', wh)


def several(repo, src, w):
    """The ordered list of candidates."""
    p = Palette(repo, 'ColorIndexed16')
    A = repo.get(MODU, 'Approximator')
    a = repo.call(A)
    f = A.lookup('approximate')
    wh = (f.mod.file, f.node.lineno, f.qual)
    vs = [0x123456, 0x123457, 0xff0000, 0x020000, 0x808080]
    k = forced(src.pick('registered', range(1, 6)))
    m = forced(src.pick('asked for', (1, 2, 5, 9)))
    v = forced(src.pick('value', LOOK))
    for z in vs[:k]: repo.call(repo.attr(a, 'add_to_map'), p.make(z))
    got = [p.hexv(c) for c in repo.I.iter_list(repo.call(repo.attr(a, 'approximate'), v, m))]
    w.true('nearest first', [dist(v, x) for x in got] == sorted(dist(v, x) for x in vs[:k])[:m] and len(set(got)) == len(got), lambda: f'{[hex(x) for x in got]}', wh)


def mangled(v):
    """Values near v or made of the same digits."""
    r, g, b = v >> 16, v >> 8 & 255, v & 255
    xs = [v ^ 1 << i for i in range(24)] + [c[0] << 16 | c[1] << 8 | c[2] for c in ((r, b, g), (g, r, b), (g, b, r), (b, r, g), (b, g, r))]
    xs += [v & 0xffff, v & 0xffff00, v & 0xff00ff, v ^ 0xffffff, v & 0xfff, v & 0xf0f0f0, v | 0x0f0f0f]
    return [x for x in dict.fromkeys(xs) if x != v]


def pairs(repo, src, w, v, own):
    """Lookups of two values that are alike, both registered."""
    p = Palette(repo, 'ColorIndexed16')
    x = forced(src.pick('other', mangled(v)))
    a, b = p.make(v), p.make(x)
    if own:
        A = repo.get(MODU, 'Approximator')
        ap = repo.call(A)
        for c in (a, b): repo.call(repo.attr(ap, 'add_to_map'), c)
        find = lambda z: repo.call(repo.attr(ap, 'find_closest'), z)
    else: find = p.find
    for z in (v, x, v) if forced(src.pick('first', (0, 1))) else (x, v, x):
        c = p.hexv(find(z))
        w.true('a registered value is its own nearest', c == z, lambda: f'after {v:06x} and {x:06x}: lookup of {z:06x} gives {c:06x}', p.wh)


def jobs(repo, tier):
    js = []
    for i in range(len(LOOK) + len(REG)): js.append(Job(f'history16 {i}', history, 'ColorIndexed16', 4, REG, i, time=40))
    for i in range(len(LOOK) + 2): js.append(Job(f'history256 {i}', history, 'ColorIndexed256', 2, REG[:2], i, time=40))
    js += [Job('history256 lookups', history, 'ColorIndexed256', 1, (), None, time=40), Job('isolation', isolation, time=40), Job('own approximator', fresh, 4, time=40), Job('several', several, time=20)]
    js += [Job(f'pairs {v:06x} {o}', pairs, v, o, time=25) for v in (0x123456, 0xfe0180) for o in TF]
    if tier == 'thorough':
        for i in range(len(LOOK) + len(REG)): js.append(Job(f'thorough history16 {i}', history, 'ColorIndexed16', 5, REG, i, time=300, max_paths=100000))
        for i in range(len(LOOK) + 2): js.append(Job(f'thorough history256 {i}', history, 'ColorIndexed256', 3, REG[:2], i, time=300, max_paths=100000))
    return js
