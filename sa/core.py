"""Abstract values, path (trace partition) state and the partition explorer.

Abstract interpretation with trace partitioning: the interpreter runs the transfer functions in direct style over
abstract values; wherever an abstract condition is neither surely true nor surely false the trace is partitioned and
each side is analysed with the refined abstract state.  Partitions are enumerated by replaying the (deterministic)
interpretation with a recorded list of partition choices.
"""
from __future__ import annotations

import mmap
import os
import pickle
import signal
import time
from .num import Lin, L, unlin, entails, feasible, relevant, model as lin_model


# ---------------------------------------------------------------- engine exceptions
class Unsupported(Exception):
    """The analysed code uses something the abstract interpreter has no transfer function for."""


STEPS = 40_000_000    # statements and expressions of one partition; see longest_partition_steps in the evidence


class Cut(Exception):
    """Partition dropped: outside of the stated bound of the analysis."""


class Infeasible(Exception):
    """Partition turned out to be empty."""


class NotPure(Exception):
    pass


# ---------------------------------------------------------------- journal (undo log of the abstract heap)
class Journal:
    def __init__(self):
        self.log = []
        self.cur = object()
        self.pure = False


J = Journal()


def touch(o):
    if o.ep is not J.cur:
        if J.pure: raise NotPure()
        J.log.append((o, o._save(), o.ep))
        o.ep = J.cur


def checkpoint():
    old = (J.log, J.cur, J.pure)
    J.log = []
    J.cur = object()
    return old


def rollback(old):
    for o, s, ep in reversed(J.log):
        o._restore(s)
        o.ep = ep
    J.log, J.cur, J.pure = old


class Obj:
    """Mutable abstract heap object."""
    __slots__ = ('ep', '__weakref__')

    def _save(self): raise NotImplementedError
    def _restore(self, s): raise NotImplementedError


# ---------------------------------------------------------------- environment
ENV = None      # values of the environment fixed for a singleton state, or None: unknown


def env(name, unknown): return ENV[name] if ENV is not None else unknown()


# ---------------------------------------------------------------- finite-domain values
class FV:
    """Value that is a function (table) of a finite-domain variable: {x in dom(var)} -> table[x]."""
    __slots__ = ('var', 'tab')

    def __init__(self, var, tab):
        self.var, self.tab = var, tab

    def __repr__(self): return f'FV({self.var}:{len(self.tab)})'


class Top:
    """Unknown value. Carries the reason; branching on it makes the partition inexact."""
    __slots__ = ('why',)

    def __init__(self, why): self.why = why
    def __repr__(self): return f'Top({self.why})'


class Frac:
    """Exact quotient of an affine expression by a positive constant."""
    __slots__ = ('num', 'den')

    def __init__(self, num, den): self.num, self.den = num, den


class Root:
    """Square root of a non-negative affine integer below 2^50 (ordered like its argument)."""
    __slots__ = ('arg',)

    def __init__(self, arg): self.arg = arg


class Log10:
    """Decimal logarithm of a positive number (only its decade is ever looked at)."""
    __slots__ = ('arg',)

    def __init__(self, arg): self.arg = arg


# ---------------------------------------------------------------- path state
class Path:
    forker = None

    def __init__(self, prefix=()):
        self.prefix = list(prefix)
        self.trail = []       # [choice, n]
        self.cons = []        # Lin >= 0
        self.dom = {}         # finite variable -> frozenset
        self.atoms = {}       # atom name -> Atom
        self.bind = {}        # atom name -> SV (refined content)
        self.memo = {}
        self.events = []
        self.imp = []
        self.notes = []
        self.counter = {}
        self.steps = 0
        self.limit = STEPS
        self.tainted = set()

    # -- fresh names (deterministic per path)
    def fresh(self, base):
        k = self.counter.get(base, 0)
        self.counter[base] = k + 1
        return base if k == 0 else f'{base}#{k}'

    def assume(self, l):
        """l >= 0"""
        l = L(l)
        if l.is_const:
            if l.c < 0: raise Infeasible()
            return
        self.cons.append(l)

    def sync(self):
        """Carry the finite domains over to the affine integers tied to them; drop the partition when contradictory."""
        tw = getattr(self, 'twins', None)
        if not tw: return
        for name, (var, tab) in tw.items():
            vals = [tab[x] for x in self.dom[var] if x in tab]
            b = (min(vals), max(vals)) if vals else (1, 0)
            if self.memo.get(('sync', name)) == b: continue
            self.memo[('sync', name)] = b
            t = Lin.var(name)
            self.cons.append(t.add(-b[0]))
            self.cons.append(L(b[1]).sub(t))
        if not feasible(tuple(relevant(self.cons, [Lin.var(n) for n in tw]))): raise Infeasible()

    def inexact(self, why):
        if why not in self.imp: self.imp.append(why)


class Ctx:
    cur: Path = None
    deadline = None
    locate = staticmethod(lambda: None)      # current position of the interpreter, for reports


def P() -> Path: return Ctx.cur


def choose(n, label=''):
    """Partition the trace n ways; returns the index of the part being analysed."""
    if n == 1: return 0
    p = Ctx.cur
    if p.forker is not None: c = p.forker.split(n, p)
    else:
        i = len(p.trail)
        c = p.prefix[i] if i < len(p.prefix) else 0
    p.trail.append((c, n))
    if len(p.trail) > 400: raise Cut('partition depth')
    p.notes.append((label, c, Ctx.locate()))
    return c


def lin_sign_query(l):
    """True when l >= 0 surely, False when l < 0 surely, None unknown."""
    if isinstance(l, int): return l >= 0
    if l.is_const: return l.c >= 0
    p = Ctx.cur
    rel = tuple(relevant(p.cons, [l]))
    if entails(rel, l): return True
    if entails(rel, l.neg().add(-1)): return False
    return None


def ge0(l, label=''):
    """Decide l >= 0, partitioning when unknown."""
    q = lin_sign_query(l)
    if q is not None: return q
    c = choose(2, label or f'{l!r}>=0')
    if c == 0:
        Ctx.cur.cons.append(l)
        return True
    Ctx.cur.cons.append(l.neg().add(-1))
    return False


def select(options, label=''):
    """Partition by a list of alternatives (each a list of facts l >= 0); only the possible ones are followed. -> index"""
    p = Ctx.cur
    base = list(p.cons)
    live = []
    for i, facts in enumerate(options):
        facts = [l for l in facts if not (l.is_const and l.c >= 0)]
        if any(l.is_const for l in facts): continue
        if all(entails(base, l) for l in facts):
            if not live: return i
            live.append((i, facts))
        elif feasible(frozenset(relevant(base, facts) + facts)): live.append((i, facts))
    if not live: raise Infeasible()
    c = choose(len(live), label)
    i, facts = live[c]
    p.cons.extend(facts)
    return i


def lsub(a, b):
    return L(a).sub(L(b))


def lt(a, b):
    if isinstance(a, int) and isinstance(b, int): return a < b
    return ge0(lsub(b, a).add(-1))


def le(a, b):
    if isinstance(a, int) and isinstance(b, int): return a <= b
    return ge0(lsub(b, a))


def eq_int(a, b):
    if isinstance(a, int) and isinstance(b, int): return a == b
    d = lsub(a, b)
    if d.is_const: return d.c == 0
    # parity style impossibility
    p = Ctx.cur
    rel = tuple(relevant(p.cons, [d]))
    up = entails(rel, d.add(-1))
    if up: return False
    dn = entails(rel, d.neg().add(-1))
    if dn: return False
    if entails(rel, d) and entails(rel, d.neg()): return True
    can_eq = feasible(frozenset(list(rel) + [d, d.neg()]))
    if not can_eq: return False
    opts = [0]
    if feasible(frozenset(list(rel) + [d.add(-1)])): opts.append(1)
    if feasible(frozenset(list(rel) + [d.neg().add(-1)])): opts.append(2)
    c = opts[choose(len(opts), f'{a!r}=={b!r}')]
    if c == 0:
        p.cons += [d, d.neg()]
        return True
    p.cons.append(d.add(-1) if c == 1 else d.neg().add(-1))
    return False


def surely_eq(a, b):
    d = lsub(a, b)
    if d.is_const: return d.c == 0
    rel = tuple(relevant(Ctx.cur.cons, [d]))
    return entails(rel, d) and entails(rel, d.neg())


def surely_ge(a, b):
    d = lsub(a, b)
    if d.is_const: return d.c >= 0
    return entails(tuple(relevant(Ctx.cur.cons, [d])), d)


def new_int(name, lo=None, hi=None):
    p = Ctx.cur
    v = Lin.var(p.fresh(name))
    if lo is not None: p.assume(v.add(L(lo).neg()))
    if hi is not None: p.assume(L(hi).sub(v))
    return v


def new_fv(name, domain):
    p = Ctx.cur
    n = p.fresh(name)
    p.dom[n] = frozenset(domain)
    return fv_norm(FV(n, {x: x for x in domain}))


def _same(a, b):
    return a is b or (type(a) is type(b) and isinstance(a, (int, str, bytes, bool, float, type(None))) and a == b)


def fv_norm(v):
    if not isinstance(v, FV): return v
    dom = Ctx.cur.dom[v.var]
    it = iter(dom)
    first = v.tab[next(it)]
    if all(_same(first, v.tab[x]) for x in it): return first
    if len(v.tab) != len(dom): return FV(v.var, {x: v.tab[x] for x in dom})
    return v


def fv_groups(v):
    """[(value, frozenset of domain points)] in deterministic order."""
    groups = []
    index = {}
    dom = Ctx.cur.dom[v.var]
    try: order = sorted(dom)
    except TypeError: order = sorted(dom, key=lambda z: (str(type(z)), repr(z)))
    for x in order:
        val = v.tab[x]
        try:
            k = (type(val), val) if isinstance(val, (int, str, bytes, bool, float, type(None))) else ('id', id(val))
        except TypeError:
            k = ('id', id(val))
        if k in index: groups[index[k]][1].append(x)
        else:
            index[k] = len(groups)
            groups.append((val, [x]))
    return groups


def force(v, limit=300):
    """Partition until v is a single value."""
    while isinstance(v, FV):
        g = fv_groups(v)
        if len(g) > limit: raise Unsupported(f'too many values of {v.var}')
        c = choose(len(g), f'{v.var}:{str(g[0][0])[:12]}..')
        Ctx.cur.dom[v.var] = frozenset(g[c][1])
        v = g[c][0]
    return v


def fv_map(f, *args):
    """Pointwise lifting. f may raise AExc; then partitioned into raising / non raising points."""
    args = [fv_norm(a) for a in args]
    vs = [a for a in args if isinstance(a, FV)]
    if not vs: return f(*args)
    vars_ = {a.var for a in vs}
    if len(vars_) > 1:
        # partition on the smallest one
        small = min(vs, key=lambda a: (len(Ctx.cur.dom[a.var]), a.var))
        if len(Ctx.cur.dom[small.var]) > 64: raise Unsupported('product of finite domains')
        val = force(small)
        return fv_map(f, *[val if a is small else a for a in args])
    var = vs[0].var
    from .interp import AExc
    tab, exc = {}, {}
    for x in sorted(Ctx.cur.dom[var], key=lambda z: (str(type(z)), z) if not isinstance(z, int) else ('', z)):
        try:
            tab[x] = f(*[a.tab[x] if isinstance(a, FV) else a for a in args])
        except AExc as e:
            exc[x] = e
    if exc:
        if tab:
            kinds = [frozenset(tab)]
        else:
            kinds = []
        bycls = {}
        for x, e in exc.items(): bycls.setdefault(str(e), []).append(x)
        ek = list(bycls.values())
        if len(ek) > 4: ek = [sorted(exc)]
        opts = kinds + [frozenset(k) for k in ek]
        c = choose(len(opts), f'{var} raises')
        Ctx.cur.dom[var] = opts[c]
        if c >= len(kinds):
            raise exc[next(iter(opts[c]))]
        tab = {x: tab[x] for x in opts[c]}
    return fv_norm(FV(var, tab))


# ---------------------------------------------------------------- explorer
class Outcome:
    __slots__ = ('path', 'kind', 'value', 'why', 'at')

    def __init__(self, path, kind, value=None, why=None):
        self.path, self.kind, self.value, self.why = path, kind, value, why
        self.at = getattr(path, 'at', None)


class Stats:
    def __init__(self):
        self.paths = self.cut = self.unsupported = self.infeasible = self.inexact = self.overflow = 0
        self.steps = self.longest = 0
        self.reasons = {}

    def merge(self, o):
        for k in ('paths', 'cut', 'unsupported', 'infeasible', 'inexact', 'overflow', 'steps'):
            setattr(self, k, getattr(self, k) + getattr(o, k))
        self.longest = max(self.longest, o.longest)
        for k, v in o.reasons.items(): self.reasons[k] = self.reasons.get(k, 0) + v

    def asdict(self):
        return {k: getattr(self, k) for k in ('paths', 'cut', 'unsupported', 'infeasible', 'inexact', 'overflow', 'steps')} | {
            'longest': self.longest, 'reasons': dict(sorted(self.reasons.items(), key=lambda x: -x[1])[:12])}


def explore(fn, on_path=None, max_paths=5000, time_limit=60.0, stats=None, debug=False):
    """Analyse fn under every partition. fn() runs in a fresh abstract state; its return value is in Outcome.value.
    on_path(outcome) is called while the abstract heap of that partition is still in place."""
    stats = stats if stats is not None else Stats()
    outs = []
    stack = [()]
    t0 = time.monotonic()
    saved = Ctx.cur
    n = 0
    while stack:
        if n >= max_paths or time.monotonic() - t0 > time_limit:
            stats.overflow += len(stack)
            stats.reasons['partition budget'] = stats.reasons.get('partition budget', 0) + 1
            break
        prefix = stack.pop()
        n += 1
        path = Path(prefix)
        Ctx.cur = path
        old = checkpoint()
        try:
            try:
                o = Outcome(path, 'ok', fn())
            except Cut as e: o = Outcome(path, 'cut', why=str(e))
            except Infeasible: o = Outcome(path, 'infeasible')
            except Unsupported as e:
                if debug: raise
                o = Outcome(path, 'unsupported', why=str(e))
            except RecursionError: o = Outcome(path, 'unsupported', why='recursion')
            stats.paths += 1
            stats.steps += path.steps
            stats.longest = max(stats.longest, path.steps)
            if o.kind == 'cut': stats.cut += 1
            elif o.kind == 'infeasible': stats.infeasible += 1
            elif o.kind == 'unsupported':
                stats.unsupported += 1
                r = o.why[:100]
                stats.reasons[r] = stats.reasons.get(r, 0) + 1
            elif path.imp:
                stats.inexact += 1
                for r in path.imp: stats.reasons['inexact: ' + r[:80]] = stats.reasons.get('inexact: ' + r[:80], 0) + 1
            later = None
            if on_path: later = on_path(o)
            else: outs.append(o)
            for i in range(len(path.trail) - 1, len(prefix) - 1, -1):
                c, k = path.trail[i]
                base = tuple(x for x, _ in path.trail[:i])
                for alt in range(k - 1, c, -1): stack.append(base + (alt,))
        finally:
            rollback(old)
            Ctx.cur = saved
        if later: later()
    return outs


class TimeUp(Unsupported):
    pass


class Limit:
    """Hard limits of an analyser process: a partition that takes longer than the time of its scenario allows is given up
    as undecided, and everything stops soon after enough violations have been confirmed."""
    end = None              # of the whole analysis (monotonic)
    stop = 0                # confirmed violations after which no further partitions are visited (0: never)
    hits = mmap.mmap(-1, 8)
    depth = 0
    grace = 45.0

    @classmethod
    def count(cls): return int.from_bytes(cls.hits[:8], 'little')

    @classmethod
    def hit(cls): cls.hits[:8] = (cls.count() + 1).to_bytes(8, 'little')

    @classmethod
    def enough(cls): return bool(cls.stop) and cls.count() >= cls.stop

    @classmethod
    def alarm(cls, *_):
        if cls.depth: raise TimeUp('time limit of a partition')

    @classmethod
    def arm(cls, seconds):
        signal.signal(signal.SIGALRM, cls.alarm)
        if cls.end is not None: seconds = min(seconds, cls.end - time.monotonic())
        signal.setitimer(signal.ITIMER_REAL, max(0.5, seconds), 1.0)

    @classmethod
    def disarm(cls):
        signal.setitimer(signal.ITIMER_REAL, 0)

    def __enter__(self): Limit.depth += 1
    def __exit__(self, *_): Limit.depth -= 1


class Forker:
    """Visits the partitions of a scenario by forking the analyser at every partition choice (no interpretation is repeated).
    A shared pool of tokens bounds the number of analysers that run at the same time."""

    def __init__(self, acc, tokens=None, time_limit=60.0, max_paths=5000, owns=False):
        self.acc = acc                      # accumulator: reset(), dump(), merge(x)
        self.tokens = tokens                # (read fd, write fd) of the token pipe, non-blocking
        self.owns = owns                    # this process holds a token
        self.t0 = time.monotonic()
        self.limit, self.max_paths = time_limit, max_paths
        self.count = mmap.mmap(-1, 8)
        self.out = None                     # pipe of a child
        self.pending = []

    def leaves(self): return int.from_bytes(self.count[:8], 'little')

    def leaf(self): self.count[:8] = (self.leaves() + 1).to_bytes(8, 'little')

    def exhausted(self):
        now = time.monotonic()
        return self.leaves() >= self.max_paths or now - self.t0 > self.limit or Limit.enough() or (Limit.end is not None and now > Limit.end)

    def arm(self): Limit.arm(self.t0 + self.limit + Limit.grace - time.monotonic())

    def take(self):
        if self.tokens is None: return False
        try: return bool(os.read(self.tokens[0], 1))
        except BlockingIOError: return False

    def give(self):
        if self.owns and self.tokens is not None:
            os.write(self.tokens[1], b'.')
            self.owns = False

    def split(self, n, path):
        depth, Limit.depth = Limit.depth, 0         # a time limit must not interrupt the bookkeeping
        try: return self.divide(n)
        finally: Limit.depth = depth

    def divide(self, n):
        for c in range(1, n):
            if self.exhausted():
                self.acc.stats.overflow += n - c
                self.acc.stats.reasons['partition budget'] = self.acc.stats.reasons.get('partition budget', 0) + 1
                break
            own = self.take()
            r, w = os.pipe()
            pid = os.fork()
            if pid == 0:
                os.close(r)
                for _, fd in self.pending: os.close(fd)
                if self.out is not None: os.close(self.out)
                self.out, self.owns, self.pending = w, own, []
                self.acc.reset()
                self.arm()
                return c
            os.close(w)
            if own: self.pending.append((pid, r))
            else: self.collect(pid, r)
        return 0

    def collect(self, pid, r):
        buf = b''
        while d := os.read(r, 1 << 16): buf += d
        os.close(r)
        os.waitpid(pid, 0)
        if buf: self.acc.merge(pickle.loads(buf))
        else: self.acc.lost()

    def finish(self):
        """The partition of this process is done: gather the partitions split off from it; a child reports and ends."""
        self.give()
        for pid, r in self.pending: self.collect(pid, r)
        self.pending = []
        if self.out is not None:
            data = pickle.dumps(self.acc.dump())
            while data: data = data[os.write(self.out, data):]
            os._exit(0)


def explore_forked(fn, on_path, forker, stats):
    """As explore(), with a process per partition. Returns in the process of the caller only."""
    saved = Ctx.cur
    path = Path()
    path.forker = forker
    forker.arm()
    Ctx.cur = path
    old = checkpoint()
    later = None
    try:
        try:
            try:
                with Limit(): o = Outcome(path, 'ok', fn())
            except Cut as e: o = Outcome(path, 'cut', why=str(e))
            except Infeasible: o = Outcome(path, 'infeasible')
            except Unsupported as e: o = Outcome(path, 'unsupported', why=str(e))
            except (RecursionError, MemoryError) as e: o = Outcome(path, 'unsupported', why=type(e).__name__)
            path.forker = None
            forker.leaf()
            stats.paths += 1
            stats.steps += path.steps
            stats.longest = max(stats.longest, path.steps)
            if o.kind == 'cut': stats.cut += 1
            elif o.kind == 'infeasible': stats.infeasible += 1
            elif o.kind == 'unsupported':
                stats.unsupported += 1
                r = o.why[:100]
                stats.reasons[r] = stats.reasons.get(r, 0) + 1
            elif path.imp:
                stats.inexact += 1
                for r in path.imp: stats.reasons['inexact: ' + r[:80]] = stats.reasons.get('inexact: ' + r[:80], 0) + 1
            with Limit(): later = on_path(o)
        finally:
            rollback(old)
            Ctx.cur = saved
        if later:
            with Limit(): later()
    except TimeUp: forker.acc.note('time limit of a partition')
    except Exception as e:
        forker.acc.error(e)
    except BaseException:
        if forker.out is not None: os._exit(1)
        raise
    Limit.disarm()
    forker.finish()


def local_explore(fn, limit=600):
    """Explore fn() from the current abstract state for a generic element; effects on existing objects are refused
    (NotPure). Returns [(extra_cons, dom, value | exception)] ; the current path is left untouched."""
    outer = Ctx.cur
    res = []
    stack = [()]
    n = 0
    from .interp import AExc
    while stack:
        prefix = stack.pop()
        n += 1
        if n > limit: raise Unsupported('too many local partitions')
        sub = Path(prefix)
        sub.cons = list(outer.cons)
        sub.dom = dict(outer.dom)
        sub.atoms = dict(outer.atoms)
        sub.bind = dict(outer.bind)
        sub.memo = dict(outer.memo)
        sub.counter = dict(outer.counter)
        sub.events = []
        Ctx.cur = sub
        old = checkpoint()
        J.pure = True
        try:
            try: v = ('ok', fn())
            except AExc as e: v = ('exc', e)
            except Infeasible: v = None
            if sub.events: raise NotPure()
            if sub.imp: outer.imp.extend(x for x in sub.imp if x not in outer.imp)
            if v is not None: res.append((sub, v))
            for i in range(len(sub.trail) - 1, len(prefix) - 1, -1):
                c, k = sub.trail[i]
                base = tuple(x for x, _ in sub.trail[:i])
                for alt in range(k - 1, c, -1): stack.append(base + (alt,))
        finally:
            rollback(old)
            outer.steps += sub.steps
            Ctx.cur = outer
    return res


# ---------------------------------------------------------------- models (witnesses)
class Model:
    """A concrete point of the abstract state: integers for affine variables, values for finite variables."""

    def __init__(self, path, env, fv):
        self.path, self.env, self.fv = path, env, fv

    def int(self, x):
        if isinstance(x, int): return x
        v = L(x).subst({k: self.env.get(k, 0) for k in L(x).vars()})
        return v.c


def spread(cons, v, i):
    """A value to reach for: some way up the range of v."""
    from .num import bounds
    lo, hi = bounds(tuple(cons), Lin.var(v), 1 << 62)
    lo = 0 if lo is None else lo
    return lo + ((37, 61, 100, 500, 5000)[i % 5] if hi is None else (hi - lo) * (5, 9, 7, 3, 8)[i % 5] // 10)


def models(path, count=6, wide=False):
    """A few concrete points of the partition (best effort, deterministic)."""
    out = []
    doms = []
    for n, d in sorted(path.dom.items(), key=lambda x: str(x[0])):
        try: s = sorted(d)
        except TypeError: s = sorted(d, key=lambda z: (str(type(z)), repr(z)))
        doms.append((n, s))
    twins = getattr(path, 'twins', {})
    base = list(path.cons)
    vs = sorted({v for l in base for v in l.vars()}, key=str)
    seen = set()
    for i in range(count * 4):
        if len(out) >= count: break
        fv = {n: s[(i * 7 + j * 3 * i) % len(s)] if s else None for j, (n, s) in enumerate(doms)}
        cons = list(base)
        ok = True
        if twins and i in (1, 2) and not out:      # the first guesses contradict the constraints: values that agree with them
            env = lin_model(base)
            for name, (var, tab) in twins.items() if env else ():
                x = next((x for x in dict(doms).get(var, ()) if tab.get(x) == env.get(name)), None)
                if x is not None: fv[var] = x
        for name, (var, tab) in twins.items():
            x = fv.get(var)
            if x not in tab:
                ok = False
                break
            d = Lin.var(name).add(-tab[x])
            cons += [d, d.neg()]
        if not ok: continue
        if i % 2 and vs:
            v = vs[(i // 2) % len(vs)]
            env = None
            for k in (spread(cons, v, i // 2), 7, 3, 2) if wide and i > 2 else (7, 3, 2):
                env = lin_model(cons + [Lin.var(v).add(-k)])
                if env is not None: break
            if env is None: env = lin_model(cons)
        else: env = lin_model(cons)
        if env is None: continue
        key = (tuple(sorted(env.items(), key=str)), tuple(sorted(fv.items(), key=str)).__repr__())
        if key in seen: continue
        seen.add(key)
        out.append(Model(path, env, fv))
    return out
