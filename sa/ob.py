"""Obligations: what a scenario demands of the analysed code, how an undischarged one is refined to a witness, reports.

A scenario builds abstract inputs through `Src`, lets the interpreter derive the abstract result and states obligations.
An obligation that the abstract domain does not prove is refined: the abstract state of the partition is narrowed to a
singleton (one point of it) and derived again; only a partition with a confirmed singleton is reported as a violation,
everything else is counted as undecided."""
from __future__ import annotations

import json
import os
import resource
import time
from . import core, strs
from .core import FV, Lin, Unsupported, Cut, P, explore, models, Stats, new_fv, new_int
from .num import L
from .strs import SV, atom_sv, concretise, norm, equal
from .interp import AExc, Inst, AList, ADict


class Fail(Exception):
    def __init__(self, label, detail, where=None):
        self.label, self.detail, self.where = label, detail, where


class Undecided(Exception):
    pass


class Src:
    """Source of abstract inputs (or of the fixed values of a witness)."""

    def __init__(self, fixed=None):
        self.fixed = fixed
        self.made = []

    def _put(self, name, v):
        self.made.append((name, v))
        return v

    def run(self, name, chars, n=None, lo=0, hi=None, kind='b'):
        """Run of unknown elements over `chars`, of symbolic length lo..hi (or exactly n)."""
        if self.fixed is not None: return self.fixed[name]
        if n is None and hi is not None:
            n = new_int(f'|{name}|', lo, hi)
            return self._put(name, atom_sv(name, kind, chars, n))
        return self._put(name, atom_sv(name, kind, chars, n, lo))

    def pick(self, name, domain, tab=None):
        """One of finitely many values; with tab: the image tab[value]."""
        if self.fixed is not None: v = self.fixed[name]
        else: v = self._put(name, new_fv(name, domain))
        if tab is None: return v
        if isinstance(v, FV): return strs.norm(FV(v.var, {x: tab(x) for x in v.tab}))
        return tab(v)

    def byte(self, name, domain=range(256)):
        v = self.pick(name, domain, lambda x: bytes([x]))
        return strs.mk('b', [strs.Tab(v)]) if isinstance(v, FV) else v

    def int(self, name, lo=None, hi=None):
        if self.fixed is not None: return self.fixed[name]
        return self._put(name, new_int(name, lo, hi))

    def lazy(self, name, domain):
        """Value that is forced (partitioned) when the code inspects it."""
        return self.pick(name, domain)


def point(v, m):
    if isinstance(v, FV):
        x = m.fv.get(v.var)
        d = m.path.dom[v.var]
        if x not in d: x = sorted(d, key=lambda z: (str(type(z)), repr(z)))[0]
        return v.tab[x]
    if isinstance(v, Lin): return m.int(v)
    if isinstance(v, (SV, str, bytes)): return concretise(v, m)
    return v


class Want:
    """Obligations of one partition."""
    I = None

    def __init__(self):
        self.proved = 0

    def last(self):
        """The function analysed last: the construct reported where the obligation names none."""
        f = self.I.last_func if self.I else None
        return (f.mod.file, getattr(f.node, 'lineno', 0), f.qual) if f else None

    def eq(self, label, got, exp, where=None):
        try: r = equal(got, exp) if strs.is_str(exp) else self._val(got, exp)
        except Unsupported as e: raise Undecided(f'{label}: {e}')
        if not r: P().sync()
        if not r: raise Fail(label, f'{show(got)} where {show(exp)} is required', where or self.last())
        self.proved += 1

    def _val(self, got, exp):
        if isinstance(got, (FV,)): got = core.force(core.fv_norm(got)) if isinstance(core.fv_norm(got), FV) else core.fv_norm(got)
        if isinstance(exp, (int, Lin)) and not isinstance(exp, bool) and isinstance(got, (int, Lin)) and not isinstance(got, bool):
            return core.eq_int(got, exp)
        if isinstance(got, (int, str, bytes, bool, type(None), float)): return type(got) is type(exp) and got == exp
        if isinstance(got, Inst) or isinstance(exp, Inst): return got is exp
        raise Unsupported(f'comparison of {type(got).__name__}')

    def true(self, label, ok, detail='', where=None):
        if not ok: P().sync()
        if not ok: raise Fail(label, detail() if callable(detail) else detail, where or self.last())
        self.proved += 1

    def ge(self, label, a, b, where=None):
        if not core.le(b, a): raise Fail(label, f'{a} < {b}', where or self.last())
        self.proved += 1


def show(v, n=160):
    s = repr(v)
    return s if len(s) <= n else s[:n] + '…'


def relfile(f):
    from .repo import REPO
    return os.path.relpath(f, REPO) if f and f.startswith(REPO) else f


def fmt_where(w):
    if not w: return '?'
    return f'{relfile(w[0])}:{w[1]} in {w[2]}'


# ---------------------------------------------------------------- running
class Job:
    __slots__ = ('name', 'fn', 'args', 'max_paths', 'time', 'rule')

    def __init__(self, name, fn, *args, max_paths=3000, time=20.0, rule=''):
        self.name, self.fn, self.args, self.max_paths, self.time, self.rule = name, fn, args, max_paths, time, rule


def exc_fail(e):
    args = e.value.d.get('args') if isinstance(e.value, Inst) else ()
    return Fail('aborts', f'{e}{tuple(a if isinstance(a, (str, int)) else show(a, 60) for a in (args or ()))} raised', e.where)


class Acc:
    """Result of the partitions visited by one analyser process."""

    def __init__(self, I):
        self.I = I
        self.res, self.stats, self.seen = {}, Stats(), set()
        self.reset()

    def reset(self):
        self.res.clear()
        self.res.update({'proved': 0, 'undecided': 0, 'unconfirmed': 0, 'single': 0, 'viol': [], 'why': {}, 'decided_paths': 0})
        self.stats.__init__()
        self.known = set(self.I.funcs_seen)

    def dump(self): return self.res, self.stats, self.I.funcs_seen - self.known, self.seen

    def merge(self, x):
        res, st, fs, seen = x
        for k in ('proved', 'undecided', 'unconfirmed', 'single', 'decided_paths'): self.res[k] += res[k]
        for k, v in res['why'].items(): self.res['why'][k] = self.res['why'].get(k, 0) + v
        have = {v['key'] for v in self.res['viol']}
        for v in res['viol']:
            if v['key'] not in have and len(self.res['viol']) < 6:
                have.add(v['key'])
                self.res['viol'].append(v)
        self.stats.merge(st)
        self.I.funcs_seen |= fs
        self.seen |= seen

    def note(self, why):
        self.res['undecided'] += 1
        self.res['why'][why] = self.res['why'].get(why, 0) + 1

    def lost(self): self.note('analyser process lost')

    def error(self, e):
        import traceback
        self.note('engine: ' + repr(e)[:150] + ' '.join(traceback.format_exc().split())[-220:])


def run_job(repo, job, tokens=None, owns=False):
    """-> dict with counts and confirmed violations."""
    I = Want.I = repo.I
    acc = Acc(I)
    st, res, seen = acc.stats, acc.res, acc.seen
    t0 = time.monotonic()

    def one(src):
        w = Want()
        try:
            job.fn(repo, src, w, *job.args)
            return ('ok', w)
        except AExc as e: return ('fail', exc_fail(e), w)
        except Fail as f: return ('fail', f, w)
        except Undecided as u: return ('und', str(u), w)

    cur = {}

    def sym():
        I.stack.clear()
        repo.lib.reset()
        cur['src'] = Src()
        return one(cur['src'])

    def on_path(o):
        src = cur['src']
        if o.kind == 'infeasible': return
        if o.kind == 'cut' and o.why != 'step bound': return
        if o.kind == 'ok' and o.value[0] == 'ok' and not o.path.imp:
            res['proved'] += o.value[1].proved
            res['decided_paths'] += 1
            return
        if o.kind == 'ok' and o.value[0] == 'ok':      # proved on an over-approximation of the partition
            res['proved'] += o.value[1].proved
            res['decided_paths'] += 1
            return
        label = o.value[1].label if o.kind == 'ok' and o.value[0] == 'fail' else None
        fail = o.value[1] if label else None
        key = (label, fail.where[2] if fail and fail.where else None)
        if label and (key in seen and len(seen) > 8 or core.Limit.enough()): return
        why = label or (o.why if o.kind in ('unsupported', 'cut') else o.value[1])
        budget = 4 if label else 1 if o.kind == 'cut' else 6 if res['undecided'] < 12 else 2
        if not label and res['undecided'] > 40: budget = 0
        notes = list(o.path.notes)
        pts = []
        core_saved = core.Ctx.cur
        core.Ctx.cur = o.path
        try:
            for m in (models(o.path, budget, not label) if budget else []):
                try: pts.append({n: point(v, m) for n, v in src.made})
                except (Unsupported, KeyError): pass
        finally: core.Ctx.cur = core_saved

        def later():
            hit = None
            for fx in pts:
                hit = replay(repo, one, fx)
                if hit: break
                if hit is None: res['single'] += 1
            if hit:
                k2 = (hit.label, hit.where[2] if hit.where else None)
                seen.add(key)
                core.Limit.hit()
                if len(res['viol']) < 6 and k2 not in {v['key'] for v in res['viol']}:
                    res['viol'].append({'key': k2, 'label': hit.label, 'detail': hit.detail, 'where': hit.where,
                                        'fixed': {n: jsonable(v) for n, v in fx.items()},
                                        'branches': [f'{fmt_where(w)} [{l} -> {c}]' for l, c, w in notes if w][-6:]})
            else:
                res['undecided'] += 1
                if label: res['unconfirmed'] += 1
                res['why'][str(why)[:120]] = res['why'].get(str(why)[:120], 0) + 1
        return later

    forker = core.Forker(acc, tokens, job.time, job.max_paths, owns)
    core.explore_forked(sym, on_path, forker, st)
    I.stack.clear()
    res['job'] = job.name
    res['stats'] = st.asdict()
    res['wall'] = time.monotonic() - t0
    res['funcs'] = sorted('%s:%s' % x for x in I.funcs_seen)
    return res


ENVS = [dict(seekable=s, tty=t, terminal_width=w, file_position=0) for s, t, w in ((True, False, 80), (False, False, 80), (True, True, 120))]


def replay(repo, one, fx):
    """Derive the scenario again for a singleton abstract state (the environment unknown, or one of some)."""
    for e in (None, *ENVS):
        core.ENV = e
        try: r = replay_in(repo, one, fx)
        finally: core.ENV = None
        if r is not False: return r
    return False


def replay_in(repo, one, fx):
    saved = core.Ctx.cur
    out = []

    def sub():
        repo.I.stack.clear()
        repo.lib.reset()
        return one(Src(fx))
    old = core.J.pure
    core.J.pure = False
    try: outs = explore(sub, max_paths=2, time_limit=20)
    finally:
        core.J.pure = old
        core.Ctx.cur = saved
    if len(outs) != 1: return False
    o = outs[0]
    if o.kind == 'cut' and o.why == 'endless' and not o.path.imp and not o.path.trail:
        return Fail('comes to an end', f'still going on after {o.path.steps} steps for this single state', o.at)
    if o.kind != 'ok' or o.path.imp or len(o.path.trail): return False
    return o.value[1] if o.value[0] == 'fail' else False


def jsonable(v):
    if isinstance(v, bytes): return 'bytes:' + v.hex()
    if isinstance(v, (str, int, bool, type(None), float)): return v
    return repr(v)


def empty(name, why):
    return {'job': name, 'proved': 0, 'undecided': 1, 'unconfirmed': 0, 'single': 0, 'viol': [], 'why': {why: 1}, 'decided_paths': 0, 'stats': Stats().asdict(), 'wall': 0, 'funcs': []}


def run_jobs(repo, jobs, procs=None):
    """All scenarios, at most `procs` analyser processes at a time (scenarios and their partitions share them)."""
    import gc
    import pickle
    import select
    procs = procs or min(8, os.cpu_count() or 1)
    gc.collect()
    gc.freeze()
    gc.disable()
    tr, tw = os.pipe()
    os.set_blocking(tr, False)
    os.write(tw, b'.' * procs)
    try: resource.setrlimit(resource.RLIMIT_AS, (6 << 30, 6 << 30))
    except (ValueError, OSError): pass
    out, todo, running = [], list(enumerate(jobs)), {}

    def drain(block):
        rd, _, _ = select.select(list(running) + ([tr] if block == 'token' else []), [], [])
        for fd in rd:
            if fd == tr: continue
            d = os.read(fd, 1 << 16)
            if d:
                running[fd][2].append(d)
                continue
            pid, i, bufs = running.pop(fd)
            os.close(fd)
            os.waitpid(pid, 0)
            data = b''.join(bufs)
            out.append(pickle.loads(data) if data else empty(jobs[i].name, 'analyser process lost'))
    while todo or running:
        while todo:
            try: got = os.read(tr, 1)
            except BlockingIOError: got = b''
            if not got: break
            if core.Limit.enough():         # nothing more to find out
                os.write(tw, got)
                for i, j in todo: out.append(empty(j.name, 'not visited: enough violations'))
                todo.clear()
                break
            i, job = todo.pop(0)
            r, w = os.pipe()
            pid = os.fork()
            if pid == 0:
                for fd in running: os.close(fd)
                os.close(r)
                try:
                    res = run_job(repo, job, (tr, tw), True)
                    data = pickle.dumps(res)
                    while data: data = data[os.write(w, data):]
                finally: os._exit(0)
            os.close(w)
            running[r] = (pid, i, [])
        if running: drain('token' if todo else '')
    os.close(tr)
    os.close(tw)
    return out
