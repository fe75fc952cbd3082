"""C36: values spread over a line fill it exactly, in order and evenly, and stay the caller's."""
from .presets import *
from ..num import Lin, L, unlin
from ..core import lt, le
from ..strs import Run

RULE = ('the derived line consists of the values in their order with blanks between them (also in front / behind on request), it has exactly the requested length, neighbouring gaps differ by at most one blank and none is '
        'empty; a line too short for one blank per gap is refused with ValueError; the list passed in is left as it was')
EXPLAIN = 'Derived for values of unknown text and length and an unknown line length; gaps are the quotients of the remaining blanks, decided per residue.'
BOUNDS = 'up to six (thorough: ten) values (plus the outer padding) of any length, any line length'
MIN_PROVED = 40


def spread_(repo, src, w, n, before, after, slack):
    Lib(repo)
    f = repo.get('pytermor.render', 'distribute_padded')
    wh = (f.mod.file, f.node.lineno, f.qual)
    vals = [src.run(f'v{i}', list('abcdefghijklmnopqrstuvwxyz'), kind='s', lo=1, hi=None) for i in range(n)]
    total = L(0)
    for v in vals: total = total.add(L(strs.length(v)))
    gaps = n - 1 + before + after
    free = src.int('free', -3, slack) if slack is not None else src.int('free', -3)
    width = unlin(total.add(L(free)))
    lst = AList(list(vals))
    kw = {}
    if before: kw['pad_before'] = True
    if after: kw['pad_after'] = True
    try: t = repo.call(f, lst, width, **kw)
    except AExc as e:
        w.eq('refused with ValueError', e.value.cls.name, 'ValueError', wh)
        w.ge('refused only when there is no room', gaps - 1, unlin(L(free)), wh)
    else:
        w.ge('refused when there is no room', unlin(L(free)), gaps, wh)
        w.eq('exactly as long as the line', strs.length(t), width, wh)
        gs, vs = decode(t)
        w.true('every value apart from the next', len(vs) == n, lambda: f'{len(vs)} words of {n} values in {t!r}', wh)
        for i, (x, v) in enumerate(zip(vs, vals)): w.eq('values complete and in order', x, v, wh)
        if not before: w.eq('nothing in front of the first value', gs[0], 0, wh)
        if not after and n > 1: w.eq('nothing behind the last value', gs[-1], 0, wh)
        inner = gs[(0 if before else 1):(None if after else -1)]
        for a in inner:
            w.ge('at least one blank per gap', a, 1, wh)
            for b in inner: w.ge('gaps differ by one blank at most', unlin(L(b).sub(L(a)).add(1)), 0, wh)
    w.true('the list passed in is left as it was', len(lst.v) == n and all(a is b for a, b in zip(lst.v, vals)), lambda: f'{n} values became {len(lst.v)}', wh)


def decode(t):
    """(lengths of the gaps, words) of a line; gaps[i] precedes words[i]"""
    gs, vs, cur = [0], [], []
    def flush():
        if cur:
            vs.append(concat('', *cur))
            gs.append(0)
            cur.clear()
    for q in strs.sv(t).parts:
        if isinstance(q, strs.Lit):
            for c in q.v:
                if c == ' ':
                    flush()
                    gs[-1] = unlin(L(gs[-1]).add(1))
                else: cur.append(c)
        elif isinstance(q, strs.Rep) and q.u == ' ':
            if core.eq_int(L(q.n), 0): continue
            flush()
            gs[-1] = unlin(L(gs[-1]).add(L(q.n)))
        elif isinstance(q, Run): cur.append(strs.mk('s', [q]))
        else: raise Undecided('piece of an unknown shape')
    flush()
    return gs, vs


def jobs(repo, tier):
    js = []
    for n in range(1, 7 if tier == "quick" else 11):
        for b in (0, 1):
            for a in (0, 1): js.append(Job(f'{n} values{" before" * b}{" after" * a}', spread_, n, b, a, None, time=40))
    return js
