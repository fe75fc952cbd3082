"""C11: the output buffer delivers everything once and in order."""
from .common import *
from ..interp import AExc, Builtin, AList

RULE = ('for every history of attachments and requests: the delivered pieces concatenate to the attached ones, a granted byte request yields exactly the requested bytes, '
        'a granted line request exactly one line, a refused request consumes nothing')
EXPLAIN = ('The segment buffer is derived for segments of symbolic length and content and symbolic request sizes over histories of interleaved attachments and requests; '
           'the delivered pieces are compared with a FIFO specification.')
BOUNDS = 'histories of up to 4 attachments and 6 requests'
MIN_PROVED = 300


class Queue:
    def __init__(self, repo, src):
        self.repo, self.src = repo, src
        core.P().memo['termwidth'] = 80
        repo.lib.handling.clear()
        repo.settings()
        g = repo.get
        self.Segment = g('kolombos.byteio.segment', 'Segment')
        P_ = g('kolombos.byteio.segment', 'SegmentPrinter')
        self.buf = repo.call(g('kolombos.byteio.segment', 'SegmentBuffer'))
        seqs = g('pytermor', 'Seqs')
        self.styles = [repo.attr(seqs, 'RED'), repo.attr(seqs, 'BOLD'), g('pytermor', 'NOOP_SEQ')]
        pr = [repo.call(P_, False, False, Builtin('processed', lambda a, k: repo.attr(a[0], 'processed'))),
              repo.call(P_, False, False, Builtin('raw', lambda a, k: hexes(repo.attr(a[0], 'raw'))))]
        self.printers = AList(pr)
        self.queue = []                     # [(raw, processed)]
        self.k = 0

    def attach(self, items):
        segs = []
        for raw, proc in items:
            segs.append(self.repo.call(self.Segment, self.styles[self.k % 3], 'X', raw, proc))
            self.queue.append((raw, proc))
            self.k += 1
        self.repo.call(self.repo.attr(self.buf, 'attach'), *segs)

    def request(self, kind, *a):
        """-> (processed, hex) or the name of the refusal"""
        try: r = self.repo.call(self.repo.attr(self.buf, kind), *a, self.printers)
        except AExc as e: return e.value.cls.name
        r = self.repo.I.iter_list(r)
        return r[0], r[1]

    def pending(self): return concat(b'', *[r for r, _ in self.queue])

    def take(self, n):
        """Pop n bytes -> expected (processed, hex)"""
        out, hx = '', ''
        while self.queue:
            raw, proc = self.queue[0]
            k = length(raw)
            if le(k, n) and not le(n, 0):
                out, hx = concat(out, proc), concat(hx, hexes(raw))
                n = unlin(lsub(n, k))
                self.queue.pop(0)
                continue
            if le(n, 0): break
            out, hx = concat(out, slice_(proc, 0, n)), concat(hx, hexes(slice_(raw, 0, n)))
            self.queue[0] = (slice_(raw, n, None), slice_(proc, n, None))
            break
        return out, hx

    def take_line(self):
        out, hx = '', ''
        while self.queue:
            raw, proc = self.queue.pop(0)
            out, hx = concat(out, proc), concat(hx, hexes(raw))
            if isinstance(proc, str) and '\n' in proc: break
        return out, hx

    def has_line(self): return any(isinstance(p, str) and '\n' in p for _, p in self.queue)


BYTES = frozenset(range(256))
LETTERS = frozenset('abcde▯')


def same(w, got, exp):
    w.eq('delivered pieces', got[0], exp[0], print_where(P()))
    w.eq('delivered bytes', got[1], exp[1], print_where(P()))


def byte_history(repo, src, w, script, hi):
    """script: a = attach a segment, r = request, f = request after the end of input"""
    q = Queue(repo, src)
    for i, op in enumerate(script):
        if op == 'a':
            raw = src.run(f'raw{i}', BYTES, lo=1, hi=hi)
            n = length(raw)
            q.attach([(raw, src.run(f'proc{i}', LETTERS, n, kind='s'))])
            continue
        req = src.int(f'req{i}', 1)
        n = length(q.pending())
        got = q.request('detach_bytes', req, op == 'f')
        if le(req, n):
            w.true('request within the queue is granted', isinstance(got, tuple), f'{got} raised')
            same(w, got, q.take(req))
            w.eq('reported length', repo.attr(q.buf, 'last_detached_data_len'), req)
        elif op == 'f' and not le(n, 0):
            w.true('the rest is delivered at the end of input', isinstance(got, tuple), f'{got} raised')
            same(w, got, q.take(n))
            w.eq('reported length', repo.attr(q.buf, 'last_detached_data_len'), n)
        elif op == 'f': w.true('the end is reported when the queue is empty', got == 'EOFError', f'{got}')
        else: w.true('nothing is delivered before enough is queued', got in ('WaitRequest', 'EOFError'), f'{got}')
        w.eq('nothing lost or repeated', repo.attr(q.buf, 'data_len'), length(q.pending()))


KINDS_L = {'t': lambda src, i: (src.run(f'raw{i}', BYTES, lo=1, hi=3), src.run(f'proc{i}', LETTERS, lo=0, hi=3, kind='s')),      # text
           'm': lambda src, i: (b'\x1b', 'ǝ'), 'd': lambda src, i: (b'', src.run(f'proc{i}', LETTERS, lo=1, hi=3, kind='s')),      # marker, details / separator
           'n': lambda src, i: (b'\n', '↵\n'), 'N': lambda src, i: (b'\n', '×\n')}


def line_history(repo, src, w, script):
    """Letters t m d n attach (grouped by commas into one call each), r = line request, f = after the end of input."""
    q = Queue(repo, src)
    for i, part in enumerate(script.split(',')):
        if part not in ('r', 'f'):
            q.attach([KINDS_L[c](src, f'{i}_{j}') for j, c in enumerate(part)])
            continue
        got = q.request('detach_line', part == 'f')
        if q.has_line() or part == 'f' and q.queue:
            w.true('a complete line is delivered', isinstance(got, tuple), f'{got} raised')
            same(w, got, q.take_line())
        elif part == 'f': w.true('the end is reported when the queue is empty', got == 'EOFError', f'{got}')
        else: w.true('nothing is delivered before a line is complete', got in ('WaitRequest', 'EOFError'), f'{got}')
        w.eq('nothing lost or repeated', repo.attr(q.buf, 'data_len'), length(q.pending()))


def jobs(repo, tier):
    js = [Job(f'bytes {s}', byte_history, s, None if len(s) < 5 else 4, time=10) for s in ('arf', 'aarf', 'arrff', 'aarrff', 'araff', 'ararff', 'aaarrrff', 'raraff', 'f', 'afff', 'aafff')]
    js += [Job(f'lines {s}', line_history, s, time=10) for s in (
        'f', 'r,f', 'tn,r,f', 't,r,f,f', 'tntn,r,r,f', 't,r,n,r,f', 'tdn,r,f', 'tmd,f,f', 'dmd,f', 'tndmd,r,f,f', 'dmdn,dmd,r,r,f', 'nn,r,r,f', 'ndmd,r,r,f,f', 'NtNd,r,r', 'tnt,f,f,f', 'mdd,f,f', 'nmd,t,r,f,f')]
    if tier == 'thorough':
        import itertools
        js += [Job('thorough bytes a' + ''.join(s), byte_history, 'a' + ''.join(s) + 'ff', 4, time=60) for s in itertools.product('ar', repeat=4)]
        js += [Job('thorough lines ' + a + ',r,' + b + ',r,f,f,f', line_history, a + ',r,' + b + ',r,f,f,f', time=60) for a in ('t', 'mdn', 'tn', 'nt', 'dmd', 'nn') for b in ('tn', 'n', 'dmd', 'ntn', 'mddn')]
    return js
