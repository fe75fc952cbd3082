"""Library classes in terms of simpler ones; read by the engine like the analysed code, never imported."""


class bytearray_(bytearray):
    def __init__(self, source=b'', *args):
        self._b = bytes(source, *args)

    def __bytes__(self): return self._b
    def __len__(self): return len(self._b)
    def __iter__(self): return iter(self._b)
    def __bool__(self): return len(self._b) > 0
    def __eq__(self, other): return self._b == (other if isinstance(other, bytes) else bytes(other) if isinstance(other, bytearray) else None)
    def __ne__(self, other): return not self == other
    def __contains__(self, x): return x in self._b
    def __add__(self, other): return bytearray_(self._b + bytes(other))
    def __radd__(self, other): return other + self._b
    def __mul__(self, n): return bytearray_(self._b * n)
    def __repr__(self): return 'bytearray(' + repr(self._b) + ')'
    def __str__(self): return 'bytearray(' + repr(self._b) + ')'

    def __iadd__(self, other):
        self._b = self._b + bytes(other)
        return self

    def __imul__(self, n):
        self._b = self._b * n
        return self

    def __getitem__(self, i):
        if isinstance(i, slice): return bytearray_(self._b[i])
        return self._b[i]

    def __setitem__(self, i, v):
        if isinstance(i, slice):
            if i.step is not None: raise NotImplementedError
            head = self._b[:i.start] if i.start is not None else b''
            tail = self._b[i.stop:] if i.stop is not None else b''
            if len(head) + len(tail) > len(self._b): tail = self._b[len(head):]
            self._b = head + bytes(v) + tail
            return
        if i < 0: i = i + len(self._b)
        if not 0 <= i < len(self._b): raise IndexError('bytearray index out of range')
        self._b = self._b[:i] + bytes([v]) + self._b[i + 1:]

    def __delitem__(self, i):
        if isinstance(i, slice): self[i] = b''
        else: self.pop(i)

    def append(self, x): self._b = self._b + bytes([x])
    def extend(self, xs): self._b = self._b + bytes(xs)
    def clear(self): self._b = b''
    def copy(self): return bytearray_(self._b)
    def reverse(self): self._b = self._b[::-1]
    def insert(self, i, x): self._b = self._b[:i] + bytes([x]) + self._b[i:]

    def pop(self, i=-1):
        if len(self._b) == 0: raise IndexError('pop from empty bytearray')
        if i < 0: i = i + len(self._b)
        if not 0 <= i < len(self._b): raise IndexError('pop index out of range')
        x = self._b[i]
        self._b = self._b[:i] + self._b[i + 1:]
        return x

    def decode(self, *a, **k): return self._b.decode(*a, **k)
    def hex(self, *a): return self._b.hex(*a)
    def find(self, *a): return self._b.find(*a)
    def rfind(self, *a): return self._b.rfind(*a)
    def index(self, *a): return self._b.index(*a)
    def count(self, *a): return self._b.count(*a)
    def startswith(self, *a): return self._b.startswith(*a)
    def endswith(self, *a): return self._b.endswith(*a)
    def strip(self, *a): return bytearray_(self._b.strip(*a))
    def lstrip(self, *a): return bytearray_(self._b.lstrip(*a))
    def rstrip(self, *a): return bytearray_(self._b.rstrip(*a))
    def replace(self, *a): return bytearray_(self._b.replace(*a))
    def join(self, xs): return bytearray_(self._b.join(xs))


class _IO:
    def __init__(self, initial=None):
        self._v = self._empty if initial is None else initial
        self._p = 0
        self.closed = False

    def write(self, s):
        self._v = self._v[:self._p] + s + self._v[self._p + len(s):]
        self._p = self._p + len(s)
        return len(s)

    def writelines(self, xs):
        for x in xs: self.write(x)

    def getvalue(self): return self._v

    def read(self, n=-1):
        r = self._v[self._p:] if n is None or n < 0 else self._v[self._p:self._p + n]
        self._p = self._p + len(r)
        return r

    def readline(self):
        i = self._v.find(self._nl, self._p)
        r = self._v[self._p:] if i < 0 else self._v[self._p:i + 1]
        self._p = self._p + len(r)
        return r

    def readlines(self): return list(self)

    def __iter__(self):
        while True:
            x = self.readline()
            if not x: return
            yield x

    def seek(self, p, whence=0):
        self._p = p if whence == 0 else self._p + p if whence == 1 else len(self._v) + p
        return self._p

    def tell(self): return self._p
    def flush(self): pass
    def close(self): self.closed = True
    def isatty(self): return False
    def readable(self): return True
    def writable(self): return True
    def seekable(self): return True
    def __enter__(self): return self
    def __exit__(self, *a): self.close()

    def truncate(self, n=None):
        n = self._p if n is None else n
        self._v = self._v[:n]
        return n


class StringIO(_IO):
    _empty = ''
    _nl = '\n'
    encoding = None


class BytesIO(_IO):
    _empty = b''
    _nl = b'\n'
    def getbuffer(self): return self._v


class Counter(dict):
    def __init__(self, it=(), **kw):
        super().__init__()
        self.update(it, **kw)

    def __missing__(self, k): return 0

    def update(self, it=(), **kw):
        if isinstance(it, dict):
            for k, v in it.items(): self[k] = self.get(k, 0) + v
        else:
            for k in it: self[k] = self.get(k, 0) + 1
        for k, v in kw.items(): self[k] = self.get(k, 0) + v

    def most_common(self, n=None):
        r = sorted(self.items(), key=lambda x: -x[1])
        return r if n is None else r[:n]

    def elements(self):
        for k, v in self.items():
            for _ in range(v): yield k

    def total(self): return sum(self.values())


def bisect_left(a, x, lo=0, hi=None, *, key=None):
    hi = len(a) if hi is None else hi
    while lo < hi:
        mid = (lo + hi) // 2
        if (a[mid] if key is None else key(a[mid])) < x: lo = mid + 1
        else: hi = mid
    return lo


def bisect_right(a, x, lo=0, hi=None, *, key=None):
    hi = len(a) if hi is None else hi
    while lo < hi:
        mid = (lo + hi) // 2
        if x < (a[mid] if key is None else key(a[mid])): hi = mid
        else: lo = mid + 1
    return lo


def insort(a, x): a.insert(bisect_right(a, x), x)
def insort_left(a, x): a.insert(bisect_left(a, x), x)


def tee(it, n=2):
    items = list(it)
    return tuple(iter(list(items)) for _ in range(n))


def batched(it, n):
    row = []
    for x in it:
        row.append(x)
        if len(row) == n:
            yield tuple(row)
            row = []
    if row: yield tuple(row)
