"""Sparse multivariate polynomials with integer coefficients.

A polynomial is a dict {packed exponent : int}; variable i occupies bits
[B*i, B*(i+1)) of the packed exponent.  Integer order of packed exponents is
lexicographic order, so exact division can use it as the monomial order.
"""
from math import gcd

B = 12
MASK = (1 << B) - 1

ZERO = {}
ONE = {0: 1}


def padd(a, b):
    if len(a) < len(b):
        a, b = b, a
    r = dict(a)
    for k, c in b.items():
        v = r.get(k, 0) + c
        if v:
            r[k] = v
        else:
            del r[k]
    return r


def psub(a, b):
    r = dict(a)
    for k, c in b.items():
        v = r.get(k, 0) - c
        if v:
            r[k] = v
        else:
            del r[k]
    return r


def pscale(a, c):
    if c == 0:
        return {}
    if c == 1:
        return a
    return {k: v * c for k, v in a.items()}


def pneg(a):
    return {k: -v for k, v in a.items()}


def pmul(a, b):
    if not a or not b:
        return {}
    if len(a) > len(b):
        a, b = b, a
    if len(a) == 1:
        (ea, ca), = a.items()
        if ea == 0:
            return pscale(b, ca)
        return {ea + eb: ca * cb for eb, cb in b.items()}
    r = {}
    get = r.get
    bi = list(b.items())
    for ea, ca in a.items():
        for eb, cb in bi:
            k = ea + eb
            r[k] = get(k, 0) + ca * cb
    return {k: v for k, v in r.items() if v}


def ppow(a, n):
    r = ONE
    while n:
        if n & 1:
            r = pmul(r, a)
        n >>= 1
        if n:
            a = pmul(a, a)
    return r


def content(a):
    g = 0
    for v in a.values():
        g = gcd(g, v)
        if g == 1:
            return 1
    return g


def pdivint(a, c):
    if c == 1:
        return a
    return {k: v // c for k, v in a.items()}


def monogcd(a):
    """packed exponent of the gcd monomial"""
    it = iter(a)
    g = next(it, 0)
    for k in it:
        if g == 0:
            return 0
        g = _min_exp(g, k)
    return g


def _min_exp(x, y):
    r = 0
    sh = 0
    while x and y:
        r |= min(x & MASK, y & MASK) << sh
        x >>= B
        y >>= B
        sh += B
    return r


def exps(k):
    """list of (var index, exponent)"""
    r = []
    i = 0
    while k:
        e = k & MASK
        if e:
            r.append((i, e))
        k >>= B
        i += 1
    return r


def pvars(a):
    m = 0
    for k in a:
        m |= k
    return [i for i, _ in exps(m)]


def divides_mono(x, y):
    """x | y for packed monomials"""
    while x:
        if (x & MASK) > (y & MASK):
            return False
        x >>= B
        y >>= B
    return True


def pdivexact(a, b):
    """a / b if the division is exact over Z (b primitive), else None"""
    if not a:
        return {}
    if len(b) == 1:
        (eb, cb), = b.items()
        r = {}
        for k, v in a.items():
            if v % cb or not divides_mono(eb, k):
                return None
            r[k - eb] = v // cb
        return r
    import heapq
    lb = max(b)
    cb = b[lb]
    rest = [(k, v) for k, v in b.items() if k != lb]
    a = dict(a)
    heap = [-k for k in a]
    heapq.heapify(heap)
    q = {}
    while a:
        while True:
            k = -heap[0]
            if k in a:
                break
            heapq.heappop(heap)
        v = a.pop(k)
        heapq.heappop(heap)
        if v % cb or not divides_mono(lb, k):
            return None
        m = k - lb
        c = v // cb
        q[m] = c
        for eb, vb in rest:
            kk = m + eb
            w = a.get(kk)
            if w is None:
                a[kk] = -c * vb
                heapq.heappush(heap, -kk)
            else:
                w -= c * vb
                if w:
                    a[kk] = w
                else:
                    del a[kk]
    return q


def deg(a):
    d = 0
    for k in a:
        s = sum(e for _, e in exps(k))
        if s > d:
            d = s
    return d
