"""Sets of unsigned integers as sorted disjoint closed intervals (the value-set domain of one atom)."""
import numpy as np


class Dom:
    __slots__ = ('s', 'e', '_n', '_h')

    def __init__(self, s, e):
        # lists (small) or numpy int64/uint64-in-object arrays; we keep python lists for <=SMALL, numpy otherwise
        self.s = s
        self.e = e
        self._n = None
        self._h = None

    @staticmethod
    def rng(lo, hi):
        if lo > hi:
            return EMPTY
        return Dom([lo], [hi])

    @staticmethod
    def one(v):
        return Dom([v], [v])

    @staticmethod
    def of(values):
        vs = sorted(set(int(v) for v in values))
        s = []
        e = []
        for v in vs:
            if e and e[-1] + 1 == v:
                e[-1] = v
            else:
                s.append(v); e.append(v)
        return Dom(s, e)

    @staticmethod
    def ivs(pairs):
        """from (lo,hi) pairs, any order, may overlap/touch"""
        ps = sorted((a, b) for a, b in pairs if a <= b)
        s = []
        e = []
        for a, b in ps:
            if e and a <= e[-1] + 1:
                if b > e[-1]: e[-1] = b
            else:
                s.append(a); e.append(b)
        return Dom(s, e)

    @staticmethod
    def mask(m, base=0):
        """from a numpy bool array: m[i] says base+i is in the set"""
        d = np.diff(np.concatenate(([0], m.view(np.int8), [0])))
        s = np.flatnonzero(d == 1)
        e = np.flatnonzero(d == -1) - 1
        return Dom((s + base).tolist(), (e + base).tolist())

    def __bool__(self):
        return len(self.s) > 0

    @property
    def lo(self):
        return self.s[0]

    @property
    def hi(self):
        return self.e[-1]

    @property
    def n(self):
        if self._n is None:
            self._n = sum(self.e) - sum(self.s) + len(self.s)
        return self._n

    def single(self):
        return len(self.s) == 1 and self.s[0] == self.e[0]

    def key(self):
        return (tuple(self.s), tuple(self.e))

    def __eq__(self, o):
        return isinstance(o, Dom) and self.s == o.s and self.e == o.e

    def __hash__(self):
        if self._h is None:
            self._h = hash((tuple(self.s), tuple(self.e)))
        return self._h

    def __and__(self, o):
        if self is o:
            return self
        As, Ae, Bs, Be = self.s, self.e, o.s, o.e
        na, nb = len(As), len(Bs)
        if not na or not nb or As[0] > Be[-1] or Bs[0] > Ae[-1]:
            return EMPTY
        if nb == 1:
            if Bs[0] <= As[0] and Be[0] >= Ae[-1]:
                return self
        if na == 1:
            if As[0] <= Bs[0] and Ae[0] >= Be[-1]:
                return o
        # gallop to the overlapping windows first
        from bisect import bisect_left, bisect_right
        if na > 8 or nb > 8:
            ia = bisect_left(Ae, Bs[0]); ja = bisect_right(As, Be[-1])
            ib = bisect_left(Be, As[0]); jb = bisect_right(Bs, Ae[-1])
        else:
            ia, ja, ib, jb = 0, na, 0, nb
        rs = []
        re = []
        while ia < ja and ib < jb:
            a0 = As[ia]; a1 = Ae[ia]; b0 = Bs[ib]; b1 = Be[ib]
            lo = a0 if a0 > b0 else b0
            hi = a1 if a1 < b1 else b1
            if lo <= hi:
                rs.append(lo); re.append(hi)
            if a1 < b1: ia += 1
            else: ib += 1
        return Dom(rs, re) if rs else EMPTY

    def inv(self, w):
        """complement in [0, 2^w)"""
        top = (1 << w) - 1
        rs = []
        re = []
        p = 0
        for a, b in zip(self.s, self.e):
            if a > p:
                rs.append(p); re.append(a - 1)
            p = b + 1
        if p <= top:
            rs.append(p); re.append(top)
        return Dom(rs, re)

    def __sub__(self, o):
        if not o.s:
            return self
        return self & o.inv(64 if max(self.hi if self.s else 0, o.hi) >= (1 << 32) else 32)

    def __or__(self, o):
        if not self.s: return o
        if not o.s: return self
        return Dom.ivs(list(zip(self.s, self.e)) + list(zip(o.s, o.e)))

    def __contains__(self, v):
        from bisect import bisect_left
        i = bisect_left(self.e, v)
        return i < len(self.s) and self.s[i] <= v

    def subset(self, o):
        return not (self - o)

    def points(self):
        """numpy uint64 array of all members"""
        if len(self.s) == 1:
            return np.arange(self.s[0], self.e[0] + 1, dtype=np.uint64)
        return np.concatenate([np.arange(a, b + 1, dtype=np.uint64) for a, b in zip(self.s, self.e)]) if self.s else np.zeros(0, np.uint64)

    def __iter__(self):
        for a, b in zip(self.s, self.e):
            yield from range(a, b + 1)

    def show(self, k=4, hexa=True):
        f = (lambda v: '%X' % v) if hexa else str
        ps = [f(a) if a == b else '%s..%s' % (f(a), f(b)) for a, b in list(zip(self.s, self.e))[:k]]
        if len(self.s) > k:
            ps.append('... (%d values)' % self.n)
        return '{' + ', '.join(ps) + '}'

    __repr__ = show


EMPTY = Dom([], [])
_full = {}


def full(w):
    r = _full.get(w)
    if r is None:
        r = _full[w] = Dom([0], [(1 << w) - 1])
    return r
