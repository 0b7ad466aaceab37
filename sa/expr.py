"""Hash-consed bit-vector expressions over atoms, with linear normal form, intervals and tabulation."""
import numpy as np
from dom import Dom, EMPTY, full

ENUM_MAX = 0x110000      # atoms with at most this many interesting values can be tabulated
NOATOMS = frozenset()


class Undecided(Exception):
    pass


class E:
    __slots__ = ('op', 'w', 'a', 'id', 'atoms', '_ts')

    def __repr__(self):
        return show(self)

    def __lt__(self, o):
        return self.id < o.id


_tab = {}
_next = [0]


def mk(op, w, a, atoms):
    k = (op, w, a)
    r = _tab.get(k)
    if r is None:
        r = E()
        r.op = op; r.w = w; r.a = a; r.atoms = atoms
        r.id = _next[0]; _next[0] += 1
        r._ts = None
        _tab[k] = r
    return r


def un(*es):
    s = es[0].atoms
    for e in es[1:]:
        if e.atoms is not s and e.atoms:
            s = s | e.atoms if s else e.atoms
    return s


_cc = {}


def C(v, w):
    v &= (1 << w) - 1
    r = _cc.get((v, w))
    if r is None:
        r = _cc[(v, w)] = mk('c', w, (v,), NOATOMS)
    return r


class Atom:
    """name; w; dom = initial domain; kind: free text ('cp','byte','len','off','opaque'...)"""
    __slots__ = ('name', 'w', 'dom', 'kind', 'id', 'node', 'info')
    _n = 0

    def __init__(self, name, w, dom=None, kind='', info=None):
        Atom._n += 1
        self.id = Atom._n
        self.name = name
        self.w = w
        self.dom = dom if dom is not None else full(w)
        self.kind = kind
        self.info = info
        self.node = mk('v', w, (self,), frozenset((self,)))

    def __repr__(self):
        return '%s#%d' % (self.name, self.id)


T = C(1, 1)
F = C(0, 1)


def isc(e):
    return e.op == 'c'


def cv(e):
    return e.a[0]


def sgn(v, w):
    return v - (1 << w) if v >> (w - 1) else v


# ------------------------------------------------------------------ linear form
def linparts(e):
    """(const, {node: coef}) with e == const + sum coef*node (mod 2^w)"""
    if e.op == 'c':
        return e.a[0], {}
    if e.op == 'lin':
        return e.a[0], dict(e.a[1])
    return 0, {e: 1}


def mklin(w, c, d):
    m = (1 << w) - 1
    c &= m
    items = []
    for n, k in d.items():
        k &= m
        if k:
            items.append((n, k))
    if not items:
        return C(c, w)
    if len(items) == 1 and c == 0 and items[0][1] == 1:
        return items[0][0]
    items.sort(key=lambda x: x[0].id)
    return mk('lin', w, (c, tuple(items)), un(*[n for n, _ in items]))


def add(a, b):
    if a.op == 'c' and a.a[0] == 0: return b
    if b.op == 'c' and b.a[0] == 0: return a
    if a.op == 'c' and b.op == 'c': return C(a.a[0] + b.a[0], a.w)
    c1, d1 = linparts(a)
    c2, d2 = linparts(b)
    for n, k in d2.items():
        d1[n] = d1.get(n, 0) + k
    return mklin(a.w, c1 + c2, d1)


def scale(a, k):
    if a.op == 'c': return C(a.a[0] * k, a.w)
    c, d = linparts(a)
    return mklin(a.w, c * k, {n: x * k for n, x in d.items()})


def sub(a, b):
    return add(a, scale(b, -1))


def mul(a, b):
    if a.op == 'c': return scale(b, a.a[0])
    if b.op == 'c': return scale(a, b.a[0])
    if b.id < a.id: a, b = b, a
    return mk('mul', a.w, (a, b), un(a, b))


# ------------------------------------------------------------------ bitwise
def _bitc(op, a, b):
    if op == 'and': return a & b
    if op == 'or': return a | b
    return a ^ b


def bitop(op, a, b):
    w = a.w
    if a.op == 'c' and b.op == 'c':
        return C(_bitc(op, a.a[0], b.a[0]), w)
    if a.op == 'c': a, b = b, a
    if b.op == 'c':
        k = b.a[0]
        m = (1 << w) - 1
        if op == 'and':
            if k == 0: return b
            if k == m: return a
            if a.op == 'and' and a.a[1].op == 'c':
                return bitop('and', a.a[0], C(a.a[1].a[0] & k, w))
            if a.op == 'zext':
                sw = a.a[0].w
                if k & ((1 << sw) - 1) == (1 << sw) - 1: return a
                return zext(bitop('and', a.a[0], C(k, sw)), w)
            if a.op == 'lin' and k & (k + 1) == 0:
                c, d = linparts(a)
                if c > k or any(x > k for x in d.values()):     # only the low bits of each term matter
                    return bitop('and', mklin(w, c & k, {n: x & k for n, x in d.items()}), b)
            if a.op == 'cat' and k in (0xff,):
                return zext(a.a[0], w) if a.a[0].w == 8 else mk('and', w, (a, b), a.atoms)
        elif op == 'or':
            if k == 0: return a
            if k == m: return b
        else:
            if k == 0: return a
            if w == 1:
                return bnot(a)
    if a is b:
        return a if op in ('and', 'or') else C(0, w)
    if w == 1 and op == 'and' and bnot(a) is b: return F
    if w == 1 and op == 'or' and bnot(a) is b: return T
    if b.op != 'c' and b.id < a.id: a, b = b, a
    return mk(op, w, (a, b), un(a, b))


NEG = {'eq': 'ne', 'ne': 'eq', 'ult': 'uge', 'uge': 'ult', 'ugt': 'ule', 'ule': 'ugt', 'slt': 'sge', 'sge': 'slt', 'sgt': 'sle', 'sle': 'sgt'}
SWAP = {'eq': 'eq', 'ne': 'ne', 'ult': 'ugt', 'ugt': 'ult', 'uge': 'ule', 'ule': 'uge', 'slt': 'sgt', 'sgt': 'slt', 'sge': 'sle', 'sle': 'sge'}


def bnot(a):
    if a.op == 'c': return C(1 - a.a[0], 1)
    if a.op == 'icmp': return mk('icmp', 1, (NEG[a.a[0]], a.a[1], a.a[2]), a.atoms)
    if a.op == 'not': return a.a[0]
    return mk('not', 1, (a,), a.atoms)


def shl(a, b):
    w = a.w
    if b.op == 'c':
        if b.a[0] >= w: return C(0, w)
        return scale(a, 1 << b.a[0])
    return mk('shl', w, (a, b), un(a, b))


def lshr(a, b):
    w = a.w
    if b.op == 'c':
        k = b.a[0]
        if k == 0: return a
        if k >= w: return C(0, w)
        if a.op == 'c': return C(a.a[0] >> k, w)
        if a.op == 'lshr' and a.a[1].op == 'c':
            return lshr(a.a[0], C(a.a[1].a[0] + k, w))
        if a.op == 'zext':
            sw = a.a[0].w
            if k >= sw: return C(0, w)
            return zext(lshr(a.a[0], C(k, sw)), w)
        if a.op == 'cat' and k % 8 == 0 and all(x.w == 8 for x in a.a):
            return zext(cat(list(a.a[k // 8:])), w)
    elif a.op == 'c' and a.a[0] == 0:
        return a
    return mk('lshr', w, (a, b), un(a, b))


def ashr(a, b):
    w = a.w
    if b.op == 'c' and a.op == 'c':
        return C(sgn(a.a[0], w) >> min(b.a[0], w - 1), w)
    if b.op == 'c' and b.a[0] == 0: return a
    if a.op == 'zext': return lshr(a, b)
    return mk('ashr', w, (a, b), un(a, b))


def udiv(a, b):
    if a.op == 'c' and b.op == 'c' and b.a[0]: return C(a.a[0] // b.a[0], a.w)
    if b.op == 'c':
        k = b.a[0]
        if k == 1: return a
        if k & (k - 1) == 0 and k: return lshr(a, C(k.bit_length() - 1, a.w))
    return mk('udiv', a.w, (a, b), un(a, b))


def urem(a, b):
    if a.op == 'c' and b.op == 'c' and b.a[0]: return C(a.a[0] % b.a[0], a.w)
    if b.op == 'c':
        k = b.a[0]
        if k & (k - 1) == 0 and k: return bitop('and', a, C(k - 1, a.w))
    return mk('urem', a.w, (a, b), un(a, b))


def sdivrem(op, a, b):
    w = a.w
    if a.op == 'c' and b.op == 'c' and b.a[0]:
        x, y = sgn(a.a[0], w), sgn(b.a[0], w)
        q = abs(x) // abs(y)
        if (x < 0) != (y < 0): q = -q
        return C(q if op == 'sdiv' else x - q * y, w)
    if a.op == 'zext' and b.op == 'c' and sgn(b.a[0], w) > 0:
        return udiv(a, b) if op == 'sdiv' else urem(a, b)
    if op == 'sdiv' and b.op == 'c' and a.op == 'lin':
        # exact linear division (pointer differences are multiples of the element size; LLVM marks them exact)
        k = b.a[0]
        c, d = linparts(a)
        if k and sgn(c, w) % k == 0 and all(sgn(x, w) % k == 0 for x in d.values()):
            return mklin(w, sgn(c, w) // k, {n: sgn(x, w) // k for n, x in d.items()})
    return mk(op, w, (a, b), un(a, b))


def zext(a, w):
    if a.w == w: return a
    if a.op == 'c': return C(a.a[0], w)
    if a.op == 'zext': return zext(a.a[0], w)
    if a.op == 'cat' and w % 8 == 0 and w // 8 <= 8 and a.a[-1].w == 8:
        pass
    return mk('zext', w, (a,), a.atoms)


def sext(a, w):
    if a.w == w: return a
    if a.op == 'c': return C(sgn(a.a[0], a.w), w)
    if a.op == 'zext': return zext(a.a[0], w)
    if a.op == 'sext': return sext(a.a[0], w)
    return mk('sext', w, (a,), a.atoms)


def trunc(a, w):
    if a.w == w: return a
    if a.op == 'c': return C(a.a[0], w)
    if a.op in ('zext', 'sext'):
        sw = a.a[0].w
        if sw == w: return a.a[0]
        if sw > w: return trunc(a.a[0], w)
        return zext(a.a[0], w) if a.op == 'zext' else sext(a.a[0], w)
    if a.op == 'trunc': return trunc(a.a[0], w)
    if a.op == 'lin':
        # truncation distributes over +
        c, d = linparts(a)
        r = {}
        for n, k in d.items():
            t = trunc(n, w)
            tc, td = linparts(t)
            c += tc * k
            for x, y in td.items():
                r[x] = r.get(x, 0) + y * k
        return mklin(w, c, r)
    if a.op in ('and', 'or', 'xor'):
        return bitop(a.op, trunc(a.a[0], w), trunc(a.a[1], w))
    if a.op == 'mul':
        return mul(trunc(a.a[0], w), trunc(a.a[1], w))
    if a.op == 'cat' and w % 8 == 0 and all(x.w == 8 for x in a.a):
        return cat(list(a.a[:w // 8]))
    if a.op == 'sel':
        return sel(a.a[0], trunc(a.a[1], w), trunc(a.a[2], w))
    if a.op == 'ld' and w % 8 == 0:
        return ld(a.a[0], a.a[1], w // 8)
    return mk('trunc', w, (a,), a.atoms)


def cat(bs):
    """little-endian concatenation of byte expressions"""
    if len(bs) == 1: return bs[0]
    w = 8 * len(bs)
    if all(b.op == 'c' for b in bs):
        return C(sum(b.a[0] << (8 * i) for i, b in enumerate(bs)), w)
    # bytes of one value, in order
    src = bytesrc(bs[0])
    if src is not None and src[1] == 0:
        x = src[0]
        if x.w >= w and all(bytesrc(b) == (x, i) for i, b in enumerate(bs)):
            return trunc(x, w)
        n = x.w // 8
        if x.w % 8 == 0 and n < len(bs) and all(bytesrc(b) == (x, i) for i, b in enumerate(bs[:n])) \
                and all(b.op == 'c' and b.a[0] == 0 for b in bs[n:]):
            return zext(x, w)
    # consecutive table bytes
    if all(b.op == 'ld' and b.w == 8 and b.a[0] is bs[0].a[0] for b in bs):
        o = bs[0].a[1]
        if all(sub(b.a[1], o) is C(i, o.w) for i, b in enumerate(bs)):
            return ld(bs[0].a[0], o, len(bs))
    k = len(bs)
    while k > 1 and bs[k - 1].op == 'c' and bs[k - 1].a[0] == 0:
        k -= 1
    if k < len(bs):
        return zext(cat(bs[:k]), w)
    return mk('cat', w, tuple(bs), un(*bs))


def bytesrc(b):
    """(x, i) when b is byte i of x"""
    if b.op == 'byte':
        return b.a
    return None


def byte(x, i):
    """byte i of x"""
    if x.w == 8 and i == 0: return x
    if x.op == 'c': return C(x.a[0] >> (8 * i), 8)
    if x.op == 'zext':
        if x.a[0].w <= 8 * i: return C(0, 8)
        if x.a[0].w % 8 == 0: return byte(x.a[0], i)
        if x.a[0].w < 8: return zext(x.a[0], 8)
    if x.op == 'sext' and x.a[0].w == 1: return sext(x.a[0], 8)
    if x.op in ('and', 'or', 'xor') and any(y.op == 'cat' and y.a[0].w == 8 for y in x.a) and all(y.op in ('cat', 'c') for y in x.a):
        return bitop(x.op, byte(x.a[0], i), byte(x.a[1], i))
    if x.op == 'cat' and x.a[0].w == 8:
        return x.a[i]
    if x.op == 'ld':
        return ld(x.a[0], add(x.a[1], C(i, x.a[1].w)), 1)
    if x.w < 8:
        return zext(x, 8)
    return mk('byte', 8, (x, i), x.atoms)


def sel(c, a, b):
    if c.op == 'c': return a if c.a[0] else b
    if a is b: return a
    if a.w == 1:
        if a is T: return bitop('or', c, b)
        if b is F: return bitop('and', c, a)
        if a is F: return bitop('and', bnot(c), b)
        if b is T: return bitop('or', bnot(c), a)
    return mk('sel', a.w, (c, a, b), un(c, a, b))


def ld(tab, off, size):
    """value of `size` bytes at byte offset `off` of constant table `tab` (Table)"""
    if off.op == 'c':
        o = off.a[0]
        if o + size > len(tab.data) or o < 0:
            return mk('v', 8 * size, (Atom('oob(%s+%d)' % (tab.name, o), 8 * size, kind='oob'),), NOATOMS)
        return C(int.from_bytes(tab.data[o:o + size], 'little'), 8 * size)
    return mk('ld', 8 * size, (tab, off, size), off.atoms)


class Table:
    """constant bytes"""
    def __init__(self, name, data):
        self.name = name
        self.data = bytes(data)
        self.np = np.frombuffer(self.data, dtype=np.uint8)

    def gather(self, off, size):
        ok = off + np.uint64(size) <= np.uint64(len(self.np))
        o = np.where(ok, off, 0).astype(np.int64)
        r = np.zeros(len(off), np.uint64)
        if len(self.np) >= size:
            for i in range(size):
                r |= self.np[o + i].astype(np.uint64) << np.uint64(8 * i)
        return r

    def __repr__(self):
        return self.name


def icmp(pred, a, b):
    w = a.w
    if a.op == 'c' and b.op == 'c':
        x, y = a.a[0], b.a[0]
        if pred[0] == 's':
            x, y = sgn(x, w), sgn(y, w)
        p = pred[-2:]
        r = (x == y if p == 'eq' else x != y if p == 'ne' else x < y if p == 'lt' else x <= y if p == 'le' else x > y if p == 'gt' else x >= y)
        return T if r else F
    if a is b:
        return T if pred in ('eq', 'ule', 'uge', 'sle', 'sge') else F
    if a.op == 'c':
        a, b, pred = b, a, SWAP[pred]
    if b.op == 'c':
        k = b.a[0]
        m = (1 << w) - 1
        if pred == 'ult':
            if k == 0: return F
            if k == 1: pred, k = 'eq', 0
        elif pred == 'uge':
            if k == 0: return T
            if k == 1: pred, k = 'ne', 0
        elif pred == 'ugt':
            if k == m: return F
            pred, k = 'uge', k + 1
            return icmp('uge', a, C(k, w))
        elif pred == 'ule':
            if k == m: return T
            return icmp('ult', a, C(k + 1, w))
        elif pred == 'sgt':
            if k == m >> 1: return F
            return icmp('sge', a, C(k + 1, w))
        elif pred == 'sle':
            if k == m >> 1: return T
            return icmp('slt', a, C(k + 1, w))
        b = C(k, w)
        if a.op == 'sext' and a.a[0].w == 1:
            hi = icmp(pred, C(m, w), b); lo = icmp(pred, C(0, w), b)
            return hi if hi is lo else a.a[0] if hi is T else bnot(a.a[0])
        if a.op == 'zext':
            sw = a.a[0].w
            if k < (1 << sw):
                p2 = {'slt': 'ult', 'sge': 'uge'}.get(pred, pred)
                if pred in ('slt', 'sge') and k >> (w - 1):
                    return F if pred == 'slt' else T
                return icmp(p2, a.a[0], C(k, sw))
            if pred == 'eq': return F
            if pred == 'ne': return T
            if pred == 'ult': return T
            if pred == 'uge': return F
            if pred == 'slt': return F if k >> (w - 1) else T
            if pred == 'sge': return T if k >> (w - 1) else F
        if a.op == 'sext' and pred in ('eq', 'ne', 'slt', 'sge'):
            sw = a.a[0].w
            sk = sgn(k, w)
            if -(1 << (sw - 1)) <= sk < (1 << (sw - 1)):
                return icmp(pred, a.a[0], C(sk, sw))
        if w == 1:
            if pred == 'eq': return a if k else bnot(a)
            if pred == 'ne': return bnot(a) if k else a
        if pred in ('eq', 'ne') and a.op == 'lin':
            c, d = linparts(a)
            if len(d) == 1:
                (n, kk), = d.items()
                if kk & 1 and c:
                    inv = pow(kk, -1, 1 << w)
                    return icmp(pred, n, C((k - c) * inv, w))
        if pred in ('eq', 'ne') and a.op == 'sel' and a.a[1].op == 'c' and a.a[2].op == 'c':
            x = a.a[1].a[0] == k
            y = a.a[2].a[0] == k
            if pred == 'ne': x, y = not x, not y
            if x and y: return T
            if not x and not y: return F
            return a.a[0] if x else bnot(a.a[0])
    elif a.op == 'zext' and b.op == 'zext' and a.a[0].w == b.a[0].w:
        return icmp(pred.replace('s', 'u') if pred[0] == 's' else pred, a.a[0], b.a[0])
    elif pred in ('eq', 'ne') and b.id < a.id:
        a, b = b, a
    return mk('icmp', 1, (pred, a, b), un(a, b))


def func1(op, a, w):
    """uninterpreted-but-tabulated unary functions: ctpop, cttz, ctlz, bswap"""
    if a.op == 'c':
        v = a.a[0]
        if op == 'ctpop': return C(bin(v).count('1'), w)
        if op == 'cttz': return C((v & -v).bit_length() - 1 if v else a.w, w)
        if op == 'ctlz': return C(a.w - v.bit_length(), w)
    return mk(op, w, (a,), a.atoms)


# ------------------------------------------------------------------ evaluation over arrays
U = np.uint64


def M(w):
    return U((1 << w) - 1)


_ldcache = {}


def ev(e, b, memo=None):
    """evaluate with atoms bound to numpy uint64 arrays"""
    if memo is None: memo = {}
    r = memo.get(e)
    if r is not None: return r
    op = e.op
    w = e.w
    a = e.a
    if op == 'c':
        r = U(a[0]) if w <= 64 else None
        if r is None: raise Undecided('wide const')
        memo[e] = r
        return r
    if op == 'v':
        r = b.get(a[0])
        if r is None: raise Undecided('unbound atom %r' % a[0])
        return r
    if w > 64:
        raise Undecided('wide')
    with np.errstate(over='ignore', divide='ignore', invalid='ignore'):
        if op == 'lin':
            r = U(a[0])
            for n, k in a[1]:
                x = ev(n, b, memo)
                r = r + (x if k == 1 else x * U(k))
            r = r & M(w)
        elif op in ('and', 'or', 'xor'):
            x = ev(a[0], b, memo); y = ev(a[1], b, memo)
            r = x & y if op == 'and' else x | y if op == 'or' else x ^ y
        elif op == 'not':
            r = ev(a[0], b, memo) ^ U(1)
        elif op == 'shl':
            x = ev(a[0], b, memo); y = ev(a[1], b, memo)
            r = np.where(y < U(w), (x << np.minimum(y, U(63))) & M(w), U(0))
        elif op == 'lshr':
            x = ev(a[0], b, memo); y = ev(a[1], b, memo)
            r = np.where(y < U(w), x >> np.minimum(y, U(63)), U(0))
        elif op == 'ashr':
            x = sx(ev(a[0], b, memo), w); y = ev(a[1], b, memo)
            r = (x >> np.minimum(y, U(w - 1)).astype(np.int64)).astype(np.uint64) & M(w)
        elif op == 'udiv':
            y = ev(a[1], b, memo)
            r = ev(a[0], b, memo) // np.where(y == 0, U(1), y)
        elif op == 'urem':
            y = ev(a[1], b, memo)
            r = ev(a[0], b, memo) % np.where(y == 0, U(1), y)
        elif op in ('sdiv', 'srem'):
            x = sx(ev(a[0], b, memo), w); y = sx(ev(a[1], b, memo), w)
            y = np.where(y == 0, 1, y)
            q = np.sign(x) * np.sign(y) * (np.abs(x) // np.abs(y))
            r = (q if op == 'sdiv' else x - q * y).astype(np.uint64) & M(w)
        elif op == 'mul':
            r = (ev(a[0], b, memo) * ev(a[1], b, memo)) & M(w)
        elif op == 'zext':
            r = ev(a[0], b, memo)
        elif op == 'sext':
            r = sx(ev(a[0], b, memo), a[0].w).astype(np.uint64) & M(w)
        elif op == 'trunc':
            r = ev(a[0], b, memo) & M(w)
        elif op == 'byte':
            r = (ev(a[0], b, memo) >> U(8 * a[1])) & U(255)
        elif op == 'cat':
            r = U(0)
            for i, x in enumerate(a):
                r = r | (ev(x, b, memo) << U(8 * i))
        elif op == 'sel':
            c = ev(a[0], b, memo)
            r = np.where(c != 0, ev(a[1], b, memo), ev(a[2], b, memo))
        elif op == 'ld':
            o = ev(a[1], b, memo)
            r = a[0].gather(np.atleast_1d(o), a[2])
        elif op == 'icmp':
            x = ev(a[1], b, memo); y = ev(a[2], b, memo)
            p = a[0]
            if p[0] == 's':
                x = sx(x, a[1].w); y = sx(y, a[1].w)
            p = p[-2:]
            r = (x == y if p == 'eq' else x != y if p == 'ne' else x < y if p == 'lt' else x <= y if p == 'le' else x > y if p == 'gt' else x >= y)
            r = np.asarray(r).astype(np.uint64)
        elif op in ('ctpop', 'cttz', 'ctlz'):
            x = np.atleast_1d(ev(a[0], b, memo))
            n = a[0].w
            if op == 'ctpop':
                r = np.zeros(len(x), U)
                for i in range(n): r += (x >> U(i)) & U(1)
            elif op == 'cttz':
                r = np.full(len(x), n, U)
                for i in reversed(range(n)): r = np.where((x >> U(i)) & U(1), U(i), r)
            else:
                r = np.full(len(x), n, U)
                for i in range(n): r = np.where((x >> U(i)) & U(1), U(n - 1 - i), r)
        else:
            raise Undecided('ev ' + op)
    memo[e] = r
    return r


def sx(x, w):
    x = np.asarray(x).astype(np.uint64)
    if w == 64: return x.astype(np.int64)
    s = U(64 - w)
    return (x << s).astype(np.int64) >> np.int64(64 - w)


def values(e, atom, pts):
    """tabulate e over an array of values of its only atom"""
    if not e.atoms:
        if e.op == 'c': return np.full(len(pts), U(e.a[0]))
    r = ev(e, {atom: pts})
    r = np.asarray(r)
    if r.shape != (len(pts),):
        r = np.broadcast_to(np.atleast_1d(r), (len(pts),)) if r.size == 1 else r
    return r


# ------------------------------------------------------------------ intervals
def rng(e, d, memo=None):
    """unsigned interval (lo,hi) of e; d(atom) -> (lo,hi)"""
    op = e.op
    a = e.a
    w = e.w
    top = (1 << w) - 1
    if op == 'c': return a[0], a[0]
    if op == 'v':
        return d(a[0])
    if memo is None: memo = {}
    r = memo.get(e)
    if r: return r
    R = lambda x: rng(x, d, memo)
    r = (0, top)
    if op == 'lin':
        lo = hi = sgn(a[0], w)
        for n, k in a[1]:
            k = sgn(k, w)
            x, y = R(n)
            if k > 0: lo += k * x; hi += k * y
            else: lo += k * y; hi += k * x
        if lo < 0 <= hi or hi > top or lo < -(1 << w):
            # try unsigned constants
            if hi - lo <= top and (lo >> w) == (hi >> w):
                r = (lo & top, hi & top)
        else:
            r = (lo & top, hi & top)
    elif op == 'and':
        x = R(a[0]); y = R(a[1])
        r = (0, min(x[1], y[1]))
        if a[1].op == 'c':
            k = a[1].a[0]
            # low-bit clearing / high masks are monotone
            if x[0] == x[1]: r = (x[0] & k, x[0] & k)
            else:
                hb = (x[0] ^ x[1]).bit_length()
                base = (x[0] >> hb) << hb
                lo = base & k
                hi = lo | (k & ((1 << hb) - 1))
                r = (lo, min(hi, r[1]))
    elif op == 'or':
        x = R(a[0]); y = R(a[1])
        hb = max(x[1].bit_length(), y[1].bit_length())
        r = (max(x[0], y[0]), min(top, (1 << hb) - 1))
    elif op == 'xor':
        x = R(a[0]); y = R(a[1])
        hb = max(x[1].bit_length(), y[1].bit_length())
        r = (0, min(top, (1 << hb) - 1))
    elif op == 'lshr' and a[1].op == 'c':
        x = R(a[0]); r = (x[0] >> a[1].a[0], x[1] >> a[1].a[0])
    elif op == 'ashr' and a[1].op == 'c':
        x = R(a[0])
        if x[1] < 1 << (w - 1): r = (x[0] >> a[1].a[0], x[1] >> a[1].a[0])
    elif op == 'udiv' and a[1].op == 'c' and a[1].a[0]:
        x = R(a[0]); r = (x[0] // a[1].a[0], x[1] // a[1].a[0])
    elif op == 'urem' and a[1].op == 'c' and a[1].a[0]:
        x = R(a[0]); k = a[1].a[0]
        if x[0] // k == x[1] // k: r = (x[0] % k, x[1] % k)
        else: r = (0, k - 1)
    elif op == 'zext':
        r = R(a[0])
    elif op == 'sext':
        x = R(a[0]); sw = a[0].w
        if x[1] < 1 << (sw - 1): r = x
        elif x[0] >= 1 << (sw - 1): r = (x[0] + top + 1 - (1 << sw), x[1] + top + 1 - (1 << sw))
    elif op == 'trunc':
        x = R(a[0])
        if x[0] >> w == x[1] >> w: r = (x[0] & top, x[1] & top)
    elif op == 'byte':
        x = R(a[0]); s = 8 * a[1]
        if x[0] >> (s + 8) == x[1] >> (s + 8): r = ((x[0] >> s) & 255, (x[1] >> s) & 255)
    elif op == 'cat':
        xs = [R(x) for x in a]
        r = (sum(x[0] << (8 * i) for i, x in enumerate(xs)), sum(x[1] << (8 * i) for i, x in enumerate(xs)))
    elif op == 'sel':
        c = R(a[0])
        if c == (1, 1): r = R(a[1])
        elif c == (0, 0): r = R(a[2])
        else:
            x = R(a[1]); y = R(a[2]); r = (min(x[0], y[0]), max(x[1], y[1]))
    elif op == 'not':
        x = R(a[0]); r = (1 - x[1], 1 - x[0])
    elif op == 'mul':
        x = R(a[0]); y = R(a[1])
        if x[1] * y[1] <= top: r = (x[0] * y[0], x[1] * y[1])
    elif op == 'shl':
        x = R(a[0]); y = R(a[1])
        if y[1] < w and x[1] << y[1] <= top: r = (x[0] << y[0], x[1] << y[1])
    elif op == 'icmp':
        t = cmp_rng(a[0], R(a[1]), R(a[2]), a[1].w)
        if t is not None: r = (t, t)
    elif op == 'ld':
        x = R(a[1])
        if x[0] == x[1]:
            v = ld(a[0], C(x[0], 64), a[2])
            if v.op == 'c': r = (v.a[0], v.a[0])
    elif op in ('ctpop', 'cttz', 'ctlz'):
        r = (0, a[0].w)
    memo[e] = r
    return r


def cmp_rng(pred, x, y, w):
    if pred[0] == 's':
        h = 1 << (w - 1)
        def cvt(p):
            if p[1] < h: return p
            if p[0] >= h: return (p[0] - 2 * h, p[1] - 2 * h)
            return (-h, h - 1)
        x = cvt(x); y = cvt(y)
    p = pred[-2:]
    if p == 'eq':
        if x[1] < y[0] or y[1] < x[0]: return 0
        if x[0] == x[1] == y[0] == y[1]: return 1
        return None
    if p == 'ne':
        t = cmp_rng('eq', x, y, w)
        return None if t is None else 1 - t
    if p == 'lt': return 1 if x[1] < y[0] else 0 if x[0] >= y[1] else None
    if p == 'le': return 1 if x[1] <= y[0] else 0 if x[0] > y[1] else None
    if p == 'gt': return 1 if x[0] > y[1] else 0 if x[1] <= y[0] else None
    return 1 if x[0] >= y[1] else 0 if x[1] < y[0] else None


# ------------------------------------------------------------------ truth set of a condition over its single atom
def truth(cond, atom, dom):
    """Dom of the values of `atom` for which cond (i1, over that atom only) is 1 -- exact on dom.
    Raises Undecided when part of dom cannot be settled."""
    if cond._ts is not None:
        return cond._ts
    r = fasttruth(cond, atom)
    if r is not None:
        cond._ts = r
        return r
    w = atom.w
    if w <= 16:
        pts = np.arange(1 << w, dtype=np.uint64)
        r = Dom.mask(values(cond, atom, pts).astype(bool))
        cond._ts = r
        return r
    if dom.hi < 1 << 62 and dom.n <= 2048:
        pts = dom.points()
        return Dom.of(pts[values(cond, atom, pts).astype(bool)].tolist())
    if w > 32:
        # thresholds by interval bisection
        return hitruth(cond, atom, dom, 4000)
    low = _LOW.get(cond)
    if low is None:
        low = _LOW[cond] = Dom.mask(values(cond, atom, _ALLPTS).astype(bool))
    if dom.hi < ENUM_MAX:
        return low
    hi = dom & Dom([ENUM_MAX], [(1 << w) - 1])
    return low | hitruth(cond, atom, hi, 4000)


_LOW = {}
_ALLPTS = np.arange(ENUM_MAX, dtype=np.uint64)


def hitruth(cond, atom, dom, budget):
    out = []
    work = list(zip(dom.s, dom.e))
    while work:
        lo, hi = work.pop()
        budget -= 1
        if budget < 0: raise Undecided('threshold search')
        t = rng(cond, lambda x: (lo, hi) if x is atom else x.dom and (x.dom.lo, x.dom.hi))
        if t == (1, 1): out.append((lo, hi))
        elif t == (0, 0): pass
        elif lo == hi:
            pts = np.array([lo], dtype=np.uint64)
            if int(values(cond, atom, pts)[0]): out.append((lo, hi))
        else:
            m = (lo + hi) // 2
            work.append((lo, m)); work.append((m + 1, hi))
    return Dom.ivs(out)


def fasttruth(cond, atom):
    if cond.op != 'icmp': return None
    p, a, b = cond.a
    if b.op != 'c': return None
    w = a.w
    k = b.a[0]
    top = (1 << w) - 1
    c = 0
    if a.op == 'lin':
        if len(a.a[1]) != 1: return None
        n, co = a.a[1][0]
        if co != 1: return None
        c = a.a[0]
        a = n
    ext = 0
    if a.op == 'zext' and c:
        # (zext x) + c : only when x is the atom; do it by intervals on the wide range then clip
        n = a.a[0]
        if not (n.op == 'v' and n.a[0] is atom): return None
        clip = (1 << n.w) - 1
    elif a.op == 'v' and a.a[0] is atom:
        clip = top
    else:
        return None
    if p == 'eq': ivs = [(k, k)]
    elif p == 'ne': ivs = [(0, k - 1), (k + 1, top)]
    elif p == 'ult': ivs = [(0, k - 1)]
    elif p == 'uge': ivs = [(k, top)]
    elif p == 'slt':
        h = 1 << (w - 1)
        ivs = [(h, top), (0, k - 1)] if k < h else [(h, k - 1)]
    elif p == 'sge':
        h = 1 << (w - 1)
        ivs = [(k, h - 1)] if k < h else [(0, h - 1), (k, top)]
    else:
        return None
    out = []
    for lo, hi in ivs:
        if lo > hi: continue
        lo -= c; hi -= c
        if lo < 0 and hi < 0: lo += top + 1; hi += top + 1
        if lo < 0:
            out.append((0, hi)); out.append((lo + top + 1, top))
        else:
            out.append((lo, hi))
    if clip != top:
        out = [(lo, min(hi, clip)) for lo, hi in out if lo <= clip]
    return Dom.ivs(out)


# ------------------------------------------------------------------ printing
def show(e, depth=6):
    if e.op == 'c': return '0x%X' % e.a[0] if e.a[0] > 9 else str(e.a[0])
    if e.op == 'v': return e.a[0].name
    if depth == 0: return '...'
    s = lambda x: show(x, depth - 1)
    if e.op == 'lin':
        r = []
        for n, k in e.a[1]:
            k = sgn(k, e.w)
            r.append(s(n) if k == 1 else '%d*%s' % (k, s(n)))
        c = sgn(e.a[0], e.w)
        if c: r.append(str(c))
        return '(' + ' + '.join(r) + ')'
    if e.op == 'icmp': return '(%s %s %s)' % (s(e.a[1]), e.a[0], s(e.a[2]))
    if e.op == 'ld': return '%s[%s]:%d' % (e.a[0].name[-30:], s(e.a[1]), e.a[2])
    if e.op in ('zext', 'sext', 'trunc'): return '%s%d(%s)' % (e.op, e.w, s(e.a[0]))
    return '%s(%s)' % (e.op, ', '.join(s(x) if isinstance(x, E) else str(x) for x in e.a))


# ------------------------------------------------------------------ bit-linear form
def blf(e, known, memo=None):
    """e as (const, {(atom,bit): coef}) over the bits of its atoms, mod 2^w, or None.
    known(atom) -> (ones, zeros): bits that are fixed on the current cell."""
    if memo is None: memo = {}
    if e in memo: return memo[e]
    r = _blf(e, known, memo)
    memo[e] = r
    return r


def _norm(c, d, w):
    m = (1 << w) - 1
    return c & m, {k: v & m for k, v in d.items() if v & m}


def _bits(l, w):
    """list of per-bit sources when the linear form is carry-free: each bit is 0, 1 or (atom,bit)"""
    c, d = l
    out = [(c >> i) & 1 for i in range(w)]
    for k, v in d.items():
        if v & (v - 1): return None
        i = v.bit_length() - 1
        if out[i] != 0: return None
        out[i] = k
    return out


def _unbits(bs):
    c = 0
    d = {}
    for i, b in enumerate(bs):
        if b == 1: c |= 1 << i
        elif b != 0: d[b] = d.get(b, 0) + (1 << i)
    return c, d


def _blf(e, known, memo):
    op = e.op
    w = e.w
    a = e.a
    R = lambda x: blf(x, known, memo)
    if op == 'c': return a[0], {}
    if op == 'v':
        ones, zeros = known(a[0])
        c = 0
        d = {}
        for i in range(w):
            if ones >> i & 1: c |= 1 << i
            elif not zeros >> i & 1: d[(a[0], i)] = 1 << i
        return c, d
    if op == 'lin':
        c = a[0]
        d = {}
        for n, k in a[1]:
            x = R(n)
            if x is None: return None
            c += x[0] * k
            for y, z in x[1].items(): d[y] = d.get(y, 0) + z * k
        return _norm(c, d, w)
    if op in ('zext',):
        x = R(a[0])
        if x is None: return None
        sw = a[0].w
        # value must not wrap: max of the sum below 2^sw
        if _bits(x, sw) is not None: return x
        if x[0] + sum(x[1].values()) < 1 << sw: return x
        return None
    if op == 'sext':
        x = R(a[0])
        if x is None: return None
        b = _bits(x, a[0].w)
        if b is None or b[-1] not in (0, 1): return None
        return _unbits(b + [b[-1]] * (w - a[0].w))
    if op == 'trunc':
        x = R(a[0])
        return None if x is None else _norm(x[0], x[1], w)
    if op in ('and', 'or', 'xor'):
        x = R(a[0]); y = R(a[1])
        if x is None or y is None: return None
        bx = _bits(x, w); by = _bits(y, w)
        if bx is None or by is None: return None
        out = []
        for p, q in zip(bx, by):
            if op == 'and':
                v = 0 if p == 0 or q == 0 else q if p == 1 else p if q == 1 else p if p == q else None
            elif op == 'or':
                v = 1 if p == 1 or q == 1 else q if p == 0 else p if q == 0 else p if p == q else None
            else:
                v = q if p == 0 else p if q == 0 else 0 if p == q else None
            if v is None: return None
            out.append(v)
        return _unbits(out)
    if op in ('lshr',) and a[1].op == 'c':
        x = R(a[0])
        if x is None: return None
        b = _bits(x, w)
        if b is None: return None
        k = a[1].a[0]
        return _unbits(b[k:] + [0] * k)
    if op == 'byte':
        x = R(a[0])
        if x is None: return None
        b = _bits(x, a[0].w)
        if b is None:
            if a[1] == 0: return _norm(x[0], x[1], 8)
            return None
        return _unbits(b[8 * a[1]:8 * a[1] + 8])
    if op == 'cat':
        bs = []
        for x in a:
            y = R(x)
            if y is None: return None
            b = _bits(y, x.w)
            if b is None: return None
            bs += b
        return _unbits(bs)
    return None


def knownbits(dom, w):
    """bits common to every member of dom"""
    ones = (1 << w) - 1
    zeros = (1 << w) - 1
    for lo, hi in zip(dom.s, dom.e):
        hb = (lo ^ hi).bit_length()
        fixed = ((1 << w) - 1) >> hb << hb
        ones &= lo & fixed
        zeros &= ~lo & fixed
    return ones, zeros
