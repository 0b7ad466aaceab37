"""Abstract standard strings.

A std::basic_string lives in memory as {data pointer, size}; its content is kept aside (State.x['str']) as a sequence of
terms: ('e', char), ('sl', object, byte offset, count) a piece of an array object, or (name, ...) an uninterpreted string.
Public members are replaced by their effect on that sequence; everything built on them is followed as compiled."""
import re
import engine as G
import expr as X
from engine import C, P, E, UNDEF, Z64, Unsupported

CW = {'char': 1, 'char8_t': 1, 'signed char': 1, 'unsigned char': 1, 'char16_t': 2, 'char32_t': 4, 'wchar_t': 4}


def strip(d):
    """demangled name without template arguments and lambda bodies"""
    out = []
    k = 0
    i = 0
    n = len(d)
    while i < n:
        c = d[i]
        if c == '<' and not d.startswith(('operator<', 'operator<<', 'operator<=>'), max(0, i - 8)):
            k += 1
        elif c == '>' and k and d[i - 1] != '-':
            k -= 1
        elif not k: out.append(c)
        i += 1
    return ''.join(out)


def operfix(d):
    m = re.search(r'operator(<=>|<<|<=|<|>=|>>|->|>)', d)
    if not m: return strip(d)
    return strip(d[:m.start()]) + 'operator@%s@' % m.group(1).replace('<', 'lt').replace('>', 'gt') + strip(d[m.end():])


METH = re.compile(r'^(?:[^(]*[ &])?std::(?:__cxx11::)?basic_string::(~?\w+|operator[^(]*|operator\(\))\((.*)\)(?: const)?(?: ?&)?(?:\[abi:\w+\])?$')
FREE = re.compile(r'^(?:[^(]*[ &])?std::(operator[^(]*|swap)\((.*)\)$')
VIEWCMP = re.compile(r'^(?:[^(]*[ &])?std::basic_string_view::compare\((.*)\) const$')


def splitargs(a):
    out = []
    k = 0
    cur = ''
    for c in a:
        if c in '([{': k += 1
        if c in ')]}': k -= 1
        if c == ',' and not k:
            out.append(cur.strip()); cur = ''
        else: cur += c
    if cur.strip(): out.append(cur.strip())
    return out


class Buf:
    """handler of the characters of a string object"""

    def __init__(self, S, key, w):
        self.S = S; self.key = key; self.w = w

    def size(self, e, st, o):
        return X.scale(self.S.size(e, st, self.key), self.w)

    def load(self, e, st, o, off, n):
        return self.S.loadchar(e, st, self.key, self.w, off, n)

    def store(self, e, st, o, off, n, v, loc):
        return self.S.storechar(e, st, self.key, self.w, off, n, v, loc)


class Strings:
    """string models of one engine"""

    def __init__(self):
        self.lenatoms = {}
        self.cmpatoms = {}
        self.elems = {}
        self.onload = None       # fn(e, st, key, w, off) -> value or None
        self.onstore = None      # fn(e, st, key, w, off, v, loc) -> bool
        self.onappend = None

    def models(self):
        return [(re.compile(r'.*std::(__cxx11::)?basic_string<|.*std::operator|.*std::basic_string_view<.*::compare'), self.dispatch)]

    def setup(self, e):
        e.xstable = ('str',)
        self.e = e

    # ---- state
    def get(self, st, key):
        m = st.x.get('str', {})
        if key not in m: raise Unsupported('string object %s used before it is constructed' % (key,))
        return m[key]

    def put(self, st, key, segs):
        m = dict(st.x.get('str', {}))
        m[key] = tuple(segs)
        st.x['str'] = m

    def drop(self, st, key):
        m = dict(st.x.get('str', {}))
        m.pop(key, None)
        st.x['str'] = m

    def key(self, e, st, p):
        if not isinstance(p, P) or p.o is None: raise Unsupported('string through %r' % (p,))
        o = e.conc(st, p.off)
        if o.op != 'c': raise Unsupported('string at a computed address')
        return (p.o, X.sgn(o.a[0], 64))

    def construct(self, e, st, key, w, segs=(), size=None):
        """make a string object in memory"""
        bid = ('strbuf', key, w)
        if bid not in st.mem:
            o = G.Obj(bid, 'abs', None, Buf(self, key, w), w, 'characters of %s' % (key,))
            o.own = st.own
            st.mem[bid] = o
        e.rawstore(st, key[0], C(key[1], 64), 8, P(bid, Z64))
        self.put(st, key, segs)
        self.setsize(e, st, key, self.length(segs) if size is None else size)

    def size(self, e, st, key):
        return e.asint(e.rawload(st, st.mem[key[0]], C(key[1] + 8, 64), 8))

    def setsize(self, e, st, key, v):
        e.rawstore(st, key[0], C(key[1] + 8, 64), 8, v)

    def length(self, segs):
        n = Z64
        for s in segs: n = X.add(n, self.seglen(s))
        return n

    def seglen(self, s):
        if s[0] == 'e': return C(1, 64)
        if s[0] == 'sl': return s[3]
        a = self.lenatoms.get(s)
        if a is None: a = self.lenatoms[s] = X.Atom('len(%s)' % (s[0],), 64, X.Dom([0], [1 << 40]), 'len')
        return a.node

    # ---- views and ranges
    def whole(self, e, st, p, n, w):
        """the string object whose characters are exactly [p, p+n), or None"""
        if isinstance(p, P) and isinstance(p.o, tuple) and p.o[0] == 'strbuf':
            return p.o[1]
        return None

    def content(self, e, st, p, n, w, f=None, ins=None):
        """terms for n characters at p"""
        n = e.subst_singles(st, e.asint(n))
        if n.op == 'c' and n.a[0] == 0: return ()
        if not isinstance(p, P) or p.o is None: raise Unsupported('characters at %r' % (p,))
        if isinstance(p.o, tuple) and p.o[0] == 'strbuf':
            key = p.o[1]
            segs = self.get(st, key)
            sz = self.size(e, st, key)
            off = e.subst_singles(st, p.off)
            if off.op == 'c' and off.a[0] == 0 and (n is sz or e.subst_singles(st, sz) is n or e.prove_le(st, n, sz) and e.prove_le(st, sz, n)):
                return segs
            return self.sub(e, st, key, segs, off, n, w)
        o = st.mem.get(p.o)
        if o is None: o = e.gobj(st, p.o)
        if n.op == 'c' and (o.kind == 'fixed' or n.a[0] <= 8):
            out = []
            for i in range(n.a[0]):
                q = P(p.o, e.conc(st, X.add(p.off, C(w * i, 64))) if o.kind == 'fixed' else X.add(p.off, C(w * i, 64)))
                v = e.load(st, q, w, f, ins) if f is not None else e.rawload(st, e.obj(st, q, ins, f), q.off, w)
                out.append(('e', e.subst_singles(st, e.asint(v, 8 * w)) if v is not UNDEF else UNDEF))
            return tuple(out)
        if o.kind == 'array':
            if f is not None:
                # the whole piece must lie inside the object
                end = X.add(p.off, X.scale(n, w))
                key = (f.name, ins.dbg, 'read', o.name)
                ok = e.prove_le(st, Z64, p.off) and e.prove_le(st, end, o.size)
                e.checked[key] = e.checked.get(key, True) and ok
                if not ok: e.finding('oob', st, f, ins, 'reads %s characters at offset %s of %s (size %s): not proven in bounds' % (X.show(n), X.show(p.off), o.name, X.show(o.size)))
            return (('sl', p.o, e.subst_singles(st, p.off), n),)
        raise Unsupported('characters of %s' % (o.name,))

    def sub(self, e, st, key, segs, off, n, w):
        """piece of a string's content"""
        if off.op == 'c' and n.op == 'c' and off.a[0] % w == 0:
            i = off.a[0] // w
            if all(s[0] == 'e' for s in segs[:i + n.a[0]]) and len(segs) >= i + n.a[0]: return segs[i:i + n.a[0]]
        if off.op == 'c' and off.a[0] % w == 0:
            i = off.a[0] // w
            if all(s[0] == 'e' for s in segs[:i]) and len(segs) >= i:
                rest = segs[i:]
                ln = self.length(rest)
                if e.subst_singles(st, ln) is n or e.prove_le(st, n, ln) and e.prove_le(st, ln, n): return rest
        if len(segs) == 1 and segs[0][0] == 'sl':
            return (('sl', segs[0][1], X.add(segs[0][2], off), n),)
        raise Unsupported('piece of a built string')

    def loadchar(self, e, st, key, w, off, n):
        if self.onload:
            v = self.onload(e, st, key, w, off)
            if v is not None: return v
        segs = self.get(st, key)
        if n == w:
            if len(segs) == 1 and segs[0][0] == 'sl':
                return e.rawload(st, st.mem[segs[0][1]], X.add(segs[0][2], off), n)
            o = e.subst_singles(st, off)
            if o.op == 'c' and o.a[0] % w == 0:
                i = o.a[0] // w
                if i < len(segs) and all(s[0] == 'e' for s in segs[:i + 1]): return segs[i][1]
            k = (segs, off)
            a = self.elems.get(k)
            if a is None: a = self.elems[k] = X.Atom('char[%s]' % X.show(off), 8 * w, None, 'chr')
            return a.node
        raise Unsupported('load of %d bytes from a string of %d-byte characters' % (n, w))

    def storechar(self, e, st, key, w, off, n, v, loc):
        if self.onstore and self.onstore(e, st, key, w, off, v, loc): return
        segs = self.get(st, key)
        o = e.subst_singles(st, off)
        if n == w and o.op == 'c' and o.a[0] % w == 0:
            i = o.a[0] // w
            if i < len(segs) and all(s[0] == 'e' for s in segs[:i + 1]):
                self.put(st, key, segs[:i] + (('e', v),) + segs[i + 1:]); return
        raise Unsupported('store into a built string')

    # ---- operations
    def append(self, e, st, key, segs):
        if not segs: return
        old = self.get(st, key)
        self.put(st, key, old + tuple(segs))
        self.setsize(e, st, key, X.add(self.size(e, st, key), self.length(segs)))

    def assign(self, e, st, key, segs, size=None):
        self.put(st, key, segs)
        self.setsize(e, st, key, self.length(segs) if size is None else size)

    def cmp(self, a, b):
        """three-way comparison of two contents: one sign per pair"""
        if a == b: return C(0, 32)
        r = self.cmpatoms.get((a, b))
        if r is None:
            r = self.cmpatoms[(a, b)] = X.Atom('compare', 32, X.Dom([0, 0x80000000], [0x7FFFFFFF, 0xFFFFFFFF]), 'cmp', (a, b))
        return r.node

    def frag(self, e, st, args, i, ty, w, f, ins):
        """the string-ish argument of type ty at position i -> (content, arguments used)"""
        if 'basic_string_view' in ty or 'type_identity' in ty:
            if ty.endswith('&'):
                q = args[i]
                k = self.key(e, st, q)
                n = e.rawload(st, st.mem[k[0]], C(k[1], 64), 8); p = e.rawload(st, st.mem[k[0]], C(k[1] + 8, 64), 8)
                return self.content(e, st, p, n, w, f, ins), 1
            return self.content(e, st, args[i + 1], args[i], w, f, ins), 2
        if 'basic_string' in ty:
            return self.get(st, self.key(e, st, args[i])), 1
        return None, 0

    def dispatch(self, e, st, fr, p, args):
        name = p.x['c'][1] if p.x['c'] else None
        if name is None: return NotImplemented
        d = e.p.dem(name)
        info = self.parse(d)
        if info is None: return NotImplemented
        kind, op, types, w = info
        f = fr.f; ins = p.ins
        if kind == 'm': return self.method(e, st, fr, p, args, op, types, w, d)
        if kind == 'v':
            a = self.frag(e, st, args, 0, 'basic_string_view &', w, f, ins)[0]
            if len(types) != 1: return NotImplemented
            b, _ = self.frag(e, st, args, 1, types[0], w, f, ins)
            if b is None: return NotImplemented
            return self.cmp(a, b)
        # free operators
        if op in ('operator==', 'operator!=', 'operator@lt@', 'operator@gt@', 'operator@ltegt@', 'operator@lt=@', 'operator@gt=@', 'operator@lt=gt@'):
            a, k = self.frag(e, st, args, 0, types[0], w, f, ins)
            b, _ = self.frag(e, st, args, k, types[1], w, f, ins)
            if a is None or b is None:
                return NotImplemented
            c = self.cmp(a, b)
            o = op[8:]
            if o == '==': return self.b1(e, st, X.icmp('eq', c, C(0, 32)))
            if o == '!=': return self.b1(e, st, X.icmp('ne', c, C(0, 32)))
            if o == '@lt@': return self.b1(e, st, X.icmp('slt', c, C(0, 32)))
            if o == '@gt@': return self.b1(e, st, X.icmp('sgt', c, C(0, 32)))
            if o == '@lt=@': return self.b1(e, st, X.icmp('sle', c, C(0, 32)))
            if o == '@gt=@': return self.b1(e, st, X.icmp('sge', c, C(0, 32)))
            raise Unsupported(d[:80])
        if op == 'operator+':
            rk = self.key(e, st, args[0])
            i = 1
            segs = ()
            for t in types:
                s, k = self.frag(e, st, args, i, t, w, f, ins)
                if s is None:
                    if CW.get(t): s, k = (('e', e.asint(args[i], 8 * w)),), 1
                    else: raise Unsupported(d[:80])
                segs += s; i += k
            self.construct(e, st, rk, w, segs)
            return None
        return NotImplemented

    def b1(self, e, st, x): return x

    _cache = {}

    def parse(self, d):
        if d in self._cache: return self._cache[d]
        r = None
        s = operfix(d)
        wm = re.search(r'basic_string(?:_view)?<(\w+(?: \w+)?)[,>]', d)
        w = CW.get(wm.group(1)) if wm else None
        if w:
            m = METH.match(s)
            if m and 'unicode::' not in s[:m.start(1)]:
                r = ('m', m.group(1).strip(), splitargs(m.group(2)), w)
            else:
                m = VIEWCMP.match(s)
                if m: r = ('v', 'compare', splitargs(m.group(1)), w)
                else:
                    m = FREE.match(s)
                    if m and ('basic_string' in m.group(2)): r = ('f', m.group(1).strip(), splitargs(m.group(2)), w)
        self._cache[d] = r
        return r

    def method(self, e, st, fr, p, args, op, types, w, d):
        f = fr.f; ins = p.ins
        this = args[0]
        # result through a hidden pointer: substr
        if op == 'substr': raise Unsupported(d[:80])
        if op in ('npos',): return NotImplemented
        key = self.key(e, st, this)
        T = [t.replace('const&', '&').replace(' const', '') for t in types]
        if op == 'basic_string':
            a = [t for t in types if 'allocator' not in t]
            if not a: self.construct(e, st, key, w); return None
            if len(a) == 1 and 'basic_string' in a[0] and 'view' not in a[0]:
                src = self.key(e, st, args[1])
                segs = self.get(st, src); sz = self.size(e, st, src)
                self.construct(e, st, key, w, segs, sz)
                if a[0].endswith('&&'): self.assign(e, st, src, ())
                return None
            segs = self.fromargs(e, st, args, 1, a, d, w, f, ins)
            self.construct(e, st, key, w, segs)
            return None
        if op == '~basic_string':
            self.drop(st, key); return None
        if op == 'operator=' or op == 'assign':
            if len(types) == 1 and 'basic_string' in types[0] and 'view' not in types[0]:
                src = self.key(e, st, args[1])
                if src != key:
                    segs = self.get(st, src); sz = self.size(e, st, src)
                    self.assign(e, st, key, segs, sz)
                    if types[0].endswith('&&'): self.assign(e, st, src, ())
                return this
            self.assign(e, st, key, self.fromargs(e, st, args, 1, types, d, w, f, ins))
            return this
        if op == 'push_back':
            self.append(e, st, key, (('e', e.asint(args[1], 8 * w)),)); return None
        if op in ('append', 'operator+='):
            self.append(e, st, key, self.fromargs(e, st, args, 1, types, d, w, f, ins)); return this
        if op == 'insert':
            # only at the end
            pos = args[1]
            off = pos.off if isinstance(pos, P) else X.scale(e.asint(pos), w)
            end = X.scale(self.size(e, st, key), w)
            if not (off is end or e.prove_le(st, off, end) and e.prove_le(st, end, off)): raise Unsupported('insertion inside a string')
            self.append(e, st, key, self.fromargs(e, st, args, 2, types[1:], d, w, f, ins))
            return P(('strbuf', key, w), off) if isinstance(pos, P) else this
        if op == 'clear': self.assign(e, st, key, ()); return None
        if op in ('reserve', 'shrink_to_fit'): return None
        if op in ('size', 'length'): return self.size(e, st, key)
        if op == 'capacity': return X.Atom('capacity', 64, None, 'undef').node
        if op == 'empty': return X.icmp('eq', self.size(e, st, key), Z64)
        if op in ('data', 'c_str', 'begin', 'cbegin'): return P(self.buf(e, st, key), Z64)
        if op in ('end', 'cend'): return P(self.buf(e, st, key), X.scale(self.size(e, st, key), w))
        if op == 'operator std::basic_string_view': return G.Vec([self.size(e, st, key), P(self.buf(e, st, key), Z64)])
        if op in ('operator[]', 'at'): 
            return P(self.buf(e, st, key), X.scale(e.asint(args[1]), w))
        if op == 'front': return P(self.buf(e, st, key), Z64)
        if op == 'back': return P(self.buf(e, st, key), X.scale(X.sub(self.size(e, st, key), C(1, 64)), w))
        if op == 'resize' and len(types) <= 2:
            n = e.subst_singles(st, e.asint(args[1]))
            if n.op == 'c' and n.a[0] == 0: self.assign(e, st, key, ()); return None
            return self.resize(e, st, key, n, w, e.asint(args[2], 8 * w) if len(types) == 2 else C(0, 8 * w))
        if op == 'pop_back':
            segs = self.get(st, key)
            if segs and segs[-1][0] == 'e':
                self.put(st, key, segs[:-1]); self.setsize(e, st, key, X.sub(self.size(e, st, key), C(1, 64))); return None
        if op == 'compare' and len(types) == 1:
            b, _ = self.frag(e, st, args, 1, types[0], w, f, ins)
            if b is not None: return self.cmp(self.get(st, key), b)
        if op == 'swap':
            k2 = self.key(e, st, args[1])
            a, na = self.get(st, key), self.size(e, st, key)
            b, nb = self.get(st, k2), self.size(e, st, k2)
            self.assign(e, st, key, b, nb); self.assign(e, st, k2, a, na)
            return None
        raise Unsupported('string operation ' + strip(d)[:90])

    def buf(self, e, st, key):
        q = e.rawload(st, st.mem[key[0]], C(key[1], 64), 8)
        if not isinstance(q, P): raise Unsupported('string without characters')
        return q.o

    def resize(self, e, st, key, n, w, c):
        raise Unsupported('string resized to an unknown length')

    def fromargs(self, e, st, args, i, types, d, w, f, ins):
        """content described by constructor / append arguments"""
        types = [t for t in types if 'allocator' not in t]
        if len(types) == 1:
            t = types[0]
            s, k = self.frag(e, st, args, i, t, w, f, ins)
            if s is not None: return s
            if t in CW: return (('e', e.asint(args[i], 8 * w)),)
            if 'initializer_list' in t:
                return self.content(e, st, args[i], args[i + 1], w, f, ins)
            if t.endswith('*'):
                # null-terminated constant
                q = args[i]; out = []
                while len(out) < 4096:
                    v = e.rawload(st, e.obj(st, q, ins, f), X.add(q.off, C(w * len(out), 64)), w)
                    v = e.subst_singles(st, e.asint(v, 8 * w))
                    if v.op != 'c': raise Unsupported('text of unknown length')
                    if not v.a[0]: return tuple(out)
                    out.append(('e', v))
        if len(types) == 2:
            if types[0] == 'unsigned long' and types[1] in CW:
                n = e.subst_singles(st, e.asint(args[i]))
                if n.op != 'c': raise Unsupported('repeated character')
                return (('e', e.asint(args[i + 1], 8 * w)),) * n.a[0]
            if types[1] == 'unsigned long' and types[0].endswith('*'):
                return self.content(e, st, args[i], args[i + 1], w, f, ins)
            # iterator pair
            a, b = args[i], args[i + 1]
            if isinstance(a, P) and isinstance(b, P) and (a.o == b.o):
                if ('*' in types[0] or 'normal_iterator' in types[0]):
                    n = X.sub(b.off, a.off)
                    n = e.subst_singles(st, n)
                    c, dd = X.linparts(n)
                    sw = self.itwidth(d, w)
                    if sw != w: raise Unsupported('string from differently sized elements')
                    n = X.mklin(64, X.sgn(c, 64) // w, {x: X.sgn(k, 64) // w for x, k in dd.items()})
                    return self.content(e, st, a, n, w, f, ins)
        raise Unsupported('string from (%s)' % ', '.join(types))

    def itwidth(self, d, w):
        m = re.search(r'(?:append|assign|basic_string|insert)<(?:__gnu_cxx::__normal_iterator<)?(\w+(?: \w+)?)(?: const)?\*', d)
        return CW.get(m.group(1), None) if m else w
