"""String-to-string functions against a reference that reads the text once from left to right.

A ghost cell holds how many characters the reference has consumed; whatever the code appended beyond the reference's output so
far is pending.  At every loop header and at every return the reference is advanced while its next output is what is pending.
The reference position is generalised with the code's own counters, so a loop that keeps the two in step is proven for every length."""
import numpy as np
import engine as G
import expr as X
import framework as F
from dom import Dom
from engine import C, P, UNDEF, Z64, Unsupported

NCP = 0x110000
_tabs = {}


def table(name, arr, dt):
    """constant table over the code points"""
    k = (name, dt)
    if k not in _tabs: _tabs[k] = X.Table(name, np.ascontiguousarray(arr, dtype=dt).tobytes())
    return _tabs[k]


def tabval(t, e, size):
    return X.ld(t, X.scale(X.zext(e, 64), size), size)


def cptext(e, st, n, name='text', dom=None):
    """array object of n code points"""
    dom = dom or F.ALLCP

    def default(st, o, off, k):
        if k != 4: raise Unsupported('load of %d bytes from text' % k)
        off = e.subst_singles(st, off)
        a = o.reads.get((off, k))
        if a is None:
            a = X.Atom('%s[%s]' % (o.name, X.show(off)), 32, dom, 'elem', (o.id, off)).node
            st.wobj(o.id).reads[(off, k)] = a
        return a
    return e.new_obj(st, 'array', X.scale(n, 4), default, 4, name)


def single(st, x):
    """the atom an expression depends on"""
    if len(x.atoms) != 1: return None
    a, = x.atoms
    return a


def fork(e, st, x, cls):
    """split a state by the class (small array over code points) of the code point x: [(state, class)]"""
    x = e.subst_singles(st, x)
    if x.op == 'c':
        v = x.a[0]
        return [(st, int(cls[v]) if v < NCP else 0)]
    a = single(st, x)
    if a is None: raise Unsupported('property of a combined value')
    d = st.dom(a)
    rest = None
    if d.n > 8 * NCP:
        # values beyond the code points all have class 0: keep them apart
        if x.op != 'v': raise Unsupported('property of a value derived from a wide one')
        rest = d - G.Dom([0], [NCP - 1]); d = d & G.Dom([0], [NCP - 1])
        if not d: return [(st, 0)]
    pts = d.points()
    vals = X.values(x, a, pts) if x.op != 'v' else pts
    vv = np.where(vals < NCP, cls[np.minimum(vals, NCP - 1).astype(np.int64)], 0)
    u = np.unique(vv)
    if rest and 0 not in u: u = np.concatenate([u, [0]])
    out = []
    for i, k in enumerate(u):
        s = st.copy() if i < len(u) - 1 else st
        m = vv == k
        s.doms[a] = (G.ptsdom(pts, m) if m.any() else G.Dom([], [])) | (rest if rest and k == 0 else G.Dom([], []))
        if len(u) > 1: s.forks += 1
        out.append((s, int(k)))
    return out


def samevals(e, st, x, y):
    """x and y equal in every case the path allows"""
    if x is y: return True
    if x is UNDEF or y is UNDEF: return False
    x = e.subst_singles(st, x); y = e.subst_singles(st, y)
    if x is y: return True
    if x.w != y.w: return False
    at = x.atoms | y.atoms
    if len(at) != 1: return x.op == 'c' and y.op == 'c' and x.a[0] == y.a[0]
    a, = at
    pts = st.dom(a).points()
    one = lambda z: X.values(z, a, pts) if z.atoms else np.full(len(pts), z.a[0], np.uint64)
    return bool((one(x) == one(y)).all())


class Transducer:
    """ref(self, e, st, node, g) -> (list of outputs, dict of new ghost values) or None when the path does not determine it.
    g: dict of ghost values (expressions)"""

    def __init__(self, S, e, st, text, n, outkey, ref, ghosts=(), inputs=()):
        self.inputs = inputs
        self.S = S; self.e = e; self.text = text; self.n = n; self.outkey = outkey; self.ref = ref
        self.names = [x for x, _, _ in ghosts]
        self.gid = e.new_obj(st, 'fixed', C(8 + 8 * len(ghosts), 64), 'zero', name='reference')
        e.rawstore(st, self.gid, Z64, 8, Z64)
        self.w = {}
        for i, (x, w, v) in enumerate(ghosts):
            e.rawstore(st, self.gid, C(8 + 8 * i, 64), w // 8, v)
            self.w[x] = (8 + 8 * i, w // 8)
        self.marker = ('ref', self.gid)
        e.hdrhook = self.hook
        self.consumed = 0

    def pos(self, st):
        return self.e.subst_singles(st, self.e.asint(self.e.rawload(st, st.mem[self.gid], Z64, 8)))

    def ghosts(self, st):
        return {x: self.e.rawload(st, st.mem[self.gid], C(o, 64), w) for x, (o, w) in self.w.items()}

    def elem(self, st, pos):
        """the character at position pos, if the path looked at it"""
        off = self.e.subst_singles(st, X.scale(pos, 4))
        o = st.mem[self.text]
        v = o.reads.get((off, 4))
        if v is not None: return v
        for (k, n), v in o.reads.items():
            if n == 4 and self.e.subst_singles(st, k) is off: return v
        return None

    def out(self, st):
        """the string being built: the result object, or the only other string there is"""
        m = st.x.get('str', {})
        if self.outkey in m: return self.outkey
        ks = [k for k, v in m.items() if v and v[0] == self.marker] or [k for k in m if k not in self.inputs]
        return ks[0] if len(ks) == 1 else None

    def pending(self, st):
        segs = self.S.get(st, self.out(st))
        if segs and segs[0] == self.marker: return segs[1:]
        return segs

    def advance(self, st):
        """consume characters whose reference output is pending"""
        e = self.e
        if self.out(st) is None: return
        while True:
            pend = self.pending(st)
            if not pend: break
            g = self.pos(st)
            node = self.elem(st, g)
            if node is None: break
            r = self.ref(self, e, st, node, self.ghosts(st))
            if r is None: break
            outs, new = r
            if len(outs) > len(pend) or not all(s[0] == 'e' and samevals(e, st, s[1], o) for s, o in zip(pend, outs)): break
            e.rawstore(st, self.gid, Z64, 8, X.add(g, C(1, 64)))
            for x, v in new.items():
                o, w = self.w[x]
                e.rawstore(st, self.gid, C(o, 64), w, v)
            self.consumed += 1
            self.S.put(st, self.out(st), (self.marker,) + tuple(pend[len(outs):]))
        if not self.pending(st): self.S.put(st, self.out(st), (self.marker,))

    def hook(self, st, fr, f, src, h):
        self.advance(st)
        base = self.e.hdrbase
        if base is None or self.out(st) is None: return         # entered, or unrolled: judged later
        old = base.x.get('str', {}).get(self.out(st), ())
        if old[:1] != (self.marker,): old = (self.marker,) + tuple(old)
        if self.S.get(st, self.out(st)) != old:
            if self.pending(st): st.event('mismatch', self.describe(st), G.loc_of(f, f.bp[h][1][0].ins))
            else: st.event('mismatch', 'the output of an earlier character is completed in a loop', G.loc_of(f, f.bp[h][1][0].ins))
            self.S.put(st, self.out(st), old)

    def describe(self, st):
        e = self.e
        g = self.pos(st)
        node = self.elem(st, g)
        pend = self.pending(st)
        show = lambda s: X.show(e.subst_singles(st, s[1])) if s[0] == 'e' and s[1] is not UNDEF else s[0] if s[0] != 'e' else '?'
        t = 'output [%s] is not what the rule gives for character %s of the text' % (', '.join(show(s) for s in pend)[:160], X.show(g))
        if node is None: t += ' (which the path did not read)'
        elif node.op == 'v':
            d = st.dom(node.a[0])
            t += ' (one of %s)' % d.show()[:80]
            c = self.example(st, node, pend)
            if c: t += '; ' + c
        return t

    def example(self, st, node, pend):
        return None

    def finish(self, ctx, o, rule, where):
        """judge one outcome of the function"""
        e = self.e
        s = o.st
        ev = [x for x in s.eventlist() if x[0] == 'mismatch']
        un = [x for x in s.eventlist() if x[0] == 'undecided']
        if un and not ev: raise X.Undecided(un[0][1])
        if o.kind == 'backedge':
            if ev: ctx.bad(rule, ctx.where(ev[0][2]), ev[0][1])
            return
        if o.kind != 'ret':
            ctx.bad(rule, ctx.where(G.loc_of(*o.loc)), 'does not return'); return
        if s.opaque: raise X.Undecided('undetermined branch')
        self.advance(s)
        if ev:
            ctx.bad(rule, ctx.where(ev[0][2]), ev[0][1]); return
        if self.outkey not in s.x.get('str', {}):
            ctx.bad(rule, where, 'returns without a result'); return
        if self.pending(s):
            ctx.bad(rule, where, self.describe(s)); return
        g = self.pos(s)
        full = e.prove_le(s, self.n, g) and e.prove_le(s, g, self.n)
        ctx.check(full, rule, where, 'returns when %s of %s characters are converted' % (X.show(g), X.show(self.n)), 'returns')


class Scan(Transducer):
    """a reference that only reads: ref(self, e, st, node, ghosts) -> new ghost values, or None when it stops or cannot tell"""

    def __init__(self, e, st, text, n, ref, ghosts=()):
        Transducer.__init__(self, None, e, st, text, n, None, ref, ghosts)

    def advance(self, st):
        e = self.e
        while True:
            g = self.pos(st)
            node = self.elem(st, g)
            if node is None: return
            r = self.ref(self, e, st, e.subst_singles(st, node), self.ghosts(st))
            if r is None: return
            e.rawstore(st, self.gid, Z64, 8, X.add(g, C(1, 64)))
            self.set(st, r)

    def set(self, st, new):
        for x, v in new.items():
            o, w = self.w[x]
            self.e.rawstore(st, self.gid, C(o, 64), w, v)

    def hook(self, st, fr, f, src, h):
        self.advance(st)

    def atend(self, st):
        g = self.pos(st)
        return self.e.prove_le(st, self.n, g) and self.e.prove_le(st, g, self.n)
