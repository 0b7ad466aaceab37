"""A step function (next code point, optional lookahead text, state) reduced to a transfer relation over the bytes of its
state, and explored as a product automaton with a reference history."""
import numpy as np
import ucd
import framework as F
import engine as G
import expr as X
from dom import Dom, EMPTY

CPS = np.arange(ucd.N, dtype=np.uint64)


def classify(*cols):
    """partition of the code point space by columns: [(value..., Dom)]"""
    lab, key = {}, np.zeros(ucd.N, np.int32)
    for c, k in enumerate(zip(*[np.asarray(x).tolist() for x in cols])):
        i = lab.get(k)
        if i is None: i = lab[k] = len(lab)
        key[c] = i
    return [(*k, G.ptsdom(CPS, key == i)) for k, i in lab.items()]


class Look:
    """what a path knows about the text after the next code point: 'any', 'none' (there is nothing but skipped code points),
    or the domain of the first code point that is not skipped"""

    def __init__(self, e, outs, oid, n, skip):
        self.e, self.oid, self.n, self.skip = e, oid, n, skip
        self.scan = {}      # loop atom -> offset of the first element of a round, when every round skips only skipped elements
        bad = set()
        for o in outs:
            if o.kind != 'backedge': continue
            en, new = o.x
            for k, g in en.gen.items():
                if g['kind'] not in ('lin', 'linptr') or not isinstance(g.get('atom'), X.Atom): continue
                a = g['atom']
                els = {x.info[1]: o.st.dom(x) for x in o.st.doms if x.kind == 'elem' and x.info[0] == oid and a in x.info[1].atoms}
                if not els: continue            # counts something else
                if any(not d.subset(skip) for d in els.values()) or g.get('knew') is not X.add(a.node, X.C(1, 64)): bad.add(a); continue
                first = [f for f in els if all(X.add(f, X.C(4 * i, 64)) in els for i in range(len(els)))]
                if len(first) != 1: bad.add(a); continue
                off = first[0]
                if self.shift(off, a, 1) is not X.C(4 * len(els), 64): bad.add(a); continue     # a round goes on right behind the one before
                old = self.scan.get(a)
                if old is not None and old is not off: bad.add(a); continue
                self.scan[a] = off
        for a in bad: self.scan.pop(a, None)

    def shift(self, off, a, n):
        return X.sub(G.subst(off, {a: X.add(a.node, X.C(n, 64))}), off)

    def of(self, st):
        els = {x.info[1]: st.dom(x) for x in st.doms if x.kind == 'elem' and x.info[0] == self.oid}
        pos = X.C(0, 64)
        here = self.known(st, els)
        todo = dict(self.scan)
        used = 0
        while True:
            # skipped by a loop that starts here
            for a, off in todo.items():
                if G.subst(off, {a: X.C(0, 64)}) is pos and off is not pos and a in here:
                    pos = off; del todo[a]
                    break
            else:
                d = els.get(pos)
                if d is None: break
                used += 1
                if d.subset(self.skip): pos = X.add(pos, X.C(4, 64)); continue
                if d & self.skip: raise X.Undecided('lookahead: a code point is neither skipped nor used')
                return d
        if self.e.prove_le(st, X.scale(self.n.node, 4), pos): return 'none'
        if used or any(f is not None for f in els): raise X.Undecided('lookahead: what the path knows of the following text is not understood')
        return 'any'

    def known(self, st, els):
        """loop atoms the path says something about"""
        out = set(st.doms)
        for f in els: out |= f.atoms
        for key in st.facts:
            for x in key: out |= getattr(x[0] if isinstance(x, tuple) else x, 'atoms', frozenset())
        return out


class Step:
    """transfer relation of a step function with a small concrete state"""

    def __init__(self, ctx, e, init, step, size, classes, look=None):
        self.ctx, self.e, self.size, self.cl = ctx, e, size, classes
        self.look = look
        self.c = X.Atom('cp', 32, F.ALLCP)
        self.memo = {}
        self.finit, self.fstep = F.fn_of(e.p, init), F.fn_of(e.p, step)
        # ---- start: layout of the state and its possible values
        st = e.newstate()
        oid = self.obj(st, None)
        self.inits = []
        lay = set()
        for o in e.call(self.finit, [self.c.node, G.P(oid, G.Z64)], st):
            if o.kind != 'ret' or o.st.opaque: raise X.Undecided('segmentation start: undetermined path')
            lay |= {(k, n) for k, (n, v) in o.st.mem[oid].cells.items() if not (isinstance(v, X.E) and any(a.kind == 'stale' for a in v.atoms))}
            self.inits.append((o, oid))
        self.lay = sorted(lay)
        self.atoms = [X.Atom('s%d' % k, 8 * n) for k, n in self.lay]

    def obj(self, st, atoms):
        stale = lambda k, n: X.Atom('stale+%d' % k, 8 * n, kind='stale').node
        oid = self.e.new_obj(st, 'fixed', X.C(self.size, 64), stale, name='state')
        for (k, n), a in zip(self.lay if atoms else (), atoms or ()): st.mem[oid].cells[k] = (n, a.node)
        return oid

    def cells(self, st, oid):
        o = st.mem[oid]
        out = []
        for k, n in self.lay:
            v = self.e.rawload(st, o, X.C(k, 64), n)
            if not isinstance(v, X.E): raise X.Undecided('segmenter state holds a pointer')
            out.append(self.e.subst_singles(st, v))
        return out

    def value(self, ex, env, cls, cdom):
        """set of values of an expression for concrete state values and a class of code points"""
        ks = tuple((a.id, env[a]) for a in sorted((x for x in ex.atoms if x in env), key=lambda x: x.id))
        key = (ex.id, ks, cls, cdom if self.c in ex.atoms else None)
        r = self.memo.get(key)
        if r is None:
            x = G.subst(ex, {a: X.C(env[a], a.w) for a in ex.atoms if a in env})
            if not x.atoms: r = (int(x.a[0]),)
            elif x.atoms == {self.c}: r = tuple(int(v) for v in np.unique(X.values(x, self.c, cdom.points())))
            else: r = None
            self.memo[key] = r = r if r is not None else 'stale'
        return r

    def start(self):
        """[(state tuple, class index)]"""
        out = set()
        for o, oid in self.inits:
            cs = self.cells(o.st, oid)
            for i, c in enumerate(self.cl):
                d = o.st.dom(self.c) & c[-1]
                if not d: continue
                vals = [self.value(x, {}, i, d) for x in cs]
                if any(v == 'stale' for v in vals): raise X.Undecided('the start function leaves part of the state unset')
                for t in combos(vals): out.add((t, i))
        return out

    def analyse(self, doms, extra=lambda e, st: ()):
        """run the step on symbolic state bytes with the given domains"""
        e = self.e
        st = e.newstate()
        oid = self.obj(st, self.atoms)
        for a, d in zip(self.atoms, doms): a.dom = d
        args, self.lk = extra(e, st)
        outs = e.call(self.fstep, [self.c.node, *args, G.P(oid, G.Z64)], st)
        self.outs = outs
        self.paths = []
        lk = Look(e, outs, *self.lk) if self.lk else None
        for o in outs:
            if o.kind == 'backedge': continue
            if o.kind != 'ret':
                self.paths.append((o, None, None, None, None)); continue
            if o.st.opaque: raise X.Undecided('segmentation step: undetermined branch at ' + str(o.st.traillist()[-1:]))
            cs = self.cells(o.st, oid)
            r = e.subst_singles(o.st, e.asint(o.ret))
            self.paths.append((o, r, cs, [o.st.dom(a) for a in self.atoms], lk.of(o.st) if lk else 'any'))
        # index by class
        self.byclass = []
        for c in self.cl:
            l = []
            for p in self.paths:
                d = p[0].st.dom(self.c) & c[-1]
                if d: l.append((p, d))
            self.byclass.append(l)

    def next(self, t, i):
        """transitions of state tuple t on a code point of class i: [(look, decision, next state tuple, path)]"""
        key = ('n', t, i)
        r = self.memo.get(key)
        if r is not None: return r
        r = []
        env = dict(zip(self.atoms, t))
        for (o, ret, cs, ds, lk), cd in self.byclass[i]:
            if ret is None:
                if all(v in o.st.dom(a) for a, v in env.items()): r.append((lk, None, None, o, cd))
                continue
            if not all(v in d for d, v in zip(ds, t)): continue
            rv = self.value(ret, env, i, cd)
            if rv == 'stale': raise X.Undecided('break decision is an unresolved relation')
            vals = [self.value(x, env, i, cd) for x in cs]
            if any(v == 'stale' for v in vals): raise X.Undecided('segmenter state is an unresolved relation')
            for v in sorted({x & 1 for x in rv}):
                for n in combos(vals): r.append((lk, v, n, o, cd))
        self.memo[key] = r
        return r


def combos(vals):
    out = [()]
    for v in vals:
        if len(v) * len(out) > 64: raise X.Undecided('segmenter state does not depend on the character class only')
        out = [t + (x,) for t in out for x in v]
    return out
