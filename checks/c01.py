"""C01: extended grapheme cluster boundaries for every sequence of code points"""
import itertools
import numpy as np
import ucd
import framework as F
import engine as G
import expr as X
from dom import Dom, EMPTY
from percp import site


def classes():
    """partition of the code point space by the properties UAX #29 looks at: [(gcb, incb, extpict, Dom)]"""
    gcb = np.array(ucd.gcb()); incb = np.array(ucd.incb()); ep = ucd.emoji()['Extended_Pictographic']
    out = []
    lab = {}
    key = np.zeros(ucd.N, np.int32)
    for c, k in enumerate(zip(gcb.tolist(), incb.tolist(), ep.tolist())):
        i = lab.get(k)
        if i is None: i = lab[k] = len(lab)
        key[c] = i
    for k, i in lab.items(): out.append((*k, G.ptsdom(np.arange(ucd.N, dtype=np.uint64), key == i)))
    return out


# reference automaton: history = (number of RI before is odd, InCB pattern state, ExtPict pattern state)
def ref_init(c):
    g, i, e = c[:3]
    return (1 if g == 'Regional_Indicator' else 0, 1 if i == 'Consonant' else 0, 1 if e else 0)


def ref_step(a, b, h):
    """(break?, next history) between class a and class b after history h (which includes a)"""
    A, B = a[0], b[0]
    ri, ic, ep = h
    nri = (ri + 1) % 2 if B == 'Regional_Indicator' else 0
    nic = 1 if b[1] == 'Consonant' else 2 if b[1] == 'Linker' and ic else ic if b[1] == 'Extend' and ic else 0
    nep = 1 if b[2] else 1 if B == 'Extend' and ep == 1 else 2 if B == 'ZWJ' and ep == 1 else 0
    n = (nri, nic, nep)
    ctl = ('Control', 'CR', 'LF')
    if A == 'CR' and B == 'LF': return False, n                                        # GB3
    if A in ctl or B in ctl: return True, n                                            # GB4 GB5
    if A == 'L' and B in ('L', 'V', 'LV', 'LVT'): return False, n                      # GB6
    if A in ('LV', 'V') and B in ('V', 'T'): return False, n                           # GB7
    if A in ('LVT', 'T') and B == 'T': return False, n                                 # GB8
    if B in ('Extend', 'ZWJ', 'SpacingMark') or A == 'Prepend': return False, n        # GB9 GB9a GB9b
    if ic == 2 and b[1] == 'Consonant': return False, n                                # GB9c
    if ep == 2 and A == 'ZWJ' and b[2]: return False, n                                # GB11
    if A == B == 'Regional_Indicator' and ri == 1: return False, n                     # GB12 GB13
    return True, n                                                                     # GB999


class Product:
    """reachable pairs (concrete segmenter state, reference history), each with the set of possible previous code points"""

    def __init__(self, ctx, e, init, step, size):
        self.ctx, self.e = ctx, e
        self.finit, self.fstep = F.fn_of(e.p, init), F.fn_of(e.p, step)
        self.size = size
        self.prev = X.Atom('prev', 32, F.ALLCP)
        self.cl = classes()
        self.runs = {}      # state key -> list of (prev dom, next dom, ret, successor key, opaque)
        self.cells = {}     # state key -> cells over self.prev
        self.rdom = {}      # state key -> domain analysed

    def obj(self, st, cells):
        stale = lambda k, n: X.Atom('stale+%d' % k, 8 * n, kind='stale').node
        oid = self.e.new_obj(st, 'fixed', X.C(self.size, 64), stale, name='state')
        for off, (n, v) in cells.items(): st.mem[oid].cells[off] = (n, v)
        return oid

    def canon(self, st, oid, atom):
        """state cells as expressions over self.prev, split into bytes so that the key does not depend on store widths"""
        d = st.dom(atom)
        out = {}
        o = st.mem[oid]
        for off in range(self.size):
            if not any(k <= off < k + n for k, (n, v) in o.cells.items()): continue
            b = self.e.rawload(st, o, X.C(off, 64), 1)
            if b is G.UNDEF: continue
            if not isinstance(b, X.E): raise X.Undecided('segmenter state holds a pointer')
            if b.atoms - {atom}:
                live = b.atoms - {atom}
                if any(x.kind != 'stale' and x.kind != 'undef' for x in live): 
                    # depends on the code point before: enumerate if it is constant on the path
                    b2 = self.e.subst_singles(st, b)
                    if b2.atoms - {atom}:
                        vals = [self.const(st, b)]
                        if vals[0] is None: raise X.Undecided('segmenter state depends on two code points')
                        b2 = X.C(vals[0], 8)
                    b = b2
                else: continue
            if b.atoms:
                b = G.subst(b, {atom: self.prev.node})
            out[off] = (1, b)
        key = tuple((k, v.id) for k, (n, v) in sorted(out.items()))
        self.cells.setdefault(key, out)
        return key

    def const(self, st, b):
        if len(b.atoms) == 1:
            a, = b.atoms
            v = np.unique(X.values(b, a, st.dom(a).points()))
            if len(v) == 1: return int(v[0])
        return None

    def start(self):
        st = self.e.newstate()
        c = X.Atom('cp', 32, F.ALLCP)
        oid = self.obj(st, {})
        out = []
        for o in self.e.call(self.finit, [c.node, G.P(oid, G.Z64)], st):
            if o.kind != 'ret' or o.st.opaque: raise X.Undecided('segmentation start: undetermined path')
            out.append((self.canon(o.st, oid, c), o.st.dom(c) & F.ALLCP))
        return out

    def step(self, key, dom):
        """transfer of one step from a concrete state, for all previous code points in dom"""
        have = self.rdom.get(key)
        if have is not None and dom.subset(have): return self.runs[key]
        if have is not None: dom = dom | have
        self.prev.dom = dom
        st = self.e.newstate()
        oid = self.obj(st, self.cells[key])
        c = X.Atom('cp', 32, F.ALLCP)
        res = []
        outs = self.e.call(self.fstep, [c.node, G.P(oid, G.Z64)], st)
        for o in outs:
            pd, nd = o.st.dom(self.prev) & dom, o.st.dom(c) & F.ALLCP
            stale = [a for a in o.st.doms if a.kind == 'stale']
            if o.kind != 'ret':
                res.append((pd, nd, None, None, o, None)); continue
            if o.st.opaque: raise X.Undecided('segmentation step: undetermined branch')
            r = self.e.asint(o.ret)
            # the decision may be left as an expression over the two code points
            for p2, n2, v in self.decide(o.st, r, c, pd, nd):
                s2 = o.st.copy(); s2.doms = dict(s2.doms); s2.doms[c] = n2; s2.doms[self.prev] = p2
                res.append((p2, n2, v, self.canon(s2, oid, c), o, stale))
        self.runs[key] = res
        self.rdom[key] = dom
        return res

    def decide(self, st, r, c, pd, nd):
        if not r.atoms:
            yield pd, nd, r.a[0] & 1; return
        if r.atoms <= {c}:
            v = X.values(r, c, nd.points()) & 1
            for x in (0, 1):
                d = G.ptsdom(nd.points(), v == x)
                if d: yield pd, d, x
            return
        if r.atoms <= {self.prev}:
            v = X.values(r, self.prev, pd.points()) & 1
            for x in (0, 1):
                d = G.ptsdom(pd.points(), v == x)
                if d: yield d, nd, x
            return
        raise X.Undecided('break decision is an unresolved relation of two code points')


def cname(c): return '/'.join(x for x in (c[0], c[1] if c[1] != 'None' else '', 'ExtPict' if c[2] else '') if x)


def run(ctx):
    ctx.rule('The start and step functions of the segmenter are reduced to transfer functions (state, code point) -> (boundary, state); all pairs of reachable segmenter '
             'state and UAX #29 rule history are enumerated as a product automaton over the UCD classes, and at every reachable pair the boundary decision must be the one rules GB3..GB999 give.')
    p = ctx.program(['grapheme_segmenter.cpp', 'codepoint_properties.cpp', 'codepoint_properties_data.cpp', 'codepoint_properties_names.cpp'], ['seg.cpp'])
    e = ctx.engine(p)
    size = int(e.call(F.fn_of(p, 'probe_g_size'), [], e.newstate())[0].ret.a[0])
    P = Product(ctx, e, 'probe_g_init', 'probe_g_step', size)
    w = site(ctx, e, P.fstep)
    states = {}           # (key, history) -> dom of previous code point
    work = []

    def reach(key, h, d):
        if not d: return
        old = states.get((key, h), EMPTY)
        if d.subset(old): return
        states[(key, h)] = old | d
        work.append((key, h))
    for key, d in P.start():
        for c in P.cl:
            reach(key, ref_init(c), d & c[3])
    n = 0
    failed = set()
    while work:
        # batch: analyse a state for everything currently known about it
        key, h = work.pop()
        d = states[(key, h)]
        alld = EMPTY
        for (k2, _), d2 in states.items():
            if k2 == key: alld = alld | d2
        if len(P.runs) > 400: raise X.Undecided('segmenter state space does not stay small')
        done = getattr(P, 'done', None)
        if done is None: done = P.done = {}
        before = done.get((key, h), EMPTY)
        new = d - before
        if not new: continue
        done[(key, h)] = d
        for pd, nd, v, nk, o, stale in P.step(key, alld):
            pd = pd & new
            if not pd: continue
            for a in P.cl:
                ad = pd & a[3]
                if not ad: continue
                for b in P.cl:
                    bd = nd & b[3]
                    if not bd: continue
                    wb, nh = ref_step(a, b, h)
                    if v is None:
                        ctx.bad('grapheme boundary', ctx.where(G.loc_of(*o.loc)), 'the step does not return between %s and %s' % (cname(a), cname(b))); continue
                    if bool(v) != wb:
                        k = (cname(a), cname(b), h)
                        if k not in failed and len(failed) < 40:
                            failed.add(k)
                            ctx.bad('grapheme boundary', w, 'between U+%04X (%s) and U+%04X (%s), with RI parity/InCB/ExtPict history %s: %s, UAX #29 says %s%s' % (
                                ad.s[0], cname(a), bd.s[0], cname(b), h, 'break' if v else 'no break', 'break' if wb else 'no break',
                                ' (decided by state the start function does not set)' if stale else ''))
                        continue
                    n += 1
                    reach(nk, nh, bd)
    ctx.ok(n, 'decisions (state, history, class pair) compared')
    ctx.counts['product states'] = len(states)
    ctx.counts['segmenter states'] = len(P.runs)
    ctx.counts['UCD classes'] = len(P.cl)
    for (k, h), d in list(states.items())[:6]: ctx.sample({'history': h, 'previous code points': d.show()})
    if len(P.cl) < 15 or n < 500: raise F.Broken('too few decisions analysed')
    ctx.access_findings(e, 'memory access in bounds')
    ctx.absorb(e)
