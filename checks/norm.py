"""shared parts of the normalization checks (C10, C13, C26)"""
import re
import numpy as np
import ucd
import framework as F
import engine as G
import expr as X
import strings as S
import transduce as T
from dom import Dom
from percp import enums, site
from engine import C, P, Z64

UNITS = ['normalization.cpp']
FORMS = ('NFC', 'NFD', 'NFKC', 'NFKD')


def fn(p, pat, must=True):
    r = re.compile(pat)
    f = next((g for m in p.mods for n, g in m.funcs.items() if g.defined and r.match(p.dem(n))), None)
    if f is None and must: raise F.Broken('%s is gone' % pat)
    return f


class Norm:
    """per-code-point data as proven by C09's comparison"""

    def __init__(self, p):
        self.p = p
        self.ccc = np.asarray(ucd.ccc()).astype(np.uint8)
        self.ccvals = np.unique(self.ccc)
        self.qc = ucd.quickcheck()
        self.excl = np.zeros(ucd.N, np.uint8)
        for a, b, f in ucd.rows('CompositionExclusions.txt'): self.excl[a:b + 1] = 1
        en = enums(p)
        inv = lambda n: {v: k for k, v in en[n].items()}
        if any(n not in en for n in ('Normalization_Form', 'Quick_Check_Result', 'NFC_Quick_Check', 'NFKC_Quick_Check')): raise F.Broken('enumerations of normalization.h are gone')
        self.form = inv('Normalization_Form'); self.result = inv('Quick_Check_Result')
        self.q3 = {'NFC_QC': inv('NFC_Quick_Check'), 'NFKC_QC': inv('NFKC_Quick_Check')}
        self.cccat = {}

    # ---- models of the public per-code-point queries
    def cccof(self, e, st, x):
        """the combining class of x as a value of its own"""
        x = e.subst_singles(st, e.asint(x))
        if x.op == 'c': return C(int(self.ccc[x.a[0]]) if x.a[0] < ucd.N else 0, 8)
        a = self.cccat.get(x)
        if a is None: a = self.cccat[x] = X.Atom('ccc(%s)' % X.show(x)[:60], 8, Dom.of(self.ccvals.tolist()), 'ccc', x)
        if a not in st.doms and len(x.atoms) == 1:
            at, = x.atoms
            d = st.dom(at)
            if d.n <= F.MAXCP + 1:
                v = X.values(x, at, d.points()) if x.op != 'v' else d.points()
                st.doms[a] = Dom.of(np.unique(np.where(v < ucd.N, self.ccc[np.minimum(v, ucd.N - 1).astype(np.int64)], 0)).tolist())
        return e.subst_singles(st, a.node)

    def models(self):
        m = [(re.compile(r'unicode::canonical_combining_class\(char32_t\)$'), lambda e, st, fr, p, a: self.cccof(e, st, a[0])),
             (re.compile(r'unicode::is_composition_exclusion\(char32_t\)$'), lambda e, st, fr, p, a: [(s, C(v, 1)) for s, v in T.fork(e, st, a[0], self.excl)])]
        for n, k in (('nfc', 'NFC_QC'), ('nfkc', 'NFKC_QC')):
            v = self.q3[k]
            names = ('Yes', 'No', 'Maybe')
            m.append((re.compile(r'unicode::%s_quick_check\(char32_t\)$' % n), lambda e, st, fr, p, a, k=k, v=v: [(s, C(v[names[c]], 8)) for s, c in T.fork(e, st, a[0], self.qc[k])]))
        for n, k in (('nfd', 'NFD_QC'), ('nfkd', 'NFKD_QC')):
            m.append((re.compile(r'unicode::%s_quick_check\(char32_t\)$' % n), lambda e, st, fr, p, a, k=k: [(s, C(int(c == 0), 1)) for s, c in T.fork(e, st, a[0], self.qc[k])]))
        # helpers of the unit that give the combining class
        m.append((re.compile(r'unicode::(\(anonymous namespace\)::)?\w+\(char32_t\)$'), self.helper))
        return m

    _help = {}

    def helper(self, e, st, fr, p, a):
        """internal function of one code point with an 8-bit result: the combining class if it is that for every code point"""
        f = e.p.resolve(fr.f.mod, p.x['c'][1]) if p.x['c'] else None
        if f is None or f.ret != ('int', 8) or 'anonymous' not in e.p.dem(f.name) and 'internal' not in getattr(f, 'linkage', ''): return NotImplemented
        if f.name not in self._help:
            self._help[f.name] = self.isccc(e, f)
        if not self._help[f.name]: return NotImplemented
        return self.cccof(e, st, a[0])

    def isccc(self, e, f):
        e2 = G.Engine(e.p, [])
        a = X.Atom('cp', 32, F.ALLCP)
        try:
            for o in e2.call(f, [a.node], e2.newstate()):
                if o.kind != 'ret' or o.st.opaque: return False
                pts = o.st.dom(a).points()
                v = X.values(e2.asint(o.ret), a, pts) if o.ret.atoms else np.full(len(pts), o.ret.a[0], np.uint64)
                if not (v == self.ccc[pts.astype(np.int64)]).all(): return False
        except (X.Undecided, G.Unsupported): return False
        return True

    def dom(self, st, x):
        """code points x may be"""
        if x.op == 'c': return np.array([x.a[0]], np.int64)
        at = x.a[0]
        pts = st.dom(at).points().astype(np.int64)
        for y, a in self.cccat.items():         # what the path knows about combining classes
            if a in st.doms and set(y.atoms) == {at}:
                v = pts if y.op == 'v' else X.values(y, at, pts.astype(np.uint64)).astype(np.int64)
                c = np.where(v < ucd.N, self.ccc[np.minimum(v, ucd.N - 1)], 0)
                ok = np.zeros(256, bool); ok[st.dom(a).points().astype(np.int64)] = True
                pts = pts[ok[c]]
        return pts


def engine(ctx, p, models):
    s = S.Strings()
    e = ctx.engine(p, models + s.models())
    s.setup(e)
    e.merge = True
    e.small = True
    return e, s
