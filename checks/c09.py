"""C09: per-code-point normalization data and the Hangul algorithm"""
import numpy as np
import ucd
import framework as F
import engine as G
import expr as X
from dom import Dom
from percp import beyond, compare, comparelist, enums, site


def run(ctx):
    ctx.rule('Combining classes, decompositions, decomposition types, composition exclusions and quick-check values are reduced to their transfer functions over '
             '0..10FFFF and compared with UnicodeData.txt, CompositionExclusions.txt and DerivedNormalizationProps.txt; Hangul arithmetic is compared over the whole '
             '(L, V, T) box partition with the standard\'s formula.')
    p = ctx.program(['normalization.cpp'], ['casenorm.cpp'])
    e = ctx.engine(p)
    en = enums(p)
    dt = [None] * ucd.N
    m = ucd.decomp()
    tn = {'': 'Canonical', 'circle': 'Circle', 'compat': 'Compat', 'final': 'Final', 'font': 'Font', 'fraction': 'Fraction', 'initial': 'Initial',
          'isolated': 'Isolated', 'medial': 'Medial', 'narrow': 'Narrow', 'noBreak': 'Nobreak', 'small': 'Small', 'square': 'Square', 'sub': 'Sub',
          'super': 'Super', 'vertical': 'Vertical', 'wide': 'Wide'}
    names = {v: n.lower() for v, n in en['Decomposition_Type'].items()}
    for c in range(ucd.N):
        dt[c] = tn[m[c][0]].lower() if c in m else 'none'
    for c in range(ucd.SB, ucd.SB + 11172): dt[c] = 'canonical'
    compare(ctx, e, 'probe_ccc', ucd.ccc(), 'canonical combining class of every code point')
    compare(ctx, e, 'probe_dt', dt, 'decomposition type of every code point', names)
    hang = {c: ucd.fulldecomp(c, False) for c in range(ucd.SB, ucd.SB + 11172)}
    can = {c: l for c, (t, l) in m.items() if not t}
    comparelist(ctx, e, 'probe_cd', {**can, **hang}, 'canonical decomposition mapping of every code point')
    comparelist(ctx, e, 'probe_kd', {**{c: l for c, (t, l) in m.items()}, **hang}, 'compatibility decomposition mapping of every code point')
    ce = np.zeros(ucd.N, bool)
    for a, b, f in ucd.rows('CompositionExclusions.txt'): ce[a:b + 1] = True
    fce = np.zeros(ucd.N, bool); fce[list(ucd.comp_exclusion())] = True
    compare(ctx, e, 'probe_excl', ce, 'composition exclusion of every code point')
    compare(ctx, e, 'probe_fullexcl', fce, 'full composition exclusion of every code point')
    qc = ucd.quickcheck()
    for n, k, enum in (('nfc_qc', 'NFC_QC', 'NFC_Quick_Check'), ('nfkc_qc', 'NFKC_QC', 'NFKC_Quick_Check')):
        t = ['Yes', 'No', 'Maybe']
        compare(ctx, e, 'probe_' + n, [t[x] for x in qc[k].tolist()], 'normalization quick check of every code point', dict(en[enum]))
    for n, k in (('nfd_qc', 'NFD_QC'), ('nfkd_qc', 'NFKD_QC')):
        compare(ctx, e, 'probe_' + n, qc[k] == 0, 'normalization quick check of every code point')
    hst = ucd.hst()
    syl = np.zeros(ucd.N, bool); syl[ucd.SB:ucd.SB + 11172] = True
    compare(ctx, e, 'probe_h_syl', syl, 'Hangul syllable predicate')
    for n, base, cnt in (('l', ucd.LB, 19), ('v', ucd.VB, 21), ('t', ucd.TB + 1, 27)):
        b = np.zeros(ucd.N, bool); b[base:base + cnt] = True
        compare(ctx, e, 'probe_h_' + n, b, 'Hangul jamo predicate')
    comparelist(ctx, e, 'probe_h_dec', hang, 'Hangul decomposition of every syllable')
    compose(ctx, e)
    beyond(ctx, e, ['probe_' + n for n in ('ccc', 'dt', 'cd', 'kd', 'excl', 'fullexcl', 'nfc_qc', 'nfkd_qc', 'h_dec', 'h_l', 'h_v', 'h_t')])
    ctx.access_findings(e, 'table access in bounds')
    ctx.absorb(e)


def compose(ctx, e):
    """hangul_compose over all of (l, v, t): each path is a box of argument values"""
    f = F.fn_of(e.p, 'probe_h_comp')
    at = [X.Atom(n, 32, F.ALLCP) for n in 'lvt']
    want = [Dom.rng(ucd.LB, ucd.LB + 18), Dom.rng(ucd.VB, ucd.VB + 20), Dom.of([0]) | Dom.rng(ucd.TB + 1, ucd.TB + 27)]
    w = site(ctx, e, f)
    vol = 0
    for o in e.call(f, [a.node for a in at], e.newstate()):
        ds = [o.st.dom(a) & F.ALLCP for a in at]
        if o.kind != 'ret' or o.st.opaque: raise X.Undecided('hangul_compose: undetermined path')
        inter = [d & k for d, k in zip(ds, want)]
        box = all(inter)
        vol += ds[0].n * ds[1].n * ds[2].n
        r = o.ret
        if not r.atoms and r.a[0] == 0:
            ctx.check(not box, 'Hangul composition', w, 'rejects a composable triple %s' % ([x.show() for x in inter] if box else '',))
            continue
        if not all(d.subset(k) for d, k in zip(ds, want)):
            ctx.bad('Hangul composition', w, 'composes a triple outside the jamo ranges: %s' % [d.show() for d in ds]); continue
        g = np.meshgrid(*[d.points().astype(np.int64) for d in ds], indexing='ij')
        L, V, T = [x.ravel() for x in g]
        exp = ucd.SB + ((L - ucd.LB) * 21 + (V - ucd.VB)) * 28 + np.where(T == 0, 0, T - ucd.TB)
        got = X.ev(r, {a: x.astype(np.uint64) for a, x in zip(at, (L, V, T))}) if r.atoms else r.a[0]
        bad = np.flatnonzero(np.broadcast_to(got, exp.shape).astype(np.int64) != exp)
        if len(bad):
            i = bad[0]
            ctx.bad('Hangul composition', w, 'U+%04X U+%04X U+%04X composes to U+%04X, the standard says U+%04X' % (L[i], V[i], T[i], int(np.broadcast_to(got, exp.shape)[i]), exp[i]))
        ctx.ok(len(exp) - len(bad), 'jamo triples compared')
    if vol != 0x110000 ** 3: raise X.Undecided('hangul_compose: %d of the argument space analysed' % vol)
