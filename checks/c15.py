"""C15: the printable ASCII prefix scan"""
import framework as F
import engine as G
import expr as X
from dom import Dom
from percp import site
import c16

OK = Dom([0x20], [0x7F])
IMPL = [('scan.cpp', 'unsigned long unicode::detail::scan_for_text_ascii_simd<128ul>(', 128),
        ('scan256.cpp', 'unicode::detail::scan_for_text_ascii_256(', 256),
        ('scan512.cpp', 'unicode::detail::scan_for_text_ascii_512(', 512)]


def run(ctx):
    ctx.rule('For every vector width the scanner is followed over a text of unknown length and content. At every arrival at a loop header and at every return, each byte newly skipped must be known to lie in 20..7F; '
             'at a return the scan must have reached the end of the text, the column limit, or a byte outside 20..7F. All loads must lie inside the text. The dispatcher must hand both arguments unchanged to one of these.')
    for unit, name, width in IMPL:
        p = ctx.program([unit])
        f = next((g for m in p.mods for n, g in m.funcs.items() if g.defined and p.dem(n).startswith(name)), None)
        if f is None: raise F.Broken(name + ' is gone')
        one(ctx, p, f, width)
    c16.dispatch(ctx, c16.wide(ctx.program(c16.UNITS)), *c16.DISP[0])


def mark(e, st, gid):
    return e.subst_singles(st, e.asint(e.rawload(st, st.mem[gid], G.Z64, 8)))


def known(e, st, text, off):
    """possible values of the byte at off, as far as the path looked at it"""
    o = st.mem[text]
    for (k, n), v in o.reads.items():
        if n == 1 and (k is off or e.subst_singles(st, k) is off): return e.valdom(st, v)
    return None


def good_from(e, st, text, g, v):
    """bytes g..v-1 are all known to be printable"""
    d = e.subst_singles(st, X.sub(v, g))
    lo, hi = e.lrange(st, *e.lin(st, d))
    if lo is None or lo != hi: return None
    k = lo
    if not 0 <= k <= 4096: return None
    for j in range(k):
        d = known(e, st, text, X.add(g, X.C(j, 64)))
        if d is None or not d.subset(OK): return None
    return k


def one(ctx, p, f, width):
    e = ctx.engine(p)
    e.merge = True
    st = e.newstate()
    n = X.Atom('n', 64, Dom([0], [1 << 31]))
    lim = X.Atom('max', 64, Dom([0], [(1 << 64) - 1]))
    text = e.new_obj(st, 'array', n.node, 'input', 1, 'text')
    gid = e.new_obj(st, 'fixed', X.C(8, 64), 'zero', name='skipped')
    e.rawstore(st, gid, G.Z64, 8, G.Z64)

    def hook(st, fr, f, src, h):
        g = mark(e, st, gid)
        best, bv = -1, None
        vs = [fr.env.get(name) for name in e.phis(f, h)]
        offs = [v.off for v in vs if isinstance(v, G.P) and v.o == text]
        ints = [v for v in vs if isinstance(v, X.E) and v.w == 64]
        bases = {v.off for v in fr.env.values() if isinstance(v, G.P) and v.o == text} if ints else ()
        for v in offs + ints + [X.add(x, y) for x in bases for y in ints]:
            k = good_from(e, st, text, g, e.subst_singles(st, v))
            if k is not None and k > best: best, bv = k, v
        if bv is not None and best > 0: e.rawstore(st, gid, G.Z64, 8, bv)
    e.hdrhook = hook
    w = site(ctx, e, f)
    rule = 'skips exactly the printable ASCII prefix (%d-bit)' % width
    cnt = 0
    for o in e.call(f, [n.node, G.P(text, G.Z64), lim.node], st):
        if o.kind == 'backedge': continue
        cnt += 1
        s = o.st
        if o.kind != 'ret': ctx.bad(rule, ctx.where(G.loc_of(*o.loc)), 'does not return'); continue
        if s.opaque: raise X.Undecided('undetermined branch')
        g = mark(e, s, gid)
        r = e.subst_singles(s, e.asint(o.ret))
        k = good_from(e, s, text, g, r)
        if k is None:
            ctx.bad(rule, w, 'returns %s although the bytes from %s on are not known to be printable ASCII' % (X.show(r), X.show(g))); continue
        b = known(e, s, text, r)
        stop = b is not None and not (b & OK)
        atend = e.prove_le(s, n.node, r) or e.prove_le(s, lim.node, r)
        ctx.check(stop or atend, rule, w, 'stops at %s although the byte there may be printable and neither the end of the text nor the limit is reached' % X.show(r), 'returns')
        ctx.check(e.prove_le(s, r, n.node) and e.prove_le(s, r, lim.node), rule, w, 'returns %s, more than the text or the limit allows' % X.show(r), 'returns')
    if cnt < 2: raise F.Broken('too few paths')
    ctx.access_findings(e)
    ctx.absorb(e)
