"""C11: UTF-8 encoding and decoding of every scalar value"""
import numpy as np
import framework as F
import engine as G
import expr as X
from dom import Dom, EMPTY
from percp import site

LEAD = {1: Dom([0], [0x7F]), 2: Dom([0xC2], [0xDF]), 3: Dom([0xE0], [0xEF]), 4: Dom([0xF0], [0xF4])}
ANYLEAD = {2: Dom([0xC0], [0xDF]), 3: Dom([0xE0], [0xEF]), 4: Dom([0xF0], [0xF7])}
CONT = Dom([0x80], [0xBF])
NOCONT = Dom([0, 0xC0], [0x7F, 0xFF])


def utf8(c):
    c = c.astype(np.uint64)
    n = 1 + (c > 0x7F) + (c > 0x7FF) + (c > 0xFFFF)
    cols = [np.choose(n - 1, [c, 0xC0 | c >> 6, 0xE0 | c >> 12, 0xF0 | c >> 18]),
            np.choose(n - 1, [0 * c, 0x80 | c & 63, 0x80 | c >> 6 & 63, 0x80 | c >> 12 & 63]),
            np.choose(n - 1, [0 * c, 0 * c, 0x80 | c & 63, 0x80 | c >> 6 & 63]),
            np.choose(n - 1, [0 * c, 0 * c, 0 * c, 0x80 | c & 63])]
    return n, cols


def refbits(bs):
    """the code point as a bit-linear form over the byte atoms"""
    k = len(bs)
    if k == 1: return {(bs[0], i): 1 << i for i in range(7)}
    d = {(bs[0], i): 1 << (i + 6 * (k - 1)) for i in range(7 - k)}
    for j, b in enumerate(bs[1:], 1):
        for i in range(6): d[(b, i)] = 1 << (i + 6 * (k - 1 - j))
    return d


def formeq(st, v, bs):
    """v equals the code point the bytes encode, for every value they can have on this path"""
    kn = lambda a: X.knownbits(st.dom(a), a.w)
    got = X.blf(v, kn)
    if got is None: raise X.Undecided('decoded value is not a bit form: %s' % v)
    want = 0, {}
    d, c = {}, 0
    for (a, i), w in refbits(bs).items():
        o, z = kn(a)
        if o >> i & 1: c += w
        elif not z >> i & 1: d[(a, i)] = w
    return X._norm(got[0], got[1], v.w) == X._norm(c, d, v.w)


def enc_check(ctx, e, probe, ref, rule, dom, absent=None):
    from percp import listprobe
    f = F.fn_of(e.p, probe)
    w = site(ctx, e, f)
    good = 0
    for pts, ln, els, o in listprobe(ctx, e, probe, cap=8, dom=dom):
        if ln is None:
            ctx.bad(rule, ctx.where(G.loc_of(*o.loc)), '%s does not return for %s' % (probe, F.ranges(pts))); continue
        n, cols = ref(pts)
        bad = ln != n
        for k, col in enumerate(cols):
            m = (n > k) & ~bad
            if not m.any(): continue
            if k >= len(els) or els[k] is None: bad |= m; continue
            bad |= m & (els[k] != col)
        if bad.any():
            i = int(np.flatnonzero(bad)[0])
            hx = lambda l: ' '.join('%02X' % x for x in l) or '(nothing)'
            ctx.bad(rule, w, '%s: %s: U+%04X gives %s, expected %s' % (probe.replace('probe_', ''), F.ranges(pts[bad]), int(pts[i]),
                    hx([int(els[k][i]) for k in range(int(ln[i])) if els[k] is not None]), hx([int(c[i]) for c in cols[:int(n[i])]])))
        good += int((~bad).sum())
    ctx.ok(good, 'code points encoded')
    ctx.sample({'encoder': probe, 'code points': good})


def pull(ctx, e, probe, units, n, w):
    """outcomes of a pull decoder on a text of the given unit atoms: (state, has value, value, used)"""
    st = e.newstate()
    inp = e.new_obj(st, 'fixed', X.C(w // 8 * len(units), 64), 'undef', name='text')
    for i, a in enumerate(units): st.mem[inp].cells[i * (w // 8)] = (w // 8, a.node)
    v = e.new_obj(st, 'fixed', X.C(4, 64), 'undef', name='value')
    u = e.new_obj(st, 'fixed', X.C(8, 64), 'undef', name='used')
    for o in e.call(F.fn_of(e.p, probe), [G.P(inp, G.Z64), G.P(v, G.Z64), G.P(u, G.Z64)], st):
        if o.kind == 'backedge': continue
        if o.kind != 'ret': yield o.st, None, None, None; continue
        if o.st.opaque: raise X.Undecided('undetermined branch in ' + probe)
        r = e.subst_singles(o.st, e.asint(o.ret))
        if r.atoms: raise X.Undecided('%s: result kind is not determined' % probe)
        used = e.subst_singles(o.st, e.rawload(o.st, o.st.mem[u], G.Z64, 8))
        val = e.rawload(o.st, o.st.mem[v], G.Z64, 4) if r.a[0] == 1 else None
        yield o.st, int(r.a[0]), val, used


def show(st, bs): return ' '.join(st.dom(b).show() for b in bs)


def push_walk(ctx, e, probe, st, so, seq, i=0, kinds=(), vals=()):
    """feeds byte atoms one after the other; yields (state, kinds, values)"""
    if i == len(seq):
        yield st, kinds, vals; return
    v = e.new_obj(st, 'fixed', X.C(4, 64), 'undef', name='value')
    for o in e.call(F.fn_of(e.p, probe), [seq[i].node, G.P(v, G.Z64), G.P(so, G.Z64)], st):
        if o.kind == 'backedge': continue
        if o.kind != 'ret': yield o.st, kinds + (None,), vals; continue
        if o.st.opaque: raise X.Undecided('undetermined branch in ' + probe)
        r = e.subst_singles(o.st, e.asint(o.ret))
        if r.atoms: raise X.Undecided('%s: result kind is not determined' % probe)
        val = e.rawload(o.st, o.st.mem[v], G.Z64, 4) if r.a[0] == 1 else None
        yield from push_walk(ctx, e, probe, o.st, so, seq, i + 1, kinds + (int(r.a[0]),), vals + (val,))


def run(ctx):
    ctx.rule('Every UTF-8 encoder is reduced to its transfer function over all code points and compared with the UTF-8 bit distribution. Every decoder is analysed on symbolic bytes: '
             'for each sequence length the decoded value must be, bit for bit, the code point the bytes encode (compared as a linear form over the bits of the input), for every lead and continuation byte at once, '
             'from a fresh state, after any completed or rejected sequence, and after any truncated one.')
    p = ctx.program(['utf8.cpp'], ['codec.cpp'])
    e = ctx.engine(p)
    rule = 'encoding of every code point'
    for pr in ('to_utf8', 'enc8'): enc_check(ctx, e, 'probe_' + pr, utf8, rule, F.ALLCP)
    # ---- pull decoders
    rule = 'decoding of every sequence'
    B = lambda n, d: X.Atom(n, 8, d)
    for probe in ('probe_dec8', 'probe_from8p'):
        w = site(ctx, e, F.fn_of(p, probe))
        for k in (1, 2, 3, 4):
            bs = [B('b0', LEAD[k])] + [B('b%d' % i, CONT) for i in range(1, k)]
            for st, r, val, used in pull(ctx, e, probe, bs, k, 8):
                ok = r == 1 and used is X.C(k, 64) and formeq(st, val, bs)
                ctx.check(ok, rule, w, '%s: bytes %s: %s' % (probe, show(st, bs), 'no value' if r != 1 else 'consumes %s bytes' % used if used is not X.C(k, 64) else 'wrong code point'), 'decoded sequences')
    probe = 'probe_dec8'
    w = site(ctx, e, F.fn_of(p, probe))
    rule = 'no value for an ill-formed sequence'
    for st, r, val, used in pull(ctx, e, probe, [B('b0', Dom([0x80, 0xFE], [0xBF, 0xFF]))], 1, 8):
        ctx.check(r == 0, rule, w, '%s: byte %s gives a value' % (probe, ''), 'ill-formed sequences')
    for k in (2, 3, 4):
        for j in range(1, k):
            bs = [B('b0', ANYLEAD[k])] + [B('b%d' % i, CONT) for i in range(1, j)] + [B('b%d' % j, NOCONT)]
            for st, r, val, used in pull(ctx, e, probe, bs, k, 8):
                ctx.check(r == 0, rule, w, '%s: bytes %s give a value' % (probe, show(st, bs)), 'ill-formed sequences')
    # ---- push decoders
    for probe, inv in (('probe_push8', 0), ('probe_from8', 2), ('probe_from8i', 2)):
        base = 'probe_push8' if inv == 0 else 'probe_from8'
        w = site(ctx, e, F.fn_of(p, probe))
        size = int(e.call(F.fn_of(p, base + '_size'), [], e.newstate())[0].ret.a[0])

        def fresh():
            st = e.newstate()
            so = e.new_obj(st, 'fixed', X.C(size, 64), 'undef', name='decoder')
            outs = e.call(F.fn_of(p, base + '_init'), [G.P(so, G.Z64)], st)
            if len(outs) != 1 or outs[0].kind != 'ret': raise X.Undecided('decoder initialisation')
            return outs[0].st, so

        def seq(k, tag):
            return [B(tag + '0', LEAD[k])] + [B(tag + str(i), CONT) for i in range(1, k)]
        # what may come before: nothing, one complete sequence of each length, a rejected byte
        prefixes = [('', [], ())]
        for k in (1, 2, 3, 4): prefixes.append(('after a %d byte sequence' % k, seq(k, 'p'), (0,) * (k - 1) + (1,)))
        prefixes.append(('after a stray byte', [B('p', Dom([0x80, 0xF8], [0xBF, 0xFF]))], (inv,)))
        rule = 'decoding of every sequence'
        for text, pre, pk in prefixes:
            for k in (1, 2, 3, 4):
                bs = seq(k, 'b')
                st, so = fresh()
                for s2, kinds, vals in push_walk(ctx, e, probe, st, so, pre + bs):
                    want = pk + (0,) * (k - 1) + (1,)
                    ok = kinds == want and formeq(s2, vals[-1], bs)
                    if ok and pre and pk[-1] == 1: ok = formeq(s2, vals[len(pre) - 1], pre)
                    ctx.check(ok, rule, w, '%s: bytes %s%s: results %s, expected %s%s' % (probe, show(s2, bs), ' ' + text if text else '', kinds, want, '' if kinds != want else ' (wrong code point)'), 'decoded sequences')
        # a truncated sequence: rejected once when the next lead byte arrives, which starts afresh
        if inv == 2:
            rule = 'resynchronisation after a truncated sequence'
            for k in (2, 3, 4):
                for j in range(1, k):
                    pre = [B('p0', ANYLEAD[k])] + [B('p%d' % i, CONT) for i in range(1, j)]
                    for m in (2, 3, 4):
                        bs = seq(m, 'b')
                        st, so = fresh()
                        for s2, kinds, vals in push_walk(ctx, e, probe, st, so, pre + bs):
                            want = (0,) * j + (2,) + (0,) * (m - 2) + (1,)
                            ctx.check(kinds == want and formeq(s2, vals[-1], bs), rule, w, '%s: %s cut off by %s: results %s, expected %s%s' % (
                                probe, show(s2, pre), show(s2, bs), kinds, want, '' if kinds != want else ' (wrong code point)'), 'truncated sequences')
    ctx.access_findings(e)
    ctx.absorb(e)
