"""C12: UTF-16 (and UTF-32, wide character) encoding and decoding of every scalar value"""
import numpy as np
import framework as F
import engine as G
import expr as X
from dom import Dom
from percp import site
from c11 import enc_check, pull, show

HI, LO = Dom([0xD800], [0xDBFF]), Dom([0xDC00], [0xDFFF])
BMP = Dom([0, 0xE000], [0xD7FF, 0xFFFF])
NOTLO = Dom([0, 0xE000], [0xDBFF, 0xFFFF])


def utf16(c):
    c = c.astype(np.uint64)
    n = np.where(c > 0x10FFFF, 0, np.where(c > 0xFFFF, 2, np.where((c >= 0xD800) & (c < 0xE000), 0, 1)))
    return n, [np.where(n == 2, 0xD7C0 + (c >> 10), c), 0xDC00 | c & 0x3FF]


def ident(c): return np.ones(len(c), int), [c.astype(np.uint64)]


def run(ctx):
    ctx.rule('Every UTF-16, UTF-32 and wide encoder is reduced to its transfer function over all code points and compared with the encoding form (no output for surrogates and values beyond 10FFFF in UTF-16). '
             'The decoders are analysed on symbolic units: pairs must give, bit for bit, the code point they encode; unpaired surrogates give no value.')
    p = ctx.program(['utf8.cpp'], ['codec.cpp'])
    e = ctx.engine(p)
    rule = 'encoding of every code point'
    enc_check(ctx, e, 'probe_enc16', utf16, rule, F.ALLCP)
    for pr in ('enc32', 'encw'): enc_check(ctx, e, 'probe_' + pr, ident, rule, F.ALLCP)
    # beyond the code space: nothing is written
    a = X.Atom('cp', 32, Dom([0x110000], [0xFFFFFFFF]))
    f = F.fn_of(p, 'probe_enc16')
    st = e.newstate()
    oid = e.new_obj(st, 'fixed', X.C(8, 64), 'undef', name='result')
    for o in e.call(f, [a.node, G.P(oid, G.Z64)], st):
        ctx.check(o.kind == 'ret' and e.subst_singles(o.st, e.asint(o.ret)) is X.C(0, 32), rule, site(ctx, e, f), 'enc16 writes units for %s' % o.st.dom(a).show(), 'out of range')
    rule = 'decoding of every sequence'
    U = lambda n, d: X.Atom(n, 16, d)
    probe = 'probe_dec16'
    w = site(ctx, e, F.fn_of(p, probe))

    def val(st, v, want):
        kn = lambda a: X.knownbits(st.dom(a), a.w)
        g = X.blf(v, kn)
        r = X.blf(want, kn)
        if g is None or r is None: raise X.Undecided('decoded value is not a bit form: %s' % v)
        return X._norm(g[0], g[1], 32) == X._norm(r[0], r[1], 32)
    a = U('u0', BMP)
    for st, r, v, used in pull(ctx, e, probe, [a, U('u1', Dom([0], [0xFFFF]))], 1, 16):
        ctx.check(r == 1 and used is X.C(1, 64) and val(st, v, X.zext(a.node, 32)), rule, w, 'unit %s: %s' % (show(st, [a]), 'no value' if r != 1 else 'wrong value or number of units'), 'decoded sequences')
    h, l = U('u0', HI), U('u1', LO)
    want = X.add(X.add(X.scale(X.zext(h.node, 32), 1024), X.zext(l.node, 32)), X.C(0x10000 - (0xD800 << 10) - 0xDC00, 32))
    for st, r, v, used in pull(ctx, e, probe, [h, l], 2, 16):
        ctx.check(r == 1 and used is X.C(2, 64) and val(st, v, want), rule, w, 'pair %s: %s' % (show(st, [h, l]), 'no value' if r != 1 else 'wrong value or number of units'), 'decoded sequences')
    rule = 'no value for an ill-formed sequence'
    for us in ([U('u0', LO), U('u1', Dom([0], [0xFFFF]))], [U('u0', HI), U('u1', NOTLO)]):
        for st, r, v, used in pull(ctx, e, probe, us, 2, 16):
            ctx.check(r == 0, rule, w, 'units %s give a value' % show(st, us), 'ill-formed sequences')
    for probe in ('probe_dec32', 'probe_decw'):
        a = X.Atom('u0', 32)
        for st, r, v, used in pull(ctx, e, probe, [a], 1, 32):
            ctx.check(r == 1 and used is X.C(1, 64) and v is a.node, 'decoding of every sequence', site(ctx, e, F.fn_of(p, probe)), '%s is not the identity' % probe, 'decoded sequences')
    ctx.access_findings(e)
    ctx.absorb(e)
