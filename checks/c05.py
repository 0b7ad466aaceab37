"""C05: code point names agree with the UCD for every code point"""
import numpy as np
import ucd
import framework as F
import engine as G
import expr as X
from percp import site, beyond


def run(ctx):
    ctx.rule('The name lookup is reduced to the table entry it selects for each code point of 0..10FFFF; the text of the selected entry is read '
             'from the compiled constant and compared with DerivedName.txt.')
    p = ctx.program(['codepoint_properties.cpp', 'codepoint_properties_data.cpp', 'codepoint_properties_names.cpp'], ['props.cpp'])
    e = ctx.engine(p)
    f = F.fn_of(p, 'probe_name_entry')
    a = F.Atom('cp', 32, F.ALLCP)
    outs = e.call(f, [a.node], e.newstate())
    want = ucd.names()
    done = np.zeros(ucd.N, bool)
    for o in outs:
        pts = o.st.dom(a).points()
        if o.kind != 'ret' or not isinstance(o.ret, G.P) or o.ret.o is None:
            ctx.bad('name table entry', site(ctx, e, f), 'lookup of %s does not select a table entry' % F.ranges(pts)); continue
        ob = e.gobj(o.st, o.ret.o)
        offs = X.values(o.ret.off, a, pts) if o.ret.off.atoms else np.full(len(pts), o.ret.off.a[0], np.uint64)
        text = {}
        for off in np.unique(offs).tolist():
            ln = e.rawload(o.st, ob, F.C(off, 64), 8)
            pt = e.rawload(o.st, ob, F.C(off + 8, 64), 8)
            if ln.op != 'c': raise X.Undecided('name length is not constant')
            n = ln.a[0]
            if n == 0: text[off] = ''; continue
            if not isinstance(pt, G.P) or pt.o is None:
                text[off] = None; continue
            so = e.gobj(o.st, pt.o)
            k = pt.off.a[0]
            data = so.default.data
            if k + n > len(data): text[off] = None
            else: text[off] = bytes(data[k:k + n]).decode('latin1')
        badpts = []
        for c, off in zip(pts.tolist(), offs.tolist()):
            done[c] = True
            if text[off] != want[c]: badpts.append((c, text[off]))
        ctx.ok(len(pts) - len(badpts), 'code points compared')
        if badpts:
            ctx.bad('name agrees with DerivedName.txt', site(ctx, e, f), '%d code points, first U+%04X: "%s", published "%s"' % (len(badpts), badpts[0][0], badpts[0][1], want[badpts[0][0]]), key='names')
        ctx.sample({'entries': len(text), 'code points': len(pts)})
    if not done.all(): raise F.Broken('name lookup not analysed for every code point')
    beyond(ctx, e, ['probe_name_entry'])
    ctx.access_findings(e, 'name table access in bounds')
    ctx.absorb(e)
