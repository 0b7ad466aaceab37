"""Per-code-point comparison of an extracted transfer function with the published character data."""
import re
import subprocess
import numpy as np
import framework as F
import engine as G
import expr as X
import ucd


def enums(prog):
    """enum name -> {value: enumerator} from the debug information of the compiled program"""
    out = {}
    for m in prog.mods:
        txt = m.path if hasattr(m, 'path') else None
        t = open(txt).read() if txt else ''
        er = {}
        for mm in re.finditer(r'^!(\d+) = !DIEnumerator\(name: "(\w+)", value: (-?\d+)', t, re.M):
            er[mm.group(1)] = (mm.group(2), int(mm.group(3)))
        lists = {}
        if not er: continue
        for mm in re.finditer(r'^!(\d+) = !\{([!0-9, ]*)\}', t, re.M):
            lists[mm.group(1)] = re.findall(r'!(\d+)', mm.group(2))
        for mm in re.finditer(r'tag: DW_TAG_enumeration_type, name: "(\w+)".*?elements: !(\d+)', t):
            d = {}
            for k in lists.get(mm.group(2), ()):
                if k in er: d[er[k][1]] = er[k][0]
            out[mm.group(1)] = d
    return out


def compare(ctx, e, probe, want, rule, names=None, dom=None, where=None):
    """want: array/list over code points; None entries are not compared.  names: value -> display/compare text"""
    tab, aborts, outs = F.cp_function(ctx, e, probe)
    for d, o in aborts:
        ctx.bad(rule, ctx.where(G.loc_of(*o.loc)), '%s does not return for %s' % (probe, F.ranges(d.points())))
    f = F.fn_of(e.p, probe)
    vals = np.unique(tab)
    if names is not None:
        wcodes = {}
        rev = {n: v for v, n in names.items()}
        arr = np.empty(F.MAXCP + 1, np.int64)
        cache = {}
        for i, w in enumerate(want):
            if w is None: arr[i] = -1; continue
            c = cache.get(w)
            if c is None:
                c = cache[w] = rev.get(w, -2)
                if c == -2: ctx.bad(rule, site(ctx, e, f), '%s: no enumerator for published value "%s"' % (probe, w))
            arr[i] = c
        got = tab.astype(np.int64)
        neg = [v for v in names if v < 0]
        if neg: got = np.where(got >= 1 << 31, got - (1 << 32), got)
        cmpd = arr >= 0 if not neg else arr != -2
        if neg: cmpd = np.array([w is not None for w in want]) if any(w is None for w in want) else np.ones(len(got), bool)
        bad = cmpd & (got != arr)
        show = lambda v: names.get(int(v), int(v))
    else:
        arr = np.asarray(want).astype(np.int64)
        got = tab.astype(np.int64)
        cmpd = np.ones(len(got), bool)
        bad = got != arr
        show = lambda v: '%X' % int(v)
    if dom is not None:
        cmpd = cmpd & dom; bad = bad & dom
    n = int(cmpd.sum())
    nb = int(bad.sum())
    if nb:
        i = int(np.flatnonzero(bad)[0])
        ctx.bad(rule, site(ctx, e, f), '%s: %s: U+%04X gives %s, published %s' % (probe.replace('probe_', ''), F.ranges(np.flatnonzero(bad)), i, show(got[i]), want[i] if names is not None else show(arr[i])))
    ctx.ok(n - nb, 'code points compared')
    ctx.sample({'query': probe.replace('probe_', ''), 'decision paths': len(outs), 'code points': n, 'distinct values': len(vals)})
    return tab


def site(ctx, e, f):
    """definition site of the deepest library function the probe forwards to"""
    f.blocks
    own = e.p.dem(f.name)
    if own.startswith('unicode::') or ' unicode::' in own:
        for b, i in f.allinsts():
            l = f.mod.loc(i.dbg) if i.dbg else None
            if l: return ctx.where(l) + ' (' + own + ')'
    for b, i in f.allinsts():
        if i.op in ('call', 'invoke') and i.x['callee'][0] == 'glb':
            g = e.p.resolve(f.mod, i.x['callee'][1])
            if g is not None and 'unicode' in e.p.dem(g.name):
                g.blocks
                for b2, i2 in g.allinsts():
                    l = g.mod.loc(i2.dbg) if i2.dbg else None
                    if l: return ctx.where(l) + ' (' + e.p.dem(g.name) + ')'
    for b, i in f.allinsts():
        l = f.mod.loc(i.dbg) if i.dbg else None
        if l: return ctx.where(l)
    return f.name


def listprobe(ctx, e, probe, cap=24, dom=None):
    """transfer function of a probe (cp, out*) -> length: per analysed path (points, length, [element values])"""
    dom = dom or F.ALLCP
    f = F.fn_of(e.p, probe)
    st = e.newstate()
    a = X.Atom('cp', 32, dom)
    oid = e.new_obj(st, 'fixed', X.C(4 * cap, 64), 'undef', 4, 'result')
    outs = e.call(f, [a.node, G.P(oid, G.Z64)], st)
    n = 0
    for o in outs:
        d = o.st.dom(a) & dom
        pts = d.points()
        n += len(pts)
        if o.kind == 'abort':
            yield pts, None, None, o; continue
        if o.st.opaque: raise X.Undecided('undetermined branch in ' + probe)
        val = lambda v: X.values(v, a, pts) if v.atoms else np.full(len(pts), v.a[0], np.uint64)
        if o.ret is G.UNDEF: raise X.Undecided('undefined length from ' + probe)
        ln = val(e.asint(o.ret))
        m = int(ln.max()) if len(ln) else 0
        els = []
        for i in range(m):
            v = e.rawload(o.st, o.st.mem[oid], X.C(4 * i, 64), 4)
            els.append(None if v is G.UNDEF else val(e.asint(v)))
        yield pts, ln, els, o
    if n != len(dom.points()):
        raise X.Undecided('%s: %d of %d code points analysed' % (probe, n, len(dom.points())))


def comparelist(ctx, e, probe, want, rule, dom=None):
    """want: dict cp -> list; code points not in it map to []"""
    f = F.fn_of(e.p, probe)
    w = site(ctx, e, f)
    wk = np.zeros(F.MAXCP + 1, np.uint8)
    for c, l in want.items(): wk[c] = len(l)
    bad = []
    good = 0
    npath = 0
    for pts, ln, els, o in listprobe(ctx, e, probe, dom=dom):
        npath += 1
        if ln is None:
            ctx.bad(rule, ctx.where(G.loc_of(*o.loc)), '%s does not return for %s' % (probe, F.ranges(pts))); continue
        p = pts.astype(np.int64)
        diff = ln != wk[p]
        for i in np.flatnonzero(~diff & (wk[p] > 0)):
            c = int(p[i])
            for k, x in enumerate(want[c]):
                if els[k] is None or int(els[k][i]) != x: diff[i] = True; break
        for i in np.flatnonzero(diff):
            c = int(p[i])
            bad.append((c, [None if els[k] is None else int(els[k][i]) for k in range(int(ln[i]))]))
        good += int((~diff).sum())
    if bad:
        bad.sort()
        c, g = bad[0]
        hx = lambda l: ' '.join('?' if x is None else '%04X' % x for x in l) or '(none)'
        ctx.bad(rule, w, '%s: %s: U+%04X gives %s, published %s' % (probe.replace('probe_', ''), F.ranges([x for x, _ in bad]), c, hx(g), hx(want.get(c, []))))
    ctx.ok(good, 'code points compared')
    ctx.sample({'query': probe.replace('probe_', ''), 'decision paths': npath, 'non-trivial results': int((wk > 0).sum())})


def beyond(ctx, e, probes):
    """arguments outside the code space: the lookup must stay inside the tables and return (accesses are checked by the engine)"""
    a = X.Atom('cp', 32, F.Dom([F.MAXCP + 1], [0xFFFFFFFF]))
    for n in probes:
        f = F.fn_of(e.p, n)
        st = e.newstate()
        args = [a.node]
        if len(f.params) > 1: args.append(G.P(e.new_obj(st, 'fixed', X.C(96, 64), 'undef', 4, 'result'), G.Z64))
        for o in e.call(f, args, st):
            ctx.check(o.kind == 'ret', 'query returns for any 32-bit value', site(ctx, e, f), '%s does not return for %s' % (n, o.st.dom(a).show()), 'out-of-range arguments')
