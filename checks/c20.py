"""C20: runs of script and presentation together"""
import re
import framework as F
import engine as G
import expr as X
import transduce as T
import canon as K
import c10, c19
from dom import Dom
from engine import C, P, Z64

SEG = (('script', 8), ('presentation', 32))


class Runs:
    def __init__(self, ctx, p): self.ctx, self.p = ctx, p

    def run(self):
        self.where = G.loc_of(*c19.entry(self.p, r'unicode::basic_run_segmenter<.*>::consume\('))
        self.bads = []
        for v in '21':
            if not self.bads: self.walk('probe_ranges_' + v)

    def walk(self, probe):
        ctx = self.ctx
        e = self.e = ctx.engine(self.p, [(re.compile(r), f) for r, f in [
            (r'unicode::script_segmenter::consume\(unicode::out', lambda *a: self.next(0, *a)), (r'unicode::emoji_segmenter::consume\(unicode::out', lambda *a: self.next(1, *a)),
            (r'unicode::emoji_segmenter::emoji_segmenter\(char32_t const\*, unsigned long\)', self.made), (r'sink_range', self.handed), (r'sink_end', self.end), (r'sink_more', self.more)]])
        e.tuples = True; e.tupw = 8; e.order = True; e.merge = True; e.lifetimes = True
        st = e.newstate()
        self.n = X.Atom('n', 64, Dom([0], [1 << 40])).node
        self.text = T.cptext(e, st, self.n)
        self.pos = ['cur'] + ['%s%d' % (x, i) for i in (0, 1) for x in 'be']
        self.g = g = c10.Ghost(e, st, [(x, 64, Z64) for x in self.pos])
        st.x['prop'] = (None, None)
        self.bads = []; self.asked = [0, 0]
        self.C = [X.Atom('property%d' % i, w, Dom([0], [(1 << w) - 1])).node for i, (n, w) in enumerate(SEG)]
        cn = self.cn = K.Canon(e, [self.n], [(x, lambda st, x=x: g.get(st, x)) for x in ('cur', 'e0', 'e1')], [self.text], [g.id], gap=1, lim=1, symbols=self.symbols, extra=self.extra)
        cnt = 0
        for o in cn.walk(self.bads, F.fn_of(self.p, probe), [P(self.text, Z64), self.n], st):
            if o.kind != 'ret': self.bads.append(('does not return', G.loc_of(*o.loc))); continue
            cnt += 1
            if o.st.opaque: raise X.Undecided('undetermined branch')
            if not any(ev[0] == 'end' for ev in o.st.eventlist()): raise F.Broken('the walk was not followed to its end')
            ctx.ok(1, 'walks')
        for t, loc in self.bads[:1]: ctx.bad('runs', ctx.where(loc), t)
        loc = cn.stuck()
        if loc is not None: ctx.bad('runs', ctx.where(loc), 'the walk goes round without reading on')
        if not self.bads and not min(self.asked): raise F.Broken('a segmenter is not asked')
        ctx.ok(len(cn.seen), 'walk states'); ctx.ok(sum(self.asked), 'segments asked for')
        if not cnt and not self.bads: raise F.Broken('no walk reaches its end')
        ctx.access_findings(e)
        ctx.absorb(e)

    def symbols(self, st): return {x: self.C[i] for i, x in enumerate(st.x['prop']) if x is not None}

    def extra(self, st):
        st.x['prop'] = tuple(None if x is None else self.C[i] for i, x in enumerate(st.x['prop']))
        # where the current segments begin does not matter any more
        return tuple(x is None for x in st.x['prop'])

    def same(self, st, a, b):
        e = self.e
        a = e.subst_singles(st, a); b = e.subst_singles(st, b)
        return a is b or e.prove_le(st, a, b) and e.prove_le(st, b, a)

    def made(self, e, st, fr, p, a):
        q, b, n = a
        if not (isinstance(b, P) and b.o == self.text and self.same(st, b.off, Z64) and self.same(st, e.asint(n), self.n)): self.bads.append(('the emoji segmenter is given another text', G.loc_of(fr.f, p.ins)))
        ob = st.wobj(q.o)
        e.rawstore(st, q.o, q.off, 8, P(self.text, Z64))
        for k in range(8, 48, 8): e.rawstore(st, q.o, X.add(q.off, C(k, 64)), 8, Z64)
        return [(st, None)]

    def next(self, i, e, st, fr, p, a):
        g = self.g
        loc = G.loc_of(fr.f, p.ins)
        q, size, prop = a
        self.asked[i] += 1
        name, w = SEG[i]
        stamp = e.rawload(st, st.mem[q.o], q.off, 8)
        if st.x['prop'][i] is None:
            base = e.subst_singles(st, q.off)
            if base.op != 'c': raise X.Undecided('place of a segmenter')
            if not any(isinstance(v, P) and v.o == self.text and self.same(st, v.off, Z64) for k, (n, v) in st.mem[q.o].cells.items() if base.a[0] <= k < base.a[0] + 48):
                self.bads.append(('the %s segmenter is not set up for the text' % name, loc))
            elif i == 0 and not any(n == 8 and isinstance(v, X.E) and self.same(st, v, self.n) for k, (n, v) in st.mem[q.o].cells.items() if base.a[0] <= k < base.a[0] + 48):
                self.bads.append(('the %s segmenter is not told the length of the text' % name, loc))
        elif not isinstance(stamp, X.E) or not self.same(st, stamp, g.get(st, 'e%d' % i)):
            self.bads.append(('the %s segmenter asked is not the one asked before' % name, loc))
        cur, last = g.get(st, 'cur'), g.get(st, 'e%d' % i)
        if not e.prove_le(st, last, cur): self.bads.append(('the next segment of the %s segmenter is asked for before the last one is used up' % name, loc))
        out = []
        for s, more in e.split(st, X.icmp('ult', last, self.n)):
            if not more:
                out.append((s, C(0, 1))); continue
            s.x['progress'] = True
            new = X.Atom('end', 64, Dom([1], [1 << 40])).node; v = X.Atom(name, w, Dom([0], [(1 << w) - 1])).node
            for c in (X.icmp('ule', new, self.n), X.icmp('ult', last, new)):
                l = [t for t, b in e.split(s, c) if b]
                if not l: raise X.Undecided('assumption about a segment')
                s = l[0]
            g.put(s, 'b%d' % i, last); g.put(s, 'e%d' % i, new)
            pr = list(s.x['prop']); pr[i] = v; s.x['prop'] = tuple(pr)
            e.rawstore(s, size.o, size.off, 8, new)
            e.rawstore(s, prop.o, prop.off, w // 8, v)
            e.rawstore(s, q.o, q.off, 8, new)
            out.append((s, C(1, 1)))
        return out

    def handed(self, e, st, fr, p, a):
        g = self.g
        loc = self.where
        start, end, p0, p1 = [e.subst_singles(st, e.asint(x)) for x in a]
        cur = g.get(st, 'cur')
        ends = [g.get(st, 'e%d' % i) for i in (0, 1)]
        for i in (0, 1):
            if st.x['prop'][i] is None or e.prove_le(st, ends[i], cur):
                self.bads.append(('a run is handed out before the %s at its start is known' % SEG[i][0], loc)); return []
        if not self.same(st, start, cur): self.bads.append(('a run starts at %s, the last one ended at %s' % (X.show(start), X.show(cur)), loc))
        elif not (any(self.same(st, end, x) for x in ends) and all(e.prove_le(st, end, x) for x in ends)): self.bads.append(('a run ends at %s, the segments it lies in end at %s and %s' % ((X.show(end),) + tuple(X.show(x) for x in ends)), loc))
        else:
            for i, v in enumerate((p0, p1)):
                if v is not e.subst_singles(st, st.x['prop'][i]): self.bads.append(('a run is handed out with another %s than that of the segment it lies in' % SEG[i][0], loc))
        self.ctx.ok(1, 'runs')
        if self.bads: return []
        g.put(st, 'cur', end)
        return None

    def end(self, e, st, fr, p, a):
        st.event('end')
        if not self.same(st, self.g.get(st, 'cur'), self.n): self.bads.append(('consume gives no run although text is left', self.where))
        return None

    def more(self, e, st, fr, p, a):
        self.bads.append((('consume gives another run after it said there are none', 'finished does not tell that the text is used up')[e.subst_singles(st, e.asint(a[0])).a[0] & 1], self.where))
        return None


def run(ctx):
    ctx.rule('The run segmenter is walked over a text of unknown length with both its segmenters replaced by any sequence of segments: each run must start where the last one ended, end at the nearer end of the two segments it lies in, and carry their properties.')
    p = ctx.program(['script_segmenter.cpp', 'emoji_segmenter.cpp', 'ucd.cpp', 'codepoint_properties.cpp', 'codepoint_properties_data.cpp', 'codepoint_properties_names.cpp'], ['seg.cpp'])
    Runs(ctx, p).run()
