"""C23: segmenter iterators"""
import re
import framework as F
import engine as G
import expr as X
import transduce as T
import c10
from dom import Dom
from percp import site
from engine import C, P, Z64

MORE = {0: 'operator bool and codepointsAvailable disagree', 1: 'operator++ does not return the segmenter', 2: 'operator bool is true at the end of the text', 3: 'advancing at the end makes characters available',
        4: 'advancing at the end gives another segment', 5: 'size() is not the length of the word', 6: 'empty() does not tell whether the word is empty'}


def run(ctx):
    ctx.rule('The walk over all segments is followed over a text of unknown length and content with the start and step functions replaced by recorders that may find a boundary anywhere: each character must be offered exactly once, '
             'in order, to one carried-on state (for words, with exactly the rest of the text to look ahead at), a character before which a boundary was found must open the next segment, and each segment handed out must run from the end of '
             'the previous one to the boundary just found or the end of the text. Advancing at the end must stay there.')
    p = ctx.program(['grapheme_segmenter.cpp', 'word_segmenter.cpp', 'codepoint_properties.cpp', 'codepoint_properties_data.cpp', 'codepoint_properties_names.cpp'], ['seg.cpp'])
    names = [('g', 'grapheme'), ('w', 'word')]
    for k, name in names:
        for v in '210': Walk(ctx, p, name, 'probe_walk_%s%s' % (k, v), v != '0').run()


class Walk:
    def __init__(self, ctx, p, name, probe, text):
        self.ctx = ctx; self.p = p; self.name = name; self.probe = probe; self.hastext = text

    def same(self, st, a, b):
        e = self.e
        a = e.subst_singles(st, a); b = e.subst_singles(st, b)
        return a is b or e.prove_le(st, a, b) and e.prove_le(st, b, a)

    def feed(self, e, st, fr, p, node, sp):
        """character node is handed to the step functions with the state at sp; gives its position"""
        w = self.g.get(st, 'fed')
        loc = G.loc_of(fr.f, p.ins)
        o = st.mem[self.text]
        off = e.subst_singles(st, X.scale(w, 4))
        want = next((v for (k, n), v in o.reads.items() if n == 4 and (k is off or self.same(st, k, off))), None)
        if want is None or e.subst_singles(st, node) is not e.subst_singles(st, want):
            st.event('mismatch', 'the %s segmentation is not given the characters of the text one after the other (character %s is next)' % (self.name, X.show(w)), loc)
        if not self.real(st, sp):
            st.event('mismatch', 'the %s segmentation is given no state' % self.name, loc)
        return w, loc

    def token(self, st, sp, v):
        """the state now is the one after v calls"""
        e = self.e
        st.x.pop('live', None)
        e.rawstore(st, sp.o, sp.off, 1, v)
        for b in range(1, self.size): e.rawstore(st, sp.o, X.add(sp.off, C(b, 64)), 1, X.Atom('state', 8, Dom([0], [255])).node)
        st.x['live'] = (sp.o, e.subst_singles(st, sp.off), self.size)

    def init(self, e, st, fr, p, a):
        w, loc = self.feed(e, st, fr, p, a[0], a[1])
        g = self.g
        if self.con(st, 'open') != 0: st.event('mismatch', 'a segment is opened although no boundary was found before the character', loc)
        if not self.same(st, w, g.get(st, 'start')): st.event('mismatch', 'a segment is opened before the last one was handed out', loc)
        g.put(st, 'fed', X.add(w, C(1, 64)))
        g.put(st, 'open', C(1, 8)); g.put(st, 'some', C(1, 8))
        self.count(st, a[1])
        return None

    def real(self, st, sp): return isinstance(sp, P) and sp.o in st.mem

    def con(self, st, n):
        v = self.e.subst_singles(st, self.g.get(st, n))
        return v.a[0] if v.op == 'c' else None

    def count(self, st, sp):
        if not self.real(st, sp): return
        t = C((self.con(st, 'calls') + 1) % 3, 8)
        self.g.put(st, 'calls', t)
        self.token(st, sp, t)

    def step(self, e, st, fr, p, a):
        sp = a[-1]
        w, loc = self.feed(e, st, fr, p, a[0], sp)
        g = self.g
        if self.con(st, 'open') != 1: st.event('mismatch', 'a character is tested that belongs to no open segment', loc)
        if self.real(st, sp):
            t = e.rawload(st, st.mem[sp.o], sp.off, 1)
            t = t if t is G.UNDEF else e.subst_singles(st, e.asint(t))
            if t is G.UNDEF or not self.same(st, t, g.get(st, 'calls')):
                st.event('mismatch', 'a character is not tested with the state the one before it left', loc)
            if st.x.get('dirty'): st.event('mismatch', 'the segmentation state is changed in the middle of a segment', st.x['dirty'])
        if len(a) == 4:
            rest = X.sub(self.n, X.add(w, C(1, 64)))
            if not (isinstance(a[1], P) and a[1].o == self.text and self.same(st, a[1].off, X.scale(X.add(w, C(1, 64)), 4)) and self.same(st, e.asint(a[2]), rest)):
                st.event('mismatch', 'the word segmentation is not given the rest of the text to look ahead', loc)
        s2 = st.copy()
        st.forks += 1; s2.forks += 1; st.unb += 1; s2.unb += 1
        self.count(st, sp); self.count(s2, sp)
        g.put(st, 'open', C(0, 8))
        st.x.pop('live', None)
        g.put(s2, 'fed', X.add(w, C(1, 64)))
        return [(st, C(1, 1)), (s2, C(0, 1))]

    def cluster(self, e, st, fr, p, a):
        g = self.g
        q, n = a[0], e.asint(a[1])
        start = g.get(st, 'start'); fed = g.get(st, 'fed')
        loc = self.where
        n = e.subst_singles(st, n)
        st.event('handed', n)
        if not self.same(st, n, X.sub(fed, start)):
            st.event('mismatch', 'a segment of %s characters is handed out, %s were found to belong to it' % (X.show(n), X.show(e.subst_singles(st, X.sub(fed, start)))), loc)
        elif not (isinstance(q, P) and q.o == self.text and self.same(st, q.off, X.scale(start, 4))) and not self.same(st, n, Z64):
            st.event('mismatch', 'a segment does not start where the last one ended', loc)
        if self.con(st, 'open') != 0 and not self.same(st, fed, self.n):
            st.event('mismatch', 'a segment is handed out although neither a boundary nor the end of the text was reached', loc)
        if self.con(st, 'some') != 1 and not self.same(st, self.n, Z64): st.event('mismatch', 'an empty segment is handed out', loc)
        g.put(st, 'start', fed); g.put(st, 'open', C(0, 8)); g.put(st, 'some', C(0, 8))
        return None

    def end(self, e, st, fr, p, a):
        g = self.g
        st.event('end')
        if not self.same(st, g.get(st, 'start'), self.n):
            st.event('mismatch', 'the walk ends although text is left (%s of %s characters handed out)' % (X.show(g.get(st, 'start')), X.show(self.n)), self.where)
        return None

    def more(self, e, st, fr, p, a):
        st.event('mismatch', MORE[e.subst_singles(st, e.asint(a[0])).a[0]], self.where)
        return None

    def setup(self, models, cells=[], top=1 << 40):
        ctx, p, nm = self.ctx, self.p, self.name
        late = [(r'unicode::%s_process_init\(' % nm, self.init), (r'unicode::%s_process_breakable\(' % nm, self.step)] + models
        e = self.e = ctx.engine(p, [(re.compile(r), f) for r, f in late])
        e.tuples = True
        e.tupw = 8
        e.order = True
        e.merge = True
        st = e.newstate()
        sz = e.call(F.fn_of(p, 'probe_%s_size' % nm[0]), [], st)[0].ret
        self.size = int(sz.a[0])
        raw = e.rawstore

        def rawstore(st, oid, off, n, v, loc=None):
            lv = st.x.get('live')
            if loc is not None and lv is not None and oid == lv[0]:
                d = e.subst_singles(st, X.sub(off, lv[1]))
                if d.op == 'c' and (d.a[0] < lv[2] or d.a[0] > (1 << 64) - n): st.x['dirty'] = loc
            return raw(st, oid, off, n, v, loc)
        e.rawstore = rawstore
        st = e.newstate()
        if self.hastext:
            n = X.Atom('n', 64, Dom([0], [top]))
            self.n = n.node
        else: self.n = Z64
        self.text = T.cptext(e, st, self.n)
        self.g = c10.Ghost(e, st, [('fed', 64, Z64), ('start', 64, Z64), ('open', 8, C(0, 8)), ('calls', 8, C(0, 8)), ('some', 8, C(0, 8))] + cells)
        return st

    def run(self):
        ctx, p = self.ctx, self.p
        nm = self.name
        st = self.setup([(r'sink_cluster', self.cluster), (r'sink_end', self.end), (r'sink_more', self.more)])
        e = self.e
        f = F.fn_of(p, self.probe)
        self.where = self.place()
        rule = '%s segmenter walk' % nm
        cnt = 0
        try: outs = e.call(f, [P(self.text, Z64), P(self.text, X.scale(self.n, 4))], st)
        except G.Unsupported as x:
            # thousands of iterations without looking at anything new
            if 'loop not bounded in void walk<' not in str(x): raise
            ctx.bad(rule, ctx.where(self.where), 'the walk does not get to the end of the text: advancing does not move the segmenter')
            return
        for o in outs:
            evs = o.st.eventlist()
            bad = [ev for ev in evs if ev[0] == 'mismatch']
            for ev in bad[:1]: ctx.bad(rule, ctx.where(ev[2]), ev[1])
            if o.kind == 'backedge':
                if not bad: ctx.ok(1, 'iterations')
                continue
            if o.kind != 'ret':
                if not bad: ctx.bad(rule, ctx.where(G.loc_of(*o.loc)), 'does not return')
                continue
            cnt += 1
            if o.st.opaque and bad: raise X.Undecided('undetermined branch')
            if not any(ev[0] == 'end' for ev in evs): raise F.Broken('the walk was not followed to its end')
            if not bad: ctx.ok(1, 'walks')
        if not cnt: raise F.Broken('no walk reaches its end')
        ctx.access_findings(e)
        ctx.absorb(e)

    def place(self):
        """where the segmenter is advanced"""
        p = self.p
        for m in p.mods:
            for f in m.funcs.values():
                if not f.defined: continue
                for b, i in f.allinsts():
                    if i.op in ('call', 'invoke') and i.x['callee'][0] == 'glb' and p.dem(i.x['callee'][1]).startswith('unicode::%s_process_init(' % self.name):
                        loc = G.loc_of(f, i)
                        if 'src/libunicode/' in str(loc): return loc
        raise F.Broken('no user of %s_process_init' % self.name)
