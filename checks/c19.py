"""C19: runs of one script"""
import re
import ucd
import framework as F
import engine as G
import expr as X
import transduce as T
import canon as K
import c10
import percp
from dom import Dom
from engine import C, P, Z64

UNSPECIFIC = ('Invalid', 'Common', 'Inherited')


class Runs:
    def __init__(self, ctx, p):
        self.ctx, self.p = ctx, p
        en = {k: v for v, k in percp.enums(p)['Script'].items()}
        self.names = {v: k for k, v in en.items()}
        sc, sx = ucd.script(), ucd.scx()
        cls = {(sc[c], tuple(sx[c]) if c in sx else None) for c in range(ucd.N)}
        miss = {s for s, l in cls for s in (s,) + (l or ())} - set(en)
        if miss: raise F.Broken('scripts without a value: %s' % sorted(miss))
        self.lists = sorted({(en[s], tuple(en[x] for x in l)) for s, l in cls if l is not None})
        self.single = sorted(en[s] for s, l in cls if l is None and s not in UNSPECIFIC)
        self.common = [en[s] for s in ('Common', 'Inherited') if (s, None) in cls]
        self.low = {en[s] for s in UNSPECIFIC}
        self.start = en['Common']
        self.spec = Dom(*ranges(self.single))
        if len(self.lists) < 20 or len(self.single) < 100: raise F.Broken('scripts')

    def run(self):
        self.reach = reaching(self.p, r'unicode::script\(')
        self.where = G.loc_of(*entry(self.p, r'.*unicode::script_segmenter::consume\(\)'))
        for v in ('opt', '2', '1', '0'):
            self.full = v == '2'
            self.walk('probe_scripts_' + v, v != '0')

    def engine(self):
        e = self.e = self.ctx.engine(self.p, [(re.compile(r), f) for r, f in
            [(r'unicode::script\(', self.script), (r'unicode::script_extensions\(', self.exts), (r'sink_script_run', self.handed), (r'sink_end', self.end), (r'sink_more', self.more)]])
        e.tuples = True; e.tupw = 8; e.order = True; e.merge = True; e.lifetimes = True
        e.maxsteps = 1 << 40
        return e

    def walk(self, probe, text):
        ctx = self.ctx
        e = self.engine()
        self.bads = []
        self.shapes = self.shape()
        st = e.newstate()
        self.n = X.Atom('n', 64, Dom([0], [1 << 40])).node if text else Z64
        self.text = T.cptext(e, st, self.n)
        self.g = c10.Ghost(e, st, [('fed', 64, Z64), ('closed', 8, C(0, 8)), ('open', 8, C(0, 8))])
        self.tables = {}
        for i, (s, l) in enumerate(self.lists):
            o = self.tables[i] = e.new_obj(st, 'fixed', C(len(l), 64), 'undef', name='extensions')
            for k, v in enumerate(l): e.rawstore(st, o, C(k, 64), 1, C(v, 8))
        st.x['cur'] = (C(self.start, 8),); st.x['prio'] = None; st.x['prev'] = None; st.x['last'] = None
        args = [P(self.text, Z64), self.n, X.Atom('v', 8, Dom([0], [255])).node]
        f = F.fn_of(self.p, probe)
        base = lambda st: self.g.get(st, 'fed')
        self.layout()
        self.first = True
        nobj = e.nobj
        track = K.tracked(e, base, lambda: e.call(f, args, st.copy())) if text else ()
        e.nobj = nobj
        self.first = False
        if text and not track: raise F.Broken('no position in the segmenter')
        cn = self.cn = K.Canon(e, [self.n], [('fed', base)], [self.text], [self.g.id] + list(self.tables.values()), only=self.consuming, rounds=4000,
                               symbols=self.symbols, extra=self.extra, consts=self.tables.values(), gap=1, lim=1, wait=lambda st: st.x['prev'] is not None, track=track, reads=lambda st: st.x['last'] is not None, forget=self.stale)
        self.S = X.Atom('script', 8, self.spec).node; self.S2 = X.Atom('script of the run before', 8, self.spec).node
        cnt = 0
        for o in cn.walk(self.bads, f, args, st):
            if o.kind != 'ret': self.bads.append(('does not return', G.loc_of(*o.loc))); continue
            cnt += 1
            if o.st.opaque: raise X.Undecided('undetermined branch')
            if not any(ev[0] == 'end' for ev in o.st.eventlist()): raise F.Broken('the walk was not followed to its end')
            ctx.ok(1, 'walks')
        for t, loc in self.bads[:1]: ctx.bad('script runs', ctx.where(loc), t)
        loc = cn.stuck()
        if loc is not None: ctx.bad('script runs', ctx.where(loc), 'the walk goes round without reading on')
        ctx.ok(len(cn.seen), 'walk states')
        if not cnt and not self.bads: raise F.Broken('no walk reaches its end')
        ctx.access_findings(e)
        ctx.absorb(e)

    # ------------------------------------------------------------------ layouts
    def shape(self):
        """how an optional list is returned: cells as (offset, bytes, 'p' | 'n' | value)"""
        e = self.e
        r = []
        for name in ('probe_scx_put', 'probe_scx_none'):
            f = F.fn_of(self.p, name)
            st = e.newstate()
            o = e.new_obj(st, 'fixed', C(64, 64), 'zero', name='list'); q = e.new_obj(st, 'fixed', C(64, 64), 'undef', name='data')
            n = X.Atom('count', 64, Dom([1], [64])).node
            out = [x for x in e.call(f, [P(o, Z64), P(q, Z64), n][:len(f.params)], st) if x.kind == 'ret']
            if len(out) != 1: raise F.Broken(name + repr([(x.kind, x.st.eventlist()) for x in out]))
            cells = []
            for k, (w, v) in sorted(out[0].st.mem[o].cells.items()):
                if isinstance(v, P): cells.append((k, w, 'p'))
                elif isinstance(v, X.E): cells.append((k, w, 'n' if v.atoms else v))
                else: raise F.Broken('layout of an optional list')
            r.append(cells)
        if sum(c[2] == 'p' for c in r[0]) != 1 or sum(c[2] == 'n' for c in r[0]) != 1: raise F.Broken('layout of an optional list')
        return r

    def layout(self):
        """where a new segmenter keeps its set of scripts: (first, count)"""
        self.lay = None
        e = self.e
        s = e.newstate()
        o = e.new_obj(s, 'fixed', C(256, 64), 'undef', name='segmenter'); t = T.cptext(e, s, X.Atom('size', 64, Dom([1], [1 << 40])).node)
        out = [x for x in e.call(F.fn_of(self.p, 'probe_ss_init'), [P(o, Z64), P(t, Z64), X.Atom('size', 64, Dom([1], [1 << 40])).node], s) if x.kind == 'ret']
        if len(out) != 1: return
        cells = out[0].st.mem[o].cells
        con = lambda v, n: isinstance(v, X.E) and v.op == 'c' and v.a[0] == n
        z = [k for k, (w, v) in cells.items() if w == 8 and con(v, 1)]
        b = [k for k, (w, v) in cells.items() if w == 1 and con(v, self.start) and z and k < z[0]]
        if len(z) == 1 and len(b) == 1: self.lay = b[0], z[0]

    def stale(self, oid, cells):
        """elements behind the end of the set mean nothing"""
        if self.lay is None or oid == self.g.id: return
        b, z = self.lay
        c = cells.get(z)
        if c is None or c[0] != 8 or not isinstance(c[1], X.E) or c[1].op != 'c' or cells.get(b, (0, 0))[0] != 1: return
        for k, (n, v) in sorted(cells.items()):
            if b + c[1].a[0] <= k and k + n <= z: yield k, None

    # ------------------------------------------------------------------ walk
    def consuming(self, f, h):
        """does the loop look at characters"""
        k = (f, h)
        if k not in self.memo: self.memo[k] = any(i.op in ('call', 'invoke') and i.x['callee'][0] == 'glb' and self.p.resolve(f.mod, i.x['callee'][1]) in self.reach or i.op in ('call', 'invoke') and i.x['callee'][0] == 'glb' and re.match(r'unicode::script\(', self.p.dem(i.x['callee'][1]))
                                                  for b in f.loopbody[h] for i in f.bp[b][1])
        return self.memo[k]
    memo = {}

    def symbols(self, st):
        r = {}
        for x in st.x['cur']:
            if x.op == 'v': r[x] = self.S
        for x in st.x['prev'][0] if st.x['prev'] is not None else ():
            if x.op == 'v' and x not in r: r[x] = self.S2
        return r

    def extra(self, st):
        ch = self.cn.chars
        put = lambda x: ch.get(x, x)
        if self.con(st, 'closed') == 0:
            # the set as it is known now
            if not st.x.get('again') or st.x.get('asked'): st.x['last'] = None; st.x['again'] = st.x['asked'] = False
        st.x['cur'] = tuple(put(x) for x in st.x['cur'])
        st.x['prio'] = None if st.x['prio'] is None else put(st.x['prio'])
        if st.x['last'] is not None: st.x['last'] = (put(st.x['last'][0]), st.x['last'][1])
        prev = st.x['prev']
        if prev is not None: st.x['prev'] = (tuple(put(x) for x in prev[0]), None if prev[1] is None else put(prev[1]))
        return (prev and (frozenset(x.id for x in st.x['prev'][0]), prev[1] and st.x['prev'][1].id), frozenset(x.id for x in st.x['cur']), st.x['prio'] and st.x['prio'].id, st.x['last'] and (st.x['last'][0].id, st.x['last'][1]))

    def con(self, st, n):
        v = self.e.subst_singles(st, self.g.get(st, n))
        if v.op != 'c': raise X.Undecided('the reference is not determined (%s)' % n)
        return v.a[0]

    def same(self, st, a, b):
        e = self.e
        a = e.subst_singles(st, a); b = e.subst_singles(st, b)
        return a is b or e.prove_le(st, a, b) and e.prove_le(st, b, a)

    def char(self, e, st, fr, p, a):
        """states with the class of the character asked about: (state, script, list number or None)"""
        node = e.subst_singles(st, a[0])
        fed = self.g.get(st, 'fed')
        pos = [off for (off, k), v in st.mem[self.text].reads.items() if k == 4 and e.subst_singles(st, v) is node]
        at = lambda x: any(self.same(st, off, X.scale(x, 4)) for off in pos)
        if at(fed): return self.feed(st, G.loc_of(fr.f, p.ins))
        if at(X.sub(fed, C(1, 64))) and st.x['last'] is not None:
            if self.con(st, 'closed') == 0: st.x['asked'] = True
            return [(st,) + st.x['last']]
        if self.bads: return []
        raise X.Undecided('a character is asked about again or out of order' + (' %s %s %s' % ([X.show(o) for o in pos], X.show(fed), st.x['last']) if G.DEBUG else ''))

    def feed(self, st, loc):
        g, e = self.g, self.e
        if self.bads: return []
        if st.x['prev'] is not None:
            self.bads.append(('the boundary in front of the character looked at last is passed over: %s' % self.tell(st), loc))
            return []
        fed = g.get(st, 'fed')
        cur = st.x['cur']
        out = []
        lists = [(C(s, 8), i) for i, (s, l) in enumerate(self.lists) if self.full or i % 24 == 0] + [(C(s, 8), None) for s in self.common]
        sym = cur[0] if len(cur) == 1 and cur[0].op == 'v' else None
        if sym is not None:
            a = sym.a[0]
            for s, i in lists:
                rest = st.dom(a)
                for v in {v for v in (self.set(s, i) if i is not None else ())}:
                    if not Dom([v], [v]) & rest: continue
                    t = st.copy(); t.doms[a] = Dom([v], [v]); rest = rest - Dom([v], [v])
                    out.append((t, s, i))
                t = st.copy(); t.doms[a] = rest
                out.append((t, s, i))
            out.append((st.copy(), sym, None))
            y = X.Atom('other', 8, self.spec).node
            for t, v in e.split(st.copy(), X.icmp('eq', y, sym)):
                if not v: out.append((t, y, None))
        elif self.first: out = [(st.copy(), C(self.start, 8), None)]
        else:
            out = [(st.copy(), s, i) for s, i in lists]
            mine = [x for x in cur if x.a[0] in self.single]
            out += [(st.copy(), x, None) for x in mine]
            out.append((st.copy(), X.Atom('other', 8, self.spec - Dom(*ranges(sorted(x.a[0] for x in mine)))).node, None))
        for t, s, i in out:
            t.x['progress'] = True
            g.put(t, 'fed', X.add(fed, C(1, 64)))
            t.x['last'] = (s, i); t.x['again'] = t.x['asked'] = False
            self.join(t, s, i)
            g.put(t, 'open', C(1, 8))
        return out

    def set(self, s, i):
        l = self.lists[i][1]
        return l if self.lists[i][0] in l else l + (self.lists[i][0],)

    def join(self, t, s, i):
        """the reference: the scripts all characters of the run share"""
        e = self.e
        cur = [e.subst_singles(t, x) for x in t.x['cur']]
        prio = t.x['prio'] if t.x['prio'] is None else e.subst_singles(t, t.x['prio'])
        new = [C(v, 8) for v in self.set(s, i)] if i is not None else [s]
        np = s if s in (new if i is None else [C(v, 8) for v in self.lists[i][1]]) else None
        low = lambda x: x.op == 'c' and x.a[0] in self.low
        if all(low(x) for x in new): return
        if np is not None and low(np): np = None
        if len(new) == 1: np = new[0]
        if all(low(x) for x in cur): t.x['cur'], t.x['prio'] = tuple(new), np; return
        both = [x for x in cur if x in new]
        if not both:
            t.x['prev'] = (tuple(cur), prio)
            t.x['cur'], t.x['prio'] = tuple(new), np
            t.x['again'] = True; t.x['asked'] = False
            self.g.put(t, 'closed', C(1, 8))
            return
        if prio is None or prio not in both: prio = np if prio is not None and np in both else None
        t.x['cur'] = tuple(both) if len(both) < len(cur) else t.x['cur']
        t.x['prio'] = t.x['cur'][0] if len(both) == 1 else prio

    def tell(self, st):
        sh = lambda l: '{%s}' % ', '.join(self.names.get(x.a[0], '?') if x.op == 'c' else 'some script' for x in l)
        l = st.x['last']
        return 'the characters before share %s, the next one has %s' % (sh(st.x['prev'][0] if st.x['prev'] else st.x['cur']), '-' if l is None else sh([l[0]] if l[1] is None else [C(v, 8) for v in self.set(*l)]))

    def script(self, e, st, fr, p, a):
        return [(t, s) for t, s, i in self.char(e, st, fr, p, a)]

    def exts(self, e, st, fr, p, a):
        out = []
        q, rest = (a[0], a[1:]) if isinstance(a[0], P) else (None, a)
        if q is None: raise X.Undecided('form of the result')
        for t, s, i in self.char(e, st, fr, p, rest):
            for k, w, v in self.shapes[0 if i is not None else 1]:
                e.rawstore(t, q.o, X.add(q.off, C(k, 64)), w, P(self.tables[i], Z64) if v == 'p' and isinstance(v, str) else C(len(self.lists[i][1]), 64) if v == 'n' and isinstance(v, str) else v)
            out.append((t, None))
        return out

    def handed(self, e, st, fr, p, a):
        g = self.g
        size = e.subst_singles(st, a[0]); sc = e.subst_singles(st, e.asint(a[1]))
        loc = self.where
        fed = g.get(st, 'fed')
        if self.con(st, 'open') == 0: self.bads.append(('a run is reported although there is no text', loc)); return None
        if self.con(st, 'closed') == 1: end = X.sub(fed, C(1, 64)); cur, prio = st.x['prev']
        else: end = fed; cur, prio = st.x['cur'], st.x['prio']
        cur = [e.subst_singles(st, x) for x in cur]; prio = prio if prio is None else e.subst_singles(st, prio)
        if self.con(st, 'closed') == 0 and not self.same(st, fed, self.n): self.bads.append(('a run ends where the scripts do not: %s' % self.tell(st), loc))
        elif not self.same(st, size, end): self.bads.append(('a run is reported to end at %s, it ends at %s' % (X.show(size), X.show(end)), loc))
        elif sc not in cur: self.bads.append(('a run is reported with script %s: %s' % (self.names.get(sc.a[0]) if sc.op == 'c' else X.show(sc), self.tell(st)), loc))
        elif prio is not None and sc is not prio: self.bads.append(('a run is reported with script %s, its characters also share the script %s that one of them belongs to' % tuple(self.names.get(x.a[0]) if x.op == 'c' else X.show(x) for x in (sc, prio)), loc))
        elif sc.op == 'c' and sc.a[0] in self.low and not all(x.op == 'c' and x.a[0] in self.low for x in cur): self.bads.append(('a run is reported with script %s although %s' % (self.names[sc.a[0]], self.tell(st)), loc))
        self.ctx.ok(1, 'runs')
        if self.bads: return []
        st.x['prev'] = None
        g.put(st, 'open', C(self.con(st, 'closed'), 8))
        g.put(st, 'closed', C(0, 8))
        return None

    def end(self, e, st, fr, p, a):
        st.event('end')
        if self.con(st, 'open') == 1 or not self.same(st, self.g.get(st, 'fed'), self.n): self.bads.append(('consume reports no run although text is left', self.where))
        return None

    def more(self, e, st, fr, p, a):
        self.bads.append(('consume reports another run after it said there are none', self.where))
        return None


def ranges(vs):
    s, t = [], []
    for v in vs:
        if t and t[-1] == v - 1: t[-1] = v
        else: s.append(v); t.append(v)
    return s, t


def reaching(p, target):
    """functions from which a call reaches the target"""
    t = re.compile(target)
    calls = {}
    for m in p.mods:
        for f in m.funcs.values():
            if not f.defined: continue
            for b, i in f.allinsts():
                if i.op in ('call', 'invoke') and i.x['callee'][0] == 'glb':
                    n = i.x['callee'][1]
                    calls.setdefault(f, []).append((n, p.resolve(m, n)))
    out = {f for f, l in calls.items() if any(t.match(p.dem(n)) for n, _ in l)}
    while True:
        new = {f for f, l in calls.items() if f not in out and any(g in out for _, g in l)}
        if not new: return out
        out |= new


def entry(p, r):
    r = re.compile(r)
    for m in p.mods:
        for f in m.funcs.values():
            if f.defined and r.match(p.dem(f.name)):
                for b, i in f.allinsts():
                    if G.loc_of(f, i) is not None: return f, i
    raise F.Broken('no function %s' % r.pattern)


def run(ctx):
    ctx.rule('The segmenter is walked over a text of unknown length, one case per script and script extension list of each character read, next to the set of scripts all characters of the run share: '
             'a run must end exactly where that set would become empty, and be reported with a script of the set.')
    p = ctx.program(['script_segmenter.cpp', 'emoji_segmenter.cpp', 'ucd.cpp', 'codepoint_properties.cpp', 'codepoint_properties_data.cpp', 'codepoint_properties_names.cpp'], ['seg.cpp'])
    Runs(ctx, p).run()
