"""C18: emoji runs"""
import re
import numpy as np
import framework as F
import engine as G
import expr as X
import transduce as T
import canon as K
import c10
from dom import Dom
from engine import C, P, Z64

CAT = ('EMOJI TEXT_PRES EMOJI_PRES MOD_BASE MOD VS_BASE RI KEYCAP_BASE KEYCAP CIRCLE ZWJ VS15 VS16 TAG_BASE TAG_SEQ TAG_TERM').split()
CATS = [-1] + list(range(len(CAT)))


# the documented grammar as expressions over categories: ('s', set) | ('.', a, b) | ('|', a, b) | ('+', a)
def sym(*n): return ('s', frozenset(CAT.index(x) for x in n))
def cat(*a):
    r = a[0]
    for x in a[1:]: r = ('.', r, x)
    return r
def alt(*a):
    r = a[0]
    for x in a[1:]: r = ('|', r, x)
    return r
def plus(a): return ('+', a)


def grammar():
    any_emoji = sym('TEXT_PRES', 'EMOJI_PRES', 'KEYCAP_BASE', 'MOD_BASE', 'TAG_BASE', 'EMOJI')
    pres = cat(any_emoji, sym('VS16'))
    mod = cat(sym('MOD_BASE'), sym('MOD'))
    elem = alt(pres, mod, any_emoji)
    emoji = alt(sym('EMOJI_PRES', 'TAG_BASE', 'MOD_BASE'), pres, mod, cat(sym('RI'), sym('RI')), cat(sym('TAG_BASE'), plus(sym('TAG_SEQ')), sym('TAG_TERM')),
                cat(sym('KEYCAP_BASE'), sym('VS16'), sym('KEYCAP')), cat(elem, plus(cat(sym('ZWJ'), elem))), cat(any_emoji, sym('CIRCLE')))
    text = cat(any_emoji, sym('VS15'))
    return [(text, 0), (emoji, 1), (('s', frozenset(CATS)), 0)]          # in order of priority: expression, is emoji


class Dfa:
    """longest match of the alternatives; of alternatives that match equally long, the first"""

    def __init__(self):
        self.tr, self.n = [], 0
        self.pats = []
        for ex, kind in grammar():
            a, b = self.new(), self.new()
            self.build(ex, a, b)
            self.pats.append((a, b, kind))
        start = self.close({a for a, _, _ in self.pats})
        self.id = {start: 0}; self.states = [start]; self.delta = {}
        i = 0
        while i < len(self.states):
            s = self.states[i]
            for c in CATS:
                t = self.close({b for a, cs, b in self.tr if a in s and cs is not None and c in cs})
                if t not in self.id: self.id[t] = len(self.states); self.states.append(t)
                self.delta[(i, c)] = self.id[t]
            i += 1
        self.dead = self.id[frozenset()]
        self.accept = [next((k for _, b, k in self.pats if b in s), None) for s in self.states]

    def new(self): self.n += 1; return self.n

    def build(self, ex, a, b):
        if ex[0] == 's': self.tr.append((a, ex[1], b))
        elif ex[0] == '.': m = self.new(); self.build(ex[1], a, m); self.build(ex[2], m, b)
        elif ex[0] == '|': self.build(ex[1], a, b); self.build(ex[2], a, b)
        else:
            m, k = self.new(), self.new()
            self.tr.append((a, None, m)); self.build(ex[1], m, k); self.tr.append((k, None, m)); self.tr.append((k, None, b))

    def close(self, s):
        s = set(s)
        while True:
            t = s | {b for a, cs, b in self.tr if cs is None and a in s}
            if t == s: return frozenset(s)
            s = t


class Both:
    """what the two halves share"""

    def __init__(self, ctx, p):
        self.ctx, self.p = ctx, p
        self.scan = self.one(r'unicode::.*scan_emoji_presentation\(')
        self.iter = self.one(r'unicode::.*RagelIterator::RagelIterator\(char32_t const\*, unsigned long, unsigned long\)')

    def one(self, r):
        r = re.compile(r)
        for m in self.p.mods:
            for f in m.funcs.values():
                if f.defined and r.match(self.p.dem(f.name)): return f
        raise F.Broken('no function %s' % r.pattern)

    def engine(self, models):
        e = self.e = self.ctx.engine(self.p, [(re.compile(r), f) for r, f in models])
        e.tuples = True; e.tupw = 8; e.order = True; e.merge = True
        self.off = int(e.call(F.fn_of(self.p, 'probe_esc_offset'), [], e.newstate())[0].ret.a[0])
        return e

    def start(self, cells):
        e = self.e
        st = e.newstate()
        self.natom = X.Atom('n', 64, Dom([0], [1 << 40]))
        self.n = self.natom.node
        self.text = T.cptext(e, st, self.n)
        self.g = c10.Ghost(e, st, cells)
        return st

    def same(self, st, a, b):
        e = self.e
        a = e.subst_singles(st, a); b = e.subst_singles(st, b)
        return a is b or e.prove_le(st, a, b) and e.prove_le(st, b, a)

    def con(self, st, n):
        v = self.e.subst_singles(st, self.g.get(st, n))
        if v.op != 'c': raise X.Undecided('the reference is not determined (%s)' % n)
        return v.a[0]

    def record(self, st, v):
        """a character's properties with the segmentation category v"""
        if self.off >= 11: raise X.Undecided('layout of the property record')
        bs = [v if i == self.off else X.Atom('rest', 8, Dom([0], [255])).node for i in range(11)]
        return G.Vec([X.cat(bs[:8]), X.cat(bs[8:])])

    def layout(self):
        """where an iterator keeps its text and position"""
        e = self.e
        st = self.start([('fed', 64, Z64), ('q', 8, C(0, 8)), ('last', 8, C(255, 8)), ('ae', 64, Z64), ('kind', 8, C(0, 8))])
        o = e.new_obj(st, 'fixed', C(64, 64), 'undef', name='iterator')
        c = X.Atom('cursor', 64, Dom([0], [1 << 40])).node
        lay = None
        for r in e.call(self.iter, [P(o, Z64), P(self.text, Z64), self.n, c], st):
            if r.kind != 'ret': continue
            new = {}
            for k, (n, v) in r.st.mem[o].cells.items():
                if isinstance(v, P) and v.o == self.text: new['text'] = k
                elif v is self.n or isinstance(v, X.E) and self.natom in v.atoms and n == 8: new['size'] = k
                elif isinstance(v, X.E) and v.atoms == c.atoms and n == 8: new['cursor'] = k
                elif n <= 4: new['cat'] = (k, n)
            if lay is not None and new != lay: raise X.Undecided('layout of the iterator')
            lay = new
        if lay is None or set(lay) != {'text', 'size', 'cursor', 'cat'}: raise F.Broken('layout of the iterator')
        self.lay = lay
        return lay

    def cell(self, st, q, what):
        e = self.e
        v = e.rawload(st, st.mem[q.o], X.add(q.off, C(self.lay[what], 64)), 8)
        if what == 'text': return v
        return G.UNDEF if v is G.UNDEF else e.subst_singles(st, e.asint(v))

    def iterator(self, st, name, pos, cat, q=None):
        e = self.e
        if q is None: q = P(e.new_obj(st, 'fixed', C(64, 64), 'undef', name=name), Z64)
        at = lambda k: X.add(q.off, C(k, 64))
        e.rawstore(st, q.o, at(self.lay['text']), 8, P(self.text, Z64))
        e.rawstore(st, q.o, at(self.lay['size']), 8, self.n)
        e.rawstore(st, q.o, at(self.lay['cursor']), 8, pos)
        k, w = self.lay['cat']
        e.rawstore(st, q.o, at(k), w, cat if w == 1 else X.sext(cat, 8 * w))
        return q


class Tokens(Both):
    """one token: the longest match from a position"""

    def run(self):
        ctx = self.ctx
        self.d = Dfa()
        e = self.engine([(r'unicode::codepoint_properties::get\(', self.get)])
        self.begin = None; self.bads = []
        self.layout()
        st = self.start([('fed', 64, Z64), ('q', 8, C(0, 8)), ('last', 8, C(255, 8)), ('ae', 64, Z64), ('kind', 8, C(0, 8))])
        b = X.Atom('b', 64, Dom([0], [(1 << 40) - 1])).node
        self.begin = b
        if not e.split(st, X.icmp('ult', b, self.n)): raise F.Broken('no text')
        st = [s for s, v in e.split(st, X.icmp('ult', b, self.n)) if v][0]
        self.g.put(st, 'fed', b); self.g.put(st, 'ae', b)
        rule = 'token of the emoji grammar'
        cnt = 0
        flag = e.new_obj(st, 'fixed', C(1, 64), 'undef', name='is_emoji')
        res = e.new_obj(st, 'fixed', C(64, 64), 'undef', name='result')
        p = self.iterator(st, 'p', b, C(0, 8)); pe = self.iterator(st, 'pe', self.n, C(255, 8))
        cn = self.cn = K.Canon(e, [b, self.n], [('read', lambda st: self.g.get(st, 'fed')), ('matched', lambda st: self.g.get(st, 'ae'))], [self.text], [self.g.id, res, flag], forget=self.stale)
        todo = self.feed(st)       # the iterator handed over has read its character
        nobj = e.nobj
        for s, v in todo:
            e.nobj = nobj
            self.iterator(s, 'p', b, v, p)
            for o in e.call(self.scan, [P(res, Z64), p, pe, P(flag, Z64)], s):
                s2 = o.st
                evs = [ev for ev in s2.eventlist() if ev[0] == 'mismatch']
                where = ctx.where(G.loc_of(*o.loc))
                if o.kind != 'ret':
                    if not evs: ctx.bad(rule, where, 'does not return')
                    continue
                cnt += 1
                if evs: continue
                end = self.cell(s2, P(res, Z64), 'cursor')
                ae = self.g.get(s2, 'ae'); q = self.con(s2, 'q'); kind = self.con(s2, 'kind')
                k = e.rawload(s2, s2.mem[flag], Z64, 1)
                if s2.opaque: raise X.Undecided('undetermined branch')
                if q != self.d.dead and not self.same(s2, self.g.get(s2, 'fed'), self.n):
                    ctx.bad(rule, where, 'the token ends although the next character could continue it'); continue
                if end is G.UNDEF or not self.same(s2, end, ae):
                    ctx.bad(rule, where, 'a token ends at %s, the longest match of the grammar at %s' % (end if end is G.UNDEF else X.show(end), X.show(ae))); continue
                k = k if k is G.UNDEF else e.subst_singles(s2, e.asint(k))
                if k is G.UNDEF or k.op != 'c' or k.a[0] != kind:
                    ctx.bad(rule, where, 'a token is reported as %s, by the grammar it is %s' % ('undefined' if k is G.UNDEF else ('text', 'emoji')[k.a[0]] if k.op == 'c' else X.show(k), ('text', 'emoji')[kind])); continue
                ctx.ok(1, 'token ends')
        for text, loc in self.bads[:1]: ctx.bad(rule, ctx.where(loc), text)
        loc = cn.stuck()
        if loc is not None: ctx.bad(rule, ctx.where(loc), 'the scanner goes round without reading on')
        if cnt < 8 and not self.bads: raise F.Broken('no token ends')
        ctx.sample({'scanner states': len(cn.seen), 'arrivals': cn.arrivals, 'reference states': len(self.d.states)})
        ctx.access_findings(e)
        ctx.absorb(e)

    def stale(self, oid, cells):
        """the category an iterator remembers matters while it is at the character read last"""
        if oid == self.g.id: return
        L = self.lay
        for k, (n, v) in cells.items():
            b = k - L['text']
            c = cells.get(b + L['cat'][0]); w = cells.get(b + L['cursor'])
            if not isinstance(v, P) or c is None or w is None or c[0] != L['cat'][1] or w[0] != 8: continue
            if not isinstance(c[1], X.E) or c[1].op != 'c': continue
            if isinstance(w[1], X.E) and w[1] is X.sub(self.now(), C(1, 64)): continue
            yield b + L['cat'][0], 8 * c[0]

    def now(self): return self.cn.map[0][2]

    def feed(self, st):
        """the next character is read: one state per category"""
        g, e = self.g, self.e
        q = self.con(st, 'q')
        fed = g.get(st, 'fed')
        out = []
        for c in CATS:
            s = st.copy(); s.x['progress'] = True
            q2 = self.d.delta[(q, c)]
            g.put(s, 'fed', X.add(fed, C(1, 64)))
            g.put(s, 'q', C(q2, 8)); g.put(s, 'last', C(c & 255, 8))
            if self.d.accept[q2] is not None:
                g.put(s, 'ae', X.add(fed, C(1, 64))); g.put(s, 'kind', C(self.d.accept[q2], 8))
            out.append((s, C(c & 255, 8)))
        return out

    def get(self, e, st, fr, p, a):
        if self.begin is None: return self.record(st, X.Atom('cat', 8, Dom([0], [255])).node)
        g = self.g
        node = e.subst_singles(st, a[0])
        fed = g.get(st, 'fed')
        loc = G.loc_of(fr.f, p.ins)
        pos = [off for (off, k), v in st.mem[self.text].reads.items() if k == 4 and e.subst_singles(st, v) is node]
        at = lambda x: any(self.same(st, off, X.scale(x, 4)) for off in pos)
        if at(fed): return [(s, self.record(s, v)) for s, v in self.feed(st)]
        if at(X.sub(fed, C(1, 64))): return self.record(st, g.get(st, 'last'))
        for off in pos:
            if e.prove_le(st, off, X.scale(fed, 4)): return self.record(st, X.Atom('cat', 8, Dom([0], [255])).node)
        st.event('mismatch')
        self.bads.append(('a character is looked at before the one in front of it', loc))
        return self.record(st, X.Atom('cat', 8, Dom([0], [255])).node)


class Runs(Both):
    """the runs handed out, over any sequence of tokens"""

    def run(self):
        ctx = self.ctx
        self.engine([(r'unicode::codepoint_properties::get\(', lambda e, st, fr, p, a: self.record(st, X.Atom('cat', 8, Dom([0], [255])).node))])
        self.layout()
        for v in '210': self.walk('probe_runs_' + v, v != '0')

    def walk(self, probe, text):
        ctx = self.ctx
        e = self.engine([(r'unicode::codepoint_properties::get\(', lambda e, st, fr, p, a: self.record(st, X.Atom('cat', 8, Dom([0], [255])).node)),
                         (r'unicode::.*scan_emoji_presentation\(', self.token), (r'sink_run', self.handed), (r'sink_end', self.end), (r'sink_more', self.more)])
        st = self.start([('tok', 64, Z64), ('tend', 64, Z64), ('start', 64, Z64), ('rend', 64, Z64), ('kind', 8, C(2, 8)), ('rk', 8, C(2, 8)), ('closed', 8, C(0, 8))])
        if not text: self.n = Z64
        self.where = self.place()
        rule = 'emoji runs'
        cnt = 0
        style = X.Atom('style', 32, Dom([0], [1])).node
        self.bads = []
        g = self.g
        cn = K.Canon(e, [self.n], [(x, lambda st, x=x: g.get(st, x)) for x in ('start', 'tok', 'tend', 'rend')], [self.text], [g.id])
        for o in cn.walk(self.bads, F.fn_of(self.p, probe), [P(self.text, Z64), self.n, style], st):
            if o.kind != 'ret': self.bads.append(('does not return', G.loc_of(*o.loc))); continue
            cnt += 1
            if o.st.opaque: raise X.Undecided('undetermined branch')
            if not any(ev[0] == 'end' for ev in o.st.eventlist()): raise F.Broken('the walk was not followed to its end')
            ctx.ok(1, 'walks')
        for text, loc in self.bads[:1]: ctx.bad(rule, ctx.where(loc), text)
        loc = cn.stuck()
        if loc is not None: ctx.bad(rule, ctx.where(loc), 'the walk goes round without reading on')
        ctx.ok(len(cn.seen), 'walk states')
        if not cnt and not self.bads: raise F.Broken('no walk reaches its end')
        ctx.access_findings(e)
        ctx.absorb(e)

    def place(self):
        for m in self.p.mods:
            for f in m.funcs.values():
                if not f.defined: continue
                for b, i in f.allinsts():
                    if i.op in ('call', 'invoke') and i.x['callee'][0] == 'glb' and 'scan_emoji_presentation(' in self.p.dem(i.x['callee'][1]): return G.loc_of(f, i)
        raise F.Broken('nothing scans for tokens')

    def token(self, e, st, fr, p, a):
        g = self.g
        loc = G.loc_of(fr.f, p.ins)
        res, q, qe, flag = a
        b = self.cell(st, q, 'cursor'); end = self.cell(st, qe, 'cursor')
        for it in (q, qe):
            t = self.cell(st, it, 'text')
            if not isinstance(t, P) or t.o != self.text or not self.same(st, t.off, Z64) or not self.same(st, self.cell(st, it, 'size'), self.n):
                self.bads.append(('the scanner is given another text', loc))
        if end is G.UNDEF or not self.same(st, end, self.n): self.bads.append(('the scanner is not told the end of the text', loc))
        kind = self.con(st, 'kind'); tend = g.get(st, 'tend'); tok = g.get(st, 'tok')
        if b is not G.UNDEF and kind != 2 and self.same(st, b, tok): return self.give(st, res, flag)
        if b is G.UNDEF or not self.same(st, b, tend):
            self.bads.append(('a token is looked for at %s, the last one ended at %s' % ('an undefined position' if b is G.UNDEF else X.show(b), X.show(tend)), loc))
        if self.same(st, tend, self.n): self.bads.append(('a token is looked for at the end of the text', loc)); return self.give(st, res, flag)
        if self.con(st, 'closed') == 1: self.bads.append(('the token after the one that ended the run is looked at before the run is handed out', loc))
        out = []
        # the new token is at least one character long
        new = X.Atom('end', 64, Dom([1], [1 << 40])).node
        st = self.assume(self.assume(st, X.icmp('ule', new, self.n)), X.icmp('ult', tend, new))
        for k in (0, 1):
            s = st.copy(); s.x['progress'] = True
            g.put(s, 'tok', tend); g.put(s, 'tend', new); g.put(s, 'kind', C(k, 8))
            rk = self.con(s, 'rk')
            if rk == 2: g.put(s, 'rk', C(k, 8)); g.put(s, 'rend', new)
            elif rk == k and self.con(s, 'closed') == 0: g.put(s, 'rend', new)
            else: g.put(s, 'closed', C(1, 8))
            out += self.give(s, res, flag)
        return out

    def assume(self, st, c):
        r = [s for s, v in self.e.split(st, c) if v]
        if not r: raise X.Undecided('assumption about a token')
        return r[0]

    def give(self, st, res, flag):
        e, g = self.e, self.g
        self.iterator(st, 'result', g.get(st, 'tend'), X.Atom('cat', 8, Dom([0], [255])).node, res)
        e.rawstore(st, flag.o, flag.off, 1, C(self.con(st, 'kind') & 1, 8))
        return [(st, None)]

    def handed(self, e, st, fr, p, a):
        g = self.g
        loc = self.where
        v = [x if isinstance(x, P) else e.subst_singles(st, e.asint(x)) for x in a]
        begin, end, size, style, emoji, txt, data, length = v
        start, rend = g.get(st, 'start'), g.get(st, 'rend')
        rk = self.con(st, 'rk')
        eq = lambda x, k: x.op == 'c' and x.a[0] == k
        if rk == 2: self.bads.append(('a run is handed out although there is no text', loc))
        elif self.con(st, 'closed') == 0 and not self.same(st, rend, self.n): self.bads.append(('a run is handed out before it is known that the next token is of another kind', loc))
        elif not self.same(st, end, rend): self.bads.append(('a run ends at %s, the tokens of its kind end at %s' % (X.show(end), X.show(rend)), loc))
        elif not self.same(st, begin, start): self.bads.append(('a run begins at %s, the last one ended at %s' % (X.show(begin), X.show(start)), loc))
        elif not self.same(st, size, end): self.bads.append(('the position reported is not the end of the run', loc))
        elif not eq(style, rk): self.bads.append(('a run of %s is reported with the other presentation style' % ('text', 'emoji')[rk], loc))
        elif not eq(emoji, rk) or not eq(txt, 1 - rk): self.bads.append(('isEmoji and isText of a run of %s are wrong' % ('text', 'emoji')[rk], loc))
        elif not (isinstance(data, P) and data.o == self.text and self.same(st, data.off, X.scale(begin, 4)) and self.same(st, length, X.sub(end, begin))):
            self.bads.append(('substr is not the text of the run', loc))
        g.put(st, 'start', rend)
        if self.con(st, 'closed') == 1: g.put(st, 'rend', g.get(st, 'tend')); g.put(st, 'rk', C(self.con(st, 'kind'), 8))
        else: g.put(st, 'rk', C(2, 8))
        g.put(st, 'closed', C(0, 8))
        return None

    def end(self, e, st, fr, p, a):
        st.event('end')
        if not self.same(st, self.g.get(st, 'start'), self.n):
            self.bads.append(('consume gives false although text is left (%s of %s characters handed out)' % (X.show(self.g.get(st, 'start')), X.show(self.n)), self.where))
        return None

    def more(self, e, st, fr, p, a):
        self.bads.append(('consume gives another run after it said there are none', self.where))
        return None


def run(ctx):
    ctx.rule('The token scanner is followed from any position of a text of unknown length, one case per category of each character read, next to the longest-match automaton of the documented grammar: every return must be at the end of the '
             'longest match with its kind. The runs are then followed over the whole text with the scanner replaced by any sequence of tokens: each run must be the longest sequence of tokens of one kind after the last run.')
    p = ctx.program(['emoji_segmenter.cpp', 'codepoint_properties.cpp', 'codepoint_properties_data.cpp', 'codepoint_properties_names.cpp'], ['seg.cpp'])
    Tokens(ctx, p).run()
    Runs(ctx, p).run()
