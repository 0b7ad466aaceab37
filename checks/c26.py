"""C26: streaming normalization"""
import itertools
import re
import numpy as np
import ucd
import framework as F
import engine as G
import expr as X
import strings as S
import transduce as T
import c08
import c09
import c10
import c13
import norm as N
from c08 import showterm
from dom import Dom
from percp import site
from engine import C, P, Z64

METH = {'feed': r'unicode::normalizer::feed\(char32_t\)', 'flush': r'unicode::normalizer::flush\(\)', 'reset': r'unicode::normalizer::reset\(\)'}
M8 = {'feed': r'unicode::utf8_normalizer::feed\(std::basic_string_view<char, std::char_traits<char> >\)', 'flush': r'unicode::utf8_normalizer::flush\(\)', 'reset': r'unicode::utf8_normalizer::reset\(\)'}


def run(ctx):
    ctx.rule('Streaming: over every reachable state of the normalizer (form fixed, any pending text) feed must either only append the character to the pending text, or give the normalization of the pending text and keep the character, '
             'the latter only for characters before which a text can be cut without changing its normalization (computed from UnicodeData.txt) and always for those UAX #15 names; flush and reset must leave the state as constructed. '
             'The UTF-8 form is followed over a chunk of unknown length: each byte to the decoder, each character (U+FFFD for a rejected sequence) to the normalizer, each segment encoded to the output, in order, once.')
    p = ctx.program(N.UNITS, ['casenorm.cpp', 'norm.cpp'])
    nm = N.Norm(p)
    for form in N.FORMS: Stream(ctx, p, nm, form).run()
    Utf8(ctx, p, nm).run()
    c09.run(ctx)


def boundaries(nm, form):
    """code points before which every text can be cut, and those the standard names"""
    w = c10.Work(None, None, nm)
    ln, out = w.full(form in ('NFKC', 'NFKD'))
    first = out[0].astype(np.int64)
    safe = nm.ccc[first] == 0
    if form in ('NFC', 'NFKC'):
        second = np.zeros(ucd.N, bool)
        for a, b in ucd.compositions(): second[b] = True
        second[ucd.VB:ucd.VB + 21] = True
        second[ucd.TB + 1:ucd.TB + 28] = True
        safe &= ~second[first]
    must = (nm.ccc == 0) & (nm.qc[form + '_QC'] == 0)
    return safe, must & safe


class Members:
    """an object and the strings in it"""

    def __init__(self, e, s, p, init, size, arg):
        st = e.newstate()
        n = e.call(F.fn_of(p, size), [], st)[0].ret.a[0]
        st = e.newstate()
        self.size = int(n)
        self.id = e.new_obj(st, 'fixed', C(self.size, 64), 'undef', name='object')
        outs = e.call(F.fn_of(p, init), [P(self.id, Z64), arg], st)
        if len(outs) != 1 or outs[0].kind != 'ret': raise X.Undecided('construction')
        self.st = outs[0].st
        self.strs = sorted(k for k in self.st.x.get('str', {}) if k[0] == self.id)
        self.e = e; self.s = s

    def cells(self, st, skip=()):
        """bytes outside the strings"""
        r = {}
        o = st.mem[self.id]
        for b in range(self.size):
            if any(k[1] <= b < k[1] + 32 for k in self.strs) or any(x <= b < y for x, y in skip): continue
            v = self.e.rawload(st, o, C(b, 64), 1)
            r[b] = v if v is G.UNDEF else self.e.subst_singles(st, self.e.asint(v))
        return r

    def changed(self, st, ref, skip=()):
        now = self.cells(st, skip)
        return [b for b in ref if ref[b] is not G.UNDEF and now.get(b) is not ref[b] and (b in now)]


class Stream:
    def __init__(self, ctx, p, nm, form):
        self.ctx = ctx; self.p = p; self.nm = nm; self.form = form

    def trim(self, st, segs):
        out = []
        for x in segs:
            n = self.e.subst_singles(st, self.s.seglen(x))
            if n.op == 'c' and n.a[0] == 0: continue
            if x[0] in N.FORMS:
                t = self.trim(st, x[1])
                if not t: continue
                x = (x[0], t)
            out.append(('e', self.e.subst_singles(st, x[1])) if x[0] == 'e' and x[1] is not G.UNDEF else x)
        return tuple(out)

    def view(self, st, r):
        """content of the returned view, or a complaint"""
        n, q = r[0], r[1]
        n = self.e.subst_singles(st, self.e.asint(n))
        if n.op == 'c' and n.a[0] == 0: return (), None
        if isinstance(q, P) and isinstance(q.o, tuple) and q.o[0] == 'strbuf':
            k = q.o[1]
            if k[0] != self.m.id: return None, 'the returned text does not live in the normalizer'
            if k not in st.x.get('str', {}): return None, 'the returned text is destroyed'
            return self.trim(st, self.s.content(self.e, st, q, n, 4)), None
        raise X.Undecided('returned text')

    def run(self):
        ctx, p, nm, form = self.ctx, self.p, self.nm, self.form
        s = self.s = S.Strings()
        models = nm.models() + c13.term_models(s, nm) + s.models()
        e = self.e = ctx.engine(p, models)
        s.setup(e)
        m = self.m = Members(e, s, p, 'probe_norm_init', 'probe_norm_size', C(nm.form[form], 8))
        self.ref = m.cells(m.st)
        f = {k: N.fn(p, v) for k, v in METH.items()}
        rule = 'a new normalizer (%s) has nothing pending' % form
        w = site(ctx, e, f['feed'])
        ctx.check(all(not s.get(m.st, k) for k in m.strs), rule, w, 'a string is not empty after construction', 'construction')
        # which string holds the pending text
        c = X.Atom('cp', 32, F.ALLCP)
        pend = set()
        for o in e.call(f['feed'], [P(m.id, Z64), c.node], m.st.copy()):
            if o.kind != 'ret': continue
            for k in m.strs:
                if any(x[0] == 'e' for x in s.get(o.st, k)): pend.add(k)
        if len(pend) != 1: raise F.Broken('the pending text of the normalizer is not found')
        self.pend = pend.pop()
        safe, must = boundaries(nm, form)
        self.feed(f['feed'], safe, must)
        self.flush(f['flush'])
        self.reset(f['reset'])
        ctx.access_findings(e)
        ctx.absorb(e)

    def state(self):
        """any state between calls"""
        e, s, m = self.e, self.s, self.m
        st = m.st.copy()
        for i, k in enumerate(m.strs):
            t = ('pending',) if k == self.pend else ('earlier output', i)
            s.put(st, k, (t,)); s.setsize(e, st, k, s.seglen(t))
        return st

    def check_state(self, st, want, rule, w, text):
        e, s, m, ctx = self.e, self.s, self.m, self.ctx
        got = self.trim(st, s.get(st, self.pend))
        want = self.trim(st, want)
        ctx.check(got == want, rule, w, '%s: the pending text is %s, not %s' % (text, showterm(got), showterm(want)), 'states')
        b = m.changed(st, self.ref)
        ctx.check(not b, rule, w, '%s: byte %s of the normalizer (not a string) is changed' % (text, b[:1]), 'states')

    def feed(self, f, safe, must):
        ctx, e, s, nm, form = self.ctx, self.e, self.s, self.nm, self.form
        rule = 'feed (%s) cuts the text only where that does not change its normalization' % form
        w = site(ctx, e, f)
        c = X.Atom('cp', 32, F.ALLCP)
        pt = ('pending',)
        cut = np.zeros(ucd.N, bool); kept = np.zeros(ucd.N, bool)
        for o in e.call(f, [P(self.m.id, Z64), c.node], self.state()):
            st = o.st
            if o.kind != 'ret': ctx.bad(rule, ctx.where(G.loc_of(*o.loc)), 'does not return'); continue
            if st.opaque: raise X.Undecided('undetermined branch')
            cp = e.subst_singles(st, c.node)
            pts = nm.dom(st, cp)
            out, why = self.view(st, o.ret)
            if why: ctx.bad(rule, w, why); continue
            p0 = self.trim(st, (pt,))
            got = self.trim(st, s.get(st, self.pend))
            if not out and got == p0 + (('e', cp),):
                if p0: kept[pts] = True
            elif out == (((form, p0),) if p0 else ()) and got == (('e', cp),):
                cut[pts] = True
                b = pts[~safe[pts]]
                if len(b): ctx.bad(rule, w, 'the text is cut before U+%04X, which %s the characters before it' % (b[0], 'may compose with' if nm.ccc[b[0]] == 0 and form in ('NFC', 'NFKC') else 'may have to be ordered among'))
                else: ctx.ok(len(pts), 'cuts')
            else:
                # a normalization that came out empty
                if not out and got == (('e', cp),): continue
                ctx.bad(rule, w, 'U+%04X after %s: gives %s and keeps %s' % (pts[0], showterm(p0), showterm(out), showterm(got))); continue
            b = self.m.changed(st, self.ref)
            ctx.check(not b, rule, w, 'byte %s of the normalizer (not a string) is changed' % b[:1], 'states')
        if not kept.any() or not cut.any(): ctx.bad(rule, w, 'the text is %s cut' % ('always' if cut.any() else 'never'))
        lost = np.flatnonzero(~(cut | kept))
        ctx.check(len(lost) == 0, rule, w, 'no result for U+%04X' % (lost[0] if len(lost) else 0), 'states')
        late = np.flatnonzero(must & ~cut)
        ctx.check(len(late) == 0, 'feed (%s) gives the pending text at every boundary of UAX #15' % form, w, 'the pending text is not given before U+%04X' % (late[0] if len(late) else 0), 'states')

    def flush(self, f):
        ctx, e = self.ctx, self.e
        rule = 'flush (%s) gives the rest and starts over' % self.form
        w = site(ctx, e, f)
        for o in e.call(f, [P(self.m.id, Z64)], self.state()):
            st = o.st
            if o.kind != 'ret': ctx.bad(rule, ctx.where(G.loc_of(*o.loc)), 'does not return'); continue
            if st.opaque: raise X.Undecided('undetermined branch')
            p0 = self.trim(st, (('pending',),))
            out, why = self.view(st, o.ret)
            if why: ctx.bad(rule, w, why); continue
            want = self.trim(st, ((self.form, p0),)) if p0 else ()
            ctx.check(out == want, rule, w, 'the result is %s, not %s' % (showterm(out), showterm(want)), 'returns')
            self.check_state(st, (), rule, w, 'after flush')

    def reset(self, f):
        ctx, e = self.ctx, self.e
        rule = 'reset (%s) discards what is pending' % self.form
        w = site(ctx, e, f)
        for o in e.call(f, [P(self.m.id, Z64)], self.state()):
            if o.kind != 'ret': ctx.bad(rule, ctx.where(G.loc_of(*o.loc)), 'does not return'); continue
            if o.st.opaque: raise X.Undecided('undetermined branch')
            self.check_state(o.st, (), rule, w, 'after reset')


class Utf8:
    """the decoder and the inner normalizer are uninterpreted; the order of what passes between them is followed"""

    def __init__(self, ctx, p, nm):
        self.ctx = ctx; self.p = p; self.nm = nm
        self.cnt = itertools.count()
        self.inner = set(); self.dec = set()
        self.active = False

    # ---- models
    def from_utf8(self, e, st, fr, p, a):
        if not self.active: self.dec.add((a[0].o, e.conc(st, a[0].off)))
        if self.active:
            if (a[0].o, e.conc(st, a[0].off)) not in self.dec: self.bad(st, fr, p, 'another decoder state is used')
            self.settle(st)
            due = st.x.get('due')
            if due: self.bad(st, fr, p, 'the next byte is decoded although %s' % self.duetext(due))
            st.x['due'] = None
            pos = e.subst_singles(st, e.asint(e.rawload(st, st.mem[self.g], Z64, 8)))
            v = e.subst_singles(st, e.asint(a[1], 8))
            o = st.mem[self.text]
            want = o.reads.get((pos, 1))
            if want is None: want = next((x for (k, n), x in o.reads.items() if n == 1 and e.subst_singles(st, k) is pos), None)
            if want is None or e.subst_singles(st, want) is not v: self.bad(st, fr, p, 'the decoder is given %s when byte %s of the chunk is next' % (X.show(v), X.show(pos)))
            e.rawstore(st, self.g, Z64, 8, X.add(pos, C(1, 64)))
        r = []
        c = X.Atom('decoded', 32, F.ALLCP, 'dec').node
        for i, (probe, args, due) in enumerate((('probe_success', [c], ('feed', c)), ('probe_incomplete', [], None), ('probe_invalid', [], ('feed', C(0xFFFD, 32))))):
            s2 = st.copy() if i < 2 else st
            s2.forks += 1
            if self.active: s2.x['due'] = due
            r.append((s2, self.e2.call(F.fn_of(self.p, probe), args, self.e2.newstate())[0].ret))
        return r

    def feed(self, e, st, fr, p, a):
        k = (a[0].o, e.conc(st, a[0].off))
        if not self.active: self.inner.add(k)
        else:
            if k not in self.inner: self.bad(st, fr, p, 'another normalizer is fed')
            due = st.x.get('due')
            c = e.subst_singles(st, e.asint(a[1]))
            if not due or due[0] != 'feed': self.bad(st, fr, p, 'the normalizer is fed %s although %s' % (X.show(c), self.duetext(due) if due else 'no character is complete'))
            elif e.subst_singles(st, due[1]) is not c: self.bad(st, fr, p, 'the normalizer is fed %s instead of %s' % (X.show(c), X.show(due[1])))
        return self.segment(e, st, ('segment', next(self.cnt)))

    def segment(self, e, st, term):
        if self.seg not in st.mem:
            o = G.Obj(self.seg, 'fixed', C(32, 64), 'undef', None, 'segment')
            o.own = st.own
            st.mem[self.seg] = o
        self.s.construct(e, st, (self.seg, 0), 4, (term,))
        if self.active: st.x['due'] = ('append', term)
        return G.Vec([self.s.seglen(term), P(('strbuf', (self.seg, 0), 4), Z64)])

    def flushm(self, e, st, fr, p, a):
        k = (a[0].o, e.conc(st, a[0].off))
        if k not in self.inner: raise G.Unsupported('flush of another normalizer')
        st.x['calls'] = st.x.get('calls', ()) + ('flush',)
        self.s.construct(e, st, (self.seg, 0), 4, (('rest',),)) if self.seg in st.mem else self.segment(e, st, ('rest',))
        return G.Vec([self.s.seglen(('rest',)), P(('strbuf', (self.seg, 0), 4), Z64)])

    def resetm(self, e, st, fr, p, a):
        k = (a[0].o, e.conc(st, a[0].off))
        st.x['calls'] = st.x.get('calls', ()) + (('reset',) if k in self.inner else ('other',))
        return None

    def convert(self, e, st, fr, p, a):
        src = self.s.content(e, st, a[1], a[0], 4, fr.f, p.ins)
        self.s.append(e, st, self.s.key(e, st, a[2]), (('enc', src),) if src else ())
        return a[2]

    def bad(self, st, fr, p, text):
        st.event('mismatch', text, G.loc_of(fr.f, p.ins))

    def duetext(self, due):
        return 'the decoded character is not passed on yet' if due[0] == 'feed' else 'the segment is not in the output yet'

    def settle(self, st):
        """the output is up to date"""
        e, s = self.e, self.s
        due = st.x.get('due')
        segs = s.get(st, self.out)
        if due and due[0] == 'append':
            n = e.subst_singles(st, s.seglen(due[1]))
            term = ('enc', (due[1],))
            if segs and segs[-1] == term: segs = segs[:-1]; st.x['due'] = None
            elif n.op == 'c' and n.a[0] == 0: st.x['due'] = None
        if segs[:1] != (self.marker,):
            if segs:
                fr = st.frames[-1] if st.frames else None
                if fr is None: return
                st.event('mismatch', 'the output starts with %s' % showterm(segs[:1]), c10.loc_of(st))
            segs = (self.marker,)
        s.put(st, self.out, segs)

    def hook(self, st, fr, f, src, h):
        if not self.active: return
        self.settle(st)
        if self.e.hdrbase is None: return        # entered, or unrolled
        segs = self.s.get(st, self.out)
        l = G.loc_of(f, f.bp[h][1][0].ins)
        if segs != (self.marker,): st.event('mismatch', 'the output holds %s besides the segments so far' % showterm(tuple(x for x in segs if x != self.marker)), l); self.s.put(st, self.out, (self.marker,))
        if st.x.get('due'): st.event('mismatch', 'the loop goes on although %s' % self.duetext(st.x['due']), l); st.x['due'] = None
        self.s.drop(st, (self.seg, 0))

    def run(self):
        ctx, p, nm = self.ctx, self.p, self.nm
        s = self.s = S.Strings()
        self.seg = 'segment'
        rx = re.compile
        models = [(rx(r'unicode::from_utf8\(unicode::utf8_decoder_state&, unsigned char\)$'), self.from_utf8), (rx(METH['feed']), self.feed), (rx(METH['flush']), self.flushm), (rx(METH['reset']), self.resetm),
                  (rx(r'.*unicode::convert_to<char, (?:char32_t, )?std::back_insert_iterator<'), self.convert)] + c08.term_models(s, names=()) + s.models()
        e = self.e = ctx.engine(p, models)
        s.setup(e)
        e.merge = True
        self.e2 = G.Engine(p, [])
        f = {k: N.fn(p, v) for k, v in M8.items()}
        form = X.Atom('form', 8, Dom.of(sorted(nm.form.values())))
        m = self.m = Members(e, s, p, 'probe_u8norm_init', 'probe_u8norm_size', form.node)
        # find the parts by a first byte
        b = e.new_obj(m.st, 'array', C(1, 64), 'input', 1, 'byte')
        st = m.st.copy()
        found = set()

        def look(s1, fr, fn, src, h):
            found.update(k for k, v in s1.x.get('str', {}).items() if v)
            if e.hdrbase is not None: s1.x['str'] = e.hdrbase.x.get('str', {})
        e.hdrhook = look
        outs = [o for o in e.call(f['feed'], [P(m.id, Z64), C(1, 64), P(b, Z64)], st)]
        if len(self.inner) != 1 or len(self.dec) != 1: raise F.Broken('the parts of utf8_normalizer are not found')
        ik, dk = next(iter(self.inner)), next(iter(self.dec))
        if ik[0] != m.id or dk[0] != m.id: raise F.Broken('the parts of utf8_normalizer are not in it')
        conc = lambda k: X.sgn(k[1].a[0], 64) if not isinstance(k[1], int) else k[1]
        ioff, doff = conc(ik), conc(dk)
        sz = lambda n: int(e.call(F.fn_of(p, n), [], e.newstate())[0].ret.a[0])
        isz, dsz = sz('probe_norm_size'), sz('probe_u8state_size')
        inside = lambda k: ioff <= k[1] < ioff + isz
        e.hdrhook = None
        for o in outs:
            if o.kind == 'ret': found.update(k for k in m.strs if s.get(o.st, k))
        outk = {k for k in found if k in m.strs and not inside(k)}
        if len(outk) != 1: raise F.Broken('the output of utf8_normalizer is not found')
        self.out = outk.pop()
        self.parts = (ioff, ioff + isz), (doff, doff + dsz)
        init = m.st
        skip = [(ioff, ioff + isz)]
        ref0 = m.cells(init, skip)
        # any state between calls
        base = init.copy()
        for k in m.strs:
            t = ('earlier output', k[1])
            s.put(base, k, (t,)); s.setsize(e, base, k, s.seglen(t))
        for i in range(dsz): e.rawstore(base, m.id, C(doff + i, 64), 1, X.Atom('decoder[%d]' % i, 8, None).node)
        for i in range(isz):
            if not any(k[1] <= ioff + i < k[1] + 32 for k in m.strs): e.rawstore(base, m.id, C(ioff + i, 64), 1, X.Atom('normalizer[%d]' % i, 8, None).node)
        self.insts = {k: base.x['str'][k] for k in m.strs if inside(k)}
        self.ref = m.cells(base)
        self.active = True
        self.dofeed(f['feed'], base.copy())
        self.active = False
        self.doflush(f['flush'], base.copy())
        self.doreset(f['reset'], base.copy(), ref0, skip)
        ctx.access_findings(e)
        ctx.absorb(e)

    def untouched(self, st, rule, w, skip=()):
        b = self.m.changed(st, self.ref, skip)
        ok = not b and all(st.x['str'].get(k) == v for k, v in self.insts.items())
        self.ctx.check(ok, rule, w, 'the decoder or the inner normalizer is changed from outside (byte %s)' % b[:1], 'states')

    def result(self, st, r, w, rule):
        n = self.e.subst_singles(st, self.e.asint(r[0]))
        q = r[1]
        if n.op == 'c' and n.a[0] == 0: return ()
        if not (isinstance(q, P) and isinstance(q.o, tuple) and q.o[0] == 'strbuf'): raise X.Undecided('returned text')
        if q.o[1] not in st.x['str'] or q.o[1][0] != self.m.id:
            self.ctx.bad(rule, w, 'the returned text does not live in the normalizer'); return None
        return self.s.content(self.e, st, q, n, 1)

    def dofeed(self, f, st):
        ctx, e, s = self.ctx, self.e, self.s
        n = X.Atom('n', 64, Dom([0], [1 << 32]))
        self.text = e.new_obj(st, 'array', n.node, 'input', 1, 'chunk')
        self.g = e.new_obj(st, 'fixed', C(8, 64), 'zero', name='reference')
        e.rawstore(st, self.g, Z64, 8, Z64)
        self.marker = ('the segments so far', self.g)
        e.hdrhook = self.hook
        rule = 'feed of UTF-8 passes every byte through the decoder and the normalizer to the output'
        w = site(ctx, e, f)
        cnt = 0
        for o in e.call(f, [P(self.m.id, Z64), n.node, P(self.text, Z64)], st):
            s1 = o.st
            ev = [x for x in s1.eventlist() if x[0] == 'mismatch']
            if ev: ctx.bad(rule, ctx.where(ev[0][2]), ev[0][1]); continue
            if o.kind == 'backedge': continue
            if o.kind != 'ret': ctx.bad(rule, ctx.where(G.loc_of(*o.loc)), 'does not return'); continue
            if s1.opaque: raise X.Undecided('undetermined branch')
            cnt += 1
            self.settle(s1)
            due = s1.x.get('due')
            if due: ctx.bad(rule, w, 'returns although %s' % self.duetext(due)); continue
            pos = e.subst_singles(s1, e.asint(e.rawload(s1, s1.mem[self.g], Z64, 8)))
            ctx.check(e.prove_le(s1, n.node, pos) and e.prove_le(s1, pos, n.node), rule, w, 'returns when %s of %s bytes are decoded' % (X.show(pos), X.show(n.node)), 'returns')
            r = self.result(s1, o.ret, w, rule)
            nn = e.subst_singles(s1, n.node)
            if r is None: continue
            ctx.check(r == (self.marker,) or r == () and (nn.op == 'c' and nn.a[0] == 0 or e.subst_singles(s1, s.size(e, s1, self.out)) is Z64), rule, w, 'the result is %s, not the segments of this chunk' % showterm(r), 'returns')
            self.untouched(s1, rule, w)
        if not cnt: raise F.Broken('utf8_normalizer::feed: no path returns')
        e.hdrhook = None

    def doflush(self, f, st):
        ctx, e, s = self.ctx, self.e, self.s
        rule = 'flush of the UTF-8 normalizer gives the encoded rest'
        w = site(ctx, e, f)
        for o in e.call(f, [P(self.m.id, Z64)], st):
            if o.kind != 'ret': ctx.bad(rule, ctx.where(G.loc_of(*o.loc)), 'does not return'); continue
            if o.st.opaque: raise X.Undecided('undetermined branch')
            r = self.result(o.st, o.ret, w, rule)
            if r is None: continue
            empty = e.subst_singles(o.st, s.seglen(('rest',))) is Z64
            want = (('enc', (('rest',),)),)
            ctx.check(o.st.x.get('calls') == ('flush',), rule, w, 'the inner normalizer is not flushed exactly once', 'returns')
            ctx.check(r == want or empty and r == (), rule, w, 'the result is %s, not %s' % (showterm(r), showterm(want)), 'returns')
            self.untouched(o.st, rule, w, [self.parts[1]])

    def doreset(self, f, st, ref0, skip):
        ctx, e = self.ctx, self.e
        rule = 'reset of the UTF-8 normalizer resets the decoder and the inner normalizer'
        w = site(ctx, e, f)
        for o in e.call(f, [P(self.m.id, Z64)], st):
            if o.kind != 'ret': ctx.bad(rule, ctx.where(G.loc_of(*o.loc)), 'does not return'); continue
            if o.st.opaque: raise X.Undecided('undetermined branch')
            ctx.check('reset' in o.st.x.get('calls', ()), rule, w, 'the inner normalizer keeps its pending text', 'returns')
            b = self.m.changed(o.st, ref0, skip)
            ctx.check(not b, rule, w, 'byte %s of the decoder state is not as constructed' % b[:1], 'returns')
