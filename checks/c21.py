"""C21: the C API"""
import re
import framework as F
import engine as G
import expr as X
import strings as S
import transduce as T
import c08
import c10
import c23
from dom import Dom
from percp import site
from engine import C, P, Z64

UNITS = ['capi.cpp', 'codepoint_properties.cpp', 'codepoint_properties_data.cpp', 'codepoint_properties_names.cpp']
IMAX = (1 << 31) - 1


def fn(p, name):
    f = next((g for m in p.mods for n, g in m.funcs.items() if g.defined and (p.dem(n) == name or p.dem(n).startswith(name + '('))), None)
    if f is None: raise F.Broken(name + ' is gone')
    return f


def run(ctx):
    ctx.rule('Each function of the C API is followed over a text of unknown length: the segmentation must be fed the whole text in order (as in C23), the count must be the number of segments opened, and the width the sum over the segments of exactly one '
             'width call with exactly that segment (or its first character). The UTF-8 forms must pass the decoded text on. The encoder loop must write exactly the encoded characters in order within the given size and report their number, or -1 exactly when they do not fit; '
             'the stream converter must pass every byte to its decoder and give what that gives.')
    p = ctx.program(UNITS, ['seg.cpp', 'codec.cpp', 'capi.cpp'])
    Count(ctx, p).run()
    Width(ctx, p, 0).run()
    Width(ctx, p, 1).run()
    utf8(ctx, p, 'u8_gc_count', 'u32_gc_count', False)
    utf8(ctx, p, 'u8_gc_width', 'u32_gc_width', True)
    unbreakable(ctx, p)
    stream(ctx, p)
    Encode(ctx, p).run()


class Count(c23.Walk):
    """the number of segments"""
    F = 'u32_gc_count'

    def __init__(self, ctx, p):
        super().__init__(ctx, p, 'grapheme', None, True)

    def init(self, e, st, fr, p, a):
        g = self.g
        g.put(st, 'start', g.get(st, 'fed'))
        for k, w in (('n32', 32), ('n64', 64)): g.put(st, k, X.add(g.get(st, k), C(1, w)))
        self.opened(st, fr, p)
        return super().init(e, st, fr, p, a)

    def opened(self, st, fr, p): pass

    def models(self): return []

    def args(self): return []

    def result(self, st, r, w):
        g = self.g
        if not any(self.same(st, X.zext(r, v.w) if r.w < v.w else r, v) for v in (g.get(st, 'n32'), g.get(st, 'n64'), X.trunc(g.get(st, 'n64'), 32))):
            return 'returns %s, the text has %s grapheme clusters' % (X.show(r), X.show(g.get(st, 'n32')))

    def run(self):
        ctx, p = self.ctx, self.p
        st = self.setup([(r, m) for r, m in self.models()], [('n32', 32, C(0, 32)), ('n64', 64, Z64), ('done', 8, C(1, 8))], 1 << 30)
        e = self.e

        def hook(st, fr, f, src, h):
            # the last grapheme cluster ends with the text
            if self.con(st, 'open') == 1 and self.same(st, self.g.get(st, 'fed'), self.n): self.g.put(st, 'open', C(0, 8))
        e.hdrhook = hook
        f = fn(p, self.F)
        w = site(ctx, e, f)
        self.where = w
        rule = self.F
        cnt = 0
        for o in e.call(f, [P(self.text, Z64), self.n] + self.args(), st):
            bad = [ev for ev in o.st.eventlist() if ev[0] == 'mismatch']
            for ev in bad[:1]: ctx.bad(rule, ctx.where(ev[2]) if not isinstance(ev[2], str) else ev[2], ev[1])
            if bad: cnt += 1; continue
            if o.kind == 'backedge':
                ctx.ok(1, 'iterations'); continue
            if o.kind != 'ret': ctx.bad(rule, ctx.where(G.loc_of(*o.loc)), 'does not return'); continue
            cnt += 1
            st = o.st
            if st.opaque: raise X.Undecided('undetermined branch')
            if not self.same(st, self.g.get(st, 'fed'), self.n): ctx.bad(rule, w, 'returns after %s of %s characters' % (X.show(self.g.get(st, 'fed')), X.show(self.n))); continue
            t = self.result(st, e.subst_singles(st, e.asint(o.ret)), w)
            ctx.check(t is None, rule, w, t or '', 'results')
        if not cnt: raise F.Broken(self.F + ' was not followed to its end')
        ctx.access_findings(e)
        ctx.absorb(e)


class Width(Count):
    """the sum of the segments' widths"""
    F = 'u32_gc_width'

    def __init__(self, ctx, p, mode):
        super().__init__(ctx, p)
        self.mode = mode

    def args(self):
        return [C(0, 32) if not self.mode else X.Atom('mode', 32, Dom([1], [(1 << 32) - 1])).node]

    def models(self):
        return [(r'unicode::width\(char32_t\)$', self.single), (r'unicode::grapheme_cluster_width\(std::basic_string_view<char32_t', self.cluster)]

    def opened(self, st, fr, p):
        if self.con(st, 'done') != 1: st.event('mismatch', 'a grapheme cluster is not measured', G.loc_of(fr.f, p.ins))
        self.g.put(st, 'done', C(0, 8))

    def measured(self, st, fr, p, v):
        g = self.g
        if self.con(st, 'done') != 0: st.event('mismatch', 'a grapheme cluster is measured twice', G.loc_of(fr.f, p.ins))
        g.put(st, 'done', C(1, 8))
        g.put(st, 'sum', X.add(g.get(st, 'sum'), v))
        return v

    def setup(self, models, cells, top):
        return super().setup(models, cells + [('sum', 32, C(0, 32))], top)

    def single(self, e, st, fr, p, a):
        loc = G.loc_of(fr.f, p.ins)
        if self.mode: st.event('mismatch', 'only the first character of a grapheme cluster is measured in the modifiable mode', loc)
        o = st.mem[self.text]
        off = e.subst_singles(st, X.scale(self.g.get(st, 'start'), 4))
        want = next((v for (k, n), v in o.reads.items() if n == 4 and (k is off or self.same(st, k, off))), None)
        if want is None or e.subst_singles(st, want) is not e.subst_singles(st, e.asint(a[0])): st.event('mismatch', 'the width is not taken of the first character of the grapheme cluster', loc)
        return self.measured(st, fr, p, X.Atom('width', 32, Dom([0], [2])).node)

    def cluster(self, e, st, fr, p, a):
        g = self.g
        loc = G.loc_of(fr.f, p.ins)
        if not self.mode: st.event('mismatch', 'the whole grapheme cluster is measured in the non-modifiable mode', loc)
        n, q = a[0], a[1]
        start, fed = g.get(st, 'start'), g.get(st, 'fed')
        if self.con(st, 'open') != 0 and not self.same(st, fed, self.n): st.event('mismatch', 'a grapheme cluster is measured before its end is found', loc)
        if not (self.same(st, e.asint(n), X.sub(fed, start)) and isinstance(q, P) and q.o == self.text and self.same(st, q.off, X.scale(start, 4))):
            st.event('mismatch', 'what is measured is not the grapheme cluster found', loc)
        return self.measured(st, fr, p, X.Atom('width', 32, Dom([0], [IMAX])).node)

    def result(self, st, r, w):
        if self.con(st, 'done') != 1: return 'the last grapheme cluster is not measured'
        s = self.g.get(st, 'sum')
        if not self.same(st, r, s): return 'returns %s, the grapheme clusters are %s wide' % (X.show(r), X.show(s))


def utf8(ctx, p, name, inner, mode):
    """the UTF-8 form is the other one, of the decoded text"""
    rule = name
    s = S.Strings()
    seen = []

    def model(e, st, fr, q, a):
        try: src = s.content(e, st, a[0], a[1], 4, fr.f, q.ins)
        except S.Unsupported: src = (('piece',),)
        v = X.Atom('inner', 32, Dom([0], [IMAX])).node
        st.event('inner', src, tuple(e.asint(x) for x in a[2:]), v, G.loc_of(fr.f, q.ins))
        return v
    e = ctx.engine(p, [(re.compile(re.escape(inner) + r'(\(|$)'), model)] + c08.term_models(s, names=()) + s.models())
    s.setup(e)
    st = e.newstate()
    (text, n, content), = c08.texts(e, st, 1, 'text')
    f = fn(p, name)
    w = site(ctx, e, f)
    m = X.Atom('mode', 32).node
    k = 0
    for o in e.call(f, [P(text, Z64), n] + ([m] if mode else []), st):
        if o.kind == 'backedge': continue
        if o.kind != 'ret': ctx.bad(rule, ctx.where(G.loc_of(*o.loc)), 'does not return'); continue
        k += 1
        st = o.st
        if st.opaque: raise X.Undecided('undetermined branch')
        ev = [x for x in st.eventlist() if x[0] == 'inner']
        empty = e.subst_singles(st, n)
        if not ev and empty.op == 'c' and empty.a[0] == 0:
            r = e.subst_singles(st, e.asint(o.ret))
            ctx.check(r.op == 'c' and r.a[0] == 0, rule, w, 'returns %s for the empty text' % X.show(r), 'UTF-8 forms'); continue
        if len(ev) != 1: ctx.bad(rule, w, '%s is asked %d times' % (inner, len(ev))); continue
        want = (('dec', content),)
        if empty.op == 'c' and empty.a[0] == 0: want = ()
        got = ev[0][1]
        got = tuple(x for x in got if x[0] != 'dec' or x[1])
        good = got == want or want == () and all(e.subst_singles(st, s.seglen(x)).op == 'c' and e.subst_singles(st, s.seglen(x)).a[0] == 0 for x in got)
        ctx.check(good, rule, ctx.where(ev[0][4]), '%s is asked about %s, not the decoded text' % (inner, c08.showterm(ev[0][1])), 'UTF-8 forms')
        if mode: ctx.check(e.subst_singles(st, ev[0][2][0]) is e.subst_singles(st, m), rule, ctx.where(ev[0][4]), 'the mode passed on is %s' % X.show(ev[0][2][0]), 'UTF-8 forms')
        ctx.check(e.subst_singles(st, e.asint(o.ret)) is e.subst_singles(st, ev[0][3]), rule, w, 'returns %s, not what %s returned' % (X.show(o.ret), inner), 'UTF-8 forms')
    if not k: raise F.Broken(name + ' was not followed to its end')
    ctx.access_findings(e)
    ctx.absorb(e)


def unbreakable(ctx, p):
    rule = 'u32_grapheme_unbreakable'
    a1, a2 = X.Atom('a', 32).node, X.Atom('b', 32).node

    def init(e, st, fr, q, a):
        st.event('init', a[0], (a[1].o, e.conc(st, a[1].off)), G.loc_of(fr.f, q.ins)); return None

    def step(e, st, fr, q, a):
        v = X.Atom('break', 1).node
        st.event('step', a[0], (a[1].o, e.conc(st, a[1].off)), v, G.loc_of(fr.f, q.ins)); return v
    e = ctx.engine(p, [(re.compile(r'unicode::grapheme_process_init\('), init), (re.compile(r'unicode::grapheme_process_breakable\('), step)])
    f = fn(p, rule)
    w = site(ctx, e, f)
    k = 0
    for o in e.call(f, [a1, a2], e.newstate()):
        if o.kind == 'backedge': continue
        k += 1
        if o.kind != 'ret': ctx.bad(rule, ctx.where(G.loc_of(*o.loc)), 'does not return'); continue
        st = o.st
        if st.opaque: raise X.Undecided('undetermined branch')
        ev = [x for x in st.eventlist() if x[0] in ('init', 'step')]
        sub = lambda x: e.subst_singles(st, x)
        good = [x[0] for x in ev] == ['init', 'step'] and sub(ev[0][1]) is sub(a1) and sub(ev[1][1]) is sub(a2) and ev[0][2] == ev[1][2]
        ctx.check(good, rule, w, 'does not start at the first character and test the second', 'pairs')
        if not good: continue
        for v in (0, 1):
            s2 = st.copy()
            if not (s2.dom(ev[1][3].a[0]) & Dom.one(v)) if ev[1][3].op == 'v' else False: continue
            s2.doms[ev[1][3].a[0]] = Dom.one(v)
            r = e.subst_singles(s2, e.asint(o.ret))
            r = r.a[0] if r.op == 'c' else None
            d = e.valdom(s2, e.asint(o.ret))
            ctx.check(d.n == 1 and int(d.s[0]) == 1 - v, rule, w, 'gives %s for two characters %s' % (d.show(), 'with a boundary between them' if v else 'of one cluster'), 'pairs')
    if not k: raise F.Broken(rule + ' was not followed to its end')
    ctx.access_findings(e)
    ctx.absorb(e)


def stream(ctx, p):
    """the stream converter is its decoder"""
    byte = X.Atom('byte', 8).node
    cp = X.Atom('decoded', 32, F.ALLCP).node
    e2 = G.Engine(p, [])

    def dec(e, st, fr, q, a):
        st.event('dec', (a[0].o, e.conc(st, a[0].off)), e.asint(a[1]), G.loc_of(fr.f, q.ins))
        r = []
        for probe, args, v in (('probe_opt_none', [], None), ('probe_opt_some', [cp], cp)):
            s2 = st.copy()
            s2.forks += 1
            s2.event('got', v)
            r.append((s2, e2.call(F.fn_of(p, probe), args, e2.newstate())[0].ret))
        return r
    e = ctx.engine(p, [(re.compile(r'unicode::decoder<char>::operator\(\)\(unsigned char\)'), dec)])
    create, step, destroy = (fn(p, 'u8u32_stream_convert_' + x) for x in ('create', 'run', 'destroy'))
    w = site(ctx, e, step)
    made = [o for o in e.call(create, [], e.newstate()) if o.kind == 'ret']
    if len(made) != 1: raise X.Undecided('u8u32_stream_convert_create')
    h = made[0].ret
    st0 = made[0].st
    ok = isinstance(h, P) and h.o in st0.mem
    ctx.check(ok, 'u8u32_stream_convert_create', site(ctx, e, create), 'gives no converter', 'stream converter')
    if not ok: return
    n = e.subst_singles(st0, st0.mem[h.o].size).a[0]
    # a new decoder
    e3 = G.Engine(p, [])
    st = e3.newstate()
    size = int(e3.call(F.fn_of(p, 'probe_push8_size'), [], st)[0].ret.a[0])
    st = e3.newstate()
    d = e3.new_obj(st, 'fixed', C(size, 64), 'undef', name='decoder')
    st = e3.call(F.fn_of(p, 'probe_push8_init'), [P(d, Z64)], st)[0].st
    rule = 'u8u32_stream_convert_run'
    out = e.new_obj(st0, 'fixed', C(4, 64), 'undef', name='output')
    before = X.Atom('before', 32).node
    e.rawstore(st0, out, Z64, 4, before)
    st0.wobj(h.o)
    fresh0 = [e.rawload(st0, st0.mem[h.o], C(i, 64), 1) for i in range(n)]
    stx = st0
    st0 = st0.copy()
    for i in range(n): e.rawstore(st0, h.o, C(i, 64), 1, X.Atom('state%d' % i, 8).node)
    where = set()
    k = 0
    for o in e.call(step, [h, byte, P(out, Z64)], st0.copy()):
        if o.kind == 'backedge': continue
        k += 1
        if o.kind != 'ret': ctx.bad(rule, ctx.where(G.loc_of(*o.loc)), 'does not return'); continue
        st1 = o.st
        if st1.opaque: raise X.Undecided('undetermined branch')
        ev = [x for x in st1.eventlist() if x[0] in ('dec', 'got')]
        good = [x[0] for x in ev] == ['dec', 'got'] and ev[0][1][0] == h.o and e.subst_singles(st1, ev[0][2]) is e.subst_singles(st1, byte)
        ctx.check(good, rule, w, 'the byte is not passed once to the decoder of the converter', 'stream converter')
        if not good: continue
        where.add(ev[0][1])
        r = e.valdom(st1, e.asint(o.ret))
        v = e.subst_singles(st1, e.asint(e.rawload(st1, st1.mem[out], Z64, 4)))
        got = ev[1][1]
        ctx.check(r.n == 1 and int(r.s[0]) == (got is not None), rule, w, 'returns %s when the character is %s' % (r.show(), 'complete' if got is not None else 'not complete'), 'stream converter')
        want = before if got is None else got
        ctx.check(v is e.subst_singles(st1, want), rule, w, 'leaves %s in the output when the character is %s' % (X.show(v), 'complete' if got is not None else 'not complete'), 'stream converter')
        now = [e.rawload(st1, st1.mem[h.o], C(i, 64), 1) for i in range(n)]
        eq = lambda ref: all(a is b or isinstance(a, X.E) and isinstance(b, X.E) and e.subst_singles(st1, a) is e.subst_singles(st1, b) for a, b in zip(ref, now))
        # after a complete character, starting afresh makes no difference
        same = eq([e.rawload(st0, st0.mem[h.o], C(i, 64), 1) for i in range(n)]) or got is not None and eq(fresh0)
        ctx.check(same, rule, w, 'changes the converter besides what the decoder does', 'stream converter')
    if not k: raise F.Broken(rule + ' was not followed to its end')
    st0 = stx
    for o, at in sorted(where, key=str):
        fresh = all(e.rawload(st0, st0.mem[o], X.add(at, C(i, 64)), 1) is e3.rawload(st, st.mem[d], C(i, 64), 1) or e3.rawload(st, st.mem[d], C(i, 64), 1) is G.UNDEF for i in range(size))
        ctx.check(fresh, 'u8u32_stream_convert_create', site(ctx, e, create), 'the new converter does not start with a new decoder', 'stream converter')
    rule = 'u8u32_stream_convert_destroy'
    w = site(ctx, e, destroy)
    st2 = st0.copy()
    freed = []
    box = e.new_obj(st2, 'fixed', C(8, 64), 'undef', name='handle')
    e.rawstore(st2, box, Z64, 8, h)
    e4 = e
    e4.models.insert(0, (re.compile(r'operator delete\('), lambda e, st, fr, q, a: st.event('freed', a[0]) and None))
    for o in e.call(destroy, [P(box, Z64)], st2):
        if o.kind == 'backedge': continue
        if o.kind != 'ret': ctx.bad(rule, ctx.where(G.loc_of(*o.loc)), 'does not return'); continue
        ev = [x for x in o.st.eventlist() if x[0] == 'freed']
        ctx.check(len(ev) == 1 and isinstance(ev[0][1], P) and ev[0][1].o == h.o, rule, w, 'the converter is freed %d times' % len(ev), 'stream converter')
        v = e.rawload(o.st, o.st.mem[box], Z64, 8)
        null = isinstance(v, X.E) and v.op == 'c' and v.a[0] == 0 or isinstance(v, P) and v.o is None
        ctx.check(null, rule, w, 'the handle is not cleared', 'stream converter')
    ctx.access_findings(e)
    ctx.absorb(e)


class Encode:
    """u32u8_convert: the encoder is uninterpreted (0 to 4 bytes of any value)"""

    def __init__(self, ctx, p):
        self.ctx = ctx; self.p = p

    def same(self, st, a, b):
        e = self.e
        a = e.subst_singles(st, a); b = e.subst_singles(st, b)
        return a is b or e.prove_le(st, a, b) and e.prove_le(st, b, a)

    def settle(self, st, loc):
        """the bytes of the last character must be in place"""
        due = st.x.get('due')
        if not due: return
        e, g = self.e, self.g
        out = g.get(st, 'out')
        for i, v in enumerate(due):
            off = e.subst_singles(st, X.add(out, C(i, 64)))
            got = e.rawload(st, st.mem[self.dest], off, 1) if e.prove_le(st, X.add(off, C(1, 64)), self.dlen) else G.UNDEF
            if got is G.UNDEF or e.subst_singles(st, e.asint(got)) is not v:
                st.event('mismatch', 'byte %d of an encoded character is not at its place in the destination' % (i + 1), loc); break
        g.put(st, 'out', X.add(out, C(len(due), 64)))
        g.put(st, 'out32', X.add(g.get(st, 'out32'), C(len(due), 32)))
        st.x['due'] = ()

    def encode(self, e, st, fr, p, a):
        loc = G.loc_of(fr.f, p.ins)
        g = self.g
        self.settle(st, loc)
        pos = g.get(st, 'pos')
        o = st.mem[self.text]
        off = e.subst_singles(st, X.scale(pos, 4))
        want = next((v for (k, n), v in o.reads.items() if n == 4 and (k is off or self.same(st, k, off))), None)
        node = e.subst_singles(st, e.asint(a[1]))
        if want is None or e.subst_singles(st, want) is not node: st.event('mismatch', 'the encoder is given %s when character %s is next' % (X.show(node), X.show(pos)), loc)
        g.put(st, 'pos', X.add(pos, C(1, 64)))
        r = []
        q = a[2]
        for n in range(5):
            s2 = st.copy()
            s2.forks += 1; s2.unb += 1
            bs = [X.Atom('enc%d' % i, 8).node for i in range(n)]
            for i, b in enumerate(bs): e.store(s2, P(q.o, X.add(q.off, C(i, 64))), 1, b, fr.f, p.ins)
            s2.x['due'] = tuple(bs)
            if q.o == self.dest:
                s2.event('direct', loc)
            r.append((s2, P(q.o, X.add(q.off, C(n, 64)))))
        return r

    def hook(self, st, fr, f, src, h):
        if self.e.hdrbase is not None: self.settle(st, G.loc_of(f, f.bp[h][1][0].ins))

    def run(self):
        ctx, p = self.ctx, self.p
        rule = 'u32u8_convert'
        e = self.e = ctx.engine(p, [(re.compile(r'.*unicode::encoder<char>::operator\(\)<char\*>\(char32_t, char\*\)'), self.encode)])
        e.merge = True
        e.hdrhook = self.hook
        st = e.newstate()
        self.n = X.Atom('n', 64, Dom([0], [1 << 28])).node
        self.dlen = X.Atom('dlen', 64, Dom([0], [1 << 40])).node
        self.text = T.cptext(e, st, self.n, dom=Dom([0], [(1 << 32) - 1]))
        self.dest = e.new_obj(st, 'array', self.dlen, 'undef', 1, 'dest')
        self.g = c10.Ghost(e, st, [('pos', 64, Z64), ('out', 64, Z64), ('out32', 32, C(0, 32))])
        f = fn(p, rule)
        w = site(ctx, e, f)
        ends = 0
        fails = 0
        for o in e.call(f, [P(self.text, Z64), self.n, P(self.dest, Z64), self.dlen], st):
            bad = [ev for ev in o.st.eventlist() if ev[0] == 'mismatch']
            for ev in bad[:1]: ctx.bad(rule, ctx.where(ev[2]), ev[1])
            if bad: ends += 1; continue
            if o.kind == 'backedge':
                ctx.ok(1, 'iterations'); continue
            if o.kind != 'ret': ctx.bad(rule, ctx.where(G.loc_of(*o.loc)), 'does not return'); continue
            st = o.st
            if st.opaque: raise X.Undecided('undetermined branch')
            r = e.subst_singles(st, e.asint(o.ret))
            due = st.x.get('due') or ()
            out = self.g.get(st, 'out')
            if r.op == 'c' and r.a[0] == (1 << 32) - 1:
                fails += 1
                over = e.prove_le(st, X.add(self.dlen, C(1, 64)), X.add(out, C(len(due), 64)))
                ctx.check(over, rule, w, 'fails although %s bytes and %d more may fit into the destination' % (X.show(out), len(due)), 'results')
                continue
            ends += 1
            self.settle(st, None)
            bad = [ev for ev in st.eventlist() if ev[0] == 'mismatch']
            if bad: ctx.bad(rule, w, bad[0][1]); continue
            g = self.g
            ctx.check(self.same(st, g.get(st, 'pos'), self.n), rule, w, 'returns after %s of %s characters' % (X.show(g.get(st, 'pos')), X.show(self.n)), 'results')
            ctx.check(any(self.same(st, X.zext(r, v.w) if r.w < v.w else r, v) for v in (g.get(st, 'out32'), g.get(st, 'out'))), rule, w, 'returns %s, %s bytes were written' % (X.show(r), X.show(g.get(st, 'out'))), 'results')
        if not ends: raise F.Broken(rule + ' was not followed to its end')
        if not fails: ctx.bad(rule, w, 'never fails although the destination may be too small')
        ctx.access_findings(e)
        ctx.absorb(e)
