"""C14: bulk conversion between encodings"""
import re
import framework as F
import engine as G
import expr as X
import strings as S
import c08
import c10
import c11
import c12
import c16
from dom import Dom
from percp import site
from engine import C, P, Z64

BULK = [(u, name % b, w, b // 8) for b in (32, 16) for u, name, w in (
    ('convert.cpp', 'unsigned long unicode::detail::convert_utf8_to_utf%d_simd<128ul>(', 128),
    ('convert256.cpp', 'unicode::detail::convert_utf8_to_utf%d_256(', 256),
    ('convert512.cpp', 'unicode::detail::convert_utf8_to_utf%d_512(', 512))]
ASCII = Dom([0], [0x7F])
FULL32 = Dom([0], [(1 << 32) - 1])


UN = {'8': 'char', '16': 'char16_t', '32': 'char32_t', 'w': 'wchar_t'}
UW = {'8': 1, '16': 2, '32': 4, 'w': 4}
CONVS = [(a, b) for a in UN for b in UN]
COPIES = [('8', b) for b in UN]
CHARS = [('32', '8'), ('16', '8'), ('8', '32'), ('32', '16')]


def run(ctx):
    ctx.rule('The bulk conversions are followed over a text of unknown length and content, with the decoder and encoder replaced by recorders that may give anything: every unit must be passed to one decoder in order, or, while that is between two '
             'sequences, be ASCII and stored widened; every decoded character must be stored, encoded, next in the output; the count returned must be the number of units stored; all accesses must lie inside the text and an output of as many units. '
             'The generic conversion must hand every decoded character to the encoder and go on until the end of the text; its decoders must read no unit behind the end and give no value for a sequence cut off there.')
    premises(ctx)
    for unit, name, width, u in BULK:
        p = ctx.program([unit], ['codec.cpp', 'convert.cpp'])
        f = next((g for m in p.mods for n, g in m.funcs.items() if g.defined and p.dem(n).startswith(name)), None)
        if f is None: raise F.Broken(name + ' is gone')
        Bulk(ctx, p, f, width, u).run()
    c16.dispatch(ctx, c16.wide(ctx.program(c16.UNITS)), *c16.DISP[1])
    c16.dispatch(ctx, c16.wide(ctx.program(c16.UNITS)), *c16.DISP[2])
    p = ctx.program(['utf8.cpp'], ['convert.cpp'])
    dec = set()
    for kind, names in (('conv', CONVS), ('copy', COPIES)):
        for a, b in names:
            g = Generic(ctx, p, kind, a, b)
            g.run()
            dec |= {(a,) + x for x in g.found}
    if {x[0] for x in dec} != set(UN): raise F.Broken('decoders used: %s' % sorted(dec))
    for x in sorted(dec): bounded(ctx, p, *x)
    for a, b in CHARS: char(ctx, p, a, b)


def same(e, st, a, b):
    a = e.subst_singles(st, a); b = e.subst_singles(st, b)
    return a is b or e.prove_le(st, a, b) and e.prove_le(st, b, a)


def premises(ctx):
    """what the recorders assume of the real decoder"""
    p = ctx.program(['utf8.cpp'], ['codec.cpp'])
    e = ctx.engine(p)
    f = F.fn_of(p, 'probe_push8')
    w = site(ctx, e, f)
    size = int(e.call(F.fn_of(p, 'probe_push8_size'), [], e.newstate())[0].ret.a[0])

    st = e.newstate()
    so = e.new_obj(st, 'fixed', C(size, 64), 'undef', name='decoder')
    o, = e.call(F.fn_of(p, 'probe_push8_init'), [P(so, Z64)], st)
    mem = range(0, size, 4)
    dom = lambda st, so, k: e.valdom(st, e.subst_singles(st, e.asint(e.rawload(st, st.mem[so], C(k, 64), 4), 32)))
    rule = 'the decoder gives ASCII bytes at once and a character beyond U+FFFF after four bytes at the least'
    # member values and bytes since the last character; reachability over sets of member values
    work = [(tuple(dom(o.st, so, k) for k in mem), 0)]
    seen = set(work)
    while work:
        ds, n = work.pop()
        for d in ([ASCII, Dom([0x80], [0xFF])] if n == 0 else [Dom([0], [0xFF])]):
            st = e.newstate()
            so = e.new_obj(st, 'fixed', C(size, 64), 'undef', name='decoder')
            v = e.new_obj(st, 'fixed', C(4, 64), 'undef', name='value')
            for k, x in zip(mem, ds): e.rawstore(st, so, C(k, 64), 4, X.Atom('member%d' % k, 32, x).node)
            b = X.Atom('b', 8, d).node
            for o in e.call(f, [b, P(v, Z64), P(so, Z64)], st):
                if o.kind == 'backedge': continue
                if o.kind != 'ret' or o.st.opaque: raise X.Undecided('decoder')
                s = o.st
                val = e.subst_singles(s, e.asint(o.ret)).a[0] == 1
                if d is ASCII: ctx.check(val and e.subst_singles(s, e.rawload(s, s.mem[v], Z64, 4)) is e.subst_singles(s, X.zext(b, 32)), rule, w, 'an ASCII byte between two sequences does not give itself', 'decoder states')
                elif val: ctx.check(n >= 3 or e.valdom(s, e.asint(e.rawload(s, s.mem[v], Z64, 4))).hi <= 0xFFFF, rule, w, 'a character beyond U+FFFF is given after %d bytes' % (n + 1), 'decoder states')
                t = tuple(dom(s, so, k) for k in mem), 0 if val else min(n + 1, 3)
                if t not in seen: seen.add(t); work.append(t)
                if len(seen) > 4096: raise X.Undecided('decoder states')
    ctx.access_findings(e)
    ctx.absorb(e)


class Found(Exception): pass


class Bulk:
    def __init__(self, ctx, p, f, width, u):
        self.ctx = ctx; self.p = p; self.f = f; self.width = width; self.u = u

    def bad(self, st, loc, text): st.event('mismatch', text, loc)

    # ---- settled output
    def settle(self, st, loc):
        e, g, u = self.e, self.g, self.u
        for v in st.x.get('due') or ():
            m = g.get(st, 'm')
            if not self.there(st, m, v): self.bad(st, loc, 'unit %s of the output is not the next one decoded' % X.show(m))
            g.put(st, 'm', X.add(m, C(1, 64)))
        st.x['due'] = ()
        if st.x.get('val') is not None: self.bad(st, loc, 'a decoded character is not encoded'); st.x['val'] = None
        # units copied while no sequence is open
        n = 0
        while st.x.get('new') and self.same(st, g.get(st, 'mark'), g.get(st, 'fed')):
            m = g.get(st, 'm'); fed = g.get(st, 'fed')
            off = e.subst_singles(st, X.scale(m, u))
            if not any(self.within(st, off, o, k) for o, k in st.x['new']): break
            b = self.byte(st, fed)
            if b is None or not e.valdom(st, b).subset(ASCII) or not self.there(st, m, X.zext(e.subst_singles(st, b), 8 * u)):
                self.bad(st, loc, 'unit %s of the output is not byte %s of the text, an ASCII character' % (X.show(m), X.show(fed))); break
            for k in ('m', 'fed', 'mark'): g.put(st, k, X.add(g.get(st, k), C(1, 64)))
            n += 1
        st.x['new'] = ()

    def within(self, st, off, o, k):
        e = self.e
        d = e.subst_singles(st, X.sub(off, o))
        return d.op == 'c' and X.sgn(d.a[0], 64) in range(k)

    def there(self, st, m, v):
        e, u = self.e, self.u
        off = e.subst_singles(st, X.scale(m, u))
        if not any(self.within(st, off, o, k) for o, k in st.x.get('new', ())): return False
        got = e.rawload(st, st.mem[self.out], off, u)
        return got is not G.UNDEF and e.subst_singles(st, e.asint(got, 8 * u)) is e.subst_singles(st, v)

    def same(self, st, a, b): return same(self.e, st, a, b)

    def byte(self, st, pos):
        e = self.e
        pos = e.subst_singles(st, pos)
        o = st.mem[self.text]
        v = o.reads.get((pos, 1))
        if v is not None: return v
        return next((x for (k, n), x in o.reads.items() if n == 1 and e.subst_singles(st, k) is pos), None) or next((x for (k, n), x in o.reads.items() if n == 1 and self.same(st, k, pos)), None)

    # ---- recorders
    def state(self, st, sp):
        """the decoder is the one used so far and was not touched"""
        e = self.e
        if not (isinstance(sp, P) and sp.o in st.mem): return False
        k = e.subst_singles(st, self.g.get(st, 'calls')).a[0]
        if k == 3 and self.isfresh(st, sp): return True
        t = e.rawload(st, st.mem[sp.o], sp.off, 1)
        return t is not G.UNDEF and self.same(st, e.asint(t), C(k, 8)) and not st.x.get('dirty')

    def isfresh(self, st, sp):
        e = self.e
        vs = [e.rawload(st, st.mem[sp.o], X.add(sp.off, C(i, 64)), 4) for i in self.fresh]
        return all(v is not G.UNDEF and e.subst_singles(st, e.asint(v)) is self.fresh[i] for i, v in zip(self.fresh, vs))

    def token(self, st, sp, k):
        e = self.e
        st.x.pop('live', None)
        for i in range(self.size): e.rawstore(st, sp.o, X.add(sp.off, C(i, 64)), 1, k if i == 0 else X.Atom('state', 8, Dom([0], [255])).node)
        st.x['live'] = (sp.o, e.subst_singles(st, sp.off), self.size)

    def decode(self, e, st, fr, p, a):
        if not self.active:
            self.decs.add((st.mem[a[0].o].name, e.conc(st, a[0].off)))
            raise Found
        loc = G.loc_of(fr.f, p.ins)
        g = self.g
        self.settle(st, loc)
        sp, b = a[0], e.subst_singles(st, e.asint(a[1], 8))
        fed = g.get(st, 'fed')
        want = self.byte(st, fed)
        if want is None or e.subst_singles(st, want) is not b: self.bad(st, loc, 'the decoder is given %s when byte %s is next' % (X.show(b), X.show(fed)))
        if not self.state(st, sp): self.bad(st, loc, 'the decoder does not carry on from the state the byte before left')
        k = g.get(st, 'calls')
        k = C((k.a[0] + 1) % 3, 8)
        g.put(st, 'calls', k)
        self.token(st, sp, k)
        fed = X.add(fed, C(1, 64))
        g.put(st, 'fed', fed)
        r = []
        long = X.icmp('uge', X.sub(fed, g.get(st, 'mark')), C(4, 64)) if self.u == 2 else C(1, 1)
        for dom, cond in ((None, None), (Dom([0], [0xFFFF]), None), (Dom([0x10000], [(1 << 32) - 1]), long)):
            s2 = st.copy()
            s2.forks += 1; s2.unb += 1
            if dom is None:
                r.append((s2, self.opt('probe_none', []))); continue
            if cond is not None and cond.op != 'c':
                s2 = self.assume(s2, cond)
                if s2 is None: continue
            v = X.Atom('decoded', 32, dom).node
            g.put(s2, 'mark', fed)
            if self.u == 4: s2.x['due'] = (v,)
            else: s2.x['val'] = v
            r.append((s2, self.opt('probe_some', [v])))
        return r

    def assume(self, st, cond):
        for s, t in self.e.split(st, cond):
            if t: return s

    def opt(self, probe, args):
        o, = self.e2.call(F.fn_of(self.p, probe), args, self.e2.newstate())
        return o.ret

    def encode(self, e, st, fr, p, a):
        loc = G.loc_of(fr.f, p.ins)
        v = e.subst_singles(st, e.asint(a[1], 32))
        if st.x.get('val') is None or e.subst_singles(st, st.x['val']) is not v: self.bad(st, loc, 'the encoder is given %s, which was not just decoded' % X.show(v))
        st.x['val'] = None
        q = a[2]
        big = e.valdom(st, v).lo > 0xFFFF
        r = []
        for n in (0, 2) if big else (0, 1):
            s2 = st.copy()
            s2.forks += 1; s2.unb += 1
            us = [X.Atom('unit%d' % i, 16).node for i in range(n)]
            for i, x in enumerate(us): e.store(s2, P(q.o, X.add(q.off, C(2 * i, 64))), 2, x, fr.f, p.ins)
            s2.x['due'] = tuple(us)
            r.append((s2, P(q.o, X.add(q.off, C(2 * n, 64)))))
        return r

    def hook(self, st, fr, f, src, h):
        self.settle(st, G.loc_of(f, f.bp[h][1][0].ins))
        if self.active and 'live' not in st.x:
            for o in list(st.mem):
                for nm, off in self.decs:
                    if st.mem[o].name == nm and self.isfresh(st, P(o, off)): self.token(st, P(o, off), C(3, 8))

    # ---- run
    def run(self):
        self.decs = set()
        for self.active in (False, True): self.go()

    def go(self):
        ctx, p, f, u = self.ctx, self.p, self.f, self.u
        rule = 'bulk conversion to UTF-%d (%d-bit)' % (8 * u, self.width)
        rx = re.compile
        e = self.e = ctx.engine(p, [(rx(r'unicode::decoder<char>::operator\(\)\(unsigned char\)$'), self.decode), (rx(r'.*unicode::encoder<char16_t>::operator\(\)<char16_t\*>\('), self.encode)])
        self.e2 = ctx.engine(p)
        e.merge = True
        e.tuples = True
        e.tupw = 8
        e.order = True
        e.hdrhook = self.hook
        raw = e.rawstore

        def rawstore(st, oid, off, n, v, loc=None):
            if oid == self.out: st.x['new'] = st.x.get('new', ()) + ((e.subst_singles(st, off), n),)
            lv = st.x.get('live')
            if loc is not None and lv is not None and oid == lv[0]:
                d = e.subst_singles(st, X.sub(off, lv[1]))
                if d.op == 'c' and (d.a[0] < lv[2] or d.a[0] > (1 << 64) - n): st.x['dirty'] = loc
            return raw(st, oid, off, n, v, loc)
        st = e.newstate()
        self.size = int(self.e2.call(F.fn_of(p, 'probe_push8_size'), [], self.e2.newstate())[0].ret.a[0])
        so = e.new_obj(st, 'fixed', C(self.size, 64), 'undef', name='decoder')
        o, = e.call(F.fn_of(p, 'probe_push8_init'), [P(so, Z64)], st)
        self.fresh = {k: e.subst_singles(o.st, e.rawload(o.st, o.st.mem[so], C(k, 64), 4)) for k in range(0, self.size, 4)}
        e.rawstore = rawstore
        st = e.newstate()
        self.n = X.Atom('n', 64, Dom([0], [1 << 40])).node
        self.text = e.new_obj(st, 'array', self.n, 'input', 1, 'text')
        self.out = e.new_obj(st, 'array', X.scale(self.n, u), 'undef', u, 'output')
        g = self.g = c10.Ghost(e, st, [('fed', 64, Z64), ('m', 64, Z64), ('mark', 64, Z64), ('calls', 8, C(3, 8))])
        w = site(ctx, e, f)
        ends = 0
        if not self.active:
            try: e.call(f, [P(self.text, Z64), self.n, P(self.out, Z64)], st)
            except Found: pass
            return
        for o in e.call(f, [P(self.text, Z64), self.n, P(self.out, Z64)], st):
            st = o.st
            if o.kind == 'ret': self.settle(st, None)
            bad = [ev for ev in st.eventlist() if ev[0] == 'mismatch']
            for ev in bad[:1]: ctx.bad(rule, ctx.where(ev[2]) if ev[2] else w, ev[1])
            if bad: ends += 1; continue
            if o.kind == 'backedge': ctx.ok(1, 'iterations'); continue
            if o.kind != 'ret': ctx.bad(rule, ctx.where(G.loc_of(*o.loc)), 'does not return'); continue
            if st.opaque: raise X.Undecided('undetermined branch')
            ends += 1
            r = e.subst_singles(st, e.asint(o.ret))
            ctx.check(self.same(st, g.get(st, 'fed'), self.n), rule, w, 'returns after %s of %s bytes' % (X.show(g.get(st, 'fed')), X.show(self.n)), 'results')
            ctx.check(self.same(st, r, g.get(st, 'm')), rule, w, 'returns %s, %s units were stored' % (X.show(r), X.show(g.get(st, 'm'))), 'results')
        if not ends: raise F.Broken(rule + ' was not followed to its end')
        ctx.access_findings(e)
        ctx.absorb(e)


def coding(e, p):
    """character type of a decoder or encoder"""
    d = e.p.dem(p.x['c'][1])
    m = re.search(r'coder<(\w+)>', d)
    if m: return m.group(1)
    m = re.match(r'_ZN7unicode7decoderI(\w+?)EclI', d)
    return {'c': 'char', 'Ds': 'char16_t', 'Di': 'char32_t', 'w': 'wchar_t'}.get(m.group(1)) if m else None


class Generic:
    """convert_to<T>(text): the decoder may take any number of units and give any character or none"""

    def __init__(self, ctx, p, kind, a, b):
        self.ctx = ctx; self.p = p; self.kind = kind; self.a = a; self.b = b

    def bad(self, st, loc, text): st.event('mismatch', text, loc)

    def outkey(self, st):
        ks = list(st.x.get('str', {}))
        return ks[0] if len(ks) == 1 else None

    def settle(self, st, loc):
        e, s = self.e, self.s
        k = self.outkey(st)
        due = st.x.get('due') or ()
        if k is None:
            if due: self.bad(st, loc, 'a character is decoded although there is no output')
            return
        segs = s.get(st, k)
        if segs[:1] == (self.marker,): segs = segs[1:]
        if due:
            if segs[:1] != due: self.bad(st, loc, 'a decoded character is not encoded into the output')
            segs = segs[1:]
            st.x['due'] = ()
        for x in segs:
            pos = self.g.get(st, 'pos')
            v = self.unit(st, pos) if self.a == self.b or self.direct else None
            if x[0] == 'e' and v is not None and e.subst_singles(st, e.asint(x[1])) is e.subst_singles(st, v): self.g.put(st, 'pos', X.add(pos, C(1, 64))); continue
            self.bad(st, loc, 'the output gets %s, which is not the next character' % c08.showterm((x,))); break
        s.put(st, k, (self.marker,))

    def unit(self, st, pos):
        e = self.e
        w = UW[self.a]
        off = e.subst_singles(st, X.scale(pos, w))
        return next((v for (k, n), v in st.mem[self.text].reads.items() if n == w and (k is off or same(e, st, k, off))), None)

    def decode(self, e, st, fr, p, a):
        loc = G.loc_of(fr.f, p.ins)
        if coding(e, p) != UN[self.a]: self.bad(st, loc, 'the decoder of another encoding is used')
        self.settle(st, loc)
        w = UW[self.a]
        it = a[1]
        pos = self.g.get(st, 'pos')
        ps = {k: e.rawload(st, st.mem[it.o], X.add(it.off, C(k, 64)), 8) for k in (0, 8) if st.mem[it.o].kind == 'fixed' and e.prove_le(st, X.add(it.off, C(k + 8, 64)), st.mem[it.o].size)}
        ps = {k: v for k, v in ps.items() if isinstance(v, P) and v.o == self.text}
        end = next((k for k, v in ps.items() if len(ps) > 1 and same(e, st, v.off, X.scale(self.n, w))), None)
        cur = next((k for k, v in ps.items() if k != end and same(e, st, v.off, X.scale(pos, w))), None)
        if cur is None:
            self.bad(st, loc, 'the decoder is not given the text at unit %s' % X.show(pos)); return NotImplemented
        if end is None: self.bad(st, loc, 'the decoder is not told where the text ends')
        self.found.add((p.x['c'][1], cur, end))
        used = X.Atom('used', 64, Dom([1], [6])).node
        new = X.add(pos, used)
        for st, t in e.split(st, X.icmp('ule', new, self.n)):
            if t: break
        else: raise X.Undecided('nothing left to decode')
        self.g.put(st, 'pos', new)
        e.rawstore(st, it.o, X.add(it.off, C(cur, 64)), 8, P(self.text, e.subst_singles(st, X.scale(new, w))))
        s2 = st.copy()
        for x in (st, s2): x.forks += 1; x.unb += 1
        v = X.Atom('decoded', 32, FULL32).node
        s2.x['val'] = v
        o, = self.e2.call(F.fn_of(self.p, 'probe_none'), [], self.e2.newstate())
        o2, = self.e2.call(F.fn_of(self.p, 'probe_some'), [v], self.e2.newstate())
        return [(st, o.ret), (s2, o2.ret)]

    def encode(self, e, st, fr, p, a):
        loc = G.loc_of(fr.f, p.ins)
        if coding(e, p) != UN[self.b]: self.bad(st, loc, 'the encoder of another encoding is used')
        v = e.subst_singles(st, e.asint(a[1], 32))
        if st.x.get('val') is None or e.subst_singles(st, st.x['val']) is not v: self.bad(st, loc, 'the encoder is given %s, which was not just decoded' % X.show(v))
        st.x['val'] = None
        self.s.append(e, st, self.s.key(e, st, a[2]), (('enc', v),))
        st.x['due'] = (('enc', v),)
        return a[2]

    def bulk(self, e, st, fr, p, a):
        """the vectorised conversion: writes up to as many units as there are bytes"""
        loc = G.loc_of(fr.f, p.ins)
        q, n, out = a
        if not (isinstance(q, P) and q.o == self.text and same(e, st, q.off, Z64) and same(e, st, e.asint(n), self.n)): self.bad(st, loc, 'the conversion is not given the whole text')
        k = out.o[1] if isinstance(out, P) and isinstance(out.o, tuple) and out.o[0] == 'strbuf' else None
        if k is None or not same(e, st, out.off, Z64): self.bad(st, loc, 'the conversion is not given the beginning of the output'); return Z64
        if not e.prove_le(st, self.n, self.s.size(e, st, k)): self.bad(st, loc, 'the output has %s units for %s bytes' % (X.show(self.s.size(e, st, k)), X.show(self.n)))
        if not re.search('utf%s' % self.b, e.p.dem(p.x['c'][1])): self.bad(st, loc, 'another conversion is used')
        w = X.Atom('written', 64, Dom([0], [1 << 30])).node
        for st, t in e.split(st, X.icmp('ule', w, self.n)):
            if t: break
        self.s.put(st, k, (('conv',),))
        st.x['written'] = w
        return [(st, w)]

    def resize(self, e, st, key, n, w, c):
        s = self.s
        cur = s.get(st, key)
        if cur == (('conv',),):
            if same(e, st, n, st.x['written']): s.assign(e, st, key, (('conv', 'cut'),), n)
            else: self.bad(st, c10.loc_of(st), 'the output is cut to %s units, %s were written' % (X.show(n), X.show(st.x['written'])))
        elif not cur: s.assign(e, st, key, (('blank',),), n)
        else: raise G.Unsupported('string resized')
        return None

    def hook(self, st, fr, f, src, h):
        loc = G.loc_of(f, f.bp[h][1][0].ins)
        if st.x.get('val') is not None: self.bad(st, loc, 'a decoded character is not encoded'); st.x['val'] = None
        self.settle(st, loc)

    def run(self):
        ctx, p = self.ctx, self.p
        a, b = self.a, self.b
        rule = 'generic conversion' if self.kind == 'copy' or (a, b) not in (('8', '16'), ('8', '32')) else 'bulk conversion into a string'
        self.direct = False
        self.found = set()
        self.marker = ('units so far',)
        s = self.s = S.Strings()
        s.resize = self.resize
        rx = re.compile
        e = self.e = ctx.engine(p, [(rx(r'.*unicode::decoder<\w+>::operator\(\)<|_ZN7unicode7decoderI\w+?EclI'), self.decode), (rx(r'.*unicode::encoder<\w+>::operator\(\)<'), self.encode),
                                    (rx(r'unicode::detail::convert_utf8_to_utf'), self.bulk)] + s.models())
        s.setup(e)
        self.e2 = ctx.engine(p)
        e.merge = True
        e.order = True
        e.hdrhook = self.hook
        st = e.newstate()
        self.n = X.Atom('n', 64, Dom([0], [1 << 30])).node
        w = UW[a]
        self.text = e.new_obj(st, 'array', X.scale(self.n, w), 'input', w, 'text')
        self.g = c10.Ghost(e, st, [('pos', 64, Z64)])
        f = F.fn_of(p, 'probe_%s_%s_%s' % (self.kind, a, b))
        wh = 'src/libunicode/convert.h (%s to %s)' % (UN[a], UN[b])
        args = [self.n, P(self.text, Z64)]
        res = e.new_obj(st, 'fixed', C(32, 64), 'undef', name='result')
        if self.kind == 'conv': args = [P(res, Z64)] + args
        else:
            s.construct(e, st, (res, 0), UW[b], (self.marker,))
            args = args + [P(res, Z64)]
        ends = 0
        for o in e.call(f, args, st):
            st = o.st
            got = st.x.get('str', {}).get((res, 0)) if o.kind == 'ret' else None
            if o.kind == 'ret' and got != (('conv', 'cut'),):
                if st.x.get('val') is not None: self.bad(st, None, 'the last decoded character is not encoded')
                if got != (): self.settle(st, None)
            bad = [ev for ev in st.eventlist() if ev[0] == 'mismatch']
            for ev in bad[:1]: ctx.bad(rule, ctx.where(ev[2]) if ev[2] else wh, '%s to %s: %s' % (UN[a], UN[b], ev[1]))
            if bad: ends += 1; continue
            if o.kind == 'backedge': ctx.ok(1, 'iterations'); continue
            if o.kind != 'ret': ctx.bad(rule, ctx.where(G.loc_of(*o.loc)), 'does not return'); continue
            if st.opaque: raise X.Undecided('undetermined branch')
            ends += 1
            if got is None: ctx.bad(rule, wh, '%s to %s: gives no string' % (UN[a], UN[b])); continue
            if got == (('conv', 'cut'),): ctx.ok(1, 'results'); continue
            pos = self.g.get(st, 'pos')
            ctx.check(same(e, st, pos, self.n) and got != (('blank',),) and got != (('conv',),), rule, wh, '%s to %s: ends after %s of %s units' % (UN[a], UN[b], X.show(pos), X.show(self.n)), 'results')
        if not ends: raise F.Broken(rule + ' was not followed to its end')
        ctx.access_findings(e)
        ctx.absorb(e)


def char(ctx, p, a, b):
    """the conversion of one character is the conversion of the text of that character"""
    s = S.Strings()
    rx = re.compile

    def conv(e, st, fr, p, args):
        if e.subst_singles(st, e.asint(args[0])) is not C(1, 64): s.append(e, st, s.key(e, st, args[2]), (('?',),)); return args[2]
        s.append(e, st, s.key(e, st, args[2]), (('conv', e.p.dem(p.x['c'][1]).split('convert_to<')[1].split(',')[0], s.content(e, st, args[1], args[0], UW[a], fr.f, p.ins)),))
        return args[2]
    e = ctx.engine(p, [(rx(r'.*unicode::convert_to<\w+, std::back_insert_iterator<'), conv)] + s.models())
    s.setup(e)
    st = e.newstate()
    res = e.new_obj(st, 'fixed', C(32, 64), 'undef', name='result')
    c = X.Atom('c', 8 * UW[a]).node
    rule = 'conversion of one character'
    for o in e.call(F.fn_of(p, 'probe_char_%s_%s' % (a, b)), [P(res, Z64), c], st):
        got = o.st.x.get('str', {}).get((res, 0)) if o.kind == 'ret' else None
        want = (('conv', UN[b], (('e', c),)),)
        ctx.check(got == want, rule, 'src/libunicode/convert.h', '%s to %s gives %s' % (UN[a], UN[b], c08.showterm(got) if got is not None else 'nothing'), 'results')
    ctx.access_findings(e)
    ctx.absorb(e)


def bounded(ctx, p, a, name, cur, end):
    """a decoder at the last units of a text"""
    e = ctx.engine(p)
    f = next(m.funcs[name] for m in p.mods if name in m.funcs and m.funcs[name].defined)
    w8 = UW[a]
    w = site(ctx, e, f)
    rule = 'decoding at the end of the text'

    def outs(units, arr=None):
        st = e.newstate()
        n = len(units)
        text = e.new_obj(st, 'fixed', C(w8 * n, 64), 'undef', name='text')
        for i, u in enumerate(units): st.mem[text].cells[i * w8] = (w8, u.node)
        it = e.new_obj(st, 'fixed', C(16, 64), 'undef', name='position')
        d = e.new_obj(st, 'fixed', C(16, 64), 'zero', name='decoder')
        v = e.new_obj(st, 'fixed', C(4, 64), 'undef', name='value')
        e.rawstore(st, it, C(cur, 64), 8, P(text, Z64))
        e.rawstore(st, it, C(end, 64), 8, P(text, C(w8 * n, 64)))
        for o in e.call(f, [P(d, Z64), P(it, Z64)], st):
            if o.kind == 'backedge': continue
            if o.kind != 'ret' or o.st.opaque: raise X.Undecided('decoder')
            q = e.rawload(o.st, o.st.mem[it], C(cur, 64), 8)
            off = e.subst_singles(o.st, q.off)
            ctx.check(q.o == text and off.op == 'c' and w8 <= off.a[0] <= w8 * n, rule, w, 'the position moves to byte %s of %d' % (X.show(off), w8 * n), 'cut off sequences')
            for o2 in e.call(F.fn_of(p, 'probe_has'), [o.ret, P(v, Z64)], o.st):
                s = o2.st
                r = e.subst_singles(s, e.asint(o2.ret)).a[0]
                yield s, r, e.rawload(s, s.mem[v], Z64, 4) if r else None, off.a[0] // w8 if off.op == 'c' else None
    B = lambda i, d=None: X.Atom('u%d' % i, 8 * w8, d)
    if a == '8':
        for k in (1, 2, 3, 4):
            us = [B(0, c11.LEAD[k])] + [B(i, c11.CONT) for i in range(1, k)]
            for s, r, v, used in outs(us): ctx.check(r == 1 and used == k and c11.formeq(s, v, us), rule, w, 'the last bytes %s: %s' % (c11.show(s, us), 'no value' if not r else 'wrong value or number of bytes'), 'decoded sequences')
            for j in range(1, k):
                us = [B(0, c11.ANYLEAD[k])] + [B(i) for i in range(1, j)]
                for s, r, v, used in outs(us): ctx.check(r == 0, rule, w, 'the cut off bytes %s give a value' % c11.show(s, us), 'cut off sequences')
        for k in (5, 6):
            for n in range(1, k):
                for s, r, v, used in outs([B(0, Dom([0x80], [0xFF]))] + [B(i) for i in range(1, n)]): pass
    elif a == '16':
        us = [B(0, c12.BMP)]
        for s, r, v, used in outs(us): ctx.check(r == 1 and used == 1 and e.subst_singles(s, v) is e.subst_singles(s, X.zext(us[0].node, 32)), rule, w, 'the last unit %s: wrong value' % c11.show(s, us), 'decoded sequences')
        us = [B(0, Dom([0xD800], [0xDFFF]))]
        for s, r, v, used in outs(us): ctx.check(r == 0, rule, w, 'the cut off unit %s gives a value' % c11.show(s, us), 'cut off sequences')
        us = [B(0, c12.HI), B(1, c12.LO)]
        for s, r, v, used in outs(us): ctx.check(r == 1 and used == 2, rule, w, 'the last units %s: no value' % c11.show(s, us), 'decoded sequences')
    else:
        us = [B(0)]
        for s, r, v, used in outs(us): ctx.check(r == 1 and used == 1 and e.subst_singles(s, v) is us[0].node, rule, w, 'the last unit: wrong value', 'decoded sequences')
    ctx.access_findings(e)
    ctx.absorb(e)
