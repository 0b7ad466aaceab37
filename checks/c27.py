"""C27: grapheme clusters of UTF-8 text"""
import re
import framework as F
import engine as G
import expr as X
import strings as S
import canon as K
import c10
from dom import Dom
from engine import C, P, Z64

REPL = C(0xFFFD, 32)
MORE = {10: 'operator++ does not return the iterator', 11: 'advancing at the end leaves it', 12: 'advancing at the end gives another cluster', 13: 'operator== and operator!= disagree', 14: 'value and operator* disagree'}
SLOTS = 4
CYCLE = 5


class Utf8:
    def __init__(self, ctx, p): self.ctx, self.p = ctx, p

    def run(self):
        self.where = self.place()
        for probe in ('probe_walk_u8', 'probe_walk_u8p', 'probe_walk_u8c'): self.walk(probe)

    def place(self):
        """where clusters are put together"""
        for m in self.p.mods:
            for f in m.funcs.values():
                if not f.defined: continue
                for b, i in f.allinsts():
                    if i.op in ('call', 'invoke') and i.x['callee'][0] == 'glb' and self.p.dem(i.x['callee'][1]).startswith('unicode::from_utf8(unicode::utf8_decoder_state&') and 'utf8_grapheme_segmenter.h' in str(G.loc_of(f, i)): return G.loc_of(f, i)
        raise F.Broken('nothing decodes')

    def walk(self, probe):
        ctx, p = self.ctx, self.p
        rx = re.compile
        models = [(rx(r'unicode::from_utf8\(unicode::utf8_decoder_state&, unsigned char\)$'), self.decode), (rx(r'unicode::grapheme_process_init\('), self.init), (rx(r'unicode::grapheme_process_breakable\('), self.step),
                  (rx(r'sink_value'), self.handed), (rx(r'sink_end'), self.end), (rx(r'sink_more'), self.more), (rx(r'.*std::(__cxx11::)?basic_string<'), self.string), (rx(r'std::__throw_bad_variant_access'), self.thrown)]
        e = self.e = ctx.engine(p, models)
        e.tuples = True; e.tupw = 8; e.order = True; e.merge = True; e.lifetimes = True
        self.e2 = G.Engine(p, [])
        st = e.newstate()
        size = lambda f: int(e.call(F.fn_of(p, f), [], st.copy())[0].ret.a[0])
        self.usize, self.gsize = size('probe_u8_state_size'), size('probe_g_size')
        b = X.Atom('first', 64, Dom([0], [1 << 39])).node; n = X.Atom('n', 64, Dom([0], [1 << 39])).node
        self.b, self.n, self.last = b, n, X.add(b, n)

        def default(st, o, off, k):
            if k != 1: raise X.Undecided('load of %d bytes from the text' % k)
            off = e.subst_singles(st, off)
            a = o.reads.get((off, k))
            if a is None:
                a = X.Atom('text[%s]' % X.show(off), 8, Dom([0], [255]), 'elem', (o.id, off)).node
                st.wobj(o.id).reads[(off, k)] = a
            return a
        self.text = e.new_obj(st, 'array', self.last, default, 1, 'text')
        self.pos = ['fed', 'res', 'cs'] + ['w%d' % i for i in range(SLOTS)]
        g = self.g = c10.Ghost(e, st, [(x, 64, b) for x in self.pos] + [(x, 8, C(v, 8)) for x, v in (('inc', 0), ('some', 0), ('calls', 0), ('bytes', 0), ('reset', 1))])
        st.x['win'] = (); st.x['due'] = (); st.x['old'] = None
        self.bads = []
        # a cluster that is not handed out yet; the states as the last call left them
        self.T = [X.Atom('cluster%d' % i, 64, Dom([1], [1 << 40])).node for i in range(SLOTS)]
        self.old = X.Atom('cluster handed out', 64, Dom([1], [1 << 40])).node
        self.U = {x: X.Atom(x, 8, Dom([1], [255])).node for x in ('calls', 'bytes')}
        self.C = [X.Atom('character%d' % i, 32, F.ALLCP).node for i in range(SLOTS)]
        cn = self.cn = K.Canon(e, [b, n, self.last], [(x, lambda st, x=x: g.get(st, x)) for x in self.pos], [self.text], [g.id], gap=1, lim=0, symbols=self.symbols, extra=self.extra, ordered=[self.last])
        cnt = 0
        for o in cn.walk(self.bads, F.fn_of(p, probe), [P(self.text, b), n], st):
            if o.kind != 'ret': self.bads.append(('does not return', G.loc_of(*o.loc))); continue
            cnt += 1
            if o.st.opaque: raise X.Undecided('undetermined branch')
            if not any(ev[0] == 'end' for ev in o.st.eventlist()): raise F.Broken('the walk was not followed to its end')
            ctx.ok(1, 'walks')
        for t, loc in self.bads[:1]: ctx.bad('clusters', ctx.where(loc), t)
        loc = cn.stuck()
        if loc is not None and not self.bads: ctx.bad('clusters', ctx.where(loc), 'the walk goes round without reading on')
        ctx.ok(len(cn.seen), 'walk states')
        if not cnt and not self.bads: raise F.Broken('no walk reaches its end')
        if not self.bads: ctx.access_findings(e)
        ctx.absorb(e)

    # ------------------------------------------------------------------ what is known
    # the window: decoded characters (character, verdict, state started with it, put into a cluster)
    def symbols(self, st):
        r = {w[0]: self.C[i] for i, w in enumerate(st.x['win']) if w[0].op != 'c'}
        for i, t in enumerate(st.x['due']): r[t] = self.T[i]
        if st.x['old'] is not None: r[st.x['old']] = self.old
        for x, u in self.U.items():
            v = self.g.get(st, x)
            if v.op != 'c': r[v] = u
        return r

    def extra(self, st):
        st.x['win'] = tuple((w[0] if w[0].op == 'c' else self.C[i],) + w[1:] for i, w in enumerate(st.x['win']))
        for i in range(len(st.x['win']), SLOTS): self.g.put(st, 'w%d' % i, self.g.get(st, 'fed'))
        if st.x['old'] is not None: st.x['old'] = self.old
        st.x['due'] = tuple(self.T[:len(st.x['due'])])
        return tuple((w[0].id,) + w[1:] for w in st.x['win']), len(st.x['due']), st.x['old'] is None

    def same(self, st, a, b):
        e = self.e
        a = e.subst_singles(st, a); b = e.subst_singles(st, b)
        return a is b or e.prove_le(st, a, b) and e.prove_le(st, b, a)

    def con(self, st, n):
        v = self.e.subst_singles(st, self.g.get(st, n))
        return v.a[0] if v.op == 'c' else None

    def bad(self, st, fr, p, text):
        loc = G.loc_of(fr.f, p.ins)
        self.bads.append((text, loc if 'src/libunicode/' in str(loc) else self.where))

    def found(self, st, c):
        """another decoded character"""
        win = st.x['win']
        if len(win) >= SLOTS: raise X.Undecided('characters are decoded far ahead')
        first = self.con(st, 'some') == 0
        self.g.put(st, 'some', C(1, 8))
        self.g.put(st, 'w%d' % len(win), self.g.get(st, 'res'))
        self.g.put(st, 'res', self.g.get(st, 'fed'))
        self.g.put(st, 'inc', C(0, 8))
        st.x['win'] = win + ((c, 'brk' if first else None, False, False),)

    def rest(self, st):
        """a sequence the end of the text cuts off is one character"""
        if self.con(st, 'inc') == 1 and self.same(st, self.g.get(st, 'fed'), self.last): self.found(st, REPL)

    def mark(self, st, i, **kw):
        win = list(st.x['win'])
        c, v, s, u = win[i]
        win[i] = (c, kw.get('v', v), kw.get('s', s), kw.get('u', u))
        while win and win[0][3] and (win[0][1] == 'join' or win[0][2]):
            win.pop(0)
            for k in range(len(win)): self.g.put(st, 'w%d' % k, self.g.get(st, 'w%d' % (k + 1)))
        st.x['win'] = tuple(win)

    def pick(self, st, test):
        return next((i for i, w in enumerate(st.x['win']) if test(w)), None)

    def stamp(self, st, sp, name, size):
        """the state now is the one after that many calls"""
        e = self.e
        t = X.Atom(name, 8, Dom([1], [255])).node
        self.g.put(st, name, t)
        e.rawstore(st, sp.o, sp.off, 1, t)
        for b in range(1, size): e.rawstore(st, sp.o, X.add(sp.off, C(b, 64)), 1, X.Atom('state', 8, Dom([0], [255])).node)

    def stamped(self, st, sp, name):
        e = self.e
        t = e.rawload(st, st.mem[sp.o], sp.off, 1)
        if t is G.UNDEF: return False
        return e.subst_singles(st, e.asint(t)) is self.g.get(st, name)

    def zero(self, st, sp, size):
        e = self.e
        for b in range(size):
            t = e.rawload(st, st.mem[sp.o], X.add(sp.off, C(b, 64)), 1)
            if t is G.UNDEF: return False
            t = e.subst_singles(st, e.asint(t))
            if t.op != 'c' or t.a[0]: return False
        return True

    # ------------------------------------------------------------------ models
    def decode(self, e, st, fr, p, a):
        g = self.g
        if self.bads: return []
        w = g.get(st, 'fed')
        v = e.subst_singles(st, e.asint(a[1], 8))
        o = st.mem[self.text]
        want = next((x for (k, n), x in o.reads.items() if n == 1 and self.same(st, k, w)), None)
        if want is None or e.subst_singles(st, want) is not v: self.bad(st, fr, p, 'the decoder is not given the bytes of the text one after the other (byte %s is next)' % X.show(X.sub(w, self.b))); return []
        # between two sequences a fresh state is as good as the old one
        if not (self.con(st, 'bytes') != 0 and self.stamped(st, a[0], 'bytes')) and not (self.con(st, 'reset') == 1 and self.zero(st, a[0], self.usize)):
            self.bad(st, fr, p, 'the decoder does not go on with the state the last byte left'); return []
        st.x['progress'] = True
        r = []
        c = X.Atom('decoded', 32, F.ALLCP).node
        for probe, args, ch in (('probe_r_success', [c], c), ('probe_r_incomplete', [], None), ('probe_r_invalid', [], REPL)):
            s2 = st.copy()
            s2.forks += 1
            g.put(s2, 'fed', X.add(w, C(1, 64)))
            if ch is None: g.put(s2, 'inc', C(1, 8))
            else: self.found(s2, ch)
            g.put(s2, 'reset', C(int(probe == 'probe_r_success'), 8))
            self.stamp(s2, a[0], 'bytes', self.usize)
            r.append((s2, self.e2.call(F.fn_of(self.p, probe), args, self.e2.newstate())[0].ret))
        self.ctx.ok(1, 'bytes decoded')
        return r

    def init(self, e, st, fr, p, a):
        if self.bads: return []
        self.rest(st)
        c = e.subst_singles(st, e.asint(a[0]))
        i = self.pick(st, lambda w: w[1] != 'join' and not w[2])
        win = st.x['win']
        if i is None or win[i][1] != 'brk': self.bad(st, fr, p, 'the rules are started afresh where no boundary was found'); return []
        if win[i][0] is not c: self.bad(st, fr, p, 'the rules are not started with the first character of the cluster'); return []
        self.mark(st, i, s=True)
        self.stamp(st, a[1], 'calls', self.gsize)
        self.ctx.ok(1, 'clusters begun')
        return None

    def step(self, e, st, fr, p, a):
        if self.bads: return []
        self.rest(st)
        c = e.subst_singles(st, e.asint(a[0]))
        i = self.pick(st, lambda w: w[1] != 'join' and not w[2])
        win = st.x['win']
        if i is None: self.bad(st, fr, p, 'a character is tested although none is decoded that was not'); return []
        if win[i][1] is not None: self.bad(st, fr, p, 'the rules are not started at the first character of a cluster'); return []
        if win[i][0] is not c: self.bad(st, fr, p, 'another character is tested than the next one'); return []
        if self.con(st, 'calls') == 0 or not self.stamped(st, a[1], 'calls'): self.bad(st, fr, p, 'a character is not tested with the state the one before it left'); return []
        self.stamp(st, a[1], 'calls', self.gsize)
        s2 = st.copy()
        st.forks += 1; s2.forks += 1
        self.mark(st, i, v='brk'); self.mark(s2, i, v='join')
        self.ctx.ok(2, 'characters tested')
        return [(st, C(1, 1)), (s2, C(0, 1))]

    def content(self, st, q):
        """the cluster a string holds, or None"""
        e = self.e
        t = e.rawload(st, st.mem[q.o], q.off, 8)
        return None if t is G.UNDEF else e.subst_singles(st, e.asint(t))

    def empty(self, st, q):
        t = self.content(st, q)
        if t is Z64: return True
        if t is None or t not in st.x['due'] and t is not st.x['old']: raise X.Undecided('content of a string')
        return False

    def fill(self, st, q, k, c=None):
        e = self.e
        e.rawstore(st, q.o, q.off, 8, k)
        e.rawstore(st, q.o, X.add(q.off, C(8, 64)), 4, C(0, 32) if c is None else c)

    def push(self, e, st, fr, p, q, c):
        if self.bads: return []
        self.rest(st)
        c = e.subst_singles(st, c)
        i = self.pick(st, lambda w: not w[3])
        if i is None or st.x['win'][i][0] is not c: self.bad(st, fr, p, 'another character is added to the cluster than the next one'); return []
        v = st.x['win'][i][1]
        k = self.content(st, q)
        if self.empty(st, q):
            if v != 'brk': self.bad(st, fr, p, 'a cluster is begun where no boundary was found'); return []
            k = X.Atom('cluster', 64, Dom([1], [1 << 40])).node
            if len(st.x['due']) >= SLOTS - 1: self.bad(st, fr, p, 'clusters are built but not handed out'); return []
            st.x['due'] += (k,)
            self.g.put(st, 'cs', self.g.get(st, 'w%d' % i))
        elif not st.x['due'] or k is not st.x['due'][-1] or v != 'join': self.bad(st, fr, p, 'a character is added to a cluster it does not belong to'); return []
        self.mark(st, i, u=True)
        self.fill(st, q, k, c)
        self.ctx.ok(1, 'characters kept')
        return [(st, None)]

    def string(self, e, st, fr, p, a):
        d = self.p.dem(p.x['callee'][1]) if p.x['callee'][0] == 'glb' else ''
        m = S.METH.match(S.operfix(d))
        if not m: raise X.Undecided('string operation ' + d[:80])
        op, args = m.group(1), S.splitargs(m.group(2))
        if not isinstance(a[0], P) or a[0].o not in st.mem: raise X.Undecided('string at an unknown place')
        q = a[0]
        if op in ('~basic_string', 'reserve', 'shrink_to_fit'): return [(st, None)]
        if op == 'basic_string' and len(args) <= 1 and not ('basic_string' in ''.join(args)):
            self.fill(st, q, Z64); return [(st, None)]
        if op in ('basic_string', 'operator=', 'assign') and len(args) == 1 and 'basic_string' in args[0] and 'view' not in args[0]:
            o = a[1]
            k = e.rawload(st, st.mem[o.o], o.off, 8); c = e.rawload(st, st.mem[o.o], X.add(o.off, C(8, 64)), 4)
            e.rawstore(st, q.o, q.off, 8, k); e.rawstore(st, q.o, X.add(q.off, C(8, 64)), 4, c)
            if '&&' in args[0] and not (o.o == q.o and self.same(st, o.off, q.off)): self.fill(st, o, Z64)
            return [(st, q)]
        if op == 'clear' or op == 'erase' and not args:
            self.fill(st, q, Z64); return [(st, None if op == 'clear' else q)]
        if op == 'push_back' or op == 'operator+=' and args == ['char32_t']:
            r = self.push(e, st, fr, p, q, e.asint(a[1]))
            return [(s, q if op != 'push_back' else None) for s, v in r]
        if op == 'append' and args and args[-1] == 'char32_t' and e.asint(a[1]).op == 'c' and e.asint(a[1]).a[0] == 1:
            return [(s, q) for s, v in self.push(e, st, fr, p, q, e.asint(a[2]))]
        if op in ('empty', 'size', 'length'):
            z = self.empty(st, q)
            if op == 'empty': return [(st, C(int(z), 1))]
            return [(st, Z64 if z else X.Atom('size', 64, Dom([1], [1 << 40])).node)]
        if op == 'back':
            if self.content(st, q) is Z64: self.bad(st, fr, p, 'the last character of an empty cluster is used'); return []
            return [(st, P(q.o, X.add(q.off, C(8, 64))))]
        raise X.Undecided('string operation ' + d[:80])

    def handed(self, e, st, fr, p, a):
        if self.bads: return []
        self.rest(st)
        k = self.content(st, a[0])
        i = self.pick(st, lambda w: not w[3])
        if k is Z64: self.bad(st, fr, p, 'an empty cluster is handed out'); return []
        if not st.x['due'] or k is not st.x['due'][0]: self.bad(st, fr, p, 'a cluster is left out or handed out twice'); return []
        if k is st.x['due'][-1]:
            if i is None and not self.same(st, self.g.get(st, 'fed'), self.last) or i is not None and st.x['win'][i][1] != 'brk':
                self.bad(st, fr, p, 'a cluster is handed out although neither a boundary nor the end of the text was reached'); return []
        st.x['old'] = k; st.x['due'] = st.x['due'][1:]
        st.x['progress'] = True
        self.ctx.ok(1, 'clusters')
        return None

    def thrown(self, e, st, fr, p, a):
        self.bad(st, st.frames[-1], p, 'the result of the decoder is taken for a character although it is none')
        return []

    def end(self, e, st, fr, p, a):
        st.event('end')
        if self.bads: return []
        self.rest(st)
        if not self.same(st, self.g.get(st, 'fed'), self.last) or self.pick(st, lambda w: not w[3]) is not None or st.x['due']:
            self.bad(st, fr, p, 'the walk ends although text is left'); return []
        return None

    def more(self, e, st, fr, p, a):
        self.bad(st, fr, p, MORE[e.subst_singles(st, e.asint(a[0])).a[0]])
        return []


def run(ctx):
    ctx.rule('The iterators are walked over a byte text of unknown length with the decoder and the cluster rules replaced by recorders of any result: the decoder must be given every byte once and in order, every character it gives (U+FFFD for a rejected sequence) must be offered to the rules '
             'and put into a cluster once and in order, and each cluster handed out must end exactly where a boundary was found or the text ends.')
    p = ctx.program(['codepoint_properties.cpp', 'codepoint_properties_data.cpp', 'codepoint_properties_names.cpp'], ['seg.cpp'])
    Utf8(ctx, p).run()
