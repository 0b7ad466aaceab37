"""C10: normalization of whole texts"""
import re
import numpy as np
import ucd
import framework as F
import engine as G
import expr as X
import strings as S
import transduce as T
import c08
import c09
import c13
import norm as N
from c08 import U32V, U8V, empties, showterm, texts
from dom import Dom
from percp import site
from engine import C, P, Z64

ONE = C(1, 64)


def run(ctx):
    ctx.rule('normalize is shown to be canonical ordering (and composition) of the concatenated full decompositions of its characters: the helpers it calls are found by their signature and each is proven to do its part for every input: '
             'decomposition per code point against UnicodeData.txt; ordering by legal exchanges of adjacent non-starters only, ending with none left; composition in step with the algorithm of the standard (last starter, blocking, primary composites).')
    p = ctx.program(N.UNITS, ['casenorm.cpp', 'norm.cpp'])
    nm = N.Norm(p)
    w = Work(ctx, p, nm)
    for form in N.FORMS: w.normalize(form)
    w.utf8()
    for k in (4, 1):
        for form in N.FORMS: c13.normwrap(ctx, p, nm, k, form, 'probe_to%s%d' % (form.lower(), 32 if k == 4 else 8))
    c09.run(ctx)


STR32 = r'std::__cxx11::basic_string<char32_t, std::char_traits<char32_t>, std::allocator<char32_t> >'


def split(a):
    """parameter types of a demangled list"""
    out = ['']
    k = 0
    for c in a:
        if c in '<([': k += 1
        if c in '>)]': k -= 1
        if c == ',' and not k: out.append('')
        else: out[-1] += c
    return [x.strip() for x in out if x.strip()]


class Work:
    def __init__(self, ctx, p, nm):
        self.ctx = ctx; self.p = p; self.nm = nm
        self.dec = {}
        self.done = {}

    # ---- normalize: decomposition of every character, then ordering, then composition
    def callee(self, e, fr, p):
        f = e.p.resolve(fr.f.mod, p.x['c'][1]) if p.x['c'] else None
        return f if f is not None and f.defined else None

    def dispatch(self, e, st, fr, p, a):
        """helpers of the unit, told apart by what they take and give"""
        f = self.callee(e, fr, p)
        if f is None: return NotImplemented
        d = e.p.dem(f.name)
        m = re.match(r'^(?:[\w:<>,\* ]+ )?unicode::(?:\(anonymous namespace\)::|detail::)*\w+(?:\[abi:cxx11\])?\((.*)\)$', d)
        if not m: return NotImplemented
        ty = split(m.group(1))
        tys = [t.replace(' const', '') for t in ty]
        isref = lambda t: re.match(STR32 + '&?$', t)
        strs = [i for i, t in enumerate(tys) if isref(t) or 'basic_string_view<char32_t' in t]
        if tys.count('char32_t') == 1 and len(strs) == 1 and isref(tys[strs[0]]) and f.ret == 'void' and len(f.params) == len(ty) and self.tr is not None:
            return self.decompose(e, st, fr, p, a, f, tys)
        if len(ty) == 1 and isref(tys[0]) and f.ret == 'void' and len(f.params) == 1 and ' const' not in ty[0]:
            self.order(f)
            self.tr.advance(st)
            k = self.S.key(e, st, a[0])
            t = self.S.get(st, k)
            self.S.put(st, k, (('order', t),) if t else ())
            return None
        if len(ty) == 1 and strs and f.ret == 'void' and len(f.params) == (2 if isref(tys[0]) else 3):
            self.compose(f, not isref(tys[0]))
            self.tr.advance(st)
            t = self.S.get(st, self.S.key(e, st, a[1])) if isref(tys[0]) else self.S.content(e, st, a[2], a[1], 4, fr.f, p.ins)
            self.S.construct(e, st, self.S.key(e, st, a[0]), 4, (('compose', t),) if t else (), X.Atom('composed length', 64, Dom.rng(0, 1 << 40), 'len').node)
            return None
        return NotImplemented

    def normalize(self, form):
        ctx, p, nm = self.ctx, self.p, self.nm
        f = N.fn(p, r'unicode::normalize(\[abi:cxx11\])?' + re.escape(U32V))
        e, s = N.engine(ctx, p, nm.models() + [(re.compile('.*unicode::'), self.dispatch)])
        self.S = s
        st = e.newstate()
        n = X.Atom('n', 64, Dom([0], [1 << 32]))
        text = T.cptext(e, st, n.node)
        res = e.new_obj(st, 'fixed', C(32, 64), 'undef', name='result')
        self.compat = form in ('NFKC', 'NFKD')
        full = self.full(self.compat)

        def ref(tr, e, st, node, g):
            node = e.subst_singles(st, node)
            ln = np.unique(full[0][nm.dom(st, node)])
            if len(ln) > 1 or node.op not in ('c', 'v'): return None
            if ln[0] == 1 and (full[1][0][nm.dom(st, node)] == nm.dom(st, node)).all(): return [node], {}
            return [T.tabval(T.table('decomposition%d %s' % (i, self.compat), full[1][i], '<u4'), node, 4) for i in range(int(ln[0]))], {}
        tr = self.tr = Dec(s, e, st, text, n.node, (res, 0), ref)
        rule = 'normalize to %s decomposes every character, orders%s' % (form, ' and composes' if form in ('NFC', 'NFKC') else '')
        w = site(ctx, e, f)
        cnt = 0
        for o in e.call(f, [P(res, Z64), n.node, P(text, Z64), C(nm.form[form], 8)], st):
            s1 = o.st
            ev = [x for x in s1.eventlist() if x[0] == 'mismatch']
            if ev: ctx.bad(rule, ctx.where(ev[0][2]), ev[0][1]); continue
            if o.kind == 'backedge': continue
            if o.kind != 'ret': ctx.bad(rule, ctx.where(G.loc_of(*o.loc)), 'does not return'); continue
            if s1.opaque: raise X.Undecided('undetermined branch')
            cnt += 1
            got = s1.x.get('str', {}).get((res, 0))
            tr.advance(s1)
            nn = e.subst_singles(s1, n.node)
            if got == () and nn.op == 'c' and nn.a[0] == 0: ctx.ok(1, 'returns'); continue
            want = (('order', (tr.marker,)),)
            if form in ('NFC', 'NFKC'): want = (('compose', want),)
            if got != want:
                ctx.bad(rule, w, 'the result is %s instead of %s' % (self.show(got), self.show(want))); continue
            g = tr.pos(s1)
            ctx.check(e.prove_le(s1, n.node, g) and e.prove_le(s1, g, n.node), rule, w, 'only %s of %s characters are decomposed' % (X.show(g), X.show(n.node)), 'returns')
        if cnt < 2: raise F.Broken('normalize: too few paths')
        ctx.access_findings(e)
        ctx.absorb(e)
        self.tr = None

    def show(self, t):
        if t is None: return 'missing'
        if not t: return 'empty'
        out = []
        for x in t:
            if x[0] == 'ref': out.append('the decomposition of the text')
            elif x[0] == 'e': out.append(X.show(x[1]))
            elif x[0] == 'sl': out.append('the text as it is')
            else: out.append('%s(%s)' % (x[0], self.show(x[1])))
        return ' then '.join(out)

    _full = {}

    def full(self, compat):
        if compat not in self._full:
            ln = np.ones(ucd.N, np.uint8)
            out = np.zeros((18, ucd.N), np.uint32)
            out[0] = np.arange(ucd.N)
            for c in list(ucd.decomp()) + list(range(ucd.SB, ucd.SB + 11172)):
                l = ucd.fulldecomp(c, compat)
                ln[c] = len(l)
                for i, x in enumerate(l): out[i, c] = x
            self._full[compat] = (ln, out)
        return self._full[compat]

    def decompose(self, e, st, fr, p, a, f, tys):
        """the full decomposition of one code point is appended: proven once per function and flags, then used"""
        i = tys.index('char32_t')
        j = next(k for k, t in enumerate(tys) if re.match(STR32, t))
        rest = tuple((k, e.subst_singles(st, e.asint(a[k]))) for k in range(len(a)) if k not in (i, j))
        if any(x.op != 'c' for _, x in rest): return NotImplemented
        key = (f.name, self.compat, tuple((k, x.a[0]) for k, x in rest))
        if key not in self.dec: self.dec[key] = self.decok(f, i, j, dict(rest), len(a))
        if self.dec[key] is None: return NotImplemented
        x = e.subst_singles(st, e.asint(a[i]))
        wrong = self.dec[key]
        if wrong and (x.op not in ('c', 'v') or any(c in wrong for c in self.nm.dom(st, x).tolist())):
            c = min(wrong)
            self.ctx.bad('every code point is replaced by its full decomposition', site(self.ctx, e, f), 'U+%04X becomes %s, its full %sdecomposition is %s (%d code points differ)' % (
                c, wrong[c], 'compatibility ' if self.compat else '', ' '.join('%04X' % y for y in ucd.fulldecomp(c, self.compat)), len(wrong)))
        ln, out = self.full(self.compat)
        k = self.S.key(e, st, a[j])
        r = []
        for s2, m in T.fork(e, st, a[i], ln + 100 * (out[0] != np.arange(ucd.N))):
            x = e.subst_singles(s2, e.asint(a[i]))
            m = m % 100
            same = m == 1 and (x.op == 'c' and out[0][x.a[0]] == x.a[0] or x.op == 'v' and (out[0][self.nm.dom(s2, x)] == self.nm.dom(s2, x)).all())
            segs = [('e', x)] if same else [('e', T.tabval(T.table('decomposition%d %s' % (q, self.compat), out[q], '<u4'), x, 4)) for q in range(m)]
            self.S.append(e, s2, k, segs)
            r.append((s2, None))
        return r

    def decok(self, f, i, j, rest, n):
        ctx, nm = self.ctx, self.nm
        s = S.Strings()
        e = ctx.engine(self.p, s.models())
        s.setup(e)
        st = e.newstate()
        a = X.Atom('cp', 32, F.ALLCP)
        o_ = e.new_obj(st, 'fixed', C(32, 64), 'undef', name='output')
        s.construct(e, st, (o_, 0), 4, (('earlier',),))
        args = [a.node if k == i else P(o_, Z64) if k == j else rest[k] for k in range(n)]
        ln, out = self.full(self.compat)
        bad = {}
        cnt = 0
        good = 0
        for o in e.call(f, args, st):
            if o.kind == 'backedge' or o.st.opaque: raise X.Undecided('decomposition of a code point')
            pts = o.st.dom(a).points()
            pi = pts.astype(np.int64)
            if o.kind != 'ret': bad.update((int(x), 'nothing: it does not return') for x in pts); continue
            segs = s.get(o.st, (o_, 0))
            if segs[:1] != (('earlier',),) or any(x[0] != 'e' for x in segs[1:]): bad.update((int(x), 'something else: earlier output is changed') for x in pts); continue
            cnt += len(pts)
            vals = [(X.values(x, a, pts) if x.atoms else np.full(len(pts), x.a[0], np.uint64)) if x is not G.UNDEF else np.full(len(pts), 1 << 40, np.uint64) for x in (y[1] for y in segs[1:])]
            wr = ln[pi] != len(vals)
            for q, v in enumerate(vals):
                if q < 18: wr = wr | (out[q][pi] != v)
            good += int((~wr & (out[0][pi] != pi)).sum())
            for q in np.flatnonzero(wr):
                bad[int(pts[q])] = ' '.join('%04X' % int(v[q]) for v in vals) or '(nothing)'
        ctx.access_findings(e)
        ctx.absorb(e)
        if not good or len(bad) > F.MAXCP // 10: return None        # some other function
        ctx.ok(cnt - len(bad), 'code points decomposed')
        return bad

    # ---- canonical ordering
    def order(self, f):
        if f.name in self.done: return
        self.done[f.name] = True
        Order(self.ctx, self.p, self.nm).run(f)

    def compose(self, f, view):
        if f.name in self.done: return
        self.done[f.name] = True
        Compose(self.ctx, self.p, self.nm).run(f, view)

    def utf8(self):
        ctx, p, nm = self.ctx, self.p, self.nm
        f = N.fn(p, r'unicode::normalize(\[abi:cxx11\])?' + re.escape(U8V))
        for form in N.FORMS:
            s, e, st = c13.start(ctx, p, nm, skip=(('norm', 1),))
            (o_, n_, c_), = texts(e, st, 1, 'text')
            res = e.new_obj(st, 'fixed', C(32, 64), 'undef', name='result')
            rule = 'the UTF-8 normalize decodes, normalizes and encodes the whole text'
            wh = site(ctx, e, f)
            want = (('enc', ((form, (('dec', c_),)),)),)
            for o in c13.outcomes(e, f, [P(res, Z64), n_, P(o_, Z64), C(nm.form[form], 8)], st, 'normalize'):
                got = o.st.x.get('str', {}).get((res, 0)) if o.kind == 'ret' else None
                ctx.check(got == want or got == () and not empties(e, o.st, c_), rule, wh, 'the result is %s instead of %s' % (showterm(got) if got is not None else 'missing', showterm(want)), 'text pipelines')
            ctx.access_findings(e)
            ctx.absorb(e)


class Dec(T.Transducer):
    """the string being decomposed into may be wrapped by the later steps"""

    def out(self, st):
        m = st.x.get('str', {})
        ks = [k for k, v in m.items() if v and v[0] == self.marker]
        if ks: return ks[0] if len(ks) == 1 else None
        if any(v and v[0][0] in ('order', 'compose') for v in m.values()): return None
        ks = [k for k in m if k not in self.inputs]
        return ks[0] if len(ks) == 1 else None


class Ghost:
    """named cells the reference keeps in the analysed memory, so that loops generalise them with the code's own variables"""

    def __init__(self, e, st, cells):
        self.e = e
        self.w = {}
        o = 0
        for n, w, v in cells:
            self.w[n] = (o, w // 8); o += 8
        self.id = e.new_obj(st, 'fixed', C(o, 64), 'zero', name='reference')
        for n, w, v in cells: self.put(st, n, v)

    def get(self, st, n):
        o, w = self.w[n]
        return self.e.subst_singles(st, self.e.asint(self.e.rawload(st, st.mem[self.id], C(o, 64), w)))

    def put(self, st, n, v):
        o, w = self.w[n]
        self.e.rawstore(st, self.id, C(o, 64), w, v)


def loc_of(st):
    fr = st.frames[-1]
    return G.loc_of(fr.f, fr.blk[1][min(fr.i, len(fr.blk[1]) - 1)].ins)


class Order:
    """Sorting by adjacent exchanges.  Reference state: the first g characters are in canonical order; possibly character M of
    position g has been moved down to position j, past characters with greater class only."""

    def __init__(self, ctx, p, nm):
        self.ctx = ctx; self.p = p; self.nm = nm

    def same(self, st, a, b):
        e = self.e
        a = e.subst_singles(st, a); b = e.subst_singles(st, b)
        return a is b or e.prove_le(st, a, b) and e.prove_le(st, b, a)

    def ccc(self, st, x): return self.nm.cccof(self.e, st, x)

    def zero(self, st, x): return self.e.decide(st, X.icmp('eq', self.ccc(st, x), C(0, 8)))

    def lt(self, st, x, y): return self.e.decide(st, X.icmp('ult', self.ccc(st, x), self.ccc(st, y)))

    def memo(self, st): return st.x.get('rd', {})

    def known(self, st, k):
        """character at position k if the path has seen it"""
        e = self.e
        k = e.subst_singles(st, k)
        m = self.memo(st)
        if k in m: return m[k]
        for q, v in m.items():
            d = e.subst_singles(st, X.sub(q, k))
            if d.op == 'c' and d.a[0] == 0 or self.same(st, q, k): return v
        return None

    def note(self, st, k, v, write=False):
        e = self.e
        k = e.subst_singles(st, k)
        m = dict(self.memo(st))
        if write:
            for q in list(m):
                d = e.subst_singles(st, X.sub(q, k))
                if not (d.op == 'c' and d.a[0] != 0): del m[q]
        m[k] = v
        st.x['rd'] = m

    def pos(self, off):
        c, d = X.linparts(off)
        c = X.sgn(c, 64); d = {n: X.sgn(k, 64) for n, k in d.items()}
        if c % 4 or any(k % 4 for k in d.values()): raise G.Unsupported('character at an odd address')
        return X.mklin(64, c // 4, {n: k // 4 for n, k in d.items()})

    def read(self, st, k):
        G_ = self.gh
        if self.mv(st) and not self.hole(st) and self.same(st, k, G_.get(st, 'j')): return G_.get(st, 'M')
        v = self.known(st, k)
        if v is None:
            v = X.Atom('text[%s]' % X.show(k), 32, F.ALLCP, 'elem').node
            self.note(st, k, v)
        return v

    def flag(self, st, n):
        v = self.gh.get(st, n)
        if v.op != 'c': raise G.Unsupported('reference state not known')
        return bool(v.a[0])

    def mv(self, st): return self.flag(st, 'mv')

    def hole(self, st): return self.flag(st, 'hole')

    def load(self, e, st, key, w, off):
        if key != self.key: return None
        return self.read(st, self.pos(e.subst_singles(st, off)))

    def bad(self, st, text, loc):
        st.event('mismatch', text, loc)

    def legal(self, st, prev, m, loc):
        if self.lt(st, m, prev) is True and self.zero(st, m) is False: return True
        if self.zero(st, m) is not False: self.bad(st, 'moves a character that may be a starter', loc)
        elif self.zero(st, prev) is not False and self.lt(st, m, prev) is not True: self.bad(st, 'moves a mark before a character that may be a starter or have a class not greater', loc)
        else: self.bad(st, 'exchanges two marks without the first being known to have the greater class', loc)
        return False

    def open(self, st, m):
        G_ = self.gh
        G_.put(st, 'mv', C(1, 8)); G_.put(st, 'j', G_.get(st, 'g')); G_.put(st, 'M', m)

    def store(self, e, st, key, w, off, v, loc):
        if key != self.key: return False
        G_ = self.gh
        k = self.pos(e.subst_singles(st, off))
        v = e.subst_singles(st, e.asint(v, 32))
        l = loc if isinstance(loc, tuple) and loc and isinstance(loc[0], str) else loc_of(st)
        is_ = lambda x: x is not None and e.subst_singles(st, x) is v
        if not self.mv(st):
            self.settle(st)
            g = G_.get(st, 'g')
            m = self.known(st, g)
            if self.same(st, k, g) and is_(m): return True          # written back unchanged
            if m is None or not (self.same(st, k, g) or self.same(st, k, X.sub(g, ONE))):
                self.bad(st, 'changes character %s when the first %s characters are in order' % (X.show(k), X.show(g)), l); return True
            self.open(st, m)
        j = G_.get(st, 'j'); m = G_.get(st, 'M')
        pre = st.x.get('pre')
        prevk = X.sub(j, ONE)
        if pre is not None:
            if self.same(st, k, j) and is_(pre):
                if self.legal(st, pre, m, l):
                    self.note(st, j, pre, True); self.note(st, prevk, m, True)
                    G_.put(st, 'j', prevk)
                st.x['pre'] = None
                return True
        elif self.same(st, k, j):
            if is_(m):
                G_.put(st, 'hole', C(0, 8)); self.note(st, j, m, True); return True
            prev = self.known(st, prevk)
            if is_(prev):
                if self.legal(st, prev, m, l):
                    self.note(st, j, prev, True)
                    G_.put(st, 'hole', C(1, 8)); G_.put(st, 'j', prevk)
                    self.note(st, prevk, prev)
                return True
        elif not self.hole(st) and self.same(st, k, prevk) and is_(m):
            prev = self.known(st, prevk)
            if prev is not None:
                st.x['pre'] = prev
                return True
        self.bad(st, 'changes character %s to %s, which is no exchange of neighbours' % (X.show(k), X.show(v)), l)
        return True

    def settle(self, st):
        """extend the ordered part as far as the path knows"""
        G_ = self.gh; e = self.e
        if st.x.get('pre') is not None: return
        while True:
            g = G_.get(st, 'g')
            if self.mv(st):
                if self.hole(st): return
                j = G_.get(st, 'j'); m = G_.get(st, 'M')
                prev = self.known(st, X.sub(j, ONE))
                ok = e.prove_le(st, j, Z64)
                if not ok and prev is not None: ok = self.zero(st, prev) is True or self.lt(st, m, prev) is False
                if not ok and self.same(st, j, g) and self.zero(st, m) is True: ok = True
                if not ok: return
                self.note(st, j, m)
                G_.put(st, 'mv', C(0, 8)); G_.put(st, 'j', Z64); G_.put(st, 'M', C(0, 32))
                G_.put(st, 'g', X.add(g, ONE))
                continue
            if e.prove_le(st, g, Z64):
                if not e.prove_le(st, ONE, self.n): return
                G_.put(st, 'g', ONE); continue
            cur = self.known(st, g)
            if cur is None: return
            if self.zero(st, cur) is not True:
                prev = self.known(st, X.sub(g, ONE))
                if prev is None or not (self.zero(st, prev) is True or self.lt(st, cur, prev) is False): return
            G_.put(st, 'g', X.add(g, ONE))

    def hook(self, st, fr, f, src, h):
        if self.key not in st.x.get('str', {}): return
        self.settle(st)
        if (src, h) in f.back: return
        if st.entries and not self.mv(st):
            g = self.gh.get(st, 'g')
            if self.e.prove_le(st, X.add(g, ONE), self.n):
                self.open(st, self.read(st, g))
        st.x['rd'] = {}

    def run(self, f):
        ctx, p = self.ctx, self.p
        e, s = N.engine(ctx, p, self.nm.models())
        e.tuples = True
        self.e = e; self.S = s
        st = e.newstate()
        n = X.Atom('n', 64, Dom([0], [1 << 32]))
        self.n = n.node
        text = T.cptext(e, st, n.node)
        so = e.new_obj(st, 'fixed', C(32, 64), 'undef', name='text object')
        self.key = (so, 0)
        s.construct(e, st, self.key, 4, (('sl', text, Z64, n.node),), n.node)
        s.onload = self.load; s.onstore = self.store
        self.gh = Ghost(e, st, [('g', 64, Z64), ('mv', 8, C(0, 8)), ('hole', 8, C(0, 8)), ('j', 64, Z64), ('M', 32, C(0, 32))])
        e.hdrhook = self.hook
        rule = 'canonical ordering exchanges neighbouring marks only when the first has the greater class, until none is left'
        w = site(ctx, e, f)
        cnt = 0
        for o in e.call(f, [P(so, Z64)], st):
            s1 = o.st
            ev = [x for x in s1.eventlist() if x[0] == 'mismatch']
            if ev: ctx.bad(rule, ctx.where(ev[0][2]), ev[0][1]); continue
            if o.kind == 'backedge': continue
            if o.kind != 'ret': ctx.bad(rule, ctx.where(G.loc_of(*o.loc)), 'does not return'); continue
            if s1.opaque: raise X.Undecided('undetermined branch')
            cnt += 1
            self.settle(s1)
            g = self.gh.get(s1, 'g')
            ctx.check(self.S.get(s1, self.key) == (('sl', text, Z64, n.node),) and self.same(s1, s.size(e, s1, self.key), n.node), rule, w, 'the text is replaced', 'returns')
            ctx.check(not self.mv(s1) and (e.prove_le(s1, n.node, g) or e.prove_le(s1, n.node, ONE)), rule, w,
                      'returns when only %s of %s characters are known to be in order%s' % (X.show(g), X.show(n.node), ' (one is still on its way down)' if self.mv(s1) else ''), 'returns')
        if not cnt: raise F.Broken('ordering: no path returns')
        ctx.access_findings(e)
        ctx.absorb(e)


class Compose:
    """Reference: a starter (position and value) and the class of the last character kept after it."""

    def __init__(self, ctx, p, nm):
        self.ctx = ctx; self.p = p; self.nm = nm
        self.prim = dict(ucd.compositions())
        for c in range(ucd.SB, ucd.SB + 11172):
            t = (c - ucd.SB) % 28
            if t: self.prim[(c - t, ucd.TB + t)] = c
            else: self.prim[(ucd.LB + (c - ucd.SB) // 588, ucd.VB + (c - ucd.SB) % 588 // 28)] = c
        ex = ucd.comp_exclusion()
        self.excl = {tuple(m): c for c, (t, m) in ucd.decomp().items() if not t and len(m) == 2 and c in ex and nm.ccc[m[0]] == 0}
        ks = list(self.prim)
        self.A = np.array([a for a, b in ks]); self.B = np.array([b for a, b in ks])
        self.V = np.array([self.prim[k] for k in ks])
        self.fns = {}

    same = Order.same
    ccc = Order.ccc
    zero = Order.zero
    pos4 = Order.pos

    # ---- the composition of two code points
    def pair(self, e, st, fr, p, a):
        f = e.p.resolve(fr.f.mod, p.x['c'][1]) if p.x['c'] else None
        if f is None or not f.defined or f.ret != ('int', 32) or [t for t, _, _ in f.params] != [('int', 32)] * 2: return NotImplemented
        if f.name not in self.fns: self.fns[f.name] = self.contract(f)
        r = self.fns[f.name]
        if r is None: return NotImplemented
        cover, image = r
        x = e.subst_singles(st, e.asint(a[0])); y = e.subst_singles(st, e.asint(a[1]))
        known = dict(st.x.get('comp', {}))
        k = X.Atom('compose(%s, %s)' % (X.show(x)[:40], X.show(y)[:40]), 32, image, 'composite').node
        s2 = st.copy()
        st.forks += 1; s2.forks += 1
        d = dict(known); d[x, y] = ('none', (d[x, y][1] if (x, y) in d and d[x, y][0] == 'none' else frozenset()) | {f.name})
        s2.x['comp'] = d
        d = dict(known); d[x, y] = ('is', k)
        st.x['comp'] = d
        return [(st, k), (s2, C(0, 32))]

    def contract(self, f):
        """what pairs the function composes; None when it is some other function"""
        ctx = self.ctx
        e = ctx.engine(self.p, [])
        a, b = X.Atom('first', 32, F.ALLCP), X.Atom('second', 32, F.ALLCP)
        cover = np.zeros(len(self.A), bool)
        bad = []
        good = 0
        vol = 0
        vals = set()
        starter = self.nm.ccc == 0
        inside = lambda d, x: (lambda i: (i >= 0) & (x <= np.asarray(d.e, np.int64)[np.maximum(i, 0)]))(np.searchsorted(np.asarray(d.s, np.int64), x, 'right') - 1)
        for o in e.call(f, [a.node, b.node], e.newstate()):
            if o.kind != 'ret' or o.st.opaque: raise X.Undecided('composition of two code points')
            da, db = o.st.dom(a), o.st.dom(b)
            vol += da.n * db.n
            r = e.subst_singles(o.st, e.asint(o.ret))
            if r.op == 'c' and r.a[0] == 0: continue
            pa = da.points().astype(np.int64)
            pa = pa[starter[pa]]
            pb = db.points().astype(np.int64)
            if len(pa) * len(pb) > 4000000: return None
            if not len(pa): continue
            g = np.meshgrid(pa, pb, indexing='ij')
            x, y = g[0].ravel(), g[1].ravel()
            if set(r.atoms) - {a, b}: raise X.Undecided('composition of two code points')
            v = np.broadcast_to(X.ev(r, {a: x.astype(np.uint64), b: y.astype(np.uint64)}) if r.atoms else np.uint64(r.a[0]), x.shape).astype(np.int64)
            for i in range(len(x)):
                if v[i] == 0: continue
                k = (int(x[i]), int(y[i]))
                want = self.prim.get(k) or self.excl.get(k)
                if want != int(v[i]): bad.append((k, int(v[i]), want))
                else: good += 1
                vals.add(int(v[i]))
            cover |= inside(da, self.A) & inside(db, self.B)
        if vol != (F.MAXCP + 1) ** 2: raise X.Undecided('composition of two code points: not a partition')
        ctx.access_findings(e)
        ctx.absorb(e)
        if not good: return None
        w = next(ctx.where(l) for l in (f.mod.loc(i.dbg) for b_, i in f.allinsts() if i.dbg) if l)
        rule = 'two code points compose to their primary composite'
        for k, g, want in bad[:1]:
            ctx.bad(rule, w, 'U+%04X U+%04X composes to U+%04X, the data says %s (%d pairs differ)' % (k + (g, 'U+%04X' % want if want else 'they do not compose', len(bad))))
        ctx.ok(int(cover.sum()), 'pairs composed')
        self.missing = [tuple(map(int, (self.A[i], self.B[i]))) for i in np.flatnonzero(~cover)[:1]]
        return cover, Dom.of(sorted(vals))

    def nopair(self, st, x, y, names):
        """no primary composite for x, y, given that these functions found none"""
        need = np.ones(len(self.A), bool)
        for n in names: need &= ~self.fns[n][0]
        if not need.any(): return True
        for v, arr in ((x, self.A), (y, self.B)):
            if v.op == 'c': need &= arr == v.a[0]
            elif v.op == 'v':
                d = st.dom(v.a[0])
                i = np.searchsorted(np.asarray(d.s, np.int64), arr, 'right') - 1
                need &= (i >= 0) & (arr <= np.asarray(d.e, np.int64)[np.maximum(i, 0)])
        return not need.any()

    # ---- the reference
    def char(self, st, k):
        """character k of the decomposed text if the path has read it"""
        return T.Transducer.elem(self.tr, st, k)

    def verdict(self, st, node):
        """what the algorithm does with the next character: ('push', new starter?), ('set', K) or None"""
        e = self.e; g = self.gh
        z = self.zero(st, node)
        has = g.get(st, 'has')
        if has.op != 'c': raise G.Unsupported('reference state not known')
        if not has.a[0]: return None if z is None else ('push', z)
        c = self.ccc(st, node); last = g.get(st, 'last')
        free = e.decide(st, X.icmp('eq', last, C(0, 8)))
        if free is not True:
            up = e.decide(st, X.icmp('ult', last, c))
            if up is True: free = True
            elif free is None or up is None: free = None if not (up is False and free is False) else False
            else: free = False
        L = g.get(st, 'L'); node = e.subst_singles(st, node)
        q = st.x.get('comp', {}).get((L, node))
        none = self.nopair(st, L, node, q[1] if q and q[0] == 'none' else ())
        if not none and q and q[0] == 'is':
            d = st.dom(q[1].a[0])
            pr = [int(x) in self.values for x in d.points()]
            if all(pr):
                if free: return ('set', q[1])
                if free is None: return None
                none = True
            elif any(pr): return None if free is not False else (None if z is None else ('push', z))
            else: none = True
        if free is False: none = True
        if not none: return None
        return None if z is None else ('push', z)

    def advance(self, st):
        e = self.e; g = self.gh; s = self.S
        k = self.tr.out(st)
        if k is None: return
        while True:
            pend = self.tr.pending(st)
            if not pend: break
            at = g.get(st, 'pos')
            node = self.char(st, at)
            if node is None: break
            v = self.verdict(st, node)
            if v is None or v[0] != 'push' or pend[0][0] != 'e' or not T.samevals(e, st, pend[0][1], node): break
            ln = g.get(st, 'len')
            if g.get(st, 'has').a[0] or v[1]:
                if v[1]:
                    g.put(st, 'has', C(1, 8)); g.put(st, 'gs', ln); g.put(st, 'L', e.subst_singles(st, node)); g.put(st, 'last', C(0, 8))
                else: g.put(st, 'last', self.ccc(st, node))
            g.put(st, 'len', X.add(ln, ONE)); g.put(st, 'pos', X.add(at, ONE))
            s.put(st, k, (self.tr.marker,) + tuple(pend[1:]))
        if not self.tr.pending(st): s.put(st, k, (self.tr.marker,))

    def load(self, e, st, key, w, off):
        k = self.tr.out(st)
        if key != k: return None
        self.advance(st)
        g = self.gh
        i = self.pos4(e.subst_singles(st, off))
        if g.get(st, 'has').op == 'c' and g.get(st, 'has').a[0] and self.same(st, i, g.get(st, 'gs')): return g.get(st, 'L')
        return None

    def store(self, e, st, key, w, off, v, loc):
        k = self.tr.out(st)
        if key != k: return False
        self.advance(st)
        g = self.gh
        i = self.pos4(e.subst_singles(st, off))
        v = e.subst_singles(st, e.asint(v, 32))
        l = loc_of(st)
        node = self.char(st, g.get(st, 'pos'))
        if self.tr.pending(st): st.event('mismatch', self.describe(st), l); return True
        if not (g.get(st, 'has').op == 'c' and g.get(st, 'has').a[0] and self.same(st, i, g.get(st, 'gs'))):
            st.event('mismatch', 'changes character %s of the result, which is not the last starter (%s)' % (X.show(i), X.show(g.get(st, 'gs'))), l); return True
        want = self.verdict(st, node) if node is not None else None
        if want is None or want[0] != 'set' or want[1] is not v:
            st.event('mismatch', 'replaces the starter by %s where the algorithm does not compose (%s)' % (X.show(v), self.state(st)), l); return True
        g.put(st, 'L', v); g.put(st, 'pos', X.add(g.get(st, 'pos'), ONE))
        return True

    def state(self, st):
        g = self.gh
        at = g.get(st, 'pos')
        node = self.char(st, at)
        t = 'next character %s%s' % (X.show(at), '' if node is not None else ', not read')
        if node is not None:
            z = self.zero(st, node)
            t += ', a starter' if z else ', a mark' if z is False else ''
            q = st.x.get('comp', {}).get((g.get(st, 'L'), self.e.subst_singles(st, node)))
            t += ', not tried to compose with the starter' if q is None else ', composing with the starter' if q[0] == 'is' else ', not composing'
        if g.get(st, 'has').a[0]:
            z = self.e.decide(st, X.icmp('eq', g.get(st, 'last'), C(0, 8)))
            t += ', next to the starter' if z else ', with marks before it' if z is False else ''
        return t

    def describe(self, st):
        pend = self.tr.pending(st)
        return 'appends %s, which is not what the algorithm does (%s)' % (', '.join(X.show(x[1]) if x[0] == 'e' and x[1] is not G.UNDEF else x[0] for x in pend)[:100], self.state(st))

    def hook(self, st, fr, f, src, h):
        self.advance(st)
        k = self.tr.out(st)
        base = self.e.hdrbase
        if k is not None and self.tr.pending(st) == () and ((src, h) not in f.back): self.S.put(st, k, (self.tr.marker,))
        if base is None or k is None: return
        old = base.x.get('str', {}).get(k, ())
        if old[:1] != (self.tr.marker,): old = (self.tr.marker,) + tuple(old)
        if self.S.get(st, k) != old:
            st.event('mismatch', self.describe(st), G.loc_of(f, f.bp[h][1][0].ins))
            self.S.put(st, k, old)

    def run(self, f, view):
        ctx, p = self.ctx, self.p
        e, s = N.engine(ctx, p, self.nm.models() + [(re.compile('.*unicode::'), self.pair)])
        e.tuples = True
        self.e = e; self.S = s
        self.values = set(self.V.tolist())
        st = e.newstate()
        n = X.Atom('n', 64, Dom([0], [1 << 32]))
        text = T.cptext(e, st, n.node)
        so = e.new_obj(st, 'fixed', C(32, 64), 'undef', name='decomposed')
        res = e.new_obj(st, 'fixed', C(32, 64), 'undef', name='result')
        s.construct(e, st, (so, 0), 4, (('sl', text, Z64, n.node),), n.node)
        s.onload = self.load; s.onstore = self.store
        self.tr = T.Transducer(s, e, st, text, n.node, (res, 0), None, inputs=((so, 0),))
        self.gh = Ghost(e, st, [('pos', 64, Z64), ('len', 64, Z64), ('gs', 64, Z64), ('has', 8, C(0, 8)), ('L', 32, C(0, 32)), ('last', 8, C(0, 8))])
        e.hdrhook = self.hook
        rule = 'composition follows the canonical composition algorithm'
        w = site(ctx, e, f)
        cnt = 0
        for o in e.call(f, [P(res, Z64)] + ([n.node, P(text, Z64)] if view else [P(so, Z64)]), st):
            s1 = o.st
            ev = [x for x in s1.eventlist() if x[0] == 'mismatch']
            if ev: ctx.bad(rule, ctx.where(ev[0][2]), ev[0][1]); continue
            if o.kind == 'backedge': continue
            if o.kind != 'ret': ctx.bad(rule, ctx.where(G.loc_of(*o.loc)), 'does not return'); continue
            if s1.opaque: raise X.Undecided('undetermined branch')
            cnt += 1
            self.advance(s1)
            if (res, 0) not in s1.x.get('str', {}): ctx.bad(rule, w, 'returns without a result'); continue
            if self.tr.pending(s1): ctx.bad(rule, w, self.describe(s1)); continue
            g = self.gh.get(s1, 'pos')
            ctx.check(self.same(s1, g, n.node), rule, w, 'returns when %s of %s characters are composed (%s)' % (X.show(g), X.show(n.node), self.state(s1)), 'returns')
        if cnt < 2: raise F.Broken('composition: too few paths')
        if not self.fns: raise F.Broken('composition of two code points not found')
        ctx.access_findings(e)
        ctx.absorb(e)
