"""C08: case mapping of whole strings"""
import re
import numpy as np
import ucd
import framework as F
import engine as G
import expr as X
import strings as S
import transduce as T
import c07
from dom import Dom
from percp import site
from engine import C, P, Z64

OPS = {'upper': 'to_uppercase', 'lower': 'to_lowercase', 'fold': 'casefold', 'title': 'to_titlecase'}
FULL = {'upper': 'full_uppercase', 'lower': 'full_lowercase', 'title': 'full_titlecase', 'fold': 'full_casefold'}
SIMPLE = {'upper': 'simple_uppercase', 'lower': 'simple_lowercase', 'title': 'simple_titlecase', 'fold': 'simple_casefold'}
U32V = r'(std::basic_string_view<char32_t, std::char_traits<char32_t> >'
U8V = r'(std::basic_string_view<char, std::char_traits<char> >'


class Cases:
    """the per-code-point mappings, as proven by C07's comparison, as value tables"""

    def __init__(self):
        su, sl, st, sf, fu, fl, ft, ff = c07.tables()
        self.simple = {'upper': su, 'lower': sl, 'title': st, 'fold': sf}
        self.full = {'upper': fu, 'lower': fl, 'title': ft, 'fold': ff}
        self.len = {}
        self.out = {}
        for k, d in self.full.items():
            ln = np.zeros(ucd.N, np.uint8)
            out = np.zeros((3, ucd.N), np.uint32)
            for c, m in d.items():
                ln[c] = len(m)
                for i, x in enumerate(m): out[i, c] = x
            self.len[k] = ln
            self.out[k] = out
        gc = ucd.gc()
        self.cased = np.array([x in ('Uppercase_Letter', 'Lowercase_Letter', 'Titlecase_Letter') for x in gc]).astype(np.uint8)
        self.ignorable = np.asarray(ucd.core()['Case_Ignorable']).astype(np.uint8)

    def models(self):
        m = []
        for k in FULL:
            m.append((re.compile(r'unicode::%s\(char32_t\)$' % FULL[k]), lambda e, st, fr, p, a, k=k: self.fullmodel(e, st, k, a[0])))
            m.append((re.compile(r'unicode::%s\(char32_t\)$' % SIMPLE[k]), lambda e, st, fr, p, a, k=k: self.simplemodel(e, st, k, a[0])))
            m.append((re.compile(r'unicode::changes_when_%s\(char32_t\)$' % {'fold': 'casefolded'}.get(k, k + 'cased')), lambda e, st, fr, p, a, k=k: self.pred(e, st, self.len[k] > 0, a[0])))
        m.append((re.compile(r'unicode::is_cased\(char32_t\)$'), lambda e, st, fr, p, a: self.pred(e, st, self.cased, a[0])))
        m.append((re.compile(r'unicode::is_case_ignorable\(char32_t\)$'), lambda e, st, fr, p, a: self.pred(e, st, self.ignorable, a[0])))
        return m

    def pred(self, e, st, arr, x):
        return [(s, C(v, 1)) for s, v in T.fork(e, st, x, np.asarray(arr).astype(np.uint8))]

    def simplemodel(self, e, st, k, x):
        return T.tabval(T.table('simple ' + k, self.simple[k], '<u4'), e.subst_singles(st, x), 4)

    def outexpr(self, k, i, x):
        return T.tabval(T.table('full %s[%d]' % (k, i), self.out[k][i], '<u4'), x, 4)

    def fullmodel(self, e, st, k, x):
        r = []
        for s, n in T.fork(e, st, x, self.len[k]):
            y = e.subst_singles(s, x)
            w = [self.outexpr(k, i, y) if i < n else C(0, 32) for i in range(3)] + [C(n, 32)]
            h = [X.cat([X.byte(w[j + i // 4], i % 4) for i in range(8)]) for j in (0, 2)]
            r.append((s, G.Vec(h)))
        return r

    def ref(self, k):
        """reference: each character gives its full mapping"""
        ln = self.len[k]

        def step(tr, e, st, node, g):
            r = self.mapped(e, st, k, node)
            return None if r is None else (r, {})
        return step

    def mapped(self, e, st, k, node):
        if node.op == 'c': v = {int(self.len[k][node.a[0]])}
        else: v = set(np.unique(self.len[k][st.dom(node.a[0]).points().astype(np.int64)]).tolist())
        if v == {0}: return [node]
        if len(v) == 1: return [self.outexpr(k, i, node) for i in range(v.pop())]
        if v <= {0, 1}:
            # same number of characters either way
            both = np.where(self.len[k] == 0, np.arange(ucd.N), self.out[k][0])
            return [T.tabval(T.table('full1 ' + k, both, '<u4'), node, 4)]
        return None         # characters of different mapping lengths treated alike


def fn(p, pat):
    r = re.compile(pat)
    f = next((g for m in p.mods for n, g in m.funcs.items() if g.defined and r.match(p.dem(n))), None)
    if f is None: raise F.Broken('%s is gone' % pat)
    return f


def run(ctx):
    ctx.rule('Each UTF-32 string mapping is followed over a text of unknown length: at every loop header and return the characters appended must be exactly the concatenated full mappings of the characters consumed so far '
             '(titlecase: by the position in its word). UTF-8 overloads must be decode, map, encode; comparisons must compare the folded texts. The per-code-point mappings are compared with the published data.')
    cs = Cases()
    p = ctx.program(['case_mapping.cpp'])
    for k in ('upper', 'lower', 'fold'):
        mapstring(ctx, p, cs, k)
    title(ctx, p, cs)
    utf8(ctx, p, cs)
    compares(ctx, p, cs)
    c07.run(ctx)


def engine(ctx, p, models, **kw):
    s = S.Strings()
    e = ctx.engine(p, models + s.models())
    s.setup(e)
    e.merge = True
    return e, s


def mapstring(ctx, p, cs, k):
    f = fn(p, r'unicode::%s(\[abi:cxx11\])?%s' % (OPS[k], re.escape(U32V)))
    e, s = engine(ctx, p, cs.models())
    st = e.newstate()
    n = X.Atom('n', 64, Dom([0], [1 << 32]))
    text = T.cptext(e, st, n.node)
    res = e.new_obj(st, 'fixed', C(32, 64), 'undef', name='result')
    tr = T.Transducer(s, e, st, text, n.node, (res, 0), cs.ref(k))
    rule = '%s maps every character by its full mapping, in order' % OPS[k]
    w = site(ctx, e, f)
    cnt = 0
    for o in e.call(f, [P(res, Z64), n.node, P(text, Z64)], st):
        tr.finish(ctx, o, rule, w)
        cnt += o.kind == 'ret'
    if not cnt: raise F.Broken('no path returns')
    ctx.access_findings(e)
    ctx.absorb(e)


def segment_models(tr):
    """the word segmentation step, uninterpreted (C02 covers it): every character must be offered in order"""
    def feed(e, st, node, first):
        w = e.subst_singles(st, e.asint(tr.ghosts(st)['fed']))
        want = tr.elem(st, w)
        if want is None or e.subst_singles(st, node) is not e.subst_singles(st, want):
            st.event('mismatch', 'the word segmenter is not given the characters of the text one after the other (character %s is next)' % X.show(w), G.loc_of(st.frames[-1].f, st.frames[-1].blk[1][st.frames[-1].i].ins))
        o, k = tr.w['fed']
        e.rawstore(st, tr.gid, C(o, 64), k, X.add(w, C(1, 64)))
        if first:
            g = tr.pos(st)
            tr.advance(st)
            g = tr.pos(st)
            if not (g is w or e.prove_le(st, g, w) and e.prove_le(st, w, g)): st.event('undecided', 'words are split ahead of their conversion (%s consumed, %s next)' % (X.show(g), X.show(w)))
            o, k = tr.w['seen']
            e.rawstore(st, tr.gid, C(o, 64), k, C(0, 8))

    def init(e, st, fr, p, a):
        feed(e, st, a[0], True)
        return None

    def step(e, st, fr, p, a):
        w0 = e.subst_singles(st, e.asint(tr.ghosts(st)['fed']))
        feed(e, st, a[0], False)
        w = e.subst_singles(st, e.asint(tr.ghosts(st)['fed']))
        # what follows the character is the look-ahead
        end = X.scale(X.sub(tr.n, w), 1)
        okp = isinstance(a[1], P) and a[1].o == tr.text and (e.subst_singles(st, a[1].off) is e.subst_singles(st, X.scale(w, 4)))
        cnt = e.subst_singles(st, e.asint(a[2]))
        okn = cnt is e.subst_singles(st, end) or e.prove_le(st, cnt, end) and e.prove_le(st, end, cnt)
        if not (okp and okn): st.event('mismatch', 'the word segmenter is not given the rest of the text to look ahead', G.loc_of(fr.f, p.ins))
        s2 = st.copy()
        st.forks += 1; s2.forks += 1; st.unb += 1; s2.unb += 1
        o, k = tr.w['fed']
        e.rawstore(st, tr.gid, C(o, 64), k, w0)         # a word starts here: this character opens it
        return [(st, C(1, 1)), (s2, C(0, 1))]
    return [(re.compile(r'unicode::word_process_init\('), init), (re.compile(r'unicode::word_process_breakable\('), step)]


def title(ctx, p, cs):
    f = fn(p, r'unicode::to_titlecase(\[abi:cxx11\])?%s' % re.escape(U32V))
    box = []
    late = [(re.compile(r), lambda e, st, fr, q, a, i=i: box[i][1](e, st, fr, q, a)) for i, r in enumerate((r'unicode::word_process_init\(', r'unicode::word_process_breakable\('))]
    e, s = engine(ctx, p, cs.models() + late)
    e.tuples = True
    st = e.newstate()
    n = X.Atom('n', 64, Dom([0], [1 << 32]))
    text = T.cptext(e, st, n.node)
    res = e.new_obj(st, 'fixed', C(32, 64), 'undef', name='result')

    def ref(tr, e, st, node, g):
        if node.op == 'c': c = {int(cs.cased[node.a[0]])}
        else: c = set(np.unique(cs.cased[st.dom(node.a[0]).points().astype(np.int64)]).tolist())
        if c == {0}: return [node], {}
        if len(c) > 1: return None
        seen = e.subst_singles(st, g['seen'])
        if seen.op != 'c': raise X.Undecided('position in the word not known')
        r = cs.mapped(e, st, 'lower' if seen.a[0] else 'title', node)
        return None if r is None else (r, {'seen': C(1, 8)})
    tr = T.Transducer(s, e, st, text, n.node, (res, 0), ref, [('fed', 64, Z64), ('seen', 8, C(0, 8))])
    box += segment_models(tr)
    rule = 'to_titlecase maps the first cased character of each word to titlecase, the others to lowercase'
    w = site(ctx, e, f)
    cnt = 0
    for o in e.call(f, [P(res, Z64), n.node, P(text, Z64)], st):
        tr.finish(ctx, o, rule, w)
        cnt += o.kind == 'ret'
    if not cnt: raise F.Broken('no path returns')
    ctx.access_findings(e)
    ctx.absorb(e)


# ------------------------------------------------------------------ uninterpreted texts
def term_models(s, names=('upper', 'lower', 'title', 'fold'), u8=True):
    """whole-text functions as uninterpreted terms over the text they are given"""
    m = []

    def conv(kind, w):
        def model(e, st, fr, p, a):
            src = s.content(e, st, a[2], a[1], 1 if kind == 'dec' else 4, fr.f, p.ins)
            s.construct(e, st, s.key(e, st, a[0]), w, ((kind, src),) if src else ())
            return None
        return model
    m.append((re.compile(r'.*[ >]unicode::convert_to<char32_t, char>\(std::basic_string_view'), conv('dec', 4)))
    m.append((re.compile(r'.*[ >]unicode::convert_to<char, char32_t>\(std::basic_string_view'), conv('enc', 1)))
    for k in names:
        def op32(e, st, fr, p, a, k=k):
            src = s.content(e, st, a[2], a[1], 4, fr.f, p.ins)
            s.construct(e, st, s.key(e, st, a[0]), 4, ((k, src),) if src else ())
            return None

        def op8(e, st, fr, p, a, k=k):
            src = s.content(e, st, a[2], a[1], 1, fr.f, p.ins)
            s.construct(e, st, s.key(e, st, a[0]), 1, (('enc', ((k, (('dec', src),)),)),) if src else ())
            return None
        m.append((re.compile(r'unicode::%s(\[abi:cxx11\])?%s' % (OPS[k], re.escape(U32V))), op32))
        if u8: m.append((re.compile(r'unicode::%s(\[abi:cxx11\])?%s' % (OPS[k], re.escape(U8V))), op8))
    return m


def showterm(t):
    if not t: return '(empty)'
    out = []
    for x in t:
        if x[0] == 'sl': out.append(x[1].split('#')[0])
        elif x[0] == 'e': out.append(X.show(x[1]))
        else: out.append('%s(%s)' % (x[0], ', '.join(showterm(y) if isinstance(y, tuple) else str(y) for y in x[1:])))
    return ' '.join(out)


def texts(e, st, w, *names):
    """arguments for texts of unknown length: [(object, length node, content)]"""
    r = []
    for nm in names:
        n = X.Atom('len ' + nm, 64, Dom([0], [1 << 32]))
        o = e.new_obj(st, 'array', X.scale(n.node, w), 'input', w, nm)
        r.append((o, n.node, (('sl', o, Z64, n.node),)))
    return r


def eqsubst(e, st, s, t):
    """replace contents the path knows to be equal"""
    def go(x):
        if not isinstance(x, tuple): return x
        for (a, b), at in s.cmpatoms.items():
            d = st.dom(at)
            if d.n == 1 and d.s[0] == 0 and x == b: return go(a)
        return tuple(go(y) for y in x)
    return go(t)


def empties(e, st, t):
    """drop pieces the path knows to be empty"""
    return tuple(x for x in t if not (x[0] == 'sl' and e.subst_singles(st, x[3]).op == 'c' and e.subst_singles(st, x[3]).a[0] == 0))


def utf8(ctx, p, cs):
    for k in OPS:
        f = fn(p, r'unicode::%s(\[abi:cxx11\])?%s' % (OPS[k], re.escape(U8V)))
        s = S.Strings()
        e = ctx.engine(p, [x for x in term_models(s, u8=False)] + s.models())
        s.setup(e)
        st = e.newstate()
        (o8, n8, c8), = texts(e, st, 1, 'text')
        res = e.new_obj(st, 'fixed', C(32, 64), 'undef', name='result')
        want = (('enc', ((k, (('dec', c8),)),)),)
        rule = 'the UTF-8 %s decodes, maps and encodes the whole text' % OPS[k]
        w = site(ctx, e, f)
        outs = e.call(f, [P(res, Z64), n8, P(o8, Z64)], st)
        for o in outs:
            if o.kind == 'backedge': raise X.Undecided('loop in ' + OPS[k])
            got = o.st.x.get('str', {}).get((res, 0)) if o.kind == 'ret' else None
            none = not empties(e, o.st, c8)
            ctx.check(got == want or none and got is not None and got in ((), want), rule, w, 'the result is %s instead of %s' % (showterm(got) if got is not None else 'missing', showterm(want)), 'text pipelines')
        if not outs: raise F.Broken('no path')
        ctx.access_findings(e)
        ctx.absorb(e)


def compares(ctx, p, cs):
    for w8 in (4, 1):
        V = U32V if w8 == 4 else U8V
        two = re.escape(V) + r', ' + re.escape(V[1:] if V[0] == '(' else V) if False else re.escape(V)
        for name in ('casefold_compare', 'casefold_equals'):
            f = fn(p, r'unicode::%s%s' % (name, two))
            s = S.Strings()
            e = ctx.engine(p, term_models(s) + s.models())
            s.setup(e)
            st = e.newstate()
            (oa, na, ca), (ob, nb, cb) = texts(e, st, w8, 'a', 'b')
            if w8 == 4: forms = [((('fold', ca),), (('fold', cb),))]
            else:
                fa, fb = (('fold', (('dec', ca),)),), (('fold', (('dec', cb),)),)
                forms = [((('enc', fa),), (('enc', fb),)), (fa, fb)]
            rule = '%s decides by comparing the folded texts' % name
            wh = site(ctx, e, f)
            outs = e.call(f, [na, P(oa, Z64), nb, P(ob, Z64)], st)
            for o in outs:
                if o.kind != 'ret': raise X.Undecided('loop in ' + name)
                judge(ctx, e, s, o, forms, name == 'casefold_equals', rule, wh, ca, cb)
            if not outs: raise F.Broken('no path')
            ctx.access_findings(e)
            ctx.absorb(e)


def judge(ctx, e, s, o, forms, eq, rule, w, ca, cb):
    st = o.st
    r = e.subst_singles(st, e.asint(o.ret))
    sg = lambda v, wd: (lambda x: (x > 0) - (x < 0))(X.sgn(int(v), wd))
    ok = False
    why = 'the result does not depend on the folded texts'
    if r.op == 'c':
        known = None
        fa, fb = forms[0]
        if eqsubst(e, st, s, fa) == eqsubst(e, st, s, fb): known = 0
        for a, b in forms:
            for (x, y), sign in (((a, b), 1), ((b, a), -1)):
                at = s.cmpatoms.get((x, y))
                if at is not None:
                    d = st.dom(at)
                    ss = {sg(v, 32) for q in zip(d.s, d.e) for v in q}
                    if len(ss) == 1: known = sign * ss.pop()
        if known is not None:
            ok = (r.a[0] != 0) == (known == 0) if eq else sg(r.a[0], r.w) == known
            why = 'returns %d although the folded texts compare %s' % (X.sgn(r.a[0], r.w), known)
        else: why = 'returns %d whatever the folded texts are' % X.sgn(r.a[0], r.w)
    else:
        at = T.single(st, r)
        pair = getattr(at, 'info', None) if at is not None and at.kind == 'cmp' else None
        if pair is not None:
            pair = tuple(eqsubst(e, st, s, x) for x in pair)
            F2 = [tuple(eqsubst(e, st, s, x) for x in f) for f in forms]
            sign = 1 if pair in F2 else -1 if pair[::-1] in F2 else 0
            if sign:
                d = st.dom(at)
                vs = np.array(sorted({v for q in zip(d.s, d.e) for v in q} | {v for v in (1, 5, 0xFFFFFFFF, 0) if v in d}), np.uint64)
                got = X.values(r, at, vs)
                ok = all((int(g) != 0) == (sg(v, 32) == 0) if eq else sg(g, r.w) == sign * sg(v, 32) for v, g in zip(vs, got))
                why = 'the sign of the result is not that of the comparison of the folded texts'
            else: why = 'compares %s with %s' % (showterm(pair[0]), showterm(pair[1]))
    ctx.check(ok, rule, w, why, 'comparisons')
