"""C13: quick check, normalization test and equivalence"""
import re
import numpy as np
import ucd
import framework as F
import engine as G
import expr as X
import strings as S
import transduce as T
import c08
import c09
import norm as N
from c08 import U32V, U8V, empties, eqsubst, showterm, texts
from dom import Dom
from percp import site
from engine import C, P, Z64


def run(ctx):
    ctx.rule('quick_check is followed over a text of unknown length in step with the quick check algorithm of UAX #15 (last combining class, maybe seen): it may return No only at a character where the algorithm does, and Yes or Maybe only at '
             'the end and as the algorithm does. is_normalized must follow from the quick check and, where that does not decide, from comparing the text with its normalized form; the equivalences must compare the normalized texts.')
    p = ctx.program(N.UNITS, ['casenorm.cpp', 'norm.cpp'])
    nm = N.Norm(p)
    for form in N.FORMS: quick(ctx, p, nm, form)
    pipelines(ctx, p, nm)
    c09.run(ctx)


def below(e, st, a, b):
    """a < b: True, False or None"""
    a = e.subst_singles(st, a); b = e.subst_singles(st, b)
    return e.decide(st, X.icmp('ult', a, b))


def quick(ctx, p, nm, form):
    f = N.fn(p, r'unicode::quick_check' + re.escape(U32V))
    e, s = N.engine(ctx, p, nm.models())
    e.tuples = True
    st = e.newstate()
    n = X.Atom('n', 64, Dom([0], [1 << 32]))
    text = T.cptext(e, st, n.node)
    q = nm.qc[form + '_QC']
    R = nm.result

    def state(e, st, node, g):
        """what the algorithm does with the character: 'no', new ghosts, or None"""
        c = nm.cccof(e, st, node)
        cls = set(np.unique(q[nm.dom(st, node)]).tolist())
        zero = e.decide(st, X.icmp('eq', c, C(0, 8)))
        if zero: bad = False
        else:
            bad = below(e, st, c, g['last'])
            if bad is None and zero is None: bad = None
            elif bad and zero is None: bad = None
        if bad or cls == {1}: return 'no'
        if bad is None or 1 in cls or len(cls) > 1: return None
        return {'last': c, 'result': C(R['Maybe'], 8) if cls == {2} else g['result']}

    def ref(tr, e, st, node, g):
        r = state(e, st, node, g)
        return None if r == 'no' else r
    tr = T.Scan(e, st, text, n.node, ref, [('last', 8, C(0, 8)), ('result', 8, C(R['Yes'], 8))])
    rule = 'quick_check follows the algorithm of UAX #15 for ' + form
    w = site(ctx, e, f)
    cnt = 0
    for o in e.call(f, [n.node, P(text, Z64), C(nm.form[form], 8)], st):
        if o.kind == 'backedge': continue
        if o.kind != 'ret': ctx.bad(rule, ctx.where(G.loc_of(*o.loc)), 'does not return'); continue
        s1 = o.st
        cnt += 1
        if s1.opaque: raise X.Undecided('undetermined branch')
        tr.advance(s1)
        g = tr.ghosts(s1)
        r = e.subst_singles(s1, e.asint(o.ret, 8))
        if r.op != 'c':
            want = e.subst_singles(s1, g['result'])
            ctx.check(tr.atend(s1) and T.samevals(e, s1, r, want), rule, w, 'returns %s where the algorithm gives %s' % (X.show(r), X.show(want)), 'returns'); continue
        if r.a[0] == R['No']:
            node = tr.elem(s1, tr.pos(s1))
            st2 = state(e, s1, e.subst_singles(s1, node), g) if node is not None else None
            ctx.check(st2 == 'no', rule, w, 'returns No although %s' % ('all characters read are in order and allowed' if node is None else 'character %s (%s) need not be refused: %s' % (
                X.show(tr.pos(s1)), X.show(node), s1.dom(node.a[0]).show()[:100] if node.op == 'v' else '')), 'returns')
        else:
            want = e.subst_singles(s1, g['result'])
            why = 'the end of the text'
            node = tr.elem(s1, tr.pos(s1))
            if not tr.atend(s1):
                why = 'character %s is reached' % X.show(tr.pos(s1)) if node is None else 'character %s (%s) is accepted' % (X.show(tr.pos(s1)), s1.dom(node.a[0]).show()[:100] if node.op == 'v' else X.show(node))
                ctx.bad(rule, w, 'returns %s when only %s' % ({v: k for k, v in R.items()}.get(r.a[0]), why)); continue
            ctx.check(T.samevals(e, s1, r, want), rule, w, 'returns %s where the algorithm gives %s' % ({v: k for k, v in R.items()}.get(r.a[0]), X.show(want)), 'returns')
    if cnt < 2: raise F.Broken('quick_check: too few paths')
    ctx.access_findings(e)
    ctx.absorb(e)


# ------------------------------------------------------------------ pipelines
def term_models(s, nm, skip=()):
    """normalize, quick_check and the conversions as terms over whole texts"""
    m = [x for x in c08.term_models(s, names=())]
    f2n = {v: k for k, v in nm.form.items()}

    def form(e, st, x):
        x = e.subst_singles(st, e.asint(x))
        if x.op != 'c' or x.a[0] not in f2n: raise G.Unsupported('normalization form not known')
        return f2n[x.a[0]]

    def norm(w):
        def model(e, st, fr, p, a):
            src = s.content(e, st, a[2], a[1], w, fr.f, p.ins)
            k = form(e, st, a[3])
            if w == 1: src = (('dec', src),) if src else ()
            t = ((k, src),) if src else ()
            if w == 1 and t: t = (('enc', t),)
            s.construct(e, st, s.key(e, st, a[0]), w, t)
            return None
        return model

    def check(w):
        def model(e, st, fr, p, a):
            src = s.content(e, st, a[1], a[0], w, fr.f, p.ins)
            k = form(e, st, a[2])
            if w == 1: src = (('dec', src),) if src else ()
            r = []
            known = st.x.get('qc', {})
            if not src: return C(nm.result['Yes'], 8)
            if (k, src) in known: return C(nm.result[known[k, src]], 8)
            for i, v in enumerate(('Yes', 'No', 'Maybe')):
                st2 = st.copy() if i < 2 else st
                d = dict(known); d[k, src] = v
                st2.x['qc'] = d
                st2.forks += 1
                r.append((st2, C(nm.result[v], 8)))
            return r
        return model
    for w, V in ((4, U32V), (1, U8V)):
        if ('norm', w) not in skip: m.append((re.compile(r'unicode::normalize(\[abi:cxx11\])?' + re.escape(V)), norm(w)))
        if ('check', w) not in skip: m.append((re.compile(r'unicode::quick_check' + re.escape(V)), check(w)))
    return m


def pipelines(ctx, p, nm):
    for w, V, tag in ((4, U32V, '32'), (1, U8V, '8')):
        for form in N.FORMS:
            for probe in ('probe_is%s%s' % (form.lower(), tag), 'unicode::is_normalized'):
                isnorm(ctx, p, nm, w, V, form, probe)
            normwrap(ctx, p, nm, w, form, 'probe_to%s%s' % (form.lower(), tag))
        for name, ok in (('is_canonically_equivalent', ('NFD', 'NFC')), ('is_compatibility_equivalent', ('NFKD', 'NFKC'))):
            equiv(ctx, p, nm, w, V, name, ok)
    quick8(ctx, p, nm)


def start(ctx, p, nm, skip=()):
    s = S.Strings()
    e = ctx.engine(p, term_models(s, nm, skip) + s.models())
    s.setup(e)
    return s, e, e.newstate()


def outcomes(e, f, args, st, name):
    outs = e.call(f, args, st)
    if not outs: raise F.Broken('no path through ' + name)
    for o in outs:
        if o.kind == 'backedge': raise X.Undecided('loop in ' + name)
        if o.st.opaque: raise X.Undecided('undetermined branch in ' + name)
    return outs


def isnorm(ctx, p, nm, w, V, form, probe):
    api = probe.startswith('unicode')
    f = N.fn(p, re.escape(probe) + re.escape(V)) if api else F.fn_of(p, probe)
    s, e, st = start(ctx, p, nm)
    (o_, n_, c_), = texts(e, st, w, 'text')
    args = [n_, P(o_, Z64), C(nm.form[form], 8)] if api else [P(o_, Z64), n_]
    rule = 'is_normalized (%s, UTF-%d) follows from the quick check and the normalized text' % (form, 32 if w == 4 else 8)
    wh = site(ctx, e, f)
    for o in outcomes(e, f, args, st, probe):
        st1 = o.st
        if o.kind != 'ret': ctx.bad(rule, ctx.where(G.loc_of(*o.loc)), 'does not return'); continue
        src = c_ if w == 4 else (('dec', c_),)
        r = e.subst_singles(st1, e.asint(o.ret))
        if not empties(e, st1, c_):
            ctx.check(r.op == 'c' and r.a[0] == 1 or r.op != 'c', rule, wh, 'an empty text is not normalized', 'decisions'); continue
        q = st1.x.get('qc', {}).get((form, src))
        if q == 'Yes' or q == 'No':
            ok = r.op == 'c' and r.a[0] == int(q == 'Yes')
            if not ok: ok = compares(e, st1, s, r, form, src)
            ctx.check(ok, rule, wh, 'returns %s although the quick check says %s' % (X.show(r), q), 'decisions'); continue
        ok = compares(e, st1, s, r, form, src)
        ctx.check(ok, rule, wh, 'the result %s is not that of comparing the text with its %s' % (X.show(r), form) + (' although the quick check says Maybe' if q else ''), 'decisions')
    ctx.access_findings(e)
    ctx.absorb(e)


def compares(e, st, s, r, form, src):
    """r is true exactly when the text equals its normalized form"""
    pairs = [(((form, src),), src)]
    if src[0][0] == 'dec': pairs.append(((('enc', ((form, src),)),), src[0][1]))
    return truth(e, st, s, r, pairs)


def truth(e, st, s, r, pairs):
    for x, y in pairs:
        for a, b in ((x, y), (y, x)):
            at = s.cmpatoms.get((a, b))
            if at is None: continue
            if r.op == 'c':
                d = st.dom(at)
                ne = not (0 in d)
                eq = d.n == 1 and int(d.s[0]) == 0
                if eq and r.a[0] == 1 or ne and r.a[0] == 0: return True
            elif r.atoms == frozenset([at]) or set(r.atoms) == {at}:
                vs = np.array([0, 1, 5, 0xFFFFFFFF, 0x80000000], np.uint64)
                got = X.values(r, at, vs)
                if all((int(g) != 0) == (int(v) == 0) for g, v in zip(got, vs)): return True
    return False


def equiv(ctx, p, nm, w, V, name, forms):
    f = N.fn(p, r'unicode::%s%s' % (name, re.escape(V)))
    s, e, st = start(ctx, p, nm)
    (oa, na, ca), (ob, nb, cb) = texts(e, st, w, 'a', 'b')
    rule = '%s (UTF-%d) compares the normalized texts' % (name, 32 if w == 4 else 8)
    wh = site(ctx, e, f)
    pairs = []
    for k in forms:
        fa, fb = (ca, cb) if w == 4 else ((('dec', ca),), (('dec', cb),))
        pairs.append((((k, fa),), ((k, fb),)))
        if w == 1: pairs.append(((('enc', ((k, fa),)),), (('enc', ((k, fb),)),)))
    for o in outcomes(e, f, [na, P(oa, Z64), nb, P(ob, Z64)], st, name):
        if o.kind != 'ret': ctx.bad(rule, ctx.where(G.loc_of(*o.loc)), 'does not return'); continue
        r = e.subst_singles(o.st, e.asint(o.ret))
        ok = truth(e, o.st, s, r, pairs)
        if not ok and r.op == 'c' and r.a[0] == 1: ok = any(eqsubst(e, o.st, s, x) == eqsubst(e, o.st, s, y) for x, y in pairs) or not empties(e, o.st, ca) and not empties(e, o.st, cb)
        ctx.check(ok, rule, wh, 'the result %s is not that of comparing the normalized texts (compared: %s)' % (X.show(r), '; '.join('%s with %s' % (showterm(a), showterm(b)) for a, b in s.cmpatoms) or 'nothing'), 'decisions')
    ctx.access_findings(e)
    ctx.absorb(e)


def normwrap(ctx, p, nm, w, form, probe):
    f = F.fn_of(p, probe)
    s, e, st = start(ctx, p, nm)
    (o_, n_, c_), = texts(e, st, w, 'text')
    res = e.new_obj(st, 'fixed', C(32, 64), 'undef', name='result')
    rule = 'to_%s (UTF-%d) is the normalization to that form' % (form.lower(), 32 if w == 4 else 8)
    wh = site(ctx, e, f)
    want = ((form, c_),) if w == 4 else (('enc', ((form, (('dec', c_),)),)),)
    for o in outcomes(e, f, [P(res, Z64), P(o_, Z64), n_], st, probe):
        got = o.st.x.get('str', {}).get((res, 0)) if o.kind == 'ret' else None
        ok = got == want or got == () and not empties(e, o.st, c_)
        ctx.check(ok, rule, wh, 'the result is %s instead of %s' % (showterm(got) if got is not None else 'missing', showterm(want)), 'decisions')
    ctx.access_findings(e)
    ctx.absorb(e)


def quick8(ctx, p, nm):
    f = N.fn(p, r'unicode::quick_check' + re.escape(U8V))
    rule = 'the UTF-8 quick_check is that of the decoded text'
    for form in N.FORMS:
        s, e, st = start(ctx, p, nm, skip=(('check', 1),))
        (o_, n_, c_), = texts(e, st, 1, 'text')
        wh = site(ctx, e, f)
        for o in outcomes(e, f, [n_, P(o_, Z64), C(nm.form[form], 8)], st, 'quick_check'):
            if o.kind != 'ret': ctx.bad(rule, ctx.where(G.loc_of(*o.loc)), 'does not return'); continue
            q = o.st.x.get('qc', {}).get((form, (('dec', c_),)))
            r = e.subst_singles(o.st, e.asint(o.ret))
            ok = q is not None and r.op == 'c' and r.a[0] == nm.result[q]
            if not ok and not empties(e, o.st, c_): ok = r.op == 'c' and r.a[0] == nm.result['Yes']
            ctx.check(ok, rule, wh, 'returns %s where the check of the decoded text gives %s' % (X.show(r), q), 'decisions')
        ctx.access_findings(e)
        ctx.absorb(e)
