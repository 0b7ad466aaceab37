"""C02: word boundaries for every sequence of code points"""
import numpy as np
import ucd
import framework as F
import engine as G
import expr as X
from dom import Dom, EMPTY
from percp import site
import stepauto as S

NL = ('Newline', 'CR', 'LF')
TR = ('Extend', 'Format', 'ZWJ')
AHL = ('ALetter', 'Hebrew_Letter')
MIDL = ('MidLetter', 'MidNumLet', 'Single_Quote')
MIDN = ('MidNum', 'MidNumLet', 'Single_Quote')


def cname(c): return c[0] + ('/ExtPict' if c[1] else '')


# history: (raw class of the last code point, effective class, effective class before, parity of the RI run, something skipped since)
def ref_init(c):
    w = c[0]
    return (w, None if w in TR else w, None, int(w == 'Regional_Indicator'), False)


def ref_step(h, b, nxt):
    """WB rules; nxt: class name of the first following code point that WB4 does not skip, or None"""
    raw, A, AA, ri, sk = h
    B = b[0]
    eff = (B, B, A, (ri + 1) % 2 if B == 'Regional_Indicator' and A == B else int(B == 'Regional_Indicator'), False)
    if raw == 'CR' and B == 'LF': return False, eff                                   # WB3
    if raw in NL: return True, (ref_init(b) if B in TR else eff)                      # WB3a
    if B in NL: return True, eff                                                      # WB3b
    if raw == 'ZWJ' and b[1]: return False, eff                                       # WB3c
    if raw == 'WSegSpace' == B: return False, eff                                     # WB3d
    if B in TR: return False, (B, A, AA, ri, True)                                    # WB4
    if A in AHL and B in AHL: return False, eff                                       # WB5
    if A in AHL and B in MIDL and nxt in AHL: return False, eff                       # WB6
    if AA in AHL and A in MIDL and B in AHL: return False, eff                        # WB7
    if A == 'Hebrew_Letter' and B == 'Single_Quote': return False, eff                # WB7a
    if A == 'Hebrew_Letter' and B == 'Double_Quote' and nxt == 'Hebrew_Letter': return False, eff    # WB7b
    if AA == 'Hebrew_Letter' and A == 'Double_Quote' and B == 'Hebrew_Letter': return False, eff     # WB7c
    if A == 'Numeric' == B: return False, eff                                         # WB8
    if A in AHL and B == 'Numeric': return False, eff                                 # WB9
    if A == 'Numeric' and B in AHL: return False, eff                                 # WB10
    if AA == 'Numeric' and A in MIDN and B == 'Numeric': return False, eff            # WB11
    if A == 'Numeric' and B in MIDN and nxt == 'Numeric': return False, eff           # WB12
    if A == 'Katakana' == B: return False, eff                                        # WB13
    if A in AHL + ('Numeric', 'Katakana', 'ExtendNumLet') and B == 'ExtendNumLet': return False, eff  # WB13a
    if A == 'ExtendNumLet' and B in AHL + ('Numeric', 'Katakana'): return False, eff  # WB13b
    if A == 'Regional_Indicator' == B and ri == 1: return False, eff                  # WB15 WB16
    return True, eff                                                                  # WB999


def run(ctx):
    ctx.rule('The word segmentation step is analysed once on symbolic state bytes, code point and lookahead text; its scan of the lookahead is shown to stop at the first code point '
             'that WB4 does not skip; the resulting transfer relation is explored as a product with the WB1..WB999 rule history, with and without restarting after a boundary.')
    p = ctx.program(['grapheme_segmenter.cpp', 'word_segmenter.cpp', 'codepoint_properties.cpp', 'codepoint_properties_data.cpp', 'codepoint_properties_names.cpp'], ['seg.cpp'])
    e = ctx.engine(p)
    size = int(e.call(F.fn_of(p, 'probe_w_size'), [], e.newstate())[0].ret.a[0])
    cl = S.classify(ucd.wb(), ucd.emoji()['Extended_Pictographic'])
    A = S.Step(ctx, e, 'probe_w_init', 'probe_w_step', size, cl)
    skip = EMPTY
    for c in cl:
        if c[0] in TR: skip = skip | c[-1]
    ncls = sorted({c[0] for c in cl if c[0] not in TR})
    ndom = {w: EMPTY for w in ncls}
    for c in cl:
        if c[0] in ndom: ndom[c[0]] = ndom[c[0]] | c[-1]
    n = X.Atom('n', 64, Dom([0], [1 << 40]))

    def extra(e, st):
        r = e.new_obj(st, 'array', X.scale(n.node, 4), 'input', 4, 'lookahead')
        return [G.P(r, G.Z64), n.node], (r, n, skip)
    w = site(ctx, e, A.fstep)
    starts = A.start()
    # domains of the state bytes: grown until the reachable states fit
    doms = [full8(nn, k, starts) for k, (_, nn) in enumerate(A.lay)]
    A.analyse(doms, extra)
    states = set()
    work = []

    def reach(t, h, exp):
        for v, d in zip(t, doms):
            if v not in d: raise X.Undecided('segmenter state leaves the analysed range')
        if (t, h, exp) not in states and (t, h, '?') not in states:
            states.add((t, h, exp)); work.append((t, h, exp))
            if len(states) > 60000: raise X.Undecided('segmenter state space does not stay small')
    initof = {}
    for t, i in starts:
        reach(t, ref_init(cl[i]), '?'); initof.setdefault(i, []).append(t)
    cnt = 0
    failed = set()
    looks = [None] + ncls
    while work:
        t, h, exp = work.pop()      # exp: what an earlier decision already saw as the next code point that is not skipped
        for i, b in enumerate(cl):
            tr = b[0] in TR
            if exp != '?' and not tr and b[0] != exp: continue
            now = [exp] if tr and exp != '?' else looks
            ref = {x: ref_step(h, b, x) for x in now}
            covered = set()
            for lk, v, nt, o, cd in A.next(t, i):
                opts = now if lk == 'any' else [x for x in now if (lk == 'none' if x is None else lk != 'none' and lk & ndom[x])]
                if v is None:
                    if opts: ctx.bad('word boundary', ctx.where(G.loc_of(*o.loc)), 'the step does not return before %s' % cname(b))
                    continue
                covered.update(opts)
                for x in opts:
                    wb, nh = ref[x]
                    if bool(v) != wb:
                        k = (h, cname(b), bool(v))
                        if k not in failed and len(failed) < 40:
                            failed.add(k)
                            ctx.bad('word boundary', w, 'before U+%04X (%s), after %s (skipping: %s, before that %s, RI parity %d), followed by %s: %s, UAX #29 says %s' % (
                                cd.s[0], cname(b), h[0], h[1], h[2], h[3], x or 'nothing', 'break' if v else 'no break', 'break' if wb else 'no break'))
                        continue
                    cnt += 1
                    nx = x if lk != 'any' else exp if tr else '?'
                    reach(nt, nh, nx)
                    if v:
                        for t2 in initof[i]: reach(t2, nh, nx)     # the iterator starts over after a boundary
            if set(now) - covered and not failed: raise X.Undecided('a lookahead case is not covered by any path')
    ctx.ok(cnt, 'decisions (state, history, class, lookahead) compared')
    ctx.counts['product states'] = len(states)
    ctx.counts['paths of the step'] = len(A.paths)
    ctx.counts['UCD classes'] = len(cl)
    for t, h, x in sorted(states, key=str)[:8]: ctx.sample({'state bytes': t, 'history': h, 'seen ahead': x})
    if len(cl) < 17 or cnt < 5000: raise F.Broken('too few decisions analysed')
    ctx.access_findings(e, 'memory access in bounds')
    ctx.absorb(e)


def full8(n, k, starts):
    vals = {t[k] for t, i in starts}
    if n > 1: return Dom([0], [(1 << (8 * n)) - 1])
    return Dom([0], [255])
