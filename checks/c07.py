"""C07: per-code-point case mappings and case predicates"""
import numpy as np
import ucd
import framework as F
from percp import beyond, compare, comparelist


def tables():
    su, sl, stt = ucd.simple_upper(), ucd.simple_lower(), ucd.simple_title()
    sfold, ffold = ucd.casefold()
    sf = np.arange(ucd.N, dtype=np.uint32)
    for c, m in sfold.items(): sf[c] = m
    sp, _ = ucd.specialcasing()
    full = []
    for col, simple in ((2, su), (0, sl), (1, stt)):
        d = {}
        for c in np.flatnonzero(simple != np.arange(ucd.N)): d[int(c)] = [int(simple[c])]
        for c, m in sp.items():
            if m[col] != [c]: d[c] = m[col]
            else: d.pop(c, None)
        full.append(d)
    ff = {c: [int(sf[c])] for c in np.flatnonzero(sf != np.arange(ucd.N)).tolist()}
    for c, m in ffold.items():
        if m != [c]: ff[c] = m
    return su, sl, stt, sf, full[0], full[1], full[2], ff


def run(ctx):
    ctx.rule('Each case mapping and case predicate is reduced to its transfer function over all code points 0..10FFFF (every table lookup becomes a partition '
             'of the code point domain) and compared with UnicodeData.txt, SpecialCasing.txt (unconditional) and CaseFolding.txt (C+S, C+F).')
    p = ctx.program(['case_mapping.cpp', 'codepoint_properties.cpp', 'codepoint_properties_data.cpp', 'ucd.cpp'], ['casenorm.cpp'])
    e = ctx.engine(p)
    su, sl, stt, sf, fu, fl, ft, ff = tables()
    for n, w in (('s_upper', su), ('s_lower', sl), ('s_title', stt), ('s_fold', sf)):
        compare(ctx, e, 'probe_' + n, w, 'simple case mapping of every code point')
    for n, w in (('f_upper', fu), ('f_lower', fl), ('f_title', ft), ('f_fold', ff)):
        comparelist(ctx, e, 'probe_' + n, w, 'full case mapping of every code point')
    for n, w in (('cw_upper', fu), ('cw_lower', fl), ('cw_title', ft), ('cw_fold', ff)):
        b = np.zeros(ucd.N, np.uint8)
        b[list(w)] = 1
        compare(ctx, e, 'probe_' + n, b, 'changes-when predicate agrees with the mapping')
    gc = ucd.gc()
    cased = np.array([x in ('Uppercase_Letter', 'Lowercase_Letter', 'Titlecase_Letter') for x in gc])
    compare(ctx, e, 'probe_is_cased', cased, 'cased predicate')
    compare(ctx, e, 'probe_is_case_ignorable', ucd.core()['Case_Ignorable'], 'case-ignorable predicate')
    beyond(ctx, e, ['probe_' + n for n in ('s_upper', 's_lower', 's_title', 's_fold', 'f_upper', 'f_lower', 'f_title', 'f_fold', 'is_cased', 'is_case_ignorable')])
    ctx.access_findings(e, 'table access in bounds')
    ctx.absorb(e)
