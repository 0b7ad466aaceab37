"""C06: the column width of every code point"""
import numpy as np
import ucd
import framework as F
from percp import compare


def widths():
    gc = ucd.gc(); ea = ucd.eaw_listed(); ep = ucd.emoji()['Emoji_Presentation']; gcb = ucd.gcb(); hst = ucd.hst()
    z = {'Control', 'Enclosing_Mark', 'Format', 'Line_Separator', 'Nonspacing_Mark', 'Paragraph_Separator', 'Spacing_Mark', 'Surrogate'}
    w = np.ones(ucd.N, np.uint8)
    for c in range(ucd.N):
        if gc[c] in z: w[c] = 1 if gc[c] == 'Format' and gcb[c] == 'Prepend' else 0
        elif ep[c] or ea[c] in ('Wide', 'Fullwidth'): w[c] = 2
        if hst[c] in ('Vowel_Jamo', 'Trailing_Jamo'): w[c] = 0
    w[0xAD] = 1
    return w


def run(ctx):
    ctx.rule('width() is reduced to its transfer function over 0..10FFFF and compared with the width rule (zero for invisible categories except '
             'rendered prepended marks and the soft hyphen, zero for conjoining vowel and trailing jamo, two for wide and emoji presentation, else one) evaluated on the published data.')
    p = ctx.program(['width.cpp', 'codepoint_properties.cpp', 'codepoint_properties_data.cpp', 'codepoint_properties_names.cpp'], ['props.cpp'])
    e = ctx.engine(p)
    w = widths()
    compare(ctx, e, 'probe_width', w, 'width of every code point')
    compare(ctx, e, 'probe_p_width', w, 'width recorded for every code point')
    ctx.access_findings(e, 'table access in bounds')
    ctx.absorb(e)
