"""C03: the code point property record agrees with the UCD for every code point"""
import numpy as np
import ucd
import framework as F
from percp import enums, compare, beyond


def esc_ref():
    em = ucd.emoji()
    gcb = ucd.gcb()
    out = ['Invalid'] * ucd.N
    cand = np.flatnonzero(em['Emoji'] | em['Emoji_Modifier'] | em['Emoji_Modifier_Base'] | em['Emoji_Presentation'])
    for c in list(cand) + list(range(0x1F1E6, 0x1F200)):
        c = int(c)
        if em['Emoji_Modifier_Base'][c]: v = 'EmojiModifierBase'
        elif em['Emoji_Modifier'][c]: v = 'EmojiModifier'
        elif gcb[c] == 'Regional_Indicator': v = 'RegionalIndicator'
        elif 0x30 <= c <= 0x39 or c in (0x23, 0x2A): v = 'KeyCapBase'
        elif em['Emoji_Presentation'][c]: v = 'EmojiEmojiPresentation'
        else: v = 'EmojiTextPresentation'
        out[c] = v
    for c, v in ((0x20E3, 'CombiningEnclosingKeyCap'), (0x20E0, 'CombiningEnclosingCircleBackslash'), (0x200D, 'ZWJ'), (0xFE0E, 'VS15'),
                 (0xFE0F, 'VS16'), (0x1F3F4, 'TagBase'), (0xE007F, 'TagTerm')): out[c] = v
    for c in list(range(0xE0030, 0xE003A)) + list(range(0xE0061, 0xE007B)): out[c] = 'TagSequence'
    return out


def agename(a):
    return 'Unassigned' if a is None else 'V' + a.replace('.', '_')


def run(ctx):
    ctx.rule('The lookup of every field of the per-code-point record is reduced, by abstract interpretation of the compiled table '
             'access on the regenerated tables, to its transfer function over 0..10FFFF; the function is compared with the published data at every code point.')
    p = ctx.program(['codepoint_properties.cpp', 'codepoint_properties_data.cpp', 'codepoint_properties_names.cpp'], ['props.cpp'])
    e = ctx.engine(p)
    en = enums(p)
    r = 'record agrees with the UCD'
    cmp = lambda n, w, names=None: compare(ctx, e, 'probe_p_' + n, w, r, names)
    cmp('script', ucd.script(), en['Script'])
    cmp('gcb', ucd.gcb(), en['Grapheme_Cluster_Break'])
    cmp('eaw', ucd.eaw_listed(), en['East_Asian_Width'])
    cmp('gc', ucd.gc(), en['General_Category'])
    cmp('esc', esc_ref(), en['EmojiSegmentationCategory'])
    cmp('age', [agename(a) for a in ucd.age()], en['Age'])
    cmp('incb', ucd.incb(), en['Indic_Conjunct_Break'])
    cmp('wb', ucd.wb(), en['Word_Break'])
    em = ucd.emoji()
    for n, k in (('is_emoji', 'Emoji'), ('is_emoji_presentation', 'Emoji_Presentation'), ('is_emoji_component', 'Emoji_Component'),
                 ('is_emoji_modifier', 'Emoji_Modifier'), ('is_emoji_modifier_base', 'Emoji_Modifier_Base'),
                 ('is_extended_pictographic', 'Extended_Pictographic')):
        cmp(n, em[k])
    cmp('is_core_grapheme_extend', ucd.core()['Grapheme_Extend'])
    cmp('is_virama', np.array([x in ('Virama', 'Invisible_Stacker') for x in ucd.insc()]))
    vb = np.zeros(ucd.N, bool); vb[list(ucd.emoji_variation_bases())] = True
    cmp('is_emoji_variation_base', vb)
    beyond(ctx, e, ['probe_p_gc', 'probe_p_script', 'probe_p_wb', 'probe_p_gcb', 'probe_p_is_emoji'])
    ctx.access_findings(e, 'table access in bounds')
    ctx.absorb(e)
