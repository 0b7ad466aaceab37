"""C04: the stand-alone character queries agree with the UCD for every code point"""
import re
import numpy as np
import ucd
import framework as F
import engine as G
import expr as X
from percp import enums, compare, site, beyond


def blockname(b):
    return 'Unspecified' if b is None else re.sub(r'[^A-Za-z0-9]', '_', b)


EAW = {'Ambiguous': 'Ambiguous', 'Fullwidth': 'FullWidth', 'Halfwidth': 'HalfWidth', 'Neutral': 'Neutral', 'Narrow': 'Narrow', 'Wide': 'Wide', None: 'Unspecified'}


def plane(c):
    return {0: 'Basic_Multilingual_Plane', 1: 'Supplementary_Multilingual_Plane', 2: 'Supplementary_Ideographic_Plane', 3: 'Tertiary_Ideographic_Plane',
            14: 'Supplementary_Special_purpose_Plane', 15: 'Supplementary_Private_Use_Area_Plane', 16: 'Supplementary_Private_Use_Area_Plane'}.get(c >> 16, 'Unassigned')


def run(ctx):
    ctx.rule('Each query is reduced by abstract interpretation (partitioning the code point space at every comparison of the range searches) '
             'to its transfer function over 0..10FFFF, which is compared with the published data at every code point.')
    p = ctx.program(['ucd.cpp', 'codepoint_properties.cpp', 'codepoint_properties_data.cpp', 'codepoint_properties_names.cpp'], ['props.cpp'])
    e = ctx.engine(p)
    en = enums(p)
    r = 'query agrees with the UCD'
    cmp = lambda n, w, names=None: compare(ctx, e, 'probe_' + n, w, r, names)
    cmp('u_plane', [plane(c) for c in range(ucd.N)], en['Plane'])
    cmp('u_gc', ucd.gc(), en['General_Category'])
    cmp('u_script', ucd.script(), en['Script'])
    cmp('u_block', [blockname(b) for b in ucd.block()], en['Block'])
    cmp('u_gcb', ['Undefined' if x == 'Other' else x for x in ucd.gcb()], en['Grapheme_Cluster_Break'])   # 'Undefined': not listed
    cmp('u_eaw', [EAW[x] for x in ucd.eaw_listed()], en['EastAsianWidth'])
    em = ucd.emoji()
    for k in ('Emoji', 'Emoji_Component', 'Emoji_Modifier', 'Emoji_Modifier_Base', 'Emoji_Presentation'):
        cmp('u_is_' + k.lower(), em[k])
    cmp('u_is_extended_pictographic', em['Extended_Pictographic'])
    cmp('u_is_mirrored', ucd.mirrored())
    g = ucd.mirror_glyph()
    cmp('u_mirror_glyph', np.array([g.get(c, c) for c in range(ucd.N)]))
    core = ucd.core()
    n = 0
    for v, k in sorted(en['Core_Property'].items()):
        cmp('core_' + k, core[k]); n += 1
    gcs = np.array(ucd.gc())
    for v, k in sorted(en['General_Category'].items()):
        if k == 'Unspecified': continue
        cmp('gc_' + k, gcs == k); n += 1
    if n < 40: raise F.Broken('only %d set queries found' % n)
    # script extensions: presence, size and the listed scripts
    scx = ucd.scx()
    sn = en['Script']
    cmp('scx_has', np.array([c in scx for c in range(ucd.N)]))
    cmp('scx_size', np.array([len(scx.get(c, ())) for c in range(ucd.N)]))
    f = F.fn_of(p, 'probe_scx_data')
    a = F.Atom('cp', 32, F.ALLCP)
    outs = e.call(f, [a.node], e.newstate())
    for o in outs:
        for lo, hi in zip(o.st.dom(a).s, o.st.dom(a).e):
            for c in range(lo, hi + 1):
                if c not in scx: continue
                want = scx[c]
                ob = e.gobj(o.st, o.ret.o) if isinstance(o.ret, G.P) and o.ret.o else None
                got = None
                if ob is not None:
                    off = X.values(o.ret.off, a, np.array([c], np.uint64))[0] if o.ret.off.atoms else o.ret.off.a[0]
                    got = [e.rawload(o.st, ob, F.C(int(off) + i, 64), 1) for i in range(len(want))]
                    got = [sn.get(x.a[0]) for x in got]
                ctx.check(got is not None and sorted(got) == sorted(want), r, site(ctx, e, f), 'script_extensions(U+%04X) lists %s, published %s' % (c, got, want), 'script extension lists', key='scx')
    beyond(ctx, e, ['probe_u_gc', 'probe_u_script', 'probe_u_block', 'probe_u_gcb', 'probe_u_eaw', 'probe_u_plane', 'probe_u_is_emoji', 'probe_u_is_mirrored', 'probe_u_mirror_glyph', 'probe_core_Alphabetic', 'probe_scx_has'])
    ctx.access_findings(e, 'range table access in bounds')
    ctx.absorb(e)
