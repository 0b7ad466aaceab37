"""Independent reader of the Unicode Character Database (the oracle).  Shares nothing with /repo's table generator:
every property is an array over the code points 0..10FFFF built straight from the published files."""
import re
import numpy as np

UCD = '/usr/share/unicode'
N = 0x110000


def lines(name):
    for l in open(UCD + '/' + name, encoding='utf-8'):
        yield l


def rows(name):
    """(first, last, [fields after the code]) of each data line"""
    for l in lines(name):
        l = l.split('#', 1)[0].strip()
        if not l: continue
        p = [x.strip() for x in l.split(';')]
        a, _, b = p[0].partition('..')
        yield int(a, 16), int(b or a, 16), p[1:]


def fill(name, default, col=0, pick=None, missing=True):
    out = [default] * N
    if missing:
        for l in lines(name):
            m = re.match(r'# @missing: ([0-9A-F]+)\.\.([0-9A-F]+);\s*(.+)', l)
            if m:
                v = m.group(3).split(';')[col].strip()
                for c in range(int(m.group(1), 16), int(m.group(2), 16) + 1): out[c] = v
    for a, b, f in rows(name):
        if pick is not None and not pick(f): continue
        v = f[col]
        for c in range(a, b + 1): out[c] = v
    return out


_pva = None


def pva(prop):
    """short or long value name -> long name"""
    global _pva
    if _pva is None:
        _pva = {}
        for l in lines('PropertyValueAliases.txt'):
            l = l.split('#', 1)[0].strip()
            if not l: continue
            p = [x.strip() for x in l.split(';')]
            if p[0] == 'ccc':
                p = [p[0], p[2], p[3]] 
            d = _pva.setdefault(p[0], {})
            for x in p[1:]: d[x] = p[2]
    return _pva[prop]


def lazy(fn):
    c = []

    def g():
        if not c: c.append(fn())
        return c[0]
    g.__name__ = fn.__name__
    return g


def mapped(xs, table):
    cache = {}
    out = []
    for x in xs:
        v = cache.get(x)
        if v is None: v = cache[x] = table.get(x, x)
        out.append(v)
    return out


@lazy
def unicodedata():
    """cp -> fields for every explicit entry; ranges -> (first,last,fields)"""
    d = {}
    rng = []
    first = None
    for l in lines('UnicodeData.txt'):
        p = l.rstrip('\n').split(';')
        c = int(p[0], 16)
        if p[1].endswith(', First>'): first = c
        elif p[1].endswith(', Last>'): rng.append((first, c, p[1:]))
        else: d[c] = p[1:]
    return d, rng


def udcol(col, default, conv=lambda x: x):
    d, rng = unicodedata()
    out = [default] * N
    for c, f in d.items():
        if f[col - 1] != '': out[c] = conv(f[col - 1])
    for a, b, f in rng:
        if f[col - 1] != '':
            v = conv(f[col - 1])
            for c in range(a, b + 1): out[c] = v
    return out


@lazy
def gc(): return mapped(udcol(2, 'Cn'), pva('gc'))


@lazy
def ccc(): return np.array(udcol(3, 0, int), np.uint8)


@lazy
def mirrored(): return np.array(udcol(9, 'N')) == 'Y'


@lazy
def simple_upper(): return np.array([x if x is not None else i for i, x in enumerate(udcol(12, None, lambda x: int(x, 16)))], np.uint32)


@lazy
def simple_lower(): return np.array([x if x is not None else i for i, x in enumerate(udcol(13, None, lambda x: int(x, 16)))], np.uint32)


@lazy
def simple_title():
    # an empty title mapping field means: same as the upper case mapping
    u = simple_upper()
    return np.array([x if x is not None else u[i] for i, x in enumerate(udcol(14, None, lambda x: int(x, 16)))], np.uint32)


@lazy
def decomp():
    """cp -> (type or '' for canonical, [cps]) one-step mapping"""
    out = {}
    d, _ = unicodedata()
    for c, f in d.items():
        m = f[4]
        if m:
            t = ''
            if m[0] == '<': t, m = m[1:].split('> ')
            out[c] = (t, [int(x, 16) for x in m.split()])
    return out


SB, LB, VB, TB, LC, VC, TC = 0xAC00, 0x1100, 0x1161, 0x11A7, 19, 21, 28


def fulldecomp(c, compat):
    if SB <= c < SB + LC * VC * TC:
        s = c - SB
        r = [LB + s // (VC * TC), VB + s % (VC * TC) // TC]
        if s % TC: r.append(TB + s % TC)
        return r
    m = decomp().get(c)
    if m is None or (m[0] and not compat): return [c]
    return [y for x in m[1] for y in fulldecomp(x, compat)]


@lazy
def comp_exclusion():
    s = set()
    for a, b, f in rows('DerivedNormalizationProps.txt'):
        if f[0] == 'Full_Composition_Exclusion': s.update(range(a, b + 1))
    return s


@lazy
def compositions():
    """(a, b) -> primary composite, without Hangul"""
    ex = comp_exclusion()
    return {tuple(m): c for c, (t, m) in decomp().items() if not t and len(m) == 2 and c not in ex}


@lazy
def quickcheck():
    out = {k: np.zeros(N, np.uint8) for k in ('NFC_QC', 'NFD_QC', 'NFKC_QC', 'NFKD_QC')}   # 0 yes 1 no 2 maybe
    for a, b, f in rows('DerivedNormalizationProps.txt'):
        if f[0] in out: out[f[0]][a:b + 1] = {'N': 1, 'M': 2, 'Y': 0}[f[1]]
    return out


@lazy
def casefold():
    """(simple: cp->cp (C+S), full: cp->[cps] (C+F))"""
    s, fl = {}, {}
    for a, b, f in rows('CaseFolding.txt'):
        m = [int(x, 16) for x in f[1].split()]
        if f[0] in 'CS': s[a] = m[0]
        if f[0] in 'CF': fl[a] = m
    return s, fl


@lazy
def specialcasing():
    """unconditional: cp -> (lower, title, upper); conditional entries: list"""
    u, c = {}, []
    for a, b, f in rows('SpecialCasing.txt'):
        m = [[int(x, 16) for x in y.split()] for y in f[:3]]
        if len(f) > 3 and f[3]: c.append((a, m, f[3]))
        else: u[a] = m
    return u, c


@lazy
def script(): return mapped(fill('Scripts.txt', 'Unknown', missing=False), pva('sc'))


@lazy
def scx():
    t = pva('sc')
    d = {}
    for a, b, f in rows('ScriptExtensions.txt'):
        v = [t[x] for x in f[0].split()]
        for c in range(a, b + 1): d[c] = v
    return d


@lazy
def block(): return fill('Blocks.txt', None, missing=False)


@lazy
def age(): return fill('DerivedAge.txt', None, missing=False)


@lazy
def eaw(): return mapped(fill('EastAsianWidth.txt', 'N', missing=False), pva('ea'))


def eaw_missing(): return mapped(fill('EastAsianWidth.txt', 'N'), pva('ea'))


@lazy
def eaw_listed(): return mapped(fill('EastAsianWidth.txt', None, missing=False), pva('ea'))


@lazy
def gcb(): return mapped(fill('auxiliary/GraphemeBreakProperty.txt', 'Other', missing=False), pva('GCB'))


@lazy
def wb(): return mapped(fill('auxiliary/WordBreakProperty.txt', 'Other', missing=False), pva('WB'))


@lazy
def incb():
    out = ['None'] * N
    for a, b, f in rows('DerivedCoreProperties.txt'):
        if f[0] == 'InCB':
            for c in range(a, b + 1): out[c] = f[1]
    return out


@lazy
def insc(): return fill('IndicSyllabicCategory.txt', 'Other', missing=False)


def boolset(name):
    out = {}
    for a, b, f in rows(name):
        if len(f) != 1: continue
        out.setdefault(f[0], np.zeros(N, bool))[a:b + 1] = True
    return out


@lazy
def emoji(): return boolset('emoji/emoji-data.txt')


@lazy
def core(): return boolset('DerivedCoreProperties.txt')


@lazy
def proplist(): return boolset('PropList.txt')


@lazy
def mirror_glyph(): return {a: int(f[0], 16) for a, b, f in rows('BidiMirroring.txt')}


@lazy
def emoji_variation_bases():
    s = set()
    for l in lines('emoji/emoji-variation-sequences.txt'):
        l = l.split('#')[0].strip()
        if l: s.add(int(l.split()[0], 16))
    return s


@lazy
def hst(): return mapped(fill('HangulSyllableType.txt', 'NA', missing=False), pva('hst'))


@lazy
def names():
    out = [''] * N
    for a, b, f in rows('extracted/DerivedName.txt'):
        n = f[0]
        for c in range(a, b + 1): out[c] = n      # a range entry carries its published pattern (NAME-*)
    return out
