"""C25: textual form of every enumeration value"""
import framework as F
import engine as G
import expr as X
from dom import Dom
from percp import enums, site

TYPES = ('Plane Age Bidi_Class Bidi_Paired_Bracket_Type Canonical_Combining_Class Decomposition_Type East_Asian_Width Grapheme_Cluster_Break Hangul_Syllable_Type Indic_Conjunct_Break '
         'Indic_Positional_Category Indic_Syllabic_Category Jamo_Short_Name Joining_Group Joining_Type Line_Break NFC_Quick_Check NFKC_Quick_Check Numeric_Type Sentence_Break '
         'Vertical_Orientation Word_Break Core_Property General_Category Script Block EastAsianWidth').split()
ONLYOS = ['PresentationStyle', 'EmojiSegmentationCategory']


def text(e, st, v, n=None):
    """text a pointer designates, when it designates constant bytes"""
    if not isinstance(v, G.P): raise X.Undecided('name is not a pointer to constant text: %r' % (v,))
    out = b''
    while n is None or len(out) < n:
        b = e.rawload(st, st.mem.get(v.o) or e.gobj(st, v.o), X.add(v.off, X.C(len(out), 64)), 1)
        b = e.subst_singles(st, e.asint(b))
        if b.atoms: raise X.Undecided('name is not constant text')
        c = int(b.a[0])
        if n is None and c == 0: break
        out += bytes([c])
        if len(out) > 400: raise X.Undecided('unterminated name')
    return out.decode('latin-1')


def run(ctx):
    ctx.rule('Every value of every public enumeration is put through its stream insertion operator and its formatter in the analysed program; the text handed to the stream or to the formatter must be exactly '
             'the name of that enumerator as declared (read from the debug information). Values that are no enumerator must not lead outside the tables.')
    p = ctx.program([], ['names.cpp'])
    en = enums(p)
    got = []

    def rec(t):
        got.append(t)

    def os_cstr(e, st, fr, i, a):
        st.event('text', text(e, st, a[1])); return a[0]

    def os_insert(e, st, fr, i, a):
        st.event('text', num(e, st, a[1], a[2])); return a[0]

    def num(e, st, ptr, n):
        n = e.subst_singles(st, e.asint(n))
        if n.atoms: raise X.Undecided('length of a name is not constant')
        return text(e, st, ptr, int(n.a[0]))

    def os_num(e, st, fr, i, a):
        st.event('text', '#'); return a[0]

    def fmt(e, st, fr, i, a):
        # (this, string_view {size, pointer}, context) -> iterator
        st.event('text', num(e, st, a[2], a[1]))
        return G.UNDEF

    def os_char(e, st, fr, i, a):
        v = e.subst_singles(st, e.asint(a[1]))
        st.event('text', '?' if v.atoms else chr(int(v.a[0]))); return a[0]
    models = [(r'std::basic_ostream<char.*>& std::operator<< <std::char_traits<char> ?>\(std::basic_ostream<char.*>&, char const\*\)$', os_cstr),
              (r'std::basic_ostream<char.*>& std::operator<< <std::char_traits<char> ?>\(std::basic_ostream<char.*>&, char\)$', os_char),
              (r'std::__ostream_insert<char', os_insert),
              (r'std::operator<< <char, std::char_traits<char> ?>\(std::basic_ostream<char.*basic_string_view', lambda e, st, fr, i, a: (st.event('text', num(e, st, a[2], a[1])), a[0])[1]),
              (r'std::basic_ostream<char.*>::operator<<\((unsigned )?(int|long|short)\)$', os_num),
              (r'.*std::__format::__formatter_str<char>::format<|.*std::formatter<std::basic_string_view<char.*>::format<', fmt)]
    n = 0
    for kind in ('os', 'fmt'):
        rule = 'stream insertion writes the enumerator\'s name' if kind == 'os' else 'formatter writes the enumerator\'s name'
        for t in TYPES + (ONLYOS if kind == 'os' else []):
            ens = en.get(t)
            if not ens: raise F.Broken('enumeration %s not found' % t)
            e = ctx.engine(p, models)
            f = F.fn_of(p, 'probe_%s_%s' % (kind, t))
            k = 1
            w = f.params[k][0][1]
            for val, name in ens.items():
                outs, _ = call(e, f, kind, X.C(val & (1 << w) - 1, w))
                for o in outs:
                    txt = [x[1] for x in o.st.eventlist() if x[0] == 'text']
                    good = o.kind == 'ret' and ''.join(txt) == name
                    ctx.check(good, rule, place(ctx, e, p, t, kind, f), '%s::%s is written as %s' % (t, name, repr(''.join(txt)) if o.kind == 'ret' else 'nothing (does not return)'), 'names compared')
                    n += 1
            a = X.Atom('v', w, Dom([0], [(1 << w) - 1]) - Dom(sorted(v & (1 << w) - 1 for v in ens), sorted(v & (1 << w) - 1 for v in ens)))
            outs, _ = call(e, f, kind, a.node)
            for o in outs:
                ctx.check(o.kind == 'ret', 'values without a name', place(ctx, e, p, t, kind, f), '%s value %s: does not return' % (t, o.st.dom(a).show()), 'values without a name')
            ctx.access_findings(e)
            ctx.absorb(e)
    ctx.counts['enumerations'] = len(TYPES) + len(ONLYOS)
    if n < 1900: raise F.Broken('only %d names compared' % n)


def call(e, f, kind, v):
    st = e.newstate()
    first = e.new_obj(st, 'fixed', X.C(512, 64), 'input', name='stream' if kind == 'os' else 'formatter')
    args = [G.P(first, G.Z64), v]
    if kind == 'fmt': args.append(G.P(e.new_obj(st, 'fixed', X.C(40, 64), 'input', name='context'), G.Z64))
    return e.call(f, args, st), st


def place(ctx, e, p, t, kind, f):
    want = 'operator<<(std::' if kind == 'os' else 'std::formatter<unicode::%s,' % t
    for m in p.mods:
        for n, g in m.funcs.items():
            if not g.defined: continue
            d = p.dem(n)
            if (kind == 'os' and d.startswith('unicode::operator<<(') and 'unicode::%s)' % t in d) or (kind == 'fmt' and 'std::formatter<unicode::%s' % t in d and '::format<' in d):
                for b, i in g.allinsts():
                    l = g.mod.loc(i.dbg) if i.dbg else None
                    if l: return ctx.where(l)
    return site(ctx, e, f)
