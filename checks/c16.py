"""C16: choice of the vector width"""
import re
import framework as F
import engine as G
import expr as X
from dom import Dom
from percp import site

NEED = {256: [('cpuid', 1, 'cx', 27, 'OSXSAVE'), ('cpuid', 1, 'cx', 28, 'AVX'), ('xgetbv', 0, 'ax', 1, 'XMM state enabled'), ('xgetbv', 0, 'ax', 2, 'YMM state enabled'),
              ('cpuid', 7, 'bx', 5, 'AVX2')],
        512: [('xgetbv', 0, 'ax', 5, 'opmask state enabled'), ('xgetbv', 0, 'ax', 6, 'upper ZMM state enabled'), ('xgetbv', 0, 'ax', 7, 'high ZMM state enabled'),
              ('cpuid', 7, 'bx', 16, 'AVX512F'), ('cpuid', 7, 'bx', 30, 'AVX512BW')]}
NEED[512] = NEED[256] + NEED[512]
# what the compiler may use per unit, given its flags
CAP = {'avx2': 256, 'avx': 256, 'fma': 256, 'avx512f': 512, 'avx512bw': 512, 'avx512vl': 0, 'avx512dq': 0, 'avx512bitalg': 0, 'avx512vbmi': 0, 'avx512vbmi2': 0, 'avx512cd': 0}
DISP = [('scan.cpp', 'unicode::detail::scan_for_text_ascii(', 'scan_for_text_ascii'),
        ('convert.cpp', 'unicode::detail::convert_utf8_to_utf32(', 'convert_utf8_to_utf32'),
        ('convert.cpp', 'unicode::detail::convert_utf8_to_utf16(', 'convert_utf8_to_utf16')]
UNITS = ['scan.cpp', 'scan256.cpp', 'scan512.cpp', 'convert.cpp', 'convert256.cpp', 'convert512.cpp', 'simd_detector.cpp']


def fn(p, name):
    f = next((g for m in p.mods for n, g in m.funcs.items() if g.defined and p.dem(n).startswith(name)), None)
    if f is None: raise F.Broken(name + ' is gone')
    return f


def one(st, b):
    d = st.dom(next(iter(b.atoms))) if b.op == 'v' else None
    return d is not None and d.n == 1 and int(d.s[0]) == 1


def bit(st, cpu, kind, leaf, reg, i):
    c = cpu.get((kind, leaf, 0))
    return c is not None and one(st, G.maskbits(c[reg])[i])


class At:
    def __init__(self, doms): self.doms = doms
    def dom(self, a): return self.doms.get(a, a.dom)


def feat(f):
    t = str(f.attr('target-features') or '').split(',')
    return 512 if '+avx512f' in t else 256 if '+avx' in t or '+avx2' in t else 128


def detector(ctx):
    p = ctx.program(['simd_detector.cpp'])
    f = fn(p, 'unicode::detail::max_simd_size(')
    e = ctx.engine(p)
    w = site(ctx, e, f)
    seen = set()
    for o in e.call(f, [], e.newstate()):
        if o.kind != 'ret': raise X.Undecided('detection does not return')
        st = o.st
        r = e.subst_singles(st, e.asint(o.ret))
        if r.op != 'c': raise X.Undecided('width is not decided on a path')
        r = int(r.a[0])
        seen.add(r)
        if st.opaque: raise X.Undecided('undetermined branch')
        if not ctx.check(r in (128, 256, 512), 'a known width', w, 'selects width %d' % r, 'path'): continue
        cpu = st.x.get('cpu', {})
        for kind, leaf, reg, i, what in NEED.get(r, []):
            ctx.check(bit(st, cpu, kind, leaf, reg, i), 'width %d needs the processor and the system to support it' % r, w, 'a path selects width %d without having found %s (%s %d, %s bit %d) set' % (r, what, kind, leaf, reg, i), 'feature tested')
        if r > 128:
            d = st.dom(next(iter(cpu[('cpuid', 0, 0)]['ax'].atoms))) if ('cpuid', 0, 0) in cpu else None
            ok = d is not None and all(X.sgn(int(s), 32) >= 7 for s in d.s) and all(X.sgn(int(s), 32) >= 7 for s in d.e)
            ctx.check(ok, 'leaf 7 is only trusted when it exists', w, 'a path selects width %d although the highest leaf may be below 7' % r, 'feature tested')
        for ev in st.eventlist():
            if ev[0] != 'cpu' or ev[1][0] != 'xgetbv': continue
            ctx.check(ev[1] == ('xgetbv', 0, 0) and bit(At(ev[3]), ev[2], 'cpuid', 1, 'cx', 27), 'XGETBV only with OSXSAVE', w, 'XGETBV is executed without OSXSAVE being known to be set', 'xgetbv')
    if not {128, 256} <= seen: ctx.note('widths never selected: %s' % sorted({128, 256, 512} - seen))
    ctx.access_findings(e)
    ctx.absorb(e)


def wide(p):
    """functions that exist only as code for a wider vector unit"""
    w = {}
    for m in p.mods:
        for n, f in m.funcs.items():
            if f.defined: w[n] = min(w.get(n, 512), feat(f))
    return {n: k for n, k in w.items() if k > 128}


def dispatch(ctx, wn, unit, name, base):
    p = ctx.program([unit])
    f = fn(p, name)
    size = X.Atom('width', 64, Dom.of([128, 256, 512]))     # what the detection can return, see detector()

    def impl(e, st, fr, q, a):
        c = q.x['c'][1]
        st.event('impl', wn.get(c, 128), tuple(a), e.p.dem(c), st.dom(size))
        return X.Atom('written', 64).node
    e = ctx.engine(p, [(r'unicode::detail::max_simd_size', lambda e, st, fr, q, a: size.node), (r'(unsigned long )?unicode::detail::%s_' % base, impl)] + [(re.escape(p.dem(n)) + '$', impl) for n in wn])
    st = e.newstate()
    args = []
    for i, (ty, _, _) in enumerate(f.params):
        args.append(G.P(e.new_obj(st, 'array', X.Atom('n%d' % i, 64).node, 'input', 1, 'arg%d' % i), G.Z64) if ty == 'ptr' else X.Atom('a%d' % i, 64).node)
    w = site(ctx, e, f)
    for m in p.mods:
        for g in m.globals:
            # what an earlier call has stored; the first call is followed as well
            if g.startswith('@_ZZN') and f.name[3:] in g: 
                k = p.globalobj(m, g)[0]
                oid = ('g',) + k if isinstance(k, tuple) else ('g', k)
                if e.gobj(st, oid).size.a[0] == 8: e.rawstore(st, oid, G.Z64, 8, size.node)
    n = 0
    for o in e.call(f, args, st):
        if o.kind != 'ret': raise X.Undecided('dispatcher does not return')
        if o.st.opaque: raise X.Undecided('undetermined branch')
        n += 1
        ev = [x for x in o.st.eventlist() if x[0] == 'impl']
        if not ctx.check(len(ev) == 1, 'one implementation runs', w, '%d implementations run on one path' % len(ev), 'dispatch'): continue
        _, k, a, nm, _ = ev[0]
        ctx.check(tuple(map(same, a)) == tuple(map(same, args)), 'arguments reach the implementation unchanged', w, '%s is called with other arguments than the caller gave' % nm.split('(')[0], 'dispatch')
        r = e.asint(o.ret)
        ctx.check(r.op == 'v' and next(iter(r.atoms)).name == 'written', 'result is handed back unchanged', w, 'returns %s' % X.show(r), 'dispatch')
        d = o.st.dom(size)
        if k > 128:
            ok = all(int(x) >= k for x in d.points())
            ctx.check(ok, 'wide code only on a processor that has it', w, '%s is called although the width found may be smaller (%s)' % (nm.split('(')[0], d.show(hexa=False)), 'dispatch')
    if n < 2: raise F.Broken('dispatcher %s has one path' % name)
    ctx.absorb(e)
    return f.name


def same(v):
    return (v.o, v.off.id) if isinstance(v, G.P) else v.id


def run(ctx):
    ctx.rule('Every path of the width detection that returns 256 or 512 must have tested, and found set, each feature bit of the processor and each state component enabled by the system that code compiled for that width needs, '
             'and XGETBV may only run once OSXSAVE is known. Every path of a dispatcher must call exactly one implementation, with the caller\'s arguments and result, and a wide one only when the width found is at least as large. '
             'No other function of the library may call a wide implementation, and no unit outside the wide ones may be compiled with wide instructions.')
    detector(ctx)
    p = ctx.program(all=True)
    wn = wide(p)
    if len(wn) < 6: raise F.Broken('wide implementations are gone: %r' % wn)
    disp = [dispatch(ctx, wn, *d) for d in DISP]
    # no other way in
    n = 0
    for m in p.mods:
        for name, f in m.funcs.items():
            if not f.defined: continue
            for b, i in f.allinsts():
                if not i.ops and i.op not in ('call', 'invoke'): continue
                refs = [o[1] for o in list(i.ops) + ([i.x['callee']] if i.op in ('call', 'invoke') else []) if isinstance(o, tuple) and o[0] == 'glb' and o[1] in wn]
                for r in refs:
                    n += 1
                    ok = name in disp or wn.get(name, 128) >= wn[r]
                    ctx.check(ok, 'wide code is entered only through a dispatcher', ctx.where(G.loc_of(f, i)), '%s refers to %s' % (p.dem(name).split('(')[0], p.dem(r).split('(')[0]), 'reference')
    if n < 6: raise F.Broken('no references to wide implementations found')
    for m in p.mods:
        u = m.path.rsplit('/', 1)[-1]
        lim = 512 if '512' in u else 256 if '256' in u else 128
        for name, f in m.funcs.items():
            if not f.defined: continue
            bad = [x for x in str(f.attr('target-features') or '').split(',') if x[1:].startswith('avx') and x[0] == '+' and not (lim >= 256 and x in ('+avx', '+avx2')) and not (lim == 512 and x in ('+avx512f', '+avx512bw', '+avx512cd'))]
            ctx.check(not bad, 'units use no wider instructions than they are selected for', '%s (%s)' % (u, p.dem(name)), 'is compiled with %s' % ','.join(bad), 'function')
    for u, fl in sorted(ctx.build().flags.items()):
        for x in fl:
            if not x.startswith('-m'): continue
            c = CAP.get(x[2:])
            if c is None and x[2:].startswith(('sse', 'ssse', 'popcnt', 'no-')): continue
            lim = 512 if '512' in u else 256 if '256' in u else 128
            ctx.check(c is not None and 0 < c <= lim, 'units are compiled for the width they are selected for', 'src/libunicode/CMakeLists.txt:1 (%s)' % u, '%s is compiled with %s, which the width detection does not establish' % (u, x), 'compile flag')
