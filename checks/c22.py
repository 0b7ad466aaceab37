"""C22: no hidden shared state"""
import re
import framework as F
import engine as G
import effects

# functions of the C and C++ libraries whose result depends on, or that change, process-wide state
STATEFUL = re.compile(r'^(s?rand(om)?(_r)?|drand48|[lme]rand48|strtok|setlocale|localeconv|uselocale|getenv|secure_getenv|setenv|putenv|unsetenv|asctime|ctime|localtime|gmtime|time|clock|clock_gettime|'
                      r'gettimeofday|strerror|mblen|mbtowc|wctomb|mbrlen|mbrtowc|wcrtomb|mbsrtowcs|wcsrtombs|to(w?upper|w?lower)|isw?(alpha|digit|alnum|space|upper|lower|punct|print|graph|cntrl|xdigit|blank)|tmpnam|getpid|gettid|'
                      r'nl_langinfo|setvbuf|signal|atexit)$')
STATEFULCXX = re.compile(r'std::(locale::(locale|global|classic)|random_device|chrono::\w+::system_clock::now|chrono::_V2::\w+::now|this_thread::get_id)|pthread_self')


def guarded(f, ins, gname):
    """ins is only reachable through the once-only initialisation of the local static"""
    guard = '@' + gname[1:].replace('_ZZ', '_ZGVZ', 1) if gname.startswith('@_ZZ') else None
    g = [b.name for b, i in f.allinsts() if i.op in ('call', 'invoke') and i.x['callee'] == ('glb', '@__cxa_guard_acquire') and guard and ('glb', guard) in i.ops]
    if not g: return False
    seen = set()
    work = [f.entry.name]
    while work:
        b = work.pop()
        if b in seen: continue
        seen.add(b)
        if b in g: continue         # whatever follows has taken the guard
        work += f.blocks[b].succs if hasattr(f.blocks[b], 'succs') and f.blocks[b].succs else []
    return ins.blk not in seen


def run(ctx):
    ctx.rule('Effect analysis over every function of the library and of the public headers: a write is traced back, through calls, to the object it reaches. No write may reach an object of static or '
             'thread storage duration other than in its once-only initialisation, no operation on a const object may write to it, and no library function with process-wide state (locale, environment, clock, random numbers) may be called.')
    p = ctx.program(probes=['props.cpp', 'casenorm.cpp', 'seg.cpp', 'codec.cpp', 'api.cpp'], all=True)
    E = effects.Effects(p)
    rule = 'no write to static storage'
    glob = {}
    p._dm.update(__import__('llparse').demangle(sorted({n for m in p.mods for n in m.globals})))
    for m in p.mods:
        for n, g in m.globals.items():
            if g.kind == 'alias' or '@llvm.' in n: continue
            b = ('g', id(m) if 'private' in g.link or 'internal' in g.link else 0, n)
            if b not in glob or glob[b].external: glob[b] = g
    mut = {b: g for b, g in glob.items() if g.kind == 'global' and not n_guard(b[2])}
    inits = set()
    for f in E.fns:
        if f.name.startswith(('@__cxx_global_var_init', '@_GLOBAL__')): inits.add(f)
    nw = 0
    for f in E.fns:
        for b, d, ins in E.sites[f]:
            nw += 1
            if b[0] != 'g' or f in inits: continue
            g = glob.get(b)
            if g is None or n_guard(b[2]): continue
            if stateless(g) or g.external and not own(p, b[2]): continue
            if g.kind == 'constant' and (d or ins.op != 'store'): continue
            if guarded(f, ins, b[2]): continue
            w = ctx.where(G.loc_of(f, ins))
            via = ''
            if ins.op in ('call', 'invoke') and ins.x['callee'][0] == 'glb': via = ' through ' + p.dem(ins.x['callee'][1])[:80]
            ctx.bad(rule, w, '%s writes to %s%s%s' % (short(p.dem(f.name)), 'what is reachable from ' if d else '', short(p.dem(b[2])), via), key='%s|%s|%s' % (rule, p.dem(f.name), p.dem(b[2])))
    # static objects with state must not leak to the caller either
    for f in E.fns:
        for b, d in E.sum[f].ret:
            if b[0] == 'g' and not d and b in mut and not stateless(mut[b]) and lib(p, f) and f not in inits:
                ctx.bad('no mutable static storage handed out', where_fn(ctx, f), '%s returns a reference to %s' % (short(p.dem(f.name)), short(p.dem(b[2]))))
    ctx.ok(nw, 'write effects traced')
    rule = 'const operations do not write'
    nc = 0
    for f in E.fns:
        nm = f.name.strip('@"')
        if not nm.startswith('_ZNK') or 'unicode' not in p.dem(f.name).split('(')[0].split('<')[0]: continue
        k = next((i for i, q in enumerate(f.params) if 'sret' not in ' '.join(map(str, q))), None)
        if k is None: continue
        nc += 1
        bad = [(b, d, ins) for b, d, ins in E.sites[f] if b == ('p', k) and not d]
        ctx.check(not bad, rule, ctx.where(G.loc_of(f, bad[0][2])) if bad else '', '%s writes to the object it is called on' % short(p.dem(f.name)), 'const operations')
    rule = 'no process-wide state consulted'
    for n, sites in sorted(E.ext.items()):
        d = p.dem(n)
        hit = STATEFUL.match(n.lstrip('@').strip('"')) or STATEFULCXX.search(d)
        for f, i in sites:
            if f in inits: continue
            if not lib(p, f): continue
            ctx.check(not hit, rule, ctx.where(G.loc_of(f, i)), '%s calls %s' % (short(p.dem(f.name)), d), 'external calls checked')
    ctx.counts.update({'functions': len(E.fns), 'stores': E.nstores, 'calls': E.ncalls, 'objects of static storage': len(glob), 'of them writable': len(mut), 'const operations': nc})
    for f in E.fns: ctx.functions[p.dem(f.name)] = 1
    ctx.callsites = E.ncalls
    ctx.sample({'writable static objects': sorted(short(p.dem(b[2])) for b in mut if not mut[b].external)})
    if len(E.fns) < 200 or nw < 500: raise F.Broken('too little of the library analysed')


def n_guard(n): return n.startswith('@_ZGV')
def short(s): return re.sub(r'std::__cxx11::basic_string<([^<>]*), std::char_traits<[^<>]*>, std::allocator<[^<>]*> ?>', r'basic_string<\1>', s)[:160]
def own(p, n): return 'unicode::' in p.dem(n)


def lib(p, f):
    """a function of this library (or a template instantiated for it) rather than of the standard library's own headers"""
    d = p.dem(f.name)
    return 'unicode::' in d.split('(')[0] or d.startswith(('u32_', 'u8_', 'u8u32_', 'u32u8_', 'probe_'))


def stateless(g):
    """an object that consists of its virtual table pointer only"""
    if g.external: return False
    try: return g.mod.sizeof(g.ty) == 8 and '@_ZTV' in g.text
    except Exception: return False


def where_fn(ctx, f):
    for b, i in f.allinsts():
        l = f.mod.loc(i.dbg) if i.dbg else None
        if l: return ctx.where(l)
    return f.name
