"""Interprocedural effect analysis: through which parameters and into which globals a function may write.
Flow-insensitive pointer derivation per function; bases are parameters, globals and local slots, each either the object
itself (deep=0) or something reached by loading a pointer out of it (deep=1)."""

READERS = ('strlen', 'memcmp', 'memchr', 'bcmp', 'strcmp', 'strncmp', 'wcslen', 'wmemcmp', '__assert_fail')


class Summary:
    __slots__ = ('writes', 'ret', 'flows')

    def __init__(self):
        self.writes = set()     # (base, deep)
        self.ret = set()
        self.flows = set()      # ((base, deep) stored into, base)

    def state(self): return len(self.writes), len(self.ret), len(self.flows)


class Effects:
    def __init__(self, prog):
        self.p = prog
        self.sum = {}
        self.fns = []
        for m in prog.mods:
            for n, f in m.funcs.items():
                if f.defined: self.fns.append(f)
        for f in self.fns: self.sum[f] = Summary()
        self.sites = {}         # function -> [(base, deep, ins)]
        self.ext = {}           # external callee -> set of call sites
        self.nstores = self.ncalls = 0
        for _ in range(40):
            ch = False
            self.sites = {}; self.ext = {}; self.nstores = self.ncalls = 0
            for f in self.fns:
                if self.scan(f): ch = True
            if not ch: break
        else: raise RuntimeError('effect summaries did not converge')

    def gbase(self, f, name):
        g = f.mod.globals.get(name)
        if g is None: return None
        if g.kind == 'alias': return None
        if 'private' in g.link or 'internal' in g.link: return ('g', id(f.mod), name)
        return ('g', 0, name)

    def scan(self, f):
        S = self.sum[f]
        before = S.state()
        env = {}
        content = {}
        for i, q in enumerate(f.params):
            if q[1] is not None: env[q[1]] = {(('p', i), 0)}
        f.blocks
        insts = list(f.allinsts())
        sites = []

        def val(o):
            k = o[0]
            if k == 'loc': return env.get(o[1], set())
            if k == 'glb':
                b = self.gbase(f, o[1])
                return {(b, 0)} if b else set()
            if k in ('int', 'null', 'undef', 'zero', 'poison', 'md', 'str'): return set()
            r = set()
            for g in globs(o):
                b = self.gbase(f, g)
                if b: r.add((b, 0))
            for g in regs(o): r |= env.get(g, set())
            return r

        def deep(bs):
            r = set()
            for b, d in bs:
                if b[0] == 'a':
                    r |= content.get(b, set())
                else: r.add((b, 1))
            return r

        def put(bs, vs):
            """a pointer with bases vs is stored into the objects bs"""
            ch = False
            for b, d in bs:
                if b[0] == 'a':
                    c = content.setdefault(b, set())
                    if not vs <= c: c |= vs; ch = True
                else:
                    for v in vs:
                        if v[0][0] != 'a': S.flows.add((v, b))
            return ch

        def write(bs, ins, rec):
            for b, d in bs:
                if b[0] == 'a': continue
                if b[0] == 'p': S.writes.add((b, d))
                if rec: sites.append((b, d, ins))

        for it in range(60):
            ch = False
            last = False
            for b, i in insts:
                op = i.op
                new = None
                if op in ('gep', 'phi', 'select', 'freeze', 'insertvalue', 'extractvalue', 'insertelement', 'extractelement') or op in ('bitcast', 'addrspacecast', 'inttoptr', 'ptrtoint', 'add', 'sub', 'and', 'or'):
                    ops = i.ops if op != 'select' else i.ops[1:]
                    if op == 'gep': ops = i.ops[:1]
                    new = set()
                    for o in ops: new |= val(o)
                elif op == 'alloca': new = {(('a', i.res), 0)}
                elif op == 'load':
                    if not (isinstance(i.ty, tuple) and i.ty[0] in ('int', 'fp')): new = deep(val(i.ops[0]))
                elif op == 'store':
                    v = val(i.ops[0])
                    if v and put(val(i.ops[1]), v): ch = True
                elif op in ('call', 'invoke'):
                    new, c2 = self.callflow(f, i, val, deep, put)
                    ch |= c2
                elif op == 'ret' and i.ops:
                    for x in val(i.ops[0]):
                        if x[0][0] == 'a': S.ret |= {y for y in content.get(x[0], ()) if y[0][0] != 'a'}
                        else: S.ret.add(x)
                if new and i.res is not None:
                    e = env.get(i.res)
                    if e is None: env[i.res] = set(new); ch = True
                    elif not new <= e: e |= new; ch = True
            if not ch: break
        for b, i in insts:
            if i.op == 'store':
                self.nstores += 1
                write(val(i.ops[1]), i, True)
            elif i.op in ('atomicrmw', 'cmpxchg'):
                self.nstores += 1
                write(val(i.ops[0]), i, True)
            elif i.op in ('call', 'invoke'):
                self.ncalls += 1
                for bs in self.callwrites(f, i, val, deep): write(bs, i, True)
        self.sites[f] = sites
        self.content = content
        return S.state() != before

    def callee(self, f, i):
        c = i.x['callee']
        if c[0] != 'glb': return None, None
        g = self.p.resolve(f.mod, c[1])
        if g is None:
            al = f.mod.globals.get(c[1])
            if al is not None and al.kind == 'alias':
                import re
                m = re.findall(r'ptr (@[-\w.$]+)', al.text)
                if m: g = self.p.resolve(f.mod, m[-1])
        return g, c[1]

    def bind(self, i, val, deep, b, d):
        """bases in the caller of a callee base"""
        if b[0] == 'g': return {(b, d)}
        if b[1] >= len(i.ops): return set()
        v = val(i.ops[b[1]])
        return (deep(v) | {x for x in v if x[0][0] != 'a' and x[1]}) if d else v

    def callflow(self, f, i, val, deep, put):
        g, name = self.callee(f, i)
        new = set()
        ch = False
        if g is not None:
            S = self.sum[g]
            for b, d in list(S.ret): new |= self.bind(i, val, deep, b, d)
            for (vb, vd), b in list(S.flows):
                if put(self.bind(i, val, deep, b, 0), self.bind(i, val, deep, vb, vd)): ch = True
            return new, ch
        if name and name.startswith('@llvm.'):
            if name.startswith(('@llvm.memcpy', '@llvm.memmove')):
                if put(val(i.ops[0]), deep(val(i.ops[1]))): ch = True
            elif name.startswith('@llvm.launder') or name.startswith('@llvm.strip'): new = val(i.ops[0])
            return new, ch
        if i.ty != 'void':
            if not (isinstance(i.ty, tuple) and i.ty[0] in ('int', 'fp')):
                for a in i.ops: new |= val(a)
        # an unknown callee may keep its pointer arguments in the objects it is given
        allv = set()
        for a in i.ops: allv |= val(a)
        if len([a for a in i.ops if val(a)]) > 1 and not self.reader(name):
            for k, a in enumerate(i.ops):
                if not self.robase(i, k, name) and put(val(a), {x for x in allv if x not in val(a)}): ch = True
        return new, ch

    def reader(self, name):
        return name is not None and name.lstrip('@') in READERS

    def robase(self, i, k, name):
        pat = i.x['pat'][k] or ()
        if any(str(x).startswith(('readonly', 'readnone')) for x in pat): return True
        if name and k == 0 and name.lstrip('@').strip('"').startswith('_ZNK'): return True
        return self.reader(name)

    def callwrites(self, f, i, val, deep):
        g, name = self.callee(f, i)
        if g is not None:
            for b, d in list(self.sum[g].writes): yield self.bind(i, val, deep, b, d)
            return
        if name and name.startswith('@llvm.'):
            if name.startswith(('@llvm.memcpy', '@llvm.memmove', '@llvm.memset', '@llvm.x86.sse2.storeu', '@llvm.masked.store')): yield val(i.ops[0])
            elif name.startswith('@llvm.x86.avx.maskstore'): yield val(i.ops[0])
            return
        if name: self.ext.setdefault(name, []).append((f, i))
        if name and name.startswith('@__cxa_'):
            return
        if name and name.lstrip('@') in ('memcpy', 'memmove', 'memset'):
            yield val(i.ops[0]); return
        for k, a in enumerate(i.ops):
            if self.robase(i, k, name): continue
            v = val(a)
            yield v
            yield deep(v)


def globs(o):
    if isinstance(o, tuple):
        if len(o) >= 2 and o[0] == 'glb':
            yield o[1]; return
        for x in o: yield from globs(x)
    elif isinstance(o, list):
        for x in o: yield from globs(x)


def regs(o):
    if isinstance(o, tuple):
        if len(o) >= 2 and o[0] == 'loc':
            yield o[1]; return
        for x in o: yield from regs(x)
    elif isinstance(o, list):
        for x in o: yield from regs(x)
