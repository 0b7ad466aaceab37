"""Abstract interpreter over LLVM IR.

Values are expressions over atoms (inputs and havoc'd loop variables); each atom has a value set (Dom) that the
branch conditions partition; differences of unbounded quantities (lengths, offsets) are kept in a small zone of
linear inequalities; loops whose exit depends on an unbounded quantity are cut at their header and generalised
until every back edge is covered by the generalised header state.  Nothing is executed and no solver is used.
"""
import re
import numpy as np
from dom import Dom, EMPTY, full
import expr as X
from expr import E, C, T, F, Atom, Table, Undecided
import llparse as LL

OPQ = None
DEBUG = False
BIGDOM = Dom([0], [1 << 40])


class Unsupported(Exception):
    pass


class P:
    """pointer: object id (None = null/absolute) + byte offset"""
    __slots__ = ('o', 'off')

    def __init__(self, o, off):
        self.o = o
        self.off = off

    def __eq__(self, x):
        return isinstance(x, P) and x.o == self.o and x.off is self.off

    def __hash__(self):
        return hash((self.o, self.off.id))

    def __repr__(self):
        return '&%s+%r' % (self.o, self.off)


class Fn:
    """function pointer"""
    __slots__ = ('f',)

    def __init__(self, f):
        self.f = f

    def __eq__(self, x):
        return isinstance(x, Fn) and x.f == self.f

    def __hash__(self):
        return hash(self.f)


class Vec(list):
    """vector value (lanes) or first-class aggregate (fields)"""
    __slots__ = ()


class Undef:
    def __repr__(self): return 'undef'


UNDEF = Undef()
NULL = P(None, C(0, 64))
Z64 = C(0, 64)


class Obj:
    __slots__ = ('id', 'kind', 'size', 'cells', 'log', 'default', 'elem', 'name', 'own', 'reads', 'ro', 'x', 'freed')

    def __init__(self, id, kind, size, default='undef', elem=None, name='', ro=False):
        self.id = id
        self.kind = kind        # 'fixed' (cells) or 'array' (log)
        self.size = size        # E64 or None
        self.cells = {}
        self.log = ()           # linked list (parent, (off,size,value,loc))
        self.default = default  # 'undef' 'zero' 'input' Table  or callable(off,size)->value
        self.elem = elem
        self.name = name
        self.own = None
        self.reads = {}
        self.ro = ro
        self.x = None
        self.freed = False

    def copy(self, own):
        o = Obj.__new__(Obj)
        for k in Obj.__slots__:
            setattr(o, k, getattr(self, k))
        o.cells = dict(self.cells)
        o.reads = dict(self.reads)
        o.own = own
        return o


class Frame:
    __slots__ = ('f', 'blk', 'i', 'env', 'prev', 'loops', 'ret', 'allocas')

    def __init__(self, f, args, ret):
        self.f = f
        self.blk = f.order_p[0]
        self.i = 0
        self.env = args
        self.prev = None
        self.loops = {}
        self.ret = ret

    def copy(self):
        n = Frame.__new__(Frame)
        n.f = self.f; n.blk = self.blk; n.i = self.i; n.env = dict(self.env); n.prev = self.prev
        n.loops = dict(self.loops); n.ret = self.ret
        return n


_own = [0]


class State:
    __slots__ = ('frames', 'doms', 'facts', 'neqs', 'bf', 'mem', 'trail', 'entries', 'unb', 'forks', 'own', 'events', 'opaque', 'x')

    def __init__(self):
        self.frames = []
        self.doms = {}
        self.facts = {}
        self.neqs = frozenset()
        self.bf = {}
        self.mem = {}
        self.trail = None
        self.entries = ()
        self.unb = 0
        self.forks = 0
        _own[0] += 1
        self.own = _own[0]
        self.events = None
        self.opaque = 0
        self.x = {}

    def copy(self):
        n = State.__new__(State)
        n.frames = self.frames[:-1] + [self.frames[-1].copy()] if self.frames else []
        n.doms = dict(self.doms)
        n.facts = dict(self.facts)
        n.neqs = self.neqs
        n.bf = dict(self.bf)
        n.mem = dict(self.mem)
        n.trail = self.trail
        n.entries = self.entries
        n.unb = self.unb
        n.forks = self.forks
        _own[0] += 1
        n.own = _own[0]
        _own[0] += 1
        self.own = _own[0]     # both sides lose ownership of shared objects
        n.events = self.events
        n.opaque = self.opaque
        n.x = dict(self.x)
        return n

    def dom(self, a):
        d = self.doms.get(a)
        return a.dom if d is None else d

    def rngof(self, a):
        d = self.doms.get(a)
        if d is None: d = a.dom
        return d.s[0], d.e[-1]

    def wobj(self, oid):
        o = self.mem[oid]
        if o.own != self.own:
            o = o.copy(self.own)
            self.mem[oid] = o
        return o

    def event(self, *e):
        self.events = (self.events, e)

    def eventlist(self):
        r = []
        x = self.events
        while x is not None:
            r.append(x[1]); x = x[0]
        return r[::-1]

    def traillist(self):
        r = []
        x = self.trail
        while x is not None:
            r.append(x[1]); x = x[0]
        return r[::-1]


class Outcome:
    __slots__ = ('kind', 'st', 'ret', 'loc', 'x')

    def __init__(self, kind, st, ret, loc, x=None):
        self.kind = kind; self.st = st; self.ret = ret; self.loc = loc; self.x = x


class LoopEntry:
    """one cut loop: the generalised header state and what its back edges do"""

    def __init__(self, id, func, header, snap):
        self.id = id
        self.func = func
        self.header = header
        self.snap = snap          # State at the header on entry (phis assigned)
        self.cut = False
        self.gen = {}             # key -> dict(node/value, x0, stride, k atom, dom)
        self.invs = []            # candidate invariants [(terms{node:coef}, const)] : sum+const <= 0
        self.cands = set()
        self.backedges = []       # (state, {key: new value})
        self.unb0 = snap.unb if snap is not None else 0
        self.forks0 = snap.forks if snap is not None else 0
        self.version = 0
        self.root = id
        self.tk = []
        self.tup = set()


# ---------------------------------------------------------------------------------------------- program
class Program:
    def __init__(self, paths):
        self.mods = [LL.Module(p) for p in paths]
        self.defs = {}
        for m in self.mods:
            for n, f in m.funcs.items():
                if f.defined and 'available_externally' not in f.linkage:
                    if 'internal' in f.linkage or 'private' in f.linkage:
                        self.defs[(m, n)] = f
                    elif n not in self.defs:
                        self.defs[n] = f
        for m in self.mods:
            for n, g in m.globals.items():
                t = re.search(r'\balias\b.*,\s*ptr (@[\w.$"]+)\s*$', g.text.strip()) if ' alias ' in g.text else None
                f = m.funcs.get(t.group(1)) if t else None
                if f is not None and f.defined and n not in self.defs: self.defs[n] = f
        self._dm = {}
        names = set()
        for m in self.mods:
            names.update(m.funcs)
        self._dm = LL.demangle(sorted(names))
        self._gl = {}
        self.bydem = {}
        for k, f in self.defs.items():
            self.bydem.setdefault(self._dm.get(f.name, f.name), f)

    def dem(self, name):
        return self._dm.get(name, name)

    def resolve(self, mod, name):
        f = mod.funcs.get(name)
        if f is not None and f.defined and 'available_externally' not in f.linkage:
            return f
        r = self.defs.get((mod, name)) or self.defs.get(name)
        if r is None and f is not None and f.defined:
            return f
        return r

    def find(self, dem, prefix=False):
        """function by demangled name"""
        if dem in self.bydem:
            return self.bydem[dem]
        if prefix:
            r = [f for n, f in self.bydem.items() if n.startswith(dem)]
            if len(r) == 1:
                return r[0]
        return None

    def globalobj(self, mod, name):
        g = mod.globals.get(name)
        if g is None:
            return None
        key = (mod, name) if ('private' in g.link or 'internal' in g.link) else name
        if key in self._gl:
            return self._gl[key]
        if g.external:
            for m in self.mods:
                h = m.globals.get(name)
                if h is not None and not h.external:
                    g = h
                    break
        self._gl[key] = (key, g)
        return self._gl[key]


def loc_of(f, ins):
    l = f.mod.loc(ins.dbg) if ins is not None and ins.dbg else None
    return l


# ---------------------------------------------------------------------------------------------- prepared functions
class PI:
    """prepared instruction"""
    __slots__ = ('op', 'res', 'ty', 'w', 'a', 'x', 'ins')


def is_vec(ty):
    return isinstance(ty, tuple) and ty[0] == 'vec'


class Engine:
    def __init__(self, prog, models=(), limits=None):
        self.p = prog
        self.models = [(re.compile(r), fn) for r, fn in models]
        self._modcache = {}
        self.outcomes = []
        self.findings = []        # (kind, loc, text, state, entries)
        self.checked = {}         # (loc) -> bool obligations of memory accesses
        self.dead = set()
        self.entries = {}
        self.neid = 0
        self.nobj = 0
        self.steps = 0
        self.maxsteps = 12_000_000
        self.maxunroll = 5000
        self.forkunroll = 70
        self.work = []
        self.visited = set()
        self.globals_ = {}
        self.globimg = {}
        self.baseatom = {}
        self.funcs_seen = {}
        self.callsites = 0
        self.on_assert = None
        self.strict_oob = True
        self.paths = 0
        self.pure = {}
        self.xstable = ()         # state extras that must not change in a loop
        self.lifetimes = False    # variables lose their value where their lifetime starts or ends
        self.hdrhook = None       # called at every arrival at a loop header
        self.merge = False        # counters advancing in lockstep share one iteration number
        self.small = False        # comparisons of narrow values are kept as linear facts, too
        self.order = False        # look for counters and pointers that keep their order
        self.tupw = 64            # width of the values kept so
        self.tuples = False       # small loop-carried values are kept in the combinations that occur

    # ------------------------------------------------------------------ preparation
    def prep(self, f):
        if getattr(f, 'order_p', None) is not None:
            return
        f.blocks
        mod = f.mod
        f.bp = {}
        f.order_p = []
        for b in f.order:
            L = []
            for ins in b.insts:
                L.append(self.prep_inst(f, mod, ins))
            nb = (b.name, L, b.succs)
            f.bp[b.name] = nb
            f.order_p.append(nb)
        # back edges
        f.back = set()
        color = {}
        st = [(f.order[0].name, iter(f.order[0].succs))]
        color[f.order[0].name] = 1
        while st:
            n, it = st[-1]
            for s in it:
                c = color.get(s, 0)
                if c == 0:
                    color[s] = 1
                    st.append((s, iter(f.bp[s][2])))
                    break
                if c == 1:
                    f.back.add((n, s))
            else:
                color[n] = 2
                st.pop()
        f.headers = {h for _, h in f.back}
        # natural loop bodies
        preds = {}
        for b in f.order:
            for s in b.succs:
                preds.setdefault(s, []).append(b.name)
        f.loopbody = {}
        for t, h in f.back:
            body = f.loopbody.setdefault(h, {h})
            wl = [t]
            while wl:
                x = wl.pop()
                if x in body: continue
                body.add(x)
                wl.extend(preds.get(x, ()))

    def const_op(self, mod, ty, o):
        """operand -> str (ssa name) or constant value"""
        if isinstance(o, tuple) and o[0] == 'loc':
            return o[1]
        return self.constval(mod, ty, o)

    def constval(self, mod, ty, o):
        rty = mod.resolve(ty) if isinstance(ty, tuple) else ty
        if o == 'undef':
            return UNDEF
        if o == 'null':
            return NULL
        if o == 'zero':
            return self.zero(mod, rty)
        if o[0] == 'int':
            return C(o[1], rty[1])
        if o[0] == 'glb':
            f = mod.funcs.get(o[1])
            if f is not None:
                return Fn((mod, o[1]))
            return P(('g',) + (self.p.globalobj(mod, o[1])[0],) if not isinstance(self.p.globalobj(mod, o[1])[0], tuple)
                     else ('g',) + self.p.globalobj(mod, o[1])[0], Z64)
        if o[0] == 'agg':
            return Vec([self.constval(mod, t, v) for t, v in o[1]])
        if o[0] == 'str':
            return Vec([C(b, 8) for b in o[1]])
        if o[0] == 'cexpr':
            if o[1] == 'gep':
                base = self.constval(mod, 'ptr', o[3][0][1])
                off = self.gep_const(mod, o[2], o[3][1:])
                return P(base.o, X.add(base.off, C(off, 64)))
            if o[1] == 'cast':
                v = self.constval(mod, o[3], o[4])
                if o[2] == 'ptrtoint': return self.p2i(v)
                if o[2] == 'inttoptr': return self.i2p(v)
                return v
            if o[1] == 'bin':
                a = self.constval(mod, o[3], o[4]); b = self.constval(mod, o[3], o[5])
                return self.binop(o[2], a, b)
        if o[0] == 'fp':
            return ('fp', o[1])
        if o[0] == 'md':
            return None
        raise Unsupported('const %r' % (o,))

    def zero(self, mod, ty):
        ty = mod.resolve(ty) if isinstance(ty, tuple) else ty
        if ty == 'ptr': return NULL
        if ty[0] == 'int': return C(0, ty[1])
        if ty[0] in ('vec', 'arr'): return Vec([self.zero(mod, ty[2]) for _ in range(ty[1])])
        if ty[0] == 'struct': return Vec([self.zero(mod, t) for t in ty[1]])
        if ty[0] == 'fp': return ('fp', '0')
        raise Unsupported('zero %r' % (ty,))

    def gep_const(self, mod, bty, idx):
        off = 0
        ty = bty
        for n, (t, v) in enumerate(idx):
            k = v[1] if isinstance(v, tuple) and v[0] == 'int' else 0
            if n == 0:
                off += k * mod.sizeof(ty)
            else:
                r = mod.resolve(ty)
                if r[0] == 'struct':
                    off += mod.field_off(r, k); ty = r[1][k]
                else:
                    off += k * mod.sizeof(r[2]); ty = r[2]
        return off

    def prep_inst(self, f, mod, ins):
        p = PI()
        p.op = ins.op
        p.res = ins.res
        p.ty = mod.resolve(ins.ty) if isinstance(ins.ty, tuple) else ins.ty
        p.ins = ins
        p.w = p.ty[1] if isinstance(p.ty, tuple) and p.ty[0] == 'int' else 64 if p.ty == 'ptr' else None
        p.x = ins.x
        op = ins.op
        cp = lambda ty, o: self.const_op(mod, ty, o)
        if op in LL.BIN_OPS or op in ('icmp', 'fcmp'):
            p.a = [cp(ins.ty, o) for o in ins.ops]
        elif op == 'load':
            p.a = [cp('ptr', ins.ops[0])]
        elif op == 'store':
            p.a = [cp(ins.ty, ins.ops[0]), cp('ptr', ins.ops[1])]
        elif op == 'gep':
            base = cp('ptr', ins.ops[0])
            off = 0
            dyn = []
            ty = ins.ty
            for n, (t, v) in enumerate(zip(ins.x[1:], ins.ops[1:])):
                if n == 0:
                    sz = mod.sizeof(ty)
                else:
                    r = mod.resolve(ty)
                    if r[0] == 'struct':
                        off += mod.field_off(r, v[1]); ty = r[1][v[1]]
                        continue
                    sz = mod.sizeof(r[2]); ty = r[2]
                c = cp(t, v)
                if isinstance(c, str): dyn.append((c, sz))
                elif isinstance(c, E) and c.op == 'c': off += X.sgn(c.a[0], c.w) * sz
                elif c is UNDEF: pass
                else: raise Unsupported('gep idx')
            p.a = [base]
            p.x = (off, dyn)
        elif op == 'alloca':
            p.a = [cp(('int', 64), ins.ops[0]) if not (isinstance(ins.ops[0], tuple) and ins.ops[0][0] == 'int') else C(ins.ops[0][1], 64)]
            p.x = mod.sizeof(ins.ty)
        elif op == 'br':
            p.a = [cp(('int', 1), o) for o in ins.ops]
            p.x = ins.x['succs']
        elif op == 'switch':
            p.a = [cp(ins.ty, ins.ops[0])]
        elif op == 'ret':
            p.a = [cp(ins.ty, o) for o in ins.ops]
        elif op == 'phi':
            p.a = [cp(ins.ty, o) for o in ins.ops]
        elif op == 'select':
            p.a = [cp(ins.x, ins.ops[0]), cp(ins.ty, ins.ops[1]), cp(ins.ty, ins.ops[2])]
        elif op in ('call', 'invoke'):
            p.a = [cp(t, o) if o != ('md',) and t != 'metadata' else None for t, o in zip(ins.x['tys'], ins.ops)]
            c = ins.x['callee']
            p.x = dict(ins.x)
            p.x['c'] = c if c[0] != 'loc' else None
            if c[0] == 'loc': p.x['cloc'] = c[1]
        elif op in LL.CAST_OPS:
            p.a = [cp(ins.x, ins.ops[0])]
            p.x = mod.resolve(ins.x) if isinstance(ins.x, tuple) else ins.x
        elif op == 'extractvalue':
            p.a = [cp(ins.ty, ins.ops[0])]
        elif op == 'insertvalue':
            ety = mod.resolve(ins.ty)
            for k in ins.x:
                ety = mod.resolve(ety[1][k] if ety[0] == 'struct' else ety[2])
            p.a = [cp(ins.ty, ins.ops[0]), cp(ety, ins.ops[1])]
        elif op == 'extractelement':
            p.a = [cp(ins.ty, ins.ops[0]), cp(('int', 64), ins.ops[1]) if ins.ops[1][0] != 'int' else C(ins.ops[1][1], 64)]
        elif op == 'insertelement':
            e = mod.resolve(ins.ty)[2]
            p.a = [cp(ins.ty, ins.ops[0]), cp(e, ins.ops[1]), cp(('int', 64), ins.ops[2]) if ins.ops[2][0] != 'int' else C(ins.ops[2][1], 64)]
        elif op == 'shufflevector':
            p.a = [cp(ins.ty, ins.ops[0]), cp(ins.ty, ins.ops[1])]
            mk = ins.ops[2]
            n = mod.resolve(ins.x)[1]
            if mk == 'zero': p.x = [0] * n
            elif mk == 'undef': p.x = [None] * n
            else: p.x = [None if v == 'undef' else v[1] for _, v in mk[1]]
        elif op == 'freeze':
            p.a = [cp(ins.ty, ins.ops[0])]
        else:
            p.a = []
        return p

    # ------------------------------------------------------------------ globals
    def gobj(self, st, oid):
        """materialise a global object in the state"""
        o = st.mem.get(oid)
        if o is not None:
            return o
        o = self.globimg.get(oid)
        if o is None:
            key = oid[1:]
            key = key[0] if len(key) == 1 else key
            ko = self.p._gl[key]
            g = ko[1]
            mod = g.mod
            size = mod.sizeof(g.ty)
            const = g.kind == 'constant' or self.effconst(key, g)
            o = Obj(oid, 'fixed', C(size, 64), name=g.name, ro=(g.kind == 'constant'))
            if g.init is None:
                if g.external:
                    o.default = 'extern'
                o.cells = {}
            else:
                data = bytearray(size)
                rel = {}
                self.image(mod, g.ty, g.init, 0, data, rel)
                o.default = Table(g.name, data)
                o.cells = {k: (8, v) for k, v in rel.items()}
                if not const:
                    o.default = 'global'
                    o.x = 'mutable'
            o.own = -1
            self.globimg[oid] = o
        st.mem[oid] = o
        return o

    def effconst(self, key, g):
        """an internal-linkage or never-written global: no store through it anywhere in the program"""
        return key in self.constglobals

    @property
    def constglobals(self):
        if not hasattr(self.p, '_cg'):
            written = set()
            for m in self.p.mods:
                for f in m.funcs.values():
                    if not f.defined: continue
                    if not any('@' in l for l in f._body): continue
                    for b, i in f.allinsts():
                        for n, o in enumerate(i.ops):
                            for gname in globs_in(o):
                                if i.op == 'load' or i.op == 'gep' or i.op == 'icmp': continue
                                if i.op in ('call', 'invoke'):
                                    c = i.x['callee']
                                    d = self.p.dem(c[1]) if c[0] == 'glb' else ''
                                    if d.endswith(' const') and n == 0: continue
                                    if c[0] == 'glb' and ('memcpy' in c[1] or 'memmove' in c[1]) and n == 1: continue
                                    at = i.x['pat'][n] if n < len(i.x['pat']) else {}
                                    if 'readonly' in at: continue
                                written.add(gname)
            self.p._cg = set()
            for m in self.p.mods:
                for n, g in m.globals.items():
                    if n not in written and not g.external and not g.tls:
                        self.p._cg.add((m, n) if ('private' in g.link or 'internal' in g.link) else n)
        return self.p._cg

    def image(self, mod, ty, v, off, data, rel):
        ty = mod.resolve(ty) if isinstance(ty, tuple) else ty
        if v in ('zero', 'undef', 'null'):
            return
        if isinstance(v, tuple) and v[0] == 'int':
            n = mod.sizeof(ty)
            data[off:off + n] = (v[1] & ((1 << (8 * n)) - 1)).to_bytes(n, 'little')
            return
        if v[0] == 'str':
            data[off:off + len(v[1])] = v[1]
            return
        if v[0] == 'agg':
            if ty[0] == 'struct':
                for i, (t, x) in enumerate(v[1]):
                    self.image(mod, t, x, off + mod.field_off(ty, i), data, rel)
            else:
                s = mod.sizeof(ty[2])
                ety = mod.resolve(ty[2]) if isinstance(ty[2], tuple) else ty[2]
                if isinstance(ety, tuple) and ety[0] == 'int':
                    m = (1 << (8 * s)) - 1
                    for i, (t, x) in enumerate(v[1]):
                        if x != 'undef' and x != 'zero':
                            data[off + i * s:off + i * s + s] = (x[1] & m).to_bytes(s, 'little')
                    return
                for i, (t, x) in enumerate(v[1]):
                    self.image(mod, t, x, off + i * s, data, rel)
            return
        if v[0] == 'fp':
            return
        c = self.constval(mod, ty, v)
        if isinstance(c, E) and c.op == 'c':
            n = mod.sizeof(ty)
            data[off:off + n] = c.a[0].to_bytes(n, 'little')
        else:
            rel[off] = c

    # ------------------------------------------------------------------ objects
    def new_obj(self, st, kind, size, default='undef', elem=None, name='', ro=False):
        self.nobj += 1
        oid = (name or kind) + '#%d' % self.nobj
        o = Obj(oid, kind, size, default, elem, name or oid, ro)
        o.own = st.own
        st.mem[oid] = o
        return oid

    def base(self, oid):
        a = self.baseatom.get(oid)
        if a is None:
            a = Atom('addr(%s)' % (oid,), 64, Dom([1 << 41], [1 << 46]), 'addr', oid)
            self.baseatom[oid] = a
        return a

    def p2i(self, v):
        if isinstance(v, P):
            if v.o is None: return v.off
            return X.add(self.base(v.o).node, v.off)
        if isinstance(v, E): return v
        raise Unsupported('ptrtoint %r' % (v,))

    def i2p(self, v):
        if isinstance(v, P): return v
        c, d = X.linparts(v)
        for n, k in d.items():
            if n.op == 'v' and n.a[0].kind == 'addr' and k == 1:
                return P(n.a[0].info, X.sub(v, n))
        return P(None, v)

    # ------------------------------------------------------------------ memory
    def obj(self, st, p, ins, f):
        if p is UNDEF:
            raise Unsupported('access through undef at %s' % (loc_of(f, ins),))
        if not isinstance(p, P):
            raise Unsupported('access through non-pointer %r at %s' % (p, loc_of(f, ins)))
        if p.o is None:
            return None
        o = st.mem.get(p.o)
        if o is None:
            if isinstance(p.o, tuple) and p.o[0] == 'g':
                return self.gobj(st, p.o)
            raise Unsupported('dangling object %r at %s' % (p.o, loc_of(f, ins)))
        return o

    def finding(self, kind, st, f, ins, text):
        l = loc_of(f, ins)
        self.findings.append((kind, l, text, st.copy() if st.frames else st, st.entries, self.p.dem(f.name)))

    def check_access(self, st, o, off, n, f, ins, what):
        """prove 0 <= off and off+n <= size"""
        key = (f.name, ins.dbg, what, o.name)
        size = o.default.size(self, st, o) if o.kind == 'abs' else o.size
        if size is None:
            return
        ok = False
        if off.op == 'c' and size.op == 'c':
            v = X.sgn(off.a[0], 64)
            ok = 0 <= v and v + n <= size.a[0]
        else:
            ok = self.prove_le(st, X.add(off, C(n, 64)), size) and self.prove_le(st, Z64, off)
        self.checked[key] = self.checked.get(key, True) and ok
        if not ok:
            self.finding('oob', st, f, ins, '%s of %d byte(s) at offset %s of %s (size %s) not proven in bounds'
                         % (what, n, X.show(off), o.name, X.show(size)))
        return ok

    def load(self, st, p, n, f, ins, ty=None):
        """value of n bytes at p; forks are not allowed here, so symbolic offsets into fixed objects are pre-split"""
        o = self.obj(st, p, ins, f)
        if o is None:
            self.finding('null', st, f, ins, 'load through null/absolute pointer')
            return Atom('null_load', 8 * n, kind='undef').node
        if o.freed:
            self.finding('uaf', st, f, ins, 'load from a dead object %s' % o.name)
        self.check_access(st, o, p.off, n, f, ins, 'load')
        return self.rawload(st, o, p.off, n)

    def rawload(self, st, o, off, n):
        if o.kind == 'abs':
            return o.default.load(self, st, o, off, n)
        if o.kind == 'array':
            return self.arrload(st, o, off, n)
        if off.op == 'c':
            k = X.sgn(off.a[0], 64)
            c = o.cells.get(k)
            if c is not None and c[0] == n:
                return c[1]
            if not o.cells or not any(kk in o.cells and kk + o.cells[kk][0] > k for kk in range(k - 63, k + n)):
                return self.deflt(st, o, k, n)
            bs = []
            for i in range(n):
                bs.append(self.bytecell(st, o, k + i))
            if any(not isinstance(b, E) for b in bs):
                if all(b is UNDEF for b in bs): return UNDEF
                bs = [self.fresh_undef(8) if not isinstance(b, E) else b for b in bs]
            return X.cat(bs)
        # symbolic offset into constant data
        if isinstance(o.default, Table) and not any(True for k, c in o.cells.items()):
            return X.ld(o.default, off, n)
        raise NeedSplit(off)

    def fresh_undef(self, w):
        return Atom('undef', w, kind='undef').node

    def deflt(self, st, o, k, n):
        d = o.default
        if isinstance(d, Table):
            return X.ld(d, C(k, 64), n)
        if d == 'zero':
            return C(0, 8 * n)
        if d == 'undef':
            return UNDEF
        if callable(d):
            v = d(k, n)
            return v
        # 'input' / 'global' / 'extern': one atom per (offset,size), stable
        key = (k, n)
        a = o.reads.get(key)
        if a is None:
            a = Atom('%s+%d' % (o.name, k), 8 * n, kind='field', info=(o.id, k)).node
            st.wobj(o.id).reads[key] = a
        return a

    def bytecell(self, st, o, k):
        for s in range(0, 64):
            c = o.cells.get(k - s)
            if c is not None:
                if c[0] > s:
                    v = c[1]
                    if isinstance(v, E): return X.byte(v, s)
                    if v is UNDEF: return UNDEF
                    return X.byte(self.p2i(v), s)
                # a shorter cell here does not cover k; an earlier longer one might, keep looking
        for (kk, n), a in o.reads.items():
            if isinstance(kk, int) and kk <= k < kk + n:
                return X.byte(a, k - kk)
        return self.deflt(st, o, k, 1)

    def arrload(self, st, o, off, n):
        x = o.log
        while x:
            x0, (so, sn, sv, _) = x
            if so is off and sn == n:
                return sv
            d = X.sub(off, so)
            if d.op == 'c':
                dv = X.sgn(d.a[0], 64)
                if dv + n <= 0 or dv >= sn:
                    x = x0
                    continue
                if dv >= 0 and dv + n <= sn and isinstance(sv, E):
                    return X.cat([X.byte(sv, dv + i) for i in range(n)])
                return Atom('mixed', 8 * n, kind='undef').node
            # may alias?
            lo, hi = self.lrange(st, *self.lin(st, d))
            if (lo is not None and lo >= sn) or (hi is not None and hi + n <= 0):
                x = x0
                continue
            return self.alias_load(st, o, off, n)
        if callable(o.default) and not isinstance(o.default, str):
            return o.default(st, o, off, n)
        if o.default == 'input':
            es = o.elem or n
            if n == es:
                key = (off, n)
                a = o.reads.get(key)
                if a is None:
                    a = Atom('%s[%s]' % (o.name, X.show(off)), 8 * n, kind='elem', info=(o.id, off)).node
                    st.wobj(o.id).reads[key] = a
                return a
            if n > es and n % es == 0:
                return X.cat([y for i in range(0, n, es) for y in bytes_of(self.arrload(st, st.mem[o.id], X.add(off, C(i, 64)), es))])
            raise Unsupported('load of %d bytes from array of %d-byte elements' % (n, es))
        return Atom('uninit', 8 * n, kind='undef').node

    def alias_load(self, st, o, off, n):
        a = Atom('%s[%s]~' % (o.name, X.show(off)), 8 * n, kind='elem~', info=(o.id, off))
        return a.node

    def store(self, st, p, n, v, f, ins):
        o = self.obj(st, p, ins, f)
        if o is None:
            self.finding('null', st, f, ins, 'store through null/absolute pointer')
            return
        if o.freed:
            self.finding('uaf', st, f, ins, 'store to a dead object %s' % o.name)
        if o.ro or isinstance(o.default, Table):
            self.finding('rostore', st, f, ins, 'store to constant object %s' % o.name)
            return
        if o.x == 'mutable' or (isinstance(o.id, tuple) and o.id[0] == 'g'):
            self.finding('globalstore', st, f, ins, 'store to global %s' % o.name)
        self.check_access(st, o, p.off, n, f, ins, 'store')
        self.rawstore(st, p.o, p.off, n, v, loc_of(f, ins))

    def rawstore(self, st, oid, off, n, v, loc=None):
        o = st.wobj(oid)
        if o.kind == 'abs':
            o.default.store(self, st, o, off, n, v, loc)
            return
        if o.kind == 'array':
            o.log = (o.log, (off, n, v, loc))
            return
        if off.op != 'c':
            raise NeedSplit(off)
        k = X.sgn(off.a[0], 64)
        c = o.cells.get(k)
        if c is not None and c[0] == n:
            o.cells[k] = (n, v)
            return
        # break overlapped cells into bytes
        for s in list(o.cells):
            cn, cvv = o.cells[s]
            if s < k + n and s + cn > k:
                del o.cells[s]
                if s >= k and s + cn <= k + n: continue
                for i in range(cn):
                    if not (k <= s + i < k + n):
                        if isinstance(cvv, E): b = X.byte(cvv, i)
                        elif cvv is UNDEF: b = UNDEF
                        else: b = X.byte(self.p2i(cvv), i)
                        o.cells[s + i] = (1, b)
        o.cells[k] = (n, v)

    # ------------------------------------------------------------------ linear reasoning
    def lin(self, st, e):
        """integer view: (const, {node: signed coef}) -- valid when no wrap, caller ensures"""
        c, d = X.linparts(e)
        w = e.w
        c = X.sgn(c, w)
        out = {}
        for n, k in d.items():
            k = X.sgn(k, w)
            if n.op == 'zext' and n.a[0].op == 'lin':
                # zext of a sum that provably does not wrap is the sum
                ic, id_ = self.lin(st, n.a[0])
                lo, hi = self.lrange(st, ic, id_)
                if lo is not None and hi is not None and lo >= 0 and hi < 1 << n.a[0].w:
                    c += k * ic
                    for x, y in id_.items(): out[x] = out.get(x, 0) + k * y
                    continue
            if n.op == 'v':
                dm = st.dom(n.a[0])
                if dm and dm.s[0] == dm.e[-1]:
                    c += k * dm.s[0]
                    continue
            if n.op in ('and', 'urem', 'lshr', 'udiv') and n.a[1].op == 'c':
                pass
            out[n] = out.get(n, 0) + k
        return c, {n: k for n, k in out.items() if k}

    def nrange(self, st, n):
        lo, hi = X.rng(n, st.rngof)
        return lo, hi

    def arange(self, st, d):
        """interval of sum coef*node from the nodes' own ranges"""
        lo = hi = 0
        for n, k in d.items():
            a, b = self.nrange(st, n)
            if n.w == 64 and b >= 1 << 62: b = None
            if k < 0: a, b = b, a
            lo = None if lo is None or a is None else lo + k * a
            hi = None if hi is None or b is None else hi + k * b
        return lo, hi

    @staticmethod
    def tkey(d):
        """normalised term key and scale: d == scale * key-terms"""
        items = sorted(d.items(), key=lambda x: x[0].id)
        g = 0
        for _, k in items:
            g = gcd(g, abs(k))
        if items[0][1] < 0: g = -g
        return tuple((n, k // g) for n, k in items), g

    def lrange(self, st, c, d):
        """interval of c + sum, using ranges and zone facts"""
        if not d:
            return c, c
        key, s = self.tkey(d)
        lo, hi = self.trange(st, key)
        if s < 0: lo, hi = hi, lo
        return (None if lo is None else lo * s + c), (None if hi is None else hi * s + c)

    def trange(self, st, key, depth=2):
        d = dict(key)
        lo, hi = self.arange(st, d)
        f = st.facts.get(key)
        if f:
            lo = mx(lo, f[0]); hi = mn(hi, f[1])
        if depth > 0 and st.facts and len(d) > 1 or (depth > 0 and st.facts):
            vars_ = set(d)
            for fk, (flo, fhi) in st.facts.items():
                if fk == key: continue
                if not any(n in vars_ for n, _ in fk): continue
                # s*key = m*fk + rest
                for n, k in fk:
                    if n in d:
                        sc = abs(k) // gcd(abs(k), abs(d[n]))
                        m = d[n] * sc // k
                        rest = {x: y * sc for x, y in d.items()}
                        for n2, k2 in fk:
                            rest[n2] = rest.get(n2, 0) - m * k2
                        rest = {x: y for x, y in rest.items() if y}
                        if len(rest) > len(d) + (sc > 1) and (len(rest) > 3 or self.tkey(rest)[0] not in st.facts): continue
                        if rest:
                            rk, rs = self.tkey(rest)
                            if depth > 1:
                                rlo, rhi = self.trange(st, rk, depth - 1)
                            else:
                                rlo, rhi = self.arange(st, dict(rk))
                                ff = st.facts.get(rk)
                                if ff: rlo = mx(rlo, ff[0]); rhi = mn(rhi, ff[1])
                            if rs < 0: rlo, rhi = rhi, rlo
                            rlo = None if rlo is None else rlo * rs
                            rhi = None if rhi is None else rhi * rs
                        else:
                            rlo = rhi = 0
                        a, b = (flo, fhi) if m > 0 else (fhi, flo)
                        a = None if a is None else a * m
                        b = None if b is None else b * m
                        if a is not None and rlo is not None: lo = mx(lo, -(-(a + rlo) // sc))
                        if b is not None and rhi is not None: hi = mn(hi, (b + rhi) // sc)
                        break
        return lo, hi

    def prove_le(self, st, a, b):
        """a <= b as integers (offsets, sizes: signed interpretation, no wrap assumed for 64-bit offsets)"""
        if a.op == 'c' and b.op == 'c':
            return X.sgn(a.a[0], 64) <= X.sgn(b.a[0], 64)
        d = X.sub(a, b)
        # single small atom: exact
        if len(d.atoms) == 1 and not any(n.w == 64 and n.op == 'v' for n in X.linparts(d)[1]):
            t = self.decide1(st, X.icmp('sle', d, C(0, d.w)))
            if t is not None:
                return t
        c, dd = self.lin(st, d)
        lo, hi = self.lrange(st, c, dd)
        return hi is not None and hi <= 0

    def add_fact(self, st, c, d, pred):
        """record c + sum d (pred) 0, pred in le,lt,ge,gt,eq,ne; returns False when contradictory"""
        if not d:
            r = {'le': c <= 0, 'lt': c < 0, 'ge': c >= 0, 'gt': c > 0, 'eq': c == 0, 'ne': c != 0}[pred]
            return r
        key, s = self.tkey(d)
        # s*T + c pred 0  ->  T pred' -c/s
        if s < 0:
            pred = {'le': 'ge', 'lt': 'gt', 'ge': 'le', 'gt': 'lt'}.get(pred, pred)
            c, s = -c, -s
        # s>0: s*T <= -c
        lo, hi = st.facts.get(key, (None, None))
        if pred == 'le': hi = mn(hi, (-c) // s)
        elif pred == 'lt': hi = mn(hi, (-c - 1) // s)
        elif pred == 'ge': lo = mx(lo, -((c) // s))
        elif pred == 'gt': lo = mx(lo, -((c - 1) // s))
        elif pred == 'eq':
            if c % s: return False
            lo = mx(lo, -c // s); hi = mn(hi, -c // s)
        elif pred == 'ne':
            if c % s: return True
            st.neqs = st.neqs | {(key, -c // s)}
        tl, th = self.trange(st, key)
        lo2, hi2 = mx(lo, tl), mn(hi, th)
        ch = True
        while ch:
            ch = False
            for k2, v in st.neqs:
                if k2 == key:
                    if lo2 is not None and v == lo2: lo2 += 1; ch = True
                    if hi2 is not None and v == hi2: hi2 -= 1; ch = True
                if lo2 is not None and hi2 is not None and lo2 > hi2: return False
        if lo2 is not None and hi2 is not None and lo2 > hi2:
            return False
        if len(key) == 1 and key[0][1] == 1 and key[0][0].op == 'v':
            at = key[0][0].a[0]
            dm = st.dom(at)
            nd = dm & Dom.rng(max(0, lo2 if lo2 is not None else 0), hi2 if hi2 is not None else (1 << at.w) - 1)
            if not nd: return False
            st.doms[at] = nd
        else:
            st.facts[key] = (lo2, hi2)
            for n, k in key:
                if n.op == 'v' and n.w == 64 and st.dom(n.a[0]).hi >= 1 << 62:
                    tl, th = self.trange(st, ((n, 1),))
                    if th is not None and th < 1 << 62: st.doms[n.a[0]] = st.dom(n.a[0]) & Dom.rng(max(0, tl or 0), max(th, 0))
        # tighten other != facts that became boundary
        return True

    def defquot(self, st, q):
        """record 0 <= x - k*q <= k-1 for q = x / k of a sum x that is not negative"""
        x, k = q.a
        if k.op != 'c': return
        k = int(k.a[0])
        if q.op != 'udiv': k = 1 << k
        if not 1 < k < 1 << 32: return
        c, d = self.lin(st, x)
        lo, hi = self.lrange(st, c, d)
        if lo is None or hi is None or lo < 0 or hi >= 1 << 62 or not d: return
        d = dict(d)
        d[q] = d.get(q, 0) - k
        self.add_fact(st, c, d, 'ge')
        self.add_fact(st, c - (k - 1), d, 'le')

    def lincmp(self, st, cond):
        """linear view of an icmp: (c, d, pred) meaning c + d pred 0 over the integers, or None"""
        p, a, b = cond.a
        w = a.w
        if w < 32 and not (self.small and w >= 8 and len(cond.atoms) > 1):
            return None
        ca, da = self.lin(st, a)
        cb, db = self.lin(st, b)
        la = self.lrange(st, ca, da)
        lb = self.lrange(st, cb, db)
        for n in list(da) + list(db):
            if n.op not in ('v', 'zext', 'sext', 'lshr', 'ashr', 'udiv', 'urem', 'and', 'trunc', 'sel', 'ld', 'cat', 'mul'): return None
            if n.op in ('lshr', 'ashr', 'udiv') and n.w == 64: self.defquot(st, n)
        sp = p[0] == 's'
        if p in ('eq', 'ne'):
            # equality is wrap-insensitive when both sides have the same integer window
            pass
        top = 1 << (w - 1) if sp or p in ('eq', 'ne') else 1 << w
        bot = -(1 << (w - 1)) if sp or p in ('eq', 'ne') else 0
        for (lo, hi), e in ((la, a), (lb, b)):
            if e.op == 'v' and not sp and p not in ('eq', 'ne'): continue
            if lo is None or hi is None or lo < bot or hi >= top:
                return None
        d = dict(da)
        for n, k in db.items():
            d[n] = d.get(n, 0) - k
        d = {n: k for n, k in d.items() if k}
        return ca - cb, d, p[-2:]

    # ------------------------------------------------------------------ conditions
    def subst_singles(self, st, e):
        m = {}
        for a in e.atoms:
            d = st.dom(a)
            if len(d.s) == 1 and d.s[0] == d.e[0]:
                m[a] = C(d.s[0], a.w)
        if not m: return e
        return subst(e, m)

    def decide1(self, st, cond):
        if cond.op == 'c': return bool(cond.a[0])
        if len(cond.atoms) != 1: return None
        a, = cond.atoms
        d = st.dom(a)
        try:
            t = X.truth(cond, a, d)
        except Undecided:
            return None
        x = d & t
        if not x: return False
        if x.n == d.n: return True
        return None

    def decide(self, st, cond):
        """True/False/None without changing the state"""
        if cond.op == 'c': return bool(cond.a[0])
        b = st.bf.get(cond)
        if b is not None: return b
        if cond.op == 'not':
            r = self.decide(st, cond.a[0]); return None if r is None else not r
        if cond.op == 'and':
            x = self.decide(st, cond.a[0])
            if x is False: return False
            y = self.decide(st, cond.a[1])
            if y is False: return False
            return True if x and y else None
        if cond.op == 'or':
            x = self.decide(st, cond.a[0])
            if x: return True
            y = self.decide(st, cond.a[1])
            if y: return True
            return False if x is False and y is False else None
        cond = self.subst_singles(st, cond)
        if cond.op == 'c': return bool(cond.a[0])
        if len(cond.atoms) == 1:
            r = self.decide1(st, cond)
            if r is not None: return r
        if cond.op == 'icmp':
            l = self.lincmp(st, cond)
            if l is not None:
                c, d, p = l
                lo, hi = self.lrange(st, c, d)
                r = lin_dec(p, lo, hi)
                if r is None and p in ('eq', 'ne') and d:
                    key, s = self.tkey(d)
                    if c % s == 0 and (key, -c // s) in st.neqs: return p == 'ne'
                if r is not None: return r
            t = X.cmp_rng(cond.a[0], X.rng(cond.a[1], st.rngof), X.rng(cond.a[2], st.rngof), cond.a[1].w)
            if t is not None: return bool(t)
        return None

    def split(self, st, cond):
        """[(state, bool)] covering st, each with cond decided"""
        if cond.op == 'c': return [(st, bool(cond.a[0]))]
        b = st.bf.get(cond)
        if b is not None: return [(st, b)]
        op = cond.op
        if op == 'not':
            return [(s, not v) for s, v in self.split(st, cond.a[0])]
        if op in ('and', 'or'):
            x, y = cond.a
            if self.decide(st, y) is not None and self.decide(st, x) is None: x, y = y, x
            r = []
            for s, v in self.split(st, x):
                if v == (op == 'and'): r += self.split(s, y)
                else: r.append((s, v))
            return r
        if op == 'xor':
            r = []
            for s, v in self.split(st, cond.a[0]):
                r += [(s2, v != v2) for s2, v2 in self.split(s, cond.a[1])]
            return r
        if op == 'sel':
            r = []
            for s, v in self.split(st, cond.a[0]):
                r += self.split(s, cond.a[1] if v else cond.a[2])
            return r
        orig = cond
        cond = self.subst_singles(st, cond)
        if cond.op == 'c': return [(st, bool(cond.a[0]))]
        if cond is not orig and cond.op in ('not', 'and', 'or', 'xor', 'sel'):
            return self.split(st, cond)
        b = st.bf.get(cond)
        if b is not None: return [(st, b)]
        if len(cond.atoms) == 1:
            a, = cond.atoms
            d = st.dom(a)
            try:
                t = X.truth(cond, a, d)
                x = d & t
                if not x: return [(st, False)]
                if x.n == d.n: return [(st, True)]
                y = d - t
                s2 = st.copy()
                st.doms[a] = x
                s2.doms[a] = y
                st.forks += 1; s2.forks += 1
                if a.w == 64 or a.kind in ('len', 'loop'):
                    st.unb += 1; s2.unb += 1
                    self.note_cand(st, cond)
                return [(st, True), (s2, False)]
            except Undecided:
                pass
        if cond.op == 'icmp' and cond.a[0] in ('eq', 'ne') and len(cond.atoms) > 1:
            bs = [catbytes(x) for x in cond.a[1:]]
            if all(bs) and len(bs[0]) == len(bs[1]):
                r = []
                cur = [st]
                for x, y in zip(*bs):
                    nxt = []
                    for s in cur:
                        for s2, v in self.split(s, X.icmp('eq', x, y)):
                            if v: nxt.append(s2)
                            else: r.append((s2, cond.a[0] == 'ne'))
                    cur = nxt
                return r + [(s, cond.a[0] == 'eq') for s in cur]
        if cond.op == 'icmp' and cond.a[0] in ('eq', 'ne') and any(x.op == 'mask' for x in cond.a[1:]) and all(x.op in ('mask', 'c') for x in cond.a[1:]):
            r = []
            cur = [st]
            for x, y in zip(maskbits(cond.a[1]), maskbits(cond.a[2])):
                nxt = []
                for s in cur:
                    for s2, v in self.split(s, X.bitop('xor', x, y)):
                        if v: r.append((s2, cond.a[0] == 'ne'))
                        else: nxt.append(s2)
                cur = nxt
            return r + [(s, cond.a[0] == 'eq') for s in cur]
        if cond.op == 'icmp':
            l = self.lincmp(st, cond)
            if l is not None:
                c, d, p = l
                lo, hi = self.lrange(st, c, d)
                r = lin_dec(p, lo, hi)
                if r is None and p in ('eq', 'ne'):
                    key, s = self.tkey(d)
                    if c % s == 0 and (key, -c // s) in st.neqs: r = p == 'ne'
                if r is not None: return [(st, r)]
                if any(n.w >= 32 or self.small for n in d):
                    s2 = st.copy()
                    neg = {'le': 'gt', 'gt': 'le', 'lt': 'ge', 'ge': 'lt', 'eq': 'ne', 'ne': 'eq'}[p]
                    self.note_cand(st, cond, (c, d))
                    out = []
                    if self.add_fact(st, c, d, p):
                        st.unb += 1; st.forks += 1
                        st.bf[cond] = True
                        out.append((st, True))
                    if self.add_fact(s2, c, d, neg):
                        s2.unb += 1; s2.forks += 1
                        s2.bf[cond] = False
                        out.append((s2, False))
                    return out
            t = X.cmp_rng(cond.a[0], X.rng(cond.a[1], st.rngof), X.rng(cond.a[2], st.rngof), cond.a[1].w)
            if t is not None: return [(st, bool(t))]
            # case split on the side with few distinct values
            best = None
            for side in (cond.a[1], cond.a[2]):
                if len(side.atoms) == 1:
                    a, = side.atoms
                    d = st.dom(a)
                    if a.w <= 32 and d.hi < X.ENUM_MAX:
                        vs, groups = self.valuegroups(side, a, d)
                        if vs is not None and (best is None or len(vs) < len(best[1])):
                            best = (side, vs, groups, a)
            if best is not None and len(best[1]) <= 300:
                side, vs, groups, a = best
                r = []
                for i, v in enumerate(vs):
                    s = st.copy() if i < len(vs) - 1 else st
                    s.doms[a] = groups[i]
                    s.forks += 1
                    nc = X.icmp(cond.a[0], C(v, side.w) if side is cond.a[1] else cond.a[1],
                                C(v, side.w) if side is cond.a[2] else cond.a[2])
                    r += self.split(s, nc)
                return r
        # case split on a small atom
        small = sorted(((st.dom(a).n, a.id, a) for a in cond.atoms if a.w <= 32 and st.dom(a).n <= 256))
        if small and len(cond.atoms) > 1:
            a = small[0][2]
            r = []
            vals = list(st.dom(a))
            for i, v in enumerate(vals):
                s = st.copy() if i < len(vals) - 1 else st
                s.doms[a] = Dom.one(v)
                s.forks += 1
                r += self.split(s, subst(cond, {a: C(v, a.w)}))
            return r
        # opaque
        if OPQ: OPQ(self, st, cond)
        s2 = st.copy()
        st.bf[cond] = True
        s2.bf[cond] = False
        for s in (st, s2):
            s.forks += 1; s.unb += 1; s.opaque += 1
        return [(st, True), (s2, False)]

    def note_cand(self, st, cond, l=None):
        if l is None:
            if cond.op != 'icmp': return
            c1, d1 = self.lin(st, cond.a[1])
            c2, d2 = self.lin(st, cond.a[2])
            d = dict(d1)
            for n, k in d2.items(): d[n] = d.get(n, 0) - k
            l = (c1 - c2, {n: k for n, k in d.items() if k})
        c, d = l
        outer = set()
        for eid in st.entries:
            en = self.entries.get(eid)
            if en is None or not en.cut: continue
            ks = en.katoms
            outer |= ks
            # only quantities that exist at this loop's head: not those of a loop nested in it
            if any(n in ks for n in d) and not any(n.op == 'v' and n.a[0].kind == 'loop' and n not in outer for n in d):
                key, s = self.tkey(d)
                en.cands.add((key, c // s if c % s == 0 else 0))

    def valuegroups(self, e, atom, dom):
        pts = dom.points()
        v = X.values(e, atom, pts)
        u = np.unique(v)
        if len(u) > 300: return None, None
        return [int(x) for x in u], [Dom.of(pts[v == x].tolist()) if len(pts) < 3000 else ptsdom(pts, v == x) for x in u]

    def casesplit(self, st, e, limit=4096):
        """[(state, int value)] -- e becomes a constant in each"""
        e = self.subst_singles(st, e)
        if e.op == 'c': return [(st, e.a[0])]
        if len(e.atoms) == 1:
            a, = e.atoms
            d = st.dom(a)
            if d.n <= (1 << 21) and d.hi < 1 << 33:
                pts = d.points()
                v = X.values(e, a, pts)
                u = np.unique(v)
                if len(u) <= limit:
                    r = []
                    for i, x in enumerate(u):
                        s = st.copy() if i < len(u) - 1 else st
                        s.doms[a] = ptsdom(pts, v == x)
                        if len(u) > 1: s.forks += 1
                        r.append((s, int(x)))
                    return r
        c, d = self.lin(st, e)
        lo, hi = self.lrange(st, c, d)
        if lo is not None and hi is not None and hi - lo <= limit:
            r = []
            for v in range(lo, hi + 1):
                s = st.copy()
                if self.add_fact(s, c - v, d, 'eq'):
                    s.forks += 1
                    r.append((s, v & ((1 << e.w) - 1)))
            return r
        small = sorted(((st.dom(a).n, a.id, a) for a in e.atoms if a.w <= 32 and st.dom(a).n <= 64))
        if small:
            a = small[0][2]
            r = []
            for v in list(st.dom(a)):
                s = st.copy()
                s.doms[a] = Dom.one(v)
                s.forks += 1
                r += self.casesplit(s, subst(e, {a: C(v, a.w)}), limit)
            return r
        raise Unsupported('cannot enumerate %s' % X.show(e))

    # ------------------------------------------------------------------ arithmetic
    def val(self, env, a):
        return env[a] if type(a) is str else a

    def asint(self, v, w=64):
        if isinstance(v, E): return v
        if v is UNDEF: return self.fresh_undef(w)
        if isinstance(v, P): return self.p2i(v)
        if isinstance(v, Fn): return Atom('fnaddr', 64, kind='addr').node
        if isinstance(v, Vec):
            # vector bitcast to integer
            bs = []
            ws = set(x.w for x in v if isinstance(x, E))
            if ws == {1}:
                return mkmask(v)
            return X.cat([b for x in v for b in bytes_of(self.asint(x, 8))])
        raise Unsupported('int of %r' % (v,))

    def binop(self, op, a, b, w=None, flags=()):
        if isinstance(a, Vec) or isinstance(b, Vec):
            n = len(a) if isinstance(a, Vec) else len(b)
            aa = a if isinstance(a, Vec) else [UNDEF] * n
            bb = b if isinstance(b, Vec) else [UNDEF] * n
            return Vec([self.binop(op, x, y) for x, y in zip(aa, bb)])
        if a is UNDEF or b is UNDEF:
            ww = a.w if isinstance(a, E) else b.w if isinstance(b, E) else (w or 64)
            if op == 'and' and ((isinstance(a, E) and a.op == 'c' and a.a[0] == 0) or (isinstance(b, E) and b.op == 'c' and b.a[0] == 0)):
                return C(0, ww)
            return self.fresh_undef(ww)
        a = self.asint(a); b = self.asint(b)
        if a.op == 'mask' or b.op == 'mask':
            if op in ('and', 'or', 'xor') and maskbits(a) and maskbits(b):
                return mkmask([X.bitop(op, x, y) for x, y in zip(maskbits(a), maskbits(b))])
            if op in ('shl', 'lshr') and a.op == 'mask' and b.op == 'c' and b.a[0] < a.w:
                k = b.a[0]; z = [F] * k
                return mkmask(z + maskbits(a)[:a.w - k] if op == 'shl' else maskbits(a)[k:] + z)
        if op == 'add': return X.add(a, b)
        if op == 'sub': return X.sub(a, b)
        if op == 'mul': return X.mul(a, b)
        if op in ('and', 'or', 'xor'): return X.bitop(op, a, b)
        if op == 'shl': return X.shl(a, b)
        if op == 'lshr': return X.lshr(a, b)
        if op == 'ashr':
            if 'exact' in flags and b.op == 'c' and a.op == 'lin':
                return X.sdivrem('sdiv', a, C(1 << b.a[0], a.w))
            return X.ashr(a, b)
        if op == 'udiv': return X.udiv(a, b)
        if op == 'urem': return X.urem(a, b)
        if op in ('sdiv', 'srem'): return X.sdivrem(op, a, b)
        raise Unsupported('binop ' + op)

    def icmp(self, st, pred, a, b):
        if isinstance(a, Vec) or isinstance(b, Vec):
            return Vec([self.icmp(st, pred, x, y) for x, y in zip(a, b)])
        if isinstance(a, Fn) or isinstance(b, Fn):
            eq = a == b
            return T if (pred == 'eq') == eq else F
        if isinstance(a, P) and isinstance(b, P):
            if a.o == b.o:
                p = pred.replace('u', 's') if pred not in ('eq', 'ne') else pred
                return X.icmp(p, a.off, b.off)
            if pred in ('eq', 'ne'):
                return F if pred == 'eq' else T
            if b.o is None and b.off is Z64:
                return {'ult': F, 'uge': T, 'ugt': T, 'ule': F}.get(pred, T)
            return Atom('ptrcmp', 1, kind='opaque').node
        if a is UNDEF or b is UNDEF:
            return self.fresh_undef(1)
        return X.icmp(pred, self.asint(a), self.asint(b))

    def cast(self, op, v, sty, dty, mod):
        if isinstance(v, Vec) and op in ('zext', 'sext', 'trunc'):
            et = mod.resolve(dty[2])
            se = mod.resolve(sty[2])
            return Vec([self.cast(op, x, se, et, mod) for x in v])
        if isinstance(v, E) and v.op == 'mask' and op in ('zext', 'sext', 'trunc'):
            b = maskbits(v)
            return mkmask(b[:dty[1]] + [b[-1] if op == 'sext' else F] * (dty[1] - len(b)))
        if op == 'zext': return UNDEF if v is UNDEF else X.zext(self.asint(v), dty[1])
        if op == 'sext': return UNDEF if v is UNDEF else X.sext(self.asint(v), dty[1])
        if op == 'trunc': return UNDEF if v is UNDEF else X.trunc(self.asint(v), dty[1])
        if op == 'ptrtoint':
            r = self.p2i(v) if not v is UNDEF else self.fresh_undef(64)
            return X.trunc(r, dty[1]) if dty[1] < 64 else r
        if op == 'inttoptr': return self.i2p(X.zext(v, 64) if v.w < 64 else v)
        if op == 'bitcast':
            if sty == dty: return v
            return self.bitcast(v, sty, dty, mod)
        raise Unsupported('cast ' + op)

    def bitcast(self, v, sty, dty, mod):
        if v is UNDEF: return UNDEF
        if is_vec(sty):
            lanes = v
            sw = 64 if sty[2] == 'ptr' else mod.resolve(sty[2])[1]
        else:
            lanes = Vec([v]); sw = sty[1] if sty != 'ptr' else 64
        dv = is_vec(dty)
        dw = (64 if dty[2] == 'ptr' else mod.resolve(dty[2])[1]) if dv else dty[1] if dty != 'ptr' else 64
        n = dty[1] if dv else 1
        if sw == dw:
            out = list(lanes)
        elif sw == 1:
            bits = [x if isinstance(x, E) else self.fresh_undef(1) for x in lanes]
            out = [mkmask(bits[i * dw:(i + 1) * dw]) for i in range(n)]
        elif dw == 1:
            out = []
            for x in lanes:
                x = self.asint(x, sw)
                if x.op == 'mask':
                    out += list(x.a)
                else:
                    out += [X.trunc(X.lshr(x, C(i, x.w)), 1) for i in range(sw)]
        else:
            bs = []
            for x in lanes:
                bs += bytes_of(x if isinstance(x, E) else self.fresh_undef(sw) if x is UNDEF else self.asint(x))
            k = dw // 8
            out = [X.cat(bs[i * k:(i + 1) * k]) for i in range(n)]
        return Vec(out) if dv else out[0]

    # ------------------------------------------------------------------ typed memory
    def tload(self, st, p, ty, f, ins, mod):
        ty = mod.resolve(ty) if isinstance(ty, tuple) else ty
        if ty == 'ptr':
            v = self.load(st, p, 8, f, ins)
            if isinstance(v, E):
                return self.i2p(v)
            return v
        if ty[0] == 'int':
            n = mod.sizeof(ty)
            v = self.load(st, p, (ty[1] + 7) // 8, f, ins)
            if v is UNDEF: return UNDEF
            if not isinstance(v, E): v = self.asint(v)
            return X.trunc(v, ty[1]) if v.w > ty[1] else v
        if ty[0] == 'vec':
            e = mod.resolve(ty[2]) if ty[2] != 'ptr' else 'ptr'
            es = mod.sizeof(e)
            o = self.obj(st, p, ins, f)
            if o is not None and o.kind == 'array':
                self.check_access(st, o, p.off, es * ty[1], f, ins, 'load')
                el = o.elem or es
                bs = []
                for i in range(0, es * ty[1], el):
                    bs += bytes_of(self.arrload(st, st.mem[p.o], X.add(p.off, C(i, 64)), el))
                return Vec([X.cat(bs[i * es:(i + 1) * es]) for i in range(ty[1])])
            return Vec([self.tload(st, P(p.o, X.add(p.off, C(i * es, 64))), e, f, ins, mod) for i in range(ty[1])])
        if ty[0] == 'struct':
            return Vec([self.tload(st, P(p.o, X.add(p.off, C(mod.field_off(ty, i), 64))), t, f, ins, mod) for i, t in enumerate(ty[1])])
        if ty[0] == 'arr':
            s = mod.sizeof(ty[2])
            return Vec([self.tload(st, P(p.o, X.add(p.off, C(i * s, 64))), ty[2], f, ins, mod) for i in range(ty[1])])
        if ty[0] == 'fp':
            return ('fp', '?')
        raise Unsupported('load type %r' % (ty,))

    def tstore(self, st, p, ty, v, f, ins, mod):
        ty = mod.resolve(ty) if isinstance(ty, tuple) else ty
        if isinstance(ty, tuple) and ty[0] in ('vec', 'arr'):
            s = mod.sizeof(ty[2])
            if v is UNDEF: v = [UNDEF] * ty[1]
            for i in range(ty[1]):
                self.tstore(st, P(p.o, X.add(p.off, C(i * s, 64))), ty[2], v[i], f, ins, mod)
            return
        if isinstance(ty, tuple) and ty[0] == 'struct':
            if v is UNDEF: v = [UNDEF] * len(ty[1])
            for i, t in enumerate(ty[1]):
                self.tstore(st, P(p.o, X.add(p.off, C(mod.field_off(ty, i), 64))), t, v[i], f, ins, mod)
            return
        if ty == 'ptr': n = 8
        elif ty[0] == 'int':
            n = (ty[1] + 7) // 8
            if isinstance(v, E) and v.w < 8 * n: v = X.zext(v, 8 * n)
        elif ty[0] == 'fp': n = mod.sizeof(ty)
        else: raise Unsupported('store type %r' % (ty,))
        self.store(st, p, n, v, f, ins)

    # ------------------------------------------------------------------ running
    def newstate(self):
        return State()

    def call(self, f, args, st=None):
        """analyse f from state st with the given argument values; returns live outcomes"""
        if isinstance(f, str):
            g = self.p.find(f)
            if g is None: raise Unsupported('no function ' + f)
            f = g
        st = st or self.newstate()
        self.steps = 0
        self.prep(f)
        env = {pn: a for (_, pn, _), a in zip(f.params, args)}
        self.seen(f)
        st.frames = [Frame(f, env, None)]
        self.outcomes = []
        self.work = [st]
        while self.work:
            s = self.work.pop()
            cut = None
            if isinstance(s, tuple): s, *cut = s
            if self.dead and any(e in self.dead for e in s.entries):
                continue
            if cut:
                self.cutback(s, s.frames[-1], *cut)
                continue
            self.runpath(s)
        outs = [o for o in self.outcomes if not any(e in self.dead for e in o.st.entries)]
        self.findings = [x for x in self.findings if not any(e in self.dead for e in x[4])]
        self.paths += len(outs)
        return outs

    def seen(self, f):
        self.funcs_seen[self.p.dem(f.name)] = self.funcs_seen.get(self.p.dem(f.name), 0) + 1

    def runpath(self, st):
        while True:
            fr = st.frames[-1]
            blk = fr.blk
            L = blk[1]
            i = fr.i
            # run instructions of the block until something changes control
            p = L[i]
            self.steps += 1
            if self.steps > self.maxsteps:
                raise Unsupported('step limit')
            try:
                r = self.step(st, fr, p)
            except NeedSplit as ns:
                for s, v in self.casesplit(st, ns.e):
                    # remember the concretised expression so the retry finds a constant offset
                    s.x.setdefault('conc', {})
                    s.x['conc'] = dict(s.x['conc'])
                    s.x['conc'][ns.e] = v
                    self.work.append(s)
                return
            if r is None:
                fr.i += 1
                continue
            if r is CONT:
                continue
            return

    def setreg(self, st, p, v):
        st.frames[-1].env[p.res] = v

    def conc(self, st, e):
        if e.op == 'c': return e
        c = st.x.get('conc')
        if c:
            v = c.get(e)
            if v is not None: return C(v, e.w)
        e2 = self.subst_singles(st, e)
        return e2

    def step(self, st, fr, p):
        op = p.op
        env = fr.env
        a = p.a
        f = fr.f
        if op == 'load':
            q = self.val(env, a[0])
            if isinstance(q, P) and q.off.op != 'c':
                o = self.obj(st, q, p.ins, f)
                if o is not None and o.kind == 'fixed':
                    q = P(q.o, self.conc(st, q.off))
            env[p.res] = self.tload(st, q, p.ty, f, p.ins, f.mod)
            return None
        if op == 'store':
            q = self.val(env, a[1])
            if isinstance(q, P) and q.off.op != 'c':
                o = self.obj(st, q, p.ins, f)
                if o is not None and o.kind == 'fixed':
                    q = P(q.o, self.conc(st, q.off))
            self.tstore(st, q, p.ty, self.val(env, a[0]), f, p.ins, f.mod)
            return None
        if op == 'br':
            if not a:
                return self.goto(st, fr, p.x[0])
            c = self.val(env, a[0])
            if c is UNDEF: c = self.fresh_undef(1)
            if c.op == 'c':
                return self.goto(st, fr, p.x[0] if c.a[0] else p.x[1])
            outs = self.split(st, c)
            if len(outs) == 1:
                s, v = outs[0]
                if s is st: return self.goto(st, fr, p.x[0] if v else p.x[1])
            for s, v in reversed(outs):
                s.trail = (s.trail, (f, p.ins, v))
                s2 = s
                r = self.goto(s2, s2.frames[-1], p.x[0] if v else p.x[1])
                if r is CONT: self.work.append(s2)
            return STOP
        if op == 'gep':
            b = self.val(env, a[0])
            off, dyn = p.x
            if isinstance(b, Vec): raise Unsupported('vector gep')
            if b is UNDEF:
                env[p.res] = UNDEF
                return None
            if isinstance(b, E): b = self.i2p(b)
            if isinstance(b, Fn):
                raise Unsupported('gep on function')
            o = X.add(b.off, C(off, 64)) if off else b.off
            for n, sz in dyn:
                v = env[n]
                if v is UNDEF: v = self.fresh_undef(64)
                v = self.asint(v)
                if v.w < 64: v = X.sext(v, 64) if not self.nonneg(st, v) else X.zext(v, 64)
                o = X.add(o, X.scale(v, sz))
            env[p.res] = P(b.o, o)
            return None
        if op in ('call', 'invoke'):
            return self.docall(st, fr, p)
        if op == 'icmp':
            env[p.res] = self.icmp(st, p.x, self.val(env, a[0]), self.val(env, a[1]))
            return None
        if op in LL.CAST_OPS:
            env[p.res] = self.cast(op, self.val(env, a[0]), p.x, p.ty, f.mod)
            return None
        if op in LL.BIN_OPS:
            r = env[p.res] = self.binop(op, self.val(env, a[0]), self.val(env, a[1]), p.w, p.x or ())
            if isinstance(r, E) and r.w == 64 and r.op in ('lshr', 'ashr', 'udiv'):
                if r.op == 'ashr':
                    lo, hi = self.lrange(st, *self.lin(st, r.a[0]))
                    if lo is not None and hi is not None and lo >= 0 and hi < 1 << 63: r = env[p.res] = X.lshr(*r.a)
                if r.op in ('lshr', 'udiv'): self.defquot(st, r)
            return None
        if op == 'ret':
            return self.doret(st, fr, p, self.val(env, a[0]) if a else None)
        if op == 'phi':
            raise Unsupported('phi reached')   # phis are evaluated on block entry
        if op == 'select':
            c = self.val(env, a[0])
            x = self.val(env, a[1]); y = self.val(env, a[2])
            if isinstance(c, Vec):
                env[p.res] = Vec([self.vsel(ci, xi, yi) for ci, xi, yi in zip(c, x, y)])
                return None
            if c is UNDEF: c = self.fresh_undef(1)
            if c.op == 'c':
                env[p.res] = x if c.a[0] else y
                return None
            if x is y or (isinstance(x, P) and x == y):
                env[p.res] = x
                return None
            if p.w == 1 and isinstance(x, E) and isinstance(y, E):
                env[p.res] = X.sel(c, x, y)
                return None
            d = self.decide(st, c)
            if d is not None:
                env[p.res] = x if d else y
                return None
            outs = self.split(st, c)
            for s, v in reversed(outs):
                if len(outs) > 1: s.trail = (s.trail, (f, p.ins, v))
                s.frames[-1].env[p.res] = x if v else y
                s.frames[-1].i = fr.i if s is not st else s.frames[-1].i
            k = fr.i + 1
            for s, v in reversed(outs):
                s.frames[-1].i = k
                self.work.append(s)
            return STOP
        if op == 'switch':
            return self.doswitch(st, fr, p)
        if op == 'alloca':
            n = self.val(env, a[0])
            sz = X.scale(n, p.x) if n.w == 64 else X.scale(X.zext(n, 64), p.x)
            oid = self.new_obj(st, 'fixed' if sz.op == 'c' else 'array', sz, name='%' + p.res[1:])
            env[p.res] = P(oid, Z64)
            return None
        if op == 'extractvalue':
            v = self.val(env, a[0])
            for k in p.x:
                v = UNDEF if v is UNDEF else v[k]
            env[p.res] = v
            return None
        if op == 'insertvalue':
            v = self.val(env, a[0])
            env[p.res] = self.insval(f.mod, p.ty, v, p.x, self.val(env, a[1]))
            return None
        if op == 'freeze':
            v = self.val(env, a[0])
            env[p.res] = v
            return None
        if op == 'extractelement':
            v = self.val(env, a[0]); k = self.val(env, a[1])
            if v is UNDEF: env[p.res] = UNDEF
            else: env[p.res] = v[k.a[0]]
            return None
        if op == 'insertelement':
            v = self.val(env, a[0]); k = self.val(env, a[2])
            if v is UNDEF: v = [UNDEF] * p.ty[1]
            v = Vec(v)
            v[k.a[0]] = self.val(env, a[1])
            env[p.res] = v
            return None
        if op == 'shufflevector':
            x = self.val(env, a[0]); y = self.val(env, a[1])
            n = p.ty[1]
            x = [UNDEF] * n if x is UNDEF else list(x)
            y = [UNDEF] * n if y is UNDEF else list(y)
            z = x + y
            env[p.res] = Vec([UNDEF if k is None else z[k] for k in p.x])
            return None
        if op == 'unreachable':
            self.end(st, 'abort', None, fr, p)
            return STOP
        if op in ('fence',):
            return None
        if op in ('landingpad', 'resume'):
            self.end(st, 'abort', None, fr, p)
            return STOP
        if op == 'atomicrmw' or op == 'cmpxchg':
            raise Unsupported(op)
        raise Unsupported(op)

    def nonneg(self, st, v):
        try:
            return X.rng(v, st.rngof)[1] < 1 << (v.w - 1)
        except Exception:
            return False

    def vsel(self, c, x, y):
        if c is UNDEF: return UNDEF
        if c.op == 'c': return x if c.a[0] else y
        if x is UNDEF: x = self.fresh_undef(y.w)
        if y is UNDEF: y = self.fresh_undef(x.w)
        return X.sel(c, x, y)

    def insval(self, mod, ty, v, idx, e):
        ty = mod.resolve(ty)
        n = len(ty[1]) if ty[0] == 'struct' else ty[1]
        v = Vec([UNDEF] * n) if v is UNDEF else Vec(v)
        k = idx[0]
        if len(idx) == 1: v[k] = e
        else: v[k] = self.insval(mod, ty[1][k] if ty[0] == 'struct' else ty[2], v[k], idx[1:], e)
        return v

    def end(self, st, kind, ret, fr, p, x=None):
        self.outcomes.append(Outcome(kind, st, ret, (fr.f, p.ins), x))

    def doret(self, st, fr, p, v):
        if len(st.frames) == 1:
            self.end(st, 'ret', v, fr, p)
            return STOP
        st.frames = st.frames[:-1]
        lo = st.frames[-1].copy()
        st.frames[-1] = lo
        ci = fr.ret
        if ci.res is not None and v is not None:
            lo.env[ci.res] = v
        if fr.ret.op == 'invoke':
            r = self.goto(st, lo, ci.x['normal'])
            return r
        lo.i += 1
        return CONT

    # ------------------------------------------------------------------ control
    def goto(self, st, fr, tgt):
        f = fr.f
        src = fr.blk[0]
        nb = f.bp[tgt]
        L = nb[1]
        i = 0
        if L[0].op == 'phi':
            vals = []
            env = fr.env
            while L[i].op == 'phi':
                p = L[i]
                k = p.x.index(src)
                vals.append((p.res, self.val(env, p.a[k])))
                i += 1
            for n, v in vals:
                env[n] = v
        fr.prev = src
        fr.blk = nb
        fr.i = i
        if tgt in f.headers:
            return self.header(st, fr, f, src, tgt)
        return CONT

    def header(self, st, fr, f, src, h):
        if self.hdrhook is not None:
            # what the hook may need to know: the state the loop was entered with, when this arrival is going to be generalised
            self.hdrbase = None
            if (src, h) in f.back and h in fr.loops:
                eid, n, unb, forks = fr.loops[h]
                en = self.entries[eid]
                if en.cut or st.unb != unb or st.forks > forks and n + 1 > self.forkunroll: self.hdrbase = en.gstate if en.cut else en.snap
            r = self.hdrhook(st, fr, f, src, h)
            if r is STOP or r is CONT: return r
        if (src, h) not in f.back or h not in fr.loops:
            # entering the loop (of an irreducible one also at its middle)
            self.neid += 1
            en = LoopEntry(self.neid, f, h, None)
            snap = st.copy()
            en.snap = snap
            snap.entries = st.entries + (en.id,)
            en.unb0 = st.unb; en.forks0 = st.forks
            en.depth = len(st.frames)
            en.katoms = set()
            self.entries[en.id] = en
            st.entries = st.entries + (en.id,)
            fr.loops = dict(fr.loops)
            fr.loops[h] = (en.id, 0, st.unb, st.forks)
            snap.frames[-1].loops = dict(fr.loops)
            return CONT
        eid, n, unb, forks = fr.loops[h]
        en = self.entries[eid]
        n += 1
        if not en.cut:
            if st.unb == unb and not (st.forks > forks and n > self.forkunroll):
                if n > self.maxunroll: raise Unsupported('loop not bounded in %s' % self.p.dem(f.name))
                fr.loops = dict(fr.loops)
                fr.loops[h] = (eid, n, st.unb, st.forks if n > self.forkunroll else forks)
                return CONT
        if self.work and st.entries and st.entries[-1] != en.id:
            # the path went through inner loops: judge it when those have stabilised (it may be dropped by then)
            self.work.insert(0, (st, f, h, en))
            return STOP
        return self.cutback(st, fr, f, h, en)

    # ------------------------------------------------------------------ loop generalisation
    def phis(self, f, h):
        return [p.res for p in f.bp[h][1] if p.op == 'phi']

    def snapstate(self, en):
        return en.snap

    def cutback(self, st, fr, f, h, en):
        """a back edge reached the header: covered by the generalised state, or generalise further"""
        base = en.gstate if en.cut else en.snap
        benv = base.frames[-1].env
        changed = {}
        gen = en.gen
        new = {}
        for name in self.phis(f, h):
            v = fr.env[name]
            key = ('phi', name)
            if key in gen:
                new[key] = v
                continue
            if not same(v, benv[name]):
                changed[key] = (benv[name], v)
        for oid, bo in base.mem.items():
            so = st.mem.get(oid)
            if so is bo or so is None: continue
            if bo.kind == 'abs': continue
            if bo.kind == 'array':
                if so.log is not bo.log:
                    key = ('log', oid)
                    if key in gen: new[key] = so.log
                    else: changed[key] = None
                if so.x is not bo.x:
                    key = ('x', oid)
                    if key in gen: new[key] = so.x
                    elif so.x != bo.x: changed[key] = (bo.x, so.x)
                if so.size is not bo.size:
                    key = ('size', oid)
                    if key in gen: new[key] = so.size
                    else: changed[key] = (bo.size, so.size)
                continue
            if bo.cells == so.cells: 
                for off in so.cells:
                    if ('cell', oid, off) in gen: new[('cell', oid, off)] = so.cells[off][1]
                continue
            wide = {}       # cells rewritten as a whole inside the loop that were separate before it
            for off, (n, v) in so.cells.items():
                a = bo.cells.get(off)
                if a is not None and a[0] < n and ('cell', oid, off) not in gen: wide[off] = n
            for off in set(bo.cells) | set(so.cells):
                key = ('cell', oid, off)
                a = bo.cells.get(off); b = so.cells.get(off)
                if wide:
                    if off in wide:
                        av = self.rawload(base, bo, C(off, 64), b[0])
                        if not same(av, b[1]): changed[key] = (av, b[1], b[0])
                        continue
                    if a is not None and any(o < off and off + a[0] <= o + n for o, n in wide.items()): continue
                if key in gen:
                    if b is None or b[0] != gen[key]['n']:
                        b = (gen[key]['n'], self.rawload(st, so, C(off, 64), gen[key]['n']))
                    new[key] = b[1]
                    continue
                if a is not None and b is not None and a[0] == b[0] and same(a[1], b[1]): continue
                if a is None:
                    n = b[0]
                    av = self.rawload(base, bo, C(off, 64), n)
                    if same(av, b[1]): continue
                    # a cell that was undefined at the loop head and is assigned inside: whatever it holds at
                    # the head is arbitrary
                    changed[key] = (av, b[1], n)
                elif b is None or a[0] != b[0]:
                    n = a[0]
                    bv = self.rawload(st, so, C(off, 64), n)
                    if not same(a[1], bv): changed[key] = (a[1], bv, n)
                else:
                    changed[key] = (a[1], b[1], a[0])
        for k in self.xstable:
            if st.x.get(k) != base.x.get(k): raise Unsupported('%s changes in a loop of %s' % (k, self.p.dem(f.name)))
        if changed or not en.cut or not self.covered(st, en, new):
            self.regen(en, changed, new, st)
            return STOP
        en.backedges.append((st, new))
        self.outcomes.append(Outcome('backedge', st, None, (f, f.bp[h][1][0].ins), (en, new)))
        return STOP

    def valdom(self, st, v):
        """value set of an integer expression in a state (over-approximate)"""
        v = self.subst_singles(st, v)
        if v.op == 'c': return Dom.one(v.a[0])
        if len(v.atoms) == 1:
            a, = v.atoms
            d = st.dom(a)
            if v.op == 'v': return d
            if d.hi < X.ENUM_MAX and d.n <= X.ENUM_MAX:
                try:
                    return Dom.of(np.unique(X.values(v, a, d.points())).tolist()) if v.w <= 16 or d.n < 70000 else Dom.rng(*X.rng(v, st.rngof))
                except Undecided:
                    pass
        lo, hi = X.rng(v, st.rngof)
        return Dom.rng(lo, hi)

    def lockstep(self, st, lead, key, g, knew):
        """counters sharing an iteration number must agree on its new value; those that agree among themselves stay together"""
        groups = lead.setdefault(g['atom'], [])
        for i, (k0, v0) in enumerate(groups):
            if k0 is key: return i == 0
            if v0 is not knew:
                a = self.subst_singles(st, X.sub(knew, v0))
                if not (a.op == 'c' and a.a[0] == 0 or self.prove_le(st, knew, v0) and self.prove_le(st, v0, knew)): continue
            if i: g['newcls'] = (g['cls'], v0.id)
            return i == 0
        groups.append((key, knew))
        if len(groups) == 1: return True
        g['newcls'] = (g['cls'], knew.id)
        if DEBUG: print('split', keyname(key), X.show(knew), 'from', keyname(groups[0][0]), X.show(groups[0][1]))
        return False

    def twins(self, st, lead, key, g, v):
        """small values that start equal share their atom as long as every path leaves them equal"""
        v = self.subst_singles(st, v)
        groups = lead.setdefault(g['atom'], [])
        for i, (k0, v0) in enumerate(groups):
            if k0 is key: return i == 0
            if v0 is not v: continue
            if i: g['newcls'] = (g['cls'], v0.id)
            return i == 0
        groups.append((key, v))
        if len(groups) == 1: return True
        g['newcls'] = (g['cls'], v.id)
        return False

    def covered(self, st, en, new):
        """new values of generalised cells lie within what the generalised header assumes; invariants hold"""
        ok = True
        sub = {}
        lead = {}
        for key, g in en.gen.items():
            if key not in new:
                # unchanged on this path: the header value itself
                if self.merge and g['kind'] == 'lin' and not self.lockstep(st, lead, key, g, g['atom'].node): ok = False
                if self.merge and g['kind'] == 'int' and not self.twins(st, lead, key, g, g['node']): ok = False
                continue
            v = new[key]
            if g['kind'] == 'int':
                if not isinstance(v, E):
                    if v is UNDEF: continue
                    g['kind'] = 'any'; ok = False; continue
                d = self.valdom(st, v)
                if not d.subset(g['dom']):
                    g['grow'] = g.get('grow', 0) + 1
                    nd = g['dom'] | d
                    if g['grow'] > 4:
                        w = g['w']
                        nd = Dom.rng(0, (1 << w) - 1) if w <= 32 else full(w)
                    g['newdom'] = (g.get('newdom') or g['dom']) | nd
                    ok = False
                if self.merge and not self.twins(st, lead, key, g, v): ok = False
                sub[g['atom']] = v
            elif g['kind'] == 'lin':
                off = v.off if isinstance(v, P) else v
                if isinstance(v, P) and v.o != g['x0'].o or not isinstance(v, (P, E)):
                    raise Unsupported('loop-carried pointer changes object in %s' % self.p.dem(en.func.name))
                x0 = g['x0'].off if isinstance(g['x0'], P) else g['x0']
                d = X.sub(off, x0)
                c, dd = X.linparts(d)
                s = g['stride']
                c = X.sgn(c, 64)
                ks = {n: X.sgn(k, 64) for n, k in dd.items()}
                gg = abs(s)
                for k in list(ks.values()) + [c]:
                    gg = gcd(gg, abs(k))
                if gg != abs(s):
                    g['newstride'] = gcd(g.get('newstride', s), gg) * (1 if s > 0 else -1)
                    ok = False
                    continue
                knew = X.mklin(64, c // s, {n: k // s for n, k in ks.items()})
                g['knew'] = knew
                if self.merge and not self.lockstep(st, lead, key, g, knew):
                    ok = False
                    continue
                sub[g['atom']] = knew
                if not g.get('neg'):
                    lc, ld = self.lin(st, knew)
                    lo, hi = self.lrange(st, lc, ld)
                    if lo is None or lo < 0:
                        g['newneg'] = True
                        ok = False
            elif g['kind'] == 'any':
                pass
        if ok and self.tuples and en.tk:
            t = []
            for key in en.tk:
                v = new.get(key, en.gen[key]['node'])
                d = self.valdom(st, v) if isinstance(v, E) else None
                if d is None or d.n != 1:
                    en.gen[key]['notup'] = True; ok = False; break
                t.append(int(d.s[0]))
            else:
                t = tuple(t)
                if t not in en.tup:
                    if len(en.tup) > 400: 
                        for key in en.tk: en.gen[key]['notup'] = True
                    en.tup.add(t); ok = False
        if not ok: return False
        # invariants
        keep = []
        for inv in en.invs:
            terms, c = inv
            e_c = c
            d = {}
            for n, k in terms:
                if n.op == 'v' and n.a[0] in sub:
                    v = sub[n.a[0]]
                    vc, vd = self.lin(st, v)
                    e_c += k * vc
                    for x, y in vd.items(): d[x] = d.get(x, 0) + k * y
                else:
                    vc, vd = self.lin(st, n)
                    e_c += k * vc
                    for x, y in vd.items(): d[x] = d.get(x, 0) + k * y
            d = {n: k for n, k in d.items() if k}
            lo, hi = self.lrange(st, e_c, d)
            if hi is not None and hi <= 0: keep.append(inv)
        if len(keep) != len(en.invs):
            en.invs2 = [i for i in en.invs if i in keep and (en.invs2 is None or i in en.invs2)] if en.invs2 is not None else keep
            en.dropped |= {i for i in en.invs if i not in keep}
            return False
        # new candidates discovered since this version began?
        if en.fresh_cands():
            return False
        return True

    def regen(self, en, changed, new, st):
        """restart the loop from a more general header state"""
        self.dead.add(en.id)
        self.neid += 1
        n2 = LoopEntry(self.neid, en.func, en.header, None)
        n2.cut = True
        n2.version = en.version + 1
        if DEBUG: print('regen', self.p.dem(en.func.name)[:40], en.header, n2.version, {keyname(k): v for k, v in changed.items()}, {keyname(k): v for k, v in new.items()}, 'invs', len(getattr(en, 'invs', ())), 'dropped', len(getattr(en, 'dropped', ())))
        n2.root = en.root
        if n2.version > 60:
            raise Unsupported('loop in %s does not stabilise' % self.p.dem(en.func.name))
        n2.depth = en.depth
        n2.orig = getattr(en, 'orig', None) or en.snap
        snap = n2.orig.copy()
        snap.entries = tuple(e for e in n2.orig.entries if e != n2.orig.entries[-1]) + (n2.id,)
        n2.unb0 = snap.unb; n2.forks0 = snap.forks
        n2.snap = snap
        n2.gen = {}
        n2.katoms = set()
        n2.dropped = set(getattr(en, 'dropped', set()))
        n2.seen_c = set(getattr(en, 'seen_c', set())) | set(en.cands)
        st2 = snap.copy()
        fr = st2.frames[-1]
        keys = {}
        for k, g in en.gen.items(): keys[k] = g
        for k, cvs in changed.items():
            if k in keys: continue
            keys[k] = self.mkgen(n2, k, cvs, st)
        # install (carry over refined descriptors)
        cls = {}
        twin = {}       # class of equal small values -> [value set, atom]
        if self.merge:
            for k, g in keys.items():
                if g['kind'] != 'int': continue
                g = keys[k] = dict(g)
                nc = g.pop('newcls', None)
                if 'cls' not in g: g['cls'] = (g['w'], g['x0'].id) if isinstance(g['x0'], E) else (g['w'], k)
                if nc is not None: g['cls'] = nc
                tw = twin.setdefault(g['cls'], [g['dom'], None])
                tw[0] = tw[0] | (g['newdom'] if g.get('newdom') is not None else g['dom'])
            used = set()
            for k, g in keys.items():
                if g['kind'] != 'int': continue
                tw = twin[g['cls']]
                if tw[1] is None and 'atom' in g and g.get('lastdom') == tw[0] and g['atom'] not in used: tw[1] = g['atom']; used.add(g['atom'])
        for k, g in keys.items():
            g = dict(g)
            g.pop('knew', None)
            if self.merge and g['kind'] == 'lin':
                # counters advancing in lockstep share their iteration number
                nc = g.pop('newcls', None)
                if nc is not None: g['cls'] = nc; g.pop('atom', None)
                c = (g.setdefault('cls', 0), bool(g.get('neg') or g.get('newneg')), g.get('newstride') or g['stride'])
                c = (c[0], c[1])
                if c in cls: g['atom'] = cls[c]
                elif 'atom' in g and g['atom'] in cls.values(): del g['atom']
            if g.get('newdom') is not None: g['dom'] = g.pop('newdom')
            if g.get('newstride') is not None: g['stride'] = g.pop('newstride')
            if g.pop('newneg', None): g['neg'] = True
            if g['kind'] in ('int', 'lin'):
                if g['kind'] == 'lin':
                    # keep atom identity across versions so that invariants stay valid
                    if 'atom' not in g:
                        g['atom'] = Atom('loop%d.%s' % (en.root, keyname(k)), 64, None, 'loop')
                    if self.merge: cls.setdefault((g['cls'], bool(g.get('neg'))), g['atom'])
                    g['atom'].dom = Dom.rng(0, 1 << 40) if not g.get('neg') else full(64)
                    x0 = g['x0']
                    off0 = x0.off if isinstance(x0, P) else x0
                    off = X.add(off0, X.scale(g['atom'].node, g['stride']))
                    g['node'] = P(x0.o, off) if isinstance(x0, P) else off
                    n2.katoms.add(g['atom'].node)
                else:
                    if self.merge:
                        tw = twin[g['cls']]
                        if tw[1] is None: tw[1] = Atom('loop%d.%s' % (en.root, keyname(k)), g['w'], tw[0], 'loopv')
                        g['dom'] = g['lastdom'] = tw[0]
                        g['atom'] = tw[1]
                    if 'atom' not in g or g.get('lastdom') != g['dom']:
                        g['atom'] = Atom('loop%d.%s' % (en.root, keyname(k)), g['w'], g['dom'], 'loopv')
                        g['lastdom'] = g['dom']
                    g['node'] = g['atom'].node
                    if g['w'] >= 32: n2.katoms.add(g['atom'].node)
            elif g['kind'] == 'any':
                g['node'] = UNDEF
            n2.gen[k] = g
            if k[0] == 'phi':
                fr.env[k[1]] = g['node']
            elif k[0] == 'cell':
                self.rawstore(st2, k[1], C(k[2], 64), g['n'], g['node'])
            elif k[0] == 'log':
                o = st2.wobj(k[1])
                o.log = ((), (Atom('past', 64, full(64), 'past').node, 1 << 40, None, None))
                o.x = o.x
            elif k[0] == 'size':
                st2.wobj(k[1]).size = g['node']
            elif k[0] == 'x':
                st2.wobj(k[1]).x = g['node']
        # invariants: surviving ones plus new candidates that hold on entry
        sub0 = {}
        for k, g in n2.gen.items():
            if g['kind'] == 'lin': sub0[g['atom']] = C(0, 64)
            elif g['kind'] == 'int': sub0[g['atom']] = g['x0'] if isinstance(g['x0'], E) else None
        invs = [i for i in getattr(en, 'invs', []) if i not in n2.dropped]
        cand = []
        for key, c in n2.seen_c:
            for cc in {c, 0, c + 1, c - 1}:
                cand.append((key, cc))                                  # T + cc <= 0
                cand.append((tuple((n, -k) for n, k in key), -cc))      # T + cc >= 0
        ks = list(dict.fromkeys(g['atom'].node for g in n2.gen.values() if g['kind'] == 'lin'))
        if len(ks) <= 6:
            for i in range(len(ks)):
                for j in range(len(ks)):
                    if i != j: cand.append((((ks[i], 1), (ks[j], -1)), 0))
        if self.order:
            # counters and pointers of one stride that keep their order
            gs = {}
            for g in n2.gen.values():
                if g['kind'] == 'lin': gs.setdefault((g['node'].o if isinstance(g['node'], P) else None, abs(g['stride'])), {})[g['node'].off if isinstance(g['node'], P) else g['node']] = 1
            for (o, k), vs in gs.items():
                vs = list(vs)
                if len(vs) > 4: continue
                for a in vs:
                    for b in vs:
                        if a is b: continue
                        cc, d = self.lin(snap, X.sub(a, b))
                        d = tuple(sorted(((n, x) for n, x in d.items() if x), key=lambda q: q[0].id))
                        cand.append((d, cc + k)); cand.append((d, cc))
        for inv in cand:
            if inv in n2.dropped or inv in invs: continue
            if any(n.op == 'v' and n.a[0].kind in ('loop', 'loopv') and n.a[0] not in sub0 and any(n in self.entries[e].katoms for e in self.entries if self.entries[e].root == en.root and e != n2.id) for n, _ in inv[0]):
                continue
            e_c = inv[1]; d = {}
            bad = False
            for n, k in inv[0]:
                v = n
                if n.op == 'v' and n.a[0] in sub0:
                    v = sub0[n.a[0]]
                    if v is None: bad = True; break
                vc, vd = self.lin(snap, v)
                e_c += k * vc
                for x, y in vd.items(): d[x] = d.get(x, 0) + k * y
            if bad: continue
            d = {n: k for n, k in d.items() if k}
            lo, hi = self.lrange(snap, e_c, d)
            if hi is not None and hi <= 0: invs.append(inv)
            else: n2.dropped.add(inv)
        n2.invs = invs
        n2.invs2 = None
        n2.cands = set()
        for terms, c in invs:
            d = {}
            cc = c
            for n, k in terms:
                vc, vd = self.lin(st2, n)
                cc += k * vc
                for x, y in vd.items(): d[x] = d.get(x, 0) + k * y
            d = {n: k for n, k in d.items() if k}
            if d: self.add_fact(st2, cc, d, 'le')
        n2.gstate = st2.copy()
        n2.fresh_cands = lambda n2=n2: n2.version < 30 and any(x not in n2.seen_c and not all(self.trivial(n2, x, s) for s in (1, -1)) for x in n2.cands)
        self.entries[n2.id] = n2
        fr = st2.frames[-1]
        fr.loops = dict(fr.loops)
        fr.loops[en.header] = (n2.id, 0, st2.unb, st2.forks)
        st2.entries = snap.entries
        n2.gstate.entries = snap.entries
        if not self.tuples:
            self.work.append(st2)
            return
        # one header state per combination of small values seen to arrive
        tk = [k for k, g in n2.gen.items() if g['kind'] == 'int' and not g.get('notup') and g['dom'].n <= 64 and g['w'] <= self.tupw]
        first = []
        for k in list(tk):
            x0 = n2.gen[k]['x0']
            d = self.valdom(snap, x0) if isinstance(x0, E) else None
            if d is None or d.n != 1: n2.gen[k]['notup'] = True; tk.remove(k)
            else: first.append(int(d.s[0]))
        n2.tk = tk
        old = en.tup if en.tk == tk else {tuple(t[en.tk.index(k)] for k in tk) for t in en.tup} if en.tk and set(tk) <= set(en.tk) else set()
        n2.tup = old | {tuple(first)}
        if not tk:
            self.work.append(st2)
            return
        for t in n2.tup:
            s3 = st2.copy()
            for k, v in zip(tk, t):
                s3.doms[n2.gen[k]['atom']] = Dom.one(v)
            self.work.append(s3)

    def trivial(self, en, x, s):
        return False

    def mkgen(self, en, key, cvs, st):
        if key[0] == 'log':
            return {'kind': 'log', 'node': None}
        old, new = cvs[0], cvs[1]
        n = cvs[2] if len(cvs) > 2 else None
        if isinstance(old, P) or (isinstance(old, E) and old.w == 64) or (old is UNDEF and isinstance(new, P)):
            if old is UNDEF:
                return {'kind': 'any', 'x0': old, 'n': n}
            if isinstance(old, P) and (not isinstance(new, P) or new.o != old.o):
                raise Unsupported('loop-carried pointer changes object (%r -> %r) in %s' % (old, new, self.p.dem(en.func.name)))
            if isinstance(old, E) and not isinstance(new, E):
                return {'kind': 'any', 'x0': old, 'n': n}
            d = X.sub(new.off, old.off) if isinstance(old, P) else X.sub(new, old)
            c, dd = X.linparts(d)
            s = 0
            for k in [X.sgn(c, 64)] + [X.sgn(k, 64) for k in dd.values()]:
                s = gcd(s, abs(k))
            if not dd and c and X.sgn(c, 64) < 0: s = -s
            return {'kind': 'lin', 'x0': old, 'stride': s or 1, 'n': n}
        if isinstance(old, E):
            d = self.valdom(en.orig if hasattr(en, 'orig') else st, old)
            d2 = self.valdom(st, new) if isinstance(new, E) else full(old.w)
            return {'kind': 'int', 'x0': old, 'w': old.w, 'dom': d | d2, 'n': n}
        if old is UNDEF:
            return {'kind': 'any', 'x0': old, 'n': n}
        raise Unsupported('cannot generalise %r' % (old,))

    # ------------------------------------------------------------------ switch
    def doswitch(self, st, fr, p):
        v = self.val(fr.env, p.a[0])
        if v is UNDEF: v = self.fresh_undef(p.w)
        v = self.subst_singles(st, self.asint(v))
        cases = p.x['cases']
        w = v.w
        m = (1 << w) - 1
        if v.op == 'c':
            for k, t in cases:
                if k & m == v.a[0]: return self.goto(st, fr, t)
            return self.goto(st, fr, p.x['default'])
        if len(v.atoms) == 1:
            a, = v.atoms
            d = st.dom(a)
            if a.w <= 16 or d.hi < X.ENUM_MAX or True:
                groups = {}
                rest = d
                ok = True
                try:
                    for k, t in cases:
                        tr = X.truth(X.icmp('eq', v, C(k, w)), a, d) & d
                        if tr:
                            groups[t] = groups[t] | tr if t in groups else tr
                    allc = EMPTY
                    for g in groups.values(): allc = allc | g
                    rest = d - allc if allc else d
                    if rest: groups[p.x['default']] = groups[p.x['default']] | rest if p.x['default'] in groups else rest
                except Undecided:
                    ok = False
                if ok:
                    items = list(groups.items())
                    if len(items) == 1:
                        return self.goto(st, fr, items[0][0])
                    for t, g in reversed(items):
                        s = st.copy()
                        s.doms[a] = g
                        s.forks += 1
                        s.trail = (s.trail, (fr.f, p.ins, t))
                        if self.goto(s, s.frames[-1], t) is CONT: self.work.append(s)
                    return STOP
        pend = [(st, None)]
        for k, t in cases:
            nxt = []
            for s, _ in pend:
                for s2, b in self.split(s, X.icmp('eq', v, C(k, w))):
                    if b:
                        s2.trail = (s2.trail, (fr.f, p.ins, t))
                        if self.goto(s2, s2.frames[-1], t) is CONT: self.work.append(s2)
                    else: nxt.append((s2, None))
            pend = nxt
        for s, _ in pend:
            if self.goto(s, s.frames[-1], p.x['default']) is CONT: self.work.append(s)
        return STOP

    # ------------------------------------------------------------------ calls
    def model_for(self, name):
        if name in self._modcache: return self._modcache[name]
        d = self.p.dem(name)
        r = None
        for rx, fn in self.models:
            if rx.match(d):
                r = fn
                break
        self._modcache[name] = r
        return r

    def docall(self, st, fr, p):
        f = fr.f
        env = fr.env
        c = p.x['c']
        self.callsites += 1
        if c is None:
            t = env[p.x['cloc']]
            if isinstance(t, Fn):
                mod, name = t.f
            else:
                r = self.indirect(st, fr, p, t, [self.val(env, a) if a is not None else None for a in p.a])
                return self.finish_call(st, fr, p, r)
        elif c[0] == 'asm':
            r = self.asm(st, fr, p, c, [self.val(env, a) if a is not None else None for a in p.a])
            return self.finish_call(st, fr, p, r)
        else:
            mod, name = f.mod, c[1]
        args = [self.val(env, a) if a is not None else None for a in p.a]
        if name.startswith('@llvm.'):
            r = self.intrinsic(st, fr, p, name[6:], args)
            return self.finish_call(st, fr, p, r)
        m = self.model_for(name)
        if m is not None:
            r = m(self, st, fr, p, args)
            if r is not NotImplemented:
                return self.finish_call(st, fr, p, r)
        g = self.p.resolve(mod, name)
        if g is None:
            decl = mod.funcs.get(name)
            if decl is not None and (decl.attr('noreturn') or any(mod.attrgroups.get(x, {}).get('noreturn') for x in p.ins.x['grp'])):
                self.end(st, 'abort', None, fr, p, self.p.dem(name))
                return STOP
            if name in ('@__cxa_guard_acquire',):
                return self.finish_call(st, fr, p, C(1, 32))
            if name in ('@__cxa_guard_release', '@__cxa_guard_abort', '@__cxa_begin_catch', '@__cxa_end_catch', '@_ZdlPv', '@_ZdlPvm', '@free', '@__cxa_atexit'):
                return self.finish_call(st, fr, p, C(0, 32) if p.res else None)
            if name in ('@_Znwm', '@_Znam', '@malloc'):
                n = self.conc(st, args[0])
                oid = self.new_obj(st, 'fixed' if n.op == 'c' else 'array', n, name='heap')
                return self.finish_call(st, fr, p, P(oid, Z64))
            if name in ('@strlen',):
                o = args[0]
                ob = self.obj(st, o, p.ins, f)
                if isinstance(ob.default, Table) and o.off.op == 'c':
                    return self.finish_call(st, fr, p, C(ob.default.data.index(0, o.off.a[0]) - o.off.a[0], 64))
            raise Unsupported('call of unmodelled %s in %s' % (self.p.dem(name), self.p.dem(f.name)))
        if g.attr('noreturn'):
            self.end(st, 'abort', None, fr, p, self.p.dem(name))
            return STOP
        if len(st.frames) > 60:
            raise Unsupported('recursion too deep in ' + self.p.dem(name))
        self.prep(g)
        self.seen(g)
        genv = {}
        for (ty, pn, at), a in zip(g.params, args):
            if 'byval' in at and isinstance(a, P):
                n = g.mod.sizeof(LL.parse_type(LL.Toks(list(at['byval']))))
                oid = self.new_obj(st, 'fixed', C(n, 64), name='byval')
                self.copybytes(st, P(oid, Z64), a, n, f, p.ins)
                a = P(oid, Z64)
            genv[pn] = a
        nf = Frame(g, genv, p)
        st.frames = st.frames[:-1] + [st.frames[-1], nf]
        return CONT

    def copybytes(self, st, d, s, n, f, ins):
        so = self.obj(st, s, ins, f)
        do = self.obj(st, d, ins, f)
        if so is None or do is None: return
        self.check_access(st, so, s.off, n, f, ins, 'load')
        self.check_access(st, do, d.off, n, f, ins, 'store')
        soff = self.conc(st, s.off) if so.kind == 'fixed' else s.off
        doff = self.conc(st, d.off) if do.kind == 'fixed' else d.off
        if isinstance(do.default, Table) or do.ro:
            self.finding('rostore', st, f, ins, 'memcpy to constant object'); return
        parts = []
        if so.kind == 'fixed' and soff.op == 'c':
            k = X.sgn(soff.a[0], 64)
            i = 0
            while i < n:
                c = so.cells.get(k + i)
                if c is not None and c[0] <= n - i:
                    parts.append((i, c[0], c[1])); i += c[0]
                else:
                    rd = [(kk, nn) for (kk, nn) in so.reads if isinstance(kk, int) and kk == k + i and nn <= n - i] if so.default in ('input', 'global') else []
                    if rd:
                        kk, nn = rd[0]
                        parts.append((i, nn, so.reads[rd[0]])); i += nn
                    else:
                        parts.append((i, 1, self.bytecell(st, so, k + i))); i += 1
        elif so.kind == 'fixed':
            if isinstance(so.default, Table) and not so.cells:
                for i in range(n): parts.append((i, 1, X.ld(so.default, X.add(soff, C(i, 64)), 1)))
            else:
                raise NeedSplit(soff)
        else:
            es = so.elem or 1
            for i in range(0, n, es): parts.append((i, es, self.rawload(st, st.mem[s.o], X.add(soff, C(i, 64)), es)))
        for i, m, v in parts:
            self.rawstore(st, d.o, X.add(doff, C(i, 64)), m, v, loc_of(f, ins))

    def finish_call(self, st, fr, p, r):
        if r is STOP: return STOP
        if isinstance(r, list) and not isinstance(r, Vec):
            k = fr.i
            for s, v in reversed(r):
                t = s.frames[-1]
                if p.res is not None: t.env[p.res] = v
                if p.op == 'invoke':
                    if self.goto(s, t, p.x['normal']) is CONT: self.work.append(s)
                else:
                    t.i = k + 1
                    self.work.append(s)
            return STOP
        if p.res is not None:
            fr = st.frames[-1]
            fr.env[p.res] = r
        if p.op == 'invoke':
            return self.goto(st, st.frames[-1], p.x['normal'])
        st.frames[-1].i += 1
        return CONT

    def indirect(self, st, fr, p, t, args):
        raise Unsupported('indirect call in %s' % self.p.dem(fr.f.name))

    def asm(self, st, fr, p, c, args):
        if c[1] in ('""', '" "'):
            return None
        if 'cpuid' in c[1] or 'xgetbv' in c[1]:
            regs = [x.strip('"=&{}') for x in c[2].split(',') if x.strip('"').startswith('=')]
            ins = [x.strip('"{}') for x in c[2].split(',') if x.strip('"')[0] not in '=~']
            arg = {}
            for x, v in zip(ins, args):
                arg[{'a': 'ax', 'b': 'bx', 'c': 'cx', 'd': 'dx'}.get(x, regs[int(x)] if x.isdigit() else x)] = self.conc(st, v)
            return self.cpureg(st, fr, p, 'cpuid' if 'cpuid' in c[1] else 'xgetbv', arg, [r if r in ('ax', 'bx', 'cx', 'dx') else 'bx' for r in regs])
        raise Unsupported('inline asm %s' % c[1])

    def cpureg(self, st, fr, p, kind, arg, regs):
        """processor identification: registers of independent bits, the same for the same leaf"""
        lf = arg.get('ax' if kind == 'cpuid' else 'cx'); sub = arg.get('cx') if kind == 'cpuid' else None
        if lf is None or lf.op != 'c' or (sub is not None and sub.op != 'c'): raise Unsupported('cpuid of a computed leaf')
        key = (kind, int(lf.a[0]), int(sub.a[0]) if sub is not None and int(lf.a[0]) >= 4 else 0)
        cpu = st.x.get('cpu', {})
        if key not in cpu:
            nm = '%s%d.' % key[:2]
            st.x['cpu'] = cpu = dict(cpu)
            cpu[key] = {r: Atom(nm + r, 32, kind='env').node if key == ('cpuid', 0, 0) else
                        mkmask([Atom('%s%s.%d' % (nm, r, i), 1, kind='env').node for i in range(32)]) for r in ('ax', 'bx', 'cx', 'dx')}
        st.event('cpu', key, {k: {r: v for r, v in c.items()} for k, c in cpu.items()}, dict(st.doms), p.ins)
        return Vec([cpu[key][r] for r in regs])

    def intrinsic(self, st, fr, p, name, args):
        b = name
        if self.lifetimes and b.startswith('lifetime') and isinstance(args[1], P) and args[1].off is Z64 and args[1].o in st.mem and st.mem[args[1].o].kind == 'fixed':
            o = st.wobj(args[1].o); o.cells = {}; o.reads = {}
            return None
        if b.startswith(('lifetime', 'dbg', 'assume', 'experimental', 'donothing', 'invariant', 'prefetch', 'annotation')):
            return None
        if b.startswith(('memcpy', 'memmove')):
            n = self.conc(st, args[2])
            if n.op == 'c':
                if n.a[0] == 0: return None
                if isinstance(args[0], P) and isinstance(args[1], P):
                    self.copybytes(st, args[0], args[1], n.a[0], fr.f, p.ins)
                    return None
            return self.bigcopy(st, fr, p, args, n)
        if b.startswith('memset'):
            n = self.conc(st, args[2])
            o = self.obj(st, args[0], p.ins, fr.f)
            if n.op != 'c':
                self.check_access(st, o, args[0].off, 0, fr.f, p.ins, 'store')
                return self.bigset(st, fr, p, args, n)
            if n.a[0] == 0: return None
            self.check_access(st, o, args[0].off, n.a[0], fr.f, p.ins, 'store')
            off = self.conc(st, args[0].off) if o.kind == 'fixed' else args[0].off
            v = args[1]
            k = 0
            N = n.a[0]
            while k < N:
                for s in (8, 4, 2, 1):
                    if N - k >= s and v.op == 'c': break
                else: s = 1
                self.rawstore(st, args[0].o, X.add(off, C(k, 64)), s, X.cat([v] * s), loc_of(fr.f, p.ins))
                k += s
            return None
        if b.startswith(('umin', 'umax', 'smin', 'smax')):
            x, y = args
            pred = {'umin': 'ult', 'umax': 'ugt', 'smin': 'slt', 'smax': 'sgt'}[b[:4]]
            if isinstance(x, Vec):
                return Vec([X.sel(self.icmp(st, pred, i, j), i, j) for i, j in zip(x, y)])
            return [(s, x if v else y) for s, v in self.split(st, self.icmp(st, pred, x, y))]
        if b.startswith('abs.'):
            x = args[0]
            return [(s, x if v else X.sub(C(0, x.w), x)) for s, v in self.split(st, X.icmp('sge', x, C(0, x.w)))]
        if b.startswith(('cttz', 'ctlz', 'ctpop')):
            x = self.asint(args[0])
            nm = b.split('.')[0]
            if x.op == 'mask' and nm == 'cttz':
                out = []
                cur = [st]
                for i, bit in enumerate(x.a):
                    nxt = []
                    for s in cur:
                        for s2, v in self.split(s, bit):
                            if v: out.append((s2, C(i, x.w)))
                            else: nxt.append(s2)
                    cur = nxt
                for s in cur: out.append((s, C(x.w, x.w)))
                return out
            return X.func1(nm, x, x.w)
        if b.startswith('expect'):
            return args[0]
        if b.startswith('is.constant'):
            return F
        if b.startswith('trap') or b.startswith('ubsantrap'):
            self.end(st, 'abort', None, fr, p, 'trap')
            return STOP
        if b.startswith('vector.reduce.'):
            op = b.split('.')[2]
            v = list(args[0])
            r = v[0]
            for x in v[1:]:
                r = self.binop({'or': 'or', 'and': 'and', 'xor': 'xor', 'add': 'add'}[op], r, x)
            return r
        if b.startswith('x86.'):
            r = self.x86(st, fr, p, b[4:], args)
            if r is not None: return r
        if b.startswith(('uadd.with.overflow', 'usub.with.overflow', 'umul.with.overflow', 'sadd.with', 'ssub.with', 'smul.with')):
            x, y = args
            op = b[1:4]
            w = x.w
            ext = X.zext if b[0] == 'u' else X.sext
            if w < 64:
                wide = self.binop(op, ext(x, 2 * w), ext(y, 2 * w))
                r = X.trunc(wide, w)
                ov = X.icmp('ne', ext(r, 2 * w), wide)
                return Vec([r, ov])
            r = self.binop(op, x, y)
            if op == 'add' and b[0] == 'u': return Vec([r, X.icmp('ult', r, x)])
            if op == 'sub' and b[0] == 'u': return Vec([r, X.icmp('ult', x, y)])
            if y.op == 'c' and b[0] == 'u': return Vec([r, X.icmp('ugt', x, C(((1 << 64) - 1) // max(1, y.a[0]), 64))])
            return Vec([r, Atom('ovf', 1, kind='opaque').node])
        if b.startswith('usub.sat'):
            x, y = args
            if isinstance(x, Vec):
                return Vec([X.sel(X.icmp('ult', i, j), C(0, i.w), X.sub(i, j)) for i, j in zip(x, y)])
            return X.sel(X.icmp('ult', x, y), C(0, x.w), X.sub(x, y))
        if b.startswith(('eh.typeid', 'stacksave', 'stackrestore')):
            return C(0, 32) if p.res else None
        if b.startswith('fshl') or b.startswith('fshr'):
            x, y, k = args
            if k.op == 'c':
                n = k.a[0] % x.w
                if n == 0: return x if b.startswith('fshl') else y
                if b.startswith('fshl'): return X.bitop('or', X.shl(x, C(n, x.w)), X.lshr(y, C(x.w - n, x.w)))
                return X.bitop('or', X.lshr(y, C(n, x.w)), X.shl(x, C(x.w - n, x.w)))
        if b.startswith('bswap'):
            return X.cat(bytes_of(args[0])[::-1])
        raise Unsupported('intrinsic ' + name)

    def bigcopy(self, st, fr, p, args, n):
        raise Unsupported('memcpy of symbolic size in %s' % self.p.dem(fr.f.name))

    def bigset(self, st, fr, p, args, n):
        raise Unsupported('memset of symbolic size in %s' % self.p.dem(fr.f.name))

    def x86(self, st, fr, p, name, args):
        if 'pmovmskb' in name:
            v = args[0]
            bits = [X.icmp('slt', x if isinstance(x, E) else self.fresh_undef(8), C(0, 8)) for x in v]
            w = 32
            return mkmask(bits + [F] * (w - len(bits)))
        return None


def mkmask(bits):
    """integer whose bit i is bits[i]"""
    w = len(bits)
    if all(b.op == 'c' for b in bits):
        return C(sum(b.a[0] << i for i, b in enumerate(bits)), w)
    return X.mk('mask', w, tuple(bits), X.un(*bits))


def catbytes(e):
    """the bytes of a value put together from independent bytes"""
    if e.op == 'c': return bytes_of(e) if e.w > 8 and e.w % 8 == 0 else None
    if e.op == 'cat': return list(e.a) if all(x.w == 8 for x in e.a) else None
    if e.op in ('and', 'or', 'xor') and e.w > 8:
        x, y = catbytes(e.a[0]), catbytes(e.a[1])
        if x and y and len(x) == len(y): return [X.bitop(e.op, i, j) for i, j in zip(x, y)]
    return None


def maskbits(e):
    if e.op == 'mask': return list(e.a)
    if e.op == 'c': return [C(e.a[0] >> i & 1, 1) for i in range(e.w)]
    if e.op == 'zext' and e.a[0].w == 1: return [e.a[0]] + [F] * (e.w - 1)
    return None


def globs_in(o):
    if isinstance(o, tuple):
        if o[0] == 'glb':
            yield o[1]
        elif o[0] == 'cexpr':
            for x in o[1:]:
                if isinstance(x, tuple): yield from globs_in(x)
                elif isinstance(x, list):
                    for y in x:
                        yield from globs_in(y[1] if isinstance(y, tuple) and len(y) == 2 else y)
        elif o[0] == 'agg':
            for _, v in o[1]: yield from globs_in(v)


class Sentinel:
    def __init__(self, n): self.n = n
    def __repr__(self): return self.n


CONT = Sentinel('cont')
STOP = Sentinel('stop')


class NeedSplit(Exception):
    def __init__(self, e):
        self.e = e


def keyname(k):
    return k[1].lstrip('%') if k[0] == 'phi' else '%s+%s' % (k[1], k[2] if len(k) > 2 else k[0])


def same(a, b):
    if a is b: return True
    if isinstance(a, (P, Fn)) or isinstance(b, (P, Fn)): return a == b
    if isinstance(a, Vec) and isinstance(b, Vec):
        return len(a) == len(b) and all(same(x, y) for x, y in zip(a, b))
    return False


def gcd(a, b):
    while b: a, b = b, a % b
    return a


def mx(a, b):
    return b if a is None else a if b is None else max(a, b)


def mn(a, b):
    return b if a is None else a if b is None else min(a, b)


def lin_dec(p, lo, hi):
    if p == 'le':
        if hi is not None and hi <= 0: return True
        if lo is not None and lo > 0: return False
    elif p == 'lt':
        if hi is not None and hi < 0: return True
        if lo is not None and lo >= 0: return False
    elif p == 'ge':
        if lo is not None and lo >= 0: return True
        if hi is not None and hi < 0: return False
    elif p == 'gt':
        if lo is not None and lo > 0: return True
        if hi is not None and hi <= 0: return False
    else:
        if lo is not None and hi is not None and lo == hi == 0: return p == 'eq'
        if (lo is not None and lo > 0) or (hi is not None and hi < 0): return p == 'ne'
    return None


def bytes_of(x):
    return [X.byte(x, i) for i in range(x.w // 8)]


def ptsdom(pts, sel):
    v = pts[sel]
    if len(v) == 0: return EMPTY
    v = v.astype(np.int64)
    br = np.flatnonzero(np.diff(v) != 1)
    s = v[np.concatenate(([0], br + 1))]
    e = v[np.concatenate((br, [len(v) - 1]))]
    return Dom(s.tolist(), e.tolist())


# ------------------------------------------------------------------ substitution
def subst(e, m, memo=None):
    """replace atoms by expressions"""
    if not e.atoms or not any(a in m for a in e.atoms): return e
    if memo is None: memo = {}
    r = memo.get(e)
    if r is not None: return r
    op = e.op
    a = e.a
    S = lambda x: subst(x, m, memo)
    if op == 'v': r = m.get(a[0], e)
    elif op == 'lin':
        r = C(a[0], e.w)
        for n, k in a[1]: r = X.add(r, X.scale(S(n), k))
    elif op in ('and', 'or', 'xor'): r = X.bitop(op, S(a[0]), S(a[1]))
    elif op == 'not': r = X.bnot(S(a[0]))
    elif op == 'shl': r = X.shl(S(a[0]), S(a[1]))
    elif op == 'lshr': r = X.lshr(S(a[0]), S(a[1]))
    elif op == 'ashr': r = X.ashr(S(a[0]), S(a[1]))
    elif op == 'udiv': r = X.udiv(S(a[0]), S(a[1]))
    elif op == 'urem': r = X.urem(S(a[0]), S(a[1]))
    elif op in ('sdiv', 'srem'): r = X.sdivrem(op, S(a[0]), S(a[1]))
    elif op == 'mul': r = X.mul(S(a[0]), S(a[1]))
    elif op == 'zext': r = X.zext(S(a[0]), e.w)
    elif op == 'sext': r = X.sext(S(a[0]), e.w)
    elif op == 'trunc': r = X.trunc(S(a[0]), e.w)
    elif op == 'byte': r = X.byte(S(a[0]), a[1])
    elif op == 'cat': r = X.cat([S(x) for x in a])
    elif op == 'sel': r = X.sel(S(a[0]), S(a[1]), S(a[2]))
    elif op == 'ld': r = X.ld(a[0], S(a[1]), a[2])
    elif op == 'icmp': r = X.icmp(a[0], S(a[1]), S(a[2]))
    elif op in ('ctpop', 'cttz', 'ctlz'): r = X.func1(op, S(a[0]), e.w)
    elif op == 'mask': r = mkmask([S(x) for x in a])
    else: raise Unsupported('subst ' + op)
    memo[e] = r
    return r
