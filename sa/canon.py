"""Finite exploration of a scanner over a text of unknown length.

At every loop header the state is rewritten so that positions are known only relative to a few named positions (how far the text was read,
where the last match ended), everything else that is neither constant nor so related is forgotten, and a state that was seen before is not
followed again.  The states are finitely many as long as the control state of the scanner is finite, so all texts are covered."""
import engine as G
import expr as X
from dom import Dom
from engine import C, P, UNDEF, Z64

TOP = 1 << 40


def names(x, out):
    if type(x) is str:
        if x.startswith('%'): out.add(x)
    elif isinstance(x, (list, tuple)):
        for y in x: names(y, out)


_live = {}


def live(f):
    """values needed from each block on (after its phis)"""
    if f in _live: return _live[f]
    use, dfn, phid, phiu = {}, {}, {}, {}
    for b, (_, L, succ) in f.bp.items():
        u, d, pd, pu = set(), set(), set(), {}
        for p in L:
            if p.op == 'phi':
                pd.add(p.res)
                for k, src in enumerate(p.x):
                    s = set(); names(p.a[k], s)
                    pu.setdefault(src, set()).update(s)
                continue
            s = set(); names(p.a, s); names(p.x if isinstance(p.x, (list, tuple)) else list(p.x.values()) if isinstance(p.x, dict) else p.x, s)
            u |= s - d
            if p.res: d.add(p.res)
        use[b], dfn[b], phid[b], phiu[b] = u, d, pd, pu
    inn = {b: set(use[b]) for b in use}
    ch = True
    while ch:
        ch = False
        for b, (_, L, succ) in f.bp.items():
            o = set()
            for s in succ: o |= (inn[s] - phid[s]) | phiu[s].get(b, set())
            n = use[b] | (o - dfn[b])
            if n != inn[b]: inn[b] = n; ch = True
    # a block's own phis may be needed in it
    out = {b: inn[b] for b in inn}
    _live[f] = out
    return out


class Canon:
    def __init__(self, e, keep, bases, texts, roots, lim=2, only=None, forget=None, gap=3, rounds=100, symbols=None, extra=None, consts=(), track=(), reads=None, wait=None, ordered=None):
        """keep: expressions whose atoms stay; bases: [(name, fn(state) -> expression)]; texts: array objects whose remembered reads follow; roots: objects that stay"""
        self.e = e
        self.keep = keep; self.katoms = frozenset(a for k in keep for a in k.atoms)
        self.bases = bases; self.texts = set(texts); self.roots = set(roots)
        self.lim = lim; self.only = only; self.forget = forget; self.gap = gap; self.rounds = rounds
        self.symbols = symbols; self.extra = extra; self.consts = set(consts)    # values renamed at every arrival; what else belongs to the state; objects nothing writes
        self.ordered = ordered       # only the order relative to these matters
        self.wait = wait             # states in the middle of a step are followed as they are
        self.reads = reads           # whether the characters looked at so far matter
        self.track = set(track)      # cells (object, offset) known to hold a position, though it is a constant at first
        self.atoms = {}
        self.seen = {}
        self.arrivals = 0
        self.edges = {}
        self.done = None             # nothing more needs to be looked at
        e.hdrhook = self.hook

    def atom(self, key, w, dom=None):
        a = self.atoms.get(key)
        if a is None: a = self.atoms[key] = X.Atom('_'.join(str(k) for k in key), w, dom or Dom([0], [(1 << w) - 1]), kind='undef' if key[0] == 'undef' else 'v')
        return a.node

    def hook(self, st, fr, f, src, h):
        if self.done is not None and self.done(): return G.STOP
        if self.only is not None and not self.only(f, h):
            n = st.x['rounds'] = st.x.get('rounds', 0) + 1
            if n < self.rounds: return G.CONT
        if self.wait is not None and self.wait(st):
            n = st.x['rounds'] = st.x.get('rounds', 0) + 1
            if n < self.rounds: return G.CONT
        self.arrivals += 1
        # a few rounds of the inner loops are followed as they are
        n = st.x['rounds'] = st.x.get('rounds', 0) + 1
        if n < self.rounds and not st.x.get('progress') and 'canon' in st.x: return G.CONT
        # a truth value that depends on positions is followed either way
        c = self.truth(st)
        if c is not None:
            for s, b in self.e.split(st.copy(), c):
                self.arrivals -= 1
                if self.hook(s, s.frames[-1], f, src, h) is G.CONT: self.e.work.append(s)
            return G.STOP
        if st.x.get('progress'): st.x['rounds'] = 0
        key = self.rewrite(st)
        new = key not in self.seen
        n = self.seen.setdefault(key, len(self.seen))
        if not st.x.pop('progress', False) and 'canon' in st.x: self.edges.setdefault(st.x['canon'], {})[n] = G.loc_of(f, f.bp[h][1][0].ins)
        st.x['canon'] = n
        return G.CONT if new else G.STOP

    def walk(self, bads, f, args, st):
        """the outcomes of the call; once something is wrong nothing more is looked at"""
        self.done = lambda: bool(bads)
        try: outs = self.e.call(f, args, st)
        except Exception:
            if bads: return []
            raise
        return [] if bads else outs

    def stuck(self):
        """place of a cycle of states without progress (st.x['progress'] set by the models), or None"""
        color = {}
        for r in self.edges:
            if r in color: continue
            todo = [(r, iter(self.edges.get(r, {}).items()))]
            color[r] = 1
            while todo:
                n, it = todo[-1]
                for m, loc in it:
                    if color.get(m) == 1: return loc
                    if m not in color:
                        color[m] = 1; todo.append((m, iter(self.edges.get(m, {}).items()))); break
                else: color[n] = 2; todo.pop()
        return None

    # ------------------------------------------------------------------ values
    def rel(self, st, v):
        """the expression relative to the named positions, or None"""
        e = self.e
        if v.op == 'c': return v
        if v.w < 64 and v.atoms <= self.katoms: return v
        for sc in (1, 4) if v.w == 64 else ():
            for name, old, new in self.map + [(None, k, k) for k in self.keep]:
                d = e.subst_singles(st, X.sub(v, X.scale(old, sc)))
                if d.op == 'c':
                    k = X.sgn(d.a[0], 64)
                    if k % sc == 0 and abs(k // sc) <= self.lim: return X.add(X.scale(new, sc), d)
        return None

    def truth(self, st):
        """an undecided truth value about positions that would be forgotten, or None"""
        e = self.e
        for i, fr in enumerate(st.frames):
            last = i == len(st.frames) - 1
            L = live(fr.f)[fr.blk[0]] if last else None
            for n, v in fr.env.items():
                if L is not None and n not in L and fr.i <= sum(p.op == 'phi' for p in fr.blk[1]): continue
                c = cond(v)
                if c is not None and e.decide(st, c) is None: return c
        for o, ob in st.mem.items():
            if o in self.texts or o in self.consts or ob.kind != 'fixed': continue
            for n, v in ob.cells.values():
                c = cond(v)
                if c is not None and e.decide(st, c) is None: return c

    def value(self, st, v, where):
        if v is None or v is UNDEF or isinstance(v, G.Fn): return v
        if isinstance(v, P):
            if v.o is None: return P(None, self.value(st, v.off, where)) if isinstance(v.off, X.E) else v
            off = self.rel(st, self.e.subst_singles(st, v.off))
            if off is None: off = self.atom(where + ('off',), 64)
            return P(v.o, off)
        if isinstance(v, G.Vec): return G.Vec([self.value(st, x, where + (i,)) for i, x in enumerate(v)])
        c = cond(v)
        if c is not None:
            b = self.e.decide(st, c)
            if b is not None: return C(int(b), v.w)
        if isinstance(v, X.E):
            if where[0] == 'm' and self.track and v.op == 'c' and any(self.ren.get(t[0]) == where[1] and t[1] == where[2] for t in self.track):
                for name, old, new in self.map:
                    if old.op == 'c' and abs(v.a[0] - old.a[0]) <= self.lim: return X.add(new, C((v.a[0] - old.a[0]) & (1 << 64) - 1, 64))
            if v in self.chars: return self.chars[v]
            v = self.e.subst_singles(st, v)
            if any(a.kind == 'undef' for a in v.atoms):
                r = self.parts(v, where)
                return self.atom(('undef',) + where, v.w) if r is None else r
            if v in self.chars: return self.chars[v]
            r = self.rel(st, v)
            if r is None: r = self.parts(v, where)
            return self.atom(where, v.w) if r is None else r
        raise G.Unsupported('value %r at a loop' % (v,))

    def parts(self, v, where):
        """a value put together from characters, constants and other bytes"""
        if v.w % 8 or v.w <= 8: return None
        bs = [X.byte(v, i) for i in range(v.w // 8)]
        out = []
        known = False
        while len(out) < len(bs):
            i = len(out)
            x = X.cat(bs[i:i + 4]) if i % 4 == 0 and i + 4 <= len(bs) else None
            if x is not None and x in self.chars:
                out += [X.byte(self.chars[x], k) for k in range(4)]; known = True
            else:
                if bs[i].op == 'c': known = True; out.append(bs[i])
                elif any(a.kind == 'undef' for a in bs[i].atoms): out.append(self.atom(('undef',) + where + ('byte', i), 8))
                else: out.append(self.atom(where + ('byte', i), 8))
        return X.cat(out) if known else None

    def rewrite(self, st):
        e = self.e
        self.map = []
        old = []
        for name, get in self.bases:
            o = e.subst_singles(st, get(st))
            r = None if self.track and o.op == 'c' else self.rel(st, o)
            if r is None:
                r = self.atom(('at', name), 64, Dom([0], [TOP]))
                self.map.append((name, o, r))
            else: self.map.append((name, o, r))
            old.append((o, r))
        # what is known about the order of the positions
        nodes = old + [(k, k) for k in self.keep] + [(Z64, Z64)]
        facts = []
        for i, (a, ra) in enumerate(nodes):
            for b, rb in nodes[i + 1:]:
                if self.ordered is not None and a not in self.ordered and b not in self.ordered: continue
                if X.sub(ra, rb).op == 'c' or self.track and a.op == 'c' and b.op == 'c': continue
                c, dd = e.lin(st, X.sub(a, b))
                lo, hi = e.lrange(st, c, dd)
                if hi is not None and hi <= 0: facts.append((ra, rb, max(hi, -self.gap)))
                if lo is not None and lo >= 0: facts.append((rb, ra, max(-lo, -self.gap)))
        # characters looked at
        self.chars = {} if self.symbols is None else dict(self.symbols(st))
        reads = {}
        for t in sorted(self.texts):
            if self.reads is not None and not self.reads(st): continue
            o = st.mem[t]
            for (off, k), v in o.reads.items():
                r = self.rel(st, e.subst_singles(st, off))
                if r is None: continue
                v = e.subst_singles(st, v)
                if v.op == 'c': reads[(t, r, k)] = v; continue
                n = self.atom(('read', t, r.id, k), v.w, next(iter(v.atoms)).dom)
                self.chars[v] = n; reads[(t, r, k)] = n
        key = [tuple((a.id, b.id, k) for a, b, k in facts), tuple(sorted((t, r.id, k, v.id) for (t, r, k), v in reads.items()))]
        # objects are told apart by how they are reached, not by when they were made
        fixed = set(self.roots) | self.texts | self.consts
        ren = self.ren = {o: o for o in fixed}
        todo = []
        def number(v):
            if isinstance(v, P):
                if v.o is not None and not isinstance(v.o, tuple) and v.o not in ren: ren[v.o] = len(ren); todo.append(v.o)
            elif isinstance(v, G.Vec):
                for x in v: number(x)
        for i, fr in enumerate(st.frames):
            L = live(fr.f)[fr.blk[0]] if i == len(st.frames) - 1 else None
            for n in sorted(fr.env):
                if L is not None and n not in L and fr.i <= sum(p.op == 'phi' for p in fr.blk[1]): continue
                number(fr.env[n])
        todo = sorted(o for o in self.roots if o in st.mem) + todo
        while todo:
            o = todo.pop(0)
            if o in st.mem and o not in self.texts and o not in self.consts and st.mem[o].kind == 'fixed':
                for k, (n, v) in sorted(st.mem[o].cells.items()): number(v)
        # frames
        reach = set(self.roots) | self.texts
        for i, fr in enumerate(st.frames):
            b = fr.blk[0]
            L = live(fr.f)[b] if i == len(st.frames) - 1 else None
            env = {}
            for n in sorted(fr.env):
                if L is not None and n not in L and fr.i <= sum(p.op == 'phi' for p in fr.blk[1]): continue
                env[n] = self.value(st, fr.env[n], ('v', i, n))
            if i < len(st.frames) - 1: fr = st.frames[i] = fr.copy()
            fr.env = env
            fr.loops = {}
            key.append((fr.f.name, b, fr.i, tuple((n, ident(v, ren)) for n, v in env.items())))
            for v in env.values(): objs(v, reach)
        # memory that can still be reached
        todo, done = sorted(reach), set()
        mk = []
        while todo:
            o = todo.pop()
            if o in done or o not in st.mem: continue
            done.add(o)
            ob = st.mem[o]
            if o in self.texts or o in self.consts or ob.kind != 'fixed': continue
            cells = {k: (n, self.value(st, v, ('m', ren.get(o, o), k))) for k, (n, v) in ob.cells.items()}
            if self.forget is not None:
                for k, w in list(self.forget(o, cells)):
                    if w is None: del cells[k]
                    else: cells[k] = (cells[k][0], self.atom(('m', ren.get(o, o), k), w))
            wo = st.wobj(o); wo.cells = cells
            wo.reads = {}
            mk.append((str(ren.get(o, o)), tuple((k, n, ident(v, ren)) for k, (n, v) in sorted(cells.items()))))
            new = set()
            for n, v in cells.values(): objs(v, new)
            todo += sorted(new - done)
        for o in [o for o in st.mem if o not in done]: del st.mem[o]
        key.append(tuple(sorted(mk)))
        for t in self.texts:
            o = st.wobj(t)
            o.reads = {(r, k): v for (t2, r, k), v in reads.items() if t2 == t}
        if self.extra is not None: key.append(self.extra(st))
        # forget the path
        st.facts, st.neqs, st.bf, st.doms = {}, frozenset(), {}, {}
        st.x.pop('conc', None)
        st.entries = ()
        for a, b, k in facts:
            c, d = e.lin(st, X.sub(X.sub(a, b), C(k, 64)))
            e.add_fact(st, c, d, 'le')
        return tuple(key)


def cond(v):
    """the truth value about positions that v is, or None"""
    if not isinstance(v, X.E) or v.w > 8: return None
    if v.op == 'zext': v = v.a[0]
    if v.w != 1 or v.op in ('c', 'v') or not any(a.w == 64 for a in v.atoms): return None
    return v


def ident(v, ren):
    if isinstance(v, X.E): return v.id
    if isinstance(v, P): return ('p', ren.get(v.o, v.o) if not isinstance(v.o, tuple) else tuple(map(str, v.o)), v.off.id if isinstance(v.off, X.E) else v.off)
    if isinstance(v, G.Vec): return tuple(ident(x, ren) for x in v)
    if v is UNDEF: return 'undef'
    return repr(v)


def objs(v, out):
    if isinstance(v, P):
        if v.o is not None and not isinstance(v.o, tuple): out.add(v.o)
    elif isinstance(v, G.Vec):
        for x in v: objs(x, out)


def tracked(e, base, start, rounds=3):
    """cells that follow a position through the first steps of a walk, while it still is a constant: {(object, offset)}; start(arrive) runs the walk"""
    rec = {}
    def hook(st, fr, f, src, h):
        b = e.subst_singles(st, base(st))
        if b.op != 'c' or b.a[0] > rounds: return G.STOP
        for o, ob in st.mem.items():
            if ob.kind != 'fixed': continue
            for k, (n, v) in ob.cells.items():
                if n == 8 and isinstance(v, X.E): rec.setdefault((o, k), []).append((b.a[0], v))
        return G.CONT
    e.hdrhook = hook
    start()
    e.hdrhook = None
    out = set()
    for c, l in rec.items():
        if len({b for b, v in l}) < 3 or any(v.op != 'c' for b, v in l): continue
        if all(abs(X.sgn(v.a[0], 64) - b) <= 1 for b, v in l) and max(b for b, v in l) >= 3: out.add(c)
    return out
