"""C24: the width of a grapheme cluster, one code point at a time"""
import numpy as np
import ucd
import framework as F
import engine as G
import expr as X
import stepauto as S
from dom import Dom, EMPTY
from percp import site
from c06 import widths

UNITS = ['width.cpp', 'codepoint_properties.cpp', 'codepoint_properties_data.cpp', 'codepoint_properties_names.cpp']
FULL = lambda w: Dom([0], [(1 << w) - 1])


def columns():
    kind = np.array(['other'] * ucd.N, dtype=object)
    for c in ucd.ri() if hasattr(ucd, 'ri') else np.flatnonzero(np.array([x == 'Regional_Indicator' for x in ucd.gcb()])): kind[c] = 'RI'
    kind[0x200D] = 'ZWJ'; kind[0xFE0F] = 'VS16'; kind[0xFE0E] = 'VS15'
    kind[0x1F3FB:0x1F400] = 'tone'
    vir = np.array([x in ('Virama', 'Invisible_Stacker') for x in ucd.insc()])
    mc = np.array([x == 'Spacing_Mark' for x in ucd.gc()])
    vb = np.zeros(ucd.N, bool); vb[list(ucd.emoji_variation_bases())] = True
    joins = np.asarray(ucd.emoji()['Extended_Pictographic']).astype(bool) | (kind == 'RI')
    return kind, widths().astype(int), vir, mc, vb, joins


# reference: (skip next, after virama, width of the open segment, parity of the regional indicators just before, properties of the code point measured last, its width, still open)
START = (0, 0, 0, 0, (0, False, False), 0, 0)


def ref(h, cl):
    """-> (next history, change of the closed-off total)"""
    skip, vir, cur, ri, last, lw, op = h
    kind, w, isvir, mc, vb, joins = cl[:6]
    odd = ri
    ri = ri ^ 1 if kind == 'RI' else 0
    if skip: return (0, vir, cur, ri, last, lw, op), 0
    if kind == 'ZWJ': return ((0, vir, cur, ri, last, lw, op) if vir else (1, vir, cur, ri, last, 0, op)), 0
    if kind == 'VS16' and op: return (0, vir, 2 if last[1] and last[0] == 1 else cur, ri, last, lw, 0), 0
    if kind == 'VS15' and op: return (0, vir, cur, ri, last, lw, op), -1 if last[1] and lw == 2 else 0
    me = (w, bool(vb), bool(joins))
    if kind == 'RI' and odd: return (0, vir, cur, ri, me, lw, op), 0
    if kind == 'tone' and last[2]: return (0, vir, cur, ri, last, lw, op), 0
    if w:
        d = 0
        if vir: cur = 2
        else: d = cur; cur = w
        return (0, 0, cur, ri, me, w, 1), d
    if isvir: return (0, 1, cur, ri, last, lw, op), 0
    if mc and op: return (0, 0, 2, ri, last, lw, 0), 0
    return (0, 0, cur, ri, last, lw, op), 0


class Acc:
    """the accumulator's step as a transfer relation over its cells; each cell is a value, a code point, a shift-invariant sum or a counter of which only the parity matters"""

    def __init__(self, ctx, e):
        self.ctx, self.e = ctx, e
        self.memo = {}
        self.fpush, self.fwidth, self.finit = (F.fn_of(e.p, 'probe_acc_' + x) for x in ('push', 'width', 'init'))
        self.size = int(e.call(F.fn_of(e.p, 'probe_acc_size'), [], e.newstate())[0].ret.a[0])
        self.init = self.initial('probe_acc_init')
        self.lay = sorted(self.init)
        self.kind = {}

    def initial(self, probe):
        e = self.e
        st = e.newstate()
        oid = e.new_obj(st, 'fixed', X.C(self.size, 64), 'undef', name='accumulator')
        out = None
        for o in e.call(F.fn_of(e.p, probe), [G.P(oid, G.Z64)], st):
            if o.kind != 'ret': raise X.Undecided('start of a cluster: undetermined path')
            cur = {}
            for k, (n, v) in o.st.mem[oid].cells.items():
                if not isinstance(v, X.E) or any(a.kind == 'undef' for a in v.atoms): continue
                v = e.subst_singles(o.st, v)
                if v.atoms: raise X.Undecided('start of a cluster depends on something')
                cur[(k, n)] = int(v.a[0])
            if out is not None and out != cur: raise X.Undecided('start of a cluster is not determined')
            out = cur
        # padding that a reset writes is not state
        return out

    def analyse(self):
        e = self.e
        st = e.newstate()
        self.atoms, vals = {}, {}
        for k, n in self.lay:
            a = X.Atom('s%d' % k, 8 * n, FULL(8 * n)); v = a.node
            if self.kind.get((k, n)) == 'parity':
                q = X.Atom('q%d' % k, 8 * n, Dom([0], [(1 << 8 * n - 1) - 1])); a = X.Atom('b%d' % k, 8 * n, Dom([0], [1]))
                v = X.add(X.scale(q.node, 2), a.node); self.q = q
            self.atoms[(k, n)] = a; vals[(k, n)] = v
        oid = self.mkobj(st, vals)
        self.cp = X.Atom('cp', 32, F.ALLCP)
        self.paths = []
        for o in e.call(self.fpush, [self.cp.node, G.P(oid, G.Z64)], st):
            cells = None
            if o.kind == 'ret':
                if o.st.opaque: raise X.Undecided('width step: undetermined branch')
                cells = {}
                for kn in self.lay:
                    v = e.rawload(o.st, o.st.mem[oid], X.C(kn[0], 64), kn[1])
                    if not isinstance(v, X.E): raise X.Undecided('accumulator holds a pointer')
                    cells[kn] = e.subst_singles(o.st, v)
            self.paths.append((o, cells))

    def mkobj(self, st, vals):
        oid = self.e.new_obj(st, 'fixed', X.C(self.size, 64), 'undef', name='accumulator')
        for (k, n), v in vals.items(): st.mem[oid].cells[k] = (n, v)
        return oid

    def classify_cells(self):
        self.analyse()
        names = {a: kn for kn, a in self.atoms.items()}
        constrained = set()
        for o, cells in self.paths:
            for a, d in o.st.doms.items(): constrained.add(a)
            for mon in o.st.facts:
                for x, _ in mon: constrained |= set(x.atoms)
        for kn in self.lay:
            a = self.atoms[kn]
            if kn[1] < 2: continue
            if kn[1] == 4 and any(cells and cells[kn] is self.cp.node for o, cells in self.paths): self.kind[kn] = 'cp'; continue
            free = a not in constrained
            shift = free
            for o, cells in self.paths:
                if not cells: continue
                for k2, v in cells.items():
                    c, d = X.linparts(v)
                    if k2 == kn:
                        if d.get(a.node) != 1 or any(a in x.atoms for x in d if x is not a.node): shift = False
                    elif a in v.atoms: shift = False
            if shift: self.kind[kn] = 'shift'; continue
            fct = any(a in x.atoms for o, _ in self.paths for mon in o.st.facts for x, _ in mon)
            grow = any(cells and any(a in x.atoms for x in X.linparts(cells[kn])[1]) and cells[kn] is not a.node for o, cells in self.paths)
            if fct or grow: self.kind[kn] = 'parity'
        if 'parity' in self.kind.values():
            if list(self.kind.values()).count('parity') > 1: raise X.Undecided('more than one counter in the accumulator')
            self.analyse()
            kn = next(k for k, v in self.kind.items() if v == 'parity')
            for o, cells in self.paths:
                if self.q in o.st.doms or any(self.q in x.atoms for mon in o.st.facts for x, _ in mon): raise X.Undecided('a branch depends on a counter beyond its parity')
                for k2, v in (cells or {}).items():
                    c, d = X.linparts(v)
                    if k2 == kn:
                        d = dict(d)
                        if d.pop(self.q.node, 2) != 2 or any(self.q in x.atoms for x in d): raise X.Undecided('counter step')
                    elif self.q in v.atoms: raise X.Undecided('a counter flows into another cell')
        cl = self.cl = None

    def refine(self, classes):
        """partition of the code points that no path splits"""
        doms = [o.st.dom(self.cp) for o, _ in self.paths]
        for kn in self.lay:
            if self.kind.get(kn) == 'cp': doms += [o.st.dom(self.atoms[kn]) & F.ALLCP for o, _ in self.paths]
        uniq = []
        for d in doms:
            if d not in uniq and d != F.ALLCP: uniq.append(d)
        for d in uniq:
            out = []
            for c in classes:
                i, j = c[-1] & d, c[-1] - d
                if i and j: out += [(*c[:-1], i), (*c[:-1], j)]
                else: out.append(c)
            classes = out
        self.cl = classes
        self.zero = next(i for i, c in enumerate(classes) if 0 in c[-1])
        # paths by class of the code point and classes of the stored code points
        self.byclass = [[(o, cells) for o, cells in self.paths if o.st.dom(self.cp) & c[-1]] for c in classes]
        self.cpk = [kn for kn in self.lay if self.kind.get(kn) == 'cp']
        self.inpath = {}
        for o, _ in self.paths:
            for kn in self.cpk: self.inpath[(id(o), kn)] = {i for i, c in enumerate(classes) if o.st.dom(self.atoms[kn]) & c[-1]}

    def start(self, init):
        t = []
        for kn in self.lay:
            k = self.kind.get(kn)
            v = init[kn]
            if k == 'cp': v = next(i for i, c in enumerate(self.cl) if v in c[-1])
            elif k == 'shift': v = X.sgn(v, 8 * kn[1])
            elif k == 'parity': v &= 1
            t.append(v)
        return tuple(t)

    def resets(self):
        """what a reset leaves in each cell: a value, or (cell) what was in a cell before"""
        e = self.e
        st = e.newstate()
        atoms = {kn: X.Atom('s%d' % kn[0], 8 * kn[1], FULL(8 * kn[1])) for kn in self.lay}
        oid = self.mkobj(st, {kn: a.node for kn, a in atoms.items()})
        out = []
        for o in e.call(F.fn_of(e.p, 'probe_acc_reset'), [G.P(oid, G.Z64)], st):
            if o.kind != 'ret' or o.st.opaque or any(a in o.st.doms for a in atoms.values()): raise X.Undecided('reset: undetermined path')
            r = {}
            keep = {}
            for kn in self.lay:
                v = e.rawload(o.st, o.st.mem[oid], X.C(kn[0], 64), kn[1])
                if v is G.UNDEF or not isinstance(v, X.E): raise X.Undecided('reset leaves something undefined')
                v = e.subst_singles(o.st, v)
                if not v.atoms: r[kn] = int(v.a[0])
                else:
                    k2 = next((k for k, a in atoms.items() if v is a.node), None)
                    if k2 is None or self.kind.get(k2) != self.kind.get(kn): raise X.Undecided('reset computes a cell')
                    keep[kn] = k2; r[kn] = 0
            t = self.start(r)
            out.append(tuple(keep.get(kn, v) for kn, v in zip(self.lay, t)))
        return out

    def norm(self, t):
        """sums set to zero: (normalised tuple, sum)"""
        s = 0
        out = []
        for kn, v in zip(self.lay, t):
            if self.kind.get(kn) == 'shift': s += v; v = 0
            out.append(v)
        return tuple(out), s

    def next(self, t, i):
        key = (t, i)
        r = self.memo.get(key)
        if r is not None: return r
        r = []
        env = {self.atoms[kn]: v for kn, v in zip(self.lay, t)}
        conc = {a: v for kn, a in self.atoms.items() for v in [env[a]] if self.kind.get(kn) != 'cp'}
        for o, cells in self.byclass[i]:
            if any(t[self.lay.index(kn)] not in self.inpath[(id(o), kn)] for kn in self.cpk): continue
            if any(conc[a] not in o.st.dom(a) for kn, a in self.atoms.items() if a in conc and self.kind.get(kn) != 'shift'): continue
            if cells is None: r.append((None, o)); continue
            opts = [()]
            for kn in self.lay:
                opts = [x + (v,) for x in opts for v in self.cell(kn, cells[kn], env, conc, i, o)]
                if len(opts) > 64: raise X.Undecided('accumulator state does not depend on character classes only')
            r += [(x, o) for x in opts]
        self.memo[key] = r
        return r

    def cell(self, kn, v, env, conc, i, o):
        k = self.kind.get(kn)
        if k == 'cp':
            if v is self.cp.node: return (i,)
            if v.op == 'c': return (next((j for j, c in enumerate(self.cl) if int(v.a[0]) in c[-1]), None),)
            for k2 in self.cpk:
                if v is self.atoms[k2].node: return (env[self.atoms[k2]],)
            raise X.Undecided('a stored code point is computed')
        sub = {a: X.C(x, a.w) for a, x in conc.items() if a in v.atoms}
        if k == 'parity': sub[self.q] = G.Z64 if kn[1] == 8 else X.C(0, 8 * kn[1])
        x = G.subst(v, sub) if sub else v
        if x.atoms:
            cps = [a for a in x.atoms if a is self.cp or any(a is self.atoms[z] for z in self.cpk)]
            if len(cps) != 1 or len(x.atoms) != 1: raise X.Undecided('accumulator state is an unresolved relation')
            a = cps[0]
            d = o.st.dom(a) & self.cl[i if a is self.cp else env[a]][-1]
            key = ('v', x.id, d)
            vs = self.memo.get(key)
            if vs is None: vs = self.memo[key] = [int(q) for q in np.unique(X.values(x, a, d.points()))]
        else: vs = [int(x.a[0])]
        if k == 'parity': vs = sorted({q & 1 for q in vs})
        if k == 'shift': vs = [X.sgn(q, 8 * kn[1]) for q in vs]
        return vs

    def measured(self, t):
        """width() of a state as [(domain of the sum, result expression)]; the sum is an atom, or None"""
        key = ('m', t)
        r = self.memo.get(key)
        if r is not None: return r
        e = self.e
        st = e.newstate()
        T = None
        vals = {}
        for kn, v in zip(self.lay, t):
            k = self.kind.get(kn)
            if k == 'shift':
                T = X.Atom('sum', 8 * kn[1], Dom([0, (1 << 8 * kn[1]) - (1 << 24)], [1 << 24, (1 << 8 * kn[1]) - 1])); vals[kn] = T.node
            elif k == 'cp': vals[kn] = X.C(int(self.cl[v][-1].s[0]), 32)
            else: vals[kn] = X.C(v, 8 * kn[1])
        oid = self.mkobj(st, vals)
        r = []
        for o in e.call(self.fwidth, [G.P(oid, G.Z64)], st):
            if o.kind != 'ret' or o.st.opaque: raise X.Undecided('measured width: undetermined path')
            r.append((T, o.st.dom(T) if T else None, e.subst_singles(o.st, e.asint(o.ret))))
        self.memo[key] = r
        return r

    def agrees(self, t, want):
        """the measured width of the normalised state is max(0, sum + want) for every value of the sum"""
        for T, d, x in self.measured(t):
            if T is None:
                if x.atoms or int(x.a[0]) != max(0, want): return False, 0, x
                continue
            if not d: continue
            lo = [X.sgn(v, T.w) for v in d.s]; hi = [X.sgn(v, T.w) for v in d.e]
            k = X.sub(x, T.node)
            if not k.atoms and X.sgn(int(k.a[0]), x.w) == want:
                if min(lo) + want < 0: return False, min(lo), x
            elif not x.atoms and int(x.a[0]) == 0:
                if max(hi) + want > 0: return False, max(hi), x
            else:
                at = next((v for v in lo + hi if int(X.values(x, T, np.array([v & (1 << T.w) - 1], np.uint64))[0]) != max(0, v + want)), None) if x.atoms <= {T} else lo[0]
                if at is not None: return False, at, x
                raise X.Undecided('measured width is not a sum')
        return True, 0, None


def show(cl, path):
    return ' '.join(i if i == 'reset' else '%04X' % int(cl[i][-1].s[0]) for i in path) or 'nothing'


def run(ctx):
    ctx.rule('The width accumulator\'s push and measure operations are reduced to a transfer relation over the accumulator\'s cells and the character classes of the published data; the product of its '
             'reachable states with the documented cluster rules is enumerated, and after every code point the measured width must equal the width by the rules (the running sum is kept symbolic). '
             'The function that measures a whole cluster must feed every code point once, in order, to a fresh accumulator.')
    p = ctx.program(UNITS, ['width.cpp'])
    e = ctx.engine(p)
    A = Acc(ctx, e)
    w = site(ctx, e, A.fpush)
    rule = 'width after every code point'
    A.classify_cells()
    cols = columns()
    A.refine(S.classify(*cols))
    t, s = A.norm(A.start(A.init))
    first = (t, START, -s)
    seen = {first: ()}
    work = [first]
    cnt = 0
    failed = set()

    def check(t, h, d, path):
        ok, at, x = A.agrees(t, d + h[2])
        if not ok:
            k = show(A.cl, path[-2:])
            if k not in failed and len(failed) < 12:
                failed.add(k)
                ctx.bad(rule, w, 'after %s: measured width %s, the rules give %s' % (show(A.cl, path), at_value(x, at), 'the sum so far + %d' % (d + h[2]) if at else max(0, d + h[2])))
        return ok
    check(t, START, -s, ())
    resets = A.resets()
    while work:
        t, h, d = work.pop(0)
        path = seen[(t, h, d)]
        for r in resets:        # a reset at any moment is the start of a new cluster
            n2, s2 = A.norm(tuple(t[A.lay.index(v)] if isinstance(v, tuple) else v for v in r))
            nx = (n2, START, -s2)
            if nx in seen: continue
            seen[nx] = path + ('reset',)
            if check(n2, START, -s2, seen[nx]): work.append(nx)
        for i, c in enumerate(A.cl):
            nh, nd = ref(h, c)
            for nt, o in A.next(t, i):
                cnt += 1
                if nt is None:
                    ctx.bad(rule, ctx.where(G.loc_of(*o.loc)), 'the step does not return for %s after %s' % (show(A.cl, [i]), show(A.cl, path))); continue
                if None in nt: raise X.Undecided('stored code point outside the code space')
                n2, s2 = A.norm(nt)
                nx = (n2, nh, d + nd - s2)
                if nx in seen: continue
                if len(seen) > 60000: raise X.Undecided('the accumulator\'s state space does not stay small')
                seen[nx] = path + (i,)
                if check(n2, nh, d + nd - s2, path + (i,)): work.append(nx)
    ctx.ok(cnt, 'transitions (state, class) compared')
    ctx.counts['product states'] = len(seen)
    ctx.counts['character classes'] = len(A.cl)
    ctx.counts['paths of the step'] = len(A.paths)
    ctx.sample({'cells': {'+%d/%d' % kn: A.kind.get(kn, 'value') for kn in A.lay}})
    for q, pth in list(seen.items())[:6]: ctx.sample({'after': show(A.cl, pth), 'state': q[0], 'rules': q[1]})
    whole(ctx, p, A)
    if len(A.cl) < 12 or cnt < 500: raise F.Broken('too little of the accumulator analysed')
    ctx.access_findings(e)
    ctx.absorb(e)


def at_value(x, at):
    return 'is %s' % (x if x is not None and x.atoms else int(x.a[0]))


def whole(ctx, p, A):
    """grapheme_cluster_width of code points: every code point goes once, in order, into one fresh accumulator"""
    rule = 'every code point of the cluster is measured once, in order'
    # eight bytes of the accumulator in which the stand-in for push counts; a new accumulator starts the count again
    at = {k + j: (A.init[(k, n)] >> 8 * j) & 255 for k, n in A.lay for j in range(n)}
    pos = next((k for k, n in A.lay if all(k + j in at for j in range(8))), None)
    if pos is None: raise X.Undecided('no cell to count in')
    zero = sum(at[pos + j] << 8 * j for j in range(8))
    box = {}

    def rd(e, st, acc, k, n):
        v = e.rawload(st, st.mem[acc.o], X.add(acc.off, X.C(k, 64)), n)
        return e.subst_singles(st, e.asint(v)) if v is not G.UNDEF else X.Atom('undef', 8 * n, kind='undef').node

    def fresh(e, st, acc):
        for k, n in A.lay:
            if k + n > pos and k < pos + 8: continue
            v = rd(e, st, acc, k, n)
            if v.atoms or int(v.a[0]) != A.init[(k, n)]: return False
        return True

    def count(e, st, acc): return X.sub(rd(e, st, acc, pos, 8), X.C(zero, 64))

    def equal(e, st, a, b): return e.prove_le(st, a, b) and e.prove_le(st, b, a)

    def push(e, st, fr, pi, a):
        acc, c = a
        n = count(e, st, acc)
        el = list(c.atoms) if isinstance(c, X.E) else []
        good = fresh(e, st, acc) and len(el) == 1 and el[0].kind == 'elem' and c is el[0].node and el[0].info[0] == box['text']
        good = good and equal(e, st, e.subst_singles(st, el[0].info[1]), X.scale(n, 4))
        st.event('push', bool(good), 'pushes %s as code point number %s of the cluster' % (c, n), ctx.where(G.loc_of(fr.f, pi.ins)))
        e.rawstore(st, acc.o, X.add(acc.off, X.C(pos, 64)), 8, X.add(rd(e, st, acc, pos, 8), X.C(1, 64)))
        return G.UNDEF

    def measure(e, st, fr, pi, a):
        n = count(e, st, a[0])
        st.event('push', bool(fresh(e, st, a[0]) and equal(e, st, box['n'].node, n)), 'measures the cluster after %s of %s code points' % (n, box['n'].node), ctx.where(G.loc_of(fr.f, pi.ins)))
        return X.Atom('measured', 32).node

    def width(e, st, fr, pi, a):
        st.event('width', a[0])
        return X.Atom('width', 32).node
    e = ctx.engine(p, [(r'unicode::width\(', width), (r'unicode::grapheme_cluster_width_accumulator::push', push), (r'unicode::grapheme_cluster_width_accumulator::width', measure)])
    st = e.newstate()
    n = box['n'] = X.Atom('n', 64, Dom([0], [1 << 31]))
    r = box['text'] = e.new_obj(st, 'array', X.scale(n.node, 4), 'input', 4, 'text')
    f = F.fn_of(p, 'probe_cluster_width')
    w = site(ctx, e, f)
    for o in e.call(f, [G.P(r, G.Z64), n.node], st):
        for v in o.st.eventlist():
            if v[0] == 'push': ctx.check(v[1], rule, v[3], v[2], 'code points pushed and measured')
        if o.kind == 'backedge': continue
        d = o.st.dom(n)
        if o.kind != 'ret': ctx.bad(rule, ctx.where(G.loc_of(*o.loc)), 'does not return for %s code points' % d.show()); continue
        ret = e.subst_singles(o.st, e.asint(o.ret))
        ev = o.st.eventlist()
        if not ret.atoms: good = int(ret.a[0]) == 0 and d == Dom([0], [0])
        else:
            a = next(iter(ret.atoms))
            good = ret is a.node and a.name in ('measured', 'width')
            if a.name == 'width': good = good and d == Dom([1], [1]) and sum(1 for x in ev if x[0] == 'width') == 1 and any(x[0] == 'width' and any(z.kind == 'elem' and z.node is x[1] and z.info[1] is X.C(0, 64) for z in x[1].atoms) for x in ev)
        ctx.check(good, rule, w, 'a cluster of %s code points is given the width %s' % (d.show(), ret), 'results of whole clusters')
    ctx.access_findings(e)
    ctx.absorb(e)

