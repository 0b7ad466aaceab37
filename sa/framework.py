"""Runner: builds the resolved program from /repo's current tree, runs one property's analysis, writes evidence.
exit 0: every obligation discharged.  exit 1: VIOLATION line(s).  exit 2: the analysis itself could not be done."""
import json
import os
import sys
import time
import traceback
import numpy as np

HERE = os.path.dirname(os.path.abspath(__file__))
ROOT = os.path.dirname(HERE)
sys.path.insert(0, HERE)
sys.path.insert(0, ROOT + '/checks')
sys.setrecursionlimit(20000)
import build as B
import engine as G
import expr as X
from expr import C, Atom
from dom import Dom, EMPTY, full

MAXCP = 0x10FFFF
ALLCP = Dom([0], [MAXCP])
SCALARS = Dom([0, 0xE000], [0xD7FF, MAXCP])


class Broken(Exception):
    """the analysis lost its anchor: neither pass nor violation"""


class Ctx:
    def __init__(self, prop, tier):
        self.prop = prop
        self.tier = tier
        self.t0 = time.time()
        self.violations = []
        self.obl = 0
        self.done = 0
        self.functions = {}
        self.paths = 0
        self.callsites = 0
        self.accesses = 0
        self.samples = []
        self.notes = []
        self.counts = {}
        self.rules = []
        self.b = None

    # ---- program access
    def build(self):
        if self.b is None:
            self.b = B.Build()
        return self.b

    def program(self, units=(), probes=(), all=False, **kw):
        b = self.build()
        b.tables()
        us = list(b.libunits()) if all else list(units)
        for u in us:
            if not os.path.exists(b.lib + '/' + u): raise Broken('translation unit %s is gone' % u)
        files = us + [ROOT + '/probe/' + p for p in probes]
        return G.Program(b.compile_many(files, **kw))

    def engine(self, prog, models=(), **kw):
        e = G.Engine(prog, models, **kw)
        return e

    def absorb(self, e):
        """account for what an engine run analysed"""
        for k, v in e.funcs_seen.items():
            self.functions[k] = self.functions.get(k, 0) + v
        self.paths += e.paths
        self.callsites += e.callsites
        self.accesses += len(e.checked)
        e.funcs_seen = {}; e.paths = 0; e.callsites = 0

    def where(self, loc):
        if not loc: return '?'
        f, l = loc[0], loc[1]
        if self.b: f = self.b.rel(f)
        if f.startswith(os.getcwd() + '/') and not os.path.exists(f) and os.path.exists(B.SRC + '/' + os.path.basename(f)): f = 'src/libunicode/' + os.path.basename(f)
        return '%s:%s' % (f, l)

    def ok(self, n=1, kind=None):
        self.obl += n; self.done += n
        if kind: self.counts[kind] = self.counts.get(kind, 0) + n

    def bad(self, rule, where, text, key=None):
        """an obligation that fails: the construct, the rule, what goes wrong"""
        self.obl += 1
        k = key or (rule + '|' + text)
        for v in self.violations:
            if v['key'] == k: return
        self.violations.append({'rule': rule, 'where': where, 'text': text, 'key': k})

    def check(self, cond, rule, where, text, kind=None, key=None):
        if cond: self.ok(1, kind)
        else: self.bad(rule, where, text, key)
        return cond

    def sample(self, s):
        if len(self.samples) < 12: self.samples.append(s)

    def rule(self, s):
        self.rules.append(s)

    def access_findings(self, e, rule='memory access in bounds', skip=()):
        for k, loc, text, st, en, fn in e.findings:
            if k in skip: continue
            self.bad(rule, self.where(loc), '%s: %s [%s]' % (fn, text, k), key='%s|%s|%s|%s' % (rule, k, fn, self.where(loc)))
        self.ok(sum(1 for v in e.checked.values() if v), 'memory accesses in bounds')


def known_findings():
    """committed list of genuine defects that are recorded, not repaired: 'known: property=<id> key=<key> :: text'"""
    out = {}
    p = ROOT + '/known-findings.txt'
    if os.path.exists(p):
        for l in open(p):
            l = l.strip()
            if l.startswith('known: property='):
                head, _, text = l.partition(' :: ')
                pid = head.split('property=')[1].split()[0]
                key = head.split(' key=', 1)[1]
                out.setdefault(pid, {})[key] = text
    return out


def main(prop, fn, level='other'):
    tier = os.environ.get('VERIF_TIER', 'quick')
    if tier not in ('quick', 'thorough'): tier = 'quick'
    seed = int(os.environ.get('VERIF_SEED', '1') or 1)
    ctx = Ctx(prop, tier)
    err = None
    try:
        fn(ctx)
        if ctx.obl == 0: raise Broken('no obligations were generated')
    except (G.Unsupported, X.Undecided, B.BuildError, Broken) as ex:
        err = '%s: %s' % (type(ex).__name__, ex)
        if os.environ.get('SA_DEBUG'): traceback.print_exc()
    except Exception as ex:
        err = 'internal: ' + ''.join(traceback.format_exception(ex))[-2500:]
    finally:
        if ctx.b: ctx.b.close()
    kn = known_findings().get(prop, {})
    new = [v for v in ctx.violations if v['key'] not in kn]
    os.makedirs(ROOT + '/evidence', exist_ok=True)
    own = [f for f in ctx.functions if f.startswith(('unicode::', 'support::', 'probe', 'u8', 'u32', 'u16', 'void unicode', 'bool unicode')) or 'unicode::' in f]
    ev = {
        'property': prop, 'tier': tier, 'seed': seed, 'level': level,
        'coverage': {
            'explanation': ' '.join(ctx.rules) or 'see DESIGN.md',
            'obligations': ctx.obl, 'discharged': ctx.done,
            'obligations_by_kind': ctx.counts,
            'functions_analysed': len(ctx.functions),
            'repository_functions': sorted(own)[:400],
            'abstract_paths': ctx.paths, 'call_sites': ctx.callsites, 'memory_access_sites': ctx.accesses,
            'samples': ctx.samples, 'notes': ctx.notes,
        },
        'assumptions': ['clang 18 lowers the sources faithfully to LLVM IR with the build\'s flags',
                        'the UCD 15.1.0 files under /usr/share/unicode are the ones the build uses'],
        'wall_s': round(time.time() - ctx.t0, 2),
        'violations': len(new),
    }
    if err: ev['coverage']['error'] = err
    json.dump(ev, open('%s/evidence/%s.json' % (ROOT, prop), 'w'), indent=1, default=str)
    for v in ctx.violations:
        if v['key'] in kn:
            print('KNOWN-FINDING: property=%s %s' % (prop, kn[v['key']]))
    if new:
        rp = '%s/evidence/replay-%s.json' % (ROOT, prop)
        json.dump(new, open(rp, 'w'), indent=1, default=str)
        for v in new[:20]:
            print('  %s: %s: %s' % (v['where'], v['rule'], v['text']))
        if len(new) > 20: print('  ... %d more' % (len(new) - 20))
        if err: print('  (the analysis also stopped early: %s)' % err.splitlines()[0])
        print('VIOLATION property=%s replay=%s' % (prop, rp))
        return 1
    if err:
        print('ANALYSIS-BROKEN property=%s %s' % (prop, err))
        return 2
    print('OK property=%s obligations=%d functions=%d paths=%d call_sites=%d wall=%.1fs %s' % (
        prop, ctx.obl, len(ctx.functions), ctx.paths, ctx.callsites, time.time() - ctx.t0,
        ' '.join('%s=%d' % kv for kv in ctx.counts.items())))
    return 0


# ------------------------------------------------------------------ shared helpers
def fn_of(prog, name):
    f = prog.find(name)
    if f is None:
        for m in prog.mods:
            g = m.funcs.get('@' + name)
            if g is not None and g.defined: return g
        raise Broken('function %s not found in the compiled program' % name)
    return f


def floc(prog, f):
    """declaration site of a function"""
    sp = f.mod.subprogram(f) if hasattr(f.mod, 'subprogram') else None
    return sp


def cp_function(ctx, e, name, dom=ALLCP, w=32, extra=()):
    """value table of an integer-valued function of one code point, over dom (numpy over 0..10FFFF), plus paths"""
    f = fn_of(e.p, name)
    a = Atom('cp', w, dom)
    outs = e.call(f, [a.node, *extra], e.newstate())
    tab = np.zeros(MAXCP + 1, np.uint64)
    seen = np.zeros(MAXCP + 1, bool)
    aborts = []
    for o in outs:
        d = o.st.dom(a) & dom
        pts = d.points().astype(np.int64)
        if o.kind == 'abort':
            aborts.append((d, o)); seen[pts] = True; continue
        if o.st.opaque: raise X.Undecided('undetermined branch in ' + name)
        v = o.ret
        if v is G.UNDEF: raise X.Undecided('undefined result of ' + name)
        if isinstance(v, G.P): v = v.off
        v = e.asint(v) if not isinstance(v, X.E) else v
        tab[pts] = X.values(v, a, d.points()) if v.atoms else v.a[0]
        seen[pts] = True
    need = dom.points().astype(np.int64)
    if not seen[need].all():
        raise X.Undecided('%s: %d code points have no analysed path' % (name, int((~seen[need]).sum())))
    return tab, aborts, outs


def ranges(pts, lim=6):
    d = G.ptsdom(np.asarray(pts, np.uint64), np.ones(len(pts), bool))
    s = ['U+%04X' % a if a == b else 'U+%04X..%04X' % (a, b) for a, b in zip(d.s[:lim], d.e[:lim])]
    return ', '.join(s) + (' ... (%d code points)' % len(pts) if len(d.s) > lim else '')
