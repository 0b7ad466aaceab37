"""Reader for LLVM 18 textual IR (the subset clang emits for this repository).

Functions and constants are parsed lazily: a module can be large (the generated tables), an
analysis only pays for what it reaches.
"""
import re

TOK = re.compile(r'''
   (?P<str>c?"(?:[^"\\]|\\.)*")
 | (?P<loc>%"(?:[^"\\]|\\.)*"|%[-A-Za-z0-9_.$]+)
 | (?P<glb>@"(?:[^"\\]|\\.)*"|@[-A-Za-z0-9_.$]+)
 | (?P<num>-?\d+\.\d+(?:e[+-]?\d+)?|0x[A-Z]?[0-9A-Fa-f]+|-?\d+)
 | (?P<md>![A-Za-z0-9_."]*)
 | (?P<grp>\#\d+)
 | (?P<word>[A-Za-z_][A-Za-z0-9_.]*)
 | (?P<dots>\.\.\.)
 | (?P<p>[(){}\[\]<>,=*:|])
''', re.X)


class ParseError(Exception):
    pass


def tokenize(s):
    return [m.group(0) for m in TOK.finditer(s)]


# ---------------------------------------------------------------- types
# ('int',n) 'ptr' 'void' ('fp',name) ('vec',n,t) ('arr',n,t) ('struct',(t..),packed) ('named',n)
# ('func',ret,args,vararg) 'label' 'metadata' 'token'

class Toks:
    __slots__ = ('t', 'i')

    def __init__(self, toks):
        self.t = toks
        self.i = 0

    def peek(self, k=0):
        j = self.i + k
        return self.t[j] if j < len(self.t) else None

    def next(self):
        x = self.t[self.i]
        self.i += 1
        return x

    def accept(self, x):
        if self.i < len(self.t) and self.t[self.i] == x:
            self.i += 1
            return True
        return False

    def expect(self, x):
        if not self.accept(x):
            raise ParseError('expected %r at %r' % (x, self.t[max(0, self.i - 5):self.i + 5]))


FP = {'half', 'bfloat', 'float', 'double', 'x86_fp80', 'fp128'}


def parse_type(tk):
    t = tk.next()
    if t[0] == 'i' and t[1:].isdigit():
        r = ('int', int(t[1:]))
    elif t == 'ptr':
        r = 'ptr'
        if tk.peek() == 'addrspace':
            tk.next(); tk.expect('('); tk.next(); tk.expect(')')
    elif t in ('void', 'label', 'metadata', 'token'):
        r = t
    elif t in FP:
        r = ('fp', t)
    elif t == '[':
        n = int(tk.next()); tk.expect('x')
        e = parse_type(tk); tk.expect(']')
        r = ('arr', n, e)
    elif t == '<':
        if tk.peek() == '{':
            tk.next()
            fs = []
            while not tk.accept('}'):
                fs.append(parse_type(tk)); tk.accept(',')
            tk.expect('>')
            r = ('struct', tuple(fs), True)
        else:
            n = int(tk.next()); tk.expect('x')
            e = parse_type(tk); tk.expect('>')
            r = ('vec', n, e)
    elif t == '{':
        fs = []
        while not tk.accept('}'):
            fs.append(parse_type(tk)); tk.accept(',')
        r = ('struct', tuple(fs), False)
    elif t[0] == '%':
        r = ('named', t)
    elif t == 'opaque':
        r = ('opaque',)
    else:
        raise ParseError('type? %r in %r' % (t, tk.t[:30]))
    if tk.peek() == '(' and r != 'ptr' or (tk.peek() == '(' and r == 'ptr' and False):
        # function type: only legal after a return type in a call
        save = tk.i
        try:
            tk.next()
            args = []
            va = False
            while not tk.accept(')'):
                if tk.accept('...'):
                    va = True
                else:
                    args.append(parse_type(tk))
                tk.accept(',')
            r = ('func', r, tuple(args), va)
        except (ParseError, IndexError):
            tk.i = save
    return r


PARAM_ATTRS = {'noundef', 'nonnull', 'signext', 'zeroext', 'inreg', 'noalias', 'nocapture', 'nofree', 'nest', 'returned',
               'readonly', 'readnone', 'writeonly', 'immarg', 'swiftself', 'swifterror', 'noext', 'inalloca', 'writable',
               'allocalign', 'allocptr', 'range', 'initializes', 'captures', 'dead_on_unwind', 'nofpclass'}
PARAM_ATTRS_P = {'sret', 'byval', 'byref', 'dereferenceable', 'dereferenceable_or_null', 'align', 'elementtype',
                 'preallocated', 'inalloca', 'nofpclass', 'range', 'initializes', 'captures'}


def skip_param_attrs(tk):
    attrs = {}
    while True:
        p = tk.peek()
        if p in PARAM_ATTRS_P:
            tk.next()
            if p == 'align' and tk.peek() != '(':
                tk.next(); continue
            if tk.peek() == '(':
                depth = 0
                start = tk.i + 1
                while True:
                    x = tk.next()
                    if x == '(': depth += 1
                    if x == ')':
                        depth -= 1
                        if depth == 0: break
                attrs[p] = tk.t[start:tk.i - 1]
        elif p in PARAM_ATTRS:
            tk.next()
            attrs[p] = True
        else:
            return attrs


# ---------------------------------------------------------------- operands
# ('loc',name) ('glb',name) ('int',v) 'null' 'undef' 'zero' ('fp',txt) ('agg',[(ty,op)..]) ('str',bytes)
# ('cexpr',op,extra...)   ('md',)

def unesc(s):
    # c"..." -> bytes
    body = s[s.index('"') + 1:-1]
    out = bytearray()
    i = 0
    while i < len(body):
        c = body[i]
        if c == '\\':
            if body[i + 1] == '\\':
                out.append(92); i += 2
            else:
                out.append(int(body[i + 1:i + 3], 16)); i += 3
        else:
            out.extend(c.encode('latin-1', 'replace')); i += 1
    return bytes(out)


CAST_OPS = {'trunc', 'zext', 'sext', 'ptrtoint', 'inttoptr', 'bitcast', 'addrspacecast', 'fptosi', 'fptoui', 'sitofp', 'uitofp',
            'fpext', 'fptrunc'}
BIN_OPS = {'add', 'sub', 'mul', 'udiv', 'sdiv', 'urem', 'srem', 'shl', 'lshr', 'ashr', 'and', 'or', 'xor', 'fadd', 'fsub',
           'fmul', 'fdiv', 'frem'}
FLAGS = {'nuw', 'nsw', 'exact', 'inbounds', 'nneg', 'disjoint', 'fast', 'nnan', 'ninf', 'nsz', 'arcp', 'contract', 'afn',
         'reassoc', 'samesign', 'nusw'}


def parse_value(tk, ty):
    t = tk.next()
    c = t[0]
    if c == '%':
        return ('loc', t)
    if c == '@':
        return ('glb', t)
    if t == 'true':
        return ('int', 1)
    if t == 'false':
        return ('int', 0)
    if t == 'null' or t == 'none':
        return 'null'
    if t in ('undef', 'poison'):
        return 'undef'
    if t == 'zeroinitializer':
        return 'zero'
    if c.isdigit() or (c == '-' and len(t) > 1):
        if isinstance(ty, tuple) and ty[0] == 'fp':
            return ('fp', t)
        return ('int', int(t, 0) if not t.startswith('0x') else int(t, 16))
    if t.startswith('c"'):
        return ('str', unesc(t))
    if c in '[{<':
        close = {'[': ']', '{': '}', '<': '>'}[c]
        packed = False
        if t == '<' and tk.peek() == '{':
            tk.next(); packed = True; close = '}'
        els = []
        while not tk.accept(close):
            ety = parse_type(tk)
            els.append((ety, parse_value(tk, ety)))
            tk.accept(',')
        if packed:
            tk.expect('>')
        return ('agg', els)
    if t == 'getelementptr':
        while tk.peek() in FLAGS or tk.peek() == 'inrange':
            tk.next()
            if tk.peek() == '(' and tk.t[tk.i - 1] == 'inrange':
                while tk.next() != ')': pass
        tk.expect('(')
        bty = parse_type(tk); tk.expect(',')
        ops = []
        while not tk.accept(')'):
            while tk.peek() == 'inrange': tk.next()
            oty = parse_type(tk)
            ops.append((oty, parse_value(tk, oty)))
            tk.accept(',')
        return ('cexpr', 'gep', bty, ops)
    if t in CAST_OPS:
        while tk.peek() in FLAGS: tk.next()
        tk.expect('(')
        sty = parse_type(tk); v = parse_value(tk, sty)
        tk.expect('to'); dty = parse_type(tk); tk.expect(')')
        return ('cexpr', 'cast', t, sty, v, dty)
    if t in BIN_OPS:
        while tk.peek() in FLAGS: tk.next()
        tk.expect('(')
        aty = parse_type(tk); a = parse_value(tk, aty); tk.expect(',')
        bty = parse_type(tk); b = parse_value(tk, bty); tk.expect(')')
        return ('cexpr', 'bin', t, aty, a, b)
    if t in ('dso_local_equivalent', 'no_cfi'):
        return ('glb', tk.next())
    if c == '!':
        # metadata operand: swallow a balanced parenthesis group if any
        if tk.peek() == '(':
            d = 0
            while True:
                x = tk.next()
                if x == '(': d += 1
                if x == ')':
                    d -= 1
                    if d == 0: break
        return ('md',)
    raise ParseError('value? %r in %r' % (t, tk.t[:40]))


class Inst:
    __slots__ = ('op', 'res', 'ty', 'ops', 'x', 'dbg', 'blk')

    def __init__(self, op, res, ty, ops, x=None, dbg=None):
        self.op = op
        self.res = res
        self.ty = ty
        self.ops = ops
        self.x = x
        self.dbg = dbg

    def __repr__(self):
        return '%s = %s %s %s %s' % (self.res, self.op, self.ty, self.ops, self.x)


class Block:
    __slots__ = ('name', 'insts', 'succs')

    def __init__(self, name):
        self.name = name
        self.insts = []
        self.succs = []


class Function:
    def __init__(self, mod, name, header, body):
        self.mod = mod
        self.name = name
        self.header = header
        self._body = body
        self._parsed = False
        self._parse_header()

    def _parse_header(self):
        h = self.header
        m = re.search(r'!dbg (![0-9]+)', h)
        self.dbg = m.group(1) if m else None
        tk = Toks(tokenize(h))
        tk.next()  # define/declare
        while tk.peek() and tk.peek()[0] == '!':
            tk.next()
        LINK = {'dso_local', 'dso_preemptable', 'internal', 'private', 'linkonce', 'linkonce_odr', 'weak', 'weak_odr', 'external', 'available_externally',
                'hidden', 'protected', 'default', 'unnamed_addr', 'local_unnamed_addr', 'fastcc', 'coldcc', 'ccc', 'noundef',
                'comdat'}
        self.linkage = []
        while tk.peek() in LINK:
            self.linkage.append(tk.next())
        skip_param_attrs(tk)
        # return type: do not treat "(" as a function type here
        save = tk.i
        self.ret = parse_type_nofunc(tk)
        nm = tk.next()
        tk.expect('(')
        self.params = []
        self.vararg = False
        n = 0
        while not tk.accept(')'):
            if tk.accept('...'):
                self.vararg = True
                continue
            ty = parse_type_nofunc(tk)
            at = skip_param_attrs(tk)
            if tk.peek() and tk.peek()[0] == '%':
                pn = tk.next()
            else:
                pn = '%' + str(n)
            self.params.append((ty, pn, at))
            n += 1
            tk.accept(',')
        rest = tk.t[tk.i:]
        self.attrs = [x for x in rest if x.startswith('#')]
        self.words = set(rest)

    def attr(self, key):
        for g in self.attrs:
            d = self.mod.attrgroups.get(g, {})
            if key in d:
                return d[key]
        return None

    @property
    def defined(self):
        return self._body is not None

    @property
    def blocks(self):
        if not self._parsed:
            self._parse()
        return self._blocks

    def _parse(self):
        self._parsed = True
        self._blocks = {}
        self.order = []
        lines = self._body
        cur = None
        i = 0
        nparams = len(self.params)
        # the implicit entry label is the next number after unnamed params
        first = True
        while i < len(lines):
            ln = lines[i]
            i += 1
            if not ln.strip() or ln.lstrip().startswith(';'):
                continue
            if not ln[0].isspace():
                m = re.match(r'("(?:[^"\\]|\\.)*"|[-A-Za-z0-9_.$]+):', ln)
                if m:
                    cur = Block('%' + m.group(1))
                    self._blocks[cur.name] = cur
                    self.order.append(cur)
                    first = False
                    continue
                raise ParseError('line? ' + ln)
            if first:
                nm = sum(1 for p in self.params if re.match(r'%\d+$', p[1]))
                cur = Block('%' + str(nm))
                self._blocks[cur.name] = cur
                self.order.append(cur)
                first = False
            s = ln.strip()
            if s.startswith('switch ') or ' = switch' in s:
                while not s.rstrip().split(', !')[0].rstrip().endswith(']'):
                    s += ' ' + lines[i].strip()
                    i += 1
            elif re.match(r'(%\S+ = )?invoke ', s):
                s += ' ' + lines[i].strip()
                i += 1
            elif ' = landingpad ' in s:
                while i < len(lines) and re.match(r'\s+(catch|cleanup|filter)\b', lines[i]):
                    s += ' ' + lines[i].strip()
                    i += 1
            if s.startswith('#dbg'):
                continue
            cur.insts.append(s)
        for b in self.order:
            out = []
            for s in b.insts:
                if '@llvm.dbg.' in s or '@llvm.experimental.noalias.scope' in s:
                    continue
                ins = parse_inst(s)
                ins.blk = b.name
                out.append(ins)
            b.insts = out
            t = out[-1]
            if t.op == 'br':
                b.succs = t.x['succs']
            elif t.op == 'switch':
                b.succs = [t.x['default']] + [x[1] for x in t.x['cases']]
            elif t.op == 'invoke':
                b.succs = [t.x['normal'], t.x['unwind']]

    @property
    def entry(self):
        self.blocks
        return self.order[0]

    def allinsts(self):
        for b in self.blocks.values():
            for i in b.insts:
                yield b, i


def parse_type_nofunc(tk):
    t = tk.peek()
    if t and (t[0] == '%' or t in ('ptr', 'void') or (t[0] == 'i' and t[1:].isdigit()) or t in FP):
        tk.next()
        if t[0] == '%': return ('named', t)
        if t in ('ptr', 'void'): return t
        if t in FP: return ('fp', t)
        return ('int', int(t[1:]))
    return parse_type(tk)


MDTAIL = re.compile(r'(, ![a-zA-Z_.]+ ![0-9A-Za-z_]+(\(\))?)+$')
DBG = re.compile(r'!dbg (![0-9]+)')


def parse_inst(s):
    m = DBG.search(s)
    dbg = m.group(1) if m else None
    k = s.find(', !')
    if k >= 0 and 'metadata' not in s:
        s = s[:k]
    else:
        s = MDTAIL.sub('', s)
    tk = Toks(tokenize(s))
    res = None
    if len(tk.t) > 1 and tk.t[1] == '=':
        res = tk.next()
        tk.next()
    op = tk.next()
    if op in ('tail', 'musttail', 'notail'):
        op = tk.next()
    if op in BIN_OPS:
        fl = []
        while tk.peek() in FLAGS:
            fl.append(tk.next())
        ty = parse_type(tk)
        a = parse_value(tk, ty); tk.expect(','); b = parse_value(tk, ty)
        return Inst(op, res, ty, [a, b], fl, dbg)
    if op == 'fneg':
        while tk.peek() in FLAGS: tk.next()
        ty = parse_type(tk)
        return Inst(op, res, ty, [parse_value(tk, ty)], None, dbg)
    if op in ('icmp', 'fcmp'):
        while tk.peek() in FLAGS: tk.next()
        pred = tk.next()
        ty = parse_type(tk)
        a = parse_value(tk, ty); tk.expect(','); b = parse_value(tk, ty)
        return Inst(op, res, ty, [a, b], pred, dbg)
    if op in CAST_OPS:
        while tk.peek() in FLAGS: tk.next()
        sty = parse_type(tk); v = parse_value(tk, sty); tk.expect('to'); dty = parse_type(tk)
        return Inst(op, res, dty, [v], sty, dbg)
    if op == 'load':
        at = False
        while tk.peek() in ('atomic', 'volatile'):
            if tk.next() == 'atomic': at = True
        ty = parse_type(tk); tk.expect(',')
        pty = parse_type(tk); p = parse_value(tk, pty)
        return Inst('load', res, ty, [p], at, dbg)
    if op == 'store':
        at = False
        while tk.peek() in ('atomic', 'volatile'):
            if tk.next() == 'atomic': at = True
        ty = parse_type(tk); v = parse_value(tk, ty); tk.expect(',')
        pty = parse_type(tk); p = parse_value(tk, pty)
        return Inst('store', res, ty, [v, p], at, dbg)
    if op == 'getelementptr':
        while tk.peek() in FLAGS: tk.next()
        bty = parse_type(tk); tk.expect(',')
        ops = []
        tys = []
        while tk.peek() is not None:
            t = parse_type(tk)
            tys.append(t)
            ops.append(parse_value(tk, t))
            if not tk.accept(','): break
        return Inst('gep', res, bty, ops, tys, dbg)
    if op == 'alloca':
        tk.accept('inalloca')
        ty = parse_type(tk)
        n = ('int', 1)
        if tk.accept(','):
            if tk.peek() != 'align':
                t = parse_type(tk)
                n = parse_value(tk, t)
        return Inst('alloca', res, ty, [n], None, dbg)
    if op == 'br':
        if tk.peek() == 'label':
            tk.next()
            return Inst('br', None, None, [], {'succs': [tk.next()]}, dbg)
        ty = parse_type(tk); c = parse_value(tk, ty)
        tk.expect(','); tk.expect('label'); a = tk.next(); tk.expect(','); tk.expect('label'); b = tk.next()
        return Inst('br', None, None, [c], {'succs': [a, b]}, dbg)
    if op == 'switch':
        ty = parse_type(tk); v = parse_value(tk, ty); tk.expect(','); tk.expect('label')
        d = tk.next(); tk.expect('[')
        cases = []
        while not tk.accept(']'):
            cty = parse_type(tk); cv = parse_value(tk, cty); tk.expect(','); tk.expect('label')
            cases.append((cv[1], tk.next()))
        return Inst('switch', None, ty, [v], {'default': d, 'cases': cases}, dbg)
    if op == 'ret':
        ty = parse_type(tk)
        return Inst('ret', None, ty, [] if ty == 'void' else [parse_value(tk, ty)], None, dbg)
    if op == 'phi':
        while tk.peek() in FLAGS: tk.next()
        ty = parse_type(tk)
        inc = []
        while tk.accept('['):
            v = parse_value(tk, ty); tk.expect(','); inc.append((v, tk.next())); tk.expect(']'); tk.accept(',')
        return Inst('phi', res, ty, [v for v, _ in inc], [b for _, b in inc], dbg)
    if op == 'select':
        while tk.peek() in FLAGS: tk.next()
        cty = parse_type(tk); c = parse_value(tk, cty); tk.expect(',')
        ty = parse_type(tk); a = parse_value(tk, ty); tk.expect(',')
        t2 = parse_type(tk); b = parse_value(tk, t2)
        return Inst('select', res, ty, [c, a, b], cty, dbg)
    if op in ('call', 'invoke'):
        while tk.peek() in FLAGS or tk.peek() in ('fastcc', 'coldcc', 'ccc'): tk.next()
        skip_param_attrs(tk)
        if tk.peek() == 'addrspace':
            tk.next(); tk.expect('('); tk.next(); tk.expect(')')
        rty = parse_type_nofunc(tk)
        if tk.peek() == '(':
            # explicit function type
            tk.next()
            depth = 1
            while depth:
                x = tk.next()
                if x == '(': depth += 1
                if x == ')': depth -= 1
        if tk.peek() == 'asm':
            tk.next()
            fl = []
            while tk.peek() in ('sideeffect', 'alignstack', 'inteldialect', 'unwind'): fl.append(tk.next())
            txt = tk.next(); tk.expect(','); cons = tk.next()
            callee = ('asm', txt, cons)
        else:
            callee = parse_value(tk, 'ptr')
        tk.expect('(')
        args = []
        tys = []
        pat = []
        while not tk.accept(')'):
            t = parse_type_nofunc(tk) if tk.peek() != 'metadata' else tk.next()
            at = skip_param_attrs(tk)
            if t == 'metadata':
                # skip to matching comma or )
                d = 0
                while not (d == 0 and tk.peek() in (',', ')')):
                    x = tk.next()
                    if x == '(': d += 1
                    if x == ')': d -= 1
                args.append(('md',))
            else:
                args.append(parse_value(tk, t))
            tys.append(t)
            pat.append(at)
            tk.accept(',')
        x = {'callee': callee, 'tys': tys, 'pat': pat}
        rest = tk.t[tk.i:]
        x['grp'] = [r for r in rest if r.startswith('#')]
        if op == 'invoke':
            j = rest.index('to')
            x['normal'] = rest[j + 2]
            j = rest.index('unwind')
            x['unwind'] = rest[j + 2]
        return Inst(op, res, rty, args, x, dbg)
    if op == 'extractvalue':
        ty = parse_type(tk); v = parse_value(tk, ty)
        idx = []
        while tk.accept(','): idx.append(int(tk.next()))
        return Inst(op, res, ty, [v], idx, dbg)
    if op == 'insertvalue':
        ty = parse_type(tk); v = parse_value(tk, ty); tk.expect(',')
        ety = parse_type(tk); e = parse_value(tk, ety)
        idx = []
        while tk.accept(','): idx.append(int(tk.next()))
        return Inst(op, res, ty, [v, e], idx, dbg)
    if op == 'extractelement':
        ty = parse_type(tk); v = parse_value(tk, ty); tk.expect(',')
        ity = parse_type(tk); i = parse_value(tk, ity)
        return Inst(op, res, ty, [v, i], None, dbg)
    if op == 'insertelement':
        ty = parse_type(tk); v = parse_value(tk, ty); tk.expect(',')
        ety = parse_type(tk); e = parse_value(tk, ety); tk.expect(',')
        ity = parse_type(tk); i = parse_value(tk, ity)
        return Inst(op, res, ty, [v, e, i], None, dbg)
    if op == 'shufflevector':
        ty = parse_type(tk); a = parse_value(tk, ty); tk.expect(',')
        t2 = parse_type(tk); b = parse_value(tk, t2); tk.expect(',')
        mty = parse_type(tk); mk = parse_value(tk, mty)
        return Inst(op, res, ty, [a, b, mk], mty, dbg)
    if op == 'freeze':
        ty = parse_type(tk)
        return Inst(op, res, ty, [parse_value(tk, ty)], None, dbg)
    if op in ('unreachable', 'fence', 'resume', 'landingpad', 'cleanupret', 'catchret', 'atomicrmw', 'cmpxchg', 'va_arg'):
        ops = []
        if op in ('atomicrmw', 'cmpxchg'):
            while tk.peek() in ('volatile', 'weak', 'add', 'xchg', 'or', 'and', 'sub', 'xor', 'max', 'min', 'umax', 'umin'): tk.next()
            t = parse_type(tk)
            ops.append(parse_value(tk, t))
        return Inst(op, res, None, ops, None, dbg)
    raise ParseError('inst? ' + s)


class Global:
    def __init__(self, mod, name, text):
        self.mod = mod
        self.name = name
        self.text = text
        self._p = False
        t = text
        head = t.split('=', 1)[1]
        pre = re.match(r'\s*((?:[a-z_]+(?:\([^)]*\))?\s+)*?)(global|constant|alias)\s', head)
        self.kind = pre.group(2) if pre else '?'
        self.tls = 'thread_local' in (pre.group(1) if pre else '')
        self.link = (pre.group(1) if pre else '').split()
        self._rest = head[pre.end():] if pre else head
        self.external = 'external' in self.link or 'extern_weak' in self.link

    def _parse(self):
        if self._p: return
        self._p = True
        tk = Toks(tokenize(self._rest))
        self._ty = parse_type_nofunc(tk)
        self._init = None
        if self.kind != 'alias' and not self.external and tk.peek() not in (None, ','):
            self._init = parse_value(tk, self._ty)

    @property
    def ty(self):
        self._parse()
        return self._ty

    @property
    def init(self):
        self._parse()
        return self._init


class Module:
    def __init__(self, path):
        self.path = path
        self.types = {}
        self.globals = {}
        self.funcs = {}
        self.md = {}
        self.attrgroups = {}
        self._typecache = {}
        with open(path) as f:
            it = iter(f)
            for ln in it:
                c = ln[0]
                if c == '@':
                    m = re.match(r'(@"(?:[^"\\]|\\.)*"|@[-A-Za-z0-9_.$]+) = ', ln)
                    self.globals[m.group(1)] = Global(self, m.group(1), ln.rstrip('\n'))
                elif c == '%':
                    m = re.match(r'(%"(?:[^"\\]|\\.)*"|%[-A-Za-z0-9_.$]+) = type (.*)', ln)
                    self.types[m.group(1)] = m.group(2)
                elif c == 'd' and (ln.startswith('define ') or ln.startswith('declare ')):
                    m = re.search(r'(@"(?:[^"\\]|\\.)*"|@[-A-Za-z0-9_.$]+)\(', ln)
                    name = m.group(1)
                    if ln.startswith('define'):
                        body = []
                        for b in it:
                            if b[0] == '}': break
                            body.append(b.rstrip('\n'))
                        self.funcs[name] = Function(self, name, ln.rstrip().rstrip('{'), body)
                    else:
                        if name not in self.funcs:
                            self.funcs[name] = Function(self, name, ln.rstrip(), None)
                elif c == '!':
                    k = ln.find(' = ')
                    if k > 0:
                        self.md[ln[:k]] = ln[k + 3:].rstrip('\n')
                elif c == 'a' and ln.startswith('attributes '):
                    m = re.match(r'attributes (#\d+) = \{(.*)\}', ln)
                    d = {}
                    for a in re.finditer(r'"([^"]*)"="([^"]*)"|"([^"]*)"|([a-z_]+)(\([^)]*\))?', m.group(2)):
                        if a.group(1) is not None: d[a.group(1)] = a.group(2)
                        elif a.group(3) is not None: d[a.group(3)] = True
                        else: d[a.group(4)] = a.group(5) or True
                    self.attrgroups[m.group(1)] = d

    # ---- types
    def resolve(self, ty):
        while isinstance(ty, tuple) and ty[0] == 'named':
            r = self._typecache.get(ty[1])
            if r is None:
                r = parse_type(Toks(tokenize(self.types[ty[1]])))
                self._typecache[ty[1]] = r
            ty = r
        return ty

    def size_align(self, ty):
        c = self._typecache.get(('sa', ty))
        if c is None:
            c = self._size_align(ty)
            self._typecache[('sa', ty)] = c
        return c

    def _size_align(self, ty):
        ty = self.resolve(ty)
        if ty == 'ptr': return 8, 8
        k = ty[0]
        if k == 'int':
            n = (ty[1] + 7) // 8
            if ty[1] > 64:
                return ((n + 15) // 16 * 16, 16)
            a = 1
            while a < n: a *= 2
            return a, a
        if k == 'fp':
            return {'half': (2, 2), 'float': (4, 4), 'double': (8, 8), 'x86_fp80': (16, 16), 'fp128': (16, 16)}[ty[1]]
        if k == 'arr':
            s, a = self.size_align(ty[2])
            return s * ty[1], a
        if k == 'vec':
            e = self.resolve(ty[2])
            bits = (64 if e == 'ptr' else e[1] if e[0] == 'int' else 64) * ty[1]
            n = (bits + 7) // 8
            a = 1
            while a < n: a *= 2
            return a, a
        if k == 'struct':
            off = 0
            al = 1
            for f in ty[1]:
                s, a = self.size_align(f)
                if ty[2]: a = 1
                off = (off + a - 1) // a * a + s
                al = max(al, a)
            return (off + al - 1) // al * al, al
        raise ParseError('size of %r' % (ty,))

    def sizeof(self, ty):
        return self.size_align(ty)[0]

    def bitsof(self, ty):
        ty = self.resolve(ty)
        if ty == 'ptr': return 64
        if ty[0] == 'int': return ty[1]
        return self.sizeof(ty) * 8

    def field_off(self, ty, i):
        ty = self.resolve(ty)
        off = 0
        for j, f in enumerate(ty[1]):
            s, a = self.size_align(f)
            if ty[2]: a = 1
            off = (off + a - 1) // a * a
            if j == i: return off
            off += s
        raise IndexError

    # ---- debug info
    def loc(self, dbg):
        """(file, line, inlinedAt) of a !dbg id."""
        if dbg is None: return None
        t = self.md.get(dbg)
        if not t: return None
        m = re.search(r'line: (\d+)', t)
        line = int(m.group(1)) if m else 0
        m = re.search(r'scope: (![0-9]+)', t)
        f = self._scopefile(m.group(1)) if m else None
        return f, line

    def locchain(self, dbg):
        out = []
        while dbg:
            t = self.md.get(dbg)
            if not t: break
            out.append(self.loc(dbg))
            m = re.search(r'inlinedAt: (![0-9]+)', t)
            dbg = m.group(1) if m else None
        return out

    def _scopefile(self, sc):
        for _ in range(50):
            t = self.md.get(sc)
            if not t: return None
            m = re.search(r'file: (![0-9]+)', t)
            if m:
                ft = self.md.get(m.group(1), '')
                fm = re.search(r'filename: "([^"]*)"', ft)
                dm = re.search(r'directory: "([^"]*)"', ft)
                fn = fm.group(1) if fm else '?'
                if not fn.startswith('/') and dm:
                    fn = dm.group(1) + '/' + fn
                return fn
            m = re.search(r'scope: (![0-9]+)', t)
            if not m: return None
            sc = m.group(1)
        return None


def demangle(names):
    import subprocess
    p = subprocess.run(['c++filt'], input='\n'.join(n.lstrip('@').strip('"') for n in names), capture_output=True, text=True)
    return dict(zip(names, p.stdout.split('\n')))
