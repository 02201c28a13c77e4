"""Parser for the textual LLVM IR that clang-18 -O0 writes (the subset it uses)."""
import re
import subprocess

TOK = re.compile(r'''\s*(?:
  (?P<str>c"(?:[^"\\]|\\.)*")
 |(?P<qid>[%@]"(?:[^"\\]|\\.)*")
 |(?P<id>[%@][-\w$.]+)
 |(?P<meta>![\w.]*)
 |(?P<attr>\#\d+)
 |(?P<hex>0x[KLMHR]?[0-9A-Fa-f]+)
 |(?P<num>-?\d+(?:\.\d+(?:e[+-]?\d+)?)?)
 |(?P<word>[A-Za-z_][\w.]*)
 |(?P<dots>\.\.\.)
 |(?P<q>"(?:[^"\\]|\\.)*")
 |(?P<p>[\[\]{}()<>,=*:|$])
)''', re.X)


class T:
    """types: ('int',w) ('ptr',) ('void',) ('fp',bits) ('arr',n,T) ('struct',[T],packed) ('named',n) ('vec',n,T)"""


PTR = ('ptr',)
VOID = ('void',)
I1 = ('int', 1)
I8 = ('int', 8)
I32 = ('int', 32)
I64 = ('int', 64)


def tokenize(s):
    out = []
    i = 0
    n = len(s)
    while i < n:
        m = TOK.match(s, i)
        if not m:
            if s[i:].strip() == '' or s[i:].lstrip().startswith(';'):
                break
            raise SyntaxError('IR token: %r' % s[i:i + 60])
        i = m.end()
        k = m.lastgroup
        v = m.group(k)
        out.append((k, v))
    return out


def unquote(name):
    if name.startswith('"'):
        name = name[1:-1]
        name = re.sub(r'\\([0-9A-Fa-f]{2})', lambda m: chr(int(m.group(1), 16)), name)
    return name


ATTRS = set('''noundef nonnull zeroext signext nocapture readonly readnone writeonly noalias returned immarg inreg
nest swiftself byval sret align dereferenceable dereferenceable_or_null inbounds nuw nsw exact fast nnan ninf nsz arcp
contract afn reassoc tail musttail notail volatile disjoint noreturn nounwind allocptr range
dso_local internal external linkonce_odr linkonce weak weak_odr private hidden protected common appending available_externally
unnamed_addr local_unnamed_addr constant global thread_local comdat default extern_weak
fastcc ccc nneg samesign mustprogress allockind nofpclass writable dead_on_unwind'''.split())


class Instr:
    __slots__ = ('op', 'dst', 'ty', 'args', 'x', 'line', 'fn', 'idx')

    def __init__(self, op, dst, ty, args, x=None):
        self.op, self.dst, self.ty, self.args, self.x = op, dst, ty, args, x
        self.line = None

    def __repr__(self):
        return '%s = %s %s %s %s' % (self.dst, self.op, self.ty, self.args, self.x)


class Function:
    def __init__(self, name, ret, params, lines, module, header):
        self.name, self.ret, self.params = name, ret, params
        self.lines = lines
        self.module = module
        self.header = header
        self.sret = None
        self._blocks = None

    @property
    def dname(self):
        return self.module.demangle(self.name)

    @property
    def blocks(self):
        if self._blocks is None:
            self.parse()
        return self._blocks

    def parse(self):
        blocks = {}
        order = []
        cur = None
        nparams = len([p for p in self.params])
        # implicit name of entry block
        unnamed = 0
        for _, nm in self.params:
            if re.match(r'^\d+$', nm):
                unnamed = max(unnamed, int(nm) + 1)
        entry = str(unnamed)
        lines = self.lines
        i = 0
        joined = []
        while i < len(lines):
            l = lines[i]
            s = l.strip()
            if s.startswith('switch ') and not s.rstrip().endswith(']') and '[' in s:
                while ']' not in lines[i]:
                    i += 1
                    s += ' ' + lines[i].strip()
                joined.append(s)
            elif re.match(r'^(%[\w.]+ = )?(landingpad|invoke)\b', s):
                while i + 1 < len(lines) and re.match(r'\s+(cleanup|catch|filter|to label)\b', lines[i + 1]):
                    i += 1
                    s += ' ' + lines[i].strip()
                joined.append(s)
            else:
                joined.append(l)
            i += 1
        for l in joined:
            m = re.match(r'^("[^"]+"|[-\w$.]+):', l)
            if m:
                cur = unquote(m.group(1))
                blocks[cur] = []
                order.append(cur)
                continue
            s = l.strip()
            if not s or s.startswith(';'):
                continue
            if cur is None:
                cur = entry
                blocks[cur] = []
                order.append(cur)
            ins = Parser(self.module, s).instr()
            ins.line = s
            ins.fn = self
            ins.idx = (cur, len(blocks[cur]))
            blocks[cur].append(ins)
        self._blocks = blocks
        self.order = order
        self.entry = order[0]
        self._cfg()

    def succs(self, b):
        t = self.blocks[b][-1]
        if t.op == 'br':
            return list(t.x)
        if t.op == 'switch':
            return [t.x[0]] + [l for _, l in t.x[1]]
        if t.op == 'invoke':
            return [t.x['normal'], t.x['unwind']]
        return []

    def _cfg(self):
        # dominators and natural loops
        order = []
        seen = set()

        def dfs(b):
            stack = [(b, iter(self.succs(b)))]
            seen.add(b)
            while stack:
                n, it = stack[-1]
                for s in it:
                    if s not in seen:
                        seen.add(s)
                        stack.append((s, iter(self.succs(s))))
                        break
                else:
                    order.append(n)
                    stack.pop()
        dfs(self.entry)
        rpo = order[::-1]
        num = {b: i for i, b in enumerate(rpo)}
        preds = {b: [] for b in rpo}
        for b in rpo:
            for s in self.succs(b):
                preds[s].append(b)
        idom = {self.entry: self.entry}
        changed = True
        while changed:
            changed = False
            for b in rpo[1:]:
                ps = [p for p in preds[b] if p in idom]
                if not ps:
                    continue
                new = ps[0]
                for p in ps[1:]:
                    a, c = p, new
                    while a != c:
                        while num[a] > num[c]:
                            a = idom[a]
                        while num[c] > num[a]:
                            c = idom[c]
                    new = a
                if idom.get(b) != new:
                    idom[b] = new
                    changed = True
        self.idom = idom
        self.loops = {}

        def dominates(a, b):
            while True:
                if a == b:
                    return True
                if b == self.entry:
                    return False
                b = idom[b]
        for b in rpo:
            for s in self.succs(b):
                if dominates(s, b):
                    body = self.loops.setdefault(s, {s})
                    stack = [b]
                    while stack:
                        x = stack.pop()
                        if x in body:
                            continue
                        body.add(x)
                        stack.extend(preds[x])
        self.rpo_num = num


class Parser:
    def __init__(self, module, s):
        self.m = module
        s = re.sub(r', !\w+ !\d+', '', s)
        self.s = s
        self.t = tokenize(s)
        self.i = 0

    def peek(self, k=0):
        return self.t[self.i + k] if self.i + k < len(self.t) else (None, None)

    def next(self):
        x = self.t[self.i]
        self.i += 1
        return x

    def accept(self, v):
        if self.i < len(self.t) and self.t[self.i][1] == v:
            self.i += 1
            return True
        return False

    def expect(self, v):
        k, x = self.next()
        if x != v:
            raise SyntaxError('expected %s got %s in %s' % (v, x, self.s[:200]))

    def attrs(self):
        got = []
        while True:
            k, v = self.peek()
            if k == 'word' and v in ATTRS:
                self.next()
                a = (v, None)
                if self.peek()[1] == '(' and v not in ('inbounds', 'nuw', 'nsw', 'exact'):
                    depth = 0
                    toks = []
                    ty = None
                    if v in ('sret', 'byval'):
                        self.next()
                        ty = self.type()
                        self.expect(')')
                        a = (v, ty)
                        got.append(a)
                        continue
                    while True:
                        kk, vv = self.next()
                        toks.append(vv)
                        if vv == '(':
                            depth += 1
                        elif vv == ')':
                            depth -= 1
                            if depth == 0:
                                break
                elif v == 'align':
                    self.next()
                elif v == 'thread_local':
                    a = ('thread_local', True)
                got.append(a)
            elif k == 'attr' or k == 'meta':
                self.next()
            else:
                return got

    def type(self):
        k, v = self.next()
        if k == 'word':
            if v == 'ptr':
                t = PTR
            elif v == 'void':
                t = VOID
            elif re.match(r'^i\d+$', v):
                t = ('int', int(v[1:]))
            elif v == 'float':
                t = ('fp', 32)
            elif v == 'double':
                t = ('fp', 64)
            elif v == 'x86_fp80':
                t = ('fp', 80)
            elif v in ('label', 'metadata', 'opaque', 'token'):
                t = (v,)
            else:
                raise SyntaxError('type %s in %s' % (v, self.s[:200]))
        elif k in ('id', 'qid') and v[0] == '%':
            t = ('named', unquote(v[1:]))
        elif v == '[':
            n = int(self.next()[1])
            self.expect('x')
            e = self.type()
            self.expect(']')
            t = ('arr', n, e)
        elif v == '{':
            es = []
            if not self.accept('}'):
                while True:
                    es.append(self.type())
                    if self.accept('}'):
                        break
                    self.expect(',')
            t = ('struct', tuple(es), False)
        elif v == '<':
            if self.peek()[1] == '{':
                self.next()
                es = []
                if not self.accept('}'):
                    while True:
                        es.append(self.type())
                        if self.accept('}'):
                            break
                        self.expect(',')
                self.expect('>')
                t = ('struct', tuple(es), True)
            else:
                n = int(self.next()[1])
                self.expect('x')
                e = self.type()
                self.expect('>')
                t = ('vec', n, e)
        else:
            raise SyntaxError('type %s in %s' % (v, self.s[:200]))
        while True:
            if self.peek()[1] == '(':
                # function type
                self.next()
                depth = 1
                ps = []
                if not self.accept(')'):
                    while True:
                        if self.accept('...'):
                            ps.append(('dots',))
                        else:
                            ps.append(self.type())
                            self.attrs()
                        if self.accept(')'):
                            break
                        self.expect(',')
                t = ('fn', t, tuple(ps))
            elif self.peek()[1] == '*':
                self.next()
                t = PTR
            else:
                return t

    def value(self, ty):
        """-> operand: ('loc',name) ('glob',name) ('const',x) ('undef',) ('zero',) ('agg',[..]) ('ce',op,...)"""
        k, v = self.next()
        if k in ('id', 'qid'):
            if v[0] == '%':
                return ('loc', unquote(v[1:]))
            return ('glob', unquote(v[1:]))
        if k == 'num':
            if '.' in v:
                import struct
                return ('fpc', float(v))
            return ('const', int(v))
        if k == 'hex':
            return ('fphex', int(v[2:].lstrip('KLMHR') if v[2] in 'KLMHR' else v[2:], 16))
        if k == 'word':
            if v == 'true':
                return ('const', 1)
            if v == 'false':
                return ('const', 0)
            if v == 'null':
                return ('null',)
            if v in ('undef', 'poison'):
                return ('undef',)
            if v == 'zeroinitializer':
                return ('zero',)
            if v == 'none':
                return ('null',)
            if v == 'getelementptr':
                self.attrs()
                self.expect('(')
                bt = self.type()
                self.expect(',')
                self.type()
                base = self.value(PTR)
                idx = []
                while self.accept(','):
                    self.attrs()
                    t = self.type()
                    idx.append((t, self.value(t)))
                self.expect(')')
                return ('gep', bt, base, idx)
            if v in ('ptrtoint', 'inttoptr', 'bitcast', 'trunc', 'zext', 'sext', 'addrspacecast'):
                self.expect('(')
                t = self.type()
                a = self.value(t)
                self.expect('to')
                t2 = self.type()
                self.expect(')')
                return ('cast', v, t, a, t2)
            if v in ('sub', 'add', 'mul'):
                self.attrs()
                self.expect('(')
                t = self.type()
                a = self.value(t)
                self.expect(',')
                t2 = self.type()
                b = self.value(t2)
                self.expect(')')
                return ('bin', v, t, a, b)
            raise SyntaxError('value %s in %s' % (v, self.s[:200]))
        if k == 'str':
            b = v[2:-1]
            out = bytearray()
            i = 0
            while i < len(b):
                if b[i] == '\\':
                    out.append(int(b[i + 1:i + 3], 16))
                    i += 3
                else:
                    out.append(ord(b[i]))
                    i += 1
            return ('bytes', bytes(out))
        if v in ('[', '{', '<'):
            close = {'[': ']', '{': '}', '<': '>'}[v]
            packed = False
            if v == '<' and self.peek()[1] == '{':
                self.next()
                packed = True
                close = '}'
            es = []
            if not self.accept(close):
                while True:
                    self.attrs()
                    t = self.type()
                    es.append((t, self.value(t)))
                    if self.accept(close):
                        break
                    self.expect(',')
            if packed:
                self.expect('>')
            return ('agg', es)
        raise SyntaxError('value %r in %s' % (v, self.s[:200]))

    def tv(self):
        t = self.type()
        self.attrs()
        return t, self.value(t)

    def call_args(self):
        args = []
        self.expect('(')
        if self.accept(')'):
            return args
        while True:
            t = self.type()
            a = self.attrs()
            if t == ('metadata',):
                # skip to , or )
                while self.peek()[1] not in (',', ')'):
                    self.next()
                args.append((t, None, a))
            else:
                args.append((t, self.value(t), a))
            if self.accept(')'):
                return args
            self.expect(',')

    def instr(self):
        dst = None
        if self.peek()[0] in ('id', 'qid') and self.peek(1)[1] == '=':
            dst = unquote(self.next()[1][1:])
            self.next()
        k, op = self.next()
        if op in ('tail', 'musttail', 'notail'):
            k, op = self.next()
        if op == 'alloca':
            t = self.type()
            n = None
            if self.accept(','):
                if self.peek()[1] != 'align':
                    n = self.tv()
            return Instr('alloca', dst, t, [n] if n else [])
        if op == 'load':
            self.attrs()
            if self.accept('atomic'):
                pass
            t = self.type()
            self.expect(',')
            p = self.tv()
            return Instr('load', dst, t, [p[1]])
        if op == 'store':
            self.attrs()
            t, v = self.tv()
            self.expect(',')
            p = self.tv()
            return Instr('store', None, t, [v, p[1]])
        if op == 'getelementptr':
            self.attrs()
            t = self.type()
            self.expect(',')
            self.type()
            base = self.value(PTR)
            idx = []
            while self.accept(','):
                tt = self.type()
                idx.append((tt, self.value(tt)))
            return Instr('gep', dst, t, [base], idx)
        if op in ('add', 'sub', 'mul', 'udiv', 'sdiv', 'urem', 'srem', 'shl', 'lshr', 'ashr', 'and', 'or', 'xor',
                  'fadd', 'fsub', 'fmul', 'fdiv', 'frem'):
            fl = [a for a, _ in self.attrs()]
            t = self.type()
            a = self.value(t)
            self.expect(',')
            b = self.value(t)
            return Instr(op, dst, t, [a, b], fl)
        if op == 'fneg':
            self.attrs()
            t = self.type()
            return Instr(op, dst, t, [self.value(t)])
        if op in ('icmp', 'fcmp'):
            self.attrs()
            pred = self.next()[1]
            t = self.type()
            a = self.value(t)
            self.expect(',')
            b = self.value(t)
            return Instr(op, dst, t, [a, b], pred)
        if op in ('trunc', 'zext', 'sext', 'ptrtoint', 'inttoptr', 'bitcast', 'fptrunc', 'fpext', 'uitofp', 'sitofp',
                  'fptoui', 'fptosi', 'addrspacecast'):
            self.attrs()
            t = self.type()
            a = self.value(t)
            self.expect('to')
            t2 = self.type()
            return Instr(op, dst, t2, [a], t)
        if op == 'freeze':
            t = self.type()
            return Instr(op, dst, t, [self.value(t)])
        if op == 'br':
            if self.accept('label'):
                return Instr('br', None, None, [], [unquote(self.next()[1][1:])])
            t = self.type()
            c = self.value(t)
            self.expect(',')
            self.expect('label')
            a = unquote(self.next()[1][1:])
            self.expect(',')
            self.expect('label')
            b = unquote(self.next()[1][1:])
            return Instr('br', None, None, [c], [a, b])
        if op == 'switch':
            t = self.type()
            v = self.value(t)
            self.expect(',')
            self.expect('label')
            d = unquote(self.next()[1][1:])
            self.expect('[')
            cases = []
            while not self.accept(']'):
                ct = self.type()
                cv = self.value(ct)
                self.expect(',')
                self.expect('label')
                cases.append((cv[1], unquote(self.next()[1][1:])))
            return Instr('switch', None, t, [v], (d, cases))
        if op == 'ret':
            t = self.type()
            if t == VOID:
                return Instr('ret', None, t, [])
            return Instr('ret', None, t, [self.value(t)])
        if op == 'unreachable':
            return Instr(op, None, None, [])
        if op == 'select':
            self.attrs()
            ct, c = self.tv()
            self.expect(',')
            t, a = self.tv()
            self.expect(',')
            t, b = self.tv()
            return Instr('select', dst, t, [c, a, b])
        if op == 'phi':
            t = self.type()
            inc = []
            while True:
                self.expect('[')
                v = self.value(t)
                self.expect(',')
                b = unquote(self.next()[1][1:])
                self.expect(']')
                inc.append((v, b))
                if not self.accept(','):
                    break
            return Instr('phi', dst, t, [], inc)
        if op == 'extractvalue':
            t, v = self.tv()
            idx = []
            while self.accept(','):
                idx.append(int(self.next()[1]))
            return Instr(op, dst, t, [v], idx)
        if op == 'insertvalue':
            t, v = self.tv()
            self.expect(',')
            t2, v2 = self.tv()
            idx = []
            while self.accept(','):
                idx.append(int(self.next()[1]))
            return Instr(op, dst, t, [v, v2], (t2, idx))
        if op == 'landingpad':
            t = self.type()
            clauses = []
            while self.i < len(self.t):
                k, w = self.next()
                if w == 'cleanup':
                    clauses.append(('cleanup',))
                elif w in ('catch', 'filter'):
                    tt, vv = self.tv()
                    clauses.append((w, vv))
            return Instr(op, dst, t, [], clauses)
        if op == 'resume':
            t, v = self.tv()
            return Instr(op, None, t, [v])
        if op in ('call', 'invoke'):
            self.attrs()
            t = self.type()
            if t[0] == 'fn':
                t = t[1]
            callee = self.value(PTR)
            args = self.call_args()
            self.attrs()
            x = {'callee': callee}
            if op == 'invoke':
                while not self.accept('to'):
                    self.next()
                self.expect('label')
                x['normal'] = unquote(self.next()[1][1:])
                self.expect('unwind')
                self.expect('label')
                x['unwind'] = unquote(self.next()[1][1:])
            return Instr(op, dst, t, args, x)
        if op in ('atomicrmw', 'cmpxchg', 'fence', 'va_arg', 'extractelement', 'insertelement', 'shufflevector'):
            return Instr(op, dst, None, [], self.s)
        raise SyntaxError('instr %s' % self.s[:200])


class Module:
    def __init__(self, path):
        text = open(path).read()
        self.types = {}
        self.functions = {}
        self.globals = {}
        self.aliases = {}
        self._dem = {}
        lines = text.split('\n')
        i = 0
        n = len(lines)
        raw_types = []
        while i < n:
            l = lines[i]
            if l.startswith('%'):
                m = re.match(r'^%("[^"]+"|[-\w$.]+) = type (.*)$', l)
                if m:
                    raw_types.append((unquote(m.group(1)), m.group(2)))
            elif l.startswith('@'):
                m = re.match(r'^@("[^"]+"|[-\w$.]+) = (.*)$', l)
                self.globals[unquote(m.group(1))] = m.group(2)
                a = re.match(r'.* alias .*, ptr @("[^"]+"|[-\w$.]+)$', m.group(2))
                if a:
                    self.aliases[unquote(m.group(1))] = unquote(a.group(1))
            elif l.startswith('define '):
                hdr = l
                body = []
                i += 1
                while lines[i] != '}':
                    body.append(lines[i])
                    i += 1
                self._define(hdr, body)
            elif l.startswith('declare '):
                pass
            i += 1
        for nm, t in raw_types:
            if t.strip() == 'opaque':
                self.types[nm] = ('opaque',)
            else:
                self.types[nm] = Parser(self, t).type()
        self._gparsed = {}
        names = set(self.functions)
        names |= set(re.findall(r'@("[^"]+"|[\w$.]+)', text))
        names = [unquote(x) for x in names]
        out = subprocess.run(['llvm-cxxfilt-18'], input='\n'.join(names), capture_output=True, text=True).stdout
        self._dem = dict(zip(names, out.split('\n')))
        self._by_dname = {}
        for f in self.functions:
            self._by_dname.setdefault(self.demangle(f), []).append(f)
        self._sizes = {}

    def function(self, n):
        return self.functions.get(n) or self.functions.get(self.aliases.get(n))

    def demangle(self, n):
        return self._dem.get(n, n)

    def find(self, dname):
        """function with exactly this demangled name"""
        fs = self._by_dname.get(dname, [])
        # constructors: prefer C2/C1, either works
        return self.functions[fs[0]] if fs else None

    def _define(self, hdr, body):
        h = hdr[len('define '):]
        p = Parser.__new__(Parser)
        p.m = self
        h2 = h.rstrip(' {')
        p.s = h2
        p.t = tokenize(h2)
        p.i = 0
        p.attrs()
        ret = p.type()
        p.attrs()
        k, nm = p.next()
        name = unquote(nm[1:])
        p.expect('(')
        params = []
        sret = None
        varg = False
        if not p.accept(')'):
            while True:
                if p.accept('...'):
                    varg = True
                else:
                    t = p.type()
                    a = p.attrs()
                    k, v = p.next()
                    params.append((t, unquote(v[1:])))
                    for an, at in a:
                        if an == 'sret':
                            sret = at
                if p.accept(')'):
                    break
                p.expect(',')
        f = Function(name, ret, params, body, self, hdr)
        f.sret = sret
        f.internal = bool(re.match(r'define internal', hdr))
        self.functions[name] = f

    def global_def(self, name):
        """-> dict(type, init, const, tls, external)"""
        r = self._gparsed.get(name)
        if r is not None:
            return r
        s = self.globals.get(name)
        if s is None:
            return None
        s = re.sub(r', comdat(\(\$[^)]*\))?', '', s)
        s = re.sub(r', (align \d+|section "[^"]*")', '', s)
        s = re.sub(r'\b(unnamed_addr|local_unnamed_addr|dso_local|internal|private|linkonce_odr|weak_odr|weak|linkonce|'
                   r'hidden|available_externally|appending|common)\b ?', '', s)
        tls = 'thread_local' in s
        s = re.sub(r'thread_local(\([a-z]+\))? ?', '', s)
        external = False
        m = re.match(r'^(external|extern_weak) ', s)
        if m:
            external = True
            s = s[m.end():]
        s = s.strip()
        m = re.match(r'^(constant|global|alias)\s+', s)
        kind = m.group(1)
        p = Parser(self, s[m.end():])
        t = p.type()
        init = None
        if kind == 'alias':
            p.expect(',')
            tt = p.type()
            init = p.value(tt)
        elif not external and p.i < len(p.t):
            init = p.value(t)
        r = dict(type=t, init=init, const=(kind == 'constant'), tls=tls, external=external, alias=(kind == 'alias'))
        self._gparsed[name] = r
        return r

    # ------------------------------------------------------------- layout
    def resolve(self, t):
        while t[0] == 'named':
            t = self.types[t[1]]
        return t

    def size_align(self, t):
        r = self._sizes.get(t)
        if r is None:
            r = self._sizes[t] = self._sa(t)
        return r

    def _sa(self, t):
        k = t[0]
        if k == 'int':
            w = t[1]
            b = 1
            while b * 8 < w:
                b *= 2
            return b, min(b, 16)
        if k == 'ptr':
            return 8, 8
        if k == 'fp':
            return {32: (4, 4), 64: (8, 8), 80: (16, 16)}[t[1]]
        if k == 'arr':
            s, a = self.size_align(t[2])
            return s * t[1], a
        if k == 'vec':
            s, a = self.size_align(t[2])
            return s * t[1], s * t[1]
        if k == 'named':
            return self.size_align(self.types[t[1]])
        if k == 'struct':
            off = 0
            al = 1
            for e in t[1]:
                s, a = self.size_align(e)
                if t[2]:
                    a = 1
                off = (off + a - 1) // a * a
                off += s
                al = max(al, a)
            return (off + al - 1) // al * al, al
        if k == 'opaque':
            return 0, 1
        raise SyntaxError('size of %r' % (t,))

    def sizeof(self, t):
        return self.size_align(t)[0]

    def field_offset(self, t, i):
        t = self.resolve(t)
        off = 0
        for j, e in enumerate(t[1]):
            s, a = self.size_align(e)
            if t[2]:
                a = 1
            off = (off + a - 1) // a * a
            if j == i:
                return off, e
            off += s
        raise IndexError
