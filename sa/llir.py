"""Reader for the LLVM-18 textual IR that clang produces for /repo.

Parses functions (blocks / instructions / operands), types and layouts,
global variables and the DWARF metadata needed to name struct fields and
source lines.  Nothing here knows about tarantool/small.
"""
import re

TOK = re.compile(r'''
   (?P<str>c?"(?:[^"\\]|\\.)*")
 | (?P<loc>%(?:"[^"]*"|[-a-zA-Z$._0-9]+))
 | (?P<glo>@(?:"[^"]*"|[-a-zA-Z$._0-9]+))
 | (?P<md>!(?:[-a-zA-Z$._][-a-zA-Z$._0-9]*|\d+)?)
 | (?P<attr>\#\d+)
 | (?P<num>-?0x[0-9A-Fa-fKLMHR]+|-?\d+\.\d*(?:[eE][-+]?\d+)?|-?\d+)
 | (?P<word>[a-zA-Z_][-a-zA-Z_.0-9$]*)
 | (?P<p>\.\.\.|[()\[\]{}<>,=*:|])
''', re.X)


def tokenize(s):
    out = []
    for m in TOK.finditer(s):
        k = m.lastgroup
        v = m.group()
        if k in ('loc', 'glo') and v[1] == '"':
            v = v[0] + v[2:-1]
        out.append((k, v))
    return out


def uses_reg(x, r):
    if isinstance(x, (tuple, list)):
        return len(x) == 2 and x[0] == 'loc' and x[1] == r or any(uses_reg(y, r) for y in x)
    return False


class Ty:
    __slots__ = ('k', 'n', 'el', 'name')

    def __init__(self, k, n=0, el=None, name=None):
        self.k, self.n, self.el, self.name = k, n, el, name

    def __repr__(self):
        if self.k == 'int':
            return 'i%d' % self.n
        if self.k == 'named':
            return self.name
        if self.k == 'array':
            return '[%d x %r]' % (self.n, self.el)
        return self.k


VOID = Ty('void')
PTR = Ty('ptr')
INTS = {}


def ity(n):
    if n not in INTS:
        INTS[n] = Ty('int', n)
    return INTS[n]


PARAM_ATTRS = {'noundef', 'zeroext', 'signext', 'inreg', 'noalias', 'nocapture',
               'nonnull', 'readonly', 'readnone', 'writeonly', 'returned',
               'immarg', 'nofree', 'swiftself', 'swifterror', 'noreturn',
               'allocptr', 'nest', 'allocalign', 'inrange', 'nneg', 'disjoint',
               'dead_on_unwind', 'writable', 'dead_on_return', 'initializes'}


class P:
    """token cursor"""

    def __init__(self, toks, mod):
        self.t, self.i, self.mod = toks, 0, mod

    def peek(self, d=0):
        return self.t[self.i + d] if self.i + d < len(self.t) else (None, None)

    def next(self):
        x = self.t[self.i]
        self.i += 1
        return x

    def accept(self, v):
        if self.i < len(self.t) and self.t[self.i][1] == v:
            self.i += 1
            return True
        return False

    def expect(self, v):
        x = self.next()
        if x[1] != v:
            raise SyntaxError('expected %s got %s in %s' % (v, x, self.t))

    def type(self):
        k, v = self.next()
        if v == 'ptr':
            t = PTR
            if self.accept('addrspace'):
                self.skip_parens()
        elif v == 'void':
            t = VOID
        elif k == 'word' and re.fullmatch(r'i\d+', v):
            t = ity(int(v[1:]))
        elif v in ('float', 'double', 'half', 'x86_fp80', 'fp128'):
            t = Ty('fp', {'float': 4, 'double': 8, 'half': 2}.get(v, 16))
        elif v in ('metadata', 'label', 'token'):
            t = Ty(v)
        elif v == '[':
            n = int(self.next()[1])
            self.expect('x')
            el = self.type()
            self.expect(']')
            t = Ty('array', n, el)
        elif v == '{':
            els = []
            while not self.accept('}'):
                els.append(self.type())
                self.accept(',')
            t = Ty('struct', 0, els)
        elif v == '<':
            if self.accept('{'):
                els = []
                while not self.accept('}'):
                    els.append(self.type())
                    self.accept(',')
                self.expect('>')
                t = Ty('packed', 0, els)
            else:
                n = int(self.next()[1])
                self.expect('x')
                el = self.type()
                self.expect('>')
                t = Ty('array', n, el)
        elif k == 'loc':
            t = Ty('named', 0, None, v)
        else:
            raise SyntaxError('type? %s %s in %s' % (k, v, self.t))
        while True:
            if self.peek()[1] == '(':      # function type
                self.skip_parens()
                t = Ty('func', 0, t)
            elif self.peek()[1] == '*':
                self.next()
                t = PTR
            else:
                break
        return t

    def skip_parens(self):
        self.expect('(')
        d = 1
        while d:
            v = self.next()[1]
            if v == '(':
                d += 1
            elif v == ')':
                d -= 1

    def skip_attrs(self):
        while True:
            k, v = self.peek()
            if k == 'word' and v in PARAM_ATTRS:
                self.next()
            elif v in ('align', 'dereferenceable', 'dereferenceable_or_null',
                       'sret', 'byval', 'elementtype', 'inalloca', 'range',
                       'captures', 'nofpclass', 'preallocated', 'allocsize'):
                self.next()
                if self.peek()[1] == '(':
                    self.skip_parens()
                else:
                    self.next()
            else:
                return

    def value(self, ty):
        """operand value after its type"""
        k, v = self.next()
        if k == 'loc':
            return ('loc', v)
        if k == 'glo':
            return ('glo', v.lstrip('@').strip('"'))
        if k == 'num':
            if ty is not None and ty.k == 'fp':
                return ('fp', v)
            if v.startswith('0x'):
                return ('fp', v)
            if '.' in v:
                return ('fp', v)
            return ('int', int(v))
        if v == 'true':
            return ('int', 1)
        if v == 'false':
            return ('int', 0)
        if v == 'null':
            return ('int', 0)
        if v == 'zeroinitializer':
            return ('zero',)
        if v in ('undef', 'poison'):
            return ('undef',)
        if k == 'md':
            # metadata operand: !123 or !DIExpression(...)
            if self.peek()[1] == '(':
                self.skip_parens()
            return ('md', v)
        if v == 'getelementptr':
            flags = []
            while self.peek()[1] in ('inbounds', 'nuw', 'nusw'):
                self.next()
            self.expect('(')
            bty = self.type()
            self.expect(',')
            ops = self.typed_list(')')
            return ('cgep', bty, ops)
        if v in ('ptrtoint', 'inttoptr', 'bitcast', 'trunc', 'zext', 'sext',
                 'addrspacecast'):
            self.expect('(')
            t = self.type()
            val = self.value(t)
            self.expect('to')
            t2 = self.type()
            self.expect(')')
            return ('ccast', v, t, val, t2)
        if v in ('add', 'sub', 'mul', 'xor', 'and', 'or', 'shl'):
            while self.peek()[1] in ('nuw', 'nsw'):
                self.next()
            self.expect('(')
            t = self.type()
            a = self.value(t)
            self.expect(',')
            self.type()
            b = self.value(t)
            self.expect(')')
            return ('cbin', v, t, a, b)
        if v == 'icmp':
            pred = self.next()[1]
            self.expect('(')
            t = self.type()
            a = self.value(t)
            self.expect(',')
            self.type()
            b = self.value(t)
            self.expect(')')
            return ('cicmp', pred, t, a, b)
        if v in ('[', '{', '<'):
            close = {'[': ']', '{': '}', '<': '>'}[v]
            if v == '<' and self.peek()[1] == '{':
                self.next()
                els = self.typed_list('}')
                self.expect('>')
                return ('agg', els)
            els = self.typed_list(close)
            return ('agg', els)
        if k == 'str':
            return ('str', v)
        if v == 'asm':
            return ('asm', v)
        raise SyntaxError('value? %s in %s' % ((k, v), self.t))

    def typed_list(self, close):
        out = []
        while not self.accept(close):
            while self.peek()[1] == 'inrange':
                self.next()
            t = self.type()
            self.skip_attrs()
            out.append((t, self.value(t)))
            self.accept(',')
        return out


class Inst:
    __slots__ = ('op', 'res', 'a', 'dbg', 'text', 'fn')

    def __init__(self, op, res, a, dbg, text):
        self.op, self.res, self.a, self.dbg, self.text = op, res, a, dbg, text

    def __repr__(self):
        return self.text


class Fn:
    def __init__(self, name, mod):
        self.name, self.mod = name, mod
        self.params = []      # (ty, name)
        self.ret = VOID
        self.blocks = {}      # label -> [Inst]
        self.order = []
        self.dbg = None
        self.internal = False
        self.loops = None
        self.line = None
        self.file = None


def parse_inst(line, mod):
    dbg = None
    m = re.search(r', !dbg !(\d+)', line)
    if m:
        dbg = int(m.group(1))
        line2 = line[:m.start()]
    else:
        line2 = line
        m2 = re.search(r', !(srcloc|llvm\.loop|tbaa|range|nonnull|noundef|heapallocsite) ', line2)
        if m2:
            line2 = line2[:m2.start()]
    toks = tokenize(line2)
    res = None
    i = 0
    if len(toks) > 1 and toks[1][1] == '=':
        res = toks[0][1]
        i = 2
    p = P(toks, mod)
    p.i = i
    op = p.next()[1]
    if op in ('tail', 'musttail', 'notail'):
        op = p.next()[1]
    a = None
    if op in ('add', 'sub', 'mul', 'udiv', 'sdiv', 'urem', 'srem', 'and', 'or',
              'xor', 'shl', 'lshr', 'ashr', 'fadd', 'fsub', 'fmul', 'fdiv', 'frem'):
        while p.peek()[1] in ('nuw', 'nsw', 'exact', 'disjoint', 'fast', 'nnan',
                              'ninf', 'nsz', 'contract', 'reassoc', 'arcp', 'afn'):
            p.next()
        t = p.type()
        x = p.value(t)
        p.expect(',')
        y = p.value(t)
        a = (t, x, y)
    elif op in ('icmp', 'fcmp'):
        while p.peek()[1] in ('fast', 'nnan', 'ninf', 'nsz', 'samesign'):
            p.next()
        pred = p.next()[1]
        t = p.type()
        x = p.value(t)
        p.expect(',')
        y = p.value(t)
        a = (pred, t, x, y)
    elif op in ('trunc', 'zext', 'sext', 'ptrtoint', 'inttoptr', 'bitcast',
                'fptoui', 'fptosi', 'uitofp', 'sitofp', 'fpext', 'fptrunc',
                'addrspacecast'):
        while p.peek()[1] in ('nneg', 'nuw', 'nsw'):
            p.next()
        t = p.type()
        x = p.value(t)
        p.expect('to')
        t2 = p.type()
        a = (t, x, t2)
    elif op in ('freeze', 'fneg'):
        t = p.type()
        a = (t, p.value(t))
    elif op == 'load':
        atomic = p.accept('atomic')
        vol = p.accept('volatile')
        t = p.type()
        p.expect(',')
        p.type()
        ptr = p.value(PTR)
        a = (t, ptr, atomic, vol)
    elif op == 'store':
        atomic = p.accept('atomic')
        vol = p.accept('volatile')
        t = p.type()
        v = p.value(t)
        p.expect(',')
        p.type()
        ptr = p.value(PTR)
        a = (t, v, ptr, atomic, vol)
    elif op == 'getelementptr':
        while p.peek()[1] in ('inbounds', 'nuw', 'nusw'):
            p.next()
        t = p.type()
        p.expect(',')
        ops = []
        while True:
            ot = p.type()
            ops.append((ot, p.value(ot)))
            if not p.accept(','):
                break
        a = (t, ops)
    elif op == 'alloca':
        t = p.type()
        n = None
        if p.accept(','):
            if p.peek()[1] != 'align':
                nt = p.type()
                n = p.value(nt)
        a = (t, n)
    elif op == 'br':
        if p.peek()[1] == 'label':
            p.next()
            a = (None, p.next()[1])
        else:
            t = p.type()
            c = p.value(t)
            p.expect(',')
            p.expect('label')
            l1 = p.next()[1]
            p.expect(',')
            p.expect('label')
            l2 = p.next()[1]
            a = (c, l1, l2)
    elif op == 'switch':
        t = p.type()
        v = p.value(t)
        p.expect(',')
        p.expect('label')
        d = p.next()[1]
        p.expect('[')
        cases = []
        while not p.accept(']'):
            ct = p.type()
            cv = p.value(ct)
            p.expect(',')
            p.expect('label')
            cases.append((cv[1], p.next()[1]))
        a = (t, v, d, cases)
    elif op == 'ret':
        t = p.type()
        a = (t, None if t.k == 'void' else p.value(t))
    elif op == 'phi':
        t = p.type()
        inc = []
        while p.accept('['):
            v = p.value(t)
            p.expect(',')
            l = p.next()[1]
            p.expect(']')
            inc.append((v, l))
            p.accept(',')
        a = (t, inc)
    elif op == 'select':
        ct = p.type()
        c = p.value(ct)
        p.expect(',')
        t = p.type()
        x = p.value(t)
        p.expect(',')
        p.type()
        y = p.value(t)
        a = (t, c, x, y)
    elif op == 'call':
        while p.peek()[1] in ('fastcc', 'ccc', 'coldcc', 'fast', 'nnan', 'ninf',
                              'nsz', 'contract', 'reassoc', 'arcp', 'afn'):
            p.next()
        p.skip_attrs()
        rt = p.type()
        if rt.k == 'func':
            rt = rt.el
        if p.peek()[1] == 'asm':
            # inline asm: opaque
            toks2 = p.t[p.i:]
            text = ' '.join(v for _, v in toks2)
            # find the argument list: last '(' group
            args = []
            j = len(p.t) - 1
            # find matching '(' from the end skipping attrs
            while p.t[j][1] != ')':
                j -= 1
            d = 0
            while True:
                if p.t[j][1] == ')':
                    d += 1
                elif p.t[j][1] == '(':
                    d -= 1
                    if d == 0:
                        break
                j -= 1
            p.i = j + 1
            args = p.typed_list(')')
            a = (rt, ('asm', text), args)
        else:
            k, v = p.peek()
            callee = p.value(PTR)
            p.expect('(')
            args = p.typed_list(')')
            a = (rt, callee, args)
    elif op == 'cmpxchg':
        while p.peek()[1] in ('weak', 'volatile'):
            p.next()
        p.type()
        ptr = p.value(PTR)
        p.expect(',')
        t = p.type()
        e = p.value(t)
        p.expect(',')
        p.type()
        n = p.value(t)
        a = (t, ptr, e, n)
    elif op == 'atomicrmw':
        p.accept('volatile')
        kind = p.next()[1]
        p.type()
        ptr = p.value(PTR)
        p.expect(',')
        t = p.type()
        v = p.value(t)
        a = (kind, t, ptr, v)
    elif op == 'extractvalue':
        t = p.type()
        v = p.value(t)
        idx = []
        while p.accept(','):
            idx.append(int(p.next()[1]))
        a = (t, v, idx)
    elif op == 'insertvalue':
        t = p.type()
        v = p.value(t)
        p.expect(',')
        et = p.type()
        ev = p.value(et)
        idx = []
        while p.accept(','):
            idx.append(int(p.next()[1]))
        a = (t, v, et, ev, idx)
    elif op in ('unreachable', 'fence'):
        a = ()
    else:
        raise SyntaxError('unknown instruction: ' + line)
    return Inst(op, res, a, dbg, line.strip())


class Module:
    def __init__(self, path):
        self.path = path
        self.types = {}
        self.fns = {}
        self.decls = set()
        self.globals = {}     # name -> dict(tls, const, init, ty)
        self.mdtext = {}
        self._md = {}
        self.parse(open(path).read())

    # -- layout ----------------------------------------------------------
    def size_align(self, t):
        k = t.k
        if k == 'int':
            n = (t.n + 7) // 8
            s = 1
            while s < n:
                s *= 2
            return s, s
        if k == 'ptr':
            return 8, 8
        if k == 'fp':
            return t.n, t.n
        if k == 'array':
            s, a = self.size_align(t.el)
            return s * t.n, a
        if k == 'named':
            d = self.types.get(t.name)
            if d is None:
                return 0, 1
            return self.size_align(d)
        if k in ('struct', 'packed'):
            off, al = 0, 1
            for e in t.el:
                s, a = self.size_align(e)
                if k == 'packed':
                    a = 1
                off = (off + a - 1) // a * a + s
                al = max(al, a)
            return (off + al - 1) // al * al, al
        return 0, 1

    def sizeof(self, t):
        return self.size_align(t)[0]

    def resolve(self, t):
        while t.k == 'named':
            t = self.types[t.name]
        return t

    def field_off(self, t, idx):
        t = self.resolve(t)
        off = 0
        for i, e in enumerate(t.el):
            s, a = self.size_align(e)
            if t.k == 'packed':
                a = 1
            off = (off + a - 1) // a * a
            if i == idx:
                return off, e
            off += s
        raise IndexError

    def fixed_globals(self):
        """globals of this unit that are only ever read"""
        r = getattr(self, '_fixed', None)
        if r is not None:
            return r
        bad = set()

        def names(x, out):
            if isinstance(x, tuple) or isinstance(x, list):
                if len(x) == 2 and x[0] == 'glo':
                    out.add(x[1])
                for y in x:
                    names(y, out)
        for fn in self.fns.values():
            regs = {}
            ins_all = [i for b in fn.blocks.values() for i in b]
            for i in ins_all:
                if i.op == 'getelementptr' and i.a[1][0][1][0] == 'glo':
                    regs[i.res] = i.a[1][0][1][1]
            for i in ins_all:
                if i.op == 'getelementptr' and i.a[1][0][1][0] == 'glo':
                    continue
                if i.op == 'load' and i.a[1][0] in ('glo', 'loc'):
                    continue
                out = set()
                names(i.a, out)
                bad |= out
                for r2, g in regs.items():
                    if uses_reg(i.a, r2):
                        bad.add(g)
        for g, d in self.globals.items():
            out = set()
            names(d['init'], out)
            bad |= out
        self._fixed = set(self.globals) - bad
        return self._fixed

    # -- parsing -----------------------------------------------------------
    def parse(self, text):
        lines = text.split('\n')
        i, n = 0, len(lines)
        while i < n:
            ln = lines[i]
            if ln.startswith('%') and ' = type ' in ln:
                name, rest = ln.split(' = type ', 1)
                name = name.strip()
                if name[1] == '"':
                    name = '%' + name[2:-1]
                if rest.strip() != 'opaque':
                    self.types[name] = P(tokenize(rest), self).type()
            elif ln.startswith('@'):
                self.parse_global(ln)
            elif ln.startswith('declare'):
                m = re.search(r'@("[^"]*"|[-a-zA-Z$._0-9]+)\(', ln)
                self.decls.add(m.group(1))
            elif ln.startswith('define'):
                fn = self.parse_header(ln)
                i += 1
                cur = None
                while not lines[i].startswith('}'):
                    l = lines[i]
                    i += 1
                    if not l.strip():
                        continue
                    if not l.startswith(' '):
                        if l.startswith(';'):
                            continue
                        lab = l.split(':', 1)[0].strip()
                        if lab.startswith('"'):
                            lab = lab[1:-1]
                        cur = '%' + lab
                        fn.blocks[cur] = []
                        fn.order.append(cur)
                        continue
                    s = l.strip()
                    if s.startswith('switch') and not s.endswith(']') and ']' not in s:
                        while ']' not in lines[i]:
                            s += ' ' + lines[i].strip()
                            i += 1
                        s += ' ' + lines[i].strip()
                        i += 1
                    if 'llvm.dbg.' in s:
                        continue
                    if cur is None:
                        cur = '%entry0'
                        fn.blocks[cur] = []
                        fn.order.append(cur)
                    ins = parse_inst(s, self)
                    ins.fn = fn
                    fn.blocks[cur].append(ins)
                self.fns[fn.name] = fn
            elif ln.startswith('!'):
                m = re.match(r'!(\d+) = (?:distinct )?(.*)$', ln)
                if m:
                    self.mdtext[int(m.group(1))] = m.group(2)
            i += 1
        for fn in self.fns.values():
            if fn.dbg is not None:
                d = self.md(fn.dbg)
                fn.line = int(d.get('line', 0) or 0)
                fn.file = self.md_file(d)

    def parse_global(self, ln):
        m = re.match(r'@("[^"]*"|[-a-zA-Z$._0-9]+) = (.*)$', ln)
        name, rest = m.group(1).strip('"'), m.group(2)
        rest = re.sub(r', !dbg.*$', '', rest)
        rest = re.sub(r', align \d+.*$', '', rest)
        toks = tokenize(rest)
        tls = any(v == 'thread_local' for _, v in toks)
        j = None
        const = False
        for q, (k, v) in enumerate(toks):
            if v in ('global', 'constant'):
                j = q
                const = v == 'constant'
                break
        if j is None:
            return
        p = P(toks, self)
        p.i = j + 1
        ext = any(v == 'external' for _, v in toks[:j])
        try:
            t = p.type()
            init = None if ext or p.i >= len(toks) else p.value(t)
        except SyntaxError:
            t, init = None, None
        self.globals[name] = dict(tls=tls, const=const, ty=t, init=init, ext=ext,
                                  internal=any(v in ('internal', 'private') for _, v in toks[:j]),
                                  unnamed='unnamed_addr' in rest)

    def parse_header(self, ln):
        m = re.search(r'@("[^"]*"|[-a-zA-Z$._0-9]+)\(', ln)
        name = m.group(1).strip('"')
        fn = Fn(name, self)
        fn.internal = ' internal ' in ln[:m.start()]
        pre = tokenize(ln[len('define'):m.start()])
        p = P(pre, self)
        LINK = {'internal', 'private', 'dso_local', 'linkonce_odr', 'weak', 'hidden',
                'available_externally', 'local_unnamed_addr', 'linkonce', 'weak_odr',
                'noundef', 'zeroext', 'signext', 'fastcc', 'ccc', 'protected', 'default'}
        while p.peek()[1] in LINK:
            p.next()
        p.skip_attrs()
        fn.ret = p.type()
        p = P(tokenize(ln[m.end():]), self)
        while not p.accept(')'):
            if p.peek()[1] == '...':
                p.next()
                continue
            t = p.type()
            p.skip_attrs()
            nm = p.next()[1] if p.peek()[0] == 'loc' else None
            fn.params.append((t, nm))
            p.accept(',')
        m2 = re.search(r'!dbg !(\d+)', ln)
        if m2:
            fn.dbg = int(m2.group(1))
        return fn

    # -- metadata -----------------------------------------------------------
    def md(self, n):
        """Specialised metadata node as a dict (values are strings)."""
        if n in self._md:
            return self._md[n]
        txt = self.mdtext.get(n, '')
        d = {}
        m = re.match(r'!?([A-Za-z]+)\((.*)\)$', txt)
        if m:
            d['_'] = m.group(1)
            for mm in re.finditer(r'([a-zA-Z]+): ("(?:[^"\\]|\\.)*"|!DIExpression\([^)]*\)|[^,]+)', m.group(2)):
                v = mm.group(2)
                if v.startswith('"'):
                    v = v[1:-1]
                d[mm.group(1)] = v
        else:
            m = re.match(r'!\{(.*)\}$', txt)
            if m:
                d['_'] = 'tuple'
                d['els'] = [x.strip() for x in m.group(1).split(',')] if m.group(1) else []
        self._md[n] = d
        return d

    def ref(self, s):
        if s and s.startswith('!') and s[1:].isdigit():
            return self.md(int(s[1:]))
        return {}

    def md_file(self, d):
        f = self.ref(d.get('file', ''))
        return f.get('filename', '')

    def loc(self, dbg):
        """(file, line) of a DILocation id; outermost-inlined is irrelevant at -O0"""
        if dbg is None:
            return ('?', 0)
        d = self.md(dbg)
        sc = self.ref(d.get('scope', ''))
        f = self.md_file(sc)
        return (f, int(d.get('line', 0) or 0))

    def structs(self):
        """name -> list of (field, offset_bytes, size_bytes, typenode)"""
        if hasattr(self, '_structs'):
            return self._structs
        out = {}
        for n, txt in self.mdtext.items():
            if 'DICompositeType' not in txt:
                continue
            d = self.md(n)
            if d.get('tag') not in ('DW_TAG_structure_type', 'DW_TAG_union_type'):
                continue
            if 'elements' not in d:
                continue
            fields = []
            for e in self.ref(d['elements']).get('els', []):
                f = self.ref(e)
                if f.get('tag') != 'DW_TAG_member':
                    continue
                fields.append((f.get('name', ''), int(f.get('offset', '0')) // 8,
                               int(f.get('size', '0')) // 8, f.get('baseType', '')))
            nm = d.get('name')
            if nm:
                out[nm] = (fields, int(d.get('size', '0')) // 8)
            out['!%d' % n] = (fields, int(d.get('size', '0')) // 8)
        # typedef names of anonymous structs
        for n, txt in self.mdtext.items():
            if 'DW_TAG_typedef' in txt:
                d = self.md(n)
                b = d.get('baseType', '')
                if b in out and d.get('name') not in out:
                    out[d['name']] = out[b]
        self._structs = out
        return out

    def strip_type(self, ref):
        d = self.ref(ref)
        while d.get('tag') in ('DW_TAG_typedef', 'DW_TAG_const_type', 'DW_TAG_volatile_type'):
            ref = d.get('baseType', '')
            d = self.ref(ref)
        return ref, d

    def offsetof(self, sname, path):
        """('mempool','slabs.stats.used') -> (offset, size)"""
        st = self.structs()
        if sname not in st:
            raise KeyError('struct %s' % sname)
        fields = st[sname][0]
        off = 0
        parts = path.split('.')
        size = 0
        for i, p in enumerate(parts):
            ix = None
            if p.endswith(']'):
                p, ix = p[:-1].split('[')
                ix = int(ix)
            for (nm, o, s, bt) in fields:
                if nm == p:
                    break
            else:
                raise KeyError('field %s.%s' % (sname, path))
            off += o
            size = s
            if i + 1 < len(parts) or ix is not None:
                ref, d = self.strip_type(bt)
                if d.get('tag') == 'DW_TAG_array_type':
                    ref, d = self.strip_type(d.get('baseType', ''))
                if ix is not None:
                    size = int(d.get('size', '64')) // 8
                    off += ix * size
                if i + 1 < len(parts):
                    fields = st[ref][0]
        return off, size

    def struct_size(self, sname):
        return self.structs()[sname][1]


def find_loops(fn):
    """natural loops: header -> set(blocks); also marks irreducible entry"""
    if fn.loops is not None:
        return fn.loops
    succ = {}
    for b, ins in fn.blocks.items():
        t = ins[-1]
        if t.op == 'br':
            succ[b] = [t.a[1]] if t.a[0] is None else [t.a[1], t.a[2]]
        elif t.op == 'switch':
            succ[b] = [t.a[2]] + [l for _, l in t.a[3]]
        else:
            succ[b] = []
    entry = fn.order[0]
    # dominators (iterative)
    order, seen = [], set()
    stack = [(entry, iter(succ[entry]))]
    seen.add(entry)
    while stack:
        b, it = stack[-1]
        for s in it:
            if s not in seen:
                seen.add(s)
                stack.append((s, iter(succ[s])))
                break
        else:
            order.append(b)
            stack.pop()
    order.reverse()
    idx = {b: i for i, b in enumerate(order)}
    preds = {b: [] for b in order}
    for b in order:
        for s in succ[b]:
            preds[s].append(b)
    idom = {entry: entry}
    ch = True
    while ch:
        ch = False
        for b in order[1:]:
            new = None
            for p in preds[b]:
                if p in idom:
                    if new is None:
                        new = p
                    else:
                        x, y = p, new
                        while x != y:
                            while idx[x] > idx[y]:
                                x = idom[x]
                            while idx[y] > idx[x]:
                                y = idom[y]
                        new = x
            if idom.get(b) != new:
                idom[b] = new
                ch = True

    def dom(a, b):
        while True:
            if a == b:
                return True
            if b == entry:
                return False
            b = idom[b]
    loops = {}
    for b in order:
        for s in succ[b]:
            if dom(s, b):
                body = loops.setdefault(s, {s})
                st = [b]
                while st:
                    x = st.pop()
                    if x not in body:
                        body.add(x)
                        st.extend(preds[x])
    fn.loops = loops
    fn.succ = succ
    return loops
