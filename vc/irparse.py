"""Lazy parser for textual LLVM IR (clang 18, opaque pointers).

Only function bodies that are actually executed symbolically are parsed.
"""
import re, subprocess

TOK = re.compile(r'''
   "(?:[^"\\]|\\.)*"            |   # string
   c"(?:[^"])*"                 |
   [%@]"[^"]*"                  |   # quoted names
   [%@][-a-zA-Z$._0-9]+         |
   ![-a-zA-Z$._0-9]+            |
   \#\d+                        |
   0x[KLMHR]?[0-9A-Fa-f]+       |
   -?\d+\.\d+(?:[eE][-+]?\d+)?  |
   -?\d+                        |
   \.\.\.                       |
   [a-zA-Z_$][-a-zA-Z$._0-9]*   |
   [\[\](){}<>,=*:|!]
''', re.X)


class IRError(Exception):
    pass


def tokenize(s):
    out = []
    pos = 0
    n = len(s)
    while pos < n:
        c = s[pos]
        if c in ' \t\n':
            pos += 1
            continue
        if c == ';':
            e = s.find('\n', pos)
            pos = n if e < 0 else e
            continue
        if c == 'c' and pos + 1 < n and s[pos + 1] == '"':
            e = s.index('"', pos + 2)
            out.append(s[pos:e + 1])
            pos = e + 1
            continue
        m = TOK.match(s, pos)
        if not m:
            raise IRError('token at %r' % s[pos:pos + 60])
        out.append(m.group())
        pos = m.end()
    return out


def unq(name):
    """'%"x y"' -> 'x y' ; '@foo' -> 'foo'"""
    name = name[1:]
    if name.startswith('"'):
        name = name[1:-1]
    return name


# types: ('i',n) ('ptr',) ('void',) ('double',) ('float',) ('arr',n,t) ('struct',[t..],packed) ('named',name) ('label',) ('metadata',) ('fp80',) ('vec',n,t)
PTR = ('ptr',)
VOID = ('void',)
I1 = ('i', 1)
I8 = ('i', 8)
I32 = ('i', 32)
I64 = ('i', 64)

PARAM_ATTRS = {'noundef', 'nonnull', 'zeroext', 'signext', 'noalias', 'nocapture', 'readonly', 'writeonly', 'returned',
               'inreg', 'nofree', 'immarg', 'dead_on_unwind', 'writable', 'nest', 'readnone', 'swiftself', 'allocptr',
               'allocalign', 'nofpclass', 'tail', 'musttail', 'notail', 'fast', 'nnan', 'ninf', 'nsz', 'arcp', 'contract',
               'afn', 'reassoc', 'dso_local', 'dso_preemptable', 'local_unnamed_addr', 'unnamed_addr', 'hidden',
               'protected', 'default', 'linkonce_odr', 'linkonce', 'weak', 'weak_odr', 'internal', 'private', 'external',
               'available_externally', 'extern_weak', 'common', 'appending', 'ccc', 'fastcc', 'coldcc', 'cold', 'noreturn', 'nounwind', 'nobuiltin', 'builtin', 'willreturn', 'allocsize'}
PARAM_ATTRS_ARG = {'align', 'dereferenceable', 'dereferenceable_or_null', 'sret', 'byval', 'elementtype', 'byref',
                   'inalloca', 'memory', 'preallocated', 'captures', 'range'}


class P:
    """token-stream parser"""

    def __init__(self, toks):
        self.t = toks
        self.i = 0

    def peek(self, k=0):
        j = self.i + k
        return self.t[j] if j < len(self.t) else None

    def next(self):
        x = self.t[self.i]
        self.i += 1
        return x

    def eat(self, x):
        if self.peek() == x:
            self.i += 1
            return True
        return False

    def expect(self, x):
        if self.peek() != x:
            raise IRError('expected %r got %r in %r' % (x, self.peek(), ' '.join(self.t)[:300]))
        self.i += 1

    def skip_parens(self):
        self.expect('(')
        d = 1
        while d:
            x = self.next()
            if x == '(':
                d += 1
            elif x == ')':
                d -= 1

    def skip_attrs(self):
        info = {}
        while True:
            x = self.peek()
            if x in PARAM_ATTRS:
                self.next()
                info[x] = True
            elif x in PARAM_ATTRS_ARG:
                self.next()
                if self.peek() == '(':
                    if x in ('sret', 'byval'):
                        self.expect('(')
                        info[x] = self.type()
                        self.expect(')')
                    else:
                        self.skip_parens()
                elif x == 'align':
                    self.next()
            elif x and x.startswith('#'):
                self.next()
            elif x and x.startswith('"'):
                self.next()
                if self.eat('='):
                    self.next()
            else:
                return info

    def type(self):
        x = self.next()
        if x == 'ptr':
            t = PTR
        elif x == 'void':
            t = VOID
        elif re.fullmatch(r'i\d+', x):
            t = ('i', int(x[1:]))
        elif x in ('double', 'float', 'label', 'metadata', 'half', 'token'):
            t = (x,)
        elif x == 'x86_fp80':
            t = ('fp80',)
        elif x[0] == '%':
            t = ('named', unq(x))
        elif x == '[':
            n = int(self.next())
            self.expect('x')
            e = self.type()
            self.expect(']')
            t = ('arr', n, e)
        elif x == '{':
            els = []
            if not self.eat('}'):
                while True:
                    els.append(self.type())
                    if self.eat('}'):
                        break
                    self.expect(',')
            t = ('struct', tuple(els), False)
        elif x == '<':
            if self.eat('{'):
                els = []
                if not self.eat('}'):
                    while True:
                        els.append(self.type())
                        if self.eat('}'):
                            break
                        self.expect(',')
                self.expect('>')
                t = ('struct', tuple(els), True)
            else:
                n = int(self.next())
                self.expect('x')
                e = self.type()
                self.expect('>')
                t = ('vec', n, e)
        elif x == 'opaque':
            t = ('opaque',)
        else:
            raise IRError('type? %r in %r' % (x, ' '.join(self.t)[:300]))
        # function types:  ret (args)
        if self.peek() == '(' :
            save = self.i
            # only treat as function type if parens enclose types / ... / nothing
            try:
                self.next()
                args = []
                if not self.eat(')'):
                    while True:
                        if self.eat('...'):
                            args.append(('...',))
                        else:
                            args.append(self.type())
                        self.skip_attrs()
                        if self.eat(')'):
                            break
                        self.expect(',')
                t = ('fn', t, tuple(args))
            except IRError:
                self.i = save
        return t

    def value(self, ty):
        x = self.next()
        if x[0] == '%':
            return ('loc', unq(x))
        if x[0] == '@':
            return ('glob', unq(x))
        if x == 'true':
            return ('int', 1)
        if x == 'false':
            return ('int', 0)
        if x in ('null',):
            return ('null',)
        if x in ('undef', 'poison'):
            return ('undef',)
        if x == 'zeroinitializer':
            return ('zero',)
        if x == 'none':
            return ('undef',)
        if x[0] == 'c' and x[1:2] == '"':
            return ('str', decode_cstr(x[2:-1]))
        if re.fullmatch(r'-?\d+', x):
            return ('int', int(x))
        if re.fullmatch(r'0x[KLMHR]?[0-9A-Fa-f]+', x) or re.fullmatch(r'-?\d+\.\d+([eE][-+]?\d+)?', x):
            return ('flt', x)
        if x == '{' or x == '[' or x == '<':
            close = {'{': '}', '[': ']', '<': '>'}[x]
            if x == '<' and self.peek() == '{':
                self.next()
                els = self.valuelist('}')
                self.expect('>')
                return ('agg', els)
            return ('agg', self.valuelist(close))
        if x == 'getelementptr':
            self.eat('inbounds')
            if self.eat('inrange'):
                pass
            self.expect('(')
            t = self.type()
            self.expect(',')
            args = []
            while True:
                self.eat('inrange')
                at = self.type()
                args.append((at, self.value(at)))
                if self.eat(')'):
                    break
                self.expect(',')
            return ('cgep', t, args)
        if x in ('bitcast', 'inttoptr', 'ptrtoint', 'trunc', 'addrspacecast', 'zext', 'sext'):
            self.expect('(')
            t = self.type()
            v = self.value(t)
            self.expect('to')
            t2 = self.type()
            self.expect(')')
            return ('ccast', x, t, v, t2)
        if x in ('sub', 'add', 'mul', 'and', 'or', 'xor', 'shl', 'lshr'):
            while self.peek() in ('nuw', 'nsw'):
                self.next()
            self.expect('(')
            t = self.type()
            a = self.value(t)
            self.expect(',')
            t2 = self.type()
            b = self.value(t2)
            self.expect(')')
            return ('cbin', x, t, a, b)
        if x == 'icmp':
            pred = self.next()
            self.expect('(')
            t = self.type()
            a = self.value(t)
            self.expect(',')
            t2 = self.type()
            b = self.value(t2)
            self.expect(')')
            return ('cicmp', pred, t, a, b)
        if x == 'dso_local_equivalent' or x == 'no_cfi':
            return self.value(ty)
        raise IRError('value? %r in %r' % (x, ' '.join(self.t)[:300]))

    def valuelist(self, close):
        els = []
        if self.eat(close):
            return els
        while True:
            t = self.type()
            els.append((t, self.value(t)))
            if self.eat(close):
                return els
            self.expect(',')

    def tv(self):
        t = self.type()
        info = self.skip_attrs()
        return t, self.value(t), info


def decode_cstr(s):
    out = bytearray()
    i = 0
    while i < len(s):
        if s[i] == '\\':
            if s[i + 1] == '\\':
                out.append(92)
                i += 2
            else:
                out.append(int(s[i + 1:i + 3], 16))
                i += 3
        else:
            out.append(ord(s[i]))
            i += 1
    return bytes(out)


class Instr:
    __slots__ = ('op', 'dst', 'a', 'line', 'raw')

    def __init__(self, op, dst, a, line, raw):
        self.op, self.dst, self.a, self.line, self.raw = op, dst, a, line, raw

    def __repr__(self):
        return '<%s %s %r>' % (self.op, self.dst, self.a)


class Function:
    def __init__(self, mod, name, ret, params, sret):
        self.mod, self.name, self.ret, self.params, self.sret = mod, name, ret, params, sret
        self.blocks = {}
        self.order = []
        self.varargs = False
        self._loops = None

    @property
    def dem(self):
        return self.mod.prog.dem(self.name)

    # loop structure -----------------------------------------------------
    def succs(self, b):
        t = self.blocks[b][-1]
        if t.op == 'br':
            return list(t.a[1:]) if t.a[0] is not None else [t.a[1]]
        if t.op == 'switch':
            return [t.a[2]] + [l for _, l in t.a[3]]
        if t.op == 'invoke':
            return [t.a['to'], t.a['unwind']]
        return []

    def loops(self):
        """header -> set of blocks in natural loop (reducible CFGs)."""
        if self._loops is not None:
            return self._loops
        order = []
        color = {}
        back = []
        stack = [(self.order[0], iter(self.succs(self.order[0])))]
        color[self.order[0]] = 1
        while stack:
            b, it = stack[-1]
            adv = False
            for s in it:
                c = color.get(s, 0)
                if c == 0:
                    color[s] = 1
                    stack.append((s, iter(self.succs(s))))
                    adv = True
                    break
                elif c == 1:
                    back.append((b, s))
            if not adv:
                color[b] = 2
                stack.pop()
        preds = {}
        for b in self.order:
            for s in self.succs(b):
                preds.setdefault(s, []).append(b)
        loops = {}
        for tail, head in back:
            body = loops.setdefault(head, {head})
            work = [tail]
            while work:
                x = work.pop()
                if x in body:
                    continue
                body.add(x)
                work.extend(preds.get(x, []))
        self._loops = loops
        return loops


class Module:
    def __init__(self, prog, path, src):
        self.prog, self.path, self.src = prog, path, src
        text = open(path).read()
        self.types = {}
        self.globals = {}
        self.fn_lines = {}
        self.decls = set()
        self._fn = {}
        self._dbg = None
        self._md_lines = None
        self._sz = {}
        lines = text.split('\n')
        self.lines = lines
        i = 0
        n = len(lines)
        md = {}
        while i < n:
            l = lines[i]
            c = l[:1]
            if c == '%':
                eq = l.index(' = type ')
                self.types[unq(l[:eq])] = l[eq + 8:]
            elif c == '@':
                if l.startswith('@"'):
                    e = l.index('"', 2) + 1
                else:
                    e = l.index(' ')
                self.globals[unq(l[:e])] = l[e:]
            elif l.startswith('define '):
                name = self._fname(l)
                s = i
                while lines[i] != '}':
                    i += 1
                self.fn_lines[name] = (s, i)
            elif l.startswith('declare '):
                self.decls.add(self._fname(l))
            elif c == '!':
                m = re.match(r'!(\d+) = (?:distinct )?!DILocation\(line: (\d+)', l)
                if m:
                    md[m.group(1)] = int(m.group(2))
            i += 1
        self._md = md
        self._ptypes = {}

    @staticmethod
    def _fname(l):
        a = l.index('@')
        if l[a + 1] == '"':
            e = l.index('"', a + 2)
            return l[a + 2:e]
        e = l.index('(', a)
        return l[a + 1:e]

    # ---- types
    def named(self, name):
        t = self._ptypes.get(name)
        if t is None:
            t = P(tokenize(self.types[name])).type()
            self._ptypes[name] = t
        return t

    def resolve(self, t):
        while t[0] == 'named':
            t = self.named(t[1])
        return t

    def align(self, t):
        t = self.resolve(t)
        k = t[0]
        if k == 'i':
            return min(16, max(1, 1 << ((t[1] + 7) // 8 - 1).bit_length())) if t[1] > 8 else 1
        if k in ('ptr', 'double'):
            return 8
        if k == 'float':
            return 4
        if k == 'fp80':
            return 16
        if k == 'arr':
            return self.align(t[2])
        if k == 'vec':
            return self.size(t)
        if k == 'struct':
            if t[2]:
                return 1
            return max([1] + [self.align(e) for e in t[1]])
        return 8

    def size(self, t):
        s = self._sz.get(t)
        if s is not None:
            return s
        r = self.resolve(t)
        k = r[0]
        if k == 'i':
            s = 1 if r[1] <= 8 else (1 << ((r[1] + 7) // 8 - 1).bit_length())
        elif k in ('ptr', 'double'):
            s = 8
        elif k == 'float':
            s = 4
        elif k == 'fp80':
            s = 16
        elif k == 'arr':
            s = r[1] * self.size(r[2])
        elif k == 'vec':
            s = r[1] * self.size(r[2])
        elif k == 'struct':
            off = 0
            for e in r[1]:
                if not r[2]:
                    a = self.align(e)
                    off = (off + a - 1) // a * a
                off += self.size(e)
            if not r[2]:
                a = self.align(r)
                off = (off + a - 1) // a * a
            s = off
        else:
            s = 0
        self._sz[t] = s
        return s

    def field(self, t, idx):
        """-> (offset, type) of idx-th element of aggregate type"""
        r = self.resolve(t)
        if r[0] == 'struct':
            off = 0
            for i, e in enumerate(r[1]):
                if not r[2]:
                    a = self.align(e)
                    off = (off + a - 1) // a * a
                if i == idx:
                    return off, e
                off += self.size(e)
        if r[0] in ('arr', 'vec'):
            return idx * self.size(r[2]), r[2]
        raise IRError('field of %r' % (t,))

    # ---- globals
    def globals_ext(self, name):
        return bool(re.match(r' = (?:[a-z_]+ )*?(external|extern_weak|available_externally) ', self.globals[name]))

    def global_init(self, name):
        """-> (type, value|None, is_const)"""
        l = self.globals[name]
        cut = l
        # strip metadata
        toks = tokenize(cut)
        p = P(toks)
        p.expect('=')
        const = False
        ext = False
        while True:
            x = p.peek()
            if x in ('external', 'extern_weak'):
                ext = True
                p.next()
            elif x == 'constant':
                const = True
                p.next()
                break
            elif x == 'global':
                p.next()
                break
            elif x == 'thread_local':
                p.next()
                if p.peek() == '(':
                    p.skip_parens()
            elif x == 'alias':
                p.next()
                t = p.type()
                p.expect(',')
                t2 = p.type()
                v = p.value(t2)
                return ('alias', v, False)
            else:
                p.next()
        t = p.type()
        if ext:
            return t, None, const
        v = p.value(t)
        return t, v, const

    # ---- functions
    def has(self, name):
        return name in self.fn_lines

    def fn(self, name):
        f = self._fn.get(name)
        if f is None:
            f = self._parse_fn(name)
            self._fn[name] = f
        return f

    def _parse_fn(self, name):
        s, e = self.fn_lines[name]
        hdr = self.lines[s]
        p = P(tokenize(hdr))
        p.expect('define')
        p.skip_attrs()
        ret = p.type()
        p.skip_attrs()
        nm = p.next()
        p.expect('(')
        params = []
        sret = False
        varargs = False
        if not p.eat(')'):
            while True:
                if p.eat('...'):
                    varargs = True
                else:
                    t = p.type()
                    info = p.skip_attrs()
                    pn = unq(p.next()) if (p.peek() or '').startswith('%') else None
                    if 'sret' in info:
                        sret = True
                    params.append((t, pn, info))
                if p.eat(')'):
                    break
                p.expect(',')
        # unnamed params are numbered
        k = 0
        ps = []
        for t, pn, info in params:
            if pn is None:
                pn = str(k)
                k += 1
            elif pn.isdigit():
                k = int(pn) + 1
            ps.append((t, pn, info))
        f = Function(self, name, ret, ps, sret)
        f.varargs = varargs
        cur = None
        buf = None
        raw = []
        for j in range(s + 1, e):
            l = self.lines[j]
            if not l or l.startswith(';'):
                continue
            if l[0] != ' ':
                m = re.match(r'(?:"([^"]*)"|([-a-zA-Z$._0-9]+)):', l)
                if m:
                    if buf is not None:
                        raw.append((cur, buf))
                        buf = None
                    cur = m.group(1) if m.group(1) is not None else m.group(2)
                    f.blocks[cur] = []
                    f.order.append(cur)
                    continue
            if cur is None:
                cur = str(k)
                f.blocks[cur] = []
                f.order.append(cur)
            if l.startswith('    ') or l.startswith('  ]'):
                buf += ' ' + l.strip()
            else:
                if buf is not None:
                    raw.append((cur, buf))
                buf = l.strip()
        if buf is not None:
            raw.append((cur, buf))
        for b, txt in raw:
            f.blocks[b].append(self._parse_instr(txt))
        return f

    def _parse_instr(self, txt):
        line = None
        m = re.search(r', !dbg !(\d+)', txt)
        if m:
            line = self._md.get(m.group(1))
            txt0 = txt[:m.start()]
            rest = txt[m.end():]
            txt = txt0
        # drop other trailing metadata
        txt = re.sub(r', ![a-z._A-Z]+ ![0-9]+', '', txt)
        toks = tokenize(txt)
        p = P(toks)
        dst = None
        if toks[0][0] == '%' and len(toks) > 1 and toks[1] == '=':
            dst = unq(toks[0])
            p.i = 2
        op = p.next()
        while op in ('tail', 'musttail', 'notail'):
            op = p.next()
        a = None
        if op == 'alloca':
            t = p.type()
            cnt = None
            if p.eat(','):
                if p.peek() == 'align':
                    pass
                else:
                    ct = p.type()
                    cnt = (ct, p.value(ct))
            a = (t, cnt)
        elif op == 'load':
            at = p.eat('atomic')
            p.eat('volatile')
            t = p.type()
            p.expect(',')
            pt = p.type()
            a = (t, p.value(pt))
        elif op == 'store':
            p.eat('atomic')
            p.eat('volatile')
            t = p.type()
            v = p.value(t)
            p.expect(',')
            pt = p.type()
            a = (t, v, p.value(pt))
        elif op == 'getelementptr':
            p.eat('inbounds')
            t = p.type()
            p.expect(',')
            idx = []
            while True:
                it = p.type()
                idx.append((it, p.value(it)))
                if not p.eat(','):
                    break
            a = (t, idx)
        elif op in ('call', 'invoke'):
            p.skip_attrs()
            rt = p.type()
            p.skip_attrs()
            callee = p.value(PTR)
            p.expect('(')
            args = []
            if not p.eat(')'):
                while True:
                    t = p.type()
                    info = p.skip_attrs()
                    if t == ('metadata',):
                        # skip metadata operand
                        d = 0
                        while not (d == 0 and p.peek() in (',', ')')):
                            x = p.next()
                            if x == '(':
                                d += 1
                            elif x == ')':
                                d -= 1
                        args.append((t, ('undef',), info))
                    else:
                        args.append((t, p.value(t), info))
                    if p.eat(')'):
                        break
                    p.expect(',')
            a = {'rt': rt[1] if rt[0] == 'fn' else rt, 'callee': callee, 'args': args}
            if op == 'invoke':
                while p.peek() != 'to':
                    p.next()
                p.expect('to')
                p.expect('label')
                a['to'] = unq(p.next())
                p.expect('unwind')
                p.expect('label')
                a['unwind'] = unq(p.next())
        elif op == 'ret':
            t = p.type()
            a = (t, None if t == VOID else p.value(t))
        elif op == 'br':
            if p.eat('label'):
                a = (None, unq(p.next()))
            else:
                t = p.type()
                c = p.value(t)
                p.expect(',')
                p.expect('label')
                l1 = unq(p.next())
                p.expect(',')
                p.expect('label')
                l2 = unq(p.next())
                a = (c, l1, l2)
        elif op == 'switch':
            t = p.type()
            v = p.value(t)
            p.expect(',')
            p.expect('label')
            d = unq(p.next())
            p.expect('[')
            cases = []
            while not p.eat(']'):
                ct = p.type()
                cv = p.value(ct)
                p.expect(',')
                p.expect('label')
                cases.append((cv[1], unq(p.next())))
            a = (t, v, d, cases)
        elif op in ('icmp', 'fcmp'):
            while p.peek() in PARAM_ATTRS:
                p.next()
            pred = p.next()
            t = p.type()
            x = p.value(t)
            p.expect(',')
            a = (pred, t, x, p.value(t))
        elif op in ('add', 'sub', 'mul', 'udiv', 'sdiv', 'urem', 'srem', 'and', 'or', 'xor', 'shl', 'lshr', 'ashr',
                    'fadd', 'fsub', 'fmul', 'fdiv', 'frem'):
            flags = []
            while p.peek() in ('nuw', 'nsw', 'exact', 'disjoint') or p.peek() in PARAM_ATTRS:
                flags.append(p.next())
            t = p.type()
            x = p.value(t)
            p.expect(',')
            a = (t, x, p.value(t), flags)
        elif op in ('zext', 'sext', 'trunc', 'bitcast', 'ptrtoint', 'inttoptr', 'sitofp', 'uitofp', 'fptosi', 'fptoui',
                    'fpext', 'fptrunc', 'addrspacecast'):
            while p.peek() in ('nneg', 'nuw', 'nsw'):
                p.next()
            t = p.type()
            x = p.value(t)
            p.expect('to')
            a = (t, x, p.type())
        elif op == 'select':
            while p.peek() in PARAM_ATTRS:
                p.next()
            ct = p.type()
            c = p.value(ct)
            p.expect(',')
            t = p.type()
            x = p.value(t)
            p.expect(',')
            t2 = p.type()
            a = (t, c, x, p.value(t2))
        elif op == 'phi':
            while p.peek() in PARAM_ATTRS:
                p.next()
            t = p.type()
            inc = []
            while True:
                p.expect('[')
                v = p.value(t)
                p.expect(',')
                inc.append((v, unq(p.next())))
                p.expect(']')
                if not p.eat(','):
                    break
            a = (t, inc)
        elif op == 'extractvalue':
            t = p.type()
            v = p.value(t)
            idx = []
            while p.eat(','):
                idx.append(int(p.next()))
            a = (t, v, idx)
        elif op == 'insertvalue':
            t = p.type()
            v = p.value(t)
            p.expect(',')
            t2 = p.type()
            v2 = p.value(t2)
            idx = []
            while p.eat(','):
                idx.append(int(p.next()))
            a = (t, v, t2, v2, idx)
        elif op == 'landingpad':
            t = p.type()
            cl = []
            while p.peek() is not None:
                x = p.next()
                if x == 'cleanup':
                    cl.append(('cleanup',))
                elif x == 'catch':
                    ct = p.type()
                    cl.append(('catch', p.value(ct)))
                elif x == 'filter':
                    ct = p.type()
                    cl.append(('filter', p.value(ct)))
                else:
                    raise IRError('landingpad ' + txt)
            a = cl
        elif op == 'resume':
            t = p.type()
            a = p.value(t)
        elif op in ('unreachable', 'fence'):
            a = None
        elif op == 'atomicrmw':
            p.eat('volatile')
            o = p.next()
            pt = p.type()
            pv = p.value(pt)
            p.expect(',')
            t = p.type()
            a = (o, pv, t, p.value(t))
        elif op == 'cmpxchg':
            p.eat('weak')
            p.eat('volatile')
            pt = p.type()
            pv = p.value(pt)
            p.expect(',')
            t = p.type()
            c = p.value(t)
            p.expect(',')
            t2 = p.type()
            a = (pv, t, c, p.value(t2))
        elif op == 'freeze':
            t = p.type()
            a = (t, p.value(t))
        elif op in ('fneg',):
            t = p.type()
            a = (t, p.value(t))
        elif op == 'va_arg':
            a = None
        else:
            raise IRError('instr %r' % txt[:200])
        return Instr(op, dst, a, line, txt)
