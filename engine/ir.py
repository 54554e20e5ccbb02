"""Parser for the textual LLVM IR emitted by clang-18 (the subset clang produces for C++ at -O1 w/o passes)."""
import re

TOK = re.compile(r'''
   (?P<ws>\s+|;[^\n]*)
 | (?P<str>c?"(?:[^"\\]|\\.)*")
 | (?P<local>%(?:"(?:[^"\\]|\\.)*"|[-a-zA-Z$._0-9]+))
 | (?P<glob>@(?:"(?:[^"\\]|\\.)*"|[-a-zA-Z$._0-9]+))
 | (?P<md>![-a-zA-Z$._0-9\\]*)
 | (?P<attr>\#\d+)
 | (?P<num>-?(?:0x[KLMHR]?[0-9A-Fa-f]+|\d+\.\d*(?:[eE][-+]?\d+)?|\d+))
 | (?P<dots>\.\.\.)
 | (?P<word>[a-zA-Z_$][-a-zA-Z$._0-9]*)
 | (?P<comdat>\$(?:"[^"]*"|[-a-zA-Z$._0-9]+))
 | (?P<punct>[(){}\[\]<>,=*:|])
''', re.X)

class ParseError(Exception):
    pass

def tokenize(s):
    out = []
    i = 0
    n = len(s)
    while i < n:
        m = TOK.match(s, i)
        if not m:
            raise ParseError('tok: ' + s[i:i + 60])
        i = m.end()
        k = m.lastgroup
        if k == 'ws':
            continue
        out.append((k, m.group()))
    return out

PARAM_ATTRS = {'noundef', 'nonnull', 'noalias', 'nocapture', 'readonly', 'writeonly', 'readnone', 'zeroext', 'signext',
               'inreg', 'returned', 'immarg', 'nest', 'swiftself', 'nofree', 'noinline', 'dead_on_unwind', 'writable',
               'allocalign', 'allocptr', 'nofpclass', 'inalloca', 'swifterror', 'swiftasync', 'mustprogress', 'nounwind'}
ATTR_ARG = {'align', 'dereferenceable', 'dereferenceable_or_null', 'sret', 'byval', 'byref', 'elementtype',
            'preallocated', 'range', 'memory', 'alignstack', 'initializes', 'nofpclass', 'captures'}

class Instr:
    __slots__ = ('op', 'dst', 'args', 'dbg', 'text')
    def __init__(self, op, dst, args, dbg, text):
        self.op, self.dst, self.args, self.dbg, self.text = op, dst, args, dbg, text
    def __repr__(self):
        return self.text

class Function:
    def __init__(self, name, rettype, params, varargs, body_lines, subprogram):
        self.name, self.rettype, self.params, self.varargs = name, rettype, params, varargs
        self._lines = body_lines
        self._blocks = None
        self.subprogram = subprogram
        self._loops = None
    @property
    def is_decl(self):
        return self._lines is None

class P:
    """token-stream parser"""
    def __init__(self, toks, mod):
        self.t, self.i, self.mod = toks, 0, mod
    def peek(self, o=0):
        return self.t[self.i + o] if self.i + o < len(self.t) else ('eof', '')
    def next(self):
        x = self.t[self.i]
        self.i += 1
        return x
    def accept(self, v):
        if self.peek()[1] == v:
            self.i += 1
            return True
        return False
    def expect(self, v):
        x = self.next()
        if x[1] != v:
            raise ParseError('expected %s got %s in %s' % (v, x, ' '.join(a[1] for a in self.t)[:300]))
    def type(self):
        k, v = self.next()
        if k == 'word':
            if re.fullmatch(r'i\d+', v):
                t = ('i', int(v[1:]))
            elif v == 'ptr':
                if self.accept('addrspace'):
                    self.expect('('); self.next(); self.expect(')')
                t = ('ptr',)
            elif v in ('float', 'double', 'half', 'x86_fp80', 'fp128', 'bfloat'):
                t = ('f', v)
            elif v in ('void', 'label', 'metadata', 'token', 'opaque'):
                t = (v,)
            else:
                raise ParseError('type ' + v)
        elif k == 'local':
            t = ('named', v)
        elif v == '{':
            el = []
            if not self.accept('}'):
                while True:
                    el.append(self.type())
                    if self.accept('}'):
                        break
                    self.expect(',')
            t = ('struct', tuple(el), False)
        elif v == '<' and self.peek()[1] == '{':
            self.next()
            el = []
            if not self.accept('}'):
                while True:
                    el.append(self.type())
                    if self.accept('}'):
                        break
                    self.expect(',')
            self.expect('>')
            t = ('struct', tuple(el), True)
        elif v in '[<':
            n = int(self.next()[1])
            self.expect('x')
            e = self.type()
            self.expect(']' if v == '[' else '>')
            t = ('arr' if v == '[' else 'vec', n, e)
        else:
            raise ParseError('type tok %s %s' % (k, v))
        # function type in calls:  ty (args)
        return t
    def skip_param_attrs(self):
        res = {}
        while True:
            k, v = self.peek()
            if k == 'word' and v in ATTR_ARG:
                self.next()
                if v == 'align' and self.peek()[0] == 'num':
                    res['align'] = self.next()[1]
                elif self.peek()[1] == '(':
                    d = 0
                    start = self.i
                    while True:
                        x = self.next()
                        if x[1] == '(':
                            d += 1
                        elif x[1] == ')':
                            d -= 1
                            if d == 0:
                                break
                    if v in ('byval', 'sret'):
                        sub = P(self.t[start + 1:self.i - 1], self.mod)
                        res[v] = sub.type()
            elif k == 'word' and v in PARAM_ATTRS:
                self.next()
            elif k == 'str':
                self.next()
                if self.accept('='):
                    self.next()
            else:
                return res
    def value(self, ty):
        """constant or local operand"""
        k, v = self.next()
        if k == 'local':
            return ('l', v)
        if k == 'glob':
            return ('g', v)
        if k == 'num':
            if ty[0] == 'f':
                return ('fp', v)
            return ('c', int(v))
        if k == 'word':
            if v == 'true':
                return ('c', 1)
            if v == 'false':
                return ('c', 0)
            if v in ('null', 'none'):
                return ('null',)
            if v in ('undef', 'poison'):
                return ('undef',)
            if v == 'zeroinitializer':
                return ('zero',)
            if v in ('getelementptr',):
                while self.peek()[1] in ('inbounds', 'nuw', 'nusw', 'inrange'):
                    self.next()
                    if self.peek()[1] == '(' and self.peek(1)[0] == 'num':
                        self.next(); self.next(); self.expect(',') ; self.next(); self.expect(')')
                self.expect('(')
                bt = self.type()
                self.expect(',')
                ops = self.typed_list(')')
                return ('gep', bt, ops)
            if v in ('ptrtoint', 'inttoptr', 'bitcast', 'trunc', 'zext', 'sext', 'addrspacecast'):
                self.expect('(')
                st = self.type()
                sv = self.value(st)
                self.expect('to')
                dt = self.type()
                self.expect(')')
                return ('cast', v, st, sv, dt)
            if v in ('add', 'sub', 'mul', 'xor', 'and', 'or', 'shl', 'lshr', 'ashr'):
                while self.peek()[1] in ('nuw', 'nsw', 'exact'):
                    self.next()
                self.expect('(')
                ops = self.typed_list(')')
                return ('cbin', v, ops)
            if v == 'icmp':
                pred = self.next()[1]
                self.expect('(')
                ops = self.typed_list(')')
                return ('cicmp', pred, ops)
            if v in ('dso_local_equivalent', 'no_cfi'):
                return ('g', self.next()[1])
            if v == 'splat':
                self.expect('(')
                ops = self.typed_list(')')
                return ('splat', ops[0])
        if k == 'str' and v.startswith('c'):
            return ('cstr', v)
        if v == '{' or v == '[' or v == '<':
            if v == '<' and self.peek()[1] == '{':
                self.next()
                ops = self.typed_list('}')
                self.expect('>')
                return ('agg', ops)
            ops = self.typed_list({'{': '}', '[': ']', '<': '>'}[v])
            return ('agg', ops)
        if k == 'md':
            return ('md', v)
        raise ParseError('value %s %s in %s' % (k, v, ' '.join(a[1] for a in self.t)[:300]))
    def typed_list(self, close):
        ops = []
        if self.accept(close):
            return ops
        while True:
            while self.peek()[1] == 'inrange':
                self.next()
            t = self.type()
            self.skip_param_attrs()
            ops.append((t, self.value(t)))
            if self.accept(close):
                return ops
            self.expect(',')
    def typed(self):
        t = self.type()
        a = self.skip_param_attrs()
        return (t, self.value(t))

FLAGS = {'nuw', 'nsw', 'exact', 'inbounds', 'fast', 'nnan', 'ninf', 'nsz', 'arcp', 'contract', 'afn', 'reassoc',
         'disjoint', 'nneg', 'nusw', 'samesign'}
BIN = {'add', 'sub', 'mul', 'sdiv', 'udiv', 'srem', 'urem', 'shl', 'lshr', 'ashr', 'and', 'or', 'xor', 'fadd', 'fsub',
       'fmul', 'fdiv', 'frem'}
CASTS = {'trunc', 'zext', 'sext', 'fptrunc', 'fpext', 'fptoui', 'fptosi', 'uitofp', 'sitofp', 'ptrtoint', 'inttoptr',
         'bitcast', 'addrspacecast'}

class Module:
    def __init__(self, text):
        self.types = {}
        self.globals = {}
        self.funcs = {}
        self.aliases = {}
        self.md = {}
        self._typecache = {}
        self._parse(text)

    def _parse(self, text):
        lines = text.split('\n')
        i = 0
        n = len(lines)
        while i < n:
            l = lines[i]
            if l.startswith('define '):
                j = i + 1
                while lines[j] != '}':
                    j += 1
                self._header(l, lines[i + 1:j])
                i = j + 1
                continue
            if l.startswith('declare '):
                self._header(l, None)
            elif l.startswith('%') and ' = type ' in l:
                nm, rest = l.split(' = type ', 1)
                self.types[nm] = rest
            elif l.startswith('@'):
                m = re.match(r'(@(?:"[^"]*"|[-a-zA-Z$._0-9]+)) = (.*)', l)
                if ' alias ' in l:
                    self.aliases[m.group(1)] = m.group(2)
                else:
                    self.globals[m.group(1)] = [m.group(2), None]
            elif l.startswith('!'):
                m = re.match(r'(!\d+) = (.*)', l)
                if m:
                    self.md[m.group(1)] = m.group(2)
            i += 1

    def _header(self, l, body):
        m = re.search(r'(@(?:"[^"]*"|[-a-zA-Z$._0-9]+))\(', l)
        name = m.group(1)
        sp = re.search(r'!dbg (!\d+)', l)
        # return type: last type token before name
        f = Function(name, None, None, False, body, sp.group(1) if sp else None)
        f._hdr = l
        f._namepos = m.start(1)
        self.funcs[name] = f

    def resolve_fn(self, name):
        seen = 0
        while name in self.aliases and seen < 5:
            m = re.search(r'ptr (@(?:"[^"]*"|[-a-zA-Z$._0-9]+))\s*(?:,|$)', self.aliases[name])
            name = m.group(1)
            seen += 1
        return name

    def prep(self, f):
        """parse header"""
        if f.params is not None:
            return
        l = f._hdr
        pre = re.sub(r'!dbg !\d+', '', l[:f._namepos])
        toks = tokenize(pre)
        # find the type: strip leading keywords
        i = 1
        KW = {'dso_local', 'internal', 'linkonce_odr', 'weak_odr', 'available_externally', 'private', 'external', 'weak',
              'linkonce', 'hidden', 'unnamed_addr', 'local_unnamed_addr', 'extern_weak', 'fastcc', 'ccc', 'protected', 'common'}
        p = P(toks, self)
        p.i = 1
        while True:
            k, v = p.peek()
            if v in KW:
                p.next()
                continue
            j = p.i
            p.skip_param_attrs()
            if p.i == j:
                break
        f.rettype = p.type()
        toks = tokenize(l[f._namepos + len(f.name):].split(' !dbg')[0])
        p = P(toks, self)
        p.expect('(')
        params = []
        cnt = 0
        if not p.accept(')'):
            while True:
                if p.accept('...'):
                    f.varargs = True
                    p.expect(')')
                    break
                t = p.type()
                at = p.skip_param_attrs()
                nm = None
                if p.peek()[0] == 'local':
                    nm = p.next()[1]
                else:
                    nm = '%' + str(cnt)
                cnt += 1
                params.append((t, nm, at))
                if p.accept(')'):
                    break
                p.expect(',')
        f.params = params

    def blocks(self, f):
        if f._blocks is not None:
            return f._blocks
        self.prep(f)
        blocks = {}
        order = []
        cur = None
        # entry label: number = count of unnamed params, only if unnamed. use 'entry' key from first label or implicit
        buf = None
        lines = f._lines
        joined = []
        i = 0
        while i < len(lines):
            l = lines[i]
            s = l.strip()
            if not s or s.startswith(';'):
                i += 1
                continue
            if l[0] != ' ':
                joined.append(('label', l))
                i += 1
                continue
            # continuation joins: invoke (to label ... unwind), switch [...], landingpad clauses
            while True:
                if s.startswith('switch') and s.count('[') > s.count(']'):
                    i += 1
                    s += ' ' + lines[i].strip()
                    continue
                if (' invoke ' in ' ' + s or s.startswith('invoke')) and ' unwind label' not in s:
                    i += 1
                    s += ' ' + lines[i].strip()
                    continue
                if 'landingpad' in s and i + 1 < len(lines) and re.match(r'\s+(catch|filter|cleanup)\b', lines[i + 1]):
                    i += 1
                    s += ' ' + lines[i].strip()
                    continue
                break
            joined.append(('ins', s))
            i += 1
        for kind, s in joined:
            if kind == 'label':
                m = re.match(r'("(?:[^"])*"|[-a-zA-Z$._0-9]+):', s)
                cur = '%' + m.group(1)
                blocks[cur] = []
                order.append(cur)
            else:
                if cur is None:
                    cur = '%<entry>'
                    blocks[cur] = []
                    order.append(cur)
                blocks[cur].append(self._instr(s))
        if order and order[0] == '%<entry>':
            # implicit numeric label: number of unnamed params
            num = sum(1 for (t, nm, a) in f.params if re.fullmatch(r'%\d+', nm))
            real = '%' + str(num)
            blocks[real] = blocks.pop('%<entry>')
            order[0] = real
        f._blocks = (order, blocks)
        return f._blocks

    def _instr(self, s):
        dbg = None
        m = re.search(r', !dbg (!\d+)', s)
        if m:
            dbg = m.group(1)
        # strip metadata attachments at the end
        s2 = re.sub(r'(, ![a-zA-Z._0-9]+ !\d+)+$', '', s)
        toks = tokenize(s2)
        p = P(toks, self)
        dst = None
        if p.peek()[0] == 'local' and p.peek(1)[1] == '=':
            dst = p.next()[1]
            p.next()
        op = p.next()[1]
        while op in ('tail', 'musttail', 'notail'):
            op = p.next()[1]
        flags = set()
        A = None
        if op in BIN:
            while p.peek()[1] in FLAGS:
                flags.add(p.next()[1])
            t = p.type()
            a = p.value(t)
            p.expect(',')
            b = p.value(t)
            A = (t, a, b, frozenset(flags))
        elif op == 'icmp' or op == 'fcmp':
            while p.peek()[1] in FLAGS:
                p.next()
            pred = p.next()[1]
            t = p.type()
            a = p.value(t)
            p.expect(',')
            b = p.value(t)
            A = (pred, t, a, b)
        elif op in CASTS:
            while p.peek()[1] in FLAGS:
                flags.add(p.next()[1])
            t = p.type()
            a = p.value(t)
            p.expect('to')
            d = p.type()
            A = (t, a, d, frozenset(flags))
        elif op == 'alloca':
            p.accept('inalloca')
            t = p.type()
            cnt = None
            if p.accept(','):
                if p.peek()[1] != 'align':
                    cnt = p.typed()
            A = (t, cnt)
        elif op == 'load':
            p.accept('atomic')
            p.accept('volatile')
            t = p.type()
            p.expect(',')
            A = (t, p.typed())
        elif op == 'store':
            p.accept('atomic')
            p.accept('volatile')
            v = p.typed()
            p.expect(',')
            A = (v, p.typed())
        elif op == 'getelementptr':
            while p.peek()[1] in FLAGS:
                p.next()
            t = p.type()
            p.expect(',')
            ops = []
            while True:
                ops.append(p.typed())
                if not p.accept(','):
                    break
            A = (t, ops)
        elif op in ('call', 'invoke'):
            while p.peek()[1] in FLAGS:
                p.next()
            while p.peek()[1] in ('fastcc', 'ccc', 'coldcc'):
                p.next()
            p.skip_param_attrs()
            rt = p.type()
            if p.peek()[1] == '(':  # function type
                d = 0
                while True:
                    x = p.next()[1]
                    if x == '(':
                        d += 1
                    elif x == ')':
                        d -= 1
                        if d == 0:
                            break
            if p.peek()[1] == 'asm':
                A = (rt, ('asm',), [], None, None)
                return Instr('asm', dst, A, dbg, s)
            callee = p.value(('ptr',))
            p.expect('(')
            args = []
            if not p.accept(')'):
                while True:
                    t = p.type()
                    at = p.skip_param_attrs()
                    if t[0] == 'metadata':
                        # skip metadata operand
                        d = 0
                        while not (d == 0 and p.peek()[1] in (',', ')')):
                            x = p.next()[1]
                            if x in '([{':
                                d += 1
                            elif x in ')]}':
                                d -= 1
                        args.append((t, ('md',), at))
                    else:
                        args.append((t, p.value(t), at))
                    if p.accept(')'):
                        break
                    p.expect(',')
            norm = unw = None
            if op == 'invoke':
                while p.peek()[1] != 'to':
                    p.next()
                p.expect('to'); p.expect('label')
                norm = p.next()[1]
                p.expect('unwind'); p.expect('label')
                unw = p.next()[1]
            A = (rt, callee, args, norm, unw)
        elif op == 'ret':
            if p.peek()[1] == 'void':
                A = None
            else:
                A = p.typed()
        elif op == 'br':
            if p.peek()[1] == 'label':
                p.next()
                A = (None, p.next()[1], None)
            else:
                c = p.typed()
                p.expect(','); p.expect('label')
                t1 = p.next()[1]
                p.expect(','); p.expect('label')
                A = (c, t1, p.next()[1])
        elif op == 'switch':
            v = p.typed()
            p.expect(','); p.expect('label')
            d = p.next()[1]
            p.expect('[')
            cases = []
            while not p.accept(']'):
                c = p.typed()
                p.expect(','); p.expect('label')
                cases.append((c, p.next()[1]))
            A = (v, d, cases)
        elif op == 'phi':
            while p.peek()[1] in FLAGS:
                p.next()
            t = p.type()
            inc = []
            while True:
                p.expect('[')
                v = p.value(t)
                p.expect(',')
                b = p.next()[1]
                p.expect(']')
                inc.append((v, b))
                if not p.accept(','):
                    break
            A = (t, inc)
        elif op == 'select':
            while p.peek()[1] in FLAGS:
                p.next()
            c = p.typed()
            p.expect(',')
            a = p.typed()
            p.expect(',')
            b = p.typed()
            A = (c, a, b)
        elif op == 'extractvalue':
            a = p.typed()
            idx = []
            while p.accept(','):
                idx.append(int(p.next()[1]))
            A = (a, idx)
        elif op == 'insertvalue':
            a = p.typed()
            p.expect(',')
            b = p.typed()
            idx = []
            while p.accept(','):
                idx.append(int(p.next()[1]))
            A = (a, b, idx)
        elif op == 'unreachable':
            A = ()
        elif op in ('landingpad', 'resume', 'fence'):
            A = ()
        elif op == 'freeze':
            A = p.typed()
        elif op == 'fneg':
            while p.peek()[1] in FLAGS:
                p.next()
            A = p.typed()
        elif op == 'atomicrmw':
            p.accept('volatile')
            o = p.next()[1]
            a = p.typed(); p.expect(',')
            b = p.typed()
            A = (o, a, b)
        elif op == 'cmpxchg':
            p.accept('weak'); p.accept('volatile')
            a = p.typed(); p.expect(',')
            b = p.typed(); p.expect(',')
            c = p.typed()
            A = (a, b, c)
        elif op in ('extractelement', 'insertelement', 'shufflevector'):
            ops = []
            while True:
                ops.append(p.typed())
                if not p.accept(','):
                    break
            A = ops
        else:
            raise ParseError('instr ' + s)
        return Instr(op, dst, A, dbg, s)

    # ---- type layout (x86-64) ----
    def rtype(self, t):
        if t[0] == 'named':
            r = self._typecache.get(t[1])
            if r is None:
                txt = self.types[t[1]]
                if txt.strip() == 'opaque':
                    r = ('struct', (), False)
                else:
                    r = P(tokenize(txt), self).type()
                self._typecache[t[1]] = r
            return r
        return t
    def size(self, t):
        t = self.rtype(t)
        k = t[0]
        if k == 'i':
            b = (t[1] + 7) // 8
            a = 1
            while a < b:
                a *= 2
            return a
        if k == 'ptr':
            return 8
        if k == 'f':
            return {'float': 4, 'double': 8, 'half': 2, 'x86_fp80': 16, 'fp128': 16, 'bfloat': 2}[t[1]]
        if k in ('arr', 'vec'):
            return t[1] * self.size(t[2])
        if k == 'struct':
            return self._layout(t)[1]
        raise ParseError('size %r' % (t,))
    def align(self, t):
        t = self.rtype(t)
        k = t[0]
        if k == 'struct':
            return 1 if t[2] else max([self.align(x) for x in t[1]] or [1])
        if k == 'arr':
            return self.align(t[2])
        return min(self.size(t), 16)
    def _layout(self, t):
        r = self._typecache.get(t)
        if r:
            return r
        off = 0
        offs = []
        for x in t[1]:
            a = 1 if t[2] else self.align(x)
            off = (off + a - 1) // a * a
            offs.append(off)
            off += self.size(x)
        a = self.align(t)
        off = (off + a - 1) // a * a
        r = (offs, off)
        self._typecache[t] = r
        return r
    def offsets(self, t):
        t = self.rtype(t)
        return self._layout(t)[0]

    # ---- globals ----
    def global_info(self, name):
        ent = self.globals[name]
        if ent[1] is None:
            txt = ent[0]
            section = None
            m = re.search(r'section "([^"]*)"', txt)
            if m:
                section = m.group(1)
            txt2 = re.sub(r', (section "[^"]*"|comdat(\([^)]*\))?|align \d+|!dbg !\d+|!\S+ !\d+)', '', txt)
            p = P(tokenize(txt2), self)
            const = False
            ext = False
            while True:
                k, v = p.peek()
                if v in ('global', 'constant'):
                    const = v == 'constant'
                    p.next()
                    break
                if v in ('external', 'extern_weak'):
                    ext = True
                p.next()
                if v in ('thread_local', 'addrspace') and p.peek()[1] == '(':
                    p.next(); p.next(); p.next()
            t = p.type()
            init = None
            if p.i < len(p.t) and not ext:
                init = p.value(t)
            ent[1] = dict(type=t, const=const, init=init, section=section, ext=ext)
        return ent[1]

    def loc(self, dbg):
        """-> (file, line, function-name)"""
        if dbg is None:
            return None
        d = self.md.get(dbg, '')
        m = re.search(r'line: (\d+)', d)
        line = int(m.group(1)) if m else 0
        sc = re.search(r'scope: (!\d+)', d)
        fname = fn = None
        cur = sc.group(1) if sc else None
        steps = 0
        while cur and steps < 20:
            e = self.md.get(cur, '')
            if fname is None:
                m = re.search(r'file: (!\d+)', e)
                if m:
                    m = re.search(r'filename: "([^"]*)"', self.md.get(m.group(1), ''))
                    fname = m.group(1) if m else None
            if 'DISubprogram' in e:
                m = re.search(r'name: "([^"]*)"', e)
                fn = m.group(1) if m else None
                break
            m = re.search(r'scope: (!\d+)', e)
            cur = m.group(1) if m else None
            steps += 1
        return (fname, line, fn)
