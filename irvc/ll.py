"""Parser for the subset of textual LLVM IR (clang/opt 18, opaque pointers) that irvc verifies."""
import re

TOK = re.compile(r'''
  (?P<ws>\s+)
 |(?P<cstr>c"(?:[^"])*")
 |(?P<str>"(?:[^"])*")
 |(?P<local>%(?:"[^"]*"|[-\w.$]+))
 |(?P<glob>@(?:"[^"]*"|[-\w.$]+))
 |(?P<attr>\#\d+)
 |(?P<meta>!(?:[\w.]+|(?=\()|(?=\{)|(?=")))
 |(?P<dots>\.\.\.)
 |(?P<num>-?\d+(?:\.\d+(?:e[+-]?\d+)?)?|0x[0-9A-Fa-f]+)
 |(?P<word>[A-Za-z_$][\w.$]*)
 |(?P<punct>[()\[\]{}<>,=*:|])
''', re.X)


class LLError(Exception):
    pass


def tokenize(s):
    out = []
    i = 0
    n = len(s)
    while i < n:
        m = TOK.match(s, i)
        if not m:
            if s[i] == ';':
                break
            raise LLError('cannot tokenize at: ' + s[i:i + 60])
        i = m.end()
        k = m.lastgroup
        if k == 'ws':
            continue
        v = m.group()
        if k in ('local', 'glob'):
            v = v[0] + unq(v[1:])
        out.append((k, v))
    return out


def unq(v):
    if v.startswith('"'):
        return v[1:-1]
    return v


# ---- types -------------------------------------------------------------
# ('i',n) ('ptr',) ('arr',n,t) ('struct',(t..),packed) ('named',s) ('vec',n,t) ('float',) ('double',) ('void',)
PARAM_ATTRS0 = set('''noundef nonnull nocapture readonly readnone writeonly noalias signext zeroext inreg returned
 immarg nest noreturn nounwind swiftself noinline dead_on_unwind writable nofree allocptr allocalign swifterror
 local_unnamed_addr unnamed_addr dso_local tail musttail notail fast nnan ninf nsz arcp contract afn reassoc
 ccc fastcc coldcc linkonce_odr internal private weak weak_odr external hidden default protected available_externally
 linkonce common dso_preemptable'''.split())
PARAM_ATTRS1 = set('align dereferenceable dereferenceable_or_null byval sret elementtype inalloca byref preallocated range allockind memory allocsize addrspace'.split())


class P:
    def __init__(self, toks, mod):
        self.t = toks
        self.i = 0
        self.mod = mod

    def peek(self, k=0):
        j = self.i + k
        return self.t[j] if j < len(self.t) else ('eof', '')

    def next(self):
        x = self.peek()
        self.i += 1
        return x

    def at(self, v):
        return self.peek()[1] == v

    def accept(self, v):
        if self.peek()[1] == v:
            self.i += 1
            return True
        return False

    def expect(self, v):
        x = self.next()
        if x[1] != v:
            raise LLError('expected %r got %r near %r' % (v, x, ' '.join(a[1] for a in self.t[max(0, self.i - 12):self.i + 8])))

    def skip_attrs(self):
        while True:
            k, v = self.peek()
            if k == 'word' and v in PARAM_ATTRS0:
                self.i += 1
            elif k == 'word' and v in PARAM_ATTRS1:
                self.i += 1
                if v == 'align' and self.peek()[0] == 'num':
                    self.i += 1
                elif self.at('('):
                    self.skip_parens()
            elif k == 'attr':
                self.i += 1
            elif k == 'str':
                self.i += 1
                if self.accept('='):
                    self.i += 1
            else:
                return

    def skip_parens(self):
        d = 0
        while True:
            k, v = self.next()
            if k == 'eof':
                raise LLError('unbalanced')
            if v == '(':
                d += 1
            elif v == ')':
                d -= 1
                if d == 0:
                    return

    def type(self):
        k, v = self.next()
        if k == 'word':
            if v == 'ptr':
                if self.at('addrspace'):
                    self.i += 1
                    self.skip_parens()
                t = ('ptr',)
            elif v[0] == 'i' and v[1:].isdigit():
                t = ('i', int(v[1:]))
            elif v in ('void', 'float', 'double', 'label', 'metadata', 'token', 'x86_fp80', 'half', 'opaque', 'fp128'):
                t = (v,)
            else:
                raise LLError('type? ' + v)
        elif k == 'local':
            t = ('named', v[1:])
        elif v == '[':
            n = int(self.next()[1])
            self.expect('x')
            e = self.type()
            self.expect(']')
            t = ('arr', n, e)
        elif v == '{':
            t = ('struct', tuple(self.types_until('}')), False)
        elif v == '<':
            if self.at('{'):
                self.i += 1
                t = ('struct', tuple(self.types_until('}')), True)
                self.expect('>')
            else:
                n = int(self.next()[1])
                self.expect('x')
                e = self.type()
                self.expect('>')
                t = ('vec', n, e)
        else:
            raise LLError('type? ' + v)
        # function type suffix
        while self.at('('):
            # function type: ret (args...)
            self.i += 1
            args = []
            va = False
            while not self.accept(')'):
                if self.accept('...'):
                    va = True
                else:
                    args.append(self.type())
                    self.skip_attrs()
                self.accept(',')
            t = ('func', t, tuple(args), va)
        return t

    def types_until(self, close):
        r = []
        while not self.accept(close):
            r.append(self.type())
            self.accept(',')
        return r

    # ---- values: returns operand tuples
    # ('loc',name) ('glob',name) ('int',v) ('null',) ('undef',) ('zero',) ('agg',[(t,v)]) ('str',bytes) ('cexpr',op,...)
    def value(self, ty):
        k, v = self.next()
        if k == 'local':
            return ('loc', v[1:])
        if k == 'glob':
            return ('glob', v[1:])
        if k == 'num':
            if ty[0] in ('float', 'double', 'x86_fp80'):
                return ('fp', v)
            return ('int', int(v))
        if k == 'cstr':
            s = v[2:-1]
            out = bytearray()
            i = 0
            while i < len(s):
                if s[i] == '\\':
                    out.append(int(s[i + 1:i + 3], 16))
                    i += 3
                else:
                    out.append(ord(s[i]))
                    i += 1
            return ('str', bytes(out))
        if v in ('null',):
            return ('null',)
        if v in ('undef', 'poison'):
            return ('undef',)
        if v == 'zeroinitializer':
            return ('zero',)
        if v == 'true':
            return ('int', 1)
        if v == 'false':
            return ('int', 0)
        if v in ('getelementptr', 'ptrtoint', 'inttoptr', 'bitcast', 'add', 'sub', 'trunc', 'zext', 'sext', 'mul', 'xor',
                 'addrspacecast', 'and', 'or', 'shl', 'lshr', 'icmp', 'select'):
            return self.cexpr(v)
        if v in ('no_cfi', 'dso_local_equivalent'):
            return self.value(ty)
        if v in '[{<':
            close = {'[': ']', '{': '}', '<': '>'}[v]
            packed = False
            if v == '<' and self.at('{'):
                self.i += 1
                packed = True
                close = '}'
            items = []
            while not self.accept(close):
                t = self.type()
                items.append((t, self.value(t)))
                self.accept(',')
            if packed:
                self.expect('>')
            return ('agg', items)
        if v == 'asm':
            raise LLError('inline asm')
        raise LLError('value? %s %s' % (v, ' '.join(a[1] for a in self.t[max(0, self.i - 12):self.i + 8])))

    def cexpr(self, op):
        while self.peek()[1] in ('inbounds', 'nuw', 'nsw', 'exact', 'nusw', 'inrange'):
            if self.next()[1] == 'inrange' and self.at('('):
                self.skip_parens()
        if op == 'icmp':
            pred = self.next()[1]
        self.expect('(')
        if op == 'getelementptr':
            st = self.type()
            args = []
            while self.accept(','):
                self.accept('inrange')
                if self.at('('):
                    self.skip_parens()
                t = self.type()
                args.append((t, self.value(t)))
            self.expect(')')
            return ('cgep', st, args)
        if op in ('ptrtoint', 'inttoptr', 'bitcast', 'trunc', 'zext', 'sext', 'addrspacecast'):
            t = self.type()
            v = self.value(t)
            self.expect('to')
            t2 = self.type()
            self.expect(')')
            return ('ccast', op, t, v, t2)
        args = []
        while True:
            t = self.type()
            args.append((t, self.value(t)))
            if not self.accept(','):
                break
        self.expect(')')
        if op == 'icmp':
            op = 'icmp ' + pred
        return ('cbin', op, args)

    def tv(self):
        t = self.type()
        self.skip_attrs()
        return (t, self.value(t))


class Instr:
    __slots__ = ('op', 'res', 'ty', 'a', 'dbg', 'text', 'flags')

    def __init__(self, op, res, ty, a, dbg, text, flags=()):
        self.op, self.res, self.ty, self.a, self.dbg, self.text, self.flags = op, res, ty, a, dbg, text, flags


class Block:
    def __init__(self, name):
        self.name = name
        self.ins = []


class Function:
    def __init__(self, name, params, rty):
        self.name, self.params, self.rty = name, params, rty
        self.blocks = {}
        self.order = []
        self.entry = None
        self._loops = None


BINOPS = {'add', 'sub', 'mul', 'udiv', 'sdiv', 'urem', 'srem', 'shl', 'lshr', 'ashr', 'and', 'or', 'xor',
          'fadd', 'fsub', 'fmul', 'fdiv', 'frem'}
CASTS = {'trunc', 'zext', 'sext', 'ptrtoint', 'inttoptr', 'bitcast', 'fptoui', 'fptosi', 'uitofp', 'sitofp', 'fpext',
         'fptrunc', 'addrspacecast'}


class Module:
    def __init__(self, text):
        self.types = {}
        self.globals = {}   # name -> (type, init or None, const)
        self.funcs = {}
        self.decls = {}
        self.aliases = {}
        self.md = {}
        self.layout = ''
        self.parse(text)
        self.big_endian = self.layout.startswith('E')
        self.ptr_bytes = 8
        m = re.search(r'(?:^|-)p:(\d+):', self.layout)
        if m:
            self.ptr_bytes = int(m.group(1)) // 8

    def parse(self, text):
        lines = text.split('\n')
        i = 0
        n = len(lines)
        while i < n:
            ln = lines[i]
            if ln.startswith('target datalayout'):
                self.layout = ln.split('"')[1]
            elif ln.startswith('%'):
                p = P(tokenize(ln), self)
                nm = p.next()[1][1:]
                p.expect('=')
                p.expect('type')
                self.types[nm] = ('opaque',) if p.at('opaque') else p.type()
            elif ln.startswith('@'):
                self.parse_global(ln)
            elif ln.startswith('declare'):
                m = re.search(r'@("[^"]*"|[-\w.$]+)\(', ln)
                self.decls[unq(m.group(1))] = ln
            elif ln.startswith('!'):
                m = re.match(r'!(\d+) = (?:distinct )?(.*)$', ln)
                if m:
                    self.md[int(m.group(1))] = m.group(2)
            elif ln.startswith('define'):
                j = i + 1
                while lines[j] != '}':
                    j += 1
                self.parse_func(ln, lines[i + 1:j])
                i = j
            i += 1

    def parse_global(self, ln):
        try:
            toks = tokenize(ln)
        except LLError:
            return
        p = P(toks, self)
        nm = p.next()[1][1:]
        p.expect('=')
        const = False
        ext = False
        while True:
            k, v = p.peek()
            if v in ('global', 'constant'):
                const = v == 'constant'
                p.i += 1
                break
            if v == 'alias':
                p.i += 1
                p.type()
                p.expect(',')
                t = p.type()
                self.aliases[nm] = p.value(t)
                return
            if v == 'external':
                ext = True
            if k == 'eof':
                return
            if v == 'thread_local' or v == 'comdat':
                p.i += 1
                if p.at('('):
                    p.skip_parens()
                continue
            p.i += 1
        t = p.type()
        init = None
        if p.peek()[0] != 'eof' and not p.at(',') and not ext:
            init = p.value(t)
        self.globals[nm] = (t, init, const)

    def parse_func(self, hdr, body):
        m = re.search(r'@("[^"]*"|[-\w.$]+)\(', hdr)
        name = unq(m.group(1))
        pre = hdr[len('define'):m.start()]
        p = P(tokenize(pre), self)
        p.skip_attrs()
        rty = p.type()
        # params
        d = 0
        j = m.end() - 1
        k = j
        while True:
            c = hdr[k]
            if c == '"':
                k = hdr.index('"', k + 1)
            elif c == '(':
                d += 1
            elif c == ')':
                d -= 1
                if d == 0:
                    break
            k += 1
        p = P(tokenize(hdr[j + 1:k]), self)
        params = []
        while p.peek()[0] != 'eof':
            if p.accept('...'):
                continue
            t = p.type()
            attrs0 = p.i
            p.skip_attrs()
            at = [x[1] for x in p.t[attrs0:p.i]]
            nm = None
            if p.peek()[0] == 'local':
                nm = p.next()[1][1:]
            params.append((t, nm, at))
            p.accept(',')
        f = Function(name, params, rty)
        f.hdr = hdr
        cur = None
        # join continuations
        joined = []
        in_switch = False
        for ln in body:
            if not ln.strip() or ln.lstrip().startswith(';'):
                continue
            if ln.startswith('    ') or (in_switch):
                joined[-1] += ' ' + ln.strip()
                if ln.strip().startswith(']'):
                    in_switch = False
                continue
            joined.append(ln)
            if re.match(r'\s*switch ', ln) and not ln.rstrip().endswith(']') and ']' not in ln.split('[')[-1]:
                in_switch = True
        for ln in joined:
            m = re.match(r'("(?:[^"]*)"|[-\w.$]+):', ln)
            if m and not ln.startswith(' '):
                cur = Block(unq(m.group(1)))
                f.blocks[cur.name] = cur
                f.order.append(cur.name)
                continue
            if cur is None:
                cur = Block('entry0')
                f.blocks[cur.name] = cur
                f.order.append(cur.name)
            ins = self.parse_instr(ln.strip())
            if ins is not None:
                cur.ins.append(ins)
        f.entry = f.order[0]
        self.funcs[name] = f

    def parse_instr(self, ln):
        text = ln
        dbg = None
        toks = tokenize(ln)
        # strip trailing metadata attachments
        for q in range(len(toks) - 1):
            if toks[q][1] == ',' and toks[q + 1][0] == 'meta':
                rest = toks[q:]
                toks = toks[:q]
                for r in range(len(rest) - 1):
                    if rest[r][1] == '!dbg':
                        dbg = int(rest[r + 1][1][1:])
                break
        p = P(toks, self)
        res = None
        if p.peek()[0] == 'local' and p.peek(1)[1] == '=':
            res = p.next()[1][1:]
            p.next()
        k, op = p.next()
        I = lambda ty, a, flags=(): Instr(op, res, ty, a, dbg, text, flags)
        if op in ('tail', 'musttail', 'notail'):
            k, op = p.next()
        if op in BINOPS:
            fl = []
            while p.peek()[1] in ('nuw', 'nsw', 'exact', 'disjoint', 'fast', 'nnan', 'ninf', 'nsz', 'arcp', 'contract', 'afn', 'reassoc'):
                fl.append(p.next()[1])
            t = p.type()
            a = p.value(t)
            p.expect(',')
            b = p.value(t)
            return I(t, (a, b), tuple(fl))
        if op in CASTS:
            fl = []
            while p.peek()[1] in ('nneg', 'nuw', 'nsw'):
                fl.append(p.next()[1])
            t = p.type()
            v = p.value(t)
            p.expect('to')
            return I(p.type(), (t, v), tuple(fl))
        if op in ('icmp', 'fcmp'):
            pred = p.next()[1]
            while pred in ('fast', 'nnan', 'ninf', 'nsz', 'samesign'):
                pred = p.next()[1]
            t = p.type()
            a = p.value(t)
            p.expect(',')
            b = p.value(t)
            return I(t, (pred, a, b))
        if op == 'select':
            while p.peek()[1] in ('fast', 'nnan', 'ninf', 'nsz'):
                p.next()
            ct, c = p.tv()
            p.expect(',')
            t, a = p.tv()
            p.expect(',')
            t, b = p.tv()
            return I(t, (c, a, b))
        if op == 'phi':
            t = p.type()
            inc = []
            while True:
                p.expect('[')
                v = p.value(t)
                p.expect(',')
                lab = p.next()[1][1:]
                p.expect(']')
                inc.append((v, lab))
                if not p.accept(','):
                    break
            return I(t, inc)
        if op == 'br':
            if p.accept('label'):
                return I(None, (None, p.next()[1][1:], None))
            t = p.type()
            c = p.value(t)
            p.expect(',')
            p.expect('label')
            a = p.next()[1][1:]
            p.expect(',')
            p.expect('label')
            b = p.next()[1][1:]
            return I(None, (c, a, b))
        if op == 'switch':
            t, v = p.tv()
            p.expect(',')
            p.expect('label')
            d = p.next()[1][1:]
            p.expect('[')
            cases = []
            while not p.accept(']'):
                ct, cv = p.tv()
                p.expect(',')
                p.expect('label')
                cases.append((cv, p.next()[1][1:]))
            return I(t, (v, d, cases))
        if op == 'ret':
            if p.accept('void'):
                return I(None, None)
            t, v = p.tv()
            return I(t, v)
        if op == 'unreachable':
            return I(None, None)
        if op == 'resume':
            t, v = p.tv()
            return I(t, v)
        if op == 'load':
            at = vol = False
            while p.peek()[1] in ('atomic', 'volatile'):
                vol = True
                p.next()
            t = p.type()
            p.expect(',')
            _, v = p.tv()
            return I(t, v, ('volatile',) if vol else ())
        if op == 'store':
            while p.peek()[1] in ('atomic', 'volatile'):
                p.next()
            t, v = p.tv()
            p.expect(',')
            _, d = p.tv()
            return I(t, (v, d))
        if op == 'getelementptr':
            while p.peek()[1] in ('inbounds', 'nuw', 'nusw'):
                p.next()
            st = p.type()
            args = []
            while p.accept(','):
                args.append(p.tv())
            return I(('ptr',), (st, args))
        if op == 'alloca':
            p.accept('inalloca')
            t = p.type()
            cnt = None
            if p.accept(','):
                if not p.at('align'):
                    cnt = p.tv()
            m = re.search(r', align (\d+)', text)
            return I(('ptr',), (t, cnt, int(m.group(1)) if m else 1))
        if op in ('call', 'invoke'):
            p.skip_attrs()
            rt = p.type()
            if rt[0] == 'func':
                rt = rt[1]
            if p.peek()[1] == 'asm':
                # inline asm: only the empty asm (compiler barrier) is supported
                return Instr('asm', res, rt, (text,), dbg, text)
            callee = p.value(('ptr',))
            p.expect('(')
            args = []
            while not p.accept(')'):
                if p.peek()[1] == 'metadata':
                    # drop metadata args
                    d = 0
                    while True:
                        if p.peek()[1] == '(':
                            d += 1
                        if p.peek()[1] == ')':
                            if d == 0:
                                break
                            d -= 1
                        if p.peek()[1] == ',' and d == 0:
                            break
                        p.next()
                    p.accept(',')
                    continue
                args.append(p.tv())
                p.accept(',')
            p.skip_attrs()
            # operand bundles
            if p.accept('['):
                while not p.accept(']'):
                    p.next()
            norm = unw = None
            if op == 'invoke':
                p.skip_attrs()
                p.expect('to')
                p.expect('label')
                norm = p.next()[1][1:]
                p.expect('unwind')
                p.expect('label')
                unw = p.next()[1][1:]
            return Instr(op, res, rt, (callee, args, norm, unw), dbg, text)
        if op == 'landingpad':
            t = p.type()
            clauses = []
            while p.peek()[0] != 'eof':
                w = p.next()[1]
                if w == 'cleanup':
                    clauses.append(('cleanup',))
                elif w in ('catch', 'filter'):
                    ct = p.type()
                    clauses.append((w, p.value(ct)))
            return I(t, clauses)
        if op == 'extractvalue':
            t, v = p.tv()
            idx = []
            while p.accept(','):
                idx.append(int(p.next()[1]))
            return I(t, (v, idx))
        if op == 'insertvalue':
            t, v = p.tv()
            p.expect(',')
            et, e = p.tv()
            idx = []
            while p.accept(','):
                idx.append(int(p.next()[1]))
            return I(t, (v, e, idx))
        if op == 'extractelement':
            t, v = p.tv()
            p.expect(',')
            it, ix = p.tv()
            return I(t, (v, ix))
        if op == 'insertelement':
            t, v = p.tv()
            p.expect(',')
            et, e = p.tv()
            p.expect(',')
            it, ix = p.tv()
            return I(t, (v, e, ix))
        if op == 'shufflevector':
            return I(None, (text,))
        if op == 'freeze':
            t, v = p.tv()
            return I(t, v)
        if op == 'atomicrmw':
            p.accept('volatile')
            rop = p.next()[1]
            _, d = p.tv()
            p.expect(',')
            t, v = p.tv()
            return I(t, (rop, d, v))
        if op == 'cmpxchg':
            p.accept('weak')
            p.accept('volatile')
            _, d = p.tv()
            p.expect(',')
            t, c = p.tv()
            p.expect(',')
            t, n = p.tv()
            return I(t, (d, c, n))
        if op == 'fence':
            return I(None, None)
        if op == 'fneg':
            return I(None, (text,))
        raise LLError('instr? ' + text)

    # ---- layout ----
    def resolve(self, t):
        while t[0] == 'named':
            t = self.types[t[1]]
        return t

    def align(self, t):
        t = self.resolve(t)
        k = t[0]
        if k == 'i':
            b = (t[1] + 7) // 8
            a = 1
            while a < b:
                a *= 2
            return min(a, 16)
        if k == 'ptr':
            return self.ptr_bytes
        if k == 'double':
            return 8
        if k == 'float':
            return 4
        if k == 'x86_fp80':
            return 16
        if k == 'arr':
            return self.align(t[2])
        if k == 'vec':
            return self.size(t)
        if k == 'struct':
            if t[2]:
                return 1
            return max([self.align(x) for x in t[1]] or [1])
        raise LLError('align ' + str(t))

    def size(self, t):
        t = self.resolve(t)
        k = t[0]
        if k == 'i':
            b = (t[1] + 7) // 8
            a = self.align(t)
            return (b + a - 1) // a * a
        if k == 'ptr':
            return self.ptr_bytes
        if k == 'double':
            return 8
        if k == 'float':
            return 4
        if k == 'x86_fp80':
            return 16
        if k == 'arr':
            return t[1] * self.size(t[2])
        if k == 'vec':
            return t[1] * self.size(t[2])
        if k == 'struct':
            o = 0
            for x in t[1]:
                if not t[2]:
                    a = self.align(x)
                    o = (o + a - 1) // a * a
                o += self.size(x)
            if not t[2]:
                a = self.align(t)
                o = (o + a - 1) // a * a
            return o
        raise LLError('size ' + str(t))

    def field_off(self, t, idx):
        t = self.resolve(t)
        o = 0
        for j, x in enumerate(t[1]):
            if not t[2]:
                a = self.align(x)
                o = (o + a - 1) // a * a
            if j == idx:
                return o
            o += self.size(x)
        raise LLError('field')

    def leaves(self, t, off=0):
        """(offset, type) of the scalar leaves of t; arrays of scalars are returned whole"""
        t = self.resolve(t)
        if t[0] == 'struct':
            r = []
            for j, x in enumerate(t[1]):
                r += self.leaves(x, off + self.field_off(t, j))
            return r
        return [(off, t)]

    def line(self, dbg):
        """(file, line) for a !dbg id, following inlinedAt to nothing (innermost location)"""
        if dbg is None:
            return None
        s = self.md.get(dbg, '')
        m = re.search(r'line: (\d+)', s)
        sc = re.search(r'scope: !(\d+)', s)
        if not m:
            return None
        ln = int(m.group(1))
        f = None
        fn = None
        seen = 0
        while sc and seen < 50:
            seen += 1
            t = self.md.get(int(sc.group(1)), '')
            mm = re.search(r'file: !(\d+)', t)
            if mm and not f:
                fm = re.search(r'filename: "([^"]*)"', self.md.get(int(mm.group(1)), ''))
                if fm:
                    f = fm.group(1)
            nm = re.search(r'name: "([^"]*)"', t)
            if nm and 'DISubprogram' in t:
                fn = nm.group(1)
                break
            sc = re.search(r'scope: !(\d+)', t)
        return (f, ln, fn)

    def where(self, dbg):
        """innermost-to-outermost list of locations"""
        out = []
        seen = 0
        while dbg is not None and seen < 40:
            seen += 1
            l = self.line(dbg)
            if l:
                out.append(l)
            m = re.search(r'inlinedAt: !(\d+)', self.md.get(dbg, ''))
            dbg = int(m.group(1)) if m else None
        return out


# ---- CFG / loops ----
def succs(ins):
    if ins.op == 'br':
        return [x for x in ins.a[1:] if x]
    if ins.op == 'switch':
        return [ins.a[1]] + [c[1] for c in ins.a[2]]
    if ins.op == 'invoke':
        return [ins.a[2], ins.a[3]]
    return []


def loops(f):
    """header -> set of blocks (natural loops, merged per header)"""
    if f._loops is not None:
        return f._loops
    order = []
    seen = set()

    st = [(f.entry, iter(succs(f.blocks[f.entry].ins[-1])))]
    seen.add(f.entry)
    while st:
        b, it = st[-1]
        for s in it:
            if s not in seen:
                seen.add(s)
                st.append((s, iter(succs(f.blocks[s].ins[-1]))))
                break
        else:
            order.append(b)
            st.pop()
    rpo = order[::-1]
    preds = {b: [] for b in rpo}
    for b in rpo:
        for s in succs(f.blocks[b].ins[-1]):
            preds[s].append(b)
    dom = {b: None for b in rpo}
    dom[f.entry] = {f.entry}
    ch = True
    while ch:
        ch = False
        for b in rpo[1:]:
            ps = [dom[p] for p in preds[b] if dom[p] is not None]
            nd = set.intersection(*ps) | {b} if ps else {b}
            if nd != dom[b]:
                dom[b] = nd
                ch = True
    L = {}
    for b in rpo:
        for s in succs(f.blocks[b].ins[-1]):
            if s in dom[b]:
                body = L.setdefault(s, {s})
                wl = [b]
                while wl:
                    x = wl.pop()
                    if x in body:
                        continue
                    body.add(x)
                    wl += preds[x]
            # irreducible edges are detected by the executor (revisit counter)
    f._loops = L
    f._preds = preds
    return L
