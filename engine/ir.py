"""Parser for the textual LLVM IR produced by clang/opt 18 (the subset that C
code at -O0 + mem2reg + simplifycfg uses)."""
import re

TOK = re.compile(r'''\s*(?:
 (c"(?:[^"\\]|\\[0-9A-Fa-f]{2}|\\\\)*")      # 1 c string
|(%"[^"]*"|@"[^"]*"|[%@][-\w$.]+)            # 2 names
|("(?:[^"])*")                               # 3 string
|(-?\d+\.\d+(?:e[+-]?\d+)?|-?\d+)            # 4 numbers
|([A-Za-z_][\w.]*)                           # 5 words
|(\.\.\.)                                    # 6
|([\[\]{}()<>,=*:|!\#])                      # 7 punct
)''', re.X)


def tokenize(s):
    out = []
    pos = 0
    n = len(s)
    while pos < n:
        m = TOK.match(s, pos)
        if not m:
            if s[pos:].strip() == '':
                break
            raise SyntaxError('lex: ' + s[pos:pos + 60])
        pos = m.end()
        out.append(m.group(m.lastindex))
    return out


# types: ('i',n) ('p',) ('v',) ('a',n,t) ('s',fields,packed) ('n',name) ('fn',) ('f',bits)
class Unsupported(Exception):
    pass


PTR = ('p',)
VOID = ('v',)
INT = {}


def ity(n):
    t = INT.get(n)
    if t is None:
        t = INT[n] = ('i', n)
    return t


ATTRS = {'dead_on_unwind', 'writable', 'noundef', 'nonnull', 'signext', 'zeroext', 'noalias', 'nocapture', 'readonly',
         'writeonly', 'readnone', 'inreg', 'returned', 'immarg', 'nofree', 'dso_local', 'local_unnamed_addr',
         'unnamed_addr', 'noreturn', 'inbounds', 'nuw', 'nsw', 'exact', 'tail', 'musttail', 'notail', 'fastcc',
         'ccc', 'volatile', 'allocptr', 'nest', 'swiftself', 'writable', 'disjoint', 'nneg', 'samesign'}


class P(object):
    def __init__(self, mod, toks):
        self.m = mod
        self.t = toks
        self.i = 0

    def peek(self, k=0):
        j = self.i + k
        return self.t[j] if j < len(self.t) else None

    def next(self):
        x = self.t[self.i]
        self.i += 1
        return x

    def accept(self, x):
        if self.i < len(self.t) and self.t[self.i] == x:
            self.i += 1
            return True
        return False

    def expect(self, x):
        if not self.accept(x):
            raise SyntaxError('expected %s got %s in %s' % (x, self.peek(), ' '.join(self.t)[:300]))

    def type(self):
        x = self.next()
        t = None
        if x[0] == 'i' and x[1:].isdigit():
            t = ity(int(x[1:]))
        elif x == 'ptr':
            t = PTR
        elif x == 'void':
            t = VOID
        elif x in ('float', 'double', 'x86_fp80', 'half', 'fp128'):
            t = ('f', x)
        elif x == 'metadata':
            t = ('meta',)
        elif x == 'label':
            t = ('label',)
        elif x == '[':
            n = int(self.next())
            self.expect('x')
            e = self.type()
            self.expect(']')
            t = ('a', n, e)
        elif x == '<':
            if self.peek() == '{':
                self.next()
                fs = []
                if self.peek() != '}':
                    fs.append(self.type())
                    while self.accept(','):
                        fs.append(self.type())
                self.expect('}')
                self.expect('>')
                t = ('s', tuple(fs), True)
            else:
                n = int(self.next())
                self.expect('x')
                e = self.type()
                self.expect('>')
                t = ('vec', n, e)
        elif x == '{':
            fs = []
            if self.peek() != '}':
                fs.append(self.type())
                while self.accept(','):
                    fs.append(self.type())
            self.expect('}')
            t = ('s', tuple(fs), False)
        elif x[0] == '%':
            t = ('n', x)
        elif x == 'opaque':
            t = ('s', (), False)
        else:
            raise SyntaxError('type? %s in %s' % (x, ' '.join(self.t)[:200]))
        while self.peek() == '(':  # function type
            self.next()
            d = 1
            while d:
                y = self.next()
                if y == '(':
                    d += 1
                elif y == ')':
                    d -= 1
            t = ('fn', t)
        return t

    def attrs(self):
        res = {}
        while True:
            x = self.peek()
            if x is None:
                return res
            if x in ATTRS:
                self.next()
            elif x in ('align', 'dereferenceable', 'dereferenceable_or_null', 'allocsize', 'memory'):
                self.next()
                if self.peek() == '(':
                    self.parens()
                else:
                    self.next()
            elif x in ('byval', 'sret', 'elementtype', 'byref'):
                self.next()
                self.expect('(')
                res[x] = self.type()
                self.expect(')')
            elif x == 'range':
                self.next()
                self.parens()
            else:
                return res

    def parens(self):
        self.expect('(')
        d = 1
        while d:
            y = self.next()
            if y == '(':
                d += 1
            elif y == ')':
                d -= 1

    def value(self, ty):
        """operand of given type -> ('r',name) | ('c',int) | ('g',name) |
        ('ce',...) | ('u',) | ('agg', [...])"""
        x = self.next()
        c = x[0]
        if c == '%':
            return ('r', x)
        if c == '@':
            return ('g', x)
        if c == '-' or c.isdigit():
            if ty[0] == 'i':
                return ('c', int(x) & ((1 << ty[1]) - 1))
            return ('flt', x)
        if x == 'true':
            return ('c', 1)
        if x == 'false':
            return ('c', 0)
        if x == 'null':
            return ('c', 0)
        if x == 'undef' or x == 'poison':
            return ('u', ty)
        if x == 'zeroinitializer':
            return ('z', ty)
        if x[:2] == 'c"':
            return ('str', cstr(x[2:-1]))
        if x == '[' or x == '{' or (x == '<' and self.peek() == '{'):
            close = {'[': ']', '{': '}'}.get(x)
            packed = False
            if x == '<':
                self.next()
                close = '}'
                packed = True
            l = []
            if self.peek() != close:
                while True:
                    t = self.type()
                    l.append((t, self.value(t)))
                    if not self.accept(','):
                        break
            self.expect(close)
            if packed:
                self.expect('>')
            return ('agg', l)
        if x == 'getelementptr':
            self.attrs()
            self.expect('(')
            st = self.type()
            self.expect(',')
            t = self.type()
            base = self.value(t)
            idx = []
            while self.accept(','):
                self.accept('inrange')
                t = self.type()
                idx.append((t, self.value(t)))
            self.expect(')')
            return ('gep', st, base, idx)
        if x in ('inttoptr', 'ptrtoint', 'bitcast', 'trunc', 'zext', 'sext'):
            self.expect('(')
            t = self.type()
            v = self.value(t)
            self.expect('to')
            t2 = self.type()
            self.expect(')')
            return ('cast', x, t, v, t2)
        if x in ('add', 'sub', 'mul', 'xor', 'and', 'or', 'shl', 'lshr'):
            self.attrs()
            self.expect('(')
            t = self.type()
            a = self.value(t)
            self.expect(',')
            t = self.type()
            b = self.value(t)
            self.expect(')')
            return ('bin', x, t, a, b)
        if x == 'asm':
            raise Unsupported('inline asm')
        raise SyntaxError('value? %s in %s' % (x, ' '.join(self.t)[:200]))


def cstr(s):
    out = bytearray()
    i = 0
    while i < len(s):
        if s[i] == '\\':
            if s[i + 1] == '\\':
                out.append(92)
                i += 2
            else:
                out.append(int(s[i + 1:i + 3], 16))
                i += 3
        else:
            out.append(ord(s[i]))
            i += 1
    return bytes(out)


class Func(object):
    __slots__ = ('name', 'ret', 'params', 'vararg', 'lines', 'blocks', 'order', 'entry', 'compiled',
                 'addr', 'nregs', 'file', 'byval')


class Module(object):
    def __init__(self, text):
        self.types = {}
        self.globals = {}
        self.funcs = {}
        self.decls = {}
        self._parse(text)
        self._sz = {}

    def _parse(self, text):
        lines = text.split('\n')
        i = 0
        n = len(lines)
        while i < n:
            l = lines[i]
            if not l or l[0] in ';!' or l.startswith(('source_filename', 'target', 'attributes', '$', 'module')):
                i += 1
                continue
            if l[0] == '%':
                p = P(self, tokenize(strip(l)))
                nm = p.next()
                p.expect('=')
                p.expect('type')
                self.types[nm] = p.type()
            elif l[0] == '@':
                self._global(l)
            elif l.startswith('declare'):
                m = re.search(r'(@[-\w$.]+|@"[^"]*")\(', l)
                self.decls[m.group(1)] = l
            elif l.startswith('define'):
                f = self._header(l)
                j = i + 1
                while lines[j] != '}':
                    j += 1
                f.lines = lines[i + 1:j]
                self.funcs[f.name] = f
                i = j
            i += 1

    def _global(self, l):
        toks = tokenize(strip(l))
        p = P(self, toks)
        nm = p.next()
        p.expect('=')
        const = False
        ext = False
        while True:
            x = p.next()
            if x == 'global':
                break
            if x == 'constant':
                const = True
                break
            if x in ('external', 'extern_weak'):
                ext = True
            if x == 'alias':
                return
            if x in ('thread_local', 'addrspace'):
                if p.peek() == '(':
                    p.parens()
        t = p.type()
        init = None
        if not ext:
            init = p.value(t)
        self.globals[nm] = (t, init, const)

    def _header(self, l):
        l = strip(l)
        p = P(self, tokenize(l))
        p.expect('define')
        while p.peek() in ATTRS or p.peek() in ('internal', 'private', 'linkonce_odr', 'weak', 'hidden', 'protected',
                                                'weak_odr', 'default', 'linkonce', 'available_externally'):
            p.next()
        p.attrs()
        f = Func()
        f.ret = p.type()
        f.name = p.next()
        p.expect('(')
        f.params = []
        f.byval = []
        f.vararg = False
        while p.peek() != ')':
            if p.accept('...'):
                f.vararg = True
                continue
            t = p.type()
            a = p.attrs()
            nm = p.next() if p.peek() not in (',', ')') else '%' + str(len(f.params))
            f.params.append((t, nm))
            f.byval.append(a.get('byval'))
            p.accept(',')
        f.compiled = None
        return f

    # ---- layout
    def resolve(self, t):
        while t[0] == 'n':
            t = self.types[t[1]]
        return t

    def size(self, t):
        """(size, align) in bytes"""
        r = self._sz.get(t)
        if r:
            return r
        t0 = t
        t = self.resolve(t)
        k = t[0]
        if k == 'i':
            n = (t[1] + 7) // 8
            s = 1
            while s < n:
                s *= 2
            r = (s, min(s, 16))
        elif k == 'p':
            r = (8, 8)
        elif k == 'a':
            s, a = self.size(t[2])
            r = (s * t[1], a)
        elif k == 's':
            o = 0
            al = 1
            for f in t[1]:
                s, a = self.size(f)
                if t[2]:
                    a = 1
                o = (o + a - 1) // a * a + s
                al = max(al, a)
            r = ((o + al - 1) // al * al, al)
        elif k == 'f':
            r = {'float': (4, 4), 'double': (8, 8), 'x86_fp80': (16, 16)}.get(t[1], (16, 16))
        elif k == 'fn':
            r = (1, 1)
        else:
            raise Unsupported('sizeof %s' % (t,))
        self._sz[t0] = r
        return r

    def field(self, t, i):
        t = self.resolve(t)
        o = 0
        for j, f in enumerate(t[1]):
            s, a = self.size(f)
            if t[2]:
                a = 1
            o = (o + a - 1) // a * a
            if j == i:
                return o, f
            o += s
        raise IndexError

    def body(self, f):
        """parse the function body into f.blocks: name -> list of instr tuples"""
        blocks = {}
        order = []
        cur = None
        nunnamed = None
        lines = f.lines
        i = 0
        n = len(lines)
        first = True
        while i < n:
            l = lines[i]
            i += 1
            if not l.strip() or l.lstrip().startswith(';'):
                continue
            m = re.match(r'^("[^"]*"|[-\w$.]+):', l)
            if m:
                nm = m.group(1)
                cur = []
                blocks['%' + nm] = cur
                order.append('%' + nm)
                first = False
                continue
            if first:
                # unnamed entry block: number follows the unnamed params
                k = 0
                for t, nm in f.params:
                    if nm[1:].isdigit():
                        k += 1
                cur = []
                blocks['%' + str(k)] = cur
                order.append('%' + str(k))
                first = False
            s = strip(l)
            if s.lstrip().startswith('switch'):
                while not s.rstrip().endswith(']'):
                    s += ' ' + strip(lines[i])
                    i += 1
            if '@llvm.dbg.' in s:
                continue
            cur.append(s.strip())
        f.order = order
        f.entry = order[0]
        out = {}
        for nm in order:
            out[nm] = [self.instr(s) for s in blocks[nm]]
        f.blocks = out
        return f

    def instr(self, s):
        p = P(self, tokenize(s))
        dst = None
        if p.peek(1) == '=' and p.peek()[0] == '%':
            dst = p.next()
            p.next()
        op = p.next()
        while op in ('tail', 'musttail', 'notail'):
            op = p.next()
        if op in ('add', 'sub', 'mul', 'xor', 'and', 'or', 'shl', 'lshr', 'ashr', 'udiv', 'urem', 'sdiv', 'srem'):
            fl = []
            while p.peek() in ('nuw', 'nsw', 'exact', 'disjoint'):
                fl.append(p.next())
            t = p.type()
            a = p.value(t)
            p.expect(',')
            b = p.value(t)
            return ('bin', dst, op, t, a, b, tuple(fl))
        if op == 'icmp':
            pr = p.next()
            if pr == 'samesign':
                pr = p.next()
            t = p.type()
            a = p.value(t)
            p.expect(',')
            b = p.value(t)
            return ('icmp', dst, pr, t, a, b)
        if op in ('zext', 'sext', 'trunc', 'ptrtoint', 'inttoptr', 'bitcast'):
            p.attrs()
            t = p.type()
            a = p.value(t)
            p.expect('to')
            t2 = p.type()
            return ('cast', dst, op, t, a, t2)
        if op == 'load':
            p.accept('atomic')
            p.accept('volatile')
            t = p.type()
            p.expect(',')
            t2 = p.type()
            a = p.value(t2)
            return ('load', dst, t, a)
        if op == 'store':
            p.accept('atomic')
            p.accept('volatile')
            t = p.type()
            v = p.value(t)
            p.expect(',')
            t2 = p.type()
            a = p.value(t2)
            return ('store', dst, t, v, a)
        if op == 'getelementptr':
            p.attrs()
            st = p.type()
            p.expect(',')
            t = p.type()
            base = p.value(t)
            idx = []
            while p.accept(','):
                if p.peek() == '!':
                    break
                t = p.type()
                idx.append((t, p.value(t)))
            return ('gep', dst, st, base, idx)
        if op == 'alloca':
            t = p.type()
            n = ('c', 1)
            nt = ity(64)
            if p.accept(','):
                if p.peek() != 'align':
                    nt = p.type()
                    n = p.value(nt)
            return ('alloca', dst, t, nt, n)
        if op == 'phi':
            t = p.type()
            inc = []
            while True:
                p.expect('[')
                v = p.value(t)
                p.expect(',')
                b = p.next()
                p.expect(']')
                inc.append((v, b))
                if not p.accept(','):
                    break
            return ('phi', dst, t, inc)
        if op == 'br':
            if p.accept('label'):
                return ('jmp', None, p.next())
            t = p.type()
            c = p.value(t)
            p.expect(',')
            p.expect('label')
            a = p.next()
            p.expect(',')
            p.expect('label')
            b = p.next()
            return ('br', None, c, a, b)
        if op == 'switch':
            t = p.type()
            v = p.value(t)
            p.expect(',')
            p.expect('label')
            d = p.next()
            p.expect('[')
            cs = []
            while not p.accept(']'):
                t2 = p.type()
                c = p.value(t2)
                p.expect(',')
                p.expect('label')
                cs.append((c[1], p.next()))
            return ('switch', None, t, v, d, cs)
        if op == 'ret':
            t = p.type()
            if t == VOID:
                return ('ret', None, t, None)
            return ('ret', None, t, p.value(t))
        if op == 'select':
            t0 = p.type()
            c = p.value(t0)
            p.expect(',')
            t = p.type()
            a = p.value(t)
            p.expect(',')
            p.type()
            b = p.value(t)
            return ('select', dst, t, c, a, b)
        if op == 'freeze':
            t = p.type()
            return ('freeze', dst, t, p.value(t))
        if op == 'call':
            p.attrs()
            t = p.type()
            if t[0] == 'fn':
                t = t[1]
            if p.peek() == 'asm':
                raise Unsupported('inline asm')
            callee = p.value(PTR)
            p.expect('(')
            args = []
            while not p.accept(')'):
                at = p.type()
                if at[0] == 'meta':
                    while p.peek() not in (',', ')'):
                        if p.peek() == '(':
                            p.parens()
                        else:
                            p.next()
                    p.accept(',')
                    continue
                aa = p.attrs()
                args.append((at, p.value(at), aa.get('byval')))
                p.accept(',')
            return ('call', dst, t, callee, args)
        if op == 'unreachable':
            return ('unreachable', None)
        if op == 'extractvalue':
            t = p.type()
            v = p.value(t)
            idx = []
            while p.accept(','):
                idx.append(int(p.next()))
            return ('extractvalue', dst, t, v, idx)
        if op == 'insertvalue':
            t = p.type()
            v = p.value(t)
            p.expect(',')
            t2 = p.type()
            e = p.value(t2)
            idx = []
            while p.accept(','):
                idx.append(int(p.next()))
            return ('insertvalue', dst, t, v, t2, e, idx)
        raise Unsupported('instruction: ' + s)


def strip(l):
    """drop trailing metadata, attribute groups and comments"""
    if '!' in l and ', !' in l:
        k = find_outside(l, ', !')
        if k >= 0:
            l = l[:k]
    if ' #' in l:
        l = re.sub(r' #\d+(?=( |$|,))', '', l)
    if '; preds' in l:
        l = l[:l.index('; preds')]
    return l


def find_outside(l, pat):
    q = False
    i = 0
    n = len(l)
    if '"' not in l:
        return l.find(pat)
    while i < n:
        c = l[i]
        if c == '"':
            q = not q
        elif not q and l.startswith(pat, i):
            return i
        i += 1
    return -1
